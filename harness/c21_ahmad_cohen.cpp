// C21: Ahmad-Cohen forces for every history of moves and force requests, against a model of the refresh rule.
#include "forces.h"
using namespace mc;

//! Bodies at the last full recomputation and who was near whom
struct Model
{
	size_t	rate;
	double	dist, force;
	bool	used = false, tie = false;
	Bodies	ref;
	std::vector<char>	near;		// i * n + j

	Model(size_t r, double d, double f) : rate(r), dist(d), force(f) {}
	bool full(size_t step) const { return rate == 0 || !used || step % rate == 0; }
	//! Expected acceleration at state b, requested in the given step
	std::vector<Acc> request(const Bodies& b, size_t step)
	{
		size_t	n = b.n();
		if(full(step))
		{
			used = true;
			ref = b;
			near.assign(n * n, 0);
			for(size_t i = 0; i != n; ++i) for(size_t j = 0; j != n; ++j)
			{
				if(i == j) { continue; }
				LD	r2 = 0;
				for(int k = 0; k != 3; ++k) { LD d = LD(b.r(i, k)) - b.r(j, k); r2 += d * d; }
				LD	q = std::max(r2, SOFT), f2 = LD(b.m[i]) * b.m[j] / q / sqrtl(q), lim = LD(dist) * dist, flim = LD(force) * force;
				f2 = f2 * f2 * r2;
				// right at a limit rounding decides
				if(fabsl(r2 - lim) <= 1e-9L * lim || fabsl(f2 - flim) <= 1e-9L * flim) { tie = true; }
				near[i * n + j] = r2 < lim || f2 > flim;
			}
		}
		std::vector<Acc>	res(n, Acc{});
		for(size_t i = 0; i != n; ++i) for(size_t j = 0; j != n; ++j)
		{
			if(i == j) { continue; }
			const Bodies&	s = near[i * n + j] ? b : ref;
			LD	p[3] = { s.r(i, 0), s.r(i, 1), s.r(i, 2) }, c[3] = { s.r(j, 0), s.r(j, 1), s.r(j, 2) };
			add_point(res[i], p, c, b.m[j], 0);
		}
		return res;
	}
};

static std::string compare(const std::vector<double>& f, const std::vector<Acc>& a)
{
	size_t	n = a.size();
	for(size_t i = 0; i != n; ++i) for(int k = 0; k != 3; ++k)
	{
		LD	tol = EPS * (16 + 4 * n) * a[i].abs + 1e-290L, g = f[(3 + k) * n + i];
		if(!(fabsl(g - a[i].a[k]) <= tol)) { return fmt("acceleration of body %zu axis %d is %.17Lg instead of %.17Lg (tolerance %.3Lg)", i, k, g, a[i].a[k], tol); }
	}
	return "";
}

//! Moves of all bodies: none, swap, spread, gather, far away, drift
static const int	MOVES = 6;
static void move(Bodies& b, int m, size_t round)
{
	size_t	n = b.n();
	switch(m)
	{
	case 0: break;
	case 1: for(size_t i = 0; i + 1 < n; i += 2) for(int k = 0; k != 3; ++k) { std::swap(b.y[k * n + i], b.y[k * n + i + 1]); } break;
	case 2: for(size_t i = 0; i != 3 * n; ++i) { b.y[i] *= 2.1; } break;
	case 3: for(size_t i = 0; i != 3 * n; ++i) { b.y[i] *= 0.3; } break;
	case 4: for(int k = 0; k != 3; ++k) { b.y[k * n + (round % n)] += 17 + 3 * k; } break;
	case 5: for(size_t i = 0; i != n; ++i) for(int k = 0; k != 3; ++k) { b.y[k * n + i] += 0.37 * ((i + k + round) % 3) - 0.31; } break;
	}
	for(size_t i = 3 * n; i != 6 * n; ++i) { b.y[i] += 1 + round; }
}

static const double	P[][3] = { { 0, 0, 0 }, { 1.1, 0.2, -0.3 }, { -2.3, 0.4, 0.7 }, { 0.6, 3.7, -1.9 } };
static const double	M[] = { 1, 0.25, 40, 3 };
struct Limits { double dist, force; };
static const Limits	LIMITS[] = { { 2.03, 1e300 }, { 0, 0.517 }, { 1.43, 3.17 }, { 1e9, 1e300 }, { 0, 1e300 }, { 0, 0 } };

int main(int argc, char** argv)
{
	init(argc, argv);
	const size_t	STEPS[] = { 0, 1, 2 };
	for(size_t n = 1; n <= 4; ++n) for(size_t rate : { 0, 1, 2, 3, 5 }) for(size_t start : { 0, 1, 4 }) for(size_t li = 0; li != sizeof LIMITS / sizeof LIMITS[0]; ++li)
	{
		size_t	depth = n == 1 ? 2 : thorough() ? (n == 3 ? 5 : 4) : 3;
		Chooser	c(true);
		do
		{
			std::vector<std::pair<int, size_t>>	h;
			for(size_t i = 0; i != depth; ++i) { int m = c.choose(MOVES); h.push_back(std::make_pair(m, STEPS[c.choose(3)])); }
			if(!begin(fmt("h:%zu:%zu:%zu:%zu:", n, rate, start, li) + c.str())) { continue; }
			Bodies	b;
			b.resize(n);
			for(size_t i = 0; i != n; ++i) { b.set(i, P[i][0], P[i][1], P[i][2]); b.m[i] = M[i]; }
			Rig		g(new nbody_engine_ah(rate, LIMITS[li].dist, LIMITS[li].force), b);
			Model	md = { rate, LIMITS[li].dist, LIMITS[li].force };
			size_t	step = start;
			std::string	e;
			for(size_t i = 0; i <= h.size() && e.empty(); ++i)
			{
				if(i) { move(b, h[i - 1].first, i); step += h[i - 1].second; }
				g.e->set_step(step);
				std::vector<double>	f = g.forces(b, 0.25 * i, e);
				std::vector<Acc>	a = md.request(b, step);
				++S().transitions;
				if(md.tie) { break; }
				if(e.empty()) { e = compare(f, a); }
				if(!e.empty()) { e = fmt("request %zu in step %zu: ", i, step) + e; }
			}
			if(md.tie) { ++S().extra["ties_skipped"]; continue; }
			if(!e.empty()) { fail(e); }
			else { ++S().traces; }
		}
		while(c.next());
	}
	// every body count, long histories of steps as a solver makes them (two requests per step), threads
	std::vector<size_t>	ns;
	for(size_t n = 1; n <= (thorough() ? 150u : 60u); ++n) { ns.push_back(n); }
	for(size_t n : { 64, 65, 66, 127, 128, 129, 257 }) { ns.push_back(n); }
	for(size_t n : ns) for(int lay : { 0, 1, 2, 3, 4 }) for(size_t rate : { 1, 3, 7 }) for(int threads : { 1, 3 })
	{
		if(!begin(fmt("n:%zu:%d:%zu:%d", n, lay, rate, threads))) { continue; }
		++S().states;
		omp_set_num_threads(threads);
		Bodies	b = layout(lay, n);
		for(double dist : { 0.7713, 2.613, 1e9 })
		{
			Rig		g(new nbody_engine_ah(rate, dist, 30.71), b);
			Model	md = { rate, dist, 30.71 };
			std::string	e;
			Bodies	x(b);
			for(size_t step = 0; step != 2 * rate + 2 && e.empty() && !md.tie; ++step)
			{
				g.e->set_step(step + 1);
				for(int q = 0; q != 2 && e.empty(); ++q)
				{
					for(size_t i = 0; i != 3 * n; ++i) { x.y[i] += 0.013 * ((i + step + q) % 7) - 0.031; }
					std::vector<double>	f = g.forces(x, step, e);
					std::vector<Acc>	a = md.request(x, step + 1);
					++S().transitions;
					if(e.empty() && !md.tie) { e = compare(f, a); }
				}
			}
			if(md.tie) { ++S().extra["ties_skipped"]; continue; }
			if(!e.empty()) { fail(e); }
			else { ++S().traces; }
		}
	}
	return finish();
}
