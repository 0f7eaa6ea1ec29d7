// C19: extrapolation schemes against interpolation at zero in extended precision, Bulirsch-Stoer steps against extrapolated
// midpoint integrations for every stopping level.
#include "refsolver.h"
using namespace mc;

//! Weights of the value at zero of the polynomial through samples lo...hi at x = n^-order
static VL lagrange(const std::vector<size_t>& n, int order, size_t lo, size_t hi)
{
	VL	w(hi + 1, 0);
	for(size_t i = lo; i <= hi; ++i)
	{
		w[i] = 1;
		LD	xi = powl(n[i], -order);
		for(size_t j = lo; j <= hi; ++j) { if(j != i) { LD xj = powl(n[j], -order); w[i] *= xj / (xj - xi); } }
	}
	return w;
}

static VL berrut(const std::vector<size_t>& n, int order, size_t hi)
{
	VL	w(hi + 1, 0);
	LD	s = 0;
	for(size_t i = 0; i <= hi; ++i) { w[i] = (i % 2 ? -1 : 1) * powl(n[i], order); s += w[i]; }
	for(LD& x : w) { x /= s; }
	return w;
}

static std::string compare(const V& got, const VL& want, const char* what, size_t level, LD mag)
{
	for(size_t i = 0; i != got.size(); ++i)
	{
		if(!(fabsl(got[i] - want[i]) <= 1e-13L * mag)) { return fmt("%s at level %zu: component %zu is %.17g instead of %.17Lg", what, level, i, got[i], want[i]); }
	}
	return "";
}

static LD mag_of(const VL& w) { LD m = 0; for(LD x : w) { m += fabsl(x); } return m; }

//! passes: lengths of successive fillings of the table
static void extrapolator(const char* type, int order, const std::vector<size_t>& n, const std::vector<size_t>& passes)
{
	Mock	m(n.size() + 1);
	std::unique_ptr<nbody_extrapolator>	x(nbody_create_extrapolator(type, &m, order, n));
	if(!x) { fail("no such extrapolator"); return; }
	bool	nev = !strcmp(type, "neville");
	auto	*src = static_cast<Mock::mem*>(m.create_buffer(8 * m.n)), *dst = static_cast<Mock::mem*>(m.create_buffer(8 * m.n));
	std::string	e;
	for(size_t p = 0; p != passes.size() && e.empty(); ++p)
	{
		for(size_t k = 0; k != passes[p] && e.empty(); ++k)
		{
			// sample k: unit vector k, plus a component that is one everywhere but differs between passes
			src->d.assign(m.n, 0);
			src->d[k] = 1;
			src->d[n.size()] = double(p) + 2;
			src->init = true;
			V	keep = src->d;
			x->update_table(k, src);
			if(src->d != keep) { e = "the sample was changed"; break; }
			VL	w = nev ? lagrange(n, order, 0, k) : berrut(n, order, k), prev;
			LD	mag = mag_of(w), cond = 1;
			for(size_t i = 0; i <= k; ++i) for(size_t j = i + 1; j <= k; ++j) { cond = std::max(cond, mag_of(lagrange(n, order, i, j))); }
			LD	scale = nev ? cond * (p + 3) * (k + 1) : mag * (p + 3) * (k + 1);
			VL	want(m.n, 0);
			for(size_t i = 0; i <= k; ++i) { want[i] = w[i]; }
			want[n.size()] = p + 2;
			for(int again = 0; again != 2 && e.empty(); ++again)
			{
				dst->d.assign(m.n, 99);
				dst->init = true;
				x->extrapolate(k, dst);
				e = compare(dst->d, want, again ? "second extrapolation" : "extrapolation", k, scale);
				if(!e.empty() || k == 0) { continue; }
				// error estimate: difference of the last two approximations
				if(nev) { prev = lagrange(n, order, 1, k); }
				else { prev = berrut(n, order, k - 1); prev.push_back(0); }
				VL	diff(m.n, 0);
				LD	dm = 0;
				for(size_t i = 0; i <= k; ++i) { diff[i] = w[i] - prev[i]; dm = std::max(dm, fabsl(diff[i])); }
				double	est = x->estimate_error(k);
				if(!(fabsl(est - dm) <= 1e-13L * scale)) { e = fmt("error estimate at level %zu is %.17g instead of %.17Lg", k, est, dm); }
			}
			if(e.empty() && k == 0 && !(x->estimate_error(0) > 1e300)) { e = "a single sample has an error estimate"; }
			++S().transitions;
		}
	}
	x.reset();
	m.free_buffer(src);
	m.free_buffer(dst);
	if(e.empty()) { e = m.problem; }
	if(e.empty() && m.extra_buffers()) { e = "buffers were not released"; }
	if(!e.empty()) { fail(e); }
	else { ++S().traces; }
}

static std::vector<size_t> bs_sequence(size_t n)
{
	std::vector<size_t>	r = { 2, 4, 6 };
	while(r.size() < n) { r.push_back(2 * r[r.size() - 2]); }
	r.resize(n);
	return r;
}

//! levels[i]: level at which step i has to stop (scripted), or -1 for the true estimate
static std::string bs(int max_level, int rhs, double dt, double t0, double thr, const std::vector<int>& stops, bool jumps, bool* skip)
{
	const size_t	dim = 3;
	Mock			m(dim);
	m.rhs = mock_rhs(rhs);
	m.ymem->d = V{ 0.25, -0.5, 0.75 };
	m.time = t0;
	m.step = 3;
	std::vector<size_t>	n = bs_sequence(max_level);
	VL				y(m.ymem->d.begin(), m.ymem->d.end());
	QVariantMap		p;
	p["max_level"] = max_level;
	p["error_threshold"] = thr;
	nbody_solver*	s = make_solver("bs", p);
	s->set_engine(&m);
	std::string		e;
	double			t = t0;
	for(size_t st = 0; st != stops.size() && e.empty(); ++st)
	{
		if(jumps && st)
		{
			for(double& x : m.ymem->d) { x = 0.5 - x; }
			m.time += 0.25;
			t += 0.25;
		}
		y = VL(m.ymem->d.begin(), m.ymem->d.end());			// judged step by step
		std::vector<VL>	sample;
		std::vector<VL>	diffs;
		VL				res;
		int				stop = -1;
		LD				cond = 1;
		for(int k = 0; k < max_level && stop < 0; ++k)
		{
			RefStetter	r;
			r.f = ref_rhs(rhs);
			VL	z(y);
			for(size_t i = 0; i != n[k]; ++i) { r.step(z, t + i * (LD(dt) / n[k]), LD(dt) / n[k]); }
			sample.push_back(z);
			for(int i = 0; i < k; ++i) { cond = std::max(cond, mag_of(lagrange(n, 2, i, k))); }
			VL	w = lagrange(n, 2, 0, k), w1 = k ? lagrange(n, 2, 1, k) : VL(1, 0), d(dim, 0);
			res.assign(dim, 0);
			for(int i = 0; i <= k; ++i) { res = axpy(res, w[i], sample[i]); d = axpy(d, w[i] - w1[i], sample[i]); }
			diffs.push_back(d);
			LD	est = 0;
			for(LD x : d) { est = std::max(est, fabsl(x)); }
			if(stops[st] < 0)
			{
				if(k >= 2 && fabsl(est - thr) < 1e-6L * thr + 1e-13L * cond) { *skip = true; }
				if(k == max_level - 1 || (k >= 2 && est < thr)) { stop = k; }
			}
			else if(k == max_level - 1 || k == stops[st]) { stop = k; }
			for(LD x : z) { if(!(fabsl(x) < 100)) { *skip = true; } }
		}
		if(*skip) { break; }
		size_t	pos = 0;
		std::string	bad;
		if(stops[st] >= 0)
		{
			m.maximum = [&](const V& v)
			{
				// levels in order; the first two and the last need no estimate
				for(; pos < diffs.size(); ++pos)
				{
					bool	same = true;
					for(size_t i = 0; i != dim; ++i) { same = same && fabsl(v[i] - diffs[pos][i]) <= 2e-12L * cond; }
					if(same && pos >= 2 && int(pos) == stops[st]) { ++pos; return std::nextafter(thr, 0.0); }
					if(same) { ++pos; return thr; }
				}
				bad = "an error estimate is not the difference of the last two extrapolations, or a level too many is computed";
				return thr;
			};
		}
		else { m.maximum = nullptr; }
		s->advise(dt);
		++S().transitions;
		t += dt;
		if(!m.problem.empty()) { e = m.problem; }
		else if(!bad.empty()) { e = bad; }
		else if(!same_bits(m.time, t)) { e = fmt("time after the step is %.17g instead of %.17g", m.time, t); }
		else if(m.step != 4 + st) { e = fmt("step counter is %zu instead of %zu", m.step, 4 + st); }
		else { e = compare(m.ymem->d, res, fmt("step %zu stopping", st).c_str(), stop, 40 * cond); }
	}
	delete s;
	if(e.empty()) { e = m.problem; }
	if(e.empty() && m.extra_buffers()) { e = "buffers were not released"; }
	return e;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	// every increasing sequence of substep counts, every order, all lengths of two or three successive fillings
	const size_t	N = thorough() ? 10 : 8;
	for(const char* type : { "neville", "berrut" }) for(int order = 1; order <= 3; ++order) for(size_t set = 1; set < (1u << N); ++set)
	{
		std::vector<size_t>	n;
		for(size_t i = 0; i != N; ++i) { if(set >> i & 1) { n.push_back(i + 1); } }
		if(n.size() > 5 && order == 3) { continue; }
		for(size_t a = 1; a <= n.size(); ++a) for(size_t b = 1; b <= n.size(); ++b)
		{
			if(!begin(fmt("ext:%s:%d:%zx:%zu:%zu", type, order, set, a, b))) { continue; }
			++S().states;
			extrapolator(type, order, n, { a, b, n.size() });
		}
	}
	// every order of few counts (polynomials only)
	for(int order = 1; order <= 2; ++order)
	{
		std::vector<size_t>	n = { 1, 2, 3, 5, 8 };
		do
		{
			if(!begin(fmt("perm:%d:%zu%zu%zu%zu%zu", order, n[0], n[1], n[2], n[3], n[4]))) { continue; }
			++S().states;
			extrapolator("neville", order, n, { 5, 3, 5 });
		}
		while(std::next_permutation(n.begin(), n.end()));
	}
	for(const char* type : { "neville", "berrut" }) for(int order = 1; order <= 2; ++order) for(size_t len = 1; len <= 10; ++len)
	{
		for(int seq = 0; seq != 2; ++seq)
		{
			std::vector<size_t>	n = bs_sequence(len);
			if(seq) { for(size_t i = 0; i != len; ++i) { n[i] = 2 * (i + 1); } }
			if(!begin(fmt("seq:%s:%d:%zu:%d", type, order, len, seq))) { continue; }
			++S().states;
			extrapolator(type, order, n, { len, (len + 1) / 2, len });
		}
	}
	// steps with every sequence of stopping levels
	for(int rhs = 0; rhs != 7; ++rhs) for(double dt : { 0.25, 0.05, 1e-3 }) for(double t0 : { 0.0, -1.5 }) for(int max_level = 1; max_level <= 8; ++max_level)
	{
		int	opts = std::max(1, max_level - 2 + 1);		// stop at 2 ... max_level - 1 or never
		for(int a = 0; a != opts; ++a) for(int b = 0; b != opts; ++b) for(int jumps = 0; jumps != 2; ++jumps)
		{
			if(!begin(fmt("stop:%d:%g:%g:%d:%d:%d:%d", rhs, dt, t0, max_level, a, b, jumps))) { continue; }
			++S().states;
			bool		skip = false;
			std::string	e = bs(max_level, rhs, dt, t0, 1e-7, { a + 2, b + 2, a + 2 }, jumps, &skip);
			if(skip) { ++S().extra["skipped"]; continue; }
			if(!e.empty()) { fail(e); }
			else { ++S().traces; }
		}
		for(int k = 0; k <= 28; ++k)
		{
			if(!begin(fmt("real:%d:%g:%g:%d:%d", rhs, dt, t0, max_level, k))) { continue; }
			++S().states;
			bool		skip = false;
			std::string	e = bs(max_level, rhs, dt, t0, pow(10, -k * 0.5), { -1, -1, -1 }, true, &skip);
			if(skip) { ++S().extra["skipped"]; continue; }
			if(!e.empty()) { fail(e); }
			else { ++S().traces; }
		}
	}
	return finish();
}
