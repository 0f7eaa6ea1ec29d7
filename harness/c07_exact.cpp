// C07: exact engines against the direct sum in extended precision, on all lattice configurations and structured sets.
#include "forces.h"
using namespace mc;

static const double P[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, -2, 0 }, { 0, 0, 3e-5 }, { 6e-5, 6e-5, 0 }, { -1.1e-4, 0, 2e-5 },
							   { -1e5, 2e5, 7 }, { 1, 1e-7, 0 }, { 1, 1, 1 } };
static const double M[][4] = { { 1, 1, 1, 1 }, { 1, 1e-3, 1e5, 7 }, { 1e12, 1e-12, 3, 0.125 } };

static std::vector<Kind> kinds()
{
	std::vector<Kind>	k = { { 's', 0, 0, 0 }, { 'o', 0, 0, 0 }, { 'b', 0, 0, 0 }, { 'a', 1, 0, 1 }, { 'a', 0, 0, 0 } };
	for(const Kind& b : bh_kinds(1e30, 0)) { k.push_back(b); }
	return k;
}

static std::string once(Rig& g, const Kind& k, const Bodies& b, double t)
{
	std::string	err;
	std::vector<double>	f = g.forces(b, t, err);
	++S().transitions;
	if(err.empty()) { err = diff_direct(b, f, k.bh()); }
	return err;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	std::vector<Kind>	ks = kinds();
	size_t	maxn = thorough() ? 5 : 4;
	const int	np = sizeof P / sizeof P[0];
	// all placements of up to four bodies on the lattice, times masses, on every engine; engines are reused so that
	// each configuration is also computed after the ones before it
	for(size_t n = 1; n <= maxn; ++n)
	{
		Chooser	c(true);
		do
		{
			Bodies	b;
			b.resize(n);
			for(size_t i = 0; i != n; ++i) { const double* p = P[c.choose(n < 5 ? np : 5)]; b.set(i, p[0], p[1], p[2]); }
			int		mm = c.choose(3);
			for(size_t i = 0; i != n; ++i) { b.m[i] = M[mm][i % 4]; }
			if(!begin(fmt("lat:%zu:", n) + c.str())) { continue; }
			for(const Kind& k : ks)
			{
				Rig	g(k, b);
				std::string	e = once(g, k, b, 0.5);
				if(!e.empty()) { fail("engine " + k.str() + ": " + e); break; }
				++S().traces;
			}
		}
		while(c.next());
	}
	// histories: the same engine computes A, B, A at changing steps and times
	{
		Chooser	c(true);
		do
		{
			Bodies	s[3];
			for(int j = 0; j != 2; ++j)
			{
				s[j].resize(3);
				for(size_t i = 0; i != 3; ++i) { const double* p = P[(c.choose(j ? 4 : 5) * 3 + j * 2 + i) % np]; s[j].set(i, p[0], p[1], p[2]); s[j].m[i] = 1 + i; }
			}
			s[2] = s[0];
			if(!begin("hist:" + c.str())) { continue; }
			for(const Kind& k : ks)
			{
				Rig	g(k, s[0]);
				std::string	e;
				size_t	step[] = { 0, 1, 1000 };
				for(int j = 0; j != 3 && e.empty(); ++j)
				{
					g.e->set_step(step[j]);
					g.e->set_time(0.1 * j);
					e = once(g, k, s[j], 7.5 - j);
				}
				if(!e.empty()) { fail("engine " + k.str() + ": " + e); break; }
				++S().traces;
			}
		}
		while(c.next());
	}
	// every body count, structured sets, one and several threads
	for(size_t n = 1; n <= (thorough() ? 300 : 140); ++n)
	{
		for(int l = 0; l != LAYOUTS; ++l)
		{
			for(int threads : { 1, 3 })
			{
				if(threads == 3 && n % 3 != 1) { continue; }
				if(!begin(fmt("set:%zu:%d:t%d", n, l, threads))) { continue; }
				omp_set_num_threads(threads);
				Bodies	b = layout(l, n);
				for(const Kind& k : ks)
				{
					Rig	g(k, b);
					std::string	e = once(g, k, b, 0);
					if(!e.empty()) { fail("engine " + k.str() + ": " + e); break; }
					++S().states;
					++S().traces;
				}
			}
		}
	}
	for(size_t n : big_counts()) for(int l : { 0, 2, 3 }) for(const Kind& k : ks)
	{
		if(!begin(fmt("big:%zu:%d:", n, l) + k.str())) { continue; }
		omp_set_num_threads(l == 2 ? 3 : 1);
		Bodies	b = layout(l, n);
		Rig	g(k, b);
		std::string	e = once(g, k, b, 0);
		if(!e.empty()) { fail("engine " + k.str() + ": " + e); continue; }
		++S().states;
		++S().traces;
	}
	return finish();
}
