// C08: Barnes-Hut forces of every layout and traversal against the partition oracle, the error bound and the direct sum.
#include "partition.h"
using namespace mc;

static const double P[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 0.5, 0 }, { -7, 3, 1 }, { -7, 3, 1.25 }, { 0, 40, -30 }, { 0.1, 0.2, 0.3 } };
static const double M[][8] = { { 1, 1, 1, 1, 1, 1, 1, 1 }, { 1, 1e-3, 20, 3, 1e3, 0.5, 1e-6, 7 } };

static std::string one(const Kind& k, const Bodies& b, double ratio, bool few)
{
	Rig	g(k, b);
	std::string	e;
	std::vector<double>	f = g.forces(b, 0, e);
	++S().transitions;
	if(!e.empty()) { return e; }
	if(few) { return diff_partition(b, ratio, f); }
	return ratio > 1e20 ? diff_direct(b, f, true) : diff_bound(b, ratio, f);
}

int main(int argc, char** argv)
{
	init(argc, argv);
	if(big_part())
	{
		for(size_t n : big_counts()) for(int l : { 0, 2, 3 }) for(double ratio : { 10.0, 1e30 })
		{
			for(const Kind& k : bh_kinds(ratio, 0))
			{
				if(!begin(fmt("big:%zu:%d:%g:", n, l, ratio) + k.str())) { continue; }
				omp_set_num_threads(l == 2 ? 3 : 1);
				std::string	e = one(k, layout(l, n), ratio, false);
				if(!e.empty()) { fail("engine " + k.str() + ": " + e); continue; }
				++S().states;
				++S().traces;
			}
		}
		return finish();
	}
	std::vector<double>	ratios = { 1.5, 3, 10, 1e30 };
	for(size_t n = 1; n <= (thorough() ? 7 : 6); ++n)
	{
		int	np = n <= 4 ? 7 : n == 5 ? (thorough() ? 7 : 5) : n == 6 ? (thorough() ? 5 : 3) : 3;
		Chooser	c(true);
		do
		{
			Bodies	b;
			b.resize(n);
			for(size_t i = 0; i != n; ++i)
			{
				// a different part of the lattice for larger sets
				const double*	p = P[(c.choose(np) + (n > 4 ? 2 : 0)) % 7];
				b.set(i, p[0], p[1], p[2]);
			}
			int	mm = c.choose(n <= 4 ? 4 : 2);
			for(size_t i = 0; i != n; ++i) { b.m[i] = M[mm % 2][i]; }
			if(mm > 1) { for(size_t i = 0; i != 3 * n; ++i) { b.y[i] *= mm == 2 ? 1e22 : 1e70; } }	// any unit of length
			if(!begin(fmt("lat:%zu:", n) + c.str())) { continue; }
			bool	bad = false;
			for(double r : ratios) for(const Kind& k : bh_kinds(r, 0))
			{
				if(bad) { continue; }
				std::string	e = one(k, b, r, true);
				if(!e.empty()) { fail(fmt("engine %s ratio %g: ", k.str().c_str(), r) + e); bad = true; }
				else { ++S().traces; }
			}
		}
		while(c.next());
	}
	// pairs and triples seen from every distance around the opening limit: a probe moves away from a group
	for(double ratio : { 1.5, 2.0, 4.0, 10.0, 50.0 })
	{
		for(int shape = 0; shape != 6; ++shape) for(int mm = 0; mm != 4; ++mm) for(int dir = 0; dir != 3; ++dir) for(int step = 0; step != 40; ++step)
		{
			if(!begin(fmt("probe:%g:%d:%d:%d:%d", ratio, shape, mm, dir, step))) { continue; }
			static const double	G[6][4][3] =
			{
				{ { -1, 0, 0 }, { 1, 0, 0 }, { 1, 0, 0 }, { 1, 0, 0 } }, { { 0, -1, 0 }, { 0, 1, 0 }, { 0, 1, 0 }, { 0, -1, 0 } },
				{ { -1, -1, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 0, 0, -1 } }, { { 0, 0, -1 }, { 0, 0, 1 }, { 0, 0.5, 0 }, { 0.25, 0, 0 } },
				{ { -1, 0, 0 }, { -0.9, 0, 0 }, { 1, 0, 0 }, { 0.8, 0.1, 0 } }, { { -1, 1, -1 }, { 1, -1, 1 }, { 1, 1, 1 }, { -1, -1, -1 } }
			};
			static const double	W[4][4] = { { 1, 1, 1, 1 }, { 1, 1e-3, 1e-3, 1e-3 }, { 1e-3, 1, 1e-3, 1e-3 }, { 1, 3, 0.1, 10 } };
			Bodies	b;
			b.resize(5);
			for(int i = 0; i != 4; ++i) { b.set(i, G[shape][i][0], G[shape][i][1], G[shape][i][2]); b.m[i] = W[mm][i]; }
			double	dist = ratio * (0.4 + 0.075 * step);
			b.set(4, dir == 0 ? dist : 0.01, dir == 1 ? -dist : 0.02, dir == 2 ? dist : -0.03);
			b.m[4] = mm == 3 ? 5 : 1e-2;
			for(const Kind& k : bh_kinds(ratio, 0))
			{
				std::string	e = one(k, b, ratio, true);
				++S().states;
				if(!e.empty()) { fail("engine " + k.str() + ": " + e); break; }
				++S().traces;
			}
		}
	}
	// every body count, structured sets
	for(size_t n = 1; n <= (thorough() ? 520 : 140); ++n)
	{
		for(int l = 0; l != LAYOUTS; ++l)
		{
			for(double ratio : { 2.0, 10.0, 300.0, 1e30 })
			{
				if(!begin(fmt("set:%zu:%d:%g", n, l, ratio))) { continue; }
				Bodies	b = layout(l, n);
				omp_set_num_threads(n % 7 == 3 ? 3 : 1);
				for(const Kind& k : bh_kinds(ratio, 0))
				{
					std::string	e = one(k, b, ratio, false);
					if(!e.empty()) { fail("engine " + k.str() + ": " + e); break; }
					++S().states;
					++S().traces;
				}
			}
		}
	}
	return finish();
}
