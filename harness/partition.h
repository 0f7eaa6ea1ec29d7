// Oracle of Barnes-Hut forces for few bodies: the result must be the sum over some partition of the other bodies into
// groups acting from their mass centre, where a group of several bodies is only allowed at more than ratio times its radius.
#ifndef VERIF_PARTITION_H
#define VERIF_PARTITION_H
#include "forces.h"

struct Groups
{
	const Bodies&		b;
	size_t				n, target;
	double				ratio;
	std::vector<Acc>	contrib;	// per subset
	std::vector<char>	ok;
	LD					want[3];
	uint64_t			nodes = 0;
	LD					best = -1;

	Groups(const Bodies& _b, size_t t, double r, const std::vector<double>& f) : b(_b), n(_b.n()), target(t), ratio(r)
	{
		for(int k = 0; k != 3; ++k) { want[k] = f[(3 + k) * n + t]; }
		contrib.resize(size_t(1) << n);
		ok.assign(size_t(1) << n, 0);
		LD	p[3] = { b.r(t, 0), b.r(t, 1), b.r(t, 2) };
		for(size_t s = 1; s != size_t(1) << n; ++s)
		{
			if(s >> t & 1) { continue; }
			LD	c[3] = {}, m = 0, ext = 0;
			for(size_t j = 0; j != n; ++j)
			{
				if(!(s >> j & 1)) { continue; }
				m += b.m[j];
				for(int k = 0; k != 3; ++k) { c[k] += LD(b.m[j]) * b.r(j, k); ext = std::max(ext, fabsl(b.r(j, k))); }
			}
			for(int k = 0; k != 3; ++k) { c[k] /= m; ext = std::max(ext, fabsl(p[k])); }
			LD	rad = 0, d = 0;
			for(int k = 0; k != 3; ++k) { d += (c[k] - p[k]) * (c[k] - p[k]); }
			for(size_t j = 0; j != n; ++j)
			{
				LD	q = 0;
				if(!(s >> j & 1)) { continue; }
				for(int k = 0; k != 3; ++k) { q += (c[k] - b.r(j, k)) * (c[k] - b.r(j, k)); }
				rad = std::max(rad, q);
			}
			bool	single = (s & (s - 1)) == 0;
			ok[s] = single || sqrtl(d) * (1 + 1e-9L) > ratio * sqrtl(rad) - 1e-15L * ext;
			Acc		a = {};
			add_point(a, p, c, m, ext);
			contrib[s] = a;
		}
	}
	bool search(size_t rest, const Acc& sum)
	{
		++nodes;
		if(rest == 0)
		{
			LD	tol = 64 * EPS * sum.abs + 64 * EPS * sum.cond + 1e-290L, e = 0;
			for(int k = 0; k != 3; ++k) { e = std::max(e, fabsl(want[k] - sum.a[k])); }
			if(best < 0 || e < best) { best = e; }
			return e <= tol;
		}
		size_t	first = rest & (~rest + 1), others = rest ^ first;
		// every subset of the others together with the first one
		for(size_t s = others;; s = (s - 1) & others)
		{
			size_t	g = s | first;
			if(ok[g])
			{
				Acc	x = sum;
				const Acc&	c = contrib[g];
				for(int k = 0; k != 3; ++k) { x.a[k] += c.a[k]; }
				x.abs += c.abs;
				x.cond += c.cond;
				if(search(rest ^ g, x)) { return true; }
			}
			if(s == 0) { break; }
		}
		return false;
	}
	bool matches()
	{
		Acc	z = {};
		return search(((size_t(1) << n) - 1) ^ (size_t(1) << target), z);
	}
};

inline std::string diff_partition(const Bodies& b, double ratio, const std::vector<double>& f)
{
	for(size_t i = 0; i != b.n(); ++i)
	{
		Groups	g(b, i, ratio, f);
		bool	m = g.matches();
		mc::S().extra["partitions"] += g.nodes;
		if(!m)
		{
			Acc	a = direct(b, i);
			return mc::fmt("acceleration of body %zu is (%.17Lg, %.17Lg, %.17Lg): no partition of the other bodies into admissible groups gives it, "
						   "the nearest misses by %.3Lg; direct sum (%.17Lg, %.17Lg, %.17Lg)", i, g.want[0], g.want[1], g.want[2], g.best, a.a[0], a.a[1], a.a[2]);
		}
	}
	return "";
}

//! Bound of the truncated multipole series for larger sets
inline std::string diff_bound(const Bodies& b, double ratio, const std::vector<double>& f)
{
	LD	x = 1 / LD(ratio), bound = 3 * x * x * (1 + x) * (1 + x) / powl(1 - x, 4);
	for(size_t i = 0; i != b.n(); ++i)
	{
		Acc	a = direct(b, i);
		LD	e = 0, tol = bound * a.abs + EPS * (64 + 2 * b.n()) * (a.abs + a.cond) + 1e-290L;
		for(int k = 0; k != 3; ++k) { e += (f[(3 + k) * b.n() + i] - a.a[k]) * (f[(3 + k) * b.n() + i] - a.a[k]); }
		if(!(sqrtl(e) <= tol)) { return mc::fmt("acceleration of body %zu is off by %.6Lg, the bound is %.6Lg", i, sqrtl(e), tol); }
	}
	return "";
}
#endif
