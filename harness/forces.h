// Independent force oracles and engine construction shared by the engine checks.
#ifndef VERIF_FORCES_H
#define VERIF_FORCES_H
#include "common.h"
#include <omp.h>
#include <memory>
#include "nbody_data.h"
#include "nbody_engines.h"
#include "nbody_engine_simple.h"
#include "nbody_engine_openmp.h"
#include "nbody_engine_block.h"
#include "nbody_engine_ah.h"
#include "nbody_engine_simple_bh.h"

typedef long double LD;

//! Structure of arrays: rx[n] ry[n] rz[n] vx[n] vy[n] vz[n]
struct Bodies
{
	std::vector<double>	y, m;
	size_t n() const { return m.size(); }
	double r(size_t i, int k) const { return y[k * n() + i]; }
	double v(size_t i, int k) const { return y[(k + 3) * n() + i]; }
	void set(size_t i, double x, double yy, double z) { y[i] = x; y[n() + i] = yy; y[2 * n() + i] = z; }
	void resize(size_t c)
	{
		m.assign(c, 1);
		y.assign(6 * c, 0);
		for(size_t i = 0; i != c; ++i) for(int k = 0; k != 3; ++k) { y[(k + 3) * c + i] = 100.0 * i + k + 0.5; }
	}
	void to_data(nbody_data& d) const
	{
		d.clear();
		for(size_t i = 0; i != n(); ++i)
		{
			d.add_body(nbvertex_t(r(i, 0), r(i, 1), r(i, 2)), nbvertex_t(v(i, 0), v(i, 1), v(i, 2)), m[i], nbcolor_t(1, 1, 1, 1));
		}
		d.set_box_size(1000);
	}
};

static const LD SOFT = 1e-8L;	// documented minimal squared distance

struct Acc { LD a[3]; LD abs, cond; };

//! Attraction of a point of mass m at c on a target at p, added to 'a'
inline void add_point(Acc& a, const LD p[3], const LD c[3], LD m, LD extent)
{
	LD d[3], r2 = 0;
	for(int k = 0; k != 3; ++k) { d[k] = c[k] - p[k]; r2 += d[k] * d[k]; }
	LD q = r2 < SOFT ? SOFT : r2;
	LD w = m / (q * sqrtl(q));
	for(int k = 0; k != 3; ++k) { a.a[k] += d[k] * w; }
	a.abs += sqrtl(r2) * w;
	a.cond += extent * w;		// effect of a position error of one unit of rounding
}

inline Acc direct(const Bodies& b, size_t i)
{
	Acc	a = {};
	LD	p[3] = { b.r(i, 0), b.r(i, 1), b.r(i, 2) };
	for(size_t j = 0; j != b.n(); ++j)
	{
		if(j == i) { continue; }
		LD c[3] = { b.r(j, 0), b.r(j, 1), b.r(j, 2) };
		LD ext = 0;
		for(int k = 0; k != 3; ++k) { ext = std::max(ext, std::max(fabsl(c[k]), fabsl(p[k]))); }
		add_point(a, p, c, b.m[j], ext);
	}
	return a;
}

static const LD EPS = 2.220446049250313e-16L;

//! Kinds of engines. 's' simple, 'o' openmp, 'b' block, 'a' Ahmad-Cohen (rate), BH: layout*2+traverse
struct Kind
{
	char	type;		// s o b a t(ree) h(eap) l(heap stackless)
	int		nested;
	double	ratio;
	size_t	rate;
	std::string str() const { return mc::fmt("%c%d", type, nested); }
	bool bh() const { return type == 't' || type == 'h' || type == 'l'; }
};

inline nbody_engine* make_engine(const Kind& k)
{
	e_traverse_type tt = k.nested ? ett_nested_tree : ett_cycle;
	switch(k.type)
	{
	case 's': return new nbody_engine_simple;
	case 'o': return new nbody_engine_openmp;
	case 'b': return new nbody_engine_block;
	case 'a': return new nbody_engine_ah(k.rate, 1e-3, 1e3);
	case 't': return new nbody_engine_simple_bh_tree(k.ratio, tt, k.rate);
	case 'h': return new nbody_engine_simple_bh_heap(k.ratio, tt, k.rate);
	case 'l': return new nbody_engine_simple_bh_heap_stackless(k.ratio, tt, k.rate);
	}
	abort();
}

inline std::vector<Kind> bh_kinds(double ratio, size_t rate)
{
	std::vector<Kind>	r;
	for(char t : { 't', 'h', 'l' }) for(int n = 0; n != 2; ++n) { r.push_back(Kind{ t, n, ratio, rate }); }
	return r;
}

//! One engine with its data and buffers
struct Rig
{
	nbody_data		d;
	nbody_engine*	e;
	nbody_engine::memory *y = nullptr, *f = nullptr;
	Rig(const Kind& k, const Bodies& b) : Rig(make_engine(k), b) {}
	Rig(nbody_engine* engine, const Bodies& b) : e(engine)
	{
		b.to_data(d);
		if(!e->init(&d)) { mc::fail("init failed"); }
		y = e->create_buffer(8 * e->problem_size());
		f = e->create_buffer(8 * e->problem_size());
	}
	~Rig() { e->free_buffer(y); e->free_buffer(f); delete e; }
	//! Forces at state b. Empty result: the state or the engine state was modified.
	std::vector<double> forces(const Bodies& b, double t, std::string& err)
	{
		size_t	n = 6 * b.n();
		std::vector<double>	res(n, std::nan("")), back(n), own(n), own2(n);
		e->write_buffer(f, res.data());
		e->write_buffer(y, b.y.data());
		e->read_buffer(own.data(), e->get_y());
		size_t	cc = e->get_compute_count();
		double	t0 = e->get_time();
		size_t	s0 = e->get_step();
		e->fcompute(t, y, f);
		e->read_buffer(back.data(), y);
		e->read_buffer(own2.data(), e->get_y());
		e->read_buffer(res.data(), f);
		if(0 != memcmp(back.data(), b.y.data(), 8 * n)) { err = "force computation modified its input"; }
		if(0 != memcmp(own.data(), own2.data(), 8 * n)) { err = "force computation modified the engine state"; }
		if(e->get_time() != t0 || e->get_step() != s0) { err = "force computation changed time or step"; }
		if(e->get_compute_count() != cc + 1) { err = mc::fmt("compute count advanced by %zu", e->get_compute_count() - cc); }
		for(size_t i = 0; i != 3 * b.n(); ++i)
		{
			if(!mc::same_bits(res[i], b.y[3 * b.n() + i]))
			{
				err = mc::fmt("derivative of coordinate %zu of body %zu is %.17g instead of its velocity %.17g", i / b.n(), i % b.n(), res[i], b.y[3 * b.n() + i]);
			}
		}
		return res;
	}
};

//! Compare with the direct sum
inline std::string diff_direct(const Bodies& b, const std::vector<double>& f, bool conditioned)
{
	for(size_t i = 0; i != b.n(); ++i)
	{
		Acc	a = direct(b, i);
		LD	tol = EPS * (16 + 2 * b.n()) * a.abs + (conditioned ? 64 * EPS * a.cond : 0) + 1e-290L;
		for(int k = 0; k != 3; ++k)
		{
			LD	g = f[(3 + k) * b.n() + i];
			if(!(fabsl(g - a.a[k]) <= tol))
			{
				return mc::fmt("acceleration of body %zu axis %d is %.17Lg instead of %.17Lg (tolerance %.3Lg)", i, k, g, a.a[k], tol);
			}
		}
	}
	return "";
}

//! Structured body sets of any size
inline Bodies layout(int kind, size_t n)
{
	Bodies	b;
	b.resize(n);
	uint64_t	s = 88172645463325252ULL + kind;
	auto rnd = [&]() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return double(s >> 11) / 9007199254740992.0; };
	for(size_t i = 0; i != n; ++i)
	{
		double	x = i;
		b.m[i] = 0.5 + (i * 37 % 11);
		switch(kind)
		{
		case 0: b.set(i, x, 0.25 * x, -x * x / 64); break;											// curve
		case 1: b.set(i, double(i % 4), double(i / 4 % 4), double(i / 16)); break;					// grid
		case 2: b.set(i, rnd(), rnd(), rnd()); break;												// cloud
		case 3: b.set(i, i % 2 ? 0.1 : 1.7, i % 3 ? -0.3 : 0.9, i % 5 ? 1.0 / 3 : 2.0); break;		// coincident groups
		case 4: b.set(i, i % 2 ? 1e6 + rnd() : rnd(), rnd(), i % 3 ? rnd() : -1e4 * rnd()); break;	// distant clusters
		case 5: b.set(i, 2.5, -1.0 / 3, 7); break;													// all coincident
		case 6: b.set(i, 100 * pow(0.99, x), -100 * pow(0.985, x), 0); b.m[i] = pow(1.05, x); break;				// geometric
		}
	}
	return b;
}
static const int LAYOUTS = 7;

//! Large body counts around powers of two (tree depths, block tails), run as a part of their own
inline std::vector<size_t> big_counts()
{
	std::vector<size_t>	v;
	for(size_t p = 128; p <= (mc::thorough() ? 16384u : 2048u); p *= 2) { for(size_t n : { p - 1, p, p + 1 }) { v.push_back(n); } }
	v.push_back(mc::thorough() ? 30000 : 4100);
	return v;
}
inline bool big_part() { const char* p = getenv("VERIF_PART"); return p && !strcmp(p, "big"); }
#endif
