// Reference integration methods in extended precision, written from their formulas.
#ifndef VERIF_REFSOLVER_H
#define VERIF_REFSOLVER_H
#include "mock.h"

struct Table
{
	const char*			name;
	int					implicit, embedded;
	std::vector<V>		a;
	V					b1, b2, c;
};

inline const std::vector<Table>& tables()
{
	static const std::vector<Table>	t =
	{
#include "tables.h"
	};
	return t;
}

inline const Table& table_of(const std::string& n)
{
	for(const Table& t : tables()) { if(n == t.name) { return t; } }
	abort();
}

typedef std::function<VL(LD, const VL&)> F;

inline VL axpy(const VL& y, LD h, const VL& k)
{
	VL	r(y);
	for(size_t i = 0; i != r.size(); ++i) { r[i] += h * k[i]; }
	return r;
}

struct Ref
{
	F	f;
	virtual ~Ref() {}
	virtual void step(VL& y, LD t, LD dt) = 0;
};

struct RefEuler : Ref
{
	void step(VL& y, LD t, LD dt) override { y = axpy(y, dt, f(t, y)); }
};

struct RefMidpoint : Ref
{
	void step(VL& y, LD t, LD dt) override { y = axpy(y, dt, f(t + dt / 2, axpy(y, dt / 2, f(t, y)))); }
};

struct RefRk4 : Ref
{
	void step(VL& y, LD t, LD dt) override
	{
		VL	k1 = f(t, y), k2 = f(t + dt / 2, axpy(y, dt / 2, k1)), k3 = f(t + dt / 2, axpy(y, dt / 2, k2)), k4 = f(t + dt, axpy(y, dt, k3));
		for(size_t i = 0; i != y.size(); ++i) { y[i] += dt * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6; }
	}
};

struct RefTrapeze : Ref
{
	size_t	refine;
	explicit RefTrapeze(size_t r) : refine(r) {}
	void step(VL& y, LD t, LD dt) override
	{
		VL	f0 = f(t, y), p = axpy(y, dt, f0);
		for(size_t i = 0; i <= refine; ++i) { p = axpy(axpy(y, dt / 2, f0), dt / 2, f(t + dt, p)); }
		y = p;
	}
};

//! Stetter's two sequence form of the midpoint rule
struct RefStetter : Ref
{
	VL		u, v;
	bool	started = false;
	void step(VL& y, LD t, LD dt) override
	{
		if(!started) { u = v = y; started = true; }
		VL	fu = f(t, u);
		u = axpy(u, dt, f(t + dt / 2, axpy(v, dt / 2, fu)));
		v = axpy(axpy(v, dt / 2, fu), dt / 2, f(t + dt, u));
		for(size_t i = 0; i != y.size(); ++i) { y[i] = (u[i] + v[i]) / 2; }
	}
};

//! Runge-Kutta methods by table. Implicit stages: fixed point passes starting from the last stages (first: explicit guess)
struct RefRK : Ref
{
	const Table&	tb;
	size_t			refine;
	std::vector<VL>	k;
	// subdivision of rejected attempts
	size_t			subdivisions = 1, max_recursion = 0;
	LD				min_step = 0;
	//! (attempt start time, attempt step, error vector of the embedded pair) -> rejected?
	std::function<bool(LD, LD, const VL&)>	reject;
	std::vector<std::pair<LD, LD>>	accepted, attempts;

	RefRK(const std::string& n, size_t r) : tb(table_of(n)), refine(r) {}
	void stages(const VL& y, LD t, LD dt)
	{
		size_t	s = tb.b2.size();
		if(!tb.implicit)
		{
			k.assign(s, VL());
			for(size_t i = 0; i != s; ++i)
			{
				VL	x(y);
				for(size_t j = 0; j != i; ++j) { x = axpy(x, dt * tb.a[i][j], k[j]); }
				k[i] = f(t + tb.c[i] * dt, x);
			}
			return;
		}
		if(k.empty())
		{
			VL	k0 = f(t, y);
			for(size_t i = 0; i != s; ++i) { k.push_back(f(t + tb.c[i] * dt, axpy(y, dt * tb.c[i], k0))); }
		}
		for(size_t n = 0; n != refine; ++n)
		{
			for(size_t i = 0; i != s; ++i)
			{
				VL	x(y);
				for(size_t j = 0; j != s; ++j) { x = axpy(x, dt * tb.a[i][j], k[j]); }
				k[i] = f(t + tb.c[i] * dt, x);
			}
		}
	}
	void sub(VL& y, LD t, LD dt, size_t level)
	{
		stages(y, t, dt);
		size_t	s = tb.b2.size();
		attempts.push_back(std::make_pair(t, dt));
		if(tb.embedded && reject)
		{
			VL	e(y.size(), 0);
			for(size_t j = 0; j != s; ++j) { e = axpy(e, LD(tb.b2[j]) - LD(tb.b1[j]), k[j]); }
			if(reject(t, dt, e) && level < max_recursion && dt > min_step)
			{
				for(size_t i = 0; i != subdivisions; ++i) { sub(y, t + i * (dt / subdivisions), dt / subdivisions, level + 1); }
				return;
			}
		}
		accepted.push_back(std::make_pair(t, dt));
		for(size_t j = 0; j != s; ++j) { y = axpy(y, dt * tb.b2[j], k[j]); }
	}
	void step(VL& y, LD t, LD dt) override { sub(y, t, dt, 0); }
};

//! Adams-Bashforth after 'start' steps of the starter
struct RefAdams : Ref
{
	size_t				rank, start, n = 0;
	std::unique_ptr<Ref>	starter;
	std::vector<VL>		h;
	RefAdams(size_t r, size_t s, Ref* st) : rank(r), start(s), starter(st) {}
	void step(VL& y, LD t, LD dt) override
	{
		static const LD	a[6][5] = { {}, { 1 }, { 3 / 2.L, -1 / 2.L }, { 23 / 12.L, -16 / 12.L, 5 / 12.L }, { 55 / 24.L, -59 / 24.L, 37 / 24.L, -9 / 24.L },
									{ 1901 / 720.L, -2774 / 720.L, 2616 / 720.L, -1274 / 720.L, 251 / 720.L } };
		h.insert(h.begin(), f(t, y));
		if(h.size() > rank) { h.pop_back(); }
		if(n++ < start) { starter->step(y, t, dt); return; }
		VL	y0(y);
		for(size_t i = 0; i != rank; ++i) { y0 = axpy(y0, dt * a[rank][i], h[i]); }
		y = y0;
	}
	void set_f(const F& g) { f = g; starter->f = g; }
};

//! Right hand sides: all kinds of dependence on time and state
static const int RHS_COUNT = 8;
inline VL rhs_value(int kind, LD t, const VL& y)
{
	VL	r(y.size());
	size_t	n = y.size();
	for(size_t i = 0; i != n; ++i)
	{
		LD	a = y[i], b = y[(i + 1) % n], c = y[(i + 2) % n];
		switch(kind)
		{
		case 0: r[i] = 1 + LD(i); break;													// constant
		case 1: r[i] = t * t * t - (i + 1) * t + 0.5L; break;								// time only
		case 2: r[i] = (i % 2 ? -1 : 1) * b - 0.3L * a; break;								// linear
		case 3: r[i] = b * c - a * a / 2 + 1; break;										// quadratic
		case 4: r[i] = cosl(3 * t + i) * b - t * a; break;									// linear, time dependent
		case 5: r[i] = sinl(a + b) + expl(-t * t) * c; break;								// transcendental
		case 6: r[i] = -20 * (a - cosl(t)) + b / 4; break;									// fast decay
		case 7: r[i] = t < 0.5L ? a + 1 : b - a; break;										// kink in time
		}
	}
	return r;
}

inline std::function<V(size_t, double, const V&)> mock_rhs(int kind)
{
	return [kind](size_t, double t, const V& y)
	{
		VL	r = rhs_value(kind, t, VL(y.begin(), y.end()));
		return V(r.begin(), r.end());
	};
}

inline F ref_rhs(int kind) { return [kind](LD t, const VL& y) { return rhs_value(kind, t, y); }; }

inline Ref* make_ref(const std::string& n, size_t refine)
{
	if(n == "euler") { return new RefEuler; }
	if(n == "midpoint") { return new RefMidpoint; }
	if(n == "rk4") { return new RefRk4; }
	if(n == "trapeze") { return new RefTrapeze(refine); }
	if(n == "midpoint-st") { return new RefStetter; }
	return new RefRK(n, refine);
}

static const char* ONE_STEP[] = { "euler", "midpoint", "rk4", "trapeze", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc" };
#endif
