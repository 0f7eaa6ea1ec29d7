// The Runge-Kutta tableau equivalent to what a solver does in some number of steps, found by driving it: evaluation j of
// the right hand side answers with unit vector j, so the argument of evaluation i is row i of the tableau.
#ifndef VERIF_TABLEAU_H
#define VERIF_TABLEAU_H
#include "mock.h"

struct Tableau
{
	size_t			s = 0;
	std::vector<V>	a;
	V				b, c;
	std::string		problem;
};

typedef std::function<nbody_solver*()> Factory;

inline Tableau extract(const Factory& make, size_t steps, const std::function<double(const V&)>& maximum, double dt = 1)
{
	Tableau	t;
	auto run = [&](Mock& m)
	{
		nbody_solver*	s = make();
		if(s == NULL) { t.problem = "no such solver"; return; }
		m.maximum = maximum;
		s->set_engine(&m);
		for(size_t i = 0; i != steps; ++i) { s->advise(dt); }
		delete s;
		if(!m.problem.empty()) { t.problem = m.problem; }
	};
	{
		Mock	m(1);
		m.rhs = [](size_t, double, const V& y) { return V(y.size(), 0.0); };
		run(m);
		t.s = m.ncalls;
	}
	if(!t.problem.empty() || t.s == 0) { return t; }
	Mock	m(t.s);
	m.record = true;
	m.rhs = [&](size_t j, double, const V& y) { V r(y.size(), 0.0); if(j < r.size()) { r[j] = 1; } return r; };
	run(m);
	if(m.ncalls != t.s) { t.problem = mc::fmt("number of evaluations depends on the right hand side: %zu, %zu", t.s, m.ncalls); return t; }
	double	h = dt * steps;
	for(auto& e : m.evals)
	{
		V	row(e.y);
		for(double& x : row) { x /= h; }
		t.a.push_back(row);
		t.c.push_back(e.t / h);
	}
	t.b = m.ymem->d;
	for(double& x : t.b) { x /= h; }
	// explicit: nothing depends on a later evaluation
	for(size_t i = 0; i != t.s; ++i) for(size_t j = i; j != t.s; ++j) { if(t.a[i][j] != 0) { t.problem = "an evaluation depends on a later one"; } }
	// the map is linear: another set of answers
	Mock	q(1);
	auto	k = [](size_t j) { return 1 + 0.5 * (j % 5) - 0.25 * (j % 3); };
	q.rhs = [&](size_t j, double, const V&) { return V(1, k(j)); };
	q.record = true;
	run(q);
	for(size_t i = 0; i <= t.s; ++i)
	{
		LD	sum = 0, mag = 0;
		for(size_t j = 0; j != t.s; ++j)
		{
			LD	x = LD(i == t.s ? t.b[j] : t.a[i][j]) * k(j) * h;
			sum += x;
			mag += fabsl(x);
		}
		double	got = i == t.s ? q.ymem->d[0] : i < q.evals.size() ? q.evals[i].y[0] : NAN;
		if(!(fabsl(sum - got) <= 1e-13L * (mag + 1e-3L))) { t.problem = mc::fmt("stage %zu is not a fixed combination of the derivatives: %.17g, %.17Lg", i, got, sum); }
	}
	return t;
}
#endif
