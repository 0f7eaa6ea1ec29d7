// C13: every step of every solver against its formula in extended precision, on a mock engine with tracked buffers.
#include "refsolver.h"
using namespace mc;

static V start_state(int i, size_t n)
{
	V	y(n);
	for(size_t k = 0; k != n; ++k) { y[k] = i == 0 ? 0.0 : i == 1 ? 0.25 + 0.5 * k : -1.0 / (k + 1); }
	return y;
}

static std::string close_to(const V& y, const VL& r, LD tol)
{
	for(size_t i = 0; i != y.size(); ++i)
	{
		LD	scale = 1;
		for(LD x : r) { scale = std::max(scale, fabsl(x)); }
		LD	e = fabsl(y[i] - r[i]) / scale;
		if(!(e <= tol)) { return fmt("component %zu is %.17g instead of %.17Lg (error %.3Lg, allowed %.3Lg)", i, y[i], r[i], e, tol); }
	}
	return "";
}

//! Does kind 7 evaluate right at its kink? Then rounding of the time decides and nothing is compared.
static bool near_kink(const Mock& m) { for(auto& e : m.evals) { if(fabs(e.t - 0.5) < 1e-9) { return true; } } return false; }

struct Step { double dt; bool jump; };

//! Runs solver and reference side by side
static std::string run(const std::string& name, const QVariantMap& p, Ref* ref, int rhs, int start, double t0, const std::vector<Step>& steps, LD tol)
{
	std::unique_ptr<Ref>	own(ref);
	size_t	dim = 3;
	Mock	m(dim);
	m.rhs = mock_rhs(rhs);
	m.record = true;
	m.maximum = [](const V&) { return 0.0; };		// no step is rejected here
	V		y0 = start_state(start, dim);
	m.ymem->d = y0;
	m.time = t0;
	m.step = 5;
	VL		y(y0.begin(), y0.end());
	std::string	e;
	nbody_solver*	s = make_solver(name.c_str(), p);
	if(s == NULL) { return "no such solver"; }
	s->set_engine(&m);
	double	t = t0;
	for(size_t i = 0; i != steps.size() && e.empty(); ++i)
	{
		if(steps[i].jump)
		{
			for(size_t k = 0; k != dim; ++k) { m.ymem->d[k] = 0.5 - m.ymem->d[k]; y[k] = 0.5L - y[k]; }
			m.time += 0.25;
			t = m.time;
		}
		s->advise(steps[i].dt);
		ref->step(y, t, steps[i].dt);
		++S().transitions;
		t = t + steps[i].dt;
		if(!same_bits(m.time, t)) { e = fmt("time after step %zu is %.17g instead of %.17g", i, m.time, t); }
		else if(m.step != 6 + i) { e = fmt("step counter after step %zu is %zu instead of %zu", i, m.step, 6 + i); }
		else if(!m.problem.empty()) { e = m.problem; }
		else if(rhs == 7 && near_kink(m)) { break; }
		else if(std::any_of(y.begin(), y.end(), [](LD x) { return !(fabsl(x) < 100); })) { break; }		// blows up: rounding errors do too
		else
		{
			e = close_to(m.ymem->d, y, tol * (i + 1));
			if(!e.empty()) { e = fmt("after step %zu (t=%.17g dt=%g): ", i, t, steps[i].dt) + e; }
		}
	}
	delete s;
	if(e.empty() && !m.problem.empty()) { e = m.problem; }
	if(e.empty() && m.extra_buffers()) { e = fmt("%zu buffers were not released with the solver", m.extra_buffers()); }
	return e;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	const double	DT[] = { 0.125, 0.03, 1e-4, 0.4 };
	// one step methods: all sequences of steps of different length, with the state changed from outside between them
	for(const char* name : ONE_STEP)
	{
		bool	iterates = !strcmp(name, "trapeze") || !strcmp(name, "rkgl") || !strcmp(name, "rklc");
		bool	table = !strncmp(name, "rk", 2) && strcmp(name, "rk4");
		for(int refine : iterates ? std::vector<int>{ 0, 1, 2, 5 } : std::vector<int>{ 1 }) for(int corr = 0; corr <= (table ? 1 : 0); ++corr)
		{
			for(int rhs = 0; rhs != RHS_COUNT; ++rhs) for(int start = 0; start != 3; ++start) for(double t0 : { 0.0, -1.5, 2.25 })
			{
				size_t	depth = thorough() ? 4 : 2;
				Chooser	c(true);
				do
				{
					std::vector<Step>	st;
					for(size_t i = 0; i != depth; ++i) { double dt = DT[c.choose(4)]; st.push_back(Step{ dt, i && c.choose(2) }); }
					if(!begin(fmt("one:%s:%d:%d:%d:%d:%g:", name, refine, corr, rhs, start, t0) + c.str())) { continue; }
					QVariantMap	p;
					p["refine_steps_count"] = refine;
					p["correction"] = bool(corr);
					Ref*	r = make_ref(name, refine);
					r->f = ref_rhs(rhs);
					std::string	e = run(name, p, r, rhs, start, t0, st, 4e-13L);
					if(!e.empty()) { fail(e); }
					else { ++S().traces; }
				}
				while(c.next());
			}
		}
	}
	// Stetter's midpoint: a sequence of equal steps
	for(int rhs = 0; rhs != RHS_COUNT; ++rhs) for(int start = 0; start != 3; ++start) for(double dt : DT) for(size_t n = 1; n <= 12; ++n)
	{
		if(!begin(fmt("stetter:%d:%d:%g:%zu", rhs, start, dt, n))) { continue; }
		Ref*	r = make_ref("midpoint-st", 1);
		r->f = ref_rhs(rhs);
		++S().states;
		std::string	e = run("midpoint-st", QVariantMap(), r, rhs, start, 0.125, std::vector<Step>(n, Step{ dt, false }), rhs == 6 && dt > 0.1 ? 1e-9L : 1e-12L);
		if(!e.empty()) { fail(e); }
		else { ++S().traces; }
	}
	// Adams: every rank, starter and length. The start may take rank - 1 up to rank + 1 steps of the starter.
	for(int rank = 1; rank <= 5; ++rank) for(const char* starter : { "euler", "midpoint", "midpoint-st", "rk4", "rkdp", "trapeze", "rkgl", "rkf" })
	{
		for(int corr = 0; corr != 2; ++corr) for(int rhs = 0; rhs != RHS_COUNT; ++rhs) for(double dt : { 0.05, 0.01, 1e-4 }) for(size_t n : { 1, 2, 3, 5, 6, 7, 9, 14 })
		{
			if(!begin(fmt("adams:%d:%s:%d:%d:%g:%zu", rank, starter, corr, rhs, dt, n))) { continue; }
			QVariantMap	p;
			p["rank"] = rank;
			p["correction"] = bool(corr);
			p["starter_solver"] = starter;
			std::string	e, first;
			for(int s = rank + 1; s >= rank - 1; --s)
			{
				RefAdams*	r = new RefAdams(rank, s, make_ref(starter, 1));
				r->set_f(ref_rhs(rhs));
				e = run("adams", p, r, rhs, 1, -0.25, std::vector<Step>(n, Step{ dt, false }), rhs == 6 ? 1e-9L : 1e-12L);
				if(first.empty()) { first = e; }
				if(e.empty()) { break; }
			}
			++S().states;
			if(!e.empty()) { fail(first); }
			else { ++S().traces; }
		}
	}
	// summation correction: rounding errors of many steps on a large state do not add up
	for(const char* name : { "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc", "adams1", "adams2", "adams3", "adams4", "adams5" })
	{
		for(double big : { 1.0, 1e4, 1e8, -3e9 }) for(double dt : { 1e-3, 0.1, 1.0 / 3 }) for(int kind = 0; kind != 2; ++kind)
		{
			if(!begin(fmt("corr:%s:%g:%g:%d", name, big, dt, kind))) { continue; }
			bool	adams = !strncmp(name, "adams", 5);
			size_t	rank = adams ? size_t(name[5] - '0') : 0;
			std::string	first;
			bool	good = false;
			for(size_t start = rank + 1; start + 1 >= rank && !good; --start)		// steps of the starter
			{
			QVariantMap	p;
			p["correction"] = true;
			if(adams) { p["rank"] = int(rank); p["starter_solver"] = "rkf"; }
			Mock	m(3);
			auto	g = [kind](LD t, size_t i) -> LD { LD c = i == 0 ? 1 : i == 1 ? -0.7L : 1 / 3.L; return kind ? c + t / 1024 : c; };
			m.rhs = [g](size_t, double t, const V& y) { V r(y.size()); for(size_t i = 0; i != r.size(); ++i) { r[i] = double(g(t, i)); } return r; };
			m.maximum = [](const V&) { return 0.0; };
			V		y0 = { big, -big / 3, big / 7 };
			m.ymem->d = y0;
			VL		y(y0.begin(), y0.end());
			std::unique_ptr<Ref>	r;
			F		f = [g](LD t, const VL& x) { VL q(x.size()); for(size_t i = 0; i != q.size(); ++i) { q[i] = double(g(double(t), i)); } return q; };
			if(adams) { RefAdams* a = new RefAdams(rank, start, make_ref("rkf", 1)); a->set_f(f); r.reset(a); }
			else { r.reset(make_ref(name, 1)); r->f = f; }
			nbody_solver*	s = make_solver(adams ? "adams" : name, p);
			s->set_engine(&m);
			size_t	N = 300;
			LD		moved = 0;
			for(size_t i = 0; i != N; ++i)
			{
				r->step(y, m.time, dt);
				s->advise(dt);
				moved += dt;
				++S().transitions;
			}
			delete s;
			std::string	e = m.problem;
			for(size_t i = 0; i != 3; ++i)
			{
				LD	allowed = ldexpl(4, -52) * fabsl(y[i]) + ldexpl(adams && rank > 1 ? 6000 : 400, -52) * moved;
				if(!(fabsl(m.ymem->d[i] - y[i]) <= allowed)) { e = fmt("with correction component %zu is %.17g instead of %.20Lg after %zu steps: error %.3Lg, allowed %.3Lg", i, m.ymem->d[i], y[i], N, fabsl(m.ymem->d[i] - y[i]), allowed); }
			}
			good = e.empty();
			if(first.empty()) { first = e; }
			if(!adams || start == 0) { break; }
			}
			++S().states;
			if(!good) { fail(first); }
			else { ++S().traces; }
		}
	}
	// released before the first step
	for(const char* name : { "euler", "midpoint", "midpoint-st", "rk4", "trapeze", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc", "adams", "bs" })
	{
		for(int resets = 0; resets != 2; ++resets)
		{
			if(!begin(fmt("unused:%s:%d", name, resets))) { continue; }
			Mock	m(3);
			m.rhs = mock_rhs(0);
			nbody_solver*	s = make_solver(name);
			s->set_engine(&m);
			if(resets) { s->reset(); }
			delete s;
			if(!m.problem.empty()) { fail(m.problem); }
			if(m.extra_buffers()) { fail("buffers were not released"); }
			if(m.time != 0 || m.step != 0 || m.ncalls) { fail("an unused solver did something"); }
			++S().states;
			++S().traces;
		}
	}
	return finish();
}
