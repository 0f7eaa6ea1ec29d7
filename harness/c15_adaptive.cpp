// C15: step size control of the embedded methods. The reference decides every attempt (all patterns of accepted and rejected
// attempts), the solver on the mock engine gets the corresponding error estimates and has to do the same attempts.
#include "refsolver.h"
using namespace mc;

static const double	THR = 1e-4;

struct Attempt { LD t, dt; VL e; LD mag; bool reject, limit; };

struct Setup
{
	std::string	name;
	int			subs, rec, corr, refine, rhs;
	double		min_step, thr, t0;
	std::vector<double>	steps;
};

static std::string show(const std::vector<Attempt>& a)
{
	std::string	r;
	for(size_t i = 0; i < a.size() && i < 12; ++i) { r += fmt(" [%Lg+%Lg %s]", a[i].t, a[i].dt, a[i].reject ? "rejected" : "accepted"); }
	return r;
}

static V start(size_t n)
{
	V	y(n);
	for(size_t k = 0; k != n; ++k) { y[k] = 0.25 + 0.5 * k; }
	return y;
}

//! decide(t, dt, error vector) of every attempt of the reference. scripted: the solver is told these decisions through the
//! maximum; otherwise it has to find them from the true maximum.
static std::string run(const Setup& q, const std::function<bool(LD, LD, const VL&)>& decide, bool scripted, bool* skip)
{
	const size_t	dim = 3;
	RefRK			ref(q.name, q.refine);
	ref.f = ref_rhs(q.rhs);
	ref.subdivisions = q.subs;
	ref.max_recursion = q.rec;
	ref.min_step = q.min_step;
	std::vector<Attempt>	at;
	std::vector<size_t>		upto;
	ref.reject = [&](LD t, LD dt, const VL& e)
	{
		Attempt	a = { t, dt, e, 0, false, false };
		for(size_t j = 0; j != ref.k.size(); ++j) for(LD x : ref.k[j]) { a.mag = std::max(a.mag, fabsl((LD(ref.tb.b2[j]) - ref.tb.b1[j]) * x)); }
		a.reject = decide(t, dt, e);
		a.limit = dt <= q.min_step * (1 + 1e-15L) || (q.subs > 1 && dt < q.steps[0] / powl(q.subs, q.rec) * 1.001L) || q.rec == 0 || q.subs == 1;
		at.push_back(a);
		return a.reject;
	};
	V	y0 = start(dim);
	VL	y(y0.begin(), y0.end());
	std::vector<VL>	ys;
	double	t = q.t0;
	for(double dt : q.steps)
	{
		ref.step(y, t, dt);
		ys.push_back(y);
		upto.push_back(at.size());
		t += dt;
		for(LD x : y) { if(!(fabsl(x) < 100)) { *skip = true; return ""; } }
	}
	if(!scripted)
	{
		for(const Attempt& a : at)
		{
			LD	m = 0;
			for(LD x : a.e) { m = std::max(m, fabsl(x)); }
			if(fabsl(m - q.thr) < 1e-9L * q.thr + 1e-13L * a.mag) { *skip = true; return ""; }
		}
	}
	Mock	m(dim);
	m.rhs = mock_rhs(q.rhs);
	m.ymem->d = y0;
	m.time = q.t0;
	m.step = 7;
	size_t		pos = 0;
	std::string	bad;
	if(scripted)
	{
		m.maximum = [&](const V& e)
		{
			for(size_t i = pos; i < at.size(); ++i)
			{
				bool	same = e.size() == dim;
				for(size_t k = 0; same && k != dim; ++k) { same = fabsl(e[k] - at[i].e[k]) <= 1e-12L * (1 + at[i].mag); }
				if(same) { pos = i + 1; return at[i].reject ? std::nextafter(q.thr, 1.0) : q.thr; }
				if(!at[i].limit) { break; }			// attempts that may not be subdivided need no estimate
			}
			if(bad.empty()) { bad = fmt("attempt %zu: the error estimate is not the difference of the embedded pair, or another attempt was made: ", pos) + show(at); }
			return q.thr;
		};
	}
	QVariantMap	p;
	p["refine_steps_count"] = q.refine;
	p["correction"] = bool(q.corr);
	p["error_threshold"] = q.thr;
	p["max_recursion"] = q.rec;
	p["substep_subdivisions"] = q.subs;
	p["min_step"] = q.min_step;
	nbody_solver*	s = make_solver(q.name.c_str(), p);
	if(s == NULL) { return "no such solver"; }
	s->set_engine(&m);
	std::string	e;
	t = q.t0;
	for(size_t i = 0; i != q.steps.size() && e.empty(); ++i)
	{
		s->advise(q.steps[i]);
		t += q.steps[i];
		++S().transitions;
		e = bad;
		if(!m.problem.empty()) { e = m.problem; }
		else if(!same_bits(m.time, t)) { e = fmt("time after step %zu is %.17g instead of %.17g", i, m.time, t); }
		else if(m.step != 8 + i) { e = fmt("step counter is %zu instead of %zu", m.step, 8 + i); }
		for(size_t k = 0; k != dim && e.empty(); ++k)
		{
			LD	scale = 1;
			for(LD x : ys[i]) { scale = std::max(scale, fabsl(x)); }
			LD	err = fabsl(m.ymem->d[k] - ys[i][k]) / scale, tol = 4e-13L * (1 + upto[i]);
			if(!(err <= tol)) { e = fmt("component %zu after step %zu is %.17g instead of %.17Lg (error %.3Lg, allowed %.3Lg), attempts:", k, i, m.ymem->d[k], ys[i][k], err, tol) + show(at); }
		}
	}
	delete s;
	if(e.empty() && !m.problem.empty()) { e = m.problem; }
	if(e.empty() && m.extra_buffers()) { e = fmt("%zu buffers were not released with the solver", m.extra_buffers()); }
	S().extra["attempts"] += at.size();
	for(const Attempt& a : at) { S().extra["rejected"] += a.reject; }
	return e;
}

static void decide_case(const Setup& q, const std::function<bool(LD, LD, const VL&)>& decide, bool scripted)
{
	bool		skip = false;
	std::string	e = run(q, decide, scripted, &skip);
	if(skip) { ++S().extra["skipped"]; return; }
	if(!e.empty()) { fail(e); }
	else { ++S().traces; }
}

int main(int argc, char** argv)
{
	init(argc, argv);
	std::vector<std::string>	methods;
	for(const Table& t : tables()) { methods.push_back(t.name); }
	// all patterns of accepted and rejected attempts
	struct Shape { int subs, rec; size_t steps; };
	std::vector<Shape>	shapes = { { 2, 0, 2 }, { 1, 1, 2 }, { 1, 3, 1 }, { 2, 1, 2 }, { 3, 1, 2 }, { 2, 2, 1 }, { 4, 1, 1 }, { 5, 1, 1 }, { 2, 2, 2 }, { 3, 2, 1 } };
	if(thorough()) { shapes.push_back(Shape{ 2, 3, 1 }); shapes.push_back(Shape{ 3, 2, 2 }); shapes.push_back(Shape{ 8, 1, 1 }); }
	for(const std::string& name : methods) for(const Shape& sh : shapes)
	{
		if(!table_of(name).embedded) { continue; }
		bool	big = sh.subs == 3 && sh.rec == 2 && sh.steps == 2;
		bool	long_table = table_of(name).b2.size() > 15;
		for(int rhs : sh.rec == 2 && !thorough() ? std::vector<int>{ 4 } : std::vector<int>{ 1, 4, 5 }) for(int corr = 0; corr != 2; ++corr)
		{
			if(table_of(name).implicit && corr) { continue; }
			if(big && (corr || rhs != 4 || long_table)) { continue; }
			// exact comparison of the step with the minimum step at each level (powers of two)
			for(int lim = 0; lim != 4; ++lim)
			{
				double	dt = 0.125, min_step = lim == 0 ? 0 : sh.subs == 3 || sh.subs == 5 ? dt / (sh.subs * 2 * lim) : dt / pow(sh.subs, lim - 1);
				if(lim == 3 && sh.rec < 2) { continue; }
				if(sh.subs == 1 && lim > 1) { continue; }
				if(big && lim) { continue; }
				Chooser	c(true);
				do
				{
					Setup	q = { name, sh.subs, sh.rec, corr, 2, rhs, min_step, THR, -0.375, std::vector<double>(sh.steps, dt) };
					// decisions by the reference alone: walk the tree with a dry run
					std::vector<char>	dec;
					{
						RefRK	ref(name, 2);
						ref.f = [](LD, const VL& y) { return VL(y.size(), 1.L); };
						ref.subdivisions = sh.subs;
						ref.max_recursion = sh.rec;
						ref.min_step = min_step;
						ref.reject = [&](LD, LD, const VL&) { dec.push_back(char(c.choose(2))); return dec.back() != 0; };
						VL	y(1, 0.L);
						for(double d : q.steps) { ref.step(y, 0, d); }
					}
					if(!begin(fmt("pattern:%s:%d.%d.%zu:%d:%d:%d:", name.c_str(), sh.subs, sh.rec, sh.steps, rhs, corr, lim) + c.str())) { continue; }
					size_t	n = 0;
					decide_case(q, [&](LD, LD, const VL&) { return dec.at(n++) != 0; }, true);
				}
				while(c.next());
			}
		}
	}
	// default depth: every attempt containing a point is rejected
	for(const std::string& name : methods) for(int subs : { 2, 3, 8 }) for(int rec : { 4, 8 }) for(int corr = 0; corr != 2; ++corr)
	{
		if(!table_of(name).embedded || (table_of(name).implicit && corr)) { continue; }
		for(int at = 0; at <= 16; ++at) for(double min_step : { 0.0, 1e-9, 1e-3 })
		{
			if(!begin(fmt("point:%s:%d:%d:%d:%d:%g", name.c_str(), subs, rec, corr, at, min_step))) { continue; }
			++S().states;
			Setup	q = { name, subs, rec, corr, 1, 4, min_step, THR, 0.25, { 0.125, 0.125 } };
			LD		p = 0.25L + 0.25L * at / 16 + 1e-5L;
			decide_case(q, [p](LD t, LD dt, const VL&) { return t <= p && p < t + dt; }, true);
		}
	}
	// true estimates against thresholds of all magnitudes
	for(const std::string& name : methods) for(int rhs : { 1, 2, 3, 4, 5, 6 }) for(int k = 0; k <= (thorough() ? 56 : 28); ++k)
	{
		if(!table_of(name).embedded) { continue; }
		for(int subs : { 1, 2, 3, 8 }) for(int rec : { 0, 1, 2, 3 }) for(int corr = 0; corr != 2; ++corr) for(double dt : { 0.2, 0.01 })
		{
			if(table_of(name).implicit && corr) { continue; }
			if(subs == 8 && rec == 3 && !thorough()) { continue; }
			if(!begin(fmt("real:%s:%d:%d:%d:%d:%d:%g", name.c_str(), rhs, k, subs, rec, corr, dt))) { continue; }
			++S().states;
			double	thr = 10 * pow(10, -k * (thorough() ? 0.25 : 0.5));
			Setup	q = { name, subs, rec, corr, 1, rhs, dt / 15, thr, -1.0 / 3, { dt, dt } };
			decide_case(q, [thr](LD, LD, const VL& e) { LD m = 0; for(LD x : e) { m = std::max(m, fabsl(x)); } return m > thr; }, false);
		}
	}
	return finish();
}
