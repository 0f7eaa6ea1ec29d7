// C14: the order conditions of every rooted tree up to the documented order, on the tableau each solver really executes.
#include "tableau.h"
using namespace mc;

//! All rooted trees by order: a tree is the sorted list of its branches
struct Trees
{
	struct tree { std::vector<int> br; LD gamma; int order; };
	std::vector<tree>				t;
	std::vector<std::vector<int>>	by_order;
	explicit Trees(int max)
	{
		by_order.resize(max + 1);
		for(int o = 1; o <= max; ++o)
		{
			std::vector<int>	br;
			add(o, o - 1, 0, br);
		}
	}
	void add(int order, int rest, int from, std::vector<int>& br)
	{
		if(rest == 0)
		{
			tree	x;
			x.br = br;
			x.order = order;
			x.gamma = order;
			for(int i : br) { x.gamma *= t[i].gamma; }
			by_order[order].push_back(t.size());
			t.push_back(x);
			return;
		}
		// branches in ascending number, all of smaller order
		for(int i = from; i < int(t.size()) && t[i].order < order; ++i)
		{
			if(t[i].order > rest) { break; }
			br.push_back(i);
			add(order, rest - t[i].order, i, br);
			br.pop_back();
		}
	}
};

//! Order conditions of a tableau up to order p. Returns a description of the first one that fails.
static std::string conditions(const Tableau& t, int p)
{
	static std::map<int, std::unique_ptr<Trees>>	cache;
	if(!cache[p]) { cache[p].reset(new Trees(p)); }
	const Trees&	tr = *cache[p];
	size_t			s = t.s;
	for(size_t i = 0; i != s; ++i)
	{
		LD	sum = 0, mag = 1e-3L;
		for(size_t j = 0; j != s; ++j) { sum += t.a[i][j]; mag += fabsl(t.a[i][j]); }
		if(!(fabsl(sum - t.c[i]) <= 1e-13L * mag)) { return fmt("evaluation %zu happens at time %.17g of the step but its state belongs to %.17Lg", i, t.c[i], sum); }
	}
	// dt-weighted inner products of each tree: g = A * phi
	std::vector<VL>	g(tr.t.size());
	for(size_t n = 0; n != tr.t.size(); ++n)
	{
		const Trees::tree&	x = tr.t[n];
		VL	phi(s, 1);
		for(int i : x.br) for(size_t q = 0; q != s; ++q) { phi[q] *= g[i][q]; }
		LD	sum = 0;
		for(size_t q = 0; q != s; ++q) { sum += t.b[q] * phi[q]; }
		++S().transitions;
		// rounding of the coefficients shows up to 1.4e-14 (rkfeagin14); every condition has a right side of at most 1
		LD	tol = 1e-13L;
		if(!(fabsl(sum - 1 / x.gamma) <= tol))
		{
			return fmt("order condition of a tree of order %d fails: %.17Lg instead of %.17Lg (allowed %.2Lg)", x.order, sum, 1 / x.gamma, tol);
		}
		if(x.order < p)
		{
			g[n].assign(s, 0);
			for(size_t q = 0; q != s; ++q) for(size_t r = 0; r != q; ++r)
			{
				if(t.a[q][r] == 0) { continue; }
				g[n][q] += t.a[q][r] * phi[r];
			}
		}
	}
	S().states += tr.t.size();
	return "";
}

//! Methods recorded as executing their companion weights: the stages must be right, the weights exactly the companion
static std::string companion(const char* name, const Tableau& t, int p, bool& known)
{
	struct row { const char* name; std::vector<double> executed, right; int order; };
	static const std::vector<row>	rows =
	{
		{ "rkck", { 2825. / 27648, 0, 18575. / 48384, 13525. / 55296, 277. / 14336, 1. / 4 }, { 37. / 378, 0, 250. / 621, 125. / 594, 0, 512. / 1771 }, 4 },
		{ "rkdp", { 5179. / 57600, 0, 7571. / 16695, 393. / 640, -92097. / 339200, 187. / 2100, 1. / 40 }, { 35. / 384, 0, 500. / 1113, 125. / 192, -2187. / 6784, 11. / 84, 0 }, 4 },
		{ "rkgl", { -5. / 6, 8. / 3, -5. / 6 }, { 5. / 18, 4. / 9, 5. / 18 }, 2 },
		{ "rklc", { -1. / 2, 2, -1. / 2 }, { 1. / 6, 2. / 3, 1. / 6 }, 2 },
	};
	known = false;
	for(const row& r : rows)
	{
		if(strcmp(r.name, name)) { continue; }
		size_t	m = r.right.size();
		Tableau	u = t;
		for(size_t j = 0; j != t.s; ++j)
		{
			double	want = j + m < t.s ? 0 : r.executed[j + m - t.s];
			if(!(fabs(t.b[j] - want) <= 1e-15)) { return ""; }
			u.b[j] = j + m < t.s ? 0 : r.right[j + m - t.s];
		}
		std::string	e = conditions(u, p);
		if(e.empty()) { e = conditions(t, r.order); }
		known = e.empty();
		return e;
	}
	return "";
}

static QVariantMap opt(const char* k = NULL, double v = 0, const char* k2 = NULL, double v2 = 0)
{
	QVariantMap	m;
	if(k) { m[k] = v; }
	if(k2) { m[k2] = v2; }
	return m;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	S().case_cpu_limit = 600;
	struct item { const char* name; int order; QVariantMap p; size_t steps; };
	std::vector<item>	items;
	items.push_back({ "euler", 1, opt(), 1 });
	items.push_back({ "midpoint", 2, opt(), 1 });
	for(size_t n = 1; n <= 6; ++n) { items.push_back({ "midpoint-st", 2, opt(), n }); }
	items.push_back({ "rk4", 4, opt(), 1 });
	for(int corr = 0; corr != 2; ++corr)
	{
		items.push_back({ "rkck", 5, opt("correction", corr), 1 });
		items.push_back({ "rkdp", 5, opt("correction", corr), 1 });
		items.push_back({ "rkdverk", 5, opt("correction", corr), 1 });
		items.push_back({ "rkf", 7, opt("correction", corr), 1 });
		items.push_back({ "rkfeagin10", 10, opt("correction", corr), 1 });
		items.push_back({ "rkfeagin12", 12, opt("correction", corr), 1 });
		items.push_back({ "rkfeagin14", 14, opt("correction", corr), 1 });
		// the fixed point iteration gains one order per pass
		for(int r = 4; r <= 9; ++r) { items.push_back({ "rkgl", 6, opt("refine_steps_count", r, "correction", corr), 1 }); }
		for(int r = 2; r <= 7; ++r) { items.push_back({ "rklc", 4, opt("refine_steps_count", r, "correction", corr), 1 }); }
	}
	for(int r = 0; r <= 5; ++r) { items.push_back({ "trapeze", 2, opt("refine_steps_count", r), 1 }); }
	// several steps are again a method of the same order
	for(size_t n : { 2, 3 })
	{
		for(const char* m : { "euler", "midpoint", "rk4", "trapeze" }) { items.push_back({ m, !strcmp(m, "euler") ? 1 : !strcmp(m, "rk4") ? 4 : 2, opt(), n }); }
		items.push_back({ "rkdverk", 5, opt(), n });
		items.push_back({ "rkdp", 4, opt(), n });	// see known_findings.txt
		items.push_back({ "rkf", 7, opt(), n });
		items.push_back({ "rkck", 4, opt(), n });	// see known_findings.txt
		items.push_back({ "rkgl", 2, opt("refine_steps_count", 8), n });
		items.push_back({ "rklc", 2, opt("refine_steps_count", 8), n });
	}
	for(int l = 1; l <= 8; ++l)
	{
		int	p = std::min(2 * l, thorough() ? 14 : l > 6 ? 10 : 12);
		items.push_back({ "bs", p, opt("max_level", l), 1 });
	}
	auto accept = [](const V&) { return 0.0; };
	auto reject = [](const V&) { return 1e300; };
	for(auto& it : items)
	{
		std::string	o;
		for(auto i = it.p.begin(); i != it.p.end(); ++i) { o += fmt("%s=%g,", i.key().toUtf8().data(), i.value().toDouble()); }
		if(!begin(fmt("%s:%s:%zu", it.name, o.c_str(), it.steps))) { continue; }
		bool	bs = !strcmp(it.name, "bs");
		Tableau	t = extract([&]() { return make_solver(it.name, it.p); }, it.steps, bs ? std::function<double(const V&)>(reject) : accept);
		std::string	e = t.problem;
		bool	known = false;
		if(e.empty()) { e = conditions(t, it.order); }
		if(!e.empty() && t.problem.empty() && it.steps == 1) { std::string x = companion(it.name, t, it.order, known); if(!x.empty()) { e = x; } }
		if(known) { fail_known(std::string(it.name) + "-weights", e); }
		else if(!e.empty()) { fail(e); }
		else { ++S().traces; }
		S().extra["stages"] += t.s;
	}
	// Adams-Bashforth: the increments of each step after the start are exact for polynomials below its rank
	for(int rank = 1; rank <= 5; ++rank) for(int corr = 0; corr != 2; ++corr) for(const char* starter : { "euler", "rk4", "rkdp", "midpoint-st", "trapeze" })
	{
		for(size_t steps = rank + 2; steps <= size_t(rank + 8); ++steps)
		{
			if(!begin(fmt("adams:%d:%d:%s:%zu", rank, corr, starter, steps))) { continue; }
			QVariantMap	p;
			p["rank"] = rank;
			p["correction"] = bool(corr);
			p["starter_solver"] = starter;
			// state after all steps minus state before the last one, per evaluation
			Tableau	t0 = extract([&]() { return make_solver("adams", p); }, steps - 1, accept), t1 = extract([&]() { return make_solver("adams", p); }, steps, accept);
			std::string	e = t1.problem + t0.problem;
			std::vector<LD>	moment(rank, 0), mag(rank, 1e-3L);
			LD	outside = 0;
			if(e.empty())
			{
				double	now = steps - 1;
				for(size_t j = 0; j != t1.s; ++j)
				{
					LD	w = LD(t1.b[j]) * steps - (j < t0.s ? LD(t0.b[j]) * (steps - 1) : 0);
					LD	at = LD(t1.c[j]) * steps - now;
					for(int q = 0; q != rank; ++q) { moment[q] += w * powl(at, q); mag[q] += fabsl(w * powl(at, q)); }
					outside += fabsl(w) > 1e-13L && at < -rank + 0.5L ? 1 : 0;
				}
				for(int q = 0; q != rank && e.empty(); ++q)
				{
					if(!(fabsl(moment[q] - 1.0L / (q + 1)) <= 1e-13L * steps * mag[q])) { e = fmt("step %zu integrates t^%d to %.17Lg instead of %.17Lg", steps, q, moment[q], 1.0L / (q + 1)); }
				}
				if(e.empty() && outside) { e = "a step uses derivatives older than its rank"; }
				// the new evaluation is made at the current state
				if(e.empty() && t1.s != t0.s + 1) { e = fmt("a step after the start needs %zu evaluations", t1.s - t0.s); }
				for(size_t j = 0; j < t0.s && e.empty(); ++j)
				{
					if(!(fabsl(t1.a[t0.s][j] * LD(steps) - t0.b[j] * LD(steps - 1)) <= 1e-12L)) { e = "the derivative was not evaluated at the current state"; }
				}
			}
			if(!e.empty()) { fail(e); }
			else { ++S().traces; }
			S().states += rank;
			++S().transitions;
		}
	}
	return finish();
}
