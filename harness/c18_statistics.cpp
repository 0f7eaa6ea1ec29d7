// C18: conservation diagnostics after every operation of every short history, against sums in extended precision.
#include "forces.h"
using namespace mc;

struct Q
{
	LD	P[3], L[3], C[3], E;
	LD	tP, tL, tC, tE;			// tolerances
	Q() { memset(this, 0, sizeof *this); }
};

//! Quantities of a state; flags P L V E
static Q measure(const Bodies& b, bool& tie)
{
	Q	q;
	size_t	n = b.n();
	LD	M = 0;
	for(size_t i = 0; i != n; ++i)
	{
		LD	m = b.m[i], r[3], v[3];
		for(int k = 0; k != 3; ++k) { r[k] = b.r(i, k); v[k] = b.v(i, k); }
		for(int k = 0; k != 3; ++k)
		{
			int	a = (k + 1) % 3, c = (k + 2) % 3;
			q.P[k] += m * v[k];
			q.tP += fabsl(m * v[k]);
			q.L[k] += m * (r[a] * v[c] - r[c] * v[a]);
			q.tL += m * (fabsl(r[a] * v[c]) + fabsl(r[c] * v[a]));
			q.C[k] += m * r[k];
			q.tC += fabsl(m * r[k]);
		}
		LD	kin = m * (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) / 2;
		q.E += kin;
		q.tE += kin;
		M += m;
		for(size_t j = 0; j != n; ++j)
		{
			if(i == j) { continue; }
			LD	r2 = 0;
			for(int k = 0; k != 3; ++k) { LD d = r[k] - b.r(j, k); r2 += d * d; }
			if(fabsl(r2 - SOFT) < 1e-6L * SOFT) { tie = true; }
			if(r2 < SOFT) { continue; }
			LD	pot = m * b.m[j] / sqrtl(r2) / 2;
			// positions are exact, their difference is rounded once
			q.E -= pot;
			q.tE += pot;
		}
	}
	for(int k = 0; k != 3; ++k) { q.C[k] /= M; }
	q.tC /= M;
	q.tP *= 16 * EPS;
	q.tL *= 16 * EPS;
	q.tC *= 16 * EPS;
	q.tE *= 16 * EPS;
	return q;
}

static std::string cmp3(const char* what, const nbvertex_t& v, const LD w[3], LD tol)
{
	const double	g[3] = { v.x, v.y, v.z };
	for(int k = 0; k != 3; ++k)
	{
		if(!(fabsl(g[k] - w[k]) <= tol)) { return fmt("%s axis %d is %.17g instead of %.17Lg (tolerance %.3Lg)", what, k, g[k], w[k], tol); }
	}
	return "";
}

static std::string cmp1(const char* what, double g, LD w, LD tol)
{
	return fabsl(g - w) <= tol ? "" : fmt("%s is %.17g instead of %.17Lg (tolerance %.3Lg)", what, g, w, tol);
}

struct Model
{
	bool	started = false;
	char	has = 0, last_has = 0;
	Q		first, last;
};

static std::string percent(const char* what, double got, const LD* a, const LD* b, LD ta, LD tb, int dim)
{
	LD	d = 0, n = 0;
	for(int k = 0; k != dim; ++k) { d += (a[k] - b[k]) * (a[k] - b[k]); n += b[k] * b[k]; }
	d = sqrtl(d);
	n = sqrtl(n);
	LD	t = 2 * (ta + tb);
	if(n <= 1e3 * t) { return ""; }		// the initial value is rounding noise
	LD	lo = 100 * (d - t) / (n + t), hi = 100 * (d + t) / (n - t);
	lo -= fabsl(lo) * 1e-12L;
	hi += fabsl(hi) * 1e-12L;
	return got >= lo && got <= hi ? "" : fmt("%s error is %.17g%% instead of %.17Lg%%", what, got, 100 * d / n);
}

static std::string check(const nbody_data& d, const Model& m, const std::string& list)
{
	std::string	e;
	auto on = [&](char c) { return m.has & (c == 'P' ? 1 : c == 'L' ? 2 : c == 'V' ? 4 : 8); };
	auto ever = [&](char c) { return m.last_has & (c == 'P' ? 1 : c == 'L' ? 2 : c == 'V' ? 4 : 8); };
	const LD	zero[3] = {};
	// initial values: those of the first request, nothing for quantities that were disabled then
	if(e.empty()) { e = cmp3("initial impulse", d.get_initial_impulce(), on('P') ? m.first.P : zero, on('P') ? m.first.tP : 0); }
	if(e.empty()) { e = cmp3("initial angular momentum", d.get_initial_impulce_moment(), on('L') ? m.first.L : zero, on('L') ? m.first.tL : 0); }
	if(e.empty()) { e = cmp3("initial mass centre", d.get_initial_mass_center(), on('V') ? m.first.C : zero, on('V') ? m.first.tC : 0); }
	if(e.empty()) { e = cmp1("initial energy", d.get_initial_energy(), on('E') ? m.first.E : 0, on('E') ? m.first.tE : 0); }
	if(e.empty()) { e = cmp3("impulse", d.get_last_total_impulce(), ever('P') ? m.last.P : zero, ever('P') ? m.last.tP : 0); }
	if(e.empty()) { e = cmp3("angular momentum", d.get_last_total_impulce_moment(), ever('L') ? m.last.L : zero, ever('L') ? m.last.tL : 0); }
	if(e.empty()) { e = cmp3("mass centre", d.get_last_mass_center(), ever('V') ? m.last.C : zero, ever('V') ? m.last.tC : 0); }
	if(e.empty()) { e = cmp1("energy", d.get_last_total_energy(), ever('E') ? m.last.E : 0, ever('E') ? m.last.tE : 0); }
	if(e.empty() && on('P') && ever('P')) { e = percent("impulse", d.get_impulce_err(), m.last.P, m.first.P, m.last.tP, m.first.tP, 3); }
	if(e.empty() && on('L') && ever('L')) { e = percent("angular momentum", d.get_impulce_moment_err(), m.last.L, m.first.L, m.last.tL, m.first.tL, 3); }
	if(e.empty() && on('E') && ever('E')) { e = percent("energy", d.get_energy_err(), &m.last.E, &m.first.E, m.last.tE, m.first.tE, 1); }
	return e.empty() ? e : "check list " + list + ": " + e;
}

//! One simulation and what has to be reported about it
struct Run
{
	Rig			g;
	Bodies		b;			// engine state
	Bodies		in_data;	// state of the data object
	Model		m;
	std::string	list = "PLV";
	bool		tie = false;
	size_t		computed = 0;	// count of the last request
	//! The printed line holds the same values
	std::string line(const std::string& text, size_t cc)
	{
		std::map<std::string, std::string>	w;
		std::vector<std::string>	t;
		std::string	x;
		for(char c : text + " ") { if(isspace(c)) { if(!x.empty()) { t.push_back(x); } x.clear(); } else { x += c; } }
		for(size_t i = 0; i + 1 < t.size(); ++i) { if(!w.count(t[i])) { w[t[i]] = t[i + 1]; } }
		auto num = [&](const char* k, double v, double tol) -> std::string
		{
			if(!w.count(k)) { return std::string(k) + " is not printed: " + text; }
			double	g = strtod(w[k].c_str(), nullptr);
			if(!(std::isfinite(v)) || (std::isnan(v) && std::isnan(g)) || v == g || fabs(g - v) <= tol) { return ""; }
			return fmt("%s is printed as %s instead of %.17g", k, w[k].c_str(), v);
		};
		std::string	e = num("#", double(g.d.get_step()), 0);
		if(e.empty()) { e = num("t", g.d.get_time(), 6e-7); }
		if(e.empty()) { e = num("CC", double(cc), 0); }
		if(e.empty() && cc >= computed) { e = num("SC", double(cc - computed), 0); }
		auto err = [&](char c, const char* k, double v, double tol)
		{
			if(!e.empty()) { return; }
			if(list.find(c) == std::string::npos) { if(w.count(k)) { e = std::string(k) + " is printed: " + text; } return; }
			e = num(k, v, 6e-4 * fabs(v) + tol);
		};
		err('P', "dP", g.d.get_impulce_err(), 0);
		err('L', "dL", g.d.get_impulce_moment_err(), 0);
		err('E', "dE", g.d.get_energy_err(), 0);
		nbvertex_t	c = g.d.get_last_mass_center() - g.d.get_initial_mass_center();
		err('V', "Vcm", g.d.get_time() > 0 ? c.length() / g.d.get_time() : NAN, 0);
		return e;
	}
	Run(const Kind& k, const Bodies& x) : g(k, x), b(x), in_data(x) {}
	void set(const Bodies& x) { b = x; g.e->write_buffer(g.e->get_y(), b.y.data()); }
	std::string stat(bool engine)
	{
		size_t	n = b.n(), cc = g.e->get_compute_count(), st = g.e->get_step(), box = g.d.get_box_size();
		double	t = g.e->get_time();
		std::string	text;
		{ Printed p; g.d.print_statistics(engine ? g.e : NULL); text = p.text(); }
		std::string	pe = line(text, engine ? cc : 0);
		if(!pe.empty()) { return pe; }
		computed = engine ? cc : 0;
		++S().transitions;
		if(engine) { in_data.y = b.y; }
		std::vector<double>	y(6 * n);
		g.e->read_buffer(y.data(), g.e->get_y());
		if(y != b.y) { return "the engine state was changed"; }
		if(cc != g.e->get_compute_count() || st != g.e->get_step() || t != g.e->get_time() || box != g.d.get_box_size() || g.d.get_count() != n) { return "counters of the simulation were changed"; }
		for(size_t i = 0; i != n; ++i)
		{
			const nbvertex_t	&r = g.d.get_vertites()[i], &v = g.d.get_velosites()[i];
			double	x[7] = { r.x, r.y, r.z, v.x, v.y, v.z, g.d.get_mass()[i] };
			for(int k = 0; k != 7; ++k) { if(x[k] != (k == 6 ? b.m[i] : in_data.y[k * n + i])) { return "bodies of the data object are not the current ones"; } }
		}
		Q		q = measure(in_data, tie);
		char	on = 0;
		for(char c : list) { on |= c == 'P' ? 1 : c == 'L' ? 2 : c == 'V' ? 4 : c == 'E' ? 8 : 0; }
		if(!m.started) { m.started = true; m.first = q; m.has = on; }
		m.last_has |= on;
		if(on & 1) { memcpy(m.last.P, q.P, sizeof q.P); m.last.tP = q.tP; }
		if(on & 2) { memcpy(m.last.L, q.L, sizeof q.L); m.last.tL = q.tL; }
		if(on & 4) { memcpy(m.last.C, q.C, sizeof q.C); m.last.tC = q.tC; }
		if(on & 8) { m.last.E = q.E; m.last.tE = q.tE; }
		return tie ? "" : check(g.d, m, list);
	}
};

static Bodies variant(const Bodies& b, int v)
{
	Bodies	x(b);
	size_t	n = b.n();
	for(size_t i = 0; i != 6 * n; ++i)
	{
		switch(v)
		{
		case 0: x.y[i] += (i < 3 * n ? 0.125 : -0.5); break;
		case 1: x.y[i] *= i < 3 * n ? -1.5 : 0.1; break;
		case 2: x.y[i] = i < 3 * n ? 0.75 : x.y[i]; break;			// all at one point
		}
	}
	return x;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	const char*	LISTS[] = { "PLEV", "", "E", "VP", "L" };
	const int	OPS = 3 + 2 + 5 + 2;
	for(Kind k : { Kind{ 's', 0, 0, 0 }, Kind{ 'o', 0, 0, 0 }, Kind{ 't', 0, 4, 1 } }) for(size_t n : { 1, 2, 5 })
	{
		size_t	depth = thorough() ? (k.type == 's' ? 6 : 5) : k.type == 's' ? 5 : 4;
		Chooser	c(true);
		do
		{
			std::vector<int>	h;
			for(size_t i = 0; i != depth; ++i) { h.push_back(c.choose(OPS)); }
			if(!begin(fmt("h:%s:%zu:", k.str().c_str(), n) + c.str())) { continue; }
			Run			r(k, layout(0, n));
			std::string	e;
			for(size_t i = 0; i != h.size() && e.empty(); ++i)
			{
				int	op = h[i];
				if(op < 3) { r.set(variant(r.b, op)); }
				else if(op < 5) { e = r.stat(op == 3); }
				else if(op < 10) { r.list = LISTS[op - 5]; r.g.d.set_check_list(LISTS[op - 5]); }
				else if(op == 10) { r.g.e->advise_time(0.25); r.g.e->fcompute(0, r.g.e->get_y(), r.g.f); }
				else
				{
					for(size_t q = 0; q != n; ++q) { r.g.d.get_vertites()[q].x += 2; r.in_data.y[q] += 2; }		// the data object alone
				}
				if(e.empty() && !r.tie) { e = check(r.g.d, r.m, r.list); }
				if(!e.empty()) { e = fmt("operation %zu (%d): ", i, op) + e; }
			}
			if(r.tie) { ++S().extra["ties_skipped"]; continue; }
			if(!e.empty()) { fail(e); }
			else { ++S().traces; }
		}
		while(c.next());
	}
	// all subsets of the list, in any order of letters, at the first request and at a later one
	for(int a = 0; a != 16; ++a) for(int b = 0; b != 16; ++b) for(int rev = 0; rev != 2; ++rev) for(size_t n : { 1, 3, 8 })
	{
		if(!begin(fmt("list:%d:%d:%d:%zu", a, b, rev, n))) { continue; }
		++S().states;
		Run		r(Kind{ 's', 0, 0, 0 }, layout(2, n));
		std::string	e;
		for(int q = 0; q != 3 && e.empty(); ++q)
		{
			std::string	l;
			for(int i = 0; i != 4; ++i) { if((q ? b : a) >> i & 1) { l = rev ? "PLVE"[i] + l : l + "PLVE"[i]; } }
			r.list = l;
			r.g.d.set_check_list(QString::fromStdString(l));
			e = r.stat(q != 1);
			r.set(variant(r.b, q % 2));
		}
		if(!e.empty()) { fail(e); }
		else { ++S().traces; }
	}
	// every body count
	for(size_t n = 1; n <= (thorough() ? 400u : 140u); ++n) for(int l = 0; l <= LAYOUTS; ++l)
	{
		if(!begin(fmt("n:%zu:%d", n, l))) { continue; }
		++S().states;
		Bodies	b = layout(std::min(l, LAYOUTS - 1), n);
		if(l == LAYOUTS)
		{
			// one large term and many that vanish in a plain sum
			for(size_t i = 0; i != n; ++i)
			{
				b.m[i] = 1;
				b.set(i, i < 2 ? 1 + 0.001 * i : 1 + 1e12 * i, 1, 1);
				for(int k = 0; k != 3; ++k) { b.y[(3 + k) * n + i] = i ? 1e-16 : 1; }
			}
		}
		else for(size_t i = 0; i != 3 * n; ++i) { b.y[3 * n + i] = 0.3 + (i * 7 % 13) * (i % 2 ? -0.1 : 1e3); }
		Run		r(Kind{ 'o', 0, 0, 0 }, b);
		r.list = "EVLP";
		r.g.d.set_check_list("EVLP");
		std::string	e = r.stat(true);
		r.set(variant(b, 1));
		if(e.empty()) { e = r.stat(true); }
		if(r.tie) { ++S().extra["ties_skipped"]; continue; }
		if(!e.empty()) { fail(e); }
		else { ++S().traces; }
	}
	return finish();
}
