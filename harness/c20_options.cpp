// C20: options. All short argument lists against a model of the parser; all combinations of options of each solver and engine,
// the object made from them has to behave bit for bit like one configured directly.
#include "refsolver.h"
#include "forces.h"
#include "nbody_arg_parser.h"
using namespace mc;

typedef std::vector<std::string> Args;

static QVariantMap parse(const Args& a)
{
	Args	s(a);
	s.insert(s.begin(), "program");
	std::vector<char*>	v;
	for(auto& x : s) { v.push_back(&x[0]); }
	v.push_back(nullptr);
	++S().transitions;
	return nbody_parse_arguments(int(s.size()), v.data());
}

static std::map<std::string, std::string> model(const Args& a)
{
	std::map<std::string, std::string>	r;
	for(const std::string& s : a)
	{
		if(s.compare(0, 2, "--")) { continue; }
		size_t	e = s.find('=', 2);
		if(e != std::string::npos) { r[s.substr(2, e - 2)] = s.substr(e + 1); }
	}
	return r;
}

//! Everything that can be seen of a run
struct Seen
{
	std::vector<double>	d;
	std::string			type, info;
	bool operator == (const Seen& o) const { return type == o.type && info == o.info && d.size() == o.d.size() && 0 == memcmp(d.data(), o.d.data(), 8 * d.size()); }
};

struct BoxMock : Mock
{
	nbody_data*	data;
	std::vector<double>	boxes;
	BoxMock(size_t dim, nbody_data* d) : Mock(dim), data(d) {}
	void advise_time(const nbcoord_t& dt) override { Mock::advise_time(dt); data->advise_time(dt); }
	void set_time(nbcoord_t t) override { Mock::set_time(t); data->set_time(t); }
	void set_step(size_t s) override { Mock::set_step(s); data->set_step(s); }
	void clamp(memory* m, nbcoord_t b) override
	{
		boxes.push_back(b);
		mem*	x = rd(m, "clamp");
		for(size_t i = 0; x && i != n / 2; ++i) { if(x->d[i] > b) { x->d[i] -= 2 * b; } }
	}
};

static Seen look(nbody_solver* s)
{
	Seen	r;
	r.type = s->type_name();
	{ Printed p; s->print_info(); r.info = p.text(); }
	nbody_data	data;
	data.set_box_size(1);
	BoxMock	m(6, &data);
	m.rhs = mock_rhs(5);
	m.record = true;
	size_t	k = 0;
	// answers of the error estimate: a run of large ones (recursion depth), then all decades (threshold)
	m.maximum = [&k](const V&) { size_t i = k++; return i < 2 ? 0.0 : i < 20 ? 1.0 : i < 150 && i % 4 == 0 ? pow(10.0, 1 - double(i % 15)) : 0.0; };
	m.ymem->d = V{ 0.2, -0.4, 0.995, 0.1, 2.5, -3 };
	s->set_engine(&m);
	s->run(&data, NULL, 0.115, 0, 0);
	for(auto& e : m.evals) { r.d.push_back(e.t); r.d.insert(r.d.end(), e.y.begin(), e.y.end()); }
	r.d.insert(r.d.end(), m.ymem->d.begin(), m.ymem->d.end());
	r.d.insert(r.d.end(), m.boxes.begin(), m.boxes.end());
	r.d.push_back(m.time);
	r.d.push_back(double(m.step));
	r.d.push_back(double(m.boxes.size()));
	r.d.push_back(double(k));
	delete s;
	if(!m.problem.empty()) { fail(m.problem); }
	return r;
}

typedef std::map<std::string, std::string> Opt;
static double num(const Opt& o, const char* n, double def) { auto i = o.find(n); return i == o.end() ? def : strtod(i->second.c_str(), nullptr); }
static bool flag(const Opt& o, const char* n) { auto i = o.find(n); return i != o.end() && (i->second == "1" || i->second == "true"); }
static std::string str(const Opt& o, const char* n, const char* def) { auto i = o.find(n); return i == o.end() ? def : i->second; }

template<class T> static nbody_solver* rk(const Opt& o)
{
	T*	s = new T;
	s->set_error_threshold(num(o, "error_threshold", 1e-4));
	s->set_max_recursion(size_t(num(o, "max_recursion", 8)));
	s->set_refine_steps_count(size_t(num(o, "refine_steps_count", 1)));
	s->set_substep_subdivisions(size_t(num(o, "substep_subdivisions", 8)));
	s->set_correction(flag(o, "correction"));
	return s;
}

//! Configured directly, by the documentation
static nbody_solver* direct_solver(const std::string& t, const Opt& o)
{
	nbody_solver*	s = NULL;
	if(t == "euler") { s = new nbody_solver_euler; }
	else if(t == "midpoint") { s = new nbody_solver_midpoint; }
	else if(t == "midpoint-st") { s = new nbody_solver_midpoint_stetter; }
	else if(t == "rk4") { s = new nbody_solver_rk4; }
	else if(t == "rkck") { s = rk<nbody_solver_rkck>(o); }
	else if(t == "rkdp") { s = rk<nbody_solver_rkdp>(o); }
	else if(t == "rkdverk") { s = rk<nbody_solver_rkdverk>(o); }
	else if(t == "rkf") { s = rk<nbody_solver_rkf>(o); }
	else if(t == "rkfeagin10") { s = rk<nbody_solver_rkfeagin10>(o); }
	else if(t == "rkfeagin12") { s = rk<nbody_solver_rkfeagin12>(o); }
	else if(t == "rkfeagin14") { s = rk<nbody_solver_rkfeagin14>(o); }
	else if(t == "rkgl") { s = rk<nbody_solver_rkgl>(o); }
	else if(t == "rklc") { s = rk<nbody_solver_rklc>(o); }
	else if(t == "trapeze") { nbody_solver_trapeze* x = new nbody_solver_trapeze; x->set_refine_steps_count(size_t(num(o, "refine_steps_count", 1))); s = x; }
	else if(t == "bs") { s = new nbody_solver_bulirsch_stoer(size_t(num(o, "max_level", 8)), num(o, "error_threshold", 1e-11)); }
	else if(t == "adams") { s = new nbody_solver_adams(direct_solver(str(o, "starter_solver", "euler"), o), size_t(num(o, "rank", 1)), flag(o, "correction")); }
	else { abort(); }
	s->set_time_step(num(o, "min_step", 1e-9), num(o, "max_step", 1e-2));
	s->set_clamp_to_box(flag(o, "clamp"));
	return s;
}

//! As constructed, nothing set
static nbody_solver* bare_solver(const std::string& t)
{
	if(t == "rkck") { return new nbody_solver_rkck; }
	if(t == "rkdp") { return new nbody_solver_rkdp; }
	if(t == "rkdverk") { return new nbody_solver_rkdverk; }
	if(t == "rkf") { return new nbody_solver_rkf; }
	if(t == "rkfeagin10") { return new nbody_solver_rkfeagin10; }
	if(t == "rkfeagin12") { return new nbody_solver_rkfeagin12; }
	if(t == "rkfeagin14") { return new nbody_solver_rkfeagin14; }
	if(t == "rkgl") { return new nbody_solver_rkgl; }
	if(t == "rklc") { return new nbody_solver_rklc; }
	if(t == "trapeze") { return new nbody_solver_trapeze; }
	return direct_solver(t, Opt());
}

struct Dim { const char* name; std::vector<const char*> values; };	// NULL: option left out

//! All combinations of option values
static void product(const std::string& id, const std::vector<Dim>& dims, const std::function<void(const Opt&, const Args&)>& f)
{
	Chooser	c(true);
	do
	{
		Opt		o;
		Args	a;
		for(const Dim& d : dims)
		{
			const char*	v = d.values[c.choose(int(d.values.size()))];
			if(v) { o[d.name] = v; a.push_back(std::string("--") + d.name + "=" + v); }
		}
		if(!begin(id + ":" + c.str())) { continue; }
		f(o, a);
	}
	while(c.next());
}

static void solver_case(const std::string& t, const Opt& o, const Args& a)
{
	Args	fwd(a), bwd(a.rbegin(), a.rend());
	fwd.insert(fwd.begin(), "--solver=" + t);
	bwd.push_back("--solver=" + t);
	bwd.insert(bwd.begin() + bwd.size() / 2, "--stars_count=10");
	bwd.insert(bwd.begin(), "--solver=euler");		// given twice: the last one counts
	Seen	w = look(direct_solver(t, o));
	for(const Args& x : { fwd, bwd })
	{
		nbody_solver*	s = nbody_create_solver(parse(x));
		if(s == NULL) { fail("no solver was created"); return; }
		if(!(look(s) == w)) { fail(fmt("the solver made from the options behaves differently (%s)", w.type.c_str())); return; }
	}
	++S().traces;
}

static nbody_engine* direct_engine(const std::string& t, const Opt& o)
{
	if(t == "simple") { return new nbody_engine_simple; }
	if(t == "openmp") { return new nbody_engine_openmp; }
	if(t == "block") { return new nbody_engine_block; }
	if(t == "ah") { return new nbody_engine_ah(size_t(num(o, "full_recompute_rate", 1000)), num(o, "max_dist", 10), num(o, "min_force", 1e-4)); }
	e_traverse_type	tt = str(o, "traverse_type", "cycle") == "cycle" ? ett_cycle : ett_nested_tree;
	double	ratio = num(o, "distance_to_node_radius_ratio", 10);
	size_t	rate = size_t(num(o, "tree_build_rate", 0));
	std::string	l = str(o, "tree_layout", "tree");
	if(l == "tree") { return new nbody_engine_simple_bh_tree(ratio, tt, rate); }
	if(l == "heap") { return new nbody_engine_simple_bh_heap(ratio, tt, rate); }
	if(l == "heap_stackless") { return new nbody_engine_simple_bh_heap_stackless(ratio, tt, rate); }
	abort();
}

static Seen look(nbody_engine* e)
{
	Seen	r;
	r.type = e->type_name();
	{ Printed p; e->print_info(); r.info = p.text(); }
	Bodies	b = layout(2, 24);
	for(size_t i = 0; i != 3 * b.n(); ++i) { b.y[i] *= 30; }
	Rig		g(e, b);
	for(size_t st : { 0, 1, 2, 3, 4, 5, 6, 7, 999, 1000, 1001 })
	{
		g.e->set_step(st);
		std::string	err;
		std::vector<double>	f = g.forces(b, 0.5 * st, err);
		if(!err.empty()) { fail(err); }
		r.d.insert(r.d.end(), f.begin(), f.end());
		for(size_t i = 0; i != 3 * b.n(); ++i) { b.y[i] += 5.0 * ((i * 5 + st) % 7) - 14; }
	}
	return r;
}

static void engine_case(const std::string& t, const Opt& o, const Args& a)
{
	Args	fwd(a), bwd(a.rbegin(), a.rend());
	fwd.insert(fwd.begin(), "--engine=" + t);
	bwd.push_back("--engine=" + t);
	bwd.insert(bwd.begin(), "--engine=none");
	bwd.insert(bwd.begin(), "--solver=rk4");
	Seen	w = look(direct_engine(t, o));
	for(const Args& x : { fwd, bwd })
	{
		nbody_engine*	e = nbody_create_engine(parse(x));
		if(e == NULL) { fail("no engine was created"); return; }
		if(!(look(e) == w)) { fail(fmt("the engine made from the options behaves differently (%s)", w.type.c_str())); return; }
	}
	++S().traces;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	// argument lists
	{
		const Args	A = { "--a=1", "--a=2", "--b=x", "--a=", "--=v", "--", "--=", "--a", "-a=3", "a=4", "", "--b=p=q", "--c==", "---d=5", "--a b=6", "--\xd0\xb9=\xd1\x8f", "-", "=", "--b=--a=7" };
		size_t	depth = thorough() ? 5 : 4;
		Chooser	c(true);
		do
		{
			Args	a;
			for(size_t i = 0; i != depth; ++i) { int k = c.choose(int(A.size()) + 1); if(k == int(A.size())) { break; } a.push_back(A[k]); }
			if(!begin("args:" + c.str())) { continue; }
			QVariantMap	p = parse(a);
			std::map<std::string, std::string>	m = model(a);
			std::string	e;
			if(size_t(p.size()) != m.size()) { e = fmt("%d options instead of %zu", p.size(), m.size()); }
			for(auto& i : m)
			{
				QString	k = QString::fromStdString(i.first);
				if(!p.contains(k) || p[k].toString().toStdString() != i.second) { e = "option " + i.first + " is not " + i.second; }
			}
			if(!e.empty()) { for(auto& x : a) { e += " [" + x + "]"; } fail(e); }
			else { ++S().traces; }
		}
		while(c.next());
		for(int n : { 0, 1 })
		{
			if(!begin(fmt("noargs:%d", n))) { continue; }
			char	name[] = "program";
			char*	v[] = { name, nullptr };
			if(!nbody_parse_arguments(n, v).isEmpty()) { fail("options out of nothing"); }
			++S().traces;
		}
		if(begin("longargs:1"))
		{
			Args	a(3000, "--" + std::string(5000, 'n') + "=" + std::string(5000, 'v'));
			if(parse(a).size() != 1) { fail("long arguments"); }
			++S().traces;
		}
	}
	// solvers
	const Dim	min = { "min_step", { NULL, "1e-3", "0", "0.007" } }, max = { "max_step", { NULL, "0.03" } }, clamp = { "clamp", { NULL, "1", "false", "true", "0" } };
	const Dim	corr = { "correction", { NULL, "1", "false" } }, refine = { "refine_steps_count", { NULL, "0", "3" } };
	const Dim	thr = { "error_threshold", { NULL, "1e-6", "0.05" } }, rec = { "max_recursion", { NULL, "0", "3", "12" } }, sub = { "substep_subdivisions", { NULL, "2", "5" } };
	const Dim	clamp2 = { "clamp", { NULL, "1" } }, one = { "max_level", { NULL, "1", "4" } };
	for(const char* t : { "euler", "midpoint", "midpoint-st", "rk4" }) { product(std::string("solver,") + t, { min, max, clamp, thr }, [&](const Opt& o, const Args& a) { solver_case(t, o, a); }); }
	product("solver,trapeze", { refine, min, max, clamp, corr }, [&](const Opt& o, const Args& a) { solver_case("trapeze", o, a); });
	product("solver,bs", { one, thr, min, max, clamp }, [&](const Opt& o, const Args& a) { solver_case("bs", o, a); });
	for(const char* t : { "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc" })
	{
		bool	full = thorough() || !strcmp(t, "rkdp") || !strcmp(t, "rklc");
		std::vector<Dim>	d = full ? std::vector<Dim>{ thr, rec, sub, refine, corr, min, max, clamp2 }
								: std::vector<Dim>{ thr, { "max_recursion", { NULL, "12" } }, { "substep_subdivisions", { NULL, "2" } }, { "refine_steps_count", { NULL, "3" } }, { "correction", { NULL, "1" } }, { "min_step", { NULL, "1e-3" } }, max, clamp2 };
		product(std::string("solver,") + t, d, [&](const Opt& o, const Args& a) { solver_case(t, o, a); });
	}
	product("solver,adams", { { "rank", { NULL, "1", "2", "3", "4", "5" } }, { "starter_solver", { NULL, "euler", "midpoint", "midpoint-st", "rk4", "rkdp", "rkgl", "trapeze", "bs", "rkf" } }, corr, thr, { "min_step", { NULL, "1e-3" } }, max, clamp2,
		  { "refine_steps_count", { NULL, "3" } } }, [&](const Opt& o, const Args& a) { solver_case("adams", o, a); });
	// built-in defaults
	for(const char* t : { "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc", "trapeze" }) for(int dirty : { 0x00, 0xff, 0x5a })
	{
		if(!mc::begin(fmt("builtin:%s:%02x", t, dirty))) { continue; }
		++S().states;
		// whatever the memory contained before
		{ std::vector<void*> v; for(size_t n = 16; n <= 512; n += 8) { void* q = malloc(n); memset(q, dirty, n); v.push_back(q); } for(void* q : v) { free(q); } }
		nbody_solver*	b = bare_solver(t);
		if(b->get_min_step() != 0) { fail("a solver has a smallest step although none was set"); }
		b->set_time_step(1e-9, 1e-2);
		if(!(look(b) == look(direct_solver(t, Opt())))) { fail("a solver with nothing set does not have the default settings"); }
		else { ++S().traces; }
	}
	// engines
	for(const char* t : { "simple", "openmp", "block" }) { product(std::string("engine,") + t, { { "tree_layout", { NULL, "heap" } }, { "max_dist", { NULL, "1" } } }, [&](const Opt& o, const Args& a) { engine_case(t, o, a); }); }
	product("engine,ah", { { "full_recompute_rate", { NULL, "0", "1", "2", "3", "1000" } }, { "max_dist", { NULL, "0", "3.5", "10", "25" } }, { "min_force", { NULL, "0", "1e-4", "0.02", "1e3" } } },
		[&](const Opt& o, const Args& a) { engine_case("ah", o, a); });
	product("engine,simple_bh", { { "tree_layout", { NULL, "tree", "heap", "heap_stackless" } }, { "traverse_type", { NULL, "cycle", "nested_tree" } }, { "distance_to_node_radius_ratio", { NULL, "1.5", "3", "10", "1e9" } },
		  { "tree_build_rate", { NULL, "0", "1", "2", "5", "18446744073709551615" } } }, [&](const Opt& o, const Args& a) { if(str(o, "tree_build_rate", "") != "18446744073709551615") { engine_case("simple_bh", o, a); } });
	// refused
	const char*	NOSOLVER[][4] = { { "", "", "", "" }, { "solver=", "", "", "" }, { "solver=Euler", "", "", "" }, { "solver=rk", "", "", "" }, { "solver=euler ", "", "", "" }, { "solver=stormer", "", "", "" }, { "Solver=euler", "", "", "" },
		{ "solver=adams", "rank=0", "", "" }, { "solver=adams", "rank=6", "", "" }, { "solver=adams", "rank=-1", "", "" }, { "solver=adams", "rank=x", "", "" }, { "solver=adams", "rank=100000000000", "", "" }, { "solver=adams", "rank=", "", "" },
		{ "solver=adams", "starter_solver=adams", "", "" }, { "solver=adams", "starter_solver=none", "rank=3", "" }, { "solver=adams", "starter_solver=", "", "" }, { "solver=rk4x", "max_step=0.1", "", "" }, { "starter_solver=rk4", "", "", "" } };
	for(auto& n : NOSOLVER) for(int rev = 0; rev != 2; ++rev)
	{
		Args	a;
		for(const char* x : n) { if(*x) { a.push_back(std::string("--") + x); } }
		if(rev) { std::reverse(a.begin(), a.end()); }
		std::string	id = fmt("nosolver:%d:", rev);
		for(auto& x : a) { id += x; }
		if(!mc::begin(id)) { continue; }
		nbody_solver*	s = nbody_create_solver(parse(a));
		++S().states;
		if(s) { fail(std::string("a solver was created: ") + s->type_name()); }
		else { ++S().traces; }
	}
	const char*	NOENGINE[][3] = { { "", "", "" }, { "engine=", "", "" }, { "engine=Simple", "", "" }, { "engine=simple_bh ", "", "" }, { "engine=bh", "", "" }, { "engine=nbody_engine_simple", "", "" },
		{ "engine=simple_bh", "tree_layout=list", "" }, { "engine=simple_bh", "tree_layout=", "" }, { "engine=simple_bh", "tree_layout=Tree", "" }, { "engine=simple_bh", "traverse_type=tree", "" }, { "engine=simple_bh", "traverse_type=", "" },
		{ "engine=simple_bh", "traverse_type=cycles", "tree_layout=heap" }, { "engine=simple_bh", "traverse_type=nested_tree", "tree_layout=heaps" }, { "tree_layout=heap", "", "" }, { "engine=rk4", "", "" } };
	for(auto& n : NOENGINE) for(int rev = 0; rev != 2; ++rev)
	{
		Args	a;
		for(const char* x : n) { if(*x) { a.push_back(std::string("--") + x); } }
		if(rev) { std::reverse(a.begin(), a.end()); }
		std::string	id = fmt("noengine:%d:", rev);
		for(auto& x : a) { id += x; }
		if(!mc::begin(id)) { continue; }
		nbody_engine*	e = nbody_create_engine(parse(a));
		++S().states;
		if(e) { fail(std::string("an engine was created: ") + e->type_name()); }
		else { ++S().traces; }
	}
	return finish();
}
