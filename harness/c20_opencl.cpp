// C20: options of the OpenCL engines, on runtime/fakecl.cpp: every combination against a directly configured engine.
#include "forces.h"
#include "fakecl.h"
#include "nbody_arg_parser.h"
using namespace mc;

typedef std::vector<std::string> Args;
typedef std::map<std::string, std::string> Opt;

static QVariantMap parse(const Args& a)
{
	Args	s(a);
	s.insert(s.begin(), "program");
	std::vector<char*>	v;
	for(auto& x : s) { v.push_back(&x[0]); }
	v.push_back(nullptr);
	++S().transitions;
	return nbody_parse_arguments(int(s.size()), v.data());
}

static std::string str(const Opt& o, const char* n, const char* def) { auto i = o.find(n); return i == o.end() ? def : i->second; }

static nbody_engine* direct(bool bh, const Opt& o)
{
	nbody_engine_opencl*	e;
	if(bh)
	{
		e = new nbody_engine_opencl_bh(strtod(str(o, "distance_to_node_radius_ratio", "10").c_str(), nullptr),
									   str(o, "traverse_type", "cycle") == "cycle" ? ett_cycle : ett_nested_tree,
									   strtoull(str(o, "tree_build_rate", "0").c_str(), nullptr, 10),
									   str(o, "tree_layout", "heap") == "heap" ? etl_heap : etl_heap_stackless);
	}
	else { e = new nbody_engine_opencl; }
	e->set_block_size(atoi(str(o, "block_size", "64").c_str()));
	if(0 != e->select_devices(QString::fromStdString(str(o, "device", "0:0")), str(o, "verbose", "0") != "0", str(o, "oclprof", "0") != "0")) { abort(); }
	return e;
}

struct Seen
{
	std::vector<double>	d;
	std::string			type, info;
	std::set<std::pair<int, int>>	used;
	bool operator == (const Seen& o) const
	{
		return type == o.type && info == o.info && used == o.used && d.size() == o.d.size() && 0 == memcmp(d.data(), o.d.data(), 8 * d.size());
	}
};

static Seen look(nbody_engine* e)
{
	Seen	r;
	r.type = e->type_name();
	{
		Printed	p;
		e->print_info();
		size_t	pos = 0;
		std::string	t = p.text();
		while(pos < t.size())
		{
			size_t	n = t.find('\n', pos);
			std::string	l = t.substr(pos, n - pos);
			if(l.find("ctx") == std::string::npos) { r.info += l + "\n"; }		// holds an address
			pos = n + 1;
		}
	}
	fakecl::used.clear();
	Bodies	b = layout(2, 128);
	for(size_t i = 0; i != 3 * b.n(); ++i) { b.y[i] *= 30; }
	{
		Rig		g(e, b);
		for(size_t st : { 0, 1, 2, 3 })
		{
			g.e->set_step(st);
			std::string	err;
			std::vector<double>	f = g.forces(b, 0.5 * st, err);
			if(err.empty()) { err = fakecl::error(); }
			if(!err.empty()) { fail(err); break; }
			r.d.insert(r.d.end(), f.begin(), f.end());
			for(size_t i = 0; i != 3 * b.n(); ++i) { b.y[i] += 5.0 * ((i * 5 + st) % 7) - 14; }
		}
	}
	r.used = fakecl::used;
	return r;
}

struct Dim { const char* name; std::vector<const char*> values; };

static void product(bool bh, const std::vector<Dim>& dims)
{
	Chooser	c(true);
	do
	{
		Opt		o;
		Args	a;
		for(const Dim& d : dims)
		{
			const char*	v = d.values[c.choose(int(d.values.size()))];
			if(v) { o[d.name] = v; a.push_back(std::string("--") + d.name + "=" + v); }
		}
		if(!begin(fmt("cl:%d:%s", bh, c.str().c_str()))) { continue; }
		std::string	t = bh ? "opencl_bh" : "opencl";
		Args	fwd(a), bwd(a.rbegin(), a.rend());
		fwd.insert(fwd.begin(), "--engine=" + t);
		bwd.push_back("--engine=" + t);
		bwd.insert(bwd.begin(), "--engine=simple");
		fakecl::reset();
		Seen	w = look(direct(bh, o));
		bool	ok = true;
		for(const Args& x : { fwd, bwd })
		{
			nbody_engine*	e = nbody_create_engine(parse(x));
			if(e == NULL) { fail("no engine was created"); ok = false; break; }
			if(!(look(e) == w)) { fail(fmt("the engine made from the options behaves differently (%s)", w.type.c_str())); ok = false; break; }
		}
		if(ok) { ++S().traces; }
	}
	while(c.next());
}

int main(int argc, char** argv)
{
	init(argc, argv);
	fakecl::configure(2, 4);
	fakecl::order = 0;
	const Dim	dev = { "device", { NULL, "0:1", "1:0", "0:0,1", "0:0;1:2" } }, block = { "block_size", { NULL, "8", "32" } };
	product(false, { dev, { "block_size", { NULL, "1", "2", "8", "16", "32" } }, { "oclprof", { NULL, "1", "0" } }, { "verbose", { NULL, "1" } }, { "tree_layout", { NULL, "heap_stackless" } } });
	if(thorough())
	{
		product(true, { dev, block, { "traverse_type", { NULL, "cycle", "nested_tree" } }, { "tree_layout", { NULL, "heap", "heap_stackless" } },
						{ "distance_to_node_radius_ratio", { NULL, "1.5", "3.25" } }, { "tree_build_rate", { NULL, "1", "2" } }, { "oclprof", { NULL, "1" } } });
	}
	else
	{
		product(true, { { "device", { NULL, "1:0", "0:0,1" } }, { "block_size", { NULL, "8" } }, { "traverse_type", { NULL, "cycle", "nested_tree" } }, { "tree_layout", { NULL, "heap", "heap_stackless" } },
						{ "distance_to_node_radius_ratio", { NULL, "3.25" } }, { "tree_build_rate", { NULL, "2" } } });
	}
	const char*	BAD[][2] = { { "traverse_type", "tree" }, { "traverse_type", "" }, { "tree_layout", "tree" }, { "tree_layout", "" }, { "tree_layout", "heaps" }, { "device", "" }, { "device", "2:0" }, { "device", "0:4" }, { "device", "0" }, { "device", "x" } };
	for(auto& x : BAD) for(int bh = 0; bh != 2; ++bh)
	{
		if(!bh && strcmp(x[0], "device")) { continue; }
		if(!begin(fmt("bad:%d:%s:%s", bh, x[0], x[1]))) { continue; }
		nbody_engine*	e = nbody_create_engine(parse({ bh ? "--engine=opencl_bh" : "--engine=opencl", fmt("--%s=%s", x[0], x[1]) }));
		if(e) { fail(fmt("%s=%s is accepted", x[0], x[1])); delete e; }
		else { ++S().traces; }
		++S().states;
	}
	return finish();
}
