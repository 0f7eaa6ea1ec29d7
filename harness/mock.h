// An engine of the harness: any right hand side, tracked buffers, every evaluation recorded, error estimates under control.
#ifndef VERIF_MOCK_H
#define VERIF_MOCK_H
#include "common.h"
#include "nbody_engine.h"
#include "nbody_solvers.h"
#include "nbody_extrapolator.h"

typedef long double LD;
typedef std::vector<double> V;
typedef std::vector<LD> VL;

class Mock : public nbody_engine
{
public:
	struct mem : public memory
	{
		V		d;
		size_t	bytes;
		bool	init = false;
		Mock*	owner;
		size_t size() const override { return bytes; }
	};
	struct eval { double t; V y; };

	size_t						n;
	double						time = 0;
	size_t						step = 0;
	std::string					problem;			// first contract violation
	std::set<memory*>			live;
	std::vector<eval>			evals;
	bool						record = false;
	mem*						ymem;
	//! right hand side: (number of the evaluation, t, y) -> dy
	std::function<V(size_t, double, const V&)>	rhs;
	//! value returned as maximum: (vector) -> value. Default: the true one
	std::function<double(const V&)>	maximum;
	size_t						ncalls = 0;
	std::vector<V>				max_args;

	explicit Mock(size_t dim) : n(dim)
	{
		ymem = static_cast<mem*>(create_buffer(8 * n));
		ymem->d.assign(n, 0);
		ymem->init = true;
	}
	~Mock() { live.erase(ymem); delete ymem; for(memory* m : live) { delete m; } }
	void bad(const std::string& s) { if(problem.empty()) { problem = s; } }
	mem* own(const memory* m, const char* what)
	{
		mem*	r = const_cast<mem*>(dynamic_cast<const mem*>(m));
		if(r == NULL || r->owner != this || !live.count(r)) { bad(mc::fmt("%s of a buffer that does not exist", what)); return NULL; }
		return r;
	}
	mem* rd(const memory* m, const char* what)
	{
		mem*	r = own(m, what);
		if(r && !r->init) { bad(mc::fmt("%s uses a buffer that was never written", what)); }
		return r;
	}
	size_t extra_buffers() const { return live.size() - 1; }

	const char* type_name() const override { return "mock"; }
	bool init(nbody_data*) override { return true; }
	void get_data(nbody_data*) override {}
	size_t problem_size() const override { return n; }
	memory* get_y() override { return ymem; }
	void advise_time(const nbcoord_t& dt) override { time += dt; ++step; }
	nbcoord_t get_time() const override { return time; }
	void set_time(nbcoord_t t) override { time = t; }
	size_t get_step() const override { return step; }
	void set_step(size_t s) override { step = s; }
	void fcompute(const nbcoord_t& t, const memory* y, memory* f) override
	{
		mem *a = rd(y, "fcompute"), *b = own(f, "fcompute");
		if(!a || !b) { return; }
		if(a == b) { bad("fcompute in place"); }
		advise_compute_count();
		if(record) { evals.push_back(eval{ t, a->d }); }
		b->d = rhs(ncalls++, t, a->d);
		b->init = true;
	}
	void clamp(memory*, nbcoord_t) override {}
	memory* create_buffer(size_t s) override
	{
		mem*	m = new mem;
		m->bytes = s;
		m->d.assign(s / 8, std::nan(""));
		m->owner = this;
		live.insert(m);
		return m;
	}
	void free_buffer(memory* m) override
	{
		if(m == NULL) { return; }
		if(m == ymem) { bad("the state buffer was freed"); return; }
		if(!live.erase(m)) { bad("a buffer was freed twice"); return; }
		delete m;
	}
	void read_buffer(void* dst, const memory* src) override
	{
		if(mem* m = rd(src, "read")) { memcpy(dst, m->d.data(), m->bytes); }
	}
	void write_buffer(memory* dst, const void* src) override
	{
		if(mem* m = own(dst, "write")) { memcpy(m->d.data(), src, m->bytes); m->init = true; }
	}
	void copy_buffer(memory* a, const memory* b) override
	{
		mem *x = own(a, "copy"), *y = rd(b, "copy");
		if(!x || !y) { return; }
		if(x->bytes != y->bytes) { bad("copy of different sizes"); return; }
		x->d = y->d;
		x->init = true;
	}
	void fill_buffer(memory* a, const nbcoord_t& v) override
	{
		if(mem* m = own(a, "fill")) { m->d.assign(m->d.size(), v); m->init = true; }
	}
	void fmadd_inplace(memory* a, const memory* b, const nbcoord_t& c) override
	{
		mem *x = rd(a, "fmadd_inplace"), *y = rd(b, "fmadd_inplace");
		if(!x || !y) { return; }
		for(size_t i = 0; i != n; ++i) { x->d[i] += y->d[i] * c; }
	}
	void fmadd(memory* a, const memory* b, const memory* c, const nbcoord_t& d) override
	{
		mem *x = own(a, "fmadd"), *y = rd(b, "fmadd"), *z = rd(c, "fmadd");
		if(!x || !y || !z) { return; }
		for(size_t i = 0; i != n; ++i) { x->d[i] = y->d[i] + z->d[i] * d; }
		x->init = true;
	}
	void fmaddn_corr(memory* a, memory* corr, const memory_array& b, const nbcoord_t* c, size_t csize) override
	{
		mem *x = rd(a, "fmaddn_corr"), *k = rd(corr, "fmaddn_corr");
		if(!x || !k || !c || csize > b.size()) { bad("fmaddn_corr"); return; }
		for(size_t q = 0; q != csize; ++q)
		{
			if(c[q] == 0) { continue; }
			mem*	y = rd(b[q], "fmaddn_corr");
			if(!y) { return; }
			for(size_t i = 0; i != n; ++i)
			{
				volatile double	t = y->d[i] * c[q] - k->d[i], s = x->d[i] + t;
				volatile double	u = s - x->d[i];
				k->d[i] = u - t;
				x->d[i] = s;
			}
		}
	}
	void fmaddn_inplace(memory* a, const memory_array& b, const nbcoord_t* c, size_t csize) override
	{
		if(c == NULL || csize > b.size()) { bad("fmaddn_inplace with wrong operands"); return; }
		nbody_engine::fmaddn_inplace(a, b, c, csize);
	}
	void fmaddn(memory* a, const memory* b, const memory_array& c, const nbcoord_t* d, size_t dsize) override
	{
		if(d == NULL || dsize > c.size()) { bad("fmaddn with wrong operands"); return; }
		nbody_engine::fmaddn(a, b, c, d, dsize);
	}
	void fmaxabs(const memory* a, nbcoord_t& r) override
	{
		mem*	x = rd(a, "fmaxabs");
		if(!x) { return; }
		if(maximum) { max_args.push_back(x->d); r = maximum(x->d); return; }
		r = 0;
		for(double v : x->d) { r = std::max(r, fabs(v)); }
	}
};

inline nbody_solver* make_solver(const char* name, const QVariantMap& extra = QVariantMap())
{
	QVariantMap	p(extra);
	p["solver"] = name;
	return nbody_create_solver(p);
}
#endif
