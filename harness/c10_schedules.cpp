// C10: OpenMP engines give bit-identical results for every team size and schedule, without data races.
// Runs on runtime/mcomp.cpp, which hands every scheduling decision to the explorer and checks all memory accesses.
#include "forces.h"
#include "mcomp.h"
#include <link.h>

static mc::Chooser*	ch = nullptr;
static int			budget = 0, used = 0;
static uint64_t		region_base = 0;
static int			focus = -1;			// the region whose schedules are explored, -1: all

static int choose(int n)
{
	if(!ch || (budget >= 0 && used >= budget)) { return 0; }
	if(focus >= 0 && mcomp::stats.regions - region_base != uint64_t(focus) + 1) { return 0; }
	int	c = ch->choose(n);
	if(c) { ++used; }
	return c;
}

//! Source lines of the code addresses in the message
static std::string explain(std::string s)
{
	std::string	add;
	for(size_t p = s.find('@'); p != std::string::npos; p = s.find('@', p + 1))
	{
		char		exe[1000] = {};
		ssize_t		l = readlink("/proc/self/exe", exe, sizeof exe - 1);
		(void)l;
		FILE*		f = popen(mc::fmt("addr2line -sCfe '%s' 0x%s", exe, s.substr(p + 1, s.find_first_not_of("0123456789abcdef", p + 1) - p - 1).c_str()).c_str(), "r");
		char		b[400];
		while(f && fgets(b, sizeof b, f)) { add += std::string(" ") + b; if(add.back() == '\n') { add.pop_back(); } }
		if(f) { pclose(f); }
		add += ";";
	}
	return s + (add.empty() ? "" : " [" + add + " ]");
}

typedef std::vector<std::vector<double>> Result;

static std::string compare(const Result& r, const Result& ref, int threads)
{
	if(r.size() != ref.size()) { return "results of another size"; }
	for(size_t i = 0; i != ref.size(); ++i)
	{
		if(r[i].size() != ref[i].size()) { return "results of another size"; }
		for(size_t k = 0; k != ref[i].size(); ++k)
		{
			if(!mc::same_bits(r[i][k], ref[i][k]))
			{
				return mc::fmt("with %d threads value %zu of output %zu is %.17g, sequentially %.17g", threads, k, i, r[i][k], ref[i][k]);
			}
		}
	}
	return "";
}

//! All schedules with at most 'bound' deviations from the default one (-1: all). False: failed
static bool level(int threads, int bound, const Result& ref, const std::function<Result()>& prog, uint64_t& schedules, uint64_t& acc)
{
	mc::Chooser	c;
	ch = &c;
	budget = bound;
	mcomp::choose = choose;
	mcomp::set_threads(threads);
	schedules = 0;
	uint64_t a0 = mcomp::stats.accesses, p0 = mcomp::stats.points;
	bool	ok = true;
	do
	{
		used = 0;
		mcomp::reset();
		region_base = mcomp::stats.regions;
		Result	r = prog();
		++schedules;
		std::string	e = mcomp::error().empty() ? compare(r, ref, threads) : explain(mcomp::error());
		if(!e.empty()) { mc::fail(e + " in schedule " + c.str()); ok = false; break; }
	}
	while(c.next());
	mc::S().transitions += mcomp::stats.points - p0;
	acc = mcomp::stats.accesses - a0;
	mcomp::set_threads(1);
	mcomp::choose = nullptr;
	ch = nullptr;
	mc::S().traces += schedules;
	mc::S().extra["schedules"] += schedules;
	return ok;
}

//! Every parallel region of the program in turn: all its schedules with 0, 1, 2.. deviations from the default one until
//! none are left or the effort (counted in memory accesses) would get too large; then all regions together
static void explore(const std::string& name, int threads, double cap, const std::function<Result()>& prog)
{
	static std::map<std::string, int>	counts;
	mcomp::set_threads(1);
	mcomp::choose = nullptr;
	ch = nullptr;
	region_base = mcomp::stats.regions;
	std::string	key = name.substr(0, name.rfind(".t"));
	if(!counts.count(key)) { prog(); counts[key] = mcomp::stats.regions - region_base; }
	int			regions = counts[key];
	for(int r = -1; r != regions; ++r)
	{
		if(!mc::begin(mc::fmt("%s.r%d", name.c_str(), r))) { continue; }
		mc::S().case_cpu_limit = 600;
		mc::arm();
		mcomp::set_threads(1);
		Result		ref = prog();
		focus = r;
		uint64_t	last = 0, n = 0, acc = 0;
		int			d = 0;
		bool		complete = false;
		for(;; ++d)
		{
			if(!level(threads, d, ref, prog, n, acc)) { break; }
			if(d && n == last) { complete = true; break; }
			double	growth = last ? std::max(4.0, double(n) / last) : 20;
			last = n;
			if(d && acc * growth > (r < 0 ? cap / 4 : cap)) { break; }
		}
		++mc::S().extra[complete ? "regions_all_schedules" : "regions_bounded"];
		if(!complete) { ++mc::S().extra[mc::fmt("bound_%d", d)]; }
		if(getenv("VERIF_VERBOSE")) { fprintf(stderr, "%s.r%d: %llu schedules %s%d\n", name.c_str(), r, (unsigned long long)n, complete ? "all " : "", d); }
	}
}

static std::vector<double> read(nbody_engine* e, const nbody_engine::memory* m)
{
	std::vector<double>	r(m->size() / sizeof(double));
	e->read_buffer(r.data(), m);
	return r;
}

//! Forces at three states in succession (so that trees are built and rebuilt)
static Result forces(const Kind& k, const Bodies& b, int calls)
{
	int			t = omp_get_max_threads();
	Result		res;
	omp_set_num_threads(1);
	Rig			r(k, b);
	omp_set_num_threads(t);
	for(int i = 0; i != calls; ++i)
	{
		Bodies	s = b;
		for(size_t j = 0; j != 3 * s.n(); ++j) { s.y[j] += 0.125 * i * ((j * 7) % 5); }
		r.e->write_buffer(r.y, s.y.data());
		r.e->fcompute(i, r.y, r.f);
		res.push_back(read(r.e, r.f));
		res.push_back({ double(r.e->get_compute_count()) });
		r.e->advise_time(0.5);
	}
	return res;
}

static Result vector_op(char type, int op, size_t n, bool odd)
{
	int			t = omp_get_max_threads();
	omp_set_num_threads(1);
	Bodies		b = layout(2, n);
	Rig			r(Kind{ type, 0, 0, 1 }, b);
	size_t		m = 6 * n;
	r.e->write_buffer(r.y, b.y.data());
	r.e->write_buffer(r.f, b.y.data());
	std::vector<double>	x(m);
	nbody_engine::memory_array	a(4);
	for(int q = 0; q != 4; ++q)
	{
		a[q] = r.e->create_buffer(8 * m);
		for(size_t i = 0; i != m; ++i) { x[i] = (i % 2 ? -1 : 1) * (1.0 / 3 + (i * 31 + q * 17) % 29 + (odd ? (i == 5 ? 1e300 : 0) : 0)); }
		r.e->write_buffer(a[q], x.data());
	}
	omp_set_num_threads(t);
	double		c[3] = { 0.7, -1.0 / 3, 1e-3 }, fm = 0;
	nbody_engine::memory_array	bb(a.begin() + 1, a.end());
	switch(op)
	{
	case 0: r.e->copy_buffer(a[0], a[1]); break;
	case 1: r.e->fill_buffer(a[0], 3.5); break;
	case 2: r.e->fmadd_inplace(a[0], a[1], 0.3); break;
	case 3: r.e->fmadd(a[0], a[1], a[2], 0.3); break;
	case 4: r.e->fmaddn_inplace(a[0], bb, c, 3); break;
	case 5: r.e->fmaddn(a[0], a[1], bb, c, 3); break;
	case 6: r.e->fmaxabs(a[1], fm); break;
	case 7:
		r.e->write_buffer(r.e->get_y(), b.y.data());
		for(size_t i = 0; i != 3 * n; ++i) { b.y[i] = (i % 3 ? 1 : -1) * (i % 4) * 7.0; }
		r.e->write_buffer(r.y, b.y.data());
		r.e->clamp(r.y, 10);
		break;
	case 8: r.e->fmadd(a[0], a[0], a[1], 0.3); break;
	case 9: r.e->fmaddn(a[0], nullptr, bb, c, 3); break;
	}
	Result		res;
	for(int q = 0; q != 4; ++q) { res.push_back(read(r.e, a[q])); }
	res.push_back({ fm });
	res.push_back(read(r.e, r.y));
	omp_set_num_threads(1);
	r.e->free_buffers(a);
	return res;
}

int main(int argc, char** argv)
{
	mc::init(argc, argv);
	bool	th = mc::thorough();
	double	cap = th ? 3e9 : 4e7;
	// static loops: every body count and team size
	for(char t : { 'o', 'b', 'a' })
	{
		for(int nt : { 2, 3, 4, 8 })
		{
			size_t	top = t == 'b' ? 4 : (th ? 12 : 9);
			for(size_t i = 1; i <= top; ++i)
			{
				size_t	n = t == 'b' ? (i == 1 ? 5 : NBODY_DATA_BLOCK_SIZE * i - 3) : i;
				explore(mc::fmt("loops:%c.n%zu.t%d", t, n, nt), nt, cap, [=]() { return forces(Kind{ t, 0, 0, 2 }, layout(2, n), t == 'b' ? 1 : 3); });
			}
		}
	}
	for(int op = 0; op != 10; ++op)
	{
		for(int nt : { 2, 3, 4, 8 })
		{
			for(size_t n : { 1, 2, 3 })
			{
				for(int odd = 0; odd != 2; ++odd)
				{
					explore(mc::fmt("vector:%d.n%zu.%d.t%d", op, n, odd, nt), nt, cap, [=]() { return vector_op('o', op, n, odd); });
				}
			}
		}
	}
	// trees: tasks and dynamic loops
	const size_t	B = NBODY_DATA_BLOCK_SIZE;
	for(double ratio : { 2.0, 0.0 })
	{
		for(const Kind& k : bh_kinds(ratio, 2))
		{
			for(int nt : { 2, 3, 4 })
			{
				if(ratio != 0)
				{
					for(size_t n = 1; n <= (th ? 20 : 12); ++n)
					{
						explore(mc::fmt("trees:%s.n%zu.t%d", k.str().c_str(), n, nt), nt, cap, [=]() { return forces(k, layout(2, n), 2); });
					}
				}
				for(size_t n : { B + 1, 2 * B + 2, 3 * B, 4 * B + 3 })
				{
					if(ratio != 0 && n > 2 * B + 2 && !th) { continue; }
					explore(mc::fmt("tasks:%s.%d.n%zu.t%d", k.str().c_str(), int(ratio), n, nt), nt, cap, [=]() { return forces(k, layout(2, n), 2); });
				}
			}
		}
	}
	return mc::finish();
}
