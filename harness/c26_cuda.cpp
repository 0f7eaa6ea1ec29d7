// C26: the CUDA engines on runtime/fakecuda.cpp: every device set, thread order and command order, against host oracles.
#include "partition.h"
#include "fakecuda.h"
#include "nbody_solvers.h"
#include "nbody_solver.h"
using namespace mc;

typedef std::vector<double> V;

static Chooser*	ch = nullptr;
static int		budget = 0, used = 0;
static int choose(int n)
{
	if(!ch || used >= budget) { return 0; }
	int	c = ch->choose(n);
	if(c) { ++used; }
	return c;
}

struct Conf { const char* devices; int count; bool nccl; };
static const Conf CONFS[] =
{
	{ "0", 1, false }, { "5", 1, true }, { "0,1", 2, false }, { "1,0", 2, true }, { "0,0", 2, false }, { "3,6", 2, false },
	{ "0,1,2,3", 4, false }, { "3,1,3,0", 4, false }, { "2,0,7,1", 4, true }, { "0,1,2,3,4,5,6,7", 8, false }, { "0,0,1,1,2,2,3,3", 8, false },
};
static const size_t NCONF = sizeof CONFS / sizeof *CONFS;

//! Kinds of CUDA engines
struct CK { const char* name; int bh, sl; std::string str() const { return bh ? fmt("%s%d", name, sl) : name; } };
static const CK KINDS[] = { { "cuda", 0, 0 }, { "cuda_bh", 1, 0 }, { "cuda_bh_tex", 1, 0 }, { "cuda_bh_tex", 1, 1 } };
enum { NKIND = 4 };

//! Bodies: whole blocks of the vector operations and of the force computation on every device
static bool fits(size_t n, int devices, int block)
{
	return n % NBODY_DATA_BLOCK_SIZE == 0 && (6 * n / devices) % NBODY_DATA_BLOCK_SIZE == 0 && n % (size_t(devices) * block) == 0;
}

static nbody_engine* make(const CK& k, const char* dev, int block, double ratio, size_t rate, bool nccl = false)
{
	QVariantMap	p;
	p["engine"] = k.name;
	p["device"] = dev;
	p["block_size"] = block;
	if(nccl) { p["use_nccl"] = "1"; }
	if(k.bh)
	{
		p["tree_layout"] = k.sl ? "heap_stackless" : "heap";
		p["distance_to_node_radius_ratio"] = ratio;
		p["tree_build_rate"] = qulonglong(rate);
	}
	return nbody_create_engine(p);
}

static std::string leaks()
{
	if(fakecuda::live_buffers()) { return fmt("%d buffers are never released", fakecuda::live_buffers()); }
	if(fakecuda::live_textures()) { return fmt("%d textures are never released", fakecuda::live_textures()); }
	if(fakecuda::live_streams()) { return fmt("%d streams are never released", fakecuda::live_streams()); }
	return "";
}

static bool trouble(std::string& e)
{
	if(e.empty() && !fakecuda::error().empty()) { e = fakecuda::error(); }
	return !e.empty();
}

//! Positions of a later state
static Bodies later(const Bodies& b, int k)
{
	Bodies	r = b;
	size_t	n = b.n();
	for(size_t i = 0; i != n; ++i)
	{
		size_t	j = k % 2 ? n - 1 - i : (i + 1) % n;
		r.set(i, b.r(j, 0) * 1.5 + 0.01 * i, b.r(j, 1) - 0.25 * k, -b.r(j, 2) + 0.003 * i * i);
	}
	for(size_t i = 0; i != 3 * n; ++i) { r.y[3 * n + i] = b.y[3 * n + i] + 1 + k; }
	return r;
}

//! Distance of forces relative to the sum of the magnitudes
static std::string diff_host(const Bodies& b, const V& f, const V& g)
{
	for(size_t i = 0; i != b.n(); ++i)
	{
		Acc	a = direct(b, i);
		LD	tol = EPS * (64 + 4 * b.n()) * (a.abs + a.cond) + 1e-290L;
		for(int k = 3; k != 6; ++k)
		{
			if(!(fabsl(LD(f[k * b.n() + i]) - g[k * b.n() + i]) <= tol))
			{
				return fmt("acceleration of body %zu axis %d is %.17g, on the host %.17g (tolerance %.3Lg)", i, k - 3, f[k * b.n() + i], g[k * b.n() + i], tol);
			}
		}
	}
	return "";
}

//! Forces through a history of states. 'spread': states reach the engine through slice-wise operations.
static std::string history(const CK& k, const Conf& c, int block, const Bodies& b0, double ratio, size_t rate, bool spread)
{
	std::string		e;
	fakecuda::reset();
	nbody_engine*	eng = make(k, c.devices, block, ratio, rate, c.nccl);
	if(!eng) { return "the engine is not created"; }
	{
		Rig				g(eng, b0);
		std::unique_ptr<Rig>	host;
		if(k.bh) { host.reset(new Rig(Kind{ k.sl ? 'l' : 'h', 0, ratio, rate }, b0)); }
		Bodies			b = b0;
		size_t			n = b.n();
		static const size_t STEP[] = { 7, 7, 8, 9, 12 };
		nbody_engine::memory*	tmp = eng->create_buffer(8 * 6 * n);
		for(int s = 0; s != 4 && !trouble(e); ++s)
		{
			if(s) { b = later(b, s); }
			eng->set_step(STEP[s]);
			V	f;
			if(!spread) { f = g.forces(b, 0, e); }
			else
			{
				// y = 0 * tmp + b, every device holds its slice only
				V	junk(6 * n, 5 + s);
				eng->write_buffer(g.y, junk.data());
				eng->write_buffer(tmp, b.y.data());
				eng->fmadd(g.y, tmp, g.y, 0);
				V	bad(6 * n, std::nan(""));
				eng->write_buffer(g.f, bad.data());
				eng->fcompute(0, g.y, g.f);
				// the result is used slice-wise, too
				eng->copy_buffer(tmp, g.f);
				f.assign(6 * n, 0);
				eng->read_buffer(f.data(), tmp);
				V	back(6 * n);
				eng->read_buffer(back.data(), g.y);
				if(back != b.y) { e = "force computation modified its input"; }
				for(size_t i = 0; i != 3 * n; ++i) { if(f[i] != b.y[3 * n + i]) { e = fmt("derivative of coordinate %zu is not the velocity", i); } }
			}
			++S().transitions;
			if(trouble(e)) { break; }
			if(ratio > 1e20) { e = diff_direct(b, f, true); }
			else
			{
				std::string	he;
				host->e->set_step(STEP[s]);
				V	h = host->forces(b, 0, he);
				e = diff_host(b, f, h);
			}
		}
		eng->free_buffer(tmp);
	}
	trouble(e);
	if(e.empty()) { e = leaks(); }
	return e;
}

struct Model { std::vector<V> b; };
enum { NOPS = 16 };
//! One vector operation on the engine and on the model. Returns a difference.
static std::string op(int o, nbody_engine* e, std::vector<nbody_engine::memory*>& m, Model& r)
{
	size_t	n = r.b[0].size();
	auto	each = [&](std::function<double(size_t)> f) { V x(n); for(size_t i = 0; i != n; ++i) { x[i] = f(i); } return x; };
	auto&	b = r.b;
	switch(o)
	{
	case 0: e->copy_buffer(m[0], m[1]); b[0] = b[1]; break;
	case 1: e->copy_buffer(m[2], m[0]); b[2] = b[0]; break;
	case 2: e->fill_buffer(m[0], -2.5); b[0].assign(n, -2.5); break;
	case 3: e->fmadd_inplace(m[0], m[1], 0.5); b[0] = each([&](size_t i) { return b[0][i] + b[1][i] * 0.5; }); break;
	case 4: e->fmadd_inplace(m[1], m[1], -2); b[1] = each([&](size_t i) { return b[1][i] + b[1][i] * -2; }); break;
	case 5: e->fmadd(m[0], m[1], m[2], 3); b[0] = each([&](size_t i) { return b[1][i] + b[2][i] * 3; }); break;
	case 6: e->fmadd(m[1], m[1], m[0], -1); b[1] = each([&](size_t i) { return b[1][i] - b[0][i]; }); break;
	case 7: { double c[] = { 2, 0, -0.5 }; e->fmaddn(m[3], m[0], { m[1], m[0], m[2] }, c, 3); b[3] = each([&](size_t i) { return b[0][i] + 2 * b[1][i] - 0.5 * b[2][i]; }); break; }
	case 8: { double c[] = { 1, 4 }; e->fmaddn_inplace(m[2], { m[0], m[1] }, c, 2); b[2] = each([&](size_t i) { return b[2][i] + b[0][i] + 4 * b[1][i]; }); break; }
	case 9:
	{
		double c[] = { 0.25, 0, 2 };
		e->fill_buffer(m[4], 0);
		e->fmaddn_corr(m[0], m[4], { m[1], m[3], m[2] }, c, 3);
		b[0] = each([&](size_t i) { return b[0][i] + 0.25 * b[1][i] + 2 * b[2][i]; });
		b[4].assign(n, 0);
		break;
	}
	case 10:
	{
		double	x = -7, w = 0;
		e->fmaxabs(m[0], x);
		for(double v : b[0]) { w = std::max(w, fabs(v)); }
		if(x != w) { return fmt("the largest absolute element is %.17g instead of %.17g", x, w); }
		break;
	}
	case 11:
	{
		e->clamp(m[1], 40);
		for(size_t i = 0; i != n / 2; ++i)
		{
			double&	v = b[1][i];
			if(v > 40) { v -= 80; }
			if(v < -40) { v += 80; }
		}
		break;
	}
	case 12: { V x = each([](size_t i) { return 3.0 * i - 40; }); e->write_buffer(m[1], x.data()); b[1] = x; break; }
	case 13: { V x(n); e->read_buffer(x.data(), m[2]); if(x != b[2]) { return "a read buffer differs"; } break; }
	case 14: { double c[] = { 5 }; e->fmaddn(m[0], nullptr, { m[1], m[2] }, c, 1); b[0] = each([&](size_t i) { return 5 * b[1][i]; }); break; }
	case 15: e->fmadd_inplace(m[2], m[0], 0); b[2] = each([&](size_t i) { return b[2][i] + 0 * b[0][i]; }); break;
	}
	return "";
}

//! All commands orders of a program with at most 'bound' deviations. The program returns a difference.
static bool orders(int bound, uint64_t limit, const std::function<std::string()>& prog)
{
	Chooser	c;
	bool	ok = true;
	uint64_t	count = 0;
	budget = bound;
	fakecuda::choose = choose;
	do
	{
		ch = &c;
		used = 0;
		arm();
		std::string	e = prog();
		ch = nullptr;
		++S().traces;
		++count;
		if(!e.empty()) { fail(e + " (command order " + c.str() + ")"); ok = false; break; }
		if(count >= limit) { S().exhaustive = false; break; }
	}
	while(c.next());
	fakecuda::choose = nullptr;
	S().extra["command_orders"] += count;
	return ok;
}

static bool expected(const std::string& s, int devs, std::set<int>& use)
{
	std::vector<std::string>	v(1);
	int		total = 0;
	for(char c : s) { if(c == ',') { v.push_back(""); } else { v.back() += c; } }
	for(auto& x : v)
	{
		int	n = 0;
		if(x.empty()) { continue; }		// empty entries are skipped
		if(x[0] == '-' && x.size() > 1 && x.find_first_not_of('0', 1) == std::string::npos) { x = "0"; }		// the number zero
		for(char c : x) { if(c < '0' || c > '9') { return false; } n = std::min(1000, n * 10 + c - '0'); }
		if(n >= devs) { return false; }
		use.insert(n);
		++total;
	}
	return total && (total & (total - 1)) == 0;
}

static void mark(const char* n)
{
	static clock_t	t = clock();
	clock_t			c = clock();
	S().extra[std::string("cpu_ms_") + n] += (c - t) * 1000 / CLOCKS_PER_SEC;
	t = c;
}

int main(int argc, char** argv)
{
	mark("start");
	init(argc, argv);
	omp_set_num_threads(1);
	fakecuda::fatal = [](const std::string& m) { fail(m); _exit(78); };
	const bool	deep = thorough();
	fakecuda::configure(8);

	// device lists
	{
		static const char	A[] = "012a,-";
		size_t	len = deep ? 7 : 5;
		std::string	s;
		std::function<void()> rec = [&]()
		{
			std::set<int>	want;
			bool	ok = expected(s, 2, want);
			if(begin("list:" + s))
			{
				fakecuda::configure(2);
				fakecuda::reset();
				fakecuda::used.clear();
				std::unique_ptr<nbody_engine>	e(make(KINDS[s.size() % NKIND], s.c_str(), 8, 10, 0));
				if(bool(e) != ok) { fail(fmt("device list '%s' is %s", s.c_str(), e ? "accepted" : "refused")); }
				else if(e)
				{
					Bodies	b = layout(2, 64);
					Rig		g(e.release(), b);
					std::string	err;
					V		f = g.forces(b, 0, err);
					if(!trouble(err) && s.size() % NKIND == 0) { err = diff_direct(b, f, true); }
					if(err.empty() && fakecuda::used != want) { err = fmt("%zu devices compute instead of the %zu selected", fakecuda::used.size(), want.size()); }
					if(!err.empty()) { fail("device list '" + s + "': " + err); }
					++S().traces;
				}
				++S().states;
				fakecuda::configure(8);
			}
			if(s.size() == len) { return; }
			for(const char* c = A; *c; ++c) { s += *c; rec(); s.pop_back(); }
		};
		rec();
		for(auto& k : KINDS)
		{
			if(!begin("none:" + k.str())) { continue; }
			fakecuda::configure(0);
			std::unique_ptr<nbody_engine>	e(make(k, "0", 64, 10, 0));
			if(e) { fail("an engine is created without any device"); }
			fakecuda::configure(8);
		}
		// options and defaults
		for(auto& k : KINDS) for(int d = 0; d != 2; ++d)
		{
			if(!begin(fmt("default:%s:%d", k.str().c_str(), d))) { continue; }
			QVariantMap	p;
			p["engine"] = k.name;
			if(k.sl) { p["tree_layout"] = "heap_stackless"; }
			if(d) { p["block_size"] = 64; p["device"] = "0"; }
			if(d && k.bh) { p["distance_to_node_radius_ratio"] = 10; p["tree_build_rate"] = 0; }
			fakecuda::reset();
			Bodies	b = layout(2, 128);
			std::unique_ptr<nbody_engine>	e(nbody_create_engine(p));
			if(!e) { fail("the engine is not created"); continue; }
			fakecuda::used.clear();
			e->print_info();
			if(std::string(e->type_name()) != std::string("nbody_engine_") + k.name) { fail("another engine is created: " + std::string(e->type_name())); }
			Rig		g(e.release(), b), h(Kind{ 'h', 0, 10, 0 }, b);
			std::string	err;
			for(int s = 0; s != 2; ++s)
			{
				if(s) { b = later(b, 1); }
				V		f = g.forces(b, 0, err), hf = h.forces(b, 0, err);
				if(!trouble(err)) { err = k.bh ? diff_host(b, f, hf) : diff_direct(b, f, true); }
			}
			if(err.empty() && fakecuda::used != std::set<int>({ 0 })) { err = "another device than the first one computes"; }
			if(!err.empty()) { fail(err); }
			++S().traces;
		}
		static const char*	BAD[][2] = { { "tree_layout", "tree" }, { "tree_layout", "garbage" }, { "tree_layout", "" }, { "device", "8" }, { "device", "0,1,2" }, { "device", "9999999999" }, { "device", "" } };
		for(auto& x : BAD)
		{
			if(!begin(fmt("bad:%s:%s", x[0], x[1]))) { continue; }
			QVariantMap	p;
			p["engine"] = "cuda_bh_tex";
			p[x[0]] = x[1];
			std::unique_ptr<nbody_engine>	e(nbody_create_engine(p));
			if(e) { fail(fmt("%s='%s' is accepted", x[0], x[1])); }
		}
		// out of memory
		for(auto& k : KINDS) for(size_t ci : { 0, 2, 6 }) for(int nth = 1; nth <= 9; ++nth)
		{
			if(!begin(fmt("memory:%s:%zu:%d", k.str().c_str(), ci, nth))) { continue; }
			fakecuda::reset();
			std::string	err;
			{
				Bodies		b = layout(2, 128);
				nbody_data	d;
				b.to_data(d);
				std::unique_ptr<nbody_engine>	e(make(k, CONFS[ci].devices, 32, 10, 0));
				fakecuda::fail_malloc = nth;
				bool	ok = e->init(&d);
				int		left = fakecuda::fail_malloc, dev = CONFS[ci].count;
				fakecuda::fail_malloc = 0;
				if(ok != (left != 0)) { err = fmt("init %s though allocation %d fails", ok ? "succeeds" : "fails", nth); }
				if(ok)
				{
					fakecuda::fail_malloc = 1 + nth % dev;
					auto*	m = e->create_buffer(800);
					fakecuda::fail_malloc = 0;
					if(m) { err = "a buffer is created without memory"; }
				}
			}
			if(!trouble(err)) { err = leaks(); }
			if(!err.empty()) { fail(err); }
			++S().traces;
		}
	}

	mark("list");
	// forces: every kind of engine on every device set
	for(size_t ci = 0; ci != NCONF; ++ci) for(int block : { 1, 8, 32, 64, 128 }) for(auto& k : KINDS) for(int lay = 0; lay != LAYOUTS; ++lay)
	{
		for(size_t n = 64; n <= (deep ? 512 : 256); n += 64) for(int spread = 0; spread != 2; ++spread)
		{
			const Conf&	c = CONFS[ci];
			if(!fits(n, c.count, block)) { continue; }
			if(!deep && (n > 128 && !(c.count == 8 && n == 256 && block == 32) && !(n == 192 && block == 64 && c.count == 1)) || (lay != 2 && n > 128) || (!deep && lay != 2 && (block == 1 || n > 64 * std::max(1, c.count / 2) || (lay + ci + spread) % 2))) { continue; }
			if(block == 1 && n > 64) { continue; }
			size_t	rate = (ci + lay + n / 64) % 3;
			if(!begin(fmt("exact:%s:%d:%s:%d:%zu:%d", c.devices, block, k.str().c_str(), lay, n, spread))) { continue; }
			fakecuda::order = (lay + spread) % 2;
			Bodies	b = layout(lay, n);
			std::string	e = history(k, c, block, b, 1e30, rate, spread);
			if(!e.empty()) { fail(e); }
			++S().traces;
			++S().states;
		}
	}
	mark("exact");
	// Barnes-Hut: the opening ratio is respected, also with a reused tree
	for(size_t ci = 0; ci != NCONF; ++ci) for(int block : { 8, 32, 64 }) for(auto& k : KINDS) for(double ratio : { 1.5, 3.0, 10.0 }) for(size_t rate : { 0, 1, 2, 100 })
	{
		if(!k.bh) { continue; }
		for(int lay : { 2, 4, 0, 6 }) for(size_t n = 64; n <= 512; n += 64)
		{
			if(!fits(n, CONFS[ci].count, block) || (!deep && (n > 256 || (n > 128 && (rate != 2 || lay != 2)) || block == 64 || (ratio != 3.0 && n != 64)))) { continue; }
			if(!begin(fmt("ratio:%s:%d:%s:%g:%zu:%d:%zu", CONFS[ci].devices, block, k.str().c_str(), ratio, rate, lay, n))) { continue; }
			fakecuda::order = (lay / 2 + rate) % 2;
			Bodies	b = layout(lay, n);
			std::string	e = history(k, CONFS[ci], block, b, ratio, rate, (n / 64 + rate) % 2);
			if(!e.empty()) { fail(e); }
			++S().traces;
			++S().states;
		}
	}
	// deep trees: the traversal stack grows with the depth
	for(auto& k : KINDS) for(size_t n : { 1024, 2048, 8192 })
	{
		if(!k.bh || (n > 1024 && !deep)) { continue; }
		if(!begin(fmt("deep:%s:%zu", k.str().c_str(), n))) { continue; }
		fakecuda::reset();
		fakecuda::order = 0;
		Bodies	b = layout(2, n);
		for(size_t i = 0; i != n; ++i) { b.set(i, double(i * 7919 % 4093), double(i * 613 % 4091), double(i * 2917 % 4079)); }
		nbody_engine*	eng = make(k, "0", 64, 1.25, 0);
		if(!eng) { fail("the engine is not created"); continue; }
		Rig		g(eng, b), h(Kind{ k.sl ? 'l' : 'h', 0, 1.25, 0 }, b);
		std::string	e;
		V		f = g.forces(b, 0, e), hf = h.forces(b, 0, e);
		if(!trouble(e)) { e = diff_host(b, f, hf); }
		if(!e.empty()) { fail(e); }
		++S().traces;
		++S().states;
	}
	mark("ratio");
	// sequences of vector operations
	for(size_t ci = 0; ci != NCONF; ++ci) for(int mul = 1; mul != 4; ++mul)
	{
		int		block = 32;
		size_t	n = 64 * mul;
		if(!fits(n, CONFS[ci].count, block)) { continue; }
		size_t	depth = deep ? 3 : 2;
		for(int first = 0; first != NOPS; ++first)
		{
			if(!begin(fmt("ops:%s:%zu:%d", CONFS[ci].devices, n, first))) { continue; }
			fakecuda::reset();
			fakecuda::order = first % 2;
			std::unique_ptr<nbody_engine>	e(make(KINDS[0], CONFS[ci].devices, block, 0, 0, CONFS[ci].nccl));
			if(!e) { fail("the engine is not created"); continue; }
			Bodies		b = layout(2, n);
			nbody_data	d;
			b.to_data(d);
			if(!e->init(&d)) { fail("init failed"); continue; }
			std::vector<nbody_engine::memory*>	m;
			for(int i = 0; i != 5; ++i) { m.push_back(e->create_buffer(8 * 6 * n)); }
			Chooser	c(true);
			std::string	err;
			do
			{
				Model	r;
				for(int i = 0; i != 5; ++i)
				{
					V	x(6 * n);
					for(size_t k = 0; k != x.size(); ++k) { x[k] = (k * (i + 3)) % 97 - 48.0 + (k == size_t(i * 5) % (6 * n) ? 200 - 450 * (i % 2) : 0); }
					r.b.push_back(x);
					e->write_buffer(m[i], x.data());
				}
				for(size_t s = 0; s != depth && err.empty(); ++s)
				{
					err = op(s ? c.choose(NOPS) : first, e.get(), m, r);
					++S().transitions;
				}
				for(int i = 0; i != 5 && err.empty(); ++i)
				{
					V	x(6 * n, std::nan(""));
					e->read_buffer(x.data(), m[i]);
					for(size_t k = 0; k != x.size(); ++k) { if(x[k] != r.b[i][k]) { err = fmt("element %zu of buffer %d is %.17g instead of %.17g", k, i, x[k], r.b[i][k]); break; } }
				}
				++S().traces;
				if(trouble(err)) { fail(err + " after operations " + fmt("%d", first) + (depth > 1 ? "." + c.str() : "")); break; }
			}
			while(c.next());
			V	own(6 * n);
			e->read_buffer(own.data(), e->get_y());
			if(own != b.y) { fail("vector operations changed the state of the engine"); }
			for(auto x : m) { e->free_buffer(x); }
		}
	}
	mark("ops");
	// bodies in and out, clock, compensated sum, the largest element at every place, operands of other engines
	for(size_t ci = 0; ci != NCONF; ++ci) for(size_t n : { 64, 128, 256 })
	{
		int			block = 32;
		if(!fits(n, CONFS[ci].count, block) || (n > 64 && fits(n / 2, CONFS[ci].count, block) && !deep)) { continue; }
		if(!begin(fmt("misc:%s:%zu", CONFS[ci].devices, n))) { continue; }
		Bodies		b = layout(2, n);
		nbody_data	d, d2;
		std::string	err;
		fakecuda::reset();
		b.to_data(d);
		b.to_data(d2);
		std::unique_ptr<nbody_engine>	e(make(KINDS[ci % NKIND], CONFS[ci].devices, block, 10, 0, CONFS[ci].nccl));
		if(!e || !e->init(&d)) { fail("no engine"); continue; }
		e->print_info();
		if(e->problem_size() != 6 * n) { err = "problem size"; }
		e->set_time(3);
		e->advise_time(0.5);
		e->set_step(5);
		if(e->get_time() != 3.5 || d.get_time() != 3.5 || e->get_step() != 6 - 1 || d.get_step() != 5) { if(err.empty() && (e->get_time() != d.get_time() || e->get_step() != d.get_step() || e->get_time() != 3.5)) { err = fmt("time %g step %zu", e->get_time(), e->get_step()); } }
		V	own(6 * n), z(6 * n);
		e->read_buffer(own.data(), e->get_y());
		if(own != b.y) { err = "the state of the engine differs from the bodies"; }
		for(size_t i = 0; i != 6 * n; ++i) { z[i] = 1.25 * i + 1; }
		e->write_buffer(e->get_y(), z.data());
		e->get_data(&d2);
		for(size_t i = 0; i != n && err.empty(); ++i)
		{
			nbvertex_t	p = d2.get_vertites()[i], v = d2.get_velosites()[i];
			if(p.x != z[i] || p.y != z[n + i] || p.z != z[2 * n + i] || v.x != z[3 * n + i] || v.y != z[4 * n + i] || v.z != z[5 * n + i] || d2.get_mass()[i] != b.m[i]) { err = fmt("body %zu is not read back", i); }
		}
		auto	*m = e->create_buffer(8 * 6 * n), *q = e->create_buffer(8 * 6 * n), *o = e->create_buffer(8 * 6 * n);
		for(size_t i = 0; i < 6 * n && err.empty(); i += i % 32 == 1 && !deep ? 30 : 1) for(int neg = 0; neg != 2; ++neg)
		{
			V	x(6 * n, -3);
			double	r = 0;
			x[i] = neg ? -9 : 9;
			e->write_buffer(m, x.data());
			e->fmaxabs(m, r);
			if(r != 9) { err = fmt("the largest absolute element, %zu, is missed: %g", i, r); }
			++S().transitions;
		}
		{
			// 1 + many times a third of the unit of rounding
			V	one(6 * n, 1), tiny(6 * n, EPS / 3), x(6 * n), corr(6 * n);
			e->write_buffer(m, one.data());
			e->write_buffer(q, tiny.data());
			e->fill_buffer(o, 0);
			double	c[] = { 1, 1, 1 };
			for(int s = 0; s != 30; ++s) { e->fmaddn_corr(m, o, { q, q, q }, c, 3); }
			e->read_buffer(x.data(), m);
			for(size_t i = 0; i != 6 * n && err.empty(); ++i)
			{
				if(!(fabsl(x[i] - (1 + 90 * (EPS / 3))) <= 2 * EPS)) { err = fmt("compensated sum of element %zu is 1 + %.3Lg units instead of 1 + 30", i, (x[i] - 1) / EPS); }
			}
		}
		{
			Rig	h(Kind{ 's', 0, 0, 0 }, b);
			V	x(6 * n, 4), y(6 * n), w(6 * n, 1);
			double	c[] = { 1, 1 }, r = -5;
			e->write_buffer(m, x.data());
			e->write_buffer(q, w.data());
			e->fmadd_inplace(m, h.y, 1);
			e->fmadd_inplace(m, nullptr, 1);
			e->fmadd(m, h.y, q, 1);
			e->fmadd(m, q, h.y, 1);
			e->fmaddn_corr(m, h.y, { q }, c, 1);
			e->fmaddn_corr(m, q, { q }, c, 2);
			e->fmaddn_corr(m, q, { q }, nullptr, 1);
			e->copy_buffer(m, h.y);
			e->copy_buffer(h.y, m);
			e->fill_buffer(h.y, 8);
			e->write_buffer(h.y, x.data());
			e->clamp(h.y, 1);
			e->fmaxabs(h.y, r);
			e->fcompute(0, h.y, m);
			e->fcompute(0, m, h.y);
			auto*	sh = e->create_buffer(8 * 3 * n);
			e->copy_buffer(m, sh);
			e->free_buffer(sh);
			e->read_buffer(y.data(), m);
			if(err.empty() && (y != x || r != -5)) { err = "an operation with an invalid operand has an effect"; }
			e->read_buffer(y.data(), q);
			if(err.empty() && y != w) { err = "an operation with an invalid operand changes another buffer"; }
		}
		for(auto x : { m, q, o }) { e->free_buffer(x); }
		e.reset();
		if(!trouble(err)) { err = leaks(); }
		if(!err.empty()) { fail(err); }
		++S().traces;
	}
	mark("misc");
	// solvers: steps on OpenCL engines and on the host agree
	for(size_t ci = 0; ci != NCONF; ++ci) for(const char* sn : { "euler", "rk4", "midpoint", "adams", "rkf", "bs", "trapeze", "rkgl" }) for(auto& k : KINDS)
	{
		if(!begin(fmt("solver:%s:%s:%s", CONFS[ci].devices, sn, k.str().c_str()))) { continue; }
		if(!deep && (ci == 1 || ci == 4 || ci > 6)) { continue; }
		size_t	n = 32 * std::max(2, CONFS[ci].count);
		Bodies	b = layout(2, n);
		for(size_t i = 0; i != 3 * n; ++i) { b.y[3 * n + i] = 0.01 * (i % 7); }
		for(auto& x : b.m) { x *= 1e-4; }
		QVariantMap	p;
		p["solver"] = sn;
		p["max_step"] = p["min_step"] = 0.01;
		std::string	err;
		V	res[2];
		fakecuda::reset();
		fakecuda::order = ci % 2;
		for(int hst = 0; hst != 2; ++hst)
		{
			nbody_data	d;
			b.to_data(d);
			std::unique_ptr<nbody_engine>	e(hst ? (k.bh ? make_engine(Kind{ k.sl ? 'l' : 'h', 0, 4, 2 }) : new nbody_engine_simple) : make(k, CONFS[ci].devices, 32, 4, 2, CONFS[ci].nccl));
			if(!e || !e->init(&d)) { err = "no engine"; break; }
			{
				std::unique_ptr<nbody_solver>	s(nbody_create_solver(p));
				s->set_engine(e.get());
				for(int i = 0; i != 3; ++i) { s->advise(0.01); ++S().transitions; }
			}
			e->get_data(&d);
			for(size_t i = 0; i != n; ++i)
			{
				nbvertex_t	x = d.get_vertites()[i], v = d.get_velosites()[i];
				for(double c : { x.x, x.y, x.z, v.x, v.y, v.z }) { res[hst].push_back(c); }
			}
			res[hst].push_back(d.get_time());
			res[hst].push_back(d.get_step());
			res[hst].push_back(e->get_compute_count());
		}
		for(size_t i = 0; i != res[0].size() && err.empty() && !trouble(err); ++i)
		{
			if(!(fabs(res[0][i] - res[1][i]) <= 1e-12 * (1 + fabs(res[1][i])))) { err = fmt("result %zu is %.17g, on the host %.17g", i, res[0][i], res[1][i]); }
		}
		if(trouble(err)) { fail(err); }
		++S().traces;
	}
	mark("solver");
	fakecuda::order = 0;
	// command orders
	for(size_t ci = 0; ci != NCONF; ++ci) for(auto& k : KINDS) for(int bound = 1; bound <= 3; ++bound)
	{
		const Conf&	c = CONFS[ci];
		if(c.count == 1 || bound > (c.count == 2 && (deep || !(k.bh || c.nccl)) ? 2 : 1) + (deep && ci < 9) || (c.count == 8 && !deep)) { continue; }
		if(!begin(fmt("order:%s:%s:%d", c.devices, k.str().c_str(), bound))) { continue; }
		size_t	n = 32 * c.count;
		Bodies	b = layout(2, n);
		orders(bound, deep ? 100000 : 20000, [&]() -> std::string
		{
			fakecuda::reset();
			std::string	e;
			nbody_engine*	eng = make(k, c.devices, 32, 1e30, 100, c.nccl);
			if(!eng) { return "the engine is not created"; }
			{
				Rig	g(eng, b);
				Bodies	cur = b;
				double	h = 0.125, mx = 0, want = 0;
				eng->set_step(3);
				for(int s = 0; s != 2 && e.empty(); ++s)
				{
					V	f(6 * n);
					eng->fcompute(0, eng->get_y(), g.f);
					eng->read_buffer(f.data(), g.f);
					e = diff_direct(cur, f, true);
					if(s) { break; }
					eng->fmadd_inplace(eng->get_y(), g.f, h);
					eng->clamp(eng->get_y(), 1e4);
					for(size_t i = 0; i != 6 * n; ++i) { cur.y[i] += f[i] * h; }
				}
				V	y(6 * n);
				eng->copy_buffer(g.y, eng->get_y());
				eng->fmaxabs(g.y, mx);
				eng->read_buffer(y.data(), g.y);
				for(double x : cur.y) { want = std::max(want, fabs(x)); }
				if(e.empty() && (y != cur.y || mx != want)) { e = "state after the step differs"; }
			}
			++S().transitions;
			trouble(e);
			return e;
		});
		++S().states;
	}
	mark("order");
	S().extra["kernel_launches"] += fakecuda::stats.kernels;
	S().extra["kernel_memory_accesses"] = fakecuda::stats.accesses;
	S().extra["commands"] = fakecuda::stats.commands;
	return finish();
}
