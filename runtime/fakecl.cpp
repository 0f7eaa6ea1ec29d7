// OpenCL implementation under control of the explorer. Kernels are compiled by clang's OpenCL front end for the host;
// work items are fibers, every memory access of a kernel is checked (bounds, initialisation, races between work items,
// races between commands which no dependency orders). Commands stay in their queues until somebody has to wait for them;
// which queue proceeds is decided by the explorer.
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#include <CL/cl.h>
#include "fakecl.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <vector>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace fakecl
{
Stats	stats;
int (*choose)(int n) = nullptr;
void (*fatal)(const std::string&) = nullptr;
int		order = 0;
static std::string	err;
std::set<std::pair<int, int>>	used;
static int			n_platforms = 2, n_devices = 4, n_live = 0;
void configure(int p, int d) { n_platforms = p; n_devices = d; }
void reset() { err.clear(); }
const std::string& error() { return err; }
int live_buffers() { return n_live; }
}
using namespace fakecl;

static void report(const char* f, ...)
{
	char	b[600];
	va_list	ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	if(err.empty()) { err = b; }
}

typedef std::vector<uint32_t> VC;
static void join(VC& a, const VC& b)
{
	if(a.size() < b.size()) { a.resize(b.size()); }
	for(size_t i = 0; i != b.size(); ++i) { a[i] = std::max(a[i], b[i]); }
}

struct Obj { int refs = 1; bool dead = false; };
struct _cl_platform_id { int n; };
struct _cl_device_id { int platform, n; };
struct _cl_context : Obj { std::vector<cl_device_id> devices; };

struct Cmd;
//! One command's access to a cell, identified by its place in a queue
struct Who { uint32_t queue, pos; };
struct Item { uint32_t item, phase; };
struct Cell
{
	std::vector<Who>	wr, rd;					// commands, as long as they may matter
	uint64_t			launch = 0;				// work items of the current launch
	std::vector<Item>	iw, ir;
	bool				init = false;
	uint64_t			group = 0;				// local memory: group that initialised it
};
enum { GUARD = 1 << 11, CELL = 4 };
struct Region { char* p; size_t size; std::vector<Cell> cells; };
struct _cl_mem : Obj { cl_context ctx; char* block; Region r; };
struct _cl_event : Obj { std::shared_ptr<Cmd> cmd; bool prof; };
struct _cl_command_queue : Obj { cl_context ctx; cl_device_id dev; bool prof; uint32_t index, pos = 0; VC last; std::deque<std::shared_ptr<Cmd>> pending; };
struct Param { std::string type; bool pointer, local; };
struct Module { void* so; char *lo, *hi, *wlo, *whi; std::map<std::string, std::vector<Param>> kernels; Region local; };
struct _cl_program : Obj { cl_context ctx; std::string source, log; std::map<cl_device_id, Module*> built; };
struct Arg { bool set = false; cl_mem mem = nullptr; size_t local = 0; std::vector<char> value; };
struct _cl_kernel : Obj { cl_program prog; std::string name; std::vector<Arg> args; std::vector<Param> params; std::vector<size_t> sizes; };

struct Cmd
{
	cl_command_queue	q;
	uint32_t			pos;
	VC					vc;
	bool				done = false;
	std::vector<std::shared_ptr<Cmd>> waits;
	std::function<void(Cmd&)> run;
	const char*			what;
	uint64_t			t0, t1;
};

static std::vector<cl_command_queue>&	queues = *new std::vector<cl_command_queue>;			// with commands left or not yet released
static uint32_t		queue_count = 0;
static VC			host;								// what the host has waited for
static uint64_t		clock_ = 0;

// ---------------------------------------------------------------- memory
static bool before(const Who& w, const VC& vc) { return w.queue < vc.size() && vc[w.queue] >= w.pos; }

static void cell_command(Cell& c, const Cmd& cmd, bool write, const char* what)
{
	Who		me = { cmd.q->index, cmd.pos };
	auto bad = [&](std::vector<Who>& v, const char* other)
	{
		for(auto& w : v)
		{
			if(w.queue != me.queue && !before(w, cmd.vc))
			{
				report("%s (%s) and a %s by a command of another queue are not ordered by any dependency", what, write ? "write" : "read", other);
				return;
			}
		}
	};
	bad(c.wr, "write");
	if(write) { bad(c.rd, "read"); c.wr.clear(); c.rd.clear(); c.wr.push_back(me); }
	else
	{
		for(auto& w : c.rd) { if(w.queue == me.queue) { w.pos = me.pos; return; } }
		c.rd.push_back(me);
	}
}

static bool live(cl_mem m)
{
	if(!m) { return false; }
	if(m->dead) { report("use of a released buffer"); return false; }
	return true;
}

static void cells(Region& r, size_t off, size_t len, const Cmd& cmd, bool write, const char* what)
{
	for(size_t i = off / CELL; i < (off + len + CELL - 1) / CELL; ++i)
	{
		cell_command(r.cells[i], cmd, write, what);
		if(write) { r.cells[i].init = true; }
	}
}

//! Host memory in use by commands
struct HostUse { const char* p; size_t n; bool write; Who who; };
static std::vector<HostUse>	host_use;
static void host_access(const void* p, size_t n, bool write, const Cmd& cmd)
{
	host_use.erase(std::remove_if(host_use.begin(), host_use.end(), [](const HostUse& h) { return before(h.who, host); }), host_use.end());
	for(auto& h : host_use)
	{
		if((h.write || write) && h.p < (const char*)p + n && (const char*)p < h.p + h.n && h.who.queue != cmd.q->index && !before(h.who, cmd.vc))
		{
			report("two commands not ordered by any dependency use the same host memory");
		}
	}
	host_use.push_back({ (const char*)p, n, write, { cmd.q->index, cmd.pos } });
}

// ---------------------------------------------------------------- fibers
extern "C" void cl_switch(void** from, void** to);
asm(R"(
.text
.globl cl_switch
.type cl_switch,@function
cl_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq (%rsi), %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");
enum : size_t { STACK = 64 << 10, MAX_ITEMS = 1024 };
static char*	arena = nullptr;

struct Launch
{
	uint64_t		id;
	Cmd*			cmd;
	const char*		name;
	void			(*fn)(uint64_t*);
	std::vector<uint64_t> args;
	std::vector<Region*> regions;		// arguments
	std::vector<Region*> locals;
	Module*			mod;
	size_t			global, local, offset, groups, group;
	std::vector<void*> sp;
	std::vector<int> state;				// 0 running 1 at a barrier 2 done
	uint32_t		phase;
	size_t			cur;
	void*			main_sp;
};
static Launch*	la = nullptr;

static void item_entry()
{
	la->fn(la->args.data());
	la->state[la->cur] = 2;
	cl_switch(&la->sp[la->cur], &la->main_sp);
	abort();
}

static void item_cells(Region& r, size_t off, size_t len, bool write, bool local)
{
	uint32_t	item = la->group * la->local + la->cur;
	for(size_t i = off / CELL; i < (off + len + CELL - 1) / CELL; ++i)
	{
		Cell&	c = r.cells[i];
		uint64_t key = local ? la->id * 1000003 + la->group + 1 : la->id;
		if(c.launch != key) { c.launch = key; c.iw.clear(); c.ir.clear(); }
		auto conflict = [&](const Item& o) { return o.item != item && (o.item / la->local != item / la->local || o.phase == la->phase); };
		for(auto& o : c.iw)
		{
			if(conflict(o)) { report("kernel %s: work items %u and %u access the same %s memory without a barrier between (%s after write)", la->name, o.item, item, local ? "local" : "global", write ? "write" : "read"); break; }
		}
		if(write)
		{
			for(auto& o : c.ir)
			{
				if(conflict(o)) { report("kernel %s: work items %u and %u access the same %s memory without a barrier between (write after read)", la->name, o.item, item, local ? "local" : "global"); break; }
			}
			c.iw.clear();
			c.iw.push_back({ item, la->phase });
			if(local) { c.group = key; }
			c.init = true;
		}
		else
		{
			if(local ? c.group != key : !c.init) { report("kernel %s reads %s memory that was never written", la->name, local ? "local" : "global"); c.init = true; c.group = key; }
			if(c.ir.empty() || c.ir.back().item != item || c.ir.back().phase != la->phase) { c.ir.push_back({ item, la->phase }); }
		}
		if(!local) { cell_command(c, *la->cmd, write, la->name); }
	}
}

static void on_access(const void* a, size_t n, bool write)
{
	if(!la) { return; }
	const char*	p = (const char*)a;
	if(p >= arena && p < arena + STACK * MAX_ITEMS) { return; }
	if(p >= (char*)la->args.data() && p + n <= (char*)(la->args.data() + la->args.size())) { return; }
	++stats.accesses;
	for(Region* r : la->regions)
	{
		if(p >= r->p && p + n <= r->p + r->size) { item_cells(*r, p - r->p, n, write, false); return; }
	}
	for(Region* r : la->locals)
	{
		if(p >= r->p && p + n <= r->p + r->size) { item_cells(*r, p - r->p, n, write, true); return; }
	}
	Module*	m = la->mod;
	if(p >= m->wlo && p + n <= m->whi) { item_cells(m->local, p - m->wlo, n, write, true); return; }
	if(p >= m->lo && p + n <= m->hi && !write) { return; }
	std::string	s = "kernel " + std::string(la->name) + (write ? " writes" : " reads") + " outside its buffers";
	for(Region* r : la->regions)
	{
		if(p >= r->p - GUARD && p + n <= r->p + r->size + GUARD)
		{
			char	b[100];
			snprintf(b, sizeof b, " (at %ld of a buffer of %zu bytes)", (long)(p - r->p), r->size);
			report("%s%s", s.c_str(), b);
			return;
		}
	}
	if(getenv("FAKECL_DEBUG"))
	{
		fprintf(stderr, "address %p size %zu; module %p..%p, writable %p..%p\n", a, n, m->lo, m->hi, m->wlo, m->whi);
		for(Region* r : la->regions) { fprintf(stderr, "region %p..%p\n", r->p, r->p + r->size); }
	}
	if(fatal) { fatal(s); }
	fprintf(stderr, "%s\n", s.c_str());
	_exit(79);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* a) { on_access(a, N, false); } void __tsan_write##N(void* a) { on_access(a, N, true); } \
void __tsan_unaligned_read##N(void* a) { on_access(a, N, false); } void __tsan_unaligned_write##N(void* a) { on_access(a, N, true); } \
void __tsan_read_write##N(void* a) { on_access(a, N, false); on_access(a, N, true); } void __tsan_unaligned_read_write##N(void* a) { on_access(a, N, false); on_access(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void*) {}
void __tsan_vptr_read(void** a) {}
void* __tsan_memset(void* d, int c, size_t n) { on_access(d, n, true); return memset(d, c, n); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { on_access(s, n, false); on_access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { on_access(s, n, false); on_access(d, n, true); return memmove(d, s, n); }

size_t nb_get(unsigned what, unsigned dim)
{
	if(dim) { return what == 3 || what == 4 || what == 5 ? 1 : 0; }
	switch(what)
	{
	case 0: return la->offset + la->group * la->local + la->cur;
	case 1: return la->cur;
	case 2: return la->group;
	case 3: return la->global;
	case 4: return la->local;
	case 5: return la->groups;
	case 6: return la->offset;
	}
	return 1;
}
void nb_barrier(unsigned)
{
	la->state[la->cur] = 1;
	cl_switch(&la->sp[la->cur], &la->main_sp);
}
double nb_fn1(unsigned w, double a)
{
	switch(w)
	{
	case 0: return sqrt(a);
	case 1: return fabs(a);
	case 2: return exp(a);
	case 3: return log(a);
	case 4: return sin(a);
	case 5: return cos(a);
	case 6: return floor(a);
	case 7: return ceil(a);
	case 8: return cbrt(a);
	case 9: return tan(a);
	case 10: return round(a);
	case 11: return trunc(a);
	case 12: return rint(a);
	}
	abort();
}
double nb_fn2(unsigned w, double a, double b)
{
	switch(w)
	{
	case 0: return pow(a, b);
	case 1: return fmod(a, b);
	case 2: return atan2(a, b);
	case 3: return hypot(a, b);
	case 4: return copysign(a, b);
	case 5: return fmin(a, b);
	case 6: return fmax(a, b);
	case 7: return fdim(a, b);
	}
	abort();
}
}

static void run_kernel(Launch& l)
{
	static uint64_t	ids = 0;
	if(!arena) { arena = (char*)mmap(nullptr, STACK * MAX_ITEMS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	++stats.kernels;
	used.insert({ l.cmd->q->dev->platform, l.cmd->q->dev->n });
	l.id = ++ids;
	la = &l;
	for(size_t gi = 0; gi != l.groups; ++gi)
	{
		l.group = order ? l.groups - 1 - gi : gi;
		l.phase = 0;
		l.sp.assign(l.local, nullptr);
		l.state.assign(l.local, 0);
		for(Region* r : l.locals) { memset(r->p, 0xff, r->size); }
		for(size_t i = 0; i != l.local; ++i)
		{
			void**	p = (void**)((uintptr_t)(arena + STACK * (i + 1) - 64) & ~uintptr_t(15));
			*--p = nullptr;
			*--p = (void*)item_entry;
			for(int k = 0; k != 6; ++k) { *--p = nullptr; }
			l.sp[i] = p;
		}
		for(;;)
		{
			for(size_t k = 0; k != l.local; ++k)
			{
				l.cur = order ? l.local - 1 - k : k;
				if(l.state[l.cur] == 2) { continue; }
				l.state[l.cur] = 0;
				++stats.items;
				cl_switch(&l.main_sp, &l.sp[l.cur]);
			}
			size_t	done = std::count(l.state.begin(), l.state.end(), 2);
			if(done == l.local) { break; }
			if(done) { report("kernel %s: not all work items of a group reach the barrier", l.name); }
			++l.phase;
		}
	}
	la = nullptr;
}

// ---------------------------------------------------------------- commands
static bool runnable(cl_command_queue q)
{
	if(q->pending.empty()) { return false; }
	for(auto& w : q->pending.front()->waits) { if(!w->done) { return false; } }
	return true;
}
static void step(cl_command_queue q)
{
	auto	c = q->pending.front();
	q->pending.pop_front();
	++stats.commands;
	c->t0 = ++clock_;
	c->run(*c);
	c->run = nullptr;
	c->t1 = ++clock_;
	c->done = true;
}
//! Queue which has to proceed so that 'c' completes
static cl_command_queue needed(Cmd& c)
{
	auto&	f = c.q->pending.front();
	for(auto& w : f->waits) { if(!w->done) { return needed(*w); } }
	return c.q;
}
static void wait_for(const std::vector<std::shared_ptr<Cmd>>& v)
{
	for(;;)
	{
		std::vector<cl_command_queue>	opt;
		for(auto& c : v) { if(!c->done) { opt.push_back(needed(*c)); break; } }
		if(opt.empty()) { break; }
		for(auto q : queues) { if(q != opt[0] && runnable(q)) { opt.push_back(q); } }
		++stats.points;
		step(opt[opt.size() > 1 && choose ? choose(opt.size()) : 0]);
	}
	for(auto& c : v) { join(host, c->vc); }
}
static cl_int enqueue(cl_command_queue q, const char* what, cl_uint nw, const cl_event* wl, cl_event* ev, bool blocking, std::function<void(Cmd&)> run)
{
	auto	c = std::make_shared<Cmd>();
	if(q->dead) { report("use of a released queue"); return CL_INVALID_COMMAND_QUEUE; }
	if((nw == 0) != (wl == nullptr)) { return CL_INVALID_EVENT_WAIT_LIST; }
	c->q = q;
	c->pos = ++q->pos;
	c->what = what;
	c->vc = host;
	join(c->vc, q->last);
	for(cl_uint i = 0; i != nw; ++i) { c->waits.push_back(wl[i]->cmd); join(c->vc, wl[i]->cmd->vc); }
	if(c->vc.size() <= q->index) { c->vc.resize(q->index + 1); }
	c->vc[q->index] = c->pos;
	q->last = c->vc;
	c->run = run;
	q->pending.push_back(c);
	if(ev) { *ev = new _cl_event; (*ev)->cmd = c; (*ev)->prof = q->prof; }
	if(blocking) { wait_for({ c }); }
	else if(choose)
	{
		// a command may start at once, too
		std::vector<cl_command_queue>	opt;
		for(auto x : queues) { if(runnable(x)) { opt.push_back(x); } }
		++stats.points;
		int k = opt.empty() ? 0 : choose(opt.size() + 1);
		if(k) { step(opt[k - 1]); }
	}
	return CL_SUCCESS;
}

static cl_int info(const void* d, size_t n, size_t size, void* v, size_t* ret)
{
	if(ret) { *ret = n; }
	if(v)
	{
		if(size < n) { return CL_INVALID_VALUE; }
		memcpy(v, d, n);
	}
	return CL_SUCCESS;
}
static cl_int sinfo(const std::string& s, size_t size, void* v, size_t* ret) { return info(s.c_str(), s.size() + 1, size, v, ret); }

static _cl_platform_id	plat[8];
static _cl_device_id	devs[8][16];

// ---------------------------------------------------------------- compiler
static std::string quote(const std::string& s)
{
	std::string r = "'";
	for(char c : s) { if(c == '\'') { r += "'\\''"; } else { r += c; } }
	return r + "'";
}
static std::string slurp(const std::string& n)
{
	FILE* f = fopen(n.c_str(), "rb");
	std::string s;
	char b[4096];
	size_t k;
	while(f && (k = fread(b, 1, sizeof b, f)) > 0) { s.append(b, k); }
	if(f) { fclose(f); }
	return s;
}
static void spew(const std::string& n, const std::string& s)
{
	FILE* f = fopen(n.c_str(), "wb");
	if(!f || fwrite(s.data(), 1, s.size(), f) != s.size()) { perror(n.c_str()); _exit(80); }
	fclose(f);
}
static std::string trim(const std::string& s)
{
	size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
	return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

static int on_module(dl_phdr_info* i, size_t, void* d)
{
	auto*	p = (std::pair<std::string, Module*>*)d;
	if(!i->dlpi_name || p->first != i->dlpi_name) { return 0; }
	Module*	m = p->second;
	m->lo = m->hi = m->wlo = m->whi = nullptr;
	for(int k = 0; k != i->dlpi_phnum; ++k)
	{
		const ElfW(Phdr)& h = i->dlpi_phdr[k];
		if(h.p_type != PT_LOAD) { continue; }
		char*	a = (char*)i->dlpi_addr + h.p_vaddr;
		char*	e = a + h.p_memsz;
		if(!m->lo || a < m->lo) { m->lo = a; }
		if(e > m->hi) { m->hi = e; }
		if(h.p_flags & PF_W)
		{
			if(!m->wlo || a < m->wlo) { m->wlo = a; }
			if(e > m->whi) { m->whi = e; }
		}
	}
	m->local.p = m->wlo;
	m->local.size = m->whi - m->wlo;
	m->local.cells.resize(m->local.size / CELL + 2);
	return 1;
}

static std::map<std::string, Module*>&	modules = *new std::map<std::string, Module*>;

static Module* compile(const std::string& source, const std::string& options, std::string& log)
{
	std::string	key = source + "\1" + options;
	auto		f = modules.find(key);
	if(f != modules.end()) { return f->second; }
	// options of the compiler that matter here
	std::string	opt;
	{
		std::string	o = options + " ", cur;
		for(char c : o)
		{
			if(c == ' ') { if(!cur.empty() && cur.compare(0, 4, "-cl-")) { opt += " " + quote(cur); } cur.clear(); }
			else { cur += c; }
		}
	}
	std::string	code = std::regex_replace(source, std::regex("//[^\n]*"), " ");
	code = std::regex_replace(code, std::regex("/\\*[^]*?\\*/"), " ");
	std::string	wrap = "\n";
	Module*		m = new Module;
	std::regex	sig("(?:__kernel|\\bkernel)\\s+(?:__attribute__\\s*\\(\\([^)]*\\)\\s*\\)\\s*)?void\\s+(\\w+)\\s*\\(([^)]*)\\)");
	for(std::sregex_iterator i(code.begin(), code.end(), sig), e; i != e; ++i)
	{
		std::string			name = (*i)[1], list = (*i)[2], call, size;
		std::vector<Param>	ps;
		size_t				p = 0;
		while(p <= list.size())
		{
			size_t		q = list.find(',', p);
			if(q == std::string::npos) { q = list.size(); }
			std::string	s = trim(list.substr(p, q - p));
			p = q + 1;
			if(s.empty()) { continue; }
			size_t		k = s.size();
			while(k && (isalnum(s[k - 1]) || s[k - 1] == '_')) { --k; }
			Param		a;
			a.type = trim(s.substr(0, k));
			a.pointer = a.type.find('*') != std::string::npos;
			a.local = a.type.find("local") != std::string::npos;
			std::string	t = std::regex_replace(a.type, std::regex("\\b(restrict|__restrict)\\b"), " ");
			char		ix[20];
			snprintf(ix, sizeof ix, "a[%zu]", ps.size());
			call += std::string(call.empty() ? "" : ", ") + (a.pointer ? "(" + t + ")" + ix : "*(__private " + t + "*)&" + ix);
			size += "if(i == " + std::to_string(ps.size()) + ") { return " + (a.pointer ? "sizeof(ulong)" : "sizeof(" + t + ")") + "; } ";
			ps.push_back(a);
		}
		m->kernels[name] = ps;
		wrap += "void nbcall_" + name + "(__private ulong* a) { " + name + "(" + call + "); }\nuint nbsize_" + name + "(uint i) { " + size + "return 0; }\n";
	}
	static int	count = 0;
	const char*	sc = getenv("VERIF_SCRATCH");
	const char*	vd = getenv("VERIF_DIR");
	std::string	dir = std::string(sc ? sc : "/tmp") + "/cl" + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
	std::string	base = dir + "/k" + std::to_string(count++);
	spew(base + ".cl", source + wrap);
	std::string	cl = "clang -x cl -cl-std=CL1.2 -target x86_64-pc-linux-gnu -O1 -fPIC -ffp-contract=off ";
	static bool built = false;
	auto sh = [](const std::string& c) { return system(("env -u LD_PRELOAD " + c).c_str()); };
	if(!built)
	{
		if(sh(cl + "-w -c " + quote(std::string(vd ? vd : ".") + "/runtime/builtins.cl") + " -o " + quote(dir + "/builtins.o") + " 2> " + quote(dir + "/log")))
		{
			fprintf(stderr, "builtins: %s\n", slurp(dir + "/log").c_str());
			_exit(80);
		}
		built = true;
	}
	int	r = sh(cl + "-fsanitize=thread" + opt + " -c " + quote(base + ".cl") + " -o " + quote(base + ".o") + " > " + quote(base + ".log") + " 2>&1");
	if(!r) { r = sh("clang -shared -nostdlib -o " + quote(base + ".so") + " " + quote(base + ".o") + " " + quote(dir + "/builtins.o") + " >> " + quote(base + ".log") + " 2>&1"); }
	log = slurp(base + ".log");
	if(r) { delete m; return modules[key] = nullptr; }
	m->so = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
	if(!m->so)
	{
		fprintf(stderr, "can not load kernels: %s\n", dlerror());
		_exit(80);
	}
	std::pair<std::string, Module*>	d(base + ".so", m);
	dl_iterate_phdr(on_module, &d);
	unlink((base + ".so").c_str());
	unlink((base + ".o").c_str());
	return modules[key] = m;
}

// ---------------------------------------------------------------- API
//! Released objects stay recognisable for a while
template<class T> static void bury(T* o)
{
	static std::deque<T*>&	v = *new std::deque<T*>;
	o->dead = true;
	v.push_back(o);
	if(v.size() > 2000) { delete v.front(); v.pop_front(); }
}
extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* ret)
{
	if(ret) { *ret = n_platforms; }
	for(int i = 0; i != n_platforms; ++i)
	{
		plat[i].n = i;
		if(p && cl_uint(i) < n) { p[i] = plat + i; }
	}
	return n_platforms ? CL_SUCCESS : -1001;
}
cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info k, size_t s, void* v, size_t* ret)
{
	return sinfo(k == CL_PLATFORM_VERSION ? "OpenCL 1.2 model" : k == CL_PLATFORM_PROFILE ? "FULL_PROFILE" : k == CL_PLATFORM_EXTENSIONS ? "cl_khr_fp64" : "model", s, v, ret);
}
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type, cl_uint n, cl_device_id* d, cl_uint* ret)
{
	if(ret) { *ret = n_devices; }
	for(int i = 0; i != n_devices; ++i)
	{
		devs[p->n][i].platform = p->n;
		devs[p->n][i].n = i;
		if(d && cl_uint(i) < n) { d[i] = &devs[p->n][i]; }
	}
	return n_devices ? CL_SUCCESS : CL_DEVICE_NOT_FOUND;
}
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info k, size_t s, void* v, size_t* ret)
{
	switch(k)
	{
	case CL_DEVICE_NAME: case CL_DEVICE_VENDOR: return sinfo("model", s, v, ret);
	case CL_DRIVER_VERSION: return sinfo("1.0", s, v, ret);
	case CL_DEVICE_PROFILE: return sinfo("FULL_PROFILE", s, v, ret);
	case CL_DEVICE_VERSION: return sinfo("OpenCL 1.2 model", s, v, ret);
	case CL_DEVICE_OPENCL_C_VERSION: return sinfo("OpenCL C 1.2 model", s, v, ret);
	case CL_DEVICE_EXTENSIONS: return sinfo("cl_khr_fp64", s, v, ret);
	case CL_DEVICE_PLATFORM: { cl_platform_id p = plat + d->platform; return info(&p, sizeof p, s, v, ret); }
	case CL_DEVICE_TYPE: { cl_device_type t = CL_DEVICE_TYPE_GPU; return info(&t, sizeof t, s, v, ret); }
	case CL_DEVICE_MAX_WORK_GROUP_SIZE: { size_t t = MAX_ITEMS; return info(&t, sizeof t, s, v, ret); }
	case CL_DEVICE_MAX_COMPUTE_UNITS: case CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS: case CL_DEVICE_PREFERRED_VECTOR_WIDTH_FLOAT:
	case CL_DEVICE_NATIVE_VECTOR_WIDTH_FLOAT: case CL_DEVICE_PREFERRED_VECTOR_WIDTH_DOUBLE: case CL_DEVICE_NATIVE_VECTOR_WIDTH_DOUBLE:
	case CL_DEVICE_GLOBAL_MEM_CACHELINE_SIZE: case CL_DEVICE_MAX_CONSTANT_ARGS: case CL_DEVICE_LOCAL_MEM_TYPE:
		{ cl_uint t = 3; return info(&t, sizeof t, s, v, ret); }
	default: { cl_ulong t = 1 << 20; return info(&t, sizeof t, s, v, ret); }
	}
}
cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
#define ERR(x) do { if(e) { *e = (x); } } while(0)
cl_context clCreateContext(const cl_context_properties*, cl_uint n, const cl_device_id* d, void (*)(const char*, const void*, size_t, void*), void*, cl_int* e)
{
	for(cl_uint i = 1; i < n; ++i) { if(d[i]->platform != d[0]->platform) { ERR(CL_INVALID_DEVICE); return nullptr; } }
	if(!n) { ERR(CL_INVALID_VALUE); return nullptr; }
	cl_context c = new _cl_context;
	c->devices.assign(d, d + n);
	ERR(CL_SUCCESS);
	return c;
}
#define REF(T, N) \
cl_int clRetain##N(T o) { if(o->dead) { report("use of a released " #N); } ++o->refs; return CL_SUCCESS; }
REF(cl_context, Context) REF(cl_command_queue, CommandQueue) REF(cl_mem, MemObject) REF(cl_program, Program) REF(cl_kernel, Kernel) REF(cl_event, Event)
#define TWICE(N) if(o->dead) { report(N " released twice"); return CL_INVALID_VALUE; }
cl_int clReleaseContext(cl_context o) { TWICE("context"); if(--o->refs == 0) { bury(o); } return CL_SUCCESS; }
cl_int clReleaseProgram(cl_program o) { TWICE("program"); if(--o->refs == 0) { clReleaseContext(o->ctx); bury(o); } return CL_SUCCESS; }
cl_int clReleaseKernel(cl_kernel o) { TWICE("kernel"); if(--o->refs == 0) { clReleaseProgram(o->prog); bury(o); } return CL_SUCCESS; }
cl_int clReleaseEvent(cl_event o) { if(o->dead) { report("event released twice"); return CL_INVALID_EVENT; } if(--o->refs == 0) { o->dead = true; o->cmd.reset(); delete o; } return CL_SUCCESS; }
cl_int clGetContextInfo(cl_context c, cl_context_info k, size_t s, void* v, size_t* ret)
{
	if(k == CL_CONTEXT_DEVICES) { return info(c->devices.data(), c->devices.size() * sizeof(cl_device_id), s, v, ret); }
	cl_uint n = k == CL_CONTEXT_NUM_DEVICES ? c->devices.size() : c->refs;
	return info(&n, sizeof n, s, v, ret);
}
static cl_command_queue make_queue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int* e)
{
	if(std::find(c->devices.begin(), c->devices.end(), d) == c->devices.end()) { ERR(CL_INVALID_DEVICE); return nullptr; }
	if(p & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE) { report("out of order queues are not modelled"); }
	cl_command_queue q = new _cl_command_queue;
	q->ctx = c;
	++c->refs;
	q->dev = d;
	q->prof = p & CL_QUEUE_PROFILING_ENABLE;
	q->index = queue_count++;
	queues.push_back(q);
	ERR(CL_SUCCESS);
	return q;
}
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int* e) { return make_queue(c, d, p, e); }
static void drain(cl_command_queue q)
{
	if(!q->pending.empty()) { auto c = q->pending.back(); VC h = host; wait_for({ c }); host = h; }
}
cl_int clReleaseCommandQueue(cl_command_queue q)
{
	if(--q->refs) { return CL_SUCCESS; }
	drain(q);
	clReleaseContext(q->ctx);
	bury(q);
	queues.erase(std::find(queues.begin(), queues.end(), q));
	if(queues.empty()) { queue_count = 0; host.clear(); host_use.clear(); }
	return CL_SUCCESS;
}
cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }
cl_int clFinish(cl_command_queue q) { if(!q->pending.empty()) { auto c = q->pending.back(); wait_for({ c }); } join(host, q->last); return CL_SUCCESS; }
cl_int clGetCommandQueueInfo(cl_command_queue q, cl_command_queue_info k, size_t s, void* v, size_t* ret)
{
	if(k == CL_QUEUE_CONTEXT) { return info(&q->ctx, sizeof q->ctx, s, v, ret); }
	if(k == CL_QUEUE_DEVICE) { return info(&q->dev, sizeof q->dev, s, v, ret); }
	cl_ulong n = 0;
	return info(&n, sizeof n, s, v, ret);
}

cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t n, void* h, cl_int* e)
{
	if(!n) { ERR(CL_INVALID_BUFFER_SIZE); return nullptr; }
	if(c->dead) { report("use of a released context"); }
	cl_mem m = new _cl_mem;
	m->ctx = c;
	++c->refs;
	m->block = (char*)malloc(n + 2 * GUARD);
	memset(m->block, 0xff, n + 2 * GUARD);
	m->r.p = m->block + GUARD;
	m->r.size = n;
	m->r.cells.resize(n / CELL + 2);
	if(h && (f & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR))) { memcpy(m->r.p, h, n); for(auto& x : m->r.cells) { x.init = true; } }
	++n_live;
	ERR(CL_SUCCESS);
	return m;
}
cl_int clReleaseMemObject(cl_mem m)
{
	if(m->dead) { report("buffer released twice"); return CL_INVALID_MEM_OBJECT; }
	if(--m->refs == 0)
	{
		// commands in progress keep it alive
		for(auto q : std::vector<cl_command_queue>(queues)) { drain(q); }
		clReleaseContext(m->ctx);
		bury(m);
		--n_live;
		free(m->block);
		m->r.cells = std::vector<Cell>();
		m->r.p = nullptr;
	}
	return CL_SUCCESS;
}
cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info k, size_t s, void* v, size_t* ret)
{
	if(k == CL_MEM_CONTEXT) { return info(&m->ctx, sizeof m->ctx, s, v, ret); }
	size_t n = m->r.size;
	return info(&n, sizeof n, s, v, ret);
}

cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char** s, const size_t* l, cl_int* e)
{
	cl_program p = new _cl_program;
	p->ctx = c;
	++c->refs;
	for(cl_uint i = 0; i != n; ++i) { p->source += l && l[i] ? std::string(s[i], l[i]) : std::string(s[i]); }
	ERR(CL_SUCCESS);
	return p;
}
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id* d, const char* o, void (*)(cl_program, void*), void*)
{
	std::vector<cl_device_id>	v(d, d + n);
	if(v.empty()) { v = p->ctx->devices; }
	for(auto x : v)
	{
		if(std::find(p->ctx->devices.begin(), p->ctx->devices.end(), x) == p->ctx->devices.end()) { return CL_INVALID_DEVICE; }
		Module*	m = compile(p->source, o ? o : "", p->log);
		if(!m) { return CL_BUILD_PROGRAM_FAILURE; }
		p->built[x] = m;
	}
	return CL_SUCCESS;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info k, size_t s, void* v, size_t* ret)
{
	if(k == CL_PROGRAM_BUILD_LOG || k == CL_PROGRAM_BUILD_OPTIONS) { return sinfo(p->log, s, v, ret); }
	cl_int n = 0;
	return info(&n, sizeof n, s, v, ret);
}
cl_int clGetProgramInfo(cl_program p, cl_program_info k, size_t s, void* v, size_t* ret)
{
	if(k == CL_PROGRAM_DEVICES)
	{
		std::vector<cl_device_id> d;
		for(auto& i : p->built) { d.push_back(i.first); }
		return info(d.data(), d.size() * sizeof(cl_device_id), s, v, ret);
	}
	if(k == CL_PROGRAM_SOURCE) { return sinfo(p->source, s, v, ret); }
	cl_uint n = p->built.size();
	return info(&n, sizeof n, s, v, ret);
}
cl_kernel clCreateKernel(cl_program p, const char* name, cl_int* e)
{
	if(p->built.empty()) { ERR(CL_INVALID_PROGRAM_EXECUTABLE); return nullptr; }
	Module*	m = p->built.begin()->second;
	auto	f = m->kernels.find(name);
	if(f == m->kernels.end()) { ERR(CL_INVALID_KERNEL_NAME); return nullptr; }
	cl_kernel k = new _cl_kernel;
	k->prog = p;
	++p->refs;
	k->name = name;
	k->params = f->second;
	k->args.resize(f->second.size());
	auto	size = (unsigned (*)(unsigned))dlsym(m->so, ("nbsize_" + k->name).c_str());
	for(unsigned i = 0; i != k->args.size(); ++i) { k->sizes.push_back(size(i)); }
	ERR(CL_SUCCESS);
	return k;
}
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void* v)
{
	if(i >= k->args.size()) { return CL_INVALID_ARG_INDEX; }
	Arg&	a = k->args[i];
	a.set = true;
	if(k->params[i].pointer && k->params[i].local)
	{
		if(v || !n) { return CL_INVALID_ARG_VALUE; }
		a.local = n;
		return CL_SUCCESS;
	}
	if(k->params[i].pointer)
	{
		if(n != sizeof(cl_mem)) { return CL_INVALID_ARG_SIZE; }
		a.mem = v ? *(const cl_mem*)v : nullptr;
		if(a.mem && a.mem->dead) { report("released buffer as an argument of kernel %s", k->name.c_str()); return CL_INVALID_MEM_OBJECT; }
		if(a.mem && a.mem->ctx != k->prog->ctx) { return CL_INVALID_MEM_OBJECT; }
		return CL_SUCCESS;
	}
	if(n != k->sizes[i]) { return CL_INVALID_ARG_SIZE; }
	a.value.assign((const char*)v, (const char*)v + n);
	return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t* off, const size_t* gl, const size_t* lo, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(q->ctx != k->prog->ctx) { return CL_INVALID_CONTEXT; }
	if(!k->prog->built.count(q->dev)) { return CL_INVALID_PROGRAM_EXECUTABLE; }
	if(dim != 1) { report("only one dimension is modelled"); return CL_INVALID_WORK_DIMENSION; }
	if(!gl || !gl[0]) { return CL_INVALID_GLOBAL_WORK_SIZE; }
	if(lo && (lo[0] == 0 || gl[0] % lo[0] || lo[0] > MAX_ITEMS)) { return CL_INVALID_WORK_GROUP_SIZE; }
	for(auto& a : k->args) { if(!a.set) { return CL_INVALID_KERNEL_ARGS; } }
	auto	l = std::make_shared<Launch>();
	std::vector<Arg>	args = k->args;
	std::string			name = k->name;
	l->mod = k->prog->built[q->dev];
	l->fn = (void (*)(uint64_t*))dlsym(l->mod->so, ("nbcall_" + name).c_str());
	l->global = gl[0];
	l->offset = off ? off[0] : 0;
	size_t	local = lo ? lo[0] : 0;
	return enqueue(q, "kernel", nw, wl, ev, false, [=](Cmd& c)
	{
		std::vector<Region>	loc(args.size());
		l->cmd = &c;
		l->name = name.c_str();
		// without a local size any division is allowed
		l->local = local ? local : (l->global % 2 == 0 && order ? 2 : 1);
		l->groups = l->global / l->local;
		l->args.assign(args.size(), 0);
		l->regions.clear();
		for(size_t i = 0; i != args.size(); ++i)
		{
			const Arg&	a = args[i];
			if(a.mem)
			{
				if(!live(a.mem)) { return; }
				l->args[i] = (uint64_t)a.mem->r.p;
				l->regions.push_back(&a.mem->r);
			}
			else if(a.local)
			{
				loc[i].p = (char*)malloc(a.local);
				loc[i].size = a.local;
				loc[i].cells.resize(a.local / CELL + 2);
				l->args[i] = (uint64_t)loc[i].p;
				l->locals.push_back(&loc[i]);
			}
			else { memcpy(&l->args[i], a.value.data(), a.value.size()); }
		}
		run_kernel(*l);
		for(auto& x : loc) { if(x.p && x.size) { free(x.p); } }
		l->locals.clear();
	});
}

static bool inside(cl_mem m, size_t o, size_t n) { return n > 0 && o <= m->r.size && n <= m->r.size - o; }
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, size_t o, size_t n, void* h, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(!live(m) || m->ctx != q->ctx) { return CL_INVALID_CONTEXT; }
	if(!inside(m, o, n) || !h) { return CL_INVALID_VALUE; }
	return enqueue(q, "read", nw, wl, ev, blocking, [=](Cmd& c)
	{
		if(!live(m)) { return; }
		cells(m->r, o, n, c, false, "transfer from a buffer");
		host_access(h, n, true, c);
		memcpy(h, m->r.p + o, n);
	});
}
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, size_t o, size_t n, const void* h, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(!live(m) || m->ctx != q->ctx) { return CL_INVALID_CONTEXT; }
	if(!inside(m, o, n) || !h) { return CL_INVALID_VALUE; }
	return enqueue(q, "write", nw, wl, ev, blocking, [=](Cmd& c)
	{
		if(!live(m)) { return; }
		host_access(h, n, false, c);
		memcpy(m->r.p + o, h, n);
		cells(m->r, o, n, c, true, "transfer to a buffer");
	});
}
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void* pat, size_t ps, size_t o, size_t n, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(!live(m) || m->ctx != q->ctx) { return CL_INVALID_CONTEXT; }
	if(!inside(m, o, n) || !ps || o % ps || n % ps) { return CL_INVALID_VALUE; }
	std::string	p((const char*)pat, ps);
	return enqueue(q, "fill", nw, wl, ev, false, [=](Cmd& c)
	{
		if(!live(m)) { return; }
		for(size_t i = 0; i != n; ++i) { m->r.p[o + i] = p[i % ps]; }
		cells(m->r, o, n, c, true, "fill of a buffer");
	});
}
static void copy_init(cl_mem s, size_t so, cl_mem d, size_t dof, size_t n)
{
	for(size_t i = 0; i < n; i += CELL) { d->r.cells[(dof + i) / CELL].init = s->r.cells[(so + i) / CELL].init; }
}
cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem s, cl_mem d, size_t so, size_t dof, size_t n, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(!live(s) || !live(d) || s->ctx != q->ctx || d->ctx != q->ctx) { return CL_INVALID_CONTEXT; }
	if(!inside(s, so, n) || !inside(d, dof, n)) { return CL_INVALID_VALUE; }
	if(s == d && so < dof + n && dof < so + n) { return CL_MEM_COPY_OVERLAP; }
	return enqueue(q, "copy", nw, wl, ev, false, [=](Cmd& c)
	{
		if(!live(s) || !live(d)) { return; }
		cells(s->r, so, n, c, false, "copy from a buffer");
		memcpy(d->r.p + dof, s->r.p + so, n);
		cells(d->r, dof, n, c, true, "copy to a buffer");
		copy_init(s, so, d, dof, n);
	});
}
//! Strides as the specification defines them, last used byte
static bool rect(const size_t o[3], const size_t r[3], size_t& rp, size_t& sp, size_t& last)
{
	if(!r[0] || !r[1] || !r[2]) { return false; }
	if(!rp) { rp = r[0]; }
	if(!sp) { sp = r[1] * rp; }
	if(rp < r[0] || sp < r[1] * rp || sp % rp) { return false; }
	last = (o[2] + r[2] - 1) * sp + (o[1] + r[1] - 1) * rp + o[0] + r[0];
	return true;
}
static void each_row(const size_t* o, const size_t* r, size_t rp, size_t sp, std::vector<size_t>& v)
{
	for(size_t z = 0; z != r[2]; ++z) for(size_t y = 0; y != r[1]; ++y) { v.push_back((o[2] + z) * sp + (o[1] + y) * rp + o[0]); }
}
cl_int clEnqueueCopyBufferRect(cl_command_queue q, cl_mem s, cl_mem d, const size_t* so, const size_t* dof, const size_t* r, size_t srp, size_t ssp, size_t drp, size_t dsp, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(!live(s) || !live(d) || s->ctx != q->ctx || d->ctx != q->ctx) { return CL_INVALID_CONTEXT; }
	size_t	l1, l2;
	if(!rect(so, r, srp, ssp, l1) || !rect(dof, r, drp, dsp, l2) || l1 > s->r.size || l2 > d->r.size) { return CL_INVALID_VALUE; }
	std::vector<size_t>	a, b;
	each_row(so, r, srp, ssp, a);
	each_row(dof, r, drp, dsp, b);
	size_t	n = r[0];
	return enqueue(q, "copy", nw, wl, ev, false, [=](Cmd& c)
	{
		if(!live(s) || !live(d)) { return; }
		for(size_t i = 0; i != a.size(); ++i)
		{
			cells(s->r, a[i], n, c, false, "copy from a buffer");
			memmove(d->r.p + b[i], s->r.p + a[i], n);
			cells(d->r, b[i], n, c, true, "copy to a buffer");
			copy_init(s, a[i], d, b[i], n);
		}
	});
}
static cl_int host_rect(cl_command_queue q, cl_mem m, cl_bool blocking, const size_t* bo, const size_t* ho, const size_t* r, size_t brp, size_t bsp, size_t hrp, size_t hsp, char* h, bool read, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(!live(m) || m->ctx != q->ctx) { return CL_INVALID_CONTEXT; }
	size_t	l1, l2;
	if(!rect(bo, r, brp, bsp, l1) || !rect(ho, r, hrp, hsp, l2) || l1 > m->r.size || !h) { return CL_INVALID_VALUE; }
	std::vector<size_t>	a, b;
	each_row(bo, r, brp, bsp, a);
	each_row(ho, r, hrp, hsp, b);
	size_t	n = r[0];
	return enqueue(q, "rect", nw, wl, ev, blocking, [=](Cmd& c)
	{
		if(!live(m)) { return; }
		for(size_t i = 0; i != a.size(); ++i)
		{
			cells(m->r, a[i], n, c, !read, "transfer of a buffer");
			host_access(h + b[i], n, read, c);
			if(read) { memcpy(h + b[i], m->r.p + a[i], n); }
			else { memcpy(m->r.p + a[i], h + b[i], n); }
		}
	});
}
cl_int clEnqueueReadBufferRect(cl_command_queue q, cl_mem m, cl_bool bl, const size_t* bo, const size_t* ho, const size_t* r, size_t brp, size_t bsp, size_t hrp, size_t hsp, void* h, cl_uint nw, const cl_event* wl, cl_event* ev)
{ return host_rect(q, m, bl, bo, ho, r, brp, bsp, hrp, hsp, (char*)h, true, nw, wl, ev); }
cl_int clEnqueueWriteBufferRect(cl_command_queue q, cl_mem m, cl_bool bl, const size_t* bo, const size_t* ho, const size_t* r, size_t brp, size_t bsp, size_t hrp, size_t hsp, const void* h, cl_uint nw, const cl_event* wl, cl_event* ev)
{ return host_rect(q, m, bl, bo, ho, r, brp, bsp, hrp, hsp, (char*)h, false, nw, wl, ev); }
cl_int clEnqueueBarrierWithWaitList(cl_command_queue q, cl_uint nw, const cl_event* wl, cl_event* ev) { return enqueue(q, "barrier", nw, wl, ev, false, [](Cmd&) {}); }
cl_int clEnqueueMarkerWithWaitList(cl_command_queue q, cl_uint nw, const cl_event* wl, cl_event* ev) { return enqueue(q, "marker", nw, wl, ev, false, [](Cmd&) {}); }
cl_int clWaitForEvents(cl_uint n, const cl_event* e)
{
	if(!n || !e) { return CL_INVALID_VALUE; }
	std::vector<std::shared_ptr<Cmd>>	v;
	for(cl_uint i = 0; i != n; ++i)
	{
		if(!e[i] || !e[i]->cmd) { return CL_INVALID_EVENT; }
		v.push_back(e[i]->cmd);
	}
	wait_for(v);
	return CL_SUCCESS;
}
cl_int clGetEventInfo(cl_event e, cl_event_info k, size_t s, void* v, size_t* ret)
{
	cl_int n = e->cmd->done ? CL_COMPLETE : CL_QUEUED;
	return info(&n, sizeof n, s, v, ret);
}
cl_int clGetEventProfilingInfo(cl_event e, cl_profiling_info k, size_t s, void* v, size_t* ret)
{
	if(!e->prof || !e->cmd->done) { return CL_PROFILING_INFO_NOT_AVAILABLE; }
	cl_ulong t = k == CL_PROFILING_COMMAND_END ? e->cmd->t1 : e->cmd->t0;
	return info(&t, sizeof t, s, v, ret);
}
}
