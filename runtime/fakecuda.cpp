// CUDA runtime under control of the explorer. Kernels are compiled for the host, threads of a block are fibers, every memory
// access of a kernel is checked (device, bounds, initialisation, races between threads, races between commands which nothing
// orders). Commands stay in their streams until somebody has to wait for them; which stream proceeds is decided by the explorer.
// The default stream of a device is the legacy one. Host threads of an OpenMP region run one after another.
#include "cuda/cuda_runtime.h"
#include "cuda/nccl.h"
#include "fakecuda.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
#undef threadIdx
#undef blockIdx
#undef blockDim
#undef gridDim

namespace fakecuda
{
Stats	stats;
int (*choose)(int n) = nullptr;
void (*fatal)(const std::string&) = nullptr;
int		order = 0, fail_malloc = 0;
std::set<int>	used;
static std::string	err;
static int	n_devices = 8, n_streams = 0;
const std::string& error() { return err; }
}
using namespace fakecuda;

static void report(const char* f, ...)
{
	char	b[600];
	va_list	ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	if(err.empty()) { err = b; }
}

typedef std::vector<uint32_t> VC;
static void join(VC& a, const VC& b)
{
	if(a.size() < b.size()) { a.resize(b.size()); }
	for(size_t i = 0; i != b.size(); ++i) { a[i] = std::max(a[i], b[i]); }
}

// ---------------------------------------------------------------- host threads
static int	tid = 0, team = 1, region = 0, worker = 0;
static std::map<int, int>	cur_device;			// of every host thread
static int& device() { return cur_device[worker]; }
extern "C" {
int omp_get_thread_num() { return tid; }
int omp_get_num_threads() { return team; }
int omp_get_max_threads() { return 1; }
int omp_in_parallel() { return region; }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned)
{
	int	ot = tid, om = team, orr = region, ow = worker;
	if(!n || region) { n = 1; }
	for(unsigned i = 0; i != n; ++i)
	{
		tid = order ? int(n - 1 - i) : int(i);
		team = n;
		if(n > 1) { region = 1; worker = tid; }
		fn(d);
	}
	tid = ot;
	team = om;
	region = orr;
	worker = ow;
}
}

// ---------------------------------------------------------------- memory
struct Who { uint32_t stream, pos; };
enum : uint32_t { NONE = ~0u };
struct Item { uint32_t item, phase; };
struct Cell
{
	std::vector<Who>	wr, rd;
	uint64_t			launch = 0;
	Item				w = { NONE, 0 };
	uint32_t			other = NONE, rblock = 0, rphase = 0, r1 = NONE, r2 = NONE;
	uint64_t			cr = 0, cw = 0;
	bool				init = false;
	uint64_t			group = 0;
};
enum { GUARD = 1 << 11, CELL = 4 };
struct Region { char* p; size_t size; std::vector<Cell> cells; int device; char* block; };
static std::map<const char*, Region*>&	allocs = *new std::map<const char*, Region*>;
struct Tex { Region* r; const char* p; size_t bytes; int bits; bool fp, bad; };
static std::map<cudaTextureObject_t, Tex>&	textures = *new std::map<cudaTextureObject_t, Tex>;
namespace fakecuda
{
int live_buffers() { return allocs.size(); }
int live_textures() { return textures.size(); }
int live_streams() { return n_streams; }
size_t total_allocated() { size_t s = 0; for(auto& a : allocs) { s += a.second->size; } return s; }
}

static Region* find(const void* a, size_t n, bool* near = nullptr)
{
	const char*	p = (const char*)a;
	auto		i = allocs.upper_bound(p);
	if(near) { *near = false; if(i != allocs.end() && p + n > i->second->p - GUARD) { *near = true; } }
	if(i == allocs.begin()) { return nullptr; }
	--i;
	Region*	r = i->second;
	if(p + n <= r->p + r->size) { return r; }
	if(near && p < r->p + r->size + GUARD) { *near = true; }
	return nullptr;
}

struct Cmd
{
	CUstream_st*		s;
	uint32_t			pos;
	VC					vc;
	bool				done = false;
	std::vector<std::shared_ptr<Cmd>> waits;
	std::function<void(Cmd&)> run;
	const char*			what;
};
struct CUstream_st { int device; bool blocking, dead; uint32_t index, pos; VC last; std::deque<std::shared_ptr<Cmd>> pending; std::shared_ptr<Cmd> tail; };
struct CUevent_st { std::shared_ptr<Cmd> cmd; VC vc; };
static std::vector<CUstream_st*>&	streams = *new std::vector<CUstream_st*>;
static std::map<int, CUstream_st*>&	defaults = *new std::map<int, CUstream_st*>;
static uint32_t	stream_count = 0;
static VC		host;

static bool before(const Who& w, const VC& vc) { return w.stream < vc.size() && vc[w.stream] >= w.pos; }
static void cell_command(Cell& c, const Cmd& cmd, bool write, const char* what)
{
	Who		me = { cmd.s->index, cmd.pos };
	auto bad = [&](std::vector<Who>& v, const char* other)
	{
		for(auto& w : v)
		{
			if(w.stream != me.stream && !before(w, cmd.vc))
			{
				report("%s (%s) and a %s by a command of another stream are not ordered by anything", what, write ? "write" : "read", other);
				return;
			}
		}
	};
	bad(c.wr, "write");
	if(write) { bad(c.rd, "read"); c.wr.clear(); c.rd.clear(); c.wr.push_back(me); }
	else
	{
		for(auto& w : c.rd) { if(w.stream == me.stream) { w.pos = me.pos; return; } }
		c.rd.push_back(me);
	}
}
static void cells(Region& r, const char* p, size_t len, const Cmd& cmd, bool write, const char* what)
{
	size_t	off = p - r.p;
	for(size_t i = off / CELL; i < (off + len + CELL - 1) / CELL; ++i)
	{
		cell_command(r.cells[i], cmd, write, what);
		if(write) { r.cells[i].init = true; }
	}
}

// ---------------------------------------------------------------- fibers
extern "C" void cu_switch(void** from, void** to);
asm(R"(
.text
.globl cu_switch
.type cu_switch,@function
cu_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq (%rsi), %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");
enum : size_t { STACK = 64 << 10, MAX_ITEMS = 1024, MAX_SHARED = 48 << 10 };
static char*	arena = nullptr;
alignas(64) static char	dyn_shared[MAX_SHARED];
static char*	exe_lo = nullptr;
static char*	exe_hi = nullptr;
static Region	shared_dyn, shared_static;
extern char __start_cu_shared[] __attribute__((weak));
extern char __stop_cu_shared[] __attribute__((weak));

struct Launch
{
	uint64_t		id;
	Cmd*			cmd;
	const char*		name;
	Call*			call;
	size_t			call_size, shared;
	dim3			grid, block;
	size_t			local, groups, group;
	std::vector<void*> sp;
	std::vector<int> state;
	uint32_t		phase;
	size_t			cur;
	void*			main_sp;
	Region*			last = nullptr;
};
static Launch*	la = nullptr;

static void item_entry()
{
	la->call->run();
	la->state[la->cur] = 2;
	cu_switch(&la->sp[la->cur], &la->main_sp);
	abort();
}
static void item_cells(Region& r, size_t off, size_t len, bool write, bool local)
{
	uint32_t	item = la->group * la->local + la->cur;
	for(size_t i = off / CELL; i < (off + len + CELL - 1) / CELL; ++i)
	{
		Cell&	c = r.cells[i];
		uint64_t key = local ? la->id * 1000003 + la->group + 1 : la->id;
		if(c.launch != key) { c.launch = key; c.w.item = c.other = c.r1 = c.r2 = NONE; }
		// blocks run one after another and their phases only grow: one reader of the earlier blocks and two of this one's latest phase stand for all
		uint32_t	blk = la->group;
		auto conflict = [&](const Item& o) { return o.item != NONE && o.item != item && (o.item / la->local != blk || o.phase == la->phase); };
		if(conflict(c.w)) { report("kernel %s: threads %u and %u access the same %s memory without a barrier between (%s after write)", la->name, c.w.item, item, local ? "shared" : "global", write ? "write" : "read"); }
		if(c.r1 != NONE && c.rblock != blk) { c.other = c.r1; c.r1 = c.r2 = NONE; }
		if(c.r1 != NONE && c.rphase != la->phase) { c.r1 = c.r2 = NONE; }
		if(write)
		{
			uint32_t	o = c.other != NONE ? c.other : c.r1 != NONE && c.r1 != item ? c.r1 : c.r2 != NONE && c.r2 != item ? c.r2 : NONE;
			if(o != NONE) { report("kernel %s: threads %u and %u access the same %s memory without a barrier between (write after read)", la->name, o, item, local ? "shared" : "global"); }
			c.w = { item, la->phase };
			if(local) { c.group = key; }
			c.init = true;
		}
		else
		{
			if(local ? c.group != key : !c.init) { report("kernel %s reads %s memory that was never written", la->name, local ? "shared" : "global"); c.init = true; c.group = key; }
			if(c.r1 == NONE) { c.r1 = item; c.rblock = blk; c.rphase = la->phase; }
			else if(c.r1 != item && c.r2 == NONE) { c.r2 = item; }
		}
		if(!local && (write ? c.cw : std::max(c.cr, c.cw)) != la->id) { (write ? c.cw : c.cr) = la->id; cell_command(c, *la->cmd, write, la->name); }
	}
}
static void on_access(const void* a, size_t n, bool write)
{
	if(!la) { return; }
	const char*	p = (const char*)a;
	if(p >= arena && p < arena + STACK * MAX_ITEMS) { return; }
	if(p >= (char*)la->call && p + n <= (char*)la->call + la->call_size && !write) { return; }
	++stats.accesses;
	if(p >= dyn_shared && p < dyn_shared + MAX_SHARED)
	{
		if(p + n > dyn_shared + la->shared) { report("kernel %s %s outside its shared memory of %zu bytes", la->name, write ? "writes" : "reads", la->shared); return; }
		item_cells(shared_dyn, p - dyn_shared, n, write, true);
		return;
	}
	Region*	r = la->last;
	bool	near = false;
	if(!r || p < r->p || p + n > r->p + r->size) { r = find(p, n, &near); }
	if(r)
	{
		la->last = r;
		if(r->device != la->cmd->s->device) { report("kernel %s on device %d %s memory of device %d", la->name, la->cmd->s->device, write ? "writes" : "reads", r->device); }
		item_cells(*r, p - r->p, n, write, false);
		return;
	}
	if(__start_cu_shared && p >= __start_cu_shared && p + n <= __stop_cu_shared) { item_cells(shared_static, p - __start_cu_shared, n, write, true); return; }
	if(p >= exe_lo && p + n <= exe_hi && !write) { return; }
	std::string	s = "kernel " + std::string(la->name) + (write ? " writes" : " reads") + " outside of device memory";
	if(near) { report("%s (next to a buffer)", s.c_str()); return; }
	if(fatal) { fatal(s); }
	fprintf(stderr, "%s\n", s.c_str());
	_exit(79);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* a) { on_access(a, N, false); } void __tsan_write##N(void* a) { on_access(a, N, true); } \
void __tsan_unaligned_read##N(void* a) { on_access(a, N, false); } void __tsan_unaligned_write##N(void* a) { on_access(a, N, true); } \
void __tsan_read_write##N(void* a) { on_access(a, N, false); on_access(a, N, true); } void __tsan_unaligned_read_write##N(void* a) { on_access(a, N, false); on_access(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void* __tsan_memset(void* d, int c, size_t n) { on_access(d, n, true); return memset(d, c, n); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { on_access(s, n, false); on_access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { on_access(s, n, false); on_access(d, n, true); return memmove(d, s, n); }
void __asan_loadN(void*, size_t) __attribute__((weak));
void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
}

namespace fakecuda
{
uint3 idx(int what)
{
	if(!la) { report("a kernel built-in is used by the host"); return { 0, 0, 0 }; }
	auto split = [](size_t i, dim3 d) { return uint3{ unsigned(i % d.x), unsigned(i / d.x % d.y), unsigned(i / d.x / d.y) }; };
	switch(what)
	{
	case 0: return split(la->cur, la->block);
	case 1: return split(la->group, la->grid);
	case 2: return { la->block.x, la->block.y, la->block.z };
	}
	return { la->grid.x, la->grid.y, la->grid.z };
}
char* shared() { return dyn_shared; }
void barrier()
{
	la->state[la->cur] = 1;
	cu_switch(&la->sp[la->cur], &la->main_sp);
}
void tex(cudaTextureObject_t t, int i, void* dst, size_t size, bool fp)
{
	auto	f = textures.find(t);
	memset(dst, 0, size);
	if(f == textures.end()) { report("kernel %s uses a texture that does not exist", la->name); return; }
	Tex&	x = f->second;
	if(x.bad) { report("kernel %s uses a texture of released memory", la->name); return; }
	if(x.bits != int(size * 8) || x.fp != fp) { report("kernel %s fetches %zu bytes from a texture of %d bits per element", la->name, size, x.bits); return; }
	if(i < 0 || (size_t(i) + 1) * size > x.bytes) { report("kernel %s fetches element %d of a texture of %zu", la->name, i, x.bytes / size); return; }
	on_access(x.p + size_t(i) * size, size, false);
	memcpy(dst, x.p + size_t(i) * size, size);
}
}

static int on_module(dl_phdr_info* i, size_t, void*)
{
	for(int k = 0; k != i->dlpi_phnum; ++k)
	{
		const ElfW(Phdr)& h = i->dlpi_phdr[k];
		if(h.p_type != PT_LOAD) { continue; }
		char*	a = (char*)i->dlpi_addr + h.p_vaddr;
		char*	e = a + h.p_memsz;
		if(!exe_lo || a < exe_lo) { exe_lo = a; }
		if(e > exe_hi) { exe_hi = e; }
	}
	return 1; // the program is the first one
}

static void run_kernel(Launch& l)
{
	static uint64_t	ids = 0;
	if(!arena)
	{
		arena = (char*)mmap(nullptr, STACK * MAX_ITEMS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		dl_iterate_phdr(on_module, nullptr);
		shared_dyn.p = dyn_shared;
		shared_dyn.size = MAX_SHARED;
		shared_dyn.cells.resize(MAX_SHARED / CELL + 2);
		if(__start_cu_shared) { shared_static.p = __start_cu_shared; shared_static.size = __stop_cu_shared - __start_cu_shared; shared_static.cells.resize(shared_static.size / CELL + 2); }
	}
	++stats.kernels;
	used.insert(l.cmd->s->device);
	l.id = ++ids;
	la = &l;
	for(size_t gi = 0; gi != l.groups; ++gi)
	{
		l.group = order ? l.groups - 1 - gi : gi;
		l.phase = 0;
		l.sp.assign(l.local, nullptr);
		l.state.assign(l.local, 0);
		memset(dyn_shared, 0xff, l.shared);
		for(size_t i = 0; i != l.local; ++i)
		{
			void**	p = (void**)((uintptr_t)(arena + STACK * (i + 1) - 64) & ~uintptr_t(15));
			*--p = nullptr;
			*--p = (void*)item_entry;
			for(int k = 0; k != 6; ++k) { *--p = nullptr; }
			l.sp[i] = p;
		}
		for(;;)
		{
			for(size_t k = 0; k != l.local; ++k)
			{
				l.cur = order ? l.local - 1 - k : k;
				if(l.state[l.cur] == 2) { continue; }
				l.state[l.cur] = 0;
				++stats.items;
				cu_switch(&l.main_sp, &l.sp[l.cur]);
			}
			size_t	done = std::count(l.state.begin(), l.state.end(), 2);
			if(done == l.local) { break; }
			if(done) { report("kernel %s: not all threads of a block reach the barrier", l.name); }
			++l.phase;
		}
	}
	la = nullptr;
}

// ---------------------------------------------------------------- commands
static CUstream_st* default_stream(int dev)
{
	auto&	s = defaults[dev];
	if(!s)
	{
		s = new CUstream_st();
		s->device = dev;
		s->blocking = true;
		s->index = stream_count++;
		streams.push_back(s);
	}
	return s;
}
static bool runnable(CUstream_st* q)
{
	if(q->pending.empty()) { return false; }
	for(auto& w : q->pending.front()->waits) { if(!w->done) { return false; } }
	return true;
}
static void step(CUstream_st* q)
{
	auto	c = q->pending.front();
	q->pending.pop_front();
	++stats.commands;
	c->run(*c);
	c->run = nullptr;
	c->waits.clear();
	c->done = true;
}
static CUstream_st* needed(Cmd& c)
{
	auto&	f = c.s->pending.front();
	for(auto& w : f->waits) { if(!w->done) { return needed(*w); } }
	return c.s;
}
static void wait_for(const std::vector<std::shared_ptr<Cmd>>& v)
{
	for(;;)
	{
		std::vector<CUstream_st*>	opt;
		for(auto& c : v) { if(!c->done) { opt.push_back(needed(*c)); break; } }
		if(opt.empty()) { break; }
		for(auto q : streams) { if(q != opt[0] && runnable(q)) { opt.push_back(q); } }
		++stats.points;
		step(opt[opt.size() > 1 && choose ? choose(opt.size()) : 0]);
	}
	for(auto& c : v) { join(host, c->vc); }
}
static std::shared_ptr<Cmd> enqueue(CUstream_st* q, const char* what, std::function<void(Cmd&)> run, const std::vector<std::shared_ptr<Cmd>>& extra = {})
{
	auto	c = std::make_shared<Cmd>();
	c->s = q;
	c->pos = ++q->pos;
	c->what = what;
	c->vc = host;
	join(c->vc, q->last);
	auto dep = [&](const std::shared_ptr<Cmd>& w) { if(w) { join(c->vc, w->vc); if(!w->done) { c->waits.push_back(w); } } };
	for(auto& w : extra) { dep(w); }
	if(q->blocking)
	{
		// the legacy default stream is ordered with all the blocking streams of its device
		CUstream_st*	d = default_stream(q->device);
		if(q == d) { for(auto s : streams) { if(s != d && s->device == d->device && s->blocking) { dep(s->tail); } } }
		else { dep(d->tail); }
	}
	if(c->vc.size() <= q->index) { c->vc.resize(q->index + 1); }
	c->vc[q->index] = c->pos;
	q->last = c->vc;
	q->tail = c;
	c->run = run;
	q->pending.push_back(c);
	if(choose)
	{
		// a command may start at once, too
		std::vector<CUstream_st*>	opt;
		for(auto x : streams) { if(runnable(x)) { opt.push_back(x); } }
		++stats.points;
		int k = opt.empty() ? 0 : choose(opt.size() + 1);
		if(k) { step(opt[k - 1]); }
	}
	return c;
}
static void drain(CUstream_st* q)
{
	if(!q->pending.empty()) { wait_for({ q->pending.back() }); }
	join(host, q->last);
}
static CUstream_st* stream_of(cudaStream_t s)
{
	if(!s) { return default_stream(device()); }
	if(s->dead) { report("use of a destroyed stream"); return nullptr; }
	return s;
}
static cudaError_t	last_error = cudaSuccess;
static cudaError_t fail(cudaError_t e, const char* what)
{
	report("%s fails: %s", what, cudaGetErrorString(e));
	last_error = e;
	return e;
}

namespace fakecuda
{
void reset() { err.clear(); last_error = cudaSuccess; }
void configure(int n) { n_devices = n; }
void launch(dim3 g, dim3 b, size_t shared, cudaStream_t st, const char* name, Call* call, size_t size)
{
	size_t			groups = size_t(g.x) * g.y * g.z, local = size_t(b.x) * b.y * b.z;
	std::shared_ptr<Call>	keep(call);
	if(!groups || !local || local > MAX_ITEMS || shared > MAX_SHARED) { fail(cudaErrorInvalidConfiguration, name); return; }
	CUstream_st*	s = stream_of(st);
	if(!s) { return; }
	if(s->device != device()) { fail(cudaErrorInvalidResourceHandle, name); return; }
	enqueue(s, name, [=](Cmd& c)
	{
		Launch	l;
		l.cmd = &c;
		l.name = name;
		l.call = keep.get();
		l.call_size = size;
		l.shared = shared;
		l.grid = g;
		l.block = b;
		l.local = local;
		l.groups = groups;
		run_kernel(l);
	});
}
void mem_read(const void* dev, size_t n, void* h) { cudaMemcpy(h, dev, n, cudaMemcpyDeviceToHost); }
void mem_fill(void* dev, const void* value, size_t elem, size_t count)
{
	std::vector<char>	v((const char*)value, (const char*)value + elem);
	if(!count) { return; }
	Region*	r = find(dev, elem * count);
	if(!r) { report("fill writes outside of device memory"); return; }
	if(r->device != device()) { report("fill on device %d writes memory of device %d", device(), r->device); }
	enqueue(default_stream(device()), "fill", [=](Cmd& c)
	{
		cells(*r, (const char*)dev, elem * count, c, true, "fill");
		for(size_t i = 0; i != count; ++i) { memcpy((char*)dev + i * elem, v.data(), elem); }
	});
}
}

//! Rows of memory from one place to another
static cudaError_t copy(void* dst, size_t dp, const void* src, size_t sp, size_t w, size_t h, cudaMemcpyKind k, CUstream_st* s, bool sync)
{
	if(!s) { return fail(cudaErrorInvalidResourceHandle, "copy"); }
	if(!w || !h) { return cudaSuccess; }
	if(h > 1 && (dp < w || sp < w)) { return fail(cudaErrorInvalidValue, "copy"); }
	size_t	dn = dp * (h - 1) + w, sn = sp * (h - 1) + w;
	Region	*dr = find(dst, 1), *sr = find(src, 1);
	bool	dd = k == cudaMemcpyDefault ? dr != nullptr : k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice;
	bool	sd = k == cudaMemcpyDefault ? sr != nullptr : k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice;
	if((dr != nullptr) != dd || (sr != nullptr) != sd) { return fail(cudaErrorInvalidValue, "copy in the wrong direction"); }
	if(dd && !find(dst, dn)) { return fail(cudaErrorInvalidValue, "copy to outside of a buffer"); }
	if(sd && !find(src, sn)) { return fail(cudaErrorInvalidValue, "copy from outside of a buffer"); }
	if(!dd && !sd) { for(size_t i = 0; i != h; ++i) { memmove((char*)dst + i * dp, (const char*)src + i * sp, w); } return cudaSuccess; }
	auto poison = [](const void* p, size_t n) { if(__asan_region_is_poisoned && __asan_region_is_poisoned((void*)p, n)) { report("copy uses host memory outside of its object"); return true; } return false; };
	for(size_t i = 0; i != h; ++i)
	{
		if((!dd && poison((char*)dst + i * dp, w)) || (!sd && poison((const char*)src + i * sp, w))) { return cudaErrorInvalidValue; }
	}
	// pageable host memory is staged at once
	auto	stage = std::make_shared<std::vector<char>>();
	if(!sd)
	{
		if(sync) { drain(s); }
		for(size_t i = 0; i != h; ++i) { stage->insert(stage->end(), (const char*)src + i * sp, (const char*)src + i * sp + w); }
	}
	auto	c = enqueue(s, "copy", [=](Cmd& c)
	{
		for(size_t i = 0; i != h; ++i)
		{
			char*		d = (char*)dst + i * dp;
			const char*	f = sd ? (const char*)src + i * sp : stage->data() + i * w;
			std::vector<bool>	in;
			if(sd)
			{
				cells(*sr, f, w, c, false, "copy");
				if(dd) { for(size_t x = (f - sr->p) / CELL; x < (f - sr->p + w + CELL - 1) / CELL; ++x) { in.push_back(sr->cells[x].init); } }
			}
			if(dd)
			{
				cells(*dr, d, w, c, true, "copy");
				if((d - dr->p) % CELL == 0) { for(size_t x = 0; x != in.size(); ++x) { dr->cells[(d - dr->p) / CELL + x].init = in[x]; } }
			}
			memmove(d, f, w);
		}
	});
	if(!dd) { wait_for({ c }); }
	return cudaSuccess;
}

const char* cudaGetErrorString(cudaError_t e) { return e == cudaSuccess ? "no error" : e == cudaErrorInvalidConfiguration ? "invalid configuration argument" : e == cudaErrorMemoryAllocation ? "out of memory" : e == cudaErrorInvalidResourceHandle ? "invalid resource handle" : "invalid argument"; }
cudaError_t cudaGetLastError() { cudaError_t e = last_error; last_error = cudaSuccess; return e; }
cudaError_t cudaPeekAtLastError() { return last_error; }
cudaError_t cudaGetDeviceCount(int* n) { *n = n_devices; return n_devices ? cudaSuccess : cudaErrorNoDevice; }
cudaError_t cudaGetDevice(int* d) { *d = device(); return cudaSuccess; }
cudaError_t cudaSetDevice(int d)
{
	if(d < 0 || d >= n_devices) { return fail(cudaErrorInvalidDevice, "cudaSetDevice"); }
	device() = d;
	return cudaSuccess;
}
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int d)
{
	if(d < 0 || d >= n_devices) { return fail(cudaErrorInvalidDevice, "cudaGetDeviceProperties"); }
	memset(p, 0, sizeof *p);
	strcpy(p->name, "model");
	p->maxThreadsPerBlock = MAX_ITEMS;
	p->sharedMemPerBlock = MAX_SHARED;
	p->warpSize = 32;
	return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize()
{
	int	d = device();
	for(size_t i = 0; i != streams.size(); ++i) { if(streams[i]->device == d) { drain(streams[i]); } }
	return cudaSuccess;
}
cudaError_t cudaMalloc(void** p, size_t n)
{
	if(fail_malloc && --fail_malloc == 0) { last_error = cudaErrorMemoryAllocation; return last_error; }
	*p = nullptr;
	if(!n) { return cudaSuccess; }
	if(n > (size_t(1) << 32)) { last_error = cudaErrorMemoryAllocation; return last_error; }
	Region*	r = new Region;
	r->block = (char*)malloc(n + 2 * GUARD + 256);
	r->p = (char*)(((uintptr_t)r->block + GUARD + 255) & ~uintptr_t(255));
	r->size = n;
	r->device = device();
	memset(r->p, 0xff, n);
	r->cells.resize(n / CELL + 2);
	allocs[r->p] = r;
	*p = r->p;
	return cudaSuccess;
}
cudaError_t cudaFree(void* p)
{
	if(!p) { return cudaSuccess; }
	auto	i = allocs.find((const char*)p);
	if(i == allocs.end()) { return fail(cudaErrorInvalidValue, "cudaFree of memory that is not allocated"); }
	Region*	r = i->second;
	// waits for everything that may use the memory
	for(size_t k = 0; k != streams.size(); ++k) { VC h = host; bool same = streams[k]->device == r->device; drain(streams[k]); if(!same) { host = h; } }
	for(auto& t : textures) { if(t.second.r == r) { t.second.bad = true; } }
	allocs.erase(i);
	free(r->block);
	delete r;
	return cudaSuccess;
}
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t st) { return copy(d, n, s, n, n, 1, k, stream_of(st), false); }
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) { return copy(d, n, s, n, n, 1, k, stream_of(nullptr), true); }
cudaError_t cudaMemcpyPeer(void* d, int, const void* s, int, size_t n) { return copy(d, n, s, n, n, 1, cudaMemcpyDeviceToDevice, stream_of(nullptr), true); }
cudaError_t cudaMemcpyPeerAsync(void* d, int, const void* s, int, size_t n, cudaStream_t st) { return copy(d, n, s, n, n, 1, cudaMemcpyDeviceToDevice, stream_of(st), false); }
cudaError_t cudaMemcpy2D(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h, cudaMemcpyKind k) { return copy(d, dp, s, sp, w, h, k, stream_of(nullptr), true); }
cudaError_t cudaMemcpy2DAsync(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h, cudaMemcpyKind k, cudaStream_t st) { return copy(d, dp, s, sp, w, h, k, stream_of(st), false); }
cudaError_t cudaMemsetAsync(void* d, int v, size_t n, cudaStream_t st)
{
	CUstream_st*	s = stream_of(st);
	Region*			r = find(d, n);
	if(!s) { return fail(cudaErrorInvalidResourceHandle, "cudaMemset"); }
	if(!n) { return cudaSuccess; }
	if(!r) { return fail(cudaErrorInvalidValue, "cudaMemset outside of a buffer"); }
	enqueue(s, "memset", [=](Cmd& c) { cells(*r, (const char*)d, n, c, true, "memset"); memset(d, v, n); });
	return cudaSuccess;
}
cudaError_t cudaMemset(void* d, int v, size_t n) { return cudaMemsetAsync(d, v, n, nullptr); }
cudaError_t cudaStreamCreateWithFlags(cudaStream_t* s, unsigned f)
{
	default_stream(device());
	*s = new CUstream_st();
	(*s)->device = device();
	(*s)->blocking = f != cudaStreamNonBlocking;
	(*s)->index = stream_count++;
	streams.push_back(*s);
	++n_streams;
	return cudaSuccess;
}
cudaError_t cudaStreamCreate(cudaStream_t* s) { return cudaStreamCreateWithFlags(s, 0); }
cudaError_t cudaStreamDestroy(cudaStream_t s)
{
	if(!s || s->dead) { return fail(cudaErrorInvalidResourceHandle, "cudaStreamDestroy"); }
	VC	h = host;
	drain(s);
	host = h;
	s->dead = true;
	--n_streams;
	streams.erase(std::find(streams.begin(), streams.end(), s));
	static std::deque<CUstream_st*>&	graves = *new std::deque<CUstream_st*>;
	graves.push_back(s);
	if(graves.size() > 1000) { delete graves.front(); graves.pop_front(); }
	if(!n_streams && allocs.empty())
	{
		for(auto& d : defaults) { drain(d.second); delete d.second; }
		defaults.clear();
		streams.clear();
		stream_count = 0;
		host.clear();
	}
	return cudaSuccess;
}
cudaError_t cudaStreamSynchronize(cudaStream_t st)
{
	CUstream_st*	s = stream_of(st);
	if(!s) { return cudaErrorInvalidResourceHandle; }
	drain(s);
	return cudaSuccess;
}
cudaError_t cudaStreamQuery(cudaStream_t st)
{
	CUstream_st*	s = stream_of(st);
	if(!s) { return cudaErrorInvalidResourceHandle; }
	if(!s->pending.empty()) { return cudaErrorNotReady; }
	join(host, s->last);
	return cudaSuccess;
}
cudaError_t cudaEventCreate(cudaEvent_t* e) { *e = new CUevent_st; return cudaSuccess; }
cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) { return cudaEventCreate(e); }
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t st)
{
	CUstream_st*	s = stream_of(st);
	if(!s) { return cudaErrorInvalidResourceHandle; }
	e->cmd = enqueue(s, "event", [](Cmd&) {});
	return cudaSuccess;
}
cudaError_t cudaEventSynchronize(cudaEvent_t e) { if(e->cmd) { wait_for({ e->cmd }); } return cudaSuccess; }
cudaError_t cudaStreamWaitEvent(cudaStream_t st, cudaEvent_t e, unsigned)
{
	CUstream_st*	s = stream_of(st);
	if(!s) { return cudaErrorInvalidResourceHandle; }
	if(e->cmd) { enqueue(s, "wait", [](Cmd&) {}, { e->cmd }); }
	return cudaSuccess;
}
cudaError_t cudaEventDestroy(cudaEvent_t e) { delete e; return cudaSuccess; }
cudaError_t cudaCreateTextureObject(cudaTextureObject_t* t, const cudaResourceDesc* r, const cudaTextureDesc* d, const cudaResourceViewDesc*)
{
	static cudaTextureObject_t	n = 100;
	auto&	l = r->res.linear;
	Tex		x;
	x.r = find(l.devPtr, l.sizeInBytes);
	x.p = (const char*)l.devPtr;
	x.bytes = l.sizeInBytes;
	x.bits = l.desc.x + l.desc.y + l.desc.z + l.desc.w;
	x.fp = l.desc.f == cudaChannelFormatKindFloat;
	x.bad = false;
	if(r->resType != cudaResourceTypeLinear || !x.r || (x.p - x.r->p) % 256) { return fail(cudaErrorInvalidValue, "cudaCreateTextureObject"); }
	if(x.r->device != device()) { report("texture of device %d on memory of device %d", device(), x.r->device); }
	if(d->readMode != cudaReadModeElementType || d->filterMode != cudaFilterModePoint || d->normalizedCoords) { report("a texture that does not deliver its elements"); }
	textures[*t = ++n] = x;
	return cudaSuccess;
}
cudaError_t cudaDestroyTextureObject(cudaTextureObject_t t)
{
	if(!textures.erase(t)) { return fail(cudaErrorInvalidValue, "cudaDestroyTextureObject"); }
	return cudaSuccess;
}

// ---------------------------------------------------------------- collective operations
struct ncclComm { int rank, size, device; std::shared_ptr<int> group; };
struct Coll { int kind; const void* src; void* dst; size_t n; ncclDataType_t t; ncclRedOp_t op; ncclComm* c; CUstream_st* s; };
static std::vector<Coll>&	colls = *new std::vector<Coll>;
static int		depth = 0;
const char* ncclGetErrorString(ncclResult_t r) { return r ? "error" : "no error"; }
ncclResult_t ncclCommInitAll(ncclComm_t* c, int n, const int* dev)
{
	std::set<int>	seen;
	auto			g = std::make_shared<int>(0);
	for(int i = 0; i != n; ++i)
	{
		if(!seen.insert(dev[i]).second) { report("two ranks on one device"); return ncclInvalidUsage; }
		c[i] = new ncclComm{ i, n, dev[i], g };
	}
	return ncclSuccess;
}
ncclResult_t ncclCommDestroy(ncclComm_t c) { delete c; return ncclSuccess; }
ncclResult_t ncclGroupStart() { ++depth; return ncclSuccess; }
static ncclResult_t flush()
{
	std::vector<Coll>	v;
	v.swap(colls);
	while(!v.empty())
	{
		// one operation of every rank
		std::vector<Coll>	g;
		for(int r = 0; r != v[0].c->size; ++r)
		{
			auto	i = std::find_if(v.begin(), v.end(), [&](const Coll& x) { return x.c->rank == r; });
			if(i == v.end()) { report("a collective operation is not called by every rank"); return ncclInvalidUsage; }
			g.push_back(*i);
			v.erase(i);
		}
		size_t	es = g[0].t == ncclFloat64 ? 8 : g[0].t == ncclFloat32 || g[0].t == ncclInt32 ? 4 : 1;
		std::vector<std::shared_ptr<Cmd>>	first;
		for(auto& x : g)
		{
			if(x.n != g[0].n || x.kind != g[0].kind || x.t != g[0].t) { report("ranks of a collective operation do not agree"); return ncclInvalidArgument; }
			if(x.s->device != x.c->device) { report("a collective operation on a stream of another device"); return ncclInvalidArgument; }
			size_t	dn = x.n * es * (x.kind == 0 ? g.size() : 1);
			Region	*a = find(x.src, x.n * es), *b = find(x.dst, dn);
			if(!a || !b || a->device != x.c->device || b->device != x.c->device) { report("a collective operation outside of the memory of its device"); return ncclInvalidArgument; }
			if(x.kind == 0 && (char*)x.src < (char*)x.dst + dn && (char*)x.dst < (char*)x.src + x.n * es && (char*)x.src != (char*)x.dst + x.c->rank * x.n * es) { report("a gather in place from a wrong place"); }
			first.push_back(enqueue(x.s, "collective", [](Cmd&) {}));
		}
		auto	work = enqueue(g[0].s, "collective", [=](Cmd& c)
		{
			std::vector<std::vector<char>>	in;
			for(auto& x : g)
			{
				cells(*find(x.src, 1), (const char*)x.src, x.n * es, c, false, "collective");
				in.emplace_back((const char*)x.src, (const char*)x.src + x.n * es);
			}
			std::vector<char>	out;
			if(g[0].kind == 0) { for(auto& i : in) { out.insert(out.end(), i.begin(), i.end()); } }
			else
			{
				out = in[0];
				for(size_t r = 1; r != in.size(); ++r) for(size_t k = 0; k != g[0].n; ++k)
				{
					if(es == 8) { double a, b; memcpy(&a, &out[k * 8], 8); memcpy(&b, &in[r][k * 8], 8); a = g[0].op == ncclSum ? a + b : g[0].op == ncclMax ? std::max(a, b) : g[0].op == ncclMin ? std::min(a, b) : a * b; memcpy(&out[k * 8], &a, 8); }
					else { float a, b; memcpy(&a, &out[k * 4], 4); memcpy(&b, &in[r][k * 4], 4); a = g[0].op == ncclSum ? a + b : g[0].op == ncclMax ? std::max(a, b) : g[0].op == ncclMin ? std::min(a, b) : a * b; memcpy(&out[k * 4], &a, 4); }
				}
			}
			for(auto& x : g)
			{
				cells(*find(x.dst, 1), (const char*)x.dst, out.size(), c, true, "collective");
				memcpy(x.dst, out.data(), out.size());
			}
		}, first);
		for(auto& x : g) { if(x.s != g[0].s) { enqueue(x.s, "collective", [](Cmd&) {}, { work }); } }
	}
	return ncclSuccess;
}
ncclResult_t ncclGroupEnd() { return --depth ? ncclSuccess : flush(); }
static ncclResult_t coll(Coll c)
{
	if(!c.s) { return ncclInvalidArgument; }
	colls.push_back(c);
	return depth ? ncclSuccess : flush();
}
ncclResult_t ncclAllGather(const void* s, void* d, size_t n, ncclDataType_t t, ncclComm_t c, cudaStream_t st) { return coll({ 0, s, d, n, t, ncclSum, c, stream_of(st) }); }
ncclResult_t ncclAllReduce(const void* s, void* d, size_t n, ncclDataType_t t, ncclRedOp_t o, ncclComm_t c, cudaStream_t st) { return coll({ 1, s, d, n, t, o, c, stream_of(st) }); }
