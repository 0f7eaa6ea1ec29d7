// OpenMP runtime under control of the explorer. Team members and tasks are fibers of one process thread; at every
// runtime call which another schedule could order differently the explorer decides who continues. All memory accesses
// of the instrumented code (-fsanitize=thread callbacks) are checked for data races with vector clocks: without a race
// the code between two runtime calls can not observe any other order, so the explored schedules stand for all.
#include "mcomp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <deque>
#include <map>
#include <vector>
#include <new>
#include <algorithm>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);

typedef unsigned long long ull;

namespace mcomp
{
int (*choose)(int n) = nullptr;
Stats stats;

namespace
{
enum { MAXW = 8 };
int			threads = 2;
std::string	err;
size_t		exe_base = 0;

struct VC
{
	uint32_t c[MAXW];
	VC() { memset(c, 0, sizeof c); }
	void join(const VC& o) { for(int i = 0; i != MAXW; ++i) { c[i] = std::max(c[i], o.c[i]); } }
};

struct Ctx;
struct Task
{
	void		(*fn)(void*) = nullptr;
	void*		data = nullptr;
	void*		block = nullptr;
	VC			born, children_end;
	Task*		parent = nullptr;
	int			children = 0;
	bool		tied = true;
	struct Group* group = nullptr;
};
struct Group { Group* up; int running; VC end; };

struct Loop { bool up, done; ull next, end, incr, chunk; int kind; /* 0 static 1 dynamic 2 guided */ std::map<int, ull> round; bool taken; };

//! Something that is being executed by a worker: its implicit task or an explicit one
struct Ctx
{
	void*		sp = nullptr;
	Task*		task = nullptr;
	int			serial = 0;			// nested inactive regions
	std::vector<Loop> sloops;		// loops of inactive regions
	Group*		group = nullptr;
};

enum Wait { RUN, BARRIER, TASKWAIT, GROUPWAIT, LOCK, SIBLINGS, FINAL };
struct Worker
{
	std::vector<Ctx*>	stack;
	std::vector<Wait>	why;		// of every element of the stack
	VC					vc;
	size_t				ws = 0;
	uint64_t			barrier = 0;
	struct Lock*		lock = nullptr;
	int					spins = 0;
	void*				copyprivate = nullptr;
};
struct Lock { bool held = false; int owner = -1; int depth = 0; VC vc; };

struct WS { bool inited = false, single = false; Loop loop; void* cp = nullptr; };

struct Team
{
	int					n;
	void				(*fn)(void*);
	void*				data;
	std::vector<Worker>	w;
	std::deque<Task*>	ready;
	int					unfinished = 0;
	uint64_t			released = 0;
	int					arrived = 0;
	std::deque<WS>		ws;
	int					cur = 0;
	VC					all_end;
	std::vector<Task*>	tasks;
	std::vector<Ctx*>	ctxs;
};
Team*		team = nullptr;
Ctx			base;				// outside of all regions
std::map<const void*, Lock>	locks;
Lock		atomic_lock, critical_lock;
uint64_t	generation = 1;

// The runtime's own containers share instrumented template code with the program: nothing is recorded meanwhile
int			quiet = 0;
struct Quiet { int old; Quiet() : old(quiet) { quiet = 1; } ~Quiet() { quiet = old; } };
struct Loud { int old; Loud() : old(quiet) { quiet = 0; } ~Loud() { quiet = old; } };
void call(void (*fn)(void*), void* d) { Loud l; fn(d); }

inline Ctx* self() { return team ? team->w[team->cur].stack.back() : &base; }
inline Worker& me() { return team->w[team->cur]; }
inline bool serial() { return !team || self()->serial; }

// ---- stacks
enum : size_t { STACK = 256 << 10, ARENA = size_t(4) << 30 };
char*		arena = nullptr;
size_t		arena_pos = 0;
char* new_stack()
{
	if(!arena)
	{
		arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(arena == MAP_FAILED) { abort(); }
	}
	if(arena_pos + STACK > ARENA) { fprintf(stderr, "out of stacks\n"); abort(); }
	char* s = arena + arena_pos;
	arena_pos += STACK;
	return s;
}

extern "C" void mc_switch(void** from, void** to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq (%rsi), %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");

void prepare(Ctx* c, void (*entry)())
{
	char*	top = new_stack() + STACK - 64;
	void**	p = (void**)((uintptr_t)top & ~uintptr_t(15));
	*--p = nullptr;					// alignment: entry sees rsp = 8 mod 16
	*--p = (void*)entry;
	for(int i = 0; i != 6; ++i) { *--p = nullptr; }
	c->sp = p;
}

// ---- thread local storage of the executable, one copy per worker
char*		tls_start = nullptr;
size_t		tls_size = 0;
const char*	tls_image = nullptr;
size_t		tls_image_size = 0;
std::vector<char> tls_saved[MAXW];
int			tls_owner = 0;
int on_phdr(dl_phdr_info* i, size_t, void*)
{
	exe_base = i->dlpi_addr;
	for(int k = 0; k != i->dlpi_phnum; ++k)
	{
		const ElfW(Phdr)& p = i->dlpi_phdr[k];
		if(p.p_type == PT_TLS && p.p_memsz)
		{
			char*	fs;
			asm("movq %%fs:0, %0" : "=r"(fs));
			size_t	al = p.p_align ? p.p_align : 1;
			tls_size = (p.p_memsz + al - 1) / al * al;
			tls_start = fs - tls_size;
			tls_image = (const char*)(i->dlpi_addr + p.p_vaddr);
			tls_image_size = p.p_filesz;
		}
	}
	return 1;
}
void tls_to(int w)
{
	if(!tls_size || w == tls_owner) { return; }
	tls_saved[tls_owner].assign(tls_start, tls_start + tls_size);
	if(tls_saved[w].empty())
	{
		tls_saved[w].assign(tls_size, 0);
		memcpy(tls_saved[w].data(), tls_image, tls_image_size);
	}
	memcpy(tls_start, tls_saved[w].data(), tls_size);
	tls_owner = w;
}

// ---- accesses
struct Rec { uint32_t clock; uint8_t worker, mask; bool write, atomic; void* pc; };
struct Cell { uint64_t key, gen; uint32_t n, cap; Rec* r; };
Cell*		table = nullptr;
size_t		table_size = 0, table_used = 0;

Cell* lookup(uint64_t key);
void grow()
{
	Cell*	old = table;
	size_t	n = table_size;
	table_size = n ? n * 2 : 1 << 14;
	table = (Cell*)__libc_calloc(table_size, sizeof(Cell));
	table_used = 0;
	for(size_t i = 0; i != n; ++i)
	{
		if(!old[i].r) { continue; }
		if(old[i].gen != generation) { __libc_free(old[i].r); continue; }
		Cell* c = lookup(old[i].key);
		__libc_free(c->r);
		*c = old[i];
	}
	__libc_free(old);
}
Cell* lookup(uint64_t key)
{
	if(2 * table_used >= table_size) { grow(); }
	size_t	i = (key * 0x9E3779B97F4A7C15ULL) >> 20 & (table_size - 1);
	while(table[i].r && table[i].key != key) { i = (i + 1) & (table_size - 1); }
	Cell*	c = table + i;
	if(!c->r)
	{
		c->r = (Rec*)__libc_malloc(4 * sizeof(Rec));
		c->cap = 4;
		c->key = key;
		c->n = 0;
		c->gen = generation;
		++table_used;
	}
	if(c->gen != generation) { c->gen = generation; c->n = 0; }
	return c;
}

void report(const std::string& s) { if(err.empty()) { err = s; } }

void touch(uint64_t key, uint8_t mask, bool write, bool atomic, void* pc)
{
	Worker&	w = me();
	uint8_t	id = team->cur;
	Cell*	c = lookup(key);
	uint32_t k = 0;
	for(uint32_t i = 0; i != c->n; ++i)
	{
		Rec&	r = c->r[i];
		bool	before = r.worker == id || r.clock <= w.vc.c[r.worker];
		if(!before && (r.mask & mask) && (r.write || write) && !(r.atomic && atomic))
		{
			char	b[300];
			snprintf(b, sizeof b, "data race: %s by thread %d at @%zx and %s by thread %d at @%zx",
					 r.write ? "write" : "read", r.worker, (size_t)r.pc - exe_base - 1, write ? "write" : "read", id, (size_t)pc - exe_base - 1);
			report(b);
		}
		// ordered before this access and not stronger: this one stands for it
		if(before && (r.mask & ~mask) == 0 && (write || !r.write) && (!atomic || r.atomic)) { continue; }
		c->r[k++] = r;
	}
	c->n = k;
	if(c->n == c->cap)
	{
		c->cap *= 2;
		c->r = (Rec*)__libc_realloc(c->r, c->cap * sizeof(Rec));
	}
	c->r[c->n++] = Rec{ w.vc.c[id], id, mask, write, atomic, pc };
}

void access(const void* a, size_t n, bool write, void* pc, bool atomic = false)
{
	if(quiet || !team || !n) { return; }
	Quiet q;
	if((char*)a >= tls_start && (char*)a < tls_start + tls_size) { return; }
	++stats.accesses;
	uint64_t	b = (uint64_t)a, e = b + n;
	for(uint64_t g = b & ~7ULL; g < e; g += 8)
	{
		int		lo = b > g ? b - g : 0, hi = e < g + 8 ? e - g : 8;
		touch(g, (uint8_t)(((1 << hi) - 1) & ~((1 << lo) - 1)), write, atomic, pc);
	}
}

void tick() { ++me().vc.c[team->cur]; }

// ---- scheduling
bool descendant(Task* t, Task* of)
{
	for(; t; t = t->parent) { if(t == of) { return true; } }
	return false;
}

bool may_take(const Worker& w, Task* t)
{
	for(size_t i = 0; i != w.stack.size(); ++i)
	{
		if(w.why[i] != BARRIER && w.why[i] != FINAL && w.stack[i]->task->tied && !descendant(t, w.stack[i]->task)) { return false; }
	}
	return true;
}

bool satisfied(const Worker& w)
{
	switch(w.why.back())
	{
	case RUN: return true;
	case BARRIER: return team->released > w.barrier;
	case TASKWAIT: case SIBLINGS: return w.stack.back()->task->children == 0;
	case GROUPWAIT: return w.stack.back()->group->running == 0;
	case LOCK: return !w.lock->held;
	case FINAL: return false;
	}
	return false;
}

void check_barrier()
{
	if(team->arrived == team->n && team->unfinished == 0)
	{
		VC	all;
		for(auto& w : team->w) { all.join(w.vc); }
		all.join(team->all_end);
		for(int i = 0; i != team->n; ++i) { team->w[i].vc.join(all); ++team->w[i].vc.c[i]; }
		team->arrived = 0;
		++team->released;
	}
}

void task_entry();

struct Option { int worker; Task* task; };

void go(const Option& o)
{
	Ctx*	from = self();
	Worker&	w = team->w[o.worker];
	if(o.task)
	{
		team->ready.erase(std::find(team->ready.begin(), team->ready.end(), o.task));
		Ctx*	c = new Ctx;
		c->task = o.task;
		c->group = o.task->group;
		team->ctxs.push_back(c);
		prepare(c, task_entry);
		w.stack.push_back(c);
		w.why.push_back(RUN);
		w.vc.join(o.task->born);
		++w.vc.c[o.worker];
	}
	team->cur = o.worker;
	tls_to(o.worker);
	Ctx*	to = self();
	if(from != to) { mc_switch(&from->sp, &to->sp); }
}

//! 'fresh' is a task the current worker has just created and may execute at once
void point(Task* fresh = nullptr)
{
	for(;;)
	{
		check_barrier();
		++stats.points;
		static std::vector<Option> opt;
		opt.clear();
		int		cur = team->cur;
		Worker&	c = me();
		bool	tired = c.spins > 200;
		if(satisfied(c) && !tired) { opt.push_back({ cur, nullptr }); }
		for(int i = 1; i != team->n; ++i)
		{
			int		n = (cur + i) % team->n;
			Worker&	w = team->w[n];
			if(satisfied(w)) { opt.push_back({ n, nullptr }); continue; }
			if(w.why.back() == BARRIER || w.why.back() == FINAL || w.why.back() == TASKWAIT || w.why.back() == GROUPWAIT || w.why.back() == SIBLINGS)
			{
				for(Task* t : team->ready) { if(may_take(w, t)) { opt.push_back({ n, t }); } }
			}
		}
		if(!satisfied(c) && c.why.back() != LOCK)
		{
			for(Task* t : team->ready) { if(may_take(c, t)) { opt.push_back({ cur, t }); } }
		}
		else if(fresh && c.why.back() == RUN && std::find(team->ready.begin(), team->ready.end(), fresh) != team->ready.end()) { opt.push_back({ cur, fresh }); }
		if(opt.empty() && tired) { opt.push_back({ cur, nullptr }); }
		if(opt.empty())
		{
			fprintf(stderr, "deadlock in a parallel region\n");
			abort();
		}
		c.spins = 0;
		int		k = opt.size() > 1 && choose ? choose(opt.size()) : 0;
		Option	o = opt[k];
		go(o);
		// somebody came back to this context
		if(satisfied(me())) { return; }
		fresh = nullptr;
	}
}

void wait(Wait y)
{
	Worker&	w = me();
	w.why.back() = y;
	point();
	me().why.back() = RUN;
}

void finish_task(Task* t)
{
	Worker&	w = me();
	w.vc.join(t->children_end);		// harmless: only orders what the parent may wait for
	if(t->parent) { --t->parent->children; t->parent->children_end.join(w.vc); }
	if(t->group) { --t->group->running; t->group->end.join(w.vc); }
	team->all_end.join(w.vc);
	--team->unfinished;
	tick();
}

void task_entry()
{
	Ctx*	c = self();
	Task*	t = c->task;
	call(t->fn, t->data);
	finish_task(t);
	Worker&	w = me();
	w.stack.pop_back();
	w.why.pop_back();
	// the context below waits (or created this one): let the schedule decide. This fiber is never resumed.
	// 'point' works on the state of the worker, its frame lives on this stack which stays mapped until the region ends
	static void* dead;
	for(;;)
	{
		check_barrier();
		// leave through the context below, which repeats the decision
		Ctx*	to = self();
		mc_switch(&dead, &to->sp);
	}
}

std::vector<void*>* deferred = nullptr;

void enter_barrier(Wait y = BARRIER)
{
	Worker&	w = me();
	w.barrier = team->released;
	++team->arrived;
	tick();
	wait(y);
}

struct Init { Init() { dl_iterate_phdr(on_phdr, nullptr); } };

void run_region(void (*fn)(void*), void* data, unsigned nt, const Loop* loop)
{
	Quiet	q_;
	static Init init;
	int	n = nt ? std::min<int>(nt, MAXW) : threads;
	++stats.regions;
	if(team || n == 1)
	{
		Ctx*	c = self();
		++c->serial;
		if(loop) { c->sloops.push_back(*loop); }
		call(fn, data);
		--c->serial;
		return;
	}
	static Team	t;
	t = Team();
	t.n = n;
	t.fn = fn;
	t.data = data;
	t.w.resize(n);
	for(int i = 0; i != n; ++i)
	{
		Ctx*	c = new Ctx;
		c->task = new Task;
		t.w[i].stack.push_back(c);
		t.w[i].why.push_back(RUN);
		for(int k = 0; k != n; ++k) { t.w[i].vc.c[k] = 1; }
		t.w[i].vc.c[i] = 2;
	}
	if(loop) { t.ws.push_back(WS()); t.ws[0].inited = true; t.ws[0].loop = *loop; }
	++generation;
	arena_pos = 0;
	team = &t;
	auto entry = []() { call(team->fn, team->data); enter_barrier(FINAL); abort(); };
	for(int i = 1; i != n; ++i) { prepare(t.w[i].stack[0], entry); }
	point();
	call(fn, data);
	enter_barrier();
	// the others have reached the end of the region as well: nothing but the end of their fibers is left
	tls_to(0);
	team = nullptr;
	for(auto& w : t.w) { delete w.stack[0]->task; delete w.stack[0]; }
	for(Ctx* c : t.ctxs) { delete c; }
	for(Task* k : t.tasks) { __libc_free(k->block); delete k; }
	for(void* p : *deferred) { __libc_free(p); }
	deferred->clear();
	for(Task* k : t.ready) { (void)k; report("task left over"); }
}
} // namespace

void set_threads(int n) { threads = n; }
void reset() { err.clear(); }
const std::string& error() { return err; }
} // namespace mcomp

using namespace mcomp;

// ---------------------------------------------------------------- OpenMP
extern "C" {
int omp_get_thread_num() { Quiet q_; return serial() ? 0 : team->cur; }
int omp_get_num_threads() { Quiet q_; return serial() ? 1 : team->n; }
int omp_get_max_threads() { Quiet q_; return threads; }
int omp_get_num_procs() { Quiet q_; return 8; }
int omp_in_parallel() { Quiet q_; return team != nullptr; }
int omp_get_level() { Quiet q_; return (team ? 1 : 0) + self()->serial; }
int omp_get_active_level() { Quiet q_; return team ? 1 : 0; }
int omp_get_dynamic() { Quiet q_; return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { Quiet q_; return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels() { Quiet q_; return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_num_threads(int n) { Quiet q_; threads = std::max(1, std::min<int>(n, MAXW)); }
int omp_in_final() { Quiet q_; return 0; }
double omp_get_wtime() { Quiet q_; timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { Quiet q_; return 1e-9; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { Quiet q_; run_region(fn, data, nt, nullptr); }
void GOMP_barrier() { Quiet q_; if(!serial()) { enter_barrier(); } }
bool GOMP_barrier_cancel() { Quiet q_; GOMP_barrier(); return false; }
bool GOMP_cancellation_point(int) { Quiet q_; return false; }
bool GOMP_cancel(int, bool) { Quiet q_; return false; }

static WS& next_ws()
{
	Worker&	w = me();
	while(team->ws.size() <= w.ws) { team->ws.push_back(WS()); }
	return team->ws[w.ws++];
}

bool GOMP_single_start()
{
	Quiet q_;
	if(serial()) { return true; }
	point();
	WS&	s = next_ws();
	bool first = !s.single;
	s.single = true;
	return first;
}
void* GOMP_single_copy_start()
{
	Quiet q_;
	if(serial()) { return nullptr; }
	point();
	WS&	s = next_ws();
	if(!s.single) { s.single = true; me().copyprivate = &s; return nullptr; }
	size_t	ix = me().ws - 1;
	enter_barrier();
	return team->ws[ix].cp;
}
void GOMP_single_copy_end(void* d)
{
	Quiet q_;
	if(serial()) { return; }
	((WS*)me().copyprivate)->cp = d;
	enter_barrier();
}

static Loop make_loop(bool up, ull s, ull e, ull incr, ull chunk, int kind)
{
	Quiet	q_;
	Loop l = {};
	l.up = up; l.next = s; l.end = e; l.incr = incr; l.chunk = chunk ? chunk : 1; l.kind = kind;
	if(kind == 0 && !chunk && !serial())
	{
		ull	n = up ? (e > s ? (e - s + incr - 1) / incr : 0) : (s > e ? (s - e - incr - 1) / (0 - incr) : 0);
		l.chunk = (n + team->n - 1) / team->n;
		if(!l.chunk) { l.chunk = 1; }
	}
	return l;
}
//! next piece in units of the loop variable
static bool take(Loop& l, int who, ull* a, ull* b, bool sgn)
{
	auto before = [&](ull x, ull y) { return sgn ? (long)x < (long)y : x < y; };
	bool more = l.up ? before(l.next, l.end) : before(l.end, l.next);
	if(!more) { return false; }
	++stats.chunks;
	ull	left = l.up ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / (0 - l.incr);
	ull	n = l.chunk;
	if(l.kind == 2) { n = std::max<ull>(l.chunk, (left + threads - 1) / threads); }
	if(n > left) { n = left; }
	*a = l.next;
	*b = l.next + n * l.incr;
	if(n == left) { *b = l.end; }
	l.next = n == left ? l.end : *b;
	return true;
}
static bool take_static(Loop& l, int who, int n, ull* a, ull* b, bool sgn)
{
	ull	r = l.round[who]++;
	auto before = [&](ull x, ull y) { return sgn ? (long)x < (long)y : x < y; };
	ull	total = l.up ? (before(l.next, l.end) ? (l.end - l.next + l.incr - 1) / l.incr : 0)
					 : (before(l.end, l.next) ? (l.next - l.end - l.incr - 1) / (0 - l.incr) : 0);
	ull	first = (r * n + who) * l.chunk;
	if(first >= total) { return false; }
	ull	last = std::min(total, first + l.chunk);
	*a = l.next + first * l.incr;
	*b = last == total ? l.end : l.next + last * l.incr;
	return true;
}
static bool loop_next(ull* a, ull* b, bool sgn)
{
	Quiet	q_;
	if(serial())
	{
		auto&	s = self()->sloops;
		if(take(s.back(), 0, a, b, sgn)) { return true; }
		s.pop_back();
		return false;
	}
	Loop&	l0 = team->ws[me().ws - 1].loop;
	if(l0.kind == 0) { return take_static(l0, team->cur, team->n, a, b, sgn); }
	point();
	return take(team->ws[me().ws - 1].loop, team->cur, a, b, sgn);
}
static bool loop_start(const Loop& l, ull* a, ull* b, bool sgn)
{
	Quiet	q_;
	if(serial()) { self()->sloops.push_back(l); return loop_next(a, b, sgn); }
	WS&	w = next_ws();
	if(!w.inited) { w.inited = true; w.loop = l; }
	return loop_next(a, b, sgn);
}

#define LOOPS(NAME, KIND) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(make_loop(i > 0, s, e, i, c, KIND), (ull*)a, (ull*)b, true); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next((ull*)a, (ull*)b, true); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return loop_start(make_loop(up, s, e, i, c, KIND), a, b, false); } \
bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return loop_next(a, b, false); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) \
{ Quiet q_; Loop l = make_loop(i > 0, s, e, i, c, KIND); if(KIND == 0 && !c) { int n = nt ? nt : threads; ull t = i > 0 ? (e > s ? (e - s + i - 1) / i : 0) : 1; l.chunk = std::max<ull>(1, (t + n - 1) / n); } run_region(fn, d, nt, &l); }
LOOPS(static, 0)
LOOPS(dynamic, 1)
LOOPS(nonmonotonic_dynamic, 1)
LOOPS(guided, 2)
LOOPS(nonmonotonic_guided, 2)
#define LOOPS_RT(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return loop_start(make_loop(i > 0, s, e, i, 1, 1), (ull*)a, (ull*)b, true); } \
bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next((ull*)a, (ull*)b, true); } \
bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return loop_start(make_loop(up, s, e, i, 1, 1), a, b, false); } \
bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return loop_next(a, b, false); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { Quiet q_; Loop l = make_loop(i > 0, s, e, i, 1, 1); run_region(fn, d, nt, &l); }
LOOPS_RT(runtime)
LOOPS_RT(nonmonotonic_runtime)
LOOPS_RT(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { Quiet q_; GOMP_barrier(); }
bool GOMP_loop_end_cancel() { Quiet q_; GOMP_barrier(); return false; }

unsigned GOMP_sections_next() { Quiet q_; ull a, b; return loop_next(&a, &b, false) ? a : 0; }
unsigned GOMP_sections_start(unsigned n) { Quiet q_; ull a, b; return loop_start(make_loop(true, 1, n + 1, 1, 1, 1), &a, &b, false) ? a : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { Quiet q_; Loop l = make_loop(true, 1, n + 1, 1, 1, 1); run_region(fn, d, nt, &l); }
void GOMP_sections_end() { Quiet q_; GOMP_barrier(); }
bool GOMP_sections_end_cancel() { Quiet q_; GOMP_barrier(); return false; }
void GOMP_sections_end_nowait() {}

static void acquire(Lock& l)
{
	if(!team) { return; }
	point();
	while(l.held)
	{
		me().lock = &l;
		wait(LOCK);
	}
	l.held = true;
	l.owner = team->cur;
	me().vc.join(l.vc);
}
static void release(Lock& l)
{
	if(!team) { return; }
	l.held = false;
	l.vc.join(me().vc);
	tick();
}
void GOMP_atomic_start() { Quiet q_; acquire(atomic_lock); }
void GOMP_atomic_end() { Quiet q_; release(atomic_lock); }
void GOMP_critical_start() { Quiet q_; acquire(critical_lock); }
void GOMP_critical_end() { Quiet q_; release(critical_lock); }
void GOMP_critical_name_start(void** p) { Quiet q_; acquire(locks[p]); }
void GOMP_critical_name_end(void** p) { Quiet q_; release(locks[p]); }
void omp_init_lock(void** p) { Quiet q_; locks[p] = Lock(); }
void omp_destroy_lock(void** p) { Quiet q_; locks.erase(p); }
void omp_set_lock(void** p) { Quiet q_; acquire(locks[p]); }
void omp_unset_lock(void** p) { Quiet q_; release(locks[p]); }
int omp_test_lock(void** p) { Quiet q_; if(team) { point(); if(locks[p].held) { return 0; } } acquire(locks[p]); return 1; }
void omp_init_nest_lock(void** p) { Quiet q_; locks[p] = Lock(); }
void omp_destroy_nest_lock(void** p) { Quiet q_; locks.erase(p); }
void omp_set_nest_lock(void** p) { Quiet q_; Lock& l = locks[p]; if(!(team && l.held && l.owner == team->cur)) { acquire(l); } ++l.depth; }
void omp_unset_nest_lock(void** p) { Quiet q_; Lock& l = locks[p]; if(--l.depth == 0) { release(l); } }
int pthread_mutex_lock(pthread_mutex_t* m)
{
	Quiet q_;
	static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
	if(team) { acquire(locks[m]); return 0; }
	return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	Quiet q_;
	static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	if(team) { release(locks[m]); return 0; }
	return real(m);
}
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}

void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool cond, unsigned flags, void**, int, void*)
{
	Quiet q_;
	++stats.tasks;
	size_t	al = align > 0 ? align : 1;
	char*	block = (char*)__libc_malloc(size + al + 16);
	char*	arg = (char*)(((uintptr_t)block + al - 1) / al * al);
	if(cpy) { Loud l; cpy(arg, data); }
	else { memcpy(arg, data, size); }
	if(serial() || !cond)
	{
		call(fn, arg);
		__libc_free(block);
		return;
	}
	if(flags & 8)					// dependences: wait for all earlier siblings, which satisfies them
	{
		if(self()->task->children) { wait(SIBLINGS); }
		me().vc.join(self()->task->children_end);
		call(fn, arg);
		__libc_free(block);
		return;
	}
	Task*	t = new Task;
	t->fn = fn;
	t->data = arg;
	t->block = block;
	t->parent = self()->task;
	t->tied = !(flags & 1);
	t->group = self()->group;
	if(t->group) { ++t->group->running; }
	++t->parent->children;
	t->born = me().vc;
	++team->unfinished;
	team->tasks.push_back(t);
	team->ready.push_back(t);
	tick();
	point(t);
}
void GOMP_taskwait()
{
	Quiet q_;
	if(serial()) { return; }
	if(self()->task->children) { wait(TASKWAIT); }
	me().vc.join(self()->task->children_end);
}
void GOMP_taskyield() { Quiet q_; if(!serial()) { point(); } }
void GOMP_taskgroup_start()
{
	Quiet q_;
	if(serial()) { return; }
	Group*	g = new Group{ self()->group, 0, VC() };
	self()->group = g;
}
void GOMP_taskgroup_end()
{
	Quiet q_;
	if(serial()) { return; }
	Group*	g = self()->group;
	if(g->running) { wait(GROUPWAIT); }
	me().vc.join(g->end);
	self()->group = g->up;
}
static void taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, ull num, ull start, ull end, ull step, bool up)
{
	ull	n = up ? (end - start + step - 1) / step : (start - end - step - 1) / (0 - step);
	ull	parts = num ? num : threads;
	if(flags & (1 << 9)) { parts = std::max<ull>(1, n / std::max<ull>(1, num)); }
	parts = std::max<ull>(1, std::min(parts, n));
	if(!(flags & (1 << 11))) { GOMP_taskgroup_start(); }
	for(ull i = 0; i != parts; ++i)
	{
		std::vector<char> b(size + align + 16);
		char*	arg = (char*)(((uintptr_t)b.data() + align - 1) / align * align);
		if(cpy) { Loud l; cpy(arg, data); }
		else { memcpy(arg, data, size); }
		((ull*)arg)[0] = start + n * i / parts * step;
		((ull*)arg)[1] = i + 1 == parts ? end : start + n * (i + 1) / parts * step;
		GOMP_task(fn, arg, nullptr, size, align, true, flags & 1, nullptr, 0, nullptr);
	}
	if(!(flags & (1 << 11))) { GOMP_taskgroup_end(); }
}
void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num, int, long s, long e, long step)
{
	Quiet q_;
	if(step > 0 ? s < e : s > e) { taskloop(fn, data, cpy, size, align, flags, num, s, e, step, step > 0); }
}
void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, unsigned flags, unsigned long num, int, ull s, ull e, ull step)
{
	Quiet q_;
	bool up = flags & (1 << 8);
	if(up ? s < e : s > e) { taskloop(fn, data, cpy, size, align, flags, num, s, e, step, up); }
}

// ---------------------------------------------------------------- memory
static void free_range(void* p);
void* malloc(size_t n) { return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void free(void* p)
{
	if(!p) { return; }
	if(team && deferred)
	{
		Quiet q;
		// not used again before the region ends: addresses stay unique
		Team*	t = team;
		team = nullptr;
		deferred->push_back(p);
		team = t;
		return;
	}
	__libc_free(p);
}
size_t malloc_usable_size(void*);
void* realloc(void* p, size_t n)
{
	if(!team || !p) { return __libc_realloc(p, n); }
	void*	q = __libc_malloc(n);
	memcpy(q, p, std::min(n, malloc_usable_size(p)));
	free(p);
	return q;
}

void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
#define PC __builtin_return_address(0)
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* a) { access(a, N, false, PC); } \
void __tsan_write##N(void* a) { access(a, N, true, PC); } \
void __tsan_unaligned_read##N(void* a) { access(a, N, false, PC); } \
void __tsan_unaligned_write##N(void* a) { access(a, N, true, PC); } \
void __tsan_volatile_read##N(void* a) { access(a, N, false, PC); } \
void __tsan_volatile_write##N(void* a) { access(a, N, true, PC); } \
void __tsan_unaligned_volatile_read##N(void* a) { access(a, N, false, PC); } \
void __tsan_unaligned_volatile_write##N(void* a) { access(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }

static std::map<const volatile void*, VC>* sync_vc()
{
	static std::map<const volatile void*, VC> m;
	return &m;
}
static void atomic_op(const volatile void* a, size_t n, bool write, int mo, void* pc)
{
	if(!team || quiet) { return; }
	Quiet q;
	++me().spins;
	int		spins = me().spins;
	point();
	me().spins = spins > 200 ? 0 : spins;
	{ Loud l; access((const void*)a, n, write, pc, true); }
	if(mo == 0) { return; }
	VC&	v = (*sync_vc())[a];
	if(mo != 3) { me().vc.join(v); }
	if(write && mo != 2 && mo != 1) { v.join(me().vc); tick(); }
}
#define ATOM(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int mo) { atomic_op(a, sizeof(T), false, mo, PC); return *a; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atomic_op(a, sizeof(T), true, mo, PC); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { atomic_op(a, sizeof(T), true, mo, PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { atomic_op(a, sizeof(T), true, mo, PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { atomic_op(a, sizeof(T), true, mo, PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { atomic_op(a, sizeof(T), true, mo, PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { atomic_op(a, sizeof(T), true, mo, PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { atomic_op(a, sizeof(T), true, mo, PC); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { atomic_op(a, sizeof(T), true, mo, PC); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { atomic_op(a, sizeof(T), true, mo, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { atomic_op(a, sizeof(T), true, mo, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { atomic_op(a, sizeof(T), true, mo, PC); T o = *a; if(o == c) { *a = v; } return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

static struct Start { Start() { mcomp::deferred = new std::vector<void*>; } } start_;
