// Interposition of the file system calls that change something. The definitions in the executable win over libc's for Qt and
// libstdc++ as well. Only paths below the scratch folder are ever affected.
#ifndef VERIF_IOHOOK_H
#define VERIF_IOHOOK_H
#include "common.h"
#include <errno.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/uio.h>

namespace io {

static const size_t ALL = size_t(-1) / 2;
enum Mode { OFF, COUNT, CRASH, FAIL };

struct Call { int kind; size_t len; };	// kind: 'w' write, 'o' open, 't' truncate, 'x' other

struct Ctl
{
	int		mode;
	size_t	n;				// mutating calls seen so far
	size_t	at;				// call to hit
	size_t	tear;			// bytes of that write that are carried out
	size_t	more;			// FAIL: number of later calls that fail too
	bool	same_file;		// FAIL: all later calls on the same file fail too
	size_t	file, hit_file;	// hash of the path of the current call and of the one hit
	bool	only_space;		// FAIL: only calls that need space (write, create) fail
	int		err;
	bool	hit;
	bool	reads;			// reading calls count too
	size_t	ncalls;
	Call	calls[4096];
};

inline Ctl& C()
{
	static Ctl* c = static_cast<Ctl*>(mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	return *c;
}

inline void off() { C().mode = OFF; }
inline void start(int mode, size_t at = 0, size_t tear = 0, int err = 0, size_t more = 0, bool reads = false, bool same_file = false)
{
	Ctl& c = C();
	c.reads = reads;
	c.n = 0; c.at = at; c.tear = tear; c.err = err; c.more = more; c.same_file = same_file; c.hit = false; c.ncalls = 0;
	c.mode = mode;
}

//! What to do with one call: -1 carry out, otherwise number of bytes to carry out before the fault
inline long decide(int kind, size_t len)
{
	Ctl& c = C();
	if(c.mode == OFF) { return -1; }
	size_t n = c.n++;
	if(c.ncalls < 4096) { c.calls[c.ncalls].kind = kind; c.calls[c.ncalls++].len = len; }
	if(c.mode == COUNT) { return -1; }
	if(n == c.at) { c.hit = true; c.hit_file = c.file; return static_cast<long>(std::min(c.tear, len)); }
	if(c.mode == FAIL && n > c.at && n - c.at <= c.more) { return 0; }
	if(c.mode == FAIL && c.same_file && n > c.at && c.file == c.hit_file) { return 0; }
	return -1;
}

inline bool ours(int fd)
{
	if(C().mode == OFF || fd <= 2) { return false; }
	char p[64], b[1024];
	snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
	ssize_t n = readlink(p, b, sizeof b - 1);
	if(n <= 0) { return false; }
	b[n] = 0;
	C().file = std::hash<std::string>()(b);
	return 0 == strncmp(b, mc::S().scratch.c_str(), mc::S().scratch.size());
}
inline bool ours(const char* path)
{
	if(C().mode != OFF) { C().file = std::hash<std::string>()(path); }
	return C().mode != OFF && 0 == strncmp(path, mc::S().scratch.c_str(), mc::S().scratch.size());
}

[[noreturn]] inline void die() { syscall(SYS_exit_group, 99); __builtin_unreachable(); }

inline ssize_t do_write(int fd, const void* p, size_t n)
{
	if(!ours(fd)) { return syscall(SYS_write, fd, p, n); }
	long k = decide('w', n);
	if(k < 0) { return syscall(SYS_write, fd, p, n); }
	if(C().mode == CRASH)
	{
		if(k) { syscall(SYS_write, fd, p, static_cast<size_t>(k)); }
		die();
	}
	if(k > 0) { return syscall(SYS_write, fd, p, static_cast<size_t>(k)); }
	errno = C().err;
	return -1;
}

template<class F> inline long simple(int kind, F f)
{
	long k = decide(kind, 0);
	if(k < 0) { return f(); }
	if(C().mode == CRASH) { die(); }
	errno = C().err;
	return -1;
}

inline int do_open(int dir, const char* path, int flags, mode_t mode)
{
	auto f = [&] { return syscall(SYS_openat, dir, path, flags | O_LARGEFILE, mode); };
	if(!ours(path)) { return f(); }
	bool mut = (flags & (O_CREAT | O_TRUNC)) != 0 || (flags & O_ACCMODE) != O_RDONLY;
	if(!mut) { return f(); }
	return simple('o', f);
}

} // namespace io

extern "C" {
ssize_t write(int fd, const void* p, size_t n) { return io::do_write(fd, p, n); }
ssize_t read(int fd, void* p, size_t n)
{
	if(!io::C().reads || !io::ours(fd)) { return syscall(SYS_read, fd, p, n); }
	long k = io::decide('r', n);
	if(k < 0 || io::C().mode != io::FAIL) { return syscall(SYS_read, fd, p, n); }
	if(k > 0) { return syscall(SYS_read, fd, p, (size_t)k); }
	errno = io::C().err;
	return -1;
}
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o)
{
	if(!io::ours(fd)) { return syscall(SYS_pwrite64, fd, p, n, o); }
	long k = io::decide('w', n);
	if(k < 0) { return syscall(SYS_pwrite64, fd, p, n, o); }
	if(io::C().mode == io::CRASH) { if(k) { syscall(SYS_pwrite64, fd, p, (size_t)k, o); } io::die(); }
	if(k > 0) { return syscall(SYS_pwrite64, fd, p, (size_t)k, o); }
	errno = io::C().err;
	return -1;
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return pwrite64(fd, p, n, o); }
ssize_t writev(int fd, const iovec* v, int n)
{
	if(!io::ours(fd)) { return syscall(SYS_writev, fd, v, n); }
	std::string all;
	for(int i = 0; i != n; ++i) { all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); }
	return io::do_write(fd, all.data(), all.size());
}
static mode_t get_mode(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; }
#define OPEN_FN(NAME) int NAME(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = get_mode(flags, ap); va_end(ap); return io::do_open(AT_FDCWD, p, flags, m); }
OPEN_FN(open)
OPEN_FN(open64)
#define OPENAT_FN(NAME) int NAME(int d, const char* p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = get_mode(flags, ap); va_end(ap); return io::do_open(d, p, flags, m); }
OPENAT_FN(openat)
OPENAT_FN(openat64)
int creat(const char* p, mode_t m) { return io::do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int ftruncate64(int fd, off64_t l) { auto f = [&] { return syscall(SYS_ftruncate, fd, l); }; return io::ours(fd) ? io::simple('t', f) : f(); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int truncate64(const char* p, off64_t l) { auto f = [&] { return syscall(SYS_truncate, p, l); }; return io::ours(p) ? io::simple('t', f) : f(); }
int truncate(const char* p, off_t l) { return truncate64(p, l); }
int rename(const char* a, const char* b) { auto f = [&] { return syscall(SYS_rename, a, b); }; return io::ours(b) ? io::simple('x', f) : f(); }
int renameat2(int da, const char* a, int db, const char* b, unsigned fl) { auto f = [&] { return syscall(SYS_renameat2, da, a, db, b, fl); }; return io::ours(b) ? io::simple('x', f) : f(); }
int unlink(const char* p) { auto f = [&] { return syscall(SYS_unlink, p); }; return io::ours(p) ? io::simple('x', f) : f(); }
int mkdir(const char* p, mode_t m) { auto f = [&] { return syscall(SYS_mkdir, p, m); }; return io::ours(p) ? io::simple('x', f) : f(); }
}
#endif
