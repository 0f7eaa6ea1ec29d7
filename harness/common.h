// Shared scaffolding of the explorers: case enumeration, sharding, choice trees, reporting.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <QtCore/QtCore>

namespace mc {

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

inline std::string jstr(const std::string& s)
{
	std::string r = "\"";
	for(unsigned char c : s)
	{
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if(c < 32) { r += fmt("\\u%04x", c); }
		else { r += c; }
	}
	return r + "\"";
}

struct State
{
	std::string			tier = "quick";
	size_t				shard = 0, nshards = 1;
	std::string			only;
	bool				has_only = false;
	std::string			scratch;
	uint64_t			counter = 0;			// all cases enumerated
	uint64_t			evaluations = 0;		// cases executed by this shard
	uint64_t			states = 0, transitions = 0, traces = 0;
	std::set<uint64_t>	distinct;
	std::map<std::string, uint64_t> groups;
	std::map<std::string, uint64_t> extra;
	std::vector<std::string> samples;
	uint64_t			violations = 0;
	std::string			current;
	char*				cur_map = nullptr;
	bool				exhaustive = true;
	double				case_cpu_limit = 60;
};

inline State& S()
{
	static State s;
	return s;
}

inline bool thorough() { return S().tier == "thorough"; }

inline void quiet_handler(QtMsgType, const QMessageLogContext&, const QString&) {}

inline void emit_line(const std::string& s)
{
	std::string l = "@@" + s + "\n";
	fflush(stdout);
	ssize_t r = ::write(1, l.data(), l.size());
	(void)r;
}

inline void on_cpu_limit(int)
{
	static char buf[1200];
	int n = snprintf(buf, sizeof buf, "@@{\"type\":\"violation\",\"case\":\"%s\",\"msg\":\"does not terminate: case used its CPU limit\"}\n",
					 S().cur_map ? S().cur_map : "");
	ssize_t r = ::write(1, buf, n);
	(void)r;
	_exit(78);
}

inline void arm()
{
	itimerval t = {};
	t.it_value.tv_sec = static_cast<time_t>(S().case_cpu_limit);
	setitimer(ITIMER_PROF, &t, nullptr);
}

inline uint64_t hash(const std::string& s)
{
	uint64_t h = 1469598103934665603ULL;
	for(unsigned char c : s) { h = (h ^ c) * 1099511628211ULL; }
	return h;
}

//! Collects the messages printed while it exists
struct Printed
{
	static std::string& text() { static std::string t; return t; }
	static void handler(QtMsgType, const QMessageLogContext&, const QString& m) { text() += m.toStdString() + "\n"; }
	QtMessageHandler	old;
	Printed() { text().clear(); old = qInstallMessageHandler(handler); }
	~Printed() { qInstallMessageHandler(old); }
};

inline void init(int argc, char** argv)
{
	State& s = S();
	for(int i = 1; i + 1 < argc; ++i)
	{
		std::string a = argv[i];
		if(a == "--tier") { s.tier = argv[i + 1]; }
		if(a == "--shard") { unsigned long x, y; sscanf(argv[i + 1], "%lu/%lu", &x, &y); s.shard = x; s.nshards = y; }
		if(a == "--only") { s.only = argv[i + 1]; s.has_only = true; }
	}
	const char* sc = getenv("VERIF_SCRATCH");
	static char tmpl[] = "/tmp/verif-manual-XXXXXX";
	s.scratch = sc ? sc : mkdtemp(tmpl);
	int fd = ::open((s.scratch + "/current_case").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	if(fd >= 0 && 0 == ftruncate(fd, 4096))
	{
		s.cur_map = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		::close(fd);
	}
	signal(SIGPROF, on_cpu_limit);
	arm();
	if(!getenv("VERIF_QDEBUG")) { qInstallMessageHandler(quiet_handler); }
}

//! Enumerate one case. Returns true if this process has to run it.
inline bool begin(const std::string& id)
{
	State& s = S();
	uint64_t n = s.counter++;
	if(s.has_only)
	{
		if(id != s.only) { return false; }
	}
	else if(n % s.nshards != s.shard) { return false; }
	if(!s.has_only && s.violations >= 5) { return false; }
	s.current = id;
	if(s.cur_map)
	{
		size_t l = std::min<size_t>(id.size(), 4000);
		memcpy(s.cur_map, id.data(), l);
		s.cur_map[l] = 0;
	}
	++s.evaluations;
	s.distinct.insert(hash(id));
	size_t c = id.find(':');
	++s.groups[id.substr(0, c)];
	if(s.samples.size() < 2 && s.groups[id.substr(0, c)] == 1) { s.samples.push_back(id); }
	arm();
	return true;
}

inline void fail(const std::string& msg, const std::string& key = "")
{
	State& s = S();
	++s.violations;
	if(s.violations > 40 && key.empty()) { return; }
	emit_line("{\"type\":\"violation\",\"case\":" + jstr(s.current) + ",\"msg\":" + jstr(msg.substr(0, 1500)) +
			  ",\"key\":" + jstr(key) + "}");
}

//! A finding with a key does not stop the exploration
inline void fail_known(const std::string& key, const std::string& msg)
{
	fail(msg, key);
	--S().violations;
}

inline int finish()
{
	State& s = S();
	std::string g, x, sm;
	for(auto& i : s.groups) { g += (g.empty() ? "" : ",") + jstr(i.first) + fmt(":%llu", (unsigned long long)i.second); }
	for(auto& i : s.extra) { x += "," + jstr("n_" + i.first) + fmt(":%llu", (unsigned long long)i.second); }
	for(auto& i : s.samples) { sm += (sm.empty() ? "" : ",") + jstr(i); }
	emit_line(fmt("{\"type\":\"summary\",\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,"
				  "\"traces_validated_against_impl\":%llu,\"exhaustive\":%s",
				  (unsigned long long)s.evaluations, (unsigned long long)s.distinct.size(), (unsigned long long)s.states,
				  (unsigned long long)s.transitions, (unsigned long long)s.traces, s.exhaustive ? "true" : "false") +
			  ",\"groups\":{" + g + "},\"samples\":[" + sm + "]" + x + "}");
	return 0;
}

//! Depth first enumeration of all choice sequences of a deterministic program
struct Chooser
{
	std::vector<int>	path, width;
	size_t				pos = 0;
	bool				shared;			// every shard walks the same tree: count its nodes once
	explicit Chooser(bool s = false) : shared(s) {}
	void count() { if(!shared || S().shard == 0) { ++S().states; } }
	int choose(int n)
	{
		if(pos < path.size())
		{
			if(width[pos] != n) { fprintf(stderr, "replay divergence: width %d != %d at %zu\n", n, width[pos], pos); abort(); }
			return path[pos++];
		}
		path.push_back(0);
		width.push_back(n);
		count();
		return path[pos++];
	}
	bool next()
	{
		path.resize(pos);
		width.resize(pos);
		pos = 0;
		while(!path.empty())
		{
			if(++path.back() < width.back()) { count(); return true; }
			path.pop_back();
			width.pop_back();
		}
		return false;
	}
	std::string str() const
	{
		std::string r;
		for(size_t i = 0; i != pos && i != path.size(); ++i) { r += fmt("%s%d", i ? "." : "", path[i]); }
		return r;
	}
};

inline bool same_bits(double a, double b)
{
	return 0 == memcmp(&a, &b, sizeof a);
}

inline void rm_rf(const std::string& p)
{
	// only ever called on paths below the scratch folder
	if(p.compare(0, S().scratch.size(), S().scratch) != 0 || p.find("..") != std::string::npos) { abort(); }
	DIR* d = opendir(p.c_str());
	if(d)
	{
		while(dirent* e = readdir(d))
		{
			std::string n = e->d_name;
			if(n == "." || n == "..") { continue; }
			rm_rf(p + "/" + n);
		}
		closedir(d);
		rmdir(p.c_str());
	}
	else { unlink(p.c_str()); }
}

inline std::string fresh_dir(const std::string& name)
{
	std::string p = S().scratch + "/" + name;
	rm_rf(p);
	mkdir(p.c_str(), 0700);
	return p;
}

} // namespace mc
#endif
