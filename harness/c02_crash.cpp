// C02: the process dies at every mutating system call of a history, every write torn at every interesting length; then the
// stream is loaded, compared with what was acknowledged, and resumed.
#include "iohook.h"
#include "stream_model.h"
#include <sys/wait.h>
using namespace mc;

struct Shared { size_t done; size_t calls; };	// operations acknowledged
static Shared* sh;

struct Driver
{
	std::string	base;
	size_t		count;
	qint64		part;
	StreamModel	m;				// what is acknowledged
	bool		open = false;
	size_t		writes = 0;
	nbody_data_stream* w = nullptr;
	bool		dry = true;		// maintain the model only

	void frame(nbody_data& d)
	{
		size_t k = writes++;
		fill(d, count, k + 1, tricky_step(k), tricky_time(k), m.has_header ? m.box : 1 + k);
	}
	//! false: failed without a fault
	bool op(char c)
	{
		bool ok = true;
		switch(c)
		{
		case 'N':
			if(!dry) { if(!w) { w = new nbody_data_stream; } ok = 0 == w->open(QString::fromStdString(base), part); }
			m = StreamModel();
			open = true;
			break;
		case 'A':
			if(!dry)
			{
				nbody_data_stream_reader r;
				delete w;
				w = nullptr;
				ok = 0 == r.load(QString::fromStdString(base));
				if(ok) { w = new nbody_data_stream; ok = 0 == w->open(QString::fromStdString(base), part, &r); }
			}
			open = true;
			break;
		case 'C':
			if(!dry && w) { w->close(); }
			open = false;
			break;
		case 'W':
		{
			nbody_data	d;
			frame(d);
			if(!dry) { ok = 0 == w->write(&d); }
			if(!m.has_header) { snapshot_header(d, m); }
			m.frames.push_back(snapshot(d));
			break;
		}
		}
		return ok;
	}
};

static int run_child(const std::string& base, size_t count, qint64 part, const std::string& ops, size_t writes0, const StreamModel& m0)
{
	Driver	D;
	D.base = base; D.count = count; D.part = part; D.dry = false; D.writes = writes0; D.m = m0;
	for(char c : ops)
	{
		if(!D.op(c)) { return 3; }
		++sh->done;
	}
	return 0;
}

static int in_child(const std::function<int()>& f)
{
	pid_t p = fork();
	if(p == 0)
	{
		int rc = 4;
		try { rc = f(); }
		catch(...) {}
		syscall(SYS_exit_group, rc);
	}
	int st = 0;
	waitpid(p, &st, 0);
	if(WIFSIGNALED(st)) { return 200 + WTERMSIG(st); }
	return WEXITSTATUS(st);
}

//! Compare after a crash. 'in' is the operation in flight (0: none). Reduces m to what is really there.
static std::string verify_after(const std::string& base, StreamModel& m, char in, const StreamModel& next)
{
	if(in == 'N')
	{
		// deliberately overwritten: every frame that can be read must still be an old one
		nbody_data_stream_reader r;
		if(0 == r.load(QString::fromStdString(base)))
		{
			nbody_data d;
			if(r.get_frame_count() > m.frames.size()) { return "more frames than before the overwrite"; }
			d.resize(r.get_body_count());
			for(size_t i = 0; i != r.get_frame_count(); ++i)
			{
				if(0 == r.seek(i) && 0 == r.read(&d))
				{
					std::string e = d.get_count() != m.count ? "body count" : diff_frame(d, m.frames[i]);
					if(!e.empty()) { return fmt("interrupted overwrite, frame %zu: ", i) + e; }
				}
			}
		}
		return "";
	}
	if(in == 'W')
	{
		std::string e = verify_stream(base, next, 1);
		if(!e.empty()) { return e; }
		nbody_data_stream_reader r;
		if(0 == r.load(QString::fromStdString(base)) && r.get_frame_count() == next.frames.size()) { m = next; }
		return "";
	}
	return verify_stream(base, m);
}

//! An interrupted overwrite is started over
static std::string recover_ops(const StreamModel& m, char in) { return m.frames.empty() || in == 'N' ? "NWW" : "AWW"; }

struct Case { std::string hist; size_t count; qint64 part; };

static std::string dir;
static size_t points;

static std::string explore_one(const Case& c, size_t at, size_t tear, size_t at2, size_t tear2, bool second, std::vector<io::Call>* calls2)
{
	std::string base = dir + "/a";
	fresh_dir("c02");
	sh->done = 0;
	int rc = in_child([&] { io::start(io::CRASH, at, tear); return run_child(base, c.count, c.part, c.hist, 0, StreamModel()); });
	io::off();
	++S().transitions;
	if(rc != 99 && rc != 0) { return fmt("child ended with %d", rc); }
	if(rc == 99 && !io::C().hit) { return "crash without a hit"; }
	Driver	D;
	D.count = c.count;
	for(size_t i = 0; i != sh->done; ++i) { D.op(c.hist[i]); }
	char	in = sh->done < c.hist.size() ? c.hist[sh->done] : 0;
	StreamModel	next = D.m;
	Driver	DN = D;
	if(in) { DN.op(in); next = DN.m; }
	std::string e = verify_after(base, D.m, in, next);
	if(!e.empty()) { return "after the crash: " + e; }
	size_t	wn = 100;
	std::string	rec = recover_ops(D.m, in);
	for(int round = 0; round != 2; ++round)
	{
		// round 0: resume, possibly crash again. round 1: resume after the second crash
		sh->done = 0;
		StreamModel	m0 = D.m;
		bool crash = second && round == 0;
		if(crash)
		{
			rc = in_child([&] { io::start(io::CRASH, at2, tear2); return run_child(base, c.count, c.part, rec, wn, m0); });
			io::off();
		}
		else
		{
			if(round == 0 && calls2) { io::start(io::COUNT); }
			Driver	R;
			R.base = base; R.count = c.count; R.part = c.part; R.dry = false; R.writes = wn; R.m = m0;
			rc = 0;
			for(char o : rec)
			{
				if(!R.op(o)) { rc = 3; break; }
				++sh->done;
			}
			delete R.w;
			io::off();
			if(round == 0 && calls2) { calls2->assign(io::C().calls, io::C().calls + io::C().ncalls); }
		}
		++S().transitions;
		if(rc != 0 && rc != 99) { return fmt("resume failed at operation %zu (%d)", sh->done, rc); }
		Driver	X;
		X.count = c.count; X.writes = wn; X.m = D.m;
		for(size_t i = 0; i != sh->done; ++i) { X.op(rec[i]); }
		in = sh->done < rec.size() ? rec[sh->done] : 0;
		Driver	XN = X;
		if(in) { XN.op(in); }
		e = verify_after(base, X.m, in, XN.m);
		if(!e.empty()) { return (round ? "after the second resume: " : "after the resume: ") + e; }
		D = X;
		wn += 100;
		rec = recover_ops(D.m, in);
		if(!second) { break; }
	}
	++S().traces;
	++points;
	return "";
}

static std::vector<size_t> tears(const io::Call& c, bool all)
{
	std::set<size_t> s;
	s.insert(0);
	if(c.kind == 'w')
	{
		if(all || c.len <= 96) { for(size_t i = 0; i <= c.len; ++i) { s.insert(i); } }
		else
		{
			for(size_t i : { size_t(1), c.len / 2, c.len - 1, c.len }) { s.insert(i); }
			for(size_t i = c.len > 96 ? c.len - 96 : 0; i <= c.len; i += 7) { s.insert(i); }
		}
	}
	return std::vector<size_t>(s.begin(), s.end());
}

int main(int argc, char** argv)
{
	init(argc, argv);
	dir = S().scratch + "/c02";
	sh = static_cast<Shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::vector<Case>	cases;
	// all histories of writes, appends, closes and overwrites up to a length
	size_t depth = thorough() ? 5 : 4;
	for(size_t count : { size_t(1), size_t(2) })
	{
		qint64 fs = 48 * qint64(count);
		for(qint64 part : { qint64(1), fs + 1, qint64(1) << 30 })
		{
			if(count == 2 && part != fs + 1 && !thorough()) { continue; }
			std::function<void(std::string, bool, bool)> gen = [&](std::string h, bool written, bool isopen)
			{
				if(h.size() == depth + 1)
				{
					cases.push_back(Case{ h, count, part });
					return;
				}
				if(isopen) { gen(h + "W", true, true); }
				if(written) { gen(h + "A", written, true); }
				if(isopen && written && h.back() != 'C') { gen(h + "C", written, false); }
				if(h.back() != 'N') { gen(h + "N", false, true); }
			};
			gen("N", false, true);
		}
	}
	for(const Case& c : cases)
	{
		std::string id0 = fmt("crash:%s:n%zu:p%lld", c.hist.c_str(), c.count, (long long)c.part);
		// reference run: number and shape of the system calls
		bool mine = false;
		if(S().has_only) { mine = S().only.compare(0, id0.size() + 1, id0 + ":") == 0; }
		else { mine = (&c - cases.data()) % S().nshards == S().shard; }
		if(!mine) { continue; }
		fresh_dir("c02");
		sh->done = 0;
		S().current = id0;
		int rc = in_child([&] { io::start(io::COUNT); return run_child(dir + "/a", c.count, c.part, c.hist, 0, StreamModel()); });
		io::off();
		if(rc != 0) { S().current = id0 + ":ref"; fail(fmt("history fails without any fault at operation %zu (%d)", sh->done, rc)); continue; }
		std::vector<io::Call>	calls(io::C().calls, io::C().calls + io::C().ncalls);
		S().extra["syscalls"] += calls.size();
		if(calls.empty()) { fprintf(stderr, "no system call was intercepted\n"); return 2; }
		size_t	save = S().nshards, saves = S().shard;
		S().nshards = 1;
		S().shard = 0;
		for(size_t at = 0; at <= calls.size(); ++at)
		{
			io::Call	none = { 'x', 0 };
			for(size_t tear : tears(at < calls.size() ? calls[at] : none, false))
			{
				std::vector<io::Call>	calls2;
				bool dbl = c.count == 1 && (thorough() ? c.hist.size() <= 5 : c.hist.size() <= 5 && c.part != (qint64(1) << 30) && (tear % 5 == 0));
				std::string id = id0 + fmt(":%zu.%zu", at, tear);
				bool run_it = mc::begin(id);
				if(run_it)
				{
					++S().states;
					std::string e = explore_one(c, at, tear, 0, 0, false, &calls2);
					if(!e.empty()) { fail(e); }
				}
				if(!dbl) { continue; }
				if(calls2.empty() && S().has_only)
				{
					explore_one(c, at, tear, 0, 0, false, &calls2);
				}
				for(size_t at2 = 0; at2 < calls2.size(); ++at2)
				{
					std::set<size_t> t2 = { 0 };
					if(calls2[at2].kind == 'w') { t2.insert(1); t2.insert(calls2[at2].len / 2); t2.insert(calls2[at2].len - 1); t2.insert(calls2[at2].len); }
					for(size_t tear2 : t2)
					{
						if(!mc::begin(id + fmt("+%zu.%zu", at2, tear2))) { continue; }
						++S().states;
						std::string e = explore_one(c, at, tear, at2, tear2, true, nullptr);
						if(!e.empty()) { fail(e); }
					}
				}
			}
		}
		S().nshards = save;
		S().shard = saves;
	}
	return finish();
}
