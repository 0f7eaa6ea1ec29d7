// C04: every sequence of reader operations against a position model; every truncation of index and data files; malformed index files.
#include "iohook.h"
#include "stream_model.h"
using namespace mc;

static std::string dir;
static std::vector<StreamModel>	M;		// the streams on disk
static std::vector<std::string>	B;

static void make_stream(const char* name, size_t count, size_t frames, qint64 part, size_t seed)
{
	StreamModel	m;
	nbody_data_stream	w;
	std::string base = dir + "/" + name;
	if(0 != w.open(QString::fromStdString(base), part)) { fprintf(stderr, "can't open\n"); exit(2); }
	for(size_t i = 0; i != frames; ++i)
	{
		nbody_data	d;
		fill(d, count, seed + i, 10 * seed + i, 0.25 * i + seed, 3 + seed);
		if(i == 0) { snapshot_header(d, m); }
		if(0 != w.write(&d)) { fprintf(stderr, "can't write\n"); exit(2); }
		m.frames.push_back(snapshot(d));
	}
	M.push_back(m);
	B.push_back(base);
}

struct Whole
{
	Frame	f;
	StreamModel	h;
	explicit Whole(const nbody_data& d) : f(snapshot(d)) { snapshot_header(d, h); }
	std::string diff(const nbody_data& d) const
	{
		std::string	e = diff_frame(d, f);
		if(e.empty()) { e = diff_header(d, h); }
		return e.empty() ? e : "failed read changed the destination: " + e;
	}
};

static const char* OPS[] = { "R", "L0", "L1", "S0", "S2", "S1", "C", "L2", "S3", "S9", "Rw", "LM", "Rn", "LX" };

static std::string navigate(const std::vector<int>& ops)
{
	nbody_data_stream_reader	r;
	nbody_data	obj[4], wrong;
	for(size_t i = 1; i != 4; ++i) { obj[i].resize(i); }
	wrong.resize(7);
	int		cur = -1;
	size_t	pos = 0;
	bool	valid = false;		// position is defined
	for(size_t k = 0; k != ops.size(); ++k)
	{
		std::string	op = OPS[ops[k]];
		std::string	e;
		++S().transitions;
		if(op[0] == 'L')
		{
			if(op[1] == 'M' || op[1] == 'X')
			{
				if(0 == r.load(QString::fromStdString(dir + (op[1] == 'M' ? "/missing" : "/malformed")))) { e = "load of a bad stream succeeded"; }
				cur = -1;
			}
			else
			{
				cur = op[1] - '0';
				if(0 != r.load(QString::fromStdString(B[cur]))) { e = "load failed"; }
			}
			pos = 0;
		}
		else if(op[0] == 'S')
		{
			size_t	f = op[1] == '9' ? std::numeric_limits<size_t>::max() : op[1] - '0';
			int rc = r.seek(f);
			bool ok = cur >= 0 && f < M[cur].frames.size();
			if(cur >= 0 && (rc == 0) != ok) { e = fmt("seek to %zu returned %d", f, rc); }
			if(cur < 0 && rc == 0) { e = "seek without a stream succeeded"; }
			if(ok) { pos = f; }
		}
		else if(op == "C") { r.close(); cur = -1; }
		else if(op == "Rn")
		{
			if(0 == r.read(nullptr)) { e = "read to nowhere succeeded"; }
		}
		else if(op == "Rw")
		{
			if(0 == r.read(&wrong)) { e = "read with a wrong body count succeeded"; }
			for(size_t i = 0; i != 7; ++i)
			{
				if(wrong.get_vertites()[i].x != 0 || wrong.get_mass()[i] != 0) { e = "refused read changed the destination"; }
			}
		}
		else
		{
			nbody_data&	d = obj[cur >= 0 ? M[cur].count : 1];
			Whole	before(d);
			int rc = r.read(&d);
			bool ok = cur >= 0 && pos < M[cur].frames.size();
			if((rc == 0) != ok) { e = fmt("read at frame %zu returned %d", pos, rc); }
			else if(ok)
			{
				e = diff_frame(d, M[cur].frames[pos]);
				if(e.empty()) { e = diff_header(d, M[cur]); }
				++pos;
			}
			else { e = before.diff(d); }
		}
		if(e.empty())
		{
			size_t n = cur >= 0 ? M[cur].frames.size() : 0;
			if(cur >= 0 || op == "C" || op == "LM")
			{
				if(r.get_frame_count() != n) { e = fmt("frame count %zu instead of %zu", r.get_frame_count(), n); }
				else if(cur < 0)
				{
					if(r.get_steps_count() != 0 || r.get_max_time() != 0 || r.get_last_file_n() != 0) { e = "steps, time or data file of a stream that is not loaded"; }
				}
				else
				{
					if(r.get_body_count() != M[cur].count) { e = "body count"; }
					else if(pos < n && r.get_current_frame() != pos) { e = fmt("current frame %zu instead of %zu", r.get_current_frame(), pos); }
					else if(r.get_steps_count() != M[cur].frames.back().step) { e = "steps count"; }
					else if(r.get_max_time() != M[cur].frames.back().time) { e = "max time"; }
					else if(r.get_box_size() != M[cur].box) { e = "box size"; }
					else if(r.get_last_file_n() != (cur == 1 ? 3 : 0)) { e = "last data file"; }
				}
			}
		}
		if(!e.empty()) { return fmt("operation %zu (%s): ", k, op.c_str()) + e; }
		(void)valid;
	}
	++S().traces;
	return "";
}

static std::string slurp(const std::string& p)
{
	QFile f(QString::fromStdString(p));
	if(!f.open(QFile::ReadOnly)) { return ""; }
	return f.readAll().toStdString();
}

static void spit(const std::string& p, const std::string& s)
{
	QFile f(QString::fromStdString(p));
	if(!f.open(QFile::WriteOnly) || f.write(s.data(), s.size()) != (qint64)s.size()) { fprintf(stderr, "can't write %s\n", p.c_str()); exit(2); }
}

static void copy_stream(const std::string& from, const std::string& to)
{
	for(const char* s : { ".idx", ".col", ".mass", "0.dat", "1.dat", "2.dat", "3.dat" })
	{
		std::string	d = slurp(from + s);
		if(d.empty()) { unlink((to + s).c_str()); }
		else { spit(to + s, d); }
	}
}

//! Everything that can be read must be right. Returns the number of frames delivered
static std::string read_what_there_is(const std::string& base, const StreamModel& m, bool listed_prefix, size_t* got, int* load_rc, const std::string& before = "")
{
	nbody_data_stream_reader	r;
	nbody_data	d;
	if(!before.empty() && 0 != r.load(QString::fromStdString(before))) { return "load failed"; }
	*got = 0;
	*load_rc = r.load(QString::fromStdString(base));
	if(*load_rc != 0) { return ""; }
	if(r.get_frame_count() > m.frames.size()) { return "more frames than written"; }
	fill(d, m.count, 55, 999, 77.5, 12);
	for(int pass = 0; pass != 2; ++pass)
	{
		if(pass == 1) { *got = 0; }
		for(size_t i = 0; i != r.get_frame_count(); ++i)
		{
			if(pass == 1 || i == 0)
			{
				if(0 != r.seek(i)) { continue; }
			}
			else if(r.get_current_frame() != i) { continue; }
			Whole	before(d);
			if(0 != r.read(&d))
			{
				std::string	e = before.diff(d);
				if(!e.empty()) { return fmt("frame %zu: ", i) + e; }
				// the next attempt may succeed, then with this frame
				if(r.get_current_frame() != i || 0 != r.read(&d)) { continue; }
			}
			std::string	e = diff_frame(d, m.frames[i]);
			if(e.empty()) { e = diff_header(d, m); }
			if(!e.empty()) { return fmt("frame %zu: ", i) + e; }
			++*got;
		}
	}
	(void)listed_prefix;
	return "";
}

int main(int argc, char** argv)
{
	init(argc, argv);
	dir = fresh_dir("c04");
	make_stream("a", 2, 3, 0, 1);
	make_stream("b", 2, 4, 1, 2);		// every frame in a part of its own
	make_stream("c", 1, 1, 0, 3);
	spit(dir + "/malformed.idx", "#coord_size 8\n#body_count 2\n#box_size 5\n0\t0\t0\t0\n1\t1\n");
	size_t	nops = sizeof OPS / sizeof OPS[0];
	size_t	depth = thorough() ? 6 : 4;
	{
		Chooser	c(true);
		do
		{
			std::vector<int>	ops;
			std::string			id;
			for(size_t i = 0; i != depth; ++i) { ops.push_back(c.choose(nops)); id += std::string(i ? "," : "") + OPS[ops.back()]; }
			if(mc::begin("nav:L0," + id))
			{
				std::vector<int> o2(1, 1);
				o2.insert(o2.end(), ops.begin(), ops.end());
				std::string e = navigate(o2);
				if(!e.empty()) { fail(e); }
			}
		}
		while(c.next());
	}
	{
		// longer sequences over the core operations
		size_t	d2 = thorough() ? 8 : 6;
		Chooser	c(true);
		do
		{
			std::vector<int>	ops;
			std::string			id;
			for(size_t i = 0; i != d2; ++i) { ops.push_back(c.choose(6)); id += std::string(i ? "," : "") + OPS[ops.back()]; }
			if(mc::begin("core:" + id))
			{
				std::string e = navigate(ops);
				if(!e.empty()) { fail(e); }
			}
		}
		while(c.next());
	}
	// truncations
	for(int s = 0; s != 2; ++s)
	{
		std::string	cp = dir + "/t";
		for(int part = 0; part != (s ? 4 : 1); ++part)
		{
			std::string	name = fmt("%d.dat", part);
			std::string	dat = slurp(B[s] + name);
			for(long len = -1; len <= (long)dat.size(); ++len)
			{
				if(!mc::begin(fmt("dat:%d.%d.%ld", s, part, len))) { continue; }
				copy_stream(B[s], cp);
				if(len < 0) { unlink((cp + name).c_str()); }
				else { spit(cp + name, dat.substr(0, len)); }
				size_t	got; int rc;
				std::string	e = read_what_there_is(cp, M[s], false, &got, &rc);
				++S().transitions;
				size_t	frames = M[s].frames.size();
				size_t	fsz = 48 * M[s].count;
				size_t	want = s ? frames - (len < (long)fsz ? 1 : 0) : (len < 0 ? 0 : len / fsz);
				if(e.empty() && rc == 0 && got != want) { e = fmt("%zu frames can be read instead of %zu", got, want); }
				if(e.empty() && rc != 0 && !(len < 0 && part == 0)) { e = "load failed"; }
				if(!e.empty()) { fail(e); }
				++S().traces;
			}
		}
		for(const char* ext : { ".col", ".mass" })
		{
			std::string	all = slurp(B[s] + ext);
			for(long len = -1; len <= (long)all.size(); ++len)
			{
				if(!mc::begin(fmt("header:%d%s.%ld", s, ext, len))) { continue; }
				copy_stream(B[s], cp);
				if(len < 0) { unlink((cp + ext).c_str()); }
				else { spit(cp + ext, all.substr(0, len)); }
				size_t	got; int rc;
				std::string	e = read_what_there_is(cp, M[s], false, &got, &rc);
				++S().transitions;
				size_t	want = len == (long)all.size() ? M[s].frames.size() : 0;
				if(e.empty() && rc == 0 && got != want) { e = fmt("%zu frames can be read instead of %zu", got, want); }
				if(!e.empty()) { fail(e); }
				++S().traces;
			}
		}
		// every reading call fails or delivers less
		{
			size_t	got; int rc;
			S().current = fmt("readfault:%d:ref", s);
			io::start(io::COUNT, 0, 0, 0, 0, true);
			std::string	e = read_what_there_is(B[s], M[s], false, &got, &rc);
			io::off();
			if(!e.empty() || rc != 0 || got != M[s].frames.size()) { fail("can't read a good stream: " + e); }
			std::vector<io::Call>	calls(io::C().calls, io::C().calls + io::C().ncalls);
			for(size_t at = 0; at != calls.size(); ++at)
			{
				if(calls[at].kind != 'r') { continue; }
				for(size_t tear : { size_t(0), size_t(1), size_t(7), size_t(40), size_t(60), size_t(100) }) for(int persistent = 0; persistent != 2; ++persistent)
				{
					if(!mc::begin(fmt("readfault:%d:%zu.%zu.%s", s, at, tear, persistent ? "all" : "one"))) { continue; }
					io::start(io::FAIL, at, tear, EIO, persistent ? io::ALL : 0, true);
					e = read_what_there_is(B[s], M[s], false, &got, &rc);
					bool	hit = io::C().hit;
					io::off();
					if(e.empty() && !hit) { e = "the fault was not reached"; }
					if(e.empty() && rc == 0 && got > M[s].frames.size()) { e = "more frames than written"; }
					if(e.empty() && rc == 0)
					{
						nbody_data_stream_reader	r;
						io::start(io::FAIL, at, tear, EIO, persistent ? io::ALL : 0, true);
						rc = r.load(QString::fromStdString(B[s]));
						io::off();
						if(rc == 0 && r.get_frame_count() != M[s].frames.size()) { e = fmt("load succeeded with %zu frames instead of %zu", r.get_frame_count(), M[s].frames.size()); }
					}
					if(!e.empty()) { fail(e); }
					++S().transitions;
					++S().traces;
				}
			}
		}
		std::string	idx = slurp(B[s] + ".idx");
		for(size_t len = 0; len <= idx.size(); ++len)
		{
			if(!mc::begin(fmt("idx:%d.%zu", s, len))) { continue; }
			copy_stream(B[s], cp);
			spit(cp + ".idx", idx.substr(0, len));
			size_t	got; int rc;
			std::string	e = read_what_there_is(cp, M[s], true, &got, &rc);
			size_t	want = 0;
			size_t	nl = 0;
			for(size_t i = 0; i != len; ++i) { nl += idx[i] == '\n'; }
			want = nl > 3 ? nl - 3 : 0;
			if(e.empty() && want && rc != 0) { e = fmt("load failed, %zu records are complete", want); }
			if(e.empty() && rc == 0 && got != want) { e = fmt("%zu frames can be read instead of %zu", got, want); }
			if(!e.empty()) { fail(e); }
			++S().transitions;
			++S().traces;
		}
	}
	// malformed index files
	{
		const std::string	h = "#coord_size 8\n#body_count 2\n#box_size 4\n";
		const std::string	l0 = "10\t1\t0\t0\n", l1 = "11\t1.25\t0\t96\n";
		struct T { const char* name; std::string text; int load; size_t got; };	// load: 1 must fail, 0 must succeed, 2 any
		std::vector<T>	t =
		{
			{ "ok", h + l0 + l1, 0, 2 }, { "empty", "", 1, 0 }, { "header_only", h, 1, 0 }, { "no_header", l0 + l1, 1, 0 },
			{ "no_coord", "#body_count 2\n#box_size 4\n" + l0, 1, 0 }, { "no_count", "#coord_size 8\n#box_size 4\n" + l0, 1, 0 },
			{ "no_box", "#coord_size 8\n#body_count 2\n" + l0, 1, 0 }, { "coord4", "#coord_size 4\n#body_count 2\n#box_size 4\n" + l0, 1, 0 },
			{ "coord16", "#coord_size 16\n#body_count 2\n#box_size 4\n" + l0, 1, 0 }, { "count0", "#coord_size 8\n#body_count 0\n#box_size 4\n" + l0, 1, 0 },
			{ "count_neg", "#coord_size 8\n#body_count -2\n#box_size 4\n" + l0, 1, 0 }, { "count_junk", "#coord_size 8\n#body_count two\n#box_size 4\n" + l0, 1, 0 },
			{ "cols3", h + l0 + "11\t1.25\t0\n", 1, 0 }, { "cols5", h + l0 + "11\t1.25\t0\t96\t7\n", 1, 0 }, { "cols1", h + "10\n", 1, 0 },
			{ "blank", h + "\n" + l0, 1, 0 }, { "step_junk", h + l0 + "x\t1.25\t0\t96\n", 1, 0 }, { "time_junk", h + l0 + "11\tx\t0\t96\n", 1, 0 },
			{ "part_junk", h + l0 + "11\t1.25\tx\t96\n", 1, 0 }, { "pos_junk", h + l0 + "11\t1.25\t0\tx\n", 1, 0 }, { "step_neg", h + l0 + "-1\t1.25\t0\t96\n", 1, 0 },
			{ "spaces", h + "10 1 0 0\n", 1, 0 }, { "pos_far", h + l0 + "11\t1.25\t0\t100000\n", 0, 1 }, { "pos_neg", h + l0 + "11\t1.25\t0\t-96\n", 2, 1 },
			{ "part_missing", h + l0 + "11\t1.25\t9\t96\n", 0, 1 }, { "pos_inside", h + l0 + "12\t1.5\t0\t250\n", 0, 1 }, { "part_huge", h + l0 + "11\t1.25\t18446744073709551615\t96\n", 0, 1 },
			{ "other_header", h + "#future 5\n" + l0 + l1, 0, 2 }, { "odd_header", h + "#comment line here\n" + l0 + l1, 0, 2 },
		};
		for(auto& x : t) for(int used = 0; used != 2; ++used)
		{
			if(!mc::begin(fmt("malformed:%s:%d", x.name, used))) { continue; }
			std::string	cp = dir + "/t";
			copy_stream(B[0], cp);
			spit(cp + ".idx", x.text);
			StreamModel	m = M[0];
			size_t	got; int rc;
			std::string	e = read_what_there_is(cp, m, true, &got, &rc, used ? B[1] : "");		// nothing of a stream loaded before may be taken over
			if(e.empty() && x.load == 1 && rc == 0) { e = "load of a malformed index succeeded"; }
			if(e.empty() && x.load == 0 && rc != 0) { e = "load failed"; }
			if(e.empty() && rc == 0 && got != x.got) { e = fmt("%zu frames can be read instead of %zu", got, x.got); }
			if(!e.empty()) { fail(e); }
			++S().transitions;
			++S().traces;
		}
	}
	return finish();
}
