// C01: every history of writer operations, read back after every operation, against a list of frames.
#include "stream_model.h"
using namespace mc;

struct Run
{
	std::string			dir;
	StreamModel			model[2];
	nbody_data_stream*	w = nullptr;
	int					open_name = -1;
	size_t				writes = 0;
	std::vector<qint64>	parts[2];		// sizes of the data files
	qint64				limit = 0;

	//! A new part starts exactly when the current one has reached the limit
	void add_frame(int n, qint64 sz)
	{
		std::vector<qint64>& p = parts[n];
		if(p.empty()) { p.push_back(0); }
		if(limit > 0 && p.back() >= limit) { p.push_back(0); }
		p.back() += sz;
	}
	std::string verify_parts(int n) const
	{
		for(size_t i = 0; i != parts[n].size(); ++i)
		{
			struct stat st;
			std::string fn = base(n) + fmt("%zu.dat", i);
			if(0 != ::stat(fn.c_str(), &st)) { return "no part " + fn; }
			if(st.st_size != parts[n][i])
			{
				return fmt("part %zu holds %lld bytes instead of %lld", i, (long long)st.st_size, (long long)parts[n][i]);
			}
		}
		return "";
	}
	std::string base(int n) const { return dir + (n ? "/sub/b" : "/a"); }
	~Run() { delete w; }
};

static const char OPS[] = "WAPNXC";

//! Returns an error text
static std::string step(Run& R, char op, size_t count, qint64 part, qint64 frame_sz)
{
	switch(op)
	{
	case 'W':
	{
		nbody_data	d;
		size_t k = R.writes++;
		size_t box = R.open_name >= 0 && R.model[R.open_name].has_header ? R.model[R.open_name].box : 1 + k;
		fill(d, count, k + 1, tricky_step(k), tricky_time(k), box);
		if(R.w == nullptr) { return ""; }
		if(0 == R.w->write(nullptr)) { return "write of nothing succeeded"; }
		int rc = R.w->write(&d);
		if(R.open_name < 0)
		{
			return rc == 0 ? "write to a closed stream succeeded" : "";
		}
		if(rc != 0) { return fmt("write failed (%d)", rc); }
		StreamModel& m = R.model[R.open_name];
		if(!m.has_header) { snapshot_header(d, m); }
		m.frames.push_back(snapshot(d));
		R.add_frame(R.open_name, 48 * qint64(count));
		return "";
	}
	case 'N':	// new stream, same name, same writer object, no close before
	case 'X':	// other name
	{
		int n = op == 'N' ? 0 : 1;
		if(R.w == nullptr) { R.w = new nbody_data_stream; }
		if(0 != R.w->open(QString::fromStdString(R.base(n)), part)) { return "open failed"; }
		R.model[n] = StreamModel();
		R.parts[n].clear();
		R.limit = part;
		R.open_name = n;
		return "";
	}
	case 'A':	// append with a new writer object, same part size
	case 'P':	// append with the same writer object, other part size
	{
		int n = R.open_name < 0 ? 0 : R.open_name;
		nbody_data_stream_reader r;
		if(op == 'A') { delete R.w; R.w = nullptr; }
		else if(R.w) { R.w->close(); }
		R.open_name = -1;
		if(0 != r.load(QString::fromStdString(R.base(n))))
		{
			return R.model[n].frames.empty() ? "" : "load for append failed";
		}
		if(!R.w) { R.w = new nbody_data_stream; }
		if(0 != R.w->open(QString::fromStdString(R.base(n)), op == 'A' ? part : 2 * frame_sz, &r)) { return "open for append failed"; }
		r.close();
		R.open_name = n;
		R.limit = op == 'A' ? part : 2 * frame_sz;
		return "";
	}
	case 'C':
		if(R.w) { R.w->close(); }
		R.open_name = -1;
		return "";
	}
	return "";
}

static void history(size_t count, qint64 part, const std::string& ops)
{
	Run		R;
	R.dir = fresh_dir("c01");
	qint64	frame_sz = 48 * static_cast<qint64>(count);
	for(size_t i = 0; i != ops.size(); ++i)
	{
		std::string e = step(R, ops[i], count, part, frame_sz);
		++S().transitions;
		for(int n = 0; n != 2 && e.empty(); ++n)
		{
			e = verify_stream(R.base(n), R.model[n]);
			if(e.empty()) { e = R.verify_parts(n); }
		}
		if(!e.empty())
		{
			fail(fmt("after operation %zu (%c): ", i, ops[i]) + e);
			return;
		}
	}
	++S().traces;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	size_t	depth = thorough() ? 6 : 4;
	std::vector<size_t>	counts = { 1, 3 };
	std::set<std::string> prefixes;

	for(size_t count : counts)
	{
		qint64	fs = 48 * static_cast<qint64>(count);
		std::vector<qint64>	parts = { 0, 1, fs - 1, fs, fs + 1, fs + fs / 2, 2 * fs, qint64(1) << 30, -1 };
		for(qint64 part : parts)
		{
			Chooser	c(true);
			do
			{
				std::string	ops("N");
				for(size_t i = 0; i != depth; ++i) { ops += OPS[c.choose(6)]; }
				if(begin(fmt("hist:n%zu:p%lld:", count, (long long)part) + ops)) { history(count, part, ops); }
			}
			while(c.next());
		}
	}
	// long histories: more parts and frames than any depth above reaches
	for(size_t count : counts)
	{
		for(qint64 part : { qint64(1), 48 * qint64(count) * 3, qint64(0) })
		{
			for(std::string ops : { "NWWWWWWWWWWWWWW", "NWWWWAWWWPWWWWAWW", "NWWPWAWPWAWPWAW", "NWXWWNWWWAWWXWWPWW" })
			{
				if(begin(fmt("long:n%zu:p%lld:", count, (long long)part) + ops)) { history(count, part, ops); }
			}
		}
	}
	// many bodies: frames larger than every buffer, part limits inside and at the borders of a frame
	for(size_t count : { size_t(333), size_t(1024), size_t(3000) })
	{
		qint64	fs = 48 * qint64(count);
		for(qint64 part : { qint64(1), fs, fs + 1, qint64(2) * fs, qint64(1) << 30 })
		{
			for(std::string ops : { "NWWWAWW", "NWAWWPWWCW" })
			{
				if(begin(fmt("large:n%zu:p%lld:", count, (long long)part) + ops)) { history(count, part, ops); }
			}
		}
	}
	// offsets beyond 2 and 4 GiB (sparse file)
	for(qint64 off : { (qint64(1) << 31) - 96, (qint64(1) << 31) + 48, (qint64(1) << 32) - 1, (qint64(1) << 32) + 7, (qint64(5) << 31) })
	{
		for(qint64 part : { qint64(0), off + 1, off + 96, (qint64(1) << 40) })
		{
			if(!begin(fmt("sparse:%lld:p%lld", (long long)off, (long long)part))) { continue; }
			Run	R;
			R.dir = fresh_dir("c01");
			std::string e = step(R, 'N', 1, part, 48);
			if(e.empty()) { e = step(R, 'W', 1, part, 48); }
			if(e.empty() && 0 != truncate((R.base(0) + "0.dat").c_str(), off)) { perror("truncate"); exit(2); }
			R.parts[0] = { off };
			for(char op : std::string("AWWW"))
			{
				if(e.empty()) { e = step(R, op, 1, part, 48); }
				if(e.empty()) { e = verify_stream(R.base(0), R.model[0]); }
				if(e.empty()) { e = R.verify_parts(0); }
				++S().transitions;
			}
			rm_rf(R.dir);
			if(!e.empty()) { fail(e); }
			++S().traces;
		}
	}
	return finish();
}
