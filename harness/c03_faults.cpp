// C03: every mutating system call of a history fails or writes short, once or from then on.
#include "iohook.h"
#include "stream_model.h"
using namespace mc;

struct Entry { Frame f; bool acked; };

//! What a stream may contain: acknowledged frames are mandatory, frames whose write failed are optional
struct Ledger
{
	std::vector<Entry>			e;
	std::vector<StreamModel>	headers;	// acceptable headers
	bool						undefined = false;	// a failed overwrite: old or new content, but nothing else
};

static std::string check(const std::string& base, const Ledger& L, size_t count)
{
	nbody_data_stream_reader	r;
	int rc = r.load(QString::fromStdString(base));
	size_t	acked = 0;
	for(auto& x : L.e) { acked += x.acked; }
	if(rc != 0) { return acked && !L.undefined ? fmt("load failed, %zu frames were acknowledged", acked) : ""; }
	if(r.get_frame_count() && r.get_body_count() != count) { return "body count"; }
	nbody_data	d;
	d.resize(r.get_body_count());
	size_t	j = 0;
	for(size_t i = 0; i != r.get_frame_count(); ++i)
	{
		if(0 != r.seek(i) || 0 != r.read(&d))
		{
			if(L.undefined) { continue; }
			return fmt("listed frame %zu can not be read", i);
		}
		std::string	e, first;
		for(;; ++j)
		{
			if(j == L.e.size()) { return fmt("listed frame %zu is none of the frames written here: ", i) + first; }
			e = diff_frame(d, L.e[j].f);
			if(e.empty()) { break; }
			if(L.e[j].acked && !L.undefined) { return fmt("listed frame %zu, acknowledged frame %zu: ", i, j) + e; }
			if(first.empty()) { first = e; }
		}
		++j;
		bool ok = false;
		std::string he;
		for(auto& h : L.headers) { he = diff_header(d, h); ok = ok || he.empty(); if(ok) { break; } }
		if(!ok) { return fmt("frame %zu header: ", i) + he; }
	}
	for(; j != L.e.size(); ++j)
	{
		if(L.e[j].acked && !L.undefined) { return fmt("acknowledged frame %zu is not listed", j); }
	}
	return "";
}

//! How long a fault lasts: the call alone, the next call too, from then on, or from then on for this file
struct Span { const char* name; size_t more; bool same_file; };
static const Span SPAN[] = { { "one", 0, false }, { "two", 1, false }, { "all", io::ALL, false }, { "file", 0, true } };

struct Case { std::string hist; size_t count; qint64 part; };

static std::string run(const Case& c, int mode, size_t at, size_t tear, int err, const Span& span, size_t fault_ops, bool reads = false)
{
	std::string	base = fresh_dir("c03") + "/a";
	Ledger		L;
	nbody_data_stream*	w = nullptr;
	size_t	writes = 0;
	bool	open = false;
	bool	overwritten_over = false;
	io::start(mode, at, tear, err, span.more, reads, span.same_file);
	std::string	all = c.hist;
	std::string	error;
	auto do_write = [&]()
	{
		nbody_data	d;
		size_t k = writes++;
		size_t box = L.headers.empty() ? 1 + k : L.headers.back().box;
		fill(d, c.count, k + 1, tricky_step(k), tricky_time(k), box);
		int saved = io::C().mode;
		int rc = w->write(&d);
		(void)saved;
		if(rc == 0 && !open) { error = "write to a stream that is not open succeeded"; }
		StreamModel	h;
		snapshot_header(d, h);
		bool known = false;
		for(auto& x : L.headers) { known = known || x.box == h.box; }
		if(!known) { L.headers.push_back(h); }
		L.e.push_back(Entry{ snapshot(d), rc == 0 });
		if(rc == 0) { L.undefined = false; }
		return rc;
	};
	size_t	n = 0;
	for(char op : all)
	{
		++S().transitions;
		if(n++ == fault_ops) { io::off(); }
		switch(op)
		{
		case 'N':
		{
			if(!w) { w = new nbody_data_stream; }
			int rc = w->open(QString::fromStdString(base), c.part);
			if(rc == 0) { L = Ledger(); open = true; }
			else { L.undefined = true; open = false; }
			overwritten_over = rc != 0;
			break;
		}
		case 'A':
		{
			delete w;
			w = new nbody_data_stream;
			open = false;
			nbody_data_stream_reader r;
			int m = io::C().mode;
			if(0 == r.load(QString::fromStdString(base)) && !L.undefined)
			{
				if(0 == w->open(QString::fromStdString(base), c.part, &r)) { open = true; }
			}
			(void)m;
			break;
		}
		case 'C':
			if(w) { w->close(); }
			open = false;
			break;
		case 'T':
		{
			// the writer is gone, its last record is torn
			delete w;
			w = nullptr;
			open = false;
			int	m = io::C().mode;
			io::C().mode = io::OFF;
			QFile	idx(QString::fromStdString(base + ".idx"));
			if(!L.undefined && idx.exists() && (!idx.open(QFile::Append) || 6 != idx.write("31\t4.5"))) { error = "can not prepare a torn record"; }
			idx.close();
			io::C().mode = m;
			break;
		}
		case 'W':
			if(w) { do_write(); }
			break;
		}
		int m = io::C().mode;
		io::C().mode = io::OFF;
		if(error.empty()) { error = check(base, L, c.count); }
		io::C().mode = m;
		if(!error.empty()) { error = fmt("after operation %zu (%c): ", n - 1, op) + error; break; }
	}
	io::off();
	delete w;
	w = nullptr;
	// the fault is over: a new writer must be able to continue
	if(error.empty())
	{
		nbody_data_stream_reader r;
		w = new nbody_data_stream;
		bool fresh = L.undefined || 0 != r.load(QString::fromStdString(base));
		if(fresh)
		{
			L = Ledger();
			if(0 != w->open(QString::fromStdString(base), c.part)) { error = "can not open a new stream after the fault"; }
		}
		else if(0 != w->open(QString::fromStdString(base), c.part, &r)) { error = "can not append after the fault"; }
		open = true;
		for(int i = 0; i != 2 && error.empty(); ++i)
		{
			if(0 != do_write()) { error = "can not write after the fault"; }
			else { error = check(base, L, c.count); }
		}
		if(!error.empty()) { error = "recovery: " + error; }
		delete w;
	}
	(void)overwritten_over;
	return error;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	std::vector<Case>	cases;
	size_t	depth = thorough() ? 6 : 5;
	for(size_t count : { size_t(1), size_t(2) })
	{
		qint64 fs = 48 * qint64(count);
		for(qint64 part : { qint64(1), fs + 1, qint64(1) << 30 })
		{
			if(count == 2 && part != fs + 1 && !thorough()) { continue; }
			std::function<void(std::string)> gen = [&](std::string h)
			{
				if(h.size() == depth) { cases.push_back(Case{ h, count, part }); return; }
				if(h.back() != 'T') { gen(h + "W"); }
				gen(h + "A");
				if(h.back() == 'T') { return; }
				if(h.back() == 'W' && h.size() + 2 <= depth) { gen(h + "T"); }
				if(h.back() != 'C') { gen(h + "C"); }
				if(h.back() != 'N') { gen(h + "N"); }
			};
			gen("N");
		}
	}
	// frames larger than any stdio or Qt buffer
	for(const char* h : { "NWWW", "NWAW", "NWWAWW" }) { cases.push_back(Case{ h, 700, qint64(1) << 30 }); }
	static const int ERR[] = { ENOSPC, EIO };
	for(const Case& c : cases)
	{
		std::string id0 = fmt("fault:%s:n%zu:p%lld", c.hist.c_str(), c.count, (long long)c.part);
		bool mine = S().has_only ? S().only.compare(0, id0.size() + 1, id0 + ":") == 0 : (&c - cases.data()) % S().nshards == S().shard;
		if(!mine) { continue; }
		S().current = id0 + ":ref";
		std::string	e = run(c, io::COUNT, 0, 0, 0, SPAN[0], 100);
		if(!e.empty()) { fail("without any fault: " + e); continue; }
		std::vector<io::Call>	calls(io::C().calls, io::C().calls + io::C().ncalls);
		S().extra["syscalls"] += calls.size();
		size_t	save = S().nshards, saves = S().shard;
		S().nshards = 1;
		S().shard = 0;
		for(size_t at = 0; at < calls.size(); ++at)
		{
			std::set<size_t>	tears = { 0 };
			if(calls[at].kind == 'w')
			{
				size_t len = calls[at].len;
				for(size_t t : { size_t(1), len / 2, len - 1 }) { if(t < len) { tears.insert(t); } }
				if(len <= 64 || thorough()) { for(size_t t = 0; t < std::min<size_t>(len, 200); t += thorough() ? 1 : 5) { tears.insert(t); } }
				if(len > 4096) { for(size_t t : { size_t(4096), size_t(16384), size_t(4095) }) { if(t < len) { tears.insert(t); } } }
			}
			for(size_t tear : tears)
			{
				for(int err : ERR)
				{
					for(const Span& span : SPAN)
					{
						if(err == EIO && (tear != 0 || &span == SPAN + 1 || &span == SPAN + 3)) { continue; }
						if(!mc::begin(id0 + fmt(":%zu.%zu.e%d.%s", at, tear, err, span.name))) { continue; }
						++S().states;
						e = run(c, io::FAIL, at, tear, err, span, span.more > 1 || span.same_file ? c.hist.size() - 1 : 100);
						if(!e.empty()) { fail(e); }
						else { ++S().traces; }
					}
				}
			}
		}
		// reading calls fail or deliver less: appending reads the index
		S().current = id0 + ":ref";
		e = run(c, io::COUNT, 0, 0, 0, SPAN[0], 100, true);
		calls.assign(io::C().calls, io::C().calls + io::C().ncalls);
		for(size_t at = 0; at < calls.size(); ++at)
		{
			if(calls[at].kind != 'r') { continue; }
			for(size_t tear : { size_t(0), size_t(1), size_t(45), size_t(55), size_t(60), size_t(70) }) for(const Span& span : { SPAN[0], SPAN[2] })
			{
				if(!mc::begin(id0 + fmt(":%zu.%zu.read.%s", at, tear, span.name))) { continue; }
				++S().states;
				e = run(c, io::FAIL, at, tear, EIO, span, span.more ? c.hist.size() - 1 : 100, true);
				if(!e.empty()) { fail(e); }
				else { ++S().traces; }
			}
		}
		S().nshards = save;
		S().shard = saves;
	}
	return finish();
}
