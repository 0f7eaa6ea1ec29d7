// C05: the simulation program itself: every set of interruption times against the uninterrupted run.
#include "stream_model.h"
using namespace mc;

int nbody_simulation_main(int argc, char* argv[]);

static int sim(const std::vector<std::string>& a)
{
	std::vector<std::string>	s = a;
	s.insert(s.begin(), "nbody-simulation");
	std::vector<char*>	v;
	for(auto& x : s) { v.push_back(&x[0]); }
	v.push_back(nullptr);
	++S().transitions;
	return nbody_simulation_main(static_cast<int>(s.size()), v.data());
}

static std::string read_all(const std::string& base, StreamModel& m)
{
	nbody_data_stream_reader	r;
	nbody_data	d;
	if(0 != r.load(QString::fromStdString(base))) { return "load failed"; }
	m.count = r.get_body_count();
	d.resize(m.count);
	for(size_t i = 0; i != r.get_frame_count(); ++i)
	{
		if(0 != r.read(&d)) { return "read failed"; }
		if(i == 0) { snapshot_header(d, m); }
		m.frames.push_back(snapshot(d));
	}
	return "";
}

struct Cfg
{
	std::string	name;
	std::vector<std::string>	args;	// solver and engine
	bool	big;						// generated universe (128 bodies)
};

static std::string compare(const std::string& base, const StreamModel& ref)
{
	StreamModel	m;
	std::string	e = read_all(base, m);
	if(!e.empty()) { return e; }
	if(m.frames.size() != ref.frames.size()) { return fmt("%zu frames instead of %zu", m.frames.size(), ref.frames.size()); }
	if(m.count != ref.count) { return "body count"; }
	if(m.box != ref.box) { return fmt("box size %zu instead of %zu", m.box, ref.box); }
	if(m.color != ref.color) { return "colours"; }
	for(size_t i = 0; i != m.count; ++i) { if(!same_bits(m.mass[i], ref.mass[i])) { return "masses"; } }
	for(size_t i = 0; i != m.frames.size(); ++i)
	{
		const Frame&	a = m.frames[i];
		const Frame&	b = ref.frames[i];
		if(a.step != b.step) { return fmt("frame %zu: step %zu instead of %zu", i, a.step, b.step); }
		if(fabs(a.time - b.time) > 1e-12 * fabs(b.time)) { return fmt("frame %zu: time %.17g instead of %.17g", i, a.time, b.time); }
		for(size_t k = 0; k != b.r.size(); ++k)
		{
			if(!same_bits(a.r[k], b.r[k])) { return fmt("frame %zu: position %zu is %.17g instead of %.17g", i, k, a.r[k], b.r[k]); }
			if(!same_bits(a.v[k], b.v[k])) { return fmt("frame %zu: velocity %zu is %.17g instead of %.17g", i, k, a.v[k], b.v[k]); }
		}
	}
	return "";
}

int main(int argc, char** argv)
{
	init(argc, argv);
	std::string	dir = fresh_dir("c05");
	{
		QFile	f(QString::fromStdString(dir + "/init.txt"));
		if(!f.open(QFile::WriteOnly)) { return 2; }
		f.write("0.1 0.2 7.5 0.01 -0.02 0.3 1.25\n2 0.5 -0.25 0 1 0.1 0.5\n-1.5 2.25 0.3 0.7 0.2 -0.4 0.75\n");
	}
	std::vector<Cfg>	cfgs;
	const char*	solvers[] = { "euler", "midpoint", "rk4", "trapeze", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "bs" };
	for(const char* s : solvers) { cfgs.push_back(Cfg{ std::string(s) + "/simple", { "--solver=" + std::string(s), "--engine=simple" }, false }); }
	cfgs.push_back(Cfg{ "rkdp-adaptive/openmp", { "--solver=rkdp", "--engine=openmp", "--error_threshold=1e-9", "--max_recursion=2", "--substep_subdivisions=3" }, false });
	cfgs.push_back(Cfg{ "rk4/ah", { "--solver=rk4", "--engine=ah", "--full_recompute_rate=1" }, false });
	for(const char* l : { "tree", "heap", "heap_stackless" })
	{
		cfgs.push_back(Cfg{ std::string("midpoint/bh-") + l, { "--solver=midpoint", "--engine=simple_bh", std::string("--tree_layout=") + l }, false });
	}
	cfgs.push_back(Cfg{ "euler/clamp", { "--solver=euler", "--engine=simple", "--clamp=1" }, false });
	cfgs.push_back(Cfg{ "euler/block", { "--solver=euler", "--engine=block" }, true });
	cfgs.push_back(Cfg{ "midpoint/openmp", { "--solver=midpoint", "--engine=openmp" }, true });

	struct Grid { double dt; double per_dump; double off; };
	// off: fraction of a step added to stop times; the dump interval need not be a whole number of steps
	std::vector<Grid>	grids = { { 1.0 / 64, 2, 0 }, { 1.0 / 64, 3, 0 }, { 0.01, 2, -0.5 }, { 1.0 / 32, 1, 0 }, { 1.0 / 64, 2.4, 0 }, { 0.01, 1.7, -0.5 } };
	size_t	dumps = thorough() ? 6 : 4;
	for(auto& c : cfgs)
	{
		for(size_t gi = 0; gi != grids.size(); ++gi)
		{
			if(c.big && gi > 1) { continue; }
			const Grid&	g = grids[gi];
			for(int parti = 0; parti != 3; ++parti)
			{
				if(c.big && parti == 1) { continue; }
				size_t	fsz = 48 * (c.big ? 128 : 3);
				long long	part = parti == 0 ? 1LL << 30 : parti == 1 ? 1 : (long long)fsz + 1;
				bool	whole = g.per_dump == floor(g.per_dump);
				size_t	nsteps = dumps * static_cast<size_t>(ceil(g.per_dump));
				// stop times: every step (on and off the dump grid)
				std::vector<size_t>	stops;
				for(size_t s = 0; s < nsteps; ++s) { stops.push_back(s); }
				std::string	id0 = fmt("%s:g%zu:p%lld", c.name.c_str(), gi, part);
				StreamModel	ref;
				bool		have_ref = false;
				std::vector<std::string>	common = c.args;
				common.push_back(fmt("--max_step=%.17g", g.dt));
				common.push_back(fmt("--dump_step=%.17g", g.dt * g.per_dump));
				common.push_back(fmt("--check_step=%.17g", gi == 1 ? g.dt * 2 : 0.0));
				common.push_back(fmt("--max_part_size=%lld", part));
				if(c.big) { common.push_back("--stars_count=64"); common.push_back("--box_size=10"); }
				else { common.push_back("--initial_state=" + dir + "/init.txt"); common.push_back("--initial_type=G1"); }
				auto stop_time = [&](size_t s) { return fmt("--max_time=%.17g", g.dt * (s + (s ? g.off : 0))); };
				// all sets of at most two stops, and the run stopped at every step
				std::vector<std::vector<size_t>>	sets;
				sets.push_back({});
				for(size_t a : stops)
				{
					sets.push_back({ a });
					if(c.big && a > 3) { continue; }
					for(size_t b : stops) { if(b > a || (b == a && a != 0)) { sets.push_back({ a, b }); } }
				}
				{
					std::vector<size_t> all(stops.begin() + 1, stops.end());
					sets.push_back(all);
				}
				for(auto& set : sets)
				{
					std::string	sid;
					for(size_t x : set) { sid += fmt("%s%zu", sid.empty() ? "" : ".", x); }
					if(!mc::begin(id0 + ":" + sid)) { continue; }
					std::string	e;
					if(!have_ref)
					{
						std::vector<std::string>	a = common;
						a.push_back(stop_time(nsteps));
						a.push_back("--output=" + dir + "/ref");
						if(0 != sim(a)) { fail("uninterrupted run failed"); continue; }
						ref = StreamModel();
						e = read_all(dir + "/ref", ref);
						if(!e.empty()) { fail("uninterrupted run: " + e); continue; }
						if(whole ? ref.frames.size() != dumps + 1 : ref.frames.size() < 3) { fail(fmt("uninterrupted run has %zu frames instead of %zu", ref.frames.size(), dumps + 1)); continue; }
						have_ref = true;
					}
					fresh_dir("c05/r");
					std::vector<size_t>	seq = set;
					seq.push_back(nsteps);
					seq.push_back(nsteps);		// a finished run, resumed once more
					for(size_t i = 0; i != seq.size() && e.empty(); ++i)
					{
						std::vector<std::string>	a = common;
						a.push_back(stop_time(seq[i]));
						if(i == 0) { a.push_back("--output=" + dir + "/r/s"); }
						else { a.push_back("--resume=" + dir + "/r/s"); a.push_back("--output=" + dir + "/ignored"); }
						if(0 != sim(a)) { e = fmt("run %zu failed", i); }
					}
					if(e.empty()) { e = compare(dir + "/r/s", ref); }
					if(!e.empty()) { fail(e); }
					if(e.empty() && QFile::exists(QString::fromStdString(dir + "/ignored.idx"))) { fail("resume wrote to the output option"); }
					++S().states;
					++S().traces;
				}
			}
		}
	}
	if(mc::begin("missing"))
	{
		if(0 == sim({ "--solver=euler", "--engine=simple", "--resume=" + dir + "/nothing", "--max_time=1" })) { fail("resume of a missing stream succeeded"); }
		if(QFile::exists(QString::fromStdString(dir + "/nothing.idx"))) { fail("resume of a missing stream created it"); }
		++S().states;
		++S().traces;
	}
	return finish();
}
