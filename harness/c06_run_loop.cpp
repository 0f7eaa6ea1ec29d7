// C06: the run loop against an integer model of time, for every combination of intervals, end times and failing frames.
#include "stream_model.h"
#include "nbody_solvers.h"
#include "nbody_engines.h"
#include "nbody_step_visitor.h"
using namespace mc;

struct Event
{
	char	kind;		// 'A' advise, 'D' frame, 'V' visitor
	int		who;
	size_t	step;
	double	time;
	double	state;
	bool operator == (const Event& o) const
	{
		return kind == o.kind && who == o.who && step == o.step && fabs(time - o.time) <= 1e-9 * (1 + fabs(time)) && state == o.state;
	}
	std::string str() const { return fmt("%c%d(step %zu, time %.17g, state %g)", kind, who, step, time, state); }
};

static std::vector<Event>	LOG;
static double				want_dt;
static std::string			bad;

//! The state of all bodies is the number of steps done
struct counting_solver : public nbody_solver
{
	size_t	n = 0;
	const char* type_name() const override { return "counting"; }
	void advise(nbcoord_t dt) override
	{
		++n;
		if(dt != want_dt) { bad = fmt("step size %.17g instead of %.17g", dt, want_dt); }
		engine()->fill_buffer(engine()->get_y(), static_cast<double>(n));
		engine()->advise_time(dt);
		LOG.push_back(Event{ 'A', 0, engine()->get_step(), engine()->get_time(), static_cast<double>(n) });
	}
};

static double state_of(const nbody_data* d)
{
	double	s = d->get_vertites()[0].x;
	for(size_t i = 0; i != d->get_count(); ++i)
	{
		for(int k = 0; k != 3; ++k)
		{
			if(d->get_vertites()[i][k] != s || d->get_velosites()[i][k] != s) { return -1; }
		}
	}
	return s;
}

struct recording_stream : public nbody_data_stream
{
	int	n = 0, fail_at = -1;
	int write(const nbody_data* d) override
	{
		LOG.push_back(Event{ 'D', 0, d->get_step(), d->get_time(), state_of(d) });
		return n++ == fail_at ? -1 : 0;
	}
};

struct recording_visitor : public nbody_step_visitor
{
	int	who;
	explicit recording_visitor(int w) : who(w) {}
	void visit(const nbody_data* d) override { LOG.push_back(Event{ 'V', who, d->get_step(), d->get_time(), state_of(d) }); }
};

struct Cfg { double dt; double dump, check, end; int fail_at, visitors; bool stream; int start; bool stats; };

//! Times are counted in steps: nothing is compared near a rounding border
static int model(const Cfg& c, double t0, size_t& step, double& state, std::vector<Event>& log, int& writes, double end)
{
	double	n = t0, last_dump = t0, last_check = t0;
	auto dump = [&]() { log.push_back(Event{ 'D', 0, step, n * c.dt, state }); return writes++ == c.fail_at ? -1 : 0; };
	if(c.stream && c.dump > 0 && t0 <= 0)
	{
		if(0 != dump()) { return -1; }
	}
	while(n < end)
	{
		n += 1;
		++step;
		state = static_cast<double>(step);
		log.push_back(Event{ 'A', 0, step, n * c.dt, state });
		if(c.check > 0 && n >= last_check + c.check - 0.1)
		{
			for(int v = 0; v != c.visitors; ++v) { log.push_back(Event{ 'V', v, step, n * c.dt, state }); }
			last_check = n;
		}
		if(c.stream && c.dump > 0 && n >= last_dump + c.dump - 0.1)
		{
			if(0 != dump()) { return -1; }
			last_dump = n;
		}
	}
	return 0;
}

static std::string execute(const Cfg& c, double end2)
{
	nbody_data	d;
	for(int i = 0; i != 2; ++i) { d.add_body(nbvertex_t(0, 0, 0), nbvertex_t(0, 0, 0), 1, nbcolor_t(1, 1, 1, 1)); }
	d.set_box_size(1000);
	d.set_time(c.start * c.dt);
	nbody_engine_simple	e;
	e.init(&d);
	// the state of the simulation is the engine's
	e.fill_buffer(e.get_y(), 17);
	recording_stream	st;
	counting_solver		s;
	st.fail_at = c.fail_at;
	s.set_engine(&e);
	s.set_time_step(c.dt / 1024, c.dt);
	for(int v = 0; v != c.visitors; ++v) { s.add_check_visitor(std::make_shared<recording_visitor>(v)); }
	std::vector<Event>	want;
	size_t	step = 0;
	double	state = 17;
	int		writes = 0;
	want_dt = c.dt;
	bad.clear();
	LOG.clear();
	double	t0 = c.start;
	for(double end : { c.end, end2 })
	{
		if(std::isnan(end)) { break; }
		int rc = s.run(&d, c.stream ? &st : nullptr, end * c.dt, c.dump * c.dt, c.check * c.dt);
		++S().transitions;
		int wrc = model(c, t0, step, state, want, writes, end);
		t0 = c.start + static_cast<double>(step);
		if((rc == 0) != (wrc == 0)) { return fmt("run returned %d instead of %d", rc, wrc); }
		if(!bad.empty()) { return bad; }
		for(size_t i = 0; i != std::min(want.size(), LOG.size()); ++i)
		{
			if(!(LOG[i] == want[i])) { return fmt("event %zu is ", i) + LOG[i].str() + " instead of " + want[i].str(); }
		}
		if(LOG.size() > want.size()) { return "unexpected event " + LOG[want.size()].str(); }
		if(LOG.size() < want.size()) { return "missing event " + want[LOG.size()].str(); }
		if(rc != 0) { break; }
	}
	S().states += LOG.size();
	++S().traces;
	return "";
}

int main(int argc, char** argv)
{
	init(argc, argv);
	std::vector<double>	ratios = { 0, -1, 0.05, 0.5, 1, 1.05, 1.15, 1.5, 2, 2.05, 2.2, 3, 3.05, 7.3 };
	std::vector<double>	ends = { -1, 0, 0.5, 1, 3, 7, 7.5, 20 };
	if(thorough()) { for(double r : { 2.95, 4.0, 4.08, 4.12, 5.5, 9.99 }) { ratios.push_back(r); } ends.push_back(61); ends.push_back(12); }
	for(double dt : { 1.0 / 64, 0.01, 3.0 })
	{
		for(double dump : ratios) for(double check : ratios) for(double end : ends)
		{
			// a decimal step makes times inexact: stop between the steps
			if(dt == 0.01) { end = floor(end) - 0.5; }
			for(int start : { 0, -2, 3 }) for(int fail_at : { -1, 0, 1, 3 }) for(int visitors : { 0, 2 }) for(int stream = 0; stream != 2; ++stream)
			{
				if(!stream && fail_at != -1) { continue; }
				if(dump <= 0 && fail_at != -1) { continue; }
				if(start != 0 && dt == 3.0) { continue; }
				for(double end2 : { std::nan(""), end + 5 })
				{
					if(!std::isnan(end2) && (fail_at == 3 || start == -2)) { continue; }
					if(!mc::begin(fmt("run:dt%g:d%g:c%g:e%g:s%d:f%d:v%d:o%d:%g", dt, dump, check, end, start, fail_at, visitors, stream, end2))) { continue; }
					Cfg	c = { dt, dump, check, end, fail_at, visitors, stream != 0, start, true };
					std::string	e = execute(c, end2);
					if(!e.empty()) { fail(e); }
				}
			}
		}
	}
	return finish();
}
