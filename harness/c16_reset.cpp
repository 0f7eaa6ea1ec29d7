// C16: after any history a reset solver and a new solver behave bit for bit alike.
#include "refsolver.h"
using namespace mc;

struct Conf { std::string name; QVariantMap p; std::string id; };

static std::vector<Conf> confs()
{
	std::vector<Conf>	r;
	auto add = [&](const std::string& n, std::initializer_list<std::pair<const char*, QVariant>> o)
	{
		Conf	c = { n, QVariantMap(), n };
		for(auto& i : o) { c.p[i.first] = i.second; c.id += std::string(",") + i.first + "=" + i.second.toString().toStdString(); }
		r.push_back(c);
	};
	for(const char* n : { "euler", "midpoint", "midpoint-st", "rk4" }) { add(n, {}); }
	for(int k : { 0, 1, 3 }) { add("trapeze", { { "refine_steps_count", k } }); }
	for(const Table& t : tables())
	{
		for(bool c : { false, true }) for(double e : { 1e300, 1e-3, 1e-9 })
		{
			if(e < 1 && !t.embedded) { continue; }
			for(int k : t.implicit ? std::vector<int>{ 0, 1, 3 } : std::vector<int>{ 1 })
			{
				add(t.name, { { "correction", c }, { "error_threshold", e }, { "refine_steps_count", k }, { "max_recursion", 2 }, { "substep_subdivisions", 2 }, { "min_step", 0.0 } });
			}
		}
	}
	for(int l : { 1, 2, 3, 5 }) for(double e : { 1e300, 1e-6, 0.0 }) { add("bs", { { "max_level", l }, { "error_threshold", e } }); }
	for(int rank = 1; rank <= 5; ++rank) for(const char* s : { "euler", "midpoint-st", "trapeze", "rkdp", "rkgl", "rkf", "bs" }) for(bool c : { false, true })
	{
		add("adams", { { "rank", rank }, { "starter_solver", s }, { "correction", c }, { "error_threshold", 1e-3 }, { "max_recursion", 1 }, { "substep_subdivisions", 2 }, { "max_level", 3 } });
	}
	return r;
}

static bool same(const V& a, const V& b) { return a.size() == b.size() && 0 == memcmp(a.data(), b.data(), 8 * a.size()); }

//! Operations of a history: steps, changes from outside, resets
static const int	OPS = 5;
static void apply(int op, nbody_solver* s, Mock& m)
{
	switch(op)
	{
	case 0: s->advise(0.125); break;
	case 1: s->advise(0.03); break;
	case 2: for(double& x : m.ymem->d) { x = 0.75 - x / 2; } break;
	case 3: s->reset(); break;
	case 4: m.time += 0.5; m.step += 3; break;
	}
}

int main(int argc, char** argv)
{
	init(argc, argv);
	const size_t	dim = 3;
	for(const Conf& c : confs()) for(int rhs : { 4, 5 })
	{
		// long enough for the starting phase of every method, with a change of step
		const std::vector<double>	future = { 0.03, 0.03, 0.03, 0.03, 0.03, 0.03, 0.03, 0.06, 0.06 };
		auto test = [&](const std::string& id, const std::vector<int>& history, size_t repeat)
		{
			if(!begin(fmt("%s:rhs%d:%s", c.id.c_str(), rhs, id.c_str()))) { return; }
			Mock	a(dim), b(dim);
			a.rhs = b.rhs = mock_rhs(rhs);
			a.ymem->d = V{ 0.25, -0.5, 1.0 };
			a.time = 0.125;
			nbody_solver	*s = make_solver(c.name.c_str(), c.p), *f = make_solver(c.name.c_str(), c.p);
			if(!s || !f) { fail("no such solver"); return; }
			s->set_engine(&a);
			f->set_engine(&b);
			for(size_t i = 0; i != repeat; ++i) for(int op : history) { apply(op, s, a); ++S().transitions; }
			V		y = a.ymem->d;
			double	t = a.time;
			size_t	st = a.step;
			s->reset();
			std::string	e;
			if(!same(y, a.ymem->d) || !same_bits(t, a.time) || st != a.step) { e = "the reset changed the state of the engine"; }
			b.ymem->d = a.ymem->d;
			b.time = a.time;
			b.step = a.step;
			a.evals.clear();
			a.record = b.record = true;
			for(size_t i = 0; i != future.size() && e.empty(); ++i)
			{
				s->advise(future[i]);
				f->advise(future[i]);
				++S().transitions;
				if(!same(a.ymem->d, b.ymem->d)) { e = fmt("step %zu after the reset gives %.17g %.17g %.17g, a new solver gives %.17g %.17g %.17g", i, a.ymem->d[0], a.ymem->d[1], a.ymem->d[2], b.ymem->d[0], b.ymem->d[1], b.ymem->d[2]); }
				else if(!same_bits(a.time, b.time) || a.step != b.step) { e = fmt("step %zu after the reset: time %.17g, %.17g, step %zu, %zu", i, a.time, b.time, a.step, b.step); }
				else if(!a.problem.empty()) { e = a.problem; }
				else if(!b.problem.empty()) { e = "new solver: " + b.problem; }
			}
			delete s;
			delete f;
			if(e.empty() && (!a.problem.empty() || !b.problem.empty())) { e = a.problem + b.problem; }
			if(e.empty() && (a.extra_buffers() || b.extra_buffers())) { e = "buffers were not released"; }
			if(!e.empty()) { fail(e); }
			else { ++S().traces; }
		};
		size_t	depth = thorough() ? 5 : 3;
		Chooser	ch(true);
		do
		{
			std::vector<int>	h;
			for(size_t i = 0; i != depth; ++i)
			{
				int	op = ch.choose(OPS + 1);
				if(op == OPS) { break; }			// shorter histories too
				h.push_back(op);
			}
			test("h" + ch.str(), h, 1);
		}
		while(ch.next());
		for(size_t n = 4; n <= (thorough() ? 16u : 9u); ++n) { ++S().states; test(fmt("n%zu", n), { 0 }, n); }
		for(size_t n = 2; n <= 4; ++n) { ++S().states; test(fmt("m%zu", n), { 1, 2, 0, 0 }, n); test(fmt("r%zu", n), { 1, 0, 0, 3 }, n); }
	}
	return finish();
}
