// C22: periodic box. Clamping on every host engine, runs with and without clamping by every solver.
#include "refsolver.h"
#include "forces.h"
using namespace mc;

static double wrapped(double x, double b) { return x > b ? x - 2 * b : x < -b ? x + 2 * b : x; }

static std::vector<double> lattice(double b)
{
	double	up = std::nextafter(b, INFINITY), dn = std::nextafter(b, 0.0);
	return { 0.0, -0.0, b / 2, -b / 2, dn, -dn, b, -b, up, -up, 1.5 * b, -1.5 * b, 2 * b, -2 * b, 3 * b, -3 * b, 5.25 * b, -5.25 * b, 1e3 * b + 1, -1e3 * b - 1 };
}

static std::string apply(Rig& g, const Bodies& b, double box)
{
	g.e->write_buffer(g.y, b.y.data());
	std::vector<double>	own(b.y.size()), own2(b.y.size()), r(b.y.size());
	g.e->read_buffer(own.data(), g.e->get_y());
	double	t = g.e->get_time();
	size_t	st = g.e->get_step();
	g.e->clamp(g.y, box);
	++S().transitions;
	g.e->read_buffer(r.data(), g.y);
	g.e->read_buffer(own2.data(), g.e->get_y());
	if(own != own2 || g.e->get_time() != t || g.e->get_step() != st) { return "something else was changed"; }
	for(size_t i = 0; i != r.size(); ++i)
	{
		double	w = i < 3 * b.n() ? wrapped(b.y[i], box) : b.y[i];
		if(!(r[i] == w)) { return fmt("box %g, %zu bodies: component %zu of %.17g became %.17g instead of %.17g", box, b.n(), i, b.y[i], r[i], w); }
	}
	return "";
}

//! The mock engine with the periodic box and the data object of a run
struct BoxMock : Mock
{
	nbody_data*	data;
	size_t		clamps = 0;
	BoxMock(size_t dim, nbody_data* d) : Mock(dim), data(d) {}
	void advise_time(const nbcoord_t& dt) override { Mock::advise_time(dt); data->advise_time(dt); }
	void set_time(nbcoord_t t) override { Mock::set_time(t); data->set_time(t); }
	void set_step(size_t s) override { Mock::set_step(s); data->set_step(s); }
	void clamp(memory* m, nbcoord_t b) override
	{
		++clamps;
		mem*	x = rd(m, "clamp");
		if(!x) { return; }
		if(x != ymem) { bad("another buffer than the state was clamped"); }
		for(size_t i = 0; i != n / 2; ++i) { x->d[i] = wrapped(x->d[i], b); }
	}
};

int main(int argc, char** argv)
{
	init(argc, argv);
	std::vector<Kind>	kinds = { { 's', 0, 0, 0 }, { 'o', 0, 0, 0 }, { 'b', 0, 0, 0 }, { 'a', 0, 0, 2 } };
	for(const Kind& k : bh_kinds(4, 1)) { kinds.push_back(k); }
	const double	BOX[] = { 1, 2.5, 100, 4096, 0.001 };
	// one body: every combination of three coordinates
	for(const Kind& k : kinds) for(double box : BOX)
	{
		std::vector<double>	v = lattice(box);
		Bodies	b;
		b.resize(1);
		std::unique_ptr<Rig>	g;
		for(size_t i = 0; i != v.size(); ++i)
		{
			if(!begin(fmt("one:%s:%g:%zu", k.str().c_str(), box, i))) { continue; }
			if(!g) { g.reset(new Rig(k, b)); }
			std::string	e;
			for(size_t j = 0; j != v.size(); ++j) for(size_t l = 0; l != v.size() && e.empty(); ++l) for(int vel = 0; vel != 2 && e.empty(); ++vel)
			{
				++S().states;
				b.set(0, v[i], v[j], v[l]);
				for(int q = 0; q != 3; ++q) { b.y[3 + q] = vel ? v[(i + j + l + q) % v.size()] : 10 * box; }
				e = apply(*g, b, box);
			}
			if(!e.empty()) { fail(e); }
			else { ++S().traces; }
		}
	}
	// every body count, number of threads, and each single coordinate outside
	for(const Kind& k : kinds) for(int threads : { 1, 2, 3, 7 })
	{
		if(k.type != 'o' && threads > 1 && !k.bh() && k.type != 'a' && k.type != 'b') { continue; }
		for(size_t n = 1; n <= (thorough() ? 70u : 33u); ++n)
		{
			if(threads > 3 && n % 3) { continue; }
			if(!begin(fmt("many:%s:%d:%zu", k.str().c_str(), threads, n))) { continue; }
			omp_set_num_threads(threads);
			double	box = 100;
			std::vector<double>	v = lattice(box);
			Bodies	b;
			b.resize(n);
			for(size_t i = 0; i != n; ++i) { b.set(i, i, -double(i), 0.5 * i); }
			Rig		g(k, b);
			std::string	e;
			for(size_t c = 0; c != 3 * n && e.empty(); ++c)
			{
				Bodies	x(b);
				x.y[c] = 150 + c;
				e = apply(g, x, box);
				x.y[c] = -150.25 - c;
				if(e.empty()) { e = apply(g, x, box); }
				++S().states;
			}
			for(size_t s = 0; s != v.size() && e.empty(); ++s)
			{
				Bodies	x(b);
				for(size_t i = 0; i != x.y.size(); ++i) { x.y[i] = v[(i * 7 + s) % v.size()]; }
				e = apply(g, x, box);
				++S().states;
			}
			if(!e.empty()) { fail(e); }
			else { ++S().traces; }
		}
	}
	omp_set_num_threads(1);
	// runs
	std::vector<std::pair<std::string, QVariantMap>>	solvers;
	for(const char* n : ONE_STEP) for(int refine : { 1, 3 }) for(int corr = 0; corr != 2; ++corr)
	{
		QVariantMap	p;
		p["refine_steps_count"] = refine;
		p["correction"] = bool(corr);
		if(refine == 1 || !strcmp(n, "trapeze") || !strcmp(n, "rkgl") || !strcmp(n, "rklc")) { solvers.push_back(std::make_pair(std::string(n), p)); }
	}
	solvers.push_back(std::make_pair(std::string("midpoint-st"), QVariantMap()));
	for(int level : { 1, 4, 6 }) { QVariantMap p; p["max_level"] = level; solvers.push_back(std::make_pair(std::string("bs"), p)); }
	for(int rank = 1; rank <= 5; ++rank) for(const char* st : { "euler", "rk4", "rkdp", "midpoint-st" })
	{
		QVariantMap	p;
		p["rank"] = rank;
		p["starter_solver"] = st;
		solvers.push_back(std::make_pair(std::string("adams"), p));
	}
	const double	DT[] = { 0.125, 0.375, 0.5 };
	for(size_t si = 0; si != solvers.size(); ++si) for(int clamp = 0; clamp != 2; ++clamp) for(int rhs = 0; rhs != 3; ++rhs) for(double dt : DT) for(size_t box : { 1, 2, 3 }) for(size_t bodies : { 1, 3 })
	{
		const std::string&	name = solvers[si].first;
		const QVariantMap&	opt = solvers[si].second;
		std::string			starter = opt.value("starter_solver").toString().toStdString();
		if(rhs && name == "bs") { continue; }
		size_t	nsteps = thorough() ? 24 : 12, dim = 6 * bodies;
		if(!begin(fmt("run:%s:%zu:%d:%d:%g:%zu:%zu", name.c_str(), si, clamp, rhs, dt, box, bodies))) { continue; }
		++S().states;
		// constant speed; time dependent; state dependent but bounded
		auto	f = [rhs](LD t, const VL& y)
		{
			VL	r(y.size());
			for(size_t i = 0; i != y.size(); ++i)
			{
				LD	s = (i % 2 ? -1 : 1) * (0.25L + 0.25L * (i % 6));
				r[i] = rhs == 0 ? s : rhs == 1 ? s + sinl(t + i) / 2 : s + sinl(y[i] + y[(i + 1) % y.size()]) / 4;
			}
			return r;
		};
		std::string	err, first;
		int			lo = name == "adams" ? -1 : 1;
		for(int extra = 1; extra >= lo; --extra)
		{
			nbody_data	data;
			data.set_box_size(box);
			BoxMock		m(dim, &data);
			m.maximum = [](const V&) { return 0.0; };
			m.rhs = [&f](size_t, double t, const V& y) { VL r = f(t, VL(y.begin(), y.end())); return V(r.begin(), r.end()); };
			VL	y(dim), free_y;
			for(size_t i = 0; i != dim; ++i) { y[i] = m.ymem->d[i] = 0.0317 + 0.0611 * i; }
			std::unique_ptr<Ref>	ref, ref2;
			auto mk = [&]() -> Ref*
			{
				if(name != "adams") { return make_ref(name == "bs" ? "euler" : name, opt.value("refine_steps_count", 1).toInt()); }
				RefAdams*	a = new RefAdams(opt["rank"].toInt(), opt["rank"].toInt() + extra, make_ref(starter, 1));
				a->starter->f = f;
				return a;
			};
			ref.reset(mk());
			ref2.reset(mk());
			ref->f = f;
			ref2->f = f;
			free_y = y;
			std::unique_ptr<nbody_solver>	s(make_solver(name.c_str(), opt));
			s->set_engine(&m);
			s->set_time_step(dt, dt);
			s->set_clamp_to_box(clamp);
			err.clear();
			bool	as_if_off = true, reset_now = name == "midpoint-st" || starter == "midpoint-st";
			// run by run, so that the state is seen after every step
			for(size_t i = 0; i != nsteps && err.empty(); ++i)
			{
				double	t = m.time;
				s->run(&data, NULL, t + dt / 2, 0, 0);
				++S().transitions;
				if(clamp)
				{
					VL	before(y);
					for(size_t k = 0; k != dim / 2; ++k)
					{
						// right at the border rounding decides
						if(fabsl(fabsl(y[k]) - box) < 1e-9L) { err = "border"; }
						y[k] = y[k] > box ? y[k] - 2.0L * box : y[k] < -LD(box) ? y[k] + 2.0L * box : y[k];
					}
					if(reset_now && before != y) { if(RefStetter* st = dynamic_cast<RefStetter*>(ref.get())) { for(size_t k = 0; k != dim && st->started; ++k) { st->u[k] += y[k] - before[k]; st->v[k] += y[k] - before[k]; } } }
				}
				ref->step(y, t, dt);
				ref2->step(free_y, t, dt);
				if(err == "border") { err.clear(); break; }
				if(!m.problem.empty()) { err = m.problem; }
				for(size_t k = 0; k != dim; ++k)
				{
					if(!(fabsl(m.ymem->d[k] - free_y[k]) < 1e-10L)) { as_if_off = false; }
					if(err.empty() && !(fabsl(m.ymem->d[k] - y[k]) < 1e-10L)) { err = fmt("step %zu component %zu is %.17g instead of %.17Lg", i, k, m.ymem->d[k], y[k]); }
				}
				if(m.step != i + 1) { err = fmt("%zu steps instead of %zu", m.step, i + 1); }
			}
			if(!clamp && m.clamps) { err = "clamped although switched off"; }
			if(!err.empty() && clamp && reset_now && as_if_off && m.problem.empty()) { fail_known("clamp-midpoint-st", "clamping has no effect: " + err); err.clear(); }
			if(err.empty()) { break; }
			if(first.empty()) { first = err; }
		}
		if(!err.empty()) { fail(first); }
		else { ++S().traces; }
	}
	return finish();
}
