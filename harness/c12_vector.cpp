// C12: buffer and vector operations of every host engine, all operation sequences on three buffers against plain vectors.
#include "forces.h"
using namespace mc;

typedef std::vector<double> V;

struct alien : public nbody_engine::memory
{
	size_t size() const override { return 48; }
};

static const char KINDS[] = "sobathl";

static Kind kind(int i) { return Kind{ KINDS[i], 0, 10, 1 }; }

struct Box
{
	std::unique_ptr<nbody_engine>	e;
	nbody_data						d;
	size_t							n;		// elements
	nbody_engine::memory_array		mem;
	std::vector<V>					ref;
	V								own;
	Box(int k, size_t bodies, size_t buffers) : e(make_engine(kind(k))), n(6 * bodies)
	{
		Bodies	b = layout(0, bodies);
		b.to_data(d);
		if(!e->init(&d)) { fail("init failed"); }
		mem = e->create_buffers(8 * n, buffers);
		if(mem.size() != buffers) { fail("create_buffers"); }
		ref.assign(buffers, V(n));
		for(size_t i = 0; i != buffers; ++i)
		{
			for(size_t j = 0; j != n; ++j) { ref[i][j] = double((i * 7 + j * 3) % 11) - 5; }
			e->write_buffer(mem[i], ref[i].data());
		}
		own.resize(n);
		e->read_buffer(own.data(), e->get_y());
	}
	~Box()
	{
		e->free_buffers(mem);
		if(!mem.empty()) { fail("free_buffers keeps released buffers"); }
	}
	std::string compare()
	{
		for(size_t i = 0; i != mem.size(); ++i)
		{
			V	x(n, std::nan(""));
			e->read_buffer(x.data(), mem[i]);
			for(size_t j = 0; j != n; ++j)
			{
				if(!(x[j] == ref[i][j]))
				{
					return fmt("buffer %zu element %zu of %zu is %.17g instead of %.17g", i, j, n, x[j], ref[i][j]);
				}
			}
		}
		V	y(n);
		e->read_buffer(y.data(), e->get_y());
		if(0 != memcmp(y.data(), own.data(), 8 * n)) { return "the engine state was modified"; }
		return "";
	}
};

//! One operation out of the alphabet, on the engine and on the reference
static const int OPS = 30;
static std::string apply(Box& b, int op)
{
	nbody_engine&	e = *b.e;
	auto			m = [&](size_t i) { return b.mem[i]; };
	auto			all = [&](std::function<double(size_t)> f, size_t to) { V r(b.n); for(size_t j = 0; j != b.n; ++j) { r[j] = f(j); } b.ref[to] = r; };
	auto&			r = b.ref;
	typedef nbody_engine::memory_array MA;
	switch(op)
	{
	case 0: { V v(b.n); for(size_t j = 0; j != b.n; ++j) { v[j] = (j % 5) * 0.5 - 1; } e.write_buffer(m(0), v.data()); r[0] = v; break; }
	case 1: e.fill_buffer(m(1), -0.25); all([](size_t) { return -0.25; }, 1); break;
	case 2: e.fill_buffer(m(2), 0); all([](size_t) { return 0; }, 2); break;
	case 3: e.copy_buffer(m(0), m(1)); r[0] = r[1]; break;
	case 4: e.copy_buffer(m(2), m(0)); r[2] = r[0]; break;
	case 5: e.copy_buffer(m(1), m(1)); break;
	case 6: e.fmadd_inplace(m(0), m(1), 2); all([&](size_t j) { return r[0][j] + r[1][j] * 2; }, 0); break;
	case 7: e.fmadd_inplace(m(1), m(1), -0.5); all([&](size_t j) { return r[1][j] + r[1][j] * -0.5; }, 1); break;
	case 8: e.fmadd_inplace(m(2), m(0), 0); break;
	case 9: e.fmadd(m(0), m(1), m(2), -1); all([&](size_t j) { return r[1][j] + r[2][j] * -1; }, 0); break;
	case 10: e.fmadd(m(1), m(1), m(0), 0.5); all([&](size_t j) { return r[1][j] + r[0][j] * 0.5; }, 1); break;
	case 11: e.fmadd(m(2), m(0), m(2), 3); all([&](size_t j) { return r[0][j] + r[2][j] * 3; }, 2); break;
	case 12: e.fmadd(m(1), m(1), m(1), 1); all([&](size_t j) { return r[1][j] + r[1][j]; }, 1); break;
	case 13: { double c[] = { 1, -2 }; e.fmaddn_inplace(m(0), MA{ m(1), m(2) }, c, 2); all([&](size_t j) { return r[0][j] + r[1][j] - 2 * r[2][j]; }, 0); break; }
	case 14: { double c[] = { 0, 0.5 }; e.fmaddn_inplace(m(1), MA{ m(0), m(2) }, c, 2); all([&](size_t j) { return r[1][j] + 0.5 * r[2][j]; }, 1); break; }
	case 15: { double c[] = { 3 }; e.fmaddn_inplace(m(2), MA{ m(0), m(1) }, c, 1); all([&](size_t j) { return r[2][j] + 3 * r[0][j]; }, 2); break; }
	case 16: { double c[] = { 5, 5, 5 }; e.fmaddn_inplace(m(0), MA{ m(1), m(2) }, c, 3); break; }		// more coefficients than operands
	case 17: { double c[] = { 5 }; e.fmaddn_inplace(m(0), MA{ m(1), m(2) }, c, 0); break; }				// none
	case 18: e.fmaddn_inplace(m(0), MA{ m(1), m(2) }, NULL, 2); break;
	case 19: { double c[] = { 1, 2 }; e.fmaddn(m(0), NULL, MA{ m(1), m(2) }, c, 2); all([&](size_t j) { return r[1][j] + 2 * r[2][j]; }, 0); break; }
	case 20: { double c[] = { 0, 0 }; e.fmaddn(m(1), NULL, MA{ m(0), m(2) }, c, 2); all([&](size_t) { return 0; }, 1); break; }
	case 21: { double c[] = { 0, -1 }; e.fmaddn(m(2), m(0), MA{ m(1), m(1) }, c, 2); all([&](size_t j) { return r[0][j] - r[1][j]; }, 2); break; }
	case 22: { double c[] = { 0.5, 2 }; e.fmaddn(m(1), m(1), MA{ m(0), m(2) }, c, 2); all([&](size_t j) { return r[1][j] + 0.5 * r[0][j] + 2 * r[2][j]; }, 1); break; }
	case 23: { double c[] = { 0 }; e.fmaddn(m(0), m(2), MA{ m(1), m(1) }, c, 1); r[0] = r[2]; break; }
	case 24: { double c[] = { 7 }; e.fmaddn(m(2), m(1), MA{ m(0) }, c, 0); r[2] = r[1]; break; }
	case 25: { double c[] = { 1, 1 }; e.fmaddn(m(2), m(1), MA{ m(0) }, c, 2); break; }
	case 26: e.fmaddn(m(0), m(1), MA{ m(2) }, NULL, 1); break;
	case 27:
		{
			double	c[] = { 1, 0, -4 };
			auto	k = e.create_buffer(8 * b.n);
			e.fill_buffer(k, 0);
			e.fmaddn_corr(m(0), k, MA{ m(1), m(2), m(2) }, c, 3);
			V	x(b.n, 1);
			e.read_buffer(x.data(), k);
			e.free_buffer(k);
			for(double v : x) { if(v != 0) { return fmt("an exact compensated sum left the correction %g", v); } }
			all([&](size_t j) { return r[0][j] + r[1][j] - 4 * r[2][j]; }, 0);
			break;
		}
	case 28:
		{
			double	c[] = { 1, 1 };
			auto	k = e.create_buffer(8 * b.n);
			e.fill_buffer(k, 0);
			e.fmaddn_corr(m(1), k, MA{ m(0) }, c, 2);		// refused
			e.fmaddn_corr(m(1), k, MA{ m(0) }, NULL, 1);
			e.fmaddn_corr(m(1), k, MA{ m(0) }, c, 0);
			e.free_buffer(k);
			break;
		}
	case 29:
		for(int i = 0; i != 3; ++i)
		{
			double	res = -1, want = 0;
			e.fmaxabs(m(i), res);
			for(double v : r[i]) { want = std::max(want, fabs(v)); }
			if(!(res == want)) { return fmt("maximum of buffer %d is %.17g instead of %.17g", i, res, want); }
		}
		break;
	}
	return "";
}

static double next_value(uint64_t& s)
{
	s ^= s << 13; s ^= s >> 7; s ^= s << 17;
	return ldexp(double(s >> 11) / 9007199254740992.0 - 0.5, int(s % 40) - 20);
}

int main(int argc, char** argv)
{
	init(argc, argv);
	// all operation sequences
	for(int k = 0; k != 7; ++k)
	{
		for(size_t bodies : { 1, 2, 3 }) for(int threads : { 1, 2, 5 })
		{
			if(threads > 1 && bodies == 1) { continue; }
			int	depth = thorough() ? (threads == 1 ? 4 : 3) : (threads == 1 && bodies == 2 && k < 3 ? 3 : 2);
			Chooser	c(true);
			do
			{
				std::vector<int>	ops;
				for(int i = 0; i != depth; ++i) { ops.push_back(c.choose(OPS)); }
				if(!begin(fmt("seq:%c:%zu:%d:", KINDS[k], bodies, threads) + c.str())) { continue; }
				omp_set_num_threads(threads);
				Box	b(k, bodies, 3);
				std::string	e;
				for(int op : ops)
				{
					e = apply(b, op);
					if(e.empty()) { e = b.compare(); }
					++S().transitions;
					if(!e.empty()) { fail(fmt("operation %d: ", op) + e); break; }
				}
				if(e.empty()) { ++S().traces; }
			}
			while(c.next());
		}
	}
	// each operation on every body count and number of threads
	for(int k = 0; k != 7; ++k)
	{
		for(size_t bodies = 1; bodies <= (thorough() ? 200 : 70); ++bodies)
		{
			if(!begin(fmt("size:%c:%zu", KINDS[k], bodies))) { continue; }
			omp_set_num_threads(1 + bodies % 9);
			Box	b(k, bodies, 3);
			for(int op = 0; op != OPS; ++op)
			{
				std::string	e = apply(b, op);
				if(e.empty()) { e = b.compare(); }
				++S().transitions;
				if(!e.empty()) { fail(fmt("operation %d: ", op) + e); break; }
			}
			++S().states;
			++S().traces;
		}
	}
	// linear combinations: every target, start, operand list, coefficient list and number of terms used
	for(int k = 0; k != 7; ++k)
	{
		for(size_t bodies : { 1, 3 }) for(int threads : { 1, 3 }) for(int form = 0; form != 3; ++form) for(size_t to = 0; to != 3; ++to) for(int from = -1; from != 3; ++from)
		{
			if(form != 0 && from != -1) { continue; }
			if(!begin(fmt("lin:%c:%zu:%d:%d:%zu:%d", KINDS[k], bodies, threads, form, to, from))) { continue; }
			omp_set_num_threads(threads);
			Box		b(k, bodies, 3);
			nbody_engine&			e = *b.e;
			const std::vector<V>	fresh = b.ref;
			auto	corr = e.create_buffer(8 * b.n);
			size_t	other[2] = { (to + 1) % 3, (to + 2) % 3 };
			bool	ok = true;
			for(size_t len = 0; len != 4 && ok; ++len) for(size_t lists = 0; lists != (size_t(1) << len) && ok; ++lists)
			{
				size_t	combos = 1;
				for(size_t i = 0; i != len; ++i) { combos *= 3; }
				for(size_t cc = 0; cc != combos && ok; ++cc) for(size_t used = 0; used <= len + 1 && ok; ++used)
				{
					nbody_engine::memory_array	ops;
					double						co[5] = { 9, 9, 9, 9, 9 };
					size_t						x = cc;
					for(size_t i = 0; i != len; ++i) { ops.push_back(b.mem[other[lists >> i & 1]]); co[i] = x % 3 == 0 ? 0 : x % 3 == 1 ? 1 : -2.5; x /= 3; }
					b.ref = fresh;
					for(size_t i = 0; i != 3; ++i) { e.write_buffer(b.mem[i], fresh[i].data()); }
					V	want = fresh[to];
					if(used <= len)
					{
						if(form == 0) { want = from < 0 ? V(b.n, 0) : fresh[size_t(from)]; }
						for(size_t j = 0; j != b.n; ++j) for(size_t i = 0; i != used; ++i) { want[j] += co[i] * fresh[other[lists >> i & 1]][j]; }
					}
					b.ref[to] = want;
					if(form == 0) { e.fmaddn(b.mem[to], from < 0 ? NULL : b.mem[size_t(from)], ops, co, used); }
					else if(form == 1) { e.fmaddn_inplace(b.mem[to], ops, co, used); }
					else { e.fill_buffer(corr, 0); e.fmaddn_corr(b.mem[to], corr, ops, co, used); }
					++S().transitions;
					std::string	err = b.compare();
					if(!err.empty()) { fail(fmt("%zu of %zu terms, operands %zu, coefficients %g %g %g: ", used, len, lists, co[0], co[1], co[2]) + err); ok = false; }
				}
			}
			e.free_buffer(corr);
			++S().states;
			++S().traces;
		}
	}
	// the maximum standing at every position, with either sign
	for(int k = 0; k != 7; ++k)
	{
		for(size_t bodies : { 1, 2, 3, 11, 40 }) for(int threads : { 1, 2, 3, 8 }) for(size_t at = 0; at != 6 * bodies; ++at)
		{
			if(!begin(fmt("max:%c:%zu:%d:%zu", KINDS[k], bodies, threads, at))) { continue; }
			omp_set_num_threads(threads);
			Box	b(k, bodies, 1);
			for(double top : { 6.0, -6.0, 1e300, -1e300, 5e-324, -5e-324, -HUGE_VAL })
			{
				V	v(b.n, 0);
				if(fabs(top) > 1) { for(size_t j = 0; j != b.n; ++j) { v[j] = (j % 2 ? -1 : 1) * double(j % 6); } }
				v[at] = top;
				b.e->write_buffer(b.mem[0], v.data());
				for(double start : { 0.0, 1e305 })
				{
					double	res = start;
					b.e->fmaxabs(b.mem[0], res);
					++S().transitions;
					if(!(res == fabs(top))) { fail(fmt("maximum absolute value is %g instead of %g (position %zu, result variable before: %g)", res, fabs(top), at, start)); }
				}
			}
			++S().states;
			++S().traces;
		}
	}
	// rounding: plain sums within their error bound, compensated sums much better, over many additions
	for(int k = 0; k != 7; ++k)
	{
		for(size_t terms : { 1, 2, 3, 10, 100, 1000 }) for(int pat = 0; pat != 6; ++pat)
		{
			if(!begin(fmt("round:%c:%zu:%d", KINDS[k], terms, pat))) { continue; }
			omp_set_num_threads(1 + pat % 3);
			Box		b(k, 2, 4);
			size_t	n = b.n;
			nbody_engine&	e = *b.e;
			auto	corr = e.create_buffer(8 * n);
			e.fill_buffer(corr, 0);
			uint64_t	s = 88172645463325252ULL + pat;
			V	a(n), p(n);
			std::vector<LD>	exact(n), mag(n);
			for(size_t j = 0; j != n; ++j) { a[j] = pat == 0 ? 1.0 : pat == 1 ? 1e10 : next_value(s); exact[j] = a[j]; mag[j] = fabsl(exact[j]); }
			e.write_buffer(b.mem[0], a.data());
			e.write_buffer(b.mem[1], a.data());
			for(size_t t = 0; t != terms; ++t)
			{
				V	u(n), w(n);
				double	c[2] = { pat == 0 ? 1e-17 : pat == 1 ? 0.1 : next_value(s), pat < 2 ? 0 : next_value(s) };
				for(size_t j = 0; j != n; ++j) { u[j] = pat < 2 ? 1 : next_value(s); w[j] = next_value(s); }
				if(pat == 5 && t % 2) { for(size_t j = 0; j != n; ++j) { u[j] = -u[j]; } }
				e.write_buffer(b.mem[2], u.data());
				e.write_buffer(b.mem[3], w.data());
				e.fmaddn_inplace(b.mem[0], nbody_engine::memory_array{ b.mem[2], b.mem[3] }, c, 2);
				e.fmaddn_corr(b.mem[1], corr, nbody_engine::memory_array{ b.mem[2], b.mem[3] }, c, 2);
				++S().transitions;
				for(size_t j = 0; j != n; ++j)
				{
					exact[j] += LD(u[j]) * c[0] + LD(w[j]) * c[1];
					mag[j] += fabsl(LD(u[j]) * c[0]) + fabsl(LD(w[j]) * c[1]);
				}
			}
			e.read_buffer(a.data(), b.mem[0]);
			e.read_buffer(p.data(), b.mem[1]);
			for(size_t j = 0; j != n; ++j)
			{
				LD	plain = EPS * (2 * terms + 2) * mag[j], better = EPS * (4 + 4e-13L * terms) * mag[j];
				if(!(fabsl(a[j] - exact[j]) <= plain)) { fail(fmt("sum %.17g instead of %.17Lg", a[j], exact[j])); break; }
				if(!(fabsl(p[j] - exact[j]) <= better)) { fail(fmt("compensated sum %.17g instead of %.17Lg: error %.3Lg of %.3Lg", p[j], exact[j], fabsl(p[j] - exact[j]), better)); break; }
			}
			e.free_buffer(corr);
			++S().states;
			++S().traces;
		}
	}
	// foreign buffers and mismatching sizes are refused without effect
	for(int k = 0; k != 7; ++k)
	{
		for(int op = 0; op != 22; ++op)
		{
			if(!begin(fmt("refuse:%c:%d", KINDS[k], op))) { continue; }
			Box		b(k, 2, 3);
			alien	al;
			nbody_engine&	e = *b.e;
			auto&	m = b.mem;
			double	c[] = { 2, 3 }, res = 77;
			char	raw[256];
			memset(raw, 'x', sizeof raw);
			typedef nbody_engine::memory_array MA;
			nbody_engine::memory*	other = e.create_buffer(8 * (b.n + 1));
			nbody_engine::memory*	tiny = e.create_buffer(8);
			switch(op)
			{
			case 0: e.read_buffer(raw, &al); for(char ch : raw) { if(ch != 'x') { fail("read from a foreign buffer wrote something"); break; } } break;
			case 1: e.write_buffer(&al, raw); break;
			case 2: e.copy_buffer(m[0], &al); break;
			case 3: e.copy_buffer(&al, m[0]); break;
			case 4: e.fill_buffer(&al, 1); break;
			case 5: e.fmadd_inplace(m[0], &al, 2); break;
			case 6: e.fmadd_inplace(&al, m[0], 2); break;
			case 7: e.fmadd(m[0], &al, m[1], 2); break;
			case 8: e.fmadd(m[0], m[1], &al, 2); break;
			case 9: e.fmadd(&al, m[0], m[1], 2); break;
			case 10: e.fmaddn_corr(&al, m[0], MA{ m[1] }, c, 1); break;
			case 11: e.fmaddn_corr(m[0], &al, MA{ m[1] }, c, 1); break;
			case 12: e.fmaddn_corr(m[0], m[1], MA{ m[2], &al }, c, 2); break;
			case 13: e.fmaxabs(&al, res); if(res != 77) { fail("maximum of a foreign buffer"); } break;
			case 14: e.copy_buffer(m[0], other); break;
			case 15: e.copy_buffer(m[0], tiny); break;
			case 16: e.copy_buffer(tiny, m[0]); break;
			case 17: e.fcompute(0, &al, m[0]); break;
			case 18: e.fcompute(0, m[0], &al); break;
			case 19: e.clamp(&al, 1e-3); break;
			case 20: e.copy_buffer(m[0], NULL); break;
			case 21: e.fmadd_inplace(m[0], NULL, 1); e.fmadd(m[0], NULL, m[1], 1); e.fmadd(m[0], m[1], NULL, 1); break;
			}
			++S().transitions;
			std::string	err = b.compare();
			if(!err.empty()) { fail(err); }
			e.free_buffer(other);
			e.free_buffer(tiny);
			e.free_buffer(NULL);
			++S().states;
			++S().traces;
		}
	}
	// buffers of any size: write, read, fill, copy
	for(int k = 0; k != 7; ++k)
	{
		for(size_t elems = 1; elems <= 40; ++elems)
		{
			if(!begin(fmt("buf:%c:%zu", KINDS[k], elems))) { continue; }
			omp_set_num_threads(1 + elems % 4);
			Box		b(k, 3, 1);
			nbody_engine&	e = *b.e;
			auto	x = e.create_buffers(8 * elems, 3);
			V		v(elems), z(elems, std::nan("")), w(elems);
			for(size_t j = 0; j != elems; ++j) { v[j] = j + 0.5; w[j] = -1.0 * j; }
			std::string	err;
			for(auto q : x) { if(q->size() != 8 * elems) { err = fmt("buffer of %zu bytes has size %zu", 8 * elems, q->size()); } }
			e.write_buffer(x[0], v.data());
			e.write_buffer(x[1], w.data());
			e.fill_buffer(x[2], 3);
			e.copy_buffer(x[2], x[0]);
			e.fill_buffer(x[0], -7.25);
			for(size_t i = 0; i != 3; ++i)
			{
				e.read_buffer(z.data(), x[i]);
				for(size_t j = 0; j != elems; ++j)
				{
					double	want = i == 0 ? -7.25 : i == 1 ? w[j] : v[j];
					if(!(z[j] == want)) { err = fmt("buffer %zu element %zu is %g instead of %g", i, j, z[j], want); }
				}
			}
			e.free_buffers(x);
			if(!err.empty()) { fail(err); }
			++S().transitions;
			++S().states;
			++S().traces;
		}
	}
	// bodies in and out, any values
	for(int k = 0; k != 7; ++k)
	{
		for(size_t bodies = 1; bodies <= 70; ++bodies)
		{
			if(!begin(fmt("init:%c:%zu", KINDS[k], bodies))) { continue; }
			const double	special[] = { 0.0, -0.0, 5e-324, -1e-310, 1e308, -HUGE_VAL, std::nan(""), 1.0 / 3, -1.5 };
			nbody_data		d;
			Bodies			b = layout(2, bodies);
			for(size_t j = 0; j != 6 * bodies; ++j) { if(j % 4 != 1) { b.y[j] = special[j % 9]; } }
			for(size_t i = 0; i != bodies; ++i) { b.m[i] = 1 + i; }
			b.to_data(d);
			d.set_time(1.25);
			d.set_step(17);
			nbody_data		d2 = d;
			std::unique_ptr<nbody_engine>	e(make_engine(kind(k)));
			std::string		err;
			if(!e->init(&d)) { err = "init failed"; }
			if(e->problem_size() != 6 * bodies) { err = "problem size"; }
			V	y(6 * bodies);
			e->read_buffer(y.data(), e->get_y());
			if(0 != memcmp(y.data(), b.y.data(), 8 * y.size())) { err = "the engine state is not what was loaded"; }
			for(size_t i = 0; i != bodies; ++i) { d2.get_vertites()[i] = nbvertex_t(7, 7, 7); d2.get_velosites()[i] = nbvertex_t(8, 8, 8); }
			for(int pass = 0; pass != 2; ++pass)
			{
				nbody_data&	o = pass ? d : d2;
				e->get_data(&o);
				for(size_t i = 0; i != bodies; ++i)
				{
					double	got[6] = { o.get_vertites()[i].x, o.get_vertites()[i].y, o.get_vertites()[i].z,
									   o.get_velosites()[i].x, o.get_velosites()[i].y, o.get_velosites()[i].z };
					for(int q = 0; q != 6; ++q) { if(!same_bits(got[q], b.y[q * bodies + i])) { err = fmt("body %zu component %d is %g instead of %g", i, q, got[q], b.y[q * bodies + i]); } }
					if(o.get_mass()[i] != 1 + i) { err = "mass changed"; }
				}
			}
			// time and step
			if(e->get_time() != 1.25 || e->get_step() != 17) { err = "time or step not taken over"; }
			e->advise_time(0.5);
			if(e->get_time() != 1.75 || e->get_step() != 18 || d.get_time() != 1.75 || d.get_step() != 18) { err = "advance of time or step"; }
			e->set_time(3);
			e->set_step(5);
			if(e->get_time() != 3 || e->get_step() != 5) { err = "setting time or step"; }
			for(uint64_t big = 1; big != 0; big <<= 1)
			{
				e->set_step(big - 1);
				if(e->get_step() != big - 1) { err = fmt("step %llu set, %llu read", (unsigned long long)(big - 1), (unsigned long long)e->get_step()); }
				e->advise_time(0);
				if(e->get_step() != big || d.get_step() != big || e->get_time() != 3) { err = fmt("step %llu advanced to %llu", (unsigned long long)(big - 1), (unsigned long long)e->get_step()); }
				double	t = ldexp(1.0 + ldexp(1, -52), int(bodies % 200) - 60);
				e->set_time(t);
				if(!same_bits(e->get_time(), t) || !same_bits(d.get_time(), t)) { err = fmt("time %a set, %a read", t, e->get_time()); }
				e->set_time(3);
			}
			e->read_buffer(y.data(), e->get_y());
			if(0 != memcmp(y.data(), b.y.data(), 8 * y.size())) { err = "the engine state changed"; }
			if(!err.empty()) { fail(err); }
			++S().transitions;
			++S().states;
			++S().traces;
		}
	}
	return finish();
}
