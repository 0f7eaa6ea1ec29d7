// C09: histories of moves and force requests with a reused tree, against the partition oracle at current positions.
#include "partition.h"
using namespace mc;

static const double P[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { -7, 3, 1 }, { -7, 3, 1.25 }, { 0, 40, -30 }, { 1, 0.5, 0 }, { 20, 20, 20 } };

//! Moves of all bodies
static Bodies moved(const Bodies& b, int op)
{
	Bodies	r = b;
	size_t	n = b.n();
	auto set = [&](size_t to, size_t from) { r.set(to, b.r(from, 0), b.r(from, 1), b.r(from, 2)); };
	switch(op)
	{
	case 0: break;														// nothing moves
	case 1: for(size_t i = 0; i != n; ++i) { set(i, n - 1 - i); } break;	// mirror: everything crosses
	case 2: for(size_t i = 0; i != n; ++i) { set(i, (i + 1) % n); } break;	// rotate
	case 3: for(size_t i = 0; i != n; ++i) { set(i, i / 2); } break;		// pairs coincide
	case 4: for(size_t i = 0; i != n; ++i) { r.set(i, b.r(i, 0) * 3 + 0.125 * i, b.r(i, 1) - 5.0 * i, -b.r(i, 2)); } break;
	case 5: for(size_t i = 0; i != n; ++i) { r.set(i, P[(i * 3 + 1) % 7][0], P[(i * 5) % 7][1], P[i % 7][2]); } break;
	}
	for(size_t i = 0; i != 3 * n; ++i) { r.y[3 * n + i] = b.y[3 * n + i] + 1 + op; }
	return r;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	if(big_part())
	{
		for(size_t n : big_counts()) for(int l : { 0, 2 }) for(int op : { 1, 4 })
		{
			double	ratio = op == 1 ? 10 : 1e30;
			for(const Kind& k : bh_kinds(ratio, 1000))
			{
				if(!begin(fmt("big:%zu:%d:%d:%g:", n, l, op, ratio) + k.str())) { continue; }
				Bodies	b = layout(l, n), b2 = moved(b, op);
				omp_set_num_threads(l == 2 ? 3 : 1);
				Rig	g(k, b);
				std::string	e;
				g.e->set_step(7);
				std::vector<double>	f = g.forces(b, 0, e);
				if(e.empty()) { f = g.forces(b2, 0, e); }
				S().transitions += 2;
				if(e.empty()) { e = ratio > 1e20 ? diff_direct(b2, f, true) : diff_bound(b2, ratio, f); }
				if(!e.empty()) { fail("engine " + k.str() + ": " + e); continue; }
				++S().states;
				++S().traces;
			}
		}
		return finish();
	}
	// all histories of (move, step increment) for few bodies
	for(size_t n = 1; n <= 5; ++n)
	{
		for(size_t rate : { 0, 1, 2, 3, 1000 }) for(size_t start : { 0, 1, 5 }) for(double ratio : { 2.0, 1e30 })
		{
			size_t	depth = n <= 3 ? (thorough() ? 4 : 3) : (thorough() ? 3 : 2);
			Chooser	c(true);
			do
			{
				std::vector<int>	mv, st;
				for(size_t i = 0; i != depth; ++i) { mv.push_back(c.choose(6)); st.push_back(c.choose(3)); }
				if(!begin(fmt("hist:%zu:r%zu:s%zu:%g:", n, rate, start, ratio) + c.str())) { continue; }
				Bodies	b;
				b.resize(n);
				for(size_t i = 0; i != n; ++i) { const double* p = P[(i * 2 + n) % 7]; b.set(i, p[0], p[1], p[2]); b.m[i] = 1 + 3.0 * i; }
				for(const Kind& k : bh_kinds(ratio, rate))
				{
					Bodies	cur = b;
					Rig		g(k, b);
					std::string	e;
					g.e->set_step(start);
					for(size_t i = 0; i <= depth && e.empty(); ++i)
					{
						if(i) { cur = moved(cur, mv[i - 1]); g.e->set_step(g.e->get_step() + st[i - 1]); }
						std::vector<double>	f = g.forces(cur, 0, e);
						++S().transitions;
						if(e.empty()) { e = diff_partition(cur, ratio, f); }
						if(!e.empty()) { e = fmt("engine %s request %zu: ", k.str().c_str(), i) + e; }
					}
					if(!e.empty()) { fail(e); break; }
					++S().traces;
				}
			}
			while(c.next());
		}
	}
	// one body of a group leaves it between builds, a probe stands around the new opening limit
	for(int mm = 0; mm != 3; ++mm) for(size_t mover = 0; mover != 3; ++mover) for(int axis = 0; axis != 3; ++axis) for(int sign = -1; sign <= 1; sign += 2)
	{
		for(double out : { 0.25, 3.0, 20.0 }) for(int pdir = 0; pdir != 6; ++pdir) for(int at = 0; at != (thorough() ? 60 : 15); ++at) for(double ratio : { 1.5, 4.0 })
		{
			if(!begin(fmt("leave:%d:%zu:%d:%d:%g:%d:%d:%g", mm, mover, axis, sign, out, pdir, at, ratio))) { continue; }
			static const double	W[3][4] = { { 1, 1, 1, 1 }, { 1, 1e-3, 20, 0.5 }, { 1e-3, 50, 1, 2 } };
			Bodies	b;
			b.resize(4);
			b.set(0, 0, 0, 0);
			b.set(1, 1, 0.25, -0.5);
			b.set(2, 0.5, -0.75, 0.5);
			for(int i = 0; i != 4; ++i) { b.m[i] = W[mm][i]; }
			double	pos[3] = { 0.01, 0.02, -0.03 };
			pos[pdir / 2] += (pdir % 2 ? -1 : 1) * ratio * out * 0.07 * pow(1.09, at * (thorough() ? 1 : 4));
			b.set(3, pos[0], pos[1], pos[2]);
			Bodies	b2 = b;
			b2.y[axis * 4 + mover] += sign * out;
			for(const Kind& k : bh_kinds(ratio, 1000))
			{
				Rig	g(k, b);
				std::string	e;
				g.e->set_step(7);
				g.forces(b, 0, e);
				for(const Bodies* s : { &b2, &b })
				{
					std::vector<double>	f = g.forces(*s, 0, e);
					++S().transitions;
					if(e.empty()) { e = diff_partition(*s, ratio, f); }
					if(!e.empty()) { break; }
				}
				if(!e.empty()) { fail("engine " + k.str() + ": " + e); break; }
				++S().states;
				++S().traces;
			}
		}
	}
	// every body count: one move after the build
	for(size_t n = 1; n <= (thorough() ? 400 : 140); ++n)
	{
		for(int l : { 0, 2, 3 }) for(int op = 0; op != 6; ++op) for(double ratio : { 10.0, 1e30 })
		{
			if(!begin(fmt("set:%zu:%d:%d:%g", n, l, op, ratio))) { continue; }
			Bodies	b = layout(l, n), b2 = moved(b, op), b3 = moved(b2, 4);
			omp_set_num_threads(n % 7 == 3 ? 3 : 1);
			for(const Kind& k : bh_kinds(ratio, 1000))
			{
				Rig	g(k, b);
				std::string	e;
				g.e->set_step(7);
				for(const Bodies* s : { &b, &b2, &b3 })
				{
					std::vector<double>	f = g.forces(*s, 0, e);
					++S().transitions;
					if(e.empty()) { e = ratio > 1e20 ? diff_direct(*s, f, true) : diff_bound(*s, ratio, f); }
					if(!e.empty()) { break; }
				}
				if(!e.empty()) { fail("engine " + k.str() + ": " + e); break; }
				++S().states;
				++S().traces;
			}
		}
	}
	return finish();
}
