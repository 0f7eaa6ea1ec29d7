// C23: generated universes, every star count and many sizes.
#include "forces.h"
using namespace mc;

static bool bits(const nbody_data& a, const nbody_data& b)
{
	size_t	n = a.get_count();
	return n == b.get_count() && a.get_box_size() == b.get_box_size() &&
		   0 == memcmp(a.get_vertites(), b.get_vertites(), n * sizeof(nbvertex_t)) && 0 == memcmp(a.get_velosites(), b.get_velosites(), n * sizeof(nbvertex_t)) &&
		   0 == memcmp(a.get_mass(), b.get_mass(), n * sizeof(nbcoord_t)) && 0 == memcmp(a.get_color(), b.get_color(), n * sizeof(nbcolor_t)) && a.is_equal(b);
}

static std::string examine(const nbody_data& d, size_t stars, double sx, double sy, double sz)
{
	const size_t	B = NBODY_DATA_BLOCK_SIZE;
	size_t	g = (stars + B - 1) / B * B;
	if(d.get_count() != 2 * g) { return fmt("%zu bodies instead of %zu", d.get_count(), 2 * g); }
	LD	R = LD(sx) / 2;
	double	box = std::max(1.0, std::max(sx, std::max(sy, sz)));
	if(d.get_box_size() != size_t(box)) { return fmt("box size %zu instead of %zu", d.get_box_size(), size_t(box)); }
	const nbvertex_t	*r = d.get_vertites(), *v = d.get_velosites();
	const nbcoord_t*	m = d.get_mass();
	LD	scale = sx + sy + sz;
	nbvertex_t	c0 = r[0], c1 = r[g];
	LD	want[2][3] = { { 0, LD(sy) / 2, LD(sz) / 2 }, { sx, LD(sy) / 2, LD(sz) / 2 } };
	for(int k = 0; k != 3; ++k)
	{
		if(!(fabsl(c0[k] - want[0][k]) <= 1e-14L * scale && fabsl(c1[k] - want[1][k]) <= 1e-14L * scale)) { return "centre of a galaxy"; }
		if(v[0][k] != -v[g][k]) { return "the impulses of the centres do not cancel"; }
	}
	if(v[0].x != 0 || v[0].z != 0 || !(v[0].y > 0)) { return "centres do not move across their axis"; }
	for(int q = 0; q != 2; ++q)
	{
		size_t	o = q * g;
		LD	total = 0;
		for(size_t i = 0; i != g; ++i) { total += m[o + i]; }
		if(!(fabsl(total - 1000) < 1e-9L)) { return fmt("total mass of galaxy %d is %.17Lg", q, total); }
		if(!(fabsl(m[o] - 999.0L) < 1e-9L)) { return fmt("mass of the centre is %.17g", m[o]); }
		std::set<std::vector<double>>	seen;
		for(size_t i = 1; i != g; ++i)
		{
			size_t	s = o + i;
			if(m[s] != m[o + 1] || !(m[s] > 0)) { return fmt("star %zu has another mass", i); }
			const nbcolor_t	&cs = d.get_color()[s], &cf = d.get_color()[o + 1];
			if(!(cs == cf)) { return fmt("star %zu has another colour", i); }
			LD	x = LD(r[s].x) - r[o].x, y = LD(r[s].y) - r[o].y, z = LD(r[s].z) - r[o].z;
			LD	vx = LD(v[s].x) - v[o].x, vy = LD(v[s].y) - v[o].y, vz = LD(v[s].z) - v[o].z;
			LD	dist = sqrtl(x * x + y * y + z * z), full = sqrtl(x * x + y * y + z * z / 0.09L);
			LD	err = 1e-15L * (scale + 1) / dist + 1e-13L;		// relative error by rounding of the coordinates
			if(!(full <= R * (1 + 4 * err))) { return fmt("star %zu is %.17Lg away from the centre, radius %.17Lg", i, full, R); }
			if(!seen.insert({ r[s].x, r[s].y, r[s].z }).second) { return fmt("star %zu stands at the place of another", i); }
			LD	mass = 999 + powl(full / R, 3), r2 = std::max(dist * dist, SOFT);
			LD	speed = sqrtl(mass / (r2 * sqrtl(r2))) * dist, got = sqrtl(vx * vx + vy * vy + vz * vz);
			LD	vtol = speed * 20 * err + 1e-13L * fabsl(v[o].y);
			if(fabsl(dist * dist - SOFT) < 1e-6L * SOFT) { continue; }
			if(!(fabsl(got - speed) <= vtol)) { return fmt("speed of star %zu is %.17Lg instead of %.17Lg", i, got, speed); }
			if(!(fabsl(vx * x + vy * y + vz * z) <= dist * vtol * 4)) { return fmt("star %zu does not move across its radius", i); }
			if(x * x + y * y > 4e-14L && (!(fabsl(vz) <= vtol) || !(x * vy - y * vx < 0))) { return fmt("star %zu does not turn with the others", i); }
		}
	}
	if(d.get_color()[1] == d.get_color()[g + 1]) { return "galaxies can't be told apart"; }
	return "";
}

int main(int argc, char** argv)
{
	init(argc, argv);
	const double	SIZE[][3] = { { 1, 1, 1 }, { 100, 100, 100 }, { 0.5, 0.5, 0.5 }, { 10, 20, 5 }, { 7.7, 1, 300.5 }, { 1e6, 1e6, 1e6 }, { 1e-3, 1e-3, 1e-3 }, { 1e-5, 2, 3 }, { 3, 1e-9, 1e9 } };
	std::vector<size_t>	counts;
	for(size_t n = 1; n <= (thorough() ? 2000u : 300u); ++n) { counts.push_back(n); }
	for(size_t n : { 1000, 1024, 4096, 10001 }) { counts.push_back(n); }
	for(size_t n : counts) for(size_t si = 0; si != sizeof SIZE / sizeof SIZE[0]; ++si)
	{
		if(!begin(fmt("u:%zu:%zu", n, si))) { continue; }
		++S().states;
		const double*	s = SIZE[si];
		nbody_data	a, b, c;
		a.make_universe(n, s[0], s[1], s[2]);
		std::string	e = examine(a, n, s[0], s[1], s[2]);
		b.make_universe(n + 9, s[1], s[0], s[2]);
		b.set_time(7);
		b.set_step(3);
		b.make_universe(n, s[0], s[1], s[2]);
		for(int i = 0; i != 3; ++i) { c.add_body(nbvertex_t(i, i, i), nbvertex_t(1, 1, 1), 5, nbcolor_t(0, 0, 0, 0), 2); }
		c.set_box_size(12345);
		c.print_statistics(NULL);
		c.make_universe(n, s[0], s[1], s[2]);
		S().transitions += 4;
		if(e.empty() && !(bits(a, b) && bits(a, c))) { e = "another universe in a used object"; }
		if(!e.empty()) { fail(e); }
		else { ++S().traces; }
	}
	return finish();
}
