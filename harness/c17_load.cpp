// C17: initial state files. All short files over an alphabet of lines, all single defects of Zeno files, every truncation, every
// failing system call; decided by a separate parser.
#include "iohook.h"
#include "nbody_data.h"
using namespace mc;

struct Body { double v[7]; double radius; };
struct Parsed { bool ok; std::vector<Body> b; };

static std::vector<std::string> split_lines(const std::string& s)
{
	std::vector<std::string>	r;
	size_t	i = 0;
	while(i < s.size())
	{
		size_t	e = s.find('\n', i);
		std::string	l = s.substr(i, e == std::string::npos ? e : e - i);
		if(!l.empty() && l.back() == '\r') { l.pop_back(); }
		r.push_back(l);
		if(e == std::string::npos) { break; }
		i = e + 1;
	}
	return r;
}

static std::vector<std::string> words(const std::string& l)
{
	std::vector<std::string>	r(1);
	for(char c : l) { if(c == ' ') { if(!r.back().empty()) { r.push_back(""); } } else { r.back() += c; } }
	if(r.back().empty()) { r.pop_back(); }
	return r;
}

//! Decimal numbers only
static bool number(const std::string& s, double& v)
{
	size_t	i = 0, digits = 0;
	if(i < s.size() && (s[i] == '+' || s[i] == '-')) { ++i; }
	while(i < s.size() && isdigit(s[i])) { ++i; ++digits; }
	if(i < s.size() && s[i] == '.') { ++i; while(i < s.size() && isdigit(s[i])) { ++i; ++digits; } }
	if(!digits) { return false; }
	if(i < s.size() && (s[i] == 'e' || s[i] == 'E'))
	{
		++i;
		if(i < s.size() && (s[i] == '+' || s[i] == '-')) { ++i; }
		size_t	k = i;
		while(i < s.size() && isdigit(s[i])) { ++i; }
		if(k == i) { return false; }
	}
	if(i != s.size()) { return false; }
	v = strtod(s.c_str(), nullptr);
	return std::isfinite(v);
}

static Parsed parse_text(const std::string& s, double factor)
{
	Parsed	p = { true, {} };
	for(std::string l : split_lines(s))
	{
		l = l.substr(0, l.find("//"));
		std::vector<std::string>	w = words(l);
		if(w.empty()) { continue; }
		Body	b = {};
		p.ok = p.ok && w.size() >= 7;
		for(size_t i = 0; i != 8 && p.ok && i < w.size(); ++i)
		{
			double	v;
			p.ok = number(w[i], v);
			(i == 7 ? b.radius : b.v[i]) = v;
		}
		if(!p.ok) { return p; }
		b.v[6] *= factor;
		p.b.push_back(b);
	}
	return p;
}

static Parsed parse_zeno(const std::string& s)
{
	Parsed	p = { false, {} };
	std::vector<std::string>	l = split_lines(s);
	if(l.size() < 3) { return p; }
	if(l[0].empty() || l[0].size() > 6 || l[0].find_first_not_of("0123456789") != std::string::npos) { return p; }
	size_t	n = atol(l[0].c_str());
	if(l[1] != "3" || l[2].empty() || l.size() < 3 + 3 * n) { return p; }
	p.b.resize(n);
	for(size_t i = 0; i != n; ++i)
	{
		if(!number(l[3 + i], p.b[i].v[6])) { return p; }
		for(int k = 0; k != 2; ++k)
		{
			std::vector<std::string>	w = words(l[3 + n * (1 + k) + i]);
			if(w.size() != 3) { return p; }
			for(int a = 0; a != 3; ++a) { if(!number(w[a], p.b[i].v[3 * k + a])) { return p; } }
		}
		p.b[i].radius = 0;
	}
	p.ok = true;
	return p;
}

static std::string path;

static void put(const std::string& s)
{
	int	fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if(fd < 0 || ::write(fd, s.data(), s.size()) != (ssize_t)s.size()) { fprintf(stderr, "can't write\n"); _exit(2); }
	close(fd);
}

//! 0 new object, 1 object in use
static void prepare(nbody_data& d, int before)
{
	if(before)
	{
		for(int i = 0; i != 5; ++i) { d.add_body(nbvertex_t(9, 9, 9), nbvertex_t(8, 8, 8), 7, nbcolor_t(0, 1, 0, 1), 6); }
		d.set_box_size(77);
		d.set_time(3.5);
	}
}

static std::string compare(nbody_data& d, const std::vector<Body>& b, bool box)
{
	if(d.get_count() != b.size()) { return fmt("%zu bodies instead of %zu", d.get_count(), b.size()); }
	nbody_data	want;
	double		m = 1;
	for(size_t i = 0; i != b.size(); ++i)
	{
		const nbvertex_t	&r = d.get_vertites()[i], &v = d.get_velosites()[i];
		double	got[7] = { r.x, r.y, r.z, v.x, v.y, v.z, d.get_mass()[i] };
		for(int k = 0; k != 7; ++k)
		{
			if(!(got[k] == b[i].v[k])) { return fmt("body %zu column %d is %.17g instead of %.17g", i, k, got[k], b[i].v[k]); }
			if(k < 3) { m = std::max(m, b[i].v[k]); }
		}
		const nbcolor_t&	c = d.get_color()[i];
		if(c.x != 1 || c.y != 1 || c.z != 1 || c.w != 1) { return fmt("body %zu is not white", i); }
		want.add_body(r, v, got[6], c, b[i].radius);
	}
	if(!d.is_equal(want)) { return "radius of a body"; }
	if(box && m < 1e15 && d.get_box_size() != size_t(floor(m))) { return fmt("box size %zu instead of %g", d.get_box_size(), floor(m)); }
	return "";
}

static double factor(int unit)
{
	return nbody_data::get_mass_factor(unit == 0 ? eut_G1 : unit == 1 ? eut_SI : eut_au_day_kg);
}

//! how: 0 load, 1 load_initial
static void decide(const std::string& text, int unit, int how, int before)
{
	nbody_data	d;
	prepare(d, before);
	put(text);
	Parsed	p = unit == 3 ? parse_zeno(text) : parse_text(text, factor(unit));
	QString	fn = QString::fromStdString(path);
	static const char*	NAMES[4][2] = { { "G1", "g1" }, { "SI", "si" }, { "ADK", "Adk" }, { "Zeno", "zENO" } };
	bool	ok = how ? d.load_initial(fn, NAMES[unit][before]) : unit == 3 ? d.load_zeno_ascii(fn) : d.load(fn, unit == 0 ? eut_G1 : unit == 1 ? eut_SI : eut_au_day_kg);
	++S().transitions;
	std::string	e;
	if(ok != p.ok) { e = ok ? "a malformed file was loaded" : "a well formed file was rejected"; }
	else if(ok) { e = compare(d, p.b, how != 0); }
	if(!e.empty()) { fail(e + "\n" + text); }
	else { ++S().traces; }
}

int main(int argc, char** argv)
{
	init(argc, argv);
	path = fresh_dir("c17") + "/file.txt";
	// lines of a text table
	const std::vector<std::string>	L =
	{
		"1 2 3 4 5 6 7", "-1.5 2.25e1 +3 .5 5. 1E-3 2 0.125", "300.75 0 0 1 1 1 1 2 other data", "// comment", "", "   ",
		"8 7 6 5 4 3 2 // note", "   4   5 6.999 -1  -2 -3 9 ", "1 2 3 4 5 6", "x 2 3 4 5 6 7", "1 y 3 4 5 6 7", "1 2 3z 4 5 6 7", "1 2 3 1,5 5 6 7",
		"1 2 3 4 0x10 6 7", "1 2 3 4 5 --6 7", "1 2 3 4 5 6 1e", "1 2 3 4 5 6 7 big", "1 2 3 4 5 6 // 7", "1 2 3 4 5 6 7 8 // 9", "1 2 3 4 5 6 7 //8", "1e-310 1e308 -0 0.1 1e400 6 7",
		"0.1 123456789.123456789 -0 3.3333333333333333333 1e-300 6 1e-12",
	};
	for(int unit = 0; unit != 3; ++unit) for(int how = 0; how != 2; ++how) for(int before = 0; before != 2; ++before) for(int eol = 0; eol != 2; ++eol) for(int last = 0; last != 2; ++last)
	{
		size_t	depth = thorough() ? (unit == 0 && how == 1 && !before && !eol ? 4 : 3) : unit == 0 && how == 1 && before != eol ? 3 : 2;
		Chooser	c(true);
		do
		{
			std::string	t;
			for(size_t i = 0; i != depth; ++i)
			{
				int	k = c.choose(int(L.size()) + 1);
				if(k == int(L.size())) { break; }
				t += (i ? (eol ? "\r\n" : "\n") : "") + L[k];
			}
			if(last) { t += eol ? "\r\n" : "\n"; }
			if(!begin(fmt("text:%d%d%d%d%d:", unit, how, before, eol, last) + c.str())) { continue; }
			decide(t, unit, how, before);
		}
		while(c.next());
	}
	// one line of a table: every number of columns, with any one or two of them not a number
	for(int cols = 0; cols <= 11; ++cols) for(int b1 = -1; b1 < cols; ++b1) for(int b2 = b1; b2 < cols; ++b2)
	{
		if(b1 < 0 && b2 >= 0) { continue; }
		for(const char* junk : { "x", "1.5.2", "1e", "-", "7m", "#", "0x1", "inf?", "," }) for(int tail = 0; tail != 4; ++tail)
		{
			std::string	t = tail == 3 ? "9 8 7 6 5 4 3\n" : "";
			for(int i = 0; i != cols; ++i) { t += (i ? " " : "") + (i == b1 || i == b2 ? std::string(junk) : fmt("%d.5", i + 1)); }
			t += tail == 1 ? " // 1 2" : tail == 2 ? "\n9 8 7 6 5 4 3" : "";
			if(!begin(fmt("cols:%d:%d:%d:%s:%d", cols, b1, b2, junk, tail))) { continue; }
			++S().states;
			decide(t + "\n", 0, cols % 2, tail % 2);
		}
	}
	// box size: whole part of the largest coordinate, wherever it stands
	{
		const char*	C[] = { "-700.5", "-1", "0", "0.5", "1.999", "3.75", "12", "1e6" };
		for(size_t x = 0; x != 8; ++x) for(size_t y = 0; y != 8; ++y) for(size_t z = 0; z != 8; ++z) for(int two = 0; two != 3; ++two)
		{
			if(!begin(fmt("box:%zu%zu%zu:%d", x, y, z, two))) { continue; }
			++S().states;
			std::string	one = fmt("%s %s %s 5e7 -5e7 1 1\n", C[x], C[y], C[z]), other = "2 -2 1 0 0 0 1\n";
			decide(two == 0 ? one : two == 1 ? one + other : other + one, 0, 1, int(x % 2));
		}
	}
	// masses in the units of the file
	{
		const double	G = 6.674e-11, AU = 1.495978707e11, DAY = 86400;
		const double	want[3] = { 1, G, G * DAY * DAY / (AU * AU * AU) };
		for(int u = 0; u != 3; ++u)
		{
			if(!begin(fmt("unit:%d", u))) { continue; }
			if(!(fabs(factor(u) / want[u] - 1) < 1e-3)) { fail(fmt("mass factor %.17g instead of %.5g", factor(u), want[u])); }
		}
	}
	// Zeno files
	for(size_t n = 0; n <= 3; ++n)
	{
		std::vector<std::string>	l = { fmt("%zu", n), "3", "0.5" };
		for(size_t i = 0; i != n; ++i) { l.push_back(fmt("%zu.25", i + 1)); }
		for(size_t i = 0; i != n; ++i) { l.push_back(fmt("%zu.75 -%zue1 %zu5", i + 1, i + 2, i)); }
		for(size_t i = 0; i != n; ++i) { l.push_back(fmt("  %zu 1e-%zu  .5 ", i + 1, i + 2)); }
		auto join = [](const std::vector<std::string>& x) { std::string r; for(auto& s : x) { r += s + "\n"; } return r; };
		auto test = [&](const std::string& id, const std::string& t)
		{
			for(int how = 0; how != 2; ++how) for(int before = 0; before != 2; ++before)
			{
				if(!begin(fmt("zeno:%zu:%s:%d%d", n, id.c_str(), how, before))) { continue; }
				++S().states;
				decide(t, 3, how, before);
			}
		};
		test("good", join(l));
		test("more", join(l) + "1 2 3\n");
		std::string	all = join(l);
		for(size_t len = 0; len <= all.size(); ++len) { test(fmt("cut%zu", len), all.substr(0, len)); }
		const char*	BAD[] = { "", "x", "1 2", "1 2 3 4", "1 2 3 4 5 6", "1 2 3 x", "1 2 3 // 4", "1 x 3", "x 2 3", "1 2 x", "-1", "0", "1", "2", "3", "4", "1e3", "1.5", "999999999999999999999", "123456789012345678", "0x3", "1,5" };
		for(size_t i = 0; i != l.size(); ++i)
		{
			std::vector<std::string>	x(l);
			x.erase(x.begin() + i);
			test(fmt("del%zu", i), join(x));
			x = l;
			x.insert(x.begin() + i, l[i]);
			test(fmt("dup%zu", i), join(x));
			for(size_t k = 0; k != sizeof BAD / sizeof BAD[0]; ++k)
			{
				x = l;
				x[i] = BAD[k];
				test(fmt("bad%zu.%zu", i, k), join(x));
				if(!thorough()) { continue; }
				for(size_t j = i + 1; j != l.size(); ++j) for(const char* q : { "", "x", "1 2 3", "7" }) { std::vector<std::string> y(x); y[j] = q; test(fmt("two%zu.%zu.%zu%s", i, k, j, q), join(y)); }
			}
		}
	}
	// wrong type, missing file, folder
	for(const char* t : { "", "zen", "zeno ", "G", "G11", "SI ", "ADK1", "Text" })
	{
		if(!begin(fmt("type:%s", t))) { continue; }
		nbody_data	d;
		put("1 2 3 4 5 6 7\n");
		if(d.load_initial(QString::fromStdString(path), t)) { fail("an unknown type was accepted"); }
	}
	for(const char* t : { "Zeno", "G1", "SI", "ADK" }) for(int k = 0; k != 2; ++k)
	{
		if(!begin(fmt("nofile:%s:%d", t, k))) { continue; }
		nbody_data	d;
		if(d.load_initial(QString::fromStdString(k ? S().scratch : path + "-missing"), t)) { fail("a missing file was loaded"); }
	}
	// saved and loaded again
	const double	VAL[] = { 0.0, -0.0, 1, -1.0 / 3, 0.1, 1e-310, 4.9406564584124654e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 123456789.123456789, 1e22, 9007199254740993.0 };
	const size_t	NV = sizeof VAL / sizeof VAL[0];
	for(size_t a = 0; a != NV; ++a) for(size_t b = 0; b != NV; ++b) for(size_t n = 0; n <= 3; ++n) for(int old = 0; old != 2; ++old)
	{
		if(!begin(fmt("save:%zu:%zu:%zu:%d", a, b, n, old))) { continue; }
		++S().states;
		++S().transitions;
		nbody_data	d, e;
		std::vector<Body>	w;
		for(size_t i = 0; i != n; ++i)
		{
			Body	x;
			for(int k = 0; k != 7; ++k) { x.v[k] = VAL[(k % 2 ? a : b) * (i == 0) + (a * k + b + i) % NV * (i != 0)]; }
			x.radius = VAL[(a + i) % NV];
			w.push_back(x);
			d.add_body(nbvertex_t(x.v[0], x.v[1], x.v[2]), nbvertex_t(x.v[3], x.v[4], x.v[5]), x.v[6], nbcolor_t(1, 1, 1, 1), x.radius);
		}
		if(old) { put(std::string(3000, 'x')); }
		else { ::unlink(path.c_str()); }
		prepare(e, old);
		if(!d.save(QString::fromStdString(path))) { fail("save failed"); continue; }
		if(!e.load(QString::fromStdString(path))) { fail("load of a saved file failed"); continue; }
		std::string	err = compare(e, w, false);
		if(!err.empty()) { fail(err); }
		else { ++S().traces; }
	}
	// every system call of save and load failing
	for(size_t n : { 1, 20, 300 })
	{
		nbody_data	d;
		std::vector<Body>	w;
		for(size_t i = 0; i != n; ++i)
		{
			Body	x = { { 1.0 / (i + 1), -2.5 * i, 3, 4, 5, 1.0 / 3, 6 + double(i) }, 0.5 };
			w.push_back(x);
			d.add_body(nbvertex_t(x.v[0], x.v[1], x.v[2]), nbvertex_t(x.v[3], x.v[4], x.v[5]), x.v[6], nbcolor_t(1, 1, 1, 1), x.radius);
		}
		QString	fn = QString::fromStdString(path);
		::unlink(path.c_str());
		io::start(io::COUNT);
		d.save(fn);
		io::off();
		size_t	calls = io::C().ncalls;
		for(size_t at = 0; at != calls; ++at) for(size_t tear : { 0, 1, 100, 10000 }) for(int persistent = 0; persistent != 3; ++persistent)
		{
			if(!begin(fmt("savefault:%zu:%zu:%zu:%d", n, at, tear, persistent))) { continue; }
			++S().states;
			::unlink(path.c_str());
			io::start(io::FAIL, at, tear, ENOSPC, persistent == 2 ? 1 : persistent ? io::ALL : 0);
			bool	ok = d.save(fn);
			io::off();
			nbody_data	e;
			std::string	err = !ok ? "" : !e.load(fn) ? "load failed" : compare(e, w, false);
			if(!err.empty()) { fail("save reported success: " + err); }
			else { ++S().traces; }
		}
		::unlink(path.c_str());
		d.save(fn);
		nbody_data	e;
		io::start(io::COUNT, 0, 0, 0, 0, true);
		e.load(fn);
		io::off();
		calls = io::C().ncalls;
		if(calls == 0) { fail("no reading call seen"); }
		for(size_t at = 0; at != calls; ++at) for(int persistent = 0; persistent != 2; ++persistent) for(int type = 0; type != 2; ++type)
		{
			if(!begin(fmt("loadfault:%zu:%zu:%d:%d", n, at, persistent, type))) { continue; }
			++S().states;
			nbody_data	x;
			io::start(io::FAIL, at, 0, EIO, persistent ? io::ALL : 0, true);
			bool	ok = type ? x.load_initial(fn, "G1") : x.load(fn);
			io::off();
			std::string	err = ok ? compare(x, w, false) : "";
			if(!err.empty()) { fail("load reported success: " + err); }
			else { ++S().traces; }
		}
	}
	return finish();
}
