// C20: options of the simulation program: its output against the same simulation put together directly.
#include "stream_model.h"
#include "nbody_engines.h"
#include "nbody_solvers.h"
using namespace mc;

int nbody_simulation_main(int argc, char* argv[]);

static int sim(std::vector<std::string> s)
{
	s.insert(s.begin(), "nbody-simulation");
	std::vector<char*>	v;
	for(auto& x : s) { v.push_back(&x[0]); }
	v.push_back(nullptr);
	++S().transitions;
	return nbody_simulation_main(static_cast<int>(s.size()), v.data());
}

static std::string slurp(const std::string& p)
{
	QFile	f(QString::fromStdString(p));
	if(!f.open(QFile::ReadOnly)) { return "?"; }
	QByteArray	b = f.readAll();
	return std::string(b.data(), b.size());
}

//! All files of a folder
static std::map<std::string, std::string> files(const std::string& dir)
{
	std::map<std::string, std::string>	r;
	for(const QString& n : QDir(QString::fromStdString(dir)).entryList(QDir::Files)) { r[n.toStdString()] = slurp(dir + "/" + n.toStdString()); }
	return r;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	std::string	dir = fresh_dir("c20");
	std::string	g1 = dir + "/g1.txt", zeno = dir + "/a=b.txt";
	{
		QFile	f(QString::fromStdString(g1)), z(QString::fromStdString(zeno));
		if(!f.open(QFile::WriteOnly) || !z.open(QFile::WriteOnly)) { return 2; }
		f.write("0.1 0.2 7.5 0.01 -0.02 0.3 1.25\n2 0.5 -0.25 0 1 0.1 0.5\n-1.5 2.25 0.3 0.7 0.2 -0.4 0.75\n");
		z.write("2\n3\n0\n1.5\n2.5\n0 1 2\n3 4 5\n.1 .2 .3\n.4 .5 .6\n");
	}
	struct Dim { const char* name; std::vector<std::string> values; };
	const std::vector<Dim>	dims =
	{
		{ "initial", { "", "g1", "zeno", "si" } }, { "stars_count", { "", "1", "65" } }, { "box_size", { "", "10.5" } }, { "max_part_size", { "", "1", "9000" } },
		{ "max_time", { "0.045", "0.1" } }, { "dump_step", { "", "0.02", "0" } }, { "check_step", { "", "0.01" } }, { "max_step", { "", "0.005" } }, { "check_list", { "", "PLEV" } },
	};
	Chooser	c(true);
	do
	{
		std::vector<std::string>	v, a;
		for(const Dim& d : dims) { v.push_back(d.values[c.choose(int(d.values.size()))]); }
		if(!v[0].empty() && !v[1].empty()) { continue; }		// nothing is generated
		if(!begin("p:" + c.str())) { continue; }
		for(size_t i = 1; i != dims.size(); ++i) { if(!v[i].empty()) { a.push_back(std::string("--") + dims[i].name + "=" + v[i]); } }
		if(v[0] == "g1") { a.push_back("--initial_type=G1"); a.push_back("--initial_state=" + g1); }
		if(v[0] == "si") { a.push_back("--initial_state=" + g1); a.push_back("--initial_type=SI"); }
		if(v[0] == "zeno") { a.push_back("--initial_state=" + zeno); }
		std::string	out = fresh_dir("c20/out"), ref = fresh_dir("c20/ref");
		a.insert(a.begin() + a.size() / 2, "--engine=simple");
		a.insert(a.begin(), "--solver=midpoint");
		a.push_back("--output=" + out + "/s");
		if(S().counter % 2) { std::reverse(a.begin(), a.end()); }
		int	rc = sim(a);
		// the same by hand
		nbody_data	data;
		if(v[0] == "g1") { data.load_initial(QString::fromStdString(g1), "G1"); }
		else if(v[0] == "si") { data.load_initial(QString::fromStdString(g1), "SI"); }
		else if(v[0] == "zeno") { data.load_initial(QString::fromStdString(zeno), "Zeno"); }
		else { double b = v[2].empty() ? 100 : strtod(v[2].c_str(), nullptr); data.make_universe(v[1].empty() ? 64 : atoi(v[1].c_str()), b, b, b); }
		nbody_engine_simple	e;
		e.init(&data);
		std::string	err;
		{
			nbody_data_stream	st;
			nbody_solver_midpoint	s;
			s.set_engine(&e);
			s.set_time_step(1e-9, v[7].empty() ? 1e-2 : strtod(v[7].c_str(), nullptr));
			st.open(QString::fromStdString(ref + "/s"), v[3].empty() ? 1 << 30 : atoi(v[3].c_str()));
			int	rr = s.run(&data, &st, strtod(v[4].c_str(), nullptr), v[5].empty() ? 1e-2 : strtod(v[5].c_str(), nullptr), 0);
			if(rc != rr) { err = fmt("the program returned %d instead of %d", rc, rr); }
		}
		std::map<std::string, std::string>	x = files(out), y = files(ref);
		if(err.empty() && x.size() != y.size()) { err = fmt("%zu files instead of %zu", x.size(), y.size()); }
		for(auto& i : y)
		{
			if(!x.count(i.first)) { err = "no file " + i.first; }
			else if(err.empty() && x[i.first] != i.second) { err = "another content of " + i.first; }
		}
		if(!err.empty()) { for(auto& s : a) { err += " " + s; } fail(err); }
		else { ++S().traces; }
	}
	while(c.next());
	// refused
	const std::vector<std::vector<std::string>>	BAD = { { "--engine=none", "--solver=rk4" }, { "--engine=simple", "--solver=none" }, { "--solver=rk4" }, { "--engine=simple" },
		{ "--engine=simple", "--solver=rk4", "--initial_state=" + g1 }, { "--engine=simple", "--solver=rk4", "--initial_state=" + g1, "--initial_type=none" }, { "--engine=simple", "--solver=rk4", "--initial_state=" + dir + "/missing" },
		{ "--engine=simple", "--solver=rk4", "--resume=" + dir + "/missing" }, { "--engine=simple_bh", "--solver=rk4", "--tree_layout=x" } };
	for(size_t i = 0; i != BAD.size(); ++i)
	{
		if(!begin(fmt("refused:%zu", i))) { continue; }
		++S().states;
		std::string	out = fresh_dir("c20/out");
		std::vector<std::string>	a(BAD[i]);
		a.push_back("--output=" + out + "/s");
		a.push_back("--max_time=0.01");
		if(0 == sim(a)) { fail("wrong options were accepted"); }
		else if(!files(out).empty()) { fail("files were written"); }
		else { ++S().traces; }
	}
	return finish();
}
