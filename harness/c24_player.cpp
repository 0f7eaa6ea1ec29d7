// C24: all short sequences of what a user can do in the player; after each the picture is compared with the recording.
#include "player.h"
using namespace mc;

namespace vtask { void look() {} }

static const char* OPS[] = { "start", "t1750", "pause", "stop", "fwd", "back", "s2", "s1", "color", "box", "stereo", "dim", "size", "zoom", "dbl0", "dbl3", "t250", "s0", "dbl1", "dbl2", "out", "resize", "drag1", "zero" };
static const int NOPS = sizeof OPS / sizeof OPS[0];

struct Model
{
	enum { STOPPED, PLAYING, PAUSED } state = STOPPED;
	double	t = 0;							// of the animation, ms
	int		shown = -1, first = -1;			// frame in the picture, frame of the volume
	double	split[2] = { 0.5, 0.5 };		// final
	double	moving = 0;						// ms until the split is there
	bool	fresh = false;					// the split started to move and no time has passed
};

static bool degenerate(const Frame& f)
{
	V3	lo, hi;
	bounds(f.r, lo, hi);
	return lo == hi;
}

static std::string step(Player& p, Model& m, const Recording& r, const std::string& op, bool& enabled)
{
	int	last = int(r.m.frames.size()) - 1, want = -1, was = p.timeline->value();
	bool	resume = false;
	enabled = true;
	auto	trigger = [&](const char* n) { if(!p.act[n]->isEnabled()) { enabled = false; return false; } p.act[n]->trigger(); return true; };
	if(op == "start")
	{
		if(trigger("Start"))
		{
			if(m.state == Model::STOPPED) { m.t = 0; want = 0; }
			resume = m.state == Model::PAUSED;
			m.state = Model::PLAYING;
		}
	}
	else if(op == "pause") { if(trigger("Pause")) { m.state = Model::PAUSED; } }
	else if(op == "stop") { if(trigger("Stop")) { m.state = Model::STOPPED; m.t = 0; want = 0; } }
	else if(op == "fwd") { if(trigger("Forward")) { m.state = Model::STOPPED; want = last; } }
	else if(op == "back") { if(trigger("Backward")) { m.t = 0; want = 0; } }
	else if(op == "color") { trigger("Color"); }
	else if(op == "box") { trigger("box"); }
	else if(op == "stereo") { p.stereo->setValue(p.stereo->value() ? 0 : 37); }
	else if(op == "dim") { p.intensity->setValue(p.intensity->value() == 255 ? 51 : 255); }
	else if(op == "size") { p.size->setValue(p.size->value() == 1 ? 2.5 : 1); }
	else if(op == "zoom") { p.scale->setValue(p.scale->value() == 100 ? 400 : 100); }
	else if(op == "out") { p.scale->setValue(p.scale->value() == 100 ? 5 : 100); }
	else if(op == "zero") { p.scale->setValue(0); }
	else if(op == "drag1")
	{
		p.timeline->setSliderDown(true);
		p.timeline->setSliderPosition(want = std::min(last, 1));
		p.timeline->setSliderDown(false);
	}
	else if(op == "resize") { p.w->resize(p.w->width() == 820 ? QSize(1003, 613) : QSize(820, 460)); }
	else if(op[0] == 's') { p.timeline->setValue(want = std::min(last, op[1] - '0')); }
	else if(op[0] == 't')
	{
		double	dt = atof(op.c_str() + 1);
		settle();
		clock_driver().pass(qint64(dt));
		if(m.state == Model::PLAYING)
		{
			m.t += dt;
			want = int(last * std::min(1.0, m.t / 5000));
			if(m.t >= 5000) { m.state = Model::STOPPED; want = last; }
		}
		m.moving = std::max(0.0, m.moving - dt);
		m.fresh = false;
	}
	else if(op.substr(0, 3) == "dbl")
	{
		int	q = op[3] - '0';
		bool	center = (m.moving == 0 || m.fresh) && ((m.split[0] == 0.5 && m.split[1] == 0.5) || m.fresh);
		// the second double click before any time has passed starts from the same place
		static double	before[2];
		if(!m.fresh) { before[0] = m.split[0]; before[1] = m.split[1]; }
		else { center = before[0] == 0.5 && before[1] == 0.5; }
		p.double_click(q & 1 ? 0.8 : 0.2, q & 2 ? 0.8 : 0.2);
		if(center) { m.split[0] = q & 1 ? 0 : 1; m.split[1] = q & 2 ? 1 : 0; }
		else { m.split[0] = m.split[1] = 0.5; }
		m.moving = 500;
		m.fresh = true;
	}
	settle();
	// going on may show the place of the animation at once, everything else stays where it is
	if(want < 0) { want = resume && p.timeline->value() != was ? int(last * std::min(1.0, m.t / 5000)) : was; }
	if(p.timeline->value() != want) { return fmt("timeline is at frame %d instead of %d", p.timeline->value(), want); }
	return "";
}

static std::string look(Player& p, Model& m, const Recording& r)
{
	if(!vgl::error().empty()) { return vgl::error(); }
	int		now = p.timeline->value();
	if(now < 0 || now >= int(r.m.frames.size())) { return fmt("timeline at %d", now); }
	if(p.timeline->minimum() != 0 || p.timeline->maximum() != int(r.m.frames.size()) - 1) { return "range of the timeline"; }
	if(r.readable[now]) { m.shown = now; }
	if(m.first < 0 && m.shown >= 0 && !degenerate(r.m.frames[m.shown])) { m.first = m.shown; }
	if(p.label->text() != QString("F%1").arg(now, 8, 10, QChar('0'))) { return fmt("frame number reads '%s' at frame %d", p.label->text().toUtf8().data(), now); }
	const bool	en[3] = { m.state != Model::PLAYING, m.state == Model::PLAYING, m.state != Model::STOPPED };
	const char*	an[3] = { "Start", "Pause", "Stop" };
	for(int i = 0; i != 3; ++i) if(p.act[an[i]]->isEnabled() != en[i]) { return fmt("'%s' is %s", an[i], en[i] ? "disabled" : "enabled"); }
	if(!p.act["Backward"]->isEnabled() || !p.act["Forward"]->isEnabled()) { return "no way to the first or last frame"; }
	if(p.size->minimum() != 1 || p.size->maximum() != 8) { return "range of star sizes"; }
	if(m.first < 0) { return ""; }
	const vgl::Picture&	pic = p.view->picture();
	if(pic.width != p.view->width() * p.view->devicePixelRatioF() || pic.height != p.view->height() * p.view->devicePixelRatioF()) { return "size of the picture"; }
	Expected	e;
	e.m = &r.m;
	p.settings(e);
	e.frame = m.shown;
	e.first = m.first;
	if(m.moving == 0)
	{
		return e.compare(pic, m.split[0], m.split[1]);
	}
	return e.compare_moving(pic);
}

static void run(const Recording& r, const std::vector<std::string>& ops, bool& useful)
{
	Player	p;
	Model	m;
	vgl::error().clear();
	vgl::current_context() = false;
	std::string	e = p.open(r.base);
	useful = true;
	if(e.empty()) { e = look(p, m, r); }
	if(!e.empty()) { e = "after the start: " + e; }
	for(size_t i = 0; i != ops.size() && e.empty(); ++i)
	{
		bool	enabled;
		e = step(p, m, r, ops[i], enabled);
		if(!enabled) { useful = false; return; }
		++S().transitions;
		if(e.empty()) { e = look(p, m, r); }
		if(!e.empty()) { e = fmt("operation %zu (%s): ", i, ops[i].c_str()) + e; }
	}
	if(!e.empty()) { fail(e); }
	else { ++S().traces; }
}

static std::vector<std::string> split(const std::string& s)
{
	std::vector<std::string>	r;
	for(const QString& i : QString::fromStdString(s).split('.', QString::SkipEmptyParts)) { r.push_back(i.toStdString()); }
	return r;
}

int main(int argc, char** argv)
{
	init(argc, argv);
	qputenv("QT_QPA_PLATFORM", "offscreen");
	QApplication	app(argc, argv);
	clock_driver().install();
	std::string	dir = fresh_dir("streams");
	std::map<std::string, Recording>	R;
	R["four"] = record(dir, "four", 4, 0);
	R["one"] = record(dir, "one", 1, 0);
	R["rest"] = record(dir, "rest", 4, 1);
	R["alike"] = record(dir, "alike", 4, 2);
	R["small"] = record(dir, "small", 4, 3);
	R["large"] = record(dir, "large", 4, 4);
	R["plane"] = record(dir, "plane", 4, 6);
	R["two"] = record(dir, "two", 2, 0, 2);
	R["many"] = record(dir, "many", 11, 0, 40, 100000);
	// a part file that ends within a frame: after the positions of frame 2
	R["torn"] = record(dir, "torn", 4, 0, 5, 240);
	{
		QString	f = nbody_data_stream::make_dat_name(QString::fromStdString(R["torn"].base), 2);
		QFile	q(f);
		if(q.size() != 240 || !q.open(QFile::ReadWrite) || !q.resize(150)) { fprintf(stderr, "unexpected part file\n"); return 2; }
		R["torn"].readable[2] = 0;
	}
	R["lost"] = record(dir, "lost", 4, 0, 5, 240);
	QFile::remove(nbody_data_stream::make_dat_name(QString::fromStdString(R["lost"].base), 1));
	R["lost"].readable[1] = 0;

	auto	explore = [&](const std::string& name, int nops, int depth)
	{
		std::function<void(std::string, int)>	rec = [&](std::string seq, int d)
		{
			if(d == depth)
			{
				if(!begin(name + ":" + seq)) { return; }
				bool	useful;
				++S().states;
				run(R[name], split(seq), useful);
				return;
			}
			for(int i = 0; i != nops; ++i) { rec(seq + (seq.empty() ? "" : ".") + OPS[i], d + 1); }
		};
		rec("", 0);
	};
	bool	deep = thorough();
	if(getenv("QT_SCALE_FACTOR"))
	{
		explore("four", NOPS, deep ? 3 : 2);
		return finish();
	}
	explore("four", NOPS, deep ? 4 : 3);
	explore("four", 8, deep ? 6 : 4);
	for(const char* n : { "one", "rest", "alike", "small", "large", "plane", "two", "many", "torn", "lost" }) { explore(n, NOPS, deep ? 3 : 2); }
	for(const char* n : { "torn", "lost" }) { explore(n, 10, deep ? 4 : 3); }
	// playing through in steps
	for(const char* n : { "four", "many", "one" })
	{
		std::string	seq = "start";
		for(int i = 0; i != 22; ++i) { seq += ".t250"; }
		if(begin(std::string("play:") + n)) { bool u; ++S().states; run(R[n], split(seq), u); }
	}
	return finish();
}
