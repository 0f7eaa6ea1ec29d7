// C25: export of a recording: all completion orders of the writers, everything a user can do meanwhile, all failures of rendering.
#include "player.h"
#include "nbody_frame_compressor_image.h"
#include "nbody_frame_compressor_opencv.h"
#include <opencv2/videoio.hpp>
#include <dlfcn.h>
using namespace mc;

// ---- what the outside world answers ----
static int			g_threads = 2;
static bool			g_real_save = false, g_open_works = true;
static std::string	g_answer, g_filter;
static int			g_dialogs = 0;
static std::map<std::string, std::vector<int>>	g_saved;		// file name -> pictures written to it
static std::map<std::string, QImage>	g_small;
static std::string	g_world_error;
static bool			g_remember_images = false;

int QThread::idealThreadCount() noexcept { return g_threads; }

bool QImage::save(const QString& name, const char* format, int quality) const
{
	if(g_real_save)
	{
		typedef bool (*F)(const QImage*, const QString&, const char*, int);
		static F	f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "_ZNK6QImage4saveERK7QStringPKci"));
		return f(this, name, format, quality);
	}
	std::string	n = name.toStdString();
	if(g_remember_images) { g_saved[n].push_back(0); g_small[n] = copy(); }
	else { g_saved[n].push_back(vgl::image_id(*this)); }
	if(format && qstricmp(format, "PNG") != 0) { g_world_error = "a frame is not saved as PNG"; }
	QFile	q(name);
	if(!q.open(QFile::WriteOnly)) { return false; }
	return true;
}

QString QFileDialog::getSaveFileName(QWidget*, const QString&, const QString&, const QString& filter, QString* selected, QFlags<QFileDialog::Option>)
{
	++g_dialogs;
	if(g_answer.empty()) { return QString(); }
	QString	f = filter;
	for(const QString& i : f.replace(";;", "\n").split('\n')) if(i.contains(QString::fromStdString(g_filter)) && selected) { *selected = i; }
	return QString::fromStdString(g_answer);
}

struct Video { std::string name; int width = 0, height = 0, opened = 0; double fps = 0; bool color = false, open = false; std::vector<int> ids; std::vector<cv::Mat> mats; };
static std::map<const void*, Video>	g_video;
static std::vector<Video>			g_videos;		// finished ones

namespace cv {
bool VideoWriter::isOpened() const { return g_video.count(this) && g_video[this].open; }
bool VideoWriter::open(const String& name, int, double fps, Size size, bool color)
{
	Video&	v = g_video[this];
	v.name = name;
	v.width = size.width;
	v.height = size.height;
	v.fps = fps;
	v.color = color;
	++v.opened;
	v.open = g_open_works;
	return v.open;
}
bool VideoWriter::open(const String& name, int, int f, double fps, Size size, bool color) { return open(name, f, fps, size, color); }
void VideoWriter::write(InputArray a)
{
	Video&	v = g_video[this];
	if(!v.open) { g_world_error = "frame written to a video that is not open"; return; }
	Mat		m = a.getMat();
	if(m.type() != CV_8UC3 || m.cols != v.width || m.rows != v.height) { g_world_error = "frame of another size or type than the video"; return; }
	if(g_remember_images) { v.mats.push_back(m.clone()); return; }
	QImage	img(m.cols, m.rows, QImage::Format_RGB888);
	for(int y = 0; y != m.rows; ++y)
	{
		const uchar*	s = m.ptr(y);
		uchar*	d = img.scanLine(y);
		for(int x : { 0, 1, m.cols / 2, m.cols - 1 }) { d[3 * x] = s[3 * x + 2]; d[3 * x + 1] = s[3 * x + 1]; d[3 * x + 2] = s[3 * x]; }
	}
	v.ids.push_back(vgl::image_id(img));
}
VideoWriter& VideoWriter::operator<<(const Mat& m) { write(m); return *this; }
void VideoWriter::release() { if(g_video.count(this)) { g_videos.push_back(g_video[this]); g_video.erase(this); } }
VideoWriter::~VideoWriter() { release(); }
}

// ---- who finishes when ----
static std::function<void()>	g_look = [] {};
namespace vtask { void look() { g_look(); } }

static void world_reset()
{
	g_saved.clear();
	g_small.clear();
	g_videos.clear();
	g_video.clear();
	g_world_error.clear();
	g_dialogs = 0;
	g_open_works = true;
	g_real_save = g_remember_images = false;
	vtask::tasks().clear();
	vgl::exported().clear();
	vgl::error().clear();
	vgl::fbo_op = [](int) { return true; };
	vgl::on_exported = [] {};
	g_look = [] { for(auto& t : vtask::tasks()) if(!t->done) { vtask::finish(*t); return; } };
}

static QImage small_image(int k, int w, int h)
{
	QImage	i(w, h, QImage::Format_ARGB32_Premultiplied);
	for(int y = 0; y != h; ++y) for(int x = 0; x != w; ++x) { i.setPixel(x, y, qRgb(10 + k, 20 + 3 * x, 30 + 5 * y)); }
	return i;
}

//! All orders in which writers may finish
static void schedules(const std::string& dir, int frames, int threads)
{
	std::string	id = fmt("sched:%d:%d", frames, threads);
	if(!mc::begin(id)) { return; }
	Chooser	c;
	uint64_t	n = 0;
	do
	{
		world_reset();
		g_remember_images = true;
		g_threads = threads;
		std::string	d = dir + "/png", e;
		int		idle = 0;
		auto	some = [&](int none)
		{
			std::vector<vtask::Task*>	p;
			for(auto& t : vtask::tasks()) if(!t->done) { p.push_back(t.get()); }
			if(p.empty()) { return; }
			int	k = c.choose(int(p.size()) + none);
			if(k < int(p.size())) { vtask::finish(*p[k]); idle = 0; }
			else { ++idle; }
		};
		g_look = [&] { some(idle < 1 ? 1 : 0); };
		{
			nbody_frame_compressor_image	w;
			if(!w.set_destination(QString::fromStdString(d))) { e = "destination refused"; }
			for(int k = 0; k != frames && e.empty(); ++k)
			{
				QImage	img = small_image(k, 4, 3);
				w.push_frame(img, k);
				img.fill(0);
				++S().transitions;
				if(int(vtask::pending()) > threads) { e = fmt("%zu pictures wait after frame %d", vtask::pending(), k); }
			}
		}
		if(e.empty() && vtask::pending()) { e = fmt("%zu frames are not written in the end", vtask::pending()); }
		for(int k = 0; k != frames && e.empty(); ++k)
		{
			std::string	f = d + fmt("/%08d.png", k);
			if(g_saved[f].size() != 1) { e = fmt("frame %d is written %zu times", k, g_saved[f].size()); }
			else if(g_small[f].convertToFormat(QImage::Format_ARGB32_Premultiplied) != small_image(k, 4, 3)) { e = fmt("frame %d is not the picture given", k); }
		}
		if(e.empty() && int(g_saved.size()) != frames) { e = fmt("%zu files for %d frames", g_saved.size(), frames); }
		if(e.empty()) { e = g_world_error; }
		vtask::tasks().clear();
		if(!e.empty()) { fail(e + " [" + c.str() + "]"); return; }
		++S().traces;
		++n;
		if(n % 512 == 0) { arm(); }
	}
	while(c.next());
	S().extra["schedules"] += n;
}

//! Videos keep every frame as it was given, whatever its size
static void video(const std::string& dir, int w, int h, int frames)
{
	if(!begin(fmt("video:%dx%d:%d", w, h, frames))) { return; }
	world_reset();
	g_remember_images = true;
	++S().states;
	std::string	e;
	{
		nbody_frame_compressor_opencv	c;
		if(!c.set_destination(QString::fromStdString(dir + "/v.avi"))) { e = "destination refused"; }
		for(int k = 0; k != frames; ++k) { c.push_frame(small_image(k, w, h), k); ++S().transitions; }
	}
	if(e.empty() && (g_videos.size() != 1 || g_videos[0].opened != 1)) { e = "not one video"; }
	if(e.empty() && (g_videos[0].width != w || g_videos[0].height != h || !(g_videos[0].fps > 0) || !g_videos[0].color)) { e = "wrong shape of the video"; }
	if(e.empty() && int(g_videos[0].mats.size()) != frames) { e = fmt("%zu frames in the video", g_videos[0].mats.size()); }
	for(int k = 0; k != frames && e.empty(); ++k)
	{
		QImage	want = small_image(k, w, h);
		const cv::Mat&	m = g_videos[0].mats[k];
		for(int y = 0; y != h; ++y) for(int x = 0; x != w; ++x)
		{
			const uchar*	p = m.ptr(y) + 3 * x;
			QRgb	q = want.pixel(x, y);
			if(p[0] != qBlue(q) || p[1] != qGreen(q) || p[2] != qRed(q)) { e = fmt("pixel (%d, %d) of frame %d", x, y, k); }
		}
	}
	if(e.empty()) { e = g_world_error; }
	if(!e.empty()) { fail(e); }
	else { ++S().traces; }
}

// ---- the whole player ----
static const char* EVENTS[] = { "none", "cancel", "x", "tick", "move", "zoom", "split", "color", "again", "close" };

struct Session
{
	std::vector<std::string>	events;			// after each exported frame
	std::string		before;						// done before recording: "", play, s2, split
	bool			avi = false;
	std::string		name = "out";
	int				fault_frame = -1, fault_op = -1;
	bool			lifo = false;
};

static QProgressDialog* dialog()
{
	QProgressDialog*	r = nullptr;
	for(QWidget* w : QApplication::topLevelWidgets())
	{
		QProgressDialog*	d = qobject_cast<QProgressDialog*>(w);
		if(d && d->isVisible()) { r = d; }
	}
	return r;
}

static std::string g_dir;

//! Errors of the conserved quantities as the last look at a hundredth frame found them
struct Stats { bool known[3] = { false, false, false }; double err[3] = { 0, 0, 0 }; };

static std::string check_stats(const vgl::Picture& p, const Stats& s)
{
	const char*	n[3] = { "dP", "dL", "dE" };
	for(int k = 0; k != 3; ++k)
	{
		int		seen = 0;
		double	v = 0;
		for(auto& t : p.texts) if(t.text.compare(0, 2, n[k]) == 0) { ++seen; v = atof(t.text.substr(t.text.find('=') + 1).c_str()); }
		if(seen != int(s.known[k])) { return fmt("%s is %s", n[k], seen ? "shown although it is not known" : "not shown"); }
		if(seen && fabs(v - s.err[k]) > 0.006 * fabs(s.err[k]) + 1e-300) { return fmt("%s reads %g instead of %g", n[k], v, s.err[k]); }
	}
	return "";
}

static std::string session(const Recording& r, const Session& s, const char* checks = "PLV", bool stats = false)
{
	world_reset();
	g_threads = 2;
	const int	N = int(r.m.frames.size());
	std::string	e, out = g_dir + "/" + s.name;
	auto	p = std::unique_ptr<Player>(new Player);
	e = p->open(r.base, checks);
	if(!e.empty()) { return e; }
	if(s.lifo) { g_look = [] { auto& t = vtask::tasks(); for(size_t i = t.size(); i--;) if(!t[i]->done) { vtask::finish(*t[i]); return; } }; }
	if(s.before == "play") { p->act["Start"]->trigger(); settle(); clock_driver().pass(2000); settle(); }
	if(s.before == "s2") { p->timeline->setValue(2); settle(); }
	if(s.before == "split") { p->double_click(0.8, 0.8); settle(); clock_driver().pass(600); settle(); }
	if(s.before == "stereo") { p->stereo->setValue(20); settle(); }
	struct Shot { Expected e; int level; };
	std::vector<Shot>	shots;
	int		level = 0, most = 0, cancelled_after = -1, nested = 0;
	bool	closed = false;
	size_t	event = 0;
	int		renders = 0;
	vgl::fbo_op = [&](int op)
	{
		if(op == 0) { ++renders; }
		return !(renders - 1 == s.fault_frame && op == s.fault_op);
	};
	Player*	pl = p.get();
	std::string	nested_dir = g_dir + "/nested";
	std::function<void()>	record = [&]
	{
		++level;
		most = std::max(most, level);
		pl->act["Record"]->trigger();
		--level;
	};
	auto	user = [&](const std::string& what)
	{
		if(level == 0) { return; }		// the recording is over
		QProgressDialog*	d = dialog();
		bool	free = QApplication::activeModalWidget() == nullptr;
		if(what == "cancel" && d) { d->cancel(); }
		else if(what == "x" && d) { d->close(); }
		else if(what == "tick") { clock_driver().pass(1000); }
		else if(!free) { return; }		// other windows do not answer while a modal one is there
		else if(what == "move") { pl->timeline->setValue(3); }
		else if(what == "zoom") { pl->scale->setValue(250); }
		else if(what == "color") { pl->act["Color"]->trigger(); }
		else if(what == "split") { pl->double_click(0.8, 0.2); settle(); clock_driver().pass(250); }
		else if(what == "again" && !nested) { ++nested; g_answer = nested_dir; g_filter = "png"; record(); }
		else if(what == "close") { closed = true; pl->w->setAttribute(Qt::WA_DeleteOnClose, true); pl->w.release()->close(); }
	};
	vgl::on_exported = [&]
	{
		if(level == 2) { Expected x; x.m = &r.m; pl->settings(x); shots.push_back({ x, 2 }); return; }
		Expected	x;
		x.m = &r.m;
		pl->settings(x);
		shots.push_back({ x, level });
		if(vtask::pending() > size_t(g_threads) + 1) { e = fmt("%zu pictures wait", vtask::pending()); }
		std::string	ev = event < s.events.size() ? s.events[event] : "none";
		int		k = int(event++);
		if(ev == "none") { return; }
		if((ev == "cancel" || ev == "x") && cancelled_after < 0) { cancelled_after = k; }
		QTimer::singleShot(0, qApp, [&, ev] { user(ev); });
	};
	bool	returned = false;
	QTimer::singleShot(0, qApp, [&]
	{
		g_answer = s.name.empty() ? "" : out;
		g_filter = s.avi ? "avi" : "png";
		record();
		returned = true;
		QCoreApplication::quit();
	});
	QCoreApplication::exec();
	settle();
	++S().transitions;
	if(closed) { return e; }			// nothing to look at any more; memory errors end the process
	if(!returned) { return "recording does not return"; }
	if(e.empty()) { e = g_world_error; }
	if(e.empty()) { e = vgl::error(); }
	if(!e.empty()) { return e; }
	if(dialog()) { return "the progress window stays"; }
	if(vtask::pending()) { return fmt("%zu frames are not written", vtask::pending()); }
	// how far it has to have come
	int		lo = N, hi = N;
	for(int i = 0; i != N; ++i) if(!r.readable[i]) { lo = hi = std::min(lo, i); }
	if(s.fault_frame >= 0) { lo = hi = std::min(lo, s.fault_frame); }
	if(cancelled_after >= 0) { lo = std::min(lo, cancelled_after + 1); hi = std::min(hi, cancelled_after + 2); }
	if(s.name.empty()) { lo = hi = 0; }
	std::vector<int>	ids;
	if(s.avi)
	{
		if(g_videos.size() > 1) { return "more than one video"; }
		if(!g_videos.empty() && hi)
		{
			const Video&	v = g_videos[0];
			std::string		want = out;
			if(want.size() < 4 || QString::fromStdString(want).right(4).toLower() != ".avi") { want += ".avi"; }
			if(v.name != want) { return "video is written to " + v.name; }
			if(v.opened != 1 || v.width != 1920 || v.height != 1080 || !(v.fps > 0) || !v.color) { return "shape of the video"; }
			ids = v.ids;
		}
		if(!g_saved.empty()) { return "pictures written along with a video"; }
	}
	else
	{
		if(!g_videos.empty()) { for(auto& v : g_videos) if(v.opened) { return "video written along with pictures"; } }
		for(int i = 0; ; ++i)
		{
			auto	f = g_saved.find(out + fmt("/%08d.png", i));
			if(f == g_saved.end()) { break; }
			if(f->second.size() != 1) { return fmt("frame %d is written %zu times", i, f->second.size()); }
			ids.push_back(f->second[0]);
		}
		if(g_saved.size() != ids.size() + (nested ? N : 0)) { return "files that are no frames"; }
		for(auto& f : g_saved) if(!QFile::exists(QString::fromStdString(f.first))) { return f.first + " is not there"; }
	}
	if(int(ids.size()) < lo || int(ids.size()) > hi) { return fmt("%zu frames recorded, expected %d to %d", ids.size(), lo, hi); }
	nbody_data	d;
	nbody_data_stream_reader	rd;
	Stats	st;
	if(stats)
	{
		d.set_check_list(checks);
		rd.load(QString::fromStdString(r.base));
		d.resize(rd.get_body_count());
	}
	auto	picture = [&](int id, int k, int want_level) -> std::string
	{
		if(id < 0 || id >= int(vgl::exported().size())) { return fmt("frame %d is no picture of the view", k); }
		Expected	x = shots[id].e;
		x.frame = k;
		x.first = 0;
		if(shots[id].level != want_level) { return "picture of another recording"; }
		std::string	q = s.before == "split" || nested || std::count(s.events.begin(), s.events.end(), "split") ? x.compare_moving(vgl::exported()[id]) : x.compare(vgl::exported()[id], 0.5, 0.5);
		if(!q.empty()) { return fmt("picture %d: ", k) + q; }
		return "";
	};
	for(size_t k = 0; k != ids.size(); ++k)
	{
		e = picture(ids[k], int(k), 1);
		if(!e.empty()) { return e; }
		if(!stats) { continue; }
		rd.seek(k);
		rd.read(&d);
		if(k % 100 == 0)
		{
			d.print_statistics(nullptr);
			double	v[3] = { d.get_impulce_err(), d.get_impulce_moment_err(), d.get_energy_err() };
			for(int i = 0; i != 3; ++i) { st.known[i] = std::isfinite(v[i]); st.err[i] = v[i]; }
		}
		e = check_stats(vgl::exported()[ids[k]], st);
		if(!e.empty()) { return fmt("picture %zu: ", k) + e; }
	}
	if(nested) for(int k = 0; k != N; ++k)
	{
		auto	f = g_saved.find(nested_dir + fmt("/%08d.png", k));
		if(f == g_saved.end() || f->second.size() != 1) { return fmt("frame %d of the second recording", k); }
		e = picture(f->second[0], k, 2);
		if(!e.empty()) { return "second recording: " + e; }
	}
	// back to what the user selected
	Expected	x;
	x.m = &r.m;
	p->settings(x);
	x.first = 0;
	if(!r.readable[x.frame]) { return ""; }
	e = x.compare_moving(p->view->picture());
	if(!e.empty()) { return "after the recording: " + e; }
	return "";
}

int main(int argc, char** argv)
{
	init(argc, argv);
	S().case_cpu_limit = 240;
	qputenv("QT_QPA_PLATFORM", "offscreen");
	QApplication	app(argc, argv);
	app.setQuitOnLastWindowClosed(false);
	clock_driver().install();
	g_dir = fresh_dir("record");
	bool	deep = thorough();
	std::map<std::string, Recording>	R;
	R["four"] = record(g_dir, "four", 4, 0);
	R["balanced"] = record(g_dir, "balanced", 3, 5);
	R["long"] = record(g_dir, "long", 202, 0, 3, 1000000);
	R["lost"] = record(g_dir, "lost", 4, 0, 5, 240);
	QFile::remove(nbody_data_stream::make_dat_name(QString::fromStdString(R["lost"].base), 2));
	R["lost"].readable[2] = 0;

	for(int t = 1; t <= (deep ? 4 : 3); ++t) for(int n = 0; n <= (deep ? 6 : 5); ++n) { schedules(g_dir, n, t); }
	for(int w = 1; w <= 9; ++w) for(int h : { 1, 2, 5 }) { video(g_dir, w, h, 3); }
	video(g_dir, 64, 48, 1);

	auto	go = [&](const std::string& id, const char* rec, const Session& s, const char* checks = "PLV", bool stats = false)
	{
		if(!mc::begin(id)) { return; }
		++S().states;
		std::string	e = session(R[rec], s, checks, stats);
		if(!e.empty()) { fail(e); }
		else { ++S().traces; }
		rm_rf(g_dir + "/out");
		rm_rf(g_dir + "/nested");
	};
	const int	NE = sizeof EVENTS / sizeof EVENTS[0];
	// at most two events (three), at any frames
	for(int avi = 0; avi != 2; ++avi) for(const char* before : { "", "play" })
	{
		std::function<void(Session, int, int)>	rec = [&](Session s, int k, int left)
		{
			if(k == 4)
			{
				std::string	id = fmt("user:%s:%s", avi ? "avi" : "png", before);
				for(auto& i : s.events) { id += "." + i; }
				go(id, "four", s);
				return;
			}
			for(int i = 0; i != (left ? NE : 1); ++i)
			{
				Session	n = s;
				n.events.push_back(EVENTS[i]);
				rec(n, k + 1, left - (i != 0));
			}
		};
		Session	s;
		s.avi = avi;
		s.before = before;
		rec(s, 0, deep ? 3 : avi || before[0] ? 1 : 2);
	}
	for(int avi = 0; avi != 2; ++avi) for(const char* before : { "", "s2", "play", "split", "stereo" }) for(int lifo = 0; lifo != 2; ++lifo)
	{
		Session	s;
		s.avi = avi;
		s.before = before;
		s.lifo = lifo;
		go(fmt("plain:%d:%s:%d", avi, before, lifo), "four", s);
		for(int f = 0; f != 4; ++f) for(int op = 0; op != 3; ++op)
		{
			Session	q = s;
			q.fault_frame = f;
			q.fault_op = op;
			go(fmt("fault:%d:%s:%d:%d:%d", avi, before, lifo, f, op), "four", q);
		}
		go(fmt("unreadable:%d:%s:%d", avi, before, lifo), "lost", s);
	}
	for(const char* n : { "v.avi", "v", "v.AVI", "v.Avi", "avi", "a b.avi.bak", "p%1", "%2 %L1", "deep/er", "" }) for(int avi = 0; avi != 2; ++avi)
	{
		Session	s;
		s.avi = avi;
		s.name = n;
		go(fmt("name:%d:%s", avi, n), "four", s);
		if(n[0]) { rm_rf(g_dir + "/" + n); }
	}
	for(const char* checks : { "PLV", "PLVE", "", "P", "L", "E" })
	{
		Session	s;
		s.avi = true;
		go(fmt("stats:%s", checks), "balanced", s, checks, true);
		go(fmt("stats4:%s", checks), "four", s, checks, true);
	}
	{
		Session	s;
		s.avi = true;
		go("long:PLVE", "long", s, "PLVE", true);
		s.avi = false;
		go("long:png", "long", s, "PLV", true);
	}
	// real files
	if(begin("files:"))
	{
		++S().states;
		std::string	d = g_dir + "/real/deeper", e;
		world_reset();
		g_real_save = true;
		{
			nbody_frame_compressor_image	w;
			if(!w.set_destination(QString::fromStdString(d))) { e = "destination refused"; }
			for(int k = 0; k != 12 && e.empty(); ++k) { w.push_frame(small_image(k, 31, 17), k == 11 ? 123456789 : k); ++S().transitions; }
		}
		for(int k = 0; k != 12 && e.empty(); ++k)
		{
			QImage	i(QString::fromStdString(d + fmt("/%08d.png", k == 11 ? 123456789 : k)));
			if(i.convertToFormat(QImage::Format_ARGB32_Premultiplied) != small_image(k, 31, 17)) { e = fmt("file of frame %d", k); }
		}
		{
			nbody_frame_compressor_image	w;
			QFile	f(QString::fromStdString(g_dir + "/plain"));
			f.open(QFile::WriteOnly);
			if(e.empty() && w.set_destination(QString::fromStdString(g_dir + "/plain/sub"))) { e = "a destination that can't be made is accepted"; }
		}
		if(!e.empty()) { fail(e); }
		else { ++S().traces; }
	}
	return finish();
}
