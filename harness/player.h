// The player under control: streams it plays, its widgets found by what the user sees, the picture it has to show.
#ifndef VERIF_PLAYER_H
#define VERIF_PLAYER_H
#include "gui/fakegui.h"
#include "common.h"
#include "stream_model.h"
#include "wgt_nbody_player.h"
#include <memory>

//! Time of animations, moved by the explorer only
class Clock : public QAnimationDriver
{
	qint64	m_now = 0;
public:
	qint64 elapsed() const override { return m_now; }
	void start() override { m_now = 0; QAnimationDriver::start(); }
	void pass(qint64 ms)
	{
		m_now += ms;
		if(isRunning()) { advance(); }
	}
};

inline Clock& clock_driver() { static Clock* c = new Clock; return *c; }

inline void settle()
{
	for(int i = 0; i != 6; ++i)
	{
		QCoreApplication::sendPostedEvents();
		QCoreApplication::processEvents();
	}
}

//! Streams of one shape, written by the library
struct Recording
{
	StreamModel		m;
	std::string		base;
	std::vector<char>	readable;
};

inline void body(nbody_data& d, double x, double y, double z, double vx, double vy, double vz, float r, float g, float b)
{
	d.add_body(nbvertex_t(x, y, z), nbvertex_t(vx, vy, vz), 1 + 0.25 * d.get_count(), nbcolor_t(r, g, b, 1), 1);
}

//! kind 0: ordinary; 1: nothing moves at first; 2: all move alike; 3: very small; 4: very large; 5: no total impulse; 6: bodies in a plane
inline Recording record(const std::string& dir, const char* name, size_t frames, int kind, size_t bodies = 5, qint64 part = 700)
{
	Recording	r;
	r.base = dir + "/" + name;
	nbody_data_stream	w;
	if(0 != w.open(QString::fromStdString(r.base), part)) { fprintf(stderr, "can't open\n"); exit(2); }
	double	scale = kind == 3 ? 1e-3 : kind == 4 ? 1e5 : 1;
	for(size_t f = 0; f != frames; ++f)
	{
		nbody_data	d;
		for(size_t i = 0; i != bodies; ++i)
		{
			double	a = 1.3 * i + 0.37 * f, e = 0.9 * i + 0.2 * f;
			double	s = kind == 1 ? 0.3 * f : 1;
			double	vx = s * (i % 4), vy = s * 0.3 * ((i + f) % 3), vz = -s * 0.2 * (i % 2);
			if(kind == 2) { vx = 1; vy = 0.5; vz = 0; }
			if(kind == 5) { vx = (i == 0 ? 1 : i == 1 ? -1 : 0), vy = vz = 0; }
			body(d, scale * (50 + 20 * cos(a) * (1 + 0.1 * i)), scale * (40 + 15 * sin(e)), kind == 6 ? 0 : scale * (30 + 10 * sin(a + e)), vx, vy, vz,
				 float(1 + i % 3) / 4, float(1 + i % 5) / 8, float(1 + (i + 2) % 4) / 8);
		}
		d.set_step(100 + 7 * f);
		d.set_time(0.125 * f);
		d.set_box_size(100);
		if(f == 0) { snapshot_header(d, r.m); }
		if(0 != w.write(&d)) { fprintf(stderr, "can't write\n"); exit(2); }
		r.m.frames.push_back(snapshot(d));
	}
	r.readable.assign(frames, 1);
	return r;
}

typedef std::array<double, 3> V3;
inline V3 operator+(V3 a, V3 b) { return { { a[0] + b[0], a[1] + b[1], a[2] + b[2] } }; }
inline V3 operator-(V3 a, V3 b) { return { { a[0] - b[0], a[1] - b[1], a[2] - b[2] } }; }
inline V3 operator*(V3 a, double k) { return { { a[0] * k, a[1] * k, a[2] * k } }; }
inline double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double len(V3 a) { return sqrt(dot(a, a)); }
inline V3 cross(V3 a, V3 b) { return { { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] } }; }

inline void bounds(const std::vector<double>& r, V3& lo, V3& hi)
{
	lo = { { 1e300, 1e300, 1e300 } };
	hi = lo * -1;
	for(size_t i = 0; i != r.size(); ++i)
	{
		lo[i % 3] = std::min(lo[i % 3], r[i]);
		hi[i % 3] = std::max(hi[i % 3], r[i]);
	}
}

//! What the settings and the frame say the picture has to be
struct Expected
{
	const StreamModel*	m;
	int		frame = 0, first = 0;			//!< shown now; shown first (defines the volume)
	int		stereo = 0, intensity = 255;
	double	size = 1, scale = 100;
	bool	by_velocity = true, box = true;

	static V3 palette(double x)
	{
		const V3	lut[4] = { { { 0.3, 0.3, 1 } }, { { 0, 1, 0 } }, { { 1, 1, 0 } }, { { 1, 0, 0 } } };
		if(!(x > 0)) { return lut[0]; }
		if(x >= 1) { return lut[3]; }
		int		i = int(floor(x * 3));
		double	w = x * 3 - i;
		return lut[i] * (1 - w) + lut[i + 1] * w;
	}

	//! Everything but the split; 'strict' also demands that no body of the volume is cut off
	std::string compare(const vgl::Picture& p, double sx, double sy) const
	{
		using mc::fmt;
		if(!p.ever_cleared) { return "the picture was never drawn"; }
		if(p.clear[0] != 0 || p.clear[1] != 0 || p.clear[2] != 0) { return "background is not black"; }
		const Frame&	f = m->frames[frame];
		V3	lo, hi, vlo, vhi;
		bounds(m->frames[first].r, lo, hi);
		bounds(m->frames[first].v, vlo, vhi);
		V3	margin = (hi - lo) * 0.5, blo = lo - margin, bhi = hi + margin, c = (lo + hi) * 0.5;
		double	diag = len(bhi - blo), dist = diag * 100 / scale, vmax = len(vhi - vlo);
		int		x = int(p.width * sx), y = int(p.height * sy);
		const struct { int x, y, w, h; V3 eye, up; const char* name; } Q[4] =
		{
			{ x, y, p.width - x, p.height - y, { { 0, -dist, -dist } }, { { 0, 0, 1 } }, "upper right view" },
			{ 0, 0, x, y, { { 0, 0, -dist } }, { { 0, 1, 0 } }, "lower left view" },
			{ x, 0, p.width - x, y, { { dist, 0, 0 } }, { { 0, 1, 0 } }, "lower right view" },
			{ 0, y, x, p.height - y, { { 0, -dist, 0 } }, { { 0, 0, -1 } }, "upper left view" },
		};
		size_t	known = 0, known_segments = 0;
		for(auto& q : Q)
		{
			if(q.w <= 0 || q.h <= 0) { continue; }
			std::vector<vgl::Point>	got;
			for(auto& i : p.points) if(i.vp[0] == q.x && i.vp[1] == q.y && i.vp[2] == q.w && i.vp[3] == q.h) { got.push_back(i); }
			std::vector<vgl::Segment>	seg;
			for(auto& i : p.segments) if(i.vp[0] == q.x && i.vp[1] == q.y && i.vp[2] == q.w && i.vp[3] == q.h) { seg.push_back(i); }
			known += got.size();
			known_segments += seg.size();
			size_t	planes = stereo ? 2 : 1;
			if(got.size() != planes * m->count) { return fmt("%s: %zu points instead of %zu", q.name, got.size(), planes * m->count); }
			std::vector<char>	used(got.size(), 0);
			for(size_t pl = 0; pl != planes; ++pl)
			{
				V3	ray = q.eye * -1, base = cross(ray, q.up);
				base = base * (len(ray) / len(base) * stereo / 1000.0);
				V3	eye = q.eye + (stereo ? base * (pl == 0 ? 1 : -1) : V3 { { 0, 0, 0 } });
				V3	fw = eye * (-1 / len(eye)), sd = cross(fw, q.up), up;
				sd = sd * (1 / len(sd));
				up = cross(sd, fw);
				double	k = 1 / tan(M_PI / 6), asp = double(q.w) / q.h;
				auto	project = [&](V3 v, double& px, double& py, double& pw)
				{
					V3	d = v - c - eye;
					pw = dot(d, fw);
					px = k / asp * dot(d, sd) / pw;
					py = k * dot(d, up) / pw;
				};
				double	light = intensity / 255.0;
				for(size_t i = 0; i != m->count; ++i)
				{
					V3	v { { f.r[3 * i], f.r[3 * i + 1], f.r[3 * i + 2] } };
					V3	col { { m->color[4 * i], m->color[4 * i + 1], m->color[4 * i + 2] } };
					if(by_velocity)
					{
						V3	vel { { f.v[3 * i], f.v[3 * i + 1], f.v[3 * i + 2] } };
						col = palette(len(vel) / vmax);
					}
					if(stereo) { col = pl == 0 ? V3 { { 1, 0, 0 } } : V3 { { 0, 1, 1 } }; }
					col = col * light;
					double	px, py, pw;
					project(v, px, py, pw);
					bool	inside = true;
					for(int j = 0; j != 3; ++j) { inside = inside && v[j] >= blo[j] && v[j] <= bhi[j]; }
					double	tol = 2e-5 * (1 + fabs(px) + fabs(py)) * (1 + diag / std::max(fabs(pw), 1e-3 * diag));
					size_t	hit = got.size(), near = got.size();
					for(size_t j = 0; j != got.size(); ++j)
					{
						const vgl::Point&	g = got[j];
						if(used[j]) { continue; }
						bool	place = (g.w > 0) == (pw > 0) && fabs(g.x - px) <= tol && fabs(g.y - py) <= tol;
						bool	color = fabs(g.r - col[0]) < 1e-4 && fabs(g.g - col[1]) < 1e-4 && fabs(g.b - col[2]) < 1e-4;
						if(place && color) { hit = j; break; }
						if(place) { near = j; }
					}
					if(hit == got.size())
					{
						if(near != got.size())
						{
							return fmt("%s: light of body %zu is (%g %g %g) instead of (%g %g %g)", q.name, i, got[near].r, got[near].g, got[near].b, col[0], col[1], col[2]);
						}
						return fmt("%s: body %zu of frame %d is not at (%g, %g)", q.name, i, frame, px, py);
					}
					used[hit] = 1;
					const vgl::Point&	g = got[hit];
					if(fabs(g.size - size) > 1e-6) { return fmt("%s: star size %g instead of %g", q.name, g.size, size); }
					if(!g.additive) { return fmt("%s: the light of stars does not add up", q.name); }
					if(g.depth) { return fmt("%s: stars can be hidden", q.name); }
					if(inside && pw > 2e-3 * diag && g.cut) { return fmt("%s: body %zu is cut off", q.name, i); }
				}
				// edges of the volume
				bool	want = box && !stereo;
				if(seg.size() != (want ? 12u : 0u)) { return fmt("%s: %zu edges of the box", q.name, seg.size()); }
				if(!want || pl) { continue; }
				std::vector<char>	su(12, 0);
				for(int a = 0; a != 8; ++a) for(int b = a + 1; b != 8; ++b)
				{
					int	d = a ^ b;
					if(d != 1 && d != 2 && d != 4) { continue; }
					double	pa[3], pb[3];
					V3		ca { { double(a & 1), double(a >> 1 & 1), double(a >> 2) } }, cb { { double(b & 1), double(b >> 1 & 1), double(b >> 2) } };
					V3		va, vb;
					for(int j = 0; j != 3; ++j) { va[j] = ca[j] ? bhi[j] : blo[j]; vb[j] = cb[j] ? bhi[j] : blo[j]; }
					project(va, pa[0], pa[1], pa[2]);
					project(vb, pb[0], pb[1], pb[2]);
					auto	same = [&](const vgl::End& e, const double* w, const V3& col)
					{
						double	t = 1e-4 * (1 + fabs(w[0]) + fabs(w[1])) * (1 + diag / std::max(fabs(w[2]), 1e-3 * diag));
						if(fabs(w[2]) < 1e-6 * diag) { return true; }
						return fabs(e.x - w[0]) <= t && fabs(e.y - w[1]) <= t && fabs(e.r - col[0]) < 1e-4 && fabs(e.g - col[1]) < 1e-4 && fabs(e.b - col[2]) < 1e-4;
					};
					bool	found = false;
					for(size_t j = 0; j != 12 && !found; ++j)
					{
						if(!su[j] && ((same(seg[j].a, pa, ca) && same(seg[j].b, pb, cb)) || (same(seg[j].a, pb, cb) && same(seg[j].b, pa, ca)))) { su[j] = 1; found = true; }
					}
					if(!found) { return fmt("%s: no edge of the box from corner %d to %d", q.name, a, b); }
				}
			}
		}
		for(auto& i : p.points) if(i.vp[2] > 0 && i.vp[3] > 0) { --known; }
		for(auto& i : p.segments) if(i.vp[2] > 0 && i.vp[3] > 0) { --known_segments; }
		if(known || known_segments) { return "something is drawn outside of the four views"; }
		bool	h = false, v = false;
		for(auto& l : p.lines)
		{
			h = h || (fabs(l.y1 - (p.height - y)) < 1.01 && l.y1 == l.y2 && std::min(l.x1, l.x2) <= 0 && std::max(l.x1, l.x2) >= p.width - 1);
			v = v || (fabs(l.x1 - x) < 1.01 && l.x1 == l.x2 && std::min(l.y1, l.y2) <= 0 && std::max(l.y1, l.y2) >= p.height - 1);
		}
		if(!h || !v) { return "no line between the views"; }
		return texts(p);
	}

	//! The split may be on its way: the lines between the views tell where
	std::string compare_moving(const vgl::Picture& p) const
	{
		for(auto& v : p.lines) for(auto& h : p.lines)
		{
			if(v.x1 != v.x2 || h.y1 != h.y2) { continue; }
			std::string	e;
			for(int k = 0; k != 4; ++k)
			{
				e = compare(p, (v.x1 + 0.5 * (k & 1)) / p.width, (p.height - h.y1 + 0.25 * (k & 2)) / p.height);
				if(e.empty()) { return ""; }
			}
			return e;
		}
		return "no line between the views";
	}

	std::string texts(const vgl::Picture& p) const
	{
		const Frame&	f = m->frames[frame];
		std::map<std::string, std::string>	t;
		for(auto& i : p.texts)
		{
			size_t	e = i.text.find('=');
			if(e == std::string::npos) { continue; }
			std::string	k = i.text.substr(0, e), v = i.text.substr(e + 1);
			while(!k.empty() && k.back() == ' ') { k.pop_back(); }
			if(t.count(k)) { return "text " + k + " is drawn twice"; }
			t[k] = v;
		}
		if(!t.count("Step") || size_t(atoll(t["Step"].c_str())) != f.step) { return mc::fmt("step text '%s' instead of %zu", t["Step"].c_str(), f.step); }
		if(!t.count("T") || fabs(atof(t["T"].c_str()) - f.time) > 1e-5 * fabs(f.time)) { return mc::fmt("time text '%s' instead of %g", t["T"].c_str(), f.time); }
		if(!t.count("Stars") || size_t(atoll(t["Stars"].c_str())) != m->count) { return mc::fmt("star count text '%s'", t["Stars"].c_str()); }
		return "";
	}
};

//! The player window
struct Player
{
	nbody_data_stream_reader		stream;
	std::unique_ptr<wgt_nbody_player>	w;
	QOpenGLWidget*	view = nullptr;
	QSlider			*timeline = nullptr, *stereo = nullptr;
	QSpinBox*		intensity = nullptr;
	QDoubleSpinBox	*size = nullptr, *scale = nullptr;
	QLabel*			label = nullptr;
	std::map<std::string, QAction*>	act;

	std::string open(const std::string& base, const char* checks = "PLV")
	{
		if(0 != stream.load(QString::fromStdString(base))) { return "can't load the stream"; }
		w.reset(new wgt_nbody_player(&stream, checks));
		w->setAttribute(Qt::WA_DeleteOnClose, false);
		w->resize(820, 460);
		w->show();
		settle();
		for(QWidget* i : w->findChildren<QWidget*>())
		{
			if(QOpenGLWidget* v = dynamic_cast<QOpenGLWidget*>(i)) { view = v; }
			QString	t = i->toolTip();
			if(QSlider* s = qobject_cast<QSlider*>(i)) { (t == "Timeline" ? timeline : stereo) = s; }
			if(QSpinBox* s = qobject_cast<QSpinBox*>(i)) { intensity = s; }
			if(QDoubleSpinBox* s = qobject_cast<QDoubleSpinBox*>(i)) { (t == "View scale" ? scale : size) = s; }
			QLabel*	l = qobject_cast<QLabel*>(i);
			if(l && l->metaObject() == &QLabel::staticMetaObject) { label = l; }
		}
		for(QAction* a : w->findChildren<QAction*>())
		{
			QString	t = a->text();
			for(const char* n : { "Start", "Pause", "Stop", "Backward", "Forward", "Record", "Color", "box" }) if(t.contains(n)) { act[n] = a; }
		}
		if(!view || !timeline || !stereo || !intensity || !size || !scale || !label || act.size() != 8) { return "the window lacks a control"; }
		return "";
	}

	void settings(Expected& e) const
	{
		e.frame = timeline->value();
		e.stereo = stereo->value();
		e.intensity = intensity->value();
		e.size = size->value();
		e.scale = scale->value();
		e.by_velocity = act.at("Color")->isChecked();
		e.box = act.at("box")->isChecked();
	}

	void double_click(double fx, double fy)
	{
		QPointF		p(view->width() * fx, view->height() * fy);
		QMouseEvent	e(QEvent::MouseButtonDblClick, p, view->mapToGlobal(p.toPoint()), Qt::LeftButton, Qt::LeftButton, Qt::NoModifier);
		QCoreApplication::sendEvent(view, &e);
	}
};

#endif
