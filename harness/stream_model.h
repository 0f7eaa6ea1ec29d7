// Reference model of a recorded stream: a plain list of frames.
#ifndef VERIF_STREAM_MODEL_H
#define VERIF_STREAM_MODEL_H
#include "common.h"
#include "nbody_data.h"
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"

struct Frame
{
	size_t				step;
	double				time;
	std::vector<double>	r, v;
};

struct StreamModel
{
	size_t				count = 0;
	size_t				box = 0;
	bool				has_header = false;
	std::vector<double>	mass;
	std::vector<float>	color;
	std::vector<Frame>	frames;
};

//! Coordinates cover sign of zero, denormals, extremes and ordinary values
inline double tricky(size_t seed)
{
	static const double t[] = { 0.0, -0.0, 1.0, -1.5, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, -1e300, 0.1,
								3.141592653589793, 1e-9, 123456789.123456789, -0.30000000000000004, 4503599627370497.5
							  };
	const size_t n = sizeof t / sizeof t[0];
	size_t m = seed * 7 + seed / n;
	return t[m % n] + (m % n < 7 ? 0 : static_cast<double>(seed));
}

inline double tricky_time(size_t k)
{
	static const double t[] = { 0.0, 0.1, 0.30000000000000004, 1.0000001, 12.345678901234567, 1000.001, 1234567.8912345, 1234567.8912346,
								1e-7, 123456789012.34567, 1e15, 2e-300
							  };
	return t[k % (sizeof t / sizeof t[0])];
}

inline size_t tricky_step(size_t k)
{
	static const size_t s[] = { 0, 1, 7, 4294967295ULL, 4294967296ULL, 9007199254740993ULL, 18446744073709551615ULL };
	return s[k % (sizeof s / sizeof s[0])] ;
}

inline void fill(nbody_data& d, size_t count, size_t seed, size_t step, double time, size_t box)
{
	d.clear();
	for(size_t i = 0; i != count; ++i)
	{
		size_t s = seed * 977 + i * 13;
		d.add_body(nbvertex_t(tricky(s), tricky(s + 1), tricky(s + 2)), nbvertex_t(tricky(s + 3), tricky(s + 4), tricky(s + 5)),
				   tricky(i + 3 * box + 1), nbcolor_t(0.25f * (i % 4), 0.5f + box, 1.0f / (1 + i), 1.0f - 0.125f * (box % 8)), tricky(s + 6));
	}
	d.set_time(time);
	d.set_step(step);
	d.set_box_size(box);
}

inline Frame snapshot(const nbody_data& d)
{
	Frame f;
	f.step = d.get_step();
	f.time = d.get_time();
	for(size_t i = 0; i != d.get_count(); ++i)
	{
		for(int k = 0; k != 3; ++k)
		{
			f.r.push_back(d.get_vertites()[i][k]);
			f.v.push_back(d.get_velosites()[i][k]);
		}
	}
	return f;
}

inline void snapshot_header(const nbody_data& d, StreamModel& m)
{
	m.count = d.get_count();
	m.box = d.get_box_size();
	m.mass.assign(d.get_mass(), d.get_mass() + m.count);
	const float* c = reinterpret_cast<const float*>(d.get_color());
	m.color.assign(c, c + 4 * m.count);
	m.has_header = true;
}

inline bool time_ok(double got, double want)
{
	return fabs(got - want) <= 5.1e-15 * fabs(want);
}

inline std::string diff_frame(const nbody_data& d, const Frame& f)
{
	if(d.get_step() != f.step) { return mc::fmt("step %zu instead of %zu", d.get_step(), f.step); }
	if(!time_ok(d.get_time(), f.time)) { return mc::fmt("time %.17g instead of %.17g", d.get_time(), f.time); }
	for(size_t i = 0; i != f.r.size(); ++i)
	{
		double r = d.get_vertites()[i / 3][i % 3], v = d.get_velosites()[i / 3][i % 3];
		if(!mc::same_bits(r, f.r[i])) { return mc::fmt("body %zu position[%zu] %.17g instead of %.17g", i / 3, i % 3, r, f.r[i]); }
		if(!mc::same_bits(v, f.v[i])) { return mc::fmt("body %zu velocity[%zu] %.17g instead of %.17g", i / 3, i % 3, v, f.v[i]); }
	}
	return "";
}

inline std::string diff_header(const nbody_data& d, const StreamModel& m)
{
	for(size_t i = 0; i != m.count; ++i)
	{
		if(!mc::same_bits(d.get_mass()[i], m.mass[i])) { return mc::fmt("mass[%zu] %.17g instead of %.17g", i, d.get_mass()[i], m.mass[i]); }
		if(0 != memcmp(d.get_color() + i, &m.color[4 * i], 16)) { return mc::fmt("color[%zu] differs", i); }
	}
	if(d.get_box_size() != m.box) { return mc::fmt("box size %zu instead of %zu", d.get_box_size(), m.box); }
	return "";
}

//! Load the stream and compare all of it with the model. 'optional' frames may be missing at the end.
inline std::string verify_stream(const std::string& base, const StreamModel& m, size_t optional = 0)
{
	nbody_data_stream_reader	r;
	int rc = r.load(QString::fromStdString(base));
	size_t need = m.frames.size() - optional;
	if(m.frames.empty())
	{
		if(rc == 0 && r.get_frame_count() != 0) { return mc::fmt("stream lists %zu frames, nothing was written", r.get_frame_count()); }
		return "";
	}
	if(rc != 0) { return need == 0 ? "" : mc::fmt("load failed (%d), %zu frames were acknowledged", rc, need); }
	size_t n = r.get_frame_count();
	if(n < need || n > m.frames.size()) { return mc::fmt("stream lists %zu frames instead of %zu..%zu", n, need, m.frames.size()); }
	if(r.get_body_count() != m.count) { return mc::fmt("body count %zu instead of %zu", r.get_body_count(), m.count); }
	if(r.get_coord_size() != sizeof(nbcoord_t)) { return "wrong coord size"; }
	if(static_cast<size_t>(r.get_box_size()) != m.box) { return mc::fmt("box size %g instead of %zu", r.get_box_size(), m.box); }
	if(n && r.get_steps_count() != m.frames[n - 1].step) { return mc::fmt("steps count %zu instead of %zu", r.get_steps_count(), m.frames[n - 1].step); }
	if(n && !time_ok(r.get_max_time(), m.frames[n - 1].time)) { return mc::fmt("max time %.17g instead of %.17g", r.get_max_time(), m.frames[n - 1].time); }
	nbody_data	d;
	d.resize(m.count);
	for(size_t i = 0; i != n; ++i)
	{
		if(r.get_current_frame() != i) { return mc::fmt("current frame %zu instead of %zu", r.get_current_frame(), i); }
		rc = r.read(&d);
		if(rc != 0) { return mc::fmt("read of frame %zu failed (%d)", i, rc); }
		std::string e = diff_frame(d, m.frames[i]);
		if(!e.empty()) { return mc::fmt("frame %zu: ", i) + e; }
		e = diff_header(d, m);
		if(!e.empty()) { return mc::fmt("frame %zu: ", i) + e; }
	}
	if(0 == r.read(&d)) { return "read past the last frame succeeded"; }
	for(size_t i = n; i-- > 0;)
	{
		if(0 != r.seek(i)) { return mc::fmt("seek to frame %zu failed", i); }
		if(0 != r.read(&d)) { return mc::fmt("read of frame %zu after seek failed", i); }
		std::string e = diff_frame(d, m.frames[i]);
		if(!e.empty()) { return mc::fmt("frame %zu after seek: ", i) + e; }
	}
	return "";
}

#endif
