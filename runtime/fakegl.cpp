// Recording implementation of the part of OpenGL the player may use, and of the widgets of fakegui.h.
#include "gui/fakegui.h"
#include <GL/gl.h>
#include <GL/glu.h>
#include <cmath>
#include <cstring>

namespace vgl {

Picture*& target() { static Picture* t = nullptr; return t; }
bool& current_context() { static bool c = false; return c; }
std::string& error() { static std::string e; return e; }
std::vector<Picture>& exported() { static std::vector<Picture> e; return e; }
std::function<bool(int)>	fbo_op = [](int) { return true; };
std::function<void()>		on_exported = [] {};

static QRgb mark(int id, int y)
{
	return qRgb(id % 256, 100 + id / 256, 200 - (y / 135) * 11);
}

int image_id_at(int r, int g, int b)
{
	(void)b;
	int	id = r + (g - 100) * 256;
	return id >= 0 && id < int(exported().size()) ? id : -1;
}

QImage make_image(const Picture& p)
{
	int		id = int(exported().size());
	exported().push_back(p);
	QImage	img(p.width, p.height, QImage::Format_ARGB32_Premultiplied);
	for(int y = 0; y != p.height; ++y)
	{
		QRgb*	l = reinterpret_cast<QRgb*>(img.scanLine(y));
		std::fill(l, l + p.width, mark(id, y));
	}
	return img;
}

int image_id(const QImage& img)
{
	if(img.isNull()) { return -1; }
	QRgb	c = img.pixel(0, 0);
	int		id = image_id_at(qRed(c), qGreen(c), qBlue(c));
	if(id < 0 || img.width() != exported()[id].width || img.height() != exported()[id].height) { return -1; }
	for(int y = 0; y < img.height(); y += 67)
	{
		for(int x : { 0, 1, img.width() / 2, img.width() - 1 })
		{
			QRgb	m = mark(id, y), q = img.pixel(x, y);
			if(qRed(m) != qRed(q) || qGreen(m) != qGreen(q) || qBlue(m) != qBlue(q)) { return -1; }
		}
	}
	return id;
}

void Engine::drawLines(const QLineF* l, int n)
{
	for(int i = 0; i != n && pic; ++i)
	{
		QPointF	a = painter()->deviceTransform().map(l[i].p1()), b = painter()->deviceTransform().map(l[i].p2());
		pic->lines.push_back(Line { a.x(), a.y(), b.x(), b.y() });
	}
}

void Engine::drawTextItem(const QPointF& p, const QTextItem& t)
{
	if(!pic) { return; }
	QPointF	q = painter()->deviceTransform().map(p);
	std::string	s = t.text().toStdString();
	if(!pic->texts.empty() && pic->texts.back().y == q.y() && pic->texts.back().x < q.x()) { pic->texts.back().text += s; }
	else { pic->texts.push_back(Text { s, q.x(), q.y() }); }
}

int Device::metric(PaintDeviceMetric m) const
{
	switch(m)
	{
	case PdmWidth: return m_size.width();
	case PdmHeight: return m_size.height();
	case PdmWidthMM: return m_size.width() / 4;
	case PdmHeightMM: return m_size.height() / 4;
	case PdmNumColors: return INT_MAX;
	case PdmDepth: return 32;
	case PdmDpiX: case PdmDpiY: case PdmPhysicalDpiX: case PdmPhysicalDpiY: return 96;
	case PdmDevicePixelRatio: return int(m_dpr);
	case PdmDevicePixelRatioScaled: return int(m_dpr * devicePixelRatioFScale());
	}
	return 0;
}

namespace {

struct Matrix
{
	double	m[4][4];			// m[row][column]
	static Matrix one()
	{
		Matrix	r;
		for(int i = 0; i != 4; ++i) for(int j = 0; j != 4; ++j) { r.m[i][j] = i == j; }
		return r;
	}
	Matrix operator*(const Matrix& o) const
	{
		Matrix	r;
		for(int i = 0; i != 4; ++i) for(int j = 0; j != 4; ++j)
		{
			r.m[i][j] = 0;
			for(int k = 0; k != 4; ++k) { r.m[i][j] += m[i][k] * o.m[k][j]; }
		}
		return r;
	}
};

struct Array { bool on = false; GLint size = 4; GLenum type = GL_FLOAT; GLsizei stride = 0; const void* p = nullptr; };

struct Context
{
	std::vector<Matrix>	stack[2] = { { Matrix::one() }, { Matrix::one() } };
	int		mode = 0;
	int		vp[4] = { 0, 0, 0, 0 };
	double	color[4] = { 1, 1, 1, 1 }, clear[4] = { 0, 0, 0, 0 }, blend_color[4] = { 0, 0, 0, 0 }, size = 1;
	GLenum	src = GL_ONE, dst = GL_ZERO;
	bool	blend = false, depth = false;
	Array	vertex, col;
	GLenum	prim = 0;
	bool	inside = false;
	std::vector<std::pair<Vec, std::array<double, 4>>>	batch;
};

Context& C() { static Context c; return c; }

bool ready()
{
	if(!current_context() || !target())
	{
		error() = "drawing without a current OpenGL context";
		return false;
	}
	return true;
}

Matrix& top() { return C().stack[C().mode].back(); }
void mul(const Matrix& m) { if(ready()) { top() = top() * m; } }

Vec transform(const double* v)
{
	Matrix	m = C().stack[1].back() * C().stack[0].back();
	double	r[4];
	for(int i = 0; i != 4; ++i) { r[i] = m.m[i][0] * v[0] + m.m[i][1] * v[1] + m.m[i][2] * v[2] + m.m[i][3] * v[3]; }
	return Vec { r[0], r[1], r[3], r[2] };
}

double factor(int k, const double* color)
{
	Context&	c = C();
	if(!c.blend) { return 1; }
	switch(c.src)
	{
	case GL_ZERO: return 0;
	case GL_ONE: return 1;
	case GL_CONSTANT_ALPHA: return c.blend_color[3];
	case GL_CONSTANT_COLOR: return c.blend_color[k];
	case GL_SRC_ALPHA: return color[3];
	case GL_SRC_COLOR: return color[k];
	}
	error() = "blend function not known to the check";
	return 0;
}

double clamp(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }

void emit_vertex(const double* v) { C().batch.push_back({ transform(v), { { C().color[0], C().color[1], C().color[2], C().color[3] } } }); }

void flush(GLenum prim)
{
	Context&	c = C();
	auto		b = c.batch;
	c.batch.clear();
	auto	end = [&](size_t i)
	{
		return End { b[i].first.x / b[i].first.w, b[i].first.y / b[i].first.w, b[i].first.w, clamp(b[i].second[0]), clamp(b[i].second[1]), clamp(b[i].second[2]) };
	};
	auto	segment = [&](size_t i, size_t j)
	{
		Segment	s;
		memcpy(s.vp, c.vp, sizeof s.vp);
		s.a = end(i);
		s.b = end(j);
		target()->segments.push_back(s);
	};
	switch(prim)
	{
	case GL_POINTS:
		for(auto& i : b)
		{
			Point	p;
			memcpy(p.vp, c.vp, sizeof p.vp);
			p.x = i.first.x / i.first.w;
			p.y = i.first.y / i.first.w;
			p.w = i.first.w;
			p.cut = !(fabs(i.first.z) <= i.first.w);
			p.r = clamp(clamp(i.second[0]) * factor(0, i.second.data()));
			p.g = clamp(clamp(i.second[1]) * factor(1, i.second.data()));
			p.b = clamp(clamp(i.second[2]) * factor(2, i.second.data()));
			p.size = c.size;
			p.additive = c.blend && c.dst == GL_ONE;
			p.depth = c.depth;
			target()->points.push_back(p);
		}
		break;
	case GL_LINES:
		for(size_t i = 0; i + 1 < b.size(); i += 2) { segment(i, i + 1); }
		break;
	case GL_LINE_STRIP:
	case GL_LINE_LOOP:
		for(size_t i = 0; i + 1 < b.size(); ++i) { segment(i, i + 1); }
		if(prim == GL_LINE_LOOP && b.size() > 1) { segment(b.size() - 1, 0); }
		break;
	default:
		error() = "primitive not known to the check";
	}
}

double element(const Array& a, GLint i, int k)
{
	size_t	unit = a.type == GL_DOUBLE ? 8 : a.type == GL_UNSIGNED_BYTE ? 1 : 4;
	size_t	stride = a.stride ? a.stride : unit * a.size;
	const char*	p = static_cast<const char*>(a.p) + stride * i + unit * k;
	switch(a.type)
	{
	case GL_DOUBLE: { double d; memcpy(&d, p, 8); return d; }
	case GL_FLOAT: { float d; memcpy(&d, p, 4); return d; }
	case GL_UNSIGNED_BYTE: return static_cast<unsigned char>(*p) / 255.0;
	}
	error() = "array type not known to the check";
	return 0;
}

void array_vertex(GLint i)
{
	Context&	c = C();
	if(c.col.on) for(int k = 0; k != 4; ++k) { c.color[k] = k < c.col.size ? element(c.col, i, k) : 1; }
	double	v[4] = { 0, 0, 0, 1 };
	for(int k = 0; k != c.vertex.size && k != 4; ++k) { v[k] = element(c.vertex, i, k); }
	emit_vertex(v);
}

void set_color(double r, double g, double b, double a)
{
	if(!ready()) { return; }
	double*	c = C().color;
	c[0] = r, c[1] = g, c[2] = b, c[3] = a;
}

void set_vertex(double x, double y, double z, double w = 1)
{
	double	v[4] = { x, y, z, w };
	if(ready()) { emit_vertex(v); }
}

void look_at(const double* e, const double* t, const double* u)
{
	double	f[3] = { t[0] - e[0], t[1] - e[1], t[2] - e[2] }, n = sqrt(f[0] * f[0] + f[1] * f[1] + f[2] * f[2]);
	for(double& x : f) { x /= n; }
	double	s[3] = { f[1] * u[2] - f[2] * u[1], f[2] * u[0] - f[0] * u[2], f[0] * u[1] - f[1] * u[0] };
	n = sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]);
	for(double& x : s) { x /= n; }
	double	v[3] = { s[1] * f[2] - s[2] * f[1], s[2] * f[0] - s[0] * f[2], s[0] * f[1] - s[1] * f[0] };
	Matrix	m = Matrix::one(), t2 = Matrix::one();
	for(int k = 0; k != 3; ++k)
	{
		m.m[0][k] = s[k], m.m[1][k] = v[k], m.m[2][k] = -f[k];
		t2.m[k][3] = -e[k];
	}
	mul(m * t2);
}

} // namespace
} // namespace vgl

using namespace vgl;

extern "C" {

void glViewport(GLint x, GLint y, GLsizei w, GLsizei h)
{
	if(!ready()) { return; }
	int	v[4] = { x, y, w, h };
	memcpy(C().vp, v, sizeof v);
}
void glClearColor(GLclampf r, GLclampf g, GLclampf b, GLclampf a)
{
	if(!ready()) { return; }
	double*	c = C().clear;
	c[0] = r, c[1] = g, c[2] = b, c[3] = a;
}
void glClear(GLbitfield m)
{
	if(!ready() || !(m & GL_COLOR_BUFFER_BIT)) { return; }
	target()->reset();
	target()->ever_cleared = true;
	memcpy(target()->clear, C().clear, sizeof C().clear);
}
static void cap(GLenum c, bool on)
{
	if(!ready()) { return; }
	if(c == GL_BLEND) { C().blend = on; }
	if(c == GL_DEPTH_TEST) { C().depth = on; }
}
void glEnable(GLenum c) { cap(c, true); }
void glDisable(GLenum c) { cap(c, false); }
void glBlendFunc(GLenum s, GLenum d) { if(ready()) { C().src = s; C().dst = d; } }
void glLineWidth(GLfloat) {}
void glPointSize(GLfloat s) { if(ready()) { C().size = s; } }
void glShadeModel(GLenum) {}
void glHint(GLenum, GLenum) {}
void glDepthFunc(GLenum) {}
void glDepthMask(GLboolean) {}
void glFlush() {}
void glFinish() {}
GLenum glGetError() { return 0; }
void glGetFloatv(GLenum n, GLfloat* p)
{
	if(!ready()) { return; }
	if(n == GL_POINT_SIZE_RANGE) { p[0] = 1; p[1] = 8; }
	if(n == GL_POINT_SIZE_GRANULARITY) { p[0] = 0.5f; }
}
void glMatrixMode(GLenum m) { if(ready()) { C().mode = m == GL_PROJECTION; } }
void glLoadIdentity() { if(ready()) { top() = Matrix::one(); } }
void glPushMatrix() { if(ready()) { C().stack[C().mode].push_back(top()); } }
void glPopMatrix() { if(ready() && C().stack[C().mode].size() > 1) { C().stack[C().mode].pop_back(); } }
void glMultMatrixd(const GLdouble* p)
{
	Matrix	m;
	for(int i = 0; i != 4; ++i) for(int j = 0; j != 4; ++j) { m.m[i][j] = p[4 * j + i]; }
	mul(m);
}
void glMultMatrixf(const GLfloat* p)
{
	GLdouble	d[16];
	for(int i = 0; i != 16; ++i) { d[i] = p[i]; }
	glMultMatrixd(d);
}
void glLoadMatrixd(const GLdouble* p) { glLoadIdentity(); glMultMatrixd(p); }
void glLoadMatrixf(const GLfloat* p) { glLoadIdentity(); glMultMatrixf(p); }
void glTranslated(GLdouble x, GLdouble y, GLdouble z)
{
	Matrix	m = Matrix::one();
	m.m[0][3] = x, m.m[1][3] = y, m.m[2][3] = z;
	mul(m);
}
void glTranslatef(GLfloat x, GLfloat y, GLfloat z) { glTranslated(x, y, z); }
void glScaled(GLdouble x, GLdouble y, GLdouble z)
{
	Matrix	m = Matrix::one();
	m.m[0][0] = x, m.m[1][1] = y, m.m[2][2] = z;
	mul(m);
}
void glScalef(GLfloat x, GLfloat y, GLfloat z) { glScaled(x, y, z); }
void glFrustum(GLdouble l, GLdouble r, GLdouble b, GLdouble t, GLdouble n, GLdouble f)
{
	Matrix	m = Matrix::one();
	m.m[0][0] = 2 * n / (r - l), m.m[0][2] = (r + l) / (r - l);
	m.m[1][1] = 2 * n / (t - b), m.m[1][2] = (t + b) / (t - b);
	m.m[2][2] = -(f + n) / (f - n), m.m[2][3] = -2 * f * n / (f - n);
	m.m[3][2] = -1, m.m[3][3] = 0;
	mul(m);
}
void gluPerspective(GLdouble fovy, GLdouble aspect, GLdouble n, GLdouble f)
{
	double	t = n * tan(fovy * M_PI / 360);
	glFrustum(-t * aspect, t * aspect, -t, t, n, f);
}
void gluLookAt(GLdouble ex, GLdouble ey, GLdouble ez, GLdouble cx, GLdouble cy, GLdouble cz, GLdouble ux, GLdouble uy, GLdouble uz)
{
	double	e[3] = { ex, ey, ez }, c[3] = { cx, cy, cz }, u[3] = { ux, uy, uz };
	look_at(e, c, u);
}
void glBegin(GLenum p) { if(ready()) { C().prim = p; C().inside = true; C().batch.clear(); } }
void glEnd() { if(ready()) { flush(C().prim); C().inside = false; } }
void glColor3f(GLfloat r, GLfloat g, GLfloat b) { set_color(r, g, b, 1); }
void glColor3d(GLdouble r, GLdouble g, GLdouble b) { set_color(r, g, b, 1); }
void glColor3fv(const GLfloat* c) { set_color(c[0], c[1], c[2], 1); }
void glColor3dv(const GLdouble* c) { set_color(c[0], c[1], c[2], 1); }
void glColor4f(GLfloat r, GLfloat g, GLfloat b, GLfloat a) { set_color(r, g, b, a); }
void glColor4d(GLdouble r, GLdouble g, GLdouble b, GLdouble a) { set_color(r, g, b, a); }
void glColor4fv(const GLfloat* c) { set_color(c[0], c[1], c[2], c[3]); }
void glColor4dv(const GLdouble* c) { set_color(c[0], c[1], c[2], c[3]); }
void glVertex2f(GLfloat x, GLfloat y) { set_vertex(x, y, 0); }
void glVertex2d(GLdouble x, GLdouble y) { set_vertex(x, y, 0); }
void glVertex3f(GLfloat x, GLfloat y, GLfloat z) { set_vertex(x, y, z); }
void glVertex3d(GLdouble x, GLdouble y, GLdouble z) { set_vertex(x, y, z); }
void glVertex3fv(const GLfloat* v) { set_vertex(v[0], v[1], v[2]); }
void glVertex3dv(const GLdouble* v) { set_vertex(v[0], v[1], v[2]); }
static Array* client(GLenum a) { return a == GL_VERTEX_ARRAY ? &C().vertex : a == GL_COLOR_ARRAY ? &C().col : nullptr; }
void glEnableClientState(GLenum a) { if(ready() && client(a)) { client(a)->on = true; } }
void glDisableClientState(GLenum a) { if(ready() && client(a)) { client(a)->on = false; } }
static void set_array(Array& a, GLint size, GLenum type, GLsizei stride, const void* p)
{
	if(!ready()) { return; }
	a.size = size;
	a.type = type;
	a.stride = stride;
	a.p = p;
}
void glVertexPointer(GLint size, GLenum type, GLsizei stride, const GLvoid* p) { set_array(C().vertex, size, type, stride, p); }
void glColorPointer(GLint size, GLenum type, GLsizei stride, const GLvoid* p) { set_array(C().col, size, type, stride, p); }
void glDrawArrays(GLenum mode, GLint first, GLsizei count)
{
	if(!ready() || !C().vertex.on) { return; }
	C().batch.clear();
	for(GLint i = first; i != first + count; ++i) { array_vertex(i); }
	flush(mode);
}
void glDrawElements(GLenum mode, GLsizei count, GLenum type, const GLvoid* ix)
{
	if(!ready() || !C().vertex.on) { return; }
	C().batch.clear();
	for(GLsizei i = 0; i != count; ++i)
	{
		array_vertex(type == GL_UNSIGNED_INT ? static_cast<const GLuint*>(ix)[i] : type == GL_UNSIGNED_SHORT ? static_cast<const GLushort*>(ix)[i] :
					 static_cast<const GLubyte*>(ix)[i]);
	}
	flush(mode);
}
void glArrayElement(GLint i) { if(ready()) { array_vertex(i); } }

} // extern "C"

void Verif_QOpenGLFunctions::glBlendColor(GLclampf r, GLclampf g, GLclampf b, GLclampf a)
{
	if(!ready()) { return; }
	double*	c = C().blend_color;
	c[0] = r, c[1] = g, c[2] = b, c[3] = a;
}

void Verif_QOpenGLWidget::paintEvent(QPaintEvent*)
{
	vgl::Picture*	old = vgl::target();
	bool			old_current = vgl::current_context();
	makeCurrent();
	if(!m_init)
	{
		m_init = true;
		initializeGL();
		makeCurrent();
		resizeGL(width(), height());
	}
	m_picture.width = int(width() * devicePixelRatioF());
	m_picture.height = int(height() * devicePixelRatioF());
	m_device.setup(QSize(m_picture.width, m_picture.height), devicePixelRatioF(), &m_picture);
	m_painting = true;
	paintGL();
	m_painting = false;
	++m_picture.paints;
	vgl::target() = old;
	vgl::current_context() = old_current;
}

bool Verif_QOpenGLFramebufferObject::bind()
{
	if(!vgl::current_context()) { vgl::error() = "frame buffer bound without a current OpenGL context"; return false; }
	if(!vgl::fbo_op(0)) { return false; }
	m_back = vgl::target();
	vgl::target() = &m_picture;
	m_picture.width = m_size.width();
	m_picture.height = m_size.height();
	return true;
}

bool Verif_QOpenGLFramebufferObject::release()
{
	if(vgl::target() == &m_picture) { vgl::target() = m_back; }
	return vgl::fbo_op(1);
}

QImage Verif_QOpenGLFramebufferObject::toImage()
{
	QImage	img;
	if(vgl::fbo_op(2)) { img = vgl::make_image(m_picture); }
	vgl::on_exported();
	return img;
}

namespace vtask {

std::vector<std::shared_ptr<Task>>& tasks() { static std::vector<std::shared_ptr<Task>> t; return t; }

size_t pending()
{
	size_t	n = 0;
	for(auto& t : tasks()) { n += !t->done; }
	return n;
}

void finish(Task& t)
{
	if(t.done) { return; }
	t.run();
	t.run = nullptr;
	t.done = true;
}

} // namespace vtask
