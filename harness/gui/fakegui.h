// Forced include of the player's sources: OpenGL widgets, frame buffers and background tasks are replaced by ones that
// record what is drawn and leave the moment a task runs to the explorer.
#ifndef VERIF_FAKEGUI_H
#define VERIF_FAKEGUI_H
#include <QtCore/QtCore>
#include <QtGui/QtGui>
#include <QtWidgets/QtWidgets>
#include <QtOpenGL/QtOpenGL>
#include <QtConcurrent/QtConcurrent>
#include <functional>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace vgl {

struct Vec { double x, y, w, z; };
struct Point
{
	int		vp[4];
	double	x, y, w;			//!< place in the view (-1..1) and distance before the eye
	bool	cut;				//!< outside of the near or far plane
	double	r, g, b;			//!< light added to the picture
	double	size;
	bool	additive, depth;
};
struct End { double x, y, w, r, g, b; };
struct Segment { int vp[4]; End a, b; };
struct Text { std::string text; double x, y; };
struct Line { double x1, y1, x2, y2; };
struct Picture
{
	int						width = 0, height = 0;
	double					clear[4] = { -1, -1, -1, -1 };
	bool					ever_cleared = false;
	std::vector<Point>		points;
	std::vector<Segment>	segments;
	std::vector<Text>		texts;
	std::vector<Line>		lines;
	uint64_t				paints = 0;
	void reset() { points.clear(); segments.clear(); texts.clear(); lines.clear(); }
};

//! Where drawing goes
Picture*& target();
bool& current_context();
std::string& error();
//! Pictures turned into images, by the number in their pixels
std::vector<Picture>& exported();
QImage make_image(const Picture&);
//! Number of the picture in the image, -1 if it is none or damaged
int image_id(const QImage&);
int image_id_at(int r, int g, int b);

//! Explorer's decisions
extern std::function<bool(int)>	fbo_op;				//!< 0 bind, 1 release, 2 to image: true = works
extern std::function<void()>	on_exported;

class Engine : public QPaintEngine
{
public:
	vgl::Picture*	pic = nullptr;
	Engine() : QPaintEngine(QPaintEngine::AllFeatures) {}
	bool begin(QPaintDevice*) override { return true; }
	bool end() override { return true; }
	void updateState(const QPaintEngineState&) override {}
	void drawPixmap(const QRectF&, const QPixmap&, const QRectF&) override {}
	void drawPath(const QPainterPath&) override {}
	void drawPolygon(const QPointF*, int, PolygonDrawMode) override {}
	using QPaintEngine::drawLines;
	void drawLines(const QLineF*, int) override;
	void drawTextItem(const QPointF&, const QTextItem&) override;
	Type type() const override { return User; }
};

class Device : public QPaintDevice
{
protected:
	mutable Engine	m_engine;
	QSize			m_size;
	double			m_dpr = 1;
public:
	Device() {}
	explicit Device(const QSize& s) : m_size(s) {}
	void setup(const QSize& s, double dpr, Picture* p) { m_size = s; m_dpr = dpr; m_engine.pic = p; }
	QPaintEngine* paintEngine() const override { if(!m_engine.pic) { m_engine.pic = target(); } return &m_engine; }
	int metric(PaintDeviceMetric m) const override;
};

} // namespace vgl

class Verif_QOpenGLFunctions
{
public:
	void initializeOpenGLFunctions() {}
	void glBlendColor(GLclampf r, GLclampf g, GLclampf b, GLclampf a);
	void glBlendFunc(GLenum s, GLenum d) { ::glBlendFunc(s, d); }
	void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { ::glViewport(x, y, w, h); }
	void glClear(GLbitfield m) { ::glClear(m); }
	void glClearColor(GLclampf r, GLclampf g, GLclampf b, GLclampf a) { ::glClearColor(r, g, b, a); }
	void glEnable(GLenum c) { ::glEnable(c); }
	void glDisable(GLenum c) { ::glDisable(c); }
	void glLineWidth(GLfloat w) { ::glLineWidth(w); }
	void glDrawArrays(GLenum m, GLint f, GLsizei n) { ::glDrawArrays(m, f, n); }
	void glGetFloatv(GLenum n, GLfloat* p) { ::glGetFloatv(n, p); }
};

class Verif_QOpenGLContext
{
	Verif_QOpenGLFunctions	m_functions;
public:
	Verif_QOpenGLFunctions* functions() { return &m_functions; }
	static Verif_QOpenGLContext* currentContext() { static Verif_QOpenGLContext c; return &c; }
	bool isValid() const { return true; }
};

class Verif_QOpenGLWidget : public QWidget
{
	vgl::Device		m_device;
	vgl::Picture	m_picture;
	bool			m_init = false;
	mutable bool	m_painting = false;
	QSurfaceFormat	m_format;
public:
	explicit Verif_QOpenGLWidget(QWidget* parent = nullptr, Qt::WindowFlags f = Qt::WindowFlags()) : QWidget(parent, f) {}
	void setFormat(const QSurfaceFormat& f) { m_format = f; }
	QSurfaceFormat format() const { return m_format; }
	bool isValid() const { return m_init; }
	void makeCurrent() { vgl::current_context() = true; vgl::target() = &m_picture; }
	void doneCurrent() { vgl::current_context() = false; }
	Verif_QOpenGLContext* context() const { return Verif_QOpenGLContext::currentContext(); }
	GLuint defaultFramebufferObject() const { return 0; }
	const vgl::Picture& picture() const { return m_picture; }
protected:
	virtual void initializeGL() {}
	virtual void resizeGL(int, int) {}
	virtual void paintGL() {}
	void paintEvent(QPaintEvent*) override;
	QPaintDevice* redirected(QPoint*) const override { return m_painting ? const_cast<vgl::Device*>(&m_device) : nullptr; }
	QPainter* sharedPainter() const override { return nullptr; }
};

class Verif_QOpenGLFramebufferObjectFormat
{
	int		m_samples = 0;
public:
	void setSamples(int s) { m_samples = s; }
	int samples() const { return m_samples; }
	void setMipmap(bool) {}
	void setAttachment(int) {}
	void setTextureTarget(GLenum) {}
	void setInternalTextureFormat(GLenum) {}
};

class Verif_QOpenGLFramebufferObject
{
	QSize			m_size;
	vgl::Picture	m_picture, *m_back = nullptr;
public:
	enum Attachment { NoAttachment, CombinedDepthStencil, Depth };
	Verif_QOpenGLFramebufferObject(int w, int h, const Verif_QOpenGLFramebufferObjectFormat&) : m_size(w, h) {}
	Verif_QOpenGLFramebufferObject(const QSize& s, const Verif_QOpenGLFramebufferObjectFormat&) : m_size(s) {}
	explicit Verif_QOpenGLFramebufferObject(const QSize& s) : m_size(s) {}
	~Verif_QOpenGLFramebufferObject() { if(vgl::target() == &m_picture) { vgl::target() = m_back; } }
	QSize size() const { return m_size; }
	int width() const { return m_size.width(); }
	int height() const { return m_size.height(); }
	bool isValid() const { return true; }
	bool bind();
	bool release();
	QImage toImage();
	QImage toImage(bool) { return toImage(); }
};

class Verif_QOpenGLPaintDevice : public vgl::Device
{
public:
	Verif_QOpenGLPaintDevice() {}
	explicit Verif_QOpenGLPaintDevice(const QSize& s) : vgl::Device(s) {}
	Verif_QOpenGLPaintDevice(int w, int h) : vgl::Device(QSize(w, h)) {}
	void setSize(const QSize& s) { m_size = s; }
	void setDevicePixelRatio(qreal r) { m_dpr = r; }
	void setPaintFlipped(bool) {}
};

namespace vtask {

struct Task
{
	std::function<void()>	run;
	bool					done = false;
};
//! All tasks handed over so far, in order
std::vector<std::shared_ptr<Task>>& tasks();
size_t pending();
void finish(Task&);
//! Called when the program looks at a task; may finish some
void look();

} // namespace vtask

template<class T>
class Verif_QFuture
{
	std::shared_ptr<vtask::Task>	m_task;
	std::shared_ptr<T>				m_result;
public:
	Verif_QFuture() {}
	Verif_QFuture(const std::shared_ptr<vtask::Task>& t, const std::shared_ptr<T>& r) : m_task(t), m_result(r) {}
	bool isFinished() const { if(m_task && !m_task->done) { vtask::look(); } return !m_task || m_task->done; }
	bool isRunning() const { return m_task && !isFinished(); }
	bool isStarted() const { return true; }
	bool isCanceled() const { return !m_task; }
	void cancel() {}
	void waitForFinished() const { if(m_task && !m_task->done) { vtask::finish(*m_task); } }
	T result() const { waitForFinished(); return *m_result; }
	operator T() const { return result(); }
};
template<>
class Verif_QFuture<void>
{
	std::shared_ptr<vtask::Task>	m_task;
public:
	Verif_QFuture() {}
	explicit Verif_QFuture(const std::shared_ptr<vtask::Task>& t) : m_task(t) {}
	bool isFinished() const { if(m_task && !m_task->done) { vtask::look(); } return !m_task || m_task->done; }
	bool isRunning() const { return m_task && !isFinished(); }
	void waitForFinished() const { if(m_task && !m_task->done) { vtask::finish(*m_task); } }
};

namespace Verif_QtConcurrent {

template<class T> struct Start
{
	template<class F> static Verif_QFuture<T> go(F f)
	{
		auto	r = std::make_shared<T>();
		auto	t = std::make_shared<vtask::Task>();
		t->run = [f, r]() mutable { *r = f(); };
		vtask::tasks().push_back(t);
		return Verif_QFuture<T>(t, r);
	}
};
template<> struct Start<void>
{
	template<class F> static Verif_QFuture<void> go(F f)
	{
		auto	t = std::make_shared<vtask::Task>();
		t->run = [f]() mutable { f(); };
		vtask::tasks().push_back(t);
		return Verif_QFuture<void>(t);
	}
};
//! Arguments are copied at once, as the real one does
template<class F, class... A>
auto run(F f, const A&... a) -> Verif_QFuture<typename std::decay<decltype(std::bind(f, a...)())>::type>
{
	return Start<typename std::decay<decltype(std::bind(f, a...)())>::type>::go(std::bind(f, a...));
}
template<class F, class... A>
auto run(QThreadPool*, F f, const A&... a) -> Verif_QFuture<typename std::decay<decltype(std::bind(f, a...)())>::type>
{
	return Start<typename std::decay<decltype(std::bind(f, a...)())>::type>::go(std::bind(f, a...));
}

} // namespace

#define QOpenGLWidget Verif_QOpenGLWidget
#define QOpenGLContext Verif_QOpenGLContext
#define QOpenGLFunctions Verif_QOpenGLFunctions
#define QOpenGLFramebufferObject Verif_QOpenGLFramebufferObject
#define QOpenGLFramebufferObjectFormat Verif_QOpenGLFramebufferObjectFormat
#define QOpenGLPaintDevice Verif_QOpenGLPaintDevice
#define QFuture Verif_QFuture
#define QtConcurrent Verif_QtConcurrent
#endif
