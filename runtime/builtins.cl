// OpenCL C built-in functions of the controlled implementation, in terms of C functions of fakecl.cpp
#pragma OPENCL EXTENSION cl_khr_fp64 : enable
#define OVL __attribute__((overloadable))
size_t nb_get(uint what, uint dim);
void nb_barrier(uint flags);
double nb_fn1(uint what, double a);
double nb_fn2(uint what, double a, double b);
size_t OVL get_global_id(uint d) { return nb_get(0, d); }
size_t OVL get_local_id(uint d) { return nb_get(1, d); }
size_t OVL get_group_id(uint d) { return nb_get(2, d); }
size_t OVL get_global_size(uint d) { return nb_get(3, d); }
size_t OVL get_local_size(uint d) { return nb_get(4, d); }
size_t OVL get_num_groups(uint d) { return nb_get(5, d); }
size_t OVL get_global_offset(uint d) { return nb_get(6, d); }
uint OVL get_work_dim() { return nb_get(7, 0); }
void OVL barrier(uint f) { nb_barrier(f); }
void OVL mem_fence(uint f) {}
void OVL read_mem_fence(uint f) {}
void OVL write_mem_fence(uint f) {}
#define F1(N, I) double OVL N(double a) { return nb_fn1(I, a); } float OVL N(float a) { return nb_fn1(I, a); }
F1(sqrt, 0) F1(fabs, 1) F1(exp, 2) F1(log, 3) F1(sin, 4) F1(cos, 5) F1(floor, 6) F1(ceil, 7) F1(cbrt, 8) F1(tan, 9) F1(round, 10) F1(trunc, 11) F1(rint, 12)
double OVL rsqrt(double a) { return 1 / sqrt(a); }
float OVL rsqrt(float a) { return 1 / sqrt(a); }
float OVL native_sqrt(float a) { return sqrt(a); }
float OVL native_rsqrt(float a) { return rsqrt(a); }
#define F2(N, I) double OVL N(double a, double b) { return nb_fn2(I, a, b); } float OVL N(float a, float b) { return nb_fn2(I, a, b); }
F2(pow, 0) F2(fmod, 1) F2(atan2, 2) F2(hypot, 3) F2(copysign, 4) F2(fmin, 5) F2(fmax, 6) F2(fdim, 7)
double OVL pown(double a, int b) { return nb_fn2(0, a, b); }
double OVL fma(double a, double b, double c) { return a * b + c; }
double OVL mad(double a, double b, double c) { return a * b + c; }
float OVL fma(float a, float b, float c) { return a * b + c; }
float OVL mad(float a, float b, float c) { return a * b + c; }
#define MM(T) T OVL min(T a, T b) { return b < a ? b : a; } T OVL max(T a, T b) { return a < b ? b : a; } T OVL clamp(T a, T l, T h) { return min(max(a, l), h); }
MM(double) MM(float) MM(int) MM(uint) MM(long) MM(ulong) MM(short) MM(ushort) MM(char) MM(uchar)
#define MMV(T, S) T OVL min(T a, T b) { return (T)(min(a.x, b.x), min(a.y, b.y), min(a.z, b.z)); } T OVL max(T a, T b) { return (T)(max(a.x, b.x), max(a.y, b.y), max(a.z, b.z)); } \
T OVL fmin(T a, T b) { return (T)(fmin(a.x, b.x), fmin(a.y, b.y), fmin(a.z, b.z)); } T OVL fmax(T a, T b) { return (T)(fmax(a.x, b.x), fmax(a.y, b.y), fmax(a.z, b.z)); } \
S OVL dot(T a, T b) { return a.x * b.x + a.y * b.y + a.z * b.z; } S OVL length(T a) { return sqrt(dot(a, a)); } S OVL distance(T a, T b) { return length(a - b); } \
T OVL fabs(T a) { return (T)(fabs(a.x), fabs(a.y), fabs(a.z)); } T OVL sqrt(T a) { return (T)(sqrt(a.x), sqrt(a.y), sqrt(a.z)); } T OVL normalize(T a) { return a / length(a); } \
T OVL fma(T a, T b, T c) { return a * b + c; } T OVL mad(T a, T b, T c) { return a * b + c; } T OVL cross(T a, T b) { return (T)(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
MMV(double3, double) MMV(float3, float)
double OVL dot(double4 a, double4 b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
double OVL length(double4 a) { return sqrt(dot(a, a)); }
double OVL distance(double4 a, double4 b) { return length(a - b); }
#define ABS(T, U) U OVL abs(T a) { return a < 0 ? -a : a; }
ABS(int, uint) ABS(long, ulong)
int OVL isnan(double a) { return a != a; }
int OVL isfinite(double a) { return a - a == 0; }
int OVL mad24(int a, int b, int c) { return a * b + c; }
int OVL mul24(int a, int b) { return a * b; }
int OVL clz(int a) { return a ? __builtin_clz(a) : 32; }
int OVL popcount(int a) { return __builtin_popcount(a); }
double OVL select(double a, double b, long c) { return c < 0 ? b : a; }
#define VL(S, AS) double4 OVL vload4(size_t o, AS const double* p) { p += o * 4; return (double4)(p[0], p[1], p[2], p[3]); } \
double3 OVL vload3(size_t o, AS const double* p) { p += o * 3; return (double3)(p[0], p[1], p[2]); } double2 OVL vload2(size_t o, AS const double* p) { p += o * 2; return (double2)(p[0], p[1]); } \
void OVL vstore4(double4 v, size_t o, AS double* p) { p += o * 4; p[0] = v.x; p[1] = v.y; p[2] = v.z; p[3] = v.w; } \
void OVL vstore3(double3 v, size_t o, AS double* p) { p += o * 3; p[0] = v.x; p[1] = v.y; p[2] = v.z; } void OVL vstore2(double2 v, size_t o, AS double* p) { p += o * 2; p[0] = v.x; p[1] = v.y; }
VL(g, __global) VL(l, __local) VL(p, __private)
int OVL isinf(double a) { return a - a != 0 && a == a; }
double OVL sign(double a) { return a > 0 ? 1 : a < 0 ? -1 : 0; }
double OVL step(double e, double a) { return a < e ? 0 : 1; }
double OVL mix(double a, double b, double t) { return a + (b - a) * t; }
double4 OVL min(double4 a, double4 b) { return (double4)(min(a.x, b.x), min(a.y, b.y), min(a.z, b.z), min(a.w, b.w)); }
double4 OVL max(double4 a, double4 b) { return (double4)(max(a.x, b.x), max(a.y, b.y), max(a.z, b.z), max(a.w, b.w)); }
uint OVL abs_diff(int a, int b) { return a > b ? a - b : b - a; }
