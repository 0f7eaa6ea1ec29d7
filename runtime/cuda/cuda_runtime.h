// CUDA runtime interface of the controlled implementation (runtime/fakecuda.cpp). Kernels are host functions.
#ifndef VERIF_CUDA_RUNTIME_H
#define VERIF_CUDA_RUNTIME_H
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <tuple>
#include <type_traits>
#include <utility>

#define __host__
#define __device__
#define __global__
#define __constant__
#define __forceinline__ inline
#define __launch_bounds__(...)
// 'extern __shared__' is rewritten together with the kernel launches
#define __shared__ static __attribute__((section("cu_shared")))
#define CUDART_VERSION 11000

struct uint3 { unsigned x, y, z; };
struct dim3 { unsigned x, y, z; dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {} };
#define NB_VEC(T, N) struct N##2 { T x, y; }; struct N##3 { T x, y, z; }; struct N##4 { T x, y, z, w; }; \
static inline N##2 make_##N##2(T x, T y) { return { x, y }; } static inline N##3 make_##N##3(T x, T y, T z) { return { x, y, z }; } \
static inline N##4 make_##N##4(T x, T y, T z, T w) { return { x, y, z, w }; }
NB_VEC(int, int) NB_VEC(float, float) NB_VEC(double, double)
struct int1 { int x; };
struct float1 { float x; };

enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorNoDevice = 100, cudaErrorInvalidDevice = 101, cudaErrorInvalidResourceHandle = 400, cudaErrorNotReady = 600 };
typedef cudaError_t cudaError;
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
enum cudaFuncCache { cudaFuncCachePreferNone, cudaFuncCachePreferShared, cudaFuncCachePreferL1, cudaFuncCachePreferEqual };
enum cudaChannelFormatKind { cudaChannelFormatKindSigned, cudaChannelFormatKindUnsigned, cudaChannelFormatKindFloat, cudaChannelFormatKindNone };
enum cudaResourceType { cudaResourceTypeArray, cudaResourceTypeMipmappedArray, cudaResourceTypeLinear, cudaResourceTypePitch2D };
enum cudaTextureAddressMode { cudaAddressModeWrap, cudaAddressModeClamp, cudaAddressModeMirror, cudaAddressModeBorder };
enum cudaTextureFilterMode { cudaFilterModePoint, cudaFilterModeLinear };
enum cudaTextureReadMode { cudaReadModeElementType, cudaReadModeNormalizedFloat };
struct cudaChannelFormatDesc { int x, y, z, w; cudaChannelFormatKind f; };
struct cudaResourceDesc { cudaResourceType resType; struct { struct { void* devPtr; cudaChannelFormatDesc desc; size_t sizeInBytes; } linear; } res; };
struct cudaTextureDesc { cudaTextureAddressMode addressMode[3]; cudaTextureFilterMode filterMode; cudaTextureReadMode readMode; int sRGB; float borderColor[4]; int normalizedCoords; };
struct cudaResourceViewDesc { int format; };
typedef unsigned long long cudaTextureObject_t;
struct CUstream_st;
typedef CUstream_st* cudaStream_t;
struct CUevent_st;
typedef CUevent_st* cudaEvent_t;
struct cudaUUID_t { char bytes[16]; };
struct cudaDeviceProp
{
	char name[256]; cudaUUID_t uuid; size_t totalGlobalMem, sharedMemPerBlock; int regsPerBlock, warpSize; size_t memPitch; int maxThreadsPerBlock, maxThreadsDim[3], maxGridSize[3], clockRate;
	size_t totalConstMem; int major, minor, multiProcessorCount, pciBusID, pciDeviceID, pciDomainID, l2CacheSize; size_t sharedMemPerMultiprocessor; int regsPerMultiprocessor;
};

extern "C++" {
const char* cudaGetErrorString(cudaError_t);
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetDeviceCount(int*);
cudaError_t cudaGetDevice(int*);
cudaError_t cudaSetDevice(int);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaMalloc(void**, size_t);
template<class T> static inline cudaError_t cudaMalloc(T** p, size_t n) { return cudaMalloc((void**)p, n); }
cudaError_t cudaFree(void*);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpyAsync(void*, const void*, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaMemcpyPeer(void*, int, const void*, int, size_t);
cudaError_t cudaMemcpyPeerAsync(void*, int, const void*, int, size_t, cudaStream_t = nullptr);
cudaError_t cudaMemcpy2D(void*, size_t, const void*, size_t, size_t, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpy2DAsync(void*, size_t, const void*, size_t, size_t, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaMemset(void*, int, size_t);
cudaError_t cudaMemsetAsync(void*, int, size_t, cudaStream_t = nullptr);
cudaError_t cudaStreamCreate(cudaStream_t*);
enum { cudaStreamDefault = 0, cudaStreamNonBlocking = 1, cudaEventDefault = 0, cudaEventDisableTiming = 2 };
cudaError_t cudaStreamCreateWithFlags(cudaStream_t*, unsigned);
cudaError_t cudaStreamDestroy(cudaStream_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaStreamQuery(cudaStream_t);
cudaError_t cudaStreamWaitEvent(cudaStream_t, cudaEvent_t, unsigned = 0);
cudaError_t cudaEventCreate(cudaEvent_t*);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t*, unsigned);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = nullptr);
cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaEventDestroy(cudaEvent_t);
cudaError_t cudaCreateTextureObject(cudaTextureObject_t*, const cudaResourceDesc*, const cudaTextureDesc*, const cudaResourceViewDesc*);
cudaError_t cudaDestroyTextureObject(cudaTextureObject_t);
template<class F> static inline cudaError_t cudaFuncSetCacheConfig(F*, cudaFuncCache) { return cudaSuccess; }
}

namespace fakecuda
{
//! A kernel with its arguments
struct Call { virtual void run() = 0; virtual ~Call() {} };
void launch(dim3 grid, dim3 block, size_t shared, cudaStream_t s, const char* name, Call* call, size_t call_size);
uint3 idx(int what);
char* shared();
void barrier();
void tex(cudaTextureObject_t, int i, void* dst, size_t size, bool fp);
void mem_read(const void* dev, size_t n, void* host);
void mem_fill(void* dev, const void* value, size_t elem, size_t count);

template<size_t... I> struct Seq {};
template<size_t N, size_t... I> struct Make : Make<N - 1, N - 1, I...> {};
template<size_t... I> struct Make<0, I...> { typedef Seq<I...> type; };
template<class... P> struct Bound : Call
{
	void			(*fn)(P...);
	std::tuple<typename std::decay<P>::type...>	args;
	template<class... A> Bound(void (*f)(P...), A&&... a) : fn(f), args(std::forward<A>(a)...) {}
	template<size_t... I> void go(Seq<I...>) { fn(std::get<I>(args)...); }
	void run() override { go(typename Make<sizeof...(P)>::type()); }
};
struct Conf { dim3 g, b; size_t s; cudaStream_t st; const char* name; };
template<class... P> struct Ready
{
	Conf		l;
	void		(*fn)(P...);
	void operator()(typename std::decay<P>::type... a) { typedef Bound<P...> B; launch(l.g, l.b, l.s, l.st, l.name, new B(fn, a...), sizeof(B)); }
};
struct Launcher
{
	Conf	c;
	Launcher(const char* n, dim3 grid, dim3 block, size_t sh = 0, cudaStream_t str = nullptr) : c{ grid, block, sh, str, n } {}
	template<class... P> Ready<P...> of(void (*fn)(P...)) { return Ready<P...>{ c, fn }; }
};
template<class T> struct FP { enum { value = std::is_floating_point<T>::value }; };
template<> struct FP<float1> { enum { value = 1 }; };
template<> struct FP<float2> { enum { value = 1 }; };
template<> struct FP<float4> { enum { value = 1 }; };
}
#define threadIdx (fakecuda::idx(0))
#define blockIdx (fakecuda::idx(1))
#define blockDim (fakecuda::idx(2))
#define gridDim (fakecuda::idx(3))
static inline void __syncthreads() { fakecuda::barrier(); }
template<class T> static inline T tex1Dfetch(cudaTextureObject_t t, int i) { T r; fakecuda::tex(t, i, &r, sizeof r, fakecuda::FP<T>::value); return r; }
static inline double __hiloint2double(int hi, int lo) { uint64_t v = (uint64_t(uint32_t(hi)) << 32) | uint32_t(lo); double d; __builtin_memcpy(&d, &v, 8); return d; }
static inline int __ffs(int v) { return __builtin_ffs(v); }
static inline int __ffsll(long long v) { return __builtin_ffsll(v); }
static inline int __clz(int v) { return v ? __builtin_clz(v) : 32; }
static inline int __popc(unsigned v) { return __builtin_popcount(v); }
static inline double min(double a, double b) { return fmin(a, b); }
static inline double max(double a, double b) { return fmax(a, b); }
static inline float min(float a, float b) { return fminf(a, b); }
static inline float max(float a, float b) { return fmaxf(a, b); }
static inline int min(int a, int b) { return a < b ? a : b; }
static inline int max(int a, int b) { return a > b ? a : b; }
static inline double rsqrt(double a) { return 1 / sqrt(a); }
static inline double fma_rn(double a, double b, double c) { return fma(a, b, c); }
#endif
