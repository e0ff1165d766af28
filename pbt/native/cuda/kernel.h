/* Included before every .cu file: the language extensions of CUDA. */
#ifndef PBT_CUDA_KERNEL_H_
#define PBT_CUDA_KERNEL_H_
#include <cmath>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <complex>
#include <math.h>
#include <stdio.h>

#include <cuda_runtime_api.h>
#include "vector_types.h"

#define __CUDACC__ 1
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __align__(N) __attribute__((aligned(N)))
#define __launch_bounds__(...)
#define __constant__
// (blocks run one after the other; extern __shared__ is rewritten by cu2cpp.py)
#define __shared__ static
#ifndef __CUDA_ARCH__
#define __CUDA_ARCH__ 700
#endif

extern "C" {
extern dim3 pbt_threadIdx, pbt_blockIdx, pbt_blockDim, pbt_gridDim;
void pbt_syncthreads(int where);
void pbt_preempt(void);
void* pbt_shared(void);
int pbt_on_device(const void* p);
void pbt_bad_pointer(const char* kernel, int index, const void* p);
}
#define threadIdx pbt_threadIdx
#define blockIdx pbt_blockIdx
#define blockDim pbt_blockDim
#define gridDim pbt_gridDim
#define warpSize 32
#define __syncthreads() pbt_syncthreads(__LINE__)

template<typename T, typename U> static inline T pbt_fetch_add(T* p, U v)
{
    pbt_preempt();
    T old = *p;
    *p = (T) (old + (T) v);
    return old;
}
static inline int atomicAdd(int* p, int v) { return pbt_fetch_add(p, v); }
static inline unsigned int atomicAdd(unsigned int* p, unsigned int v) { return pbt_fetch_add(p, v); }
static inline unsigned long long atomicAdd(unsigned long long* p, unsigned long long v) { return pbt_fetch_add(p, v); }
static inline float atomicAdd(float* p, float v) { return pbt_fetch_add(p, v); }
static inline double atomicAdd(double* p, double v) { return pbt_fetch_add(p, v); }
template<typename T> static inline T pbt_cas(T* p, T cmp, T v)
{
    pbt_preempt();
    T old = *p;
    if (old == cmp) *p = v;
    return old;
}
static inline int atomicCAS(int* p, int c, int v) { return pbt_cas(p, c, v); }
static inline unsigned int atomicCAS(unsigned int* p, unsigned int c, unsigned int v) { return pbt_cas(p, c, v); }
static inline unsigned long long atomicCAS(unsigned long long* p, unsigned long long c, unsigned long long v) { return pbt_cas(p, c, v); }
static inline int atomicMax(int* p, int v) { pbt_preempt(); int o = *p; if (v > o) *p = v; return o; }
static inline int atomicMin(int* p, int v) { pbt_preempt(); int o = *p; if (v < o) *p = v; return o; }
static inline int atomicExch(int* p, int v) { pbt_preempt(); int o = *p; *p = v; return o; }

static inline long long __double_as_longlong(double x) { long long r; memcpy(&r, &x, 8); return r; }
static inline double __longlong_as_double(long long x) { double r; memcpy(&r, &x, 8); return r; }
static inline int __float_as_int(float x) { int r; memcpy(&r, &x, 4); return r; }
static inline float __int_as_float(int x) { float r; memcpy(&r, &x, 4); return r; }
static inline int __double2int_rn(double x) { return (int) nearbyint(x); }
static inline int __float2int_rn(float x) { return (int) nearbyintf(x); }
static inline int __double2int_rd(double x) { return (int) floor(x); }
static inline int __float2int_rd(float x) { return (int) floorf(x); }
static inline float __fmul_rn(float a, float b) { return a * b; }
static inline double __dmul_rn(double a, double b) { return a * b; }
static inline float __fadd_rn(float a, float b) { return a + b; }
static inline double __dadd_rn(double a, double b) { return a + b; }
static inline float __fsub_rn(float a, float b) { return a - b; }
static inline double __dsub_rn(double a, double b) { return a - b; }
static inline float rsqrtf(float x) { return 1.0f / sqrtf(x); }
static inline double rsqrt(double x) { return 1.0 / sqrt(x); }
static inline void sincospi(double x, double* s, double* c) { sincos(M_PI * x, s, c); }
static inline void sincospif(float x, float* s, float* c) { sincosf((float) M_PI * x, s, c); }
#define PBT_MM(T) \
    static inline T max(T a, T b) { return a > b ? a : b; } \
    static inline T min(T a, T b) { return a < b ? a : b; }
PBT_MM(int) PBT_MM(unsigned int) PBT_MM(long) PBT_MM(unsigned long) PBT_MM(long long)
#undef PBT_MM
static inline unsigned int max(int a, unsigned int b) { return max((unsigned int) a, b); }
static inline unsigned int max(unsigned int a, int b) { return max(a, (unsigned int) b); }
static inline unsigned int min(int a, unsigned int b) { return min((unsigned int) a, b); }
static inline unsigned int min(unsigned int a, int b) { return min(a, (unsigned int) b); }
static inline double max(float a, double b) { return fmax(a, b); }
static inline double max(double a, float b) { return fmax(a, b); }
static inline double min(float a, double b) { return fmin(a, b); }
static inline double min(double a, float b) { return fmin(a, b); }
static inline void sincos(float x, float* s, float* c) { sincosf(x, s, c); }
static inline float max(float a, float b) { return fmaxf(a, b); }
static inline float min(float a, float b) { return fminf(a, b); }
static inline double max(double a, double b) { return fmax(a, b); }
static inline double min(double a, double b) { return fmin(a, b); }

// Kernels are registered with a function that unpacks the arguments.
#include "ska-sdp-func/utility/sdp_device_wrapper.h"

struct pbt_Kernel
{
    const void* fn;
    const char* name;
    void (*run)(const void* fn, void** args);
    void (*check)(const char* name, void** args);
};

template<typename T> struct pbt_Ptr
{
    template<typename U> static auto get(U& v, int) -> decltype((const void*) v.ptr)
    {
        return (const void*) v.ptr;
    }
    template<typename U> static const void* get(U&, long) { return 0; }
    static const void* of(T& v) { return get(v, 0); }
};
template<typename T> struct pbt_Ptr<T*>
{
    static const void* of(T* v) { return (const void*) v; }
};

template<int... I> struct pbt_Seq {};
template<int N, int... I> struct pbt_Make : pbt_Make<N - 1, N - 1, I...> {};
template<int... I> struct pbt_Make<0, I...> { typedef pbt_Seq<I...> type; };

template<typename... A> struct pbt_Call
{
    template<int... I> static void run_(void (*f)(A...), void** a, pbt_Seq<I...>)
    {
        f(*(typename std::remove_reference<A>::type*) a[I]...);
    }
    static void run(const void* fn, void** a)
    {
        run_((void (*)(A...)) fn, a, typename pbt_Make<sizeof...(A)>::type());
    }
    template<int... I> static void check_(const char* name, void** a, pbt_Seq<I...>)
    {
        const void* p[] = {pbt_Ptr<A>::of(*(A*) a[I])..., 0};
        for (int i = 0; i < (int) sizeof...(A); ++i)
            if (p[i] && !pbt_on_device(p[i])) pbt_bad_pointer(name, i, p[i]);
    }
    static void check(const char* name, void** a)
    {
        check_(name, a, typename pbt_Make<sizeof...(A)>::type());
    }
};

template<typename... A> const void* pbt_kernel(void (*f)(A...), const char* name)
{
    pbt_Kernel* k = new pbt_Kernel;
    k->fn = (const void*) f;
    k->name = name;
    k->run = &pbt_Call<A...>::run;
    k->check = &pbt_Call<A...>::check;
    return k;
}
#undef SDP_CUDA_KERNEL
#define SDP_CUDA_KERNEL(...) static sdp_CudaKernelRegistrar M_CAT(r_, __LINE__)( \
        #__VA_ARGS__, pbt_kernel(& __VA_ARGS__, #__VA_ARGS__));
#endif
