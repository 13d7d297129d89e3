// The part of the CUDA runtime that the operations use, for the CPU: kernels
// run as fibers (emu.cpp), streams are queues that run when they are waited
// for.
#ifndef EMU_CUDA_RUNTIME_H_
#define EMU_CUDA_RUNTIME_H_

#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#define __global__
#define __device__
#define __host__
#define __forceinline__ inline

struct dim3 {
  unsigned int x, y, z;
  dim3(unsigned int a = 1, unsigned int b = 1, unsigned int c = 1)
      : x(a), y(b), z(c) {}
};
struct uint3 { unsigned int x, y, z; };
struct int2 { int x, y; };
struct int3 { int x, y, z; };
struct int4 { int x, y, z, w; };
struct float2 { float x, y; };
struct float3 { float x, y, z; };
struct float4 { float x, y, z, w; };
inline int2 make_int2(int x, int y) { return int2{x, y}; }
inline int3 make_int3(int x, int y, int z) { return int3{x, y, z}; }
inline int4 make_int4(int x, int y, int z, int w) { return int4{x, y, z, w}; }
inline float2 make_float2(float x, float y) { return float2{x, y}; }
inline float3 make_float3(float x, float y, float z) {
  return float3{x, y, z};
}

typedef enum {
  cudaSuccess = 0,
  cudaErrorInvalidValue = 1,
  cudaErrorInvalidConfiguration = 9
} cudaError_t;
typedef enum {
  cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost,
  cudaMemcpyDeviceToDevice, cudaMemcpyDefault
} cudaMemcpyKind;
typedef struct EmuStream* cudaStream_t;
typedef struct EmuEvent* cudaEvent_t;

struct cudaDeviceProp {
  int warpSize, multiProcessorCount, maxThreadsPerBlock,
      maxThreadsPerMultiProcessor, regsPerBlock, regsPerMultiprocessor;
  size_t sharedMemPerBlock, sharedMemPerMultiprocessor;
  int major, minor;
};

namespace emu {

struct Error : std::runtime_error {
  using std::runtime_error::runtime_error;
};

struct Fiber {
  uint3 tid, bid;
  dim3 bdim, gdim;
};
extern Fiber* self;

void barrier();
void yield();
void atomic_access(const void* where, size_t size);
void* shared_static(void* tag, size_t size);
void* shared_dynamic();
void enqueue(std::function<void()> work);
void run_kernel(const char* name, dim3 grid, dim3 block, size_t shared,
                void (*body)(const void*), const void* arguments,
                size_t arguments_size);
bool check_launch(const char* name, dim3 grid, dim3 block, size_t shared);
const cudaStream_t& stream();
long clock();
[[noreturn]] void fail_exit(int code);

template <class F, class... A>
struct Call {
  F kernel;
  std::tuple<A...> arguments;
  static void run(const void* call) {
    // every thread has its own copy of the arguments
    Call mine(*(const Call*)call);
    std::apply([&](auto... a) { mine.kernel(a...); }, mine.arguments);
  }
};

template <class F>
struct Launch {
  const char* name;
  F kernel;
  dim3 grid, block;
  size_t shared;
  template <class... A>
  void operator()(A... args) {
    if (!check_launch(name, grid, block, shared)) return;
    typedef Call<F, A...> C;
    dim3 g = grid, b = block;
    size_t s = shared;
    const char* n = name;
    C call{kernel, std::tuple<A...>(args...)};
    enqueue([n, g, b, s, call]() {
      run_kernel(n, g, b, s, &C::run, &call, sizeof(call));
    });
  }
};

template <class F>
Launch<F> launch(const char* name, F kernel, dim3 grid, dim3 block, size_t shared = 0,
                 cudaStream_t = nullptr) {
  return Launch<F>{name, kernel, grid, block, shared};
}

}  // namespace emu

#define threadIdx (::emu::self->tid)
#define blockIdx (::emu::self->bid)
#define blockDim (::emu::self->bdim)
#define gridDim (::emu::self->gdim)
const int warpSize = 32;

inline void __syncthreads() { ::emu::barrier(); }
inline void __syncwarp(unsigned = 0xffffffffu) {}
inline void __threadfence() {}
inline void __threadfence_block() {}

#define EMU_RAW __attribute__((noinline, no_sanitize_thread)) inline
#define EMU_ATOMIC(T)                                                        \
  EMU_RAW T atomicAdd(T* p, T v) {                                           \
    ::emu::atomic_access(p, sizeof(T)); T o = *(volatile T*)p;               \
    *(volatile T*)p = o + v; return o; }                                     \
  EMU_RAW T atomicExch(T* p, T v) {                                          \
    ::emu::atomic_access(p, sizeof(T)); T o = *(volatile T*)p;               \
    *(volatile T*)p = v; return o; }
#define EMU_ATOMIC_INT(T)                                                    \
  EMU_ATOMIC(T)                                                              \
  EMU_RAW T atomicSub(T* p, T v) {                                           \
    ::emu::atomic_access(p, sizeof(T)); T o = *(volatile T*)p;               \
    *(volatile T*)p = o - v; return o; }                                     \
  EMU_RAW T atomicMax(T* p, T v) {                                           \
    ::emu::atomic_access(p, sizeof(T)); T o = *(volatile T*)p;               \
    *(volatile T*)p = o < v ? v : o; return o; }                             \
  EMU_RAW T atomicMin(T* p, T v) {                                           \
    ::emu::atomic_access(p, sizeof(T)); T o = *(volatile T*)p;               \
    *(volatile T*)p = v < o ? v : o; return o; }                             \
  EMU_RAW T atomicOr(T* p, T v) {                                            \
    ::emu::atomic_access(p, sizeof(T)); T o = *(volatile T*)p;               \
    *(volatile T*)p = o | v; return o; }                                     \
  EMU_RAW T atomicAnd(T* p, T v) {                                           \
    ::emu::atomic_access(p, sizeof(T)); T o = *(volatile T*)p;               \
    *(volatile T*)p = o & v; return o; }                                     \
  EMU_RAW T atomicCAS(T* p, T compare, T v) {                                \
    ::emu::atomic_access(p, sizeof(T)); T o = *(volatile T*)p;               \
    if (o == compare) *(volatile T*)p = v; return o; }
EMU_ATOMIC(float)
EMU_ATOMIC(double)
EMU_ATOMIC_INT(int)
EMU_ATOMIC_INT(unsigned int)
EMU_ATOMIC_INT(unsigned long long)

inline int __float_as_int(float v) { int r; memcpy(&r, &v, 4); return r; }
inline float __int_as_float(int v) { float r; memcpy(&r, &v, 4); return r; }
inline unsigned __float_as_uint(float v) {
  unsigned r; memcpy(&r, &v, 4); return r; }
inline float __uint_as_float(unsigned v) {
  float r; memcpy(&r, &v, 4); return r; }
template <class T> inline T __ldg(const T* p) { return *p; }
inline float __expf(float v) { return expf(v); }
inline float __fdividef(float a, float b) { return a / b; }
inline float rsqrtf(float v) { return 1.0f / sqrtf(v); }

// min and max of the same and of mixed types, as in CUDA
template <class A, class B>
inline typename std::common_type<A, B>::type min(A a, B b) {
  typedef typename std::common_type<A, B>::type C;
  return (C)b < (C)a ? (C)b : (C)a;
}
template <class A, class B>
inline typename std::common_type<A, B>::type max(A a, B b) {
  typedef typename std::common_type<A, B>::type C;
  return (C)a < (C)b ? (C)b : (C)a;
}

cudaError_t cudaGetDevice(int* device);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* prop, int device);
cudaError_t cudaMemsetAsync(void* dest, int value, size_t size,
                            cudaStream_t stream = nullptr);
cudaError_t cudaMemcpyAsync(void* dest, const void* src, size_t size,
                            cudaMemcpyKind kind,
                            cudaStream_t stream = nullptr);
cudaError_t cudaMemcpyToSymbolAsync(const void* symbol, const void* src,
                                    size_t size, size_t offset,
                                    cudaMemcpyKind kind,
                                    cudaStream_t stream = nullptr);
cudaError_t cudaMemset(void* dest, int value, size_t size);
cudaError_t cudaMemcpy(void* dest, const void* src, size_t size,
                       cudaMemcpyKind kind);
cudaError_t cudaOccupancyMaxActiveBlocksPerMultiprocessor(
    int* blocks, const void* kernel, int threads, size_t shared);
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetLastError();
const char* cudaGetErrorString(cudaError_t error);
cudaError_t cudaEventCreate(cudaEvent_t* event);
cudaError_t cudaEventRecord(cudaEvent_t event, cudaStream_t stream = nullptr);
cudaError_t cudaEventSynchronize(cudaEvent_t event);
cudaError_t cudaEventDestroy(cudaEvent_t event);
cudaError_t cudaEventElapsedTime(float* ms, cudaEvent_t a, cudaEvent_t b);
cudaError_t cudaStreamSynchronize(cudaStream_t stream);
cudaError_t cudaDeviceSynchronize();

#endif
