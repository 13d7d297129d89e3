// Runs CUDA kernels on the CPU. The threads of a kernel are fibers of one
// thread, switched at barriers, atomic operations and, as the case asks for
// it, at any access to memory. The order is drawn from a seed. Accesses to
// memory are reported by the compiler (-fsanitize=thread, without its
// library) and have to hit a buffer of the operation.
#include <sys/mman.h>

#include <map>
#include <mutex>

#include "emu_tf.h"

#undef threadIdx
#undef blockIdx
#undef blockDim
#undef gridDim

namespace emu {

Fiber* self = nullptr;

namespace {

const size_t kStack = 64 * 1024;
const uint64_t kMaxSteps = 2000ull * 1000 * 1000;

struct Block;
struct Thread : Fiber {
  void* sp = nullptr;
  Block* block = nullptr;
  bool done = false, waiting = false;
  char* stack = nullptr;
};
struct Block {
  std::vector<Thread*> threads;
  int alive = 0, waiting = 0;
  std::map<void*, std::pair<char*, size_t>> statics;
  char* dynamic = nullptr;
  size_t dynamic_size = 0;
};
struct Range { uintptr_t lo, hi; };

std::mutex mutex;
// settings
uint64_t seed0 = 1, random_state = 1;
int mps = 2, blocks_per_mp = 2, preempt = 0, resident = 4, order = 1;
// state of an operation
std::vector<std::function<void()>> queue;
std::vector<tensorflow::Tensor> kept;
std::vector<Range> buffers;
std::vector<std::pair<void*, size_t>> host_temps;
cudaError_t last_error = cudaSuccess;
std::string problem;
bool aborted = false;
uint64_t steps = 0;
// state of a kernel
void (*body)(const void*) = nullptr;
const void* arguments = nullptr;
void* main_sp = nullptr;
std::vector<char*> free_stacks;
std::vector<std::unique_ptr<char[]>> arenas;
std::vector<Range> shared_ranges;
Range argument_range;
const char* kernel_name = "";
Thread* current = nullptr;

uint64_t rnd() {
  uint64_t x = random_state += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

extern "C" void emu_switch(void** save, void* to);
asm(R"(
.text
.type emu_switch,@function
emu_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size emu_switch,.-emu_switch
)");

void to_main() {
  self = nullptr;
  Thread* t = current;
  emu_switch(&t->sp, main_sp);
}

void resume(Thread* t) {
  current = t;
  self = t;
  emu_switch(&main_sp, t->sp);
  current = nullptr;
  self = nullptr;
}

void fail(const std::string& what) {
  if (problem.empty()) problem = what + " (kernel " + kernel_name + ")";
  aborted = true;
  if (current) {
    to_main();
    abort();
  }
}

void entry() {
  body(arguments);
  Thread* t = current;
  t->done = true;
  t->block->alive--;
  to_main();
  abort();
}

char* stack() {
  char* s;
  if (!free_stacks.empty()) {
    s = free_stacks.back();
    free_stacks.pop_back();
  } else {
    s = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (s == MAP_FAILED) throw Error("no memory for the stacks");
  }
  return s;
}

void fill(void* where, size_t size) {
  // not initialized: anything; small integers are likely to be seen as
  // numbers that make sense
  unsigned char* p = (unsigned char*)where;
  int kind = rnd() % 3;
  uint64_t word = rnd();
  for (size_t i = 0; i < size; ++i)
    p[i] = kind == 0 ? 0xFF : kind == 1 ? (i % 4 == 0 ? 1 + word % 7 : 0)
                                        : (word >> (8 * (i % 8)));
}

bool within(const std::vector<Range>& ranges, uintptr_t a, size_t n) {
  for (const Range& r : ranges)
    if (a >= r.lo && a + n <= r.hi) return true;
  return false;
}

extern "C" char __ehdr_start __attribute__((visibility("hidden")));
extern "C" char _end __attribute__((visibility("hidden")));

void access(const void* where, size_t size, bool write) {
  if (!self) return;
  uintptr_t a = (uintptr_t)where;
  uintptr_t here = (uintptr_t)__builtin_frame_address(0);
  // local variables
  if (a + kStack > here && a < here + kStack) return;
  // threadIdx and the like
  if (a >= (uintptr_t)self && a < (uintptr_t)self + sizeof(Fiber)) return;
  // the arguments of the kernel, every thread copies them
  if (a >= argument_range.lo && a + size <= argument_range.hi) return;
  if (a >= (uintptr_t)&__ehdr_start && a < (uintptr_t)&_end) return;
  if (!within(buffers, a, size) && !within(shared_ranges, a, size))
    fail(std::string(write ? "write" : "read") + " outside of all buffers");
  if (++steps > kMaxSteps) fail("a kernel does not end");
  if (preempt && rnd() % preempt == 0) yield();
}

void sync_stream() {
  // what is enqueued while this runs is kept for the next time
  std::vector<std::function<void()>> work;
  work.swap(queue);
  for (auto& w : work) w();
}

}  // namespace

void yield() {
  if (current) to_main();
}

void atomic_access(const void* where, size_t size) {
  if (!self) throw Error("atomic operation outside of a kernel");
  int keep = preempt;
  preempt = 0;
  access(where, size, true);
  preempt = keep;
  if (rnd() % 2) yield();
}

void barrier() {
  Thread* t = current;
  t->waiting = true;
  t->block->waiting++;
  to_main();
}

void* shared_static(void* tag, size_t size) {
  Block* b = current->block;
  auto found = b->statics.find(tag);
  if (found != b->statics.end()) return found->second.first;
  arenas.emplace_back(new char[size + 64]);
  char* p = (char*)(((uintptr_t)arenas.back().get() + 63) & ~(uintptr_t)63);
  fill(p, size);
  b->statics[tag] = {p, size};
  shared_ranges.push_back({(uintptr_t)p, (uintptr_t)p + size});
  return p;
}

void* shared_dynamic() { return current->block->dynamic; }

void enqueue(std::function<void()> work) { queue.push_back(std::move(work)); }

bool check_launch(const char* name, dim3 grid, dim3 block, size_t shared) {
  uint64_t threads = (uint64_t)block.x * block.y * block.z;
  if (grid.x == 0 || grid.y == 0 || grid.z == 0 || threads == 0 ||
      threads > 1024 || grid.y > 65535 || grid.z > 65535 ||
      grid.x > 2147483647u) {
    last_error = cudaErrorInvalidConfiguration;
    kernel_name = name;
    return false;
  }
  if (shared > 48 * 1024) {
    last_error = cudaErrorInvalidValue;
    kernel_name = name;
    return false;
  }
  return true;
}

void run_kernel(const char* name, dim3 grid, dim3 bdim, size_t shared,
                void (*kernel)(const void*), const void* kernel_arguments,
                size_t arguments_size) {
  arguments = kernel_arguments;
  argument_range = {(uintptr_t)arguments,
                    (uintptr_t)arguments + arguments_size};
  const uint64_t total = (uint64_t)grid.x * grid.y * grid.z;
  const uint64_t threads = (uint64_t)bdim.x * bdim.y * bdim.z;
  body = kernel;
  kernel_name = name;
  std::vector<uint64_t> numbers(total);
  for (uint64_t i = 0; i < total; ++i) numbers[i] = i;
  if (order == 1)
    for (uint64_t i = total; i > 1; --i) std::swap(numbers[i - 1],
                                                  numbers[rnd() % i]);
  else if (order == 2)
    std::reverse(numbers.begin(), numbers.end());
  uint64_t next = 0;
  std::vector<std::unique_ptr<Block>> live;
  std::vector<std::unique_ptr<Thread>> all;
  std::vector<Thread*> ready;
  shared_ranges.clear();
  arenas.clear();
  while (next < total || !live.empty()) {
    while (next < total && live.size() < (size_t)resident) {
      uint64_t n = numbers[next++];
      live.emplace_back(new Block());
      Block* b = live.back().get();
      if (shared) {
        arenas.emplace_back(new char[shared + 64]);
        b->dynamic =
            (char*)(((uintptr_t)arenas.back().get() + 63) & ~(uintptr_t)63);
        fill(b->dynamic, shared);
        shared_ranges.push_back(
            {(uintptr_t)b->dynamic, (uintptr_t)b->dynamic + shared});
      }
      for (uint64_t t = 0; t < threads; ++t) {
        all.emplace_back(new Thread());
        Thread* thread = all.back().get();
        thread->tid = {(unsigned)(t % bdim.x), (unsigned)(t / bdim.x % bdim.y),
                       (unsigned)(t / bdim.x / bdim.y)};
        thread->bid = {(unsigned)(n % grid.x), (unsigned)(n / grid.x % grid.y),
                       (unsigned)(n / grid.x / grid.y)};
        thread->bdim = bdim;
        thread->gdim = grid;
        thread->block = b;
        char* s = stack();
        thread->stack = s;
        void** sp = (void**)(s + kStack - 64);
        *--sp = nullptr;  // where entry would return to
        *--sp = (void*)&entry;
        for (int i = 0; i < 6; ++i) *--sp = nullptr;
        thread->sp = sp;
        b->threads.push_back(thread);
        b->alive++;
        ready.push_back(thread);
      }
    }
    if (ready.empty()) {
      fail("threads of a kernel wait for ever");
    } else {
      size_t at = order == 0 ? 0 : order == 2 ? ready.size() - 1
                                              : rnd() % ready.size();
      Thread* t = ready[at];
      if (order == 0) {
        ready.erase(ready.begin());
      } else {
        ready[at] = ready.back();
        ready.pop_back();
      }
      resume(t);
      Block* b = t->block;
      if (!aborted) {
        if (!t->done && !t->waiting) {
          if (order == 2) ready.insert(ready.begin(), t);
          else ready.push_back(t);
        }
        if (b->alive == b->waiting && b->alive) {
          b->waiting = 0;
          for (Thread* w : b->threads)
            if (w->waiting) {
              w->waiting = false;
              ready.push_back(w);
            }
        }
        if (!b->alive) {
          std::vector<Thread*> b_threads = b->threads;
          for (size_t i = 0; i < live.size(); ++i)
            if (live[i].get() == b) {
              live.erase(live.begin() + i);
              break;
            }
          for (Thread* done : b_threads) free_stacks.push_back(done->stack);
          if (live.empty()) {
            all.clear();
            shared_ranges.clear();
            arenas.clear();
          }
        }
      }
    }
    if (aborted) {
      for (auto& b : live)
        for (Thread* t : b->threads) free_stacks.push_back(t->stack);
      throw Error(problem);
    }
  }
}

const cudaStream_t& stream() {
  static cudaStream_t the_stream = nullptr;
  return the_stream;
}

long clock() { return (long)(seed0 & 0x7fffffff); }

void fail_exit(int code) {
  throw Error("the process is ended with code " + std::to_string(code) +
              (last_error == cudaErrorInvalidConfiguration
                   ? std::string(" (launch of ") + kernel_name +
                         " with an invalid configuration, like no blocks)"
                   : ""));
}

void lock() { mutex.lock(); }
void unlock() { mutex.unlock(); }

static void add_buffer(const tensorflow::Tensor& t) {
  auto data = t.tensor_data();
  if (data.size())
    buffers.push_back({(uintptr_t)data.data(),
                       (uintptr_t)data.data() + data.size()});
}

void begin(tensorflow::OpKernelContext* context) {
  queue.clear();
  kept.clear();
  buffers.clear();
  host_temps.clear();
  last_error = cudaSuccess;
  problem.clear();
  aborted = false;
  steps = 0;
  random_state = seed0;
  for (int i = 0; i < context->num_inputs(); ++i)
    add_buffer(context->input(i));
}

void flush() {
  // memory of the host is given back when the operation returns, the stream
  // may still be working
  for (auto& h : host_temps) memset(h.first, 0x5A, h.second);
  sync_stream();
}

void end() {
  queue.clear();
  kept.clear();
  buffers.clear();
}

absl::Status allocate_output(tensorflow::OpKernelContext* context, int index,
                             const tensorflow::TensorShape& shape,
                             tensorflow::Tensor** out) {
  absl::Status status = context->allocate_output(index, shape, out);
  if (status.ok()) {
    add_buffer(**out);
    auto data = (*out)->tensor_data();
    fill((void*)data.data(), data.size());
  }
  return status;
}

absl::Status allocate_temp(tensorflow::OpKernelContext* context,
                           tensorflow::DataType type,
                           const tensorflow::TensorShape& shape,
                           tensorflow::Tensor* out,
                           tensorflow::AllocatorAttributes attributes) {
  bool host = attributes.on_host();
  absl::Status status = context->allocate_temp(type, shape, out);
  if (status.ok()) {
    kept.push_back(*out);
    auto data = out->tensor_data();
    fill((void*)data.data(), data.size());
    if (host)
      host_temps.push_back({(void*)data.data(), data.size()});
    else
      add_buffer(*out);
  }
  return status;
}

}  // namespace emu

using emu::queue;

static bool pinned(const void* p) {
  for (auto& h : emu::host_temps)
    if (p >= h.first && (char*)p < (char*)h.first + h.second) return true;
  return false;
}

cudaError_t cudaGetDevice(int* device) { *device = 0; return cudaSuccess; }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* prop, int) {
  prop->warpSize = 32;
  prop->multiProcessorCount = emu::mps;
  prop->maxThreadsPerBlock = 1024;
  prop->maxThreadsPerMultiProcessor = 2048;
  prop->regsPerBlock = 65536;
  prop->regsPerMultiprocessor = 65536;
  prop->sharedMemPerBlock = 49152;
  prop->sharedMemPerMultiprocessor = 98304;
  prop->major = 7;
  prop->minor = 0;
  return cudaSuccess;
}
static void check_buffer(const void* p, size_t size, const char* what) {
  if (size && !emu::within(emu::buffers, (uintptr_t)p, size))
    throw emu::Error(std::string(what) + " outside of a buffer");
}
cudaError_t cudaMemsetAsync(void* dest, int value, size_t size, cudaStream_t) {
  if (size == 0) return cudaSuccess;
  check_buffer(dest, size, "memset");
  emu::enqueue([=]() { memset(dest, value, size); });
  return cudaSuccess;
}
cudaError_t cudaMemcpyAsync(void* dest, const void* src, size_t size,
                            cudaMemcpyKind kind, cudaStream_t) {
  if (size == 0) return cudaSuccess;
  if (kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice)
    check_buffer(dest, size, "memcpy");
  if (kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice)
    check_buffer(src, size, "memcpy");
  if (kind == cudaMemcpyHostToDevice && !pinned(src)) {
    // pageable memory is staged before the call returns
    std::vector<char> copy((const char*)src, (const char*)src + size);
    emu::enqueue([=]() { memcpy(dest, copy.data(), size); });
  } else if (kind == cudaMemcpyDeviceToHost && !pinned(dest)) {
    // pageable memory: returns when the copy has been made
    emu::sync_stream();
    memcpy(dest, src, size);
  } else {
    emu::enqueue([=]() { memcpy(dest, src, size); });
  }
  return cudaSuccess;
}
cudaError_t cudaMemcpyToSymbolAsync(const void* symbol, const void* src,
                                    size_t size, size_t offset,
                                    cudaMemcpyKind, cudaStream_t) {
  std::vector<char> copy((const char*)src, (const char*)src + size);
  emu::enqueue(
      [=]() { memcpy((char*)symbol + offset, copy.data(), size); });
  return cudaSuccess;
}
cudaError_t cudaMemset(void* dest, int value, size_t size) {
  emu::sync_stream();
  memset(dest, value, size);
  return cudaSuccess;
}
cudaError_t cudaMemcpy(void* dest, const void* src, size_t size,
                       cudaMemcpyKind) {
  emu::sync_stream();
  memcpy(dest, src, size);
  return cudaSuccess;
}
cudaError_t cudaOccupancyMaxActiveBlocksPerMultiprocessor(
    int* blocks, const void*, int threads, size_t shared) {
  *blocks = emu::blocks_per_mp;
  if (threads <= 0 || threads > 1024 || shared > 49152) {
    *blocks = 0;
    emu::last_error = cudaErrorInvalidValue;
  }
  return emu::last_error;
}
cudaError_t cudaPeekAtLastError() { return emu::last_error; }
cudaError_t cudaGetLastError() {
  cudaError_t e = emu::last_error;
  emu::last_error = cudaSuccess;
  return e;
}
const char* cudaGetErrorString(cudaError_t error) {
  return error == cudaSuccess ? "no error"
         : error == cudaErrorInvalidConfiguration ? "invalid configuration"
                                                  : "invalid value";
}
cudaError_t cudaEventCreate(cudaEvent_t* event) {
  *event = nullptr;
  return cudaSuccess;
}
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t) { return cudaSuccess; }
cudaError_t cudaEventSynchronize(cudaEvent_t) {
  emu::sync_stream();
  return cudaSuccess;
}
cudaError_t cudaEventDestroy(cudaEvent_t) { return cudaSuccess; }
cudaError_t cudaEventElapsedTime(float* ms, cudaEvent_t, cudaEvent_t) {
  *ms = 0;
  return cudaSuccess;
}
cudaError_t cudaStreamSynchronize(cudaStream_t) {
  emu::sync_stream();
  return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize() {
  emu::sync_stream();
  return cudaSuccess;
}

extern "C" __attribute__((visibility("default"))) void emu_configure(
    uint64_t seed, int mps, int blocks, int preempt, int resident, int order) {
  std::lock_guard<std::mutex> guard(emu::mutex);
  emu::seed0 = seed;
  emu::mps = mps;
  emu::blocks_per_mp = blocks;
  emu::preempt = preempt;
  emu::resident = resident;
  emu::order = order;
}

// the calls that -fsanitize=thread inserts
#define EMU_ACCESS(N)                                                        \
  extern "C" void __tsan_read##N(void* p) { emu::access(p, N, false); }      \
  extern "C" void __tsan_write##N(void* p) { emu::access(p, N, true); }      \
  extern "C" void __tsan_unaligned_read##N(void* p) {                        \
    emu::access(p, N, false); }                                              \
  extern "C" void __tsan_unaligned_write##N(void* p) {                       \
    emu::access(p, N, true); }                                               \
  extern "C" void __tsan_volatile_read##N(void* p) {                         \
    emu::access(p, N, false); }                                              \
  extern "C" void __tsan_volatile_write##N(void* p) {                        \
    emu::access(p, N, true); }
EMU_ACCESS(1)
EMU_ACCESS(2)
EMU_ACCESS(4)
EMU_ACCESS(8)
EMU_ACCESS(16)
extern "C" void __tsan_read_range(void* p, long n) {
  emu::access(p, n, false);
}
extern "C" void __tsan_write_range(void* p, long n) {
  emu::access(p, n, true);
}
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_update(void**, void*) {}
extern "C" void __tsan_vptr_read(void**) {}
