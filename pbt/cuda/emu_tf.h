// Connection of the emulator with TensorFlow: buffers of the operations and
// the end of the stream.
#ifndef EMU_TF_H_
#define EMU_TF_H_

#include "cuda_runtime.h"

#include "tensorflow/core/framework/op_kernel.h"
#include "tensorflow/core/framework/tensor.h"

namespace emu {

void begin(tensorflow::OpKernelContext* context);
void flush();  // runs what is left in the stream
void end();
void lock();
void unlock();
absl::Status allocate_output(tensorflow::OpKernelContext* context, int index,
                             const tensorflow::TensorShape& shape,
                             tensorflow::Tensor** out);
absl::Status allocate_temp(
    tensorflow::OpKernelContext* context, tensorflow::DataType type,
    const tensorflow::TensorShape& shape, tensorflow::Tensor* out,
    tensorflow::AllocatorAttributes attributes =
        tensorflow::AllocatorAttributes());

template <class T>
class Wrapped : public T {
 public:
  explicit Wrapped(tensorflow::OpKernelConstruction* c) : T(c) {}
  void Compute(tensorflow::OpKernelContext* context) override {
    lock();
    std::string what;
    try {
      begin(context);
      T::Compute(context);
      flush();
    } catch (const Error& error) {
      what = error.what();
    }
    end();
    unlock();
    if (!what.empty())
      context->CtxFailure(tensorflow::errors::Internal("EMU: ", what));
  }
};

}  // namespace emu

#endif
