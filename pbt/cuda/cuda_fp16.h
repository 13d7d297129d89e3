#ifndef EMU_CUDA_FP16_H_
#define EMU_CUDA_FP16_H_
typedef _Float16 half;
typedef half __half;
#endif
