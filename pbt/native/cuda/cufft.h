/* A stand-in for cuFFT: transforms by their definition (see emu.cpp). */
#ifndef PBT_CUFFT_H_
#define PBT_CUFFT_H_
#include <cuComplex.h>
typedef int cufftHandle;
typedef enum {CUFFT_SUCCESS = 0, CUFFT_INVALID_PLAN = 1, CUFFT_INVALID_VALUE = 4,
              CUFFT_INVALID_SIZE = 8} cufftResult;
typedef enum {CUFFT_C2C = 0x29, CUFFT_Z2Z = 0x69} cufftType;
typedef cuFloatComplex cufftComplex;
typedef cuDoubleComplex cufftDoubleComplex;
#define CUFFT_FORWARD (-1)
#define CUFFT_INVERSE 1
extern "C" {
cufftResult cufftPlanMany(cufftHandle* plan, int rank, int* n, int* inembed, int istride, int idist,
        int* onembed, int ostride, int odist, cufftType type, int batch);
cufftResult cufftDestroy(cufftHandle plan);
cufftResult cufftExecC2C(cufftHandle plan, cufftComplex* in, cufftComplex* out, int direction);
cufftResult cufftExecZ2Z(cufftHandle plan, cufftDoubleComplex* in, cufftDoubleComplex* out,
        int direction);
}
#endif
