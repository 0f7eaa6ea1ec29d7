// NCCL on runtime/fakecuda.cpp
#ifndef VERIF_NCCL_H
#define VERIF_NCCL_H
#include <cuda_runtime.h>
enum ncclResult_t { ncclSuccess, ncclUnhandledCudaError, ncclInvalidArgument, ncclInvalidUsage };
enum ncclDataType_t { ncclInt8, ncclChar = 0, ncclInt32 = 2, ncclInt = 2, ncclFloat32 = 7, ncclFloat = 7, ncclFloat64 = 8, ncclDouble = 8, ncclNumTypes = 9 };
enum ncclRedOp_t { ncclSum, ncclProd, ncclMax, ncclMin };
struct ncclComm;
typedef ncclComm* ncclComm_t;
const char* ncclGetErrorString(ncclResult_t);
ncclResult_t ncclCommInitAll(ncclComm_t*, int, const int*);
ncclResult_t ncclCommDestroy(ncclComm_t);
ncclResult_t ncclGroupStart();
ncclResult_t ncclGroupEnd();
ncclResult_t ncclAllGather(const void*, void*, size_t, ncclDataType_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclAllReduce(const void*, void*, size_t, ncclDataType_t, ncclRedOp_t, ncclComm_t, cudaStream_t);
#endif
