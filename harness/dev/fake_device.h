// The part of the CUDA and HIP languages and runtimes that a program for a device can see, for the model of a device.
#pragma once
#define __host__ __attribute__((host))
#define __device__ __attribute__((device))
#define __global__ __attribute__((global))
#define __shared__ __attribute__((shared))
#define __constant__ __attribute__((constant))
#define __managed__ __attribute__((managed))
#define __forceinline__ __inline__ __attribute__((always_inline))
#define __launch_bounds__( ... ) __attribute__((launch_bounds( __VA_ARGS__ )))

#include <cmath>
#include <cstddef>
#include <cstdlib>
#include <cstring>

struct dim3
{
  unsigned x, y, z;
  __host__ __device__ constexpr dim3( unsigned a = 1, unsigned b = 1, unsigned c = 1 ) : x( a ), y( b ), z( c ) {}
};

extern "C" __device__ unsigned vdev_coordinate( int );
template< int K > struct vdev_coord { __device__ operator unsigned() const { return vdev_coordinate( K ); } };
template< int K > struct vdev_coords { vdev_coord< K > x; vdev_coord< K + 1 > y; vdev_coord< K + 2 > z; };
static __device__ const vdev_coords< 0 > threadIdx{};
static __device__ const vdev_coords< 3 > blockIdx{};
static __device__ const vdev_coords< 6 > blockDim{};
static __device__ const vdev_coords< 9 > gridDim{};

#define VDEV_RUNTIME( P ) \
  enum P ## Error_t { P ## Success = 0, P ## ErrorInvalidValue = 1, P ## ErrorMemoryAllocation = 2, P ## ErrorOutOfMemory = 2, P ## ErrorInvalidConfiguration = 9, \
                      P ## ErrorInvalidMemcpyDirection = 21, P ## ErrorNoDevice = 100, P ## ErrorNoKernelImageForDevice = 209, P ## ErrorNotReady = 600, \
                      P ## ErrorIllegalAddress = 700, P ## ErrorLaunchFailure = 719, P ## ErrorUnknown = 999 }; \
  enum P ## MemcpyKind { P ## MemcpyHostToHost, P ## MemcpyHostToDevice, P ## MemcpyDeviceToHost, P ## MemcpyDeviceToDevice, P ## MemcpyDefault }; \
  typedef struct P ## stream_st * P ## Stream_t; \
  extern "C" { \
  P ## Error_t P ## Malloc( void **, std::size_t ); \
  P ## Error_t P ## MallocManaged( void **, std::size_t, unsigned = 1 ); \
  P ## Error_t P ## Free( void * ); \
  P ## Error_t P ## MallocAsync( void **, std::size_t, P ## Stream_t ); \
  P ## Error_t P ## FreeAsync( void *, P ## Stream_t ); \
  P ## Error_t P ## Memcpy( void *, void const *, std::size_t, P ## MemcpyKind ); \
  P ## Error_t P ## MemcpyAsync( void *, void const *, std::size_t, P ## MemcpyKind, P ## Stream_t = nullptr ); \
  P ## Error_t P ## Memset( void *, int, std::size_t ); \
  P ## Error_t P ## DeviceSynchronize(); \
  P ## Error_t P ## DeviceReset(); \
  P ## Error_t P ## StreamCreate( P ## Stream_t * ); \
  P ## Error_t P ## StreamDestroy( P ## Stream_t ); \
  P ## Error_t P ## StreamSynchronize( P ## Stream_t ); \
  P ## Error_t P ## GetLastError(); \
  P ## Error_t P ## PeekAtLastError(); \
  P ## Error_t P ## GetDeviceCount( int * ); \
  P ## Error_t P ## GetDevice( int * ); \
  P ## Error_t P ## SetDevice( int ); \
  char const * P ## GetErrorString( P ## Error_t ); \
  char const * P ## GetErrorName( P ## Error_t ); \
  P ## Error_t P ## LaunchKernel( void const *, dim3, dim3, void **, std::size_t, P ## Stream_t ); \
  unsigned __ ## P ## PushCallConfiguration( dim3, dim3, std::size_t = 0, P ## Stream_t = nullptr ); \
  P ## Error_t __ ## P ## PopCallConfiguration( dim3 *, dim3 *, std::size_t *, void * ); \
  } \
  template< typename T > P ## Error_t P ## Malloc( T ** p, std::size_t n ) { return P ## Malloc( reinterpret_cast< void ** >( p ), n ); } \
  template< typename T > P ## Error_t P ## MallocManaged( T ** p, std::size_t n, unsigned f = 1 ) { return P ## MallocManaged( reinterpret_cast< void ** >( p ), n, f ); } \
  template< typename T > P ## Error_t P ## MallocAsync( T ** p, std::size_t n, P ## Stream_t s ) { return P ## MallocAsync( reinterpret_cast< void ** >( p ), n, s ); } \
  template< typename F > P ## Error_t P ## LaunchKernel( F * f, dim3 g, dim3 b, void ** a, std::size_t m = 0, P ## Stream_t s = nullptr ) { return P ## LaunchKernel( reinterpret_cast< void const * >( f ), g, b, a, m, s ); }

#if defined( VDEV_HIP )
VDEV_RUNTIME( hip )
using hipError = hipError_t;
extern "C" hipError_t hipExtLaunchKernel( void const *, dim3, dim3, void **, std::size_t, hipStream_t );
#define hipLaunchKernelGGL( F, G, B, M, S, ... ) ( F ) <<< ( G ), ( B ), ( M ), ( S ) >>> ( __VA_ARGS__ )
#else
VDEV_RUNTIME( cuda )
using cudaError = cudaError_t;
__device__ inline void __trap() { __builtin_trap(); }
#endif

extern "C" __device__ int printf( char const *, ... );
extern "C" __device__ void * memcpy( void *, void const *, std::size_t );
extern "C" __device__ void * memmove( void *, void const *, std::size_t );
extern "C" __device__ void * memset( void *, int, std::size_t );
#include "math.inc"
