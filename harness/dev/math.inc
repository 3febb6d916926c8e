// functions of the C library that a device has as well
extern "C" __device__ inline double fabs( double x ) { return __builtin_fabs( x ); }
extern "C" __device__ inline float fabsf( float x ) { return __builtin_fabsf( x ); }
extern "C" __device__ inline double sqrt( double x ) { return __builtin_sqrt( x ); }
extern "C" __device__ inline float sqrtf( float x ) { return __builtin_sqrtf( x ); }
extern "C" __device__ inline double cbrt( double x ) { return __builtin_cbrt( x ); }
extern "C" __device__ inline float cbrtf( float x ) { return __builtin_cbrtf( x ); }
extern "C" __device__ inline double floor( double x ) { return __builtin_floor( x ); }
extern "C" __device__ inline float floorf( float x ) { return __builtin_floorf( x ); }
extern "C" __device__ inline double ceil( double x ) { return __builtin_ceil( x ); }
extern "C" __device__ inline float ceilf( float x ) { return __builtin_ceilf( x ); }
extern "C" __device__ inline double trunc( double x ) { return __builtin_trunc( x ); }
extern "C" __device__ inline float truncf( float x ) { return __builtin_truncf( x ); }
extern "C" __device__ inline double round( double x ) { return __builtin_round( x ); }
extern "C" __device__ inline float roundf( float x ) { return __builtin_roundf( x ); }
extern "C" __device__ inline double exp( double x ) { return __builtin_exp( x ); }
extern "C" __device__ inline float expf( float x ) { return __builtin_expf( x ); }
extern "C" __device__ inline double log( double x ) { return __builtin_log( x ); }
extern "C" __device__ inline float logf( float x ) { return __builtin_logf( x ); }
extern "C" __device__ inline double sin( double x ) { return __builtin_sin( x ); }
extern "C" __device__ inline float sinf( float x ) { return __builtin_sinf( x ); }
extern "C" __device__ inline double cos( double x ) { return __builtin_cos( x ); }
extern "C" __device__ inline float cosf( float x ) { return __builtin_cosf( x ); }
extern "C" __device__ inline double tan( double x ) { return __builtin_tan( x ); }
extern "C" __device__ inline float tanf( float x ) { return __builtin_tanf( x ); }
extern "C" __device__ inline double pow( double x, double y ) { return __builtin_pow( x, y ); }
extern "C" __device__ inline float powf( float x, float y ) { return __builtin_powf( x, y ); }
extern "C" __device__ inline double fmod( double x, double y ) { return __builtin_fmod( x, y ); }
extern "C" __device__ inline float fmodf( float x, float y ) { return __builtin_fmodf( x, y ); }
extern "C" __device__ inline double fmax( double x, double y ) { return __builtin_fmax( x, y ); }
extern "C" __device__ inline float fmaxf( float x, float y ) { return __builtin_fmaxf( x, y ); }
extern "C" __device__ inline double fmin( double x, double y ) { return __builtin_fmin( x, y ); }
extern "C" __device__ inline float fminf( float x, float y ) { return __builtin_fminf( x, y ); }
extern "C" __device__ inline int abs( int x ) { return x < 0 ? -x : x; }
extern "C" __device__ inline long labs( long x ) { return x < 0 ? -x : x; }
