// Forced include for the builds of C30: routes the l functions to those of the format long double has.
#include <math.h>
#include <float.h>
#include <stdlib.h>
#include <limits.h>
#if LDBL_MANT_DIG == 113
long double acosf128(long double);
long double acoshf128(long double);
long double asinf128(long double);
long double asinhf128(long double);
long double atanf128(long double);
long double atanhf128(long double);
long double cbrtf128(long double);
long double ceilf128(long double);
long double cosf128(long double);
long double coshf128(long double);
long double expf128(long double);
long double exp2f128(long double);
long double expm1f128(long double);
long double fabsf128(long double);
long double floorf128(long double);
long double logf128(long double);
long double log10f128(long double);
long double log1pf128(long double);
long double log2f128(long double);
long double logbf128(long double);
long double nearbyintf128(long double);
long double rintf128(long double);
long double roundf128(long double);
long double sinf128(long double);
long double sinhf128(long double);
long double sqrtf128(long double);
long double tanf128(long double);
long double tanhf128(long double);
long double truncf128(long double);
long double erff128(long double);
long double erfcf128(long double);
long double tgammaf128(long double);
long double lgammaf128(long double);
long double atan2f128(long double, long double);
long double copysignf128(long double, long double);
long double fdimf128(long double, long double);
long double fmaxf128(long double, long double);
long double fminf128(long double, long double);
long double fmodf128(long double, long double);
long double hypotf128(long double, long double);
long double nextafterf128(long double, long double);
long double powf128(long double, long double);
long double remainderf128(long double, long double);
long double fmaf128(long double, long double, long double);
long double frexpf128(long double, int *);
long double ldexpf128(long double, int);
long double scalbnf128(long double, int);
long double scalblnf128(long double, long);
long double modff128(long double, long double *);
int ilogbf128(long double);
long lrintf128(long double);
long lroundf128(long double);
long long llrintf128(long double);
long long llroundf128(long double);
#define acosl acosf128
#define acoshl acoshf128
#define asinl asinf128
#define asinhl asinhf128
#define atanl atanf128
#define atanhl atanhf128
#define cbrtl cbrtf128
#define ceill ceilf128
#define cosl cosf128
#define coshl coshf128
#define expl expf128
#define exp2l exp2f128
#define expm1l expm1f128
#define fabsl fabsf128
#define floorl floorf128
#define logl logf128
#define log10l log10f128
#define log1pl log1pf128
#define log2l log2f128
#define logbl logbf128
#define nearbyintl nearbyintf128
#define rintl rintf128
#define roundl roundf128
#define sinl sinf128
#define sinhl sinhf128
#define sqrtl sqrtf128
#define tanl tanf128
#define tanhl tanhf128
#define truncl truncf128
#define erfl erff128
#define erfcl erfcf128
#define tgammal tgammaf128
#define lgammal lgammaf128
#define atan2l atan2f128
#define copysignl copysignf128
#define fdiml fdimf128
#define fmaxl fmaxf128
#define fminl fminf128
#define fmodl fmodf128
#define hypotl hypotf128
#define nextafterl nextafterf128
#define powl powf128
#define remainderl remainderf128
#define fmal fmaf128
#define frexpl frexpf128
#define ldexpl ldexpf128
#define scalbnl scalbnf128
#define scalblnl scalblnf128
#define modfl modff128
#define ilogbl ilogbf128
#define lrintl lrintf128
#define lroundl lroundf128
#define llrintl llrintf128
#define llroundl llroundf128
#else
#define acosl acos
#define acoshl acosh
#define asinl asin
#define asinhl asinh
#define atanl atan
#define atanhl atanh
#define cbrtl cbrt
#define ceill ceil
#define cosl cos
#define coshl cosh
#define expl exp
#define exp2l exp2
#define expm1l expm1
#define fabsl fabs
#define floorl floor
#define logl log
#define log10l log10
#define log1pl log1p
#define log2l log2
#define logbl logb
#define nearbyintl nearbyint
#define rintl rint
#define roundl round
#define sinl sin
#define sinhl sinh
#define sqrtl sqrt
#define tanl tan
#define tanhl tanh
#define truncl trunc
#define erfl erf
#define erfcl erfc
#define tgammal tgamma
#define lgammal lgamma
#define atan2l atan2
#define copysignl copysign
#define fdiml fdim
#define fmaxl fmax
#define fminl fmin
#define fmodl fmod
#define hypotl hypot
#define nextafterl nextafter
#define powl pow
#define remainderl remainder
#define fmal fma
#define frexpl frexp
#define ldexpl ldexp
#define scalbnl scalbn
#define scalblnl scalbln
#define modfl modf
#define ilogbl ilogb
#define lrintl lrint
#define lroundl lround
#define llrintl llrint
#define llroundl llround
#endif
