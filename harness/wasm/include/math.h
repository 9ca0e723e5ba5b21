#pragma once
typedef float float_t; typedef double double_t;
#define INFINITY __builtin_inff()
#define NAN __builtin_nanf("")
#define HUGE_VAL __builtin_huge_val()
#define M_PI 3.14159265358979323846
#define M_PI_2 1.57079632679489661923
#define isfinite(x) __builtin_isfinite(x)
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isnormal(x) __builtin_isnormal(x)
#define signbit(x) __builtin_signbit(x)
#define FP_NAN 0
#define FP_INFINITE 1
#define FP_ZERO 2
#define FP_SUBNORMAL 3
#define FP_NORMAL 4
#define fpclassify(x) __builtin_fpclassify(FP_NAN, FP_INFINITE, FP_NORMAL, FP_SUBNORMAL, FP_ZERO, x)
#define U(n) double n(double); float n##f(float); long double n##l(long double);
#define B(n) double n(double, double); float n##f(float, float); long double n##l(long double, long double);
U(sin) U(cos) U(tan) U(atan) U(exp) U(log) U(log2) U(log10) U(sqrt) U(floor) U(ceil) U(round) U(trunc) U(rint) U(nearbyint) U(fabs) U(cbrt)
B(atan2) B(pow) B(fmod) B(fmin) B(fmax) B(copysign) B(hypot) B(nextafter)
#undef U
#undef B
double frexp(double, int*); float frexpf(float, int*); long double frexpl(long double, int*); double ldexp(double, int); float ldexpf(float, int); int ilogb(double); double logb(double); float logbf(float);
long lround(double); long lrintf(float); long lrint(double); long lroundf(float);
