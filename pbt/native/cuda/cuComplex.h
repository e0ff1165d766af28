#ifndef PBT_CUCOMPLEX_H_
#define PBT_CUCOMPLEX_H_
#include "vector_types.h"
typedef float2 cuFloatComplex;
typedef float2 cuComplex;
typedef double2 cuDoubleComplex;
static inline float cuCrealf(float2 a) { return a.x; }
static inline float cuCimagf(float2 a) { return a.y; }
static inline double cuCreal(double2 a) { return a.x; }
static inline double cuCimag(double2 a) { return a.y; }
static inline float2 make_cuFloatComplex(float a, float b) { float2 c = {a, b}; return c; }
static inline double2 make_cuDoubleComplex(double a, double b) { double2 c = {a, b}; return c; }
static inline float2 make_cuComplex(float a, float b) { float2 c = {a, b}; return c; }
static inline float2 cuConjf(float2 a) { a.y = -a.y; return a; }
static inline double2 cuConj(double2 a) { a.y = -a.y; return a; }
static inline float2 cuCaddf(float2 a, float2 b) { a.x += b.x; a.y += b.y; return a; }
static inline double2 cuCadd(double2 a, double2 b) { a.x += b.x; a.y += b.y; return a; }
static inline float2 cuCsubf(float2 a, float2 b) { a.x -= b.x; a.y -= b.y; return a; }
static inline double2 cuCsub(double2 a, double2 b) { a.x -= b.x; a.y -= b.y; return a; }
static inline float2 cuCmulf(float2 a, float2 b)
{ float2 c = {a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x}; return c; }
static inline double2 cuCmul(double2 a, double2 b)
{ double2 c = {a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x}; return c; }
static inline double2 cuCdiv(double2 a, double2 b)
{
    const double s = fabs(b.x) + fabs(b.y), o = 1.0 / s;
    const double ax = a.x * o, ay = a.y * o, bx = b.x * o, by = b.y * o;
    const double t = 1.0 / (bx * bx + by * by);
    double2 c = {(ax * bx + ay * by) * t, (ay * bx - ax * by) * t};
    return c;
}
static inline float2 cuCdivf(float2 a, float2 b)
{
    const float s = fabsf(b.x) + fabsf(b.y), o = 1.0f / s;
    const float ax = a.x * o, ay = a.y * o, bx = b.x * o, by = b.y * o;
    const float t = 1.0f / (bx * bx + by * by);
    float2 c = {(ax * bx + ay * by) * t, (ay * bx - ax * by) * t};
    return c;
}
static inline float cuCabsf(float2 a) { return hypotf(a.x, a.y); }
static inline double cuCabs(double2 a) { return hypot(a.x, a.y); }
#endif
