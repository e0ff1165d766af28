#ifndef PBT_VECTOR_TYPES_H_
#define PBT_VECTOR_TYPES_H_
#include <math.h>
#define PBT_VEC(T, N) \
    struct __attribute__((aligned(2 * sizeof(T)))) N ## 2 { T x, y; }; \
    struct N ## 3 { T x, y, z; }; \
    struct __attribute__((aligned(4 * sizeof(T) > 16 ? 16 : 4 * sizeof(T)))) N ## 4 { T x, y, z, w; }; \
    static inline N ## 2 make_ ## N ## 2(T x, T y) { N ## 2 v = {x, y}; return v; } \
    static inline N ## 3 make_ ## N ## 3(T x, T y, T z) { N ## 3 v = {x, y, z}; return v; } \
    static inline N ## 4 make_ ## N ## 4(T x, T y, T z, T w) { N ## 4 v = {x, y, z, w}; return v; }
PBT_VEC(float, float)
PBT_VEC(double, double)
PBT_VEC(int, int)
PBT_VEC(unsigned int, uint)
#undef PBT_VEC
#endif
