#ifndef PBT_THRUST_COMPLEX_H_
#define PBT_THRUST_COMPLEX_H_
#include <complex>
namespace thrust {
template<typename T> using complex = std::complex<T>;
using std::abs; using std::arg; using std::conj; using std::exp; using std::norm; using std::polar;
}
// thrust combines complex numbers and scalars of different types, too
#include <type_traits>
#define PBT_OP(OP) \
template<typename T, typename U> static inline typename std::enable_if< \
    std::is_arithmetic<U>::value && !std::is_same<T, U>::value, \
    std::complex<decltype(T() + U())> >::type operator OP(const std::complex<T>& a, U b) \
{ typedef decltype(T() + U()) P; return std::complex<P>(a.real(), a.imag()) OP (P) b; } \
template<typename T, typename U> static inline typename std::enable_if< \
    std::is_arithmetic<U>::value && !std::is_same<T, U>::value, \
    std::complex<decltype(T() + U())> >::type operator OP(U b, const std::complex<T>& a) \
{ typedef decltype(T() + U()) P; return (P) b OP std::complex<P>(a.real(), a.imag()); } \
template<typename T, typename U> static inline typename std::enable_if<!std::is_same<T, U>::value, \
    std::complex<decltype(T() + U())> >::type operator OP(const std::complex<T>& a, const std::complex<U>& b) \
{ typedef decltype(T() + U()) P; \
  return std::complex<P>(a.real(), a.imag()) OP std::complex<P>(b.real(), b.imag()); }
PBT_OP(+) PBT_OP(-) PBT_OP(*) PBT_OP(/)
#undef PBT_OP
#endif
