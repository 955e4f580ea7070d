#ifndef VP_KOKKOS_MATH_HPP
#define VP_KOKKOS_MATH_HPP
#include <cmath>
#include <limits>
#include <type_traits>
#include <cstdlib>
namespace Kokkos {
#define VP_FWD1(fn) inline float fn(float x) { return std::fn(x); } inline double fn(double x) { return std::fn(x); } inline long double fn(long double x) { return std::fn(x); } template<class T> std::enable_if_t<std::is_integral<T>::value,double> fn(T x) { return std::fn((double)x); }
VP_FWD1(exp) VP_FWD1(expm1) VP_FWD1(log) VP_FWD1(log10) VP_FWD1(tgamma) VP_FWD1(sqrt) VP_FWD1(cbrt) VP_FWD1(tanh) VP_FWD1(erf) VP_FWD1(sin) VP_FWD1(cos) VP_FWD1(floor) VP_FWD1(ceil)
#undef VP_FWD1
inline int abs(int x) { return std::abs(x); } inline long abs(long x) { return std::abs(x); } inline long long abs(long long x) { return std::abs(x); }
inline float abs(float x) { return std::abs(x); } inline double abs(double x) { return std::abs(x); }
inline float fabs(float x) { return std::fabs(x); } inline double fabs(double x) { return std::fabs(x); }
inline float pow(float a, float b) { return std::pow(a,b); } inline double pow(double a, double b) { return std::pow(a,b); }
template<class A, class B, std::enable_if_t<std::is_arithmetic<A>::value && std::is_arithmetic<B>::value,int> =0> auto pow(A a, B b) { return std::pow(a,b); }
inline bool isnan(float x) { return x!=x; } inline bool isnan(double x) { return x!=x; } inline bool isnan(long double x) { return x!=x; }
inline bool isfinite(float x) { return std::isfinite(x); } inline bool isfinite(double x) { return std::isfinite(x); }
template<class T> const T& min(const T& a, const T& b) { return b<a?b:a; }
template<class T> const T& max(const T& a, const T& b) { return a<b?b:a; }
namespace Experimental {
template<class T> inline constexpr T quiet_NaN_v = std::numeric_limits<T>::quiet_NaN();
template<class T> inline constexpr T finite_max_v = std::numeric_limits<T>::max();
template<class T> inline constexpr T finite_min_v = std::numeric_limits<T>::lowest();
template<class T> inline constexpr T infinity_v = std::numeric_limits<T>::infinity();
template<class T> inline constexpr T epsilon_v = std::numeric_limits<T>::epsilon();
}
}
#endif
