#ifndef VP_KOKKOS_RANDOM_HPP
#define VP_KOKKOS_RANDOM_HPP
#include <Kokkos_Core.hpp>
namespace Kokkos {
template<class S> struct Random_XorShift64 { unsigned long s; };
template<class S> struct Random_XorShift64_Pool { using generator_type=Random_XorShift64<S>; Random_XorShift64_Pool()=default; Random_XorShift64_Pool(unsigned long) {} generator_type get_state(int) const { return generator_type(); } generator_type get_state() const { return generator_type(); } void free_state(const generator_type&) const {} };
template<class G, class T> struct rand { static T draw(G&); };
}
#endif
