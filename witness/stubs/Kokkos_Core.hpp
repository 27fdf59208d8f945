// Reference model of the parts of Kokkos the library uses (documented semantics, sequential).
#pragma once
#include <cstddef>
#include <string>
#include <type_traits>
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
namespace Kokkos {
struct Serial { typedef Serial execution_space; typedef struct HostSpace memory_space; };
struct HostSpace { typedef Serial execution_space; typedef HostSpace memory_space; };
struct LayoutLeft {}; struct LayoutRight {}; struct LayoutStride {};
typedef Serial DefaultExecutionSpace;
typedef Serial DefaultHostExecutionSpace;
template<class T> struct IndexType { typedef T type; };
template<size_t N> struct Rank { static constexpr size_t rank = N; };
namespace model {
template<class... P> struct Idx { typedef long type; };
template<class T, class... P> struct Idx<IndexType<T>, P...> { typedef T type; };
template<class Q, class... P> struct Idx<Q, P...> { typedef typename Idx<P...>::type type; };
template<class... P> struct Rk { static constexpr size_t rank = 1; };
template<size_t N, class... P> struct Rk<Rank<N>, P...> { static constexpr size_t rank = N; };
template<class Q, class... P> struct Rk<Q, P...> { static constexpr size_t rank = Rk<P...>::rank; };
}
template<class... P> struct RangePolicy {
  typedef typename model::Idx<P...>::type index_type;
  index_type b, e;
  RangePolicy(index_type b_, index_type e_) : b(b_), e(e_) {}
};
template<class... P> struct MDRangePolicy {
  typedef typename model::Idx<P...>::type index_type;
  static constexpr size_t rank = model::Rk<P...>::rank;
  index_type b[rank], e[rank];
  MDRangePolicy(const index_type (&lo)[rank], const index_type (&hi)[rank]) { for (size_t i = 0; i < rank; ++i) { b[i] = lo[i]; e[i] = hi[i]; } }
};
namespace model {
template<size_t D, size_t N> struct Nest {
  template<class P, class F, class... I> static void run(const P &p, const F &f, I... i) {
    for (typename P::index_type x = p.b[D]; x < p.e[D]; ++x) Nest<D + 1, N>::run(p, f, i..., x);
  }
};
template<size_t N> struct Nest<N, N> {
  template<class P, class F, class... I> static void run(const P &, const F &f, I... i) { f(i...); }
};
}
template<class... P, class F> void parallel_for(const std::string &, const RangePolicy<P...> &p, const F &f) {
  for (typename RangePolicy<P...>::index_type i = p.b; i < p.e; ++i) f(i);
}
template<class... P, class F> void parallel_for(const std::string &, const MDRangePolicy<P...> &p, const F &f) {
  model::Nest<0, MDRangePolicy<P...>::rank>::run(p, f);
}
template<class... P, class F> void parallel_for(const RangePolicy<P...> &p, const F &f) { parallel_for(std::string(), p, f); }
template<class... P, class F> void parallel_for(const MDRangePolicy<P...> &p, const F &f) { parallel_for(std::string(), p, f); }
// a view is a shared handle of its allocation; the element functions are only declared
namespace model { template<class T> void *allocate(size_t a, size_t b = 1, size_t c = 1, size_t d = 1, size_t e = 1, size_t f = 1, size_t g = 1, size_t h = 1);
template<class T> struct Elt { typedef T type; };
template<class T> struct Elt<T*> { typedef typename Elt<T>::type type; }; }
template<class T, class... P> struct View {
  typedef typename model::Elt<T>::type value_type;
  void *h;
  View() : h(nullptr) {}
  template<class... D> explicit View(const char *, D... d) : h(model::allocate<T>(size_t(d)...)) {}
  template<class... D> explicit View(const std::string &, D... d) : h(model::allocate<T>(size_t(d)...)) {}
  template<class... D> value_type &operator()(D... d) const { return at(size_t(d)...); }
  value_type &at(size_t a, size_t b = 0, size_t c = 0, size_t d = 0, size_t e = 0, size_t f = 0, size_t g = 0, size_t h = 0) const;
  size_t size() const;
  size_t stride(size_t d) const;
  value_type *data() const;
  size_t extent(size_t d) const;
};
inline void fence() {}
inline void initialize() {}
inline void finalize() {}
}
