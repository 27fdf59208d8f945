// Stand-in for Boost.Variant: the same interface with the dispatch of apply_visitor spelled out as a
// case distinction on which(), so that the visitors of the analysed code take part in the analysis.
#pragma once
#include <cstddef>
#include <iostream>
#include <memory>
#include <string>
#include <type_traits>
namespace boost {
template<class R = void> class static_visitor { public: typedef R result_type; protected: ~static_visitor() = default; };
struct bad_get { virtual ~bad_get() {} };
template<class... Ts> class variant
{
  public:
    variant();
    variant(const variant &);
    ~variant();
    variant &operator=(const variant &);
    template<class T, class = typename std::enable_if<(std::is_same<T, Ts>::value || ...)>::type> variant(const T &);
    template<class T, class = typename std::enable_if<(std::is_same<T, Ts>::value || ...)>::type> variant &operator=(const T &);
    int which() const;
    char storage[40];
};
template<class T, class... Ts> T &relaxed_get(variant<Ts...> &);
template<class T, class... Ts> const T &relaxed_get(const variant<Ts...> &);
template<class T, class... Ts> inline T &get(variant<Ts...> &v) { return relaxed_get<T>(v); }
template<class T, class... Ts> inline const T &get(const variant<Ts...> &v) { return relaxed_get<T>(v); }
template<class T, class... Ts> T *relaxed_get(variant<Ts...> *);
template<class T, class... Ts> inline T *get(variant<Ts...> *v) { return relaxed_get<T>(v); }
}
namespace schnek_stub {
template<class T> using id = T;
template<class... L> struct visit1;
template<class T, class... L> struct visit1<T, L...>
{
  template<class R, class Vis, class... A> static inline R go(int i, Vis &vis, boost::variant<A...> &v)
  {
    if constexpr (sizeof...(L) == 0) return vis(boost::relaxed_get<T>(v));
    else { if (i == 0) return vis(boost::relaxed_get<T>(v)); return visit1<L...>::template go<R>(i - 1, vis, v); }
  }
};
template<class Vis, class T> struct bound
{
  typedef typename std::remove_const<Vis>::type::result_type result_type;
  Vis &vis; T &a;
  template<class U> inline result_type operator()(U &b) { return vis(a, b); }
};
template<class Vis, class... B> struct outer
{
  typedef typename std::remove_const<Vis>::type::result_type result_type;
  Vis &vis; boost::variant<B...> &w;
  template<class T> inline result_type operator()(T &a) { bound<Vis, T> b{vis, a}; return visit1<B...>::template go<result_type>(w.which(), b, w); }
};
}
namespace boost {
template<class Vis, class... A> inline typename std::remove_const<Vis>::type::result_type apply_visitor(Vis &vis, const variant<A...> &v)
{ return schnek_stub::visit1<A...>::template go<typename std::remove_const<Vis>::type::result_type>(v.which(), vis, const_cast<variant<A...>&>(v)); }
#ifdef VERIF_OPAQUE_PAIRS
template<class Vis, class... A, class... B> typename std::remove_const<Vis>::type::result_type apply_visitor(Vis &vis, const variant<A...> &v, const variant<B...> &w);
#else
template<class Vis, class... A, class... B> inline typename std::remove_const<Vis>::type::result_type apply_visitor(Vis &vis, const variant<A...> &v, const variant<B...> &w)
{
  schnek_stub::outer<Vis, B...> o{vis, const_cast<variant<B...>&>(w)};
  return schnek_stub::visit1<A...>::template go<typename std::remove_const<Vis>::type::result_type>(v.which(), o, const_cast<variant<A...>&>(v));
}
#endif
template<class Vis, class... A> inline typename Vis::result_type apply_visitor(const Vis &vis, const variant<A...> &v)
{ return schnek_stub::visit1<A...>::template go<typename Vis::result_type>(v.which(), vis, const_cast<variant<A...>&>(v)); }
}
