// Stand-in for the part of Boost.Fusion that function expressions use: argument sequences and their application.
#pragma once
#include <boost/function_types/result_type.hpp>
#include <boost/function_types/parameter_types.hpp>
#include <boost/function_types/function_type.hpp>
#include <boost/function_types/function_arity.hpp>
namespace boost { namespace fusion {
struct nil {};
template<class S, class T> struct pushed { S s; T v; };
template<class S, class T> inline pushed<S, T> push_back(const S &s, const T &v) { return pushed<S, T>{s, v}; }
template<class R, class F, class... A> inline R apply_seq(F f, const nil &, const A &... a) { return f(a...); }
template<class R, class F, class S, class T, class... A> inline R apply_seq(F f, const pushed<S, T> &p, const A &... a) { return apply_seq<R>(f, p.s, p.v, a...); }
template<class R, class... P, class S> inline R invoke(R (*f)(P...), const S &s) { return apply_seq<R>(f, s); }
} }
