// forced into every witness: make_shared<T>(...) analysed as shared_ptr<T>(new T(...)), which is what it guarantees
#pragma once
#include <memory>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
namespace std {
template<class T, class... A> shared_ptr<T> verif_make_shared(A&&... a) { return shared_ptr<T>(new T(static_cast<A&&>(a)...)); }
}
namespace boost {
template<class T, class... A> boost::shared_ptr<T> verif_make_shared(A&&... a) { return boost::shared_ptr<T>(new T(static_cast<A&&>(a)...)); }
}
#define make_shared verif_make_shared
