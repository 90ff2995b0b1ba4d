// Instantiates the special member functions every wrapper class has, the implicitly declared ones included, so that
// the analysis of the C++ wrappers sees them.  Compiled to bitcode only, never run.
#include <new>
#include <type_traits>
#include <utility>
#include "trax.h"

namespace witness {
template <class T, bool> struct CopyC { static void run(void *d, const T &s) { new (d) T(s); } };
template <class T> struct CopyC<T, false> { static void run(void *, const T &) {} };
template <class T, bool> struct MoveC { static void run(void *d, T &s) { new (d) T(std::move(s)); } };
template <class T> struct MoveC<T, false> { static void run(void *, T &) {} };
template <class T, bool> struct CopyA { static void run(T &d, const T &s) { d = s; } };
template <class T> struct CopyA<T, false> { static void run(T &, const T &) {} };
template <class T, bool> struct MoveA { static void run(T &d, T &s) { d = std::move(s); } };
template <class T> struct MoveA<T, false> { static void run(T &, T &) {} };
template <class T> struct All {
    static void run(void *raw, T &a, T &b) {
        CopyC<T, std::is_copy_constructible<T>::value>::run(raw, a);
        MoveC<T, std::is_move_constructible<T>::value>::run(raw, a);
        CopyA<T, std::is_copy_assignable<T>::value>::run(a, b);
        MoveA<T, std::is_move_assignable<T>::value>::run(a, b);
        b.~T();
    }
};
template struct All<trax::Metadata>;
template struct All<trax::Client>;
template struct All<trax::ServerSOT>;
template struct All<trax::ServerMOT>;
template struct All<trax::Image>;
template struct All<trax::ImageList>;
template struct All<trax::ObjectList>;
template struct All<trax::Region>;
template struct All<trax::Properties>;
}
