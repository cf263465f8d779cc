// One binary of a program made of several: an executable or a shared library that uses component types.
// -DCO_ECS_HOST / -DCO_ECS_CLIENT, -DORDER=0..5 (order in which the types are mentioned), -DNAME=x (prefix of the entry
// points), -DOWN=T (a type only this binary has).
#include <co_ecs/co_ecs.hpp>
#include <cstring>
#include <string>
#include <string_view>
#include "typeids_api.hpp"
using namespace co_ecs;

struct S1 { int v; };
struct S2 { int v; double d; };
struct S3 { char c; int v; };
struct S11 { int v; };
namespace n1 { struct S1 { int v; }; struct T {}; }
namespace n2 { struct S1 { int v; }; struct T {}; namespace n1 { struct S1 {}; } }
struct Outer { struct S1 {}; template<class T> struct In {}; struct T {}; };
template<class... T> struct P {};
template<auto V> struct N {};
template<template<class...> class> struct TT {};
enum class E { a, b };
struct Lit { int x; char c; };
struct a_very_long_component_name_that_does_not_fit_into_any_small_buffer_and_differs_only_at_its_very_end_1 {};
struct a_very_long_component_name_that_does_not_fit_into_any_small_buffer_and_differs_only_at_its_very_end_2 {};
#ifdef OWN
struct OWN { int v; };
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)

#define T_SHARED(X) X(S1) X(S2) X(S3)
#define T_NAMES(X) X(S11) X(n1::S1) X(n2::S1) X(n2::n1::S1) X(n1::T) X(n2::T) X(Outer) X(Outer::S1) X(Outer::T) X(Outer::In<S1>) X(Outer::In<Outer::S1>) \
    X(P<>) X(P<S1>) X(P<S1, S2>) X(P<S2, S1>) X(P<P<S1>>) X(P<P<>, S1>) X(P<P<S1, S2>>) X(P<P<S1>, S2>) X(P<n1::T>) X(P<n2::T>) X(P<int>) X(P<const int>) X(P<const int&>) \
    X(P<int*>) X(P<unsigned>) X(P<std::string>) X(P<std::string_view>) X(std::string) X(TT<P>) X(N<1>) X(N<2>) X(N<-1>) X(N<12>) X(N<';'>) X(N<']'>) X(N<'='>) X(N<' '>) X(N<true>) \
    X(N<false>) X(N<E::a>) X(N<E::b>) X(N<Lit{ 1, ';' }>) X(N<Lit{ 1, '=' }>) X(N<Lit{ 2, ';' }>) X(P<N<';'>, S1>) X(P<N<';'>, S2>) X(P<N<']'>, S1>) X(P<N<']'>, S2>) \
    X(P<N<'='>, S1>) X(P<N<'='>, S2>) X(P<S1, N<';'>>) X(P<S1, N<']'>>) X(P<S1, N<'='>>) \
    X(a_very_long_component_name_that_does_not_fit_into_any_small_buffer_and_differs_only_at_its_very_end_1) \
    X(a_very_long_component_name_that_does_not_fit_into_any_small_buffer_and_differs_only_at_its_very_end_2)

template<class T>
static unsigned id_of() {
    return component_id::value<T>;
}
// the first mention of a type decides when it gets its id
#if ORDER == 0
template unsigned id_of<S1>(); template unsigned id_of<S2>(); template unsigned id_of<S3>();
#elif ORDER == 1
template unsigned id_of<S1>(); template unsigned id_of<S3>(); template unsigned id_of<S2>();
#elif ORDER == 2
template unsigned id_of<S2>(); template unsigned id_of<S1>(); template unsigned id_of<S3>();
#elif ORDER == 3
template unsigned id_of<S2>(); template unsigned id_of<S3>(); template unsigned id_of<S1>();
#elif ORDER == 4
#ifdef OWN
template unsigned id_of<OWN>();
#endif
template unsigned id_of<S3>(); template unsigned id_of<S1>(); template unsigned id_of<S2>();
#else
template unsigned id_of<P<S1, S2>>(); template unsigned id_of<S3>(); template unsigned id_of<S2>(); template unsigned id_of<S1>();
#endif

static void local_types(id_sink f, void* c) {
    struct Local {};
    struct Local2 {};
    f(c, "local_types::Local2", id_of<Local2>());
    f(c, "local_types::Local", id_of<Local>());
    f(c, "P<local_types::Local>", id_of<P<Local>>());
}
// ids are asked for in several ways
static void all_ids(id_sink f, void* c) {
    unsigned n = 0;
#define X(...) \
    f(c, #__VA_ARGS__, id_of<__VA_ARGS__>()); \
    if (component_meta::of<__VA_ARGS__>().id != component_id::value<__VA_ARGS__>) f(c, "differing ids of " #__VA_ARGS__, 4000000 + n++);
    T_SHARED(X)
#ifndef FEW
    T_NAMES(X)
    local_types(f, c);
#endif
    f(c, "entity", component_meta::of<entity>().id);
#ifdef OWN
    f(c, STR(OWN), id_of<OWN>());
#endif
#undef X
}
static void put(registry& r, int v) {
#if ORDER % 2
    auto e = r.create<S1, S2>({ v }, { v + 1, v + 2.0 });
#else
    auto e = r.create<S2, S1>({ v + 1, v + 2.0 }, { v });
#endif
    r.create<S3, n1::S1>({ 'x', v }, { v });
    r.create<n2::S1>({ v });
#ifdef OWN
    r.get_entity(e).set<OWN>(v);
#endif

}
static bool check(registry& r, int v) {
    int n = 0, bad = 0;
    for (auto [e, a, b] : r.view<const entity&, const S1&, const S2&>().each()) {
        ++n;
        if (a.v != v || b.v != v + 1 || b.d != v + 2.0) bad++;
        if (r.get_entity(e).has<S3>() || r.get_entity(e).has<n1::S1>()) bad++;
    }
    r.each([&](const S3& s, const n1::S1& t) {
        ++n;
        if (s.c != 'x' || s.v != v || t.v != v) bad++;
    });
    r.each([&](const n2::S1& t) {
        ++n;
        if (t.v != v) bad++;
    });
    return n == 3 && !bad && r.size() == 3;
}
static registry* make() {
    return new registry;
}
static void drop(registry* r) {
    delete r;
}
extern "C" __attribute__((visibility("default"))) const binary_api* CAT(NAME, _api)() {
    static const binary_api api{ STR(NAME), &all_ids, &make, &drop, &put, &check };
    return &api;
}
