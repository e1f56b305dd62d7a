// szd.h -- scalar structs, their members and their vectorized lanes (drivers of simdize and the algorithms)
#ifndef SZD_H
#define SZD_H
#include "vtvc.h"
#include <deque>
#include <forward_list>
#include <list>
#include <tuple>
using namespace vt;
namespace {
// ------------------------------------------------------------------ the scalar types
template <class T> struct P3 {
    T x, y, z;
    Vc_SIMDIZE_INTERFACE((x, y, z));
    P3() : x(), y(), z() {}
    P3(T a, T b, T c) : x(a), y(b), z(c) {}
    T poly() const { return x * x + y * z; }
    void turn() { T t = x; x = y; y = z; z = t; }
};
template <class T, class U> struct Two { T a; U b; Vc_SIMDIZE_INTERFACE((a, b)); };              // aggregate
template <class T> struct P2 { T x, y; Vc_SIMDIZE_INTERFACE((x, y)); };                          // aggregate
template <class T> struct P4r { T w, x, y, z; Vc_SIMDIZE_INTERFACE((w, x, y, z)); };
template <class T> struct P8 { T a, b, c, d, e, f, g, h; Vc_SIMDIZE_INTERFACE((a, b, c, d, e, f, g, h)); };
template <class S> struct SName;
template <class T> struct SName<P3<T>> { static std::string get() { return std::string("P3<") + tn<T>() + ">"; } };
template <class T> struct SName<P2<T>> { static std::string get() { return std::string("P2<") + tn<T>() + ">"; } };
template <class T> struct SName<P4r<T>> { static std::string get() { return std::string("P4<") + tn<T>() + ">"; } };
template <class T> struct SName<P8<T>> { static std::string get() { return std::string("P8<") + tn<T>() + ">"; } };
template <class T, class U> struct SName<Two<T, U>> { static std::string get() { return std::string("Two<") + tn<T>() + "," + tn<U>() + ">"; } };
template <class T, class U> struct SName<std::pair<T, U>> { static std::string get() { return std::string("pair<") + tn<T>() + "," + tn<U>() + ">"; } };
template <class T> struct SName<std::tuple<T>> { static std::string get() { return std::string("tuple<") + tn<T>() + ">"; } };
template <class T, class U> struct SName<std::tuple<T, U>> { static std::string get() { return std::string("tuple<") + tn<T>() + "," + tn<U>() + ">"; } };
template <class T, class U, class W> struct SName<std::tuple<T, U, W>> { static std::string get() { return std::string("tuple<") + tn<T>() + "," + tn<U>() + "," + tn<W>() + ">"; } };
template <class T, size_t n> struct SName<std::array<T, n>> { static std::string get() { return std::string("array<") + tn<T>() + "," + std::to_string(n) + ">"; } };

// member I, independent of Vc's own access
template <size_t I, class X, class = decltype(std::declval<X &>().template vc_get_<I>())> auto &mem(X &x, int) { return x.template vc_get_<I>(); }
template <size_t I, class X> auto &mem(X &x, long) { return std::get<I>(x); }
template <class S, class = void> struct Count : std::tuple_size<S> {};
template <class S> struct Count<S, decltype(void(S::tuple_size))> : std::integral_constant<size_t, S::tuple_size> {};
template <size_t... I> struct Seq {};
template <size_t n, size_t... I> struct MkSeq : MkSeq<n - 1, n - 1, I...> {};
template <size_t... I> struct MkSeq<0, I...> { using type = Seq<I...>; };

template <class T> T anyOf(Rng &r) { return any<T>(r); }
template <> bool anyOf<bool>(Rng &r) { return r.coin(); }
template <class T> bool eqm(T a, T b) { return same<T>(a, b); }
template <> bool eqm<bool>(bool a, bool b) { return a == b; }

template <class S> struct Sc {
    static constexpr size_t n = Count<S>::value;
    using Ix = typename MkSeq<n>::type;
    template <class F, size_t... I> static void eachI(F &&f, Seq<I...>) { auto l = {(f(std::integral_constant<size_t, I>()), 0)...}; (void)l; }
    template <class F> static void each(F &&f) { eachI(f, Ix()); }
    template <size_t I> using Mem = typename std::decay<decltype(mem<I>(std::declval<S &>(), 0))>::type;
    static S any(Rng &r) { S s{}; each([&](auto i) { mem<i>(s, 0) = anyOf<Mem<i>>(r); }); return s; }
    static S small(Rng &r) { S s{}; each([&](auto i) { mem<i>(s, 0) = Mem<i>(r.range(0, 9)); }); return s; }
    static bool eq(const S &a, const S &b) { bool ok = true; each([&](auto i) { ok &= eqm<Mem<i>>(mem<i>(a, 0), mem<i>(b, 0)); }); return ok; }
    static uint64_t h(const S &a, uint64_t x) { each([&](auto i) { auto m = mem<i>(a, 0); x = hashBytes(&m, sizeof m, x); }); return x; }
    static std::string s(const S &a) { std::string t = "("; each([&](auto i) { t += (i ? "," : "") + str(mem<i>(a, 0)); }); return t + ")"; }
};
template <class T> struct Plain {   // simdize<float> etc. behave like an S with one member
    static T any(Rng &r) { return anyOf<T>(r); }
    static T small(Rng &r) { return T(r.range(0, 9)); }
    static bool eq(T a, T b) { return eqm<T>(a, b); }
    static uint64_t h(T a, uint64_t x) { return hashBytes(&a, sizeof a, x); }
    static std::string s(T a) { return str(a); }
};
template <class S> struct Ops : std::conditional<std::is_arithmetic<S>::value, Plain<S>, Sc<S>>::type {};

// lane i of a vectorized object, member by member through operator[] of the member vectors
template <class S, class V, bool arith = std::is_arithmetic<S>::value> struct Lane {
    static S get(const V &v, size_t i) { S s{}; Sc<S>::each([&](auto k) { mem<k>(s, 0) = static_cast<typename Sc<S>::template Mem<k>>(mem<k>(v, 0)[i]); }); return s; }
    static V make(const S *p) { V v; Sc<S>::each([&](auto k) { for (size_t i = 0; i < V::Size; ++i) mem<k>(v, 0)[i] = mem<k>(p[i], 0); }); return v; }
};
template <class S, class V> struct Lane<S, V, true> {
    static S get(const V &v, size_t i) { return v[i]; }
    static V make(const S *p) { V v; for (size_t i = 0; i < V::Size; ++i) v[i] = p[i]; return v; }
};

template <class S> constexpr bool noBool() { bool b = true; Sc<S>::each([&](auto) {}); return b; }
template <class S, size_t... I> constexpr bool anyBoolI(Seq<I...>) { bool r = false; bool l[] = {std::is_same<typename Sc<S>::template Mem<I>, bool>::value...}; for (bool x : l) r |= x; return r; }
template <class S> constexpr bool anyBool() { return anyBoolI<S>(typename Sc<S>::Ix()); }
template <class S> struct Homog : std::false_type {};   // all members of one type: can be loaded/stored interleaved
template <class T> struct Homog<P3<T>> : std::true_type {};
template <class T> struct Homog<P2<T>> : std::true_type {};
template <class T> struct Homog<P4r<T>> : std::true_type {};
template <class T> struct Homog<P8<T>> : std::true_type {};
template <class T, size_t n> struct Homog<std::array<T, n>> : std::integral_constant<bool, (n >= 2 && n <= 8 && !std::is_same<T, bool>::value)> {};
template <class T> struct Homog<std::pair<T, T>> : std::true_type {};
template <class T> struct Homog<std::tuple<T, T>> : std::true_type {};
template <class T> struct Homog<std::tuple<T, T, T>> : std::true_type {};
}

#endif
