// C06: conversions between vector types, simd arrays and masks
#include "vtvc.h"
using namespace vt;
static const int kN = 60;
// representable after truncation?
template <class To, class From> inline typename std::enable_if<std::is_floating_point<From>::value && std::is_integral<To>::value, bool>::type defined(From x)
{ return x == x && (long double)std::trunc(x) <= (long double)std::numeric_limits<To>::max() && (long double)std::trunc(x) >= (long double)std::numeric_limits<To>::min(); }
template <class To, class From> inline typename std::enable_if<!(std::is_floating_point<From>::value && std::is_integral<To>::value), bool>::type defined(From) { return true; }
template <class To, class From> inline From genFor(Rng &r, std::false_type) { return any<From>(r); }
template <class To, class From> inline From genFor(Rng &r, std::true_type)
{
    for (int k = 0; k < 20; ++k) {
        From x;
        switch (r.below(5)) {
        case 0: x = From(any<To>(r)) + From(r.unit()); break;
        case 1: x = From(std::numeric_limits<To>::max()) * From(r.unit() * 2 - 1); break;
        case 2: x = From(any<To>(r)); break;
        case 3: x = any<From>(r); break;
        default: x = From(r.range(-40000, 70000)) + From(0.25) * From(r.below(4));
        }
        if (defined<To>(x)) return x;
    }
    return From(0);
}
template <class From, class To> struct Loop {
    using K = void (*)(const From *in, To *out);
    std::string fn, tnm; Rng r;
    Loop(const std::string &a, const std::string &b) : fn(a), tnm(b), r((a + b).c_str()) {}
    // nin input lanes; result lane i is input lane off+i, or zero past the end; nout result lanes
    __attribute__((noinline)) void run(const std::string &name, K k, size_t nin, size_t off, size_t nout)
    {
        const std::string key = name + "/" + fn + "->" + tnm + "/" + VT_IMPL;
        OpCount oc(key);
        for (long i = 0, n = cases(kN); i < n; ++i) {
            From in[160]; To want[64], got[64];
            for (size_t j = 0; j < nin; ++j) in[j] = genFor<To, From>(r, std::integral_constant<bool, std::is_floating_point<From>::value && std::is_integral<To>::value>());
            for (size_t j = 0; j < nout; ++j) want[j] = off + j < nin ? static_cast<To>(in[off + j]) : To();
            k(in, got);
            ev(hashBytes(in, nin * sizeof(From), hashStr(key.c_str())));
            check(key, got, want, nout, "input=" + strv(in, nin));
            if (i == 3 && r.below(200) == 0) sample("%s input=%s", key.c_str(), strv(in, nin).c_str());
        }
    }
};
struct MLoop {
    using K = void (*)(const bool *in, bool *out);
    std::string fn, tnm; Rng r;
    MLoop(const std::string &a, const std::string &b) : fn(a), tnm(b), r(("m" + a + b).c_str()) {}
    __attribute__((noinline)) void run(const std::string &name, K k, size_t nin, size_t off, size_t nout)
    {
        const std::string key = "mask " + name + "/" + fn + "->" + tnm + "/" + VT_IMPL;
        OpCount oc(key);
        for (long i = 0, n = cases(kN); i < n; ++i) {
            bool in[160], want[64], got[64];
            const unsigned mk = r.below(6), c = r.below(uint32_t(nin));
            for (size_t j = 0; j < nin; ++j) in[j] = mk == 0 ? false : mk == 1 ? true : mk == 2 ? j == c : mk == 3 ? j != c : r.coin();
            for (size_t j = 0; j < nout; ++j) want[j] = off + j < nin ? in[off + j] : false;
            k(in, got);
            ev(hashBytes(in, nin, hashStr(key.c_str())));
            for (size_t j = 0; j < nout; ++j) if (got[j] != want[j]) {
                std::string a, b; for (size_t q = 0; q < nin; ++q) a += in[q] ? '1' : '0'; for (size_t q = 0; q < nout; ++q) b += got[q] ? '1' : '0';
                fail(key, "lane %d: got %d; input=%s result=%s", int(j), int(got[j]), a.c_str(), b.c_str()); break; }
        }
    }
};
// results that are used further must not carry stray upper bits: read lanes and the whole-mask summary
template <class M> inline void outM(const M &m, bool *o)
{
    int c = 0; for (size_t i = 0; i < M::Size; ++i) { o[i] = m[i]; c += o[i]; }
    if (int(m.count()) != c || m.isEmpty() != (c == 0) || m.isFull() != (c == int(M::Size))) o[0] = !o[0];
}
template <class From, class To> struct Pair {
    using F = typename From::EntryType; using T = typename To::EntryType;
    using FM = typename From::MaskType; using TM = typename To::MaskType;
    static constexpr size_t FN = From::Size, TN = To::Size;
    template <size_t I> static typename std::enable_if<(I * TN < FN && TN < FN)>::type splits(Loop<F, T> &x, MLoop &m)
    {
        x.run("simd_cast<To," + std::to_string(I) + ">(x)", [](const F *in, T *o) { const From v = fromLanes<From>(in); toLanes(Vc::simd_cast<To, I>(v), o); }, FN, I * TN, TN);
        m.run("simd_cast<To," + std::to_string(I) + ">(x)", [](const bool *in, bool *o) { const FM v = maskFromBits<FM>(in); outM(TM(Vc::simd_cast<TM, I>(v)), o); }, FN, I * TN, TN);
        splits<I + 1>(x, m);
    }
    template <size_t I> static typename std::enable_if<!(I * TN < FN && TN < FN)>::type splits(Loop<F, T> &, MLoop &) {}
    static void multi(Loop<F, T> &x, MLoop &m, std::true_type)
    {
        x.run("simd_cast<To>(x0,x1)", [](const F *in, T *o) { toLanes(Vc::simd_cast<To>(fromLanes<From>(in), fromLanes<From>(in + FN)), o); }, 2 * FN, 0, TN);
        m.run("simd_cast<To>(x0,x1)", [](const bool *in, bool *o) { outM(TM(Vc::simd_cast<TM>(maskFromBits<FM>(in), maskFromBits<FM>(in + FN))), o); }, 2 * FN, 0, TN);
        multi3(x, m, std::integral_constant<bool, (TN > 2 * FN)>());
    }
    static void multi(Loop<F, T> &, MLoop &, std::false_type) {}
    static void multi3(Loop<F, T> &x, MLoop &m, std::true_type)
    {
        x.run("simd_cast<To>(x0..x2)", [](const F *in, T *o) { toLanes(Vc::simd_cast<To>(fromLanes<From>(in), fromLanes<From>(in + FN), fromLanes<From>(in + 2 * FN)), o); }, 3 * FN, 0, TN);
        x.run("simd_cast<To>(x0..x3)", [](const F *in, T *o) { toLanes(Vc::simd_cast<To>(fromLanes<From>(in), fromLanes<From>(in + FN), fromLanes<From>(in + 2 * FN), fromLanes<From>(in + 3 * FN)), o); }, 4 * FN, 0, TN);
        m.run("simd_cast<To>(x0..x3)", [](const bool *in, bool *o) { outM(TM(Vc::simd_cast<TM>(maskFromBits<FM>(in), maskFromBits<FM>(in + FN), maskFromBits<FM>(in + 2 * FN), maskFromBits<FM>(in + 3 * FN))), o); }, 4 * FN, 0, TN);
    }
    static void multi3(Loop<F, T> &, MLoop &, std::false_type) {}
    static void sameSize(Loop<F, T> &x, MLoop &m, std::true_type)
    {
        x.run("To(x)", [](const F *in, T *o) { const From v = fromLanes<From>(in); const To t(v); toLanes(t, o); }, FN, 0, TN);
        x.run("static_cast<To>(x)", [](const F *in, T *o) { const From v = fromLanes<From>(in); toLanes(static_cast<To>(v), o); }, FN, 0, TN);
        sameMask(m, std::integral_constant<bool, std::is_constructible<TM, FM>::value>());
    }
    static void sameMask(MLoop &, std::false_type) {}
    static void sameMask(MLoop &m, std::true_type)
    {
        m.run("To(x)", [](const bool *in, bool *o) { const FM v = maskFromBits<FM>(in); const TM t(v); outM(t, o); }, FN, 0, TN);
    }
    static void sameSize(Loop<F, T> &, MLoop &, std::false_type) {}
    static void go()
    {
        Loop<F, T> x(vn<From>(), vn<To>());
        MLoop m(vn<From>(), vn<To>());
        x.run("simd_cast<To>(x)", [](const F *in, T *o) { toLanes(Vc::simd_cast<To>(fromLanes<From>(in)), o); }, FN, 0, TN);
        m.run("simd_cast<To>(x)", [](const bool *in, bool *o) { outM(TM(Vc::simd_cast<TM>(maskFromBits<FM>(in))), o); }, FN, 0, TN);
        multi(x, m, std::integral_constant<bool, (TN > FN)>());
        splits<0>(x, m);
        sameSize(x, m, std::integral_constant<bool, (TN == FN && std::is_constructible<To, const From &>::value)>());
    }
};
using AllTypes = Types<float, double, int, unsigned, short, unsigned short>;
#ifdef VT_FROMN   // SimdArray<T, VT_FROMN> -> SimdArray<U, VT_TON>
template <class T> struct ToA { template <class U> void operator()(Tag<U>) { Pair<Vc::SimdArray<T, VT_FROMN>, Vc::SimdArray<U, VT_TON>>::go(); } };
struct Do { template <class T> void operator()(Tag<T>) { ToA<T> t; forTypes(AllTypes(), t); } };
#elif defined VT_MIXED
// operators between a vector and a scalar (or vector) of another arithmetic type compute in the type of the result
template <class A> struct ET { using type = A; };
template <class T, class B> struct ET<Vc::Vector<T, B>> { using type = T; };
template <class A> struct Nm { static std::string get() { return tn<A>(); } };
template <class T, class B> struct Nm<Vc::Vector<T, B>> { static std::string get() { return vn<Vc::Vector<T, B>>(); } };
template <class A, class T> inline typename std::enable_if<std::is_arithmetic<A>::value, A>::type mk(const T *p) { return p[0]; }
template <class A, class T> inline typename std::enable_if<!std::is_arithmetic<A>::value, A>::type mk(const T *p) { return fromLanes<A>(p); }
template <class A, class B> struct Mix {
    using TA = typename ET<A>::type; using TB = typename ET<B>::type;
    template <class R, class K> __attribute__((noinline)) static void loop(const char *nm, K k)
    {
        using TR = typename R::EntryType;
        const std::string key = std::string(nm) + "/" + Nm<A>::get() + "," + Nm<B>::get() + "/" + VT_IMPL;
        OpCount oc(key); Rng r(key.c_str());
        for (long i = 0, n = cases(30); i < n; ++i) {
            TA a[32]; TB b[32]; TR got[32], want[32];
            for (auto &x : a) x = TA(std::is_unsigned<TA>::value ? r.range(0, 170) : r.range(-170, 170));
            for (auto &x : b) x = TB(std::is_unsigned<TB>::value ? r.range(1, 170) : r.range(1, 170) * (r.coin() ? 1 : -1));
            const bool as = std::is_arithmetic<A>::value, bs = std::is_arithmetic<B>::value;
            for (size_t j = 0; j < R::Size; ++j) want[j] = TR();
            k(a, b, got, want, as, bs);
            ev(hashBytes(a, sizeof a, hashBytes(b, sizeof b, hashStr(key.c_str()))));
            check(key, got, want, R::Size, "a=" + strv(a, as ? 1 : R::Size) + " b=" + strv(b, bs ? 1 : R::Size));
        }
    }
#define ARITH(nm, op) { using R = decltype(std::declval<A>() op std::declval<B>()); using TR = typename R::EntryType; \
    loop<R>(nm, [](const TA *a, const TB *b, TR *g, TR *w, bool as, bool bs) { \
        toLanes(R(mk<A>(a) op mk<B>(b)), g); for (size_t j = 0; j < R::Size; ++j) w[j] = TR(TR(a[as ? 0 : j]) op TR(b[bs ? 0 : j])); }); }
#define COMPARE(nm, op) { using R = decltype(std::declval<A>() + std::declval<B>()); using TR = typename R::EntryType; \
    loop<R>(nm, [](const TA *a, const TB *b, TR *g, TR *w, bool as, bool bs) { \
        const auto m = mk<A>(a) op mk<B>(b); for (size_t j = 0; j < R::Size; ++j) { g[j] = TR(m[j]); w[j] = TR(TR(a[as ? 0 : j]) op TR(b[bs ? 0 : j])); } }); }
    static void go() { ARITH("a + b", +) ARITH("a - b", -) ARITH("a * b", *) ARITH("a / b", /) COMPARE("a == b", ==) COMPARE("a < b", <) COMPARE("a >= b", >=) }
};
template <class V, class U, class = void> struct TryMix { static void go() {} };
template <class V, class U> struct TryMix<V, U, decltype((void)(std::declval<V>() + std::declval<U>()))> { static void go() { Mix<V, U>::go(); Mix<U, V>::go(); } };
template <class V> struct WithScalar { template <class U> void operator()(Tag<U>) { TryMix<V, U>::go(); } };
template <class V, class T> struct Counterpart { static void go() {} };
template <class A> struct Counterpart<Vc::Vector<int, A>, int> { static void go() { Mix<Vc::Vector<int, A>, Vc::Vector<unsigned, A>>::go(); Mix<Vc::Vector<unsigned, A>, Vc::Vector<int, A>>::go(); } };
template <class A> struct Counterpart<Vc::Vector<short, A>, short> { static void go() { Mix<Vc::Vector<short, A>, Vc::Vector<unsigned short, A>>::go(); Mix<Vc::Vector<unsigned short, A>, Vc::Vector<short, A>>::go(); } };
template <class V, class U> struct Broadcast {
    using T = typename V::EntryType;
    static void go()
    {
        Loop<U, T> x(tn<U>(), vn<V>());
        x.run("To(scalar)", [](const U *in, T *o) { const V v(static_cast<T>(in[0])); toLanes(v, o); }, 1, 0, 1);
    }
};
struct FromV { template <class V> void operator()(Tag<V>) { WithScalar<V> w; forTypes(Types<float, double, int, unsigned, short, unsigned short>(), w); Counterpart<V, typename V::EntryType>::go(); bits<V>(typename std::is_same<typename V::EntryType, float>::type()); }
    template <class V> void bits(std::false_type) {}
    template <class V> void bits(std::true_type) {
        using A = typename V::abi;
        bitcast<V, Vc::Vector<int, A>>(std::integral_constant<bool, sizeof(Vc::Vector<int, A>) == sizeof(V)>());
    }
    template <class V, class I> void bitcast(std::false_type) {}
    template <class V, class I> void bitcast(std::true_type) {
        const std::string key = vt::key<V>("reinterpret_components_cast"); OpCount oc(key); Rng r(key.c_str());
        for (long i = 0, n = cases(200); i < n; ++i) {
            auto l = Lanes<V>::any(r); int w[V::Size], g[V::Size]; memcpy(w, l.a, sizeof w);
            const I c = Vc::reinterpret_components_cast<I>(l.v()); toLanes(c, g); ev(l.h(1)); check(key, g, w, V::Size, "to int of " + l.s());
            float back[V::Size]; toLanes(V(Vc::reinterpret_components_cast<V>(c)), back); check(key, back, l.a, V::Size, "round trip");
        }
    } };
struct Do { template <class T> void operator()(Tag<T>) { FromV f; forEach(typename Native<T>::type(), f); } };
#else
template <class F, class A> struct ToList;
template <class F, class... Ts> struct ToList<F, List<Ts...>> { static void go() { int d[] = {0, (Pair<F, Ts>::go(), 0)...}; (void)d; } };
template <class F> struct ToAll { template <class U> void operator()(Tag<U>) {
#ifdef VT_TOARR
    Pair<F, Vc::SimdArray<U, VT_TOARR>>::go();
    Pair<Vc::SimdArray<U, VT_TOARR>, F>::go();
#else
    ToList<F, typename Native<U>::type>::go();
#ifndef Vc_IMPL_Scalar
    Pair<F, Vc::Vector<U, Vc::VectorAbi::Scalar>>::go(); Pair<Vc::Vector<U, Vc::VectorAbi::Scalar>, F>::go();
#endif
#endif
} };
struct FromV { template <class V> void operator()(Tag<V>) { ToAll<V> t; forTypes(AllTypes(), t); } };
struct Do { template <class T> void operator()(Tag<T>) { FromV f; forEach(typename Native<T>::type(), f); } };
#endif
namespace vt { void run() { Do d; forTypes(TheTypes(), d); } }
