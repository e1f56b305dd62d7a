// Sweeps over operand spaces small enough to be covered completely (thorough) or evenly sampled (quick):
// every pair of 16-bit operands (VT_WHAT=1: C01 operators, 2: C02 comparisons), every 32-bit operand
// (3: C11 exact functions, 4: C06 conversions, 5: C12 transcendental functions, 6: C01 operators with one fixed operand).
#include "vtvc.h"
#include "scalarops.h"
using namespace vt;
namespace
{
template <class T> using Bits_ = typename std::conditional<sizeof(T) == 2, uint16_t, typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type>::type;
template <class T> T fromPattern(uint64_t b) { const Bits_<T> i = Bits_<T>(b); T x; memcpy(&x, &i, sizeof x); return x; }
template <class V, class T> inline V load(const T *p) { return V(p, Vc::Unaligned); }
template <class V, class T> inline void store(const V &v, T *p) { v.store(p, Vc::Unaligned); }
void account(uint64_t n) { st().evals += n; st().distinct += n; }   // distinct by construction

template <class T> T special(size_t k)
{
    static const long long s[] = {1, -1, 2, 3, 0, 7, 10, 32767, -32768, 255, 256, 5, -2, -3, 127, 128, 129, -128, -127, 32766, -32767, 4, 6, 8, 9, 12, 16, 100, 181, 182, 1000, 4096, 16384, 21845, 10923, 65535, 65534, 49152};
    return T(s[k % (sizeof s / sizeof *s)]);
}
}
template <class V> struct Pairs {
    using T = typename V::EntryType;
    static const size_t N = V::Size;
    using K = void (*)(const T *, const T *, T *);
    using S = T (*)(T, T);
    using P = bool (*)(T, T);
    // all values of one operand against `n` values of the other (all of them if n >= 65536)
    __attribute__((noinline)) static void run(const char *name, K k, S ref, P valid, bool swap, long n)
    {
        const std::string key_ = key<V>(std::string("every ") + (swap ? "right" : "left") + " operand: " + name);
        OpCount oc(key_);
        Rng r(key_.c_str());
        const uint32_t start = uint32_t(r.u64());
        n = std::min(n, 65536l);
        uint64_t done = 0;
        for (long i = 0; i < n; ++i) {
            const T c = n == 65536 ? T(i) : i < 38 && i * 2 < n ? special<T>(size_t(i + start % 38)) : fromPattern<T>(start + uint32_t(i) * 40503u);
            T a[N], b[N], got[N], want[N];
            for (uint32_t x = 0; x < 65536; x += N) {
                for (size_t j = 0; j < N; ++j) {
                    a[j] = fromPattern<T>(x + j); b[j] = c;
                    if (swap) std::swap(a[j], b[j]);
                    if (!valid(a[j], b[j])) { a[j] = 1; b[j] = 1; }
                    want[j] = ref(a[j], b[j]);
                }
                k(a, b, got);
                ++done;
                if (memcmp(got, want, sizeof got)) { check(key_, got, want, N, "a=" + strv(a, N) + " b=" + strv(b, N)); if (st().fails[key_] > 3) { account(done); return; } }
            }
        }
        account(done);
    }
    static void both(const char *name, K k, S ref, P valid, long n)
    {
        if (n >= 65536) run(name, k, ref, valid, false, n);   // that is every pair
        else { run(name, k, ref, valid, false, n - n / 2); run(name, k, ref, valid, true, n / 2); }
    }
};
template <class T, class R> struct Every {
    // every operand pattern, in a scattered order, as far as `n` reaches; `ok` tells which are in the domain
    using K = void (*)(const T *, R *);
    using S = R (*)(T);
    using Eq = bool (*)(T, R, R);
    static bool bits(T, R a, R b) { return same(a, b); }
    template <size_t N> __attribute__((noinline)) static void run(const std::string &key_, K k, bool (*ok)(T), S ref, Eq eq, uint64_t n)
    {
        OpCount oc(key_);
        Rng r(key_.c_str());
        const uint64_t space = sizeof(T) == 2 ? 65536 : uint64_t(1) << 32;
        n = std::min(n, space);
        uint64_t b = r.u64(), done = 0;
        const uint64_t step = n == space ? 1 : (r.u64() & 0x3ffffffe) * 2 + 1;
        for (uint64_t i = 0; i < n; i += N, ++done) {
            T a[N]; R got[N];
            for (size_t j = 0; j < N; ++j) { a[j] = fromPattern<T>(b); b += step; if (!ok(a[j])) a[j] = T(1); }
            k(a, got);
            for (size_t j = 0; j < N; ++j) {
                const R w = ref(a[j]);
                if (memcmp(&w, &got[j], sizeof w) && !eq(a[j], got[j], w)) {
                    fail(key_, "lane %d: operand %s got %s want %s", int(j), str(a[j]).c_str(), str(got[j]).c_str(), str(w).c_str());
                    if (st().fails[key_] > 3) { account(done); return; }
                }
            }
        }
        account(done);
    }
};
namespace
{
template <class T> bool always(T) { return true; }
template <class T> bool always2(T, T) { return true; }
// distance in ulp of the exact value; the sign of zero and the payload of nan are not judged
bool near(float got, double want, double bound, double floor)
{
    if (std::isnan(got) || std::isnan(want)) return std::isnan(got) && std::isnan(want);
    const float w = float(want);
    if (std::isinf(w) || std::isinf(got)) return got == w;
    int e = 0;
    std::frexp(w, &e);
    if (w == 0 || e < -125) e = -125;
    if (floor > 0) e = std::max(e, std::ilogb(floor) + 1);
    return std::abs(double(got) - want) <= std::ldexp(bound + .501, e - 24);
}
}
#ifndef VT_WHAT
#define VT_WHAT 1
#endif
template <int W, class V> struct What;
#define OPK(expr) [](const T *a_, const T *b_, T *o_) { const V a = load<V>(a_), b = load<V>(b_); (void)a; (void)b; store(V(expr), o_); }
template <class V> struct What<1, V> {
    using T = typename V::EntryType;
    using Or = Oracle<T>;
    static typename std::enable_if<sizeof(T) == 2 || V::Size == 0>::type go()
    {
        const long n = cases(24);
#define OP(nm, O, OPR) Pairs<V>::both(nm, OPK(a OPR b), [](T a, T b) -> T { return T((typename Or::P)(a) OPR (typename Or::P)(b)); }, [](T a, T b) { return typename Or::O().valid(a, b); }, n);
        OP("+", add, +) OP("-", sub, -) OP("&", and_, &) OP("|", or_, |) OP("^", xor_, ^)
        Pairs<V>::both("*", OPK(a * b), [](T a, T b) -> T { return T(unsigned(a) * unsigned(b)); }, always2<T>, n);
        OP("/", div, /) OP("%", mod, %)
        Pairs<V>::both("min", OPK(Vc::min(a, b)), [](T a, T b) -> T { return b < a ? b : a; }, always2<T>, n);
        Pairs<V>::both("max", OPK(Vc::max(a, b)), [](T a, T b) -> T { return a < b ? b : a; }, always2<T>, n);
        // 16 counts: always complete
        const auto sh = [](T a, T b) { return b >= 0 && b < 16 && !(a < 0); };
        const auto sr = [](T, T b) { return b >= 0 && b < 16; };
        for (int c = 0; c < 16; ++c) {
            static VT_TLS int cnt; cnt = c;
            const std::string s = std::to_string(c);
            Pairs<V>::run(("<< int(" + s + ")").c_str(), [](const T *a_, const T *, T *o_) { store(V(load<V>(a_) << cnt), o_); }, [](T a, T) -> T { return a < 0 ? T(1) : T(unsigned(a) << cnt); }, [](T a, T) { return a >= 0; }, false, 1);
            Pairs<V>::run((">> int(" + s + ")").c_str(), [](const T *a_, const T *, T *o_) { store(V(load<V>(a_) >> cnt), o_); }, [](T a, T) -> T { return T(int(a) >> cnt); }, always2<T>, false, 1);
        }
        (void)sh; (void)sr;
        Pairs<V>::run("-x", OPK(-a), [](T a, T) -> T { return T(-int(a)); }, always2<T>, false, 1);
        Pairs<V>::run("~x", OPK(~a), [](T a, T) -> T { return T(~int(a)); }, always2<T>, false, 1);
        inc(std::integral_constant<bool, !Vc::Traits::isSimdArray<V>::value>());
    }
    static void inc(std::true_type)
    {
        Pairs<V>::run("++x", [](const T *a_, const T *, T *o_) { V a = load<V>(a_); ++a; store(a, o_); }, [](T a, T) -> T { return T(int(a) + 1); }, always2<T>, false, 1);
        Pairs<V>::run("--x", [](const T *a_, const T *, T *o_) { V a = load<V>(a_); --a; store(a, o_); }, [](T a, T) -> T { return T(int(a) - 1); }, always2<T>, false, 1);
    }
    static void inc(std::false_type) {}
#undef OP
};
template <class V> struct What<2, V> {
    using T = typename V::EntryType;
    static void go()
    {
        const long n = cases(24);
#define CMP(nm, OPR) Pairs<V>::both(nm, [](const T *a_, const T *b_, T *o_) { const V a = load<V>(a_), b = load<V>(b_); const auto m = a OPR b; V v(Vc::Zero); v(m) = V(Vc::One); store(v, o_); \
            unsigned c = 0; for (size_t i = 0; i < V::Size; ++i) c += unsigned(o_[i]); if (unsigned(m.count()) != c || m.isEmpty() != (c == 0) || m.isFull() != (c == V::Size)) o_[0] = T(2); }, [](T a, T b) -> T { return T(a OPR b); }, always2<T>, n);
        CMP("==", ==) CMP("!=", !=) CMP("<", <) CMP("<=", <=) CMP(">", >) CMP(">=", >=)
    }
};
template <class V> struct What<3, V> {   // float vectors
    using T = typename V::EntryType;
    static const size_t N = V::Size;
    using E = Every<T, T>;
    using IT = Vc::SimdArray<int, N>;
    static bool approx(T, T got, T want)
    {
        if (same(got, want)) return true;
        if (!(std::abs(want) <= std::numeric_limits<T>::max()) || !(std::abs(got) <= std::numeric_limits<T>::max())) return false;
        return std::abs(double(got) - double(want)) <= std::ldexp(1.5, -12) * std::abs(double(want)) + double(std::numeric_limits<T>::min());
    }
    static bool posNormal(T x) { return x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max(); }
    static bool normal(T x) { return posNormal(std::abs(x)); }
    static bool finite(T x) { return std::abs(x) <= std::numeric_limits<T>::max(); }
    static void go()
    {
        const uint64_t n = uint64_t(cases(1l << 20));
#define UN(nm, ok, expr, reference, eq) E::template run<N>(key<V>(std::string("every operand: ") + nm), [](const T *a_, T *o_) { const V x = load<V>(a_); store(V(expr), o_); }, ok, [](T x) -> T { return reference; }, eq, n);
#define UM(nm, expr, reference) E::template run<N>(key<V>(std::string("every operand: ") + nm), [](const T *a_, T *o_) { const V x = load<V>(a_); V v(Vc::Zero); v(expr) = V(Vc::One); store(v, o_); }, always<T>, [](T x) -> T { return T(reference); }, E::bits, n);
        UN("abs", always<T>, abs(x), std::abs(x), E::bits)
        UN("sqrt", always<T>, sqrt(x), std::sqrt(x), E::bits)
        UN("trunc", always<T>, trunc(x), std::trunc(x), E::bits)
        UN("floor", always<T>, floor(x), std::floor(x), E::bits)
        UN("ceil", always<T>, ceil(x), std::ceil(x), E::bits)
        UN("round", always<T>, round(x), std::nearbyint(x), E::bits)
        UN("exponent", posNormal, exponent(x), T(std::ilogb(x)), E::bits)
        UN("rsqrt", posNormal, rsqrt(x), T(1) / std::sqrt(x), approx)
        UN("reciprocal", normal, reciprocal(x), T(1) / x, approx)
        UN("copysign(x, -1)", always<T>, copysign(x, V(T(-1))), std::copysign(x, T(-1)), E::bits)
        UN("copysign(1, x)", always<T>, copysign(V(T(1)), x), std::copysign(T(1), x), E::bits)
        UN("-x", always<T>, -x, -x, E::bits)
        UM("isnan", isnan(x), std::isnan(x))
        UM("isinf", isinf(x), std::isinf(x))
        UM("isfinite", isfinite(x), std::isfinite(x))
        UM("isnegative", isnegative(x), std::signbit(x))
        UM("x == 0", x == V(Vc::Zero), x == 0)
        UN("frexp", always<T>, fraction(x), fractionOf(x), E::bits)
        UN("frexp exponent", finite, exponentOf(x), exponentRef(x), E::bits)
        UN("ldexp(x, 3)", always<T>, ldexp(x, IT(3)), std::ldexp(x, 3), E::bits)
        UN("ldexp(x, -40)", always<T>, ldexp(x, IT(-40)), std::ldexp(x, -40), E::bits)
    }
    static V fraction(const V &x) { IT e(Vc::Zero); return frexp(x, &e); }
    static T fractionOf(T x) { int e; return std::frexp(x, &e); }
    static V exponentOf(const V &x) { IT e(Vc::Zero); (void)frexp(x, &e); return Vc::simd_cast<V>(e); }
    static T exponentRef(T x) { int e = 0; (void)std::frexp(x, &e); return T(e); }
};
template <class V> struct What<4, V> {
    using T = typename V::EntryType;
    static const size_t N = V::Size;
    template <class U> static typename std::enable_if<!(std::is_floating_point<T>::value && std::is_integral<U>::value), bool>::type ok(T) { return true; }
    template <class U> static typename std::enable_if<std::is_floating_point<T>::value && std::is_integral<U>::value, bool>::type ok(T x)
    { return x == x && double(std::trunc(x)) <= double(std::numeric_limits<U>::max()) && double(std::trunc(x)) >= double(std::numeric_limits<U>::min()); }
    template <class U> struct To {
        using A = Vc::SimdArray<U, N>;
        static void go(uint64_t n, std::true_type) {}
        static void go(uint64_t n, std::false_type)
        {
            Every<T, U>::template run<N>("every operand: simd_cast " + vn<V>() + "->" + vn<A>() + "/" + VT_IMPL, [](const T *a_, U *o_) { const V x = load<V>(a_); store(Vc::simd_cast<A>(x), o_); }, ok<U>, [](T x) -> U { return static_cast<U>(x); }, Every<T, U>::bits, n);
            store_(n, std::is_constructible<A, const Vc::SimdArray<T, N> &>());
        }
        static void store_(uint64_t n, std::true_type)
        {
            using B = Vc::SimdArray<T, N>;
            Every<T, U>::template run<N>("every operand: construct " + vn<B>() + "->" + vn<A>() + "/" + VT_IMPL, [](const T *a_, U *o_) { const B x = load<B>(a_); store(A(x), o_); }, ok<U>, [](T x) -> U { return static_cast<U>(x); }, Every<T, U>::bits, n);
        }
        static void store_(uint64_t, std::false_type) {}
    };
    static void go()
    {
        const uint64_t n = uint64_t(cases(1l << 19));
        To<float>::go(n, std::is_same<T, float>()); To<double>::go(n, std::is_same<T, double>()); To<int>::go(n, std::is_same<T, int>());
        To<unsigned>::go(n, std::is_same<T, unsigned>()); To<short>::go(n, std::is_same<T, short>()); To<unsigned short>::go(n, std::is_same<T, unsigned short>());
        // 32-bit operands only: a native vector of the target as wide as this one
    }
};
template <class V> struct What<5, V> {   // float vectors
    using T = typename V::EntryType;
    static const size_t N = V::Size;
    using E = Every<T, T>;
    template <int B> static bool judge(T x, T got, T) { return near(got, refs[B](double(x)), bounds[B], B < 2 ? std::ldexp(1., -14) : 0); }
    static double (*const refs[8])(double);
    static const double bounds[8];
    static void go()
    {
        const uint64_t n = uint64_t(cases(1l << 19));
#define TR(nm, i, ok, expr) E::template run<N>(key<V>(std::string("every operand: ") + nm), [](const T *a_, T *o_) { const V x = load<V>(a_); store(V(expr), o_); }, ok, [](T x) -> T { return T(refs[i](double(x))); }, judge<i>, n);
        const auto small = [](T x) { return std::abs(x) <= 8192; };
        const auto notNeg = [](T x) { return !(std::signbit(x) && x == 0); };
        const auto inExp = [](T x) { return !(x < T(-87.3365)); };
        TR("sin", 0, small, sin(x)) TR("cos", 1, small, cos(x)) TR("asin", 2, always<T>, asin(x)) TR("atan", 3, always<T>, atan(x))
        TR("log", 4, notNeg, log(x)) TR("log2", 5, notNeg, log2(x)) TR("log10", 6, notNeg, log10(x)) TR("exp", 7, inExp, exp(x))
        TR("sincos.sin", 0, small, sinOf(x)) TR("sincos.cos", 1, small, cosOf(x))
    }
    static V sinOf(const V &x) { V s, c; sincos(x, &s, &c); return s; }
    static V cosOf(const V &x) { V s, c; sincos(x, &s, &c); return c; }
};
template <class V> double (*const What<5, V>::refs[8])(double) = {std::sin, std::cos, std::asin, std::atan, std::log, std::log2, std::log10, std::exp};
template <class V> const double What<5, V>::bounds[8] = {2, 2, 2, 3, 1, 2, 2, 1};
template <class V> struct What<6, V> {   // 32-bit integers against fixed operands
    using T = typename V::EntryType;
    static const size_t N = V::Size;
    using E = Every<T, T>;
    using U = unsigned;
    static void go()
    {
        const uint64_t n = uint64_t(cases(1l << 18));
        const bool sg = std::is_signed<T>::value;
        Rng r(key<V>("fixed").c_str());
        static VT_TLS T c; static VT_TLS int s;
#define FX(nm, ok, expr, reference) E::template run<N>(key<V>(std::string("every operand: ") + nm), [](const T *a_, T *o_) { const V x = load<V>(a_); store(V(expr), o_); }, ok, [](T x) -> T { return reference; }, E::bits, n);
        const auto notMin = [](T x) { return !std::is_signed<T>::value || x != std::numeric_limits<T>::min(); };
        FX("-x", notMin, -x, T(0u - U(x)))
        FX("~x", always<T>, ~x, T(~U(x)))
        for (int k = 0; k < 8; ++k) {
            c = k < 6 ? special<T>(r.below(38)) : any<T>(r);
            if (c == 0 || (sg && c == T(-1))) c = T(10);
            s = int(r.below(32));
            const std::string t = " " + std::to_string((long long)(c)), u = " " + std::to_string(s);
            FX("x /" + t, always<T>, x / c, T(x / c))
            FX("x %" + t, always<T>, x % c, T(x % c))
            FX("x & " + t, always<T>, x & c, T(x & c))
            FX("x >>" + u, always<T>, x >> s, T(x >> s))
            FX("x <<" + u, [](T x) { return x >= 0 && (!std::is_signed<T>::value || ((long long)(x) << s) <= 0x7fffffff); }, x << s, T(U(x) << s))
            FX("x +" + t, [](T x) { return !std::is_signed<T>::value || ((long long)(x) + c <= 0x7fffffff && (long long)(x) + c >= -0x80000000ll); }, x + c, T(U(x) + U(c)))
            FX("x -" + t, [](T x) { return !std::is_signed<T>::value || ((long long)(x) - c <= 0x7fffffff && (long long)(x) - c >= -0x80000000ll); }, x - c, T(U(x) - U(c)))
            FX("x *" + t, [](T x) { return !std::is_signed<T>::value || ((long long)(x) * c <= 0x7fffffff && (long long)(x) * c >= -0x80000000ll); }, x * c, T(U(x) * U(c)))
            E::template run<N>(key<V>("every operand:" + t + " / x"), [](const T *a_, T *o_) { const V x = load<V>(a_); store(V(c / x), o_); }, [](T x) { return x != 0 && !(std::is_signed<T>::value && x == T(-1)); }, [](T x) -> T { return c / x; }, E::bits, n);
            E::template run<N>(key<V>("every operand: x <" + t), [](const T *a_, T *o_) { const V x = load<V>(a_); V v(Vc::Zero); v(x < c) = V(Vc::One); store(v, o_); }, always<T>, [](T x) -> T { return T(x < c); }, E::bits, n);
        }
    }
};
struct Do {
    template <class V> static constexpr bool fits() { return VT_WHAT <= 2 ? sizeof(typename V::EntryType) == 2 : VT_WHAT == 3 || VT_WHAT == 5 ? std::is_same<typename V::EntryType, float>::value : VT_WHAT == 4 ? !std::is_same<typename V::EntryType, double>::value : std::is_integral<typename V::EntryType>::value && sizeof(typename V::EntryType) == 4; }
    template <class V> typename std::enable_if<fits<V>()>::type operator()(Tag<V>) { What<VT_WHAT, V>::go(); }
    template <class V> typename std::enable_if<!fits<V>()>::type operator()(Tag<V>) {}
};
namespace vt {
void run()
{
#ifdef VT_ARRAYS
    Do d; VT_ARRAYS
#else
    forNative(Do());
#endif
}
}
