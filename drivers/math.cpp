// C11: the elementary functions that have an exactly defined result
#include "kit.h"
namespace vt
{
template <class T> T pos(Rng &r) { return std::abs(any<T>(r)); }
template <class T> T normal(Rng &r) { for (;;) { T x = any<T>(r); if (std::fpclassify(x) == FP_NORMAL) return x; } }
template <class T> T posNormal(Rng &r) { return std::abs(normal<T>(r)); }
// numbers around the places where rounding changes: halves, large odd integers, the limits of int, tiny
template <class T> T nearInt(Rng &r)
{
    const int p = std::numeric_limits<T>::digits;
    T x;
    switch (r.below(8)) {
    case 0: x = T(r.range(-20, 20)) * T(0.5); break;
    case 1: x = T(r.range(-100000, 100000)) * T(0.25); break;
    case 2: x = std::ldexp(T(1), r.range(p - 4, p + 3)) + T(r.range(-9, 9)) * T(0.5); break;
    case 3: x = T(2147483648.) + T(r.range(-600, 600)) * T(0.5); break;
    case 4: x = std::ldexp(T(1 + r.unit()), r.range(p - 4, p + 4)); break;
    case 5: x = T(0.5); for (int n = r.range(0, 2); n > 0; --n) x = std::nextafter(x, T(0)); break;
    case 6: x = T(r.range(-40, 40)) * T(0.5); x = std::nextafter(x, r.coin() ? T(1e30) : T(-1e30)); break;
    default: return any<T>(r);
    }
    return r.coin() ? x : -x;
}
template <class T> T notDenormal(Rng &r) { for (;;) { T x = any<T>(r); if (std::fpclassify(x) != FP_SUBNORMAL) return x; } }
template <class T> T denormal(Rng &r)
{
    T x = std::numeric_limits<T>::denorm_min() * std::floor(T(r.unit()) * T(std::ldexp(1., r.range(1, std::numeric_limits<T>::digits - 1))) + 1);
    return r.coin() ? x : -x;
}
template <class T> int anyExp(Rng &r, T) { return r.coin() ? r.range(-5, 5) : r.range(-2200, 2200); }
// an exponent for which both the operand and the result are normal
template <class T> int fittingExp(Rng &r, T x)
{
    if (x == 0 || !(std::abs(x) <= std::numeric_limits<T>::max())) return r.range(-60, 60);
    const int ex = std::ilogb(x), lo = std::numeric_limits<T>::min_exponent - 1 - ex, hi = std::numeric_limits<T>::max_exponent - 1 - ex;
    return r.below(8) == 0 ? (r.coin() ? lo : hi) : r.range(lo, hi);
}
// summand of a fused multiply-add: unrelated, or nearly cancelling the product
template <class T> T summand(Rng &r, T a, T b)
{
    volatile T p = a * b;
    switch (r.below(4)) {
    case 0: return -p;
    case 1: return std::nextafter(T(-p), r.coin() ? T(1e30) : T(-1e30));
    case 2: return T(p * std::ldexp(T(r.unit() - .5), r.range(-30, 30)));
    default: return any<T>(r);
    }
}
// relative error of at most 1.5 * 2^-12 (approximate instructions), results below the normal range may be flushed
template <class T> bool approx(T got, T want)
{
    if (same(got, want)) return true;
    if (!(std::abs(want) <= std::numeric_limits<T>::max()) || !(std::abs(got) <= std::numeric_limits<T>::max())) return false;
    const double tol = sizeof(T) == 4 ? std::ldexp(1.5, -12) : std::ldexp(1., -51);
    return std::abs(double(got) - double(want)) <= tol * std::abs(double(want)) + double(std::numeric_limits<T>::min());
}
template <class T> int bit(bool b) { return b; }

template <class V, class T, bool FP> struct Fns {   // integers
    static void run(Kit<T> &k)
    {
        Signed<V, T, std::is_signed<T>::value>::run(k);
        // the promoted operands must not overflow
        static const bool any_ = sizeof(T) < 4 || std::is_unsigned<T>::value;
        k.gc = [](Rng &r, T, T) { return any_ ? any<T>(r) : T(r.range(-1000000000, 1000000000)); };
        const auto g = [](Rng &r) { return any_ ? any<T>(r) : T(r.range(-30000, 30000)); };
        k.go("fma", g, g, 0, 0, KERN(put<V>(Vc::fma(ldA<V>(x), ldB<V>(x), fromLanes<V>(x.c)), o)),
             KERN(for (size_t i = 0; i < x.N; ++i) o[i] = T((unsigned long long)(x.a[i]) * (unsigned long long)(x.b[i]) + (unsigned long long)(x.c[i]))));
        k.gc = nullptr;
    }
    template <class W, class U, bool S> struct Signed { static void run(Kit<U> &) {} };
    template <class W, class U> struct Signed<W, U, true> { static void run(Kit<U> &k) {
        k.go("abs", [](Rng &r) { U x = any<U>(r); return x == std::numeric_limits<U>::min() && sizeof(U) >= sizeof(int) ? U(-7) : x; }, any<U>, 0, 0, KERN(put<W>(abs(ldA<W>(x)), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = U(x.a[i] < 0 ? -x.a[i] : x.a[i])));
    } };
};
template <class V, class T> struct Fns<V, T, true> {
    using IT = Vc::SimdArray<int, V::Size>;
#define VT_F(name_, gen_) k.go(#name_, gen_<T>, any<T>, 0, 0, KERN(put<V>(name_(ldA<V>(x)), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = std::name_(x.a[i])));
#define VT_M(name_, oracle_) k.go(#name_, any<T>, any<T>, 0, 0, KERN(auto m = name_(ldA<V>(x)); for (size_t i = 0; i < x.N; ++i) o[i] = T(bool(m[i]))), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = T(bool(oracle_(x.a[i])))));
    static void run(Kit<T> &k)
    {
        VT_F(abs, any) VT_F(sqrt, any)
        VT_F(trunc, nearInt) VT_F(floor, nearInt) VT_F(ceil, nearInt)
        k.go("round", nearInt<T>, any<T>, 0, 0, KERN(put<V>(round(ldA<V>(x)), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = std::nearbyint(x.a[i])));
        k.go("copysign", any<T>, any<T>, 0, 0, KERN(put<V>(copysign(ldA<V>(x), ldB<V>(x)), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = std::copysign(x.a[i], x.b[i])));
        VT_M(isnan, std::isnan) VT_M(isinf, std::isinf) VT_M(isfinite, std::isfinite) VT_M(isnegative, std::signbit)
        k.go("fpclassify", any<T>, any<T>, 0, 0, KERN(auto c = fpclassify(ldA<V>(x)); for (size_t i = 0; i < x.N; ++i) o[i] = T(int(c[i]))), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = T(std::fpclassify(x.a[i]))));
        k.go("exponent", posNormal<T>, any<T>, 0, 0, KERN(put<V>(exponent(ldA<V>(x)), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = T(std::ilogb(x.a[i]))));
        k.go("rsqrt", posNormal<T>, any<T>, 0, 0, KERN(put<V>(rsqrt(ldA<V>(x)), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = T(1) / std::sqrt(x.a[i])), approx<T>);
        k.go("reciprocal", normal<T>, any<T>, 0, 0, KERN(put<V>(reciprocal(ldA<V>(x)), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = T(1) / x.a[i]), approx<T>);
        // frexp: fractions in the first N lanes, exponents in the second N; the exponents of nan and inf are unspecified
        const size_t n2 = 2 * k.N;
        K kern = KERN(IT e(Vc::Zero); put<V>(frexp(ldA<V>(x), &e), o); for (size_t i = 0; i < x.N; ++i) o[x.N + i] = std::isfinite(x.a[i]) ? T(int(e[i])) : T(0));
        K orac = KERN(for (size_t i = 0; i < x.N; ++i) { int e = 0; o[i] = std::frexp(x.a[i], &e); o[x.N + i] = std::isfinite(x.a[i]) ? T(e) : T(0); });
        k.go("frexp", notDenormal<T>, any<T>, 0, 0, kern, orac, same<T>, n2);
        k.go("frexp[denormal]", denormal<T>, any<T>, 0, 0, kern, orac, same<T>, n2);
        K lk = KERN(IT e([&](size_t i) { return x.e[i]; }); put<V>(ldexp(ldA<V>(x), e), o));
        K lo = KERN(for (size_t i = 0; i < x.N; ++i) o[i] = std::ldexp(x.a[i], x.e[i]));
        k.ge = fittingExp<T>;
        k.go("ldexp", [](Rng &r) { return r.below(9) == 0 ? T(r.coin() ? 0. : -0.) : normal<T>(r); }, any<T>, 0, 0, lk, lo);
        k.ge = anyExp<T>;
        k.go("ldexp[any operand and exponent]", any<T>, any<T>, 0, 0, lk, lo);
        k.go("ldexp-frexp", notDenormal<T>, any<T>, 0, 0, KERN(IT e(Vc::Zero); V f = frexp(ldA<V>(x), &e); for (size_t i = 0; i < x.N; ++i) if (!std::isfinite(x.a[i])) { e[i] = 0; f[i] = 1; } put<V>(ldexp(f, e), o)),
             KERN(for (size_t i = 0; i < x.N; ++i) o[i] = std::isfinite(x.a[i]) ? x.a[i] : T(1)));
        k.ge = nullptr;
        k.gc = summand<T>;
        K fk = KERN(put<V>(Vc::fma(ldA<V>(x), ldB<V>(x), fromLanes<V>(x.c)), o));
        K fo = KERN(for (size_t i = 0; i < x.N; ++i) o[i] = std::fma(x.a[i], x.b[i], x.c[i]));
        k.go("fma", moderate<T>, moderate<T>, 0, 0, fk, fo, fused);
        k.go("fma[any]", any<T>, any<T>, 0, 0, fk, fo, fused);
        k.gc = nullptr;
    }
    using K = typename Kit<T>::K;
    // float without hardware support: computed in double and rounded a second time
    static bool fused(T got, T want)
    {
        if (same(got, want) || (got == 0 && want == 0)) return true;
        return sizeof(T) == 4 && (got == std::nextafter(want, T(INFINITY)) || got == std::nextafter(want, -T(INFINITY)));
    }
};
struct Do {
    template <class V> void operator()(Tag<V>)
    {
        using T = typename V::EntryType;
        Kit<T> k("math", vn<V>(), V::Size, 4000);
        Fns<V, T, std::is_floating_point<T>::value>::run(k);
    }
};
void run()
{
    Do d;
    (void)d;
#ifdef VT_ARRAYS
    VT_ARRAYS
#else
    forNative(d);
#endif
}
}
