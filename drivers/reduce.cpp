// C09: horizontal reductions and sums
#include <Vc/Vc>
#include "kit.h"
using namespace vt;

template <class T> using IsFp = std::is_floating_point<T>;
template <class T> T noNaN(Rng &r) { T x; do x = any<T>(r); while (x != x); return x; }
// sums of up to 64 of these are exact (integers: no overflow; floating point: small integers)
template <class T> typename std::enable_if<IsFp<T>::value, T>::type summand(Rng &r) { return T(r.range(-10000, 10000)); }
template <class T> typename std::enable_if<!IsFp<T>::value, T>::type summand(Rng &r) { return std::is_same<T, int>::value ? T((long long)(any<T>(r)) / 64) : any<T>(r); }
template <class T> T factor(Rng &r) { static const int f[] = {1, 1, 1, 1, -1, -1, 2, 1, 1, -1, 1, 1, 1, 3, 1, 1}; int x = f[r.below(16)]; return std::is_unsigned<T>::value && x < 0 ? any<T>(r) : T(x); }
template <class T> T big(Rng &r) { return T((r.unit() * 2 - 1) * std::ldexp(1.0, r.range(-8, 12))); }
template <class T> T nearOne(Rng &r) { return T((r.coin() ? 1 : -1) * (0.5 + r.unit())); }

// exact reference sums; fp results may differ by the rounding of any summation order
template <class T, bool F> struct Sum {   // integers: exact modulo 2^bits
    static bool ok(const T *a, const bool *m, size_t n, T got, bool prod)
    {
        unsigned long long s = prod ? 1 : 0;
        for (size_t i = 0; i < n; ++i) if (!m || m[i]) { if (prod) s *= (unsigned long long)(a[i]); else s += (unsigned long long)(a[i]); }
        return T(s) == got;
    }
};
template <class T> struct Sum<T, true> {
    static bool ok(const T *a, const bool *m, size_t n, T got, bool prod)
    {
        long double s = prod ? 1 : 0, mag = 0; int k = 0;
        for (size_t i = 0; i < n; ++i) if (!m || m[i]) { ++k; if (prod) s *= a[i]; else { s += a[i]; mag += std::fabs((long double)a[i]); } }
        if (prod) mag = std::fabs(s);
        const long double eps = std::numeric_limits<T>::epsilon();
        return std::fabs(got - s) <= (k + 1) * eps * mag + std::numeric_limits<T>::min();
    }
};
// kernels report 1 in o[1] when the oracle accepts o[0]
template <class T> void accept(const In<T> &, T *o) { o[1] = T(1); }
template <class T> bool eq01(T g, T w) { return w == T(1) ? g == T(1) : true; }
#define RED(nm, gen, masked, prod, expr) x.go(nm, gen, any<T>, 0, 0, KERN(const V v = ldA<V>(x); const auto m = ldM<V>(x); (void)m; o[0] = expr; \
    o[1] = T(Sum<T, IsFp<T>::value>::ok(x.a, masked ? x.m : nullptr, x.N, o[0], prod))), accept<T>, eq01<T>, 2)
#define MM(nm, gen, masked, expr, better) x.go(nm, gen, any<T>, 0, 0, KERN(const V v = ldA<V>(x); const auto m = ldM<V>(x); (void)m; o[0] = expr), \
    KERN(bool first = true; for (size_t i = 0; i < x.N; ++i) if (!masked || x.m[i]) { if (first || x.a[i] better o[0]) o[0] = x.a[i]; first = false; }), sameZ<T>, 1)

template <class V, class T> void fpOnly(Kit<T> &, std::false_type) {}
template <class V, class T> void fpOnly(Kit<T> &x, std::true_type)
{
    RED("sum rounded", big<T>, false, false, v.sum());
    RED("sum(m) rounded", big<T>, true, false, v.sum(m));
    RED("product rounded", nearOne<T>, false, true, v.product());
    RED("product(m) rounded", nearOne<T>, true, true, v.product(m));
    x.go("partialSum rounded", big<T>, any<T>, 0, 0, KERN(put(ldA<V>(x).partialSum(), o); T ok = 1; for (size_t i = 0; i < x.N; ++i) if (!Sum<T, true>::ok(x.a, nullptr, i + 1, o[i], false)) ok = 0; o[0] = 0; o[1] = ok; for (size_t i = 2; i < x.N; ++i) o[i] = 0),
         accept<T>, eq01<T>, x.N < 2 ? 2 : 0);
    // special values propagate: NaN wins; inf with finite stays inf
    x.go("sum inf/nan", any<T>, any<T>, 0, 0, KERN(T a[64]; for (size_t i = 0; i < x.N; ++i) a[i] = T(i); const size_t p = size_t(hashBytes(x.b, sizeof(T), 1) % x.N); a[p] = x.m[0] ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN();
             o[0] = fromLanes<V>(a).sum()),
         KERN(o[0] = x.m[0] ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN()), same<T>, 1);
    x.go("deselected inf/nan", big<T>, any<T>, 0, 0, KERN(T a[64]; for (size_t i = 0; i < x.N; ++i) a[i] = x.m[i] ? x.a[i] : i & 1 ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN();
             const V v = fromLanes<V>(a); const auto m = ldM<V>(x); T s = v.sum(m); T p = v.product(m); o[0] = 0; o[1] = T(Sum<T, true>::ok(x.a, x.m, x.N, s, false) && p == p)), accept<T>, eq01<T>, 2);
}
// minIndex() and maxIndex() of the AVX vectors: the extreme value in every lane, and the index of a lane holding it
template <class V, class T> void indexOps(Kit<T> &, long) {}
template <class V, class T> typename std::enable_if<std::is_same<V, Vc::Vector<T, Vc::VectorAbi::Avx>>::value>::type indexOps(Kit<T> &x, int)
{
#define IDX(nm, better) x.go(#nm, noNaN<T>, noNaN<T>, 0, 0, KERN(T a[64]; for (size_t i = 0; i < x.N; ++i) a[i] = x.m[i] ? x.a[0] : x.a[i]; const auto p = fromLanes<V>(a).nm(); T g[64]; put(p.first, g); \
        T w = a[0]; for (size_t i = 1; i < x.N; ++i) if (a[i] better w) w = a[i]; \
        o[0] = 0; o[1] = T(p.second >= 0 && p.second < int(x.N) && a[p.second % int(x.N)] == w); for (size_t i = 0; i < x.N; ++i) if (!(g[i] == w)) o[1] = 0), accept<T>, eq01<T>, 2)
    IDX(minIndex, <);
    IDX(maxIndex, >);
}
struct Do {
    template <class V> void operator()(Tag<V>)
    {
        using T = typename V::EntryType;
        Kit<T> x("reduce", vn<V>(), V::Size, 400);
        MM("min", noNaN<T>, false, v.min(), <);
        MM("max", noNaN<T>, false, v.max(), >);
        RED("sum", summand<T>, false, false, v.sum());
        RED("product", factor<T>, false, true, v.product());
        RED("sum(m)", summand<T>, true, false, v.sum(m));
        RED("product(m)", factor<T>, true, true, v.product(m));
        x.needOne = true;
        MM("min(m)", noNaN<T>, true, v.min(m), <);
        MM("max(m)", noNaN<T>, true, v.max(m), >);
        x.needOne = false;
        x.go("partialSum", summand<T>, any<T>, 0, 0, KERN(put(ldA<V>(x).partialSum(), o)), KERN(unsigned long long s = 0; double f = 0; for (size_t i = 0; i < x.N; ++i) { if (IsFp<T>::value) { f += double(x.a[i]); o[i] = T(f); } else { s += (unsigned long long)(x.a[i]); o[i] = T(s); } }), sameZ<T>);
        fpOnly<V>(x, IsFp<T>());
        indexOps<V>(x, 0);
        // lane-wise two-operand min and max
        x.go("min(a,b)", noNaN<T>, noNaN<T>, 0, 0, KERN(put(V(Vc::min(ldA<V>(x), ldB<V>(x))), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.b[i] < x.a[i] ? x.b[i] : x.a[i]), sameZ<T>);
        x.go("max(a,b)", noNaN<T>, noNaN<T>, 0, 0, KERN(put(V(Vc::max(ldA<V>(x), ldB<V>(x))), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.b[i] > x.a[i] ? x.b[i] : x.a[i]), sameZ<T>);
    }
};
namespace vt {
void run()
{
#ifdef VT_ARRAYS
    Do d; VT_ARRAYS
#else
    forNative(Do());
#endif
}
}
