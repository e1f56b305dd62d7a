// C12: accuracy and special values of the transcendental functions
#include "kit.h"
#include <functional>
namespace vt
{
inline double hex(const char *s) { return strtod(s, nullptr); }
// distance between a result and the exact value (long double), in units in the last place of the exact value
// (of `floor` where the exact value is smaller: used around the zeros of sine and cosine)
template <class T> double ulpDist(T got, long double want, double floor = 0)
{
    if (std::isnan(got) || std::isnan(want)) return std::isnan(got) && std::isnan(want) ? 0 : 1e300;
    const T w = T(want);
    if (std::isinf(w) || std::isinf(got)) return got == w ? 0 : 1e300;
    const int p = std::numeric_limits<T>::digits, emin = std::numeric_limits<T>::min_exponent;
    int e = 0;
    std::frexp(w, &e);
    if (w == 0 || e < emin) e = emin;
    if (floor > 0) e = std::max(e, std::ilogb(floor) + 1);
    return double(std::abs((long double)got - want) / std::ldexp(1.0L, e - p));
}
using Ref1 = long double (*)(long double);
template <class T> struct Grid {
    // values of every magnitude up to `top`, multiples of pi/4 and their neighbours, small integers
    static T trig(Rng &r, double top)
    {
        T x;
        switch (r.below(6)) {
        case 0: x = T(double(r.below(uint32_t(top / 0.78539816339744828))) * 0.78539816339744828); for (int n = r.range(-4, 4); n; n += n < 0 ? 1 : -1) x = std::nextafter(x, n < 0 ? T(0) : T(1e30)); if (std::abs(x) > T(top)) x = T(1); break;
        case 1: x = T(r.unit() * top); break;
        case 2: x = T(std::exp(r.unit() * std::log(top * 1e8)) * 1e-8); break;
        case 3: x = T(r.unit() * 8); break;
        case 4: x = T(r.below(uint32_t(top))); break;
        default: x = T(r.below(40) * 0.25); break;
        }
        if (!(x <= T(top))) x = T(top);
        return r.coin() ? x : -x;
    }
};
template <class T> T trigArg(Rng &r) { return Grid<T>::trig(r, 8192); }
template <class T> T unitArg(Rng &r)
{
    T x;
    switch (r.below(5)) {
    case 0: x = T(r.unit()); break;
    case 1: x = T(1) - T(std::exp(-r.unit() * 35)); break;
    case 2: x = T(std::exp(-r.unit() * 40)); break;
    case 3: x = T(r.below(17)) / 16; for (int n = r.range(0, 2); n; --n) x = std::nextafter(x, T(0)); break;
    default: x = T(0.5) + T(r.unit() - .5) * T(0.3); break;
    }
    if (!(x <= 1)) x = 1;
    return r.coin() ? x : -x;
}
template <class T> T logArg(Rng &r)
{
    switch (r.below(6)) {
    case 0: return T(r.unit() * 1000);
    case 1: return std::max(std::numeric_limits<T>::denorm_min(), T(std::numeric_limits<T>::min() * T(r.unit() * 2)));
    case 2: { T x = std::abs(any<T>(r)); return x > 0 && x <= 1000 ? x : T(3); }
    case 3: { T x = T(1); for (int n = r.range(-9, 9); n; n += n < 0 ? 1 : -1) x = std::nextafter(x, n < 0 ? T(0) : T(2)); return x; }
    case 4: return std::ldexp(T(1 + r.below(3)), r.range(std::numeric_limits<T>::min_exponent, 8));
    default: return T(0.5) + T(r.unit());
    }
}
template <class T> T logLarge(Rng &r) { T x = std::abs(any<T>(r)); return x > 1000 && x <= std::numeric_limits<T>::max() ? x : T(r.unit() * 1e38) + 1001; }
template <class T> T expArg(Rng &r)
{
    const double lo = std::log(double(std::numeric_limits<T>::min())), hi = std::log(double(std::numeric_limits<T>::max()));
    T x;
    switch (r.below(5)) {
    case 0: x = T(r.unit() * 20 - 10); break;
    case 1: x = T(r.coin() ? lo + r.unit() * (hi - lo) : hi - std::exp(-r.unit() * 9)); break;
    case 2: x = T(r.range(-80, 80)) * T(0.6931471805599453); break;
    case 3: x = T(r.range(-80, 80)) * T(0.5); break;
    default: x = T((r.coin() ? 1 : -1) * std::exp(-r.unit() * 40)); break;
    }
    return x;
}

template <class V> struct Trans {
    using T = typename V::EntryType;
    static const size_t N = V::Size;
    static const bool F = sizeof(T) == 4;
    Rng r{uint64_t(0)};
    using Fn1 = V (*)(const V &);
    void report(const std::string &key, double worst, T at)
    {
        if (getenv("VT_ULP")) printf("ULP %s %.3f at %a (%g)\n", key.c_str(), worst, double(at), double(at));
    }
    // every lane of f(x) lies within `bound` ulp of the exact value; the lanes are independent values
    __attribute__((noinline)) void acc(const char *name, T (*gen)(Rng &), Fn1 f, Ref1 ref, double bound, double floor = 0, long base = 6000)
    {
        const std::string key_ = key<V>(name);
        OpCount oc(key_);
        double worst = 0; T at = 0;
        for (long i = 0, n = cases(base); i < n; ++i) {
            auto x = Lanes<V>::gen(r, gen);
            auto y = Lanes<V>::of(f(x.v()));
            ev(x.h(hashStr(key_.c_str())));
            for (size_t j = 0; j < N; ++j) {
                const long double w = ref(x.a[j]);
                const double d = ulpDist(y.a[j], w, floor);
                if (d > worst) worst = d, at = x.a[j];
                if (d > bound + .5) { fail(key_, "lane %d: x=%s got %s want %.21Lg: %.3g ulp (allowed %g) in %s", int(j), str(x.a[j]).c_str(), str(y.a[j]).c_str(), w, d, bound, x.s().c_str()); break; }
            }
            if (i == 4 && wantSample() && r.below(4) == 0) sample("%s %s -> %s", key_.c_str(), x.s().c_str(), y.s().c_str());
        }
        report(key_, worst, at);
    }
    // a strided sweep over all bit patterns of the entry type that `ok` accepts
    __attribute__((noinline)) void sweep(const char *name, bool (*ok)(T), Fn1 f, Ref1 ref, double bound, double floor = 0)
    {
        using I = typename std::conditional<F, uint32_t, uint64_t>::type;
        const std::string key_ = key<V>(std::string(name) + "[sweep]");
        OpCount oc(key_);
        const long n = cases(3000);
        const I step = I(~I(0) / I(n) / I(N)) | 1;
        I b = I(r.u64());
        double worst = 0; T at = 0;
        for (long i = 0; i < n; ++i) {
            Lanes<V> x;
            for (size_t j = 0; j < N;) { T t; b += step; std::memcpy(&t, &b, sizeof t); if (ok(t)) x.a[j++] = t; }
            auto y = Lanes<V>::of(f(x.v()));
            ev(x.h(hashStr(key_.c_str())));
            for (size_t j = 0; j < N; ++j) {
                const long double w = ref(x.a[j]);
                const double d = ulpDist(y.a[j], w, floor);
                if (d > worst) worst = d, at = x.a[j];
                if (d > bound + .5) { fail(key_, "lane %d: x=%s got %s want %.21Lg: %.3g ulp (allowed %g) in %s", int(j), str(x.a[j]).c_str(), str(y.a[j]).c_str(), w, d, bound, x.s().c_str()); break; }
            }
        }
        report(key_, worst, at);
    }
    // the documented bound at operands which are known to exceed it
    void documented(const char *name, Fn1 f, Ref1 ref, double bound, T x0)
    {
        const std::string key_ = key<V>(std::string(name) + "[documented]");
        OpCount oc(key_);
        Lanes<V> x; for (auto &q : x.a) q = x0;
        auto y = Lanes<V>::of(f(x.v()));
        ev(x.h(hashStr(key_.c_str())));
        const double d = ulpDist(y.a[0], ref(x0));
        if (d > bound + .5) fail(key_, "x=%s (%.9g) got %s want %.21Lg: %.3g ulp (documented: %g)", str(x0).c_str(), double(x0), str(y.a[0]).c_str(), ref(x0), d, bound);
    }
    // results at special operands, given as a list of (x, expected)
    __attribute__((noinline)) void special(const char *name, Fn1 f, const std::vector<std::pair<double, double>> &t)
    {
        const std::string key_ = key<V>(std::string(name) + "[special]");
        OpCount oc(key_);
        for (long i = 0, n = cases(600); i < n; ++i) {
            Lanes<V> x, w;
            for (size_t j = 0; j < N; ++j) { auto &p = t[r.below(uint32_t(t.size()))]; x.a[j] = T(p.first); w.a[j] = T(p.second); }
            auto y = Lanes<V>::of(f(x.v()));
            ev(x.h(hashStr(key_.c_str())));
            check(key_, y.a, w.a, N, "x=" + x.s(), +[](T a, T b) { return sameZ(a, b) || (std::isfinite(b) && b != 0 && ulpDist(a, b) <= 1.01); });
        }
    }
    void run()
    {
        const double floor = F ? std::ldexp(1., -14) : std::ldexp(1., -30), inf = INFINITY, nan = NAN, pi = 3.14159265358979323846;
        acc("sin", trigArg<T>, +[](const V &x) { return V(sin(x)); }, +[](long double x) { return sinl(x); }, F ? 2 : 3, floor);
        acc("cos", trigArg<T>, +[](const V &x) { return V(cos(x)); }, +[](long double x) { return cosl(x); }, F ? 2 : 3, floor);
        acc("sincos.sin", trigArg<T>, +[](const V &x) { V s, c; sincos(x, &s, &c); return s; }, +[](long double x) { return sinl(x); }, F ? 2 : 3, floor);
        acc("sincos.cos", trigArg<T>, +[](const V &x) { V s, c; sincos(x, &s, &c); return c; }, +[](long double x) { return cosl(x); }, F ? 2 : 3, floor);
        acc("asin", unitArg<T>, +[](const V &x) { return V(asin(x)); }, +[](long double x) { return asinl(x); }, F ? 2 : 36);
        acc("atan", trigArg<T>, +[](const V &x) { return V(atan(x)); }, +[](long double x) { return atanl(x); }, F ? 3 : 2);
        acc("log", logArg<T>, +[](const V &x) { return V(log(x)); }, +[](long double x) { return logl(x); }, 1);
        acc("log2", logArg<T>, +[](const V &x) { return V(log2(x)); }, +[](long double x) { return log2l(x); }, 2);
        acc("log10", logArg<T>, +[](const V &x) { return V(log10(x)); }, +[](long double x) { return log10l(x); }, 2);
        acc("log-large", logLarge<T>, +[](const V &x) { return V(log(x)); }, +[](long double x) { return logl(x); }, 1);
        acc("exp", expArg<T>, +[](const V &x) { return V(exp(x)); }, +[](long double x) { return expl(x); }, F ? 1 : 2);
        const auto small = +[](T x) { return std::abs(x) <= T(8192); };
        const auto pos = +[](T x) { return x > 0 && x <= std::numeric_limits<T>::max(); };
        sweep("sin", small, +[](const V &x) { return V(sin(x)); }, +[](long double x) { return sinl(x); }, F ? 2 : 3, floor);
        sweep("cos", small, +[](const V &x) { return V(cos(x)); }, +[](long double x) { return cosl(x); }, F ? 2 : 3, floor);
        sweep("asin", +[](T x) { return std::abs(x) <= 1; }, +[](const V &x) { return V(asin(x)); }, +[](long double x) { return asinl(x); }, F ? 2 : 36);
        sweep("atan", +[](T x) { return x == x; }, +[](const V &x) { return V(atan(x)); }, +[](long double x) { return atanl(x); }, F ? 3 : 2);
        sweep("log", pos, +[](const V &x) { return V(log(x)); }, +[](long double x) { return logl(x); }, 1);
        sweep("log2", pos, +[](const V &x) { return V(log2(x)); }, +[](long double x) { return log2l(x); }, 2);
        sweep("log10", pos, +[](const V &x) { return V(log10(x)); }, +[](long double x) { return log10l(x); }, 2);
        sweep("exp", +[](T x) { return x >= std::log(std::numeric_limits<T>::min()) && x <= std::log(std::numeric_limits<T>::max()); }, +[](const V &x) { return V(exp(x)); }, +[](long double x) { return expl(x); }, F ? 1 : 2);
        special("sin", +[](const V &x) { return V(sin(x)); }, {{0, 0}, {nan, nan}});
        special("asin", +[](const V &x) { return V(asin(x)); }, {{0, 0}, {1, pi / 2}, {-1, -pi / 2}, {1.0000002, nan}, {-2, nan}, {inf, nan}, {-inf, nan}, {nan, nan}, {.5, pi / 6}});
        special("atan", +[](const V &x) { return V(atan(x)); }, {{0, 0}, {inf, pi / 2}, {-inf, -pi / 2}, {nan, nan}, {1, pi / 4}, {-1, -pi / 4}});
        special("log", +[](const V &x) { return V(log(x)); }, {{0, -inf}, {1, 0}, {-1, nan}, {-inf, nan}, {inf, inf}, {nan, nan}});
        special("log2", +[](const V &x) { return V(log2(x)); }, {{0, -inf}, {1, 0}, {8, 3}, {-1, nan}, {-inf, nan}, {inf, inf}, {nan, nan}});
        special("log10", +[](const V &x) { return V(log10(x)); }, {{0, -inf}, {1, 0}, {1000, 3}, {-1, nan}, {-inf, nan}, {inf, inf}, {nan, nan}});
        special("exp", +[](const V &x) { return V(exp(x)); }, {{0, 1}, {inf, inf}, {-inf, 0}, {nan, nan}, {1000, inf}, {-1000, 0}, {1, 2.71828182845904523536}});
        atan2s();
        documented("sin", +[](const V &x) { return V(sin(x)); }, +[](long double x) { return sinl(x); }, F ? 2 : 3, F ? T(hex("0x1.17cc5p+12")) : T(hex("0x1.6c6cbc45dc8dep+12")));
        documented("cos", +[](const V &x) { return V(cos(x)); }, +[](long double x) { return cosl(x); }, F ? 2 : 3, F ? T(hex("0x1.a3b278p+12")) : T(hex("0x1.f39c85261f447p+12")));
        documented("log2", +[](const V &x) { return V(log2(x)); }, +[](long double x) { return log2l(x); }, 1, F ? T(hex("0x1.6101b8p+0")) : T(hex("0x1.650a7df8d7e56p+0")));
    }
    __attribute__((noinline)) void atan2s()
    {
        const std::string key_ = key<V>("atan2"), ks = key<V>("atan2[special]");
        double worst = 0; T at = 0;
        {
            OpCount oc(key_);
            for (long i = 0, n = cases(8000); i < n; ++i) {
                auto g = +[](Rng &r) { return r.below(3) ? trigArg<T>(r) : T((r.coin() ? 1 : -1) * std::exp(r.unit() * 20 - 10)); };
                auto y = Lanes<V>::gen(r, g), x = Lanes<V>::gen(r, g);
                for (size_t j = 0; j < N; ++j) { if (x.a[j] == 0) x.a[j] = 1; if (y.a[j] == 0) y.a[j] = 1; }
                auto z = Lanes<V>::of(V(atan2(y.v(), x.v())));
                ev(x.h(y.h(hashStr(key_.c_str()))));
                for (size_t j = 0; j < N; ++j) {
                    const long double w = atan2l(y.a[j], x.a[j]);
                    const double d = ulpDist(z.a[j], w);
                    if (d > worst) worst = d, at = y.a[j] / x.a[j];
                    if (d > 4) { fail(key_, "lane %d: y=%s x=%s got %s want %.21Lg: %.3g ulp", int(j), str(y.a[j]).c_str(), str(x.a[j]).c_str(), str(z.a[j]).c_str(), w, d); break; }
                }
            }
            report(key_, worst, at);
        }
        OpCount oc(ks);
        for (long i = 0, n = cases(1500); i < n; ++i) {
            auto g = +[](Rng &r) { static const T s[] = {T(0.), T(-0.), T(INFINITY), T(-INFINITY), T(NAN), T(3), T(-3), T(1), T(-1)}; return s[r.below(9)]; };
            auto y = Lanes<V>::gen(r, g), x = Lanes<V>::gen(r, g);
            auto z = Lanes<V>::of(V(atan2(y.v(), x.v())));
            Lanes<V> w;
            for (size_t j = 0; j < N; ++j) w.a[j] = std::atan2(y.a[j], x.a[j]);
            ev(x.h(y.h(hashStr(ks.c_str()))));
            // the sign of a zero result is documented too
            check(ks, z.a, w.a, N, "y=" + y.s() + " x=" + x.s(), +[](T a, T b) { return same(a, b) || (std::isfinite(b) && b != 0 && ulpDist(a, b) <= 1.01); });
        }
    }
};
struct Do {
    template <class V> typename std::enable_if<std::is_floating_point<typename V::EntryType>::value>::type operator()(Tag<V>) { Trans<V> t; t.r = Rng(("trans" + vn<V>()).c_str()); t.run(); }
    template <class V> typename std::enable_if<!std::is_floating_point<typename V::EntryType>::value>::type operator()(Tag<V>) {}
};
void run()
{
    Do d;
    (void)d;
#ifdef VT_ARRAYS
    VT_ARRAYS
#else
    forNative(d);
#endif
}
}
