// C01: element-wise arithmetic, bitwise, shift, increment and negation operators of Vector<T, Abi>
#include "vtvc.h"
#include "scalarops.h"
using namespace vt;
static const int kN = 300;

// type-erased workload: kernels read lanes from memory and write lanes to memory
template <class T> struct Ops {
    using K2 = void (*)(const T *, const T *, T *);
    using S2 = T (*)(T, T);
    using P = bool (*)(T, T);          // operand pair valid for the operation
    using G = void (*)(Rng &, T &, T &);
    std::string vname;
    size_t N;
    Rng r;
    Ops(const std::string &v, size_t n) : vname(v), N(n), r(("arith" + v).c_str()) {}

    __attribute__((noinline)) void bin(const char *name, G g, K2 vf, S2 sf, const char *form = "")
    {
        const std::string k = std::string(name) + form + "/" + vname + "/" + VT_IMPL;
        OpCount oc(k);
        T a[64], b[64], w[64], got[64];
        for (long i = 0, n = cases(kN); i < n; ++i) {
            const bool uni = r.below(4) == 0;   // one call in four: all lanes alike
            for (size_t j = 0; j < N; ++j) {
                if (j && uni) { a[j] = a[0]; b[j] = b[0]; }
                else g(r, a[j], b[j]);
                w[j] = sf(a[j], b[j]);
            }
            vf(a, b, got);
            ev(hashBytes(a, sizeof(T) * N, hashBytes(b, sizeof(T) * N, hashStr(k.c_str()))));
            check(k, got, w, N, "a=" + strv(a, N) + " b=" + strv(b, N));
            if (i == 7 && wantSample() && r.below(8) == 0) sample("%s a=%s b=%s -> %s", k.c_str(), strv(a, N).c_str(), strv(b, N).c_str(), strv(got, N).c_str());
        }
    }
    // one operand is a scalar (b[0]); lhs: the scalar is the left operand
    __attribute__((noinline)) void scal(const char *name, G g, P valid, K2 vf, S2 sf, bool lhs)
    {
        const std::string k = std::string(name) + (lhs ? " scalar-lhs/" : " scalar-rhs/") + vname + "/" + VT_IMPL;
        OpCount oc(k);
        T a[64], w[64], got[64];
        for (long i = 0, n = cases(kN / 2); i < n; ++i) {
            T s, d;
            for (int tries = 0; tries < 50; ++tries) {
                bool ok = true;
                if (lhs) g(r, s, d); else g(r, d, s);
                for (size_t j = 0; j < N && ok; ++j) {
                    T x, y; int t = 0;
                    do { g(r, x, y); a[j] = lhs ? y : x; } while (!(lhs ? valid(s, a[j]) : valid(a[j], s)) && ++t < 200);
                    ok = t < 200;
                }
                if (ok) goto found;
            }
            continue;
        found:
            for (size_t j = 0; j < N; ++j) w[j] = lhs ? sf(s, a[j]) : sf(a[j], s);
            vf(a, &s, got);
            ev(hashBytes(a, sizeof(T) * N, hashBytes(&s, sizeof s, hashStr(k.c_str()))));
            check(k, got, w, N, "v=" + strv(a, N) + " s=" + str(s));
        }
    }
    __attribute__((noinline)) void ops(const char *nm, G g, P valid, K2 vf, K2 va, K2 vs, K2 sv, S2 sf)
    {
        bin(nm, g, vf, sf); bin(nm, g, va, sf, "=");
        scal(nm, g, valid, vs, sf, false); scal(nm, g, valid, sv, sf, true);
    }
};
template <class V, class T = typename V::EntryType> inline V ld(const T *p) { return fromLanes<V>(p); }
template <class V, class T> inline void sto(const V &v, T *p) { v.store(p, Vc::Unaligned); }
template <class V, class T> inline void st(const V &v, T *p) { alignas(64) T tmp[64]; v.store(tmp, Vc::Unaligned); for (size_t i = 0; i < V::Size; ++i) p[i] = tmp[i]; }

// generates pairs that are valid for the operation
template <class T, class O> void pairs(Rng &r, T &a, T &b)
{
    const O o{};
    for (int t = 0;; ++t) {
        a = any<T>(r); b = any<T>(r);
        if (std::is_integral<T>::value && t > 2) { a = T((long long)(a) >> r.below(sizeof(T) * 8)); b = T((long long)(b) >> r.below(sizeof(T) * 8)); }
        if (t > 200) { a = 3; b = 1; }
        if (o.valid(a, b)) return;
    }
}
template <class T, class O> void selfPairs(Rng &r, T &a, T &b) { const O o{}; int t = 0; do { a = b = ++t > 100 ? T(1) : any<T>(r); } while (!o.valid(a, b)); }
template <class T, class O> void shiftPairs(Rng &r, T &a, T &b)
{
    const O o{};
    int t = 0;
    do {
        a = any<T>(r); b = T(r.below(sizeof(T) * 8));
        if (t > 3) a = T((unsigned long long)(a & std::numeric_limits<T>::max()) >> r.below(sizeof(T) * 8));
    } while (!o.valid(a, b) && ++t < 100);
    if (t >= 100) { a = 1; b = 3; }
}
template <class T, class O> bool validp(T a, T b) { return O().valid(a, b); }
template <class T, class O> T evalp(T a, T b) { return O()(a, b); }

#define K2(expr) [](const T *a_, const T *b_, T *o_) { const V a = ld<V>(a_), b = ld<V>(b_); (void)a; (void)b; st<V>(expr, o_); }
#define K1(stmts) [](const T *a_, const T *b_, T *o_) { V a = ld<V>(a_), b = ld<V>(b_); (void)b; stmts; }
#define KS(expr) [](const T *a_, const T *b_, T *o_) { const V a = ld<V>(a_); const T s = *b_; st<V>(expr, o_); }
#define OPS(nm, O, OP) x.ops(nm, pairs<T, typename Or::O>, validp<T, typename Or::O>, K2(a OP b), K1(a OP##= b; st<V>(a, o_)), KS(a OP s), KS(s OP a), evalp<T, typename Or::O>); \
    x.bin(nm, selfPairs<T, typename Or::O>, K1(a OP##= a; st<V>(a, o_)), evalp<T, typename Or::O>, "= itself"); \
    x.bin(nm, pairs<T, typename Or::O>, K1(b = a OP b; st<V>(b, o_)), evalp<T, typename Or::O>, " into its operand")

template <class V, class T> void intOnly(Ops<T> &x, std::true_type)
{
    using Or = Oracle<T>;
    OPS("%", mod, %); OPS("&", and_, &); OPS("|", or_, |); OPS("^", xor_, ^);
    using SL = typename Or::shl; using SR = typename Or::shr;
#ifndef VT_ARRAYS
    x.bin("<<", shiftPairs<T, SL>, K2(a << b), evalp<T, SL>);
    x.bin(">>", shiftPairs<T, SR>, K2(a >> b), evalp<T, SR>);
#endif
    x.bin("<<=", shiftPairs<T, SL>, K1(a <<= b; st<V>(a, o_)), evalp<T, SL>);
    x.bin(">>=", shiftPairs<T, SR>, K1(a >>= b; st<V>(a, o_)), evalp<T, SR>);
    // one run-time count for all lanes; scal() draws it from b
    x.scal("<< int", shiftPairs<T, SL>, validp<T, SL>, KS(a << int(s)), evalp<T, SL>, false);
    x.scal(">> int", shiftPairs<T, SR>, validp<T, SR>, KS(a >> int(s)), evalp<T, SR>, false);
    x.scal("<<= int", shiftPairs<T, SL>, validp<T, SL>, [](const T *a_, const T *b_, T *o_) { V a = ld<V>(a_); a <<= int(*b_); st<V>(a, o_); }, evalp<T, SL>, false);
    x.scal(">>= int", shiftPairs<T, SR>, validp<T, SR>, [](const T *a_, const T *b_, T *o_) { V a = ld<V>(a_); a >>= int(*b_); st<V>(a, o_); }, evalp<T, SR>, false);
    x.bin("~", pairs<T, typename Or::and_>, K2(~a), [](T a, T) -> T { return T(~a); });
}
#ifdef Vc_ENABLE_FLOAT_BIT_OPERATORS
// documented option: bitwise operators on the bits of floating-point lanes
template <class T, int W> struct FBit {
    using U = typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type;
    bool valid(T, T) const { return true; }
    T operator()(T a, T b) const { U x, y; memcpy(&x, &a, sizeof x); memcpy(&y, &b, sizeof y); x = W == 0 ? x & y : W == 1 ? x | y : W == 2 ? x ^ y : ~x; memcpy(&a, &x, sizeof x); return a; }
};
template <class T> struct FOr { using and_ = FBit<T, 0>; using or_ = FBit<T, 1>; using xor_ = FBit<T, 2>; };
template <class V, class T> void intOnly(Ops<T> &x, std::false_type)
{
    using Or = FOr<T>;
    OPS("&", and_, &); OPS("|", or_, |); OPS("^", xor_, ^);
#ifndef Vc_IMPL_Scalar
    x.bin("~", pairs<T, FBit<T, 3>>, K2(~a), evalp<T, FBit<T, 3>>);
#endif
}
#else
template <class V, class T> void intOnly(Ops<T> &, std::false_type) {}
#endif

template <class T> T neg(T x, std::true_type) { return -x; }
template <class T> T neg(T x, std::false_type) { return T(0ull - (unsigned long long)(x)); }
template <class T, int Which> void gen1(Rng &q, T &a, T &b)
{
    using L = std::numeric_limits<T>;
    b = 0; a = any<T>(q);
    if (L::is_integer && L::is_signed && sizeof(T) >= sizeof(int) && ((Which == 1 && a == L::max()) || (Which == -1 && a == L::min()))) a = 1;
}

struct Do {
    template <class V> void operator()(Tag<V>)
    {
        using T = typename V::EntryType;
        using Or = Oracle<T>;
        Ops<T> x(vn<V>(), V::Size);
        OPS("+", add, +); OPS("-", sub, -); OPS("*", mul, *); OPS("/", div, /);
        intOnly<V, T>(x, std::is_integral<T>());
        x.bin("unary-", gen1<T, -1>, K2(V(-a)), [](T a, T) -> T { return neg(a, std::is_floating_point<T>()); });
        x.bin("unary+", gen1<T, 0>, K2(+a), [](T a, T) -> T { return a; });
        auto inc = [](T a, T) -> T { return T(a + T(1)); };
        auto dec = [](T a, T) -> T { return T(a - T(1)); };
        auto id = [](T a, T) -> T { return a; };
#ifndef VT_ARRAYS   // simd arrays have no ++ and --
        x.bin("++x", gen1<T, 1>, K1(++a; st<V>(a, o_)), inc);
        x.bin("++x value", gen1<T, 1>, K1(V c = ++a; st<V>(c, o_)), inc);
        x.bin("x++", gen1<T, 1>, K1(a++; st<V>(a, o_)), inc);
        x.bin("x++ value", gen1<T, 1>, K1(V c = a++; st<V>(c, o_)), id);
        x.bin("--x", gen1<T, -1>, K1(--a; st<V>(a, o_)), dec);
        x.bin("--x value", gen1<T, -1>, K1(V c = --a; st<V>(c, o_)), dec);
        x.bin("x--", gen1<T, -1>, K1(a--; st<V>(a, o_)), dec);
        x.bin("x-- value", gen1<T, -1>, K1(V c = a--; st<V>(c, o_)), id);
#endif
        (void)inc; (void)dec; (void)id;
        x.bin("!x", gen1<T, 0>, K1(auto m = !a; for (size_t i = 0; i < V::Size; ++i) o_[i] = T(m[i])), [](T a, T) -> T { return T(a == 0); });
    }
};
namespace vt {
void run()
{
#ifdef VT_ARRAYS
    Do d; VT_ARRAYS
#else
    forNative(Do());
#endif
}
}
