// C08: write-masking: v(mask) op= x, where(mask) | v op= x and friends change exactly the selected lanes
#include <Vc/Vc>
#include "kit.h"
#include "scalarops.h"
using namespace vt;

template <class T, class O> void fixPair(T &a, T &b)
{
    const O o{};
    for (int t = 0; t < 12 && !o.valid(a, b); ++t) { a = T((long long)(a) / 7); if (t > 5) b = T(t & 1 ? 1 : 3); }
    if (!o.valid(a, b)) { a = 3; b = 1; }
}
template <class T, class O> void fixShift(T &a, T &b) { b = T((unsigned long long)(b) % (sizeof(T) * 8)); fixPair<T, O>(a, b); }
// the scalar operand of the scalar forms is b[0]; every lane has to be valid with it
template <class T, class O> T scalarOperand(const In<T> &x)
{
    const O o{}; T s = x.b[0];
    for (T c : {s, T(1), T(0)}) {
        bool ok = true;
        for (size_t i = 0; i < x.N; ++i) ok = ok && o.valid(x.a[i], c);
        if (ok) return c;
    }
    return T(0);
}
template <class T, class O, bool S> void orc(const In<T> &x, T *o)
{
    const T s = S ? scalarOperand<T, O>(x) : T(0);
    for (size_t i = 0; i < x.N; ++i) o[i] = x.m[i] ? O()(x.a[i], S ? s : x.b[i]) : x.a[i];
}
template <class T> struct Assign { T operator()(T, T b) const { return b; } bool valid(T, T) const { return true; } };
// runs the same masked statement through every spelling
#define FORM(nm, O, S, rhs, stmt) x.go(std::string(nm), any<T>, any<T>, 0, 1, KERN(V v = ldA<V>(x); const auto m = ldM<V>(x); const V b = ldB<V>(x); (void)b; const T s = S ? scalarOperand<T, O>(x) : T(0); (void)s; stmt; put(v, o)), orc<T, O, S>)
#define FORMS(OPSTR, O, OP) \
    FORM("v(m)" OPSTR "b", O, false, b, v(m) OP b); \
    FORM("where(m)|v" OPSTR "b", O, false, b, where(m) | v OP b); \
    FORM("where(m)(v)" OPSTR "b", O, false, b, where(m)(v) OP b); \
    FORM("where(m,v)" OPSTR "b", O, false, b, where(m, v) OP b); \
    FORM("v(m)" OPSTR "s", O, true, s, v(m) OP s); \
    FORM("where(m)|v" OPSTR "s", O, true, s, where(m) | v OP s)
#define OPSF(OPSTR, O, OP) x.fix = fixPair<T, O>; FORMS(OPSTR, O, OP); x.fix = nullptr
using Vc::where;

template <class V, class T> void ints(Kit<T> &, std::false_type) {}
template <class V, class T> void ints(Kit<T> &x, std::true_type)
{
    using Or = Oracle<T>;
    OPSF(" %= ", typename Or::mod, %=);
    OPSF(" &= ", typename Or::and_, &=);
    OPSF(" |= ", typename Or::or_, |=);
    OPSF(" ^= ", typename Or::xor_, ^=);
    using SL = typename Or::shl; using SR = typename Or::shr;
    x.fix = fixShift<T, SL>;
#ifndef VT_ARRAYS
    FORM("v(m) <<= b", SL, false, b, v(m) <<= b); FORM("where(m)|v <<= b", SL, false, b, where(m) | v <<= b);
#endif
    FORM("v(m) <<= int", SL, true, s, v(m) <<= int(s)); FORM("where(m)|v <<= int", SL, true, s, where(m) | v <<= int(s));
    x.fix = fixShift<T, SR>;
#ifndef VT_ARRAYS
    FORM("v(m) >>= b", SR, false, b, v(m) >>= b); FORM("where(m)|v >>= b", SR, false, b, where(m) | v >>= b);
#endif
    FORM("v(m) >>= int", SR, true, s, v(m) >>= int(s)); FORM("where(m)|v >>= int", SR, true, s, where(m) | v >>= int(s));
    x.fix = nullptr;
}
template <class T> void noMax(T &a, T &b) { if (std::is_integral<T>::value && std::is_signed<T>::value && a == std::numeric_limits<T>::max()) a = 5; (void)b; }
template <class T> void noMin(T &a, T &b) { if (std::is_integral<T>::value && std::is_signed<T>::value && a == std::numeric_limits<T>::min()) a = 5; (void)b; }
template <class T> void inc(const In<T> &x, T *o) { for (size_t i = 0; i < x.N; ++i) o[i] = x.m[i] ? T(x.a[i] + T(1)) : x.a[i]; }
template <class T> void dec(const In<T> &x, T *o) { for (size_t i = 0; i < x.N; ++i) o[i] = x.m[i] ? T(x.a[i] - T(1)) : x.a[i]; }
template <class T> void ident(const In<T> &x, T *o) { for (size_t i = 0; i < x.N; ++i) o[i] = x.a[i]; }
#define STMT(nm, orc, ...) x.go(nm, any<T>, any<T>, 0, 1, KERN(V v = ldA<V>(x); const auto m = ldM<V>(x); const V b = ldB<V>(x); (void)b; (void)m; __VA_ARGS__; put(v, o)), orc)

struct Do {
    template <class V> void operator()(Tag<V>)
    {
        using T = typename V::EntryType;
        using Or = Oracle<T>;
        using AS = Assign<T>;
        Kit<T> x("wmask", vn<V>(), V::Size, 200);
        FORMS(" = ", AS, =);
        OPSF(" += ", typename Or::add, +=);
        OPSF(" -= ", typename Or::sub, -=);
        OPSF(" *= ", typename Or::mul, *=);
        OPSF(" /= ", typename Or::div, /=);
        ints<V>(x, std::is_integral<T>());
        x.fix = noMax<T>;
        STMT("++v(m)", inc<T>, ++v(m)); STMT("v(m)++", inc<T>, v(m)++);
        STMT("v(m)++ value", ident<T>, V r = v(m)++; v = r); STMT("++v(m) value", inc<T>, V r = ++v(m); v = r);
        STMT("(where(m)|v)++", inc<T>, (where(m) | v)++); STMT("++where(m)(v)", inc<T>, ++where(m)(v)); STMT("++where(m,v)", inc<T>, ++where(m, v));
        x.fix = noMin<T>;
        STMT("--v(m)", dec<T>, --v(m)); STMT("v(m)--", dec<T>, v(m)--);
        STMT("v(m)-- value", ident<T>, V r = v(m)--; v = r); STMT("--v(m) value", dec<T>, V r = --v(m); v = r);
        STMT("(where(m)|v)--", dec<T>, (where(m) | v)--); STMT("--where(m)(v)", dec<T>, --where(m)(v));
        x.fix = nullptr;
        STMT("assign()", (orc<T, AS, false>), v.assign(b, m));
        STMT("self", ident<T>, v(m) = v; where(m) | v = v);
        // the mask comes from a comparison of the operands themselves
        x.go("where(v<b)|v=b", moderate<T>, moderate<T>, 0, 0, KERN(V v = ldA<V>(x); const V b = ldB<V>(x); where(v < b) | v = b; put(v, o)),
             KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.a[i] < x.b[i] ? x.b[i] : x.a[i]));
        x.go("v(!(v==b))=b", moderate<T>, moderate<T>, 0, 0, KERN(V v = ldA<V>(x); const V b = ldB<V>(x); v(!(v == b)) = b; put(v, o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.b[i]), sameZ<T>);
        // successive masked assignments: the last one selecting a lane wins
        STMT("where chain", (KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.m[i] ? x.a[i] : x.b[i])), const V c = v; where(m) | v = b; where(!m) | v = V(T(9)); where(!m) | v = b; where(m) | v = c);
        x.go("where(bool)", any<T>, any<T>, 0, 1, KERN(V v = ldA<V>(x); const V b = ldB<V>(x); where(x.k != 0) | v = b; T s = x.a[0]; where(x.k != 0) | s = x.b[0]; put(v, o); o[x.N] = s),
             KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.k ? x.b[i] : x.a[i]; o[x.N] = x.k ? x.b[0] : x.a[0]), same<T>, V::Size + 1);
        STMT("iif", (KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.m[i] ? x.a[i] : x.b[i])), v = Vc::iif(m, v, b));
        x.go("iif(bool)", any<T>, any<T>, 0, 1, KERN(V v = Vc::iif(x.k != 0, ldA<V>(x), ldB<V>(x)); put(v, o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.k ? x.a[i] : x.b[i]));
        STMT("setZero(m)", (KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.m[i] ? T(0) : x.a[i])), v.setZero(m));
        STMT("setZeroInverted(m)", (KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.m[i] ? x.a[i] : T(0))), v.setZeroInverted(m));
        // masked apply and call see the selected lanes only, once each
        STMT("apply(f,m)", (KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.m[i] ? T(x.a[i] / 2) : x.a[i]; (void)0)),
             int n = 0; v = v.apply([&](T e) { ++n; return T(e / 2); }, m); (void)n);
    }
};
namespace vt {
void run()
{
#ifdef VT_ARRAYS
    Do d; VT_ARRAYS
#else
    forNative(Do());
#endif
}
}
