// C02: comparisons and masks (native Mask<T, Abi> and SimdMaskArray<T, N>)
#include "vtvc.h"
using namespace vt;
static const int kN = 600;

template <class T> struct CmpLoop {
    using K = void (*)(const T *, const T *, bool *);
    std::string vname; size_t N; Rng r;
    CmpLoop(const std::string &v, size_t n) : vname(v), N(n), r(("cmp" + v).c_str()) {}
    template <class> void dummy();
    __attribute__((noinline)) void run(const char *name, K k, bool (*sf)(T, T), int scalarSide)
    {
        const std::string key = std::string(name) + (scalarSide == 1 ? " scalar-rhs/" : scalarSide == 2 ? " scalar-lhs/" : "/") + vname + "/" + VT_IMPL;
        OpCount oc(key);
        T a[64], b[64]; bool got[64];
        for (long i = 0, n = cases(kN); i < n; ++i) {
            const int mode = int(r.below(4));
            for (size_t j = 0; j < N; ++j) {
                a[j] = any<T>(r);
                b[j] = scalarSide && j ? b[0] : any<T>(r);
                if (r.below(mode == 0 ? 2 : 4) == 0) { if (scalarSide) a[j] = b[j]; else b[j] = a[j]; }
                else if (r.below(3) == 0) { T x = scalarSide ? b[j] : a[j], y = next(x, r); if (scalarSide) a[j] = y; else b[j] = y; }
            }
            k(a, b, got);
            ev(hashBytes(a, sizeof(T) * N, hashBytes(b, sizeof(T) * (scalarSide ? 1 : N), hashStr(key.c_str()))));
            for (size_t j = 0; j < N; ++j) {
                const bool w = scalarSide == 2 ? sf(b[j], a[j]) : sf(a[j], b[j]);
                if (w != got[j]) { fail(key, "lane %d: got %d want %d; a=%s b=%s", int(j), got[j], w, strv(a, N).c_str(), strv(b, N).c_str()); break; }
            }
            if (i == 3 && r.below(20) == 0) sample("%s a=%s b=%s", key.c_str(), strv(a, N).c_str(), strv(b, N).c_str());
        }
    }
    static T next(T x, Rng &r) { return nx(x, r, std::is_floating_point<T>()); }
    static T nx(T x, Rng &r, std::true_type) { return r.below(4) == 0 ? T(-x) : std::nextafter(x, r.coin() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); }
    static T nx(T x, Rng &r, std::false_type) { const unsigned long long u = x; return T(r.coin() ? u + 1 : r.coin() ? u - 1 : u ^ (1ull << r.below(sizeof(T) * 8))); }
};

template <size_t N> struct MaskLoop {
    using MB = Bits<N>;
    std::string mname; Rng r;
    explicit MaskLoop(const std::string &m) : mname(m), r(("mask" + m).c_str()) {}
    // kernel: two masks in, mask out
    __attribute__((noinline)) void mm(const char *name, void (*k)(const bool *, const bool *, bool *), bool (*sf)(bool, bool))
    {
        const std::string key = std::string(name) + "/mask " + mname + "/" + VT_IMPL;
        OpCount oc(key);
        for (long i = 0, n = cases(kN / 2); i < n; ++i) {
            MB a = MB::gen(r), b = MB::gen(r), o, w;
            if (r.below(5) == 0) b = a;
            k(a.a, b.a, o.a);
            ev(a.h(b.h(hashStr(key.c_str()))));
            for (size_t j = 0; j < N; ++j) w.a[j] = sf(a.a[j], b.a[j]);
            if (memcmp(o.a, w.a, N)) fail(key, "a=%s b=%s got %s want %s", a.s().c_str(), b.s().c_str(), o.s().c_str(), w.s().c_str());
        }
    }
    // kernel: two masks and an int in, int out
    __attribute__((noinline)) void mi(const char *name, long long (*k)(const bool *, const bool *, int), long long (*sf)(const MB &, const MB &, int), int lo, int hi, bool nonEmpty = false)
    {
        const std::string key = std::string(name) + "/mask " + mname + "/" + VT_IMPL;
        OpCount oc(key);
        for (long i = 0, n = cases(kN / 2); i < n; ++i) {
            MB a = MB::gen(r), b = MB::gen(r);
            if (r.below(3) == 0) { b = a; if (r.coin()) { auto &x = b.a[r.below(N)]; x = !x; } }
            if (nonEmpty && !a.count()) a.a[r.below(N)] = true;
            const int p = r.range(lo, hi);
            const long long got = k(a.a, b.a, p), want = sf(a, b, p);
            ev(a.h(b.h(hashStr(key.c_str()) + uint64_t(p))));
            if (got != want) fail(key, "a=%s b=%s p=%d got %lld want %lld", a.s().c_str(), b.s().c_str(), p, got, want);
        }
    }
    // kernel: mask and int in, mask out
    __attribute__((noinline)) void mp(const char *name, void (*k)(const bool *, int, bool *), bool (*sf)(const MB &, int lane, int p), int lo, int hi)
    {
        const std::string key = std::string(name) + "/mask " + mname + "/" + VT_IMPL;
        OpCount oc(key);
        for (long i = 0, n = cases(kN / 2); i < n; ++i) {
            MB a = MB::gen(r), o, w;
            const int p = r.range(lo, hi);
            k(a.a, p, o.a);
            ev(a.h(hashStr(key.c_str()) + uint64_t(p)));
            for (size_t j = 0; j < N; ++j) w.a[j] = sf(a, int(j), p);
            if (memcmp(o.a, w.a, N)) fail(key, "a=%s p=%d got %s want %s", a.s().c_str(), p, o.s().c_str(), w.s().c_str());
        }
    }
};

template <class M> inline M mk(const bool *b) { return maskFromBits<M>(b); }
template <class M> inline void mo(const M &m, bool *o) { maskToBits(m, o); }
#define MM(expr) [](const bool *a_, const bool *b_, bool *o_) { const M a = mk<M>(a_), b = mk<M>(b_); (void)a; (void)b; mo<M>(expr, o_); }
#define MA(stmt) [](const bool *a_, const bool *b_, bool *o_) { M a = mk<M>(a_); const M b = mk<M>(b_); stmt; mo<M>(a, o_); }
#define MI(expr) [](const bool *a_, const bool *b_, int p) -> long long { const M a = mk<M>(a_), b = mk<M>(b_); (void)a; (void)b; (void)p; return (expr); }
#define MP(expr) [](const bool *a_, int p, bool *o_) { const M a = mk<M>(a_); (void)a; mo<M>(expr, o_); }

template <size_t N> long long toI(const bool *a) { long long x = 0; for (size_t i = 0; i < N && i < 31; ++i) x |= (long long)(a[i]) << i; return x; }

template <class M> __attribute__((noinline)) void maskMemory(const std::string &mname)
{
    constexpr size_t N = M::Size;
    Rng r(("maskmem" + mname).c_str());
    Guarded g(1);
    for (int form = 0; form < 8; ++form) {
        static const char *const nm[] = {"mask ctor(bool*)", "mask load(bool*)", "mask load Unaligned", "mask store(bool*)", "mask store Unaligned", "mask ctor Unaligned", "mask load Aligned", "mask store Aligned"};
        const std::string key = std::string(nm[form]) + "/mask " + mname + "/" + VT_IMPL;
        OpCount oc(key);
        for (long i = 0, n = cases(kN / 4); i < n; ++i) {
            Bits<N> a = Bits<N>::gen(r), o;
            const bool al = form >= 6;   // the default flag is Unaligned
            const size_t A = al ? 64 : 1;
            const int place = int(r.below(3));  // flush with the upper guard, the lower guard, or in between
            const size_t room = g.size() - N;
            size_t off = place == 0 ? room : place == 1 ? 0 : r.below(uint32_t(room));
            off = off / A * A;
            bool *p = reinterpret_cast<bool *>(g.begin() + off);
            g.fill(0x5a);
            const bool isStore = form == 3 || form == 4 || form == 7;
            M m(false);
            if (isStore) m = mk<M>(a.a); else memcpy(p, a.a, N);
            unsigned char before[64 + 32];
            const bool ok = survives([&] {
                switch (form) {
                case 0: m = M(static_cast<const bool *>(p)); break;
                case 1: m.load(p); break;
                case 2: m.load(p, Vc::Unaligned); break;
                case 3: m.store(p); break;
                case 4: m.store(p, Vc::Unaligned); break;
                case 5: m = M(static_cast<const bool *>(p), Vc::Unaligned); break;
                case 6: m.load(p, Vc::Aligned); break;
                case 7: m.store(p, Vc::Aligned); break;
                }
            });
            (void)before;
            ev(a.h(hashStr(key.c_str()) + off));
            if (!ok) { fail(key, "accessed memory outside its %d bools (offset %d of the page)", int(N), int(off)); continue; }
            if (isStore) {
                memcpy(o.a, p, N);
                bool clean = true;
                for (size_t j = 0; j < g.size(); ++j) if ((j < off || j >= off + N) && uint8_t(g.begin()[j]) != 0x5a) clean = false;
                if (!clean) fail(key, "wrote outside its %d bools", int(N));
                for (size_t j = 0; j < N; ++j) if (uint8_t(p[j]) != uint8_t(a.a[j])) { fail(key, "stored byte %d for %s", int(uint8_t(p[j])), a.s().c_str()); break; }
            } else {
                mo<M>(m, o.a);
                if (memcmp(o.a, a.a, N)) fail(key, "got %s want %s", o.s().c_str(), a.s().c_str());
            }
        }
    }
}

template <class V> void cmps(std::string name)
{
    using T = typename V::EntryType;
    CmpLoop<T> x(name, V::Size);
#define CMP(OP, nm)                                                                                                    \
    x.run(nm, [](const T *a_, const T *b_, bool *o_) { auto m = fromLanes<V>(a_) OP fromLanes<V>(b_); maskToBits(m, o_); }, \
          [](T a, T b) -> bool { return a OP b; }, 0);                                                                 \
    x.run(nm, [](const T *a_, const T *b_, bool *o_) { auto m = fromLanes<V>(a_) OP *b_; maskToBits(m, o_); },         \
          [](T a, T b) -> bool { return a OP b; }, 1);                                                                 \
    x.run(nm, [](const T *a_, const T *b_, bool *o_) { auto m = *b_ OP fromLanes<V>(a_); maskToBits(m, o_); },         \
          [](T a, T b) -> bool { return a OP b; }, 2);
    CMP(==, "==") CMP(!=, "!=") CMP(<, "<") CMP(<=, "<=") CMP(>, ">") CMP(>=, ">=")
    x.run("!v", [](const T *a_, const T *, bool *o_) { auto m = !fromLanes<V>(a_); maskToBits(m, o_); }, [](T a, T) -> bool { return a == 0; }, 0);
}

struct Do {
    template <class V> void operator()(Tag<V>)
    {
        using M = typename V::MaskType;
        constexpr size_t N = V::Size;
        using MB = Bits<N>;
        cmps<V>(vn<V>());
        MaskLoop<N> x(vn<V>());
        auto AND = [](bool a, bool b) { return a && b; };
        auto OR = [](bool a, bool b) { return a || b; };
        auto XOR = [](bool a, bool b) { return a != b; };
        x.mm("&", MM(a & b), AND); x.mm("|", MM(a | b), OR); x.mm("^", MM(a ^ b), XOR);
        x.mm("&&", MM(a && b), AND); x.mm("||", MM(a || b), OR);
        x.mm("!", MM(!a), [](bool a, bool) { return !a; });
        x.mm("&=", MA(a &= b), AND); x.mm("|=", MA(a |= b), OR); x.mm("^=", MA(a ^= b), XOR);
        x.mm("copy", MA(M c(a); a = b; a = c), [](bool a, bool) { return a; });
        auto all = [](const MB &a, const MB &, int) -> long long { return a.count() == int(N); };
        auto anyf = [](const MB &a, const MB &, int) -> long long { return a.count() != 0; };
        auto none = [](const MB &a, const MB &, int) -> long long { return a.count() == 0; };
        auto some = [](const MB &a, const MB &, int) -> long long { return a.count() != 0 && a.count() != int(N); };
        x.mi("all_of", MI(Vc::all_of(a)), all, 0, 0); x.mi("isFull", MI(a.isFull()), all, 0, 0);
        x.mi("any_of", MI(Vc::any_of(a)), anyf, 0, 0); x.mi("isNotEmpty", MI(a.isNotEmpty()), anyf, 0, 0);
        x.mi("none_of", MI(Vc::none_of(a)), none, 0, 0); x.mi("isEmpty", MI(a.isEmpty()), none, 0, 0);
        x.mi("some_of", MI(Vc::some_of(a)), some, 0, 0); x.mi("isMix", MI(a.isMix()), some, 0, 0);
        x.mi("all_of etc. of bool", MI([](bool q) { return int(Vc::all_of(q)) + 2 * Vc::any_of(q) + 4 * Vc::none_of(q) + 8 * Vc::some_of(q); }(a[0])), [](const MB &a, const MB &, int) -> long long { return a.a[0] ? 3 : 4; }, 0, 0);
        x.mi("count", MI(a.count()), [](const MB &a, const MB &, int) -> long long { return a.count(); }, 0, 0);
        x.mi("firstOne", MI(a.firstOne()), [](const MB &a, const MB &, int) -> long long { int i = 0; while (!a.a[i]) ++i; return i; }, 0, 0, true);
        if (N < 32) x.mi("toInt", MI(a.toInt()), [](const MB &a, const MB &, int) -> long long { return toI<N>(a.a); }, 0, 0);
        x.mi("mask==mask", MI(a == b), [](const MB &a, const MB &b, int) -> long long { return !memcmp(a.a, b.a, N); }, 0, 0);
        x.mi("mask!=mask", MI(a != b), [](const MB &a, const MB &b, int) -> long long { return !!memcmp(a.a, b.a, N); }, 0, 0);
        x.mi("[] const", MI(a[size_t(p)]), [](const MB &a, const MB &, int p) -> long long { return a.a[p]; }, 0, int(N) - 1);
        x.mp("shifted", MP(a.shifted(p)), [](const MB &a, int j, int p) { const int k = j + p; return k >= 0 && k < int(N) && a.a[k]; }, -int(N), int(N));
        x.mp("[]=true", [](const bool *a_, int p, bool *o_) { M a = mk<M>(a_); a[size_t(p)] = true; mo<M>(a, o_); }, [](const MB &a, int j, int p) { return j == p || a.a[j]; }, 0, int(N) - 1);
        x.mp("[]=false", [](const bool *a_, int p, bool *o_) { M a = mk<M>(a_); a[size_t(p)] = false; mo<M>(a, o_); }, [](const MB &a, int j, int p) { return j != p && a.a[j]; }, 0, int(N) - 1);
        x.mp("M(bool)", MP(M(bool(p))), [](const MB &, int, int p) { return bool(p); }, 0, 1);
        x.mp("Zero", MP(M::Zero()), [](const MB &, int, int) { return false; }, 0, 0);
        x.mp("One", MP(M::One()), [](const MB &, int, int) { return true; }, 0, 0);
        x.mp("M()", MP(M()), [](const MB &, int, int) { return false; }, 0, 0);
        x.mp("M(Zero)", MP(M(Vc::Zero)), [](const MB &, int, int) { return false; }, 0, 0);
        x.mp("M(One)", MP(M(Vc::One)), [](const MB &, int, int) { return true; }, 0, 0);
        x.mp("generate", [](const bool *a_, int, bool *o_) { M a = M::generate([&](int i) { return a_[i]; }); mo<M>(a, o_); }, [](const MB &a, int j, int) { return a.a[j]; }, 0, 0);
        maskMemory<M>(vn<V>());
    }
};
template <class... Ns> void dummy() {}
namespace vt {
void run()
{
#ifdef VT_ARRAYS
    Do d; VT_ARRAYS
#else
    forNative(Do());
#endif
}
}
