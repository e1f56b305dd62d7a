// C04 (gathers) and C05 (-DVT_SCATTER: scatters): indexed vector access through every index form
#include "vtvc.h"
#include <atomic>
#include <thread>
using namespace vt;
#ifdef VT_SCATTER
#define NM(x) "scatter " x
#else
#define NM(x) "gather " x
#endif
template <class U> struct alignas(sizeof(U) > 2 ? sizeof(U) : 2) Inner { char x; U p; short y; U q; };
template <class U> struct alignas(sizeof(U) > 2 ? sizeof(U) : 2) S { U a; char x; U b; short y; U c[3]; Inner<U> in; Vc::array<Vc::array<U, 2>, 2> d; U last; };

enum { Unmasked = 0, Masked = 1, KeepsOld = 2, Fresh = 4 };
// the memory holds n objects of type Obj; `sel` is the scalar the operation addresses inside one of them
template <class T, class U, class Obj> struct Loop {
    using K = void (*)(Obj *mem, const int *idx, const bool *mask, T *lanes);
    using Sel = U *(*)(Obj *);
    std::string vname; size_t N; Rng r; Guarded g;
    size_t maxObj;
    Loop(const std::string &v, size_t n, size_t pages) : vname(v), N(n), r((std::string(NM("")) + v + tn<U>()).c_str()), g(pages), maxObj(std::min<size_t>(g.size() / sizeof(Obj), 300)) {}
    __attribute__((noinline)) void run(const char *name, K k, Sel sel, int kind, int maxIdx, bool neg, long base)
    {
        const std::string key = std::string(NM("")) + (kind & Masked ? "masked " : "") + name + (std::is_same<T, U>::value ? "" : std::string(" ") + tn<U>()) + "/" + vname + "/" + VT_IMPL;
        OpCount oc(key);
        std::vector<char> ref;
        for (long i = 0, n = cases(base); i < n; ++i) {
            int idx[64]; bool m[64]; T old[64], got[64], want[64];
            size_t cnt = r.below(3) ? 1 + r.below(uint32_t(maxObj)) : maxObj;
#ifdef VT_SCATTER
            if (cnt < N) cnt = N;
#endif
            if (cnt > size_t(maxIdx)) cnt = size_t(maxIdx);
            const bool atEnd = r.coin();
            const size_t off = atEnd ? g.size() - cnt * sizeof(Obj) : 0;
            char *raw = g.begin() + off;
            Obj *first = reinterpret_cast<Obj *>(raw);
            g.fill(0x5a);
            for (size_t j = 0; j < cnt; ++j) { U x = any<U>(r); memcpy(sel(first + j), &x, sizeof x); }
            // the base pointer may sit inside the array, making negative offsets valid
            const int zero = neg && r.coin() ? int(r.below(uint32_t(cnt))) : 0;
            const unsigned mk = r.below(10), c = r.below(uint32_t(N)), ik = r.below(6);
            int perm[300]; for (size_t j = 0; j < cnt; ++j) perm[j] = int(j);
            for (size_t j = 0; j < N && j < cnt; ++j) std::swap(perm[j], perm[j + r.below(uint32_t(cnt - j))]);
            for (size_t j = 0; j < N; ++j) {
                old[j] = any<T>(r);
                m[j] = !(kind & Masked) || (mk == 0 ? false : mk == 1 ? true : mk == 2 ? j == c : mk == 3 ? j != c : mk == 4 ? j < c : r.coin());
                idx[j] = perm[j % cnt];
#ifndef VT_SCATTER
                if (ik == 0) idx[j] = int(cnt) - 1;            // all at the upper end
                else if (ik == 1) idx[j] = 0;                  // all at the lower end
                else if (ik == 2) idx[j] = int(r.below(uint32_t(cnt)));
                else if (ik == 3) idx[j] = int((j + c) % cnt);
#else
                (void)ik;
#endif
                idx[j] -= zero;
                if (!m[j]) {
                    const unsigned w = r.below(4);             // a deselected lane's offset need not be valid
                    if (maxIdx > 1000) idx[j] = w == 0 ? int(cnt) - zero : w == 1 ? 1 << 23 : w == 2 && neg ? -1 - zero : idx[j];
                    else if (w == 0) idx[j] = maxIdx - 1;
                }
            }
            ref.assign(raw, raw + cnt * sizeof(Obj));
            memcpy(got, old, sizeof got);
            for (size_t j = 0; j < N; ++j) {
#ifdef VT_SCATTER
                if (m[j]) { U x = static_cast<U>(old[j]); memcpy(reinterpret_cast<char *>(sel(reinterpret_cast<Obj *>(ref.data()) + idx[j] + zero)), &x, sizeof x); }
#else
                want[j] = m[j] ? static_cast<T>(*sel(first + zero + idx[j])) : kind & KeepsOld ? old[j] : T();
#endif
            }
            const bool ok = survives([&] { k(first + zero, idx, m, got); });
            ev(hashBytes(idx, N * sizeof(int), hashBytes(m, N, hashStr(key.c_str()) + off)));
            if (!ok) { fail(key, "accessed memory outside the selected elements: %d objects of %d bytes at %s of the accessible area, base object %d, indexes %s", int(cnt), int(sizeof(Obj)), atEnd ? "the end" : "the begin", zero, strv(idx, N).c_str()); continue; }
#ifdef VT_SCATTER
            (void)want;
            for (size_t j = 0; j < cnt * sizeof(Obj); ++j)
                if (raw[j] != ref[j]) {
                    // NaN payloads may differ
                    const size_t o = j / sizeof(Obj);
                    U a, b; memcpy(&a, sel(first + o), sizeof a); memcpy(&b, reinterpret_cast<char *>(sel(reinterpret_cast<Obj *>(ref.data()) + o)), sizeof b);
                    if (isNaN(a) && isNaN(b) && raw + j >= reinterpret_cast<char *>(sel(first + o)) && raw + j < reinterpret_cast<char *>(sel(first + o) + 1)) continue;
                    std::string ms; for (size_t q = 0; q < N; ++q) ms += m[q] ? '1' : '0';
                    fail(key, "object %d byte %d differs; lanes=%s indexes=%s mask=%s base=%d", int(o), int(j % sizeof(Obj)), strv(old, N).c_str(), strv(idx, N).c_str(), ms.c_str(), zero);
                    break;
                }
            for (size_t j = 0; j < g.size(); ++j) if ((j < off || j >= off + cnt * sizeof(Obj)) && uint8_t(g.begin()[j]) != 0x5a) { fail(key, "wrote outside the array"); break; }
            check(key + " (lanes)", got, old, N, "the vector changed");
#else
            std::string ms; for (size_t q = 0; q < N; ++q) ms += m[q] ? '1' : '0';
            check(key, got, want, N, "indexes=" + strv(idx, N) + " mask=" + ms + " base=" + std::to_string(zero));
            if (memcmp(raw, ref.data(), ref.size())) fail(key, "a gather wrote to memory");
#endif
            if (i == 3 && r.below(40) == 0) sample("%s indexes=%s", key.c_str(), strv(idx, N).c_str());
        }
    }
#ifdef VT_SCATTER
    __attribute__((noinline)) void race(const char *name, K k, Sel sel)
    {
        if (N < 2 || !VT_ALONE) return;
        const std::string key = std::string("scatter concurrent ") + name + "/" + vname + "/" + VT_IMPL;
        OpCount oc(key);
        Obj *mem = reinterpret_cast<Obj *>(g.begin());
        for (int round = 0; round < 3; ++round) {
            bool m[64]; T lanes[64]; int idx[64];
            for (size_t j = 0; j < N; ++j) { m[j] = r.coin(); lanes[j] = T(1 + j); idx[j] = int(j); }
            const size_t other = r.below(uint32_t(N)); m[other] = false;
            g.fill(0);
            std::atomic<bool> stop{false}, started{false};
            std::atomic<unsigned long> lost{0}, seen{0};
            std::thread t([&] {
                volatile U *q = sel(mem + other); volatile U *q0 = sel(mem + N);
                unsigned long c = 0;
                while (!stop.load(std::memory_order_relaxed)) {
                    const U x = U(1 + (c++ & 63));
                    *q = x; *q0 = x;
                    for (int s = 0; s < int(c & 15); ++s) asm volatile("" ::: "memory");
                    if (*q != x || *q0 != x) ++lost;
                    started = true;
                }
                seen = c;
            });
            while (!started) std::this_thread::yield();
            for (long i = 0, n = cases(4000); i < n; ++i) k(mem, idx, m, lanes);
            stop = true; t.join();
            ev(hashBytes(m, N, hashStr(key.c_str()) + uint64_t(round)));
            if (lost) fail(key, "a masked scatter overwrote an element it does not select (%lu of %lu concurrent updates lost)", lost.load(), seen.load());
        }
    }
#endif
};
// the whole range of an index type
template <class T, class U, class Obj> struct FarLoop {
    using K = void (*)(Obj *mem, const int *idx, const bool *mask, T *lanes);
    using Sel = U *(*)(Obj *);
    std::string vname; size_t N; Rng r; Far f;
    FarLoop(const std::string &v, size_t n) : vname(v), N(n), r((std::string(NM("far ")) + v + tn<U>()).c_str()) {}
    __attribute__((noinline)) void run(const char *name, K k, Sel sel, int kind, int hi, bool neg, long base)
    {
        const std::string key = std::string(NM("far ")) + (kind & Masked ? "masked " : "") + name + (std::is_same<T, U>::value ? "" : std::string(" ") + tn<U>()) + "/" + vname + "/" + VT_IMPL;
        OpCount oc(key);
        if (!f.p) { fail(key, "cannot reserve address space"); return; }
        const int lo = neg ? -hi - 1 : 0;
        char *const zero = f.p + Far::Page - int64_t(lo) * int64_t(sizeof(Obj));
        if (zero + (int64_t(hi) + 2) * int64_t(sizeof(Obj)) > f.p + Far::Size) { fail(key, "test error: range too small"); return; }
        auto obj = [&](int i) { return reinterpret_cast<Obj *>(zero + int64_t(i) * int64_t(sizeof(Obj))); };
        for (long i = 0, n = cases(base); i < n; ++i) {
            int idx[64]; bool m[64]; T old[64], got[64], want[64];
            U in[64];
            const unsigned mk = r.below(8), c = r.below(uint32_t(N)), ik = r.below(5);
            for (size_t j = 0; j < N; ++j) {
                old[j] = any<T>(r);
                m[j] = !(kind & Masked) || (mk == 0 ? false : mk == 1 ? true : mk == 2 ? j == c : mk == 3 ? j != c : r.coin());
                for (bool dup = true; dup;) {
                    const int64_t b = r.below(32), q = (int64_t(1) << b) + int64_t(r.below(5)) - 2;
                    int64_t x = ik == 0 ? hi - int64_t(r.below(70)) : ik == 1 ? lo + int64_t(r.below(70)) : ik == 2 ? (neg && r.coin() ? -q : q) : lo + int64_t(r.u64() % uint64_t(int64_t(hi) - lo + 1));
                    if (x > hi) x = hi - int64_t(r.below(70));
                    if (x < lo) x = lo + int64_t(r.below(70));
                    idx[j] = int(x);
                    dup = false;
                    for (size_t o = 0; o < j; ++o) dup |= idx[o] == idx[j];
                }
            }
            for (size_t j = 0; j < N; ++j) if (m[j]) {
                if (!f.open(reinterpret_cast<char *>(obj(idx[j])), sizeof(Obj))) { fail(key, "cannot map a page"); return; }
                in[j] = any<U>(r);
            }
            for (size_t j = 0; j < N; ++j) if (m[j]) { memset(obj(idx[j]), 0x5a, sizeof(Obj)); memcpy(sel(obj(idx[j])), &in[j], sizeof in[j]); }
            memcpy(got, old, sizeof got);
            const bool ok = survives([&] { k(obj(0), idx, m, got); });
            std::string ms; for (size_t q = 0; q < N; ++q) ms += m[q] ? '1' : '0';
            const std::string ctx = "indexes=" + strv(idx, N) + " mask=" + ms;
            ev(hashBytes(idx, N * sizeof(int), hashBytes(m, N, hashStr(key.c_str()))));
            if (!ok) fail(key, "accessed memory outside the selected elements: %s", ctx.c_str());
            else {
#ifdef VT_SCATTER
                for (size_t j = 0; j < N; ++j) if (m[j]) {
                    const U x = static_cast<U>(old[j]);
                    U y; memcpy(&y, sel(obj(idx[j])), sizeof y);
                    check(key, &y, &x, 1, "lane " + std::to_string(j) + " " + ctx);
                    const char *o = reinterpret_cast<const char *>(obj(idx[j])), *e = reinterpret_cast<const char *>(sel(obj(idx[j])));
                    for (size_t q = 0; q < sizeof(Obj); ++q) if ((o + q < e || o + q >= e + sizeof(U)) && o[q] != 0x5a) { fail(key, "wrote byte %d of an object: %s", int(q), ctx.c_str()); break; }
                }
                (void)want;
                check(key + " (lanes)", got, old, N, "the vector changed");
#else
                for (size_t j = 0; j < N; ++j) want[j] = m[j] ? static_cast<T>(in[j]) : kind & KeepsOld ? old[j] : T();
                check(key, got, want, N, ctx);
#endif
            }
            for (size_t j = 0; j < N; ++j) if (m[j]) f.close(reinterpret_cast<char *>(obj(idx[j])), sizeof(Obj));
        }
    }
};
template <class I, size_t N> struct StdArr { static std::array<I, N> mk(const int *p) { std::array<I, N> a; for (size_t i = 0; i < N; ++i) a[i] = I(p[i]); return a; } };
template <class I, size_t N> struct VcArr { static Vc::array<I, N> mk(const int *p) { Vc::array<I, N> a; for (size_t i = 0; i < N; ++i) a[i] = I(p[i]); return a; } };
template <class IV> IV mkIdx(const int *p) { typename IV::EntryType t[IV::Size]; for (size_t i = 0; i < IV::Size; ++i) t[i] = typename IV::EntryType(p[i]); return fromLanes<IV>(static_cast<const typename IV::EntryType *>(t)); }

template <class V, class U> struct Forms {
    using T = typename V::EntryType;
    using M = typename V::MaskType;
    static constexpr size_t N = V::Size;
    using IT = typename V::IndexType;
    static U *self(U *p) { return p; }
    using L = Loop<T, U, U>;
#define PAR U *mem, const int *ix, const bool *mk, T *l
#define GETM const M m = maskFromBits<M>(mk); (void)m;
#ifdef VT_SCATTER
#define IN const V v = fromLanes<V>(static_cast<const T *>(l));
#define FORMS(nm, mx, ng, cnt, ...) \
    x.run(nm, [](PAR) { const auto ind = __VA_ARGS__; IN v.scatter(mem, ind); toLanes(v, l); (void)mk; }, self, Unmasked, mx, ng, cnt); \
    x.run(nm, [](PAR) { const auto ind = __VA_ARGS__; GETM IN v.scatter(mem, ind, m); toLanes(v, l); }, self, Masked, mx, ng, cnt);
#else
#define FORMS(nm, mx, ng, cnt, ...) \
    x.run("ctor " nm, [](PAR) { const auto ind = __VA_ARGS__; const V v(mem, ind); toLanes(v, l); (void)mk; }, self, Unmasked, mx, ng, cnt); \
    x.run("ctor " nm, [](PAR) { const auto ind = __VA_ARGS__; GETM const V v(mem, ind, m); toLanes(v, l); }, self, Masked, mx, ng, cnt); \
    x.run("member " nm, [](PAR) { const auto ind = __VA_ARGS__; V v = fromLanes<V>(static_cast<const T *>(l)); v.gather(mem, ind); toLanes(v, l); (void)mk; }, self, Unmasked, mx, ng, cnt); \
    x.run("member " nm, [](PAR) { const auto ind = __VA_ARGS__; GETM V v = fromLanes<V>(static_cast<const T *>(l)); v.gather(mem, ind, m); toLanes(v, l); }, self, Masked | KeepsOld, mx, ng, cnt);
#endif
    static void basic(long n, bool all)
    {
        L x(vn<V>(), N, 1);
        FORMS("IndexType", 1 << 20, true, n, mkIdx<IT>(ix))
        FORMS("short indexes", 30000, true, n / 2, mkIdx<Vc::SimdArray<short, N>>(ix))
        if (all) {
            FORMS("ushort indexes", 30000, false, n / 2, mkIdx<Vc::SimdArray<unsigned short, N>>(ix))
            FORMS("uint indexes", 1 << 20, false, n / 2, mkIdx<Vc::SimdArray<unsigned, N>>(ix))
#if !(defined VT_SCATTER && defined VT_ARRAYS)   // a simd-array scatter takes index vectors only
            FORMS("std::array<int>", 1 << 20, true, n / 2, StdArr<int, N>::mk(ix))
            FORMS("std::array<schar>", 120, true, n / 4, StdArr<signed char, N>::mk(ix))
            FORMS("Vc::array<ushort>", 30000, false, n / 4, VcArr<unsigned short, N>::mk(ix))
            carr(x, n / 2);
#endif
        }
    }
    static void far(long n)
    {
        FarLoop<T, U, U> x(vn<V>(), N);
        FORMS("IndexType", (std::is_same<typename IT::EntryType, int>::value ? 0x7fffffff : 0x7fff), true, n, mkIdx<IT>(ix))
        FORMS("short indexes", 32767, true, n, mkIdx<Vc::SimdArray<short, N>>(ix))
        FORMS("ushort indexes", 65535, false, n, mkIdx<Vc::SimdArray<unsigned short, N>>(ix))
        FORMS("uint indexes", 0x7fffffff, false, n, mkIdx<Vc::SimdArray<unsigned, N>>(ix))
#if !(defined VT_SCATTER && defined VT_ARRAYS)
        FORMS("std::array<int>", 0x7fffffff, true, n, StdArr<int, N>::mk(ix))
        FORMS("std::array<schar>", 127, true, n, StdArr<signed char, N>::mk(ix))
        FORMS("Vc::array<uchar>", 255, false, n, VcArr<unsigned char, N>::mk(ix))
        FORMS("std::array<short>", 32767, true, n, StdArr<short, N>::mk(ix))
        FORMS("Vc::array<ushort>", 65535, false, n, VcArr<unsigned short, N>::mk(ix))
#endif
    }
    // a braced list of indexes
#ifdef VT_SCATTER
    template <size_t... I> static void lists(L &x, long n, Vc::index_sequence<I...>)
    {
        x.run("span[initializer_list<int>] = v", [](PAR) { IN Vc::span<U> s(mem, 1000); s[std::initializer_list<int>{ix[I]...}] = v; toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, false, n / 2);
    }
#else
    template <size_t... I> static void lists(L &x, long n, Vc::index_sequence<I...>)
    {
        x.run("span[initializer_list<int>]", [](PAR) { const Vc::span<U> s(mem, 1000); const V v = s[std::initializer_list<int>{ix[I]...}]; toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, false, n / 2);
        x.run("span[initializer_list<short>]", [](PAR) { const Vc::span<U> s(mem, 1000); const V v = s[std::initializer_list<short>{short(ix[I])...}]; toLanes(v, l); (void)mk; }, self, Unmasked, 30000, false, n / 4);
    }
#endif
    static void carr(L &x, long n)
    {
#ifdef VT_SCATTER
        x.run("int[]", [](PAR) { int a[N]; for (size_t i = 0; i < N; ++i) a[i] = ix[i]; IN v.scatter(mem, a); toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, true, n);
        x.run("int[]", [](PAR) { int a[N]; for (size_t i = 0; i < N; ++i) a[i] = ix[i]; GETM IN v.scatter(mem, a, m); toLanes(v, l); }, self, Masked, 1 << 20, true, n);
        x.run("span[IndexType] = v", [](PAR) { IN Vc::span<U> s(mem, 1000); s[mkIdx<IT>(ix)] = v; toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, false, n);
        x.run("where|span[IndexType] = v", [](PAR) { GETM IN Vc::span<U> s(mem, 1000); where(m) | s[mkIdx<IT>(ix)] = v; toLanes(v, l); }, self, Masked, 1 << 20, false, n);
        lists(x, n, Vc::make_index_sequence<N>());
        x.run("std::vector<int>", [](PAR) { const std::vector<int> a(ix, ix + N); IN v.scatter(mem, a); toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, true, n / 4);
        x.run("span[int[]] = v", [](PAR) { int a[N]; for (size_t i = 0; i < N; ++i) a[i] = ix[i]; IN Vc::span<U> s(mem, 1000); s[a] = v; toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, false, n / 2);
        x.race("scatter(mem, IndexType, mask)", [](PAR) { const IT ind = mkIdx<IT>(ix); GETM IN for (int i = 0; i < 8; ++i) v.scatter(mem, ind, m); }, self);
        x.race("where|span[IndexType] = v", [](PAR) { const IT ind = mkIdx<IT>(ix); GETM IN Vc::span<U> s(mem, 1000); for (int i = 0; i < 8; ++i) where(m) | s[ind] = v; }, self);
#else
        x.run("ctor int[]", [](PAR) { int a[N]; for (size_t i = 0; i < N; ++i) a[i] = ix[i]; const V v(mem, a); toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, true, n);
        x.run("member int[]", [](PAR) { int a[N]; for (size_t i = 0; i < N; ++i) a[i] = ix[i]; GETM V v = fromLanes<V>(static_cast<const T *>(l)); v.gather(mem, a, m); toLanes(v, l); }, self, Masked | KeepsOld, 1 << 20, true, n);
        x.run("span[IndexType]", [](PAR) { const Vc::span<U> s(mem, 1000); const V v = s[mkIdx<IT>(ix)]; toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, false, n);
        x.run("where|v = span[IndexType]", [](PAR) { GETM const Vc::span<U> s(mem, 1000); V v = fromLanes<V>(static_cast<const T *>(l)); where(m) | v = s[mkIdx<IT>(ix)]; toLanes(v, l); }, self, Masked | KeepsOld, 1 << 20, false, n);
        x.run("v(m) = span[IndexType]", [](PAR) { GETM const Vc::span<U> s(mem, 1000); V v = fromLanes<V>(static_cast<const T *>(l)); v(m) = s[mkIdx<IT>(ix)]; toLanes(v, l); }, self, Masked | KeepsOld, 1 << 20, false, n);
        lists(x, n, Vc::make_index_sequence<N>());
        x.run("ctor std::vector<int>", [](PAR) { const std::vector<int> a(ix, ix + N); const V v(mem, a); toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, true, n / 4);
        x.run("member std::vector<short>", [](PAR) { const std::vector<short> a(ix, ix + N); V v = fromLanes<V>(static_cast<const T *>(l)); v.gather(mem, a); toLanes(v, l); (void)mk; }, self, Unmasked, 30000, true, n / 4);
        x.run("Vc::vector[IndexType]", [](PAR) { const IT ind = mkIdx<IT>(ix); size_t mx = 0; for (size_t j = 0; j < N; ++j) mx = std::max(mx, size_t(ix[j]) + 1); const Vc::vector<U> s(mem, mem + mx); const V v = s[ind]; toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, false, n / 4);
        x.run("span[int[]]", [](PAR) { int a[N]; for (size_t i = 0; i < N; ++i) a[i] = ix[i]; const Vc::span<U> s(mem, 1000); const V v = s[a]; toLanes(v, l); (void)mk; }, self, Unmasked, 1 << 20, false, n / 2);
#endif
    }
};
template <class V, class U> struct Structs {
    using T = typename V::EntryType;
    using M = typename V::MaskType;
    static constexpr size_t N = V::Size;
    using IT = typename V::IndexType;
    using Obj = S<U>;
    using L = Loop<T, U, Obj>;
#undef PAR
#define PAR Obj *mem, const int *ix, const bool *mk, T *l
#ifdef VT_SCATTER
#define MEMBER(nm, sel, n, ...) FARMEMBER(nm, sel, n, 1 << 20, __VA_ARGS__)
#define FARMEMBER(nm, sel, n, hi, ...) \
    x.run("s[i]" nm " = v", [](PAR) { using SS = Obj; using II = Inner<U>; (void)sizeof(SS) ; (void)sizeof(II); IN Vc::span<Obj> s(mem, 1000); const IT ind = mkIdx<IT>(ix); s[ind] __VA_ARGS__ = v; toLanes(v, l); (void)mk; }, [](Obj *o) -> U * { return &(*o) sel; }, Unmasked, hi, false, n); \
    x.run("where|s[i]" nm " = v", [](PAR) { using SS = Obj; using II = Inner<U>; (void)sizeof(SS) ; (void)sizeof(II); IN GETM Vc::span<Obj> s(mem, 1000); const IT ind = mkIdx<IT>(ix); where(m) | s[ind] __VA_ARGS__ = v; toLanes(v, l); }, [](Obj *o) -> U * { return &(*o) sel; }, Masked, hi, false, n);
#else
#define MEMBER(nm, sel, n, ...) FARMEMBER(nm, sel, n, 1 << 20, __VA_ARGS__)
#define FARMEMBER(nm, sel, n, hi, ...) \
    x.run("s[i]" nm, [](PAR) { using SS = Obj; using II = Inner<U>; (void)sizeof(SS) ; (void)sizeof(II); Vc::span<Obj> s(mem, 1000); const IT ind = mkIdx<IT>(ix); const V v = s[ind] __VA_ARGS__; toLanes(v, l); (void)mk; }, [](Obj *o) -> U * { return &(*o) sel; }, Unmasked, hi, false, n); \
    x.run("where|v = s[i]" nm, [](PAR) { using SS = Obj; using II = Inner<U>; (void)sizeof(SS) ; (void)sizeof(II); GETM Vc::span<Obj> s(mem, 1000); const IT ind = mkIdx<IT>(ix); V v = fromLanes<V>(static_cast<const T *>(l)); where(m) | v = s[ind] __VA_ARGS__; toLanes(v, l); }, [](Obj *o) -> U * { return &(*o) sel; }, Masked | KeepsOld, hi, false, n);
#endif
    static void go(long n)
    {
        L x(vn<V>(), N, 2);
        MEMBER("[&S::a]", .a, n, [&SS::a])
        MEMBER("[&S::b]", .b, n, [&SS::b])
        MEMBER("[&S::last]", .last, n, [&SS::last])
        MEMBER("[&S::c][1]", .c[1], n, [&SS::c][1])
        MEMBER("[&S::in][&Inner::q]", .in.q, n, [&SS::in][&II::q])
        MEMBER("[&S::d][1][1]", .d[1][1], n / 2, [&SS::d][1][1])
#ifndef VT_SCATTER
        // a second index vector selects inside each object
        rows(x, n);
        // the older member-pointer interface
        x.run("gather(array, &S::b, i)", [](PAR) { using SS = Obj; const IT ind = mkIdx<IT>(ix); V v = fromLanes<V>(static_cast<const T *>(l)); v.gather(mem, &SS::b, ind); toLanes(v, l); (void)mk; }, [](Obj *o) -> U * { return &o->b; }, Unmasked, 1 << 20, false, n);
        x.run("gather(array, &S::b, i, m)", [](PAR) { using SS = Obj; GETM const IT ind = mkIdx<IT>(ix); V v = fromLanes<V>(static_cast<const T *>(l)); v.gather(mem, &SS::b, ind, m); toLanes(v, l); }, [](Obj *o) -> U * { return &o->b; }, Masked | KeepsOld, 1 << 20, false, n);
        x.run("ctor(array, &S::last, i, m)", [](PAR) { using SS = Obj; GETM const IT ind = mkIdx<IT>(ix); const V v(mem, &SS::last, ind, m); toLanes(v, l); }, [](Obj *o) -> U * { return &o->last; }, Masked, 1 << 20, false, n);
        x.run("gather(array, &S::in, &Inner::q, i)", [](PAR) { using SS = Obj; using II = Inner<U>; const IT ind = mkIdx<IT>(ix); V v = fromLanes<V>(static_cast<const T *>(l)); v.gather(mem, &SS::in, &II::q, ind); toLanes(v, l); (void)mk; }, [](Obj *o) -> U * { return &o->in.q; }, Unmasked, 1 << 20, false, n);
        x.run("gather(array, &S::in, &Inner::q, i, m)", [](PAR) { using SS = Obj; using II = Inner<U>; GETM const IT ind = mkIdx<IT>(ix); V v = fromLanes<V>(static_cast<const T *>(l)); v.gather(mem, &SS::in, &II::q, ind, m); toLanes(v, l); }, [](Obj *o) -> U * { return &o->in.q; }, Masked | KeepsOld, 1 << 20, false, n);
#else
        rows(x, n);
        x.run("scatter(array, &S::b, i)", [](PAR) { using SS = Obj; IN const IT ind = mkIdx<IT>(ix); v.scatter(mem, &SS::b, ind); toLanes(v, l); (void)mk; }, [](Obj *o) -> U * { return &o->b; }, Unmasked, 1 << 20, false, n);
        x.run("scatter(array, &S::b, i, m)", [](PAR) { using SS = Obj; GETM IN const IT ind = mkIdx<IT>(ix); v.scatter(mem, &SS::b, ind, m); toLanes(v, l); }, [](Obj *o) -> U * { return &o->b; }, Masked, 1 << 20, false, n);
        x.run("scatter(array, &S::in, &Inner::q, i, m)", [](PAR) { using SS = Obj; using II = Inner<U>; GETM IN const IT ind = mkIdx<IT>(ix); v.scatter(mem, &SS::in, &II::q, ind, m); toLanes(v, l); }, [](Obj *o) -> U * { return &o->in.q; }, Masked, 1 << 20, false, n);
#endif
    }
    static void far(long n)
    {
        constexpr int hi = int(0x7fffffffll / (sizeof(Obj) / sizeof(U)) - 1);
        FarLoop<T, U, Obj> x(vn<V>(), N);
        (void)hi;
        FARMEMBER("[&S::b]", .b, n, hi, [&SS::b])
        FARMEMBER("[&S::in][&Inner::q]", .in.q, n, hi, [&SS::in][&II::q])
    }
    static void rows(L &x, long n)
    {
        // lane j addresses c[(7 * ix[j] + 1) % 3], so the selector depends on the object's position
        (void)x;
        const std::string key = std::string(NM("s[i][&S::c][k]")) + "/" + vn<V>() + "/" + VT_IMPL;
        OpCount oc(key);
        Rng r(key.c_str());
        Guarded g(1);
        const size_t cnt = std::min<size_t>(g.size() / sizeof(Obj), 40);
        Obj *mem = reinterpret_cast<Obj *>(g.begin() + g.size() - cnt * sizeof(Obj));
        for (long t = 0, e = cases(n); t < e; ++t) {
            int ix[64], k[64]; T got[64], want[64]; bool mk[64];
            for (size_t j = 0; j < cnt; ++j) for (int q = 0; q < 3; ++q) mem[j].c[q] = any<U>(r);
            for (size_t j = 0; j < N; ++j) { ix[j] = int((r.below(uint32_t(cnt)) / N * N + j) % cnt); k[j] = int(r.below(3)); want[j] = got[j] = any<T>(r); mk[j] = r.coin(); }
            IT ind = mkIdx<IT>(ix), kk = mkIdx<IT>(k);
            Vc::span<Obj> s(mem, cnt);
            const bool masked = r.coin();
            const M m = maskFromBits<M>(mk);
            ev(hashBytes(ix, N * 4, hashBytes(k, N * 4, hashStr(key.c_str()))));
#ifdef VT_SCATTER
            U ref[64][3]; for (size_t j = 0; j < cnt; ++j) for (int q = 0; q < 3; ++q) ref[j][q] = mem[j].c[q];
            for (size_t j = 0; j < N; ++j) for (size_t o = 0; o < j; ++o) if (ix[j] == ix[o] && k[j] == k[o]) { mk[j] = false; }
            const M m2 = maskFromBits<M>(mk);
            for (size_t j = 0; j < N; ++j) if (mk[j]) ref[ix[j]][k[j]] = U(want[j]);
            const V v = fromLanes<V>(static_cast<const T *>(want));
            (void)masked; (void)m;
            if (!survives([&] { where(m2) | s[ind][&Obj::c][kk] = v; })) { fail(key, "accessed memory outside the array"); continue; }
            for (size_t j = 0; j < cnt; ++j) check(key, mem[j].c, ref[j], 3, "indexes=" + strv(ix, N) + " inner=" + strv(k, N));
#else
            for (size_t j = 0; j < N; ++j) if (!masked || mk[j]) want[j] = mem[ix[j]].c[k[j]];
            V v = fromLanes<V>(static_cast<const T *>(got));
            if (!survives([&] { if (masked) where(m) | v = s[ind][&Obj::c][kk]; else v = s[ind][&Obj::c][kk]; })) { fail(key, "accessed memory outside the array"); continue; }
            toLanes(v, got);
            check(key, got, want, N, "indexes=" + strv(ix, N) + " inner=" + strv(k, N));
#endif
        }
    }
};
// large objects: element offsets exceed what narrow index types can hold
template <class U> struct Big { char pad[sizeof(U) * 131]; U p; char pad2[sizeof(U) * 137]; U q[2]; };
template <class V, class U> struct Bigs {
    using T = typename V::EntryType;
    using M = typename V::MaskType;
    static constexpr size_t N = V::Size;
    using Obj = Big<U>;
#ifdef VT_SCATTER
#define BIG(nm, mx, ...) \
    x.run("big s[" nm "][&S::p] = v", [](PAR) { using SS = Obj; IN const auto ind = __VA_ARGS__; Vc::span<Obj> s(mem, 1000); s[ind][&SS::p] = v; toLanes(v, l); (void)mk; }, [](Obj *o) -> U * { return &o->p; }, Unmasked, mx, false, n); \
    x.run("big where|s[" nm "][&S::q][1] = v", [](PAR) { using SS = Obj; IN GETM const auto ind = __VA_ARGS__; Vc::span<Obj> s(mem, 1000); where(m) | s[ind][&SS::q][1] = v; toLanes(v, l); }, [](Obj *o) -> U * { return &o->q[1]; }, Masked, mx, false, n);
#else
#define BIG(nm, mx, ...) \
    x.run("big s[" nm "][&S::p]", [](PAR) { using SS = Obj; const auto ind = __VA_ARGS__; Vc::span<Obj> s(mem, 1000); const V v = s[ind][&SS::p]; toLanes(v, l); (void)mk; }, [](Obj *o) -> U * { return &o->p; }, Unmasked, mx, false, n); \
    x.run("big where|v = s[" nm "][&S::q][1]", [](PAR) { using SS = Obj; GETM const auto ind = __VA_ARGS__; Vc::span<Obj> s(mem, 1000); V v = fromLanes<V>(static_cast<const T *>(l)); where(m) | v = s[ind][&SS::q][1]; toLanes(v, l); }, [](Obj *o) -> U * { return &o->q[1]; }, Masked | KeepsOld, mx, false, n);
#endif
    static void go(long n)
    {
        Loop<T, U, Obj> x(vn<V>(), N, 300 * sizeof(Obj) / 4096 + 1);
        BIG("short_v", 30000, mkIdx<Vc::SimdArray<short, N>>(ix))
        BIG("ushort_v", 30000, mkIdx<Vc::SimdArray<unsigned short, N>>(ix))
#if !(defined VT_SCATTER && defined VT_ARRAYS)
        BIG("array<schar>", 120, StdArr<signed char, N>::mk(ix))
        BIG("array<short>", 30000, VcArr<short, N>::mk(ix))
        BIG("array<unsigned>", 30000, StdArr<unsigned, N>::mk(ix))
#endif
    }
};
#ifdef VT_SCATTER
template <class V, class T> struct Cvt { static void go() {} };
template <class V> struct Cvt<V, double> { static void go() { Forms<V, float>::basic(60, false); } };
template <class V> struct Cvt<V, float> { static void go() { Forms<V, double>::basic(60, false); } };
template <class V> struct Cvt<V, int> { static void go() { Forms<V, double>::basic(60, false); Forms<V, short>::basic(60, false); Forms<V, unsigned char>::basic(60, false); } };
template <class V> struct Cvt<V, unsigned> { static void go() { Forms<V, double>::basic(60, false); Forms<V, unsigned short>::basic(60, false); } };
template <class V> struct Cvt<V, short> { static void go() { Forms<V, signed char>::basic(60, false); Forms<V, int>::basic(60, false); Forms<V, float>::basic(60, false); } };
template <class V> struct Cvt<V, unsigned short> { static void go() { Forms<V, unsigned char>::basic(60, false); Forms<V, int>::basic(60, false); } };
#else
template <class V, class T> struct Cvt { static void go() {} };
template <class V> struct Cvt<V, double> { static void go() { Forms<V, float>::basic(60, false); Forms<V, int>::basic(60, false); Forms<V, unsigned short>::basic(60, false); } };
template <class V> struct Cvt<V, float> { static void go() { Forms<V, double>::basic(60, false); Forms<V, int>::basic(60, false); Forms<V, signed char>::basic(60, false); } };
template <class V> struct Cvt<V, int> { static void go() { Forms<V, short>::basic(60, false); Forms<V, unsigned char>::basic(60, false); Forms<V, unsigned>::basic(60, false); } };
template <class V> struct Cvt<V, unsigned> { static void go() { Forms<V, unsigned short>::basic(60, false); Forms<V, unsigned char>::basic(60, false); Forms<V, int>::basic(60, false); } };
template <class V> struct Cvt<V, short> { static void go() { Forms<V, signed char>::basic(60, false); Forms<V, unsigned char>::basic(60, false); Forms<V, unsigned short>::basic(60, false); Forms<V, int>::basic(60, false); } };
template <class V> struct Cvt<V, unsigned short> { static void go() { Forms<V, signed char>::basic(60, false); Forms<V, unsigned char>::basic(60, false); Forms<V, short>::basic(60, false); } };
#endif
struct Do {
    template <class V> void operator()(Tag<V>)
    {
        using T = typename V::EntryType;
        Forms<V, T>::basic(120, true);
#ifndef Vc_USE_SET_GATHERS   // (reads entry 0 for deselected lanes, which far away indexes leave inaccessible)
        Forms<V, T>::far(20);
#endif
        Cvt<V, T>::go();
        Structs<V, T>::go(60);
#ifndef Vc_USE_SET_GATHERS
        Structs<V, T>::far(20);
#endif
        Bigs<V, T>::go(20);
    }
};
namespace vt {
void run()
{
#ifdef VT_ARRAYS
    Do d; VT_ARRAYS
#else
    forNative(Do());
#endif
}
}
