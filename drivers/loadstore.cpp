// C03: loads and stores: values, conversions, masked stores, and the exact memory footprint
#include "vtvc.h"
#include <atomic>
#include <thread>
using namespace vt;
static const int kN = 150;

template <class T> struct StoreLoop {
    using K = void (*)(const T *lanes, const bool *mask, T *mem);
    std::string vname; size_t N, A; Rng r; Guarded g;
    StoreLoop(const std::string &v, size_t n, size_t a) : vname(v), N(n), A(a), r(("store" + v).c_str()), g(1) {}
    __attribute__((noinline)) void run(const char *name, K k, bool masked, bool aligned)
    {
        const std::string key = std::string(name) + "/" + vname + "/" + VT_IMPL;
        OpCount oc(key);
        for (long i = 0, n = cases(kN); i < n; ++i) {
            T lanes[64]; bool m[64]; T old[64], want[64], got[64];
            const unsigned mk = r.below(8), c = r.below(uint32_t(N));
            for (size_t j = 0; j < N; ++j) { lanes[j] = any<T>(r); m[j] = !masked || (mk == 0 ? false : mk == 1 ? true : mk == 2 ? j == c : mk == 3 ? j != c : r.coin()); old[j] = any<T>(r); }
            const size_t al = aligned ? A : alignof(T), bytes = N * sizeof(T), room = g.size() - bytes;
            const unsigned place = r.below(4);
            // masked-out lanes still belong to the destination, so it is fully accessible in every case
            const size_t off = (place == 0 ? room : place == 1 ? 0 : r.below(uint32_t(room))) / al * al;
            g.fill(0xa5);
            T *p = reinterpret_cast<T *>(g.begin() + off);
            memcpy(p, old, bytes);
            for (size_t j = 0; j < N; ++j) want[j] = m[j] ? lanes[j] : old[j];
            const bool ok = survives([&] { k(lanes, m, p); });
            ev(hashBytes(lanes, bytes, hashBytes(m, N, hashStr(key.c_str()) + off)));
            if (!ok) { fail(key, "accessed memory outside its %d entries (byte offset %d of the page)", int(N), int(off)); continue; }
            memcpy(got, p, bytes);
            bool bad = false;
            for (size_t j = 0; j < N; ++j) if (memcmp(&got[j], &want[j], sizeof(T)) && !(isNaN(got[j]) && isNaN(want[j]))) bad = true;
            if (bad) { std::string ms; for (size_t j = 0; j < N; ++j) ms += m[j] ? '1' : '0'; fail(key, "mask=%s stored=%s old=%s memory=%s", ms.c_str(), strv(lanes, N).c_str(), strv(old, N).c_str(), strv(got, N).c_str()); }
            for (size_t j = 0; j < g.size(); ++j)
                if ((j < off || j >= off + bytes) && uint8_t(g.begin()[j]) != 0xa5) { fail(key, "wrote byte %ld relative to the destination of %d bytes", long(j) - long(off), int(bytes)); break; }
            if (i == 5 && r.below(12) == 0) sample("%s lanes=%s offset=%d", key.c_str(), strv(lanes, N).c_str(), int(off));
        }
    }
    // masked-out entries belong to somebody else: another thread updates them while the store runs
    __attribute__((noinline)) void race(const char *name, K k, void (*one)(T *, unsigned))
    {
        if (N < 2 || !VT_ALONE) return;
        const std::string key = std::string(name) + "/" + vname + "/" + VT_IMPL;
        OpCount oc(key);
        T *p = reinterpret_cast<T *>(g.begin());
        (void)one;
        for (int round = 0; round < 3; ++round) {
            bool m[64]; T lanes[64]; size_t other = 0;
            for (size_t j = 0; j < N; ++j) { m[j] = r.coin(); lanes[j] = T(1 + j); }
            other = r.below(uint32_t(N)); m[other] = false;
            memset(static_cast<void *>(p), 0, N * sizeof(T));
            std::atomic<bool> stop{false}, started{false};
            std::atomic<unsigned long> lost{0}, seen{0};
            std::thread t([&] {
                volatile T *q = p + other;
                unsigned long c = 0;
                while (!stop.load(std::memory_order_relaxed)) {
                    const T x = T(1 + (c++ & 63));
                    *q = x;
                    for (int s = 0; s < int(c & 15); ++s) asm volatile("" ::: "memory");
                    if (*q != x) ++lost;
                    started = true;
                }
                seen = c;
            });
            while (!started) std::this_thread::yield();
            const long n = cases(4000);
            for (long i = 0; i < n; ++i) k(lanes, m, p);
            stop = true; t.join();
            ev(hashBytes(m, N, hashStr(key.c_str()) + uint64_t(round)));
            if (lost) fail(key, "a masked store overwrote entry %d that its mask excludes (%lu of %lu concurrent updates lost)", int(other), lost.load(), seen.load());
        }
    }
};
template <class T, class U> struct LoadLoop {
    using K = void (*)(const U *mem, T *lanes);
    std::string vname; size_t N, A; Rng r; Guarded g;
    LoadLoop(const std::string &v, size_t n, size_t a) : vname(v), N(n), A(a), r(("load" + v + tn<U>()).c_str()), g(1) {}
    __attribute__((noinline)) void run(const char *name, K k, bool aligned)
    {
        const std::string key = std::string(name) + " from " + tn<U>() + "/" + vname + "/" + VT_IMPL;
        OpCount oc(key);
        const long n0 = std::is_same<T, U>::value ? kN : kN / 2;
        for (long i = 0, n = cases(n0); i < n; ++i) {
            U mem[64]; T want[64], got[64];
            for (size_t j = 0; j < N; ++j) { mem[j] = any<U>(r); want[j] = static_cast<T>(mem[j]); }
            const size_t al = aligned ? A : alignof(U), bytes = N * sizeof(U), room = g.size() - bytes;
            const unsigned place = r.below(4);
            const size_t off = (place == 0 ? room : place == 1 ? 0 : r.below(uint32_t(room))) / al * al;
            g.fill(0xff);
            memcpy(g.begin() + off, mem, bytes);
            const U *p = reinterpret_cast<const U *>(g.begin() + off);
            const bool ok = survives([&] { k(p, got); });
            ev(hashBytes(mem, bytes, hashStr(key.c_str()) + off));
            if (!ok) { fail(key, "read memory outside its %d entries (byte offset %d of the page)", int(N), int(off)); continue; }
            check(key, got, want, N, "memory=" + strv(mem, N));
        }
    }
};
template <class V, class T> inline void st(const V &v, T *o) { for (size_t i = 0; i < V::Size; ++i) o[i] = v[i]; }
template <class V, class U> void loads(size_t A)
{
    using T = typename V::EntryType;
    LoadLoop<T, U> x(vn<V>(), V::Size, A);
#define LD(nm, al, ...) x.run(nm, [](const U *p, T *o) { V v; v.load(p __VA_ARGS__); st(v, o); }, al);
#define CT(nm, al, ...) x.run(nm, [](const U *p, T *o) { V v(p __VA_ARGS__); st(v, o); }, al);
#define CM ,
    LD("load()", false) LD("load(Aligned)", true, CM Vc::Aligned) LD("load(Unaligned)", false, CM Vc::Unaligned)
    LD("load(Streaming)", true, CM Vc::Streaming) LD("load(Streaming|Unaligned)", false, CM Vc::Streaming | Vc::Unaligned)
    LD("load(Aligned|Prefetch)", true, CM Vc::Aligned | Vc::PrefetchDefault)
    LD("load(Unaligned|Prefetch)", false, CM Vc::Unaligned | Vc::PrefetchDefault)
    CT("ctor", false) CT("ctor(Aligned)", true, CM Vc::Aligned) CT("ctor(Unaligned)", false, CM Vc::Unaligned) CT("ctor(Streaming)", true, CM Vc::Streaming)
}
// the converting loads the library documents (see also its own load tests)
template <class V, class T> struct Cvt { static void go(size_t) {} };
template <class V> struct Cvt<V, double> { static void go(size_t a) { loads<V, float>(a); loads<V, int>(a); loads<V, unsigned>(a); loads<V, short>(a); loads<V, unsigned short>(a); } };
template <> struct Cvt<Vc::Vector<double, Vc::VectorAbi::Avx>, double> { template <class V = Vc::Vector<double, Vc::VectorAbi::Avx>> static void go(size_t a) { loads<V, float>(a); loads<V, int>(a); loads<V, unsigned>(a); loads<V, short>(a); loads<V, unsigned short>(a); loads<V, signed char>(a); loads<V, unsigned char>(a); } };
template <class V> struct Cvt<V, float> { static void go(size_t a) { loads<V, double>(a); loads<V, int>(a); loads<V, unsigned>(a); loads<V, short>(a); loads<V, unsigned short>(a); loads<V, signed char>(a); loads<V, unsigned char>(a); } };
template <class V> struct Cvt<V, int> { static void go(size_t a) { loads<V, unsigned>(a); loads<V, short>(a); loads<V, unsigned short>(a); loads<V, signed char>(a); loads<V, unsigned char>(a); } };
template <class V> struct Cvt<V, unsigned> { static void go(size_t a) { loads<V, unsigned short>(a); loads<V, unsigned char>(a); } };
template <class V> struct Cvt<V, short> { static void go(size_t a) { loads<V, signed char>(a); loads<V, unsigned char>(a); loads<V, unsigned short>(a); } };
template <class V> struct Cvt<V, unsigned short> { static void go(size_t a) { loads<V, unsigned char>(a); } };

struct Do {
    template <class V> void operator()(Tag<V>)
    {
        using T = typename V::EntryType;
        using M = typename V::MaskType;
        const size_t A = V::MemoryAlignment;
        loads<V, T>(A);
        Cvt<V, T>::go(64);
        StoreLoop<T> x(vn<V>(), V::Size, A);
#define S(nm, al, ...) x.run(nm, [](const T *l, const bool *, T *p) { const V v = fromLanes<V>(l); v.store(p __VA_ARGS__); }, false, al);
#define SM(nm, al, ...) x.run(nm, [](const T *l, const bool *b, T *p) { const V v = fromLanes<V>(l); const M m = maskFromBits<M>(b); v.store(p, m __VA_ARGS__); }, true, al);
        S("store()", false) S("store(Aligned)", true, CM Vc::Aligned) S("store(Unaligned)", false, CM Vc::Unaligned) S("store(Streaming)", true, CM Vc::Streaming)
        S("store(Streaming|Unaligned)", false, CM Vc::Streaming | Vc::Unaligned) S("store(Aligned|Prefetch)", true, CM Vc::Aligned | Vc::PrefetchDefault)
        S("store(Unaligned|Prefetch)", false, CM Vc::Unaligned | Vc::PrefetchDefault)
        SM("masked store()", false) SM("masked store(Aligned)", true, CM Vc::Aligned) SM("masked store(Unaligned)", false, CM Vc::Unaligned)
        SM("masked store(Streaming)", true, CM Vc::Streaming) SM("masked store(Streaming|Unaligned)", false, CM Vc::Streaming | Vc::Unaligned)
        x.race("masked store(Aligned) concurrent", [](const T *l, const bool *b, T *p) { const V v = fromLanes<V>(l); const M m = maskFromBits<M>(b); for (int i = 0; i < 8; ++i) v.store(p, m, Vc::Aligned); }, nullptr);
        x.race("masked store(Unaligned) concurrent", [](const T *l, const bool *b, T *p) { const V v = fromLanes<V>(l); const M m = maskFromBits<M>(b); for (int i = 0; i < 8; ++i) v.store(p, m, Vc::Unaligned); }, nullptr);
    }
};
namespace vt {
// prefetches take any address, change nothing and read nothing that is not there
__attribute__((noinline)) void prefetches()
{
    const std::string key = std::string("prefetch/") + VT_IMPL;
    OpCount oc(key);
    Guarded g(1);
    Rng r("prefetch");
    g.fill(0x3c);
    for (long i = 0; i < cases(200); ++i) {
        const uint64_t any = mix(uint64_t(i) + seed());
        const char *p = r.below(3) == 0 ? (const char *)uintptr_t(any) : g.begin() + long(r.below(uint32_t(3 * g.size()))) - long(g.size());
        ev(mix(uint64_t(i)));
        Vc::prefetchForOneRead(p); Vc::prefetchForModify(p); Vc::prefetchClose(p); Vc::prefetchMid(p); Vc::prefetchFar(p);
    }
    for (size_t i = 0; i < g.size(); ++i) if (g.begin()[i] != 0x3c) { fail(key, "byte %d changed", int(i)); break; }
}
void run()
{
    prefetches();
#ifdef VT_ARRAYS
    Do d; VT_ARRAYS
#else
    forNative(Do());
#endif
}
}
