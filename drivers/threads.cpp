// C22: operations of several threads on distinct objects, on shared constant data and on disjoint parts of one array do
// not influence each other (ThreadSanitizer builds, results compared with those of the same operations run alone).
#include <Vc/Vc>
#include <Vc/IO>
#include <Vc/support.h>
#include "kit.h"
#include <atomic>
#include <sched.h>
#include <sstream>
#include <thread>
using namespace vt;

#ifndef VT_THREADS
#define VT_THREADS 6
#endif
constexpr int NT = VT_THREADS;
constexpr int MaxOps = 96;

// which operations were in progress in another thread when an operation started
std::atomic<int> now[NT];
std::atomic<uint8_t> pairSeen[MaxOps][MaxOps];
struct Spin {     // all threads leave together
    std::atomic<int> n{0}; std::atomic<int> gen{0};
    void wait()
    {
        const int g = gen.load();
        if (n.fetch_add(1) + 1 == NT) { n.store(0); gen.fetch_add(1); }
        else while (gen.load() == g) sched_yield();
    }
};

template <class V> struct Ops {
    using T = typename V::EntryType;
    using M = typename V::MaskType;
    using I = typename V::IndexType;
    static constexpr size_t N = V::Size;
    // constant data shared by all threads
    struct Shared { std::vector<T> data; Vc::Memory<V> mem; V v; M m; Shared() : data(512), mem(300), v(Vc::Zero), m(false) {} };
    static Shared &sh() { static Shared s; return s; }
    static uint64_t hv(const V &v) { T t[N]; toLanes(v, t); for (auto &x : t) { if (x != x) x = T(7); if (x == T(0)) x = T(0); } return hashBytes(t, sizeof t, 5); }
    static uint64_t hm(const M &m) { uint64_t h = 1; for (size_t i = 0; i < N; ++i) h = h * 2 + m[i]; return mix(h); }
    using Fn = uint64_t (*)(Rng &);
    struct Op { const char *name; Fn f; };
    static V a(Rng &r) { return Lanes<V>::gen(r, moderate<T>).v(); }
    static V small(Rng &r) { return Lanes<V>::gen(r, [](Rng &q) { return T(q.range(1, 9)); }).v(); }
    static M msk(Rng &r) { return maskFromBits<M>(Bits<N>::gen(r).a); }
    static I idx(Rng &r, unsigned n) { I i(Vc::Zero); for (size_t k = 0; k < N; ++k) i[k] = typename I::EntryType(r.below(n)); return i; }

    template <class F> static void fp(std::vector<Op> &o, F, std::true_type)
    {
        o.push_back({"sqrt", [](Rng &r) { return hv(Vc::sqrt(Vc::abs(a(r)))); }});
        o.push_back({"exp", [](Rng &r) { return hv(Vc::exp(a(r))); }});
        o.push_back({"log", [](Rng &r) { return hv(Vc::log(Vc::abs(a(r)))) ^ hv(Vc::log2(Vc::abs(a(r)))) ^ hv(Vc::log10(Vc::abs(a(r)))); }});
        o.push_back({"sin cos", [](Rng &r) { V s, c; const V x = a(r); Vc::sincos(x, &s, &c); return hv(s) ^ hv(c) ^ hv(Vc::sin(x)) ^ hv(Vc::cos(x)); }});
        o.push_back({"asin atan", [](Rng &r) { return hv(Vc::asin(a(r))) ^ hv(Vc::atan(a(r))) ^ hv(Vc::atan2(a(r), a(r))); }});
        o.push_back({"frexp ldexp", [](Rng &r) { typename V::IndexType dummy(Vc::Zero); (void)dummy; Vc::SimdArray<int, N> e; const V m = Vc::frexp(a(r), &e); return hv(m) ^ hv(Vc::ldexp(m, e)); }});
        o.push_back({"floor ceil round", [](Rng &r) { return hv(Vc::floor(a(r))) ^ hv(Vc::ceil(a(r))) ^ hv(Vc::round(a(r))) ^ hv(Vc::trunc(a(r))); }});
        o.push_back({"fma reciprocal", [](Rng &r) { return hv(Vc::fma(a(r), a(r), a(r))) ^ hv(Vc::reciprocal(a(r))); }});
    }
    template <class F> static void fp(std::vector<Op> &, F, std::false_type) {}
    static std::vector<Op> all()
    {
        std::vector<Op> o;
        o.push_back({"arithmetic", [](Rng &r) { V x = small(r), y = small(r); V z = x + y; z -= y * x; z = z / y; ++z; return hv(z) ^ hv(-z); }});
        o.push_back({"shared constant", [](Rng &r) { return hv(sh().v + a(r)) ^ hm(sh().m && msk(r)); }});
        o.push_back({"compare", [](Rng &r) { return hm(a(r) < a(r)) ^ hm(a(r) == sh().v) ^ uint64_t((a(r) >= a(r)).count()); }});
        o.push_back({"write masked", [](Rng &r) { V x = a(r); Vc::where(msk(r)) | x += T(1); x(msk(r)) = T(3); return hv(x); }});
        o.push_back({"iif blend", [](Rng &r) { const V x = a(r), y = a(r); return hv(Vc::iif(msk(r), x, y)); }});
        o.push_back({"load store", [](Rng &r) { const unsigned k = r.below(400); V x(&sh().data[k], Vc::Unaligned); T t[N]; x.store(t, Vc::Unaligned); return hashBytes(t, sizeof t, 1); }});
        o.push_back({"masked store", [](Rng &r) { T t[2 * N] = {}; a(r).store(t + 1, msk(r), Vc::Unaligned); return hashBytes(t, sizeof t, 1); }});
        o.push_back({"gather", [](Rng &r) { const I i = idx(r, 500); V x(sh().data.data(), i); x.gather(sh().data.data(), i, msk(r)); return hv(x); }});
        o.push_back({"scatter", [](Rng &r) { T t[64 + N] = {}; I i = idx(r, 64 / N); for (size_t k = 0; k < N; ++k) i[k] = typename I::EntryType(i[k] * N + k); a(r).scatter(t, i); a(r).scatter(t, i, msk(r)); return hashBytes(t, sizeof t, 1); }});
        o.push_back({"sorted", [](Rng &r) { return hv(a(r).sorted()); }});
        o.push_back({"permute", [](Rng &r) { const V x = a(r); return hv(x.shifted(r.range(-int(N), int(N)))) ^ hv(x.rotated(r.range(-int(N), int(N)))) ^ hv(x.reversed()); }});
        o.push_back({"reduce", [](Rng &r) { const V x = small(r); T t[4] = {x.sum(), x.min(), x.max(), x.sum(msk(r))}; return hashBytes(t, sizeof t, 1) ^ hv(x.partialSum()); }});
        o.push_back({"cast", [](Rng &r) { const V x = small(r); const auto f = Vc::simd_cast<Vc::SimdArray<float, N>>(x); const auto s = Vc::simd_cast<Vc::SimdArray<short, N>>(x); uint64_t h = 0; for (size_t k = 0; k < N; ++k) h = mix(h + uint64_t(f[k]) * 31 + uint64_t(s[k])); return h; }});
        o.push_back({"SimdArray", [](Rng &r) { using A = Vc::SimdArray<T, 13>; const A x = Lanes<A>::gen(r, moderate<T>).v(); A y = x + x; Vc::where(x < T(3)) | y = T(1); T t[13]; toLanes(y, t); return hashBytes(t, sizeof t, 1) ^ uint64_t(y.min() < y.max()); }});
        o.push_back({"Memory", [](Rng &r) { Vc::Memory<V> m(1 + r.below(100)); m.setZero(); for (size_t k = 0; k < m.entriesCount(); ++k) m[k] = T(k); for (size_t k = 0; k < m.vectorsCount(); ++k) m.vector(k) += V(T(2)); T s = T(0); for (size_t k = 0; k < m.entriesCount(); ++k) s += m[k]; return hashBytes(&s, sizeof s, 1); }});
        o.push_back({"shared Memory", [](Rng &r) { const auto &m = sh().mem; const V x = m.vector(r.below(unsigned(m.vectorsCount()))); return hv(x) ^ hv(V(m.vector(0))) ^ uint64_t(m.entriesCount()); }});
        o.push_back({"malloc", [](Rng &r) { const size_t n = 1 + r.below(300); T *p = r.coin() ? Vc::malloc<T, Vc::AlignOnVector>(n) : Vc::malloc<T, Vc::AlignOnCacheline>(n); for (size_t k = 0; k < n; ++k) p[k] = T(k); const uint64_t h = hashBytes(p, n * sizeof(T), 1); Vc::free(p); return h; }});
        o.push_back({"allocator", [](Rng &r) { std::vector<V, Vc::Allocator<V>> x; for (int k = r.range(1, 20); k; --k) x.push_back(a(r)); return hv(x.front()) ^ hv(x.back()); }});
        o.push_back({"simd_for_each", [](Rng &r) { std::vector<T> d(r.below(80)); for (auto &x : d) x = T(r.range(0, 50)); Vc::simd_for_each(d.begin(), d.end(), [](auto &x) { x += 1; }); return d.empty() ? 0 : hashBytes(d.data(), d.size() * sizeof(T), 1); }});
        o.push_back({"makeContainer", [](Rng &r) { const T x = T(r.below(50)); auto c = Vc::makeContainer<std::vector<V, Vc::Allocator<V>>>({x, T(1), x, T(3), x}); return hv(c[0]); }});
        o.push_back({"print", [](Rng &r) { std::ostringstream s; s << a(r) << msk(r); return hashStr(s.str().c_str()); }});
        o.push_back({"generate apply", [](Rng &r) { const int k = r.range(0, 9); const V x = V::generate([k](int i) { return T(i + k); }); return hv(x.apply([](T y) { return T(y + T(1)); })); }});
        o.push_back({"constants", [](Rng &) { return hv(V(Vc::One)) ^ hv(V(Vc::IndexesFromZero)) ^ hm(M(true)) ^ hv(V(Vc::Zero)); }});
        o.push_back({"support", [](Rng &) { return uint64_t(Vc::bestImplementationSupported()) * 31 + Vc::extraInstructionsSupported() + Vc::CpuId::L1Data(); }});
        fp(o, 0, std::is_floating_point<T>());
        return o;
    }

    // ---- distinct objects: same results as alone
    static void distinct()
    {
        Rng r(("threads" + vn<V>()).c_str());
        for (auto &x : sh().data) x = moderate<T>(r);
        for (size_t i = 0; i < sh().mem.vectorsCount(); ++i) sh().mem.vector(i) = a(r);
        sh().v = a(r); sh().m = msk(r);
        const auto ops = all();
        const std::string k = key<V>("distinct objects");
        OpCount oc(k);
        const long rounds = cases(6);
        const int per = 60;
        for (long round = 0; round < rounds; ++round) {
            const uint64_t base = r.u64();
            const int style = int(r.below(3));       // 0 all threads any operation, 1 all the same one, 2 neighbours
            std::vector<std::vector<uint64_t>> res(NT, std::vector<uint64_t>(per));
            auto which = [&](int t, int i) { Rng q(mix(base + (style == 1 ? 0 : uint64_t(t) * 7919) + uint64_t(i))); const int n = int(ops.size()); int w = int(q.below(unsigned(n))); return style == 2 ? (int(mix(base + uint64_t(i)) % unsigned(n)) + t % 2) % n : w; };
            auto run1 = [&](int t, int i) { Rng q(mix(base * 31 + uint64_t(t) * 131071 + uint64_t(i))); return ops[size_t(which(t, i))].f(q); };
            Spin sp;
            std::vector<std::thread> th;
            for (int t = 0; t < NT; ++t)
                th.emplace_back([&, t] {
                    Rng y(base + uint64_t(t));
                    sp.wait();
                    for (int i = 0; i < per; ++i) {
                        const int w = which(t, i);
                        for (int u = 0; u < NT; ++u) if (u != t) { const int o = now[u].load(std::memory_order_relaxed); if (o) pairSeen[w][o - 1].store(1, std::memory_order_relaxed); }
                        now[t].store(w + 1, std::memory_order_relaxed);
                        for (int rep = 0; rep < 3; ++rep) res[size_t(t)][size_t(i)] = run1(t, i);
                        now[t].store(0, std::memory_order_relaxed);
                        const unsigned d = y.below(24);
                        if (d == 0) sched_yield(); else if (d == 1) usleep(1 + y.below(60));
                    }
                });
            for (auto &x : th) x.join();
            for (int t = 0; t < NT; ++t)
                for (int i = 0; i < per; ++i) {
                    const uint64_t want = run1(t, i);
                    ev(mix(base + uint64_t(t * 1000 + i)));
                    if (res[size_t(t)][size_t(i)] != want) fail(key<V>(std::string("distinct objects/") + ops[size_t(which(t, i))].name), "thread %d operation %d gives another result while %d other threads work than alone", t, i, NT - 1);
                }
        }
        int seen = 0;
        for (auto &x : pairSeen) for (auto &y : x) seen += y.load();
        sample("%s: %ld rounds, %d threads, %d different ordered pairs of %d operations were in progress at the same time", k.c_str(), rounds, NT, seen, int(ops.size()));
        for (auto &x : pairSeen) for (auto &y : x) y.store(0);
    }
    // ---- disjoint parts of one array: every element ends with the value its owner gave it
    template <class Work> static void parts(const std::string &nm, size_t total, Work &&work)
    {
        const std::string k = key<V>(nm);
        OpCount oc(k);
        Rng r(k.c_str());
        for (long round = 0, n = cases(4); round < n; ++round) {
            std::vector<T, Vc::Allocator<T>> d(total);
            std::vector<int> owner(total, -1);
            // pieces of random length, dealt to the threads
            std::vector<std::pair<size_t, size_t>> piece[NT];
            const size_t lead = r.below(5);
            for (size_t p = lead; p < total;) {
                const size_t len = std::min<size_t>(total - p, 1 + r.below(uint32_t(3 * N + 3)));
                const int t = int(r.below(NT));
                piece[t].push_back({p, len});
                for (size_t i = p; i < p + len; ++i) owner[i] = t;
                p += len;
            }
            for (auto &x : d) x = T(100);
            const int iters = 40;
            Spin sp;
            std::vector<std::thread> th;
            for (int t = 0; t < NT; ++t)
                th.emplace_back([&, t] { sp.wait(); for (int it = 0; it < iters; ++it) { for (auto &p : piece[t]) work(d.data() + p.first, p.second, t); if (it % 8 == t % 8) sched_yield(); } });
            for (auto &x : th) x.join();
            bool bad = false;
            for (size_t i = 0; i < total && !bad; ++i) {
                const T want = owner[i] < 0 ? T(100) : T(100 + iters);
                if (d[i] != want) { fail(k, "element %d (owned by thread %d): %s instead of %s after %d increments", int(i), owner[i], str(d[i]).c_str(), str(want).c_str(), iters); bad = true; }
            }
            ev(mix(r.u64()));
        }
    }
    struct S3 { T a, b, c; };
    static void disjoint()
    {
        parts("disjoint parts/vector load+store", 700, [](T *p, size_t n, int) {
            size_t i = 0;
            for (; i + N <= n; i += N) { V v(p + i, Vc::Unaligned); v += V(T(1)); v.store(p + i, Vc::Unaligned); }
            for (; i < n; ++i) p[i] = T(p[i] + 1);
        });
        parts("disjoint parts/masked store of the rest", 700, [](T *p, size_t n, int) {
            size_t i = 0;
            for (; i + N <= n; i += N) { V v(p + i, Vc::Unaligned); ++v; v.store(p + i, Vc::Unaligned); }
            if (i < n) { bool b[N]; T t[N] = {}; for (size_t k = 0; k < N; ++k) { b[k] = k < n - i; if (b[k]) t[k] = p[i + k]; } V v(t, Vc::Unaligned); v += V(T(1)); v.store(p + i, maskFromBits<M>(b), Vc::Unaligned); }
        });
        parts("disjoint parts/gather+scatter", 700, [](T *p, size_t n, int t) {
            size_t i = 0;
            for (; i + N <= n; i += N) { I x(Vc::IndexesFromZero); x += int(i); if (t & 1) x = x.reversed(); V v(p, x); v += V(T(1)); v.scatter(p, x); }
            if (i < n) { bool b[N]; I x(Vc::Zero); for (size_t k = 0; k < N; ++k) { b[k] = k < n - i; x[k] = typename I::EntryType(b[k] ? i + k : i); } const M m = maskFromBits<M>(b); V v(Vc::Zero); v.gather(p, x, m); v += V(T(1)); v.scatter(p, x, m); }
        });
        parts("disjoint parts/simd_for_each", 900, [](T *p, size_t n, int t) {
            if (t & 1) Vc::simd_for_each(p, p + n, [](auto &x) { x += 1; });
            else Vc::simd_for_each_n(p, n, [](auto &x) { x += 1; });
        });
        parts("disjoint parts/interleaved", 900, [](T *p, size_t n, int) {
            size_t i = 0;
            const size_t step = 3 * N;
            for (; i + step <= n; i += step) { Vc::InterleavedMemoryWrapper<S3, V> w(reinterpret_cast<S3 *>(p + i)); V x, y, z; const I ind(Vc::IndexesFromZero); Vc::tie(x, y, z) = w[ind]; ++x; ++y; ++z; w[ind] = Vc::tie(x, y, z); }
            for (; i < n; ++i) p[i] = T(p[i] + 1);
        });
        parts("disjoint parts/SimdArray", 700, [](T *p, size_t n, int) {
            using A = Vc::SimdArray<T, 5>;
            size_t i = 0;
            for (; i + 5 <= n; i += 5) { A v(p + i, Vc::Unaligned); v += T(1); v.store(p + i, Vc::Unaligned); }
            for (; i < n; ++i) p[i] = T(p[i] + 1);
        });
    }
    // disjoint vectors of one Memory object
    static void memory()
    {
        const std::string k = key<V>("disjoint vectors of a Memory");
        OpCount oc(k);
        Rng r(k.c_str());
        for (long round = 0, n = cases(3); round < n; ++round) {
            Vc::Memory<V> m(16 * N * NT + r.below(N));
            m.setZero();
            const size_t total = m.vectorsCount(), ent = m.entriesCount();
            Spin sp;
            std::vector<std::thread> th;
            for (int t = 0; t < NT; ++t)
                th.emplace_back([&, t] { sp.wait(); for (int it = 0; it < 30; ++it) for (size_t i = size_t(t); i < total; i += NT) { if (it & 1) m.vector(i) += V(T(1)); else for (size_t e = i * N; e < std::min(ent, (i + 1) * N); ++e) m[e] = T(m[e] + 1); } });
            for (auto &x : th) x.join();
            for (size_t i = 0; i < ent; ++i) if (m[i] != T(30)) { fail(k, "element %d is %s instead of 30", int(i), str(T(m[i])).c_str()); break; }
            ev(mix(r.u64()));
        }
    }
};
struct Do {
    template <class V> void operator()(Tag<V>) { Ops<V>::distinct(); Ops<V>::disjoint(); Ops<V>::memory(); }
};
namespace vt { void run() { forNative(Do()); } }
