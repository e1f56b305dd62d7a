// C13: access to arrays of structures through vectors (InterleavedMemoryWrapper, deinterleave, transpose)
#include "vtvc.h"
using namespace vt;
template <class T, size_t N> struct St { T d[N]; };

enum Kind { Gather, Scatter };
template <class T> struct Mem {
    using Kern = void (*)(T *mem, const int *idx, T *lanes);   // lanes[k * N + j]: field k of the struct addressed by lane j
    std::string vname; size_t N; Rng r; Guarded g{1}; Far f;
    Mem(const std::string &v, size_t n) : vname(v), N(n), r(("interleave" + v).c_str()) {}
    // SS: fields per struct, K: fields accessed, succ: lane j addresses struct idx[0] + j
    __attribute__((noinline)) void run(const char *name, Kern kern, Kind kind, size_t SS, size_t K, bool succ, bool neg, long base)
    {
        const std::string key = std::string(name) + "(" + std::to_string(K) + " of " + std::to_string(SS) + ")/" + vname + "/" + VT_IMPL;
        OpCount oc(key);
        const size_t maxObj = std::min<size_t>(g.size() / (SS * sizeof(T)), 300);
        std::vector<char> ref(g.size());
        T lanes[8 * 64], want[8 * 64];
        for (long it = 0, n = cases(base); it < n; ++it) {
            const bool distinct = kind == Scatter;
            size_t cnt = r.below(4) ? N + r.below(uint32_t(maxObj - N)) : distinct || succ ? N : 1 + r.below(uint32_t(N));
            const bool atEnd = r.coin();
            const size_t bytes = cnt * SS * sizeof(T);
            T *mem = reinterpret_cast<T *>(g.begin() + (atEnd ? g.size() - bytes : 0));
            g.fill(0xa5);
            for (size_t i = 0; i < cnt * SS; ++i) mem[i] = any<T>(r);
            memcpy(ref.data(), g.begin(), g.size());
            int idx[64], perm[300];
            #ifdef VT_NO_NEG   // (the scalar vector shifts its operand left, which C++14 does not define for negative ones)
            neg = false;
#endif
            const int zero = neg && r.coin() ? int(r.below(uint32_t(cnt))) : 0;
            const unsigned ik = r.below(6), c = r.below(uint32_t(cnt));
            for (size_t j = 0; j < cnt; ++j) perm[j] = int(j);
            for (size_t j = 0; j < N && j < cnt; ++j) std::swap(perm[j], perm[j + r.below(uint32_t(cnt - j))]);
            const int first = int(ik < 2 ? cnt - N : r.below(uint32_t(cnt - std::min(N, cnt) + 1)));
            for (size_t j = 0; j < N; ++j) {
                if (succ) idx[j] = first + int(j);
                else if (distinct || ik < 3) idx[j] = perm[j % cnt];
                else idx[j] = ik == 3 ? int(cnt) - 1 : ik == 4 ? int((j + c) % cnt) : int(r.below(uint32_t(cnt)));
                idx[j] -= zero;
            }
            T *b = mem + size_t(zero) * SS;
            for (size_t i = 0; i < K * N; ++i) lanes[i] = any<T>(r);
            if (kind == Gather) for (size_t k = 0; k < K; ++k) for (size_t j = 0; j < N; ++j) want[k * N + j] = b[long(idx[j]) * long(SS) + long(k)];
            else {
                T *rb = reinterpret_cast<T *>(ref.data() + (reinterpret_cast<char *>(b) - g.begin()));
                for (size_t k = 0; k < K; ++k) for (size_t j = 0; j < N; ++j) rb[long(idx[j]) * long(SS) + long(k)] = lanes[k * N + j];
            }
            ev(hashBytes(lanes, K * N * sizeof(T), hashBytes(idx, N * sizeof(int), hashStr(key.c_str()) + cnt)));
            const std::string ctx = std::to_string(cnt) + " structs " + (atEnd ? "ending" : "starting") + " at an inaccessible page, indexes " + strv(idx, N);
            if (!survives([&] { kern(b, idx, lanes); })) {
                const long off = static_cast<char *>(faultAddr()) - reinterpret_cast<char *>(mem);
                fail(key + (kind == Gather ? "[out-of-bounds read]" : "[out-of-bounds access]"), "accessed byte %ld of an array of %ld bytes; %s", off, long(bytes), ctx.c_str());
                continue;
            }
            if (kind == Gather) check(key, lanes, want, K * N, ctx);
            if (memcmp(ref.data(), g.begin(), g.size()) != 0) {
                size_t i = 0; while (ref[i] == g.begin()[i]) ++i;
                const long at = long(i) - (reinterpret_cast<char *>(mem) - g.begin());
                fail(key, "byte %ld of the array of %ld bytes is %02x, expected %02x; %s", at, long(bytes), (unsigned char)g.begin()[i], (unsigned char)ref[i], ctx.c_str());
            }
            if (it == 5 && wantSample() && r.below(30) == 0) sample("%s %s", key.c_str(), ctx.c_str());
        }
        farAway(key + "[far]", kern, kind, SS, K, succ, neg, base / 10 + 1);
    }
    // structs all over the range of the index type
    __attribute__((noinline)) void farAway(const std::string &key, Kern kern, Kind kind, size_t SS, size_t K, bool succ, bool neg, long base)
    {
        if (!f.p) { fail(key, "cannot reserve address space"); return; }
#ifdef VT_NO_NEG
        neg = false;
#endif
        const int64_t size = int64_t(SS * sizeof(T)), room = (int64_t(Far::Size) - 2 * int64_t(Far::Page)) / size - 2 * int64_t(N);
        const int64_t hi = std::min<int64_t>(succ ? 0x7fffffff - 64 : 0x7fffffff / int64_t(SS) - 1, neg ? room / 2 : room), lo = neg ? -hi : 0;
        T *const b = reinterpret_cast<T *>(f.p + Far::Page - lo * size);
        T lanes[8 * 64], want[8 * 64], obj[64][16];
        for (long it = 0, n = cases(base); it < n; ++it) {
            int idx[64];
            const unsigned ik = r.below(5);
            for (size_t j = 0; j < N; ++j)
                for (bool dup = true; dup;) {
                    if (succ && j) { idx[j] = idx[0] + int(j); break; }
                    const int64_t q = (int64_t(1) << r.below(32)) + int64_t(r.below(5)) - 2;
                    int64_t x = ik == 0 ? hi - int64_t(r.below(70)) : ik == 1 ? lo + int64_t(r.below(70)) : ik == 2 ? (neg && r.coin() ? -q : q) : lo + int64_t(r.u64() % uint64_t(hi - lo + 1));
                    if (x > hi) x = hi - int64_t(r.below(70));
                    if (x < lo) x = lo + int64_t(r.below(70));
                    idx[j] = int(x);
                    dup = false;
                    for (size_t o = 0; o < j; ++o) dup |= idx[o] == idx[j];
                }
            auto at = [&](size_t j) { return b + int64_t(idx[j]) * int64_t(SS); };
            for (size_t j = 0; j < N; ++j) if (!f.open(reinterpret_cast<char *>(at(j)), size_t(size))) { fail(key, "cannot map a page"); return; }
            for (size_t j = 0; j < N; ++j) for (size_t k = 0; k < SS; ++k) obj[j][k] = at(j)[k] = any<T>(r);
            for (size_t i = 0; i < K * N; ++i) lanes[i] = any<T>(r);
            for (size_t j = 0; j < N; ++j) for (size_t k = 0; k < K; ++k) { if (kind == Gather) want[k * N + j] = obj[j][k]; else obj[j][k] = lanes[k * N + j]; }
            ev(hashBytes(idx, N * sizeof(int), hashStr(key.c_str())));
            const std::string ctx = "indexes " + strv(idx, N);
            if (!survives([&] { kern(b, idx, lanes); })) fail(key, "accessed memory outside the addressed structs; %s", ctx.c_str());
            else {
                if (kind == Gather) check(key, lanes, want, K * N, ctx);
                for (size_t j = 0; j < N; ++j) check(key, at(j), obj[j], SS, "struct of lane " + std::to_string(j) + "; " + ctx);
            }
            for (size_t j = 0; j < N; ++j) f.close(reinterpret_cast<char *>(at(j)), size_t(size));
        }
    }
};

template <class V, size_t SS, size_t K> struct Fields {
    using T = typename V::EntryType;
    using I = typename V::IndexType;
    using S = St<T, SS>;
    using Seq = Vc::make_index_sequence<K>;
    static I ix(const int *i) { return I([&](int j) { return i[j]; }); }
    template <class A> static void out(const A &a, T *l) { for (size_t k = 0; k < K; ++k) toLanes(a[k], l + k * V::Size); }
    template <class A> static void in(A &a, const T *l) { for (size_t k = 0; k < K; ++k) a[k] = fromLanes<V>(l + k * V::Size); }
    template <class W, class X, size_t... J> static void tieGet(W &&w, const X &i, T *l, Vc::index_sequence<J...>) { std::array<V, K> a; Vc::tie(a[J]...) = w[i]; out(a, l); }
    template <class W, class X, size_t... J> static void tieGather(W &&w, const X &i, T *l, Vc::index_sequence<J...>) { std::array<V, K> a; Vc::tie(a[J]...) = w.gather(i); out(a, l); }
    template <class W, class X, size_t... J> static void tieSet(W &&w, const X &i, const T *l, Vc::index_sequence<J...>) { std::array<V, K> a; in(a, l); w[i] = Vc::tie(a[J]...); }
    template <class W, class X, size_t... J> static void tieSetC(W &&w, const X &i, const T *l, Vc::index_sequence<J...>) { std::array<V, K> a; in(a, l); const std::array<V, K> &b = a; w[i] = Vc::tie(b[J]...); }
    static void run(Mem<T> &m, long base)
    {
        using W = Vc::InterleavedMemoryWrapper<S, V>;
        using CW = Vc::InterleavedMemoryWrapper<const S, V>;
        m.run("tie = wrapper[indexes]", [](T *p, const int *i, T *l) { W w(reinterpret_cast<S *>(p)); tieGet(w, ix(i), l, Seq()); }, Gather, SS, K, false, true, base);
        m.run("tie = const wrapper[indexes]", [](T *p, const int *i, T *l) { const W w(reinterpret_cast<S *>(p)); tieGet(w, ix(i), l, Seq()); }, Gather, SS, K, false, true, base / 2);
        m.run("array = wrapper<const S>[indexes]", [](T *p, const int *i, T *l) { const CW w(reinterpret_cast<const S *>(p)); std::array<V, K> a = w[ix(i)]; out(a, l); }, Gather, SS, K, false, false, base / 2);
        m.run("tie = wrapper.gather(indexes)", [](T *p, const int *i, T *l) { const auto w = Vc::make_interleave_wrapper<V>(reinterpret_cast<S *>(p)); tieGather(w, ix(i), l, Seq()); }, Gather, SS, K, false, false, base / 2);
        m.run("tie = wrapper[first]", [](T *p, const int *i, T *l) { W w(reinterpret_cast<S *>(p)); tieGet(w, size_t(i[0]), l, Seq()); }, Gather, SS, K, true, false, base);
        m.run("array = const wrapper[first]", [](T *p, const int *i, T *l) { const W w(reinterpret_cast<S *>(p)); std::array<V, K> a = w[size_t(i[0])]; out(a, l); }, Gather, SS, K, true, false, base / 2);
        m.run("wrapper[indexes] = tie", [](T *p, const int *i, T *l) { W w(reinterpret_cast<S *>(p)); tieSet(w, ix(i), l, Seq()); }, Scatter, SS, K, false, true, base);
        m.run("wrapper[indexes] = const tie", [](T *p, const int *i, T *l) { W w(reinterpret_cast<S *>(p)); tieSetC(w, ix(i), l, Seq()); }, Scatter, SS, K, false, false, base / 2);
        m.run("wrapper[first] = tie", [](T *p, const int *i, T *l) { W w(reinterpret_cast<S *>(p)); tieSet(w, size_t(i[0]), l, Seq()); }, Scatter, SS, K, true, false, base);
    }
};
template <class V, size_t SS, size_t K> struct Ks { template <class M> static void run(M &m, long base) { Ks<V, SS, K - 1>::run(m, base); Fields<V, SS, K>::run(m, base); } };
template <class V, size_t SS> struct Ks<V, SS, 1> { template <class M> static void run(M &, long) {} };

// Vc::deinterleave(V *, V *, const M *, flags)
template <class V, class M> struct Pairs {
    using T = typename V::EntryType;
    static void run(Rng &r, Guarded &g)
    {
        one("deinterleave(unaligned)", [](const M *p, V &a, V &b) { Vc::deinterleave(&a, &b, p, Vc::Unaligned); }, false, r, g);
        one("deinterleave(aligned)", [](const M *p, V &a, V &b) { Vc::deinterleave(&a, &b, p, Vc::Aligned); }, true, r, g);
        one("deinterleave()", [](const M *p, V &a, V &b) { Vc::deinterleave(&a, &b, p); }, true, r, g);
        one("deinterleave(streaming)", [](const M *p, V &a, V &b) { Vc::deinterleave(&a, &b, p, Vc::Streaming); }, true, r, g);
    }
    __attribute__((noinline)) static void one(const char *name, void (*k)(const M *, V &, V &), bool aligned, Rng &r, Guarded &g)
    {
        const std::string key_ = key<V>(std::string(name) + " " + tn<M>());
        OpCount oc(key_);
        const size_t bytes = 2 * V::Size * sizeof(M);
        for (long it = 0, n = cases(1500); it < n; ++it) {
            M data[2 * V::Size];
            for (auto &x : data) x = any<M>(r);
            char *p = r.coin() ? g.end() - bytes : g.begin();
            if (!aligned) p = r.coin() ? p : g.begin() + sizeof(M) * r.below(100);
            memcpy(p, data, bytes);
            Lanes<V> a, b, wa, wb;
            for (size_t j = 0; j < V::Size; ++j) wa.a[j] = T(data[2 * j]), wb.a[j] = T(data[2 * j + 1]);
            ev(hashBytes(data, bytes, hashStr(key_.c_str())));
            V va(T(1)), vb(T(2));
            const M *q = reinterpret_cast<const M *>(p);
            if (!survives([&] { k(q, va, vb); })) { fail(key_, "reads outside of the %ld bytes at the end of a page", long(bytes)); continue; }
            a = Lanes<V>::of(va); b = Lanes<V>::of(vb);
            check(key_, a.a, wa.a, V::Size, "first of " + strv(data, 2 * V::Size));
            check(key_, b.a, wb.a, V::Size, "second of " + strv(data, 2 * V::Size));
        }
    }
};
template <class V, class T> struct AllPairs { static void run(Rng &r, Guarded &g) { Pairs<V, T>::run(r, g); } };
template <class V> struct AllPairs<V, float> { static void run(Rng &r, Guarded &g) { Pairs<V, float>::run(r, g); Pairs<V, short>::run(r, g); Pairs<V, unsigned short>::run(r, g); } };
template <class V> struct AllPairs<V, int> { static void run(Rng &r, Guarded &g) { Pairs<V, int>::run(r, g); Pairs<V, short>::run(r, g); } };
template <class V> struct AllPairs<V, unsigned> { static void run(Rng &r, Guarded &g) { Pairs<V, unsigned>::run(r, g); Pairs<V, unsigned short>::run(r, g); } };

// Vc::tie(a, b, c, d) = Vc::transpose(e, f, g, h), also in place
template <class V> __attribute__((noinline)) void transposeInto(V *o, const V *i) { Vc::tie(o[0], o[1], o[2], o[3]) = Vc::transpose(i[0], i[1], i[2], i[3]); }
template <class V> struct Trans {
    using T = typename V::EntryType;
    static void run()
    {
        Rng r(("transpose" + vn<V>()).c_str());
        for (int how = 0; how < 3; ++how) {
            const std::string k = key<V>(how == 0 ? "tie = transpose" : how == 1 ? "tie = transpose in place" : "tie = transpose permuted in place");
            OpCount oc(k);
            for (long it = 0, n = cases(1500); it < n; ++it) {
                T in[16], got[16], want[16];
                for (auto &x : in) x = any<T>(r);
                ev(hashBytes(in, sizeof in, hashStr(k.c_str())));
                V a[4], b[4];
                for (int i = 0; i < 4; ++i) a[i] = fromLanes<V>(in + 4 * i), b[i] = V(T(1));
                if (how == 0) transposeInto(b, a);
                else if (how == 1) { Vc::tie(a[0], a[1], a[2], a[3]) = Vc::transpose(a[0], a[1], a[2], a[3]); }
                else { Vc::tie(a[2], a[0], a[3], a[1]) = Vc::transpose(a[0], a[1], a[2], a[3]); }
                for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) want[4 * i + j] = in[4 * j + i];
                static const int at[4] = {2, 0, 3, 1};
                for (int i = 0; i < 4; ++i) toLanes(how == 0 ? b[i] : how == 1 ? a[i] : a[at[i]], got + 4 * i);
                check(k, got, want, 16, "rows " + strv(in, 16));
            }
        }
    }
};
#ifdef Vc_IMPL_SSE
template <class T> struct TransAll { static void run() {} };
template <> struct TransAll<float> { static void run() { Trans<Vc::SSE::float_v>::run(); Trans<Vc::SimdArray<float, 4>>::run(); } };
#else
template <class T> struct TransAll { static void run() { Trans<Vc::SimdArray<T, 4>>::run(); } };
#endif

#ifndef VT_SS
#define VT_SS 2, 3, 4, 5, 6, 7, 8
#endif
template <size_t... N> struct Nums {};
struct Do {
    template <class V, class M> static void sizes(Nums<>, M &, long) {}
    template <class V, class M, size_t SS, size_t... R> static void sizes(Nums<SS, R...>, M &m, long base) { Ks<V, SS, (SS < 8 ? SS : 8)>::run(m, base); sizes<V>(Nums<R...>(), m, base); }
    template <class V> static void pairs(Tag<V>) {}
    template <class T, class A> static void pairs(Tag<Vc::Vector<T, A>>)
    {
        Rng r(("pairs" + vn<Vc::Vector<T, A>>()).c_str()); Guarded g(1);
#ifndef VT_NO_PAIRS
        AllPairs<Vc::Vector<T, A>, T>::run(r, g);
#endif
    }
    template <class V> void operator()(Tag<V> t)
    {
        using T = typename V::EntryType;
        Mem<T> m(vn<V>(), V::Size);
        sizes<V>(Nums<VT_SS>(), m, 120);
        pairs(t);
    }
};
struct DoTrans { template <class T> void operator()(Tag<T>) { TransAll<T>::run(); } };
namespace vt
{
void run()
{
    Do d; forNative(d);
#ifndef VT_NO_PAIRS
    DoTrans t; forTypes(TheTypes(), t);
#endif
}
}
