// kit.h -- table-style workloads over one vector type: a kernel (real code) and an oracle (scalar code)
// both read two lane arrays, a bool array and one int and produce an array of lanes.
#ifndef VT_KIT_H
#define VT_KIT_H
#include "vtvc.h"
namespace vt
{
template <class T> struct In {
    const T *a, *b; const bool *m; int k; size_t N;
    const T *c; const int *e;   // only when Kit::gc / Kit::ge are set
};
template <class V, class T = typename V::EntryType> inline V ldA(const In<T> &x) { return fromLanes<V>(x.a); }
template <class V, class T = typename V::EntryType> inline V ldB(const In<T> &x) { return fromLanes<V>(x.b); }
template <class V, class T> inline typename V::MaskType ldM(const In<T> &x) { return maskFromBits<typename V::MaskType>(x.m); }
template <class V, class T> inline void put(const V &v, T *o) { toLanes(v, o); }

template <class T> struct Kit {
    using K = void (*)(const In<T> &, T *);
    using G = T (*)(Rng &);
    using Eq = bool (*)(T, T);
    std::string vname;
    size_t N;
    Rng r;
    long base;
    Kit(const char *family, const std::string &v, size_t n, long b) : vname(v), N(n), r((std::string(family) + v).c_str()), base(b) {}

    // k is drawn from [klo, khi]; nout: number of lanes produced (0: N)
    __attribute__((noinline)) void go(const std::string &name, G ga, G gb, int klo, int khi, K kernel, K oracle, Eq eq = same<T>, size_t nout = 0)
    {
        const std::string key = name + "/" + vname + "/" + VT_IMPL;
        OpCount oc(key);
        if (!nout) nout = N;
        std::vector<T> av(N), bv(N), w(nout), got(nout);
        for (long i = 0, n = cases(base); i < n; ++i) {
            const int style = int(r.below(6));
            for (size_t j = 0; j < N; ++j) {
                av[j] = style == 0 && j ? av[0] : ga(r);
                bv[j] = style == 0 && j ? bv[0] : gb(r);
                if (style == 1 && r.coin()) bv[j] = av[j];
            }
            if (fix) for (size_t j = 0; j < N; ++j) fix(av[j], bv[j]);
            bool m[64];
            mbits(m);
            std::vector<T> cv; std::vector<int> evec;
            if (gc) { cv.resize(N); for (size_t j = 0; j < N; ++j) cv[j] = gc(r, av[j], bv[j]); }
            if (ge) { evec.resize(N); for (size_t j = 0; j < N; ++j) evec[j] = ge(r, av[j]); }
            const In<T> in{av.data(), bv.data(), m, klo == khi ? klo : r.range(klo, khi), N, cv.data(), evec.data()};
            for (auto &x : w) x = T(0);
            for (auto &x : got) x = T(77);
            oracle(in, w.data());
            kernel(in, got.data());
            ev(hashBytes(av.data(), sizeof(T) * N, hashBytes(bv.data(), sizeof(T) * N, hashBytes(m, N, mix(uint64_t(in.k)) ^ hashStr(key.c_str()) ^ (gc ? hashBytes(cv.data(), sizeof(T) * N, 1) : 0) ^ (ge ? hashBytes(evec.data(), sizeof(int) * N, 2) : 0)))));
            auto ctx = [&] { std::string s; for (size_t j = 0; j < N; ++j) s += m[j] ? '1' : '0'; return "a=" + strv(av.data(), N) + " b=" + strv(bv.data(), N) + " m=" + s + " k=" + std::to_string(in.k) + (gc ? " c=" + strv(cv.data(), N) : "") + (ge ? " e=" + strv(evec.data(), N) : ""); };
            for (size_t j = 0; j < nout; ++j)
                if (!eq(got[j], w[j])) { check(key, got.data(), w.data(), nout, ctx(), eq); break; }
            if (i == 5 && wantSample() && r.below(8) == 0) sample("%s %s -> %s", key.c_str(), ctx().c_str(), strv(got.data(), nout).c_str());
        }
    }
    void mbits(bool *m)
    {
        unsigned k = r.below(12), c = r.below(uint32_t(N) + 1);
        for (size_t i = 0; i < N; ++i)
            m[i] = k == 0 ? false : k == 1 ? true : k == 2 ? i == c : k == 3 ? i < c : k == 4 ? i >= c : k == 5 ? (i & 1) == (c & 1) : k == 6 ? i != c : r.coin();
        if (needOne) { bool any = false; for (size_t i = 0; i < N; ++i) any |= m[i]; if (!any) m[r.below(uint32_t(N))] = true; }
    }
    void (*fix)(T &, T &) = nullptr;   // makes an operand pair valid for the operation
    T (*gc)(Rng &, T, T) = nullptr;   // third operand, given the first two
    int (*ge)(Rng &, T) = nullptr;    // integer operand per lane, given the first
    bool needOne = false;   // masks with at least one lane set
};
#define KERN(...) [](const In<T> &x, T *o) { __VA_ARGS__; }
}
#endif
