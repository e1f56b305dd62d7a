// C14: Vc::Memory (fixed size, run-time size, two-dimensional): random histories of operations on a pool of
// objects next to a scalar model; after every operation all entries of all objects are compared.
#include "vtvc.h"
#include "scalarops.h"
#include <new>
using namespace vt;
#define NOI __attribute__((noinline))
#ifdef VT_NO_MM   // (Memory op= Memory does not compile for Memory<SimdArray>)
#define VT_MM(...) {}
constexpr bool haveMM = false;
#else
#define VT_MM(...) { __VA_ARGS__ }
constexpr bool haveMM = true;
#endif

// what a history can do to one-dimensional memory objects
template <class V, size_t N> struct Hist {
    using T = typename V::EntryType;
    using S = Vc::Memory<V, N>;
    using D = Vc::Memory<V>;
    using I = typename V::IndexType;
    static constexpr size_t VS = V::Size, VC = (N + VS - 1) / VS, PN = VC * VS;
    Rng r;
    Guarded g{2 + 2 * (PN * sizeof(T) + 64) / 4096};
    S *s[2];          // s[0] ends at an inaccessible page, s[1] starts at one
    D *d[2];
    std::vector<T> m[4];
    const char *op = "";
    std::string keyOf(const char *o) const { return std::string(o) + "[" + std::to_string(N) + "]/" + vn<V>() + "/" + VT_IMPL; }
    Hist() : r(("memory" + vn<V>() + std::to_string(N)).c_str()) {}
    static constexpr size_t align = V::MemoryAlignment;

    T val() { return r.below(3) ? T(r.range(1, 100)) : any<T>(r); }
    // calls f with the object number which, whatever its type
    template <class F> auto with(int which, F f) -> void { if (which < 2) f(*s[which]); else f(*d[which - 2]); }
    const T *raw(int w) { const T *p; if (w < 2) p = *s[w]; else p = *d[w - 2]; return p; }

    void verify(const char *o, const std::string &ctx)
    {
        for (int w = 0; w < 4; ++w) {
            if (m[w].empty()) continue;
            const T *p = raw(w);
            T got[N];
            memcpy(got, p, sizeof got);
            if (!check(keyOf(o), got, m[w].data(), N, "object " + std::to_string(w) + "; " + ctx)) memcpy(const_cast<T *>(p), m[w].data(), sizeof got);
        }
    }
    void shape(const char *o, const S &x) { one(o, x, x.entriesCount(), x.vectorsCount(), x.entries()); if (sizeof(S) != PN * sizeof(T)) fail(keyOf(o), "sizeof %d", int(sizeof(S))); }
    void shape(const char *o, const D &x) { one(o, x, x.entriesCount(), x.vectorsCount(), x.entries()); }
    template <class X> void one(const char *o, const X &x, size_t ec, size_t vc, const T *e)
    {
        if (ec != N || vc != VC) fail(keyOf(o), "entriesCount %d vectorsCount %d", int(ec), int(vc));
        if (reinterpret_cast<uintptr_t>(e) % align) fail(keyOf(o), "entries at %p, required alignment %d", static_cast<const void *>(e), int(align));
        (void)x;
    }
    template <class X> void padding(const char *o, const X &x)
    {
        const T *e = x;
        for (size_t i = N; i < PN; ++i) if (!(e[i] == T(0))) { fail(keyOf(o), "padding entry %d of a new object is %s", int(i), str(e[i]).c_str()); return; }
        (void)e;
    }
    void store(int w) { T *p; if (w < 2) p = *s[w]; else p = *d[w - 2]; for (size_t i = 0; i < N; ++i) p[i] = m[w][i]; }

    template <class F> NOI void step(const char *o, F f)
    {
        OpCount oc(keyOf(o));
        const std::string ctx = f();
        ev(hashStr((std::string(o) + ctx).c_str()) ^ hashBytes(m[0].data(), N * sizeof(T), hashBytes(m[2].data(), N * sizeof(T), N)));
        verify(o, ctx);
        if (r.below(40) == 0 && wantSample()) sample("%s %s", keyOf(o).c_str(), ctx.substr(0, 250).c_str());
    }
    template <class OP, class F> void arith(const char *o, F f)
    {
        step(o, [&] {
            const int w = r.range(0, 3), q = r.range(0, 3); const bool sc = r.coin() || !haveMM;
            const OP op{};
            T x = val();
            if (std::is_same<T, float>::value && sc) x = T(r.range(1, 64)) / 4;
            if (std::is_same<OP, typename Oracle<T>::div>::value && x == T(-1)) x = T(1);   // (padding / -1 may trap)
            for (size_t i = 0; i < N; ++i) {
                const T y = sc ? x : m[q][i];
                if (!op.valid(m[w][i], y)) {   // replace the operands by ones for which the operator is defined
                    m[w][i] = T(r.range(0, 3)); if (sc) { x = 1; } else m[q][i] = T(1);
                    if (sc) i = size_t(-1); else if (w == q) m[w][i] = T(1);
                }
            }
            store(w); store(q);
            const std::vector<T> a = m[w], b = m[q];
            for (size_t i = 0; i < N; ++i) m[w][i] = op(a[i], sc ? x : b[i]);
            if (sc) with(w, [&](auto &X) { f(X, x); });
            else VT_MM(with(w, [&](auto &X) { with(q, [&](auto &Y) { f(X, Y); }); });)
            return std::string(sc ? "scalar " + str(x) : "memory") + " object " + std::to_string(w) + " with " + std::to_string(q);
        });
    }
    template <class OP, class F> void vecop(const char *o, F f)
    {
        step(o, [&] {
            const int w = r.range(0, 3); const size_t i = r.below(VC), how = r.below(4);
            const size_t at = how == 0 ? i * VS : r.below(uint32_t(PN - VS + 1));
            T x[VS], a[VS];
            const OP op{};
            for (size_t j = 0; j < VS; ++j) {
                x[j] = val();
                if (at + j < N) { if (!op.valid(m[w][at + j], x[j])) { m[w][at + j] = T(r.range(0, 3)); x[j] = T(1); } a[j] = m[w][at + j]; }
                else x[j] = T(1);
            }
            (void)a; store(w);
            for (size_t j = 0; j < VS && at + j < N; ++j) m[w][at + j] = op(m[w][at + j], x[j]);
            const V v = fromLanes<V>(x);
            with(w, [&](auto &X) {
                switch (how) {
                case 0: f(X.vector(i), v); break;
                case 1: f(X.vector(0, int(at)), v); break;
                case 2: f(X.vectorAt(at), v); break;
                default: f(X.vector(VC - 1, int(at) - int((VC - 1) * VS)), v); break;
                }
            });
            return "at " + std::to_string(at) + " with " + strv(x, VS);
        });
    }
    // element-wise quantified comparisons
    template <class P, class F> void compare(const char *o, P p, F f, bool onlyUniform)
    {
        step(o, [&] {
            const int w = r.range(0, 3), q = r.range(0, 3);
            if (w != q && r.below(4)) {   // nearly related objects
                const int c = r.range(-1, 1);
                for (size_t i = 0; i < N; ++i) m[w][i] = T(r.range(2, 100)), m[q][i] = T(m[w][i] + T(c));
                if (r.coin()) m[q][r.below(uint32_t(N))] = T(r.range(1, 101));
                store(w); store(q);
            }
            bool all = true, none = true;
            for (size_t i = 0; i < N; ++i) { const bool h = p(m[w][i], m[q][i]); all &= h; none &= !h; }
            bool got = false;
            with(w, [&](auto &X) { with(q, [&](auto &Y) { got = f(X, Y); }); });
            if (all || !onlyUniform || none)
                if (got != all) fail(keyOf(o), "is %d for %s and %s", int(got), strv(m[w].data(), N).c_str(), strv(m[q].data(), N).c_str());
            return "objects " + std::to_string(w) + " and " + std::to_string(q);
        });
    }
    void intOps(std::true_type)
    {
        using O = Oracle<T>;
        vecop<typename O::mod>("vector %= ", [](auto &&x, const V &v) { x %= v; });
        vecop<typename O::and_>("vector &= ", [](auto &&x, const V &v) { x &= v; });
        vecop<typename O::or_>("vector |= ", [](auto &&x, const V &v) { x |= v; });
        vecop<typename O::xor_>("vector ^= ", [](auto &&x, const V &v) { x ^= v; });
    }
    void intOps(std::false_type) {}

    void history(long n)
    {
        char *e = g.end() - sizeof(S), *b = g.begin();
        using O = Oracle<T>;
        for (int w = 0; w < 4; ++w) { m[w].resize(N); }
        for (long it = 0; it < n; ++it) {
            // construction over dirty memory
            g.fill(0xff);
            for (int w = 0; w < 4; ++w) m[w].clear();
            step("construct", [&] {
                s[0] = new (e) S; s[1] = new (b) S;
                void *junk = malloc(PN * sizeof(T) + 200); memset(junk, 0xff, PN * sizeof(T) + 200); free(junk);
                d[0] = new D(N); d[1] = new D(*s[0]);
                for (int w = 0; w < 2; ++w) { shape("construct", *s[w]); padding("construct", *s[w]); shape("construct", *d[w]); }
                padding("construct", *d[0]);
                return std::string();
            });
            for (int w = 0; w < 4; ++w) { m[w].resize(N); for (auto &x : m[w]) x = val(); store(w); }
            verify("scalar stores", "");
            for (int k = 0; k < 12; ++k) {
                switch (r.below(30)) {
                case 0: step("copy construction", [&] {
                    const int how = r.below(5);
                    const S a(*s[0]); const D c(*d[0]);
                    auto same_ = [&](const char *what, const auto &y, int w) { shape("copy construction", y); const T *p = y; check(keyOf("copy construction"), p, m[w].data(), N, what); };
                    if (how == 0) same_("fixed from fixed", a, 0);
                    if (how == 1) same_("run-time from run-time", c, 2);
                    if (how == 2) { const D x(*s[1]); same_("run-time from fixed", x, 1); }
                    if (how == 3) { S x(a); x[0] = T(1); x[N - 1] = T(2); same_("copies are independent", a, 0); }
                    if (how == 4) { D x(c); x[0] = T(1); x[N - 1] = T(2); same_("copies are independent", c, 2); }
                    return std::to_string(how); }); break;
                case 1: case 2: step("assignment", [&] {
                    const int w = r.range(0, 3), q = w < 2 ? r.range(0, 1) : r.range(0, 3);
                    if (w == 0) *s[0] = *s[q]; else if (w == 1) *s[1] = *s[q];
                    else { if (q < 2) *d[w - 2] = *s[q]; else *d[w - 2] = *d[q - 2]; }
                    m[w] = m[q];
                    return std::to_string(w) + " = " + std::to_string(q); }); break;
                case 3: step("assignment from entries", [&] {
                    const int w = r.range(0, 3);
                    Guarded h(1 + N * sizeof(T) / 4096);
                    T *p = reinterpret_cast<T *>(h.end() - N * sizeof(T));   // exactly N entries are readable
                    for (auto &x : m[w]) x = val();
                    memcpy(p, m[w].data(), N * sizeof(T));
                    with(w, [&](auto &X) { X = static_cast<const T *>(p); });
                    return std::to_string(w); }); break;
                case 4: step("setZero", [&] { const int w = r.range(0, 3); with(w, [&](auto &X) { X.setZero(); }); m[w].assign(N, T(0)); return std::to_string(w); }); break;
                case 5: step("assignment of a vector", [&] {
                    const int w = r.range(0, 1); T x[VS]; for (auto &y : x) y = val();
                    if (r.coin()) *s[w] = fromLanes<V>(x); else static_cast<Vc::Common::MemoryBase<V, S, 1, void> &>(*s[w]) = fromLanes<V>(x);
                    for (size_t i = 0; i < N; ++i) m[w][i] = x[i % VS];
                    return strv(x, VS); }); break;
                case 6: step("scalar access", [&] {
                    const int w = r.range(0, 3); const size_t i = r.below(N), j = r.below(N); const T x = val(), y = val();
                    with(w, [&](auto &X) {
                        X[i] = x; m[w][i] = x; X.scalar(j) = y; m[w][j] = y;
                        const auto &C = X;
                        if (!same(T(C[i]), m[w][i]) || !same(C.scalar(j), m[w][j]) || !same(T(X.entries()[i]), m[w][i]) || &X[i] != X.entries() + i) fail(keyOf("scalar access"), "entries %d and %d", int(i), int(j));
                    });
                    return std::to_string(i) + " " + std::to_string(j); }); break;
                case 7: step("vector reads", [&] {
                    const int w = r.range(0, 3);
                    with(w, [&](auto &X) {
                        const auto &C = X;
                        const size_t at = r.below(uint32_t(PN - VS + 1));
                        auto cmp = [&](const char *what, const V &v, size_t from) { T l[VS]; toLanes(v, l); check(keyOf("vector reads"), l, m[w].data() + from, std::min(VS, N - std::min(N, from)), what + std::to_string(from)); };
                        for (size_t i = 0; i < VC; ++i) { cmp("vector ", V(X.vector(i)), i * VS); cmp("const vector ", V(C.vector(i)), i * VS); cmp("vector(aligned) ", C.vector(i, Vc::Streaming), i * VS); }
                        cmp("vectorAt ", X.vectorAt(at), at); cmp("const vectorAt ", C.vectorAt(at), at); cmp("vector(0, shift) ", C.vector(0, int(at)), at);
                        cmp("vector(last, -shift) ", X.vector(VC - 1, int(at) - int((VC - 1) * VS)), at);
                        cmp("firstVector ", C.firstVector(), 0); cmp("lastVector ", C.lastVector(), (VC - 1) * VS);
                        const size_t i = r.below(VC), j = r.below(VS);
                        if (i * VS + j < N && !same(T(C.vector(i)[j]), m[w][i * VS + j])) fail(keyOf("vector reads"), "vector(%d)[%d]", int(i), int(j));
                        if (i * VS + j < N) { X.vector(i)[j] = T(5); m[w][i * VS + j] = T(5); }
                        const size_t k = r.below(VC);   // operators between two vectors in memory
                        bool valid = true; T diff[VS]; const typename O::sub sub{};
                        const auto lt = X.vector(i) < C.vector(k), eq = C.vector(i) == X.vector(k);
                        for (size_t x = 0; x < VS && std::max(i, k) * VS + x < N; ++x) {
                            const T u = m[w][i * VS + x], v = m[w][k * VS + x];
                            valid = valid && sub.valid(u, v); if (valid) diff[x] = sub(u, v);
                            if (lt[x] != (u < v) || eq[x] != (u == v)) fail(keyOf("vector reads"), "comparison of vectors %d and %d in memory", int(i), int(k));
                        }
                        if (valid) { T l[VS]; toLanes(V(X.vector(i) - C.vector(k)), l); check(keyOf("vector reads"), l, diff, std::min(VS, N - std::max(i, k) * VS), "difference of vectors in memory"); }
                    });
                    return std::to_string(w); }); break;
                case 8: vecop<typename O::add>("vector += ", [](auto &&x, const V &v) { x += v; }); break;
                case 9: vecop<typename O::sub>("vector -= ", [](auto &&x, const V &v) { x -= v; }); break;
                case 10: vecop<typename O::mul>("vector *= ", [](auto &&x, const V &v) { x *= v; }); break;
                case 11: vecop<typename O::div>("vector /= ", [](auto &&x, const V &v) { x /= v; }); break;
                case 12: vecop<Second>("vector = ", [](auto &&x, const V &v) { x = v; }); break;
                case 13: intOps(std::is_integral<T>()); break;
                case 14: step("range", [&] {
                    const int w = r.range(0, 3); const size_t f = r.below(VC), l = f + r.below(uint32_t(VC - f)); size_t n = 0;
                    with(w, [&](auto &X) {
                        if (r.coin()) for (auto &x : X.range(f, l)) { x = V(T(n + 1)); ++n; }
                        else for (auto &x : X.range(f, l, Vc::Aligned)) { x = V(T(n + 1)); ++n; }
                    });
                    if (n != l - f + 1) fail(keyOf("range"), "%d vectors in range(%d, %d)", int(n), int(f), int(l));
                    for (size_t i = f * VS; i < (l + 1) * VS && i < N; ++i) m[w][i] = T(i / VS - f + 1);
                    return std::to_string(f) + "-" + std::to_string(l); }); break;
                case 15: step("iteration", [&] {
                    const int w = r.range(0, 3); size_t n = 0;
                    with(w, [&](auto &X) {
                        for (auto &x : X) { x = V(T(n + 1)); ++n; }
                        auto a = X.begin(), z = X.end(); const size_t k = r.below(VC + 1);
                        auto p = a + k, q = z - (VC - k);
                        if (size_t(z - a) != VC || p != q || !(p == q) || (a < z) != true || a > z || !(a <= p) || !(z >= p)) fail(keyOf("iteration"), "iterator arithmetic at %d", int(k));
                        p = a; p += k; p -= k; ++p; p++; --p; p--; if (p != a) fail(keyOf("iteration"), "++ and --");
                        if (k < VC) { a[k] = V(T(9)); V t = *(a + k); T l[VS]; toLanes(t, l); if (l[0] != T(9)) fail(keyOf("iteration"), "iterator subscript %d", int(k));
                            for (size_t i = 0; i < N; ++i) m[w][i] = i / VS == k ? T(9) : T(i / VS + 1); }
                        else for (size_t i = 0; i < N; ++i) m[w][i] = T(i / VS + 1);
                    });
                    if (n != VC) fail(keyOf("iteration"), "%d vectors visited", int(n));
                    return std::to_string(w); }); break;
                case 16: step("gather", [&] {
                    const int w = r.range(0, 3); const int how = r.below(3);
                    unsigned char i8[VS]; unsigned short i16[VS]; unsigned i32[VS]; T want[VS], l[VS];
                    for (size_t j = 0; j < VS; ++j) { i32[j] = r.below(uint32_t(N)); i16[j] = (unsigned short)(i32[j]); if (how == 0) i32[j] = i32[j] & 255; i8[j] = (unsigned char)(i32[j]); want[j] = m[w][i32[j]]; }
                    with(w, [&](auto &X) { toLanes(how == 0 ? gather8(X, i8, 0) : how == 1 ? X.gather(i16) : X.gather(i32), l); });
                    check(keyOf("gather"), l, want, VS, std::to_string(how) + strv(i32, VS));
                    return strv(i32, VS); }); break;
                case 17: arith<typename O::add>("memory += ", [](auto &x, const auto &y) { x += y; }); break;
                case 18: arith<typename O::sub>("memory -= ", [](auto &x, const auto &y) { x -= y; }); break;
                case 19: arith<typename O::mul>("memory *= ", [](auto &x, const auto &y) { x *= y; }); break;
                case 20: arith<typename O::div>("memory /= ", [](auto &x, const auto &y) { x /= y; }); break;
                case 21: compare("memory == ", [](T a, T b) { return a == b; }, [](const auto &x, const auto &y) { return x == y; }, false); break;
                case 22: compare("memory != ", [](T a, T b) { return a != b; }, [](const auto &x, const auto &y) { return x != y; }, true); break;
                case 23: compare("memory < ", [](T a, T b) { return a < b; }, [](const auto &x, const auto &y) { return x < y; }, false); break;
                case 24: compare("memory <= ", [](T a, T b) { return a <= b; }, [](const auto &x, const auto &y) { return x <= y; }, false); break;
                case 25: compare("memory > ", [](T a, T b) { return a > b; }, [](const auto &x, const auto &y) { return x > y; }, false); break;
                case 26: compare("memory >= ", [](T a, T b) { return a >= b; }, [](const auto &x, const auto &y) { return x >= y; }, false); break;
                case 27: step("swap", [&] {
                    const size_t n2 = 1 + r.below(uint32_t(3 * N));
                    D other(n2); for (size_t i = 0; i < n2; ++i) other[i] = T(i);
                    if (r.coin()) { d[0]->swap(*d[1]); std::swap(m[2], m[3]); }
                    else { std::swap(*d[0], other); const T *p = *d[0]; bool ok = d[0]->entriesCount() == n2 && d[0]->vectorsCount() == (n2 + VS - 1) / VS && other.entriesCount() == N && other.vectorsCount() == VC;
                        for (size_t i = 0; i < n2; ++i) ok &= same(p[i], T(i)); const T *q = other; for (size_t i = 0; i < N; ++i) ok &= same(q[i], m[2][i]);
                        if (!ok) fail(keyOf("swap"), "with an object of %d entries", int(n2)); std::swap(*d[0], other); }
                    return std::to_string(n2); }); break;
                case 28: step("fromRawData", [&] {
                    T *p = raw_(*s[0]);
                    auto &x = rawData(p, val(), m[0]);
                    const T y = val(); const size_t i = r.below(N); x[i] = y; m[0][i] = y;
                    if (static_cast<T *>(x) != p || x.entriesCount() != N || x.vectorsCount() != VC) fail(keyOf("fromRawData"), "does not wrap the given memory");
                    s[0] = reinterpret_cast<S *>(p);
                    return str(y); }); break;
                case 29: step("other sizes", [&] {
                    using M2 = Vc::Memory<V, PN>;
                    M2 a(*s[0]); for (size_t i = 0; i < N; ++i) if (!same(T(a[i]), m[0][i])) fail(keyOf("other sizes"), "copy construction, entry %d", int(i));
                    for (size_t i = 0; i < PN; ++i) a[i] = T(i);
                    *s[1] = a; for (size_t i = 0; i < N; ++i) m[1][i] = T(i);
                    const T x = val(), y = val(), z = val();
                    if (N >= 3) { S b = {x, y, z}; if (!same(T(b[0]), x) || !same(T(b[1]), y) || !same(T(b[2]), z)) fail(keyOf("other sizes"), "initializer list"); padding("other sizes", b); }
                    return std::string(); }); break;
                }
            }
            delete d[0]; delete d[1];
            s[0]->~S(); s[1]->~S();
        }
    }
    template <class X> static auto gather8(const X &x, const unsigned char *i, int) -> decltype(x.gather(i)) { return x.gather(i); }
    struct Second { T operator()(T, T b) const { return b; } bool valid(T, T) const { return true; } };
    static T *raw_(S &x) { return x; }
    NOI auto rawData(T *p, T x, std::vector<T> &mm) -> Vc::Memory<V, N, 0, false> &
    {
        for (size_t i = 0; i < N; ++i) p[i] = mm[i] = T(T(i % 3) > 0 && x > std::numeric_limits<T>::max() - T(2) ? x : T(x + T(i % 3)));
        auto &a = Vc::Memory<V, N>::fromRawData(p);
        return a;
    }
};

// two-dimensional memory
template <class V, size_t R, size_t C> struct Hist2 {
    using T = typename V::EntryType;
    using M = Vc::Memory<V, R, C>;
    static constexpr size_t VS = V::Size, VC = (C + VS - 1) / VS, PC = VC * VS;
    Rng r;
    Guarded g{2 + 2 * (R * PC * sizeof(T) + 64) / 4096};
    M *s[2];
    std::vector<T> m[2];
    std::string keyOf(const char *o) const { return std::string(o) + "[" + std::to_string(R) + "x" + std::to_string(C) + "]/" + vn<V>() + "/" + VT_IMPL; }
    Hist2() : r(("memory2" + vn<V>() + std::to_string(R * 100 + C)).c_str()) {}
    T val() { return r.below(3) ? T(r.range(1, 100)) : any<T>(r); }
    void verify(const char *o, const std::string &ctx)
    {
        for (int w = 0; w < 2; ++w) {
            T got[R * C];
            const M &x = *s[w];
            for (size_t i = 0; i < R; ++i) { const T *p = x[i]; memcpy(got + i * C, p, C * sizeof(T)); }
            if (!check(keyOf(o), got, m[w].data(), R * C, "object " + std::to_string(w) + "; " + ctx)) store(w);
        }
    }
    void store(int w) { for (size_t i = 0; i < R; ++i) { T *p = (*s[w])[i]; for (size_t j = 0; j < C; ++j) p[j] = m[w][i * C + j]; } }
    template <class F> NOI void step(const char *o, F f)
    {
        OpCount oc(keyOf(o));
        const std::string ctx = f();
        ev(hashStr((std::string(o) + ctx).c_str()) ^ hashBytes(m[0].data(), R * C * sizeof(T), hashBytes(m[1].data(), R * C * sizeof(T), C)));
        verify(o, ctx);
        if (r.below(40) == 0 && wantSample()) sample("%s %s", keyOf(o).c_str(), ctx.substr(0, 250).c_str());
    }
    template <class OP, class F> void arith(const char *o, F f)
    {
        step(o, [&] {
            const int w = r.range(0, 1), q = r.range(0, 1); const bool sc = r.coin() || !haveMM; const OP op{};
            for (int k = 0; k < 2; ++k) { for (auto &x : m[k]) x = T(r.range(1, 150)); store(k); }
            const T x = T(r.range(1, 100));
            bool ok = true;
            const std::vector<T> a = m[w], b = m[q];
            for (size_t i = 0; i < R * C; ++i) ok &= op.valid(a[i], sc ? x : b[i]);
            if (!ok) return std::string("skipped");
            for (size_t i = 0; i < R * C; ++i) m[w][i] = op(a[i], sc ? x : b[i]);
            if (sc) f(*s[w], x); else VT_MM(f(*s[w], *s[q]);)
            return std::to_string(w) + (sc ? " with " + str(x) : " with object " + std::to_string(q));
        });
    }
    template <class P, class F> void compare(const char *o, P p, F f, bool onlyUniform)
    {
        step(o, [&] {
            const int w = r.range(0, 1), q = r.range(0, 1);
            if (w != q) {
                const int c = r.range(-1, 1);
                for (size_t i = 0; i < R * C; ++i) m[w][i] = T(r.range(2, 100)), m[q][i] = T(m[w][i] + T(c));
                if (r.coin()) m[q][r.below(uint32_t(R * C))] = T(r.range(1, 101));
                store(w); store(q);
            }
            bool all = true, none = true;
            for (size_t i = 0; i < R * C; ++i) { const bool h = p(m[w][i], m[q][i]); all &= h; none &= !h; }
            const bool got = f(*s[w], *s[q]);
            if ((all || !onlyUniform || none) && got != all) fail(keyOf(o), "is %d for %s and %s", int(got), strv(m[w].data(), R * C).c_str(), strv(m[q].data(), R * C).c_str());
            return std::to_string(w) + " " + std::to_string(q);
        });
    }
    void history(long n)
    {
        using O = Oracle<T>;
        for (long it = 0; it < n; ++it) {
            g.fill(0xff);
            for (int w = 0; w < 2; ++w) { m[w].resize(R * C); for (auto &x : m[w]) x = val(); }
            s[0] = new (g.end() - sizeof(M)) M; s[1] = new (g.begin()) M;
            for (int w = 0; w < 2; ++w) for (size_t i = 0; i < R; ++i) { const M &c = *s[w]; const T *p = c[i]; for (size_t j = C; j < PC; ++j) if (!(p[j] == T(0))) { fail(keyOf("construct"), "padding entry %d of row %d is %s", int(j), int(i), str(p[j]).c_str()); break; } }
            store(0); store(1);
            step("shape", [&] {
                const M &c = *s[0];
                if (c.rowsCount() != R || c.entriesCount() != R * C || c.vectorsCount() != R * VC || c[0].entriesCount() != C || c[0].vectorsCount() != VC || sizeof(M) != R * PC * sizeof(T)) fail(keyOf("shape"), "rows %d entries %d vectors %d", int(c.rowsCount()), int(c.entriesCount()), int(c.vectorsCount()));
                for (size_t i = 0; i < R; ++i) if (reinterpret_cast<uintptr_t>(c.entries(i)) % V::MemoryAlignment || c.entries(i) != &c[i][0]) fail(keyOf("shape"), "row %d is misplaced", int(i));
                return std::string(); });
            for (int k = 0; k < 8; ++k) {
                const int w = r.range(0, 1);
                M &x = *s[w]; const M &cx = x;
                switch (r.below(17)) {
                case 0: step("scalar access", [&] { const size_t i = r.below(R), j = r.below(C); const T y = val(); if (r.coin()) x[i][j] = y; else x.scalar(i, j) = y; m[w][i * C + j] = y;
                    if (!same(T(cx[i][j]), y) || !same(cx.scalar(i, j), y) || !same(T(cx.entries(i)[j]), y)) fail(keyOf("scalar access"), "row %d column %d", int(i), int(j)); return std::to_string(i) + " " + std::to_string(j); }); break;
                case 1: step("vector access", [&] { const size_t i = r.below(R), j = r.below(VC); T y[VS], l[VS]; for (auto &z : y) z = val();
                    if (r.coin()) x[i].vector(j) = fromLanes<V>(y); else x.vector(i * VC + j) = fromLanes<V>(y);
                    for (size_t k = 0; k < VS && j * VS + k < C; ++k) m[w][i * C + j * VS + k] = y[k];
                    toLanes(V(cx.vector(i * VC + j)), l); check(keyOf("vector access"), l, y, std::min(VS, C - j * VS), ""); toLanes(V(cx[i].vector(j)), l); check(keyOf("vector access"), l, y, std::min(VS, C - j * VS), "");
                    return std::to_string(i) + " " + std::to_string(j); }); break;
                case 2: step("setZero", [&] { x.setZero(); m[w].assign(R * C, T(0)); return std::string(); }); break;
                case 3: step("assignment", [&] { x = static_cast<const M &>(*s[1 - w]); m[w] = m[1 - w]; return std::string(); }); break;
                case 4: step("copy construction", [&] { const M y(cx); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!same(T(y[i][j]), m[w][i * C + j])) fail(keyOf("copy construction"), "row %d column %d", int(i), int(j)); return std::string(); }); break;
                case 5: step("assignment of a vector", [&] { T y[VS]; for (auto &z : y) z = val(); x = fromLanes<V>(y); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) m[w][i * C + j] = y[j % VS]; return strv(y, VS); }); break;
                case 6: step("iteration", [&] { size_t n = 0; for (auto &v : x) { v = V(T(n % 100)); ++n; } if (n != R * VC) fail(keyOf("iteration"), "%d vectors", int(n));
                    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) m[w][i * C + j] = T((i * VC + j / VS) % 100); return std::string(); }); break;
                case 7: step("row assignment", [&] { const size_t i = r.below(R), j = r.below(R); x[i] = (*s[1 - w])[j]; for (size_t k = 0; k < C; ++k) m[w][i * C + k] = m[1 - w][j * C + k]; return std::to_string(i) + " " + std::to_string(j); }); break;
                case 8: arith<typename O::add>("memory += ", [](auto &x, const auto &y) { x += y; }); break;
                case 9: arith<typename O::sub>("memory -= ", [](auto &x, const auto &y) { x -= y; }); break;
                case 10: arith<typename O::mul>("memory *= ", [](auto &x, const auto &y) { x *= y; }); break;
                case 11: arith<typename O::div>("memory /= ", [](auto &x, const auto &y) { x /= y; }); break;
                case 12: compare("memory == ", [](T a, T b) { return a == b; }, [](const auto &x, const auto &y) { return x == y; }, false); break;
                case 13: compare("memory != ", [](T a, T b) { return a != b; }, [](const auto &x, const auto &y) { return x != y; }, true); break;
                case 14: compare("memory < ", [](T a, T b) { return a < b; }, [](const auto &x, const auto &y) { return x < y; }, false); compare("memory > ", [](T a, T b) { return a > b; }, [](const auto &x, const auto &y) { return x > y; }, false); break;
                case 15: compare("memory <= ", [](T a, T b) { return a <= b; }, [](const auto &x, const auto &y) { return x <= y; }, false); break;
                case 16: compare("memory >= ", [](T a, T b) { return a >= b; }, [](const auto &x, const auto &y) { return x >= y; }, false); break;
                }
            }
            s[0]->~M(); s[1]->~M();
        }
    }
};
// a run-time sized object of every small size, including none at all
template <class V> void sizes()
{
    using T = typename V::EntryType;
    const std::string k = key<V>("Memory(size)");
    OpCount oc(k);
    Rng r(k.c_str());
    for (size_t n = 0; n < 5 * V::Size + 3; ++n) {
        ev(mix(n) ^ hashStr(k.c_str()));
        snprintf(st().curDetail, sizeof st().curDetail, "size %d", int(n));
        std::vector<T> w(n); w.reserve(1);
        Vc::Memory<V> a(n), b(n);
        for (size_t i = 0; i < n; ++i) a[i] = w[i] = any<T>(r);
        const size_t vc = (n + V::Size - 1) / V::Size;
        if (a.entriesCount() != n || a.vectorsCount() != vc) fail(k, "size %d: entriesCount %d vectorsCount %d", int(n), int(a.entriesCount()), int(a.vectorsCount()));
        b = a; Vc::Memory<V> c(a); size_t it = 0;
        for (auto &v : c) { V x = v; v = x; ++it; }
        if (it != vc) fail(k, "size %d: %d vectors visited", int(n), int(it));
        c = static_cast<const T *>(w.data()); c.setZero(); c.swap(a);
        const T *p = b, *q = c;
        if (n) { check(k, p, w.data(), n, "assigned"); check(k, q, w.data(), n, "swapped"); }
        if (n && !(b == b) && std::is_integral<T>::value) fail(k, "size %d: not equal to itself", int(n));
    }
}
// run-time sized objects of many sizes, up to some thousand entries
template <class V> struct Dyn {
    using T = typename V::EntryType;
    using D = Vc::Memory<V>;
    using O = Oracle<T>;
    static constexpr size_t VS = V::Size;
    Rng r; Guarded g{16};
    Dyn() : r(("memory dyn" + vn<V>()).c_str()) {}
    std::string keyOf(const char *o) { return std::string("run-time sized ") + o + "/" + vn<V>() + "/" + VT_IMPL; }
    size_t size() { switch (r.below(8)) { case 0: return 1 + r.below(uint32_t(5 * VS)); case 1: case 2: case 3: return VS * (1 + r.below(40)) + r.below(3); case 4: case 5: return 1 + r.below(300); case 6: return 1 + r.below(3000); default: return (size_t(1) << r.below(12)) + r.below(3); } }
    T val() { return r.below(3) ? T(r.range(1, 100)) : any<T>(r); }
    std::vector<T> random(size_t n) { std::vector<T> x(n); for (auto &y : x) y = val(); return x; }
    static void put(D &x, const std::vector<T> &m) { for (size_t i = 0; i < m.size(); ++i) x[i] = m[i]; }
    void cmp(const char *o, const D &x, const std::vector<T> &m, const std::string &ctx)
    {
        const T *p = x;
        if (x.entriesCount() != m.size() || x.vectorsCount() != (m.size() + VS - 1) / VS) fail(keyOf(o), "entriesCount %d vectorsCount %d; %s", int(x.entriesCount()), int(x.vectorsCount()), ctx.c_str());
        for (size_t i = 0; i < m.size(); ++i) if (!same(T(p[i]), m[i])) { fail(keyOf(o), "entry %d is %s, expected %s; %s", int(i), str(p[i]).c_str(), str(m[i]).c_str(), ctx.c_str()); return; }
    }
    // the padding of a used object holds whatever the vector operations left there
    void dirty(D &x, size_t n) { if (n % VS) { V v = x.lastVector(); for (size_t i = n % VS; i < VS; ++i) v[i] = val(); x.lastVector() = v; } }
    template <class OP, class F> void arith(const char *o, D &x, std::vector<T> &m, const std::string &ctx, F f)
    {
        const OP op{}; const bool sc = r.coin() || !haveMM; T y = T(r.range(1, 90));
        std::vector<T> b(m.size());
        for (size_t i = 0; i < m.size(); ++i) { b[i] = sc ? y : T(r.range(1, 90)); if (!op.valid(m[i], b[i])) m[i] = T(r.range(0, 3)); }
        put(x, m);
        D z(m.size()); put(z, b);
        for (size_t i = 0; i < m.size(); ++i) m[i] = op(m[i], b[i]);
        if (sc) f(x, y); else VT_MM(f(x, z);)
        cmp(o, x, m, ctx + (sc ? " scalar" : " memory"));
        cmp(o, z, b, ctx + " (other operand)");
    }
    template <class P, class F> void compare(const char *o, D &x, std::vector<T> &m, const std::string &ctx, P p, F f, bool onlyUniform)
    {
        const int c = r.range(-1, 1); std::vector<T> b(m.size());
        for (size_t i = 0; i < m.size(); ++i) { m[i] = T(r.range(2, 100)); b[i] = T(m[i] + T(c)); }
        for (unsigned k = r.below(3); k; --k) { const size_t i = r.below(4) ? r.below(uint32_t(m.size())) : m.size() - 1; b[i] = T(m[i] + T(r.range(-1, 1))); }
        put(x, m); D z(m.size()); put(z, b); dirty(x, m.size()); dirty(z, b.size());
        bool all = true, none = true;
        for (size_t i = 0; i < m.size(); ++i) { const bool h = p(m[i], b[i]); all &= h; none &= !h; }
        const bool got = f(x, z);
        if ((all || !onlyUniform || none) && got != all) fail(keyOf(o), "is %d; %s", int(got), ctx.c_str());
    }
    void go(long n)
    {
        for (long it = 0; it < n; ++it) {
            const size_t s = size();
            const std::string ctx = "size " + std::to_string(s);
            snprintf(st().curDetail, sizeof st().curDetail, "%s", ctx.c_str());
            std::vector<T> m = random(s);
            const unsigned what = r.below(17);
            static const char *const names[] = {"construction", "copies", "assignment", "entries", "setZero", "vectors", "iteration", "+=", "-=", "*=", "/=", "==", "!=", "<", "<=", ">", ">="};
            OpCount oc(keyOf(names[what]));
            ev(mix(s) ^ hashBytes(m.data(), std::min<size_t>(s, 16) * sizeof(T), hashStr(names[what])));
            { void *junk = malloc(s * sizeof(T) + 64); memset(junk, 0xff, s * sizeof(T) + 64); free(junk); }
            D x(s);
            if (what == 0) {
                const T *p = x;
                for (size_t i = s; i < (s + VS - 1) / VS * VS; ++i) if (!(p[i] == T(0))) { fail(keyOf("construction"), "padding entry %d; %s", int(i), ctx.c_str()); break; }
                if (reinterpret_cast<uintptr_t>(p) % V::MemoryAlignment) fail(keyOf("construction"), "misaligned; %s", ctx.c_str());
            }
            put(x, m);
            if (r.coin()) dirty(x, s);
            switch (what) {
            case 0: cmp("construction", x, m, ctx); break;
            case 1: { D a(x); D b(s); b = x; cmp("copies", a, m, ctx); cmp("copies", b, m, ctx); const std::vector<T> o = random(s); put(a, o); cmp("copies", x, m, ctx); cmp("copies", b, m, ctx); cmp("copies", a, o, ctx);
                const size_t s2 = size(); D c(s2); const std::vector<T> m2 = random(s2); put(c, m2); if (r.coin()) std::swap(c, x); else c.swap(x); cmp("swap", c, m, ctx); cmp("swap", x, m2, ctx); break; }
            case 2: { if (s * sizeof(T) > g.size()) break; T *p = reinterpret_cast<T *>(g.end() - s * sizeof(T)); m = random(s); memcpy(p, m.data(), s * sizeof(T));
                if (!survives([&] { x = static_cast<const T *>(p); })) { fail(keyOf("assignment"), "read beyond the entries; %s", ctx.c_str()); break; } cmp("assignment", x, m, ctx); break; }
            case 3: for (int k = 0; k < 30; ++k) { const size_t i = r.below(uint32_t(s)); const T y = val(); x[i] = y; m[i] = y; const D &c = x; if (!same(T(c[i]), y) || !same(c.scalar(i), y)) fail(keyOf("entries"), "entry %d; %s", int(i), ctx.c_str()); } cmp("entries", x, m, ctx); break;
            case 4: x.setZero(); m.assign(s, T(0)); cmp("setZero", x, m, ctx); break;
            case 5: for (int k = 0; k < 20; ++k) {
                T y[VS], l[VS]; for (auto &z : y) z = val(); const V v = fromLanes<V>(y);
                const size_t vc = x.vectorsCount(), i = r.below(uint32_t(vc)), at = r.coin() ? i * VS : r.below(uint32_t((vc - 1) * VS + 1)), how = r.below(3);
                const D &c = x;
                toLanes(how == 0 ? V(c.vectorAt(at)) : how == 1 ? V(c.vector(i, int(at) - int(i * VS))) : V(x.vectorAt(at, Vc::Unaligned)), l);
                check(keyOf("vectors"), l, m.data() + at, std::min(VS, s - at), "at " + std::to_string(at) + " " + ctx);
                if (how == 0) x.vectorAt(at) = v; else if (how == 1) x.vector(i, int(at) - int(i * VS)) = v; else x.vectorAt(at, Vc::Unaligned) = v;
                for (size_t j = 0; j < VS && at + j < s; ++j) m[at + j] = y[j];
            } cmp("vectors", x, m, ctx); break;
            case 6: { size_t k = 0; for (auto &&v : x) { V t = v; T l[VS]; toLanes(t, l); check(keyOf("iteration"), l, m.data() + k * VS, std::min(VS, s - k * VS), ctx); v = V(T(k % 100)); ++k; }
                for (size_t i = 0; i < s; ++i) m[i] = T(i / VS % 100); if (k != x.vectorsCount()) fail(keyOf("iteration"), "%d vectors visited; %s", int(k), ctx.c_str()); cmp("iteration", x, m, ctx); break; }
            case 7: arith<typename O::add>("+=", x, m, ctx, [](auto &a, const auto &b) { a += b; }); break;
            case 8: arith<typename O::sub>("-=", x, m, ctx, [](auto &a, const auto &b) { a -= b; }); break;
            case 9: arith<typename O::mul>("*=", x, m, ctx, [](auto &a, const auto &b) { a *= b; }); break;
            case 10: arith<typename O::div>("/=", x, m, ctx, [](auto &a, const auto &b) { a /= b; }); break;
            case 11: compare("==", x, m, ctx, [](T a, T b) { return a == b; }, [](const D &a, const D &b) { return a == b; }, false); break;
            case 12: compare("!=", x, m, ctx, [](T a, T b) { return a != b; }, [](const D &a, const D &b) { return a != b; }, true); break;
            case 13: compare("<", x, m, ctx, [](T a, T b) { return a < b; }, [](const D &a, const D &b) { return a < b; }, false); break;
            case 14: compare("<=", x, m, ctx, [](T a, T b) { return a <= b; }, [](const D &a, const D &b) { return a <= b; }, false); break;
            case 15: compare(">", x, m, ctx, [](T a, T b) { return a > b; }, [](const D &a, const D &b) { return a > b; }, false); break;
            case 16: compare(">=", x, m, ctx, [](T a, T b) { return a >= b; }, [](const D &a, const D &b) { return a >= b; }, false); break;
            }
        }
    }
};
#ifndef VT_NS
#define VT_NS 1, 3, 7, 8, 9, 17, 24, 33
#endif
template <size_t... N> struct Nums {};
struct Do {
    template <class V> static void each(Nums<>) {}
    template <class V, size_t N, size_t... R> static void each(Nums<N, R...>) { { Hist<V, N> h; h.history(cases(150)); } each<V>(Nums<R...>()); }
    template <class V> void operator()(Tag<V>)
    {
        sizes<V>();
        { Dyn<V> d; d.go(cases(600)); }
        each<V>(Nums<VT_NS>());
        { Hist2<V, 3, 5> h; h.history(cases(100)); }
        { Hist2<V, 1, 8> h; h.history(cases(100)); }
        { Hist2<V, 5, 17> h; h.history(cases(100)); }
    }
};
namespace vt
{
void run()
{
    Do d; (void)d;
#ifdef VT_ARRAYS
    VT_ARRAYS
#else
    forNative(d);
#endif
}
}
