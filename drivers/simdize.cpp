// C16: simdize<T> objects and simdize<Iterator> next to an array of scalar objects
#include "szd.h"
#include "scalarops.h"
using namespace vt;
// ------------------------------------------------------------------ objects
template <class S, size_t W, class V, bool Arr> struct Obj {
    static constexpr size_t N = V::Size;
    using O = Sc<S>;
    using L = Lane<S, V>;
    std::string nm = SName<S>::get() + "," + std::to_string(W) + "=" + std::to_string(N) + "/" + VT_IMPL;
    Rng r{("obj" + nm).c_str()};
    struct Box { V v; S m[N]; };
    static constexpr int K = 3;

    bool sameAs(const char *op, const V &v, const S *m, const char *what)
    {
        for (size_t i = 0; i < N; ++i) {
            const S g = L::get(v, i);
            if (!O::eq(g, m[i])) { fail(std::string(op) + "/" + nm, "%s, lane %d: %s want %s", what, int(i), O::s(g).c_str(), O::s(m[i]).c_str()); return false; }
        }
        return true;
    }
    void run(long hist)
    {
        OpCount oc("simdize/" + nm);
        static Vc::Allocator<Box> al;
        Box *b = al.allocate(K);
        for (long h = 0; h < hist; ++h) {
            for (int k = 0; k < K; ++k) { for (auto &x : b[k].m) x = O::any(r); new (&b[k].v) V(L::make(b[k].m)); }
            uint64_t hs = mix(uint64_t(h) ^ hashStr(nm.c_str()));
            for (int step = 0; step < 12; ++step) {
                const int k = int(r.below(K)), j = int(r.below(K));
                V &v = b[k].v; S *m = b[k].m; V &w = b[j].v; S *mw = b[j].m;
                const size_t i = r.below(N), i2 = r.below(N);
                const S s = O::any(r);
                const unsigned op = r.below(24);
                const char *name = "?";
                switch (op) {
                case 0: name = "V(s)"; v = V(s); for (auto &x : b[k].m) x = s; break;
                case 1: name = "V(generator)"; { std::vector<S> p(N); for (auto &x : p) x = O::any(r); size_t calls = 0, wrong = 0; V t([&](size_t n) { wrong += n != calls++; return p[n < N ? n : 0]; });
                        if (calls != N || wrong) fail("V(generator)/" + nm, "generator called %d times, %d out of order", int(calls), int(wrong));
                        v = t; for (size_t n = 0; n < N; ++n) m[n] = p[n]; } break;
                case 2: name = "assign(v, i, s)"; assign(v, i, s); m[i] = s; break;
                case 3: name = "decorate(v)[i] = s"; decorate(v)[i] = s; m[i] = s; break;
                case 4: name = "extract"; { const S g = extract(v, i); if (!O::eq(g, m[i])) fail("extract/" + nm, "%s want %s", O::s(g).c_str(), O::s(m[i]).c_str()); } break;
                case 5: name = "s = decorate(v)[i]"; { const S g = decorate(v)[i]; if (!O::eq(g, m[i])) fail("s = decorate(v)[i]/" + nm, "%s want %s", O::s(g).c_str(), O::s(m[i]).c_str()); } break;
                case 6: name = "s = decorate(const v)[i]"; { const V &c = v; const S g = decorate(c)[i]; if (!O::eq(g, m[i])) fail("s = decorate(const v)[i]/" + nm, "%s want %s", O::s(g).c_str(), O::s(m[i]).c_str()); } break;
                case 7: name = "swap(v, i, s)"; { S t = s; swap(v, i, t); if (!O::eq(t, m[i])) fail("swap(v, i, s)/" + nm, "s became %s want %s", O::s(t).c_str(), O::s(m[i]).c_str()); m[i] = s; } break;
                case 8: name = "swap(s, decorate(v)[i])"; { S t = s; std::swap(t, decorate(v)[i]); if (!O::eq(t, m[i])) fail("swap(s, decorate(v)[i])/" + nm, "s became %s want %s", O::s(t).c_str(), O::s(m[i]).c_str()); m[i] = s; } break;
                case 9: name = "swap(decorate(v)[i], s)"; { S t = s; std::swap(decorate(v)[i], t); if (!O::eq(t, m[i])) fail("swap(decorate(v)[i], s)/" + nm, "s became %s want %s", O::s(t).c_str(), O::s(m[i]).c_str()); m[i] = s; } break;
                case 10: name = "swap(v, i, w, j)"; swap(v, i, w, i2); std::swap(m[i], mw[i2]); break;
                case 11: name = "swap(decorate(v)[i], decorate(w)[j])"; std::swap(decorate(v)[i], decorate(w)[i2]); std::swap(m[i], mw[i2]); break;
                case 12: case 13: name = op == 12 ? "shifted" : "decorate.shifted"; { const int n = r.range(-int(N), int(N)); const V &c = v; V t = op == 12 ? shifted(c, n) : decorate(c).shifted(n);
                         std::vector<S> p(N); for (size_t q = 0; q < N; ++q) { const int from = int(q) + n; p[q] = from >= 0 && from < int(N) ? m[from] : S{}; }
                         v = t; for (size_t q = 0; q < N; ++q) m[q] = p[q]; } break;
                case 14: name = "copy construct"; { V t(w); assign(w, i, s); v = t; if (k != j) { for (size_t q = 0; q < N; ++q) m[q] = mw[q]; mw[i] = s; } } break;
                case 15: name = "assign"; v = w; for (size_t q = 0; q < N; ++q) m[q] = mw[q]; break;
                case 16: name = "move"; { V t(std::move(v)); v = std::move(w); w = std::move(t); if (k != j) for (size_t q = 0; q < N; ++q) std::swap(m[q], mw[q]); } break;
                case 17: name = "new V"; { V *p = new V(v); if (uintptr_t(p) % alignof(V)) fail("new V/" + nm, "misaligned"); v = V(s); v = *p; delete p; } break;
                case 18: name = "std::vector<V>"; { std::vector<V> c(3, v); c.push_back(w); c.insert(c.begin(), V(s)); bool al_ = true; for (auto &x : c) al_ &= uintptr_t(&x) % alignof(V) == 0; if (!al_) fail("std::vector<V>/" + nm, "misaligned"); v = c[1]; sameAs("std::vector<V>", c[4], mw, "pushed"); } break;
                case 19: name = "V{}"; { V t{}; v = t; for (auto &x : b[k].m) x = S{}; } break;
                default: name = other(op - 20, v, m, w, mw, s); break;
                }
                hs = mix(hs ^ (op * 64 + unsigned(k * 8 + j)) ^ i << 20) ^ O::h(s, 1);
                ev(hs);
                for (int q = 0; q < K; ++q) if (!sameAs(name, b[q].v, b[q].m, q == k ? "the object" : "another object")) { for (auto &x : b[q].m) x = O::any(r); b[q].v = L::make(b[q].m); }
            }
        }
        if (wantSample() && hist) sample("%s: %s", nm.c_str(), O::s(b[0].m[0]).c_str());
        al.deallocate(b, K);
    }
    const char *other(unsigned op, V &v, S *m, V &w, S *mw, const S &s)
    {
        return op < 2 ? whereOps(v, m, w, mw, std::integral_constant<bool, !anyBool<S>()>()) : op == 2 ? interl(v, m, std::integral_constant<bool, Homog<S>::value && !Arr>()) : memberOps(v, m, s, std::integral_constant<bool, !anyBool<S>()>());
    }
    const char *whereOps(V &, S *, V &, S *, std::false_type) { return "-"; }
    template <class A> struct Valid { static bool ok(int o, A a, A b) { typename Oracle<A>::add ad; typename Oracle<A>::sub su; typename Oracle<A>::mul mu; return o == 1 ? ad.valid(a, b) : o == 2 ? su.valid(a, b) : o == 3 ? mu.valid(a, b) : true; } };
    const char *whereOps(V &v, S *m, V &w, S *mw, std::true_type)
    {
        using M = typename std::decay<decltype(mem<0>(v, 0) == mem<0>(v, 0))>::type;
        const auto bits = Bits<N>::gen(r);
        const M k = maskFromBits<M>(bits.a);
        const int o = r.range(0, 5);
        std::vector<S> nw(N);
        // masked operations evaluate all lanes; keep them all defined
        bool valid = true;
        O::each([&](auto c) { for (size_t q = 0; q < N; ++q) valid &= Valid<typename O::template Mem<c>>::ok(o, mem<c>(m[q], 0), mem<c>(mw[q], 0)); });
        if (!valid) { for (size_t q = 0; q < N; ++q) m[q] = O::small(r); v = L::make(m);
            O::each([&](auto c) { for (size_t q = 0; q < N; ++q) valid &= &v != &w && Valid<typename O::template Mem<c>>::ok(o, mem<c>(m[q], 0), mem<c>(mw[q], 0)); });
            if (!valid) return "-"; }
        for (size_t q = 0; q < N; ++q) {
            nw[q] = m[q];
            if (bits.a[q]) O::each([&](auto c) {
                using A = typename O::template Mem<c>;
                const A a = mem<c>(m[q], 0), b = mem<c>(mw[q], 0);
                mem<c>(nw[q], 0) = o == 1 ? typename Oracle<A>::add()(a, b) : o == 2 ? typename Oracle<A>::sub()(a, b) : o == 3 ? typename Oracle<A>::mul()(a, b) : o == 4 ? b : o == 5 ? b : b;
            });
        }
        switch (o) {
        case 1: where(k) | v += w; break;
        case 2: where(k) | v -= w; break;
        case 3: where(k) | v *= w; break;
        default: where(k) | v = w; break;
        }
        for (size_t q = 0; q < N; ++q) m[q] = nw[q];
        return o == 1 ? "where(k) | v += w" : o == 2 ? "where(k) | v -= w" : o == 3 ? "where(k) | v *= w" : "where(k) | v = w";
    }
    const char *interl(V &, S *, std::false_type) { return "-"; }
    const char *interl(V &v, S *m, std::true_type)
    {
        static VT_TLS Guarded g(2);
        const size_t bytes = N * sizeof(S);
        char *p = r.coin() ? g.end() - bytes : g.begin();
        g.fill(0xa5);
        S *d = reinterpret_cast<S *>(p);
        if (r.coin()) {
            for (size_t q = 0; q < N; ++q) { m[q] = O::any(r); new (d + q) S(m[q]); }
            g.readonly(true);
            load_interleaved(v, static_cast<const S *>(d));
            g.readonly(false);
            return "load_interleaved";
        }
        const V &c = v;
        store_interleaved(c, d);
        for (size_t q = 0; q < N; ++q) if (!O::eq(d[q], m[q])) { fail("store_interleaved/" + nm, "object %d: %s want %s", int(q), O::s(d[q]).c_str(), O::s(m[q]).c_str()); break; }
        for (char *x = g.begin(); x < g.end(); ++x) if ((x < p || x >= p + bytes) && uint8_t(*x) != 0xa5) { fail("store_interleaved/" + nm, "byte %d of %d written", int(x - p), int(bytes)); break; }
        return "store_interleaved";
    }
    const char *memberOps(V &, S *, const S &, std::false_type) { return "-"; }
    const char *memberOps(V &v, S *m, const S &, std::true_type) { return method(v, m, std::is_same<S, P3<typename O::template Mem<0>>>()); }
    const char *method(V &, S *, std::false_type) { return "-"; }
    const char *method(V &v, S *m, std::true_type)
    {
        using A = typename O::template Mem<0>;
        typename Oracle<A>::mul mu; typename Oracle<A>::add ad;
        v.turn(); for (size_t q = 0; q < N; ++q) m[q].turn();
        for (size_t q = 0; q < N; ++q) { const S &x = m[q]; if (!mu.valid(x.x, x.x) || !mu.valid(x.y, x.z) || !ad.valid(mu(x.x, x.x), mu(x.y, x.z))) return "method"; }
        auto p = v.poly();
        for (size_t q = 0; q < N; ++q) { const S &x = m[q]; const A want = ad(mu(x.x, x.x), mu(x.y, x.z)); if (!same<A>(A(p[q]), want)) { fail("method/" + nm, "lane %d: %s want %s", int(q), str(A(p[q])).c_str(), str(want).c_str()); break; } }
        return "method";
    }
};

// ------------------------------------------------------------------ iterators
template <class C> struct CName;
template <class S, class A> struct CName<std::vector<S, A>> { static const char *get() { return "vector"; } };
template <class S> struct CName<std::list<S>> { static const char *get() { return "list"; } };
template <class S> struct CName<std::deque<S>> { static const char *get() { return "deque"; } };
template <class S> struct CName<std::forward_list<S>> { static const char *get() { return "forward_list"; } };
template <class S> struct EName { static std::string get() { return SName<S>::get(); } };
#define EN(T) template <> struct EName<T> { static std::string get() { return tn<T>(); } };
EN(float) EN(double) EN(int) EN(unsigned) EN(short) EN(unsigned short)

template <class C, size_t W> struct Iter {
    using S = typename C::value_type;
    using O = Ops<S>;
    using It = typename C::iterator;
    using CIt = typename C::const_iterator;
    using VI = Vc::simdize<It, W>;
    using VCI = Vc::simdize<CIt, W>;
    using V = typename VI::value_type;
    static constexpr size_t N = VI::Size;
    using L = Lane<S, V>;
    using Cat = typename std::iterator_traits<It>::iterator_category;
    static constexpr bool RA = std::is_base_of<std::random_access_iterator_tag, Cat>::value;
    static constexpr bool BI = std::is_base_of<std::bidirectional_iterator_tag, Cat>::value;
    std::string nm = std::string(CName<C>::get()) + "<" + EName<S>::get() + ">," + std::to_string(W) + "=" + std::to_string(N) + "/" + VT_IMPL;
    Rng r{("iter" + nm).c_str()};
    C c; std::vector<S> m; size_t total = 0, off = 0, chunks = 0;
    std::string k(const char *op) const { return std::string(op) + "/" + nm; }

    void sync(const char *op)
    {
        size_t i = 0;
        for (const S &x : c) {
            if (!O::eq(x, m[i])) { fail(k(op), "element %d of %d: %s want %s", int(i), int(total), O::s(x).c_str(), O::s(m[i]).c_str()); const_cast<S &>(x) = m[i]; }
            ++i;
        }
    }
    template <class X> void same_(const char *op, const X &v, size_t chunk)
    {
        const V &t = v;
        for (size_t i = 0; i < N; ++i) { const S g = L::get(t, i); const S &w = m[off + chunk * N + i]; if (!O::eq(g, w)) { fail(k(op), "lane %d at element %d: %s want %s", int(i), int(off + chunk * N), O::s(g).c_str(), O::s(w).c_str()); return; } }
    }
    It at(size_t i) { It x = c.begin(); std::advance(x, i); return x; }
    V gen(size_t chunk) { std::vector<S> p(N); for (size_t i = 0; i < N; ++i) m[off + chunk * N + i] = p[i] = O::any(r); return L::make(p.data()); }

    void run(long hist)
    {
        OpCount oc("simdize<iterator>/" + nm);
        for (long h = 0; h < hist; ++h) {
            off = r.below(4) ? r.below(9) : 0; chunks = 1 + r.below(r.coin() ? 4 : 40); total = off + chunks * N + (r.coin() ? r.below(N) : 0);
            c.clear(); m.resize(total);
            for (auto &x : m) x = O::any(r);
            c.assign(m.begin(), m.end()); shrink(c);
            uint64_t hs = mix(uint64_t(h) ^ hashStr(nm.c_str()) ^ total << 20 ^ off);
            VI it = at(off);
            const VI end = at(off + chunks * N);
            size_t p = 0;
            if (!(static_cast<const It &>(it) == at(off))) fail(k("cast"), "does not give the scalar iterator");
            // a plain loop over everything
            { size_t n = 0; for (VI x = at(off); x != end && n <= chunks; ++x, ++n) { if (n < chunks) { const V v = *x; same_("loop", v, n); } } if (n != chunks) fail(k("loop"), "%d steps for %d chunks", int(n), int(chunks)); }
            { size_t n = 0; const VCI ce = CIt(at(off + chunks * N)); for (VCI x = CIt(at(off)); x != ce && n <= chunks; ++x, ++n) { if (n < chunks) { const V v = *x; same_("const loop", v, n); } } if (n != chunks) fail(k("const loop"), "%d steps for %d chunks", int(n), int(chunks)); }
            for (int step = 0; step < 10; ++step) {
                const unsigned op = r.below(22);
                const char *name = "?";
                const VI &ci = it;
                switch (op) {
                case 0: name = "++it"; if (p < chunks) { auto &q = ++it; ++p; if (static_cast<void *>(&q) != &it) fail(k(name), "returns something else"); } break;
                case 1: name = "it++"; if (p < chunks) { auto q = it++; if (!(static_cast<const It &>(q) == at(off + p * N))) fail(k(name), "wrong result"); ++p; } break;
                case 2: name = "*it"; if (p < chunks) { const V v = *it; same_(name, v, p); } break;
                case 3: name = "*const it"; if (p < chunks) { const V v = *ci; same_(name, v, p); } break;
                case 4: name = "*it = v"; if (p < chunks) { const V v = gen(p); *it = v; } break;
                case 5: name = "auto &&ref = *it; ref = v"; if (p < chunks) { auto &&ref = *it; same_(name, ref, p); const V v = gen(p); ref = v; same_(name, ref, p); } break;
                case 6: name = "it->"; if (p < chunks) { same_(name, *it.operator->().operator->(), p); } break;
                case 7: name = "const it->"; if (p < chunks) { same_(name, *ci.operator->().operator->(), p); } break;
                case 8: name = "write through it->"; if (p < chunks) { const V v = gen(p); *it.operator->().operator->() = v; } break;
                case 9: name = "compare"; compare(it, p); break;
                case 10: name = "it = scalar iterator"; { p = r.below(uint32_t(chunks) + 1); it = at(off + p * N); } break;
                case 11: name = "copy"; { VI q(it); VI q2; q2 = q; if (p < chunks) ++it; if (!(q2 == VI(at(off + p * N)))) fail(k(name), "moved with the original"); it = q2; } break;
                case 12: name = "cast"; if (!(static_cast<const It &>(it) == at(off + p * N))) fail(k(name), "wrong scalar position"); break;
                case 13: name = "*it++ = v"; if (p < chunks) { const V v = gen(p); *it++ = v; ++p; } break;
                default: name = more(op - 14, it, p, std::integral_constant<int, RA ? 2 : BI ? 1 : 0>()); break;
                }
                hs = mix(hs ^ op << 8 ^ p); ev(hs);
                if (!(static_cast<const It &>(it) == at(off + p * N))) { fail(k(name), "iterator is not at chunk %d", int(p)); it = at(off + p * N); }
                sync(name);
            }
        }
    }
    static void shrink(std::vector<S> &v) { v.shrink_to_fit(); }
    template <class X> static void shrink(X &) {}
    void compare(const VI &it, size_t p)
    {
        const size_t q = r.below(uint32_t(chunks) + 1);
        const VI o = at(off + q * N);
        if ((it == o) != (p == q) || (it != o) != (p != q) || (o == it) != (p == q) || (o != it) != (p != q)) fail(k("== !="), "chunks %d and %d", int(p), int(q));
        order(it, p, std::integral_constant<bool, RA>());
    }
    void order(const VI &, size_t, std::false_type) {}
    void order(const VI &it, size_t p, std::true_type)
    {
        const size_t e = r.below(uint32_t(total) + 1);   // any element
        const VI o = at(e);
        const long d = long(e) - long(off + p * N);
        if ((it < o) != (d >= long(N))) fail(k("<"), "distance %ld of %d", d, int(N));
        if ((it > o) != (-d >= long(N))) fail(k(">"), "distance %ld of %d", d, int(N));
        if ((o > it) != (d >= long(N))) fail(k(">"), "distance %ld of %d", -d, int(N));
        if (d % long(N) == 0) {
            if (N > 1 || d) { if ((it <= o) != (d > 0 || (N == 1 && d == 0))) fail(k("<="), "distance %ld of %d", d, int(N)); if ((it >= o) != (d < 0 || (N == 1 && d == 0))) fail(k(">="), "distance %ld of %d", d, int(N)); }
            if (o - it != d / long(N)) fail(k("it - it"), "%ld want %ld", long(o - it), d / long(N));
        }
    }
    const char *more(unsigned, VI &, size_t &, std::integral_constant<int, 0>) { return "-"; }
    const char *more(unsigned op, VI &it, size_t &p, std::integral_constant<int, 1>)
    {
        if (!p) return "-";
        if (op & 1) { auto &q = --it; --p; if (static_cast<void *>(&q) != &it) fail(k("--it"), "returns something else"); return "--it"; }
        auto q = it--; if (!(static_cast<const It &>(q) == at(off + p * N))) fail(k("it--"), "wrong result"); --p; return "it--";
    }
    const char *more(unsigned op, VI &it, size_t &p, std::integral_constant<int, 2>)
    {
        const size_t q = r.below(uint32_t(chunks) + 1);
        const long d = long(q) - long(p);
        const VI &ci = it;
        switch (op) {
        case 0: case 1: return more(op, it, p, std::integral_constant<int, 1>());
        case 2: it += d; p = q; return "it += n";
        case 3: it -= -d; p = q; return "it -= n";
        case 4: if (r.coin()) { VI x = ci + d; it = x; } else { VI x = d + ci; it = x; } p = q; return "it + n";
        case 5: { VI x = ci - (-d); it = x; p = q; return "it - n"; }
        case 6: if (q < chunks) { const V v = it[d]; same_("it[n]", v, q); (void)ci; } return "it[n]";
        default: if (q < chunks) { const V v = gen(q); it[d] = v; } return "it[n] = v";
        }
    }
};
// pointer iterators over memory that ends at an inaccessible page
template <class S, size_t W> void pointers()
{
    using VI = Vc::simdize<S *, W>; using VCI = Vc::simdize<const S *, W>; using V = typename VI::value_type; using O = Ops<S>; using L = Lane<S, V>;
    constexpr size_t N = VI::Size;
    const std::string key = "simdize<pointer>/" + EName<S>::get() + "*," + std::to_string(W) + "=" + std::to_string(N) + "/" + VT_IMPL;
    OpCount oc(key);
    Rng r(key.c_str());
    static VT_TLS Guarded g(2);
    for (long h = 0, n = cases(200); h < n; ++h) {
        const size_t chunks = 1 + r.below(6), cnt = chunks * N;
        g.fill(0x3c);
        S *b = reinterpret_cast<S *>(r.coin() ? g.end() - cnt * sizeof(S) : g.begin());
        std::vector<S> m(cnt); for (size_t i = 0; i < cnt; ++i) new (b + i) S(m[i] = O::any(r));
        VI it = b; VCI ci = static_cast<const S *>(b);
        const VCI ce = static_cast<const S *>(b + cnt);
        for (size_t c = 0; c < chunks; ++c) {
            std::vector<S> p(N); for (auto &x : p) x = O::any(r);
            { const V v = *ci; for (size_t i = 0; i < N; ++i) if (!O::eq(L::get(v, i), m[c * N + i])) { fail(key, "read lane %d of chunk %d", int(i), int(c)); break; } }
            if (r.coin()) { it[long(c)] = L::make(p.data()); for (size_t i = 0; i < N; ++i) m[c * N + i] = p[i]; }
            else { VI x = it + long(c); *x = L::make(p.data()); for (size_t i = 0; i < N; ++i) m[c * N + i] = p[i]; }
            ev(O::h(p[0], h * 64 + c));
            ++ci;
        }
        if (ci != ce) fail(key, "end not reached");
        for (size_t i = 0; i < cnt; ++i) if (!O::eq(b[i], m[i])) { fail(key, "element %d: %s want %s", int(i), O::s(b[i]).c_str(), O::s(m[i]).c_str()); break; }
        for (char *x = g.begin(); x < g.end(); ++x) if ((x < (char *)b || x >= (char *)(b + cnt)) && *x != 0x3c) { fail(key, "byte %d written", int(x - (char *)b)); break; }
    }
}

template <class S, size_t W = 0> void obj(long n = 60)
{
    using V = Vc::simdize<S, W>;
    static_assert(W == 0 || V::Size == W, "width");
    static_assert(std::is_same<typename V::scalar_type, S>::value, "scalar_type");
    Obj<S, W, V, (Vc::Traits::is_simd_vector<typename std::decay<decltype(mem<0>(std::declval<V &>(), 0))>::type>::value && Vc::Traits::isSimdArray<typename std::decay<decltype(mem<0>(std::declval<V &>(), 0))>::type>::value)> o;
    o.run(cases(n));
}
template <class C, size_t W = 0> void iter(long n = 40) { Iter<C, W> i; i.run(cases(n)); }
namespace vt {
void run()
{
    forTypes(TheTypes(), [](auto tag) {
        using T = typename decltype(tag)::type;
#if !defined VT_GRP || VT_GRP == 0
        obj<P3<T>>(); obj<P2<T>>(); obj<P8<T>>(); obj<std::array<T, 3>>(); obj<std::pair<T, T>>();
        obj<P3<T>, 5>(); obj<std::array<T, 4>, 8>(); obj<P4r<T>>();
#endif
#if !defined VT_GRP || VT_GRP == 1
        obj<std::tuple<T>>(); obj<std::tuple<T, T>>(); obj<std::tuple<T, double>>(); obj<std::tuple<T, int, bool>>(); obj<std::tuple<bool, T, short>, 4>();
        obj<Two<T, float>>(); obj<Two<T, short>>(); obj<std::pair<T, unsigned short>, 3>(); obj<std::tuple<T, T, T>, 1>();
#endif
#if !defined VT_GRP || VT_GRP == 2
        iter<std::vector<T>>(); iter<std::list<T>>(); iter<std::deque<T>>(); iter<std::forward_list<T>>(); iter<std::vector<T>, 3>(); iter<std::list<T>, 16>(); iter<std::deque<T>, 5>();
        pointers<T, 0>(); pointers<T, 7>();
#endif
#if !defined VT_GRP || VT_GRP == 3
        iter<std::vector<P3<T>>>(); iter<std::list<std::tuple<T, float>>>(); iter<std::deque<std::pair<T, int>>>(); iter<std::vector<std::array<T, 2>>, 4>(); iter<std::forward_list<P2<T>>, 2>();
        pointers<P3<T>, 0>(); pointers<std::tuple<T, short>, 3>();
#endif
    });
}
}
