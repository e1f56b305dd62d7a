// C17: simd_for_each and simd_for_each_n next to a scalar loop over the same range
#include "szd.h"
#include <memory>
namespace {
template <class S> struct EN { static std::string get() { return SName<S>::get(); } };
#define VT_EN(T) template <> struct EN<T> { static std::string get() { return tn<T>(); } };
VT_EN(float) VT_EN(double) VT_EN(int) VT_EN(unsigned) VT_EN(short) VT_EN(unsigned short)
struct Stop {};

// what the calls of one functor saw
template <class S> struct Seen {
    std::vector<S> v;
    std::vector<int> w;
    bool misaligned = false;
    template <class V> void see(const V &x)
    {
        misaligned |= uintptr_t(&x) % alignof(V) != 0;
        for (size_t i = 0; i < V::Size; ++i) v.push_back(Lane<S, V>::get(x, i));
        w.push_back(int(V::Size));
    }
};
// functors that own their observations: the algorithm returns them
template <class S> struct Reader {
    Seen<S> seen;
    template <class V> void operator()(const V &x) { seen.see(x); }
};
template <class S> struct Changer {
    Seen<S> seen;
    const S *nw;
    template <class V> void operator()(V &x) { const S *p = nw + seen.v.size(); seen.see(x); x = Lane<S, V>::make(p); }
};
template <class S> struct ConstChanger {
    Seen<S> *seen;
    const S *nw;
    template <class V> void operator()(V &x) const { const S *p = nw + seen->v.size(); seen->see(x); x = Lane<S, V>::make(p); }
};

template <class S> struct PermIt {
    using iterator_category = std::random_access_iterator_tag; using value_type = S; using difference_type = std::ptrdiff_t; using pointer = S *; using reference = S &;
    S *b; const int *p;
    S &operator*() const { return b[*p]; }
    S *operator->() const { return b + *p; }
    S &operator[](difference_type i) const { return b[p[i]]; }
    PermIt &operator++() { ++p; return *this; }
    PermIt operator++(int) { PermIt t = *this; ++p; return t; }
    PermIt &operator--() { --p; return *this; }
    PermIt operator--(int) { PermIt t = *this; --p; return t; }
    PermIt &operator+=(difference_type i) { p += i; return *this; }
    PermIt &operator-=(difference_type i) { p -= i; return *this; }
    friend PermIt operator+(PermIt a, difference_type i) { a.p += i; return a; }
    friend PermIt operator+(difference_type i, PermIt a) { a.p += i; return a; }
    friend PermIt operator-(PermIt a, difference_type i) { a.p -= i; return a; }
    friend difference_type operator-(PermIt a, PermIt b) { return a.p - b.p; }
    friend bool operator==(PermIt a, PermIt b) { return a.p == b.p; }
    friend bool operator!=(PermIt a, PermIt b) { return a.p != b.p; }
    friend bool operator<(PermIt a, PermIt b) { return a.p < b.p; }
    friend bool operator>(PermIt a, PermIt b) { return a.p > b.p; }
    friend bool operator<=(PermIt a, PermIt b) { return a.p <= b.p; }
    friend bool operator>=(PermIt a, PermIt b) { return a.p >= b.p; }
};
template <class S> struct Alg {
    using O = Ops<S>;
    using V = Vc::simdize<S>;
    static constexpr size_t N = V::Size;
    std::string nm;
    Rng r;
    const char *place = "", *fn = "", *how = "";
    std::vector<S> m, nw;   // the elements before, the elements functors store
    Alg() : nm(EN<S>::get() + "=" + std::to_string(N) + "/" + VT_IMPL), r(("alg" + nm).c_str()) {}
    std::string key() const { return std::string(fn) + "(" + place + "," + how + ")/" + nm; }

    bool calls(const Seen<S> &s, size_t n)
    {
        if (s.misaligned) fail(key(), "the functor is called with a misaligned vector");
        if (s.v.size() != n) { fail(key(), "%d elements passed, range has %d", int(s.v.size()), int(n)); return false; }
        for (size_t i = 0; i < n; ++i) if (!O::eq(s.v[i], m[i])) { fail(key(), "element %d of %d passed as %s want %s", int(i), int(n), O::s(s.v[i]).c_str(), O::s(m[i]).c_str()); return false; }
        int narrow = 0;
        for (int w : s.w) { if (w != int(N) && w != 1) fail(key(), "called with %d elements", w); narrow += w == 1; }
        if (N > 1 && size_t(narrow) >= 2 * N) fail(key(), "called with %d single elements of %d", narrow, int(n));   // contiguous ranges only
        return true;
    }
    bool contiguous = true;
    template <class It> bool content(It b, size_t n, const std::vector<S> &want)
    {
        for (size_t i = 0; i < n; ++i) { const S g = b[long(i)]; if (!O::eq(g, want[i])) { fail(key(), "element %d of %d is %s want %s", int(i), int(n), O::s(g).c_str(), O::s(want[i]).c_str()); return false; } }
        return true;
    }
    template <class It, class F> F apply(It b, size_t n, F f)
    {
        if (r.coin()) { fn = "simd_for_each"; return Vc::simd_for_each(b, b + long(n), f); }
        fn = "simd_for_each_n"; return Vc::simd_for_each_n(b, n, f);
    }
    // functors that do not change their argument; It may be an iterator over const objects
    template <class It> void readers(It b, size_t n)
    {
        Seen<S> s;
        switch (r.below(4)) {
        case 0: how = "auto"; apply(b, n, [&](auto x) { s.see(x); x = decltype(x)(); }); calls(s, n); break;
        case 1: how = "const auto &"; apply(b, n, [&](const auto &x) { s.see(x); }); calls(s, n); break;
        case 2: { how = "returned functor"; Reader<S> f; f.seen.w.reserve(3); auto g = apply(b, n, f); calls(g.seen, n); if (!f.seen.v.empty()) fail(key(), "changed the functor passed by value"); } break;
        default: how = "const auto mutable"; { int calls_ = 0; apply(b, n, [&, c = 0](const auto x) mutable { s.see(x); calls_ = ++c; }); calls(s, n); if (calls_ != int(s.w.size())) fail(key(), "functor counted %d of %d calls", calls_, int(s.w.size())); } break;
        }
        content(b, n, m);
    }
    template <class It> void changers(It b, size_t n)
    {
        Seen<S> s;
        switch (r.below(6)) {
        case 0: how = "auto &"; apply(b, n, [&](auto &x) { const S *p = nw.data() + s.v.size(); s.see(x); using X = typename std::decay<decltype(x)>::type; x = Lane<S, X>::make(p); }); calls(s, n); content(b, n, nw); break;
        case 1: how = "auto &&"; apply(b, n, [&](auto &&x) { const S *p = nw.data() + s.v.size(); s.see(x); using X = typename std::decay<decltype(x)>::type; x = Lane<S, X>::make(p); }); calls(s, n); content(b, n, nw); break;
        case 2: { how = "returned changing functor"; Changer<S> f{Seen<S>(), nw.data()}; auto g = apply(b, n, f); calls(g.seen, n); content(b, n, nw); if (!f.seen.v.empty()) fail(key(), "changed the functor passed by value"); } break;
        case 3: how = "const operator()"; apply(b, n, ConstChanger<S>{&s, nw.data()}); calls(s, n); content(b, n, nw); break;
        case 4: { how = "functor that writes the range itself";   // nothing may be written back over it
            size_t p = 0; apply(b, n, [&](auto x) { s.see(x); for (size_t i = 0; i < decltype(x)::Size; ++i, ++p) b[long(p)] = nw[p]; }); calls(s, n); content(b, n, nw); } break;
        default: { how = "exception"; const int stop = r.range(0, int(n / N) + 3); int c = 0; size_t done = 0;
            try { apply(b, n, [&](auto &x) { if (c++ == stop) throw Stop(); const S *p = nw.data() + s.v.size(); s.see(x); using X = typename std::decay<decltype(x)>::type; x = Lane<S, X>::make(p); done += X::Size; }); if (c > stop) fail(key(), "swallowed the exception"); }
            catch (Stop) {}
            if (c <= stop && done != n) fail(key(), "%d of %d elements", int(done), int(n));
            // elements of completed calls have their new value, those after the call that threw their old one
            std::vector<S> want(m);
            for (size_t i = 0; i < done && i < n; ++i) want[i] = nw[i];
            content(b, n, want); } break;
        }
    }
    void fresh(size_t n) { m.resize(n); nw.resize(n); for (auto &x : m) x = O::any(r); for (auto &x : nw) x = O::any(r); nw.reserve(1); }
    uint64_t note(size_t n, uint64_t c) { uint64_t h = hashStr(nm.c_str()) ^ c; for (size_t i = 0; i < n; ++i) h = O::h(m[i], h); return ev(mix(h ^ hashStr(key().c_str()))), h; }

    void run(long hist)
    {
        OpCount oc("simd_for_each/" + nm);
        static VT_TLS Guarded g(2);
        for (long h = 0; h < hist; ++h) {
            size_t n = r.below(6) ? r.below(uint32_t(4 * N + 3)) : r.below(uint32_t(g.size() / sizeof(S)));
            if (r.below(20) == 0) n = 0;
            n = std::min(n, g.size() / sizeof(S));
            fresh(n);
            const unsigned kind = r.below(10);
            switch (kind) {
            case 0: case 1: case 2: {   // pointers, ending or starting at an inaccessible page or anywhere
                g.fill(0x3c);
                const size_t room = g.size() - n * sizeof(S);
                char *c = kind == 0 ? g.end() - n * sizeof(S) : kind == 1 ? g.begin() : g.begin() + r.below(uint32_t(room / sizeof(S)) + 1) * sizeof(S);
                S *b = reinterpret_cast<S *>(c);
                for (size_t i = 0; i < n; ++i) new (b + i) S(m[i]);
                if (r.coin()) { place = "const pointer"; const bool ro = r.coin(); if (ro) g.readonly(true); readers(static_cast<const S *>(b), n); if (ro) g.readonly(false); }
                else if (r.coin()) { place = "pointer"; const bool ro = r.coin(); if (ro) { g.readonly(true); place = "pointer to read-only page"; } readers(b, n); if (ro) g.readonly(false); }
                else { place = "pointer"; changers(b, n); }
                for (char *x = g.begin(); x < g.end(); ++x) if ((x < c || x >= c + n * sizeof(S)) && *x != 0x3c) { fail(key(), "byte %d outside the range written", int(x - c)); break; }
            } break;
            case 3: case 4: {
                std::vector<S> c(m.begin(), m.end()); if (n == 0) std::vector<S>().swap(c);
                c.shrink_to_fit(); place = "std::vector";
                if (r.coin()) readers(static_cast<const std::vector<S> &>(c).begin(), n); else if (r.coin()) readers(c.begin(), n); else changers(c.begin(), n);
            } break;
            case 5: {   // part of a vector
                const size_t pre = r.below(9), post = r.below(9);
                std::vector<S> c(pre, S{}); c.insert(c.end(), m.begin(), m.end()); c.insert(c.end(), post, S{}); place = "part of a std::vector";
                if (r.coin()) readers(c.begin() + long(pre), n); else changers(c.begin() + long(pre), n);
                for (size_t i = 0; i < c.size(); ++i) if ((i < pre || i >= pre + n) && !O::eq(c[i], S{})) { fail(key(), "element %d outside the range changed", int(i) - int(pre)); break; }
            } break;
            case 6: {
                Vc::vector<S> c(m.begin(), m.end()); place = "Vc::vector";
                if (r.coin()) readers(c.begin(), n); else changers(c.begin(), n);
            } break;
            case 7: {
                std::deque<S> c; const size_t skip = r.below(200); for (size_t i = 0; i < skip; ++i) c.push_back(S{}); for (auto &x : m) c.push_back(x);
                if (r.coin()) for (size_t i = 0; i < skip; ++i) c.pop_front(); else { }
                const long off = long(c.size() - n);
                place = "std::deque";
                if (r.coin()) readersD(c.cbegin() + off, n); else changersD(c.begin() + off, n);
            } break;
            case 8: {   // an iterator that visits the objects of an array in an order of its own
                std::vector<int> p(n + 1); for (size_t i = 0; i <= n; ++i) p[i] = int(i);
                if (n > 1) for (size_t k = r.below(3) ? 1 + r.below(uint32_t(n)) : 1; k; --k) { const size_t a = r.below(uint32_t(n - 1)), b = std::min(n - 1, a + 1 + r.below(r.coin() ? 2 : 20)); std::swap(p[a], p[b]); }
                std::vector<S> c(n, S{}); for (size_t i = 0; i < n; ++i) c[size_t(p[i])] = m[i];
                place = "permuting iterator";
                if (r.coin()) readersD(PermIt<S>{c.data(), p.data()}, n); else changersD(PermIt<S>{c.data(), p.data()}, n);
            } break;
            default: {
                std::vector<S> c(m.rbegin(), m.rend()); place = "reverse iterator"; 
                if (r.coin()) readersD(c.crbegin(), n); else changersD(c.rbegin(), n);
            } break;
            }
            note(n, kind);
            if (wantSample()) sample("%s n=%d", key().c_str(), int(n));
        }
    }
    
    // the same without the demand for wide calls
    template <class It> void readersD(It b, size_t n)
    {
        Seen<S> s; how = "const auto &"; apply(b, n, [&](const auto &x) { s.see(x); }); s.w.clear(); calls(s, n); content(b, n, m);
    }
    template <class It> void changersD(It b, size_t n)
    {
        Seen<S> s; how = "auto &";
        apply(b, n, [&](auto &x) { const S *p = nw.data() + s.v.size(); s.see(x); using X = typename std::decay<decltype(x)>::type; x = Lane<S, X>::make(p); });
        s.w.clear(); calls(s, n); content(b, n, nw);
    }
};
template <class S> void alg(long n = 400) { Alg<S> a; a.run(cases(n)); }
}
namespace vt {
void run()
{
    forTypes(TheTypes(), [](auto tag) {
        using T = typename decltype(tag)::type;
#if !defined VT_GRP || VT_GRP == 0
        alg<T>();
#endif
#if !defined VT_GRP || VT_GRP == 1
        alg<P3<T>>(); alg<std::tuple<T, T>>();
#endif
#if !defined VT_GRP || VT_GRP == 2
        alg<std::pair<T, T>>(); alg<std::array<T, 4>>(); alg<P8<T>>();
#endif
    });
}
}
