// C18: Vc::array, Vc::vector, Vc::span and makeContainer next to the standard containers
#include "vtvc.h"
#include <Vc/array>
#include <Vc/vector>
#include <Vc/span>
#include <Vc/Utils>
#include <deque>
#include <list>
using namespace vt;
namespace {
template <class T> struct Rec {
    T x; short k; T z[2];
    friend bool operator==(const Rec &a, const Rec &b) { return a.x == b.x && a.k == b.k && a.z[0] == b.z[0] && a.z[1] == b.z[1]; }
    friend bool operator<(const Rec &a, const Rec &b) { return a.x < b.x || (a.x == b.x && a.k < b.k); }
};
template <class E> struct El {   // arithmetic
    static std::string name() { return tn<E>(); }
    static E any(Rng &r) { return r.below(3) ? E(r.range(0, 3)) : vt::any<E>(r); }
    static bool eq(E a, E b) { return same<E>(a, b); }
    static std::string s(E a) { return str(a); }
    static uint64_t h(E a) { return hashBytes(&a, sizeof a, 1); }
};
template <class T> struct El<Rec<T>> {
    using E = Rec<T>;
    static std::string name() { return std::string("Rec<") + tn<T>() + ">"; }
    static E any(Rng &r) { E e; e.x = El<T>::any(r); e.k = short(r.range(-2, 2)); e.z[0] = El<T>::any(r); e.z[1] = El<T>::any(r); return e; }
    static bool eq(const E &a, const E &b) { return El<T>::eq(a.x, b.x) && a.k == b.k && El<T>::eq(a.z[0], b.z[0]) && El<T>::eq(a.z[1], b.z[1]); }
    static std::string s(const E &a) { return "{" + str(a.x) + "," + str(a.k) + "," + str(a.z[0]) + "," + str(a.z[1]) + "}"; }
    static uint64_t h(const E &a) { return El<T>::h(a.x) * 3 + El<T>::h(a.z[0]) * 5 + El<T>::h(a.z[1]) * 7 + uint64_t(a.k); }
};
template <class T, class A> struct El<Vc::Vector<T, A>> {
    using E = Vc::Vector<T, A>;
    static std::string name() { return vn<E>(); }
    static E any(Rng &r) { T p[E::Size]; for (auto &x : p) x = El<T>::any(r); return fromLanes<E, T>(p); }
    static bool eq(const E &a, const E &b) { for (size_t i = 0; i < E::Size; ++i) if (!same<T>(a[i], b[i])) return false; return true; }
    static std::string s(const E &a) { T p[E::Size]; toLanes(a, p); return strv(p, E::Size); }
    static uint64_t h(const E &a) { T p[E::Size]; toLanes(a, p); return hashBytes(p, sizeof p, 1); }
};

template <class E> struct Base {
    Rng r;
    std::string nm;
    explicit Base(const std::string &n) : r(n.c_str()), nm(n) {}
    std::string key(const char *op) const { return std::string(op) + "/" + nm + "/" + VT_IMPL; }
    template <class C, class M> bool equal(const char *op, const C &c, const M &m)
    {
        if (size_t(c.size()) != size_t(m.size())) { fail(key(op), "size %d want %d", int(c.size()), int(m.size())); return false; }
        size_t i = 0;
        for (auto it = m.begin(); it != m.end(); ++it, ++i) if (!El<E>::eq(c.begin()[i], *it)) { fail(key(op), "element %d: %s want %s", int(i), El<E>::s(c.begin()[i]).c_str(), El<E>::s(*it).c_str()); return false; }
        return true;
    }
    void is(const char *op, bool ok, const char *what) { if (!ok) fail(key(op), "%s", what); }
    void is(const char *op, const E &a, const E &b) { if (!El<E>::eq(a, b)) fail(key(op), "%s want %s", El<E>::s(a).c_str(), El<E>::s(b).c_str()); }
    template <class C> uint64_t h(const C &m, uint64_t x) { for (const E &e : m) x = mix(x ^ El<E>::h(e)); return x; }
    // comparisons as the standard containers define them
    template <class A, class B, class MA, class MB> void compare(const A &a, const B &b, const MA &ma, const MB &mb)
    {
        const bool e = ma.size() == mb.size() && std::equal(ma.begin(), ma.end(), mb.begin());
        const bool l = std::lexicographical_compare(ma.begin(), ma.end(), mb.begin(), mb.end()), g = std::lexicographical_compare(mb.begin(), mb.end(), ma.begin(), ma.end());
        is("==", (a == b) == e, "wrong"); is("!=", (a != b) == !e, "wrong");
        is("<", (a < b) == l, "wrong"); is(">", (a > b) == g, "wrong"); is("<=", (a <= b) == !g, "wrong"); is(">=", (a >= b) == !l, "wrong");
    }
    // what holds of every non-empty or empty contiguous container; mutable access included
    template <class C, class M> void access(C &c, M &m)
    {
        const C &cc = c;
        const size_t n = m.size();
        is("size()", size_t(c.size()) == n && size_t(cc.end() - cc.begin()) == n && (c.end() == c.begin()) == (n == 0) && c.empty() == (n == 0), "wrong");
        size_t i = 0;
        for (E &e : c) { if (i < n) is("range for", e, m[i]); ++i; }
        is("range for", i == n, "wrong number of elements");
        i = n;
        for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; if (i < n) is("rbegin", *it, m[i]); else break; }
        is("rbegin", i == 0, "wrong number of elements");
        i = 0; for (auto it = cc.cbegin(); it != cc.cend(); ++it, ++i) if (i < n) is("cbegin", *it, m[i]);
        i = n; for (auto it = cc.crbegin(); it != cc.crend(); ++it) { --i; if (i < n) is("crbegin", *it, m[i]); else break; }
        if (!n) return;
        const size_t k = r.below(uint32_t(n)), k2 = r.below(uint32_t(n));
        const E e = El<E>::any(r);
        is("[const]", cc[k], m[k]); is("[int]", c[int(k)], m[k]); is("[unsigned]", c[unsigned(k)], m[k]); is("[short]", c[short(k)], m[k]); is("[0]", c[0], m[0]);
        is("data()", &c[k] == c.data() + k && &cc[k] == cc.data() + k && &*(c.begin() + long(k)) == &c[k], "wrong address");
        switch (r.below(5)) {
        case 0: c[k] = e; m[k] = e; break;
        case 1: *(c.begin() + long(k)) = e; m[k] = e; break;
        case 2: *(c.rbegin() + long(k)) = e; m[n - 1 - k] = e; break;
        case 3: c.data()[k] = e; m[k] = e; break;
        default: std::swap(c[k], c[k2]); std::swap(m[k], m[k2]); break;
        }
        equal("element access", c, m);
    }
};

// gathers and scatters through the subscript operator
template <class E, class = void> struct Sub { template <class B, class C, class M> static void run(B &, C &, M &) {} };
template <class E> struct Sub<E, typename std::enable_if<std::is_arithmetic<E>::value>::type> {
    template <class B, class C, class M> static void run(B &b, C &c, M &m)
    {
        using V = Vc::Vector<E>; using IT = typename V::IndexType;
        const size_t n = m.size();
        if (!n) return;
        int ix[V::Size]; for (auto &x : ix) x = int(b.r.below(uint32_t(n)));
        IT it; for (size_t i = 0; i < V::Size; ++i) it[i] = typename IT::EntryType(ix[i]);
        { const C &cc = c; const V v = cc[it]; for (size_t i = 0; i < V::Size; ++i) if (!same<E>(v[i], m[size_t(ix[i])])) { fail(b.key("v = c[indexes]"), "lane %d: %s want %s", int(i), str(v[i]).c_str(), str(m[size_t(ix[i])]).c_str()); break; } }
        if (n < V::Size) return;
        for (size_t i = 0; i < V::Size; ++i) { bool dup = true; while (dup) { ix[i] = int(b.r.below(uint32_t(n))); dup = false; for (size_t j = 0; j < i; ++j) dup |= ix[j] == ix[i]; } it[i] = typename IT::EntryType(ix[i]); }
        const V w = El<V>::any(b.r);
        c[it] = w;
        for (size_t i = 0; i < V::Size; ++i) m[size_t(ix[i])] = w[i];
        b.equal("c[indexes] = v", c, m);
    }
};
template <class T> struct Sub<Rec<T>, void> {
    template <class B, class C, class M> static void run(B &b, C &c, M &m)
    {
        using V = Vc::Vector<T>; using IT = typename V::IndexType;
        const size_t n = m.size();
        if (n < V::Size) return;
        int ix[V::Size]; IT it;
        for (size_t i = 0; i < V::Size; ++i) { bool dup = true; while (dup) { ix[i] = int(b.r.below(uint32_t(n))); dup = false; for (size_t j = 0; j < i; ++j) dup |= ix[j] == ix[i]; } it[i] = typename IT::EntryType(ix[i]); }
        { const C &cc = c; const V v = cc[it][&Rec<T>::x]; const V u = cc[it][&Rec<T>::z][1];
          for (size_t i = 0; i < V::Size; ++i) if (!same<T>(v[i], m[size_t(ix[i])].x) || !same<T>(u[i], m[size_t(ix[i])].z[1])) { fail(b.key("v = c[indexes][&S::m]"), "lane %d", int(i)); break; } }
        const V w = El<V>::any(b.r);
        if (b.r.coin()) { c[it][&Rec<T>::x] = w; for (size_t i = 0; i < V::Size; ++i) m[size_t(ix[i])].x = w[i]; }
        else { const size_t k = b.r.below(2); c[it][&Rec<T>::z][int(k)] = w; for (size_t i = 0; i < V::Size; ++i) m[size_t(ix[i])].z[k] = w[i]; }
        b.equal("c[indexes][&S::m] = v", c, m);
    }
};

template <class E, size_t N> struct Arr : Base<E> {
    using A = Vc::array<E, N>;
    using M = std::vector<E>;
    using Base<E>::r; using Base<E>::key; using Base<E>::is; using Base<E>::equal;
    Arr() : Base<E>("Vc::array<" + El<E>::name() + "," + std::to_string(N) + ">") {}
    void at(A &a, M &m)
    {
        const A &c = a;
        for (size_t i : {size_t(0), size_t(N - 1), size_t(N), size_t(N + 1), size_t(r.below(N + 3)), ~size_t(0)}) {
            for (int cst = 0; cst < 2; ++cst) {
                bool threw = false;
                try { const E &e = cst ? c.at(i) : a.at(i); if (i < N) is("at", e, m[i]); } catch (std::out_of_range &) { threw = true; }
                is("at", threw == (i >= N), threw ? "threw for a valid index" : "did not throw");
            }
        }
    }
    template <size_t... I> struct Ix {};
    void get(A &, M &, std::integral_constant<size_t, 0>) {}
    template <size_t n> void get(A &a, M &m, std::integral_constant<size_t, n>)
    {
        const A &c = a;
        is("std::get", std::get<n - 1>(a), m[n - 1]); is("std::get const", std::get<n - 1>(c), m[n - 1]);
        { A t(a); E e = std::get<n - 1>(std::move(t)); is("std::get &&", e, m[n - 1]); }
        static_assert(std::is_same<typename std::tuple_element<n - 1, A>::type, E>::value, "");
        get(a, m, std::integral_constant<size_t, n - 1>());
    }
    void ends(A &, M &, std::integral_constant<size_t, 0>) {}
    template <size_t n> void ends(A &a, M &m, std::integral_constant<size_t, n>)
    {
        const A &c = a;
        is("front", c.front(), m.front()); is("back", c.back(), m.back());
        const E e = El<E>::any(r);
        if (r.coin()) { a.front() = e; m.front() = e; } else { a.back() = e; m.back() = e; }
    }
    template <class X> void cmp(const A &a, const A &b, const M &ma, const M &mb, X) { this->compare(a, b, ma, mb); }
    void cmp(const A &, const A &, const M &, const M &, std::false_type) {}
    void run(long hist)
    {
        static_assert(std::tuple_size<A>::value == N, "");
        OpCount oc("containers/" + this->nm);
        static VT_TLS Guarded g(1), g2(1);
        for (long h = 0; h < hist; ++h) {
            g.fill(0x5a); g2.fill(0x5a);
            A *p[2] = {reinterpret_cast<A *>(h & 1 ? g.end() - sizeof(A) : g.begin()), reinterpret_cast<A *>(h & 2 ? g2.end() - sizeof(A) : g2.begin())};
            M m[2];
            for (int i = 0; i < 2; ++i) { new (p[i]) A{}; m[i].assign(N, E{}); equal("A{}", *p[i], m[i]); for (size_t k = 0; k < N; ++k) { m[i][k] = El<E>::any(r); (*p[i])[k] = m[i][k]; } }
            for (int s = 0; s < 10; ++s) {
                const unsigned i = r.below(2); A &a = *p[i], &b = *p[1 - i]; M &x = m[i], &y = m[1 - i];
                const char *op = "?";
                const E e = El<E>::any(r);
                switch (r.below(12)) {
                case 0: op = "fill"; a.fill(e); for (auto &q : x) q = e; break;
                case 1: op = "swap"; a.swap(b); x.swap(y); break;
                case 2: op = "std::swap"; { using std::swap; if (r.coin()) swap(a, b); else std::swap(a, b); } x.swap(y); break;
                case 3: op = "at"; at(a, x); break;
                case 4: op = "get"; get(a, x, std::integral_constant<size_t, N>()); break;
                case 5: op = "front/back"; ends(a, x, std::integral_constant<size_t, N>()); break;
                case 6: op = "="; a = b; x = y; break;
                case 7: op = "copy"; { A t(b); A u = std::move(t); a = u; x = y; } break;
                case 8: op = "compare"; if (r.coin() && N) { a = b; x = y; const size_t k = r.below(uint32_t(N)); if (r.coin()) { a[k] = e; x[k] = e; } } cmp(a, b, x, y, std::integral_constant<bool, !Vc::is_simd_vector<E>::value>()); break;
                case 9: op = "begin(a)"; { using Vc::begin; using Vc::end; size_t k = 0; for (auto it = begin(a); it != end(a); ++it, ++k) if (k < N) { *it = e; x[k] = e; } is(op, k == N, "wrong number of elements"); } break;
                case 10: op = "subscript"; Sub<E>::run(*this, a, x); break;
                default: op = "access"; is(op, a.max_size() == N && a.size() == N && a.empty() == (N == 0), "wrong size"); this->access(a, x); break;
                }
                ev(mix(this->h(x, hashStr(op)) ^ hashStr(this->nm.c_str())));
                if (!equal(op, a, x) || !equal(op, b, y)) for (int q = 0; q < 2; ++q) for (size_t k = 0; k < N; ++k) (*p[q])[k] = m[q][k];
            }
            for (int q = 0; q < 2; ++q) { Guarded &gg = q ? g2 : g; for (char *c = gg.begin(); c < gg.end(); ++c) if ((c < (char *)p[q] || c >= (char *)p[q] + sizeof(A)) && *c != 0x5a) { fail(key("memory outside"), "byte %d changed", int(c - (char *)p[q])); break; } }
        }
        if (wantSample()) sample("%s: %d histories of 10 operations", this->nm.c_str(), int(hist));
    }
};
template <class E> struct Vect : Base<E> {
    using A = Vc::vector<E>;
    using M = std::vector<E>;
    using Base<E>::r; using Base<E>::key; using Base<E>::is; using Base<E>::equal;
    Vect() : Base<E>("Vc::vector<" + El<E>::name() + ">") {}
    template <class X> void cmp(const A &a, const A &b, const M &ma, const M &mb, X) 
    {   // (C++20 changed what std::vector answers when there are NaNs)
        is("==", (a == b) == (ma == mb), "wrong"); is("!=", (a != b) == (ma != mb), "wrong");
        is("<", (a < b) == (ma < mb), "wrong"); is(">", (a > b) == (ma > mb), "wrong"); is("<=", (a <= b) == (ma <= mb), "wrong"); is(">=", (a >= b) == (ma >= mb), "wrong");
    }
    void cmp(const A &, const A &, const M &, const M &, std::false_type) {}
    M some() { M m(r.below(4) ? r.below(20) : r.below(200)); for (auto &x : m) x = El<E>::any(r); return m; }
    void run(long hist)
    {
        OpCount oc("containers/" + this->nm);
        for (long h = 0; h < hist; ++h) {
            A a, b; M x, y;
            is("A()", a.empty(), "not empty");
            for (int s = 0; s < 14; ++s) {
                const char *op = "?";
                const E e = El<E>::any(r);
                const size_t n = r.below(24), k = x.empty() ? 0 : r.below(uint32_t(x.size()));
                switch (r.below(17)) {
                case 0: { op = "A(n)"; A t(n); M u(n); a = t; x = u; } break;
                case 1: { op = "A(n, e)"; A t(n, e); M u(n, e); a = std::move(t); x = u; } break;
                case 2: { op = "A(first, last)"; M u = some(); A t(u.begin(), u.end()); a.swap(t); x = u; } break;
                case 3: { op = "A{...}"; const E e2 = El<E>::any(r); A t{e, e2, e}; a = t; x = M{e, e2, e}; } break;
                case 4: { op = "copy"; A t(a); equal("copy", t, x); const A &ca = a; A t2(ca); equal("copy of const", t2, x); b = t; y = x; if (!t.empty()) t[0] = e; } break;
                case 5: { op = "move"; A t(std::move(a)); a = A(); b = std::move(t); y = x; x.clear(); } break;
                case 6: op = "push_back"; a.push_back(e); x.push_back(e); break;
                case 7: op = "insert"; a.insert(a.begin() + long(k), e); x.insert(x.begin() + long(k), e); break;
                case 8: op = "erase"; if (!x.empty()) { a.erase(a.begin() + long(k)); x.erase(x.begin() + long(k)); } break;
                case 9: op = "resize"; a.resize(n, e); x.resize(n, e); break;
                case 10: op = "swap"; if (r.coin()) a.swap(b); else { using std::swap; swap(a, b); } x.swap(y); break;
                case 11: op = "compare"; if (r.coin()) { a = b; x = y; if (!x.empty() && r.coin()) { a.back() = e; x.back() = e; } } cmp(a, b, x, y, std::integral_constant<bool, !Vc::is_simd_vector<E>::value>()); break;
                case 12: op = "reserve/shrink"; a.reserve(n * 3); a.shrink_to_fit(); break;
                case 13: { op = "assign"; M u = some(); a.assign(u.begin(), u.end()); x = u; } break;
                case 14: op = "self"; a = static_cast<const A &>(a); break;
                case 15: op = "subscript"; Sub<E>::run(*this, a, x); break;
                default: op = "access"; this->access(a, x); break;
                }
                ev(mix(this->h(x, hashStr(op)) ^ hashStr(this->nm.c_str())));
                if (!equal(op, a, x)) a = A(x.begin(), x.end());
                if (!equal(op, b, y)) b = A(y.begin(), y.end());
            }
        }
    }
};
template <class E> struct Span : Base<E> {
    using S = Vc::span<E>; using CS = Vc::span<const E>;
    using M = std::vector<E>;
    using Base<E>::r; using Base<E>::key; using Base<E>::is; using Base<E>::equal;
    Span() : Base<E>("Vc::span<" + El<E>::name() + ">") {}
    E *mem; size_t total;   // the memory all spans look at
    // s must be exactly [p, p + n)
    template <class X> bool view(const char *op, const X &s, const E *p, size_t n)
    {
        if (s.data() != p || size_t(s.size()) != n || size_t(s.size_bytes()) != n * sizeof(E) || s.empty() != (n == 0) || s.begin() != p || s.end() != p + n || s.cbegin() != p || s.cend() != p + n
            || s.rbegin().base() != p + n || s.rend().base() != p || s.crbegin().base() != p + n || s.crend().base() != p) {
            fail(key(op), "views element %ld, %ld elements (%ld bytes), want element %ld, %ld elements", long(s.data() - mem), long(s.size()), long(s.size_bytes()), long(p - mem), long(n)); return false;
        }
        if (n) { const size_t k = r.below(uint32_t(n)); is(op, &s[long(k)] == p + k && &s(long(k)) == p + k && &s[0] == p && &*(s.begin() + long(k)) == p + k && &*(s.rbegin() + long(k)) == p + n - 1 - k, "wrong element"); }
        return true;
    }
    template <size_t N> void fixed()
    {
        using F = Vc::span<E, ptrdiff_t(N)>; using CF = Vc::span<const E, ptrdiff_t(N)>;
        static_assert(F::extent == ptrdiff_t(N), "");
        const size_t o = r.below(uint32_t(total - N) + 1);
        E *p = mem + o;
        F f(p, ptrdiff_t(N)); view("span<N>(p, n)", f, p, N);
        F f2(p, p + N); view("span<N>(p, q)", f2, p, N);
        S d(f); view("span(span<N>)", d, p, N);
        F f3(d); view("span<N>(span)", f3, p, N);
        CF c(f); view("span<const, N>(span<N>)", c, p, N);
        CS cd(d); view("span<const>(span)", cd, p, N);
        { F f4(f); view("copy", f4, p, N); E *q = mem; F f5(q, ptrdiff_t(N)); f4 = f5; view("=", f4, mem, N); swap(f4, f); view("swap", f, mem, N); view("swap", f4, p, N); f.swap(f4); view("swap", f, p, N); }
        E(&ca)[N] = *reinterpret_cast<E(*)[N]>(p);
        { F x(ca); view("span<N>(E[N])", x, p, N); S y(ca); view("span(E[N])", y, p, N); CS z(ca); view("span<const>(E[N])", z, p, N); const E(&cca)[N] = ca; CS z2(cca); view("span<const>(const E[N])", z2, p, N); }
        auto &va = *reinterpret_cast<Vc::array<E, N> *>(p);
        { F x(va); view("span<N>(Vc::array)", x, p, N); S y(va); view("span(Vc::array)", y, p, N); const Vc::array<E, N> &cva = va; CS z(cva); view("span<const>(const Vc::array)", z, p, N); CF z2(cva); view("span<const, N>(const Vc::array)", z2, p, N); }
        auto &sa = *reinterpret_cast<std::array<E, N> *>(p);
        { S y(sa); view("span(std::array)", y, p, N); const std::array<E, N> &csa = sa; CS z(csa); view("span<const>(const std::array)", z, p, N); }
        const size_t k = r.below(uint32_t(N) + 1), l = r.below(uint32_t(N - k) + 1);
        view("span<N>.first(n)", f.first(long(k)), p, k); view("span<N>.last(n)", f.last(long(k)), p + N - k, k);
        view("span<N>.subspan(o)", f.subspan(long(k)), p + k, N - k); view("span<N>.subspan(o, n)", f.subspan(long(k), long(l)), p + k, l);
        constexpr size_t A = N / 2, B = N - A;
        { auto x = f.template first<A>(); static_assert(decltype(x)::extent == A, ""); view("span<N>.first<n>()", x, p, A); }
        { auto x = f.template last<A>(); static_assert(decltype(x)::extent == A, ""); view("span<N>.last<n>()", x, p + N - A, A); }
        { auto x = f.template subspan<A>(); static_assert(decltype(x)::extent == B, ""); view("span<N>.subspan<o>()", x, p + A, B); }
        { auto x = f.template subspan<A, B>(); static_assert(decltype(x)::extent == B, ""); view("span<N>.subspan<o, n>()", x, p + A, B); }
        { auto x = f.template subspan<0, A>(); static_assert(decltype(x)::extent == A, ""); view("span<N>.subspan<0, n>()", x, p, A); }
        view("span.first<n>()", d.template first<A>(), p, A); view("span.last<n>()", d.template last<A>(), p + N - A, A); view("span.subspan<o>()", d.template subspan<A>(), p + A, B); view("span.subspan<o, n>()", d.template subspan<A, B>(), p + A, B);
        view("span.subspan<o, 0>()", d.template subspan<A, 0>(), p + A, 0);
#if __cplusplus >= 201703L
        {
            std::byte *b = reinterpret_cast<std::byte *>(p);
            auto v1 = as_bytes(f), v2 = as_bytes(c); auto v3 = as_writeable_bytes(f); auto v4 = as_bytes(d), v5 = as_bytes(cd); auto v6 = as_writeable_bytes(d);
            static_assert(decltype(v1)::extent == ptrdiff_t(N * sizeof(E)) && decltype(v3)::extent == ptrdiff_t(N * sizeof(E)) && decltype(v4)::extent == -1 && std::is_same<typename decltype(v5)::element_type, const std::byte>::value && std::is_same<typename decltype(v6)::element_type, std::byte>::value, "");
            auto bytes = [&](const char *o1, const std::byte *q, ptrdiff_t n1) { is(o1, q == b && n1 == ptrdiff_t(N * sizeof(E)), "other bytes"); };
            bytes("as_bytes(span<N>)", v1.data(), v1.size()); bytes("as_bytes(span<const, N>)", v2.data(), v2.size()); bytes("as_writeable_bytes(span<N>)", v3.data(), v3.size());
            bytes("as_bytes(span)", v4.data(), v4.size()); bytes("as_bytes(span<const>)", v5.data(), v5.size()); bytes("as_writeable_bytes(span)", v6.data(), v6.size());
        }
#endif
        M m(p, p + N); Sub<E>::run(*this, f, m); equal("span<N>[indexes] = v", f, m);
        const char *op = "fixed"; ev(mix(this->h(m, hashStr(op) + N) ^ hashStr(this->nm.c_str())));
    }
    template <class X> void cmp(const S &a, const S &b, const M &ma, const M &mb, X) { this->compare(a, b, ma, mb); }
    void cmp(const S &, const S &, const M &, const M &, std::false_type) {}
    void run(long hist)
    {
        OpCount oc("containers/" + this->nm);
        static VT_TLS Guarded g(1);
        { S s; view("span()", s, nullptr, 0); CS c; view("span<const>()", c, nullptr, 0); Vc::span<E, 0> z; is("span<0>()", z.empty() && z.data() == nullptr && z.size() == 0, "not empty"); }
        for (long h = 0; h < hist; ++h) {
            total = 1 + r.below(h % 4 ? 30 : 100);
            if (total < 9) total = 9;
            mem = reinterpret_cast<E *>(g.end() - total * sizeof(E));
            M m(total);
            for (size_t i = 0; i < total; ++i) new (mem + i) E(m[i] = El<E>::any(r));
            auto sync = [&](const char *op) { for (size_t i = 0; i < total; ++i) if (!El<E>::eq(mem[i], m[i])) { fail(key(op), "element %d: %s want %s", int(i), El<E>::s(mem[i]).c_str(), El<E>::s(m[i]).c_str()); mem[i] = m[i]; } };
            size_t o = 0, n = total;
            S s(mem, long(total));
            view("span(p, n)", s, mem, total);
            S t; size_t to = 0, tn_ = 0; bool tnull = true;
            for (int st = 0; st < 12; ++st) {
                const char *op = "?";
                switch (r.below(13)) {
                case 0: { op = "span(p, q)"; o = r.below(uint32_t(total) + 1); n = r.below(uint32_t(total - o) + 1); S u(mem + o, mem + o + n); s = u; } break;
                case 1: { op = "span(p, n)"; o = r.below(uint32_t(total) + 1); n = r.below(uint32_t(total - o) + 1); S u(mem + o, long(n)); s = u; } break;
                case 2: { op = "first"; const size_t k = r.below(uint32_t(n) + 1); s = s.first(long(k)); n = k; } break;
                case 3: { op = "last"; const size_t k = r.below(uint32_t(n) + 1); s = s.last(long(k)); o += n - k; n = k; } break;
                case 4: { op = "subspan(o)"; const size_t k = r.below(uint32_t(n) + 1); s = s.subspan(long(k)); o += k; n -= k; } break;
                case 5: { op = "subspan(o, n)"; const size_t k = r.below(uint32_t(n) + 1), l = r.below(uint32_t(n - k) + 1); s = s.subspan(long(k), long(l)); o += k; n = l; } break;
                case 6: { op = "swap"; if (r.coin()) s.swap(t); else swap(s, t); std::swap(o, to); std::swap(n, tn_); const bool sn = tnull; tnull = false; if (sn) { view("swap with empty", s, nullptr, 0); s = S(mem, long(total)); o = 0; n = total; } } break;
                case 7: { op = "copy"; S u(s); const S &cs = s; S v(cs); t = u; to = o; tn_ = n; tnull = false; view(op, v, mem + o, n); } break;
                case 8: { op = "compare"; if (!tnull) { const M a(m.begin() + long(o), m.begin() + long(o + n)), b(m.begin() + long(to), m.begin() + long(to + tn_)); cmp(s, t, a, b, std::integral_constant<bool, !Vc::is_simd_vector<E>::value>()); } } break;
                case 9: { op = "containers"; M c(m); S u(c); is(op, u.data() == c.data() && size_t(u.size()) == c.size(), "wrong view"); const M &cc = c; CS v(cc); is(op, v.data() == c.data() && size_t(v.size()) == c.size(), "wrong view"); Vc::vector<E> vv(m.begin(), m.end()); S w(vv); is(op, w.data() == vv.data() && size_t(w.size()) == vv.size(), "wrong view"); } break;
                case 10: { op = "subscript"; M c(m.begin() + long(o), m.begin() + long(o + n)); Sub<E>::run(*this, s, c); std::copy(c.begin(), c.end(), m.begin() + long(o)); } break;
                case 11: op = "fixed"; fixed<1>(); fixed<4>(); fixed<9>(); m.assign(mem, mem + total); break;
                default: { op = "access"; M c(m.begin() + long(o), m.begin() + long(o + n)); this->access(s, c); std::copy(c.begin(), c.end(), m.begin() + long(o)); } break;
                }
                if (!view(op, s, mem + o, n)) s = S(mem + o, long(n));
                if (!tnull) view(op, t, mem + to, tn_);
                sync(op);
                ev(mix(this->h(m, hashStr(op) + o * 256 + n) ^ hashStr(this->nm.c_str())));
            }
        }
    }
};
// makeContainer: n scalars, compile-time n
template <class C, class V, class T, bool Exact> struct Make {
    std::string nm; Rng r;
    explicit Make(const char *c) : nm(std::string("makeContainer<") + c + "<" + vn<V>() + ">>/" + VT_IMPL), r(nm.c_str()) {}
    template <size_t... I> struct Seq {};
    template <class X> void check(const X &c, const T *p, size_t n)
    {
        constexpr size_t W = V::Size;
        size_t k = 0;
        const size_t want = (n + W - 1) / W;
        for (auto it = c.begin(); it != c.end(); ++it, ++k) {
            if (uintptr_t(&*it) % alignof(V)) fail(nm, "vector %d is misaligned", int(k));
            for (size_t i = 0; i < W && k < want; ++i) { const T w = k * W + i < n ? p[k * W + i] : T(0); if (!same<T>((*it)[i], w)) { fail(nm, "%d values, vector %d lane %d: %s want %s", int(n), int(k), int(i), str((*it)[i]).c_str(), str(w).c_str()); return; } }
        }
        if (k != want) fail(nm, "%d values in %d vectors, want %d", int(n), int(k), int(want));
        ev(hashBytes(p, n * sizeof(T), hashStr(nm.c_str()) + n));
    }
};
__attribute__((noinline)) void dirty() { volatile unsigned char b[6000]; for (auto &x : b) x = 0x5f; }
template <class V, size_t... I> void make1(std::index_sequence<I...>)
{
    using T = typename V::EntryType;
    constexpr size_t n = sizeof...(I);
    Make<int, V, T, false> mv("std::vector"), ml("std::list"), md("std::deque"), ma("std::array"), mva("Vc::array"), mal("std::vector with Vc::Allocator");
    for (long c = 0, e = cases(6); c < e; ++c) {
        T p[n + 1]; for (auto &x : p) x = any<T>(mv.r);
        dirty(); mv.check(Vc::makeContainer<std::vector<V>, T>({p[I]...}), p, n);
        dirty(); mv.check(Vc::make_container<std::vector<V>, T>({p[I]...}), p, n);
        ml.check(Vc::makeContainer<std::list<V, Vc::Allocator<V>>, T>({p[I]...}), p, n);
        md.check(Vc::makeContainer<std::deque<V, Vc::Allocator<V>>, T>({p[I]...}), p, n);
        mal.check(Vc::makeContainer<std::vector<V, Vc::Allocator<V>>, T>({p[I]...}), p, n);
    }
}
template <class V, size_t... I> typename std::enable_if<(sizeof...(I) > 0)>::type make2(std::index_sequence<I...>)
{
    using T = typename V::EntryType;
    constexpr size_t n = sizeof...(I);
    Make<int, V, T, false> ma("std::array"), mva("Vc::array");
    for (long c = 0, e = cases(10); c < e; ++c) {
        T p[n + 1]; for (auto &x : p) x = any<T>(ma.r);
        dirty(); { const auto a = Vc::makeContainer<std::array<V, n>, T>({p[I]...}); ma.check(a, p, n); }
        dirty(); { const auto a = Vc::makeContainer<Vc::array<V, n>, T>({p[I]...}); mva.check(a, p, n); }
    }
}
template <class V, size_t... I> typename std::enable_if<(sizeof...(I) == 0)>::type make2(std::index_sequence<I...>) {}
template <class V, size_t n> struct MakeAll { static void run() { make1<V>(std::make_index_sequence<n>()); make2<V>(std::make_index_sequence<n>()); MakeAll<V, n - 1>::run(); } };
template <class V> struct MakeAll<V, 0> { static void run() { make1<V>(std::make_index_sequence<0>()); } };
template <class V> void makers() { OpCount oc("makeContainer/" + vn<V>()); MakeAll<V, 2 * V::Size + 1>::run(); }
// list of scalars to a container of scalars
template <class T> void plainMake()
{
    OpCount oc(std::string("makeContainer/") + tn<T>());
    Rng r("plain");
    for (long c = 0, e = cases(20); c < e; ++c) {
        const T a = any<T>(r), b = any<T>(r);
        const auto v = Vc::makeContainer<std::vector<T>>({a, b, a});
        const auto w = Vc::makeContainer<std::list<T>, T>({b});
        if (v.size() != 3 || !same<T>(v[0], a) || !same<T>(v[1], b) || !same<T>(v[2], a) || w.size() != 1 || !same<T>(w.front(), b)) fail(std::string("makeContainer/") + tn<T>(), "wrong content");
        ev(mix(uint64_t(c)) ^ hashStr(tn<T>()));
    }
}
}
namespace vt {
void run()
{
    forTypes(TheTypes(), [](auto tag) {
        using T = typename decltype(tag)::type; using V = Vc::Vector<T>;
#if !defined VT_GRP || VT_GRP == 0
        { Arr<T, 1> a; a.run(cases(60)); } { Arr<T, 3> a; a.run(cases(60)); } { Arr<T, 0> a; a.run(cases(10)); } { Arr<T, 40> a; a.run(cases(60)); }
        { Arr<Rec<T>, 17> a; a.run(cases(60)); } { Arr<V, 2> a; a.run(cases(60)); }
        { Vect<T> v; v.run(cases(60)); } { Vect<Rec<T>> v; v.run(cases(60)); } { Vect<V> v; v.run(cases(30)); }
#endif
#if !defined VT_GRP || VT_GRP == 1
        { Span<T> s; s.run(cases(60)); } { Span<Rec<T>> s; s.run(cases(60)); } { Span<V> s; s.run(cases(30)); }
        makers<V>(); plainMake<T>();
#endif
    });
}
}
