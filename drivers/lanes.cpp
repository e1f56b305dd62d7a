// C20: creating vectors and accessing their elements (constants, broadcast, generators, operator[] references,
// iteration, apply/call/fill, Random)
#include "kit.h"
#include <Vc/limits>
using namespace vt;
namespace {
VT_TLS int calls; VT_TLS int callIdx[256];
template <class T> T aff(T x) { return T(x * T(2) + T(1)); }
template <class T> T fillIdx(int i) { return T(i * 3 + 1); }
template <class T> T fillIdx2(unsigned short i) { return T(i + 5); }
VT_TLS int fillN;
template <class T> T fillNext() { return T(++fillN); }
template <class T> T small(Rng &r) { return T(r.range(0, 50)); }
template <class T> T few(Rng &r) { return T(r.range(0, 3)); }
template <class T> struct Rec { T v[128]; int n = 0; void operator()(T x) { if (n < 128) v[n] = x; ++n; } };
}
struct Do {
    template <class V> struct X {
        using T = typename V::EntryType;
        using M = typename V::MaskType;
        static constexpr size_t N = V::Size;
        static constexpr bool arr = std::is_same<V, Vc::SimdArray<T, N>>::value || Vc::Traits::isSimdArray<V>::value;
        using K = Kit<T>;
        static T q() { return std::numeric_limits<T>::quiet_NaN(); }
        static void create(K &t)
        {
            t.go("V()", any<T>, any<T>, 0, 0, KERN((void)x; V v{}; put(v, o)), KERN((void)x; (void)o));
            t.go("V v; (new V[3])", any<T>, any<T>, 0, 0, KERN((void)x; std::vector<V, Vc::Allocator<V>> w(3); put(w[1], o)), KERN((void)x; (void)o));
            t.go("V(Zero)", any<T>, any<T>, 0, 0, KERN((void)x; put(V(Vc::Zero), o)), KERN((void)x; (void)o));
            t.go("V::Zero()", any<T>, any<T>, 0, 0, KERN((void)x; put(V(V::Zero()), o)), KERN((void)x; (void)o));
            t.go("V(One)", any<T>, any<T>, 0, 0, KERN((void)x; put(V(Vc::One), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = 1; (void)x));
            t.go("V::One()", any<T>, any<T>, 0, 0, KERN((void)x; put(V(V::One()), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = 1; (void)x));
            t.go("V(IndexesFromZero)", any<T>, any<T>, 0, 0, KERN((void)x; put(V(Vc::IndexesFromZero), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = T(i); (void)x));
            t.go("V::IndexesFromZero()", any<T>, any<T>, 0, 0, KERN((void)x; put(V(V::IndexesFromZero()), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = T(i); (void)x));
            t.go("V(s)", any<T>, any<T>, 0, 0, KERN(put(V(x.a[0]), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[0]));
            t.go("V v = s", any<T>, any<T>, 0, 0, KERN(V v = x.a[0]; put(v, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[0]));
            t.go("v = s", any<T>, any<T>, 0, 0, KERN(V v = ldB<V>(x); v = x.a[0]; put(v, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[0]));
            t.go("V(int)", any<T>, any<T>, 0, 120, KERN(put(V(x.k), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = T(x.k)));
            t.go("V(v)", any<T>, any<T>, 0, 0, KERN(const V v = ldA<V>(x); V w(v); w[0] = T(1); w = ldB<V>(x); put(v, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]));
            t.go("w = v independent", any<T>, any<T>, 0, 0, KERN(V v = ldA<V>(x); V w = ldB<V>(x); w = v; v[N - 1] = x.b[0]; v = T(3); put(w, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]));
            t.go("swap(v, w)", any<T>, any<T>, 0, 0, KERN(V v = ldA<V>(x); V w = ldB<V>(x); std::swap(v, w); put(v, o); put(w, o + N)), KERN(for (size_t i = 0; i < N; ++i) { o[i] = x.b[i]; o[N + i] = x.a[i]; }), same<T>, 2 * N);
            t.go("+v", any<T>, any<T>, 0, 0, KERN(V v = ldA<V>(x); V w = +v; v = T(0); put(w, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]));
            t.go("V(gen)", any<T>, any<T>, 0, 0, KERN(calls = 0; const T *p = x.a; V v([p](int i) { ++callIdx[i]; ++calls; return p[i]; }); put(v, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]));
            once(t, "V(gen) calls");
            t.go("V::generate", any<T>, any<T>, 0, 0, KERN(calls = 0; const T *p = x.a; V v = V::generate([p](int i) { ++callIdx[i]; ++calls; return p[i]; }); put(v, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]));
            once(t, "V::generate calls");
            t.go("V::generate in order", any<T>, any<T>, 0, 0, KERN((void)x; int c = 0; V v = V::generate([&c](int i) { return T(c++ == i); }); put(v, o)), KERN((void)x; for (size_t i = 0; i < N; ++i) o[i] = 1));
            limits(t, std::is_same<V, Vc::Vector<T>>());
            t.go("setZero()", any<T>, any<T>, 0, 0, KERN(V v = ldA<V>(x); v.setZero(); put(v, o)), KERN((void)x; (void)o));
            t.go("setQnan()", any<T>, any<T>, 0, 0, KERN(qnan(x, o)), KERN((void)x; for (size_t i = 0; i < N; ++i) o[i] = q()));
            t.go("setQnan(mask)", any<T>, any<T>, 0, 0, KERN(qnanm(x, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.m[i] ? q() : x.a[i]));
        }
        static void limits(K &, std::false_type) {}
        static void limits(K &t, std::true_type)
        {
#define LM(nm) t.go("numeric_limits::" #nm, any<T>, any<T>, 0, 0, KERN((void)x; put(V(std::numeric_limits<V>::nm()), o)), KERN((void)x; for (size_t i = 0; i < N; ++i) o[i] = std::numeric_limits<T>::nm()));
            LM(max) LM(min) LM(lowest) LM(epsilon) LM(round_error) LM(infinity) LM(quiet_NaN) LM(denorm_min)
#undef LM
            t.go("numeric_limits", any<T>, any<T>, 0, 0, KERN((void)x; typedef std::numeric_limits<V> L; o[0] = T(L::is_specialized); o[1] = T(L::digits); o[2] = T(L::is_signed); o[3] = T(L::is_integer); o[4] = T(L::has_infinity)),
                 KERN((void)x; typedef std::numeric_limits<T> L; o[0] = 1; o[1] = T(L::digits); o[2] = T(L::is_signed); o[3] = T(L::is_integer); o[4] = T(L::has_infinity)), same<T>, 5);
        }
        template <class W = V> static typename std::enable_if<std::is_floating_point<typename W::EntryType>::value>::type qnan(const In<T> &x, T *o) { W v = ldA<W>(x); v.setQnan(); put(v, o); }
        template <class W = V> static typename std::enable_if<std::is_floating_point<typename W::EntryType>::value>::type qnanm(const In<T> &x, T *o) { W v = ldA<W>(x); v.setQnan(ldM<W>(x)); put(v, o); }
        template <class W = V> static typename std::enable_if<!std::is_floating_point<typename W::EntryType>::value>::type qnan(const In<T> &, T *o) { for (size_t i = 0; i < N; ++i) o[i] = q(); }
        template <class W = V> static typename std::enable_if<!std::is_floating_point<typename W::EntryType>::value>::type qnanm(const In<T> &x, T *o) { for (size_t i = 0; i < N; ++i) o[i] = x.m[i] ? q() : x.a[i]; }
        // the generator saw every index exactly once per vector
        static void once(K &t, const char *nm)
        {
            const std::string key = std::string(nm) + "/" + t.vname + "/" + VT_IMPL;
            OpCount oc(key);
            for (long r = 0; r < 3; ++r) {
                memset(callIdx, 0, sizeof callIdx); calls = 0;
                V v = r == 0 ? V([](int i) { ++callIdx[i & 255]; ++calls; return T(i); }) : V(V::generate([](int i) { ++callIdx[i & 255]; ++calls; return T(i); }));
                T l[N]; toLanes(v, l);
                ev(hashStr(key.c_str()) + uint64_t(r));
                bool ok = calls == int(N); for (size_t i = 0; i < N; ++i) ok &= callIdx[i] == 1;
                if (!ok) fail(key, "the generator was called %d times for %d elements", calls, int(N));
            }
        }
        static void bits(K &, int, std::false_type) {}
        static void bits(K &t, int hi, std::true_type)
        {
#define ELI(nm, gen, stmt, ...) t.go(nm, gen, gen, 0, hi, KERN(V v = ldA<V>(x); const size_t k = size_t(x.k); const T b = x.b[0]; const int n = int(k % (sizeof(T) * 8)); (void)b; (void)n; stmt; put(v, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]; { const size_t k = size_t(x.k); const T b = x.b[0]; const int n = int(k % (sizeof(T) * 8)); (void)b; (void)n; T &e = o[k]; (void)e; __VA_ARGS__; }))
            ELI("v[i] %= s", small<T>, v[k] %= T(b + 1), e = T(e % T(b + 1)));
            ELI("v[i] &= s", any<T>, v[k] &= b, e = T(e & b));
            ELI("v[i] |= s", any<T>, v[k] |= b, e = T(e | b));
            ELI("v[i] ^= s", any<T>, v[k] ^= b, e = T(e ^ b));
            ELI("v[i] <<= n", small<T>, v[k] <<= n % 8, e = T(e << (n % 8)));
            ELI("v[i] >>= n", any<T>, v[k] >>= n, e = T(e >> n));
            ELI("-v[i], ~v[i]", small<T>, v[k] = T(~v[k]), e = T(~e));
#undef ELI
        }
        static void elements(K &t)
        {
            const int hi = int(N) - 1;
            t.go("const v[i]", any<T>, any<T>, 0, hi, KERN(const V v = ldA<V>(x); o[0] = v[size_t(x.k)]), KERN(o[0] = x.a[x.k]), same<T>, 1);
            t.go("v[i]", any<T>, any<T>, 0, hi, KERN(V v = ldA<V>(x); const T r = v[size_t(x.k)]; o[0] = r), KERN(o[0] = x.a[x.k]), same<T>, 1);
#define EL(nm, gen, stmt, ...) t.go(nm, gen, gen, 0, hi, KERN(V v = ldA<V>(x); const size_t k = size_t(x.k); stmt; put(v, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]; { const size_t k = size_t(x.k); T &e = o[k]; (void)e; __VA_ARGS__; }))
            EL("v[i] = s", any<T>, v[k] = x.b[0], e = x.b[0]);
            EL("v[i] = w[j]", any<T>, const V w = ldB<V>(x); v[k] = w[N - 1 - k], e = x.b[N - 1 - k]);
            EL("v[i] = int", any<T>, v[k] = int(k) + 1, e = T(k + 1));
            EL("v[i] += s", small<T>, v[k] += x.b[0], e = T(e + x.b[0]));
            EL("v[i] -= s", small<T>, v[k] -= x.b[k], e = T(e - x.b[k]));
            EL("v[i] *= s", small<T>, v[k] *= x.b[0], e = T(e * x.b[0]));
            EL("v[i] /= s", small<T>, v[k] /= T(x.b[0] + 1), e = T(e / T(x.b[0] + 1)));
            EL("++v[i]", small<T>, ++v[k], ++e);
            EL("v[i]++", small<T>, v[k]++, e++);
            EL("--v[i]", small<T>, --v[k], --e);
            EL("v[i]--", small<T>, v[k]--, e--);
            EL("v[i] = x; its value", small<T>, const T r = (v[k] = x.b[0]); v[(k + 1) % N] = T(r + 1), e = x.b[0]; o[(k + 1) % N] = T(x.b[0] + 1));
            EL("v[i] += x; its value", small<T>, const T r = (v[k] += x.b[0]); v[(k + 1) % N] = r, e = T(e + x.b[0]); o[(k + 1) % N] = e);
            EL("v[i] *= 1.5", small<T>, v[k] *= 1.5, e = T(e * 1.5));
            EL("v[i] += 0.75f", small<T>, v[k] += 0.75f, e = T(e + 0.75f));
            EL("v[i] = 7ll", small<T>, v[k] = 7ll, e = T(7));
            EL("v[i] = double", small<T>, v[k] = double(x.b[0]) + 0.5, e = T(double(x.b[0]) + 0.5));
            EL("v[i] += v[j]", small<T>, v[k] += v[N - 1 - k], e = T(e + x.a[N - 1 - k]));
            EL("v[i] -= v[i]", small<T>, v[k] -= v[k], e = T(0));
            bits(t, hi, std::is_integral<T>());
            EL("swap(v[i], v[j])", any<T>, swap(v[k], v[0]), std::swap(e, o[0]));
            EL("swap(s, v[i])", any<T>, T s = x.b[k]; swap(s, v[k]); v[(k + 1) % N] = s, T s = x.b[k]; std::swap(s, e); o[(k + 1) % N] = s);
            EL("swap(v[i], s)", any<T>, T s = x.b[k]; swap(v[k], s); v[(k + 1) % N] = s, T s = x.b[k]; std::swap(s, e); o[(k + 1) % N] = s);
            EL("two writes", any<T>, v[k] = x.b[0]; v[(k + 1) % N] = x.b[N - 1], e = x.b[0]; o[(k + 1) % N] = x.b[N - 1]);
            t.go("value of v[i]++", small<T>, small<T>, 0, hi, KERN(V v = ldA<V>(x); const size_t k = size_t(x.k); o[0] = v[k]++; o[1] = v[k]--; o[2] = ++v[k]; o[3] = --v[k]), KERN(const T e = x.a[x.k]; o[0] = e; o[1] = T(e + 1); o[2] = T(e + 1); o[3] = e), same<T>, 4);
            // one element changed, then the whole vector used
            t.go("v[i] = s; v + 0", small<T>, small<T>, 0, hi, KERN(V v = ldA<V>(x); v[size_t(x.k)] = x.b[0]; put(V(v + v), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = T((int(i) == x.k ? x.b[0] : x.a[i]) * 2)));
            t.go("range-for read", any<T>, any<T>, 0, 0, KERN(const V v = ldA<V>(x); size_t i = 0; for (T e : v) if (i < N) o[i++] = e; else o[0] = T(99)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]));
            t.go("range-for write", small<T>, any<T>, 0, 0, KERN(V v = ldA<V>(x); for (auto &&e : v) std::forward<decltype(e)>(e) = T(T(e) + 1); put(v, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = T(x.a[i] + 1)));
            t.go("begin/end", any<T>, any<T>, 0, hi, KERN(V v = ldA<V>(x); auto b = Vc::begin(v); auto e = Vc::end(v); o[0] = T(e - b); o[1] = *(b + x.k); o[2] = b[x.k]; auto c = e; c -= int(N) - x.k; o[3] = *c; o[4] = T(c == b + x.k); o[5] = T(c < e); ++c; --c; o[6] = *c; o[7] = *Vc::cbegin(v)),
                 KERN(o[0] = T(N); o[1] = o[2] = o[3] = o[6] = x.a[x.k]; o[4] = 1; o[5] = 1; o[7] = x.a[0]), same<T>, 8);
            t.go("iterator comparisons", any<T>, any<T>, 0, hi, KERN(V v = ldA<V>(x); const V &cv = v; const auto b = Vc::begin(v); const auto c = Vc::cbegin(cv); const int k = x.k; bool ok = true;
                     for (int j = 0; j <= int(N); ++j) { const auto p = b + k; const auto q = j + b; const auto cp = c + k; const auto cq = c + j; ok &= (p < q) == (k < j) && (p <= q) == (k <= j) && (p > q) == (k > j) && (p >= q) == (k >= j) && (p == q) == (k == j) && (p != q) == (k != j) && p - q == k - j;
                         ok &= (cp < cq) == (k < j) && (cp <= cq) == (k <= j) && (cp > cq) == (k > j) && (cp >= cq) == (k >= j) && (cp == cq) == (k == j) && (cp != cq) == (k != j) && cp - cq == k - j; }
                     auto f = b + k; auto g = f++; ok &= g == b + k && f == b + (k + 1); g = f--; ok &= g == b + (k + 1) && f == b + k; o[0] = T(ok)), KERN(o[0] = 1; (void)x), same<T>, 1);
            t.go("it[n]", any<T>, any<T>, 0, hi, KERN(V v = ldA<V>(x); const V &cv = v; const auto b = Vc::begin(v); const auto c = Vc::cbegin(cv); const int k = x.k; const int j = int(N) - 1; o[0] = (b + k)[0]; o[1] = (b + j)[k - j]; o[2] = (c + k)[0]; o[3] = (c + j)[k - j]; o[4] = *(k + b); o[5] = *(Vc::end(v) - (int(N) - k)); auto p = b; p += k; o[6] = *p++; o[7] = T(p - b); auto q = Vc::cend(cv); while (q - c > k) q--; o[8] = *q; o[9] = T(q >= c + k && q <= c + k && !(q > c + k) && !(q != c + k))),
                 KERN(for (int i = 0; i < 9; ++i) o[i] = x.a[x.k]; o[7] = T(x.k + 1); o[9] = 1), same<T>, 10);
            t.go("it[n] = s", any<T>, any<T>, 0, hi, KERN(V v = ldA<V>(x); const auto b = Vc::begin(v); const int j = int(N) - 1; (b + j)[x.k - j] = x.b[0]; put(v, o); v = ldA<V>(x); auto p = Vc::begin(v); p += x.k; *p++ = x.b[0]; put(v, o + N)), KERN(for (size_t i = 0; i < N; ++i) o[i] = o[N + i] = int(i) == x.k ? x.b[0] : x.a[i]), same<T>, 2 * N);
            t.go("range-for mask", any<T>, any<T>, 0, 0, KERN(const M m = ldM<V>(x); size_t i = 0; for (bool e : m) if (i < N) o[i++] = T(e); else o[0] = T(99)), KERN(for (size_t i = 0; i < N; ++i) o[i] = T(x.m[i])));
            t.go("where(mask) iterator", any<T>, any<T>, 0, 0, KERN(const M m = ldM<V>(x); auto &&r = where(m); auto b = begin(r), c0 = begin(r); const auto e = end(r); int n = 0; bool ok = (b == c0) && !(b != c0); for (size_t j = 0; j <= N; ++j) o[j] = 0; while (b != e) { ok &= !(b == e); const auto c = b; ok &= c == b; const size_t j = *b; ok &= *c == j; if (n & 1) { auto d = b++; ok &= d == c; } else ++b; ok &= b != c; if (j < N) o[j] = T(++n); } ok &= b == e; o[N] = T(ok)),
                 KERN(int n = 0; for (size_t j = 0; j < N; ++j) o[j] = x.m[j] ? T(++n) : T(0); o[N] = 1), same<T>, N + 1);
            t.go("for (i : where(mask))", any<T>, any<T>, 0, 0, KERN(const M m = ldM<V>(x); int n = 0; for (size_t j = 0; j <= N; ++j) o[j] = 0; for (size_t j : where(m)) { if (j < N) o[j] = T(++n); } o[N] = T(n)),
                 KERN(int n = 0; for (size_t j = 0; j < N; ++j) o[j] = x.m[j] ? T(++n) : T(0); o[N] = T(n)), same<T>, N + 1);
        }
        static void functional(K &t)
        {
            t.go("apply(lambda)", small<T>, any<T>, 0, 0, KERN(const V v = ldA<V>(x); put(V(v.apply([](T e) { return aff<T>(e); })), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = aff<T>(x.a[i])));
            t.go("apply(stateful)", small<T>, any<T>, 0, 0, KERN(const V v = ldA<V>(x); int n = 0; put(V(v.apply([&](T e) { return T(e + T(n++)); })), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = T(x.a[i] + T(i))));
            t.go("apply(function)", small<T>, any<T>, 0, 0, KERN(const V v = ldA<V>(x); T (*f)(T) = aff<T>; put(V(v.apply(f)), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = aff<T>(x.a[i])));
            t.go("apply(f, mask)", small<T>, any<T>, 0, 0, KERN(const V v = ldA<V>(x); put(V(v.apply([](T e) { return aff<T>(e); }, ldM<V>(x))), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.m[i] ? aff<T>(x.a[i]) : x.a[i]));
            t.go("apply(f, mask) calls", any<T>, any<T>, 0, 0, KERN(const V v = ldA<V>(x); int n = 0; V w = v.apply([&](T e) { ++n; return e; }, ldM<V>(x)); (void)w; o[0] = T(n)), KERN(int n = 0; for (size_t i = 0; i < N; ++i) n += x.m[i]; o[0] = T(n)), same<T>, 1);
            t.go("isnegative", any<T>, any<T>, 0, 0, KERN(isneg(x, o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = neg(x.a[i]) && std::is_signed<T>::value), both_ok);
        }
        static bool both_ok(T a, T b) { return a == b || b == T(77); }
        static bool neg(T v) { return std::is_floating_point<T>::value ? std::signbit(double(v)) : v < T(0); }
        template <class W = V> static typename std::enable_if<std::is_floating_point<typename W::EntryType>::value>::type isneg(const In<T> &x, T *o) { const auto m = Vc::isnegative(ldA<W>(x)); for (size_t i = 0; i < N; ++i) o[i] = T(x.a[i] != x.a[i] ? (std::signbit(double(x.a[i]))) : bool(m[i])); }
        template <class W = V> static typename std::enable_if<!std::is_floating_point<typename W::EntryType>::value>::type isneg(const In<T> &x, T *o) { for (size_t i = 0; i < N; ++i) o[i] = T(neg(x.a[i])); }

        template <class W> static void nativeOnly(Kit<T> &t, std::true_type) { (void)t; lists(t); }
        template <class W> static void nativeOnly(Kit<T> &t, std::false_type)
        {
            t.go("call(f)", any<T>, any<T>, 0, 0, KERN(const W v = ldA<W>(x); int n = 0; v.call([&](T e) { if (n < int(N)) o[n] = e; ++n; }); o[N] = T(n)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]; o[N] = T(N)), same<T>, N + 1);
            t.go("call(f, mask)", any<T>, any<T>, 0, 0, KERN(const W v = ldA<W>(x); int n = 0; v.call([&](T e) { if (n < int(N)) o[n] = e; ++n; }, ldM<W>(x)); for (size_t j = size_t(n); j < N; ++j) o[j] = 0; o[N] = T(n)),
                 KERN(int n = 0; for (size_t i = 0; i < N; ++i) if (x.m[i]) o[n++] = x.a[i]; o[N] = T(n)), same<T>, N + 1);
            t.go("v(mask).call(f)", any<T>, any<T>, 0, 0, KERN(W v = ldA<W>(x); int n = 0; v(ldM<W>(x)).call([&](T e) { if (n < int(N)) o[n] = e; ++n; }); for (size_t j = size_t(n); j < N; ++j) o[j] = 0; o[N] = T(n)),
                 KERN(int n = 0; for (size_t i = 0; i < N; ++i) if (x.m[i]) o[n++] = x.a[i]; o[N] = T(n)), same<T>, N + 1);
            t.go("v(mask).apply(f)", small<T>, any<T>, 0, 0, KERN(W v = ldA<W>(x); put(W(v(ldM<W>(x)).apply([](T e) { return aff<T>(e); })), o); put(v, o + N)), KERN(for (size_t i = 0; i < N; ++i) { o[i] = x.m[i] ? aff<T>(x.a[i]) : x.a[i]; o[N + i] = x.a[i]; }), same<T>, 2 * N);
            t.go("callWithValuesSorted", few<T>, any<T>, 0, 0, KERN(W v = ldA<W>(x); Rec<T> r; v.callWithValuesSorted(r); for (size_t i = 0; i < N; ++i) o[i] = int(i) < r.n ? r.v[i] : T(0); o[N] = T(r.n)),
                 KERN(T s[N]; std::copy(x.a, x.a + N, s); std::sort(s, s + N); const size_t n = size_t(std::unique(s, s + N) - s); for (size_t i = 0; i < n; ++i) o[i] = s[i]; o[N] = T(n)), same<T>, N + 1);
            t.go("callWithValuesSorted wide", moderate<T>, any<T>, 0, 0, KERN(W v = ldA<W>(x); Rec<T> r; v.callWithValuesSorted(r); for (size_t i = 0; i < N; ++i) o[i] = int(i) < r.n ? r.v[i] : T(0); o[N] = T(r.n)),
                 KERN(T s[N]; std::copy(x.a, x.a + N, s); std::sort(s, s + N); const size_t n = size_t(std::unique(s, s + N) - s); for (size_t i = 0; i < n; ++i) o[i] = s[i]; o[N] = T(n)), sameZ<T>, N + 1);
            t.go("fill(f(int))", any<T>, any<T>, 0, 0, KERN(W v = ldA<W>(x); v.fill(fillIdx<T>); put(v, o)), KERN((void)x; for (size_t i = 0; i < N; ++i) o[i] = fillIdx<T>(int(i))));
            t.go("fill(f(ushort))", any<T>, any<T>, 0, 0, KERN(W v = ldA<W>(x); v.fill(fillIdx2<T>); put(v, o)), KERN((void)x; for (size_t i = 0; i < N; ++i) o[i] = T(i + 5)));
            t.go("fill(f())", any<T>, any<T>, 0, 0, KERN(W v = ldA<W>(x); fillN = 0; v.fill(fillNext<T>); put(v, o)), KERN((void)x; for (size_t i = 0; i < N; ++i) o[i] = T(i + 1)));
        }
        template <size_t... I> static V il(const T *p, Vc::index_sequence<I...>) { return V{p[I]...}; }
        static void lists(Kit<T> &t)
        {
            t.go("{a, b, ...}", any<T>, any<T>, 0, 0, KERN(put(il(x.a, Vc::make_index_sequence<N>()), o)), KERN(for (size_t i = 0; i < N; ++i) o[i] = x.a[i]));
        }
        static void random()
        {
            const std::string key = std::string("Random()/") + vn<V>() + "/" + VT_IMPL;
            OpCount oc(key);
            const int n = 4096;
            std::vector<std::array<int, 64>> ones(N); for (auto &a : ones) a.fill(0);
            std::vector<std::array<int, 16>> bins(N); for (auto &a : bins) a.fill(0);
            bool range = true; uint64_t h = 0; std::vector<int> eq(N * N, 0);
            for (int i = 0; i < n; ++i) {
                const V v = V::Random();
                T l[N]; toLanes(v, l);
                ev(hashBytes(l, sizeof l, hashStr(key.c_str())));
                h = hashBytes(l, sizeof l, h);
                for (size_t j = 0; j < N; ++j) { count(l[j], ones[j], bins[j], range); for (size_t o = 0; o < j; ++o) eq[j * N + o] += l[j] == l[o]; }
            }
            for (size_t j = 0; j < N; ++j) for (size_t o = 0; o < j; ++o) if (eq[j * N + o] > n / 8) { fail(key, "elements %d and %d were equal in %d of %d random vectors", int(o), int(j), eq[j * N + o], n); return; }
            if (!range) fail(key, "a floating-point random value outside [0, 1)");
            for (size_t j = 0; j < N; ++j) {
                if (std::is_integral<T>::value)
                    for (size_t b = 0; b < sizeof(T) * 8; ++b) if (ones[j][b] < n * 2 / 5 || ones[j][b] > n * 3 / 5) { fail(key, "element %d bit %d is set in %d of %d random values", int(j), int(b), ones[j][b], n); return; }
                if (std::is_floating_point<T>::value)
                    for (int b = 0; b < 16; ++b) if (bins[j][b] < n / 16 / 2 || bins[j][b] > n / 16 * 2) { fail(key, "element %d: %d of %d random values in sixteenth %d of [0, 1)", int(j), bins[j][b], n, b); return; }
            }
        }
        static void count(double v, std::array<int, 64> &, std::array<int, 16> &bins, bool &range) { if (!(v >= 0 && v < 1)) range = false; else ++bins[int(v * 16)]; }
        static void count(float v, std::array<int, 64> &a, std::array<int, 16> &b, bool &range) { count(double(v), a, b, range); }
        template <class I> static void count(I v, std::array<int, 64> &ones, std::array<int, 16> &, bool &) { for (size_t b = 0; b < sizeof(I) * 8; ++b) ones[b] += (v >> b) & 1; }
        static void run()
        {
            K t("lanes ", vn<V>(), N, 60);
            create(t);
            elements(t);
            functional(t);
            nativeOnly<V>(t, std::integral_constant<bool, Vc::Traits::isSimdArray<V>::value>());
            if (VT_ALONE) random();   // all threads share its state
        }
    };
    template <class V> void operator()(Tag<V>) { X<V>::run(); }
};
namespace vt {
void run()
{
#ifdef VT_ARRAYS
    Do d; VT_ARRAYS
#else
    forNative(Do());
#endif
}
}
