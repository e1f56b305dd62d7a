// C10: lane movement: shifted, rotated, reversed, interleave, permutation subscripts, sorted
#include <Vc/Vc>
#include "kit.h"
using namespace vt;

// only AVX vectors have the reversing subscript; only floating-point SSE/AVX vectors have broadcast<I>()
template <class V, class T> void special(Kit<T> &, ...) {}
template <class T> using ARef = Vc::Vector<T, Vc::VectorAbi::Avx> *;
#ifdef Vc_IMPL_AVX
template <class V, class T> void special(Kit<T> &x, ARef<T>, long)
{
    x.go("v[reversed]", any<T>, any<T>, 0, 0, KERN(put(ldA<V>(x)[Vc::Permutation::Reversed], o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.a[x.N - 1 - i]));
}
#endif
template <class V, class T, int I> struct Bc {
    static void all(Kit<T> &x)
    {
        x.go("broadcast<" + std::to_string(I) + ">", any<T>, any<T>, 0, 0, KERN(put(ldA<V>(x).template broadcast<I>(), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.a[I]));
        Bc<V, T, I - 1>::all(x);
    }
};
template <class V, class T> struct Bc<V, T, -1> { static void all(Kit<T> &) {} };
template <class V, class T> void bcast(Kit<T> &, std::false_type) {}
template <class V, class T> void bcast(Kit<T> &x, std::true_type) { Bc<V, T, int(V::Size) - 1>::all(x); }
template <class T> bool bits(T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class T> bool total(T a, T b) { return a < b || (a == b && std::signbit(double(a)) > std::signbit(double(b))); }
// amounts known at compile time (Vc treats them separately)
template <class V, int K, int End> struct ConstShift {
    template <class T> static void one(const In<T> &x, T *o, int what)
    {
        if (x.k != K) return ConstShift<V, K + 1, End>::one(x, o, what);
        const V a = ldA<V>(x);
        if (what == 0) put(V(a.shifted(K)), o); else if (what == 1) put(V(a.shifted(K, ldB<V>(x))), o); else put(V(a.rotated(K)), o);
    }
};
template <class V, int End> struct ConstShift<V, End, End> { template <class T> static void one(const In<T> &, T *, int) {} };
// shifting in from an array of another length
template <class V, int M, class T> void shiftInOther(Kit<T> &, ...) {}
template <class V, int M, class T, size_t NN, class VV, size_t WW> void shiftInOther(Kit<T> &x, Vc::SimdArray<T, NN, VV, WW> *)
{
    constexpr int N = V::Size;
    using S = Vc::SimdArray<T, M>;
    x.go("shifted(n,array<" + std::to_string(M) + ">)", any<T>, any<T>, -N, N, KERN(T b[64]; for (int i = 0; i < M; ++i) b[i] = x.b[i % int(x.N)] ; S s; for (int i = 0; i < M; ++i) s[i] = b[i]; put(V(ldA<V>(x).shifted(x.k, s)), o)),
         KERN(T b[64]; for (int i = 0; i < M; ++i) b[i] = x.b[i % int(x.N)]; for (int i = 0; i < int(x.N); ++i) { const int j = i + x.k; o[i] = j < 0 ? (j + M >= 0 ? b[j + M] : T(0)) : j < int(x.N) ? x.a[j] : j - int(x.N) < M ? b[j - int(x.N)] : T(0); }), bits<T>);
}
struct Do {
    template <class V> void operator()(Tag<V>)
    {
        using T = typename V::EntryType;
        constexpr int N = V::Size;
        Kit<T> x("permute", vn<V>(), N, 300);
        using Q = bool (*)(T, T);
        const Q eq = bits<T>;
        x.go("shifted(n)", any<T>, any<T>, -3 * N - 1, 3 * N + 1, KERN(put(ldA<V>(x).shifted(x.k), o)),
             KERN(for (int i = 0; i < int(x.N); ++i) { int j = i + x.k; o[i] = j >= 0 && j < int(x.N) ? x.a[j] : T(0); }), eq);
        x.go("shifted(n), any n", any<T>, any<T>, -1000000000, 1000000000, KERN(put(ldA<V>(x).shifted(far(x.k)), o)),
             KERN(for (int i = 0; i < int(x.N); ++i) { long j = i + long(far(x.k)); o[i] = j >= 0 && j < long(x.N) ? x.a[j] : T(0); }), eq);
        x.go("rotated, any n", any<T>, any<T>, -1000000000, 1000000000, KERN(put(ldA<V>(x).rotated(far(x.k)), o)),
             KERN(for (int i = 0; i < int(x.N); ++i) { long j = (i + long(far(x.k))) % long(x.N); if (j < 0) j += long(x.N); o[i] = x.a[j]; }), eq);
        // defined for amounts between -Size and Size
        x.go("shifted(n,v)", any<T>, any<T>, -N, N, KERN(put(ldA<V>(x).shifted(x.k, ldB<V>(x)), o)),
             KERN(for (int i = 0; i < int(x.N); ++i) { int j = i + x.k; o[i] = j < 0 ? x.b[j + int(x.N)] : j < int(x.N) ? x.a[j] : x.b[j - int(x.N)]; }), eq);
        constexpr int C = N < 16 ? N : 16;
        x.go("shifted(constant)", any<T>, any<T>, -C, C, KERN((ConstShift<V, -C, C + 1>::one(x, o, 0))),
             KERN(for (int i = 0; i < int(x.N); ++i) { int j = i + x.k; o[i] = j >= 0 && j < int(x.N) ? x.a[j] : T(0); }), eq);
        x.go("shifted(constant,v)", any<T>, any<T>, -C, C, KERN((ConstShift<V, -C, C + 1>::one(x, o, 1))),
             KERN(for (int i = 0; i < int(x.N); ++i) { int j = i + x.k; o[i] = j < 0 ? x.b[j + int(x.N)] : j < int(x.N) ? x.a[j] : x.b[j - int(x.N)]; }), eq);
        x.go("rotated(constant)", any<T>, any<T>, -C, C, KERN((ConstShift<V, -C, C + 1>::one(x, o, 2))),
             KERN(for (int i = 0; i < int(x.N); ++i) { int j = (i + x.k) % int(x.N); if (j < 0) j += int(x.N); o[i] = x.a[j]; }), eq);
#ifdef VT_ARRAYS
        shiftInOther<V, 1>(x, static_cast<V *>(nullptr));
        shiftInOther<V, N + 1>(x, static_cast<V *>(nullptr));
        shiftInOther<V, (N + 1) / 2>(x, static_cast<V *>(nullptr));
        shiftInOther<V, (N > 8 ? N + 3 : 2 * N)>(x, static_cast<V *>(nullptr));
#endif
        x.go("rotated", any<T>, any<T>, -3 * N - 1, 3 * N + 1, KERN(put(ldA<V>(x).rotated(x.k), o)),
             KERN(for (int i = 0; i < int(x.N); ++i) { int j = (i + x.k) % int(x.N); if (j < 0) j += int(x.N); o[i] = x.a[j]; }), eq);
        x.go("reversed", any<T>, any<T>, 0, 0, KERN(put(ldA<V>(x).reversed(), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.a[x.N - 1 - i]), eq);
        x.go("interleave", any<T>, any<T>, 0, 0, KERN(auto p = Vc::interleave(ldA<V>(x), ldB<V>(x)); put(p.first, o); put(p.second, o + x.N)),
             KERN(for (size_t i = 0; i < x.N; ++i) { o[2 * i] = x.a[i]; o[2 * i + 1] = x.b[i]; }), bits<T>, 2 * N);
        x.go("interleaveLow", any<T>, any<T>, 0, 0, KERN(put(ldA<V>(x).interleaveLow(ldB<V>(x)), o)),
             KERN(for (size_t i = 0; i < x.N; ++i) o[i] = i & 1 ? x.b[i / 2] : x.a[i / 2]), eq);
        x.go("interleaveHigh", any<T>, any<T>, 0, 0, KERN(put(ldA<V>(x).interleaveHigh(ldB<V>(x)), o)),
             KERN(for (size_t i = 0; i < x.N; ++i) { size_t j = i + x.N; o[i] = j & 1 ? x.b[j / 2] : x.a[j / 2]; }), eq);
        // round trips that combine several permutations
        x.go("rotate round trip", any<T>, any<T>, -N, N, KERN(put(ldA<V>(x).rotated(x.k).reversed().rotated(x.k).reversed(), o)),
             KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.a[i]), eq);
#ifndef VT_ARRAYS
        special<V>(x, static_cast<V *>(nullptr), 0);
        bcast<V>(x, std::integral_constant<bool, (std::is_floating_point<T>::value && V::Size > 1)>());
#endif
        const Q eqz = sameZ<T>;
        x.go("sorted", sortable<T>, any<T>, 0, 0, KERN(put(ldA<V>(x).sorted(), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.a[i]; std::sort(o, o + x.N)), eqz);
        x.go("sorted multiset", zeros<T>, any<T>, 0, 0, KERN(put(ldA<V>(x).sorted(), o); std::sort(o, o + x.N, total<T>)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.a[i]; std::sort(o, o + x.N, total<T>)), eq);
        x.go("sorted few values", fewValues<T>, any<T>, 0, 0, KERN(put(ldA<V>(x).sorted(), o)), KERN(for (size_t i = 0; i < x.N; ++i) o[i] = x.a[i]; std::sort(o, o + x.N)), eqz);
    }
    // huge, middle-sized and extreme amounts
    static int far(int k) { switch (k & 7) { case 0: return k >> 12; case 1: return k >> 20; case 2: return k >> 22; case 3: return k & 8 ? std::numeric_limits<int>::max() - ((k >> 4) & 31) : std::numeric_limits<int>::min() + ((k >> 4) & 31); case 4: return k < 0 ? -(1 << ((k >> 4) & 15)) : 1 << ((k >> 4) & 31 & 15); default: return k; } }
    template <class T> static T sortable(Rng &r) { T x; do x = any<T>(r); while (x != x); return x; }
    template <class T> static T zeros(Rng &r) { return r.below(3) ? sortable<T>(r) : r.coin() ? T(0) : T(T(-1) * T(0)); }
    template <class T> static T fewValues(Rng &r) { return T(r.below(4)); }
};
namespace vt {
void run()
{
#ifdef VT_ARRAYS
    Do d; VT_ARRAYS
#else
    forNative(Do());
#endif
}
}
