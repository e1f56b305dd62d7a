// vtvc.h -- Vc-specific helpers for the drivers: naming, type lists, lane transfer that does not
// depend on the operation under test.
#ifndef VTVC_H
#define VTVC_H
#include <Vc/Vc>
#include "vt.h"
#include <sys/mman.h>
#ifndef VT_IMPL
#define VT_IMPL "?"
#endif
namespace vt
{
template <class V> struct VName;
template <class A> struct AbiName;
template <> struct AbiName<Vc::VectorAbi::Scalar> { static std::string get() { return "scalar"; } };
template <> struct AbiName<Vc::VectorAbi::Sse> { static std::string get() { return "sse"; } };
template <> struct AbiName<Vc::VectorAbi::Avx> { static std::string get() { return "avx"; } };
template <class T, class A> struct VName<Vc::Vector<T, A>> { static std::string get() { return std::string("V<") + tn<T>() + "," + AbiName<A>::get() + ">"; } };
template <class T, int N> struct VName<Vc::Vector<T, Vc::simd_abi::fixed_size<N>>> { static std::string get() { return std::string("A<") + tn<T>() + "," + std::to_string(N) + ">"; } };
template <class T, size_t N, class V, size_t M> struct VName<Vc::SimdArray<T, N, V, M>> { static std::string get() { return std::string("A<") + tn<T>() + "," + std::to_string(N) + ">"; } };
template <class V> std::string vn() { return VName<V>::get(); }

// key of an operation on a vector type under this driver's implementation
template <class V> std::string key(const std::string &op) { return op + "/" + vn<V>() + "/" + VT_IMPL; }

// lane transfer: element-wise, through operator[]
template <class V, class T> inline V fromLanes(const T *p)
{
    alignas(64) T tmp[V::Size];
    for (size_t i = 0; i < V::Size; ++i) tmp[i] = p[i];
    return V(static_cast<const T *>(tmp), Vc::Unaligned);
}
template <class V, class T> inline void toLanes(const V &v, T *p)
{
    for (size_t i = 0; i < V::Size; ++i) p[i] = T(v[i]);
}
template <class M> inline M maskFromBits(const bool *b)
{
    M m(false);
    for (size_t i = 0; i < M::Size; ++i) m[i] = b[i];
    return m;
}
template <class M> inline void maskToBits(const M &m, bool *b) { for (size_t i = 0; i < M::Size; ++i) b[i] = m[i]; }

template <class V, class T = typename V::EntryType> struct Lanes {
    T a[V::Size];
    const T *p() const { return a; }
    V v() const { return fromLanes<V, T>(a); }
    uint64_t h(uint64_t s) const { return hashBytes(a, sizeof a, s); }
    std::string s() const { return strv(a, V::Size); }
    template <class G> static Lanes gen(Rng &r, G g) { Lanes l; for (auto &x : l.a) x = g(r); return l; }
    static Lanes any(Rng &r) { return gen(r, vt::any<T>); }
    static Lanes of(const V &v) { Lanes l; toLanes(v, l.a); return l; }
};
// a mask pattern weighted to the interesting shapes: none, all, single lane, prefix, random
template <size_t N> struct Bits {
    bool a[N];
    static Bits gen(Rng &r)
    {
        Bits b;
        unsigned k = r.below(12), c = r.below(N + 1);
        for (size_t i = 0; i < N; ++i)
            b.a[i] = k == 0 ? false : k == 1 ? true : k == 2 ? i == c : k == 3 ? i < c : k == 4 ? i >= c : k == 5 ? (i & 1) == (c & 1) : k == 6 ? i != c : r.coin();
        return b;
    }
    std::string s() const { std::string x; for (bool i : a) x += i ? '1' : '0'; return x; }
    uint64_t h(uint64_t s) const { return hashBytes(a, sizeof a, s); }
    int count() const { int n = 0; for (bool i : a) n += i; return n; }
};

template <class... Vs> struct List {};
template <class F> inline void forEach(List<>, F &&) {}
template <class V> struct Tag { using type = V; };
template <class F, class V, class... Vs> inline void forEach(List<V, Vs...>, F &&f) { f(Tag<V>()); forEach(List<Vs...>(), f); }

// VT_T: comma separated list of entry types for this build part
#ifndef VT_T
#define VT_T float, double, int, unsigned, short, unsigned short
#endif
template <class... Ts> struct Types {};
using TheTypes = Types<VT_T>;

// all native vector types with entry type T that this implementation supports, default ABI first
template <class T> struct Native {
#if defined Vc_IMPL_AVX2
    using type = List<Vc::Vector<T, Vc::VectorAbi::Avx>, Vc::Vector<T, Vc::VectorAbi::Sse>>;
#elif defined Vc_IMPL_AVX
    using type = typename std::conditional<std::is_floating_point<T>::value,
        List<Vc::Vector<T, Vc::VectorAbi::Avx>, Vc::Vector<T, Vc::VectorAbi::Sse>>,
        List<Vc::Vector<T, Vc::VectorAbi::Sse>>>::type;
#elif defined Vc_IMPL_SSE
    using type = List<Vc::Vector<T, Vc::VectorAbi::Sse>>;
#else
    using type = List<Vc::Vector<T, Vc::VectorAbi::Scalar>>;
#endif
};
template <class F> inline void forTypes(Types<>, F &&) {}
template <class F, class T, class... Ts> inline void forTypes(Types<T, Ts...>, F &&f) { f(Tag<T>()); forTypes(Types<Ts...>(), f); }
template <class F> struct NativeVisitor { F &f; template <class T> void operator()(Tag<T>) { forEach(typename Native<T>::type(), f); } };
// f(Tag<V>) for each native vector type
template <class F> inline void forNative(F &&f) { NativeVisitor<F> v{f}; forTypes(TheTypes(), v); }
template <class F, size_t N> struct ArrVisitor { F &f; template <class T> void operator()(Tag<T>) { f(Tag<Vc::SimdArray<T, N>>()); } };
template <size_t N, class F> inline void forArray(F &&f) { ArrVisitor<F, N> v{f}; forTypes(TheTypes(), v); }
// objects far apart in a reserved address range, of which only the selected ones are accessible
struct Far {
    static constexpr size_t Size = size_t(33) << 30, Page = 4096;
    char *p;
    Far() { void *q = mmap(nullptr, Size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); p = q == MAP_FAILED ? nullptr : static_cast<char *>(q); }
    ~Far() { if (p) munmap(p, Size); }
    static char *down(char *x) { return reinterpret_cast<char *>(reinterpret_cast<uintptr_t>(x) & ~uintptr_t(Page - 1)); }
    bool open(char *x, size_t n) { char *b = down(x); return mprotect(b, size_t(down(x + n - 1) + Page - b), PROT_READ | PROT_WRITE) == 0; }
    void close(char *x, size_t n) { char *b = down(x); const size_t l = size_t(down(x + n - 1) + Page - b); madvise(b, l, MADV_DONTNEED); mprotect(b, l, PROT_NONE); }
};
}  // namespace vt
#endif
