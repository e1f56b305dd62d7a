// C15: allocation.  Every request Vc makes of the system (posix_memalign, free, operator new/delete) goes
// through a registry; random histories of allocations from several threads are filled to the last promised byte.
// Link with -Wl,--wrap=posix_memalign,--wrap=free
#include "vtvc.h"
#include <Vc/Allocator>
#include <Vc/Memory>
#include <atomic>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <new>
#include <set>
#include <thread>
using namespace vt;
#define NOI __attribute__((noinline))
extern "C" int __real_posix_memalign(void **, size_t, size_t);
extern "C" void __real_free(void *);
extern "C" int __wrap_posix_memalign(void **, size_t, size_t);
extern "C" void __wrap_free(void *);

namespace reg
{
enum Kind { None, Mem, New, NewArr };
struct Slot { std::atomic<uintptr_t> p; size_t size; Kind kind; };
constexpr size_t SLOTS = 1 << 17;
Slot slots[SLOTS];
std::atomic_flag lk = ATOMIC_FLAG_INIT;
std::atomic<long> allocs{0}, frees{0}, live[4];
std::atomic<unsigned> wrong{0};
char what[200];
thread_local int failNext = 0;     // >0: the next requests of this thread fail
thread_local size_t lastSize = 0, lastMem = 0, lastCalls = 0;
void *tomb = &slots;
struct Lock { Lock() { while (lk.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); } ~Lock() { lk.clear(std::memory_order_release); } };
void add(void *p, size_t n, Kind k)
{
    Lock l;
    size_t i = mix(reinterpret_cast<uintptr_t>(p)) % SLOTS;
    while (slots[i].p != 0 && slots[i].p != 1) i = (i + 1) % SLOTS;
    slots[i].p = reinterpret_cast<uintptr_t>(p); slots[i].size = n; slots[i].kind = k;
    ++allocs; ++live[k];
}
Slot *find(const void *p)
{
    size_t i = mix(reinterpret_cast<uintptr_t>(p)) % SLOTS;
    for (size_t n = 0; n < SLOTS && slots[i].p != 0; ++n, i = (i + 1) % SLOTS) if (slots[i].p == reinterpret_cast<uintptr_t>(p)) return &slots[i];
    return nullptr;
}
// returns the kind of the removed entry
Kind remove(void *p, Kind k, bool strict)
{
    Lock l;
    Slot *s = find(p);
    if (!s) { if (strict) { ++wrong; snprintf(what, sizeof what, "release of an address (%p) that was never returned by the matching allocation function", p); } return None; }
    if ((k == Mem) != (s->kind == Mem)) { ++wrong; snprintf(what, sizeof what, "memory from %s released with %s", s->kind == Mem ? "posix_memalign" : "operator new", k == Mem ? "free" : "operator delete"); }
    const Kind r = s->kind;
    s->p = 1; ++frees; --live[r];
    return r;
}
// the block that contains [p, p+n)
bool covers(const void *p, size_t n)
{
    Lock l;
    for (auto &s : slots) { const uintptr_t b = s.p; if (b > 1 && reinterpret_cast<uintptr_t>(p) >= b && reinterpret_cast<uintptr_t>(p) + n <= b + s.size) return true; }
    return false;
}
long liveTotal() { return live[Mem] + live[New] + live[NewArr]; }
}
int __wrap_posix_memalign(void **pp, size_t a, size_t n)
{
    reg::lastSize = reg::lastMem = n; ++reg::lastCalls;
    if (reg::failNext > 0) { --reg::failNext; return 12; }
    const int r = __real_posix_memalign(pp, a, n);
    if (!r) { memset(*pp, 0xee, n); reg::add(*pp, n, reg::Mem); }
    return r;
}
void __wrap_free(void *p)
{
    if (p) reg::remove(p, reg::Mem, false);
    __real_free(p);
}
static void *newImpl(size_t n, reg::Kind k)
{
    reg::lastSize = n; ++reg::lastCalls;
    if (reg::failNext > 0) { --reg::failNext; throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    reg::add(p, n, k);
    return p;
}
static void delImpl(void *p, reg::Kind k) { if (!p) return; reg::remove(p, k, true); __real_free(p); }
void *operator new(size_t n) { return newImpl(n, reg::New); }
void *operator new[](size_t n) { return newImpl(n, reg::NewArr); }
void operator delete(void *p) noexcept { delImpl(p, reg::New); }
void operator delete[](void *p) noexcept { delImpl(p, reg::NewArr); }
void operator delete(void *p, size_t) noexcept { delImpl(p, reg::New); }
void operator delete[](void *p, size_t) noexcept { delImpl(p, reg::NewArr); }

static std::atomic_flag failLock = ATOMIC_FLAG_INIT;
template <class... A> void tfail(const std::string &k, const char *f, A... a)
{
    while (failLock.test_and_set()) std::this_thread::yield();
    fail(k, f, a...);
    failLock.clear();
}
// one live allocation
struct Block {
    void *p; size_t bytes; uint64_t s; std::function<void()> release; const char *kind;
    void fill() { for (size_t i = 0; i < bytes; ++i) static_cast<uint8_t *>(p)[i] = uint8_t(mix(s + i / 8) >> (i % 8 * 8)); }
    bool intact() const { for (size_t i = 0; i < bytes; ++i) if (static_cast<uint8_t *>(p)[i] != uint8_t(mix(s + i / 8) >> (i % 8 * 8))) return false; return true; }
};
static std::string K(const std::string &o) { return o + "/" + VT_IMPL; }
static std::atomic<uint64_t> nevents{0};
struct Events { std::vector<uint64_t> h; };
static thread_local Events *evs = nullptr;
static void event(uint64_t h) { evs->h.push_back(h); }

template <class T, Vc::MallocAlignment A> NOI Block doMalloc(Rng &r, const char *kind)
{
    const size_t al = A == Vc::AlignOnVector ? size_t(Vc::VectorAlignment) : A == Vc::AlignOnCacheline ? 64 : 4096;
    const size_t n = r.below(5) ? r.below(70) : r.below(3000);
    const bool f = r.below(12) == 0;
    if (f) reg::failNext = 1;
    T *p = Vc::malloc<T, A>(n);
    reg::failNext = 0;
    event(mix(n) ^ hashStr(kind));
    if (f) { if (p) tfail(K("Vc::malloc"), "%s, %d objects: the failure of the system allocator is not reported", kind, int(n)); return Block{nullptr, 0, 0, [] {}, kind}; }
    if (!p) { tfail(K("Vc::malloc"), "%s, %d objects: null", kind, int(n)); return Block{nullptr, 0, 0, [] {}, kind}; }
    const size_t bytes = (n * sizeof(T) + al - 1) / al * al;
    if (reinterpret_cast<uintptr_t>(p) % al) tfail(K("Vc::malloc"), "%s, %d objects: %p is not aligned to %d", kind, int(n), static_cast<void *>(p), int(al));
    if (reg::lastMem < bytes) { tfail(K("Vc::malloc"), "%s, %d objects: %d bytes allocated, %d promised", kind, int(n), int(reg::lastMem), int(bytes)); return Block{p, reg::lastMem, r.u64(), [p] { Vc::free(p); }, kind}; }
    return Block{p, bytes, r.u64(), [p] { Vc::free(p); }, kind};
}
// T is implicitly required to have its own alignment
template <class T> NOI Block doAllocator(Rng &r, const char *kind)
{
    const size_t n = r.below(5) ? r.below(40) : r.below(600);
    const bool f = r.below(12) == 0;
    Vc::Allocator<T> a;
    T *p = nullptr;
    bool threw = false;
    if (f) reg::failNext = 1;
    try { p = a.allocate(n); } catch (const std::bad_alloc &) { threw = true; }
    reg::failNext = 0;
    event(mix(n) ^ hashStr(kind) ^ 99);
    if (f != threw || (!f && !p)) tfail(K("Vc::Allocator"), "%s, %d objects: %s", kind, int(n), f ? "no bad_alloc although the allocation failed" : "failed");
    if (f || threw || !p) return Block{nullptr, 0, 0, [] {}, kind};
    if (reinterpret_cast<uintptr_t>(p) % alignof(T)) tfail(K("Vc::Allocator"), "%s, %d objects: %p is not aligned to %d", kind, int(n), static_cast<void *>(p), int(alignof(T)));
    if (!reg::covers(p, n * sizeof(T))) { tfail(K("Vc::Allocator"), "%s, %d objects: %p..+%d is not inside the allocated memory", kind, int(n), static_cast<void *>(p), int(n * sizeof(T)));
        return Block{nullptr, 0, 0, [] {}, kind}; }
    return Block{p, n * sizeof(T), r.u64(), [p, n] { Vc::Allocator<T> b; b.deallocate(p, n); }, kind};
}
template <class T> NOI Block doNew(Rng &r, const char *kind)
{
    const bool f = r.below(12) == 0;
    T *p = nullptr;
    bool threw = false;
    if (f) reg::failNext = 1;
    try { p = new T; } catch (const std::bad_alloc &) { threw = true; }
    reg::failNext = 0;
    event(hashStr(kind) ^ 7);
    if (f != threw) tfail(K("operator new"), "%s: %s", kind, f ? "no bad_alloc although the allocation failed" : "failed");
    if (!p) return Block{nullptr, 0, 0, [] {}, kind};
    if (reinterpret_cast<uintptr_t>(p) % alignof(T)) tfail(K("operator new"), "%s: %p is not aligned to %d", kind, static_cast<void *>(p), int(alignof(T)));
    if (!reg::covers(p, sizeof(T))) tfail(K("operator new"), "%s: object not inside the allocated memory", kind);
    return Block{p, sizeof(T), r.u64(), [p] { delete p; }, kind};
}
template <class T> NOI Block doNewArray(Rng &r, const char *kind)
{
    const bool f = r.below(12) == 0;
    const size_t n = r.below(5) ? r.below(20) : r.below(300);
    T *p = nullptr;
    bool threw = false;
    if (f) reg::failNext = 1;
    try { p = new T[n]; } catch (const std::bad_alloc &) { threw = true; }
    reg::failNext = 0;
    event(mix(n) ^ hashStr(kind) ^ 8);
    if (f != threw) tfail(K("operator new[]"), "%s[%d]: %s", kind, int(n), f ? "no bad_alloc although the allocation failed" : "failed");
    if (!p) return Block{nullptr, 0, 0, [] {}, kind};
    if (reinterpret_cast<uintptr_t>(p) % alignof(T)) tfail(K("operator new[]"), "%s[%d]: %p is not aligned to %d", kind, int(n), static_cast<void *>(p), int(alignof(T)));
    if (!reg::covers(p, n * sizeof(T))) { tfail(K("operator new[]"), "%s[%d]: array not inside the allocated memory", kind, int(n)); }
    return Block{p, n * sizeof(T), r.u64(), [p] { delete[] p; }, kind};
}
template <class T> NOI Block doUnique(Rng &r, const char *kind)
{
    auto u = std::make_shared<std::unique_ptr<T, Vc::Common::Deleter<T>>>(Vc::Common::make_unique<T, Vc::AlignOnCacheline>());
    event(hashStr(kind) ^ 11);
    T *p = u->get();
    if (reinterpret_cast<uintptr_t>(p) % 64 || reinterpret_cast<uintptr_t>(p) % alignof(T)) tfail(K("make_unique"), "%s: %p", kind, static_cast<void *>(p));
    if (!reg::covers(p, sizeof(T))) tfail(K("make_unique"), "%s: object not inside the allocated memory", kind);
    return Block{p, sizeof(T), r.u64(), [u]() mutable { u->reset(); u.reset(); }, kind};
}
// user types of every alignment
template <class V> struct Struct { V x; char c; };
template <size_t A> struct alignas(A) Over { char a[3]; };
struct Five { char a[5]; };
template <class B> struct Derived : B { char a[7]; };

template <class V> struct Kinds {
    using T = typename V::EntryType;
    using A13 = Vc::SimdArray<T, 13>;
    using A16 = Vc::SimdArray<T, 16>;
    using A5 = Vc::SimdArray<T, 5>;
    using M13 = typename A13::Mask;
    static Block any(Rng &r)
    {
        switch (r.below(36)) {
        case 0: return doMalloc<T, Vc::AlignOnVector>(r, "T, vector");
        case 1: return doMalloc<T, Vc::AlignOnCacheline>(r, "T, cacheline");
        case 2: return doMalloc<T, Vc::AlignOnPage>(r, "T, page");
        case 3: return doMalloc<char, Vc::AlignOnVector>(r, "char, vector");
        case 4: return doMalloc<char, Vc::AlignOnCacheline>(r, "char, cacheline");
        case 5: return doMalloc<Five, Vc::AlignOnPage>(r, "5 byte struct, page");
        case 6: return doMalloc<Five, Vc::AlignOnVector>(r, "5 byte struct, vector");
        case 7: return doMalloc<V, Vc::AlignOnVector>(r, "V, vector");
        case 8: return doAllocator<T>(r, "T");
        case 9: return doAllocator<char>(r, "char");
        case 10: return doAllocator<V>(r, "V");
        case 11: return doAllocator<typename V::Mask>(r, "Mask");
        case 12: return doAllocator<Struct<V>>(r, "struct with V");
        case 13: return doAllocator<Over<8>>(r, "alignas(8)");
        case 14: return doAllocator<Over<64>>(r, "alignas(64)");
        case 15: return doAllocator<Over<128>>(r, "alignas(128)");
        case 16: return doAllocator<Over<4096>>(r, "alignas(4096)");
        case 17: return doAllocator<Five>(r, "5 byte struct");
        case 18: return doAllocator<A13>(r, "SimdArray 13");
        case 19: return doAllocator<A16>(r, "SimdArray 16");
        case 20: return doNew<V>(r, "V");
        case 21: return doNew<typename V::Mask>(r, "Mask");
        case 22: return doNew<A13>(r, "SimdArray 13");
        case 23: return doNew<A16>(r, "SimdArray 16");
        case 24: return doNew<A5>(r, "SimdArray 5");
        case 25: return doNew<M13>(r, "SimdMaskArray 13");
        case 26: return doNew<Derived<Vc::AlignedBase<64>>>(r, "AlignedBase<64>");
        case 27: return doNew<Derived<Vc::VectorAlignedBase>>(r, "VectorAlignedBase");
        case 28: return doNew<Derived<Vc::MemoryAlignedBaseT<V>>>(r, "MemoryAlignedBaseT");
        case 29: return doNewArray<V>(r, "V");
        case 30: return doNewArray<typename V::Mask>(r, "Mask");
        case 31: return doNewArray<A16>(r, "SimdArray 16");
        case 32: return doNewArray<Derived<Vc::AlignedBase<128>>>(r, "AlignedBase<128>");
        case 33: return doNewArray<Derived<Vc::VectorAlignedBaseT<V>>>(r, "VectorAlignedBaseT");
        case 34: return doUnique<Derived<Vc::AlignedBase<64>>>(r, "AlignedBase<64>");
        default: return doUnique<V>(r, "V");
        }
    }
};
static std::atomic_flag poolLock = ATOMIC_FLAG_INIT;
static std::vector<Block> *exchange;   // blocks handed from one thread to another

template <class V> NOI void history(uint64_t s, long n)
{
    Rng r(s);
    std::vector<Block> pool;
    auto drop = [&](size_t i) {
        Block b = pool[i]; pool[i] = pool.back(); pool.pop_back();
        if (!b.intact()) tfail(K("contents"), "%s, %d bytes: changed while live", b.kind, int(b.bytes));
        if (b.p) b.release();
    };
    for (long k = 0; k < n; ++k) {
        if (pool.size() < 48 && (pool.empty() || r.below(5) < 3)) {
            Block b = Kinds<V>::any(r);
            if (b.p) { b.fill(); pool.push_back(b); }
        } else if (r.below(6) == 0) {
            while (poolLock.test_and_set()) std::this_thread::yield();
            const size_t i = r.below(uint32_t(pool.size()));
            exchange->push_back(pool[i]); pool[i] = pool.back(); pool.pop_back();
            if (exchange->size() > 4) { const size_t j = r.below(uint32_t(exchange->size())); pool.push_back((*exchange)[j]); (*exchange)[j] = exchange->back(); exchange->pop_back(); }
            poolLock.clear();
        } else drop(r.below(uint32_t(pool.size())));
    }
    while (!pool.empty()) drop(pool.size() - 1);
}
// requests no system can satisfy
template <class T, Vc::MallocAlignment A> NOI void hugeMalloc(const char *kind, size_t al)
{
    const std::string k = K("Vc::malloc of a huge size");
    OpCount oc(k);
    const size_t M = size_t(-1);
    volatile size_t ns[] = {M, M - 1, M / sizeof(T), M / sizeof(T) - 1, M / sizeof(T) + 1, M / sizeof(T) + 2, M - al, M - al + 1, (M - al) / sizeof(T) + 1, M / 2, M / 2 + 1, M / 2 / sizeof(T) + 1, (size_t(1) << 63) / sizeof(T) * 2, (size_t(1) << 60), size_t(1) << 62, M / sizeof(T) - al, M / sizeof(T) + al};
    for (size_t i = 0; i < sizeof ns / sizeof *ns; ++i) {
        const size_t n = ns[i];
        snprintf(st().curDetail, sizeof st().curDetail, "%s, %zu objects", kind, n);
        ev(mix(n) ^ hashStr(kind));
        if (n < (size_t(1) << 50)) continue;   // (the sum above has wrapped around)
        T *p = Vc::malloc<T, A>(n);
        if (p) { fail(k, "%s, %zu objects of %d bytes: returned a block of %zu bytes", kind, n, int(sizeof(T)), reg::lastSize); Vc::free(p); }
    }
}
template <class T> NOI void hugeAllocator(const char *kind)
{
    const std::string k = K("Vc::Allocator of a huge size");
    OpCount oc(k);
    Vc::Allocator<T> a;
    const size_t M = size_t(-1);
    volatile size_t ns[] = {M, M - 1, M / sizeof(T), M / sizeof(T) - 1, M / sizeof(T) + 1, M / sizeof(T) - 2, M / 2, M / 2 + 1, M / 2 / sizeof(T) + 1, (size_t(1) << 63) / sizeof(T), (size_t(1) << 63) / sizeof(T) * 2, size_t(1) << 60, size_t(1) << 62, (M - alignof(T)) / sizeof(T), (M - alignof(T)) / sizeof(T) + 1, a.max_size(), a.max_size() - 1};
    for (size_t i = 0; i < sizeof ns / sizeof *ns; ++i) {
        const size_t n = ns[i];
        snprintf(st().curDetail, sizeof st().curDetail, "%s, %zu objects", kind, n);
        ev(mix(n) ^ hashStr(kind));
        bool threw = false;
        // (the request must not reach the system with fewer bytes than asked for)
        const size_t calls = reg::lastCalls; reg::failNext = 1;
        try { (void)a.allocate(n); } catch (const std::bad_alloc &) { threw = true; }
        reg::failNext = 0;
        const unsigned __int128 want = static_cast<unsigned __int128>(n) * sizeof(T);
        if (n >= (size_t(1) << 50) && (!threw || (reg::lastCalls != calls && reg::lastSize < want))) fail(k, "%s, %zu objects of %d bytes: asked the system for %zu bytes", kind, n, int(sizeof(T)), reg::lastSize);
    }
}
template <class T> NOI void hugeNew(const char *kind)
{
    const std::string k = K("operator new[] of a huge size");
    OpCount oc(k);
    const size_t M = size_t(-1) / 2;
    volatile size_t ns[] = {M / sizeof(T), M / sizeof(T) - 1, (size_t(1) << 62) / sizeof(T), (size_t(1) << 60) / sizeof(T)};
    for (size_t i = 0; i < sizeof ns / sizeof *ns; ++i) {
        const size_t n = ns[i];
        snprintf(st().curDetail, sizeof st().curDetail, "%s[%zu]", kind, n);
        ev(mix(n) ^ hashStr(kind));
        bool threw = false; void *volatile p = nullptr;
        try { T *q = new T[n]; p = q; } catch (const std::bad_alloc &) { threw = true; }
        if (!threw) fail(k, "%s[%zu]: returned %p", kind, n, p);
    }
}
// standard containers of vector types
template <class X> struct Val { static void set(X &x, int v) { x = X(typename X::EntryType(v)); } static bool is(const X &x, int v) { for (size_t i = 0; i < X::Size; ++i) if (!(x[i] == typename X::EntryType(v))) return false; return true; } };
template <class V> struct Val<Struct<V>> { static void set(Struct<V> &x, int v) { Val<V>::set(x.x, v); x.c = char(v); } static bool is(const Struct<V> &x, int v) { return Val<V>::is(x.x, v) && x.c == char(v); } };
template <class C> NOI void containerHistory(const char *kind, long n)
{
    using X = typename C::value_type;
    const std::string k = K(std::string("container ") + kind);
    OpCount oc(k);
    Rng r(k.c_str());
    for (long it = 0; it < n; ++it) {
        const long before = reg::liveTotal();
        bool ok = true;
        {
            C c; std::deque<int> m;
            const int steps = r.range(1, 60);
            for (int s = 0; s < steps; ++s) {
                const int v = r.range(0, 100); X x; Val<X>::set(x, v);
                switch (r.below(6)) {
                case 0: case 1: case 2: c.push_back(x); m.push_back(v); break;
                case 3: if (!m.empty()) { c.pop_back(); m.pop_back(); } break;
                case 4: { const size_t i = r.below(uint32_t(m.size() + 1)); auto p = c.begin(); std::advance(p, i); c.insert(p, x); m.insert(m.begin() + i, v); break; }
                case 5: if (!m.empty()) { const size_t i = r.below(uint32_t(m.size())); auto p = c.begin(); std::advance(p, i); c.erase(p); m.erase(m.begin() + i); } break;
                }
                ev(hashBytes(&v, sizeof v, hashStr(k.c_str()) + m.size()));
                size_t i = 0;
                for (auto &y : c) { if (reinterpret_cast<uintptr_t>(&y) % alignof(X)) { ok = false; fail(k, "element %d at %p", int(i), static_cast<void *>(&y)); break; } if (i >= m.size() || !Val<X>::is(y, m[i])) { ok = false; fail(k, "element %d of %d has the wrong value", int(i), int(m.size())); break; } ++i; }
                if (i != m.size() && ok) fail(k, "%d elements, want %d", int(i), int(m.size()));
                if (!ok) break;
            }
            C d(c); C e(std::move(d)); c = e;
            size_t i = 0; for (auto &y : c) { ok = ok && i < m.size() && Val<X>::is(y, m[i]); ++i; }
            if (!ok || i != m.size()) fail(k, "copy");
        }
        if (reg::liveTotal() != before) fail(k, "%ld blocks leaked", reg::liveTotal() - before);
    }
}
struct Do {
    template <class V> void operator()(Tag<V>)
    {
        using T = typename V::EntryType;
        using KI = Kinds<V>;
        {
            OpCount oc(K("history of " + vn<V>()));
            const long before = reg::liveTotal();
            {
                std::vector<Block> ex; exchange = &ex;
                std::vector<Events> es(5);
                const int threads = 4;
                const long n = cases(1500);
                for (int round = 0; round < 2; ++round) {
                    if (round == 0) { evs = &es[4]; history<V>(mix(seed()) ^ hashStr(vn<V>().c_str()), n); evs = nullptr; }
                    else {
                        std::vector<std::thread> ts;
                        for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] { evs = &es[t]; history<V>(mix(seed() + 17 * t) ^ hashStr(vn<V>().c_str()), n); });
                        for (auto &t : ts) t.join();
                    }
                }
                for (auto &b : ex) { if (!b.intact()) fail(K("contents"), "%s, %d bytes: changed while live", b.kind, int(b.bytes)); b.release(); }
                ex.clear();
                for (auto &e : es) for (auto h : e.h) ev(h);
                exchange = nullptr;
            }
            if (reg::wrong) { fail(K("release"), "%s (%u times)", reg::what, reg::wrong.load()); reg::wrong = 0; }
            if (reg::liveTotal() != before) fail(K("release"), "%ld blocks leaked", reg::liveTotal() - before);
            sample("%ld allocations, %ld releases seen by the registry", reg::allocs.load(), reg::frees.load());
        }
        hugeMalloc<T, Vc::AlignOnVector>("T, vector", Vc::VectorAlignment); hugeMalloc<T, Vc::AlignOnPage>("T, page", 4096); hugeMalloc<char, Vc::AlignOnCacheline>("char, cacheline", 64);
        hugeMalloc<Five, Vc::AlignOnPage>("5 byte struct, page", 4096); hugeMalloc<V, Vc::AlignOnCacheline>("V, cacheline", 64);
        hugeAllocator<T>("T"); hugeAllocator<V>("V"); hugeAllocator<char>("char"); hugeAllocator<Over<64>>("alignas(64)"); hugeAllocator<Over<4096>>("alignas(4096)"); hugeAllocator<typename KI::A13>("SimdArray 13"); hugeAllocator<Five>("5 byte struct");
        hugeNew<typename KI::A16>("SimdArray 16"); hugeNew<V>("V"); hugeNew<Derived<Vc::AlignedBase<64>>>("AlignedBase<64>");
        const long n = cases(30);
        containerHistory<std::vector<V>>("std::vector<V>", n);
        containerHistory<std::vector<V, Vc::Allocator<V>>>("std::vector<V, Vc::Allocator>", n);
        containerHistory<std::vector<Struct<V>, Vc::Allocator<Struct<V>>>>("std::vector<struct, Vc::Allocator>", n);
        containerHistory<std::vector<typename KI::A13>>("std::vector<SimdArray 13>", n);
        containerHistory<std::list<V, Vc::Allocator<V>>>("std::list<V, Vc::Allocator>", n);
        containerHistory<std::deque<V, Vc::Allocator<V>>>("std::deque<V, Vc::Allocator>", n);
        if (reg::wrong) { fail(K("release"), "%s (%u times)", reg::what, reg::wrong.load()); reg::wrong = 0; }
    }
};
namespace vt
{
void run()
{
    ev(1);   // (allocates the table of distinct cases)
    Do d;
    forNative(d);
}
}
