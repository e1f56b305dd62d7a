// vt.h -- shared runtime-monitor support for the Vc drivers.
//
// Every driver is an ordinary program that calls the public Vc API on generated inputs and compares
// what it observes against a scalar oracle.  A mismatch prints one line
//     FAIL<TAB>key<TAB>detail
// and the run goes on.  A crash (SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT) prints
//     CRASH<TAB>key<TAB>detail
// with the key of the operation in progress and ends the process with status 3.
// At the end a STATS line reports what was really evaluated.
#ifndef VT_H
#define VT_H
#include <algorithm>
#include <array>
#include <cfenv>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
#ifdef VT_MT
#include <atomic>
#include <mutex>
#include <thread>
#endif
#include <sys/mman.h>
#include <unistd.h>

namespace vt
{
// With VT_MT=n, n threads run the whole driver, each with state of its own (C22, under ThreadSanitizer).
#ifdef VT_MT
#define VT_TLS thread_local
#define VT_ALONE false
#else
#define VT_ALONE true
#define VT_TLS
#endif
// ---------------------------------------------------------------- configuration
inline uint64_t &seed() { static VT_TLS uint64_t s = 1; return s; }
inline long &scale() { static long s = 100; return s; }  // percentage of the base case count
inline long cases(long base) { long n = base * scale() / 100; return n < 1 ? 1 : n; }

// ---------------------------------------------------------------- PRNG
inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const char *s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ uint8_t(*s)) * 1099511628211ull;
    return mix(h);
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h)
{
    const uint8_t *b = static_cast<const uint8_t *>(p);
    while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = mix(h ^ w); b += 8; n -= 8; }
    uint64_t w = 0; memcpy(&w, b, n); return mix(h ^ w ^ (uint64_t(n) << 56));
}
struct Rng {
    uint64_t s;
    explicit Rng(const char *name) : s(mix(seed() * 0x9e3779b97f4a7c15ull) ^ hashStr(name)) {}
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t u64() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? uint32_t((u64() >> 32) * n >> 32) : 0; }
    int range(int lo, int hi) { return lo + int(below(uint32_t(hi - lo) + 1)); }
    bool coin() { return u64() >> 63; }
    double unit() { return double(u64() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------- bookkeeping
struct State {
    uint64_t evals = 0;
    std::vector<uint64_t> table;
    uint64_t distinct = 0;
    bool full = false;
    std::map<std::string, unsigned> fails;
    std::map<std::string, std::string> held;   // VT_MT: what failed in this thread
    std::map<std::string, uint64_t> ops;
    std::vector<std::string> samples;
    const char *curOp = "startup";
    char curDetail[160] = "";
    unsigned totalFails = 0;
};
inline State &st() { static VT_TLS State s; return s; }

// registers one evaluated case: input hash h for the operation of the current Scope
inline void ev(uint64_t h)
{
    State &s = st();
    ++s.evals;
    if (s.table.empty()) s.table.assign(size_t(1) << 20, 0);
    if (s.full) return;
    if (!h) h = 1;
    size_t i = h & (s.table.size() - 1);
    while (s.table[i]) { if (s.table[i] == h) return; i = (i + 1) & (s.table.size() - 1); }
    s.table[i] = h;
    if (++s.distinct > s.table.size() * 3 / 4) s.full = true;   // then `distinct` is a lower bound
}
inline void sample(const char *fmt, ...)
{
    State &s = st();
    if (s.samples.size() >= 6) return;
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *p = b; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
    s.samples.push_back(b);
}
inline bool wantSample() { return st().samples.size() < 6; }
inline void fail(const std::string &key, const char *fmt, ...)
{
    State &s = st();
    ++s.totalFails;
    unsigned &n = s.fails[key];
    if (++n > 2) return;
    char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *p = b; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
#ifdef VT_MT
    s.held.emplace(key, b);
#else
    printf("FAIL\t%s\t%s\n", key.c_str(), b);
    fflush(stdout);
#endif
}
// what is being evaluated; used for crash reports and per-operation counts
inline void op(const char *key) { st().curOp = key; st().curDetail[0] = 0; }
struct OpCount { // counts evaluations between construction and destruction
    std::string key; uint64_t start;
    explicit OpCount(std::string k) : key(std::move(k)), start(st().evals) { st().curOp = key.c_str(); }
    ~OpCount() { st().ops[key] += st().evals - start; st().curOp = "between"; }
};

// ---------------------------------------------------------------- crash monitoring
inline sigjmp_buf &jmp() { static VT_TLS sigjmp_buf b; return b; }
inline volatile sig_atomic_t &armed() { static VT_TLS volatile sig_atomic_t a = 0; return a; }
inline void *volatile &faultAddr() { static VT_TLS void *volatile a = nullptr; return a; }
inline void onSignal(int sig, siginfo_t *si, void *)
{
    if (armed() && (sig == SIGSEGV || sig == SIGBUS)) {
        armed() = 0; faultAddr() = si->si_addr;
        siglongjmp(jmp(), 1);
    }
    char b[512];
    int n = snprintf(b, sizeof b, "\nCRASH\t%s\tsignal %d (addr %p) %s\n", st().curOp, sig, si ? si->si_addr : nullptr, st().curDetail);
    ssize_t r = write(1, b, size_t(n)); (void)r;
    _exit(3);
}
inline void installHandlers()
{
    static VT_TLS char stack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
}
// Runs f(); returns false if it faulted (SIGSEGV/SIGBUS).  f must not own resources.
template <class F> inline bool survives(F &&f)
{
    if (sigsetjmp(jmp(), 1)) { armed() = 0; return false; }
    armed() = 1;
    f();
    armed() = 0;
    return true;
}

// ---------------------------------------------------------------- guarded memory
// `bytes()` usable bytes, surrounded by inaccessible pages.  end-flush: data ends exactly at the
// upper guard page; begin-flush: data starts exactly at the end of the lower guard page.
class Guarded
{
    char *base; size_t len; size_t page;
public:
    explicit Guarded(size_t pages) : page(size_t(sysconf(_SC_PAGESIZE)))
    {
        len = (pages + 2) * page;
        base = static_cast<char *>(mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base == MAP_FAILED) { perror("mmap"); _exit(4); }
        if (mprotect(base + page, pages * page, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(4); }
    }
    ~Guarded() { munmap(base, len); }
    Guarded(const Guarded &) = delete;
    char *begin() { return base + page; }
    char *end() { return base + len - page; }
    size_t size() const { return len - 2 * page; }
    void fill(uint8_t c) { memset(begin(), c, size()); }
    void readonly(bool ro) { mprotect(begin(), size(), ro ? PROT_READ : PROT_READ | PROT_WRITE); }
};

// ---------------------------------------------------------------- value generation
template <class T> struct TypeName;
#define VT_TN(T) template <> struct TypeName<T> { static const char *get() { return #T; } };
VT_TN(float) VT_TN(double) VT_TN(int) VT_TN(unsigned) VT_TN(short) VT_TN(unsigned short)
VT_TN(signed char) VT_TN(unsigned char) VT_TN(char) VT_TN(long) VT_TN(unsigned long) VT_TN(long long) VT_TN(unsigned long long) VT_TN(bool)
#undef VT_TN
template <class T> const char *tn() { return TypeName<T>::get(); }

// any value of T, weighted to boundary values and special floating-point classes
template <class T> inline typename std::enable_if<std::is_integral<T>::value, T>::type any(Rng &r)
{
    using L = std::numeric_limits<T>;
    switch (r.below(10)) {
    case 0: { static const long long b[] = {0, 1, -1, 2, -2, 3, 7, 127, 128, 255, 256, -128, 32767, 32768, 65535, 65536, -32768, 2147483647ll, 2147483648ll, -2147483647ll - 1};
              return T(b[r.below(20)]); }
    case 1: return T(L::max() - T(r.below(4)));
    case 2: return T(L::min() + T(r.below(4)));
    case 3: return T(T(1) << r.below(sizeof(T) * 8));
    case 4: return T((r.u64() >> 8) >> r.below(40));
    case 5: return T(r.range(-20, 20));
    default: return T(r.u64());
    }
}
template <class T> inline typename std::enable_if<std::is_floating_point<T>::value, T>::type any(Rng &r)
{
    using L = std::numeric_limits<T>;
    T x;
    switch (r.below(16)) {
    case 0: x = 0; break;
    case 1: x = L::infinity(); break;
    case 2: x = L::quiet_NaN(); break;
    case 3: x = L::denorm_min() * T(1 + r.below(1000)); break;
    case 4: x = L::min() * T(1 + r.below(4)) ; break;
    case 5: x = L::max() / T(1 + r.below(4)); break;
    case 6: x = T(r.range(-1000, 1000)); break;
    case 7: x = T(r.range(-1000, 1000)) + T(0.5); break;
    case 8: x = T(r.unit() * 4 - 2); break;
    case 9: x = std::ldexp(T(1), r.range(-40, 70)); break;
    case 10: x = T(double(int32_t(r.u64()))); break;
    default: { // arbitrary bit pattern
        typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type b = decltype(b)(r.u64());
        memcpy(&x, &b, sizeof x); if (x != x) x = L::quiet_NaN(); }
    }
    return r.coin() ? x : -x;
}
// finite, moderately sized
template <class T> inline typename std::enable_if<std::is_floating_point<T>::value, T>::type moderate(Rng &r)
{
    T x = T((r.unit() * 2 - 1) * std::ldexp(1.0, r.range(-8, 12)));
    return r.below(6) == 0 ? T(r.range(-50, 50)) : x;
}
template <class T> inline typename std::enable_if<std::is_integral<T>::value, T>::type moderate(Rng &r) { return any<T>(r); }

// same value: bitwise equal, or both NaN
template <class T> inline typename std::enable_if<std::is_integral<T>::value, bool>::type same(T a, T b) { return a == b; }
template <class T> inline typename std::enable_if<std::is_floating_point<T>::value, bool>::type same(T a, T b)
{ return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
// equal up to the sign of zero
template <class T> inline bool sameZ(T a, T b) { return a == b || same(a, b); }
template <class T> inline bool isNaN(T x) { return x != x; }

template <class T> inline typename std::enable_if<std::is_integral<T>::value, std::string>::type str(T x)
{ char b[64]; snprintf(b, sizeof b, "%lld", (long long)x); return b; }
template <class T> inline typename std::enable_if<std::is_floating_point<T>::value, std::string>::type str(T x)
{ char b[64]; snprintf(b, sizeof b, "%a", double(x)); return b; }
template <class T> inline std::string strv(const T *p, size_t n)
{ std::string s = "["; for (size_t i = 0; i < n; ++i) { if (i) s += ' '; s += str(p[i]); } return s + "]"; }

// compare an observed lane array with the oracle's
template <class T, class Eq = bool (*)(T, T)>
inline bool check(const std::string &key, const T *got, const T *want, size_t n, const std::string &ctx, Eq eq = same<T>)
{
    for (size_t i = 0; i < n; ++i)
        if (!eq(got[i], want[i])) {
            fail(key, "lane %d: got %s want %s; %s; got=%s want=%s", int(i), str(got[i]).c_str(), str(want[i]).c_str(),
                 ctx.c_str(), strv(got, n).c_str(), strv(want, n).c_str());
            return false;
        }
    return true;
}
#define VT_EXPECT(key, cond, ...) do { if (!(cond)) vt::fail(key, __VA_ARGS__); } while (0)

inline int finish()
{
    State &s = st();
    for (auto &o : s.ops) printf("OP\t%s\t%llu\n", o.first.c_str(), (unsigned long long)o.second);
    for (auto &x : s.samples) printf("SAMPLE\t%s\n", x.c_str());
    printf("STATS\tevals=%llu\tdistinct=%llu\tfails=%u\n", (unsigned long long)s.evals, (unsigned long long)s.distinct, s.totalFails);
    fflush(stdout);
    return s.totalFails ? 1 : 0;
}
void run();  // defined by the driver
}  // namespace vt

#ifndef VT_NO_MAIN
int main(int argc, char **argv)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc > 1) vt::seed() = strtoull(argv[1], nullptr, 10);
    if (argc > 2) vt::scale() = strtol(argv[2], nullptr, 10);
    vt::installHandlers();
#ifdef VT_MT
    const uint64_t seed = vt::seed();
    vt::State all;
    std::vector<std::thread> th;
    std::mutex m;
    std::atomic<int> waiting{VT_MT};
    std::map<std::string, std::string> held[2];
    for (int t = 0; t < VT_MT; ++t)
        th.emplace_back([&, t] {
            vt::installHandlers();
            vt::seed() = t == 1 ? seed : seed + uint64_t(t) * 1000003;   // two threads do the same, the others something else
            waiting.fetch_sub(1, std::memory_order_relaxed);
            while (waiting.load(std::memory_order_relaxed)) {}
            vt::run();
            std::lock_guard<std::mutex> l(m);
            vt::State &s = vt::st();
            all.evals += s.evals; all.distinct += t == 1 ? 0 : s.distinct;
            for (auto &o : s.ops) all.ops[o.first] += o.second;
            for (auto &x : s.samples) if (all.samples.size() < 6) all.samples.push_back(x);
            held[t > 1].insert(s.held.begin(), s.held.end());
        });
    for (auto &x : th) x.join();
    // what also fails alone is not a matter of concurrency (other properties judge it)
    for (int k = 0; k < 2; ++k) {
        if (held[k].empty()) continue;
        vt::st() = vt::State();
        vt::seed() = seed + (k ? 2000006u : 0u);
        vt::run();
        for (auto &f : held[k]) if (!vt::st().held.count(f.first)) { printf("FAIL\t%s\tonly with other threads: %s\n", f.first.c_str(), f.second.c_str()); ++all.totalFails; }
    }
    vt::st() = std::move(all);
#else
    vt::run();
#endif
    return vt::finish();
}
#endif
#endif
