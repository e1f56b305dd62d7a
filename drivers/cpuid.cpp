// CPU capability detection and the support queries (src/cpuid.cpp, src/support_x86.cpp, Vc/support.h), the version
// check (src/const.cpp).
//   group 0: the detection code runs, unmodified, in processes whose `cpuid` and `xgetbv` instructions are answered by
//            the hooks below (fw/fakecpu.h), one process per generated CPU
//   group 1: the real CPU; Vc::Common::checkLibraryAbi
//   group 2: CurrentImplementation for a set of compiler options
#define VT_NO_MAIN 1
#include "vt.h"
#include <Vc/global.h>
#include <Vc/version.h>
#include <Vc/support.h>
#include <atomic>
#include <cpuid.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
extern char **environ;

namespace
{
using Vc::CpuId;
using Vc::Implementation;
struct Regs { unsigned a, b, c, d; };
constexpr unsigned Intel = 0x6C65746E, Amd = 0x444D4163;
struct Leaf { unsigned leaf, sub; Regs r; };          // sub == ~0u: any
struct Bits { const char *name; bool (*get)(); char reg; int bit; };  // reg: C/D leaf 1, b/c leaf 7, X/Y ecx/edx of 0x80000001
#define B(n, r, b) {#n, [] { return bool(CpuId::n()); }, r, b}
const Bits bits[] = {
    B(hasSse3, 'C', 0), B(hasPclmulqdq, 'C', 1), B(hasMonitor, 'C', 3), B(hasVmx, 'C', 5), B(hasSmx, 'C', 6), B(hasEist, 'C', 7), B(hasTm2, 'C', 8), B(hasSsse3, 'C', 9),
    B(hasFma, 'C', 12), B(hasCmpXchg16b, 'C', 13), B(hasPdcm, 'C', 15), B(hasDca, 'C', 18), B(hasSse41, 'C', 19), B(hasSse42, 'C', 20), B(hasMovbe, 'C', 22), B(hasPopcnt, 'C', 23),
    B(hasAes, 'C', 25), B(hasOsxsave, 'C', 27), B(hasAvx, 'C', 28), B(hasF16c, 'C', 29), B(hasRdrand, 'C', 30),
    B(hasBmi1, 'b', 3), B(hasHle, 'b', 4), B(hasAvx2, 'b', 5), B(hasBmi2, 'b', 8), B(hasRtm, 'b', 11), B(hasAvx512f, 'b', 16), B(hasAvx512dq, 'b', 17), B(hasAvx512ifma, 'b', 21),
    B(hasAvx512pf, 'b', 26), B(hasAvx512er, 'b', 27), B(hasAvx512cd, 'b', 28), B(hasAvx512bw, 'b', 30), B(hasAvx512vl, 'b', 31), B(hasAvx512vbmi, 'c', 1),
    B(hasFpu, 'D', 0), B(hasVme, 'D', 1), B(hasDe, 'D', 2), B(hasPse, 'D', 3), B(hasTsc, 'D', 4), B(hasMsr, 'D', 5), B(hasPae, 'D', 6), B(hasCx8, 'D', 8), B(hasMtrr, 'D', 12),
    B(hasCmov, 'D', 15), B(hasClfsh, 'D', 19), B(hasAcpi, 'D', 22), B(hasMmx, 'D', 23), B(hasSse, 'D', 25), B(hasSse2, 'D', 26), B(hasHtt, 'D', 28),
    B(hasSse4a, 'X', 6), B(hasMisAlignSse, 'X', 7), B(hasAmdPrefetch, 'X', 8), B(hasXop, 'X', 11), B(hasFma4, 'X', 16), B(hasRdtscp, 'Y', 27), B(has3DNowExt, 'Y', 30), B(has3DNow, 'Y', 31)};
#undef B
constexpr int NBits = sizeof bits / sizeof *bits;
struct Num { const char *name; long (*get)(); };
#define N(n) {#n, [] { return long(CpuId::n()); }}
enum { Family, Model, Type, Logical, LineSize, L1I, L1D, L2D, L3D, L1IL, L1DL, L2DL, L3DL, L1A, L2A, L3A, Prefetch, IsAmd, IsIntel, NNum };
const Num nums[NNum] = {N(processorFamily), N(processorModel), N(processorType), N(logicalProcessors), N(cacheLineSize), N(L1Instruction), N(L1Data), N(L2Data), N(L3Data),
                        N(L1InstructionLineSize), N(L1DataLineSize), N(L2DataLineSize), N(L3DataLineSize), N(L1Associativity), N(L2Associativity), N(L3Associativity), N(prefetch), N(isAmd), N(isIntel)};
#undef N
const Implementation impls[] = {Vc::ScalarImpl, Vc::SSE2Impl, Vc::SSE3Impl, Vc::SSSE3Impl, Vc::SSE41Impl, Vc::SSE42Impl, Vc::AVXImpl, Vc::AVX2Impl, Vc::MICImpl, Vc::ImplementationMask};
const char *const implNames[] = {"Scalar", "SSE2", "SSE3", "SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "MIC", "Mask"};
constexpr unsigned extraBits[] = {Vc::Float16cInstructions, Vc::Fma4Instructions, Vc::XopInstructions, Vc::PopcntInstructions, Vc::Sse4aInstructions, Vc::FmaInstructions, Vc::VexInstructions, Vc::Bmi2Instructions};
constexpr unsigned allExtra = 0xff000u;

// a sample of ImplementationT<level + extras>
constexpr unsigned NCombo = 96;
constexpr unsigned comboExtra(unsigned i) { return i < 8 ? extraBits[i] : i < 16 ? allExtra & ~extraBits[i - 8] : (i * 2654435761u >> 9 << 12) & allExtra; }
constexpr unsigned combo(unsigned i) { return i % 10 + comboExtra(i < 20 ? i : i * 7 + 3); }   // levels 0..8 and an unknown one
template <unsigned I> struct Combos {
    using T = Vc::ImplementationT<combo(I)>;
    static void fill(unsigned char *o, unsigned extra, bool (*prop)(unsigned, int, int))
    {
        Combos<I - 1>::fill(o, extra, prop);
        if (o) o[I] = Vc::isImplementationSupported<T>() | T::runs_on(extra) << 1;
        if (prop) {
            prop(I, 100, int(T::current()));
            for (int k = 0; k < 9; ++k) {
                prop(I, k, T::is(impls[k]));
                for (int m = 0; m < 9; ++m) prop(I, 1000 + k * 10 + m, T::is_between(impls[k], impls[m]));
            }
        }
    }
};
template <> struct Combos<~0u> { static void fill(unsigned char *, unsigned, bool (*)(unsigned, int, int)) {} };

struct Obs { unsigned char bit[NBits]; long num[NNum]; unsigned char is[10]; int best; unsigned extra; unsigned char combos[NCombo]; bool current; };
struct Shared {
    // the CPU
    int nLeaf; Leaf leaf[64]; unsigned maxBasic, maxExt; bool oorLast; unsigned xcr0lo, xcr0hi; int nLeaf2; Regs leaf2[3];
    // what happened
    unsigned queries, xgetbvs, badXgetbv, leaf2Count; bool endless, started, done;
    unsigned char earlyIs[10]; int earlyBest; unsigned combosExtra;
    Obs o, again;
};
Shared *sh = nullptr;
bool lookedUp = false;
void attach()
{
    if (lookedUp) return;
    lookedUp = true;
    if (!getenv("VT_CPUID_CHILD")) return;
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, 200, 0);
    if (p != MAP_FAILED) sh = static_cast<Shared *>(p);
}
Regs answer(const Shared &s, unsigned leaf, unsigned sub)
{
    const bool ext = leaf >= 0x80000000u;
    if (leaf > (ext ? s.maxExt : s.maxBasic)) {
        if (!s.oorLast) return {0, 0, 0, 0};
        leaf = s.maxBasic;          // Intel: the data of the highest basic leaf
    }
    for (int i = 0; i < s.nLeaf; ++i)
        if (s.leaf[i].leaf == leaf && (s.leaf[i].sub == ~0u || s.leaf[i].sub == sub)) return s.leaf[i].r;
    return {0, 0, 0, 0};
}
unsigned realLeaf1C() { unsigned a, b, c, d; __cpuid(1, a, b, c, d); return c; }
}  // namespace

extern "C" __attribute__((used)) void vt_cpuid_c(unsigned *r)
{
    attach();
    const unsigned leaf = r[0], sub = r[2];
    if (!sh) { __cpuid_count(leaf, sub, r[0], r[1], r[2], r[3]); return; }
    if (++sh->queries > 3000) { sh->endless = true; syscall(SYS_exit_group, 9); }
    Regs x = answer(*sh, leaf, sub);
    if (sh->nLeaf2 && leaf == 2 && sh->maxBasic >= 2) x = sh->leaf2[sh->leaf2Count++ % unsigned(sh->nLeaf2)];
    r[0] = x.a; r[1] = x.b; r[2] = x.c; r[3] = x.d;
}
extern "C" __attribute__((used)) void vt_xgetbv_c(unsigned *r)
{
    attach();
    if (!sh) { unsigned a = 0, d = 0; if (realLeaf1C() >> 27 & 1) __asm__("xgetbv" : "=a"(a), "=d"(d) : "c"(r[2])); r[0] = a; r[3] = d; return; }
    ++sh->xgetbvs;
    if (!(answer(*sh, 1, 0).c >> 27 & 1) || r[2] != 0) ++sh->badXgetbv;      // #UD, #GP
    r[0] = sh->xcr0lo; r[3] = sh->xcr0hi;
}
#define VT_HOOK(name, fun)                                                                                             \
    asm(".text\n.globl " name "\n.type " name ",@function\n" name ":\n pushq %rbp\n movq %rsp,%rbp\n andq $-64,%rsp\n subq $640,%rsp\n" \
        " fxsave (%rsp)\n movl %eax,512(%rsp)\n movl %ebx,516(%rsp)\n movl %ecx,520(%rsp)\n movl %edx,524(%rsp)\n"      \
        " movq %rsi,528(%rsp)\n movq %rdi,536(%rsp)\n movq %r8,544(%rsp)\n movq %r9,552(%rsp)\n movq %r10,560(%rsp)\n movq %r11,568(%rsp)\n movq %rbx,576(%rsp)\n" \
        " leaq 512(%rsp),%rdi\n cld\n call " fun "\n fxrstor (%rsp)\n movq 576(%rsp),%rbx\n movq 528(%rsp),%rsi\n movq 536(%rsp),%rdi\n movq 544(%rsp),%r8\n movq 552(%rsp),%r9\n movq 560(%rsp),%r10\n movq 568(%rsp),%r11\n")
VT_HOOK("vt_cpuid_hook", "vt_cpuid_c");
asm(" movl 512(%rsp),%eax\n movl 516(%rsp),%ebx\n movl 520(%rsp),%ecx\n movl 524(%rsp),%edx\n leave\n ret\n.size vt_cpuid_hook,.-vt_cpuid_hook\n");
VT_HOOK("vt_xgetbv_hook", "vt_xgetbv_c");
asm(" movl 520(%rsp),%ecx\n movl 512(%rsp),%eax\n movl 524(%rsp),%edx\n leave\n ret\n.size vt_xgetbv_hook,.-vt_xgetbv_hook\n");

namespace
{
// runs before every other constructor of this program, thus before the automatic initialization
struct Early {
    Early()
    {
        attach();
        if (!sh) return;
        for (int i = 0; i < 10; ++i) sh->earlyIs[i] = Vc::isImplementationSupported(impls[i]);
        sh->earlyBest = int(Vc::bestImplementationSupported());
    }
};
#ifndef VT_AUTO
Early early __attribute__((init_priority(101)));
#endif

void observe(Obs &o)
{
    for (int i = 0; i < NBits; ++i) o.bit[i] = bits[i].get();
    for (int i = 0; i < NNum; ++i) o.num[i] = nums[i].get();
    for (int i = 0; i < 10; ++i) o.is[i] = Vc::isImplementationSupported(impls[i]);
    o.best = int(Vc::bestImplementationSupported());
    o.extra = Vc::extraInstructionsSupported();
    Combos<NCombo - 1>::fill(o.combos, sh ? sh->combosExtra : 0, nullptr);
    o.current = Vc::currentImplementationSupported();
}

// ---------------------------------------------------------------- generated CPUs
struct Want { bool bit[NBits]; long num[NNum]; bool judge[NNum]; long alt[NNum]; bool is[10], isJudged; int best; unsigned extra; std::string text; };

// Intel SDM, CPUID leaf 2 descriptors: kind (0 L1I, 1 L1D, 2 L2, 3 L3), KiB, ways, line
struct Desc { unsigned char code; int kind; int kib, ways, line; };
const Desc descs[] = {
    {0x06, 0, 8, 4, 32}, {0x08, 0, 16, 4, 32}, {0x09, 0, 32, 4, 64}, {0x30, 0, 32, 8, 64},
    {0x0A, 1, 8, 2, 32}, {0x0C, 1, 16, 4, 32}, {0x0D, 1, 16, 4, 64}, {0x0E, 1, 24, 6, 64}, {0x2C, 1, 32, 8, 64}, {0x60, 1, 16, 8, 64}, {0x66, 1, 8, 4, 64}, {0x67, 1, 16, 4, 64}, {0x68, 1, 32, 4, 64},
    {0x21, 2, 256, 8, 64}, {0x41, 2, 128, 4, 32}, {0x42, 2, 256, 4, 32}, {0x43, 2, 512, 4, 32}, {0x44, 2, 1024, 4, 32}, {0x45, 2, 2048, 4, 32}, {0x48, 2, 3072, 12, 64}, {0x4E, 2, 6144, 24, 64},
    {0x78, 2, 1024, 4, 64}, {0x79, 2, 128, 8, 64}, {0x7A, 2, 256, 8, 64}, {0x7B, 2, 512, 8, 64}, {0x7C, 2, 1024, 8, 64}, {0x7D, 2, 2048, 8, 64}, {0x7F, 2, 512, 2, 64}, {0x80, 2, 512, 8, 64},
    {0x82, 2, 256, 8, 32}, {0x83, 2, 512, 8, 32}, {0x84, 2, 1024, 8, 32}, {0x85, 2, 2048, 8, 32}, {0x86, 2, 512, 4, 64}, {0x87, 2, 1024, 8, 64}, {0x49, 2, 4096, 16, 64},
    {0x22, 3, 512, 4, 64}, {0x23, 3, 1024, 8, 64}, {0x25, 3, 2048, 8, 64}, {0x29, 3, 4096, 8, 64}, {0x46, 3, 4096, 4, 64}, {0x47, 3, 8192, 8, 64}, {0x4A, 3, 6144, 12, 64}, {0x4B, 3, 8192, 16, 64},
    {0x4C, 3, 12288, 12, 64}, {0x4D, 3, 16384, 16, 64}, {0xD0, 3, 512, 4, 64}, {0xD1, 3, 1024, 4, 64}, {0xD2, 3, 2048, 4, 64}, {0xD6, 3, 1024, 8, 64}, {0xD7, 3, 2048, 8, 64}, {0xD8, 3, 4096, 8, 64},
    {0xDC, 3, 1536, 12, 64}, {0xDD, 3, 3072, 12, 64}, {0xDE, 3, 6144, 12, 64}, {0xE2, 3, 2048, 16, 64}, {0xE3, 3, 4096, 16, 64}, {0xE4, 3, 8192, 16, 64}, {0xEA, 3, 12288, 24, 64}, {0xEB, 3, 18432, 24, 64}, {0xEC, 3, 24576, 24, 64}};
const unsigned char fillers[] = {0, 0, 0, 0x01, 0x02, 0x03, 0x04, 0x0B, 0x40, 0x50, 0x51, 0x5A, 0x5B, 0xB0, 0xB1, 0xB2, 0xB3, 0xB4, 0xCA, 0x70, 0x71};

struct Gen {
    vt::Rng &r;
    Shared &s;
    Want w;
    Gen(vt::Rng &rr, Shared &ss) : r(rr), s(ss) {}
    void leaf(unsigned l, unsigned sub, Regs x) { if (s.nLeaf < 64) s.leaf[s.nLeaf++] = Leaf{l, sub, x}; }
    unsigned u() { return unsigned(r.u64() >> 20); }
    void cache(int kind, long bytes, long ways, long line)
    {
        static const int sz[] = {L1I, L1D, L2D, L3D}, ln[] = {L1IL, L1DL, L2DL, L3DL}, as[] = {-1, L1A, L2A, L3A};
        w.num[sz[kind]] = bytes; w.num[ln[kind]] = line;
        if (as[kind] >= 0) w.num[as[kind]] = ways;
    }

    void make()
    {
        memset(&s, 0, sizeof s);
        s.earlyBest = -1;
        w = Want();
        for (bool &j : w.judge) j = true;
        const int vendor = r.below(5);                       // 0..2 Intel, 3 AMD, 4 another vendor
        const bool intel = vendor <= 2, amd = vendor == 3;
        const unsigned names[3][3] = {{0x756e6547, 0x49656e69, Intel}, {0x68747541, 0x69746e65, Amd}, {0x6f677948, 0x6e65476e, 0x656e6975}};
        const unsigned *nm = names[intel ? 0 : amd ? 1 : 2];
        static const unsigned maxI[] = {2, 3, 5, 6, 0xA, 0xB, 0xD, 0x14, 0x16, 0x1B, 0x20}, maxA[] = {1, 5, 6, 7, 0xD, 0x10};
        s.maxBasic = intel ? maxI[r.below(11)] : amd ? maxA[r.below(6)] : 0xD;
        if (intel && r.coin()) s.maxBasic = maxI[6 + r.below(5)];
        static const unsigned maxE[] = {0, 0x80000001, 0x80000004, 0x80000006, 0x80000008, 0x8000001e};
        s.maxExt = intel ? maxE[r.below(5)] : maxE[3 + r.below(3)];
        s.oorLast = intel;
        leaf(0, ~0u, {s.maxBasic, nm[0], nm[2], nm[1]});
        if (s.maxExt) leaf(0x80000000u, ~0u, {s.maxExt, amd ? nm[0] : 0, amd ? nm[2] : 0, amd ? nm[1] : 0});
        // ---- leaf 1
        unsigned family, model;
        unsigned sig;
        if (amd) {
            family = r.coin() ? 0xf + r.below(0x0d) : 4 + r.below(3);
        } else {
            static const unsigned f[] = {6, 6, 6, 6, 0xf, 0xb, 5};
            family = f[r.below(7)];
        }
        const bool extM = amd ? family >= 0xf : (family == 6 || family == 0xf || family == 0xb);
        model = r.below(extM ? 256 : 16);
        if (family == 0xb && r.coin()) model = 1;
        const unsigned type = r.below(10) ? 0 : r.below(4);
        sig = (u() & 0xf) | (model & 15) << 4 | (family < 0xf ? family : 0xf) << 8 | type << 12 | (model >> 4) << 16 | (family > 0xf ? family - 0xf : 0) << 20 | (r.coin() ? 0xc000u : 0) | (r.below(4) ? 0 : 0xf0000000u);
        const unsigned clflush = r.below(4) == 0 ? 0 : r.coin() ? 8 : r.below(256), logical = r.below(256);
        Regs l1{sig, (u() & 0xff) | clflush << 8 | logical << 16 | r.below(256) << 24, u(), u()};
        // features: mostly architecturally consistent, sometimes anything
        w.isJudged = r.below(4) != 0;
        unsigned b7 = u(), c7 = u(), d7 = u(), cx = u(), dx = u();
        if (w.isJudged) {
            const int level = r.below(9);     // 0 none, 1 SSE2, ... 6 AVX without OSXSAVE possible, 7 AVX2
            static const int at[6] = {26, 0, 9, 19, 20, 28};
            l1.d = level >= 1 ? l1.d | 1u << 26 | 1u << 25 : l1.d & ~(1u << 26);
            for (int i = 1; i < 6; ++i) l1.c = level >= i + 1 ? l1.c | 1u << at[i] : l1.c & ~(1u << at[i]);
            b7 = level >= 7 ? b7 | 1u << 5 : b7 & ~(1u << 5);
            if (level < 6) { l1.c &= ~(1u << 12 | 1u << 29); cx &= ~(1u << 11 | 1u << 16); }
            if (level >= 6 && r.below(4)) l1.c |= 1u << 27 | 1u << 26;
            if (level >= 7 && s.maxBasic < 7) w.isJudged = true;   // no leaf 7: AVX2 is not there
        }
        s.xcr0lo = r.below(3) ? 7 | (r.coin() ? 0xe0 : 0) : u(); s.xcr0hi = r.coin() ? u() : 0;
        if (r.below(6) == 0) s.xcr0lo = (s.xcr0lo & ~6u) | r.below(4) << 1;
        leaf(1, ~0u, l1);
        leaf(7, 0, {r.below(3), b7, c7, d7});
        leaf(7, ~0u, {u(), u(), u(), u()});
        leaf(0x80000001u, ~0u, {sig, u(), cx, dx});
        // ---- what follows from these
        const bool has7 = s.maxBasic >= 7, hasX = s.maxExt >= 0x80000001u;
        for (int i = 0; i < NBits; ++i) {
            const unsigned v = bits[i].reg == 'C' ? l1.c : bits[i].reg == 'D' ? l1.d : bits[i].reg == 'b' ? (has7 ? b7 : 0) : bits[i].reg == 'c' ? (has7 ? c7 : 0) : bits[i].reg == 'X' ? (hasX ? cx : 0) : (hasX ? dx : 0);
            w.bit[i] = v >> bits[i].bit & 1;
        }
        w.num[Family] = family; w.num[Model] = model; w.num[Type] = type; w.num[Logical] = logical; w.num[LineSize] = clflush * 8;
        w.num[IsAmd] = amd; w.num[IsIntel] = intel;
        const auto C = [&](int b) { return bool(l1.c >> b & 1); };
        const bool ymm = C(27) && C(28) && (s.xcr0lo & 6) == 6, avx2 = has7 && (b7 >> 5 & 1), mic = intel && family == 0xb && model == 1;
        const bool lv[10] = {true, bool(l1.d >> 26 & 1), C(0), C(9), C(19), C(20), ymm, C(27) && avx2 && (s.xcr0lo & 6) == 6, mic, false};
        for (int i = 0; i < 10; ++i) w.is[i] = lv[i];
        int best = 0;
        while (best < 5 && lv[best + 1]) ++best;
        if (best == 5 && ymm) best = avx2 ? 7 : 6;
        w.best = int(impls[mic ? 8 : best]);
        w.extra = (C(29) ? Vc::Float16cInstructions : 0) | (hasX && (cx >> 16 & 1) ? Vc::Fma4Instructions : 0) | (hasX && (cx >> 11 & 1) ? Vc::XopInstructions : 0) | (C(23) ? Vc::PopcntInstructions : 0) |
                  (hasX && (cx >> 6 & 1) ? Vc::Sse4aInstructions : 0) | (C(12) ? Vc::FmaInstructions : 0) | (has7 && (b7 >> 8 & 1) ? Vc::Bmi2Instructions : 0) | (ymm ? Vc::VexInstructions : 0);
        // ---- caches
        w.num[Prefetch] = 32;
        if (amd) {
            static const int code[] = {0, 1, 2, 4, 6, 8, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF};
            static const long ways[] = {0, 1, 2, 4, 8, 16, 32, 48, 64, 96, 128, 255};
            const unsigned d1 = r.below(256), w1 = r.below(256), n1 = r.below(256), i1 = r.below(256), m1 = r.below(256);
            leaf(0x80000005u, ~0u, {u(), u(), d1 << 24 | w1 << 16 | (u() & 0xff00) | n1, i1 << 24 | (u() & 0xffff00) | m1});
            cache(1, long(d1) * 1024, w1, n1); cache(0, long(i1) * 1024, 0, m1);
            const int c2 = r.below(12), c3 = r.below(12);
            const unsigned s2 = r.below(65536), s3 = r.below(0x2000), n2 = r.below(256), n3 = r.below(256);
            leaf(0x80000006u, ~0u, {u(), u(), s2 << 16 | unsigned(code[c2]) << 12 | (u() & 0xf00) | n2, s3 << 18 | (u() & 0x30000) | unsigned(code[c3]) << 12 | (u() & 0xf00) | n3});
            cache(2, long(s2) * 1024, ways[c2], n2);
            cache(3, long(unsigned(s3) * 512u * 1024u), ways[c3], n3);
            w.num[Prefetch] = clflush * 8;
            // leaves 2 and 4 exist on no AMD CPU of that kind; anything there must not matter
        } else {
            const bool l4 = !intel || (s.maxBasic >= 4 && r.coin());
            unsigned char b[45]; int nb = 0;
            const bool zero2 = !intel;                    // leaf 2 all zero: leaf 4 is to be used
            if (!zero2) {
                s.nLeaf2 = 1;   // (AL is always 1)
                int kinds = 0;
                if (l4) b[nb++] = 0xff;
                else {
                    for (int k = 0; k < 4; ++k) {
                        if (r.below(4) == 0) continue;
                        const Desc *d;
                        do d = descs + r.below(sizeof descs / sizeof *descs); while (d->kind != k && !(k == 3 && d->code == 0x49 && family == 0xf && model == 6));
                        if (d->code == 0x49) { if (family == 0xf && model == 6) { if (k == 2) continue; } }
                        b[nb++] = d->code; kinds |= 1 << k;
                        cache(k, long(d->kib) * 1024, d->ways, d->line);
                    }
                    if ((kinds & 1)) w.judge[L1A] = false;   // which L1 cache is meant is not documented
                    const int f = r.below(3);
                    if (f) { b[nb++] = f == 1 ? 0xF0 : 0xF1; w.num[Prefetch] = f == 1 ? 64 : 128; }
                }
                const int cap = 15 * s.nLeaf2;
                while (nb < cap) b[nb++] = fillers[r.below(sizeof fillers)];
                for (int i = cap - 1; i > 0; --i) std::swap(b[i], b[r.below(unsigned(i) + 1)]);
                // a register with bit 31 set holds no descriptors
                int k = 0;
                for (int q = 0; q < s.nLeaf2; ++q) {
                    unsigned reg[4] = {0, 0, 0, 0};
                    for (int i = 1; i < 16; ++i) reg[i / 4] |= unsigned(b[k++]) << i % 4 * 8;
                    for (int i = 0; i < 4; ++i)          // the top byte would make the register invalid: swap with a byte below
                        if (reg[i] >> 31) {
                            int lo = i == 0 ? 1 : 0, j = lo;
                            while (j < 3 && (reg[i] >> (j * 8 + 7) & 1)) ++j;
                            if (j < 3) { unsigned x = reg[i] >> j * 8 & 255, y = reg[i] >> 24; reg[i] = (reg[i] & ~(255u << j * 8) & 0x00ffffffu) | y << j * 8 | x << 24; }
                            else { again = true; }
                        }
                    // registers that hold nothing but fillers may be replaced by invalid ones
                    for (int i = 0; i < 4; ++i) {
                        bool only = true;
                        for (int j = i ? 0 : 1; j < 4; ++j) only = only && memchr(fillers, int(reg[i] >> j * 8 & 255), sizeof fillers);
                        if (only && r.coin()) {
                            reg[i] = 0x80000000u | (reg[i] & (i ? 0 : 255u));
                            for (int j = i ? 0 : 1; j < 3; ++j) reg[i] |= unsigned(descs[r.below(sizeof descs / sizeof *descs)].code) << j * 8;
                        }
                    }
                    reg[0] = (reg[0] & ~0xffu) | unsigned(s.nLeaf2);
                    s.leaf2[q] = Regs{reg[0], reg[1], reg[2], reg[3]};
                }
                leaf(2, ~0u, s.leaf2[0]);
            }
            if (l4) {
                w.num[Prefetch] = clflush ? clflush * 8 : 64;
                struct C4 { int type, level; } l[6]; int n = 0;
                if (r.below(8)) l[n++] = {1, 1};
                if (r.below(8)) l[n++] = {2, 1};
                if (r.below(8)) l[n++] = {r.below(4) ? 3 : 1, 2};
                if (r.coin()) l[n++] = {3, 3};
                if (r.below(4) == 0) l[n++] = {3, 4};
                if (r.below(4) == 0) for (int i = n - 1; i > 0; --i) std::swap(l[i], l[r.below(unsigned(i) + 1)]);
                for (int i = 0; i < n; ++i) {
                    const unsigned line = 1u << r.range(4, 8), parts = r.below(4) ? 1 : 1 + r.below(4), ways = 1 + r.below(32), sets = r.coin() ? 1u << r.range(4, 14) : 1 + r.below(20000);
                    leaf(4, unsigned(i), {unsigned(l[i].type) | unsigned(l[i].level) << 5 | (u() & 0xffffff00u), (line - 1) | (parts - 1) << 12 | (ways - 1) << 22, sets - 1, u()});
                    if (l[i].level <= 3) cache(l[i].type == 2 ? 0 : l[i].level, long(line) * parts * ways * sets, ways, line);
                }
                leaf(4, ~0u, {u() & 0xffffffe0u, 0, 0, 0});
            }
        }
        leaf(5, ~0u, {64, 64, 3, 0x1120}); leaf(6, ~0u, {0x77, 0x102, 9, 0});
        if (s.maxBasic > 9) leaf(s.maxBasic, ~0u, {u(), u(), u(), u()});
        s.combosExtra = (u() << 12) & allExtra;
        char t[400];
        snprintf(t, sizeof t, "%s max leaves %x %x, leaf 1 %08x %08x %08x %08x, leaf 7 ebx %08x ecx %08x, 80000001 ecx %08x edx %08x, xcr0 %x", intel ? "Intel" : amd ? "AMD" : "Hygon", s.maxBasic, s.maxExt,
                 l1.a, l1.b, l1.c, l1.d, b7, c7, cx, dx, s.xcr0lo);
        w.text = t;
        for (int q = 0; q < s.nLeaf2; ++q) { snprintf(t, sizeof t, ", leaf 2 %08x %08x %08x %08x", s.leaf2[q].a, s.leaf2[q].b, s.leaf2[q].c, s.leaf2[q].d); w.text += t; }
    }
    bool again = false;
};

std::string hx(unsigned x) { char b[16]; snprintf(b, sizeof b, "%x", x); return b; }
void judge(const std::string &key, const Want &w, const Shared &s, const Obs &o, const char *when)
{
    const char *tx = w.text.c_str();
    for (int i = 0; i < NBits; ++i)
        if (o.bit[i] != w.bit[i]) vt::fail(key + "/" + bits[i].name, "%s: got %d want %d; %s", when, o.bit[i], w.bit[i], tx);
    for (int i = 0; i < NNum; ++i)
        if (w.judge[i] && o.num[i] != w.num[i]) vt::fail(key + "/" + nums[i].name, "%s: got %ld want %ld; %s", when, o.num[i], w.num[i], tx);
    for (int i = 0; i < 10; ++i)
        if (w.isJudged && o.is[i] != w.is[i]) vt::fail(key + "/isImplementationSupported/" + implNames[i], "%s: got %d want %d; %s", when, o.is[i], w.is[i], tx);
    VT_EXPECT(key + "/bestImplementationSupported", o.best == w.best, "%s: got %d want %d; %s", when, o.best, w.best, tx);
    VT_EXPECT(key + "/extraInstructionsSupported", o.extra == w.extra, "%s: got %x want %x; %s", when, o.extra, w.extra, tx);
    for (unsigned i = 0; i < NCombo; ++i) {
        const unsigned f = combo(i), lev = f & 0xfff, ex = f & allExtra;
        const bool lvl = lev <= 8 && w.is[lev];
        if (w.isJudged && (o.combos[i] & 1) != (lvl && (w.extra & ex) == ex))
            vt::fail(key + "/isImplementationSupported<T>", "%s: level %u extras %x: got %d, level supported %d, extras %x; %s", when, lev, ex, o.combos[i] & 1, lvl, w.extra, tx);
        if ((o.combos[i] >> 1 & 1) != ((s.combosExtra & ex) == ex))
            vt::fail(key + "/runs_on", "features %x on a CPU with extras %x: got %d", f, s.combosExtra, o.combos[i] >> 1 & 1);
    }
}

void fakeCpus()
{
    char self[4096];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    if (n <= 0) { printf("HARNESS\tno /proc/self/exe\n"); return; }
    self[n] = 0;
    const int fd = memfd_create("vt", 0);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) || dup2(fd, 200) < 0) { printf("HARNESS\tmemfd\n"); return; }
    Shared *s = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, 200, 0));
    std::vector<char *> env;
    for (char **e = environ; *e; ++e) env.push_back(*e);
    static char mark[] = "VT_CPUID_CHILD=1";
    env.push_back(mark); env.push_back(nullptr);
    vt::Rng r("fakecpus");
    const std::string key = "fakecpu";
    vt::OpCount oc(key);
    const long cases = vt::cases(800);
    for (long i = 0; i < cases; ++i) {
        Gen g(r, *s);
        do { g.again = false; g.make(); } while (g.again);
        char *argv[] = {self, nullptr};
        pid_t pid;
        if (posix_spawn(&pid, self, nullptr, nullptr, argv, env.data())) { printf("HARNESS\tspawn\n"); return; }
        int status = 0;
        waitpid(pid, &status, 0);
        vt::ev(vt::hashBytes(s->leaf, sizeof s->leaf, 7) ^ vt::mix(s->xcr0lo));
        if (i < 4) vt::sample("%s -> best %d extras %x, L1D %ld L2 %ld L3 %ld, %u cpuid and %u xgetbv executed", g.w.text.c_str(), s->o.best, s->o.extra, s->o.num[L1D], s->o.num[L2D], s->o.num[L3D], s->queries, s->xgetbvs);
        VT_EXPECT(key + "/termination", !s->endless, "more than 3000 cpuid executed; %s", g.w.text.c_str());
        if (s->endless) continue;
        if (!s->done || status) { vt::fail(key + "/crash", "the process ended with status %x; %s", status, g.w.text.c_str()); continue; }
        if (!s->queries) { printf("HARNESS\tno cpuid executed\n"); return; }
        VT_EXPECT(key + "/xgetbv", !s->badXgetbv, "xgetbv executed although the OS does not provide it; %s", g.w.text.c_str());
#ifndef VT_AUTO
        for (int k = 0; k < 10; ++k)
            if (g.w.isJudged && s->earlyIs[k] != g.w.is[k]) vt::fail(key + "/before-main/" + implNames[k], "got %d want %d; %s", s->earlyIs[k], g.w.is[k], g.w.text.c_str());
        VT_EXPECT(key + "/before-main/best", s->earlyBest == g.w.best, "got %d want %d; %s", s->earlyBest, g.w.best, g.w.text.c_str());
#endif
        judge(key, g.w, *s, s->o, "after start");
        judge(key, g.w, *s, s->again, "after init() again");
    }
}

// ---------------------------------------------------------------- the real CPU, the version check
void realCpu()
{
    unsigned a, b, c, d, b7 = 0, c7 = 0, cx = 0, dx = 0, C = 0, D = 0, A1, B1;
    __cpuid(0, a, b, c, d);
    const unsigned maxB = a, vendor = c;
    __cpuid(1, A1, B1, C, D);
    if (maxB >= 7) { __cpuid_count(7, 0, a, b7, c7, d); }
    __cpuid(0x80000000u, a, b, c, d);
    if (a >= 0x80000001u) __cpuid(0x80000001u, a, b, cx, dx);
    vt::OpCount oc("realcpu");
    for (int i = 0; i < NBits; ++i) {
        const unsigned v = bits[i].reg == 'C' ? C : bits[i].reg == 'D' ? D : bits[i].reg == 'b' ? b7 : bits[i].reg == 'c' ? c7 : bits[i].reg == 'X' ? cx : dx;
        VT_EXPECT(std::string("realcpu/") + bits[i].name, bits[i].get() == bool(v >> bits[i].bit & 1), "got %d", bits[i].get());
        vt::ev(vt::mix(unsigned(i)));
    }
    VT_EXPECT("realcpu/isAmd", CpuId::isAmd() == (vendor == Amd) && CpuId::isIntel() == (vendor == Intel), "vendor %x", vendor);
    VT_EXPECT("realcpu/cacheLineSize", CpuId::cacheLineSize() == (B1 >> 8 & 255) * 8, "got %d", CpuId::cacheLineSize());
    __builtin_cpu_init();
    const struct { Implementation i; bool s; } e[] = {{Vc::SSE2Impl, bool(__builtin_cpu_supports("sse2"))}, {Vc::SSE3Impl, bool(__builtin_cpu_supports("sse3"))}, {Vc::SSSE3Impl, bool(__builtin_cpu_supports("ssse3"))},
        {Vc::SSE41Impl, bool(__builtin_cpu_supports("sse4.1"))}, {Vc::SSE42Impl, bool(__builtin_cpu_supports("sse4.2"))}, {Vc::AVXImpl, bool(__builtin_cpu_supports("avx"))}, {Vc::AVX2Impl, bool(__builtin_cpu_supports("avx2"))}, {Vc::ScalarImpl, true}};
    for (auto &x : e) { VT_EXPECT("realcpu/isImplementationSupported", Vc::isImplementationSupported(x.i) == x.s, "level %d: want %d", int(x.i), x.s); vt::ev(vt::mix(100u + unsigned(x.i))); }
    const unsigned ex = Vc::extraInstructionsSupported();
    VT_EXPECT("realcpu/extraInstructionsSupported", bool(ex & Vc::FmaInstructions) == bool(__builtin_cpu_supports("fma")) && bool(ex & Vc::PopcntInstructions) == bool(__builtin_cpu_supports("popcnt")) &&
              bool(ex & Vc::Bmi2Instructions) == bool(__builtin_cpu_supports("bmi2")) && bool(ex & Vc::VexInstructions) == bool(__builtin_cpu_supports("avx")) && bool(ex & Vc::XopInstructions) == bool(__builtin_cpu_supports("xop")) &&
              bool(ex & Vc::Fma4Instructions) == bool(__builtin_cpu_supports("fma4")) && bool(ex & Vc::Sse4aInstructions) == bool(__builtin_cpu_supports("sse4a")), "got %x", ex);
    VT_EXPECT("realcpu/currentImplementationSupported", Vc::currentImplementationSupported(), "this program runs");
    // many threads see one state
    std::atomic<int> bad{0};
    std::vector<std::thread> t;
    const int best = int(Vc::bestImplementationSupported());
    for (int i = 0; i < 8; ++i) t.emplace_back([&] { for (int k = 0; k < 2000; ++k) { CpuId::init(); if (int(Vc::bestImplementationSupported()) != best || Vc::extraInstructionsSupported() != ex) ++bad; } });
    for (auto &x : t) x.join();
    VT_EXPECT("realcpu/threads", !bad, "%d differing results", bad.load());
}
void version()
{
    vt::OpCount oc("checkLibraryAbi");
    VT_EXPECT("version/string", !strcmp(Vc::versionString(), Vc_VERSION_STRING) && Vc::versionNumber() == Vc_VERSION_NUMBER, "%s", Vc::versionString());
    VT_EXPECT("version/check", Vc_VERSION_CHECK(1, 4, 3) == 0x010406 && Vc_VERSION_CHECK(1, 70, 0) == 0x014600 && Vc_IS_VERSION_1 && !Vc_IS_VERSION_2, "encoding");
    vt::Rng r("abi");
    for (int i = 0; i < 150; ++i) {
        const unsigned abi = r.below(3) ? Vc_LIBRARY_ABI_VERSION : r.coin() ? Vc_LIBRARY_ABI_VERSION + unsigned(r.range(-2, 2)) : unsigned(r.u64());
        const unsigned ver = r.below(3) ? Vc_VERSION_NUMBER + unsigned(r.range(-3, 3)) : r.coin() ? Vc_VERSION_NUMBER : unsigned(r.u64() >> 40);
        int p[2]; if (pipe(p)) { printf("HARNESS\tpipe\n"); return; }
        fflush(stdout);
        const pid_t pid = fork();
        if (!pid) {
            signal(SIGABRT, SIG_DFL);
            dup2(p[1], 1);
            Vc::Common::checkLibraryAbi(abi, ver, "x.y.z-test");
            _exit(7);
        }
        close(p[1]);
        std::string out; char b[512]; ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, size_t(n));
        close(p[0]);
        int st = 0; waitpid(pid, &st, 0);
        const bool compatible = abi == Vc_LIBRARY_ABI_VERSION && ver <= Vc_VERSION_NUMBER;
        vt::ev(vt::mix(abi * 31u + ver));
        if (compatible) VT_EXPECT("checkLibraryAbi/accept", WIFEXITED(st) && WEXITSTATUS(st) == 7 && out.empty(), "abi %u version %x: status %x, printed '%s'", abi, ver, st, out.c_str());
        else VT_EXPECT("checkLibraryAbi/reject", WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "abi %u version %x (library: %u %x): status %x", abi, ver, Vc_LIBRARY_ABI_VERSION, Vc_VERSION_NUMBER, st);
    }
}

// ---------------------------------------------------------------- static queries
#ifdef __POPCNT__
#define VT_POP Vc::PopcntInstructions
#else
#define VT_POP 0
#endif
bool prop(unsigned i, int what, int got)
{
    const unsigned lev = combo(i) & 0xfff;
    int want;
    if (what == 100) want = int(lev);
    else if (what < 100) want = lev == unsigned(impls[what]);
    else { const int k = (what - 1000) / 10, m = (what - 1000) % 10; want = unsigned(impls[k]) <= lev && lev <= unsigned(impls[m]); }
    VT_EXPECT("ImplementationT", got == want, "features %x query %d: got %d want %d", combo(i), what, got, want);
    vt::ev(vt::mix(i * 5000u + unsigned(what)));
    return true;
}
void current()
{
    vt::OpCount oc("CurrentImplementation");
    Combos<NCombo - 1>::fill(nullptr, 0, prop);
#ifndef VT_EXPECT_IMPL   // no -DVc_IMPL: everything the compiler is allowed to use
    unsigned automatic =
#ifdef __AVX2__
        Vc::AVX2Impl;
#elif defined __AVX__
        Vc::AVXImpl;
#elif defined __SSE4_2__
        Vc::SSE42Impl;
#elif defined __SSE4_1__
        Vc::SSE41Impl;
#elif defined __SSSE3__
        Vc::SSSE3Impl;
#elif defined __SSE3__
        Vc::SSE3Impl;
#else
        Vc::SSE2Impl;
#endif
#ifdef __FMA4__
    automatic |= Vc::Fma4Instructions;
#endif
#ifdef __XOP__
    automatic |= Vc::XopInstructions;
#endif
#ifdef __POPCNT__
    automatic |= Vc::PopcntInstructions;
#endif
#ifdef __SSE4A__
    automatic |= Vc::Sse4aInstructions;
#endif
#ifdef __FMA__
    automatic |= Vc::FmaInstructions;
#endif
#ifdef __BMI2__
    automatic |= Vc::Bmi2Instructions;
#endif
#define VT_EXPECT_IMPL automatic
#endif
#ifdef VT_EXPECT_IMPL
    using Vc::ScalarImpl; using Vc::SSE2Impl; using Vc::SSE3Impl; using Vc::SSSE3Impl; using Vc::SSE41Impl; using Vc::SSE42Impl; using Vc::AVXImpl; using Vc::AVX2Impl;
    using C = Vc::CurrentImplementation;
    const unsigned want = VT_EXPECT_IMPL, all = Vc::Fma4Instructions | Vc::XopInstructions | Vc::PopcntInstructions | Vc::Sse4aInstructions | Vc::FmaInstructions | Vc::Bmi2Instructions;
    unsigned extra = want & all;
    VT_EXPECT("CurrentImplementation/level", unsigned(C::current()) == (want & 0xfff) && C::is(C::current()), "got %d want %u", int(C::current()), want & 0xfff);
    for (unsigned m = 0; m < 256; ++m) {
        unsigned e = 0;
        for (int i = 0; i < 8; ++i) if (m >> i & 1) e |= extraBits[i];
#ifdef __AVX__
        const unsigned need = extra | Vc::VexInstructions;
#else
        const unsigned need = extra;
#endif
        VT_EXPECT("CurrentImplementation/runs_on", C::runs_on(e) == ((e & need) == need), "this code needs %x; on a CPU with %x: runs_on() = %d", need, e, C::runs_on(e));
        vt::ev(vt::mix(0x10000u + m));
    }
#endif
}
}  // namespace

void vt::run()
{
#if VT_GRP == 0
    fakeCpus();
#elif VT_GRP == 1
    realCpu();
    version();
#else
    current();
#endif
}

int main(int argc, char **argv)
{
    attach();
    if (sh) {
        observe(sh->o);
        CpuId::init(); CpuId::init();
        observe(sh->again);
        sh->done = true;
        return 0;
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc > 1) vt::seed() = strtoull(argv[1], nullptr, 10);
    if (argc > 2) vt::scale() = strtol(argv[2], nullptr, 10);
    vt::installHandlers();
    vt::run();
    return vt::finish();
}
