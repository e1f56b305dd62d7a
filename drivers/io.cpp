// C21: printing (Vc/IO): the text of vectors, masks, SimdArrays and Memory names every lane in order, with the
// stream's own formatting, on string streams, failing streams and terminals.
#include <Vc/Vc>
#include <Vc/IO>
#include "vtvc.h"
#include <fcntl.h>
#include <iomanip>
#include <sstream>
#include <sys/wait.h>
using namespace vt;

// what a stream is set up with before the object is printed
struct Style {
    int base, flo, prec; bool pos, upper, boolalpha, showbase, showpoint; char fill;
    static Style gen(Rng &r) { return {int(r.below(4)), int(r.below(4)), int(r.below(20)), r.below(3) == 0, r.below(3) == 0, r.below(4) == 0, r.below(4) == 0, r.below(4) == 0, r.coin() ? ' ' : '*'}; }
    void on(std::ostream &o) const
    {
        o << (base == 1 ? std::hex : base == 2 ? std::oct : std::dec) << std::setprecision(prec) << std::setfill(fill);
        if (flo == 1) o << std::scientific; else if (flo == 2) o << std::fixed; else if (flo == 3) o << std::hexfloat;
        if (pos) o << std::showpos;
        if (upper) o << std::uppercase;
        if (boolalpha) o << std::boolalpha;
        if (showbase) o << std::showbase;
        if (showpoint) o << std::showpoint;
    }
    std::string s() const { return "base " + std::to_string(base) + " float " + std::to_string(flo) + " precision " + std::to_string(prec); }
    template <class T> std::string one(T x) const { std::ostringstream o; on(o); o << x; return o.str(); }
};
// the documented texts
template <class T> std::string vecText(const Style &s, const T *p, size_t n)
{ std::string r = "["; for (size_t i = 0; i < n; ++i) r += (i ? ", " : "") + s.one(p[i]); return r + "]"; }
std::string maskText(const bool *b, size_t n)
{ std::string r = "m["; for (size_t i = 0; i < n; ++i) { if (i && i % 4 == 0) r += ' '; r += b[i] ? '1' : '0'; } return r + "]"; }
// formats that are not documented: the sequence of lanes counts
std::vector<std::string> tokens(const std::string &t, const char *separators)
{
    std::vector<std::string> r; std::string cur;
    for (char c : t) { if (strchr(separators, c)) { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) r.push_back(cur);
    return r;
}
template <class T> std::vector<std::string> lanesText(const Style &s, const T *p, size_t n) { std::vector<std::string> r; for (size_t i = 0; i < n; ++i) r.push_back(s.one(p[i])); return r; }
std::string digits(const std::string &t) { std::string r; for (char c : t) if (c == '0' || c == '1') r += c; return r; }
std::string bitText(const bool *b, size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r += b[i] ? '1' : '0'; return r; }

struct Failing : std::streambuf {   // accepts `left` characters
    long left; std::string got;
    int overflow(int c) override { if (left-- <= 0) return traits_type::eof(); got += char(c); return c; }
};
void same(const std::string &key, const std::string &got, const std::string &want, const std::string &ctx)
{ VT_EXPECT(key, got == want, "got '%s' want '%s'; %s", got.c_str(), want.c_str(), ctx.c_str()); }

// prints x the given way; judge(text)
template <class X, class J> void print(const std::string &key, Rng &r, const X &x, const Style &st, J &&judge, uint64_t h)
{
    ev(h ^ mix(uint64_t(st.base * 1000 + st.flo * 100 + st.prec)));
    std::ostringstream o;
    st.on(o);
    const auto fl = o.flags(); const auto pr = o.precision(); const auto fi = o.fill();
    o << "<<";
    std::ostream *back = &(o << x);
    VT_EXPECT(key + "/returns", back == &o, "operator<< returned another stream");
    VT_EXPECT(key + "/state", o.good() && o.flags() == fl && o.precision() == pr && o.fill() == fi && o.width() == 0, "the stream's state changed");
    o << ">>";
    const std::string t = o.str();
    if (t.size() < 4 || t.compare(0, 2, "<<") || t.compare(t.size() - 2, 2, ">>")) { fail(key + "/text", "got '%s'", t.c_str()); return; }
    const std::string body = t.substr(2, t.size() - 4);
    judge(body);
    if (wantSample() && r.below(200) == 0) sample("%s: %s", key.c_str(), body.c_str());
    if (r.below(4) == 0) {    // a stream that stops accepting characters
        Failing f; f.left = r.below(uint32_t(body.size()) + 3);
        const long room = f.left;
        std::ostream os(&f);
        st.on(os);
        const bool ex = r.coin();
        bool thrown = false;
        if (ex) os.exceptions(std::ios::badbit | std::ios::failbit);
        try { os << x; } catch (const std::ios_base::failure &) { thrown = true; }
        const bool fits = room >= long(body.size());
        VT_EXPECT(key + "/failing stream", f.got == body.substr(0, size_t(std::min<long>(room, long(body.size())))) && os.good() == fits && thrown == (ex && !fits),
                  "room %ld: wrote '%s' of '%s', good %d, thrown %d", room, f.got.c_str(), body.c_str(), os.good(), thrown);
    }
}

struct Vec {
    template <class V> void operator()(Tag<V>)
    {
        using T = typename V::EntryType;
        constexpr size_t N = V::Size;
        Rng r(("io" + vn<V>()).c_str());
        {
            const std::string k = key<V>("print vector");
            OpCount oc(k);
            for (long i = 0, n = cases(60); i < n; ++i) {
                const auto l = Lanes<V>::any(r);
                const Style s = Style::gen(r);
                const V v = l.v();
                print(k, r, v, s, [&](const std::string &t) { same(k, t, vecText(s, l.a, N), s.s()); }, l.h(1));
            }
        }
        {
            using M = typename V::MaskType;
            const std::string k = key<V>("print mask");
            OpCount oc(k);
            for (long i = 0, n = cases(40); i < n; ++i) {
                const auto b = Bits<N>::gen(r);
                const M m = maskFromBits<M>(b.a);
                const Style s = Style::gen(r);
                print(k, r, m, s, [&](const std::string &t) { same(k, t, maskText(b.a, N), s.s()); }, b.h(2));
            }
        }
        mem<V, 1>(r); mem<V, 3>(r); mem<V, 2 * N>(r); mem<V, 2 * N + 1>(r);
        mem2<V, 3, N + 1>(r); mem2<V, 1, 2 * N>(r);
        {
            const std::string k = key<V>("print Memory(n)");
            OpCount oc(k);
            for (long i = 0, n = cases(20); i < n; ++i) {
                const size_t sz = 1 + r.below(uint32_t(4 * N));
                Vc::Memory<V> m(sz);
                fillMem<V>(m, sz, r);
                judgeMem<V>(k, r, m, m.vectorsCount() * N);
            }
        }
    }
    template <class V, class M> void fillMem(M &m, size_t n, Rng &r)
    {
        using T = typename V::EntryType;
        for (size_t i = 0; i < m.vectorsCount() * V::Size; ++i) m.entries()[i] = T(0);
        for (size_t i = 0; i < n; ++i) m[i] = any<T>(r);
    }
    template <class V, class M> void judgeMem(const std::string &k, Rng &r, const M &m, size_t total)
    {
        using T = typename V::EntryType;
        constexpr size_t W = V::Size;
        const Style s = Style::gen(r);
        print(k, r, m, s, [&](const std::string &t) {
            std::string want = "{", got;
            for (size_t i = 0; i < total; i += W) want += vecText(s, m.entries() + i, W);
            want += "}";
            for (size_t i = 0; i < t.size(); ++i) {     // white space between the vectors is free
                if ((t[i] == ' ' || t[i] == '\n') && i && (t[i - 1] == ']' || t[i - 1] == ' ' || t[i - 1] == '\n')) continue;
                got += t[i];
            }
            same(k, got, want, s.s());
        }, hashBytes(m.entries(), total * sizeof(T), total));
    }
    template <class V, size_t Sz> void mem(Rng &r)
    {
        const std::string k = key<V>("print Memory<n>");
        OpCount oc(k);
        for (long i = 0, n = cases(15); i < n; ++i) {
            Vc::Memory<V, Sz> m;
            fillMem<V>(m, Sz, r);
            judgeMem<V>(k, r, m, m.vectorsCount() * V::Size);
        }
    }
    template <class V, size_t Rows, size_t Cols> void mem2(Rng &r)
    {
        using T = typename V::EntryType;
        const std::string k = key<V>("print Memory<rows,cols>");
        OpCount oc(k);
        for (long i = 0, n = cases(15); i < n; ++i) {
            Vc::Memory<V, Rows, Cols> m;
            const Style s = Style::gen(r);
            std::string want = "{";
            uint64_t h = 3;
            for (size_t a = 0; a < Rows; ++a) {
                for (size_t b = 0; b < m[a].vectorsCount() * V::Size; ++b) m[a].entries()[b] = any<T>(r);
                for (size_t b = 0; b < m[a].vectorsCount(); ++b) want += vecText(s, m[a].entries() + b * V::Size, V::Size);
                h = hashBytes(m[a].entries(), Cols * sizeof(T), h);
            }
            want += "}";
            print(k, r, m, s, [&](const std::string &t) {
                std::string got;
                for (size_t i = 0; i < t.size(); ++i) {
                    if ((t[i] == ' ' || t[i] == '\n') && i && (t[i - 1] == ']' || t[i - 1] == ' ' || t[i - 1] == '\n')) continue;
                    got += t[i];
                }
                same(k, got, want, s.s());
            }, h);
        }
    }
};
struct Arr {
    template <class V> void operator()(Tag<V>)
    {
        constexpr size_t N = V::Size;
        Rng r(("ioarr" + vn<V>()).c_str());
        {
            const std::string k = key<V>("print SimdArray");
            OpCount oc(k);
            for (long i = 0, n = cases(40); i < n; ++i) {
                const auto l = Lanes<V>::any(r);
                const Style s = Style::gen(r);
                const V v = l.v();
                print(k, r, v, s, [&](const std::string &t) {
                    const auto got = tokens(t, "<>[]{}|, "), want = lanesText(s, l.a, N);
                    std::string w; for (auto &x : want) w += x + " ";
                    VT_EXPECT(k, got == want && t.size() > 1 && !isalnum(t[0]) && !isalnum(t.back()), "got '%s' want the lanes %s; %s", t.c_str(), w.c_str(), s.s().c_str());
                }, l.h(4));
            }
        }
        {
            using M = typename V::MaskType;
            const std::string k = key<V>("print SimdMaskArray");
            OpCount oc(k);
            for (long i = 0, n = cases(30); i < n; ++i) {
                const auto b = Bits<N>::gen(r);
                const M m = maskFromBits<M>(b.a);
                const Style s = Style::gen(r);
                print(k, r, m, s, [&](const std::string &t) { same(k, digits(t), bitText(b.a, N), t); }, b.h(5));
            }
        }
    }
};
// on a terminal the text may be coloured, and is otherwise the same
std::string strip(const std::string &t)
{
    std::string r;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\033') { while (i < t.size() && t[i] != 'm') ++i; continue; }
        if (t[i] != '\r') r += t[i];
    }
    return r;
}
template <class F> bool onTerminal(F &&f, std::string &out, bool tty)
{
    int master, slave;
    int p[2];
    if (tty) {
        master = posix_openpt(O_RDWR | O_NOCTTY);
        if (master < 0 || grantpt(master) || unlockpt(master)) return false;
        const char *n = ptsname(master);
        slave = n ? open(n, O_RDWR | O_NOCTTY) : -1;
        if (slave < 0) { close(master); return false; }
    } else {
        if (pipe(p)) return false;
        master = p[0]; slave = p[1];
    }
    fflush(stdout);
    const pid_t pid = fork();
    if (!pid) {
        dup2(slave, 1); setvbuf(stdout, nullptr, _IONBF, 0);
        f(std::cout);
        std::cout << "\n#end#\n" << std::flush;
        _exit(0);
    }
    if (!tty) close(slave);
    char b[1024]; ssize_t n;
    out.clear();
    while (out.find("#end#") == std::string::npos && (n = read(master, b, sizeof b)) > 0) out.append(b, size_t(n));
    out.resize(std::min(out.size(), out.find("#end#")));     // the rest of that line may arrive later
    int stat; waitpid(pid, &stat, 0);
    if (tty) close(slave);
    close(master);
    return true;
}
struct Tty {
    template <class V> void operator()(Tag<V>)
    {
        using M = typename V::MaskType;
        const std::string k = key<V>("print on a terminal");
        OpCount oc(k);
        Rng r(("tty" + vn<V>()).c_str());
        for (int i = 0; i < 4; ++i) {
            const auto l = Lanes<V>::any(r); const auto b = Bits<V::Size>::gen(r);
            const V v = l.v(); const M m = maskFromBits<M>(b.a);
            const Vc::SimdArray<typename V::EntryType, 7> a(v[0]);
            auto f = [&](std::ostream &o) { o << v << '|' << m << '|' << a << '|' << (a == a); };
            std::string term, pipe_;
            std::ostringstream s; f(s); s << "\n";
            if (!onTerminal(f, pipe_, false)) { printf("HARNESS\tno pipe\n"); return; }
            same(k + "/std::cout", pipe_, s.str(), "std::cout on a pipe");
            ev(l.h(9));
            if (!onTerminal(f, term, true)) continue;
            same(k, strip(term), s.str(), "std::cout on a terminal, colours removed");
            ev(l.h(10));
        }
    }
};
namespace vt {
void run()
{
    forNative(Vec());
    Arr a;
    forArray<1>(a); forArray<4>(a); forArray<13>(a);
    if (VT_ALONE) forNative(Tty());
}
}
