// Conformance driver: executes API scripts and exhaustive sweeps against the library built
// from /repo and records what happened as JSON lines.  Uses the public API only.
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>

#include <algorithm>
#include <barrier>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <system_error>
#include <thread>
#include <unistd.h>
#include <vector>

using std::string;
using std::vector;

// the same through the compatibility header (compat.c)
extern "C" reiconv_t compat_open(const char *, const char *);
extern "C" size_t compat_iconv(reiconv_t, char **, size_t *, char **, size_t *);
extern "C" int compat_close(reiconv_t);
extern "C" struct compat_const
{
    const char *name;
    int value;
} const compat_consts[];
typedef vector<unsigned char> Bytes;

static int ecode(int e)
{
    switch (e)
    {
    case 0: return 0;
    case EILSEQ: return 1;
    case EINVAL: return 2;
    case E2BIG: return 3;
    case ENOMEM: return 4;
    default: return 9;
    }
}

static Bytes unhex(const string &s)
{
    Bytes r;
    if (s == "-") return r;
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}

static void put_int(string &o, long long v) { o += std::to_string(v); }
static void put_bytes(string &o, const unsigned char *p, size_t n)
{
    o += '[';
    for (size_t i = 0; i < n; i++)
    {
        if (i) o += ',';
        put_int(o, p[i]);
    }
    o += ']';
}
static void put_bytes(string &o, const Bytes &b) { put_bytes(o, b.data(), b.size()); }
static void kv(string &o, const char *k, long long v)
{
    o += ",\"";
    o += k;
    o += "\":";
    put_int(o, v);
}
static void kb(string &o, const char *k, const unsigned char *p, size_t n)
{
    o += ",\"";
    o += k;
    o += "\":";
    put_bytes(o, p, n);
}
// size_t results as small ints: -1 for (size_t)-1
static long long sres(size_t r) { return r == (size_t)-1 ? -1 : (long long)r; }

// exactly sized heap buffers, so that AddressSanitizer sees the first byte outside
struct Exact
{
    unsigned char *base, *p;
    size_t n;
    Exact(size_t n, int fill) : n(n)
    {
        base = (unsigned char *)malloc(n ? n : 1);
        p = n ? base : base + 1;
        memset(base, fill, n ? n : 1);
    }
    Exact(const Bytes &b) : n(b.size())
    {
        base = (unsigned char *)malloc(n ? n : 1);
        p = n ? base : base + 1;
        if (n) memcpy(base, b.data(), n);
    }
    ~Exact() { free(base); }
};

// The variant "mem" keeps account of the blocks the library holds, and makes a chosen allocation fail.
namespace mem
{
static long arm;                // which allocation of the next operation fails (0: none)
#ifdef VERIF_MEM
static bool inside;
static long seen, hit;
static void *live[4096];        // no container here: this runs inside malloc
static long nlive;
static void add(void *p)
{
    if (inside && p && nlive < 4096) live[nlive++] = p;
}
static void del(void *p)
{
    for (long i = nlive; p && i-- > 0;)
        if (live[i] == p)
        {
            live[i] = live[--nlive];
            return;
        }
}
// a block of the caller's that the library may release or replace
static void adopt(void *p)
{
    bool was = inside;
    inside = true;
    add(p);
    inside = was;
}
static bool fail()
{
    if (!inside) return false;
    if (++seen != arm) return false;
    hit = 1;
    return true;
}
struct Guard
{
    bool was = inside;
    Guard() { inside = true; }
    ~Guard() { inside = was; }
};
#else
struct Guard
{
};
static void adopt(void *) {}
#endif
} // namespace mem
#define LIB(x) ({ mem::Guard guard_; (void)guard_; (x); })
#ifdef VERIF_MEM
extern "C"
{
    void *__real_malloc(size_t);
    void *__real_calloc(size_t, size_t);
    void *__real_realloc(void *, size_t);
    void __real_free(void *);
    void *__wrap_malloc(size_t n)
    {
        if (mem::fail()) return errno = ENOMEM, nullptr;
        void *p = __real_malloc(n);
        mem::add(p);
        return p;
    }
    void *__wrap_calloc(size_t k, size_t n)
    {
        if (mem::fail()) return errno = ENOMEM, nullptr;
        void *p = __real_calloc(k, n);
        mem::add(p);
        return p;
    }
    void *__wrap_realloc(void *q, size_t n)
    {
        if (n && mem::fail()) return errno = ENOMEM, nullptr;
        if (n || !q) mem::del(q);
        else
        {
            mem::del(q);
            __real_free(q);
            return nullptr;
        }
        void *p = __real_realloc(q, n);
        mem::add(p);
        return p;
    }
    void __wrap_free(void *p)
    {
        mem::del(p);
        __real_free(p);
    }
}
void *operator new(size_t n)
{
    if (mem::fail()) throw std::bad_alloc();
    void *p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    mem::add(p);
    return p;
}
void operator delete(void *p) noexcept
{
    mem::del(p);
    __real_free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
#endif

static bool one_shot(int from, int to, const Bytes &in, Bytes &out, long &ret, int &err);

struct Shared
{
    volatile long cas;
    volatile long op;
};
static Shared *shared;

struct Runner
{
    std::map<int, reiconv_t> hs;
    std::map<int, Bytes> rest;
    std::map<int, bool> compat; // opened through iconv.h, to be used through iconv.h
    size_t iconv_call(int h, char **i, size_t *il, char **o, size_t *ol)
    {
        reiconv_t cd = hs[h];
        if (compat[h]) return LIB(compat_iconv(cd, i, il, o, ol));
        return LIB(reiconv_iconv(cd, i, il, o, ol));
    }
    bool alt = false;
    // what handle 0 has produced since it was opened: by conversion calls, and in total
    long n_conv = 0, n_all = 0;
    // a window size: a number, or relative to what handle 0 produced (~d conversion, =d total)
    long cap_of(const string &s) const
    {
        if (s[0] == '~') return std::max(-1L, n_conv + atol(s.c_str() + 1));
        if (s[0] == '=') return std::max(-1L, n_all + atol(s.c_str() + 1));
        return atol(s.c_str());
    }
    ~Runner()
    {
        for (auto &k : hs)
            if (k.second != (reiconv_t)-1) LIB(reiconv_handle_close(k.second));
    }

    // one reiconv_iconv call with input
    struct R
    {
        size_t ret;
        int err;
        size_t used, wrote;
    };
    R conv(string &o, int h, const Bytes &in, size_t cap)
    {
        Exact ib(in), ob(cap, 0xAA);
        char *ip = (char *)ib.p, *op = (char *)ob.p;
        size_t il = in.size(), ol = cap;
        errno = 0;
        size_t r = iconv_call(h, &ip, &il, &op, &ol);
        int e = r == (size_t)-1 ? errno : 0;
        long long used = ip - (char *)ib.p, wrote = op - (char *)ob.p;
        bool sane = used >= 0 && used <= (long long)in.size() && wrote >= 0 && wrote <= (long long)cap;
        o += "{\"op\":\"conv\"";
        kv(o, "h", h);
        kb(o, "in", in.data(), in.size());
        kv(o, "cap", cap);
        kv(o, "ret", sres(r));
        kv(o, "err", ecode(e));
        kv(o, "used", used);
        kv(o, "left", il > 1000000000u ? -1 : (long long)il);
        kv(o, "wrote", wrote);
        kv(o, "oleft", ol > 1000000000u ? -1 : (long long)ol);
        kb(o, "out", ob.p, sane ? wrote : 0);
        o += "}\n";
        if (h == 0 && sane) n_conv += wrote, n_all += wrote;
        return {r, e, sane ? (size_t)used : 0, sane ? (size_t)wrote : 0};
    }
    R reset(string &o, int h, long cap)
    {
        o += "{\"op\":\"reset\"";
        kv(o, "h", h);
        kv(o, "cap", cap);
        if (cap < 0)
        {
            errno = 0;
            size_t r;
            char *nul = nullptr;
            size_t z = 0;
            if (cap == -1)
                r = iconv_call(h, nullptr, nullptr, nullptr, nullptr);
            else if (cap == -2)
                r = iconv_call(h, &nul, &z, &nul, &z);
            else
                r = iconv_call(h, &nul, nullptr, nullptr, nullptr);
            kv(o, "ret", sres(r));
            kv(o, "err", r == (size_t)-1 ? ecode(errno) : 0);
            o += ",\"wrote\":0,\"oleft\":0,\"out\":[]}\n";
            return {r, 0, 0, 0};
        }
        Exact ob(cap, 0xAA);
        char *op = (char *)ob.p;
        size_t ol = cap;
        // the two ways of asking for a reset take turns: no pointer to the input, or a pointer to none
        char *none = nullptr;
        size_t some = 7;
        alt = !alt;
        errno = 0;
        size_t r = iconv_call(h, alt ? nullptr : &none, alt ? nullptr : &some, &op, &ol);
        int e = r == (size_t)-1 ? errno : 0;
        long long wrote = op - (char *)ob.p;
        bool sane = wrote >= 0 && wrote <= cap;
        kv(o, "ret", sres(r));
        kv(o, "err", ecode(e));
        kv(o, "wrote", wrote);
        kv(o, "oleft", ol > 1000000000u ? -1 : (long long)ol);
        kb(o, "out", ob.p, sane ? wrote : 0);
        o += "}\n";
        if (h == 0 && sane) n_all += wrote;
        return {r, e, 0, sane ? (size_t)wrote : 0};
    }
    vector<long> ints(const string &s) const
    {
        vector<long> r;
        std::stringstream ss(s);
        string t;
        while (std::getline(ss, t, ',')) r.push_back(cap_of(t));
        return r;
    }

    void op(const string &line, string &o)
    {
        std::stringstream ss(line);
        string c, a, b, d, e;
        ss >> c;
        int h = 0;
        if (strchr("CAFGRZSVX", c[0]))
        {
            // an opening that was made to fail left no handle to use
            std::stringstream peek(line);
            peek >> a >> h;
            if (hs.count(h) && hs[h] == (reiconv_t)-1) return;
        }
        switch (c[0])
        {
        case 'O': {
            int from, to, fl;
            ss >> h >> from >> to >> fl;
            errno = 0;
            reiconv_t cd = LIB(reiconv_open_from_index(from, to, (enum ConvertFlag)fl));
            int er = errno;
            hs[h] = cd;
            compat[h] = false;
            if (h == 0) n_conv = n_all = 0;
            o += "{\"op\":\"open\"";
            kv(o, "h", h);
            kv(o, "from", from);
            kv(o, "to", to);
            kv(o, "fl", fl);
            kv(o, "ok", cd != (reiconv_t)-1);
            kv(o, "err", cd == (reiconv_t)-1 ? ecode(er) : 0);
            o += "}\n";
            break;
        }
        case 'J': // the k-th allocation of the next operation fails
            ss >> mem::arm;
            break;
        case 'o': { // o h kind fromhex tohex fl   kind n=open_from_name i=reiconv_open c=codepage
            int fl;
            ss >> h >> a >> b >> d >> fl;
            Bytes f = unhex(b), t = unhex(d);
            reiconv_t cd;
            o += "{\"op\":\"openx\"";
            kv(o, "h", h);
            if (a == "c")
            {
                int fc = atoi(string(f.begin(), f.end()).c_str()), tc = atoi(string(t.begin(), t.end()).c_str());
                errno = 0;
                cd = LIB(reiconv_open_from_codepage(fc, tc, (enum ConvertFlag)fl));
                o += ",\"kind\":\"codepage\"";
                kv(o, "fcp", fc);
                kv(o, "tcp", tc);
            }
            else
            {
                f.push_back(0);
                t.push_back(0);
                Exact fe(f), te(t);
                errno = 0;
                if (a == "w")
                    cd = LIB(compat_open((char *)te.p, (char *)fe.p));
                else if (a == "n")
                    cd = LIB(reiconv_open_from_name((char *)fe.p, (char *)te.p, (enum ConvertFlag)fl));
                else
                    cd = LIB(reiconv_open((char *)te.p, (char *)fe.p));
                o += a == "n" ? ",\"kind\":\"name\"" : ",\"kind\":\"iconv\"";
                kb(o, "fname", f.data(), f.size() - 1);
                kb(o, "tname", t.data(), t.size() - 1);
            }
            int er = errno;
            hs[h] = cd;
            compat[h] = a == "w";
            kv(o, "fl", fl);
            kv(o, "ok", cd != (reiconv_t)-1);
            kv(o, "err", cd == (reiconv_t)-1 ? ecode(er) : 0);
            o += "}\n";
            break;
        }
        case 'C': {
            ss >> h >> a >> b;
            long cap = cap_of(b);
            if (cap >= 0)
            {
                Bytes in = unhex(a);
                R r = conv(o, h, in, cap);
                rest[h] = Bytes(in.begin() + r.used, in.end());
            }
            break;
        }
        case 'A': { // the input the last C (or A) call left unconsumed, again
            long cap;
            ss >> h >> cap;
            Bytes in = rest[h];
            R r = conv(o, h, in, cap);
            rest[h] = Bytes(in.begin() + r.used, in.end());
            break;
        }
        case 'F': { // F h inhex chunks caps : feed with carry-over
            ss >> h >> a >> b >> d;
            Bytes in = unhex(a), pend;
            vector<long> chunks = ints(b), caps = ints(d);
            bool skip = false;
            for (long k : caps) skip = skip || k < 0;
            if (skip) break;
            size_t pos = 0, ci = 0, wi = 0;
            int calls = 0;
            bool stop = false;
            while (!stop && pos < in.size())
            {
                size_t n = chunks[ci++ % chunks.size()];
                if (n == 0) n = in.size();
                if (n > in.size() - pos) n = in.size() - pos;
                pend.insert(pend.end(), in.begin() + pos, in.begin() + pos + n);
                pos += n;
                for (;;)
                {
                    if (++calls > 4000) { stop = true; break; }
                    R r = conv(o, h, pend, caps[wi++ % caps.size()]);
                    pend.erase(pend.begin(), pend.begin() + r.used);
                    if (r.ret == (size_t)-1 && r.err == E2BIG) continue;
                    if (r.ret == (size_t)-1 && r.err != EINVAL) stop = true;
                    break;
                }
            }
            break;
        }
        case 'G': { // G h caps : reset until it no longer reports E2BIG
            ss >> h >> a;
            vector<long> caps = ints(a);
            for (int i = 0; i < 100; i++)
            {
                R r = reset(o, h, caps[i % caps.size()]);
                if (!(r.ret == (size_t)-1 && r.err == E2BIG)) break;
            }
            break;
        }
        case 'R': {
            long cap;
            ss >> h >> cap;
            reset(o, h, cap);
            break;
        }
        case 'Z': {
            ss >> h >> a;
            Bytes in = unhex(a);
            Exact ib(in);
            errno = 0;
            size_t r = LIB(reiconv_result_size(hs[h], (char *)ib.p, in.size()));
            int er = errno;
            o += "{\"op\":\"size\"";
            kv(o, "h", h);
            kb(o, "in", in.data(), in.size());
            kv(o, "ret", sres(r));
            kv(o, "err", r == (size_t)-1 ? ecode(er) : 0);
            o += "}\n";
            break;
        }
        case 'S': {
            ss >> h >> a >> b;
            long cap = cap_of(b);
            if (cap < 0) break;
            Bytes in = unhex(a);
            Exact ib(in), ob(cap, 0xAA);
            errno = 0;
            int r = LIB(reiconv_convert_static_size(hs[h], (char *)ib.p, in.size(), (char *)ob.p, cap));
            int er = errno;
            o += "{\"op\":\"static\"";
            kv(o, "h", h);
            kb(o, "in", in.data(), in.size());
            kv(o, "cap", cap);
            kv(o, "ret", r);
            kv(o, "err", r ? ecode(er) : 0);
            kb(o, "buf", ob.p, cap);
            o += "}\n";
            break;
        }
        case 'V': { // V h inhex mode : mode 0 *out==NULL, 1 *out malloc'ed, 2 length ptr NULL, 3 out ptr NULL
            int mode;
            ss >> h >> a >> mode;
            Bytes in = unhex(a);
            Exact ib(in);
            char *out = mode == 1 ? (char *)malloc(7) : nullptr;
            if (out) memset(out, 0x55, 7), mem::adopt(out);
            size_t len = 777777;
            errno = 0;
            int r = LIB(reiconv_convert(hs[h], (char *)ib.p, in.size(), mode == 3 ? nullptr : &out,
                                    mode == 2 ? nullptr : &len));
            int er = errno;
            o += "{\"op\":\"convert\"";
            kv(o, "h", h);
            kb(o, "in", in.data(), in.size());
            kv(o, "mode", mode);
            kv(o, "ret", r);
            kv(o, "err", r ? ecode(er) : 0);
            bool have = r == 0 && mode < 2;
            kv(o, "len", have ? (long long)len : -1);
            kb(o, "out", (unsigned char *)out, have && len < 10000000 && out ? len : 0);
            o += "}\n";
            // on failure the documented buffer is freed by the library or still ours
            if (r == 0 && mode != 3) free(out);
            else if (r != 0 && mode == 0 && out) free(out);
            else if (r != 0 && mode == 1 && out) free(out);
            break;
        }
        case 'P': { // C++ convert
            int from, to, fl;
            ss >> from >> to >> fl >> a;
            Bytes in = unhex(a);
            Exact ib(in);
            int kind = 0, er = 0; // 0 ok, 1 system_error, 2 other exception, 3 bad_alloc
            string res;
            try
            {
                res = LIB(reiconv::convert((reiconv::encoding::Encodings)from, (reiconv::encoding::Encodings)to,
                                       std::string_view((char *)ib.p, in.size()), (reiconv::ConvertFlag)fl));
            }
            catch (const std::system_error &x)
            {
                kind = 1;
                er = x.code().value();
            }
            catch (const std::bad_alloc &)
            {
                kind = 3;
            }
            catch (...)
            {
                kind = 2;
            }
            o += "{\"op\":\"cpp\"";
            kv(o, "from", from);
            kv(o, "to", to);
            kv(o, "fl", fl);
            kb(o, "in", in.data(), in.size());
            kv(o, "kind", kind);
            kv(o, "err", ecode(er));
            kb(o, "out", (unsigned char *)res.data(), res.size());
            o += "}\n";
            break;
        }
        case 'X': {
            ss >> h;
            int r = compat[h] ? LIB(compat_close(hs[h])) : LIB(reiconv_handle_close(hs[h]));
            hs.erase(h);
            o += "{\"op\":\"close\"";
            kv(o, "h", h);
            kv(o, "ret", r);
            o += "}\n";
            break;
        }
        case 'B': { // B pivot idx inhex : pivot -> idx -> pivot, whole text
            int pv, idx;
            ss >> pv >> idx >> a;
            Bytes in = unhex(a), mid, back;
            long r1, r2 = 0;
            int e1, e2 = 0;
            bool ok = one_shot(pv, idx, in, mid, r1, e1);
            if (ok && r1 == 0) one_shot(idx, pv, mid, back, r2, e2);
            o += "{\"op\":\"rt\"";
            kv(o, "pv", pv);
            kv(o, "e", idx);
            kb(o, "in", in.data(), in.size());
            kv(o, "ret", r1);
            kv(o, "err", e1);
            kb(o, "mid", mid.data(), mid.size());
            kv(o, "bret", r2);
            kv(o, "berr", e2);
            kb(o, "back", back.data(), back.size());
            o += "}\n";
            break;
        }
        case 'l': {
            int cp;
            ss >> cp;
            o += "{\"op\":\"cplookup\"";
            kv(o, "cp", cp);
            kv(o, "ret", LIB(reiconv_lookup_from_codepage(cp)));
            int kind = 0, idx = -1;
            try
            {
                idx = LIB((int)reiconv::Encoding(cp));
            }
            catch (const std::invalid_argument &)
            {
                kind = 1;
            }
            catch (...)
            {
                kind = 2;
            }
            kv(o, "ckind", kind);
            kv(o, "cidx", idx);
            o += "}\n";
            break;
        }
        case 'L': {
            ss >> a;
            Bytes n = unhex(a);
            n.push_back(0);
            Exact ne(n);
            int r = LIB(reiconv_lookup_from_name((char *)ne.p));
            int kind = 0, idx = -1;
            try
            {
                idx = LIB((int)reiconv::Encoding((char *)ne.p));
            }
            catch (const std::invalid_argument &)
            {
                kind = 1;
            }
            catch (...)
            {
                kind = 2;
            }
            Exact cb(n.size(), 0);
            size_t cl = LIB(reiconv_name_canonicalize((char *)ne.p, (char *)cb.p));
            o += "{\"op\":\"lookup\"";
            kb(o, "name", n.data(), n.size() - 1);
            kv(o, "ret", r);
            kv(o, "ckind", kind);
            kv(o, "cidx", idx);
            kv(o, "clen", cl);
            kb(o, "canon", cb.p, cl < n.size() ? cl : 0);
            o += "}\n";
            break;
        }
        default:
            break;
        }
    }
};

struct Case
{
    string id;
    vector<string> ops;
};

static vector<Case> read_cases()
{
    vector<Case> cs;
    string line;
    char *buf = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&buf, &cap, stdin)) > 0)
    {
        while (n && (buf[n - 1] == '\n' || buf[n - 1] == '\r')) n--;
        line.assign(buf, n);
        if (line.empty()) continue;
        if (line[0] == 'K')
            cs.push_back({line.substr(2), {}});
        else if (!cs.empty())
            cs.back().ops.push_back(line);
    }
    free(buf);
    return cs;
}

static void run_case(const Case &c, string &o, long ci, Shared *sh)
{
    o += "{\"op\":\"case\",\"id\":\"" + c.id + "\"}\n";
    Runner r;
    for (size_t i = 0; i < c.ops.size(); i++)
    {
        if (sh)
        {
            sh->cas = ci;
            sh->op = (long)i;
        }
#ifdef VERIF_MEM
        mem::seen = mem::hit = 0;
        long arm = mem::arm;
        size_t at = o.size();
        r.op(c.ops[i], o);
        if (c.ops[i][0] != 'J') mem::arm = 0;
        if (o.size() > at && o.compare(o.size() - 2, 2, "}\n") == 0)
        {
            o.resize(o.size() - 2);
            kv(o, "arm", arm);
            kv(o, "hit", mem::hit);
            kv(o, "live", mem::nlive);
            o += "}\n";
        }
#else
        r.op(c.ops[i], o);
#endif
    }
}

static void flush_out(string &o)
{
    if (o.empty()) return;
    size_t off = 0;
    fflush(stdout);
    while (off < o.size())
    {
        ssize_t w = write(1, o.data() + off, o.size() - off);
        if (w <= 0) _exit(3);
        off += w;
    }
    o.clear();
}

static int run_script()
{
    vector<Case> cs = read_cases();
    long next = 0;
    int crashes = 0;
    while (next < (long)cs.size())
    {
        shared->cas = next;
        shared->op = -1;
        pid_t pid = fork();
        if (pid == 0)
        {
            string o;
            for (long i = next; i < (long)cs.size(); i++)
            {
                alarm(20);
                run_case(cs[i], o, i, shared);
                if (o.size() > 1 << 20 || true) flush_out(o);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        long bad = shared->cas;
        string o = "{\"op\":\"case\",\"id\":\"" + cs[bad].id + "\"}\n{\"op\":\"crash\"";
        bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        kv(o, "at", shared->op);
        kv(o, "hang", hang);
        kv(o, "sig", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
        o += "}\n";
        flush_out(o);
        next = bad + 1;
        crashes += hang ? 7 : 1;
        if (crashes > 20) break;
    }
    return 0;
}

// every thread runs every case (own handles), starting at a different case; results must equal
// the sequential run's
static int run_threads(int nt, int rounds)
{
    vector<Case> cs = read_cases();
    vector<vector<string>> res(nt + 1, vector<string>(cs.size()));
    for (size_t i = 0; i < cs.size(); i++) run_case(cs[i], res[0][i], (long)i, nullptr);
    for (int rd = 0; rd < rounds; rd++)
    {
        vector<std::thread> ts;
        // in every other round the threads begin each case together
        std::barrier<> together(nt);
        for (int t = 1; t <= nt; t++)
            ts.emplace_back([&, t, rd] {
                for (size_t k = 0; k < cs.size(); k++)
                {
                    if (rd % 2 == 0) together.arrive_and_wait();
                    // half of the threads walk in the same order, the others are spread out
                    size_t i = (t % 2) ? k : (k + (size_t)(t + rd) * cs.size() / nt) % cs.size();
                    res[t][i].clear();
                    run_case(cs[i], res[t][i], 0, nullptr);
                }
            });
        for (auto &t : ts) t.join();
        for (size_t i = 0; i < cs.size(); i++)
        {
            string o = "{\"op\":\"par\",\"id\":\"" + cs[i].id + "\",\"seq\":[";
            auto arr = [](const string &s) {
                string r;
                std::stringstream ss(s);
                string l;
                bool first = true;
                while (std::getline(ss, l))
                {
                    if (!first) r += ',';
                    first = false;
                    r += l;
                }
                return r;
            };
            o += arr(res[0][i]) + "],\"thr\":[";
            for (int t = 1; t <= nt; t++)
            {
                // identical runs are reported once; a differing one is always reported
                if (t > 1 && res[t][i] == res[1][i]) continue;
                if (t > 1) o += ',';
                o += "[" + arr(res[t][i]) + "]";
            }
            o += "]}\n";
            flush_out(o);
        }
    }
    return 0;
}

// ---------------------------------------------------------------- sweeps
// Cell of a decode row for the bytes p..b after `base` was fed:
//   >= 0 one character, everything consumed; -1 EILSEQ at the start; -2 EINVAL, nothing consumed;
//   -3 anything else, detailed in "x": [b, ret, err, used, output scalars..., flush scalars]
static int g_u4;

struct Row
{
    vector<long> cells;
    string detail;
    vector<int> incomplete;
};

static void scalars(string &o, const unsigned char *p, size_t n)
{
    o += '[';
    for (size_t i = 0; i + 4 <= n; i += 4)
    {
        if (i) o += ',';
        uint32_t w = (uint32_t)p[i] << 24 | p[i + 1] << 16 | p[i + 2] << 8 | p[i + 3];
        put_int(o, (int32_t)w);
    }
    o += ']';
}

static Row dec_row(int idx, int fl, const Bytes &base, const Bytes &pre, const Bytes &post)
{
    Row row;
    Bytes whole = pre;
    whole.push_back(0);
    whole.insert(whole.end(), post.begin(), post.end());
    Exact in(whole);        // no byte behind the input
    size_t insize = whole.size();
    for (int b = 0; b < 256; b++)
    {
        reiconv_t cd = reiconv_open_from_index(idx, g_u4, (enum ConvertFlag)fl);
        char out[256];
        if (!base.empty())
        {
            char *ip = (char *)base.data(), *op = out;
            size_t il = base.size(), ol = sizeof out;
            reiconv_iconv(cd, &ip, &il, &op, &ol);
        }
        in.p[pre.size()] = b;
        char *ip = (char *)in.p, *op = out;
        size_t il = insize, ol = sizeof out;
        errno = 0;
        size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol);
        int e = r == (size_t)-1 ? errno : 0;
        size_t used = ip - (char *)in.p, wrote = op - out;
        char fo[64];
        char *fp = fo;
        size_t fln = sizeof fo;
        size_t fr = reiconv_iconv(cd, nullptr, nullptr, &fp, &fln);
        size_t flen = fp - fo;
        long cell = -3;
        if (fl)
            ;   // every cell in detail
        else if (r == 0 && used == insize && wrote == 4 && flen == 0 && fr == 0)
        {
            const unsigned char *q = (unsigned char *)out;
            cell = (long)((uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3]);
            if (cell > 0x7fffffffL) cell = -3;
        }
        else if (e == EILSEQ && used == 0 && wrote == 0 && flen == 0 && fr == 0)
            cell = -1;
        else if (e == EINVAL && used == 0 && wrote == 0 && flen == 0 && fr == 0)
            cell = -2;
        if (cell == -2) row.incomplete.push_back(b);
        if (cell == -3)
        {
            if (!row.detail.empty()) row.detail += ',';
            row.detail += '[';
            put_int(row.detail, b);
            row.detail += ',';
            put_int(row.detail, sres(r));
            row.detail += ',';
            put_int(row.detail, ecode(e));
            row.detail += ',';
            put_int(row.detail, (long)used);
            row.detail += ',';
            scalars(row.detail, (unsigned char *)out, wrote);
            row.detail += ',';
            scalars(row.detail, (unsigned char *)fo, flen);
            row.detail += ']';
            if (e == EINVAL) row.incomplete.push_back(b);
        }
        row.cells.push_back(cell);
        reiconv_handle_close(cd);
    }
    return row;
}

// digest of a row or page: every observable of every cell, folded (the specification folds its own)
static void fold(long &h, long x)
{
    h = (h * 257 + x + 2) % 8000009;
}
static void fold_bytes(long &h, const unsigned char *p, size_t n)
{
    fold(h, (long)n);
    for (size_t i = 0; i < n; i++) fold(h, p[i]);
}
static void fold_scalars(long &h, const unsigned char *p, size_t n)
{
    fold(h, (long)(n / 4));
    for (size_t i = 0; i + 4 <= n; i += 4)
    {
        fold(h, p[i + 2] << 8 | p[i + 3]);
        fold(h, p[i] << 8 | p[i + 1]);
    }
}
// one text and the reset behind it.  mode 0: one call each; 1: the input comes byte by byte, what is left over goes in
// front of the next byte; 2: the output window grows from nothing until the call gets on, again and again
struct Total
{
    long ret = 0;
    int err = 0;
    size_t used = 0;
    Bytes out, flushed;
};
static void grow(reiconv_t cd, char **ip, size_t *il, Bytes &out, size_t &r, int &e, size_t cap, bool windows)
{
    long sum = 0;
    for (size_t w = windows ? 0 : cap; ; )
    {
        Exact ob(w, 0xAA);
        char *op = (char *)ob.p;
        size_t ol = w, before = ip ? *il : 0;
        errno = 0;
        r = reiconv_iconv(cd, ip, ip ? il : nullptr, &op, &ol);
        e = r == (size_t)-1 ? errno : 0;
        size_t n = op - (char *)ob.p;
        if (n > w || n != w - ol)
        {
            r = 77, e = 77;     // no behaviour of the specification
            return;
        }
        out.insert(out.end(), ob.p, ob.p + n);
        if (e != E2BIG || !windows)
        {
            if (r != (size_t)-1) r += sum;
            return;
        }
        w = n || (ip && *il != before) ? 0 : w + 1;
        if (w > cap) return;
    }
}
static Total total(reiconv_t cd, Exact &in, size_t n, int mode)
{
    Total t;
    size_t r = 0;
    int e = 0;
    if (mode == 1)
    {
        size_t from = 0;
        long sum = 0;
        for (size_t end = 1; end <= n; end++)
        {
            Bytes part(in.p + from, in.p + end);
            Exact x(part);
            char *ip = (char *)x.p;
            size_t il = part.size();
            grow(cd, &ip, &il, t.out, r, e, 256, false);
            from = end - il;
            if (r == (size_t)-1 && e != EINVAL) break;
            if (r != (size_t)-1) sum += (long)r;
        }
        t.used = from;
        if (r != (size_t)-1) r = (size_t)sum;
    }
    else
    {
        char *ip = (char *)in.p;
        size_t il = n;
        grow(cd, &ip, &il, t.out, r, e, 256, mode == 2);
        t.used = n - il;
    }
    t.ret = sres(r);
    t.err = ecode(e);
    grow(cd, nullptr, nullptr, t.flushed, r, e, 64, mode == 2);
    return t;
}
static long dec_digest(int idx, const Bytes &base, const Bytes &pre, int mode)
{
    long h = 7;
    Bytes whole = pre;
    whole.push_back(0);
    Exact in(whole), bs(base);
    for (int b = 0; b < 256; b++)
    {
        reiconv_t cd = reiconv_open_from_index(idx, g_u4, (enum ConvertFlag)0);
        if (!base.empty())
        {
            char *ip = (char *)bs.p;
            size_t il = base.size(), r;
            int e;
            Bytes skip;
            grow(cd, &ip, &il, skip, r, e, 256, false);
        }
        in.p[pre.size()] = b;
        Total t = total(cd, in, whole.size(), mode);
        fold(h, t.ret);
        fold(h, t.err);
        fold(h, (long)t.used);
        fold_scalars(h, t.out.data(), t.out.size());
        fold_scalars(h, t.flushed.data(), t.flushed.size());
        reiconv_handle_close(cd);
    }
    return h;
}
static long enc_digest(int idx, uint32_t page, const Bytes &base, int mode)
{
    long h = 7;
    Exact in(4, 0), bs(base);
    reiconv_t cd = reiconv_open_from_index(g_u4, idx, REICONV_DISCARD_ILSEQ);
    for (int i = 0; i < 256; i++)
    {
        uint32_t wc = page * 256 + i;
        for (int k = 0; k < 4; k++) in.p[k] = (unsigned char)(wc >> (24 - 8 * k));
        if (!base.empty())
        { // what goes before the character
            char *ip = (char *)bs.p;
            size_t il = base.size(), r;
            int e;
            Bytes skip;
            grow(cd, &ip, &il, skip, r, e, 256, false);
        }
        Total t = total(cd, in, 4, mode);
        fold(h, t.ret);
        fold(h, t.err);
        fold(h, (long)t.used);
        fold_bytes(h, t.out.data(), t.out.size());
        fold_bytes(h, t.flushed.data(), t.flushed.size());
        if (t.ret < 0)
        {
            reiconv_handle_close(cd);
            cd = reiconv_open_from_index(g_u4, idx, REICONV_DISCARD_ILSEQ);
        }
    }
    reiconv_handle_close(cd);
    return h;
}

// a row of 256 equal cells is written as a single cell
static void put_row(string &o, const vector<long> &c)
{
    size_t n = c.size();
    bool uni = true;
    for (long v : c) uni = uni && v == c[0];
    if (uni) n = 1;
    o += '[';
    for (size_t i = 0; i < n; i++)
    {
        if (i) o += ',';
        put_int(o, c[i]);
    }
    o += ']';
}

static void emit_row(string &o, int idx, const Bytes &base, const Bytes &pre, const Row &r)
{
    o += "{\"op\":\"dec\"";
    kv(o, "e", idx);
    kb(o, "b", base.data(), base.size());
    kb(o, "p", pre.data(), pre.size());
    o += ",\"row\":";
    put_row(o, r.cells);
    o += ",\"x\":[" + r.detail + "]}\n";
}

static long trie_rows;
static void dec_trie(string &o, int idx, const Bytes &base, Bytes pre, int depth)
{
    // no table has this many incomplete prefixes (EUC-TW: 8900); the row that leads nowhere is recorded by now
    if (++trie_rows > 20000) return;
    Row r = dec_row(idx, 0, base, pre, {});
    emit_row(o, idx, base, pre, r);
    if (o.size() > 1 << 18) flush_out(o);
    if (depth <= 1) return;
    for (int b : r.incomplete)
    {
        pre.push_back(b);
        dec_trie(o, idx, base, pre, depth - 1);
        pre.pop_back();
    }
}

// Encode page: cells as packed ints (stateless encoders): code bytes big-endian for 1..3 bytes,
// -(((b1-128)<<24)|b2<<16|b3<<8|b4) for 4 bytes, -1 unencodable, -3 other (detail in "x").
static bool enc_page(string &o, int idx, int page, bool full)
{
    vector<long> cells(256, -1);
    string x, tight;
    bool any = false;
    reiconv_t cd = reiconv_open_from_index(g_u4, idx, REICONV_DISCARD_ILSEQ);
    for (int i = 0; i < 256; i++)
    {
        uint32_t wc = (uint32_t)page * 256 + i;
        char in[4] = {(char)(wc >> 24), (char)(wc >> 16), (char)(wc >> 8), (char)wc};
        char out[64], *ip = in, *op = out;
        size_t il = 4, ol = sizeof out;
        errno = 0;
        size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol);
        int e = r == (size_t)-1 ? errno : 0;
        size_t wrote = op - out;
        char fo[64], *fp = fo;
        size_t fln = sizeof fo;
        size_t fr = reiconv_iconv(cd, nullptr, nullptr, &fp, &fln);
        size_t flen = fp - fo;
        const unsigned char *q = (unsigned char *)out;
        long cell = -3;
        bool dropped = r == 1 && il == 0 && wrote == 0 && flen == 0 && fr == 0;
        bool tag = r == 0 && il == 0 && wrote == 0 && flen == 0 && fr == 0 && (wc >> 7) == (0xe0000 >> 7);
        if (dropped)
            cell = -1;
        else if (tag)
            cell = -4;
        else if (!full && r == 0 && il == 0 && wrote >= 1 && wrote <= 4 && flen == 0 && fr == 0)
        {
            if (wrote == 1) cell = q[0];
            else if (wrote == 2 && q[0]) cell = q[0] << 8 | q[1];
            else if (wrote == 3 && q[0]) cell = (long)q[0] << 16 | q[1] << 8 | q[2];
            else if (wrote == 4 && q[0] >= 128)
                cell = -(((long)(q[0] - 128) << 24) | (long)q[1] << 16 | q[2] << 8 | q[3]);
        }
        // the same character with less room than it needs: must be refused without effect
        if (cell != -1 && cell != -4)
            for (size_t cap = 0; cap < wrote && r == 0; cap++)
            {
                reiconv_iconv(cd, nullptr, nullptr, nullptr, nullptr);
                Exact ob(cap, 0xAA);
                char *ip2 = in, *op2 = (char *)ob.p;
                size_t il2 = 4, ol2 = cap;
                errno = 0;
                size_t r2 = reiconv_iconv(cd, &ip2, &il2, &op2, &ol2);
                int e2 = r2 == (size_t)-1 ? errno : 0;
                bool dirty = false;
                for (size_t k = 0; k < cap; k++) dirty = dirty || ob.p[k] != 0xAA;
                if (e2 != E2BIG || il2 != 4 || ol2 != cap || op2 != (char *)ob.p)
                {
                    if (!tight.empty()) tight += ',';
                    tight += "[" + std::to_string(i) + "," + std::to_string(cap) + "," + std::to_string(sres(r2)) + "," +
                             std::to_string(ecode(e2)) + "," + std::to_string(4 - (long)il2) + "," +
                             std::to_string(cap - ol2) + "]";
                }
                reiconv_iconv(cd, nullptr, nullptr, nullptr, nullptr);
            }
        if (cell != -1 && cell != -4) any = true;
        if ((cell == -4) != ((wc >> 7) == (0xe0000 >> 7)) && cell == -4) any = true;
        if (cell == -3)
        {
            if (!x.empty()) x += ',';
            x += '[';
            put_int(x, i);
            x += ',';
            put_int(x, sres(r));
            x += ',';
            put_int(x, ecode(e));
            x += ',';
            put_int(x, (long)(4 - il));
            x += ',';
            put_bytes(x, q, wrote);
            x += ',';
            put_bytes(x, (unsigned char *)fo, flen);
            x += ']';
        }
        cells[i] = cell;
        if (r == (size_t)-1)
        { // do not let one failure influence the next cell
            reiconv_handle_close(cd);
            cd = reiconv_open_from_index(g_u4, idx, REICONV_DISCARD_ILSEQ);
        }
    }
    reiconv_handle_close(cd);
    if (page == 0xe00) // tags must be dropped silently unless encodable: always reported
        any = true;
    if (!any) return false;
    o += "{\"op\":\"enc\"";
    kv(o, "e", idx);
    kv(o, "pg", page);
    o += ",\"row\":";
    put_row(o, cells);
    o += ",\"x\":[" + x + "],\"t\":[" + tight + "]}\n";
    if (o.size() > 1 << 18) flush_out(o);
    return true;
}

// Substitution classes of a page on a handle without discarding, from UCS-4BE:
//   0 converted, return 0   1 return 1, output == encoding of U+FFFD   2 EILSEQ, nothing used or written
//   3 vanished, return 0    9 anything else
static vector<long> sub_page(int idx, int page, const Bytes &fffd)
{
    vector<long> cells;
    reiconv_t cd = reiconv_open_from_index(g_u4, idx, (enum ConvertFlag)0);
    for (int i = 0; i < 256; i++)
    {
        uint32_t wc = (uint32_t)page * 256 + i;
        char in[4] = {(char)(wc >> 24), (char)(wc >> 16), (char)(wc >> 8), (char)wc};
        char out[96], *ip = in, *op = out;
        size_t il = 4, ol = sizeof out;
        errno = 0;
        size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol);
        int e = r == (size_t)-1 ? errno : 0;
        size_t before = op - out;
        size_t fr = e ? 0 : reiconv_iconv(cd, nullptr, nullptr, &op, &ol);
        size_t wrote = op - out;
        long cell = 9;
        if (r == 0 && il == 0 && wrote > 0 && fr == 0) cell = 0;
        else if (r == 1 && il == 0 && wrote > 0 && fr == 0 && Bytes(out, out + wrote) == fffd) cell = 1;
        else if (e == EILSEQ && il == 4 && before == 0) cell = 2;
        else if (r == 0 && il == 0 && wrote == 0 && fr == 0) cell = 3;
        cells.push_back(cell);
        if (e) reiconv_iconv(cd, nullptr, nullptr, nullptr, nullptr);
    }
    reiconv_handle_close(cd);
    return cells;
}

static bool one_shot(int from, int to, const Bytes &in, Bytes &out, long &ret, int &err)
{
    reiconv_t cd = reiconv_open_from_index(from, to, (enum ConvertFlag)0);
    out.assign(in.size() * 8 + 64, 0);
    char *ip = (char *)in.data(), *op = (char *)out.data();
    size_t il = in.size(), ol = out.size();
    errno = 0;
    size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol);
    err = r == (size_t)-1 ? ecode(errno) : 0;
    ret = sres(r);
    if (err == 0)
    {
        errno = 0;
        size_t f = reiconv_iconv(cd, nullptr, nullptr, &op, &ol);
        if (f == (size_t)-1) err = ecode(errno), ret = -1;
        else ret += (long)f;
    }
    out.resize(op - (char *)out.data());
    reiconv_handle_close(cd);
    return err == 0;
}

// A long text is a unit repeated.  o1, o2: what the first and the second unit give; tail: what the reset
// adds.  Each way of converting the whole is recorded as [ret, err, length, right], right telling whether
// the bytes are o1, then o2 for every further unit, then tail (2: there are no bytes to look at).
static void long_text(string &o, int from, int to, int fl, const Bytes &unit, long reps)
{
    Bytes in, o1, o2, tail;
    for (long k = 0; k < reps; k++) in.insert(in.end(), unit.begin(), unit.end());
    size_t room = in.size() * 16 + 4096;
    auto open = [&] { return reiconv_open_from_index(from, to, (enum ConvertFlag)fl); };
    {
        reiconv_t cd = open();
        Bytes buf(unit.size() * 32 + 64);
        for (int k = 0; k < 2; k++)
        {
            char *ip = (char *)unit.data(), *op = (char *)buf.data();
            size_t il = unit.size(), ol = buf.size();
            reiconv_iconv(cd, &ip, &il, &op, &ol);
            (k ? o2 : o1).assign((char *)buf.data(), op);
        }
        char *op = (char *)buf.data();
        size_t ol = buf.size();
        reiconv_iconv(cd, nullptr, nullptr, &op, &ol);
        tail.assign((char *)buf.data(), op);
        reiconv_handle_close(cd);
    }
    Bytes want = o1;
    for (long k = 1; k < reps; k++) want.insert(want.end(), o2.begin(), o2.end());
    want.insert(want.end(), tail.begin(), tail.end());
    string runs;
    auto note = [&](long long ret, int err, long long len, int right) {
        if (!runs.empty()) runs += ',';
        runs += "[" + std::to_string(ret) + "," + std::to_string(err) + "," + std::to_string(len) + "," + std::to_string(right) + "]";
    };
    auto right = [&](const unsigned char *p, size_t n) { return n == want.size() && (n == 0 || memcmp(p, want.data(), n) == 0); };
    for (int way = 0; way < 2; way++)
    { // streamed: in one call, and in pieces through small windows
        reiconv_t cd = open();
        Exact out(room, 0xAA);
        size_t done = 0, pos = 0, fed = 0, guard = 0;
        long long sum = 0;
        int err = 0;
        while (pos < in.size() && ++guard < in.size() + 1000)
        {
            fed = way == 0 ? in.size() : std::min(in.size(), std::max(fed, pos) + (fed <= pos || err == EINVAL ? 4093 : 0));
            size_t win = way == 0 ? room : std::min<size_t>(room - done, 1009);
            char *ip = (char *)in.data() + pos, *op = (char *)out.p + done;
            size_t il = fed - pos, ol = win;
            errno = 0;
            size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol);
            err = r == (size_t)-1 ? errno : 0;
            if (err == 0) sum += (long long)r;
            pos = ip - (char *)in.data();
            done = op - (char *)out.p;
            if (err && way == 0) break;
            if (err && err != E2BIG && !(err == EINVAL && fed < in.size())) break;
            if (pos > in.size() || done > room) break;
        }
        if (pos == in.size() && done <= room)
        {
            char *op = (char *)out.p + done;
            size_t ol = room - done;
            errno = 0;
            size_t r = reiconv_iconv(cd, nullptr, nullptr, &op, &ol);
            err = r == (size_t)-1 ? errno : 0;
            if (!err) sum += (long long)r;
            done = op - (char *)out.p;
        }
        note(way == 1 ? (err ? -1 : 0) : err ? -1 : sum, ecode(err), done, done <= room && right(out.p, done));
        reiconv_handle_close(cd);
    }
    {
        reiconv_t cd = open();
        errno = 0;
        size_t r = reiconv_result_size(cd, (char *)in.data(), in.size());
        note(r == (size_t)-1 ? -1 : 0, r == (size_t)-1 ? ecode(errno) : 0, sres(r), 2);
        reiconv_handle_close(cd);
    }
    for (int d = 0; d >= -1; d--)
    {
        if (want.size() + d > room) continue;
        reiconv_t cd = open();
        Exact out(want.size() + d, 0xAA);
        errno = 0;
        int r = reiconv_convert_static_size(cd, (char *)in.data(), in.size(), (char *)out.p, out.n);
        note(r, r ? ecode(errno) : 0, out.n, d ? 2 : right(out.p, out.n));
        reiconv_handle_close(cd);
    }
    {
        reiconv_t cd = open();
        char *out = nullptr;
        size_t len = 0;
        errno = 0;
        int r = reiconv_convert(cd, (char *)in.data(), in.size(), &out, &len);
        note(r, r ? ecode(errno) : 0, r ? 0 : (long long)len, r == 0 && right((unsigned char *)out, len));
        free(out);
        reiconv_handle_close(cd);
    }
    try
    {
        string s = reiconv::convert((reiconv::encoding::Encodings)from, (reiconv::encoding::Encodings)to,
                                    std::string_view((char *)in.data(), in.size()), (reiconv::ConvertFlag)fl);
        note(0, 0, s.size(), right((unsigned char *)s.data(), s.size()));
    }
    catch (const std::system_error &x)
    {
        note(-1, ecode(x.code().value()), 0, 0);
    }
    catch (...)
    {
        note(-1, 9, 0, 0);
    }
    o += "{\"op\":\"long\"";
    kv(o, "from", from);
    kv(o, "to", to);
    kv(o, "fl", fl);
    kb(o, "unit", unit.data(), unit.size());
    kv(o, "reps", reps);
    kb(o, "o1", o1.data(), o1.size());
    kb(o, "o2", o2.data(), o2.size());
    kb(o, "tail", tail.data(), tail.size());
    o += ",\"runs\":[" + runs + "]}\n";
}

// sweep commands, one per line on stdin:
//   Q idx lo hi            substitution classes, as runs of pages
//   B idx lo hi step       encode and decode back every character, reporting what did not come back
//   T idx depth            whole decode trie from the initial state
//   W idx basehex prehex depth   (sub)trie after feeding base
//   Y idx basehex prehex posthex   one row after base on a discarding handle, posthex behind each byte
//   H from to fl unithex reps   a long text: the unit repeated, through every way of converting
//   E idx lo hi step full  encode pages lo..hi (every step-th), then a summary of the pages
//   N ...                  names: trie row of the lookup for prefix (hex)
//   D lo hi                code pages, as runs
//   n, d                   the same through the Encoding class
template <class T> static int class_of1(const T &x)
{
    try
    {
        return (int)reiconv::Encoding(x);
    }
    catch (const std::invalid_argument &)
    {
        return -1;
    }
    catch (...)
    {
        return -2;
    }
}
static int class_of(int cp) { return class_of1(cp); }
// 1: every way opens, 0: every way fails with EINVAL, 2: anything else
static int opens(const vector<std::function<reiconv_t()>> &f)
{
    size_t ok = 0, no = 0;
    for (auto &g : f)
    {
        errno = 0;
        reiconv_t cd = g();
        if (cd == (reiconv_t)(-1))
            no += errno == EINVAL;
        else
        {
            ok += cd != nullptr;
            reiconv_handle_close(cd);
        }
    }
    return ok == f.size() ? 1 : no == f.size() ? 0 : 2;
}
static int class_of(const char *name)
{
    int a = class_of1(name), b = class_of1(string(name));
    return a == b ? a : -3;
}
static void sweep_line(const string &line, string &o)
{
    std::stringstream ss(line);
    string c, a, b;
    ss >> c;
    if (c == "T" || c == "W")
    {
        int idx, depth;
        Bytes base, pre;
        ss >> idx;
        if (c == "W")
        {
            ss >> a >> b;
            base = unhex(a);
            pre = unhex(b);
        }
        ss >> depth;
        trie_rows = 0;
        dec_trie(o, idx, base, pre, depth);
    }
    else if (c == "Y")
    { // one row on a discarding handle, each byte followed by the given ones
        int idx;
        string t;
        ss >> idx >> a >> b >> t;
        Bytes base = unhex(a), pre = unhex(b), post = unhex(t);
        Row r = dec_row(idx, REICONV_DISCARD_ILSEQ, base, pre, post);
        o += "{\"op\":\"drop\"";
        kv(o, "e", idx);
        kb(o, "b", base.data(), base.size());
        kb(o, "p", pre.data(), pre.size());
        kb(o, "q", post.data(), post.size());
        o += ",\"x\":[" + r.detail + "]}\n";
    }
    else if (c == "K")
    { // every character through the encoder, 64 at a time, on a discarding handle: how many were taken
        int idx;
        ss >> idx;
        long taken = 0, calls = 0;
        reiconv_t cd = reiconv_open_from_index(g_u4, idx, REICONV_DISCARD_ILSEQ);
        Exact in(256, 0), ob(2048, 0);
        for (uint32_t wc = 0; wc < 0x110400; wc += 64)
        {
            for (uint32_t k = 0; k < 64; k++)
                for (int j = 0; j < 4; j++) in.p[4 * k + j] = (unsigned char)((wc + k) >> (24 - 8 * j));
            char *ip = (char *)in.p, *op = (char *)ob.p;
            size_t il = 256, ol = 2048;
            calls += reiconv_iconv(cd, &ip, &il, &op, &ol) != (size_t)-1;
            taken += (256 - (long)il) / 4;
        }
        reiconv_handle_close(cd);
        o += "{\"op\":\"walk\"";
        kv(o, "e", idx);
        kv(o, "n", taken);
        kv(o, "ok", calls);
        o += "}\n";
    }
    else if (c == "U")
    { // digests of whole encode pages
        int idx;
        long lo, hi, step;
        int mode = 0;
        ss >> idx >> mode >> lo >> hi >> step >> a;
        Bytes base = unhex(a);
        o += "{\"op\":\"encdig\"";
        kv(o, "e", idx);
        kb(o, "b", base.data(), base.size());
        kv(o, "lo", lo);
        kv(o, "step", step);
        o += ",\"d\":[";
        for (long pg = lo; pg <= hi; pg += step)
        {
            if (pg != lo) o += ',';
            put_int(o, enc_digest(idx, (uint32_t)pg, base, mode));
        }
        o += "]}\n";
    }
    else if (c == "u")
    { // digests of decode rows
        int idx, mode = 0;
        string t;
        ss >> idx >> mode >> a;
        Bytes base = unhex(a);
        string ps, ds;
        while (ss >> t)
        {
            Bytes pre = unhex(t);
            ps += (ps.empty() ? "" : ",");
            put_bytes(ps, pre.data(), pre.size());
            ds += (ds.empty() ? "" : ",") + std::to_string(dec_digest(idx, base, pre, mode));
        }
        o += "{\"op\":\"decdig\"";
        kv(o, "e", idx);
        kb(o, "b", base.data(), base.size());
        o += ",\"p\":[" + ps + "],\"d\":[" + ds + "]}\n";
    }
    else if (c == "H")
    {
        int from, to, fl;
        long reps;
        ss >> from >> to >> fl >> a >> reps;
        long_text(o, from, to, fl, unhex(a), reps);
    }
    else if (c == "G")
    { // four-byte codes 81..FE 30..39 81..FE 30..39 by linear index, as runs of consecutive characters
        int idx;
        long lo, hi;
        ss >> idx >> lo >> hi;
        string runs;
        long s = lo, c0 = 0, prev = 0;
        reiconv_t cd = reiconv_open_from_index(idx, g_u4, (enum ConvertFlag)0);
        for (long k = lo; k <= hi + 1; k++)
        {
            long ch = -9;
            if (k <= hi)
            {
                unsigned char in[4] = {(unsigned char)(0x81 + k / 12600), (unsigned char)(0x30 + k / 1260 % 10),
                                       (unsigned char)(0x81 + k / 10 % 126), (unsigned char)(0x30 + k % 10)};
                char out[64], *ip = (char *)in, *op = out;
                size_t il = 4, ol = sizeof out;
                errno = 0;
                size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol);
                const unsigned char *q = (unsigned char *)out;
                if (r == 0 && il == 0 && op - out == 4)
                    ch = (long)((uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3]) & 0x7fffffff;
                else if (r == (size_t)-1 && errno == EILSEQ && il == 4 && op == out)
                    ch = -1;
                else if (r == (size_t)-1 && errno == EINVAL && il == 4 && op == out)
                    ch = -2;
                else
                    ch = -3;
                if (r == (size_t)-1) reiconv_iconv(cd, nullptr, nullptr, nullptr, nullptr);
            }
            bool cont = k > lo && k <= hi && (ch < 0 ? ch == prev : (prev >= 0 && ch == prev + 1));
            if (k == lo) c0 = ch;
            else if (!cont)
            {
                if (!runs.empty()) runs += ',';
                runs += "[" + std::to_string(s) + "," + std::to_string(k - 1) + "," + std::to_string(c0) + "]";
                s = k;
                c0 = ch;
            }
            prev = ch;
        }
        reiconv_handle_close(cd);
        o += "{\"op\":\"four\"";
        kv(o, "e", idx);
        kv(o, "lo", lo);
        kv(o, "hi", hi);
        o += ",\"runs\":[" + runs + "]}\n";
    }
    else if (c == "E")
    {
        int idx, lo, hi, step, full;
        ss >> idx >> lo >> hi >> step >> full;
        string pages;
        long swept = 0;
        for (int p = lo; p <= hi; p += step)
        {
            swept++;
            if (enc_page(o, idx, p, full))
            {
                if (!pages.empty()) pages += ',';
                put_int(pages, p);
            }
        }
        o += "{\"op\":\"encsum\"";
        kv(o, "e", idx);
        kv(o, "lo", lo);
        kv(o, "hi", hi);
        kv(o, "step", step);
        kv(o, "swept", swept);
        o += ",\"pages\":[" + pages + "]}\n";
    }
    else if (c == "Q")
    {
        int idx, lo, hi;
        ss >> idx >> lo >> hi;
        Bytes fffd;
        long ret;
        int err;
        one_shot(g_u4, idx, Bytes{0, 0, 0xff, 0xfd}, fffd, ret, err);
        o += "{\"op\":\"sub\"";
        kv(o, "e", idx);
        kv(o, "lo", lo);
        kv(o, "hi", hi);
        o += ",\"runs\":[";
        vector<long> cur;
        int start = lo;
        for (int p = lo; p <= hi + 1; p++)
        {
            vector<long> row;
            if (p <= hi) row = sub_page(idx, p, fffd);
            if (p > hi || (p > lo && row != cur))
            {
                if (start != lo) o += ',';
                o += "[" + std::to_string(start) + "," + std::to_string(p - 1) + ",";
                put_row(o, cur);
                o += "]";
                start = p;
            }
            cur = row;
        }
        o += "]}\n";
    }
    else if (c == "B")
    {
        int idx, lo, hi, step;
        ss >> idx >> lo >> hi >> step;
        string exc;
        long n = 0;
        for (long pg = lo; pg <= hi; pg += step)
            for (int i = 0; i < 256; i++)
            {
                uint32_t wc = (uint32_t)pg * 256 + i;
                Bytes in{(unsigned char)(wc >> 24), (unsigned char)(wc >> 16), (unsigned char)(wc >> 8),
                         (unsigned char)wc}, mid, back;
                long ret;
                int err;
                if (!one_shot(g_u4, idx, in, mid, ret, err) || ret != 0) continue;
                n++;
                one_shot(idx, g_u4, mid, back, ret, err);
                if (back != in || ret != 0 || err != 0)
                {
                    if (!exc.empty()) exc += ',';
                    exc += "[" + std::to_string(wc) + ",";
                    scalars(exc, back.data(), back.size());
                    exc += "," + std::to_string(ret) + "," + std::to_string(err) + "]";
                }
            }
        o += "{\"op\":\"rtsweep\"";
        kv(o, "e", idx);
        kv(o, "lo", lo);
        kv(o, "hi", hi);
        kv(o, "step", step);
        kv(o, "n", n);
        o += ",\"exc\":[" + exc + "]}\n";
    }
    else if (c == "N" || c == "n")
    {
        ss >> a;
        Bytes p = unhex(a);
        p.push_back(0);
        p.push_back(0);
        o += "{\"op\":\"names\"";
        kb(o, "p", p.data(), p.size() - 2);
        o += ",\"row\":[";
        for (int k = 1; k < 256; k++)
        {
            p[p.size() - 2] = k;
            Exact ne(p);
            if (k > 1) o += ',';
            put_int(o, c == "N" ? reiconv_lookup_from_name((char *)ne.p) : class_of((char *)ne.p));
        }
        o += "]}\n";
    }
    else if (c == "M")
    {
        // which names open: by name and in iconv's way, as the source and as the target
        ss >> a;
        Bytes p = unhex(a);
        p.push_back(0);
        p.push_back(0);
        o += "{\"op\":\"opens\"";
        kb(o, "p", p.data(), p.size() - 2);
        for (int way = 0; way < 2; way++)
        {
            o += way ? ",\"iconv\":[" : ",\"name\":[";
            for (int k = 1; k < 256; k++)
            {
                p[p.size() - 2] = k;
                Exact ne(p);
                const char *nm = (char *)ne.p;
                vector<std::function<reiconv_t()>> f;
                if (way == 0)
                    f = {[&] { return reiconv_open_from_name(nm, "UTF-8", REICONV_NO_FLAGS); },
                         [&] { return reiconv_open_from_name("UTF-8", nm, REICONV_DISCARD_ILSEQ); },
                         [&] { return reiconv_open_from_name(nm, nm, REICONV_NO_FLAGS); }};
                else
                    f = {[&] { return reiconv_open(nm, "UTF-8"); }, [&] { return reiconv_open("UTF-8//IGNORE", nm); },
                         [&] { return (reiconv_t)compat_open(nm, nm); }};
                if (k > 1) o += ',';
                put_int(o, opens(f));
            }
            o += ']';
        }
        o += "}\n";
    }
    else if (c == "D" || c == "d" || c == "m")
    {
        auto openable = [&](int v) {
            return opens({[&] { return reiconv_open_from_codepage(v, 65001, REICONV_NO_FLAGS); },
                          [&] { return reiconv_open_from_codepage(65001, v, REICONV_DISCARD_ILSEQ); },
                          [&] { return reiconv_open_from_codepage(v, v, REICONV_NO_FLAGS); }});
        };
        auto look = [&](long v) { return c == "D" ? reiconv_lookup_from_codepage((int)v) : c == "d" ? class_of((int)v) : openable((int)v); };
        long lo, hi;
        ss >> lo >> hi;
        string runs;
        long s = lo;
        int cur = look(lo);
        for (long v = lo + 1; v <= hi + 1; v++)
        {
            int r = v <= hi ? look(v) : -99;
            if (r != cur || v > hi)
            {
                if (!runs.empty()) runs += ',';
                runs += "[" + std::to_string(s) + "," + std::to_string(v - 1) + "," + std::to_string(cur) + "]";
                s = v;
                cur = r;
            }
        }
        o += string("{\"op\":\"") + (c == "m" ? "opencp" : "codepages") + "\",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"runs\":[" +
             runs + "]}\n";
    }
}

static int run_sweep()
{
    vector<string> lines;
    char *buf = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&buf, &cap, stdin)) > 0)
    {
        while (n && buf[n - 1] == '\n') n--;
        if (n) lines.emplace_back(buf, n);
    }
    free(buf);
    g_u4 = 6; // UCS-4BE
    long next = 0;
    int crashes = 0;
    while (next < (long)lines.size())
    {
        shared->cas = next;
        pid_t pid = fork();
        if (pid == 0)
        {
            string o;
            for (long i = next; i < (long)lines.size(); i++)
            {
                shared->cas = i;
                alarm(100);
                sweep_line(lines[i], o);
                flush_out(o);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        long bad = shared->cas;
        string o = "{\"op\":\"crash\",\"line\":\"" + lines[bad] + "\"";
        kv(o, "sig", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
        o += "}\n";
        flush_out(o);
        next = bad + 1;
        crashes += WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? 15 : 1;
        if (crashes > 20) break;
    }
    return 0;
}

// every published constant: its value in C, in C++, as an Encoding, and whether that equals the Encoding of the name
#define P(n)                                                                                                           \
    template <class E> static int cpp_##n()                                                                            \
    {                                                                                                                  \
        if constexpr (requires { E::n; }) return (int)reiconv::Encoding(E::n);                                         \
        else return -9;                                                                                                \
    }
#include "verif_consts_p.inc"
#undef P
static int run_consts()
{
    static const struct { const char *n; int v; } cpp[] = {
#define P(n) {#n, cpp_##n<reiconv::encoding::Encodings>()},
#include "verif_consts_p.inc"
        {nullptr, 0}};
    for (int i = 0; cpp[i].n; i++)
    {
        string o = "{\"op\":\"const\",\"n\":\"" + string(cpp[i].n) + "\"";
        kv(o, "c", strcmp(cpp[i].n, compat_consts[i].name) ? -8 : compat_consts[i].value);
        kv(o, "p", cpp[i].v);
        // equality of Encoding objects with their neighbours
        reiconv::Encoding x((reiconv::encoding::Encodings)i), y((reiconv::encoding::Encodings)i), z((reiconv::encoding::Encodings)(i + 1));
        kv(o, "eq", (x == y) * 4 + (x == z) * 2 + ((int)x == i));
        o += "}\n";
        flush_out(o);
    }
    // string constructors
    for (string nm : {"UTF-8", "utf_8", "CP949", "iso-2022-jp", "NONESUCH", ""})
    {
        int idx = -1, kind = 0;
        try { idx = reiconv::Encoding(nm); }
        catch (const std::invalid_argument &) { kind = 1; }
        catch (...) { kind = 2; }
        string o = "{\"op\":\"encstr\"";
        kb(o, "name", (const unsigned char *)nm.data(), nm.size());
        kv(o, "kind", kind);
        kv(o, "idx", idx);
        o += "}\n";
        flush_out(o);
    }
    string o = "{\"op\":\"version\"";
    o += ",\"want\":[" + std::to_string(VERSION_MAJOR) + "," + std::to_string(VERSION_MINOR) + "," + std::to_string(VERSION_PATCH) + "]";
    o += ",\"c\":[" + std::to_string(reiconv_version.major) + "," + std::to_string(reiconv_version.minor) + "," + std::to_string(reiconv_version.patch) + "]";
    o += ",\"cpp\":[" + std::to_string(reiconv::version.major) + "," + std::to_string(reiconv::version.minor) + "," + std::to_string(reiconv::version.patch) + "]";
    kv(o, "f0", REICONV_NO_FLAGS);
    kv(o, "f1", REICONV_DISCARD_ILSEQ);
    kv(o, "g0", (int)reiconv::ConvertFlag::NO_FLAGS);
    kv(o, "g1", (int)reiconv::ConvertFlag::DISCARD_ILSEQ);
    o += "}\n";
    flush_out(o);
    return 0;
}

int main(int argc, char **argv)
{
    shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    string mode = argc > 1 ? argv[1] : "";
    if (mode == "script") return run_script();
    if (mode == "threads") return run_threads(atoi(argv[2]), atoi(argv[3]));
    if (mode == "sweep") return run_sweep();
    if (mode == "consts") return run_consts();
    fprintf(stderr, "usage: driver script|threads|sweep\n");
    return 2;
}
