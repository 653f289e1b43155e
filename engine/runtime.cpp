// Symbolic execution runtime. Linked with code instrumented by SxPass.
//
// * Every symbolic scalar is an Expr. REAL mode: a float is a polynomial with
//   rational coefficients over inputs and atoms (1/p, sqrt p, sin, cos, ite),
//   i.e. exact real arithmetic; a dyadic range is tracked per value so that the
//   runtime knows which float operations were exact (bit precise).
//   FP mode: a float is an IEEE-754 term of the SMT FloatingPoint theory.
//   Integers are bit-vectors, i1 are Booleans.
// * A branch on a symbolic condition asks Z3 which sides are feasible and
//   forks the process when both are.
#include "expr.hpp"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <z3++.h>

using namespace sxr;

// ---------------------------------------------------------------- globals
extern "C" {
Expr* __sx_args[96];
Expr* __sx_rets[96];
void* __sx_target;
extern const char* const __sx_fn_names[];
extern const int __sx_fn_count;
}

static int inRuntime = 0;
struct Guard
{
    Guard() { ++inRuntime; }
    ~Guard() { --inRuntime; }
};

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Label
{
    char name[160];
    std::atomic<long> evaluated, folded, discharged, violated, unknown, witness;
};
struct Shared
{
    std::atomic<long> tokens, paths, pathsPruned, queries, qsat, qunsat, qunknown, branches, forks, decidedByModel,
        asserts, exactOps, inexactOps, solverUs, violations, crashes, hangs, stop, truncated, fatal, unknownBranches,
        maxDepth, divForks, uncaught, cacheHits, samples;
    std::atomic<int> lock;
    std::atomic<int> nlabels;
    Label labels[400];
    std::atomic<unsigned char> fn[65536];
};
static Shared* sh;

struct Lock
{
    Lock()
    {
        int e = 0;
        while (!sh->lock.compare_exchange_weak(e, 1))
        {
            e = 0;
            usleep(50);
        }
    }
    ~Lock() { sh->lock = 0; }
};

static bool realMode = true;
enum Enc { ENC_REAL, ENC_INT, ENC_BV };
static Enc enc        = ENC_REAL;
static bool reqExact  = false;
static long rlimit1   = 2000000, rlimit2 = 60000000;
static int tierLevel  = 0;
static long maxForks  = 100000; // symbolic branch decisions per path
static double deadline = 1e18;
static bool splitSelects = false;
static int hangTicks   = 20;
static const char* outDir  = ".";
static const char* hname   = "?";
static bool trace          = false;
static long pathDecisions  = 0;
static int logFd           = 2;
static std::vector<pid_t> kids;

struct Input
{
    std::string name;
    char kind; // 'f' float, 'i' int, 'c' choose, 'd' double
    Expr* e;
    long concrete;
    int scale;
};
static std::vector<Input> inputs;
struct Obs
{
    std::string name;
    Expr* e;
    double concrete;
};
static std::vector<Obs> observed;
static long maxSamples = 12;
static void dumpSample();
static std::vector<Expr*> pc;
static std::unordered_set<Expr*> pcSet;
static std::map<Expr*, Rat> mRat;        // current model: real atoms
static std::map<Expr*, uint64_t> mBits;  // current model: ints / fp inputs

static void logLine(const char* fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    if (write(logFd, buf, n) < 0) {}
}

[[noreturn]] static void endProcess(int code);
[[noreturn]] static void fatal(const char* fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    sh->fatal++;
    logLine("FATAL %s: %s\n", hname, buf);
    if (getenv("SX_ABORT")) abort();
    endProcess(3);
}

// ---------------------------------------------------------------- expressions
bool MonoLess::operator()(const Mono& a, const Mono& b) const
{
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i)
    {
        if (a[i].first->id != b[i].first->id) return a[i].first->id < b[i].first->id;
        if (a[i].second != b[i].second) return a[i].second < b[i].second;
    }
    return a.size() < b.size();
}

static std::vector<Expr*> allExprs;
static std::unordered_map<std::string, Expr*> interned;

static void key(std::string& s, const void* p, size_t n) { s.append((const char*)p, n); }

static Expr* intern(Expr&& t)
{
    std::string s;
    key(s, &t.op, 1);
    key(s, &t.kind, 1);
    key(s, &t.bits, 1);
    key(s, &t.aux, sizeof t.aux);
    key(s, &t.c, sizeof t.c);
    for (auto* k : t.k) key(s, &k->id, 4);
    s += '|';
    if (t.op == VAR) s += t.name;
    for (auto& [m, c] : t.p)
    {
        for (auto& [a, e] : m)
        {
            key(s, &a->id, 4);
            key(s, &e, 4);
        }
        s += ':';
        s += c.str();
        s += ';';
    }
    auto it = interned.find(s);
    if (it != interned.end())
    {
        if (t.r.ok)
        {
            Range& r = it->second->r;
            if (!r.ok) r = t.r;
        }
        return it->second;
    }
    Expr* e = new Expr(std::move(t));
    e->id   = allExprs.size();
    allExprs.push_back(e);
    interned[s] = e;
    return e;
}

static inline uint64_t maskBits(uint64_t v, int b) { return b >= 64 ? v : v & ((1ull << b) - 1); }
static inline int64_t sxt(uint64_t v, int b) { return b >= 64 ? (int64_t)v : (int64_t)(v << (64 - b)) >> (64 - b); }

static Expr* mk(Op op, int kind, int bits, std::vector<Expr*> k = {}, int aux = 0, uint64_t c = 0)
{
    Expr t;
    t.op = op;
    t.kind = kind;
    t.bits = bits;
    t.k = std::move(k);
    t.aux = aux;
    t.c = c;
    return intern(std::move(t));
}
static Expr* mkInt(uint64_t v, int bits) { return mk(CONST, 0, bits, {}, 0, maskBits(v, bits)); }
static Expr* mkBool(bool b) { return mkInt(b, 1); }
static bool isC(Expr* e) { return e->op == CONST; }
static bool isT(Expr* e) { return e->op == CONST && e->c; }
static bool isF(Expr* e) { return e->op == CONST && !e->c; }

// ---- ranges ---------------------------------------------------------
static Int pow2(int n)
{
    Int r = 1;
    r <<= n;
    return r;
}
static Int num(const Rat& r) { return boost::multiprecision::numerator(r); }
static Int den(const Rat& r) { return boost::multiprecision::denominator(r); }
static bool dyadic(const Rat& r, int& scale)
{
    Int d = den(r);
    unsigned l = boost::multiprecision::lsb(d);
    if ((Int(1) << l) != d) return false;
    scale = l;
    return true;
}
static Range rangeOf(const Rat& v)
{
    Range r;
    int s;
    if (!dyadic(v, s)) return r;
    r.ok = true;
    r.scale = s;
    r.lo = r.hi = num(v);
    return r;
}
static void align(Range& a, Range& b)
{
    int s = std::max(a.scale, b.scale);
    a.lo <<= (s - a.scale);
    a.hi <<= (s - a.scale);
    b.lo <<= (s - b.scale);
    b.hi <<= (s - b.scale);
    a.scale = b.scale = s;
}
static Range rAdd(Range a, Range b)
{
    if (!a.ok || !b.ok) return {};
    align(a, b);
    a.lo += b.lo;
    a.hi += b.hi;
    return a;
}
static Range rMul(const Range& a, const Range& b)
{
    if (!a.ok || !b.ok) return {};
    Range r;
    r.ok    = true;
    r.scale = a.scale + b.scale;
    Int v[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
    r.lo = *std::min_element(v, v + 4);
    r.hi = *std::max_element(v, v + 4);
    return r;
}
static Range rNeg(Range a)
{
    std::swap(a.lo, a.hi);
    a.lo = -a.lo;
    a.hi = -a.hi;
    return a;
}
static Range rUnion(Range a, Range b)
{
    if (!a.ok || !b.ok) return {};
    align(a, b);
    if (b.lo < a.lo) a.lo = b.lo;
    if (b.hi > a.hi) a.hi = b.hi;
    return a;
}
static Range opRange(Range r, int bits)
{
    Int lim = pow2(bits == 64 ? 53 : 24);
    if (r.ok && (r.lo < -lim || r.hi > lim)) r.ok = false;
    if (r.ok) sh->exactOps++;
    else
    {
        sh->inexactOps++;
        if (reqExact) fatal("inexact float operation in an exact-lattice harness");
    }
    return r;
}

// ---- polynomials -------------------------------------------------------
static Expr* mkPoly(Poly p, int bits, Range r)
{
    Expr t;
    t.op = POLY;
    t.kind = 1;
    t.bits = bits;
    t.p = std::move(p);
    t.r = r;
    if (t.p.empty()) t.r = rangeOf(Rat(0));
    else if (t.p.size() == 1 && t.p.begin()->first.empty())
        t.r = rangeOf(t.p.begin()->second);
    return intern(std::move(t));
}
static Expr* mkRat(const Rat& v, int bits)
{
    Poly p;
    if (v != 0) p[{}] = v;
    return mkPoly(p, bits, {});
}
static bool polyConst(const Expr* e, Rat* v = nullptr)
{
    if (e->op != POLY) return false;
    if (e->p.empty())
    {
        if (v) *v = 0;
        return true;
    }
    if (e->p.size() == 1 && e->p.begin()->first.empty())
    {
        if (v) *v = e->p.begin()->second;
        return true;
    }
    return false;
}
static Expr* atomPoly(Expr* a)
{
    Poly p;
    p[Mono{{a, 1}}] = 1;
    return mkPoly(p, a->bits, a->r);
}
static void addTo(Poly& p, const Mono& m, const Rat& c)
{
    auto [it, ins] = p.emplace(m, c);
    if (!ins)
    {
        it->second += c;
        if (it->second == 0) p.erase(it);
    }
}
static Poly pAdd(const Poly& a, const Poly& b, int sign = 1)
{
    Poly r = a;
    for (auto& [m, c] : b) addTo(r, m, sign > 0 ? c : Rat(-c));
    return r;
}
static Poly pMul(const Poly& a, const Poly& b);
static Poly pScale(const Poly& a, const Rat& c)
{
    Poly r;
    if (c == 0) return r;
    for (auto& [m, k] : a) r[m] = k * c;
    return r;
}
// product of two monomials, applying the rewriting rules of the atoms:
// sqrt(p)^2 -> p, sin^2 -> 1 - cos^2, a * inv(a) -> 1
static Poly mMul(const Mono& a, const Mono& b)
{
    std::map<uint32_t, std::pair<Expr*, int>> m;
    for (auto& [e, n] : a) m[e->id] = {e, n};
    for (auto& [e, n] : b)
    {
        auto& x = m[e->id];
        x.first = e;
        x.second += n;
    }
    // inv(atom) cancels with the atom
    for (auto& [id, en] : m)
    {
        Expr* e = en.first;
        if (e->op == INV && e->k[0]->p.size() == 1)
        {
            auto& [mono, c] = *e->k[0]->p.begin();
            if (c == 1 && mono.size() == 1 && mono[0].second == 1)
            {
                auto it = m.find(mono[0].first->id);
                if (it != m.end())
                {
                    int k = std::min(it->second.second, en.second);
                    it->second.second -= k;
                    en.second -= k;
                }
            }
        }
    }
    Poly extra;
    extra[{}] = 1;
    bool hasExtra = false;
    Mono out;
    for (auto& [id, en] : m)
    {
        auto [e, n] = en;
        if (n == 0) continue;
        if (e->op == SQRT && n >= 2)
        {
            for (int i = 0; i < n / 2; ++i) extra = pMul(extra, e->k[0]->p);
            hasExtra = true;
            n %= 2;
        }
        else if (e->op == SIN && n >= 2)
        {
            // sin^2 = 1 - cos^2
            Expr* c = mk(COS, 1, e->bits, {e->k[0]});
            Poly q;
            q[{}]           = 1;
            q[Mono{{c, 2}}] = -1;
            for (int i = 0; i < n / 2; ++i) extra = pMul(extra, q);
            hasExtra = true;
            n %= 2;
        }
        if (n) out.push_back({e, n});
    }
    std::sort(out.begin(), out.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
    if (!hasExtra)
    {
        Poly r;
        r[out] = 1;
        return r;
    }
    Poly r;
    r[out] = 1;
    return pMul(r, extra);
}
static Poly pMul(const Poly& a, const Poly& b)
{
    Poly r;
    if (a.size() * b.size() > 20000) fatal("polynomial blow-up (%zu x %zu terms)", a.size(), b.size());
    for (auto& [ma, ca] : a)
        for (auto& [mb, cb] : b)
        {
            if (ma.empty())
                addTo(r, mb, ca * cb);
            else if (mb.empty())
                addTo(r, ma, ca * cb);
            else
                for (auto& [m, c] : mMul(ma, mb)) addTo(r, m, c * ca * cb);
        }
    return r;
}

// ---- concrete leafs --------------------------------------------------
static double bitsToD(uint64_t c, int bits)
{
    if (bits == 32)
    {
        float f;
        uint32_t u = c;
        memcpy(&f, &u, 4);
        return f;
    }
    double d;
    memcpy(&d, &c, 8);
    return d;
}
static uint64_t dToBits(double d, int bits)
{
    if (bits == 32)
    {
        float f = (float)d;
        uint32_t u;
        memcpy(&u, &f, 4);
        return u;
    }
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
}
static Rat ratOfDouble(double d)
{
    int e;
    double m = frexp(d, &e);
    Int n    = (long long)ldexp(m, 53);
    e -= 53;
    if (e >= 0) return Rat(n * pow2(e));
    return Rat(n, pow2(-e));
}
static Expr* mkFloat(uint64_t c, int bits)
{
    if (!realMode) return mk(SPECIAL, 1, bits, {}, 0, c);
    double d = bitsToD(c, bits);
    if (std::isfinite(d)) return mkRat(ratOfDouble(d), bits);
    if (std::isnan(d)) c = dToBits(NAN, bits);
    return mk(SPECIAL, 1, bits, {}, 0, c);
}
static Expr* lift(Expr* s, int ty, uint64_t c)
{
    if (s) return s;
    int bits = ty & 255;
    if (ty >> 8) return mkFloat(c, bits);
    return mkInt(c, bits);
}

// ---- Booleans -----------------------------------------------------------
static Expr* bNot(Expr* a)
{
    if (isC(a)) return mkBool(!a->c);
    if (a->op == NOT) return a->k[0];
    return mk(NOT, 0, 1, {a});
}
static Expr* bAnd(Expr* a, Expr* b)
{
    if (isF(a) || isF(b)) return mkBool(false);
    if (isT(a)) return b;
    if (isT(b) || a == b) return a;
    if (bNot(a) == b) return mkBool(false);
    if (a->id > b->id) std::swap(a, b);
    return mk(AND, 0, 1, {a, b});
}
static Expr* bOr(Expr* a, Expr* b)
{
    if (isT(a) || isT(b)) return mkBool(true);
    if (isF(a)) return b;
    if (isF(b) || a == b) return a;
    if (bNot(a) == b) return mkBool(true);
    if (a->id > b->id) std::swap(a, b);
    return mk(OR, 0, 1, {a, b});
}
static Expr* bXor(Expr* a, Expr* b)
{
    if (isF(a)) return b;
    if (isF(b)) return a;
    if (isT(a)) return bNot(b);
    if (isT(b)) return bNot(a);
    if (a == b) return mkBool(false);
    if (a->id > b->id) std::swap(a, b);
    return mk(XOR, 0, 1, {a, b});
}

// ---- REAL comparisons ----------------------------------------------------
// sign of p decided from ranges: returns -2 if unknown
static bool boundsOf(const Poly& p, Rat& lo, Rat& hi);
static Expr* mkRel(Op op, Poly p)
{
    // normalise: content / sign
    if (p.empty()) return mkBool(op != LT0);
    if (p.size() == 1 && p.begin()->first.empty())
    {
        const Rat& c = p.begin()->second;
        return mkBool(op == LT0 ? c < 0 : op == LE0 ? c <= 0 : c == 0);
    }
    Rat lead = p.rbegin()->second;
    if (p.begin()->first.empty() && p.size() > 1) lead = p.rbegin()->second;
    Rat s = lead;
    if (op != EQ0 && s < 0) s = -s;
    if (s != 1) p = pScale(p, Rat(1) / s);
    Rat lo, hi;
    if (boundsOf(p, lo, hi))
    {
        if (op == LT0)
        {
            if (hi < 0) return mkBool(true);
            if (lo >= 0) return mkBool(false);
        }
        else if (op == LE0)
        {
            if (hi <= 0) return mkBool(true);
            if (lo > 0) return mkBool(false);
        }
        else if (lo > 0 || hi < 0)
            return mkBool(false);
    }
    // p < 0  ==  not (-p <= 0): keep a single form: leading coefficient positive
    if (op == LT0 || op == LE0)
    {
        if (p.rbegin()->second < 0)
        {
            Poly q = pScale(p, Rat(-1));
            // p < 0 <=> -q < 0 <=> not (q <= 0)
            Expr* e = mk(CONST, 0, 1);
            Expr t;
            t.op = op == LT0 ? LE0 : LT0;
            t.kind = 0;
            t.bits = 1;
            t.k = {mkPoly(q, 32, {})};
            (void)e;
            return bNot(intern(std::move(t)));
        }
    }
    return mk(op, 0, 1, {mkPoly(p, 32, {})});
}
static bool atomBounds(Expr* a, Rat& lo, Rat& hi)
{
    if (a->op == VAR && a->bounded)
    {
        lo = a->lo;
        hi = a->hi;
        return true;
    }
    if (a->r.ok)
    {
        lo = Rat(a->r.lo, pow2(a->r.scale));
        hi = Rat(a->r.hi, pow2(a->r.scale));
        return true;
    }
    if (a->op == SIN || a->op == COS)
    {
        lo = -1;
        hi = 1;
        return true;
    }
    return false;
}
static bool boundsOf(const Poly& p, Rat& lo, Rat& hi)
{
    lo = hi = 0;
    for (auto& [m, c] : p)
    {
        Rat l = 1, h = 1;
        for (auto& [a, n] : m)
        {
            Rat al, ah;
            if (!atomBounds(a, al, ah)) return false;
            if (n % 2 == 0 && al < 0)
            {
                Rat mx = std::max(Rat(-al), ah);
                Rat mn = ah < 0 ? Rat(-ah) : Rat(0);
                Rat pl = 1, ph = 1;
                for (int i = 0; i < n; ++i) pl *= mn, ph *= mx;
                al = pl;
                ah = ph;
            }
            else if (n > 1)
            {
                Rat bl = al, bh = ah;
                for (int i = 1; i < n; ++i)
                {
                    Rat v[4] = {al * bl, al * bh, ah * bl, ah * bh};
                    al = *std::min_element(v, v + 4);
                    ah = *std::max_element(v, v + 4);
                }
            }
            Rat v[4] = {l * al, l * ah, h * al, h * ah};
            l = *std::min_element(v, v + 4);
            h = *std::max_element(v, v + 4);
        }
        if (c > 0)
        {
            lo += c * l;
            hi += c * h;
        }
        else
        {
            lo += c * h;
            hi += c * l;
        }
    }
    return true;
}
static Expr* lt(Expr* a, Expr* b) { return mkRel(LT0, pAdd(a->p, b->p, -1)); }
static Expr* le(Expr* a, Expr* b) { return mkRel(LE0, pAdd(a->p, b->p, -1)); }
static Expr* eq(Expr* a, Expr* b) { return mkRel(EQ0, pAdd(a->p, b->p, -1)); }

static bool decide(Expr* e, int line = 0);

// ---- select -----------------------------------------------------------------
static Expr* ite(Expr* c, Expr* a, Expr* b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->kind == 0 && a->bits == 1)
    {
        if (isC(a)) return a->c ? bOr(c, b) : bAnd(bNot(c), b);
        if (isC(b)) return b->c ? bOr(bNot(c), a) : bAnd(c, a);
        return mk(ITE, 0, 1, {c, a, b});
    }
    if (a->kind == 1 && realMode)
    {
        if (a->op == SPECIAL || b->op == SPECIAL)
            return decide(c) ? a : b;
        if (c->op == NOT) return ite(c->k[0], b, a);
        // hoist a common difference: ite(c, a, b)
        Expr t;
        t.op = ITE;
        t.kind = 1;
        t.bits = a->bits;
        t.k = {c, a, b};
        t.r = rUnion(a->r, b->r);
        return atomPoly(intern(std::move(t)));
    }
    if (c->op == NOT) return ite(c->k[0], b, a);
    return mk(ITE, a->kind, a->bits, {c, a, b});
}

// ---- REAL arithmetic ----------------------------------------------------------
static Expr* special(double d, int bits) { return mk(SPECIAL, 1, bits, {}, 0, dToBits(d, bits)); }
static double sv(Expr* e) { return bitsToD(e->c, e->bits); }
static Expr* rneg(Expr* a)
{
    if (a->op == SPECIAL) return special(-sv(a), a->bits);
    return mkPoly(pScale(a->p, -1), a->bits, rNeg(a->r));
}
static Expr* fromD(double d, int bits) { return std::isfinite(d) ? mkRat(ratOfDouble(d), bits) : special(d, bits); }
static Expr* radd(Expr* a, Expr* b, int sign)
{
    if (a->op == SPECIAL || b->op == SPECIAL)
    {
        double x = a->op == SPECIAL ? sv(a) : 0, y = b->op == SPECIAL ? sv(b) : 0;
        return fromD(sign > 0 ? x + y : x - y, a->bits);
    }
    if (b->p.empty()) return a;
    Range r = rAdd(a->r, sign > 0 ? b->r : rNeg(b->r));
    Poly p  = pAdd(a->p, b->p, sign);
    Rat lo, hi;
    return mkPoly(std::move(p), a->bits, opRange(r, a->bits));
}
static double signForSpecial(Expr* a)
{
    if (a->op == SPECIAL) return sv(a);
    if (decide(mkRel(EQ0, a->p))) return 0;
    return decide(mkRel(LT0, a->p)) ? -1 : 1;
}
static Expr* rmul(Expr* a, Expr* b)
{
    if (a->op == SPECIAL || b->op == SPECIAL) return fromD(signForSpecial(a) * signForSpecial(b), a->bits);
    if (a->p.empty() || b->p.empty()) return mkRat(0, a->bits);
    Rat c;
    if (polyConst(a, &c) && c == 1) return b;
    if (polyConst(b, &c) && c == 1) return a;
    return mkPoly(pMul(a->p, b->p), a->bits, opRange(rMul(a->r, b->r), a->bits));
}
static Poly invPoly(const Poly& p, int bits)
{
    // single monomial: product of inverses of its atoms
    Poly r;
    if (p.size() == 1)
    {
        auto& [m, c] = *p.begin();
        r[{}]        = Rat(1) / c;
        for (auto& [a, n] : m)
        {
            Poly q;
            if (a->op == INV)
                q = a->k[0]->p;
            else if (a->op == SQRT)
            {
                // 1/sqrt(p) = sqrt(p) * inv(p)
                Poly ip = invPoly(a->k[0]->p, bits);
                Poly s;
                s[Mono{{a, 1}}] = 1;
                q = pMul(s, ip);
            }
            else
            {
                Poly ap;
                ap[Mono{{a, 1}}] = 1;
                Expr* iv = mk(INV, 1, bits, {mkPoly(ap, bits, a->r)});
                q[Mono{{iv, 1}}] = 1;
            }
            for (int i = 0; i < n; ++i) r = pMul(r, q);
        }
        return r;
    }
    // if the denominator contains inverses, multiply them out: 1/(a + b*inv(d)) = d/(a d + b)
    for (auto& [m, c] : p)
        for (auto& [a, n] : m)
            if (a->op == INV)
            {
                Poly num = a->k[0]->p;
                Poly np;
                for (auto& [m2, c2] : p)
                {
                    Mono rest;
                    int k = 0;
                    for (auto& [x, e] : m2)
                        if (x == a)
                            k = e;
                        else
                            rest.push_back({x, e});
                    if (k)
                    {
                        if (k > 1) rest.push_back({a, k - 1});
                        std::sort(rest.begin(), rest.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
                        addTo(np, rest, c2);
                    }
                    else
                    {
                        Poly t;
                        t[rest] = c2;
                        for (auto& [m3, c3] : pMul(t, num)) addTo(np, m3, c3);
                    }
                }
                return pMul(num, invPoly(np, bits));
            }
    Rat lead  = p.rbegin()->second;
    Expr* iv  = mk(INV, 1, bits, {mkPoly(pScale(p, Rat(1) / lead), bits, {})});
    r[Mono{{iv, 1}}] = Rat(1) / lead;
    return r;
}
static Expr* rdiv(Expr* a, Expr* b)
{
    if (a->op == SPECIAL || b->op == SPECIAL)
    {
        double x = signForSpecial(a), y = signForSpecial(b);
        if (b->op == SPECIAL && a->op != SPECIAL) return fromD(x / y, a->bits);
        return fromD(x / (y == 0 ? 0.0 : y), a->bits);
    }
    Rat c;
    if (polyConst(b, &c) && c != 0)
    {
        Rat i = Rat(1) / c;
        return mkPoly(pScale(a->p, i), a->bits, opRange(rMul(a->r, rangeOf(i)), a->bits));
    }
    if (b->p.empty() || decide(mkRel(EQ0, b->p)))
    {
        sh->divForks++;
        if (a->p.empty() || decide(mkRel(EQ0, a->p))) return special(NAN, a->bits);
        return special(decide(mkRel(LT0, a->p)) ? -INFINITY : INFINITY, a->bits);
    }
    if (a->p.empty()) return a;
    Poly q = pMul(a->p, invPoly(b->p, a->bits));
    return mkPoly(std::move(q), a->bits, opRange({}, a->bits));
}
static bool ratSqrt(const Rat& v, Rat& out)
{
    if (v < 0) return false;
    Int n = num(v), d = den(v);
    Int sn = boost::multiprecision::sqrt(n), sd = boost::multiprecision::sqrt(d);
    if (sn * sn == n && sd * sd == d)
    {
        out = Rat(sn, sd);
        return true;
    }
    return false;
}
static Expr* rsqrt_(Expr* a)
{
    if (a->op == SPECIAL) return fromD(std::sqrt(sv(a)), a->bits);
    Rat c, s;
    if (polyConst(a, &c))
    {
        if (c < 0) return special(NAN, a->bits);
        if (ratSqrt(c, s)) return mkRat(s, a->bits);
    }
    else if (decide(mkRel(LT0, a->p)))
        return special(NAN, a->bits);
    // sqrt(m^2 * c) with a monomial square is |m| * sqrt(c)
    return mkPoly(atomPoly(mk(SQRT, 1, a->bits, {a}))->p, a->bits, opRange({}, a->bits));
}
static Expr* rabs(Expr* a)
{
    if (a->op == SPECIAL) return special(std::fabs(sv(a)), a->bits);
    Rat c;
    if (polyConst(a, &c)) return mkRat(c < 0 ? Rat(-c) : c, a->bits);
    Expr* neg = mkRel(LT0, a->p);
    Expr* r   = ite(neg, rneg(a), a);
    if (r->op == POLY && a->r.ok)
    {
        // tighter range for the absolute value
        Range q = a->r;
        Int m   = std::max(Int(-q.lo), q.hi);
        Int l   = q.lo > 0 ? q.lo : (q.hi < 0 ? Int(-q.hi) : Int(0));
        q.lo = l;
        q.hi = m;
        r->r = q;
        if (r->p.size() == 1)
        {
            auto& mono = r->p.begin()->first;
            if (mono.size() == 1 && mono[0].second == 1 && mono[0].first->op == ITE && r->p.begin()->second == 1)
                mono[0].first->r = q;
        }
    }
    return r;
}
// sin/cos of a sum of monomials, expanded so that the angle addition laws hold
static void sincos(const Poly& arg, int bits, Poly& s, Poly& c)
{
    s.clear();
    c.clear();
    c[{}] = 1;
    for (auto& [m, k] : arg)
    {
        Rat q    = k;
        bool neg = q < 0;
        if (neg) q = -q;
        int reps = 1;
        if (den(q) == 1 && q <= 4 && !m.empty())
        {
            reps = (int)num(q);
            q    = 1;
        }
        Poly one;
        one[m]  = q;
        Expr* a = mkPoly(one, bits, {});
        Poly s1, c1;
        s1[Mono{{mk(SIN, 1, bits, {a}), 1}}] = neg ? -1 : 1;
        c1[Mono{{mk(COS, 1, bits, {a}), 1}}] = 1;
        for (int i = 0; i < reps; ++i)
        {
            Poly ns = pAdd(pMul(s, c1), pMul(c, s1));
            Poly nc = pAdd(pMul(c, c1), pMul(s, s1), -1);
            s = ns;
            c = nc;
        }
    }
}

static Expr* fpbin(int opc, Expr* a, Expr* b);
enum { OFAdd = 14, OFSub = 16, OFMul = 18, OFDiv = 21, OFRem = 24, OAdd = 13, OSub = 15, OMul = 17, OUDiv = 19,
       OSDiv = 20, OURem = 22, OSRem = 23, OShl = 25, OLShr = 26, OAShr = 27, OAnd = 28, OOr = 29, OXor = 30,
       OFNeg = 12 };
enum { CTrunc = 38, CZExt = 39, CSExt = 40, CFPToUI = 41, CFPToSI = 42, CUIToFP = 43, CSIToFP = 44, CFPTrunc = 45,
       CFPExt = 46, CPtrToInt = 47, CIntToPtr = 48, CBitCast = 49 };

static double hostBin(int opc, double a, double b, int bits)
{
    if (bits == 32)
    {
        float x = a, y = b;
        switch (opc)
        {
        case OFAdd: return x + y;
        case OFSub: return x - y;
        case OFMul: return x * y;
        case OFDiv: return x / y;
        case OFRem: return fmodf(x, y);
        }
    }
    switch (opc)
    {
    case OFAdd: return a + b;
    case OFSub: return a - b;
    case OFMul: return a * b;
    case OFDiv: return a / b;
    case OFRem: return fmod(a, b);
    }
    return 0;
}
static uint64_t hostBv(int opc, uint64_t a, uint64_t b, int n, bool& ok)
{
    ok = true;
    int64_t sa = sxt(a, n), sb = sxt(b, n);
    switch (opc)
    {
    case OAdd: return maskBits(a + b, n);
    case OSub: return maskBits(a - b, n);
    case OMul: return maskBits(a * b, n);
    case OAnd: return a & b;
    case OOr: return a | b;
    case OXor: return a ^ b;
    case OShl: return b >= (unsigned)n ? 0 : maskBits(a << b, n);
    case OLShr: return b >= (unsigned)n ? 0 : a >> b;
    case OAShr: return maskBits((uint64_t)(sa >> std::min<uint64_t>(b, n - 1)), n);
    case OUDiv: if (b) return a / b; break;
    case OURem: if (b) return a % b; break;
    case OSDiv: if (b && !(sb == -1)) return maskBits(sa / sb, n); if (sb == -1) return maskBits(-a, n); break;
    case OSRem: if (b && sb != -1) return maskBits(sa % sb, n); if (sb == -1) return 0; break;
    }
    ok = false;
    return 0;
}
static Expr* extractBits(Expr* e, int lo, int n);
static Expr* bvbin(int opc, Expr* a, Expr* b)
{
    int n = a->bits;
    if (isC(a) && isC(b))
    {
        bool ok;
        uint64_t v = hostBv(opc, a->c, b->c, n, ok);
        if (ok) return mkInt(v, n);
        fatal("division by zero on integers");
    }
    if (n == 1)
    {
        switch (opc)
        {
        case OAnd:
        case OMul: return bAnd(a, b);
        case OOr: return bOr(a, b);
        case OXor:
        case OAdd:
        case OSub: return bXor(a, b);
        }
        fatal("i1 opcode %d", opc);
    }
    if (isC(a) && (opc == OAdd || opc == OAnd || opc == OOr || opc == OXor || opc == OMul)) std::swap(a, b);
    if (isC(b))
    {
        uint64_t v = b->c;
        if (v == 0 && (opc == OAdd || opc == OSub || opc == OOr || opc == OXor || opc == OShl || opc == OLShr || opc == OAShr))
            return a;
        if (v == 0 && (opc == OAnd || opc == OMul)) return mkInt(0, n);
        if (v == 1 && (opc == OMul || opc == OUDiv || opc == OSDiv)) return a;
        if (v == maskBits(~0ull, n) && opc == OAnd) return a;
        if (opc == OLShr && v < (unsigned)n && (a->op == CONCAT || a->op == ZEXT))
        {
            Expr* x = extractBits(a, v, n - v);
            return x->bits == n ? x : (isC(x) ? mkInt(x->c, n) : mk(ZEXT, 0, n, {x}));
        }
        if (a->op == ZEXT && a->k[0]->bits == 1 && (opc == OAnd || opc == OXor) && v == 1)
            return opc == OAnd ? a : mk(ZEXT, 0, n, {bNot(a->k[0])});
        if (a->op == FBITS && n == 32 && realMode)
        {
            if (opc == OAnd && v == 0x7fffffff) return mk(FBITS, 0, 32, {rabs(a->k[0])});
            if (opc == OXor && v == 0x80000000) return mk(FBITS, 0, 32, {rneg(a->k[0])});
        }
        if (opc == OShl && v < (unsigned)n && a->op == ZEXT && a->k[0]->bits + (int)v <= n && a->k[0]->bits > 1)
        {
            Expr* r = mk(CONCAT, 0, a->k[0]->bits + v, {a->k[0], mkInt(0, v)});
            return r->bits == n ? r : mk(ZEXT, 0, n, {r});
        }
        if (opc == OAnd && (a->op == ZEXT || a->op == CONCAT))
        {
            // low mask
            if (((v + 1) & v) == 0)
            {
                int w   = __builtin_ctzll(v + 1);
                Expr* x = extractBits(a, 0, w);
                return isC(x) ? mkInt(x->c, n) : mk(ZEXT, 0, n, {x});
            }
        }
    }
    // bitwise operations on packed values work on the parts
    if ((opc == OAnd || opc == OOr || opc == OXor) && (a->op == CONCAT || b->op == CONCAT)
        && (a->op == CONCAT || isC(a)) && (b->op == CONCAT || isC(b)))
    {
        int lb = (a->op == CONCAT ? a : b)->k[1]->bits;
        if (!(a->op == CONCAT && b->op == CONCAT && a->k[1]->bits != b->k[1]->bits))
        {
            Expr* h = bvbin(opc, extractBits(a, lb, n - lb), extractBits(b, lb, n - lb));
            Expr* l = bvbin(opc, extractBits(a, 0, lb), extractBits(b, 0, lb));
            if (isC(h) && isC(l)) return mkInt((h->c << lb) | l->c, n);
            if (isC(h) && h->c == 0) return mk(ZEXT, 0, n, {l});
            return mk(CONCAT, 0, n, {h, l});
        }
    }
    if (opc == OAnd && isC(b) && a->op == BVBIN && (a->aux == OOr) && realMode)
        return bvbin(OOr, bvbin(OAnd, a->k[0], b), bvbin(OAnd, a->k[1], b));
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->bits == 1 && b->k[0]->bits == 1)
    {
        if (opc == OAnd) return mk(ZEXT, 0, n, {bAnd(a->k[0], b->k[0])});
        if (opc == OOr) return mk(ZEXT, 0, n, {bOr(a->k[0], b->k[0])});
        if (opc == OXor) return mk(ZEXT, 0, n, {bXor(a->k[0], b->k[0])});
    }
    if (a == b)
    {
        if (opc == OSub || opc == OXor) return mkInt(0, n);
        if (opc == OAnd || opc == OOr) return a;
    }
    if (opc == OOr)
    {
        // (x << k) | zext(lo) produced when two 32 bit halves are packed
        auto shape = [&](Expr* hi, Expr* lo) -> Expr* {
            Expr* h = hi;
            int width = n;
            if (h->op == ZEXT) width = h->k[0]->bits, h = h->k[0];
            if (h->op == CONCAT && isC(h->k[1]) && h->k[1]->c == 0)
            {
                int lowBits = h->k[1]->bits;
                Expr* l     = nullptr;
                if (lo->op == ZEXT && lo->k[0]->bits <= lowBits)
                    l = lo->k[0]->bits == lowBits ? lo->k[0] : mk(ZEXT, 0, lowBits, {lo->k[0]});
                else if (isC(lo) && (lo->c >> lowBits) == 0)
                    l = mkInt(lo->c, lowBits);
                if (l)
                {
                    Expr* r = mk(CONCAT, 0, width, {h->k[0], l});
                    return width == n ? r : mk(ZEXT, 0, n, {r});
                }
            }
            return nullptr;
        };
        if (Expr* r = shape(a, b)) return r;
        if (Expr* r = shape(b, a)) return r;
        if (isC(a)) std::swap(a, b);
        // constant high half | zext(low)
        if (isC(b) && a->op == ZEXT && (b->c & maskBits(~0ull, a->k[0]->bits)) == 0)
        {
            int l = a->k[0]->bits;
            return mk(CONCAT, 0, n, {mkInt(b->c >> l, n - l), a->k[0]});
        }
    }
    return mk(BVBIN, 0, n, {a, b}, opc);
}
static Expr* extractBits(Expr* e, int lo, int n)
{
    if (lo == 0 && n == e->bits) return e;
    if (isC(e)) return mkInt(e->c >> lo, n);
    if (e->op == CONCAT)
    {
        int lb = e->k[1]->bits;
        if (lo + n <= lb) return extractBits(e->k[1], lo, n);
        if (lo >= lb) return extractBits(e->k[0], lo - lb, n);
        Expr* l = extractBits(e->k[1], lo, lb - lo);
        Expr* h = extractBits(e->k[0], 0, n - (lb - lo));
        return mk(CONCAT, 0, n, {h, l});
    }
    if (e->op == ZEXT)
    {
        int ib = e->k[0]->bits;
        if (lo >= ib) return mkInt(0, n);
        if (lo + n <= ib) return extractBits(e->k[0], lo, n);
        Expr* x = extractBits(e->k[0], lo, ib - lo);
        return mk(ZEXT, 0, n, {x});
    }
    if (e->op == FBITS && realMode && n == 1 && lo == e->bits - 1 && e->k[0]->op == POLY) return mkRel(LT0, e->k[0]->p);
    return mk(TRUNC, 0, n, {e}, lo); // aux = low bit
}

static std::string show(Expr* e, int depth = 5)
{
    static const char* const names[] = {"const", "special", "var", "poly", "ite", "not", "and", "or", "xor", "le0", "lt0",
        "eq0", "inv", "sqrt", "sin", "cos", "fbits", "bitsf", "bvbin", "bvcmp", "zext", "sext", "trunc", "concat",
        "fpbin", "fpneg", "fpabs", "fpsqrt", "fpcmp", "fpcast", "fpround", "fpclass", "sitofp", "uitofp"};
    if (e->op == CONST) return std::to_string(e->c) + ":" + std::to_string(e->bits);
    if (e->op == VAR) return e->name;
    std::string s = std::string("(") + names[e->op] + ":" + std::to_string(e->bits) + "/" + std::to_string(e->aux);
    if (depth) for (auto* k : e->k) s += " " + show(k, depth - 1);
    return s + ")";
}

// ------------------------------------------------------------------ Z3
static z3::context* Z;
static std::vector<std::pair<Expr*, z3::expr>> dummy;
static std::vector<z3::expr*> zkeep;

static void zset(Expr* e, z3::expr v)
{
    auto* p = new z3::expr(v);
    e->z    = p;
}
static Expr* zTop; // the comparison being translated
static z3::expr zReal(Expr* e);
static z3::expr zBool(Expr* e);
static z3::expr zBv(Expr* e);
static z3::expr zFp(Expr* e);
static z3::expr zRat(const Rat& r) { return Z->real_val(r.str().c_str()); }

static z3::sort fpSort(int bits) { return bits == 32 ? Z->fpa_sort(8, 24) : Z->fpa_sort(11, 53); }

static z3::expr zAtom(Expr* a) // REAL atom, arithmetic encoding
{
    if (a->z) return *(z3::expr*)a->z;
    switch (a->op)
    {
    case VAR:
        if (enc == ENC_INT && a->r.ok)
        {
            z3::expr k = Z->int_const(a->name.c_str());
            z3::expr v = z3::to_real(k);
            if (a->r.scale) v = v / Z->real_val(pow2(a->r.scale).str().c_str());
            zset(a, v);
        }
        else
            zset(a, Z->real_const(a->name.c_str()));
        break;
    case ITE: zset(a, z3::ite(zBool(a->k[0]), zReal(a->k[1]), zReal(a->k[2]))); break;
    case INV:
    case SQRT:
    case SIN:
    case COS:
    {
        std::string n = (a->op == INV ? "inv!" : a->op == SQRT ? "sqrt!" : a->op == SIN ? "sin!" : "cos!");
        uint32_t tag  = a->id;
        if (a->op == SIN || a->op == COS) tag = a->k[0]->id;
        zset(a, Z->real_const((n + std::to_string(tag)).c_str()));
        break;
    }
    default: fatal("zAtom op %d", a->op);
    }
    return *(z3::expr*)a->z;
}
static z3::expr zPoly(const Poly& p)
{
    if (p.empty()) return Z->real_val(0);
    z3::expr_vector sum(*Z);
    for (auto& [m, c] : p)
    {
        z3::expr_vector f(*Z);
        if (c != 1 || m.empty()) f.push_back(zRat(c));
        for (auto& [a, n] : m)
            for (int i = 0; i < n; ++i) f.push_back(zAtom(a));
        if (f.size() == 1)
            sum.push_back(f[0]);
        else
        {
            std::vector<Z3_ast> v;
            for (unsigned i = 0; i < f.size(); ++i) v.push_back(f[i]);
            sum.push_back(z3::expr(*Z, Z3_mk_mul(*Z, v.size(), v.data())));
        }
    }
    if (sum.size() == 1) return sum[0];
    return z3::sum(sum);
}
static z3::expr zReal(Expr* e)
{
    if (e->z) return *(z3::expr*)e->z;
    if (e->op != POLY) fatal("zReal on op %d", e->op);
    zset(e, zPoly(e->p));
    return *(z3::expr*)e->z;
}
// ---- bit-vector encoding of lattice values
static int bitsFor(const Int& m)
{
    Int x = m < 0 ? Int(-m) : m;
    return (x == 0 ? 0 : (int)boost::multiprecision::msb(x) + 1) + 2;
}
static z3::expr bvPoly(const Poly& p, int scale, int W);
static std::map<std::pair<Expr*, int>, z3::expr*> bvAtomCache;
static int polyScale(const Poly& p, Int* bound)
{
    int s = 0;
    Int total = 0;
    std::vector<std::pair<int, Int>> terms;
    for (auto& [m, c] : p)
    {
        int cs;
        if (!dyadic(c, cs)) fatal("non dyadic coefficient in bit-vector encoding");
        Int mag = num(c);
        if (mag < 0) mag = -mag;
        for (auto& [a, n] : m)
        {
            if (!a->r.ok) fatal("atom op %d without exact range in bit-vector encoding", a->op);
            Int am = std::max(a->r.hi < 0 ? Int(-a->r.hi) : a->r.hi, a->r.lo < 0 ? Int(-a->r.lo) : a->r.lo);
            for (int i = 0; i < n; ++i)
            {
                mag *= am;
                cs += a->r.scale;
            }
        }
        terms.push_back({cs, mag});
        s = std::max(s, cs);
    }
    for (auto& [cs, mag] : terms) total += mag << (s - cs);
    if (bound) *bound = total;
    return s;
}
static z3::expr bvAtom(Expr* a, int W)
{
    auto it = bvAtomCache.find({a, W});
    if (it != bvAtomCache.end()) return *it->second;
    Int m = std::max(a->r.hi < 0 ? Int(-a->r.hi) : a->r.hi, a->r.lo < 0 ? Int(-a->r.lo) : a->r.lo);
    int w = bitsFor(m);
    z3::expr r(*Z);
    if (a->op == VAR)
    {
        z3::expr v = Z->bv_const(a->name.c_str(), w);
        r = W > w ? z3::sext(v, W - w) : W < w ? v.extract(W - 1, 0) : v;
    }
    else if (a->op == ITE)
        r = z3::ite(zBool(a->k[0]), bvPoly(a->k[1]->p, a->r.scale, W), bvPoly(a->k[2]->p, a->r.scale, W));
    else
        fatal("bvAtom op %d", a->op);
    bvAtomCache[{a, W}] = new z3::expr(r);
    return r;
}
static z3::expr bvPoly(const Poly& p, int scale, int W)
{
    if (p.empty()) return Z->bv_val(0, W);
    z3::expr acc(*Z);
    bool first = true;
    for (auto& [m, c] : p)
    {
        int cs;
        dyadic(c, cs);
        for (auto& [a, n] : m) cs += n * a->r.scale;
        Int k = num(c);
        if (cs > scale) fatal("scale mismatch in bit-vector encoding");
        k <<= (scale - cs);
        z3::expr t(*Z);
        bool tf = true;
        for (auto& [a, n] : m)
            for (int i = 0; i < n; ++i)
            {
                z3::expr x = bvAtom(a, W);
                t          = tf ? x : t * x;
                tf         = false;
            }
        if (tf)
            t = Z->bv_val(k.str().c_str(), W);
        else if (k == -1)
            t = -t;
        else if (k != 1)
            t = t * Z->bv_val(k.str().c_str(), W);
        acc   = first ? t : acc + t;
        first = false;
    }
    return acc;
}
static z3::expr zBool(Expr* e)
{
    if (e->z) return *(z3::expr*)e->z;
    z3::expr r(*Z);
    switch (e->op)
    {
    case CONST: r = Z->bool_val(e->c != 0); break;
    case VAR: r = Z->bool_const(e->name.c_str()); break;
    case NOT: r = !zBool(e->k[0]); break;
    case AND: r = zBool(e->k[0]) && zBool(e->k[1]); break;
    case OR: r = zBool(e->k[0]) || zBool(e->k[1]); break;
    case XOR: r = zBool(e->k[0]) != zBool(e->k[1]); break;
    case ITE: r = z3::ite(zBool(e->k[0]), zBool(e->k[1]), zBool(e->k[2])); break;
    case LE0:
    case LT0:
    case EQ0:
        if (enc == ENC_BV)
        {
            Int b;
            // clear the scale; comparisons are against zero so only the sign matters
            Poly p = e->k[0]->p;
            // make coefficients dyadic
            Int l = 1;
            for (auto& [m, c] : p)
            {
                Int d = den(c);
                l     = boost::multiprecision::lcm(l, d);
            }
            p         = pScale(p, Rat(l));
            int s     = polyScale(p, &b);
            int W     = bitsFor(b);
            z3::expr v = bvPoly(p, s, W);
            z3::expr z = Z->bv_val(0, W);
            r = e->op == LE0 ? z3::sle(v, z) : e->op == LT0 ? z3::slt(v, z) : v == z;
        }
        else
        {
            z3::expr v = zReal(e->k[0]);
            r = e->op == LE0 ? v <= 0 : e->op == LT0 ? v < 0 : v == 0;
        }
        break;
    case TRUNC: r = zBv(e->k[0]).extract(e->aux, e->aux) == Z->bv_val(1, 1); break;
    case BVCMP:
    {
        zTop = e;
        z3::expr a = zBv(e->k[0]), b = zBv(e->k[1]);
        switch (e->aux)
        {
        case 32: r = a == b; break;
        case 33: r = a != b; break;
        case 34: r = z3::ugt(a, b); break;
        case 35: r = z3::uge(a, b); break;
        case 36: r = z3::ult(a, b); break;
        case 37: r = z3::ule(a, b); break;
        case 38: r = a > b; break;
        case 39: r = a >= b; break;
        case 40: r = a < b; break;
        case 41: r = a <= b; break;
        default: fatal("icmp pred %d", e->aux);
        }
        break;
    }
    case FPCMP:
    {
        z3::expr a = zFp(e->k[0]), b = zFp(e->k[1]);
        auto nan = [&](z3::expr x) { return z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, x)); };
        z3::expr un = nan(a) || nan(b);
        auto f = [&](Z3_ast x) { return z3::expr(*Z, x); };
        switch (e->aux)
        {
        case 1: r = f(Z3_mk_fpa_eq(*Z, a, b)); break;
        case 2: r = f(Z3_mk_fpa_gt(*Z, a, b)); break;
        case 3: r = f(Z3_mk_fpa_geq(*Z, a, b)); break;
        case 4: r = f(Z3_mk_fpa_lt(*Z, a, b)); break;
        case 5: r = f(Z3_mk_fpa_leq(*Z, a, b)); break;
        case 6: r = !un && !f(Z3_mk_fpa_eq(*Z, a, b)); break;
        case 7: r = !un; break;
        case 8: r = un; break;
        case 9: r = un || f(Z3_mk_fpa_eq(*Z, a, b)); break;
        case 10: r = un || f(Z3_mk_fpa_gt(*Z, a, b)); break;
        case 11: r = un || f(Z3_mk_fpa_geq(*Z, a, b)); break;
        case 12: r = un || f(Z3_mk_fpa_lt(*Z, a, b)); break;
        case 13: r = un || f(Z3_mk_fpa_leq(*Z, a, b)); break;
        case 14: r = !f(Z3_mk_fpa_eq(*Z, a, b)); break;
        default: fatal("fcmp pred %d", e->aux);
        }
        break;
    }
    case FPCLASS:
    {
        z3::expr a = zFp(e->k[0]);
        auto f = [&](Z3_ast x) { return z3::expr(*Z, x); };
        int m  = e->aux;
        r      = Z->bool_val(false);
        z3::expr neg = f(Z3_mk_fpa_is_negative(*Z, a));
        if (m & 3) r = r || f(Z3_mk_fpa_is_nan(*Z, a));
        auto cls = [&](z3::expr c, int n, int p) {
            if (m & n) r = r || (c && neg);
            if (m & p) r = r || (c && !neg);
        };
        cls(f(Z3_mk_fpa_is_infinite(*Z, a)), 4, 512);
        cls(f(Z3_mk_fpa_is_normal(*Z, a)), 8, 256);
        cls(f(Z3_mk_fpa_is_subnormal(*Z, a)), 16, 128);
        cls(f(Z3_mk_fpa_is_zero(*Z, a)), 32, 64);
        break;
    }
    default: fatal("zBool op %d", e->op);
    }
    zset(e, r);
    return r;
}
static z3::expr zBv(Expr* e)
{
    if (e->bits == 1)
        return z3::ite(zBool(e), Z->bv_val(1, 1), Z->bv_val(0, 1));
    if (e->z) return *(z3::expr*)e->z;
    z3::expr r(*Z);
    switch (e->op)
    {
    case CONST: r = Z->bv_val((uint64_t)e->c, e->bits); break;
    case VAR: r = Z->bv_const(e->name.c_str(), e->bits); break;
    case ITE: r = z3::ite(zBool(e->k[0]), zBv(e->k[1]), zBv(e->k[2])); break;
    case ZEXT: r = z3::zext(zBv(e->k[0]), e->bits - e->k[0]->bits); break;
    case SEXT: r = z3::sext(zBv(e->k[0]), e->bits - e->k[0]->bits); break;
    case TRUNC: r = zBv(e->k[0]).extract(e->aux + e->bits - 1, e->aux); break;
    case CONCAT: r = z3::concat(zBv(e->k[0]), zBv(e->k[1])); break;
    case FBITS:
        if (realMode) fatal("bit pattern of a real-valued float is used as an integer: %s", zTop ? show(zTop, 9).c_str() : "");
        r = z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, zFp(e->k[0])));
        break;
    case BVBIN:
    {
        z3::expr a = zBv(e->k[0]), b = zBv(e->k[1]);
        switch (e->aux)
        {
        case OAdd: r = a + b; break;
        case OSub: r = a - b; break;
        case OMul: r = a * b; break;
        case OUDiv: r = z3::udiv(a, b); break;
        case OSDiv: r = a / b; break;
        case OURem: r = z3::urem(a, b); break;
        case OSRem: r = z3::srem(a, b); break;
        case OShl: r = z3::shl(a, b); break;
        case OLShr: r = z3::lshr(a, b); break;
        case OAShr: r = z3::ashr(a, b); break;
        case OAnd: r = a & b; break;
        case OOr: r = a | b; break;
        case OXor: r = a ^ b; break;
        default: fatal("bv opcode %d", e->aux);
        }
        break;
    }
    default: fatal("zBv op %d", e->op);
    }
    zset(e, r);
    return r;
}
static z3::expr zFp(Expr* e)
{
    if (e->z) return *(z3::expr*)e->z;
    z3::expr r(*Z);
    auto rm = [&] { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); };
    auto f  = [&](Z3_ast x) { return z3::expr(*Z, x); };
    switch (e->op)
    {
    case SPECIAL:
        r = f(Z3_mk_fpa_to_fp_bv(*Z, Z->bv_val((uint64_t)e->c, e->bits), fpSort(e->bits)));
        break;
    case VAR: r = Z->constant(e->name.c_str(), fpSort(e->bits)); break;
    case ITE: r = z3::ite(zBool(e->k[0]), zFp(e->k[1]), zFp(e->k[2])); break;
    case FPNEG: r = f(Z3_mk_fpa_neg(*Z, zFp(e->k[0]))); break;
    case FPABS: r = f(Z3_mk_fpa_abs(*Z, zFp(e->k[0]))); break;
    case FPSQRT: r = f(Z3_mk_fpa_sqrt(*Z, rm(), zFp(e->k[0]))); break;
    case FPCAST: r = f(Z3_mk_fpa_to_fp_float(*Z, rm(), zFp(e->k[0]), fpSort(e->bits))); break;
    case BITSF: r = f(Z3_mk_fpa_to_fp_bv(*Z, zBv(e->k[0]), fpSort(e->bits))); break;
    case SITOFP: r = f(Z3_mk_fpa_to_fp_signed(*Z, rm(), zBv(e->k[0]), fpSort(e->bits))); break;
    case UITOFP: r = f(Z3_mk_fpa_to_fp_unsigned(*Z, rm(), zBv(e->k[0]), fpSort(e->bits))); break;
    case FPROUND:
    {
        Z3_ast m = e->aux == 9 ? Z3_mk_fpa_rtn(*Z) : e->aux == 10 ? Z3_mk_fpa_rtp(*Z) : e->aux == 11 ? Z3_mk_fpa_rna(*Z)
                 : e->aux == 12 ? Z3_mk_fpa_rtz(*Z) : Z3_mk_fpa_rne(*Z);
        r = f(Z3_mk_fpa_round_to_integral(*Z, m, zFp(e->k[0])));
        break;
    }
    case FPBIN:
    {
        z3::expr a = zFp(e->k[0]), b = zFp(e->k[1]);
        switch (e->aux)
        {
        case OFAdd: r = f(Z3_mk_fpa_add(*Z, rm(), a, b)); break;
        case OFSub: r = f(Z3_mk_fpa_sub(*Z, rm(), a, b)); break;
        case OFMul: r = f(Z3_mk_fpa_mul(*Z, rm(), a, b)); break;
        case OFDiv: r = f(Z3_mk_fpa_div(*Z, rm(), a, b)); break;
        default: fatal("fp opcode %d", e->aux);
        }
        break;
    }
    default: fatal("zFp op %d", e->op);
    }
    zset(e, r);
    return r;
}

// ---- dependencies -----------------------------------------------------------
static const std::vector<int>& deps(Expr* e)
{
    if (e->deps) return *e->deps;
    std::set<int> s;
    auto add = [&](Expr* x) {
        auto& d = deps(x);
        s.insert(d.begin(), d.end());
    };
    for (auto* k : e->k) add(k);
    for (auto& [m, c] : e->p)
        for (auto& [a, n] : m) add(a);
    if (e->op == VAR || e->op == INV || e->op == SQRT || e->op == SIN || e->op == COS) s.insert(e->id);
    e->deps = new std::vector<int>(s.begin(), s.end());
    return *e->deps;
}
static bool nonlinear(Expr* e, std::unordered_set<Expr*>& seen)
{
    if (!seen.insert(e).second) return false;
    for (auto& [m, c] : e->p)
    {
        int d = 0;
        for (auto& [a, n] : m)
        {
            d += n;
            if (a->op == INV || a->op == SQRT || a->op == SIN || a->op == COS) return true;
            if (nonlinear(a, seen)) return true;
        }
        if (d > 1) return true;
    }
    for (auto* k : e->k)
        if (nonlinear(k, seen)) return true;
    return false;
}
static void sides(int id, z3::expr_vector& out)
{
    Expr* a = allExprs[id];
    if (a->op == VAR)
    {
        if (a->kind == 1 && realMode)
        {
            if (enc == ENC_BV)
            {
                Int m = std::max(a->r.hi < 0 ? Int(-a->r.hi) : a->r.hi, a->r.lo < 0 ? Int(-a->r.lo) : a->r.lo);
                int w = bitsFor(m);
                z3::expr v = Z->bv_const(a->name.c_str(), w);
                out.push_back(z3::sge(v, Z->bv_val(a->r.lo.str().c_str(), w)));
                out.push_back(z3::sle(v, Z->bv_val(a->r.hi.str().c_str(), w)));
            }
            else if (a->bounded)
            {
                out.push_back(zAtom(a) >= zRat(a->lo));
                out.push_back(zAtom(a) <= zRat(a->hi));
            }
        }
        else if (a->kind == 0 && a->bounded && a->bits > 1)
        {
            z3::expr v = zBv(a);
            out.push_back(v >= Z->bv_val((int64_t)num(a->lo), a->bits));
            out.push_back(v <= Z->bv_val((int64_t)num(a->hi), a->bits));
        }
    }
    else if (a->op == INV)
        out.push_back(zAtom(a) * zReal(a->k[0]) == 1);
    else if (a->op == SQRT)
    {
        out.push_back(zAtom(a) * zAtom(a) == zReal(a->k[0]));
        out.push_back(zAtom(a) >= 0);
    }
    else if (a->op == SIN || a->op == COS)
    {
        Expr* s    = mk(SIN, 1, a->bits, {a->k[0]});
        Expr* c    = mk(COS, 1, a->bits, {a->k[0]});
        z3::expr x = zAtom(s), y = zAtom(c);
        out.push_back(x * x + y * y == 1);
        Rat v;
        if (polyConst(a->k[0], &v))
        {
            // known numeric angle: bracket the value
            double d = v.convert_to<double>(), eps = 1e-9;
            out.push_back(x >= zRat(ratOfDouble(std::sin(d) - eps)));
            out.push_back(x <= zRat(ratOfDouble(std::sin(d) + eps)));
            out.push_back(y >= zRat(ratOfDouble(std::cos(d) - eps)));
            out.push_back(y <= zRat(ratOfDouble(std::cos(d) + eps)));
        }
    }
}

// ---- evaluation under the current model --------------------------------------
struct Ev
{
    bool ok = false;
    Rat q;
    uint64_t b = 0;
};
static std::unordered_map<Expr*, Ev> evCache;
static Ev eval(Expr* e);
static Ev evalAtom(Expr* a)
{
    Ev r;
    if (a->op == ITE)
    {
        Ev c = eval(a->k[0]);
        if (!c.ok) return r;
        return eval(c.b ? a->k[1] : a->k[2]);
    }
    auto it = mRat.find(a);
    if (it != mRat.end())
    {
        r.ok = true;
        r.q  = it->second;
        return r;
    }
    if (a->op == INV)
    {
        Ev d = eval(a->k[0]);
        if (d.ok && d.q != 0)
        {
            r.ok = true;
            r.q  = Rat(1) / d.q;
        }
    }
    else if (a->op == SQRT)
    {
        Ev d = eval(a->k[0]);
        Rat s;
        if (d.ok && ratSqrt(d.q, s))
        {
            r.ok = true;
            r.q  = s;
        }
    }
    return r;
}
static Ev evalImpl(Expr* e);
static Ev eval(Expr* e)
{
    auto it = evCache.find(e);
    if (it != evCache.end()) return it->second;
    Ev v = evalImpl(e);
    evCache[e] = v;
    return v;
}
static Ev ofBits(uint64_t b)
{
    Ev r;
    r.ok = true;
    r.b  = b;
    return r;
}
static Ev evalImpl(Expr* e)
{
    Ev r;
    switch (e->op)
    {
    case CONST: return ofBits(e->c);
    case SPECIAL: return ofBits(e->c);
    case VAR:
    {
        if (e->kind == 1 && realMode) return evalAtom(e);
        auto it = mBits.find(e);
        if (it != mBits.end()) return ofBits(it->second);
        return ofBits(0); // unconstrained so far
    }
    case FBITS:
    case BITSF: return realMode ? r : eval(e->k[0]);
    case FPCLASS:
    {
        Ev a = eval(e->k[0]);
        if (!a.ok || realMode) return r;
        double x = bitsToD(a.b, e->k[0]->bits);
        bool neg = std::signbit(x), sub = e->k[0]->bits == 32 ? std::fpclassify((float)x) == FP_SUBNORMAL
                                                            : std::fpclassify(x) == FP_SUBNORMAL;
        int m;
        if (std::isnan(x)) m = 3;
        else if (std::isinf(x)) m = neg ? 4 : 512;
        else if (x == 0) m = neg ? 32 : 64;
        else if (sub) m = neg ? 16 : 128;
        else m = neg ? 8 : 256;
        return ofBits((e->aux & m) != 0);
    }
    case SITOFP:
    case UITOFP:
    {
        Ev a = eval(e->k[0]);
        if (!a.ok || realMode) return r;
        double d = e->op == SITOFP ? (double)sxt(a.b, e->k[0]->bits) : (double)a.b;
        if (e->bits == 32) d = e->op == SITOFP ? (float)sxt(a.b, e->k[0]->bits) : (float)a.b;
        return ofBits(dToBits(d, e->bits));
    }
    case POLY:
    {
        Rat t = 0;
        for (auto& [m, c] : e->p)
        {
            Rat x = c;
            for (auto& [a, n] : m)
            {
                Ev v = eval(a);
                if (!v.ok) return r;
                for (int i = 0; i < n; ++i) x *= v.q;
            }
            t += x;
        }
        r.ok = true;
        r.q  = t;
        return r;
    }
    case INV:
    case SQRT:
    case SIN:
    case COS: return evalAtom(e);
    case ITE:
    {
        Ev c = eval(e->k[0]);
        if (!c.ok) return r;
        return eval(c.b ? e->k[1] : e->k[2]);
    }
    case NOT:
    {
        Ev a = eval(e->k[0]);
        return a.ok ? ofBits(!a.b) : r;
    }
    case AND:
    case OR:
    case XOR:
    {
        Ev a = eval(e->k[0]), b = eval(e->k[1]);
        if (e->op == AND && ((a.ok && !a.b) || (b.ok && !b.b))) return ofBits(0);
        if (e->op == OR && ((a.ok && a.b) || (b.ok && b.b))) return ofBits(1);
        if (!a.ok || !b.ok) return r;
        return ofBits(e->op == AND ? a.b && b.b : e->op == OR ? a.b || b.b : a.b != b.b);
    }
    case LE0:
    case LT0:
    case EQ0:
    {
        Ev a = eval(e->k[0]);
        if (!a.ok) return r;
        return ofBits(e->op == LE0 ? a.q <= 0 : e->op == LT0 ? a.q < 0 : a.q == 0);
    }
    case ZEXT:
    {
        Ev a = eval(e->k[0]);
        return a.ok ? ofBits(a.b) : r;
    }
    case SEXT:
    {
        Ev a = eval(e->k[0]);
        return a.ok ? ofBits(maskBits((uint64_t)sxt(a.b, e->k[0]->bits), e->bits)) : r;
    }
    case TRUNC:
    {
        Ev a = eval(e->k[0]);
        return a.ok ? ofBits(maskBits(a.b >> e->aux, e->bits)) : r;
    }
    case CONCAT:
    {
        Ev a = eval(e->k[0]), b = eval(e->k[1]);
        return a.ok && b.ok ? ofBits((a.b << e->k[1]->bits) | b.b) : r;
    }
    case BVBIN:
    {
        Ev a = eval(e->k[0]), b = eval(e->k[1]);
        if (!a.ok || !b.ok) return r;
        bool ok;
        uint64_t v = hostBv(e->aux, a.b, b.b, e->bits, ok);
        return ok ? ofBits(v) : r;
    }
    case BVCMP:
    {
        Ev a = eval(e->k[0]), b = eval(e->k[1]);
        if (!a.ok || !b.ok) return r;
        int n = e->k[0]->bits;
        int64_t x = sxt(a.b, n), y = sxt(b.b, n);
        switch (e->aux)
        {
        case 32: return ofBits(a.b == b.b);
        case 33: return ofBits(a.b != b.b);
        case 34: return ofBits(a.b > b.b);
        case 35: return ofBits(a.b >= b.b);
        case 36: return ofBits(a.b < b.b);
        case 37: return ofBits(a.b <= b.b);
        case 38: return ofBits(x > y);
        case 39: return ofBits(x >= y);
        case 40: return ofBits(x < y);
        case 41: return ofBits(x <= y);
        }
        return r;
    }
    case FPBIN:
    {
        Ev a = eval(e->k[0]), b = eval(e->k[1]);
        if (!a.ok || !b.ok) return r;
        return ofBits(dToBits(hostBin(e->aux, bitsToD(a.b, e->bits), bitsToD(b.b, e->bits), e->bits), e->bits));
    }
    case FPNEG:
    case FPABS:
    case FPSQRT:
    {
        Ev a = eval(e->k[0]);
        if (!a.ok) return r;
        uint64_t sgn = 1ull << (e->bits - 1);
        if (e->op == FPNEG) return ofBits(a.b ^ sgn);
        if (e->op == FPABS) return ofBits(a.b & ~sgn);
        double d = bitsToD(a.b, e->bits);
        return ofBits(dToBits(e->bits == 32 ? sqrtf((float)d) : sqrt(d), e->bits));
    }
    case FPCAST:
    {
        Ev a = eval(e->k[0]);
        return a.ok ? ofBits(dToBits(bitsToD(a.b, e->k[0]->bits), e->bits)) : r;
    }
    case FPCMP:
    {
        Ev a = eval(e->k[0]), b = eval(e->k[1]);
        if (!a.ok || !b.ok) return r;
        double x = bitsToD(a.b, e->k[0]->bits), y = bitsToD(b.b, e->k[0]->bits);
        bool un = std::isnan(x) || std::isnan(y);
        switch (e->aux)
        {
        case 1: return ofBits(x == y);
        case 2: return ofBits(x > y);
        case 3: return ofBits(x >= y);
        case 4: return ofBits(x < y);
        case 5: return ofBits(x <= y);
        case 6: return ofBits(!un && x != y);
        case 7: return ofBits(!un);
        case 8: return ofBits(un);
        case 9: return ofBits(un || x == y);
        case 10: return ofBits(un || x > y);
        case 11: return ofBits(un || x >= y);
        case 12: return ofBits(un || x < y);
        case 13: return ofBits(un || x <= y);
        case 14: return ofBits(un || x != y);
        }
        return r;
    }
    default: return r;
    }
}

static volatile int solverTicks = 0, solverTickLimit = 60;
// ---- solving --------------------------------------------------------------------
enum Res { UNSAT, SAT, UNKNOWN };
static volatile int inSolver = 0;

static bool readModel(z3::model& m, const std::set<int>& ids, std::map<Expr*, Rat>& qr, std::map<Expr*, uint64_t>& qb)
{
    for (int id : ids)
    {
        Expr* a = allExprs[id];
        if (a->kind == 1 && realMode)
        {
            if (enc == ENC_BV)
            {
                Int mg = std::max(a->r.hi < 0 ? Int(-a->r.hi) : a->r.hi, a->r.lo < 0 ? Int(-a->r.lo) : a->r.lo);
                int w = bitsFor(mg);
                z3::expr v = m.eval(Z->bv_const(a->name.c_str(), w), true);
                Int k(v.get_decimal_string(0));
                if (k >= pow2(w - 1)) k -= pow2(w);
                qr[a] = Rat(k, pow2(a->r.scale));
                continue;
            }
            z3::expr v = m.eval(zAtom(a), true);
            if (v.is_numeral())
            {
                std::string s = v.get_decimal_string(0);
                z3::expr n = v.numerator(), d = v.denominator();
                qr[a] = Rat(Int(Z3_get_numeral_string(*Z, n)), Int(Z3_get_numeral_string(*Z, d)));
            }
            else
                qr.erase(a);
        }
        else if (a->op == VAR)
        {
            if (a->kind == 1)
            {
                z3::expr v = m.eval(zFp(a), true);
                z3::expr b = z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v)).simplify();
                uint64_t u = 0;
                if (b.is_numeral_u64(u)) qb[a] = u;
                else
                {
                    z3::expr b2 = m.eval(z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, zFp(a))), true);
                    if (b2.is_numeral_u64(u)) qb[a] = u;
                    else qb[a] = a->bits == 32 ? 0x7fc00000u : 0x7ff8000000000000ull;
                }
            }
            else if (a->bits == 1)
                qb[a] = m.eval(zBool(a), true).is_true();
            else
            {
                uint64_t u = 0;
                m.eval(zBv(a), true).is_numeral_u64(u);
                qb[a] = u;
            }
        }
    }
    return true;
}

static Res runZ3(const std::vector<Expr*>& cs, const std::set<int>& ids, bool nl, long rl, int strat,
                 std::map<Expr*, Rat>* qr, std::map<Expr*, uint64_t>* qb)
{
    ++inSolver;
    double t0 = now();
    Res res   = UNKNOWN;
    sh->queries++;
    try
    {
        z3::solver s(*Z);
        if (nl && strat == 0)
            s = z3::tactic(*Z, "qfnra-nlsat").mk_solver();
        else if (enc == ENC_BV && realMode)
            s = z3::solver(*Z, "QF_BV");
        else if (!realMode)
            s = z3::solver(*Z, "QF_FPBV");
        else if (nl)
            s = z3::tactic(*Z, "qfnra").mk_solver();
        else
            s = z3::solver(*Z, z3::solver::simple());
        solverTicks     = 0;
        solverTickLimit = rl <= rlimit1 ? 6 : rl < rlimit2 ? 20 : 60;
        z3::params p(*Z);
        p.set("rlimit", (unsigned)std::min<long>(rl, 4000000000L));
        s.set(p);
        z3::expr_vector side(*Z);
        for (int id : ids) sides(id, side);
        for (unsigned i = 0; i < side.size(); ++i) s.add(side[i]);
        for (auto* c : cs) s.add(zBool(c));
        auto r = s.check();
        res    = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN;
        if (res == SAT && qr)
        {
            z3::model m = s.get_model();
            readModel(m, ids, *qr, *qb);
        }
        if (const char* d = getenv("SX_DUMP"); d && (now() - t0 > atof(d) || res == UNKNOWN))
        {
            static int n = 0;
            char fn[256];
            snprintf(fn, sizeof fn, "%s/slow_%d_%d.smt2", outDir, getpid(), n++);
            FILE* f = fopen(fn, "w");
            fprintf(f, "; %f s result %d strat %d\n%s\n(check-sat)\n", now() - t0, res, strat, s.to_smt2().c_str());
            fclose(f);
        }
    }
    catch (z3::exception& ex)
    {
        res = UNKNOWN;
        if (trace) logLine("z3: %s\n", ex.msg());
    }
    double dt = now() - t0;
    sh->solverUs += (long)(dt * 1e6);
    if (trace) logLine("[%d] query %zu constraints nl=%d strat=%d -> %d in %.3f\n", getpid(), cs.size(), nl, strat, res, dt);
    (res == SAT ? sh->qsat : res == UNSAT ? sh->qunsat : sh->qunknown)++;
    --inSolver;
    return res;
}

static std::map<std::vector<uint32_t>, Res> qcache;

// is pc && extra satisfiable? On SAT the model maps are updated for the relevant inputs.
static Res check(const std::vector<Expr*>& extra, std::map<Expr*, Rat>* qr, std::map<Expr*, uint64_t>* qb,
                 bool hard = false, bool full = false)
{
    std::set<int> ids;
    std::vector<Expr*> cs;
    for (auto* e : extra)
    {
        if (isF(e)) return UNSAT;
        if (isT(e)) continue;
        cs.push_back(e);
        ids.insert(deps(e).begin(), deps(e).end());
    }
    std::vector<char> used(pc.size(), full);
    if (full)
        for (auto* p : pc)
        {
            cs.push_back(p);
            ids.insert(deps(p).begin(), deps(p).end());
        }
    else
        for (bool ch = true; ch;)
        {
            ch = false;
            for (size_t i = 0; i < pc.size(); ++i)
            {
                if (used[i]) continue;
                bool hit = false;
                for (int d : deps(pc[i]))
                    if (ids.count(d))
                    {
                        hit = true;
                        break;
                    }
                if (hit)
                {
                    used[i] = 1;
                    ch      = true;
                    cs.push_back(pc[i]);
                    ids.insert(deps(pc[i]).begin(), deps(pc[i]).end());
                }
            }
        }
    if (cs.empty()) return SAT;
    std::vector<uint32_t> k;
    for (auto* c : cs) k.push_back(c->id);
    std::sort(k.begin(), k.end());
    auto it = qcache.find(k);
    if (it != qcache.end() && it->second == UNSAT)
    {
        sh->cacheHits++;
        return UNSAT;
    }
    bool nl = false;
    if (realMode && enc != ENC_BV)
    {
        std::unordered_set<Expr*> seen;
        for (auto* c : cs) nl |= nonlinear(c, seen);
    }
    Res r = UNKNOWN;
    if (!nl)
        r = runZ3(cs, ids, false, rlimit2, 1, qr, qb);
    else
    {
        // two procedures with growing budgets
        static const struct { int strat, size; } plan[] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {0, 2}, {1, 2}};
        for (auto& st : plan)
        {
            if (st.size && !hard) break;
            r = runZ3(cs, ids, true, st.size == 2 ? rlimit2 : st.size ? rlimit2 / 6 : rlimit1, st.strat, qr, qb);
            if (r != UNKNOWN) break;
        }
    }
    if (r == UNSAT) qcache[k] = r;
    return r;
}

static void addPc(Expr* e)
{
    if (isT(e)) return;
    if (e->op == AND)
    {
        addPc(e->k[0]);
        addPc(e->k[1]);
        return;
    }
    if (e->op == NOT && e->k[0]->op == OR)
    {
        addPc(bNot(e->k[0]->k[0]));
        addPc(bNot(e->k[0]->k[1]));
        return;
    }
    if (pcSet.insert(e).second) pc.push_back(e);
}

// ------------------------------------------------------------------ processes
static void reap(bool all)
{
    for (auto it = kids.begin(); it != kids.end();)
    {
        int st;
        pid_t p = waitpid(*it, &st, all ? 0 : WNOHANG);
        if (p == *it || p < 0)
            it = kids.erase(it);
        else
            ++it;
    }
}
static bool holdsToken = true;
static void endProcess(int code)
{
    if (code == 0)
    {
        long n = sh->paths++;
        // a model of some complete paths is replayed natively by the driver
        if (n < 4 || ((n & (n - 1)) == 0 && n < 100000)) dumpSample();
    }
    if (holdsToken)
    {
        sh->tokens++;
        holdsToken = false;
    }
    reap(true);
    _exit(code);
}
static void checkStop()
{
    if (sh->stop || sh->fatal) endProcess(4);
    if (now() > deadline)
    {
        sh->truncated++;
        endProcess(5);
    }
}
static int ticks = 0;
static void armTimer()
{
    ticks = 0;
    itimerval it{{1, 0}, {1, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
// returns true in the child
static bool forkPath()
{
    checkStop();
    sh->forks++;
    reap(false);
    long t = sh->tokens.load();
    bool got = false;
    while (t > 0)
        if (sh->tokens.compare_exchange_weak(t, t - 1))
        {
            got = true;
            break;
        }
    pid_t p = fork();
    if (p < 0) fatal("fork failed");
    if (p == 0)
    {
        kids.clear();
        armTimer(); // interval timers are not inherited
        holdsToken = true; // either a new token or the parent's
        if (!got) holdsToken = true;
        return true;
    }
    if (got)
        kids.push_back(p);
    else
    {
        // the child uses this process' token; it gives one back when it ends, which we take again
        int st;
        holdsToken = false;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        // take a token back
        for (;;)
        {
            long x = sh->tokens.load();
            if (x > 0 && sh->tokens.compare_exchange_weak(x, x - 1)) break;
            if (sh->stop || sh->fatal) _exit(4);
            usleep(200);
        }
        holdsToken = true;
    }
    return false;
}

static int decisionDepth = 0;
static bool decide(Expr* e, int line)
{
    if (isC(e)) return e->c;
    if (pcSet.count(e)) return true;
    if (pcSet.count(bNot(e))) return false;
    sh->branches++;
    if (++pathDecisions > maxForks)
    {
        sh->truncated++;
        logLine("TRUNCATED %s: more than %ld symbolic decisions on a path (line %d)\n", hname, maxForks, line);
        endProcess(5);
    }
    checkStop();
    Expr* ne = bNot(e);
    evCache.clear();
    Ev v = eval(e);
    std::map<Expr*, Rat> tr = mRat, fr = mRat;
    std::map<Expr*, uint64_t> tb = mBits, fb = mBits;
    Res rt, rf;
    if (v.ok)
        sh->decidedByModel++;
    if (v.ok && v.b)
        rt = SAT;
    else
        rt = check({e}, &tr, &tb);
    if (v.ok && !v.b)
        rf = SAT;
    else if (rt == UNSAT)
        rf = SAT; // pc is satisfiable, so the other side must be
    else
        rf = check({ne}, &fr, &fb);
    if (rt == UNKNOWN || rf == UNKNOWN) sh->unknownBranches++;
    bool ft = rt != UNSAT, ff = rf != UNSAT;
    if (ft && ff)
    {
        if (trace) logLine("[%d] fork at line %d depth %zu\n", getpid(), line, pc.size());
        ++decisionDepth;
        long md = sh->maxDepth.load();
        while (md < decisionDepth && !sh->maxDepth.compare_exchange_weak(md, decisionDepth)) {}
        bool child = forkPath();
        if (child)
        {
            mRat  = tr;
            mBits = tb;
            addPc(e);
            return true;
        }
        mRat  = fr;
        mBits = fb;
        addPc(ne);
        return false;
    }
    if (ft) return true;
    return false;
}

// ------------------------------------------------------------------ labels & violations
static Label* label(const char* n)
{
    int c = sh->nlabels.load();
    for (int i = 0; i < c; ++i)
        if (!strncmp(sh->labels[i].name, n, 159)) return &sh->labels[i];
    Lock l;
    c = sh->nlabels.load();
    for (int i = 0; i < c; ++i)
        if (!strncmp(sh->labels[i].name, n, 159)) return &sh->labels[i];
    if (c >= 400) fatal("too many labels");
    strncpy(sh->labels[c].name, n, 159);
    sh->nlabels++;
    return &sh->labels[c];
}

static std::string jsonEsc(const std::string& s)
{
    std::string o;
    for (char c : s)
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if ((unsigned char)c < 32)
            o += ' ';
        else
            o += c;
    return o;
}

// moves the inputs of a model onto a float friendly grid, one by one
static Res niceModel(std::vector<Expr*>& extra, std::map<Expr*, Rat>& qr, std::map<Expr*, uint64_t>& qb, bool grid)
{
    Res r = check(extra, &qr, &qb, true, true);
    if (r == SAT && realMode && enc != ENC_BV && grid)
    {
        for (auto& in : inputs)
        {
            if (in.kind != 'f' && in.kind != 'd') continue;
            auto it = qr.find(in.e);
            double cur = it == qr.end() ? 0.0 : it->second.convert_to<double>();
            for (double g : {1.0, 2.0, 4.0, 16.0, 256.0, 65536.0})
            {
                double cand = std::nearbyint(cur * g) / g;
                if ((float)cand != cand) continue;
                Rat c = ratOfDouble(cand);
                if (in.e->bounded && (c < in.e->lo || c > in.e->hi)) continue;
                auto ex = extra;
                ex.push_back(mkRel(EQ0, pAdd(atomPoly(in.e)->p, mkRat(c, 32)->p, -1)));
                auto q2 = qr;
                auto b2 = qb;
                if (check(ex, &q2, &b2, false, true) == SAT)
                {
                    qr    = q2;
                    qb    = b2;
                    qr[in.e] = c;
                    extra = ex;
                    break;
                }
            }
        }
    }
    return r;
}
static std::string inputsJson(std::map<Expr*, Rat>& qr, std::map<Expr*, uint64_t>& qb)
{
    std::string s = "[";
    bool first = true;
    for (auto& in : inputs)
    {
        if (!first) s += ",";
        first = false;
        char buf[128];
        std::string val;
        if (in.kind == 'c')
            val = std::to_string(in.concrete);
        else if (in.kind == 'f' || in.kind == 'd')
        {
            double d = 0;
            std::string exact;
            if (realMode)
            {
                auto it = qr.find(in.e);
                if (it != qr.end())
                {
                    d     = it->second.convert_to<double>();
                    exact = it->second.str();
                }
                else if (in.e->bounded && (in.e->lo > 0 || in.e->hi < 0))
                    d = (in.e->lo > 0 ? in.e->lo : in.e->hi).convert_to<double>();
            }
            else
            {
                auto it = qb.find(in.e);
                if (it != qb.end()) d = bitsToD(it->second, in.e->bits);
            }
            snprintf(buf, sizeof buf, in.kind == 'f' ? "%a" : "%a", in.kind == 'f' ? (double)(float)d : d);
            val = buf;
            s += "{\"name\":\"" + jsonEsc(in.name) + "\",\"kind\":\"" + in.kind + "\",\"value\":\"" + val
               + "\",\"decimal\":\"" + (snprintf(buf, sizeof buf, "%.9g", d), buf) + "\",\"exact\":\"" + exact + "\"}";
            continue;
        }
        else
        {
            auto it = qb.find(in.e);
            long v  = 0;
            if (it != qb.end())
                v = in.e->bits == 1 ? (long)it->second : (long)sxt(it->second, in.e->bits);
            else if (in.e->bounded && (in.e->lo > 0 || in.e->hi < 0))
                v = (long)num(in.e->lo);
            val = std::to_string(v);
        }
        s += "{\"name\":\"" + jsonEsc(in.name) + "\",\"kind\":\"" + in.kind + "\",\"value\":\"" + val + "\"}";
    }
    return s + "]";
}
static void append(const char* file, const std::string& s)
{
    Lock l;
    std::string fn = std::string(outDir) + "/" + file;
    int fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (write(fd, s.data(), s.size()) < 0) {}
    close(fd);
}
static void record(const char* kind, const char* lab, std::vector<Expr*> extra, const char* note)
{
    std::map<Expr*, Rat> qr   = mRat;
    std::map<Expr*, uint64_t> qb = mBits;
    Res r = niceModel(extra, qr, qb, true);
    append("violations.jsonl", "{\"harness\":\"" + jsonEsc(hname) + "\",\"label\":\"" + jsonEsc(lab) + "\",\"kind\":\"" + kind
                  + "\",\"note\":\"" + jsonEsc(note) + "\",\"model\":\"" + (r == SAT ? "sat" : r == UNSAT ? "unsat" : "unknown")
                  + "\",\"inputs\":" + inputsJson(qr, qb) + "}\n");
}
static void dumpSample()
{
    if (sh->samples++ >= maxSamples) return;
    Guard g;
    std::map<Expr*, Rat> qr   = mRat;
    std::map<Expr*, uint64_t> qb = mBits;
    std::vector<Expr*> extra;
    if (niceModel(extra, qr, qb, pc.size() < 60) != SAT) return;
    auto sr = mRat;
    auto sb = mBits;
    mRat  = qr;
    mBits = qb;
    evCache.clear();
    std::string o = "[";
    bool first = true;
    for (auto& x : observed)
    {
        double d = x.concrete;
        if (x.e)
        {
            if (x.e->op == SPECIAL) d = sv(x.e);
            else
            {
                Ev v = eval(x.e);
                if (!v.ok) continue;
                if (x.e->kind == 1) d = realMode ? v.q.convert_to<double>() : bitsToD(v.b, x.e->bits);
                else d = x.e->bits == 1 ? (double)v.b : (double)sxt(v.b, x.e->bits);
            }
        }
        char buf[64];
        snprintf(buf, sizeof buf, "%.17g", d);
        o += (first ? "" : ",") + std::string("[\"") + jsonEsc(x.name) + "\",\"" + buf + "\"]";
        first = false;
    }
    append("samples.jsonl", "{\"harness\":\"" + jsonEsc(hname) + "\",\"observed\":" + o + "],\"inputs\":" + inputsJson(qr, qb) + "}\n");
    mRat  = sr;
    mBits = sb;
}

// clears denominators: P/D == 0 <=> P == 0 when every INV atom is nonzero
static Poly clearInv(Poly p)
{
    for (int guard = 0; guard < 64; ++guard)
    {
        Expr* iv = nullptr;
        int maxn = 0;
        for (auto& [m, c] : p)
            for (auto& [a, n] : m)
                if (a->op == INV && (!iv || a == iv))
                {
                    iv   = a;
                    maxn = std::max(maxn, n);
                }
        if (!iv) return p;
        std::vector<Poly> pw(maxn + 1);
        pw[0][{}] = 1;
        for (int i = 1; i <= maxn; ++i) pw[i] = pMul(pw[i - 1], iv->k[0]->p);
        Poly r;
        for (auto& [m, c] : p)
        {
            Mono rest;
            int k = 0;
            for (auto& [a, n] : m)
                if (a == iv)
                    k = n;
                else
                    rest.push_back({a, n});
            Poly t;
            t[rest] = c;
            for (auto& [m2, c2] : pMul(t, pw[maxn - k])) addTo(r, m2, c2);
        }
        p = std::move(r);
    }
    return p;
}

static void doAssert(Expr* e, const char* lab, const std::vector<Expr*>& preferViolation = {})
{
    Label* L = label(lab);
    L->evaluated++;
    sh->asserts++;
    if (L->witness == 0)
    {
        // vacuity witness: is this point reachable (assert(false) must be violable here)?
        auto a = mRat;
        auto b = mBits;
        if (check({}, &a, &b, true, true) == SAT) L->witness++;
    }
    if (isT(e))
    {
        L->folded++;
        return;
    }
    Expr* ne = bNot(e);
    Res r    = UNKNOWN;
    auto a   = mRat;
    auto b   = mBits;
    r        = check({ne}, &a, &b, true);
    if (r == UNSAT)
    {
        L->discharged++;
        return;
    }
    if (r == UNKNOWN)
    {
        L->unknown++;
        logLine("UNKNOWN %s: %s\n", hname, lab);
        return;
    }
    // violated
    if (isF(e) && check({}, &a, &b, true, true) != SAT)
    {
        L->unknown++;
        return;
    }
    L->violated++;
    long n = ++sh->violations;
    if (n <= 6)
    {
        std::vector<Expr*> use = {ne};
        for (auto* pv : preferViolation)
        {
            auto a2 = mRat;
            auto b2 = mBits;
            if (check({ne, pv}, &a2, &b2, false, true) == SAT)
            {
                use.push_back(pv);
                break;
            }
        }
        record("assert", lab, use, "");
    }
    if (n >= 6)
    {
        sh->stop = 1;
        endProcess(4);
    }
    // continue on the side where it holds
    evCache.clear();
    auto c = mRat;
    auto d = mBits;
    if (isF(e) || check({e}, &c, &d) == UNSAT) endProcess(0);
    mRat  = c;
    mBits = d;
    addPc(e);
}

// ------------------------------------------------------------------ memory
struct Cell
{
    Expr* e;
    uint8_t off;
};
struct Page
{
    Cell c[4096];
    int n = 0;
};
static std::unordered_map<uint64_t, Page*> pages;
static inline Page* page(uint64_t a, bool make)
{
    static uint64_t lastK = ~0ull;
    static Page* last     = nullptr;
    uint64_t k            = a >> 12;
    if (k == lastK && last) return last;
    auto it = pages.find(k);
    if (it == pages.end())
    {
        if (!make) return nullptr;
        Page* p = new Page();
        memset(p->c, 0, sizeof p->c);
        pages[k] = p;
        lastK = k;
        last  = p;
        return p;
    }
    lastK = k;
    last  = it->second;
    return last;
}
static inline Cell getCell(uint64_t a)
{
    Page* p = page(a, false);
    return p ? p->c[a & 4095] : Cell{nullptr, 0};
}
static inline void setCell(uint64_t a, Cell c)
{
    Page* p = page(a, c.e != nullptr);
    if (p) p->c[a & 4095] = c;
}

// arena with freed / out-of-bounds detection
static char* arena;
static unsigned char* arenaState; // one byte per 8 bytes: 0 invalid, 1..8 = valid prefix
static size_t arenaSize = 1ull << 32, arenaUsed = 0;
static inline bool inArena(const void* p) { return arena && (char*)p >= arena && (char*)p < arena + arenaSize; }
static void memoryError(const char* what, const void* p);
extern "C" void __sx_access(const void* p, uint64_t n, int store)
{
    if (!inArena(p))
    {
        if ((uint64_t)p < 4096)
        {
            Guard g;
            memoryError(store ? "write through a null pointer" : "read through a null pointer", p);
        }
        return;
    }
    size_t o = (char*)p - arena;
    for (size_t i = o; i < o + n;)
    {
        size_t in = i & 7;
        if (arenaState[i >> 3] <= in || (arenaState[i >> 3] < 8 && o + n > (i & ~7ull) + arenaState[i >> 3]))
        {
            Guard g;
            memoryError(store ? "write to freed or unallocated memory" : "read of freed or unallocated memory", p);
            return;
        }
        i = (i & ~7ull) + 8;
    }
}
static void* arenaAlloc(size_t n, size_t align)
{
    if (!arena)
    {
        arena      = (char*)mmap((void*)0x200000000000ull, arenaSize, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        arenaState = (unsigned char*)mmap(nullptr, arenaSize / 8, PROT_READ | PROT_WRITE,
                                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED) { arena = nullptr; abort(); }
    }
    if (align < 16) align = 16;
    size_t o = (arenaUsed + 32 + align - 1) & ~(align - 1);
    if (o + n + 64 > arenaSize) return nullptr;
    arenaUsed = o + n;
    *(size_t*)(arena + o - 8)  = n;
    *(size_t*)(arena + o - 16) = 0xA110C47EDull;
    for (size_t i = 0; i < n; i += 8) arenaState[(o + i) >> 3] = n - i >= 8 ? 8 : n - i;
    return arena + o;
}
static void arenaFree(void* p)
{
    size_t o = (char*)p - arena;
    if ((o & 15) || *(size_t*)((char*)p - 16) != 0xA110C47EDull)
    {
        Guard g;
        memoryError("release of a pointer that was not allocated", p);
        return;
    }
    if (arenaState[o >> 3] == 0)
    {
        size_t n = *(size_t*)((char*)p - 8);
        if (n != 0)
        {
            Guard g;
            memoryError("double free", p);
            return;
        }
    }
    size_t n = *(size_t*)((char*)p - 8);
    for (size_t i = 0; i < n; i += 8) arenaState[(o + i) >> 3] = 0;
}
static void* xnew(size_t n, size_t al)
{
    if (inRuntime || !sh)
    {
        void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
        if (!p) abort();
        return p;
    }
    void* p = arenaAlloc(n ? n : 1, al);
    if (!p) abort();
    return p;
}
static void xdel(void* p)
{
    if (!p) return;
    if (inArena(p)) arenaFree(p);
    else free(p);
}
void* operator new(size_t n) { return xnew(n, 16); }
void* operator new[](size_t n) { return xnew(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return xnew(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return xnew(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return xnew(n, 16); }
void operator delete(void* p) noexcept { xdel(p); }
void operator delete[](void* p) noexcept { xdel(p); }
void operator delete(void* p, size_t) noexcept { xdel(p); }
void operator delete[](void* p, size_t) noexcept { xdel(p); }
void operator delete(void* p, std::align_val_t) noexcept { xdel(p); }
void operator delete[](void* p, std::align_val_t) noexcept { xdel(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { xdel(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { xdel(p); }

static bool memErrorSeen = false;
static void failHard(const char* kind, const char* lab, const char* note)
{
    // branches the solver left undecided may have led here although the path is infeasible
    std::map<Expr*, Rat> qr   = mRat;
    std::map<Expr*, uint64_t> qb = mBits;
    Res feasible = check({}, &qr, &qb, true, true);
    if (feasible == UNSAT)
    {
        sh->pathsPruned++;
        endProcess(4);
    }
    Label* L = label(lab);
    L->evaluated++;
    if (feasible == UNKNOWN)
    {
        L->unknown++;
        L->witness++;
        endProcess(4);
    }
    L->violated++;
    L->witness++;
    long n = ++sh->violations;
    if (n <= 6) record(kind, lab, {}, note);
    if (n >= 6) sh->stop = 1;
    endProcess(4);
}
static void memoryError(const char* what, const void* p)
{
    if (memErrorSeen) return;
    memErrorSeen = true;
    failHard("memory", "memory-safety", what);
}

// ------------------------------------------------------------------ pass interface
extern "C" {
void __sx_enter(int id)
{
    if (sh && id < 65536 && !sh->fn[id].load(std::memory_order_relaxed)) sh->fn[id].store(1, std::memory_order_relaxed);
}
void __sx_bad(Expr* s, const char* what)
{
    if (!s) return;
    if (s->op == CONST) return;
    Rat v;
    if (polyConst(s, &v)) return;
    Guard g;
    fatal("symbolic operand reaches unsupported operation: %s", what);
}

Expr* __sx_bin(int opc, int ty, Expr* sa, uint64_t ca, Expr* sb, uint64_t cb)
{
    if (!sa && !sb) return nullptr;
    Guard g;
    Expr* a = lift(sa, ty, ca);
    Expr* b = lift(sb, ty, cb);
    int bits = ty & 255;
    if (ty >> 8)
    {
        if (!realMode) return fpbin(opc, a, b);
        switch (opc)
        {
        case OFAdd: return radd(a, b, 1);
        case OFSub: return radd(a, b, -1);
        case OFMul: return rmul(a, b);
        case OFDiv: return rdiv(a, b);
        }
        fatal("float opcode %d", opc);
    }
    (void)bits;
    return bvbin(opc, a, b);
}
Expr* __sx_un(int opc, int ty, Expr* s, uint64_t c)
{
    if (!s) return nullptr;
    Guard g;
    if (realMode) return rneg(s);
    if (s->op == SPECIAL) return mk(SPECIAL, 1, s->bits, {}, 0, s->c ^ (1ull << (s->bits - 1)));
    if (s->op == FPNEG) return s->k[0];
    return mk(FPNEG, 1, s->bits, {s});
}
static Expr* icmp(int pred, Expr* a, Expr* b)
{
    int n = a->bits;
    if (isC(a) && isC(b))
    {
        int64_t x = sxt(a->c, n), y = sxt(b->c, n);
        switch (pred)
        {
        case 32: return mkBool(a->c == b->c);
        case 33: return mkBool(a->c != b->c);
        case 34: return mkBool(a->c > b->c);
        case 35: return mkBool(a->c >= b->c);
        case 36: return mkBool(a->c < b->c);
        case 37: return mkBool(a->c <= b->c);
        case 38: return mkBool(x > y);
        case 39: return mkBool(x >= y);
        case 40: return mkBool(x < y);
        case 41: return mkBool(x <= y);
        }
    }
    if (n == 1)
    {
        switch (pred)
        {
        case 32: return bNot(bXor(a, b));
        case 33: return bXor(a, b);
        case 34: return bAnd(a, bNot(b));
        case 35: return bOr(a, bNot(b));
        case 36: return bAnd(bNot(a), b);
        case 37: return bOr(bNot(a), b);
        case 38: return bAnd(bNot(a), b);
        case 39: return bOr(bNot(a), b);
        case 40: return bAnd(a, bNot(b));
        case 41: return bOr(a, bNot(b));
        }
    }
    if (pred == 33) return bNot(icmp(32, a, b));
    if (isC(a) && pred == 32) std::swap(a, b);
    if (pred == 32 && isC(b))
    {
        if (a->op == ZEXT)
        {
            if (b->c >> a->k[0]->bits) return mkBool(false);
            return icmp(32, a->k[0], mkInt(b->c, a->k[0]->bits));
        }
        if (a->op == SEXT && a->k[0]->bits == 1)
        {
            if (b->c == 0) return bNot(a->k[0]);
            if (b->c == maskBits(~0ull, n)) return a->k[0];
            return mkBool(false);
        }
        if (a->op == ITE && isC(a->k[1]) && isC(a->k[2]))
            return ite(a->k[0], mkBool(a->k[1]->c == b->c), mkBool(a->k[2]->c == b->c));
        if (a->op == FBITS && realMode && b->c == 0) return mkRel(EQ0, a->k[0]->p);
        if (a->op == TRUNC && realMode && a->aux == 0 && a->k[0]->op == FBITS && a->bits == a->k[0]->bits - 1)
            return icmp(32, mk(FBITS, 0, a->k[0]->bits, {rabs(a->k[0]->k[0])}), mkInt(b->c, a->k[0]->bits));
        if (a->op == FBITS && realMode && a->bits == 32 && a->k[0]->op == POLY)
        {
            float f = (float)bitsToD(b->c, 32);
            if (std::isfinite(f)) return eq(a->k[0], mkFloat(b->c, 32));
        }
        if (a->op == CONCAT)
        {
            int lb = a->k[1]->bits;
            return bAnd(icmp(32, a->k[1], mkInt(b->c, lb)), icmp(32, a->k[0], mkInt(b->c >> lb, n - lb)));
        }
        if (a->op == BVBIN && a->aux == OOr && b->c == 0)
            return bAnd(icmp(32, a->k[0], b), icmp(32, a->k[1], b));
    }
    if (a->op == FBITS && realMode && isC(b) && a->k[0]->op == POLY)
    {
        // sign bit tests (no signed zeros in REAL mode)
        if (pred == 40 && b->c == 0) return mkRel(LT0, a->k[0]->p);
        if (pred == 38 && b->c == maskBits(~0ull, n)) return bNot(mkRel(LT0, a->k[0]->p));
    }
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->bits == b->k[0]->bits)
    {
        int up = pred >= 38 ? pred - 4 : pred;
        return icmp(up, a->k[0], b->k[0]);
    }
    if (a == b) return mkBool(pred == 32 || pred == 35 || pred == 37 || pred == 39 || pred == 41);
    return mk(BVCMP, 0, 1, {a, b}, pred);
}
Expr* __sx_cmp(int pred, int ty, Expr* sa, uint64_t ca, Expr* sb, uint64_t cb)
{
    if (!sa && !sb) return nullptr;
    Guard g;
    Expr* a = lift(sa, ty, ca);
    Expr* b = lift(sb, ty, cb);
    if (!(ty >> 8)) return icmp(pred, a, b);
    if (pred == 0) return mkBool(false);
    if (pred == 15) return mkBool(true);
    if (!realMode)
    {
        if (a->op == SPECIAL && b->op == SPECIAL)
        {
            evCache.clear();
            Expr* e = mk(FPCMP, 0, 1, {a, b}, pred);
            return mkBool(eval(e).b);
        }
        return mk(FPCMP, 0, 1, {a, b}, pred);
    }
    if (a->op == SPECIAL || b->op == SPECIAL)
    {
        double x = a->op == SPECIAL ? sv(a) : 0, y = b->op == SPECIAL ? sv(b) : 0;
        Expr* t = mk(FPCMP, 0, 1, {special(x, 64), special(y, 64)}, pred);
        evCache.clear();
        return mkBool(eval(t).b);
    }
    switch (pred & 7)
    {
    case 1: return eq(a, b);
    case 2: return lt(b, a);
    case 3: return le(b, a);
    case 4: return lt(a, b);
    case 5: return le(a, b);
    case 6: return bNot(eq(a, b));
    case 7: return mkBool(true);  // ord
    case 0: return mkBool(false); // uno
    }
    return nullptr;
}
Expr* __sx_select(Expr* sc, int c, int ty, Expr* sa, uint64_t ca, Expr* sb, uint64_t cb)
{
    if (!sc) return c ? sa : sb;
    Guard g;
    // case splits keep the arithmetic free of conditional terms
    if (splitSelects && (ty >> 8) && realMode && !isC(sc)) return decide(sc, 0) ? lift(sa, ty, ca) : lift(sb, ty, cb);
    return ite(sc, lift(sa, ty, ca), lift(sb, ty, cb));
}
int __sx_branch(Expr* s, int c, int line)
{
    if (!s) return c & 1;
    Guard g;
    return decide(s, line);
}
uint64_t __sx_conc(Expr* s, int ty, uint64_t c)
{
    if (!s) return c;
    Guard g;
    if (isC(s)) return s->c;
    if (trace) logLine("[%d] concretise %d bits op %d\n", getpid(), s->bits, (int)s->op);
    if (trace && getenv("SX_ABORT_CONC")) abort();
    if (s->bits == 1) return decide(s);
    if (s->op == ZEXT && s->k[0]->bits == 1) return decide(s->k[0]) ? 1 : 0;
    if (s->op == SEXT && s->k[0]->bits == 1) return decide(s->k[0]) ? maskBits(~0ull, s->bits) : 0;
    for (int i = 0; i < 4096; ++i)
    {
        evCache.clear();
        Ev v = eval(s);
        if (!v.ok)
        {
            auto a = mRat;
            auto b = mBits;
            if (check({icmp(32, s, s)}, &a, &b) != SAT) {}
            // query a value
            auto q = mk(BVCMP, 0, 1, {s, s}, 41);
            std::map<Expr*, Rat> qr   = mRat;
            std::map<Expr*, uint64_t> qb = mBits;
            if (check({q}, &qr, &qb, true) != SAT) fatal("cannot concretise");
            mRat  = qr;
            mBits = qb;
            evCache.clear();
            v = eval(s);
            if (!v.ok) fatal("cannot evaluate a value to concretise");
        }
        if (decide(icmp(32, s, mkInt(v.b, s->bits)))) return v.b;
    }
    fatal("too many values while concretising");
}
static Expr* castImpl(int opc, int from, int to, Expr* s)
{
    int fb = from & 255, tb = to & 255;
    switch (opc)
    {
    case CTrunc: return extractBits(s, 0, tb);
    case CZExt:
        if (isC(s)) return mkInt(s->c, tb);
        if (s->op == ZEXT) return mk(ZEXT, 0, tb, {s->k[0]});
        return mk(ZEXT, 0, tb, {s});
    case CSExt:
        if (isC(s)) return mkInt((uint64_t)sxt(s->c, fb), tb);
        return mk(SEXT, 0, tb, {s});
    case CBitCast:
        if ((from >> 8) == (to >> 8)) return s;
        if (to >> 8)
        {
            if (s->op == FBITS) return s->k[0];
            if (isC(s)) return mkFloat(s->c, tb);
            if (s->op == ITE)
                return ite(s->k[0], castImpl(opc, from, to, s->k[1]), castImpl(opc, from, to, s->k[2]));
            if (realMode) fatal("float made from symbolic bits");
            return mk(BITSF, 1, tb, {s});
        }
        {
            Rat v;
            if (s->op == SPECIAL) return mkInt(s->c, tb);
            // a constant that no float represents keeps its exact value
            if (polyConst(s, &v))
            {
                double d = v.convert_to<double>();
                if (tb == 32) d = (float)d;
                if (Rat(d) == v || tb != 32) return mkInt(dToBits(d, tb), tb);
            }
            if (s->op == BITSF) return s->k[0];
        }
        return mk(FBITS, 0, tb, {s});
    case CFPExt:
    case CFPTrunc:
        if (realMode)
        {
            if (s->op == SPECIAL) return special(sv(s), tb);
            Range r = s->r;
            if (opc == CFPTrunc) r = opRange(r, tb);
            Expr* e = mkPoly(s->p, tb, r);
            return e;
        }
        if (s->op == SPECIAL) return mk(SPECIAL, 1, tb, {}, 0, dToBits(sv(s), tb));
        return mk(FPCAST, 1, tb, {s});
    case CUIToFP:
    case CSIToFP:
    {
        bool sg = opc == CSIToFP;
        if (isC(s)) return mkFloat(dToBits(sg ? (double)sxt(s->c, fb) : (double)s->c, tb), tb);
        Expr* b = s;
        double one = 1;
        if (s->bits == 1) one = sg ? -1 : 1;
        else if (s->op == ZEXT && s->k[0]->bits == 1) b = s->k[0];
        else if (s->op == SEXT && s->k[0]->bits == 1) b = s->k[0], one = sg ? -1 : (double)maskBits(~0ull, fb);
        else b = nullptr;
        if (b) return ite(b, mkFloat(dToBits(one, tb), tb), mkFloat(0, tb));
        if (s->op == ITE)
            return ite(s->k[0], castImpl(opc, from, to, s->k[1]), castImpl(opc, from, to, s->k[2]));
        if (!realMode) return mk(sg ? SITOFP : UITOFP, 1, tb, {s});
        uint64_t v = __sx_conc(s, from, 0);
        return mkFloat(dToBits(sg ? (double)sxt(v, fb) : (double)v, tb), tb);
    }
    case CFPToSI:
    case CFPToUI:
    {
        Rat v;
        if (polyConst(s, &v))
        {
            double d = v.convert_to<double>();
            return mkInt(opc == CFPToSI ? (uint64_t)(int64_t)d : (uint64_t)d, tb);
        }
        if (realMode && s->op == POLY && s->r.ok)
        {
            // bounded lattice value: enumerate the truncated values
            Int lo = s->r.lo >> s->r.scale, hi = (s->r.hi >> s->r.scale) + 1;
            for (Int k = lo; k <= hi; ++k)
            {
                Rat a(k), b(k + 1);
                Expr* c;
                if (k > 0) c = bAnd(le(mkRat(a, 32), s), lt(s, mkRat(b, 32)));
                else if (k < 0) c = bAnd(lt(mkRat(a - 1, 32), s), le(s, mkRat(a, 32)));
                else c = bAnd(lt(mkRat(-1, 32), s), lt(s, mkRat(1, 32)));
                if (decide(c)) return mkInt((uint64_t)(int64_t)k, tb);
            }
        }
        fatal("float to int conversion of a symbolic value");
    }
    }
    fatal("cast opcode %d", opc);
}
Expr* __sx_cast(int opc, int from, int to, Expr* s, uint64_t c)
{
    if (!s) return nullptr;
    Guard g;
    return castImpl(opc, from, to, s);
}
Expr* __sx_concat(Expr* hi, int info, Expr* lo, uint64_t hiV, Expr*, uint64_t loV)
{
    if (!hi && !lo) return nullptr;
    Guard g;
    int hb = info >> 16, lb = info & 0xffff;
    Expr* h = hi ? hi : mkInt(hiV, hb);
    Expr* l = lo ? lo : mkInt(loV, lb);
    if (isC(h) && isC(l)) return mkInt((h->c << lb) | l->c, hb + lb);
    return mk(CONCAT, 0, hb + lb, {h, l});
}

Expr* __sx_load(const void* p, int ty)
{
    uint64_t a = (uint64_t)p;
    int bits   = ty & 255;
    int n      = (bits + 7) / 8;
    Page* pg   = page(a, false);
    if (!pg && (a & 4095) + n <= 4096) return nullptr;
    Cell c[8];
    bool any = false;
    for (int i = 0; i < n; ++i)
    {
        c[i] = getCell(a + i);
        any |= c[i].e != nullptr;
    }
    if (!any) return nullptr;
    Guard g;
    // whole value
    bool whole = c[0].e && c[0].off == 0;
    for (int i = 1; i < n && whole; ++i) whole = c[i].e == c[0].e && c[i].off == i;
    if (whole && ((c[0].e->bits + 7) / 8 == n))
    {
        Expr* e = c[0].e;
        if (e->kind == (ty >> 8) && e->bits == bits) return e;
        if (e->kind == 0 && (ty >> 8) == 0)
        {
            if (e->bits > bits) return extractBits(e, 0, bits);
            return castImpl(CZExt, e->bits, bits, e);
        }
        return castImpl(CBitCast, (e->kind << 8) | e->bits, ty, e);
    }
    // assemble from runs
    Expr* acc = nullptr;
    for (int i = 0; i < n;)
    {
        Expr* part;
        int len;
        if (!c[i].e)
        {
            len = 1;
            while (i + len < n && !c[i + len].e) ++len;
            uint64_t v = 0;
            memcpy(&v, (const char*)p + i, len);
            part = mkInt(v, len * 8);
        }
        else
        {
            len = 1;
            while (i + len < n && c[i + len].e == c[i].e && c[i + len].off == c[i].off + len) ++len;
            Expr* e = c[i].e;
            if (e->kind == 1) e = castImpl(CBitCast, (1 << 8) | e->bits, e->bits, e);
            if (e->bits < 8) e = castImpl(CZExt, e->bits, 8, e);
            part = extractBits(e, c[i].off * 8, len * 8);
        }
        if (!acc) acc = part;
        else if (isC(part) && isC(acc)) acc = mkInt((part->c << acc->bits) | acc->c, acc->bits + part->bits);
        else acc = mk(CONCAT, 0, acc->bits + part->bits, {part, acc});
        i += len;
    }
    if (acc->bits > bits) acc = extractBits(acc, 0, bits);
    if (ty >> 8) return castImpl(CBitCast, bits, ty, acc);
    return acc;
}
void __sx_store(void* p, int ty, Expr* s, uint64_t)
{
    int n = ((ty & 255) + 7) / 8;
    uint64_t a = (uint64_t)p;
    if (!s)
    {
        if (!page(a, false) && (a & 4095) + n <= 4096) return;
        for (int i = 0; i < n; ++i) setCell(a + i, {nullptr, 0});
        return;
    }
    Guard g;
    for (int i = 0; i < n; ++i) setCell(a + i, {s, (uint8_t)i});
}
void __sx_clear(void* p, uint64_t n)
{
    uint64_t a = (uint64_t)p, e = a + n;
    while (a < e)
    {
        uint64_t pe = std::min(e, (a | 4095) + 1);
        if (Page* pg = page(a, false)) memset(&pg->c[a & 4095], 0, (pe - a) * sizeof(Cell));
        a = pe;
    }
}
void __sx_memcpy(void* d, const void* s, uint64_t n)
{
    if (d == s || n == 0) return;
    if (!s)
    {
        __sx_clear(d, n);
        return;
    }
    Guard g;
    std::vector<Cell> t(n);
    bool any = false;
    for (uint64_t i = 0; i < n; ++i)
    {
        t[i] = getCell((uint64_t)s + i);
        any |= t[i].e != nullptr;
    }
    if (!any)
    {
        __sx_clear(d, n);
        return;
    }
    for (uint64_t i = 0; i < n; ++i) setCell((uint64_t)d + i, t[i]);
}
void __sx_memset(void* d, Expr* s, uint64_t n)
{
    if (!s || isC(s))
    {
        __sx_clear(d, n);
        return;
    }
    Guard g;
    for (uint64_t i = 0; i < n; ++i) setCell((uint64_t)d + i, {s, 0});
}
void __sx_check_mem(const void* p, uint64_t n, const char* what)
{
    for (uint64_t i = 0; i < n; ++i)
        if (getCell((uint64_t)p + i).e)
        {
            Guard g;
            fatal("%s on symbolic memory", what);
        }
}
static Expr* minmax(Expr* a, Expr* b, bool mn)
{
    if (realMode)
    {
        if (a->op == SPECIAL && std::isnan(sv(a))) return b;
        if (b->op == SPECIAL && std::isnan(sv(b))) return a;
        if (a->op == SPECIAL) return (sv(a) > 0) == mn ? b : a;
        if (b->op == SPECIAL) return (sv(b) > 0) == mn ? a : b;
        return ite(mn ? lt(a, b) : lt(b, a), a, b);
    }
    Expr* n = mk(FPCMP, 0, 1, {b, b}, 8);
    Expr* c = mk(FPCMP, 0, 1, {a, b}, mn ? 4 : 2);
    return ite(bOr(c, n), a, b);
}
Expr* __sx_math(int id, int ty, Expr* sa, uint64_t ca, Expr* sb, uint64_t cb)
{
    if (!sa && !sb) return nullptr;
    Guard g;
    Expr* a = lift(sa, ty, ca);
    int bits = ty & 255;
    if (id == 60)
    {
        int mask = cb;
        if (realMode)
        {
            if (a->op == SPECIAL)
            {
                double d = sv(a);
                return mkBool(std::isnan(d) ? mask & 3 : d > 0 ? mask & 512 : mask & 4);
            }
            if ((mask & 0x1f8) == 0) return mkBool(false);
            if ((mask & 0x1f8) == 0x1f8) return mkBool(true);
            fatal("is.fpclass mask %x", mask);
        }
        return mk(FPCLASS, 0, 1, {a}, mask);
    }
    Expr* b = lift(sb, ty, cb);
    if (id >= 40)
    {
        switch (id)
        {
        case 40: return ite(icmp(38, a, b), a, b);
        case 41: return ite(icmp(40, a, b), a, b);
        case 42: return ite(icmp(34, a, b), a, b);
        case 43: return ite(icmp(36, a, b), a, b);
        case 44: return ite(icmp(40, a, mkInt(0, bits)), bvbin(OSub, mkInt(0, bits), a), a);
        }
    }
    if (id == 3 || id == 4) return minmax(a, b, id == 3);
    if (realMode)
    {
        switch (id)
        {
        case 1: return rsqrt_(a);
        case 2: return rabs(a);
        case 5:
        case 6:
        {
            if (a->op == SPECIAL) return special(NAN, bits);
            Poly s, c;
            sincos(a->p, bits, s, c);
            return mkPoly(id == 5 ? s : c, bits, {});
        }
        case 8:
        {
            if (a->op == SPECIAL || b->op == SPECIAL) fatal("copysign with non finite value");
            Expr* m = rabs(a);
            return ite(mkRel(LT0, b->p), rneg(m), m);
        }
        case 15: return rsqrt_(radd(rmul(a, a), rmul(b, b), 1));
        default:
            if (a->op == SPECIAL && (id >= 9 && id <= 12)) return a;
            if (id >= 9 && id <= 12 && a->r.ok)
            {
                if (a->r.scale == 0) return a;
                Int lo = (a->r.lo >> a->r.scale) - 1, hi = (a->r.hi >> a->r.scale) + 1;
                Rat half(1, 2);
                for (Int k = lo; k <= hi; ++k)
                {
                    Rat v(k);
                    Expr *K = mkRat(v, bits), *c;
                    if (id == 9) c = bAnd(le(K, a), lt(a, mkRat(v + 1, bits)));
                    else if (id == 10) c = bAnd(le(a, K), lt(mkRat(v - 1, bits), a));
                    else if (id == 11) c = v > 0 ? bAnd(le(mkRat(v - half, bits), a), lt(a, mkRat(v + half, bits)))
                                      : v < 0 ? bAnd(lt(mkRat(v - half, bits), a), le(a, mkRat(v + half, bits)))
                                              : bAnd(lt(mkRat(-half, bits), a), lt(a, mkRat(half, bits)));
                    else c = v > 0 ? bAnd(le(K, a), lt(a, mkRat(v + 1, bits)))
                           : v < 0 ? bAnd(le(a, K), lt(mkRat(v - 1, bits), a))
                                   : bAnd(lt(mkRat(-1, bits), a), lt(a, mkRat(1, bits)));
                    if (decide(c)) return K;
                }
                fatal("rounding fell through");
            }
            fatal("math function %d on a symbolic value", id);
        }
    }
    switch (id)
    {
    case 1: return mk(FPSQRT, 1, bits, {a});
    case 2: return a->op == SPECIAL ? mk(SPECIAL, 1, bits, {}, 0, a->c & ~(1ull << (bits - 1))) : mk(FPABS, 1, bits, {a});
    case 9: case 10: case 11: case 12: case 17: return mk(FPROUND, 1, bits, {a}, id);
    }
    fatal("math function %d on a symbolic fp value", id);
}
} // extern C

static Expr* fpbin(int opc, Expr* a, Expr* b)
{
    if (a->op == SPECIAL && b->op == SPECIAL)
        return mk(SPECIAL, 1, a->bits, {}, 0, dToBits(hostBin(opc, sv(a), sv(b), a->bits), a->bits));
    return mk(FPBIN, 1, a->bits, {a, b}, opc);
}

// ------------------------------------------------------------------ harness api
static std::map<std::string, int> nameUse;
static std::string uniq(const char* n)
{
    int k = nameUse[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static void ret(Expr* e) { __sx_rets[0] = e; }

extern "C" {
float __sx_api_real(const char* n, float lo, float hi)
{
    Guard g;
    if (!realMode) fatal("real input in an fp harness");
    Expr t;
    t.op = VAR;
    t.kind = 1;
    t.bits = 32;
    t.name = uniq(n);
    t.bounded = true;
    t.lo = ratOfDouble(lo);
    t.hi = ratOfDouble(hi);
    Expr* v = intern(std::move(t));
    inputs.push_back({v->name, 'f', v, 0, 0});
    Rat init = 0;
    if (init < v->lo) init = v->lo;
    if (init > v->hi) init = v->hi;
    mRat[v] = init;
    ret(atomPoly(v));
    return 1.0f;
}
float __sx_api_lattice(const char* n, int lo, int hi, int scale)
{
    Guard g;
    Expr t;
    t.op = VAR;
    t.kind = 1;
    t.bits = 32;
    t.name = uniq(n);
    if (realMode)
    {
        t.bounded = true;
        t.lo = Rat(Int(lo), pow2(scale));
        t.hi = Rat(Int(hi), pow2(scale));
        t.r.ok = true;
        t.r.scale = scale;
        t.r.lo = lo;
        t.r.hi = hi;
    }
    else
        fatal("lattice input in an fp harness");
    Expr* v = intern(std::move(t));
    inputs.push_back({v->name, 'f', v, 0, scale});
    Rat init = 0;
    if (init < v->lo) init = v->lo;
    if (init > v->hi) init = v->hi;
    mRat[v] = init;
    ret(atomPoly(v));
    return 1.0f;
}
float __sx_api_fp(const char* n)
{
    Guard g;
    if (realMode) fatal("fp input in a real harness");
    Expr t;
    t.op = VAR;
    t.kind = 1;
    t.bits = 32;
    t.name = uniq(n);
    Expr* v = intern(std::move(t));
    inputs.push_back({v->name, 'f', v, 0, 0});
    mBits[v] = 0;
    ret(v);
    return 1.0f;
}
int __sx_api_int(const char* n, int lo, int hi)
{
    Guard g;
    Expr t;
    t.op = VAR;
    t.kind = 0;
    t.bits = 32;
    t.name = uniq(n);
    t.bounded = true;
    t.lo = lo;
    t.hi = hi;
    Expr* v = intern(std::move(t));
    inputs.push_back({v->name, 'i', v, 0, 0});
    int init = lo > 0 ? lo : hi < 0 ? hi : 0;
    mBits[v] = (uint32_t)init;
    ret(v);
    return init;
}
bool __sx_api_bool(const char* n)
{
    Guard g;
    Expr t;
    t.op = VAR;
    t.kind = 0;
    t.bits = 1;
    t.name = uniq(n);
    Expr* v = intern(std::move(t));
    inputs.push_back({v->name, 'i', v, 0, 0});
    mBits[v] = 0;
    ret(v);
    return false;
}
// forks into n paths
int __sx_choose(const char* n, int k)
{
    Guard g;
    int v = k - 1;
    for (int i = 0; i < k - 1; ++i)
    {
        if (forkPath())
        {
            v = i;
            break;
        }
    }
    inputs.push_back({uniq(n), 'c', nullptr, v, 0});
    return v;
}
void __sx_api_assume(bool c)
{
    Guard g;
    Expr* e = __sx_args[0];
    if (!e) e = mkBool(c);
    if (isT(e)) return;
    if (isF(e))
    {
        sh->pathsPruned++;
        endProcess(6);
    }
    evCache.clear();
    Ev v = eval(e);
    if (!(v.ok && v.b))
    {
        auto a = mRat;
        auto b = mBits;
        Res r  = check({e}, &a, &b, true);
        if (r == UNSAT)
        {
            sh->pathsPruned++;
            endProcess(6);
        }
        if (r == SAT)
        {
            mRat  = a;
            mBits = b;
        }
        else
        {
            sh->unknownBranches++;
            mRat.clear();
            mBits.clear();
        }
    }
    addPc(e);
}
void __sx_api_check(const char* lab, bool c)
{
    Guard g;
    Expr* e = __sx_args[0]; // pointers have no slot
    if (!e) e = mkBool(c);
    doAssert(e, lab);
}
void __sx_api_eq(const char* lab, float a, float b, float)
{
    Guard g;
    Expr *x = __sx_args[0], *y = __sx_args[1];
    x = lift(x, (1 << 8) | 32, dToBits(a, 32));
    y = lift(y, (1 << 8) | 32, dToBits(b, 32));
    if (!realMode)
    {
        doAssert(mk(FPCMP, 0, 1, {x, y}, 1), lab);
        return;
    }
    if (x->op == SPECIAL || y->op == SPECIAL)
    {
        doAssert(mkBool(x == y && !std::isnan(sv(x))), lab);
        return;
    }
    Poly d  = pAdd(x->p, y->p, -1);
    Poly cl = clearInv(d);
    std::vector<Expr*> pref;
    if (enc != ENC_BV)
        for (double m : {1.0, 0.05})
        {
            Poly dm = d;
            addTo(dm, {}, Rat(-1) * ratOfDouble(m)); // d >= m
            Poly dp = pScale(d, -1);
            addTo(dp, {}, Rat(-1) * ratOfDouble(m));
            pref.push_back(bOr(bNot(mkRel(LT0, dm)), bNot(mkRel(LT0, dp))));
        }
    doAssert(mkRel(EQ0, cl), lab, pref);
}
void __sx_api_observe(const char* n, float v)
{
    Guard g;
    observed.push_back({uniq((std::string("obs:") + n).c_str()), __sx_args[0], v});
}
// a violation at this point, without condition
void __sx_fail(const char* lab)
{
    Guard g;
    doAssert(mkBool(false), lab);
}
void __sx_done()
{
    Guard g;
    endProcess(0);
}
int __sx_tier() { return tierLevel; }
int __sx_symbolic() { return 1; }
// the bytes get fresh unconstrained float inputs
void __sx_symbolize(void* p, uint64_t n, const char* name)
{
    for (uint64_t i = 0; i + 4 <= n; i += 4)
    {
        if (realMode) __sx_api_real(name, -1000, 1000);
        else __sx_api_fp(name);
        Expr* e = __sx_rets[0];
        __sx_store((char*)p + i, (1 << 8) | 32, e, 0);
    }
}
bool __sx_is_symbolic_f(float)
{
    return false;
}
}

struct Reg
{
    const char* name;
    const char* opts;
    void (*fn)();
};
static Reg regs[256];
static int nregs;
extern "C" void __sx_register(const char* n, const char* o, void (*f)())
{
    regs[nregs++] = {n, o, f};
}

// ------------------------------------------------------------------ main
static bool inHandler = false;
static void onAlarm(int)
{
    if (inSolver || inRuntime)
    {
        // the resource limit normally ends a query; some algebraic computations do not consume any
        if (inSolver && ++solverTicks >= solverTickLimit) Z3_interrupt(*Z);
        if (now() > deadline + 30)
        {
            sh->truncated++;
            if (holdsToken) sh->tokens++;
            _exit(5);
        }
        return;
    }
    if (++ticks > hangTicks)
    {
        ++inRuntime;
        sh->hangs++;
        failHard("hang", "termination", "no progress: the code under test did not return within the time bound");
    }
}
static void onCrash(int s)
{
    if (inHandler) _exit(9);
    inHandler = true;
    ++inRuntime;
    if (inSolver) { sh->fatal++; logLine("FATAL crash inside the solver\n"); _exit(9); }
    if (inRuntime > 1) { sh->fatal++; logLine("FATAL crash inside the runtime\n"); _exit(9); }
    sh->crashes++;
    failHard("crash", "no-crash", s == SIGSEGV ? "segmentation fault" : s == SIGABRT ? "abort" : s == SIGFPE ? "fpe" : "illegal");
}
static void onTerminate()
{
    if (inRuntime)
    {
        std::string w = "unknown exception";
        if (auto p = std::current_exception())
            try { std::rethrow_exception(p); }
            catch (z3::exception& e) { w = e.msg(); }
            catch (std::exception& e) { w = e.what(); }
            catch (...) {}
        fatal(("exception inside the runtime: " + w).c_str());
    }
    ++inRuntime;
    sh->uncaught++;
    failHard("exception", "no-uncaught-exception", "std::terminate");
}

int main(int argc, char** argv)
{
    // prog HARNESS OUTDIR TIER JOBS DEADLINE
    ++inRuntime;
    if (argc < 2 || !strcmp(argv[1], "--list"))
    {
        for (int i = 0; i < nregs; ++i) printf("%s\t%s\n", regs[i].name, regs[i].opts);
        return 0;
    }
    hname  = argv[1];
    outDir = argc > 2 ? argv[2] : ".";
    tierLevel = argc > 3 ? atoi(argv[3]) : 0;
    int jobs  = argc > 4 ? atoi(argv[4]) : 8;
    double lim = argc > 5 ? atof(argv[5]) : 600;
    deadline   = now() + lim;
    trace      = getenv("SX_TRACE");
    Reg* r     = nullptr;
    for (int i = 0; i < nregs; ++i)
        if (!strcmp(regs[i].name, hname)) r = &regs[i];
    if (!r) { fprintf(stderr, "no harness %s\n", hname); return 2; }
    std::string o = std::string(",") + r->opts + ",";
    auto has = [&](const char* s) { return o.find(std::string(",") + s + ",") != std::string::npos; };
    auto val = [&](const char* s, double d) {
        size_t p = o.find(std::string(",") + s + "=");
        return p == std::string::npos ? d : atof(o.c_str() + p + strlen(s) + 2);
    };
    realMode = !has("fp");
    enc      = has("bv") ? ENC_BV : has("int") ? ENC_INT : ENC_REAL;
    reqExact = has("exact");
    splitSelects = has("split");
    rlimit1  = val("r1", rlimit1);
    rlimit2  = val("r2", rlimit2);
    maxForks = val("maxforks", maxForks);
    hangTicks = val("hang", hangTicks);

    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->tokens = jobs;
    double t0 = now();
    pid_t p   = fork();
    if (p == 0)
    {
        sh->tokens--;
        stack_t ss{};
        ss.ss_size = 64 << 20;
        ss.ss_sp   = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = onCrash;
        sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
        sa.sa_handler = onAlarm;
        sa.sa_flags   = SA_RESTART;
        sigaction(SIGVTALRM, &sa, nullptr);
        std::set_terminate(onTerminate);
        Z = new z3::context();
        // start the code under test
        armTimer();
        --inRuntime;
        r->fn();
        ++inRuntime;
        endProcess(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) == 9)) sh->fatal++;
    // statistics
    FILE* f = fopen((std::string(outDir) + "/stats.json").c_str(), "w");
    fprintf(f, "{\"harness\":\"%s\",\"opts\":\"%s\",\"wall_s\":%.3f,", hname, r->opts, now() - t0);
#define S(x) fprintf(f, "\"%s\":%ld,", #x, sh->x.load())
    S(paths); S(pathsPruned); S(queries); S(qsat); S(qunsat); S(qunknown); S(branches); S(forks); S(decidedByModel);
    S(asserts); S(exactOps); S(inexactOps); S(solverUs); S(violations); S(crashes); S(hangs); S(truncated); S(fatal);
    S(unknownBranches); S(samples); S(maxDepth); S(divForks); S(uncaught); S(cacheHits);
    fprintf(f, "\"labels\":{");
    for (int i = 0; i < sh->nlabels; ++i)
    {
        Label& L = sh->labels[i];
        fprintf(f, "%s\"%s\":{\"evaluated\":%ld,\"folded\":%ld,\"discharged\":%ld,\"violated\":%ld,\"unknown\":%ld,\"witness\":%ld}",
                i ? "," : "", jsonEsc(L.name).c_str(), L.evaluated.load(), L.folded.load(), L.discharged.load(),
                L.violated.load(), L.unknown.load(), L.witness.load());
    }
    fprintf(f, "},\"functions\":[");
    std::set<std::string> fnset;
    for (int i = 0; i < __sx_fn_count && i < 65536; ++i)
        if (sh->fn[i])
        {
            std::string t = __sx_fn_names[i], cur;
            for (char ch : t)
                if (ch == ';') fnset.insert(cur), cur.clear();
                else cur += ch;
        }
    bool first = true;
    for (auto& n : fnset)
    {
        fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEsc(n).c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    return sh->fatal ? 3 : 0;
}
