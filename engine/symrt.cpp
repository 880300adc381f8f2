// Run-time of the symbolic executor.
//
// Code under test is compiled by g++ from /repo's working tree and runs natively; a symbolic double is a *signaling* NaN whose
// payload is the index of a node of a hash-consed term DAG (sign bit = negation).  SSE arithmetic on a signaling NaN raises
// #I, which is unmasked here: the SIGFPE handler decodes the instruction, applies it to the terms and resumes after it.  Moves,
// copies, containers, virtual calls, threads... need nothing.  libm entry points are interposed.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <set>
#include <stdexcept>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <emmintrin.h>
#include <algorithm>
#include <sys/syscall.h>

typedef uint64_t u64;
static const u64 SIGN = 1ull << 63, ABSM = ~SIGN;
static const u64 TAG = 0x7FF0000000000000ull | (0x2A5B1ull << 32), TAGMASK = 0x7FFFFFFF00000000ull;

static inline bool isb(u64 x) { return (x & TAGMASK) == TAG; }
static inline u64 tobits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static inline double todbl(u64 u) { double d; memcpy(&d, &u, 8); return d; }

enum Op { CONST, VAR, ADD, MUL, DIV, SQRT, SIN, COS, TANH, COSH, SINH, EXP, LOG, ATAN2, ASIN, ACOS, POW, TAN, NOPS };
static const char* opnames[] = {"const", "var", "add", "mul", "div", "sqrt", "sin", "cos", "tanh", "cosh", "sinh", "exp", "log", "atan2", "asin", "acos", "pow", "tan"};

struct Node { int op; u64 a, b; double v; };   // a,b: boxed handles or raw double bits
struct Key { int op; u64 a, b; bool operator==(const Key& o) const { return op == o.op && a == o.a && b == o.b; } };
struct KeyHash { size_t operator()(const Key& k) const { u64 h = k.a * 0x9E3779B97F4A7C15ull ^ (k.b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full ^ (u64)k.op * 0x165667B19E3779F9ull; return h ^ (h >> 29); } };

// outcome sets of a comparison: 1 {<}, 2 {=}, 4 {>}; mask: what the path knows, alt: the remaining outcomes (split: one by one)
struct Atom { u64 a, b; int mask; bool assume; int pred; int alt; bool split; };
struct Obl { std::string name, kind, f, v; u64 a, b; double tol; size_t natoms; };
struct VarInfo { std::string name; double lo, hi; u64 h; };

// All engine state is heap allocated and leaked: it must survive static destruction.
struct State {
    std::mutex mtx;
    std::vector<Node> nodes;
    std::unordered_map<Key, uint32_t, KeyHash> cons;
    std::vector<Atom> atoms; std::map<std::pair<u64, u64>, int> known;
    std::vector<Obl> obls;
    std::vector<VarInfo> vars;
    std::map<std::string, double> inputs;
    std::vector<std::pair<std::string, double>> observed;
    std::vector<std::string> reached;
    std::vector<std::pair<std::string, std::pair<int,int>>> choices;
    std::vector<u64> denoms; std::set<u64> denomSet;
    std::string outsideWhy;
    bool symbolic = false;
    bool active = false;
    unsigned long traps = 0, concretised = 0;
    std::unordered_map<u64, u64> diffCache;
};
static State* S = new State;

#define REAL(name) ([]() { static auto f = (decltype(&::name)) dlsym(RTLD_NEXT, #name); return f; }())
static void die(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#include <cstdarg>
static void die(const char* fmt, ...) {
    char buf[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n > 0) { ssize_t r = write(2, buf, std::min<size_t>(n, sizeof buf)); (void) r; }
    _exit(97);
}

static inline double cval(u64 x) { if (!isb(x)) return todbl(x); double v = S->nodes[(uint32_t) x].v; return (x & SIGN) ? -v : v; }

// ---- all functions below assume the lock is held -----------------------------------------------------------------------------
static u64 mk(int op, u64 a, u64 b, double v) {
    Key k{op, a, b};
    auto it = S->cons.find(k);
    if (it != S->cons.end()) return TAG | it->second;
    uint32_t id = (uint32_t) S->nodes.size();
    S->nodes.push_back({op, a, b, v});
    S->cons.emplace(k, id);
    return TAG | id;
}
static double fcall1(int op, double x) {
    switch (op) {
    case SQRT: return _mm_cvtsd_f64(_mm_sqrt_sd(_mm_set_sd(x), _mm_set_sd(x)));
    case SIN: return REAL(sin)(x); case COS: return REAL(cos)(x); case TANH: return REAL(tanh)(x); case COSH: return REAL(cosh)(x);
    case SINH: return REAL(sinh)(x); case EXP: return REAL(exp)(x); case LOG: return REAL(log)(x); case ASIN: return REAL(asin)(x);
    case ACOS: return REAL(acos)(x); case TAN: return REAL(tan)(x);
    }
    die("fcall1 %d\n", op);
}
static u64 s_add(u64 a, u64 b) {
    if (!isb(a) && !isb(b)) return tobits(todbl(a) + todbl(b));
    if (!isb(a) && todbl(a) == 0) return b;
    if (!isb(b) && todbl(b) == 0) return a;
    if (isb(a) && isb(b) && (a ^ b) == SIGN) return 0;
    double v = cval(a) + cval(b);
    // canonical order: larger unsigned magnitude key first; sign of the first factored out
    if ((a & ABSM) < (b & ABSM)) std::swap(a, b);
    bool neg = a & SIGN;
    if (!isb(a)) die("s_add order\n");
    if (neg) { a ^= SIGN; b ^= SIGN; v = -v; }
    return mk(ADD, a, b, v) ^ (neg ? SIGN : 0);
}
static u64 s_mul(u64 a, u64 b) {
    if (!isb(a) && !isb(b)) return tobits(todbl(a) * todbl(b));
    if (!isb(a)) { double d = todbl(a); if (d == 0) return 0; if (d == 1) return b; if (d == -1) return b ^ SIGN; }
    if (!isb(b)) { double d = todbl(b); if (d == 0) return 0; if (d == 1) return a; if (d == -1) return a ^ SIGN; }
    u64 sg = (a ^ b) & SIGN; a &= ABSM; b &= ABSM;
    if (a < b) std::swap(a, b);
    return mk(MUL, a, b, cval(a) * cval(b)) ^ sg;
}
static u64 s_div(u64 a, u64 b) {
    if (!isb(a) && !isb(b)) return tobits(todbl(a) / todbl(b));
    if (!isb(b)) { double d = todbl(b); if (d == 1) return a; if (d == -1) return a ^ SIGN; }
    else if (S->denomSet.insert(b & ABSM).second) S->denoms.push_back(b & ABSM);
    if (!isb(a) && todbl(a) == 0) return 0;
    u64 sg = (a ^ b) & SIGN; a &= ABSM; b &= ABSM;
    return mk(DIV, a, b, cval(a) / cval(b)) ^ sg;
}
static u64 s_fun(int op, u64 a) {
    if (!isb(a)) return tobits(fcall1(op, todbl(a)));
    bool odd = op == SIN || op == TANH || op == SINH || op == ASIN || op == TAN, even = op == COS || op == COSH;
    u64 sg = 0;
    if (odd || even) { sg = odd ? (a & SIGN) : 0; a &= ABSM; }
    return mk(op, a, 0, fcall1(op, cval(a))) ^ sg;
}
// three-way comparison; records the decision (-1,0,1) up to what the code distinguishes: kind 0 all, 1 {<=,>}, 2 {<,>=}, 3 {=,!=}
static int s_cmp(u64 a, u64 b, int kind = 0) {
    double x = cval(a), y = cval(b);
    if (!isb(a) && !isb(b)) return x < y ? -1 : x > y ? 1 : x == y ? 0 : 2;
    if (!isb(a) && (todbl(a) != todbl(a) )) return 2;
    if (!isb(b) && (todbl(b) != todbl(b) )) return 2;
    if (isb(a) && a == b) return 0;
    // no overflow is modelled: symbolic values are smaller than the largest doubles
    if (!isb(a) && std::fabs(todbl(a)) > 1e300) return todbl(a) < 0 ? -1 : 1;
    if (!isb(b) && std::fabs(todbl(b)) > 1e300) return todbl(b) < 0 ? 1 : -1;
    int r = x < y ? -1 : x > y ? 1 : x == y ? 0 : 2;
    if (r == 2) return 2;
    u64 ka = a, kb = b; int kr = r;
    if (ka < kb) { std::swap(ka, kb); kr = -kr; kind = kind == 1 ? 2 : kind == 2 ? 1 : kind; }
    int& known = S->known.emplace(std::make_pair(ka, kb), 7).first->second;
    int one = kr < 0 ? 1 : kr == 0 ? 2 : 4;
    int mask = kind == 0 ? one : kind == 1 ? (one == 4 ? 4 : 3) : kind == 2 ? (one == 1 ? 1 : 6) : (one == 2 ? 2 : 5);
    mask &= known;
    if (mask != known) { S->atoms.push_back({ka, kb, mask, false, 0, known & ~mask, kind == 0}); known = mask; }
    return r;
}
static u64 s_abs(u64 a) { if (!isb(a)) return a & ABSM; int r = s_cmp(a, 0, 2); return r < 0 ? a ^ SIGN : a; }

struct Lock { Lock() { S->mtx.lock(); } ~Lock() { S->mtx.unlock(); } };

// ---- SSE decoding --------------------------------------------------------------------------------------------------------------
static unsigned get_mxcsr_default() { return 0x1F80; }
static const unsigned MX_UNMASK_INVALID = 0x1F00;

static void handler(int sig, siginfo_t*, void* ucv) {
    ucontext_t* uc = (ucontext_t*) ucv;
    greg_t* g = uc->uc_mcontext.gregs;
    struct _libc_fpstate* fp = uc->uc_mcontext.fpregs;
    const uint8_t* ip0 = (const uint8_t*) g[REG_RIP];
    const uint8_t* ip = ip0;
    bool ud2 = false;
    if (sig == SIGILL) {
        if (!(ip[0] == 0x0F && ip[1] == 0x0B)) die("SIGILL at %p\n", (void*) ip);
        ip += 2; ud2 = true;
    }
    int pfx = 0, rex = 0, cmpKind = 0;
    for (;; ++ip) {
        if (*ip == 0x2E || *ip == 0x36 || *ip == 0x3E) { cmpKind = *ip == 0x2E ? 1 : *ip == 0x36 ? 2 : 3; continue; }
        if (*ip == 0x66 || *ip == 0xF2 || *ip == 0xF3) { if (!(pfx && *ip == 0x66)) pfx = *ip; continue; }
        if ((*ip & 0xF0) == 0x40) { rex = *ip; ++ip; }
        break;
    }
    if (*ip != 0x0F) die("symrt: unsupported trapping instruction at %p: %02x %02x %02x %02x\n", (void*) ip0, ip0[0], ip0[1], ip0[2], ip0[3]);
    ++ip;
    int opc = *ip++;
    int modrm = *ip++;
    int mod = modrm >> 6, reg = ((modrm >> 3) & 7) | ((rex & 4) ? 8 : 0), rm = modrm & 7;
    static const int order[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    u64* srcp; u64 addr = 0; bool ripRel = false;
    int immlen = opc == 0xC2 ? 1 : 0;
    if (mod == 3) srcp = (u64*) &fp->_xmm[rm | ((rex & 1) ? 8 : 0)];
    else {
        if (rm == 4) {
            int sib = *ip++;
            int sc = sib >> 6, idx = ((sib >> 3) & 7) | ((rex & 2) ? 8 : 0), base = (sib & 7) | ((rex & 1) ? 8 : 0);
            if ((sib & 7) == 5 && mod == 0) { addr = (u64)(int64_t)(*(int32_t*) ip); ip += 4; }
            else addr = (u64) g[order[base]];
            if (idx != 4) addr += (u64) g[order[idx]] << sc;
        } else if (rm == 5 && mod == 0) { addr = (u64)(int64_t)(*(int32_t*) ip); ip += 4; ripRel = true; }
        else addr = (u64) g[order[rm | ((rex & 1) ? 8 : 0)]];
        if (mod == 1) { addr += (u64)(int64_t)(int8_t) *ip; ip += 1; }
        else if (mod == 2) { addr += (u64)(int64_t)(*(int32_t*) ip); ip += 4; }
        srcp = nullptr;
    }
    int imm = 0;
    if (immlen) imm = *ip++;
    if (ripRel) addr += (u64) ip;
    if (!srcp) srcp = (u64*) addr;
    u64* dst = (u64*) &fp->_xmm[reg];
    bool packed = pfx == 0x66 && opc != 0x2E && opc != 0x2F;
    int lanes = packed ? 2 : 1;
    if (pfx == 0xF3 && opc != 0x51) die("symrt: single precision op on symbolic data at %p\n", (void*) ip0);
    {
        Lock l;
        S->traps++;
        if (ud2) {
            // and / andn on xmm
            if (opc != 0x54 && opc != 0x55 && opc != 0xDB && opc != 0xDF) die("symrt: unexpected ud2-marked opcode %02x\n", opc);
            u64 s[2] = {srcp[0], srcp[1]};
            for (int i = 0; i < 2; ++i) {
                u64 d = dst[i];
                if (opc == 0x55 || opc == 0xDF) d = ~d;
                bool ds = isb(dst[i]) && (opc == 0x54 || opc == 0xDB), ss = isb(s[i]);
                if (!ds && !ss) { dst[i] = d & s[i]; continue; }
                u64 x = ss ? s[i] : d, m = ss ? d : s[i];
                if (ds && ss) { if (d == s[i]) { dst[i] = d; continue; } die("symrt: and of two symbolic values\n"); }
                if (m == 0) dst[i] = 0;
                else if (m == ~0ull) dst[i] = x;
                else if (m == ABSM) dst[i] = s_abs(x);
                else die("symrt: and of symbolic value with mask %lx\n", (unsigned long) m);
            }
        } else switch (opc) {
        case 0x58: case 0x59: case 0x5C: case 0x5E: case 0x5D: case 0x5F: case 0xC2: {
            if (pfx == 0) die("symrt: single precision packed op\n");
            u64 s[2] = {srcp[0], lanes == 2 ? srcp[1] : 0};
            for (int i = 0; i < lanes; ++i) {
                u64 a = dst[i], b = s[i], r;
                switch (opc) {
                case 0x58: r = s_add(a, b); break;
                case 0x59: r = s_mul(a, b); break;
                case 0x5C: r = s_add(a, b ^ SIGN); break;
                case 0x5E: r = s_div(a, b); break;
                case 0x5D: r = s_cmp(a, b, 2) == -1 ? a : b; break;
                case 0x5F: r = s_cmp(a, b, 1) == 1 ? a : b; break;
                default: {
                    static const int ck[4] = {3, 2, 1, 3}; int c = s_cmp(a, b, ck[imm & 3]); bool t;
                    switch (imm & 7) {
                    case 0: t = c == 0; break; case 1: t = c == -1; break; case 2: t = c == -1 || c == 0; break; case 3: t = c == 2; break;
                    case 4: t = c != 0; break; case 5: t = c != -1; break; case 6: t = !(c == -1 || c == 0); break; default: t = c != 2; break;
                    }
                    r = t ? ~0ull : 0;
                } }
                dst[i] = r;
            }
            break;
        }
        case 0x51: {
            if (pfx != 0xF2 && pfx != 0x66) die("symrt: single precision sqrt\n");
            u64 s[2] = {srcp[0], lanes == 2 ? srcp[1] : 0};
            for (int i = 0; i < lanes; ++i) dst[i] = s_fun(SQRT, s[i]);
            break;
        }
        case 0x2E: case 0x2F: {
            if (pfx != 0x66) die("symrt: single precision compare\n");
            int c = s_cmp(dst[0], srcp[0], cmpKind);
            u64 fl = (u64) g[REG_EFL] & ~(u64) 0x8D5; // CF PF AF ZF SF OF
            if (c == 2) fl |= 0x45; else if (c == 0) fl |= 0x40; else if (c == -1) fl |= 0x01;
            g[REG_EFL] = (greg_t) fl;
            break;
        }
        case 0x2C: case 0x2D: {
            double v = cval(srcp[0]);
            double n = opc == 0x2C ? __builtin_trunc(v) : __builtin_rint(v);
            // record the concretisation as part of the path condition
            if (opc == 0x2C) { if (n > 0) { s_cmp(srcp[0], tobits(n), 2); s_cmp(srcp[0], tobits(n + 1), 2); } else if (n < 0) { s_cmp(srcp[0], tobits(n), 1); s_cmp(srcp[0], tobits(n - 1), 1); } else { s_cmp(srcp[0], tobits(1.0), 2); s_cmp(srcp[0], tobits(-1.0), 1); } }
            else die("symrt: cvtsd2si of symbolic value\n");
            S->concretised++;
            int64_t k = (int64_t) n;
            if (rex & 8) g[order[reg]] = k; else g[order[reg]] = (u64)(uint32_t)(int32_t) k;
            break;
        }
        default: die("symrt: unsupported opcode 0f %02x (prefix %02x) at %p\n", opc, pfx, (void*) ip0);
        }
    }
    g[REG_RIP] = (greg_t) ip;
    fp->mxcsr &= ~0x3Fu;
    // make sure the kernel restores the SSE component
    uint32_t* sw = (uint32_t*) ((char*) fp + 464);
    if (sw[0] == 0x46505853u) *(u64*) ((char*) fp + 512) |= 3;
}

static void unmask() { _mm_setcsr(MX_UNMASK_INVALID); }

// ---- libm interposition ----------------------------------------------------------------------------------------------------------
#define SYMFUN1(name, OP) \
    extern "C" double name(double x) noexcept { u64 b = tobits(x); if (!isb(b)) return REAL(name)(x); Lock l; return todbl(s_fun(OP, b)); }
// calls go through the PLT of the shared objects to these definitions (the executable is linked with -rdynamic)
extern "C" {
double sin(double) noexcept; double cos(double) noexcept; double tanh(double) noexcept; double cosh(double) noexcept; double sinh(double) noexcept;
}
SYMFUN1(sin, SIN) SYMFUN1(cos, COS) SYMFUN1(tanh, TANH) SYMFUN1(cosh, COSH) SYMFUN1(sinh, SINH)
SYMFUN1(exp, EXP) SYMFUN1(log, LOG) SYMFUN1(asin, ASIN) SYMFUN1(acos, ACOS) SYMFUN1(tan, TAN)
extern "C" double sqrt(double x) noexcept { u64 b = tobits(x); if (!isb(b)) return REAL(sqrt)(x); Lock l; return todbl(s_fun(SQRT, b)); }
extern "C" void sincos(double x, double* s, double* c) noexcept { *s = sin(x); *c = cos(x); }
extern "C" double fabs(double x) noexcept { u64 b = tobits(x); if (!isb(b)) return todbl(b & ABSM); Lock l; return todbl(s_abs(b)); }
extern "C" double atan2(double y, double x) noexcept {
    u64 a = tobits(y), b = tobits(x); if (!isb(a) && !isb(b)) return REAL(atan2)(y, x);
    Lock l; return todbl(mk(ATAN2, a, b, REAL(atan2)(cval(a), cval(b))));
}
extern "C" double pow(double x, double y) noexcept {
    u64 a = tobits(x), b = tobits(y); if (!isb(a) && !isb(b)) return REAL(pow)(x, y);
    Lock l;
    if (!isb(b)) {
        double e = todbl(b);
        if (e == 0) return 1.0;
        if (e == 0.5) return todbl(s_fun(SQRT, a));
        if (e == std::floor(e) && std::fabs(e) <= 16) {
            int n = (int) std::fabs(e); u64 r = a; for (int i = 1; i < n; ++i) r = s_mul(r, a);
            if (e < 0) r = s_div(tobits(1.0), r);
            return todbl(r);
        }
        if (e * 2 == std::floor(e * 2) && std::fabs(e) <= 16) { // half integers
            int n = (int) std::fabs(e); u64 r = s_fun(SQRT, a); for (int i = 0; i < n; ++i) r = s_mul(r, a);
            if (e < 0) r = s_div(tobits(1.0), r);
            return todbl(r);
        }
    }
    return todbl(mk(POW, a, b, REAL(pow)(cval(a), cval(b))));
}
static double rounding(double x, double (*f)(double), bool up) {
    u64 b = tobits(x); if (!isb(b)) return f(x);
    Lock l; double n = f(cval(b));
    s_cmp(b, tobits(n), up ? 1 : 2); s_cmp(b, tobits(up ? n - 1 : n + 1), up ? 1 : 2); S->concretised++;
    return n;
}
extern "C" double floor(double x) noexcept { return rounding(x, REAL(floor), false); }
extern "C" double ceil(double x) noexcept { return rounding(x, REAL(ceil), true); }
extern "C" double round(double x) noexcept { if (isb(tobits(x))) die("symrt: round of symbolic value\n"); return REAL(round)(x); }
extern "C" double trunc(double x) noexcept { if (isb(tobits(x))) die("symrt: trunc of symbolic value\n"); return REAL(trunc)(x); }
extern "C" double fmod(double x, double y) noexcept { if (isb(tobits(x)) || isb(tobits(y))) die("symrt: fmod of symbolic value\n"); return REAL(fmod)(x, y); }
extern "C" double atan(double x) noexcept { if (isb(tobits(x))) die("symrt: atan of symbolic value\n"); return REAL(atan)(x); }
extern "C" double fmax(double x, double y) noexcept { Lock l; return s_cmp(tobits(x), tobits(y), 2) < 0 ? y : x; }
extern "C" double fmin(double x, double y) noexcept { Lock l; return s_cmp(tobits(x), tobits(y), 1) > 0 ? y : x; }
extern "C" double hypot(double x, double y) noexcept { Lock l; u64 a = tobits(x), b = tobits(y); return todbl(s_fun(SQRT, s_add(s_mul(a, a), s_mul(b, b)))); }

// iDynTree's comparison takes an absolute value with a bit mask inside of a library that is not compiled here
extern "C" bool _ZN8iDynTree20checkDoublesAreEqualERKdS1_d(const double* a, const double* b, double tol) {
    Lock l; return s_cmp(s_abs(s_add(tobits(*a), tobits(*b) ^ SIGN)), tobits(tol), 2) < 0;
}

// ---- symbolic differentiation ----------------------------------------------------------------------------------------------------
static u64 s_diff(u64 f, u64 x);
static u64 s_diff_node(uint32_t id, u64 x) {
    u64 key = ((u64)(uint32_t) x << 32) | id;
    auto it = S->diffCache.find(key);
    if (it != S->diffCache.end()) return it->second;
    Node n = S->nodes[id]; // copy: the vector can grow
    u64 self = TAG | id, r = 0, da, db;
    switch (n.op) {
    case VAR: r = self == (x & ABSM) ? tobits(1.0) : 0; break;
    case ADD: r = s_add(s_diff(n.a, x), s_diff(n.b, x)); break;
    case MUL: r = s_add(s_mul(s_diff(n.a, x), n.b), s_mul(n.a, s_diff(n.b, x))); break;
    case DIV: da = s_diff(n.a, x); db = s_diff(n.b, x);
        // (da - self*db)/b
        r = s_div(s_add(da, s_mul(self, db) ^ SIGN), n.b); break;
    case SQRT: r = s_div(s_diff(n.a, x), s_mul(tobits(2.0), self)); break;
    case SIN: da = s_diff(n.a, x); r = da == 0 ? 0 : s_mul(s_fun(COS, n.a), da); break;
    case COS: da = s_diff(n.a, x); r = da == 0 ? 0 : s_mul(s_fun(SIN, n.a), da) ^ SIGN; break;
    case TANH: da = s_diff(n.a, x); r = s_mul(s_add(tobits(1.0), s_mul(self, self) ^ SIGN), da); break;
    case COSH: da = s_diff(n.a, x); r = da == 0 ? 0 : s_mul(s_fun(SINH, n.a), da); break;
    case SINH: da = s_diff(n.a, x); r = da == 0 ? 0 : s_mul(s_fun(COSH, n.a), da); break;
    case EXP: r = s_mul(self, s_diff(n.a, x)); break;
    case LOG: r = s_div(s_diff(n.a, x), n.a); break;
    case ATAN2: { // atan2(y,x)' = (x y' - y x')/(x^2+y^2)
        da = s_diff(n.a, x); db = s_diff(n.b, x);
        if (da == 0 && db == 0) break;
        r = s_div(s_add(s_mul(n.b, da), s_mul(n.a, db) ^ SIGN), s_add(s_mul(n.a, n.a), s_mul(n.b, n.b))); break; }
    default: da = s_diff(n.a, x); db = isb(n.b) ? s_diff(n.b, x) : 0;
        if (da != 0 || db != 0) die("symrt: derivative of %s not supported\n", opnames[n.op]);
    }
    S->diffCache[key] = r;
    return r;
}
static u64 s_diff(u64 f, u64 x) {
    if (!isb(f)) return 0;
    u64 r = s_diff_node((uint32_t) f, x);
    if ((f & SIGN) && !(r == 0)) r ^= SIGN;
    return r;
}

// ---- harness interface -----------------------------------------------------------------------------------------------------------
namespace sym {
bool symbolic() { return S->symbolic; }
static std::string id(std::string s) { for (auto& c : s) if (c == ' ' || c == '|') c = '_'; return s; }
double var(const std::string& name_, double sample, double lo, double hi) {
    Lock l; const std::string name = id(name_);
    auto it = S->inputs.find(name);
    double v = it != S->inputs.end() ? it->second : sample;
    u64 h = tobits(v);
    if (S->symbolic) {
        uint32_t id = (uint32_t) S->nodes.size();
        S->nodes.push_back({VAR, S->vars.size(), 0, v});
        h = TAG | id;
    }
    S->vars.push_back({name, lo, hi, S->symbolic ? h : tobits(v)});
    return todbl(h);
}
bool isSym(double d) { return isb(tobits(d)); }
double val(double d) { Lock l; return cval(tobits(d)); }
double diff(double f, double v) { if (!S->symbolic) return 0; Lock l; if (!isb(tobits(v))) die("diff wrt constant\n"); return todbl(s_diff(tobits(f), tobits(v))); }
static void assumeAtom(double a, double b, bool strict) {
    Lock l;
    double x = cval(tobits(a)), y = cval(tobits(b));
    bool holds = strict ? x > y : x >= y;
    if (isb(tobits(a)) || isb(tobits(b))) S->atoms.push_back({tobits(a), tobits(b), 0, true, strict ? 1 : 0, 0, false});
    if (!holds && S->outsideWhy.empty()) S->outsideWhy = "assumption";
}
void assumeGe(double a, double b) { assumeAtom(a, b, false); }
void assumeGt(double a, double b) { assumeAtom(a, b, true); }
static void addObl(const std::string& name, const char* kind, u64 a, u64 b, double tol, const std::string& f = "", const std::string& v = "") {
    S->obls.push_back({name, kind, f, v, a, b, tol, S->atoms.size()});
}
void eq(const std::string& name, double a, double b, double tol) { Lock l; addObl(name, "eq", tobits(a), tobits(b), tol); }
void ge(const std::string& name, double a, double b, double tol) { Lock l; addObl(name, "ge", tobits(a), tobits(b), tol); }
void deriv(const std::string& name, const std::string& fname, double f, const std::string& vname, double v, double j, double tol) {
    double d = S->symbolic ? diff(f, v) : 0;
    Lock l; addObl(name, "deriv", S->symbolic ? tobits(d) : tobits(f), tobits(j), tol, id(fname), id(vname));
}
void fact(const std::string& name, bool holds) { Lock l; addObl(name, "fact", holds, 1, 0); }
void observe(const std::string& name, double v) { Lock l; S->observed.emplace_back(name, v); }
void reach(const std::string& name) { Lock l; S->reached.push_back(name); }
void outside(const std::string& why) { Lock l; if (S->outsideWhy.empty()) S->outsideWhy = why; }
int choose(const std::string& name_, int n) {
    Lock l; const std::string name = id(name_);
    auto it = S->inputs.find(name);
    int v = it != S->inputs.end() ? (int) it->second : 0;
    S->choices.push_back({name, {v, n}});
    return v;
}

static void pr(FILE* f, u64 x) {
    if (isb(x)) fprintf(f, " %s%u", (x & SIGN) ? "-" : "", (uint32_t) x);
    else fprintf(f, " c%a", todbl(x));
}

int run(int argc, char** argv, const std::function<void()>& body) {
    // usage: harness sym|con INPUTS OUT
    if (argc < 4) { fprintf(stderr, "usage: %s sym|con INPUTS OUT\n", argv[0]); return 96; }
    S->symbolic = !strcmp(argv[1], "sym");
    if (FILE* f = fopen(argv[2], "r")) {
        char nm[512]; char vs[128];
        while (fscanf(f, "%511s %127s", nm, vs) == 2) S->inputs[nm] = strtod(vs, nullptr);
        fclose(f);
    }
    S->nodes.reserve(1 << 20);
    S->nodes.push_back({CONST, 0, 0, 0.0});
    FILE* out = fopen(argv[3], "w");
    if (!out) return 95;
    std::string threw;
    if (S->symbolic) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        sigaction(SIGFPE, &sa, nullptr);
        sigaction(SIGILL, &sa, nullptr);
        unmask();
    } else {
        // the ud2 markers are still there: emulate them
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        sigaction(SIGILL, &sa, nullptr);
    }
    try { body(); } catch (const std::exception& e) { threw = e.what(); if (threw.empty()) threw = "exception"; } catch (...) { threw = "unknown exception"; }
    _mm_setcsr(0x1F80);
    // dump
    std::vector<char> need(S->nodes.size(), 0);
    auto mark = [&](u64 x) { if (isb(x)) need[(uint32_t) x] = 1; };
    for (auto& a : S->atoms) { mark(a.a); mark(a.b); }
    for (auto& o : S->obls) if (o.kind != "fact") { mark(o.a); mark(o.b); }
    for (auto& o : S->observed) mark(tobits(o.second));
    for (auto& d : S->denoms) mark(d);
    for (auto& v : S->vars) mark(v.h);
    for (size_t i = S->nodes.size(); i-- > 1;) if (need[i] && S->nodes[i].op != VAR) { mark(S->nodes[i].a); mark(S->nodes[i].b); }
    fprintf(out, "stat %lu %lu %zu\n", S->traps, S->concretised, S->nodes.size());
    for (auto& v : S->vars) { fprintf(out, "var"); pr(out, v.h); fprintf(out, " %a %a %s %a\n", v.lo, v.hi, v.name.c_str(), cval(v.h)); }
    for (size_t i = 1; i < S->nodes.size(); ++i) if (need[i] && S->nodes[i].op != VAR) {
        const Node& n = S->nodes[i];
        fprintf(out, "n %zu %s", i, opnames[n.op]); pr(out, n.a);
        if (n.op == ADD || n.op == MUL || n.op == DIV || n.op == ATAN2 || n.op == POW) pr(out, n.b);
        fprintf(out, " %a\n", n.v);
    }
    for (auto& a : S->atoms) { fprintf(out, "%s", a.assume ? (a.pred ? "assume gt" : "assume ge") : "atom"); pr(out, a.a); pr(out, a.b); if (!a.assume) fprintf(out, " %d %d %d", a.mask, a.alt, (int) a.split); fputc('\n', out); }
    for (auto& d : S->denoms) { fprintf(out, "denom"); pr(out, d); fputc('\n', out); }
    for (auto& c : S->choices) fprintf(out, "choice %s %d %d\n", c.first.c_str(), c.second.first, c.second.second);
    for (auto& o : S->obls) {
        fprintf(out, "obl %s %zu", o.kind.c_str(), o.natoms);
        if (o.kind == "fact") fprintf(out, " %d", (int) o.a);
        else { pr(out, o.a); pr(out, o.b); fprintf(out, " %a", o.tol); }
        if (o.kind == "deriv") fprintf(out, " %s %s", o.f.c_str(), o.v.c_str());
        fprintf(out, " | %s\n", o.name.c_str());
    }
    for (auto& o : S->observed) { fprintf(out, "obs"); pr(out, tobits(o.second)); fprintf(out, " | %s\n", o.first.c_str()); }
    for (auto& r : S->reached) fprintf(out, "reach %s\n", r.c_str());
    if (!threw.empty()) fprintf(out, "threw %s\n", threw.c_str());
    if (!S->outsideWhy.empty()) fprintf(out, "outside %s\n", S->outsideWhy.c_str());
    fprintf(out, "end\n");
    fclose(out);
    fflush(stdout); fflush(stderr);
    _exit(0);
}
}
