// normal: ring normaliser used as the preprocessor of the SMT queries.
//   normal DUMP OUT [shard nshards [maxTerms]]
// For every eq/deriv/ge obligation of DUMP it writes the residual a-b as a polynomial over generators (inputs, sin/cos/sinh/cosh of
// terms, square roots, denominators) with all denominators cleared:  "R idx status den nmono" followed by monomials.
// Rewriting used (each an identity over the reals where the term is defined):
//   s^2 -> 1-c^2, sinh^2 -> cosh^2-1, tanh = sinh/cosh, r^2 -> P for r = sqrt(P), x/D = x*d^-1 with d = D.
#include <gmpxx.h>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <stdexcept>

typedef std::string Mono;                       // exponent of generator i at byte i (int8), trailing zeros trimmed
typedef std::unordered_map<Mono, mpq_class> Poly;
static size_t MAXT = 400000;
struct TooBig : std::runtime_error { TooBig() : std::runtime_error("too big") {} };

enum GK { GVAR, GSIN, GCOS, GSINH, GCOSH, GSQRT, GDEN, GFUN };
struct Gen { GK kind; int partner; Poly def; bool oriented = false; std::string name; double lo, hi; };
static std::vector<Gen> G;
struct Node { std::string op; std::string a, b; double v; };
static std::unordered_map<long, Node> nodes;
static std::unordered_map<long, Poly> nf;
static std::unordered_map<long, int> genOfNode;

static Mono monoMul(const Mono& a, const Mono& b) {
    Mono r = a.size() >= b.size() ? a : b; const Mono& s = a.size() >= b.size() ? b : a;
    for (size_t i = 0; i < s.size(); ++i) { int e = (int)(signed char) r[i] + (int)(signed char) s[i]; if (e > 120 || e < -120) throw TooBig(); r[i] = (char) e; }
    while (!r.empty() && r.back() == 0) r.pop_back();
    return r;
}
static Mono gpow(int g, int e) { Mono m(g + 1, 0); m[g] = (char) e; return m; }
static void addTo(Poly& p, const Mono& m, const mpq_class& c) {
    auto it = p.find(m);
    if (it == p.end()) { if (c != 0) p.emplace(m, c); }
    else { it->second += c; if (it->second == 0) p.erase(it); }
}
static int expo(const Mono& m, int g) { return g < (int) m.size() ? (int)(signed char) m[g] : 0; }
// rewriting rules g^2 -> polynomial
struct Rule { int g; std::vector<std::pair<Mono, mpq_class>> rhs; };
static std::vector<Rule> rules;
static void addReduced(Poly& out, const Mono& m, const mpq_class& c) {
    for (auto& r : rules) {
        int e = expo(m, r.g);
        if (e >= 2) {
            Mono low = m; low[r.g] = (char)(e - 2); while (!low.empty() && low.back() == 0) low.pop_back();
            for (auto& t : r.rhs) addReduced(out, monoMul(low, t.first), c * t.second);
            return;
        }
    }
    addTo(out, m, c);
}
static Poly pconst(const mpq_class& c) { Poly p; if (c != 0) p.emplace(Mono(), c); return p; }
static Poly mul(const Poly& a, const Poly& b) {
    Poly r; if (a.empty() || b.empty()) return r;
    r.reserve(a.size() * std::min<size_t>(b.size(), 64));
    for (auto& x : a) for (auto& y : b) { addReduced(r, monoMul(x.first, y.first), x.second * y.second); if (r.size() > MAXT) throw TooBig(); }
    return r;
}
static Poly add(const Poly& a, const Poly& b, int sb = 1) {
    Poly r = a.size() >= b.size() || sb != 1 ? a : b; const Poly& s = a.size() >= b.size() || sb != 1 ? b : a;
    for (auto& y : s) { if (sb == 1) addTo(r, y.first, y.second); else addTo(r, y.first, -y.second); }
    return r;
}
static Poly scale(const Poly& a, const mpq_class& c) { Poly r; if (c == 0) return r; for (auto& x : a) r.emplace(x.first, x.second * c); return r; }
static mpq_class lead(const Poly& p) { const Mono* best = nullptr; const mpq_class* c = nullptr; for (auto& x : p) if (!best || x.first > *best) { best = &x.first; c = &x.second; } return *c; }
static bool same(const Poly& a, const Poly& b) { if (a.size() != b.size()) return false; for (auto& x : a) { auto it = b.find(x.first); if (it == b.end() || it->second != x.second) return false; } return true; }

static int newGen(GK k, const std::string& name, double lo, double hi) { Gen gg; gg.kind = k; gg.partner = -1; gg.name = name; gg.lo = lo; gg.hi = hi; G.push_back(gg); return (int) G.size() - 1; }

static mpq_class num(const std::string& s) { double d = strtod(s.c_str() + 1, nullptr); if (!std::isfinite(d)) throw std::runtime_error("non-finite constant"); return mpq_class(d); }

// ---- interval bounds of Laurent polynomials
struct Iv { double lo, hi; };
static Iv ipow(Iv x, int e) {
    if (e < 0) { Iv y = ipow(x, -e); if (y.lo <= 0 && y.hi >= 0) return {-INFINITY, INFINITY}; return {1 / y.hi, 1 / y.lo}; }
    if (e == 0) return {1, 1};
    double a = std::pow(x.lo, e), b = std::pow(x.hi, e);
    if (e % 2) return {a, b};
    if (x.lo <= 0 && x.hi >= 0) return {0, std::max(a, b)};
    return {std::min(a, b), std::max(a, b)};
}
static Iv imul(Iv x, Iv y) { double c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; for (double& v : c) if (v != v) v = 0; return {*std::min_element(c, c + 4), *std::max_element(c, c + 4)}; }
static Iv monoIv(const Mono& m) { Iv r{1, 1}; for (size_t i = 0; i < m.size(); ++i) if (m[i]) r = imul(r, ipow({G[i].lo, G[i].hi}, (signed char) m[i])); return r; }
static Iv polyIv(const Poly& p) { Iv r{0, 0}; for (auto& x : p) { double c = x.second.get_d(); Iv m = imul({c, c}, monoIv(x.first)); r.lo += m.lo; r.hi += m.hi; } return r; }

static Poly nfRef(const std::string& t);
static const Poly& nfNode(long id);
static std::vector<std::pair<std::string, int>> dummy;
static std::map<std::string, std::pair<int,int>> trigGens; // canonical arg key -> (sin,cos)
static std::map<std::string, std::pair<int,int>> hypGens;
static std::string polyKey(const Poly& p) {
    std::vector<std::pair<Mono, std::string>> v; for (auto& x : p) v.emplace_back(x.first, x.second.get_str());
    std::sort(v.begin(), v.end()); std::string k; for (auto& x : v) { k += x.first; k += '|'; k += x.second; k += ';'; } return k;
}
static std::map<std::string, int> sqrtGens, denGens, funGens;
struct LowerBound { Poly p; mpq_class b; };
static std::vector<LowerBound> lowers; // assumptions  p >= b
static Iv boundsOf(const Poly& p) {
    Iv r = polyIv(p);
    for (auto& l : lowers) if (same(l.p, p)) r.lo = std::max(r.lo, l.b.get_d());
    for (auto& l : lowers) if (same(scale(l.p, -1), p)) r.hi = std::min(r.hi, -l.b.get_d());
    return r;
}
static std::pair<int,int> pairGens(std::map<std::string, std::pair<int,int>>& tbl, const Poly& arg, bool hyp) {
    std::string k = polyKey(arg);
    auto it = tbl.find(k); if (it != tbl.end()) return it->second;
    std::string nm = std::to_string(G.size());
    int c, s; Iv a = boundsOf(arg);
    double m = std::max(std::fabs(a.lo), std::fabs(a.hi));
    if (hyp) { c = newGen(GCOSH, "cosh" + nm, 1, std::cosh(m)); s = newGen(GSINH, "sinh" + nm, -std::sinh(m), std::sinh(m)); }
    else { c = newGen(GCOS, "cos" + nm, -1, 1); s = newGen(GSIN, "sin" + nm, -1, 1); }
    G[c].partner = s; G[s].partner = c; G[c].def = arg; G[s].def = arg;
    if (hyp) rules.push_back({s, {{gpow(c, 2), 1}, {Mono(), -1}}}); else rules.push_back({s, {{Mono(), 1}, {gpow(c, 2), -1}}});
    return tbl[k] = {s, c};
}
// sign-normalise an argument: returns true when negated
static bool signNorm(Poly& p) { if (p.empty()) return false; if (lead(p) < 0) { p = scale(p, -1); return true; } return false; }

static Poly inverse(const Poly& d) {
    if (d.empty()) throw std::runtime_error("division by zero term");
    if (d.size() == 1) { Mono m = d.begin()->first; for (auto& c : m) c = (char) -(signed char) c; Poly r; r.emplace(m, 1 / d.begin()->second); return r; }
    mpq_class k = lead(d);
    Poly mon = scale(d, 1 / k);
    // sqrt generator with this radicand (up to scale)?
    for (auto& s : sqrtGens) { Poly p = G[s.second].def; mpq_class ks = lead(p); if (p.size() == mon.size() && same(scale(p, 1 / ks), mon)) { Poly r; r.emplace(gpow(s.second, -2), ks / k); return r; } }
    std::string key = polyKey(mon);
    auto it = denGens.find(key);
    int g;
    if (it != denGens.end()) g = it->second;
    else { Iv b = boundsOf(mon); if (k < 0) { Iv bn = boundsOf(d); double kd = k.get_d(); Iv b2{bn.hi / kd, bn.lo / kd}; b.lo = std::max(b.lo, b2.lo); b.hi = std::min(b.hi, b2.hi); } else { Iv bn = boundsOf(d); double kd = k.get_d(); b.lo = std::max(b.lo, bn.lo / kd); b.hi = std::min(b.hi, bn.hi / kd); }
        g = newGen(GDEN, "den" + std::to_string(G.size()), b.lo, b.hi); G[g].def = mon; denGens[key] = g; }
    Poly r; r.emplace(gpow(g, -1), 1 / k); return r;
}
// orient r^2 = P as x^2 -> (r^2 - rest)/c for an input x that occurs in P only as c*x^2
static void orient(int g) {
    const Poly& p = G[g].def;
    for (int x = 0; x < (int) G.size(); ++x) {
        if (G[x].kind != GVAR) continue;
        bool used = false; for (auto& r : rules) if (r.g == x) used = true;
        if (used) continue;
        auto it = p.find(gpow(x, 2)); if (it == p.end()) continue;
        bool only = true; for (auto& m : p) if (m.first != it->first && expo(m.first, x)) only = false;
        if (!only) continue;
        Rule r; r.g = x; mpq_class c = it->second;
        r.rhs.push_back({gpow(g, 2), 1 / c});
        for (auto& m : p) if (m.first != it->first) { for (auto& o : rules) if (expo(m.first, o.g) >= 2) only = false; r.rhs.push_back({m.first, -m.second / c}); }
        if (!only) continue;
        rules.push_back(r); G[g].oriented = true; return;
    }
}
static Poly compute(const Node& n) {
    if (n.op == "add") return add(nfRef(n.a), nfRef(n.b));
    if (n.op == "mul") return mul(nfRef(n.a), nfRef(n.b));
    if (n.op == "div") return mul(nfRef(n.a), inverse(nfRef(n.b)));
    if (n.op == "sqrt") {
        Poly p = nfRef(n.a);
        if (p.size() == 1) { // perfect square monomial in a known-positive generator
            const Mono& m = p.begin()->first; bool ok = true; Mono h = m; for (size_t i = 0; i < m.size(); ++i) if (m[i]) { int e = (signed char) m[i]; if (e % 2 || !(G[i].kind == GSQRT || G[i].kind == GCOSH)) ok = false; h[i] = (char)(e / 2); }
            mpq_class c = p.begin()->second;
            mpz_class nn = c.get_num(), dd = c.get_den();
            if (ok && c > 0 && mpz_perfect_square_p(nn.get_mpz_t()) && mpz_perfect_square_p(dd.get_mpz_t())) { Poly r; r.emplace(h, mpq_class(sqrt(nn), sqrt(dd))); return r; }
        }
        std::string k = polyKey(p);
        auto it = sqrtGens.find(k); int g;
        if (it != sqrtGens.end()) g = it->second;
        else { Iv b = boundsOf(p); g = newGen(GSQRT, "r" + std::to_string(G.size()), std::sqrt(std::max(0.0, b.lo)), std::sqrt(std::max(0.0, b.hi))); G[g].def = p; sqrtGens[k] = g; orient(g); }
        Poly r; r.emplace(gpow(g, 1), 1); return r;
    }
    if (n.op == "sin" || n.op == "cos") {
        Poly p = nfRef(n.a); bool neg = signNorm(p);
        auto g = pairGens(trigGens, p, false); Poly r;
        if (n.op == "sin") r.emplace(gpow(g.first, 1), neg ? -1 : 1); else r.emplace(gpow(g.second, 1), 1);
        return r;
    }
    if (n.op == "sinh" || n.op == "cosh" || n.op == "tanh") {
        Poly p = nfRef(n.a); bool neg = signNorm(p);
        auto g = pairGens(hypGens, p, true); Poly r;
        if (n.op == "cosh") r.emplace(gpow(g.second, 1), 1);
        else if (n.op == "sinh") r.emplace(gpow(g.first, 1), neg ? -1 : 1);
        else r.emplace(monoMul(gpow(g.first, 1), gpow(g.second, -1)), neg ? -1 : 1);
        return r;
    }
    // uninterpreted function of normalised arguments
    std::string k = n.op + "(" + polyKey(nfRef(n.a)) + (n.b.empty() ? "" : "," + polyKey(nfRef(n.b))) + ")";
    auto it = funGens.find(k); int g;
    if (it != funGens.end()) g = it->second; else { double lo = n.op == "exp" ? 0 : -INFINITY, hi = INFINITY; if (n.op == "atan2") { lo = -3.2; hi = 3.2; } g = newGen(GFUN, n.op + std::to_string(G.size()), lo, hi); funGens[k] = g; }
    Poly r; r.emplace(gpow(g, 1), 1); return r;
}
static const Poly& nfNode(long id) {
    auto it = nf.find(id); if (it != nf.end()) return it->second;
    // iterative post-order to avoid deep recursion
    std::vector<long> st{id};
    while (!st.empty()) {
        long k = st.back();
        if (nf.count(k)) { st.pop_back(); continue; }
        const Node& n = nodes.at(k);
        bool ready = true;
        for (const std::string* s : {&n.a, &n.b}) if (!s->empty() && (*s)[0] != 'c') { long c = std::labs(strtol(s->c_str(), nullptr, 10)); if (!nf.count(c)) { st.push_back(c); ready = false; } }
        if (!ready) continue;
        st.pop_back();
        nf.emplace(k, compute(n));
    }
    return nf.at(id);
}
static Poly nfRef(const std::string& t) {
    if (t[0] == 'c') return pconst(num(t));
    if (t[0] == '-') return scale(nfNode(strtol(t.c_str() + 1, nullptr, 10)), -1);
    return nfNode(strtol(t.c_str(), nullptr, 10));
}
// clear denominators; den = the monomial multiplied in
static Poly clear(Poly f, Mono& den, double& denLo) {
    denLo = 1;
    for (int g = (int) G.size() - 1; g >= 0; --g) {
        if (G[g].oriented) continue;
        int mn = 0; for (auto& x : f) mn = std::min(mn, expo(x.first, g));
        if (mn < 0) { Poly r; Mono m = gpow(g, -mn); for (auto& x : f) addReduced(r, monoMul(x.first, m), x.second); f.swap(r); den = monoMul(den, m);
            Iv b = ipow({G[g].lo, G[g].hi}, -mn); double l = (b.lo <= 0 && b.hi >= 0) ? 0 : std::min(std::fabs(b.lo), std::fabs(b.hi)); denLo *= l; }
        if (G[g].kind == GDEN || G[g].kind == GSQRT) {
            // substitute positive powers
            int period = G[g].kind == GDEN ? 1 : 2;
            std::vector<Poly> pw; pw.push_back(pconst(1));
            bool need = false; for (auto& x : f) if (expo(x.first, g) >= period) need = true;
            if (need) {
                Poly r;
                for (auto& x : f) {
                    int e = expo(x.first, g);
                    if (e < period) { addTo(r, x.first, x.second); continue; }
                    int k = e / period; while ((int) pw.size() <= k) pw.push_back(mul(pw.back(), G[g].def));
                    Mono m = x.first; m[g] = (char)(e % period); while (!m.empty() && m.back() == 0) m.pop_back();
                    for (auto& y : pw[k]) { addReduced(r, monoMul(m, y.first), x.second * y.second); if (r.size() > MAXT) throw TooBig(); }
                }
                f.swap(r);
            }
        }
    }
    Poly r; for (auto& x : f) addReduced(r, x.first, x.second);
    return r;
}
int main(int argc, char** argv) {
    std::ifstream in(argv[1]); std::ofstream out(argv[2]);
    int shard = argc > 3 ? atoi(argv[3]) : 0, ns = argc > 4 ? atoi(argv[4]) : 1; if (argc > 5) MAXT = strtoul(argv[5], nullptr, 10);
    std::string line; long idx = 0;
    struct O { long idx; std::string kind, a, b; double tol; };
    std::vector<O> obls;
    std::vector<std::array<std::string, 3>> assumes;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string w; is >> w;
        if (w == "var") { std::string h, lo, hi, nm; is >> h >> lo >> hi >> nm; if (h[0] == 'c') continue; long id = atol(h.c_str()); int g = newGen(GVAR, nm, strtod(lo.c_str(), 0), strtod(hi.c_str(), 0)); genOfNode[id] = g; Poly p; p.emplace(gpow(g, 1), 1); nf[id] = p; }
        else if (w == "n") { long id; Node n; std::string x; is >> id >> n.op >> n.a; std::vector<std::string> r; while (is >> x) r.push_back(x); n.v = strtod(r.back().c_str(), 0); if (r.size() == 2) n.b = r[0]; nodes[id] = n; }
        else if (w == "assume") { std::string p, a, b; is >> p >> a >> b; assumes.push_back({p, a, b}); }
        else if (w == "obl") { std::string kind; size_t na; is >> kind >> na; if (kind != "fact") { O o; o.idx = idx; o.kind = kind; std::string t; is >> o.a >> o.b >> t; o.tol = strtod(t.c_str(), 0); if (idx % ns == shard) obls.push_back(o); } idx++; }
    }
    for (auto& a : assumes) try { Poly d = add(nfRef(a[1]), nfRef(a[2]), -1); mpq_class c = 0; auto it = d.find(Mono()); if (it != d.end()) { c = it->second; d.erase(it); } lowers.push_back({d, -c}); } catch (std::exception&) {}
    for (auto& o : obls) {
        try {
            Poly f = add(nfRef(o.a), nfRef(o.b), -1);
            size_t raw = f.size();
            Mono den; double denLo;
            f = clear(f, den, denLo);
            double mag = 0; for (auto& x : f) { Iv b = monoIv(x.first); mag += std::fabs(x.second.get_d()) * std::max(std::fabs(b.lo), std::fabs(b.hi)); }
            out << "R " << o.idx << " " << (f.empty() ? "zero" : "poly") << " " << raw << " " << f.size() << " " << denLo << " " << mag << "\n";
            if (!f.empty() && f.size() <= 5000) for (auto& x : f) { Iv b = monoIv(x.first); out << "M " << x.second.get_str() << " " << b.lo << " " << b.hi; for (size_t i = 0; i < x.first.size(); ++i) if (x.first[i]) out << " " << G[i].name << "^" << (int)(signed char) x.first[i]; out << "\n"; }
        } catch (TooBig&) { out << "R " << o.idx << " toobig 0 0 0 0\n"; }
        catch (std::exception& e) { out << "R " << o.idx << " error 0 0 0 0 " << e.what() << "\n"; }
    }
    out << "end\n";
    return 0;
}
