// Position reference generator: which reference is active, its weight growth, and values outside of every range.
#include <dpcommon.h>
#include <DynamicalPlanner/PositionReferenceGenerator.h>
#include <cstdlib>
#include <new>
// memory handed out is never zero by accident
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) std::abort(); std::memset(p, 0x41, n); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
using namespace dp;
static void body() {
    int n = sym::choose("references", 4);
    int variant = n == 3 ? 0 : sym::choose("variant", 3); bool resized = variant == 1, history = variant == 2;
    double f[3]; for (int i = 0; i < 3; ++i) f[i] = sym::var("factor" + S(i), 0.5 * i + 0.25, -5, 5);
    DynamicalPlanner::PositionReferenceGenerator g(resized ? 1u : (unsigned) n, f[0], f[1], f[2]);
    auto weight = g.timeVaryingWeight(); auto ref = g.timeVaryingReference();
    if (resized) g.resize((size_t) n);
    sym::fact("objects available", weight && ref);
    std::vector<double> t0(n), t1(n); std::vector<std::array<double, 3>> p(n);
    // the last range may be left as created (only active at time 0), be active at any time, or be a single instant
    int special = n > 0 ? sym::choose("last_range", 4) : 0;
    for (int k = 0; k < n; ++k) {
        t0[k] = sym::var("begin" + S(k), 0.5 * k, 0, 10); double len = sym::var("length" + S(k), 1 + 0.25 * k, 0.0625, 10); t1[k] = t0[k] + len;
        for (int i = 0; i < 3; ++i) { p[k][i] = sym::var("position" + S(k) + S(i), 0.5 * k - 0.25 * i, -5, 5); g[k].desiredPosition(i) = p[k][i]; }
        int sp = k == n - 1 ? special : 0;
        if (sp == 0) sym::fact("range accepted", g.at(k).activeRange.setTimeInterval(t0[k], t1[k]));
        if (sp == 2) g.at(k).activeRange = iDynTree::optimalcontrol::TimeRange::AnyTime();
        if (sp == 3) { t1[k] = t0[k]; g.at(k).activeRange = iDynTree::optimalcontrol::TimeRange::Instant(t0[k]); }
    }
    double t = sym::var("time", 0.75, 0, 20);
    if (history) { bool ok = false; double th = sym::var("time_before", 0.25, 0, 20); weight->get(th, ok); ref->get(th, ok); }
    if (special == 1 && t < 1e-3) { sym::outside("a range left as created is the instant 0"); return; }
    if (special == 3) { // instants are compared with a tolerance: close to the instant is outside of the claim
        double d = t - t0[n - 1]; if (d != 0 && d < 1e-8 && d > -1e-8) { sym::outside("close to an instant"); return; }
    }
    int active = -1; for (int k = 0; k < n; ++k) { int sp = k == n - 1 ? special : 0; if (sp == 2) active = k; else if (sp != 1 && t >= t0[k] && t <= t1[k]) active = k; } // the last one that is active wins
    bool okw = false, okr = false;
    VectorDynSize w = weight->get(t, okw); iDynTree::Position r = ref->get(t, okr);
    sym::fact("valid", okw && okr); sym::fact("three weights", w.size() == 3);
    if (active < 0) { for (int i = 0; i < 3; ++i) { sym::eq("no active reference: weight " + S(i), w(i), 0.0); sym::eq("no active reference: position " + S(i), r(i), 0.0); } sym::reach("none active"); return; }
    for (int i = 0; i < 3; ++i) {
        sym::eq("position " + S(i), r(i), p[active][i]);
        if (active == n - 1 && special >= 2) { sym::eq("weight of a range without length " + S(i), w(i), 1.0); continue; }
        double a = 1 + f[i] * ((t - t0[active]) / (t1[active] - t0[active]));
        sym::eq("weight " + S(i), w(i), a * a);
    }
    sym::reach(active == n - 1 && special == 2 ? "any time" : active == n - 1 && special == 3 ? "instant" : "active");
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
