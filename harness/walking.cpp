// Walking state machine: when a new step is planned, promoted, postponed or shifted, for every state of the references.
#include <dpcommon.h>
#include <DynamicalPlanner/Utilities.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace dp; using namespace DynamicalPlanner;
typedef std::array<double, 3> V3;
struct Ref { V3 p; double a, b; };
struct P { double dur, h, dt, fthr, perr; V3 start, inc; };
static V3 v3(const std::string& n, double s, double b) { V3 v; for (int i = 0; i < 3; ++i) v[i] = sym::var(n + S(i), s + 0.125 * i, -b, b); return v; }
static iDynTree::Vector3 iv(const V3& v) { iDynTree::Vector3 x; for (int i = 0; i < 3; ++i) x(i) = v[i]; return x; }
static State makeState(const std::string& n, int points, bool forces) {
    State s(0, (size_t) points);
    for (int side = 0; side < 2; ++side) for (int k = 0; k < points; ++k) { auto& c = (side ? s.rightContactPointsState : s.leftContactPointsState)[k]; std::string nn = n + (side ? "r" : "l") + S(k);
        for (int i = 0; i < 3; ++i) { if (forces) c.pointForce(i) = sym::var(nn + "f" + S(i), i == 2 ? 30 + 10 * k : 0, -200, 200); c.pointPosition(i) = sym::var(nn + "p" + S(i), 0.125 * side + 0.0625 * i, -5, 5); } }
    return s;
}
static V3 centroid(const State& s) { V3 c{0, 0, 0}; double n = s.leftContactPointsState.size() * 2; for (auto* v : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& x : *v) for (int i = 0; i < 3; ++i) c[i] = c[i] + x.pointPosition(i); for (auto& x : c) x = x / n; return c; }
static double norm(const V3& v) { return iDynTree::toEigen(iv(v)).norm(); }
static void check(PositionReferenceGenerator& g, const Ref* r, const std::string& when) {
    for (int k = 0; k < 2; ++k) {
        for (int i = 0; i < 3; ++i) sym::eq(when + ": desired position of step " + S(k) + " " + S(i), g[k].desiredPosition(i), r[k].p[i]);
        sym::eq(when + ": start of step " + S(k), g.at(k).activeRange.initTime(), r[k].a); sym::eq(when + ": end of step " + S(k), g.at(k).activeRange.endTime(), r[k].b);
        sym::ge(when + ": a step does not end before it starts " + S(k), g.at(k).activeRange.endTime(), g.at(k).activeRange.initTime());
    }
}
// what one advance does to the references
static void step(const P& p, Ref* r, const State& now, const State& future) {
    V3 c = centroid(future); for (int i = 0; i < 3; ++i) c[i] = c[i] - r[0].p[i]; // distance from the step being performed
    bool planned = r[1].a <= p.h;
    if (!planned && r[0].b <= 0.6 * p.h) { // there is room for a new step at the end of the horizon
        bool close = norm(c) < p.perr;
        if (close || r[0].b - r[0].a > 2 * p.dur) { for (int i = 0; i < 3; ++i) r[1].p[i] = r[0].p[i] + p.inc[i]; r[1].a = p.h; r[1].b = p.h + p.dur; planned = true; sym::reach(close ? "step planned" : "step planned after waiting"); }
    }
    double start = r[0].a - now.time;
    if (!planned) { r[0].a = start; double e = start + p.dur, m = 0.6 * p.h; r[0].b = e > m ? e : m; sym::reach("waiting"); return; }
    if (start < 0.3 * p.h) { // the foot in front has to carry load before the next step takes over
        const auto& pts = now.leftIsForward(iv(p.inc)) ? now.leftContactPointsState : now.rightContactPointsState; bool low = false;
        for (auto& x : pts) if (!low && iDynTree::toEigen(x.pointForce).norm() < p.fthr) low = true;
        if (low) { r[0].a = start; sym::reach("not loaded yet"); return; }
    }
    if (start + p.dur < p.dt) { r[0] = {r[1].p, 0.0, p.dur}; r[1].a = r[1].b = p.h + 1; sym::reach("next step"); return; }
    r[0].a = start; r[0].b = start + p.dur; double s1 = r[1].a - now.time; r[1].a = s1; r[1].b = s1 + p.dur; sym::reach("too early");
}
static void body() {
#ifdef HISTORY
    int part = 2;
#define HISTORY_STEPS HISTORY
#else
    int part = sym::choose("part", 2);
#define HISTORY_STEPS 0
#endif
    P p; p.start = v3("start", 0.0, 2); p.inc = v3("increment", 0.25, 1);
    p.dur = sym::var("duration", 1.0, 0.0625, 4); p.h = sym::var("horizon", 2.0, 0.125, 8); p.dt = sym::var("minimum_dt", 0.125, 0, 4);
    p.fthr = sym::var("force_threshold", 20, part == 0 ? -10 : 0, 100); p.perr = sym::var("position_threshold", 0.0625, -0.125, 1);
    double w[3]; for (int i = 0; i < 3; ++i) w[i] = sym::var("increase" + S(i), 1.0 + i, 0, 10);
    Utilities::SimpleWalkingStateMachine m; State none(0, 1);
    int points = part == 1 ? 1 + sym::choose("points", 2) : 1;
    if (points == 1 && sym::choose("verbose", 2)) m.setVerbose();
    sym::fact("advance needs initialize", !m.advance(none, none) && !m.references());
    if (part == 1) { sym::assumeGe(p.h, p.dt); sym::assumeGe(p.dur, p.dt); }
    bool ok = m.initialize(iv(p.start), iv(p.inc), p.dur, p.h, p.dt, w[0], w[1], w[2], p.fthr, p.perr);
    if (!ok) { sym::fact("only inconsistent parameters are refused", p.fthr < 0 || p.dt > p.h || p.dt > p.dur); sym::fact("a refused machine does not advance", !m.advance(none, none)); sym::reach("refused"); return; }
    sym::ge("accepted force threshold", p.fthr, 0.0, 0.0); sym::ge("accepted minimum dt (horizon)", p.h, p.dt, 0.0); sym::ge("accepted minimum dt (step)", p.dur, p.dt, 0.0);
    auto g = m.references();
    Ref r[2] = {{p.start, 0.0, p.dur}, {p.start, p.h + 1, p.h + 1}};
    check(*g, r, "initially");
    if (part == 0) { // the weight of the second reference grows as requested
        bool v = false; g->at(1).activeRange.setTimeInterval(0.0, 2.0); auto x = g->timeVaryingWeight()->get(1.0, v); for (int i = 0; i < 3; ++i) sym::eq("weight increase " + S(i), x(i), (1 + 0.5 * w[i]) * (1 + 0.5 * w[i])); sym::reach("accepted"); return; }
    if (part == 1) { // one advance from any state of the references
        for (int k = 0; k < 2; ++k) { r[k].p = v3("position" + S(k), 0.25 * k, 5); r[k].a = sym::var("begin" + S(k), k ? 1.5 : 0.25, -10, 20); double len = sym::var("length" + S(k), 1.0, 0, 20); r[k].b = r[k].a + len;
            for (int i = 0; i < 3; ++i) g->at(k).desiredPosition(i) = r[k].p[i]; g->at(k).activeRange.setTimeInterval(r[k].a, r[k].b); }
        State now = makeState("now_", points, true), fut = makeState("future_", points, false); now.time = sym::var("time", 0.125, 0, 5); sym::fact("advance", m.advance(now, fut));
        step(p, r, now, fut); check(*g, r, "after one advance"); return;
    }
    for (int k = 0; k < HISTORY_STEPS; ++k) { State now = makeState("now" + S(k) + "_", 1, true), fut = makeState("future" + S(k) + "_", 1, false); now.time = sym::var("time" + S(k), 0.25, 0, 5);
        sym::fact("advance", m.advance(now, fut)); step(p, r, now, fut); check(*g, r, "after " + S(k + 1) + " advances"); }
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
