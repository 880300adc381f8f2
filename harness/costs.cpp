// Costs that need no robot model: value, gradients, Hessians, sparsity, for every state, control, time and parameter.
#include <dpcommon.h>
#include <DynamicalPlannerPrivate/Costs.h>
using namespace dp;
namespace oc = iDynTree::optimalcontrol;

struct LinVector : oc::TimeVaryingVector { VectorDynSize a, b, out;
    LinVector(const std::string& n, size_t k, double lo, double hi) : a(k), b(k), out(k) { for (size_t i = 0; i < k; ++i) { a(i) = sym::var(n + "_a" + S(i), 0.25 + 0.125 * i, lo, hi); b(i) = sym::var(n + "_b" + S(i), 0.5 - 0.0625 * i, lo, hi); } }
    double at(double t, size_t i) const { return a(i) + b(i) * t; }
    const VectorDynSize& get(double t, bool& ok) override { ok = true; for (size_t i = 0; i < out.size(); ++i) out(i) = at(t, i); return out; } };
struct LinPosition : oc::TimeVaryingPosition { LinVector v; iDynTree::Position p; LinPosition(const std::string& n) : v(n, 3, -2, 2) {}
    const iDynTree::Position& get(double t, bool& ok) override { ok = true; for (int i = 0; i < 3; ++i) p(i) = v.at(t, i); return p; } };
struct Fun : oc::TimeVaryingDouble { std::function<double(double)> f; double v; const double& get(double t, bool& ok) override { ok = true; v = f(t); return v; } };

static void body() {
    int kind = sym::choose("cost", 9);
    int shape = kind == 7 ? sym::choose("shape", 5) : 0; size_t points = kind == 7 ? (shape >= 3 ? 5 : 4) : 3;
    Problem p(points, 2);
    double t = sym::var("time", 0.75, 0, 10);
    double K = sym::var("param_K", 1.25, 0.0625, 20);
    HyperbolicSecant sech; sech.setScaling(K);
    std::string foot = "Left"; size_t pt = 0;
    if (kind <= 4 || kind == 7) { foot = sym::choose("foot", 2) ? "Right" : "Left"; }
    if (kind <= 4) pt = (size_t) sym::choose("point", (int) points);
    int first = 0; bool history = sym::choose("history", 2) == 1;
#ifndef VALUES_ONLY
    if (history) first = sym::choose("first", 6);
#endif
    (void) first;
    std::string P = foot + "PositionPoint" + S(pt), F = foot + "ForcePoint" + S(pt), V = foot + "VelocityControlPoint" + S(pt);
    std::unique_ptr<oc::Cost> c; std::string id; double value = 0;
    double fz = p.xs(F, 2), pz = p.xs(P, 2);
    auto sq = [](double a) { return a * a; };
    auto phi = [&](double) { return 0.0; }; (void) phi;
    switch (kind) {
    case 0: id = "complementarity cost"; c.reset(new ComplementarityCost(p.l.state, p.l.control, foot, pt)); value = 0.5 * sq(p.us(V, 2) * fz); break;
    case 1: id = "phantom forces cost"; c.reset(new PhantomForcesCost(p.l.state, p.l.control, foot, pt, sech)); value = 0.5 * sq((1 - 1.0 / std::cosh(K * pz)) * fz); break;
    case 2: { id = "swing cost"; iDynTree::Vector3 w; for (int i = 0; i < 3; ++i) w(i) = sym::var("weight" + S(i), 1 + 0.25 * i, 0, 100);
        double h = sym::var("height", 0.125, 0, 1); c.reset(new SwingCost(p.l.state, p.l.control, foot, pt, h, w));
        for (int i = 0; i < 3; ++i) value = value + 0.5 * (w(i) * sq(p.us(V, i) * (pz - h))); break; }
    case 3: { id = "force mean cost"; c.reset(new ForceMeanCost(p.l.state, p.l.control, foot, pt));
        for (int i = 0; i < 2; ++i) { double m = 0; for (size_t k = 0; k < points; ++k) m = m + p.xs(foot + "ForcePoint" + S(k), i); value = value + 0.5 * sq(p.xs(F, i) - m / (double) points); } break; }
    case 4: { id = "force ratio cost"; auto f = new ForceRatioCost(p.l.state, p.l.control, foot, pt); c.reset(f);
        double r = sym::var("ratio", 0.375, 0, 1); f->setDesiredRatio(r); double s = 0; for (size_t k = 0; k < points; ++k) s = s + p.xs(foot + "ForcePoint" + S(k), 2);
        value = 0.5 * sq(fz - r * s); break; }
    case 5: { id = "feet distance cost"; c.reset(new FeetDistanceCost(p.l.state, p.l.control));
        for (int i = 0; i < 3; ++i) { double d = 0; for (size_t k = 0; k < points; ++k) d = d + p.xs("LeftPositionPoint" + S(k), i) - p.xs("RightPositionPoint" + S(k), i); value = value + 0.5 * sq(d / (double) points); } break; }
    case 6: { id = "mean point position cost"; auto f = new MeanPointPositionCost(p.l.state, p.l.control); c.reset(f);
        auto des = std::make_shared<LinPosition>("target"); auto w = std::make_shared<LinVector>("weight", 3, 0, 50);
        sym::fact("mean point: trajectory accepted", f->setDesiredPositionTrajectory(des)); f->setTimeVaryingWeight(w);
        for (int i = 0; i < 3; ++i) { double d = 0; for (const char* ft : {"Left", "Right"}) for (size_t k = 0; k < points; ++k) d = d + p.xs(std::string(ft) + "PositionPoint" + S(k), i);
            value = value + 0.5 * (w->at(t, i) * sq(d / (2.0 * points) - des->v.at(t, i))); } break; }
    case 7: { id = "foot yaw cost";
        // nominal rectangles: aligned with the foot frame, in other corner orders, turned by atan2(0.5, 1) in the foot frame, and with further points inside
        std::vector<iDynTree::Position> pts; size_t tl, tr, br;
        if (shape == 0) { pts = {{0.125, 0.0625, 0}, {0.125, -0.0625, 0}, {-0.0625, 0.0625, 0}, {-0.0625, -0.0625, 0}}; tl = 0; tr = 1; br = 3; }
        else if (shape == 1) { pts = {{-0.0625, -0.0625, 0}, {0.125, -0.0625, 0}, {0.125, 0.0625, 0}, {-0.0625, 0.0625, 0}}; br = 0; tr = 1; tl = 2; }
        else if (shape >= 3) { // corners, and a further point anywhere inside, last or first
            double a = sym::var("inner_x", 0.03125, -0.0625 + 0.0078125, 0.125 - 0.0078125), b = sym::var("inner_y", 0.015625, -0.0546875, 0.0546875); iDynTree::Position inner(a, b, 0);
            pts = {{0.125, 0.0625, 0}, {0.125, -0.0625, 0}, {-0.0625, 0.0625, 0}, {-0.0625, -0.0625, 0}}; tl = 0; tr = 1; br = 3;
            if (shape == 3) pts.push_back(inner); else { pts.insert(pts.begin(), inner); ++tl; ++tr; ++br; } }
        else { pts = {{-0.25 * 1 + 0.125, -0.25 * 0.5 - 0.25, 0}, {0.25 + 0.125, 0.125 - 0.25, 0}, {0.25 - 0.125, 0.125 + 0.25, 0}, {-0.25 - 0.125, -0.125 + 0.25, 0}}; br = 0; tr = 1; tl = 2; }
        auto f = new FootYawCost(p.l.state, foot, pts); c.reset(f);
        // nominal heading of the right edge in the foot frame
        double nominal = std::atan2(pts[tr](1) - pts[br](1), pts[tr](0) - pts[br](0));
        double yaw0 = sym::var("yaw_a", 0.25, -3, 3), yaw1 = sym::var("yaw_b", 0.125, -0.25, 0.25);
        auto des = std::make_shared<Fun>(); des->f = [=](double s) { return (yaw0 + yaw1 * s) - nominal; }; f->setDesiredYawTrajectory(des);
        double heading = yaw0 + yaw1 * t; // = desired yaw + nominal heading: where the right edge has to point
        double ex = p.xs(foot + "PositionPoint" + S(tr), 0) - p.xs(foot + "PositionPoint" + S(br), 0), ey = p.xs(foot + "PositionPoint" + S(tr), 1) - p.xs(foot + "PositionPoint" + S(br), 1);
        double lx = p.xs(foot + "PositionPoint" + S(tl), 0) - p.xs(foot + "PositionPoint" + S(tr), 0), ly = p.xs(foot + "PositionPoint" + S(tl), 1) - p.xs(foot + "PositionPoint" + S(tr), 1);
        value = 0.5 * sq(ey * std::cos(heading) - ex * std::sin(heading)) + 0.5 * sq(lx * std::cos(heading) + ly * std::sin(heading)); break; }
    default: { id = "joints velocity postural cost"; VectorDynSize w(2), g(2); for (int i = 0; i < 2; ++i) { w(i) = sym::var("weight" + S(i), 1 + 0.5 * i, 0, 50); g(i) = sym::var("gain" + S(i), 0.75 + 0.25 * i, 0, 50); }
        auto des = std::make_shared<LinVector>("target", 2, -2, 2); c.reset(new JointsVelocityForPosturalCost(p.l.state, p.l.control, w, g, des));
        for (int i = 0; i < 2; ++i) value = value + 0.5 * sq(w(i) * (p.us("JointsVelocity", i) + g(i) * (p.xs("JointsPosition", i) - des->at(t, i)))); }
    }
    if (history) { Problem q(points, 2, "hist_"); warmCost(*c, sym::var("hist_time", 0.125, 0, 10), q.x, q.u); }
#ifdef VALUES_ONLY
    double v = 0; sym::fact(id + ": evaluates", c->costEvaluation(t, p.x, p.u, v));
    sym::eq(id + ": value", v, value);
#else
    (void) value;
    checkCost(*c, t, p.x, p.u, p.n, id, true, first);
#endif
    sym::reach(id);
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
