// Initial states: robot standing on the left foot, lowered to the ground, or carried along with a CoM reference.
#include <dpcommon.h>
#include <DynamicalPlanner/Utilities.h>
#include <iDynTree/KinDynComputations.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace dp; using namespace DynamicalPlanner; namespace oc = iDynTree::optimalcontrol; using iDynTree::Position; using iDynTree::Transform;
#ifndef ACTIVE
#define ACTIVE 0
#endif
static SettingsStruct base() { static iDynTree::Model m = toyModel(); SettingsStruct s = Settings::Defaults(m); s.frameForOrientationCost = "l_sole"; return s; }
template <class A, class B> static void eq3(const std::string& id, const A& a, const B& b, double tol = 0) { for (int i = 0; i < 3; ++i) { if (tol == 0) sym::eq(id + " " + S(i), a(i), b(i)); else { sym::ge(id + " " + S(i), a(i) + tol, b(i)); sym::ge(id + " " + S(i) + "'", b(i) + tol, a(i)); } } }
// ACTIVE joints move freely from the first one on, the others are straight (ACTIVE 1: any one of the three)
static void joints(VectorDynSize& q) { static const double smp[3] = {0.25, -0.375, 0.5}; int one = ACTIVE == 1 ? sym::choose("joint", 3) : -1; for (int i = 0; i < 3; ++i) q(i) = i == one || (one < 0 && i < ACTIVE) ? sym::var("joint" + S(i), smp[i], -3, 3) : 0.0; }
#if PART == 0
static void body() {
    SettingsStruct st = base(); st.floatingBaseName = sym::choose("base", 2) ? "l_thigh" : "root_link";
    double lx = 0.1875, ly = 0.0625; Position tl(0.125, 0.03125, 0), tr(0.125, 0.03125, 0);
    RectangularFoot lf, rf, lo, ro; bool set = lf.setFoot(lx, ly, tl) && rf.setFoot(lx, ly, tr) && lo.setFoot(lx, ly, tl) && ro.setFoot(lx, ly, tr); sym::fact("feet", set);
    auto toP = [](std::vector<Position>& v) {}; (void) toP; lf.getPoints(Transform::Identity(), st.leftPointsPosition); rf.getPoints(Transform::Identity(), st.rightPointsPosition);
    for (int i = 0; i < 4; ++i) st.leftPointsPosition[i](2) = 0.0625 * i;
    Settings s(st); sym::fact("settings", s.isValid());
    VectorDynSize q(3); joints(q); State x; // fills whatever was there
    if (sym::choose("reused", 2)) { x.resize(5, 2); }
    Settings invalid; sym::fact("invalid settings refused", !Utilities::FillDefaultInitialState(invalid, q, lf, rf, x));
    RectangularFoot unset; sym::fact("foot without size refused", !Utilities::FillDefaultInitialState(s, q, unset, rf, x) && !Utilities::FillDefaultInitialState(s, q, lf, unset, x));
    bool ok = Utilities::FillDefaultInitialState(s, q, lf, rf, x); sym::fact("filled", ok); if (!ok) return;
    sym::fact("sizes", x.checkSize(3, 4)); if (!x.checkSize(3, 4)) return;
    iDynTree::KinDynComputations k; k.loadRobotModel(st.robotModel); k.setFloatingBase("root_link");
    iDynTree::Vector3 g; g.zero(); g(2) = -9.81; Transform I = Transform::Identity(); VectorDynSize dq(3);
    k.setRobotState(I, q, iDynTree::Twist::Zero(), dq, g);
    Transform B = k.getWorldTransform("l_sole").inverse(); // pose of the root for which the left sole is the world
    Transform Rs = B * k.getWorldTransform("r_sole"), Bs = B * k.getWorldTransform(st.floatingBaseName); Position c = B * k.getCenterOfMassPosition();
    eq3("centre of mass", x.comPosition, c); eq3("base position", x.worldToBaseTransform.getPosition(), Bs.getPosition());
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym::eq("base rotation " + S(i) + S(j), x.worldToBaseTransform.getRotation()(i, j), Bs.getRotation()(i, j));
    for (int i = 0; i < 6; ++i) sym::eq("at rest " + S(i), x.momentumInCoM(i), 0.0);
    for (int i = 0; i < 3; ++i) sym::eq("joint " + S(i), x.jointsConfiguration(i), q(i)); sym::eq("time", x.time, 0.0);
    double W = 4 * 9.81; double N[2] = {0, 0}; const std::vector<ContactPointState>* P[2] = {&x.leftContactPointsState, &x.rightContactPointsState};
    const std::vector<Position>* nom[2] = {&st.leftPointsPosition, &st.rightPointsPosition};
    for (int i = 0; i < 4; ++i) { eq3("left point " + S(i), (*P[0])[i].pointPosition, st.leftPointsPosition[i]); eq3("right point " + S(i), (*P[1])[i].pointPosition, Rs * st.rightPointsPosition[i]); }
    double off[2] = {c(0), c(0) - Rs.getPosition()(0)}, lat[2] = {c(1), c(1) - Rs.getPosition()(1)}; bool loaded = true;
    for (int f = 0; f < 2; ++f) {
        double mx = 0, my = 0; for (int i = 0; i < 4; ++i) { double fz = (*P[f])[i].pointForce(2); N[f] = N[f] + fz; mx = mx + fz * (*nom[f])[i](0); my = my + fz * (*nom[f])[i](1); }
        std::string id = f ? "right " : "left "; sym::ge(id + "foot does not pull", N[f], 0.0);
        sym::eq(id + "pressure centre below the centre of mass", mx, N[f] * off[f], 1e-6); sym::eq(id + "pressure centre on the axis of the foot", my, 0.0, 1e-6);
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j) sym::eq(id + "no tangential force " + S(i) + S(j), (*P[f])[i].pointForce(j), 0.0);
    }
    sym::eq("the weight is carried", N[0] + N[1], W, 1e-6); double la = N[0] * x.comPosition(1), lb = (W - N[0]) * (x.comPosition(1) - Rs.getPosition()(1)); (void) lat; sym::eq("shares by lateral distance", la * la, lb * lb, 1e-6);
    (void) loaded; sym::reach("standing");
}
#elif PART == 1
static void body() {
    SettingsStruct st = base(); st.leftPointsPosition.resize(1); st.rightPointsPosition.resize(1); st.desiredLeftRatios = st.desiredRightRatios = {1.0};
    Settings s(st); sym::fact("settings", s.isValid()); int n = 1;
    VectorDynSize q(3); joints(q); State x(3, n); x.zero(); x.jointsConfiguration = q;
    Position b0; for (int i = 0; i < 3; ++i) b0(i) = sym::var("base" + S(i), i == 2 ? LOW + 0.25 : 0.25 * i, i == 2 ? LOW : -5, i == 2 ? HIGH : 5);
    iDynTree::Rotation R = sym::choose("turned", 2) ? iDynTree::Rotation(0, -1, 0, 1, 0, 0, 0, 0, 1) : iDynTree::Rotation::Identity(); x.worldToBaseTransform = Transform(R, b0);
    Settings invalid; sym::fact("invalid settings refused", !Utilities::SetMinContactPointToZero(invalid, x));
    iDynTree::Vector6 h; for (int i = 0; i < 6; ++i) h(i) = x.momentumInCoM(i) = sym::var("momentum" + S(i), 0.5 * i, -5, 5); double t = sym::var("time", 0.5, 0, 5); x.time = t;
    bool ok = Utilities::SetMinContactPointToZero(s, x); sym::fact("lowered", ok); if (!ok) return;
    iDynTree::KinDynComputations k; k.loadRobotModel(st.robotModel); k.setFloatingBase("root_link"); iDynTree::Vector3 g; g.zero(); g(2) = -9.81; VectorDynSize dq(3);
    k.setRobotState(Transform(R, b0), q, iDynTree::Twist::Zero(), dq, g);
    Position b = x.worldToBaseTransform.getPosition(), d; for (int i = 0; i < 3; ++i) d(i) = b(i) - b0(i);
    sym::eq("only vertical x", d(0), 0.0); sym::eq("only vertical y", d(1), 0.0);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym::eq("orientation is kept " + S(i) + S(j), x.worldToBaseTransform.getRotation()(i, j), R(i, j));
    Position l = k.getWorldTransform("l_sole") * st.leftPointsPosition[0], r = k.getWorldTransform("r_sole") * st.rightPointsPosition[0], c = k.getCenterOfMassPosition();
    eq3("left point moves with the base", x.leftContactPointsState[0].pointPosition, l + d, 1e-7); eq3("right point moves with the base", x.rightContactPointsState[0].pointPosition, r + d, 1e-7); eq3("centre of mass moves with the base", x.comPosition, c + d, 1e-7);
    double zl = l(2) + d(2), zr = r(2) + d(2); double mn = zl < zr ? zl : zr;
    sym::ge("the lowest point does not float", 1e-7, mn); sym::ge("the lowest point is not under the ground", mn + 1e-7, 0.0);
    for (int i = 0; i < 6; ++i) sym::eq("momentum is kept", x.momentumInCoM(i), h(i)); for (int i = 0; i < 3; ++i) sym::eq("joints are kept", x.jointsConfiguration(i), q(i)); sym::eq("time is kept", x.time, t);
    sym::reach("lowered");
}
#else
struct Ref : oc::TimeVaryingVector { VectorDynSize a, b, out; bool valid; Ref() : a(3), b(3), out(3), valid(true) {} const VectorDynSize& get(double t, bool& ok) override { ok = valid; for (int i = 0; i < 3; ++i) out(i) = a(i) + b(i) * t; return out; } };
static void body() {
    int n = sym::choose("points", 3), dofs = sym::choose("joints", 3); bool history = sym::choose("history", 2) == 1;
    auto r = std::make_shared<Ref>(); for (int i = 0; i < 3; ++i) { r->a(i) = sym::var("ref_a" + S(i), 0.5 + 0.25 * i, -5, 5); r->b(i) = sym::var("ref_b" + S(i), 0.25 - 0.125 * i, -5, 5); } r->valid = sym::choose("valid", 2) == 1;
    auto var = [&](const std::string& m, double smp) { return sym::var(m, smp, -5, 5); };
    State x(dofs, n); x.zero(); for (int i = 0; i < dofs; ++i) x.jointsConfiguration(i) = var("q" + S(i), 0.25 * i + 0.125); for (int i = 0; i < 6; ++i) x.momentumInCoM(i) = var("h" + S(i), 1 + i); for (int i = 0; i < 3; ++i) x.comPosition(i) = var("c" + S(i), 0.25 * i);
    Position p; for (int i = 0; i < 3; ++i) p(i) = var("p" + S(i), 0.5 - 0.25 * i); iDynTree::Rotation R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = var("R" + S(i) + S(j), i == j ? 1 : 0.125 * i); x.worldToBaseTransform = Transform(R, p); x.time = var("t0", 0.75);
    for (int side = 0; side < 2; ++side) for (int k = 0; k < n; ++k) { auto& y = (side ? x.rightContactPointsState : x.leftContactPointsState)[k]; for (int i = 0; i < 3; ++i) { y.pointPosition(i) = var("pt" + S(side) + S(k) + S(i), 0.125 * (i + k)); y.pointForce(i) = var("f" + S(side) + S(k) + S(i), 2 + i); } }
    State x0 = x; Utilities::TranslatingCoMStateGuess g(r, x); bool ok = false;
    if (history) { State& y = g.get(var("earlier", 0.25), ok); y.jointsConfiguration.zero(); y.momentumInCoM(2) = 3; }
    double t = var("time", 1.5); ok = !r->valid; State y = g.get(t, ok);
    sym::fact("valid exactly when the reference is", ok == r->valid); sym::fact("sizes", y.checkSize(dofs, n));
    Position d; for (int i = 0; i < 3; ++i) { double c = r->a(i) + r->b(i) * t; sym::eq("centre of mass " + S(i), y.comPosition(i), c); d(i) = c - x0.comPosition(i); }
    eq3("base", y.worldToBaseTransform.getPosition(), p + d); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym::eq("orientation " + S(i) + S(j), y.worldToBaseTransform.getRotation()(i, j), R(i, j));
    for (int i = 0; i < dofs; ++i) sym::eq("joint " + S(i), y.jointsConfiguration(i), x0.jointsConfiguration(i)); for (int i = 0; i < 6; ++i) sym::eq("momentum " + S(i), y.momentumInCoM(i), 0.0); sym::eq("time", y.time, t);
    for (int side = 0; side < 2; ++side) for (int k = 0; k < n; ++k) { auto& a = (side ? y.rightContactPointsState : y.leftContactPointsState)[k]; auto& b = (side ? x0.rightContactPointsState : x0.leftContactPointsState)[k]; eq3("point " + S(side) + S(k), a.pointPosition, Position(b.pointPosition(0), b.pointPosition(1), b.pointPosition(2)) + d); for (int i = 0; i < 3; ++i) sym::eq("force " + S(side) + S(k) + S(i), a.pointForce(i), b.pointForce(i)); }
    sym::reach("carried");
}
#endif
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
