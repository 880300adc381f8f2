// State and control containers: sizes, zero, and the geometric helpers the walking logic relies on.
#include <dpcommon.h>
#include <DynamicalPlanner/State.h>
#include <DynamicalPlanner/Control.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace dp; using namespace DynamicalPlanner;
static void body() {
    int n = sym::choose("points", 4), dofs = sym::choose("joints", 3);
    State s((size_t) dofs, (size_t) n); Control c((size_t) dofs, (size_t) n);
    sym::fact("sizes", s.checkSize(dofs, n) && c.checkSize(dofs, n) && !s.checkSize(dofs + 1, n) && !s.checkSize(dofs, n + 1) && !c.checkSize(dofs + 1, n) && !c.checkSize(dofs, n + 1));
    State s2((size_t) dofs, (size_t) n), s3((size_t) dofs + 1, (size_t) n), s4((size_t) dofs, (size_t) n + 1), s5((size_t) dofs, (size_t) n), s6((size_t) dofs, (size_t) n); s5.leftContactPointsState.resize(n + 2); s6.rightContactPointsState.resize(n + 2);
    Control c2((size_t) dofs, (size_t) n), c3((size_t) dofs + 1, (size_t) n), c4((size_t) dofs, (size_t) n + 1), c5((size_t) dofs, (size_t) n), c6((size_t) dofs, (size_t) n); c5.leftContactPointsControl.resize(n + 2); c6.rightContactPointsControl.resize(n + 2);
    sym::fact("same size", s.sameSize(s2) && !s.sameSize(s3) && !s.sameSize(s4) && !s.sameSize(s5) && !s.sameSize(s6) && !s5.checkSize(dofs, n) && !s6.checkSize(dofs, n));
    sym::fact("same size of controls", c.sameSize(c2) && !c.sameSize(c3) && !c.sameSize(c4) && !c.sameSize(c5) && !c.sameSize(c6) && !c5.checkSize(dofs, n) && !c6.checkSize(dofs, n));
    auto fill = [&](auto&& v, int k, const std::string& name, double b) { for (int i = 0; i < k; ++i) v(i) = sym::var(name + S(i), 0.25 * i - 0.125 * k + 0.0625 * name.size(), -b, b); };
    for (int side = 0; side < 2; ++side) for (int k = 0; k < n; ++k) { std::string p = (side ? "right" : "left") + S(k);
        auto& x = (side ? s.rightContactPointsState : s.leftContactPointsState)[k]; fill(x.pointForce, 3, p + "_force", 500); fill(x.pointPosition, 3, p + "_position" + (side ? "" : "_"), 10);
        auto& y = (side ? c.rightContactPointsControl : c.leftContactPointsControl)[k]; fill(y.pointForceControl, 3, p + "_forcerate", 500); fill(y.pointVelocityControl, 3, p + "_velocity", 10); }
    if (sym::choose("part", 2) == 0) {
        fill(s.momentumInCoM, 6, "momentum", 10); fill(s.comPosition, 3, "com", 10); fill(s.jointsConfiguration, dofs, "joint", 3); s.time = sym::var("time", 1, 0, 10);
        iDynTree::Position bp; fill(bp, 3, "base", 10); s.worldToBaseTransform.setPosition(bp);
        fill(c.baseLinearVelocity, 3, "vbase", 10); fill(c.baseQuaternionDerivative, 4, "qbase", 10); fill(c.jointsVelocity, dofs, "jointrate", 10); c.time = sym::var("ctime", 1, 0, 10);
        s.zero(); c.zero();
        auto z = [&](auto&& v, int k, const std::string& name) { for (int i = 0; i < k; ++i) sym::eq("zero: " + name, v(i), 0.0); };
        for (int side = 0; side < 2; ++side) for (int k = 0; k < n; ++k) { auto& x = (side ? s.rightContactPointsState : s.leftContactPointsState)[k]; z(x.pointForce, 3, "force"); z(x.pointPosition, 3, "position");
            auto& y = (side ? c.rightContactPointsControl : c.leftContactPointsControl)[k]; z(y.pointForceControl, 3, "force control"); z(y.pointVelocityControl, 3, "velocity control"); }
        z(s.momentumInCoM, 6, "momentum"); z(s.comPosition, 3, "com"); z(s.jointsConfiguration, dofs, "joints"); z(c.baseLinearVelocity, 3, "base velocity"); z(c.baseQuaternionDerivative, 4, "quaternion derivative"); z(c.jointsVelocity, dofs, "joint velocities");
        sym::eq("zero: time", s.time, 0.0); sym::eq("zero: control time", c.time, 0.0);
        z(s.worldToBaseTransform.getPosition(), 3, "base position"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym::eq("zero: base rotation", s.worldToBaseTransform.getRotation()(i, j), i == j ? 1.0 : 0.0);
        sym::reach("zero"); return;
    }
    // different numbers of points on the two feet
    int m = n; if (n > 0 && sym::choose("uneven", 2)) { s.rightContactPointsState.resize(n - 1); m = n - 1; }
    double L[3] = {0, 0, 0}, R[3] = {0, 0, 0};
    for (int i = 0; i < 3; ++i) { for (int k = 0; k < n; ++k) L[i] = L[i] + s.leftContactPointsState[k].pointPosition(i); for (int k = 0; k < m; ++k) R[i] = R[i] + s.rightContactPointsState[k].pointPosition(i); }
    iDynTree::Position cen = s.computeFeetCentroid();
    for (int i = 0; i < 3; ++i) sym::eq("centroid " + S(i), cen(i) * (n + m), L[i] + R[i]);
    if (m == 0) { if (n == 0) for (int i = 0; i < 3; ++i) sym::eq("centroid of no points", cen(i), 0.0); sym::reach("no points"); return; }
    iDynTree::Vector3 f; fill(f, 3, "forward", 1);
    double l = 0, r = 0; for (int i = 0; i < 3; ++i) { l = l + L[i] * f(i); r = r + R[i] * f(i); } l = l / n; r = r / m;
    bool left = s.leftIsForward(f);
    if (left) sym::ge("the left foot is the forward one", l, r); else sym::ge("the right foot is the forward one", r, l);
    double mn = s.minimumPointForceOnForwardFoot(f); const auto& pts = left ? s.leftContactPointsState : s.rightContactPointsState;
    sym::ge("a force norm is not negative", mn, 0.0); double prod = 1;
    for (auto& p : pts) { double q = 0; for (int i = 0; i < 3; ++i) q = q + p.pointForce(i) * p.pointForce(i); sym::ge("not above any point of the forward foot", q, mn * mn, 1e-6); prod = prod * (q - mn * mn); }
    sym::eq("attained at a point of the forward foot", prod, 0.0);
    sym::reach(left ? "left" : "right");
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
