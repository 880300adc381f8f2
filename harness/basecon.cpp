// Unit-norm constraint of the base quaternion and relative height of the feet: values, bounds, derivatives.
#include <dpcommon.h>
#include <DynamicalPlannerPrivate/Constraints/QuaternionNormConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/FeetRelativeHeightConstraint.h>
using namespace dp;
static void body() {
    int kind = sym::choose("constraint", 2);
    size_t points = (size_t) sym::choose("points", 4) + 1;
    Problem p(points, 2);
    double t = sym::var("time", 0.75, 0, 10);
    int first = 0; bool history = sym::choose("history", 2) == 1;
    if (history) first = sym::choose("first", 6);
    if (kind == 0) {
        QuaternionNormConstraint c(p.l.state, p.l.control);
        boundsObligation("quaternion norm before setting a tolerance", c, {0.0}, {0.0});
        double tol = sym::var("tolerance", 0.125, 0, 1);
        c.setEqualityTolerance(tol);
        if (history) { Problem q(points, 2, "hist_"); warmConstraint(c, 0.125, q.x, q.u); }
        boundsObligation("quaternion norm", c, {-tol / 2}, {tol / 2});
        auto r = checkConstraint(c, t, p.x, p.u, p.n, "quaternion norm", true, first);
        double n2 = 0; for (int i = 0; i < 4; ++i) n2 = n2 + p.xs("BaseQuaternion", i) * p.xs("BaseQuaternion", i);
        valueObligation("quaternion norm", r.value, {n2 - 1});
        sym::fact("quaternion norm: spaces", c.expectedStateSpaceSize() == p.x.size() && c.expectedControlSpaceSize() == p.u.size());
        sym::reach("quaternion norm");
    } else {
        double h = sym::var("height", 0.0625, 0, 1);
        FeetRelativeHeightConstraint c(p.l.state, p.l.control, h);
        if (history) { Problem q(points, 2, "hist_"); warmConstraint(c, 0.125, q.x, q.u); }
        boundsObligation("relative height", c, {-h}, {h});
        auto r = checkConstraint(c, t, p.x, p.u, p.n, "relative height", true, first);
        double d = 0; for (size_t i = 0; i < points; ++i) d = d + p.xs("LeftPositionPoint" + S(i), 2) - p.xs("RightPositionPoint" + S(i), 2);
        valueObligation("relative height", r.value, {d / (double) points});
        sym::fact("relative height: spaces", c.expectedStateSpaceSize() == p.x.size() && c.expectedControlSpaceSize() == p.u.size());
        sym::reach("relative height");
    }
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
