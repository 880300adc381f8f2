// Contact-model constraints: value, bounds, first and second derivatives, sparsity, for every state, control, multiplier and parameter.
#include <dpcommon.h>
#include <DynamicalPlannerPrivate/Constraints.h>
using namespace dp;

#define P_COMPLEMENTARITY 1
#define P_LIMITS 2
#define P_FRICTION 3
#define P_DERIVS 4

static void body() {
    Problem p(2, 1);
    const int kinds = 7;
    int kind = sym::choose("constraint", kinds);
    std::string foot = sym::choose("foot", 2) ? "Right" : "Left";
    size_t pt = (size_t) sym::choose("point", 2);
    bool history = sym::choose("history", 2) == 1;
    std::string P = foot + "PositionPoint" + S(pt), F = foot + "ForcePoint" + S(pt), V = foot + "VelocityControlPoint" + S(pt), U = foot + "ForceControlPoint" + S(pt);
    std::unique_ptr<iDynTree::optimalcontrol::Constraint> c;
    std::vector<double> value, lo, hi; std::string id;
    double pz = p.xs(P, 2), fz = p.xs(F, 2), vz = p.us(V, 2), uz = p.us(U, 2);
    double k1 = sym::var("param_a", 1.5, 0.0625, 50), k2 = sym::var("param_b", 0.75, 0.0625, 50), K = sym::var("param_K", 1.25, 0.0625, 20);
    HyperbolicSecant sech; sech.setScaling(K); HyperbolicTangent th; th.setScaling(K);
    auto secant = [&]() { return 1.0 / std::cosh(K * pz); };
    switch (kind) {
    case 0: id = "dynamical complementarity"; c.reset(new DynamicalComplementarityConstraint(p.l.state, p.l.control, foot, pt, k1, k2));
        value = {fz * vz + pz * uz + k1 * (pz * fz)}; hi = {k2}; break;
    case 1: id = "classical complementarity"; c.reset(new ClassicalComplementarityConstraint(p.l.state, p.l.control, foot, pt, k2));
        value = {pz * fz}; hi = {k2}; break;
    case 2: id = "planar complementarity"; c.reset(new ClassicalPlanarComplementarityConstraint(p.l.state, p.l.control, foot, pt, k2));
        value = {p.us(V, 0) * fz, p.us(V, 1) * fz}; lo = {-k2, -k2}; hi = {k2, k2}; break;
    case 3: id = "normal force derivative limit"; c.reset(new ContactForceControlConstraints(p.l.state, p.l.control, foot, pt, sech, k1, k2));
        value = {uz - secant() * k1 + (1 - secant()) * (k2 * fz)}; hi = {0.0}; break;
    case 4: id = "normal velocity limit"; c.reset(new NormalVelocityControlConstraints(p.l.state, p.l.control, foot, pt, th, k1));
        value = {k1 - vz, vz + std::tanh(K * pz) * k1}; lo = {0.0, 0.0}; break;
    case 5: { id = "planar velocity limit"; c.reset(new PlanarVelocityControlConstraints(p.l.state, p.l.control, foot, pt, th, k1, k2));
        double d = std::tanh(K * pz);
        value = {d * k1 - p.us(V, 0), d * k2 - p.us(V, 1), p.us(V, 0) + d * k1, p.us(V, 1) + d * k2}; lo = {0.0, 0.0, 0.0, 0.0}; break; }
    default: { id = "friction cone"; auto f = new ContactFrictionConstraint(p.l.state, p.l.control, foot, pt); c.reset(f);
        sym::fact("friction cone: positive coefficient accepted", f->setFrictionCoefficient(k1));
        sym::fact("friction cone: non-positive coefficient refused", !f->setFrictionCoefficient(-k2) && !f->setFrictionCoefficient(0.0));
        value = {p.xs(F, 0) * p.xs(F, 0) + p.xs(F, 1) * p.xs(F, 1) - k1 * k1 * fz * fz}; hi = {0.0}; }
    }
    int first = 0;
    if (history) {
        Problem q(2, 1, "hist_"); warmConstraint(*c, 0.25, q.x, q.u);
#ifndef VALUES_ONLY
        first = sym::choose("first", 6);
#endif
    }
    boundsObligation(id, *c, lo, hi);
#ifdef VALUES_ONLY
    VectorDynSize v(c->constraintSize()); v.zero();
    sym::fact(id + ": evaluates", c->evaluateConstraint(0.5, p.x, p.u, v));
    valueObligation(id, v, value);
#else
    checkConstraint(*c, 0.5, p.x, p.u, p.n, id, true, first);
#endif
    sym::reach(id);
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
