// Smoothing functions and the exponential weight: closed form, first and second derivative, scaling, disabling, and their shape.
#include <dpcommon.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicSecant.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicTangent.h>
#include <DynamicalPlanner/Utilities.h>
using namespace dp;
static void body() {
    double x = sym::var("x", 0.375, -5, 5), K = sym::var("K", 1.25, -50, 50), K0 = sym::var("K_before", 3.5, -50, 50);
    int kind = sym::choose("function", 3);
    if (kind == 2) {
        double a = sym::var("a", 2.5, -10, 10), b = sym::var("b", 0.5, -10, 10), c = sym::var("c", 0.25, -10, 10), d = sym::var("d", 0.75, -10, 10);
        DynamicalPlanner::Utilities::ExponentialWeight w(a, b, c, d);
        bool ok = false; w.get(sym::var("x_before", -1.5, -5, 5), ok); ok = false;
        double v = w.get(x, ok);
        sym::fact("exponential weight is valid", ok);
        sym::eq("exponential weight", v, a * std::exp(b * (x - d)) + c);
        sym::reach("exponential weight"); return;
    }
    std::unique_ptr<SmoothingFunction> f; if (kind == 0) f.reset(new HyperbolicTangent()); else f.reset(new HyperbolicSecant());
    std::string id = kind == 0 ? "hyperbolic tangent" : "hyperbolic secant";
    int mode = sym::choose("mode", 5); // 0 default scaling, 1 scaled, 2 scaled twice, 3 disabled (value given), 4 disabled (default value) after scaling
    double k = 1;
    if (mode == 1) { f->setScaling(K); k = K; }
    if (mode == 2) { f->setScaling(K0); f->eval(x); f->evalDerivative(x); f->evalDoubleDerivative(x); f->setScaling(K); k = K; }
    double dv = 1;
    if (mode == 3) { dv = sym::var("disabled_value", 0.5, -5, 5); f->disable(dv); }
    if (mode == 4) { f->setScaling(K); f->disable(); }
    double e, d1, d2;
    if (sym::choose("order", 2)) { d2 = f->evalDoubleDerivative(x); d1 = f->evalDerivative(x); e = f->eval(x); } else { e = f->eval(x); d1 = f->evalDerivative(x); d2 = f->evalDoubleDerivative(x); }
    if (mode >= 3) {
        sym::eq(id + ": disabled value", e, dv); sym::eq(id + ": disabled derivative", d1, 0); sym::eq(id + ": disabled second derivative", d2, 0);
    } else {
        sym::eq(id + ": value", e, kind == 0 ? std::tanh(k * x) : 1 / std::cosh(k * x));
        sym::deriv(id + ": first derivative", "value", e, "x", x, d1);
        sym::deriv(id + ": second derivative", "slope", d1, "x", x, d2);
        // a copy through the base interface keeps the parameters
        double y = kind == 0 ? HyperbolicTangent(static_cast<HyperbolicTangent&>(*f)).eval(x) : HyperbolicSecant(static_cast<HyperbolicSecant&>(*f)).eval(x);
        sym::eq(id + ": value of a copy", y, e);
    }
    sym::reach(id);
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
