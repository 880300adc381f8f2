#ifndef VERIF_DPCOMMON_H
#define VERIF_DPCOMMON_H
#include <toy.h>
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
#include <DynamicalPlannerPrivate/Utilities/TimelySharedKinDynComputations.h>
#include <iDynTree/Constraint.h>
#include <iDynTree/Cost.h>
#include <cmath>
#include <set>
#include <memory>
#include <vector>

namespace dp {
using namespace DynamicalPlanner::Private;
using iDynTree::VectorDynSize; using iDynTree::MatrixDynSize;

inline std::string S(size_t i) { return std::to_string(i); }

struct Layout {
    VariablesLabeller state, control;
    Layout(size_t points, size_t dofs) {
        for (std::string f : {"Left", "Right"}) for (size_t i = 0; i < points; ++i) {
            state.addLabel(f + "ForcePoint" + S(i), 3); state.addLabel(f + "PositionPoint" + S(i), 3);
            control.addLabel(f + "VelocityControlPoint" + S(i), 3); control.addLabel(f + "ForceControlPoint" + S(i), 3);
        }
        state.addLabel("Momentum", 6); state.addLabel("CoMPosition", 3); state.addLabel("BasePosition", 3); state.addLabel("BaseQuaternion", 4);
        state.addLabel("JointsPosition", dofs);
        control.addLabel("BaseLinearVelocity", 3); control.addLabel("BaseQuaternionDerivative", 4); control.addLabel("JointsVelocity", dofs);
    }
};

// samples: deterministic, dyadic, all distinct
inline double sampleOf(size_t i) { return ((i * 37 + 11) % 61) / 64.0 - 0.46875 + 0.0078125 * (i % 3); }

inline std::vector<std::string> entryNames(const VariablesLabeller& l) {
    std::vector<std::string> n(l.size());
    for (auto& lab : l.listOfLabels()) { auto r = l.getIndexRange(lab); for (int i = 0; i < r.size; ++i) n[r.offset + i] = lab + "_" + S(i); }
    return n;
}
// Every entry a symbolic input; the base quaternion is only assumed to have a squared norm in [1/4, 4].
inline VectorDynSize symVector(const VariablesLabeller& l, const std::string& prefix = "", double bound = 2) {
    VectorDynSize v(l.size()); auto n = entryNames(l);
    for (size_t i = 0; i < l.size(); ++i) {
        double s = sampleOf(i); double b = bound;
        if (n[i] == "BaseQuaternion_0") s = 0.75;
        if (n[i].rfind("JointsPosition", 0) == 0) b = 3;
        v(i) = sym::var(prefix + n[i], s, -b, b);
    }
    return v;
}
inline void assumeQuaternion(const VectorDynSize& state, const VariablesLabeller& l) {
    auto r = l.getIndexRange("BaseQuaternion");
    double n2 = 0;
    for (int i = 0; i < 4; ++i) n2 = n2 + state(r.offset + i) * state(r.offset + i);
    sym::assumeGe(n2, 0.25);
}
inline double toySum(const std::vector<double>& a) { double s = 0; for (double d : a) s = s + d; return s; }

struct Names { std::vector<std::string> s, c; };

typedef std::function<bool(MatrixDynSize&)> MatFun;
inline MatrixDynSize zeros(size_t r, size_t c) { MatrixDynSize m(r, c); m.zero(); return m; }

// "jacobian of values": value names are vname+index
inline void jacobianObligations(const std::string& id, const std::vector<double>& values, const std::vector<std::string>& vn, const VectorDynSize& x,
                                const std::vector<std::string>& xn, const MatrixDynSize& J, const std::string& xprefix = "") {
    for (size_t r = 0; r < values.size(); ++r) for (size_t c = 0; c < x.size(); ++c)
        sym::deriv(id + "(" + vn[r] + ";" + xn[c] + ")", vn[r], values[r], xprefix + xn[c], x(c), J(r, c));
}
inline void sparsityObligation(const std::string& id, const iDynTree::optimalcontrol::SparsityStructure& sp, const MatrixDynSize& M) {
    // every entry outside of the declared pattern is identically zero; declared entries are inside the matrix
    std::set<std::pair<size_t, size_t>> in;
    bool range = true;
    for (size_t k = 0; k < sp.size(); ++k) { in.insert({sp[k].row, sp[k].col}); if (sp[k].row >= M.rows() || sp[k].col >= M.cols()) range = false; }
    sym::fact(id + ": declared entries are inside the matrix", range);
    for (size_t r = 0; r < M.rows(); ++r) for (size_t c = 0; c < M.cols(); ++c) if (!in.count({r, c})) sym::eq(id + ": entry (" + S(r) + "," + S(c) + ") outside of the pattern is zero", M(r, c), 0.0, 0.0);
}

struct ConstraintResult { VectorDynSize value; MatrixDynSize Jx, Ju, Hxx, Hxu, Huu; };

// Calls every method once at another (symbolic) point: the contract afterwards must not depend on this history.
inline void warmConstraint(iDynTree::optimalcontrol::Constraint& con, double time, const VectorDynSize& x, const VectorDynSize& u, bool hessians = true) {
    size_t m = con.constraintSize();
    VectorDynSize v(m), l(m); MatrixDynSize a = zeros(m, x.size()), b = zeros(m, u.size()), c = zeros(x.size(), x.size()), d = zeros(x.size(), u.size()), e = zeros(u.size(), u.size());
    for (size_t i = 0; i < m; ++i) l(i) = sym::var("hist_lambda" + S(i), -0.75 + 0.125 * i, -2, 2);
    bool ok = con.evaluateConstraint(time, x, u, v) && con.constraintJacobianWRTState(time, x, u, a) && con.constraintJacobianWRTControl(time, x, u, b);
    if (hessians) ok = ok && con.constraintSecondPartialDerivativeWRTState(time, x, u, l, c) && con.constraintSecondPartialDerivativeWRTStateControl(time, x, u, l, d) && con.constraintSecondPartialDerivativeWRTControl(time, x, u, l, e);
    sym::fact("earlier evaluation succeeds", ok);
}
inline void warmCost(iDynTree::optimalcontrol::Cost& con, double time, const VectorDynSize& x, const VectorDynSize& u, bool hessians = true) {
    double v; VectorDynSize gx(x.size()), gu(u.size()); gx.zero(); gu.zero(); MatrixDynSize c = zeros(x.size(), x.size()), d = zeros(x.size(), u.size()), e = zeros(u.size(), u.size());
    bool ok = con.costEvaluation(time, x, u, v) && con.costFirstPartialDerivativeWRTState(time, x, u, gx) && con.costFirstPartialDerivativeWRTControl(time, x, u, gu);
    if (hessians) ok = ok && con.costSecondPartialDerivativeWRTState(time, x, u, c) && con.costSecondPartialDerivativeWRTStateControl(time, x, u, d) && con.costSecondPartialDerivativeWRTControl(time, x, u, e);
    sym::fact("earlier evaluation succeeds", ok);
}
inline bool constraintBounds(iDynTree::optimalcontrol::Constraint& con, VectorDynSize& lo, VectorDynSize& hi, bool& hasLo, bool& hasHi) {
    lo.resize(con.constraintSize()); hi.resize(con.constraintSize()); lo.zero(); hi.zero();
    hasLo = con.getLowerBound(lo); hasHi = con.getUpperBound(hi);
    return lo.size() == con.constraintSize() && hi.size() == con.constraintSize();
}
// The feasible set is  lo <= g <= hi  (an empty vector means unbounded on that side)
inline void boundsObligation(const std::string& id, iDynTree::optimalcontrol::Constraint& con, const std::vector<double>& lo, const std::vector<double>& hi) {
    VectorDynSize l, h; bool hl, hh;
    sym::fact(id + ": bounds available", constraintBounds(con, l, h, hl, hh));
    sym::fact(id + ": bounded from below as specified", hl == !lo.empty());
    sym::fact(id + ": bounded from above as specified", hh == !hi.empty());
    if (hl && !lo.empty()) for (size_t i = 0; i < lo.size(); ++i) sym::eq(id + ": lower bound " + S(i), l(i), lo[i]);
    if (hh && !hi.empty()) for (size_t i = 0; i < hi.size(); ++i) sym::eq(id + ": upper bound " + S(i), h(i), hi[i]);
}
inline void valueObligation(const std::string& id, const VectorDynSize& v, const std::vector<double>& expected) {
    sym::fact(id + ": number of values", v.size() == expected.size());
    if (v.size() == expected.size()) for (size_t i = 0; i < expected.size(); ++i) sym::eq(id + ": value " + S(i), v(i), expected[i]);
}
struct CostResult { double value; VectorDynSize gx, gu; MatrixDynSize Hxx, Hxu, Huu; };
inline CostResult checkCost(iDynTree::optimalcontrol::Cost& c, double time, const VectorDynSize& x, const VectorDynSize& u, const Names& n, const std::string& id, bool hessians = true, int first = 0) {
    CostResult R; R.value = 0;
    R.gx.resize(x.size()); R.gx.zero(); R.gu.resize(u.size()); R.gu.zero();
    R.Hxx = zeros(x.size(), x.size()); R.Hxu = zeros(x.size(), u.size()); R.Huu = zeros(u.size(), u.size());
    for (int k = 0; k < 6; ++k) switch ((first + k) % 6) {
    case 0: sym::fact(id + ": evaluates", c.costEvaluation(time, x, u, R.value)); break;
    case 1: sym::fact(id + ": state gradient available", c.costFirstPartialDerivativeWRTState(time, x, u, R.gx)); break;
    case 2: sym::fact(id + ": control gradient available", c.costFirstPartialDerivativeWRTControl(time, x, u, R.gu)); break;
    case 3: if (hessians) sym::fact(id + ": state hessian available", c.costSecondPartialDerivativeWRTState(time, x, u, R.Hxx)); break;
    case 4: if (hessians) sym::fact(id + ": mixed hessian available", c.costSecondPartialDerivativeWRTStateControl(time, x, u, R.Hxu)); break;
    default: if (hessians) sym::fact(id + ": control hessian available", c.costSecondPartialDerivativeWRTControl(time, x, u, R.Huu));
    }
    sym::fact(id + ": gradient sizes", R.gx.size() == x.size() && R.gu.size() == u.size());
    for (size_t i = 0; i < x.size(); ++i) sym::deriv(id + " dJ/dx(" + n.s[i] + ")", "J", R.value, n.s[i], x(i), R.gx(i));
    for (size_t i = 0; i < u.size(); ++i) sym::deriv(id + " dJ/du(" + n.c[i] + ")", "J", R.value, n.c[i], u(i), R.gu(i));
    if (!hessians) return R;
    sym::fact(id + ": hessian sizes", R.Hxx.rows() == x.size() && R.Hxx.cols() == x.size() && R.Hxu.rows() == x.size() && R.Hxu.cols() == u.size() && R.Huu.rows() == u.size() && R.Huu.cols() == u.size());
    std::vector<double> gx, gu; std::vector<std::string> ngx, ngu;
    for (size_t i = 0; i < x.size(); ++i) { gx.push_back(R.gx(i)); ngx.push_back("gx" + S(i)); }
    for (size_t i = 0; i < u.size(); ++i) { gu.push_back(R.gu(i)); ngu.push_back("gu" + S(i)); }
    jacobianObligations(id + " d2J/dxdx", gx, ngx, x, n.s, R.Hxx);
    jacobianObligations(id + " d2J/dxdu", gx, ngx, u, n.c, R.Hxu);
    jacobianObligations(id + " d2J/dudu", gu, ngu, u, n.c, R.Huu);
    iDynTree::optimalcontrol::SparsityStructure sp;
    if (c.costSecondPartialDerivativeWRTStateSparsity(sp)) sparsityObligation(id + " state hessian sparsity", sp, R.Hxx);
    sp.clear(); if (c.costSecondPartialDerivativeWRTStateControlSparsity(sp)) sparsityObligation(id + " mixed hessian sparsity", sp, R.Hxu);
    sp.clear(); if (c.costSecondPartialDerivativeWRTControlSparsity(sp)) sparsityObligation(id + " control hessian sparsity", sp, R.Huu);
    return R;
}
struct Problem { Layout l; VectorDynSize x, u; Names n;
    Problem(size_t points, size_t dofs, const std::string& prefix = "") : l(points, dofs), x(symVector(l.state, prefix)), u(symVector(l.control, prefix)) { n.s = entryNames(l.state); n.c = entryNames(l.control); for (auto& s : n.s) s = prefix + s; for (auto& s : n.c) s = prefix + s; }
    double xs(const std::string& label, int i) const { return x(l.state.getIndexRange(label).offset + i); }
    double us(const std::string& label, int i) const { return u(l.control.getIndexRange(label).offset + i); }
};

// Full derivative contract of an iDynTree constraint at (time, x, u) for every lambda.
// `first` (0..5): the method that is called first at this point (the others follow); nothing may depend on that order.
inline ConstraintResult checkConstraint(iDynTree::optimalcontrol::Constraint& con, double time, const VectorDynSize& x, const VectorDynSize& u, const Names& n, const std::string& id, bool hessians = true, int first = 0) {
    ConstraintResult R;
    size_t m = con.constraintSize();
    R.value.resize(m); R.value.zero();
    R.Jx = zeros(m, x.size()); R.Ju = zeros(m, u.size());
    VectorDynSize lambda(m);
    if (hessians) for (size_t i = 0; i < m; ++i) lambda(i) = sym::var(id + "_lambda" + S(i), 0.5 + 0.25 * i, -2, 2);
    R.Hxx = zeros(x.size(), x.size()); R.Hxu = zeros(x.size(), u.size()); R.Huu = zeros(u.size(), u.size());
    for (int k = 0; k < 6; ++k) switch ((first + k) % 6) {
    case 0: sym::fact(id + ": evaluates", con.evaluateConstraint(time, x, u, R.value)); break;
    case 1: sym::fact(id + ": state jacobian available", con.constraintJacobianWRTState(time, x, u, R.Jx)); break;
    case 2: sym::fact(id + ": control jacobian available", con.constraintJacobianWRTControl(time, x, u, R.Ju)); break;
    case 3: if (hessians) sym::fact(id + ": state hessian available", con.constraintSecondPartialDerivativeWRTState(time, x, u, lambda, R.Hxx)); break;
    case 4: if (hessians) sym::fact(id + ": mixed hessian available", con.constraintSecondPartialDerivativeWRTStateControl(time, x, u, lambda, R.Hxu)); break;
    default: if (hessians) sym::fact(id + ": control hessian available", con.constraintSecondPartialDerivativeWRTControl(time, x, u, lambda, R.Huu));
    }
    sym::fact(id + ": value size", R.value.size() == m);
    sym::fact(id + ": jacobian sizes", R.Jx.rows() == m && R.Jx.cols() == x.size() && R.Ju.rows() == m && R.Ju.cols() == u.size());
    std::vector<std::string> vn; std::vector<double> vals;
    for (size_t i = 0; i < m; ++i) { vn.push_back(id + "_g" + S(i)); vals.push_back(R.value(i)); }
    jacobianObligations(id + " dg/dx", vals, vn, x, n.s, R.Jx);
    jacobianObligations(id + " dg/du", vals, vn, u, n.c, R.Ju);
    iDynTree::optimalcontrol::SparsityStructure sp;
    if (con.constraintJacobianWRTStateSparsity(sp)) sparsityObligation(id + " state jacobian sparsity", sp, R.Jx);
    sp.clear();
    if (con.constraintJacobianWRTControlSparsity(sp)) sparsityObligation(id + " control jacobian sparsity", sp, R.Ju);
    if (!hessians) return R;
    sym::fact(id + ": hessian sizes", R.Hxx.rows() == x.size() && R.Hxx.cols() == x.size() && R.Hxu.rows() == x.size() && R.Hxu.cols() == u.size() && R.Huu.rows() == u.size() && R.Huu.cols() == u.size());
    std::vector<double> lx, lu; std::vector<std::string> nlx, nlu;
    for (size_t j = 0; j < x.size(); ++j) { double s = 0; for (size_t i = 0; i < m; ++i) s = s + lambda(i) * R.Jx(i, j); lx.push_back(s); nlx.push_back(id + "_lJx" + S(j)); }
    for (size_t j = 0; j < u.size(); ++j) { double s = 0; for (size_t i = 0; i < m; ++i) s = s + lambda(i) * R.Ju(i, j); lu.push_back(s); nlu.push_back(id + "_lJu" + S(j)); }
    jacobianObligations(id + " d2(l.g)/dxdx", lx, nlx, x, n.s, R.Hxx);
    jacobianObligations(id + " d2(l.g)/dxdu", lx, nlx, u, n.c, R.Hxu);
    jacobianObligations(id + " d2(l.g)/dudu", lu, nlu, u, n.c, R.Huu);
    sp.clear(); if (con.constraintSecondPartialDerivativeWRTStateSparsity(sp)) sparsityObligation(id + " state hessian sparsity", sp, R.Hxx);
    sp.clear(); if (con.constraintSecondPartialDerivativeWRTStateControlSparsity(sp)) sparsityObligation(id + " mixed hessian sparsity", sp, R.Hxu);
    sp.clear(); if (con.constraintSecondPartialDerivativeWRTControlSparsity(sp)) sparsityObligation(id + " control hessian sparsity", sp, R.Huu);
    return R;
}
inline std::shared_ptr<TimelySharedKinDynComputations> makeTimedKinDyn(const std::vector<double>& timings = {0.0, 1.0}) {
    auto k = std::make_shared<TimelySharedKinDynComputations>();
    iDynTree::Model m = toyModel();
    if (!k->loadRobotModel(m) || !k->setFloatingBase("root_link") || !k->setTimings(timings)) { fprintf(stderr, "kindyn\n"); abort(); }
    return k;
}
}
#endif
