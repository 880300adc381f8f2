// Public interface of the symbolic run-time (see symrt.cpp and DESIGN.md).
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <string>
#include <vector>
#include <functional>
#include <cstdint>

namespace sym {
/// true when variables are symbolic; false when the harness replays concrete inputs natively.
bool symbolic();
/// Declare an input.  In symbolic mode the result is a NaN-boxed term whose concrete sample is the value
/// given in the inputs file (or `sample`), otherwise the plain value.  [lo,hi] is the stated bound of the claim.
double var(const std::string& name, double sample, double lo, double hi);
bool isSym(double d);
/// Concrete sample of a (possibly symbolic) double.
double val(double d);
/// Partial derivative of term f with respect to the input v (symbolic mode only; 0 in concrete mode).
double diff(double f, double v);
/// Add an assumption a >= b (an input precondition of the claim).
void assumeGe(double a, double b);
void assumeGt(double a, double b);
/// Total derivative given as list is not needed: use diff.

/// Obligations.  |a-b| <= tol for every input of the path (tol is only there to absorb rounding of constants).
void eq(const std::string& name, double a, double b, double tol = 1e-9);
/// a >= b - tol
void ge(const std::string& name, double a, double b, double tol = 1e-9);
/// df/dv == j (replayed natively with central differences of f).
void deriv(const std::string& name, const std::string& fname, double f, const std::string& vname, double v, double j, double tol = 1e-9);
/// structural fact decided on this path (the decisions on symbolic data it depends on are part of the path condition)
void fact(const std::string& name, bool holds);
/// Named observable: recorded for native replay / encoding validation.
void observe(const std::string& name, double v);
/// Reachability witness; the path reaching this is recorded.
void reach(const std::string& name);
/// A run can be stopped here (e.g. the path is outside of the claim).
void outside(const std::string& why);
/// Choose an integer in [0,n): decided by the inputs file (default 0).  The driver forks over all values.
int choose(const std::string& name, int n);
/// guard: forget recorded branch decisions made inside f (used for code of the harness itself).
int run(int argc, char** argv, const std::function<void()>& body);
}
#endif
