// Quaternion utilities: normalisation, rotation and angular velocity maps, derivatives, inverse and error, for every quaternion.
#include <dpcommon.h>
#include <DynamicalPlannerPrivate/Utilities/QuaternionUtils.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace dp;
using iDynTree::Vector4; using iDynTree::Vector3;
static Vector4 vec4(const std::string& n, std::initializer_list<double> s, double b) { Vector4 v; int i = 0; for (double d : s) { v(i) = sym::var(n + S(i), d, -b, b); ++i; } return v; }
static Vector3 vec3(const std::string& n, std::initializer_list<double> s, double b) { Vector3 v; int i = 0; for (double d : s) { v(i) = sym::var(n + S(i), d, -b, b); ++i; } return v; }
// Hamilton product, scalar first
static std::array<double, 4> prod(const std::array<double, 4>& a, const std::array<double, 4>& b) {
    return {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
}
static std::array<double, 4> arr(const Vector4& v) { return {v(0), v(1), v(2), v(3)}; }
static std::array<double, 4> conj(const std::array<double, 4>& a) { return {a[0], -a[1], -a[2], -a[3]}; }
static std::array<double, 3> rotate(const std::array<double, 4>& q, const std::array<double, 3>& x) { // x + 2 w (r x x) + 2 r x (r x x)
    auto c = [](double a0, double a1, double a2, double b0, double b1, double b2) { return std::array<double, 3>{a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0}; };
    auto r = c(q[1], q[2], q[3], x[0], x[1], x[2]); auto rr = c(q[1], q[2], q[3], r[0], r[1], r[2]);
    return {x[0] + 2 * q[0] * r[0] + 2 * rr[0], x[1] + 2 * q[0] * r[1] + 2 * rr[1], x[2] + 2 * q[0] * r[2] + 2 * rr[2]};
}
static void body() {
#ifdef PART_ERROR
    int kind = 5;
#else
    int kind = sym::choose("part", 5);
#endif
    Vector4 q = vec4("q", {0.75, -0.25, 0.5, 0.375}, 2);
    double n2 = 0; for (int i = 0; i < 4; ++i) n2 = n2 + q(i) * q(i);
    sym::assumeGe(n2, 0.0625);
    std::vector<std::string> qn = {"q0", "q1", "q2", "q3"};
    if (kind == 0) {
        Vector4 nq = NormalizedQuaternion(q); double m2 = 0;
        for (int i = 0; i < 4; ++i) { m2 = m2 + nq(i) * nq(i); for (int j = 0; j < 4; ++j) sym::eq("normalised: same direction " + S(i) + S(j), nq(i) * q(j), nq(j) * q(i)); }
        sym::eq("normalised: unit norm", m2, 1.0);
        double pos = 0; for (int i = 0; i < 4; ++i) pos = pos + nq(i) * q(i);
        sym::ge("normalised: same orientation", pos, 0.0);
        sym::eq("squared norm", QuaternionSquaredNorm(q), n2);
        double n = QuaternionNorm(q); sym::eq("norm", n * n, n2); sym::ge("norm is not negative", n, 0.0);
        auto D = NormalizedQuaternionDerivative(q);
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) sym::deriv("normalisation derivative " + S(i) + S(j), "nq" + S(i), nq(i), qn[j], q(j), D(i, j));
        sym::reach("normalisation");
    } else if (kind == 1) {
        // left trivialised: qdot = 1/2 q * (0, w_body)
        Vector3 w = vec3("w", {0.25, -0.5, 0.875}, 5);
        auto L = QuaternionLeftTrivializedDerivative(q); auto W = QuaternionLeftTrivializedDerivativeTimesOmegaJacobian(w);
        auto expected = prod(arr(q), {0, w(0), w(1), w(2)});
        for (int i = 0; i < 4; ++i) { double v = 0, u = 0; for (int j = 0; j < 3; ++j) v = v + L(i, j) * w(j); for (int j = 0; j < 4; ++j) u = u + W(i, j) * q(j);
            sym::eq("quaternion velocity of a body rate " + S(i), v, 0.5 * expected[i]); sym::eq("quaternion velocity by the rate jacobian " + S(i), u, 0.5 * expected[i]);
            for (int j = 0; j < 4; ++j) sym::deriv("rate jacobian " + S(i) + S(j), "qdot" + S(i), v, qn[j], q(j), W(i, j)); }
        sym::reach("left trivialised");
    } else if (kind == 2) {
        // inverse map: w = 2 conj(q) * qdot
        Vector4 qd = vec4("qd", {0.125, 0.5, -0.25, 0.625}, 5);
        auto Li = QuaternionLeftTrivializedDerivativeInverse(q); auto J = QuaternionLeftTrivializedDerivativeInverseTimesQuaternionDerivativeJacobian(qd);
        auto e = prod(conj(arr(q)), arr(qd));
        for (int i = 0; i < 3; ++i) { double v = 0; for (int j = 0; j < 4; ++j) v = v + Li(i, j) * qd(j); sym::eq("body rate of a quaternion velocity " + S(i), v, 2 * e[i + 1]);
            for (int j = 0; j < 4; ++j) sym::deriv("body rate jacobian " + S(i) + S(j), "w" + S(i), v, qn[j], q(j), J(i, j)); }
        auto L = QuaternionLeftTrivializedDerivative(q);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double v = 0; for (int k = 0; k < 4; ++k) v = v + Li(i, k) * L(k, j); sym::eq("the two maps are inverse up to the squared norm " + S(i) + S(j), v, i == j ? n2 : 0.0); }
        sym::reach("left trivialised inverse");
    } else if (kind == 3) {
        Vector3 x = vec3("x", {0.5, -0.125, 0.25}, 10);
        auto J = RotatedVectorQuaternionJacobian(x, q);
        auto r = rotate(arr(q), {x(0), x(1), x(2)});
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) sym::deriv("rotated vector jacobian " + S(i) + S(j), "rx" + S(i), r[i], qn[j], q(j), J(i, j));
        sym::reach("rotated vector");
    } else if (kind == 4) {
        Vector4 iq = InverseQuaternion(q); auto e = prod(arr(q), arr(iq)); auto D = InverseQuaternionDerivative();
        for (int i = 0; i < 4; ++i) { sym::eq("inverse quaternion " + S(i), e[i], i == 0 ? n2 : 0.0); for (int j = 0; j < 4; ++j) sym::deriv("inverse derivative " + S(i) + S(j), "iq" + S(i), iq(i), qn[j], q(j), D(i, j)); }
        bool in = QuaternionBoundsRespected(q);
        // accepted exactly inside of the unit box (up to the documented 1e-6)
        for (int i = 0; i < 4; ++i) if (in) { sym::ge("accepted quaternions are above -1 (" + S(i) + ")", q(i), -1 - 2e-6); sym::ge("accepted quaternions are below 1 (" + S(i) + ")", 1 + 2e-6, q(i)); }
        if (!in) { bool out = false; for (int i = 0; i < 4 && !out; ++i) out = q(i) > 1 || q(i) < -1; sym::fact("rejected quaternions leave the unit box", out); sym::reach("rejected"); }
        sym::reach("inverse");
    } else {
        // error quaternion: the rotation from the desired to the measured frame, identity at zero error
        // unit quaternions by stereographic parameters: every rotation, without roots
        double u[3]; const double start[4][3] = {{0.25, -0.5, 0.125}, {0.9375, 0.125, -0.25}, {0.125, 0.9375, 0.25}, {-0.25, 0.125, 0.9375}};
        int region = sym::choose("region", 4), axis = sym::choose("axis", 3);
        double s2 = 0; for (int i = 0; i < 3; ++i) { u[i] = sym::var("u" + S(region) + S(i), start[region][i], -1, 1); s2 = s2 + u[i] * u[i]; }
        double d = sym::var("d", 0.0625, -1, 1), c = 1 / (1 + d * d), k = 1 / (1 + s2);
        Vector4 a, b; a(0) = (1 - s2) * k; for (int i = 0; i < 3; ++i) { a(1 + i) = 2 * u[i] * k; b(1 + i) = 0; }
        b(0) = (1 - d * d) * c; b(1 + axis) = 2 * d * c;
        iDynTree::Rotation R, D; R.fromQuaternion(a); D.fromQuaternion(b);
        Vector4 e = ErrorQuaternion(R, D);
        auto x = prod(conj(arr(b)), arr(a));
        // unit quaternions are the same rotation exactly when all products of entries agree
        for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) sym::eq("error quaternion products " + S(i) + S(j), e(i) * e(j), x[i] * x[j], 1e-7);
        sym::reach("error");
    }
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
