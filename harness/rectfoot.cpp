// Rectangular foot: corners, normal force ratios and contact force distribution.
#include <dpcommon.h>
#include <DynamicalPlanner/RectangularFoot.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace dp;
static void body() {
    int kind = sym::choose("part", 3);
    DynamicalPlanner::RectangularFoot f;
    std::vector<iDynTree::Position> pts; std::vector<iDynTree::Force> forces; iDynTree::Wrench w; w.zero();
    iDynTree::Position tl;
    for (int i = 0; i < 3; ++i) tl(i) = sym::var("corner" + S(i), 0.125 - 0.0625 * i, -1, 1);
    iDynTree::Transform T = iDynTree::Transform::Identity();
    if (kind == 0) {
        sym::fact("corners need the foot size", !f.getPoints(T, pts)); sym::fact("forces need the foot size", !f.getForces(w, forces));
        double lx = sym::var("length", 0.1875, -1, 1), ly = sym::var("width", 0.09375, -1, 1);
        bool ok = f.setFoot(lx, ly, tl);
        if (!ok) { sym::fact("only non-positive sizes are rejected", lx <= 0 || ly <= 0); sym::fact("a rejected foot stays unset", !f.getPoints(T, pts)); sym::reach("rejected"); return; }
        sym::ge("accepted length", lx, 0.0); sym::ge("accepted width", ly, 0.0);
        iDynTree::Rotation R = iDynTree::Rotation::Identity(); iDynTree::Position p;
        // any affine frame: the rotation matrix is used as given
        for (int i = 0; i < 3; ++i) { p(i) = sym::var("frame_p" + S(i), 0.5 - 0.25 * i, -3, 3); for (int j = 0; j < 3; ++j) R(i, j) = sym::var("frame_R" + S(i) + S(j), 0.125 * (i + 1) - 0.25 * j, -1, 1); }
        T = iDynTree::Transform(R, p);
        pts.resize((size_t) sym::choose("stale", 3));
        sym::fact("corners available", f.getPoints(T, pts)); sym::fact("four corners", pts.size() == 4);
        double ox[4] = {0, 0, -lx, -lx}, oy[4] = {0, -ly, 0, -ly};
        for (int k = 0; k < 4; ++k) for (int i = 0; i < 3; ++i)
            sym::eq("corner " + S(k) + " coordinate " + S(i), pts[k](i), p(i) + R(i, 0) * (tl(0) + ox[k]) + R(i, 1) * (tl(1) + oy[k]) + R(i, 2) * tl(2));
        sym::reach("corners"); return;
    }
    if (kind == 1) {
        double lx = sym::var("length", 0.1875, 0.03125, 1), ly = sym::var("width", 0.09375, 0.03125, 1);
        if (sym::choose("again", 2)) sym::fact("first foot accepted", f.setFoot(0.5, 0.25, tl));
        sym::fact("foot accepted", f.setFoot(lx, ly, tl));
        double cx = sym::var("cop_x", 0.03125, -1, 1), cy = sym::var("cop_y", -0.015625, -1, 1);
        std::vector<double> r((size_t) sym::choose("stale", 3) * 3);
        f.getNormalRatiosFromCoP(cx, cy, r);
        sym::fact("four ratios", r.size() == 4);
        double X[4] = {lx / 2, lx / 2, -lx / 2, -lx / 2}, Y[4] = {ly / 2, -ly / 2, ly / 2, -ly / 2};
        double s = 0, sx = 0, sy = 0; for (int k = 0; k < 4; ++k) { s = s + r[k]; sx = sx + r[k] * X[k]; sy = sy + r[k] * Y[k]; }
        sym::eq("ratios sum to one", s, 1.0); sym::eq("ratios reproduce the centre of pressure x", sx, cx); sym::eq("ratios reproduce the centre of pressure y", sy, cy);
        bool inside = cx <= lx / 2 && -cx <= lx / 2 && cy <= ly / 2 && -cy <= ly / 2;
        if (inside) { for (int k = 0; k < 4; ++k) sym::ge("no pulling inside of the foot, corner " + S(k), r[k], 0.0); sym::reach("inside"); } else sym::reach("on or outside");
        return;
    }
    // force distribution: foot sizes and corners from a fixed list (the least squares matrix is then constant), every wrench
    double sizes[5][5] = {{0.1875, 0.09375, 0.125, 0.046875, 0.0}, {0.25, 0.25, 0.125, 0.125, 0}, {0.0625, 0.5, 0.25, -0.125, 0.0625}, {2, 1, -0.5, 0.75, -0.25}, {0.1875, 0.09375, 0.125, 0.046875, 0.0}};
    int k = sym::choose("foot", 5); double lx = sizes[k][0], ly = sizes[k][1]; for (int i = 0; i < 3; ++i) tl(i) = sizes[k][2 + i];
    if (k == 4) { sym::fact("first foot accepted", f.setFoot(0.5, 0.125, tl)); forces.resize(6); w(2) = 30; w(4) = -2; w(5) = 1; sym::fact("earlier forces available", f.getForces(w, forces)); }
    if (k == 3) forces.resize(6);
    sym::fact("foot accepted", f.setFoot(lx, ly, tl));
    double fz = sym::var("fz", 20, -10, 1000);
    for (int i = 0; i < 6; ++i) if (i != 2) w(i) = sym::var("wrench" + S(i), i < 2 ? 2.5 - i : 0.25 * (i - 4), -100, 100);
    w(2) = fz;
    sym::fact("forces available", f.getForces(w, forces)); sym::fact("four forces", forces.size() == 4);
    if (fz < 1e-7) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) sym::eq("no pressure, no forces " + S(i) + S(j), forces[i](j), 0.0); sym::reach("no pressure"); return; }
    double cxy[2] = {tl(0) - lx / 2, tl(1) - ly / 2}; double X[4] = {lx / 2, lx / 2, -lx / 2, -lx / 2}, Y[4] = {ly / 2, -ly / 2, ly / 2, -ly / 2};
    double F[3] = {0, 0, 0}, M[3] = {0, 0, 0};
    int active = 0; // corners carrying a pressure (decided exactly as data of the result)
    for (int i = 0; i < 4; ++i) { double px = cxy[0] + X[i], py = cxy[1] + Y[i], pz = tl(2);
        for (int j = 0; j < 3; ++j) F[j] = F[j] + forces[i](j);
        M[0] = M[0] + py * forces[i](2) - pz * forces[i](1); M[1] = M[1] + pz * forces[i](0) - px * forces[i](2); M[2] = M[2] + px * forces[i](1) - py * forces[i](0);
        if (sym::val(forces[i](2)) != 0) ++active; } // dropped corners carry an exact zero
    // corners with a share below 1e-7 of the pressure are allowed to be dropped
    double tol = 1e-3;
    for (int j = 0; j < 3; ++j) sym::eq("corner forces sum to the force " + S(j), F[j], w(j), tol);
    for (int j = 0; j < 2; ++j) sym::eq("corner forces reproduce the moment " + S(j), M[j], w(3 + j), tol);
    if (active >= 2) sym::eq("corner forces reproduce the moment 2", M[2], w(5), tol);
    sym::reach("active corners " + S(active));
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
