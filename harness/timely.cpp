// Kinematics by time: the object of the closest instant, whatever was asked before and however the instants changed.
#include <dpcommon.h>
using namespace dp;
static void body() {
    auto k = std::make_shared<TimelySharedKinDynComputations>(); sym::fact("no instants without a model", !k->isValid() && !k->setTimings({0.0, 1.0}));
    static iDynTree::Model m = toyModel(); sym::fact("model", k->loadRobotModel(m) && k->isValid());
    auto t0 = k->get(0.5); sym::fact("one object before any instant is set", t0 && t0 == k->get(-3.0));
    int rounds = 1 + sym::choose("changes", 2); std::vector<double> t; std::vector<SharedKinDynComputationsPointer> own;
    for (int r = 0; r < rounds; ++r) {
        int n = 1 + sym::choose("instants" + S(r), r + 1 == rounds ? MAXN : 3); t.assign(n, 0);
        double x = sym::var("start" + S(r), 0.25 + r, -10, 10); for (int i = 0; i < n; ++i) { t[i] = x; double d = sym::var("step" + S(r) + S(i), 0.5 + 0.125 * i, 0.001, 5); x = x + d; }
        sym::fact("instants accepted", k->setTimings(t));
        if (r + 1 < rounds) { double q = sym::var("asked_before" + S(r), 0.75, -20, 40); k->get(q); }
    }
    int n = (int) t.size();
    // which object belongs to which instant: asked exactly at the instant
    std::vector<SharedKinDynComputationsPointer> at; for (int i = 0; i < n; ++i) at.push_back(k->get(t[i]));
    for (int i = 0; i < n; ++i) { sym::fact("an object at every instant", (bool) at[i]); for (int j = 0; j < i; ++j) sym::fact("different instants have different objects", at[i] != at[j]); sym::fact("not the one used before", at[i] != t0); }
    int asked = QUERIES;
    for (int a = 0; a < asked; ++a) {
        double q = sym::var("query" + S(a), 1.0 + 0.375 * a, -20, 60);
        auto o = k->get(q); int which = -1; for (int i = 0; i < n; ++i) if (o == at[i]) which = i;
        sym::fact("one of the objects of the instants", which >= 0); if (which < 0) return;
        double d = q - t[which]; double e2 = d * d;
        for (int i = 0; i < n; ++i) { double f = q - t[i]; double f2 = f * f; sym::ge("no instant is closer", f2, e2, 1e-8); }
    }
    sym::reach("instants " + S(n));
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
