// Settings: accepted exactly when every requirement of what is active holds; a refusal changes nothing; what is accepted is stored as given.
#include <dpcommon.h>
#include <DynamicalPlanner/Settings.h>
using namespace dp; using namespace DynamicalPlanner; namespace oc = iDynTree::optimalcontrol;
typedef SettingsStruct T;
static std::shared_ptr<iDynTree::Model> model() { static auto m = std::make_shared<iDynTree::Model>(toyModel()); return m; }
static T base() {
    T s = Settings::Defaults(*model()); s.frameForOrientationCost = "l_sole";
    s.leftPointsPosition.resize(2); s.rightPointsPosition.resize(2); s.desiredLeftRatios = {0.5, 0.5}; s.desiredRightRatios = {0.25, 0.75};
    s.complementarityDissipation = 8; s.horizon = 2; return s;
}
// numbers of the structure, by name
struct Num { const char* name; double& (*f)(T&); };
#define N(x) Num{#x, [](T& s) -> double& { return s.x; }}
static const std::vector<Num>& numbers() { static std::vector<Num> n = {
    N(minimumDt), N(maximumDt), N(controlPeriod), N(horizon), N(activeControlPercentage), N(gravity(0)), N(gravity(1)), N(gravity(2)), N(updateTolerance),
    N(leftPointsPosition[0](0)), N(leftPointsPosition[1](2)), N(rightPointsPosition[0](1)), N(rightPointsPosition[1](0)),
    N(forceMaximumDerivative(0)), N(forceMaximumDerivative(1)), N(forceMaximumDerivative(2)), N(normalForceDissipationRatio), N(normalForceHyperbolicSecantScaling),
    N(complementarityDissipation), N(dynamicComplementarityUpperBound), N(classicalComplementarityTolerance), N(frictionCoefficient),
    N(velocityMaximumDerivative(0)), N(velocityMaximumDerivative(1)), N(velocityMaximumDerivative(2)), N(planarVelocityHyperbolicTangentScaling), N(normalVelocityHyperbolicSecantScaling), N(classicalPlanarComplementarityTolerance),
    N(minimumFeetDistance), N(feetMaximumRelativeHeight), N(comPositionConstraintTolerance), N(centroidalMomentumConstraintTolerance), N(quaternionModulusConstraintTolerance), N(pointPositionConstraintTolerance),
    N(minimumCoMHeight), N(jointsLimits[0].first), N(jointsLimits[0].second), N(jointsLimits[1].first), N(jointsLimits[1].second), N(jointsLimits[2].first), N(jointsLimits[2].second),
    N(jointsVelocityLimits[0].first), N(jointsVelocityLimits[0].second), N(jointsVelocityLimits[1].first), N(jointsVelocityLimits[1].second), N(jointsVelocityLimits[2].first), N(jointsVelocityLimits[2].second), N(maximumAngularMomentum),
    N(comCostOverallWeight), N(comVelocityCostOverallWeight), N(frameCostOverallWeight), N(forceMeanCostOverallWeight), N(forceRatioCostOverallWeight),
    N(desiredLeftRatios[0]), N(desiredLeftRatios[1]), N(desiredRightRatios[0]), N(desiredRightRatios[1]), N(jointsRegularizationCostOverallWeight), N(jointsVelocityCostOverallWeight), N(staticTorquesCostOverallWeight),
    N(forceDerivativesCostOverallWeight), N(pointAccelerationCostOverallWeight), N(swingCostOverallWeight), N(desiredSwingHeight), N(swingCostWeights(0)), N(swingCostWeights(2)), N(phantomForcesCostOverallWeight),
    N(meanPointPositionCostOverallWeight), N(leftFootYawCostOverallWeight), N(rightFootYawCostOverallWeight), N(feetDistanceCostOverallWeight), N(jointsVelocityForPosturalCostOverallWeight), N(complementarityCostOverallWeight),
    N(basePositionCostOverallWeight), N(baseQuaternionCostOverallWeight), N(frameAngularVelocityCostOverallWeight), N(rotationalPIDgain), N(baseLinearVelocityCostOverallWeight), N(baseQuaternionVelocityCostOverallWeight),
    N(angularMomentumCostOverallWeight), N(constraintsHessianRegularization), N(costsHessianRegularization)}; return n; }
#undef N
static void setNum(T& s, const std::string& name, double v) { for (auto& n : numbers()) if (name == n.name) { n.f(s) = v; return; } fprintf(stderr, "no number %s\n", name.c_str()); abort(); }
static double getNum(T& s, const std::string& name) { for (auto& n : numbers()) if (name == n.name) return n.f(s); abort(); }

// requirements on what is not a number: how to break them, and the activation flags that make them count (none: always)
typedef bool T::*Flag;
struct Req { const char* name; std::vector<Flag> flags; std::function<void(T&)> breakIt; };
#define L(...) [](T& s) { __VA_ARGS__; }
static const std::vector<Req>& reqs() { static std::vector<Req> r = {
    {"floating base is a link", {}, L(s.floatingBaseName = "nothing")}, {"floating base is not just a frame", {}, L(s.floatingBaseName = "l_sole_frame")},
    {"same number of points", {}, L(s.rightPointsPosition.resize(3); s.desiredRightRatios = {0.25, 0.25, 0.5})},
    {"left frame", {}, L(s.leftFrameName = "nothing")}, {"right frame", {}, L(s.rightFrameName = "nothing")},
    {"lateral index", {}, L(s.indexOfLateralDirection = 3)}, {"reference frame of the feet distance", {}, L(s.referenceFrameNameForFeetDistance = "nothing")}, {"other frame of the feet distance", {}, L(s.otherFrameNameForFeetDistance = "nothing")},
    {"few joint limits", {}, L(s.jointsLimits.resize(2))}, {"many joint limits", {}, L(s.jointsLimits.push_back({0, 1}))}, {"few velocity limits", {}, L(s.jointsVelocityLimits.resize(1))}, {"many velocity limits", {}, L(s.jointsVelocityLimits.push_back({0, 1}))},
    {"target tolerance", {&T::constrainTargetCoMPosition}, L(s.targetCoMPositionTolerance = nullptr)},
    {"com weights", {&T::comCostActive}, L(s.comWeights.resize(2))}, {"com trajectory", {&T::comCostActive}, L(s.desiredCoMTrajectory = nullptr)},
    {"com velocity weights", {&T::comVelocityCostActive}, L(s.comVelocityWeights.resize(4))}, {"com velocity trajectory", {&T::comVelocityCostActive}, L(s.desiredCoMVelocityTrajectory = nullptr)},
    {"frame", {&T::frameCostActive, &T::frameAngularVelocityCostActive}, L(s.frameForOrientationCost = "nothing")}, {"rotation trajectory", {&T::frameCostActive, &T::frameAngularVelocityCostActive}, L(s.desiredRotationTrajectory = nullptr)},
    {"frame weight", {&T::frameCostActive}, L(s.frameCostTimeVaryingWeight = nullptr)},
    {"joints trajectory", {&T::jointsRegularizationCostActive, &T::jointsVelocityForPosturalCostActive}, L(s.desiredJointsTrajectory = nullptr)}, {"joints weights", {&T::jointsRegularizationCostActive, &T::jointsVelocityForPosturalCostActive}, L(s.jointsRegularizationWeights.resize(2))},
    {"joints velocity trajectory", {&T::jointsVelocityCostActive}, L(s.desiredJointsVelocityTrajectory = nullptr)}, {"joints velocity weights", {&T::jointsVelocityCostActive, &T::jointsVelocityForPosturalCostActive}, L(s.jointsVelocityCostWeights.resize(4))},
    {"left yaw", {&T::leftFootYawCostActive}, L(s.desiredLeftFootYaw = nullptr)}, {"right yaw", {&T::rightFootYawCostActive}, L(s.desiredRightFootYaw = nullptr)},
    {"static torques weights", {&T::staticTorquesCostActive}, L(s.staticTorquesCostWeights.resize(2))},
    {"force derivative trajectory", {&T::forceDerivativeCostActive}, L(s.desiredForceDerivativeTrajectory = nullptr)}, {"force derivative weights", {&T::forceDerivativeCostActive}, L(s.forceDerivativeWeights.resize(2))},
    {"point acceleration trajectory", {&T::pointAccelerationCostActive}, L(s.desiredPointAccelerationTrajectory = nullptr)}, {"point acceleration weights", {&T::pointAccelerationCostActive}, L(s.pointAccelerationWeights.resize(4))},
    {"mean point reference", {&T::meanPointPositionCostActive}, L(s.desiredMeanPointPosition = nullptr)}, {"mean point weight", {&T::meanPointPositionCostActive}, L(s.meanPointPositionCostTimeVaryingWeight = nullptr)},
    {"base position weights", {&T::basePositionCostActive}, L(s.basePositionCostWeights.resize(2))}, {"base position trajectory", {&T::basePositionCostActive}, L(s.desiredBasePositionTrajectory = nullptr)},
    {"base quaternion trajectory", {&T::baseQuaternionCostActive}, L(s.desiredBaseQuaternionTrajectory = nullptr)},
    {"base velocity trajectory", {&T::baseLinearVelocityCostActive}, L(s.desiredBaseLinearVelocityTrajectory = nullptr)}, {"base velocity weights", {&T::baseLinearVelocityCostActive}, L(s.baseLinearVelocityCostWeights.resize(6))},
    {"base quaternion velocity trajectory", {&T::baseQuaternionVelocityCostActive}, L(s.desiredBaseQuaternionVelocityTrajectory = nullptr)},
    {"left ratios", {&T::forceRatioCostActive}, L(s.desiredLeftRatios.resize(1))}, {"right ratios", {&T::forceRatioCostActive}, L(s.desiredRightRatios.push_back(0))}}; return r; }
static const std::vector<Flag>& flags() { static std::vector<Flag> f = {&T::constrainTargetCoMPosition, &T::comCostActive, &T::comVelocityCostActive, &T::frameCostActive, &T::forceMeanCostActive, &T::forceRatioCostActive, &T::jointsRegularizationCostActive,
    &T::jointsVelocityCostActive, &T::staticTorquesCostActive, &T::forceDerivativeCostActive, &T::pointAccelerationCostActive, &T::swingCostActive, &T::phantomForcesCostActive, &T::meanPointPositionCostActive, &T::leftFootYawCostActive, &T::rightFootYawCostActive,
    &T::feetDistanceCostActive, &T::jointsVelocityForPosturalCostActive, &T::complementarityCostActive, &T::basePositionCostActive, &T::baseQuaternionCostActive, &T::frameAngularVelocityCostActive, &T::baseLinearVelocityCostActive, &T::baseQuaternionVelocityCostActive, &T::angularMomentumCostActive}; return f; }

// what has to be stored: every field that is not a number or a flag
static bool sameRest(const T& a, const T& b) {
    auto sp = [](const oc::TimeRange& x, const oc::TimeRange& y) { return x == y; };
    return a.floatingBaseName == b.floatingBaseName && a.leftFrameName == b.leftFrameName && a.rightFrameName == b.rightFrameName && a.indexOfLateralDirection == b.indexOfLateralDirection && a.referenceFrameNameForFeetDistance == b.referenceFrameNameForFeetDistance
        && a.otherFrameNameForFeetDistance == b.otherFrameNameForFeetDistance && a.leftPointsPosition.size() == b.leftPointsPosition.size() && a.rightPointsPosition.size() == b.rightPointsPosition.size() && a.jointsLimits.size() == b.jointsLimits.size() && a.jointsVelocityLimits.size() == b.jointsVelocityLimits.size()
        && a.targetCoMPositionTolerance == b.targetCoMPositionTolerance && a.desiredCoMTrajectory == b.desiredCoMTrajectory && a.desiredCoMVelocityTrajectory == b.desiredCoMVelocityTrajectory && a.frameForOrientationCost == b.frameForOrientationCost && a.desiredRotationTrajectory == b.desiredRotationTrajectory
        && a.frameCostTimeVaryingWeight == b.frameCostTimeVaryingWeight && a.desiredJointsTrajectory == b.desiredJointsTrajectory && a.desiredJointsVelocityTrajectory == b.desiredJointsVelocityTrajectory && a.desiredLeftFootYaw == b.desiredLeftFootYaw && a.desiredRightFootYaw == b.desiredRightFootYaw
        && a.desiredForceDerivativeTrajectory == b.desiredForceDerivativeTrajectory && a.desiredPointAccelerationTrajectory == b.desiredPointAccelerationTrajectory && a.desiredMeanPointPosition == b.desiredMeanPointPosition && a.meanPointPositionCostTimeVaryingWeight == b.meanPointPositionCostTimeVaryingWeight
        && a.desiredBasePositionTrajectory == b.desiredBasePositionTrajectory && a.desiredBaseQuaternionTrajectory == b.desiredBaseQuaternionTrajectory && a.desiredBaseLinearVelocityTrajectory == b.desiredBaseLinearVelocityTrajectory && a.desiredBaseQuaternionVelocityTrajectory == b.desiredBaseQuaternionVelocityTrajectory
        && a.complementarity == b.complementarity && a.planarComplementarity == b.planarComplementarity && a.robotModel.getNrOfDOFs() == b.robotModel.getNrOfDOFs() && a.comWeights.size() == b.comWeights.size() && a.jointsRegularizationWeights.size() == b.jointsRegularizationWeights.size()
        && a.useConstraintsHessianRegularization == b.useConstraintsHessianRegularization && a.useCostsHessianRegularization == b.useCostsHessianRegularization && sp(a.comCostActiveRange, b.comCostActiveRange) && sp(a.constrainTargetCoMPositionRange, b.constrainTargetCoMPositionRange)
        && sp(a.comVelocityCostActiveRange, b.comVelocityCostActiveRange) && sp(a.meanPointPositionCostActiveRange, b.meanPointPositionCostActiveRange) && sp(a.basePositionCostActiveRange, b.basePositionCostActiveRange);
}
static void stored(const std::string& id, Settings& s, T& expected) {
    T got = s.getSettings();
    sym::fact(id + ": names, sizes, pointers and ranges", sameRest(got, expected));
    bool f = true; for (auto& x : flags()) f = f && got.*x == expected.*x; sym::fact(id + ": flags", f);
    for (auto& n : numbers()) sym::eq(id + ": " + n.name, n.f(got), n.f(expected));
}
static void body() {
    Settings set; T before = base(); sym::fact("not valid at first", !set.isValid());
    int how = sym::choose("before", 2); // 0: nothing set before, 1: other settings are set
    if (how == 1) { before.horizon = 3; before.frictionCoefficient = 0.75; before.leftFrameName = "root_link"; before.comCostActive = false; sym::fact("a consistent structure is accepted", set.setFromStruct(before) && set.isValid()); stored("first", set, before); }
    T s = base(); bool spec = true; std::string id;
    int group = sym::choose("group", 13);
    auto v = [&](const char* n, double sample, double lo = -10, double hi = 10) { double x = sym::var(std::string("f_") + n, sample, lo, hi); setNum(s, n, x); return x; };
    auto need = [&](bool b) { spec = spec && b; };
    auto nonneg = [&](std::initializer_list<const char*> names) { double k = 0.25; for (auto n : names) { double x = v(n, k); need(!(x < 0)); k += 0.125; } };
    switch (group) {
    case 0: { id = "times"; double a = v("minimumDt", 0.125), b = v("maximumDt", 0.5), c = v("controlPeriod", 0.25); need(!(a < 0)); need(!(b < 0)); need(!(c < 0)); need(b > 2 * a); break; }
    case 1: { id = "horizon"; double a = v("horizon", 2), b = v("activeControlPercentage", 0.5); need(!(a < 0)); need(!(b < 0)); need(!(b > 1)); break; }
    case 2: { id = "contacts"; nonneg({"complementarityDissipation", "frictionCoefficient", "minimumFeetDistance", "feetMaximumRelativeHeight"}); break; }
    case 3: { id = "tolerances"; nonneg({"comPositionConstraintTolerance", "centroidalMomentumConstraintTolerance", "quaternionModulusConstraintTolerance", "pointPositionConstraintTolerance"}); break; }
    case 4: { id = "limits"; nonneg({"minimumCoMHeight", "maximumAngularMomentum"}); double a = v("jointsLimits[2].first", -1), b = v("jointsLimits[2].second", 1); need(!(a > b)); break; }
    case 5: { id = "joint limits"; for (const char* k : {"[0]", "[1]"}) { double a = v((std::string("jointsLimits") + k + ".first").c_str(), -1), b = v((std::string("jointsLimits") + k + ".second").c_str(), 1); need(!(a > b)); } break; }
    case 6: { id = "joint velocity limits"; for (const char* k : {"[0]", "[1]", "[2]"}) { double a = v((std::string("jointsVelocityLimits") + k + ".first").c_str(), -1), b = v((std::string("jointsVelocityLimits") + k + ".second").c_str(), 1); need(!(a > b)); } break; }
    case 7: { id = "ratios"; s.forceRatioCostActive = sym::choose("active", 2) == 1; for (const char* k : {"desiredLeftRatios[0]", "desiredLeftRatios[1]", "desiredRightRatios[0]", "desiredRightRatios[1]"}) { double x = v(k, 0.5); if (s.forceRatioCostActive) { need(!(x < 0)); need(!(x > 1)); } } break; }
    case 8: { id = "complementarity"; int t = sym::choose("type", 4); s.complementarity = (ComplementarityType) t; double a = v("dynamicComplementarityUpperBound", 0.25), b = v("classicalComplementarityTolerance", 0.5), c = v("complementarityDissipation", 1);
        need(!(c < 0)); if (s.complementarity == ComplementarityType::Dynamical) need(!(a < 0)); if (s.complementarity == ComplementarityType::Classical) need(!(b < 0)); break; }
    case 9: { id = "planar complementarity"; int t = sym::choose("type", 3); s.planarComplementarity = (PlanarComplementarityType) t; double a = v("planarVelocityHyperbolicTangentScaling", 0.25), b = v("classicalPlanarComplementarityTolerance", 0.5);
        if (s.planarComplementarity == PlanarComplementarityType::Classical) need(!(b < 0)); else need(!(a < 0)); break; }
    case 10: { id = "velocity limits and swing height"; s.swingCostActive = sym::choose("active", 2) == 1; nonneg({"velocityMaximumDerivative(0)", "velocityMaximumDerivative(1)", "velocityMaximumDerivative(2)"}); double h = v("desiredSwingHeight", 0.25); if (s.swingCostActive) need(!(h < 0)); break; }
    case 11: { // everything that is not checked may be anything, and is stored
        id = "free numbers"; for (auto& n : numbers()) { std::string k = n.name; if (k.find("Weight") != std::string::npos || k.find("gravity") == 0 || k.find("PointsPosition") != std::string::npos || k.find("forceMaximum") == 0 || k == "updateTolerance" || k == "rotationalPIDgain" || k.find("HessianReg") != std::string::npos || k == "normalForceDissipationRatio" || k.find("SecantScaling") != std::string::npos) v(n.name, 0.5, -100, 100); }
        for (auto& f : flags()) s.*f = true; int off = sym::choose("flag", (int) flags().size() + 1); if (off < (int) flags().size()) s.*flags()[off] = false; break; }
    default: { int r = sym::choose("requirement", (int) reqs().size()); const Req& q = reqs()[r]; id = q.name; q.breakIt(s); bool counts = q.flags.empty();
        // all the combinations of the activations that matter, the other ones all on or all off
        bool others = sym::choose("others", 2) == 1; for (auto& f : flags()) s.*f = others; for (size_t k = 0; k < q.flags.size(); ++k) { bool on = sym::choose("active" + S(k), 2) == 1; s.*q.flags[k] = on; counts = counts || on; }
        need(!counts); }
    }
    bool broken = group != 12 && sym::choose("broken", 2) == 1; if (broken) { if (group == 0) setNum(s, "horizon", -1.0); else setNum(s, "controlPeriod", -1.0); need(false); } // an earlier error is not forgotten
    bool ctor = how == 0 && sym::choose("constructor", 2) == 1;
    bool ok; if (ctor) { set = Settings(s); ok = set.isValid(); } else ok = set.setFromStruct(s);
    sym::fact(id + ": accepted exactly when consistent", ok == spec);
    if (ok) { sym::fact(id + ": valid once accepted", set.isValid()); if (group == 12 && s.desiredRightRatios.size() != 2) { sym::reach("accepted"); return; } if (group != 12) stored(id, set, s); else sym::fact(id + ": stored", sameRest(set.getSettings(), s)); sym::reach("accepted"); }
    else { sym::fact(id + ": validity is kept", set.isValid() == (how == 1)); if (how == 1) stored(id + ", refused", set, before); sym::reach("refused"); }
}
int main(int argc, char** argv) { return sym::run(argc, argv, body); }
