// C15: a settings object only ever holds a description that is complete and consistent.
#include "pbt.h"
#include "models.h"
#include <DynamicalPlanner/Settings.h>
using namespace pbt;
using namespace DynamicalPlanner;
namespace oc = iDynTree::optimalcontrol;

// ---- textual image of everything a settings struct carries (pointers by identity)
struct Img { std::ostringstream o;
    void a(const char* n, double v) { o << n << '=' << str(v) << ';'; }
    void a(const char* n, const std::string& v) { o << n << '=' << v << ';'; }
    template <class V> void vec(const char* n, const V& v) { o << n << '=' << v.size() << ':'; for (size_t i = 0; i < v.size(); ++i) o << str(v(static_cast<unsigned>(i))) << ','; o << ';'; }
    void pts(const char* n, const std::vector<iDynTree::Position>& v) { o << n << '=' << v.size() << ':'; for (auto& p : v) o << str(p(0)) << ',' << str(p(1)) << ',' << str(p(2)) << ' '; o << ';'; }
    void lim(const char* n, const std::vector<std::pair<double, double>>& v) { o << n << '=' << v.size() << ':'; for (auto& p : v) o << str(p.first) << ',' << str(p.second) << ' '; o << ';'; }
    void dv(const char* n, const std::vector<double>& v) { o << n << '=' << v.size() << ':'; for (auto& p : v) o << str(p) << ' '; o << ';'; }
    template <class T> void ptr(const char* n, const std::shared_ptr<T>& v) { o << n << '=' << static_cast<const void*>(v.get()) << ';'; }
    void rng(const char* n, const oc::TimeRange& r) { o << n << '=' << r.isValid(); if (r.isValid()) o << str(r.initTime()) << ',' << str(r.endTime()); o << ';'; }
};
static std::string image(const SettingsStruct& s) {
    Img i;
#define N(f) i.a(#f, static_cast<double>(s.f));
#define V(f) i.vec(#f, s.f);
#define P(f) i.ptr(#f, s.f);
    N(minimumDt) N(maximumDt) N(controlPeriod) N(horizon) N(activeControlPercentage) V(gravity) N(updateTolerance) i.a("fb", s.floatingBaseName);
    i.pts("left", s.leftPointsPosition); i.pts("right", s.rightPointsPosition); i.a("lf", s.leftFrameName); i.a("rf", s.rightFrameName);
    N(complementarity) V(forceMaximumDerivative) N(normalForceDissipationRatio) N(normalForceHyperbolicSecantScaling) N(complementarityDissipation) N(dynamicComplementarityUpperBound)
    N(classicalComplementarityTolerance) N(frictionCoefficient) N(planarComplementarity) V(velocityMaximumDerivative) N(planarVelocityHyperbolicTangentScaling) N(normalVelocityHyperbolicSecantScaling)
    N(classicalPlanarComplementarityTolerance) N(indexOfLateralDirection) N(minimumFeetDistance) i.a("rfd", s.referenceFrameNameForFeetDistance); i.a("ofd", s.otherFrameNameForFeetDistance);
    N(feetMaximumRelativeHeight) N(comPositionConstraintTolerance) N(centroidalMomentumConstraintTolerance) N(quaternionModulusConstraintTolerance) N(pointPositionConstraintTolerance) N(minimumCoMHeight)
    i.lim("jl", s.jointsLimits); i.lim("jvl", s.jointsVelocityLimits); N(constrainTargetCoMPosition) P(targetCoMPositionTolerance) i.rng("ctr", s.constrainTargetCoMPositionRange); N(maximumAngularMomentum)
    N(comCostActive) N(comCostOverallWeight) i.rng("ccr", s.comCostActiveRange); V(comWeights) P(desiredCoMTrajectory)
    N(comVelocityCostActive) N(comVelocityCostOverallWeight) V(comVelocityWeights) i.rng("cvr", s.comVelocityCostActiveRange); P(desiredCoMVelocityTrajectory)
    N(frameCostActive) N(frameCostOverallWeight) i.a("ffo", s.frameForOrientationCost); P(desiredRotationTrajectory) P(frameCostTimeVaryingWeight)
    N(forceMeanCostActive) N(forceMeanCostOverallWeight) N(forceRatioCostActive) N(forceRatioCostOverallWeight) i.dv("lr", s.desiredLeftRatios); i.dv("rr", s.desiredRightRatios);
    N(jointsRegularizationCostActive) N(jointsRegularizationCostOverallWeight) P(desiredJointsTrajectory) V(jointsRegularizationWeights)
    N(jointsVelocityCostActive) N(jointsVelocityCostOverallWeight) P(desiredJointsVelocityTrajectory) V(jointsVelocityCostWeights)
    N(staticTorquesCostActive) N(staticTorquesCostOverallWeight) V(staticTorquesCostWeights)
    N(forceDerivativeCostActive) N(forceDerivativesCostOverallWeight) P(desiredForceDerivativeTrajectory) V(forceDerivativeWeights)
    N(pointAccelerationCostActive) N(pointAccelerationCostOverallWeight) P(desiredPointAccelerationTrajectory) V(pointAccelerationWeights)
    N(swingCostActive) N(swingCostOverallWeight) N(desiredSwingHeight) V(swingCostWeights) N(phantomForcesCostActive) N(phantomForcesCostOverallWeight)
    N(meanPointPositionCostActive) N(meanPointPositionCostOverallWeight) P(meanPointPositionCostTimeVaryingWeight) i.rng("mpr", s.meanPointPositionCostActiveRange); P(desiredMeanPointPosition)
    N(leftFootYawCostActive) N(leftFootYawCostOverallWeight) P(desiredLeftFootYaw) N(rightFootYawCostActive) N(rightFootYawCostOverallWeight) P(desiredRightFootYaw)
    N(feetDistanceCostActive) N(feetDistanceCostOverallWeight) N(jointsVelocityForPosturalCostActive) N(jointsVelocityForPosturalCostOverallWeight) N(complementarityCostActive) N(complementarityCostOverallWeight)
    N(basePositionCostActive) N(basePositionCostOverallWeight) i.rng("bpr", s.basePositionCostActiveRange); V(basePositionCostWeights) P(desiredBasePositionTrajectory)
    N(baseQuaternionCostActive) N(baseQuaternionCostOverallWeight) P(desiredBaseQuaternionTrajectory) N(frameAngularVelocityCostActive) N(frameAngularVelocityCostOverallWeight) N(rotationalPIDgain)
    N(baseLinearVelocityCostActive) N(baseLinearVelocityCostOverallWeight) V(baseLinearVelocityCostWeights) P(desiredBaseLinearVelocityTrajectory)
    N(baseQuaternionVelocityCostActive) N(baseQuaternionVelocityCostOverallWeight) P(desiredBaseQuaternionVelocityTrajectory) N(angularMomentumCostActive) N(angularMomentumCostOverallWeight)
    N(useConstraintsHessianRegularization) N(constraintsHessianRegularization) N(useCostsHessianRegularization) N(costsHessianRegularization)
    i.a("dofs", static_cast<double>(s.robotModel.getNrOfDOFs())); i.a("links", static_cast<double>(s.robotModel.getNrOfLinks()));
    for (unsigned j = 0; j < s.robotModel.getNrOfJoints(); ++j) i.a("j", s.robotModel.getJointName(j));
#undef N
#undef V
#undef P
    return i.o.str();
}

static iDynTree::Model model(Gen& g) { unsigned n = static_cast<unsigned>(g.integer(1, 6)); g.desc << n << " joints; "; return models::genTree(g, n); }
static double nonNeg(Gen& g) { return g.chance(25) ? 0.0 : g.logReal(1e-6, 1e3); }
static double negative(Gen& g) { return -g.logReal(1e-9, 1e3); }
static std::shared_ptr<oc::TimeInvariantVector> tv(size_t n) { iDynTree::VectorDynSize v(n); v.zero(); return std::make_shared<oc::TimeInvariantVector>(v); }

// a description whose every quantity lies in its documented range
static SettingsStruct genValid(Gen& g, const iDynTree::Model& m) {
    SettingsStruct s = Settings::Defaults(m);
    if (g.chance(80)) { s.minimumDt = nonNeg(g); s.maximumDt = 2 * s.minimumDt + g.logReal(1e-6, 10); s.controlPeriod = nonNeg(g); s.horizon = nonNeg(g); }
    s.activeControlPercentage = g.oneOf<double>({1.0, 0.0, g.real(0, 1)});
    if (g.boolean()) { s.complementarityDissipation = nonNeg(g); s.frictionCoefficient = nonNeg(g); s.minimumFeetDistance = nonNeg(g); s.comPositionConstraintTolerance = nonNeg(g); s.centroidalMomentumConstraintTolerance = nonNeg(g); }
    if (g.boolean()) { s.quaternionModulusConstraintTolerance = nonNeg(g); s.pointPositionConstraintTolerance = nonNeg(g); s.minimumCoMHeight = nonNeg(g); s.maximumAngularMomentum = nonNeg(g); s.feetMaximumRelativeHeight = nonNeg(g); }
    s.indexOfLateralDirection = static_cast<unsigned>(g.below(3));
    s.complementarity = g.oneOf<ComplementarityType>({ComplementarityType::HyperbolicSecantInequality, ComplementarityType::Dynamical, ComplementarityType::Classical, ComplementarityType::HyperbolicSecantInDynamics});
    s.planarComplementarity = g.oneOf<PlanarComplementarityType>({PlanarComplementarityType::HyperbolicTangentInDynamics, PlanarComplementarityType::HyperbolicTangentInequality, PlanarComplementarityType::Classical});
    for (unsigned k = 0; k < 3; ++k) if (g.boolean()) { s.forceMaximumDerivative(k) = nonNeg(g); s.velocityMaximumDerivative(k) = nonNeg(g); }
    for (auto& l : s.jointsLimits) if (g.boolean()) { double a = g.real(-4, 4); l = {a, a + (g.chance(20) ? 0.0 : g.real(0, 4))}; }
    for (auto& l : s.jointsVelocityLimits) if (g.boolean()) { double a = g.real(-4, 4); l = {a, a + (g.chance(20) ? 0.0 : g.real(0, 4))}; }
    if (g.boolean()) { size_t p = static_cast<size_t>(g.integer(1, 6)); s.leftPointsPosition.resize(p); s.rightPointsPosition.resize(p); for (auto* v : {&s.leftPointsPosition, &s.rightPointsPosition}) for (auto& q : *v) q = models::genPosition(g, 0.2);
        s.desiredLeftRatios.resize(p); s.desiredRightRatios.resize(p); for (auto* v : {&s.desiredLeftRatios, &s.desiredRightRatios}) for (auto& r : *v) r = g.oneOf<double>({0.0, 1.0, g.real(0, 1)}); }
    s.desiredSwingHeight = nonNeg(g);
    for (bool* b : {&s.comCostActive, &s.comVelocityCostActive, &s.frameCostActive, &s.forceMeanCostActive, &s.forceRatioCostActive, &s.jointsRegularizationCostActive, &s.jointsVelocityCostActive, &s.staticTorquesCostActive,
         &s.forceDerivativeCostActive, &s.pointAccelerationCostActive, &s.swingCostActive, &s.phantomForcesCostActive, &s.meanPointPositionCostActive, &s.leftFootYawCostActive, &s.rightFootYawCostActive, &s.feetDistanceCostActive,
         &s.jointsVelocityForPosturalCostActive, &s.complementarityCostActive, &s.basePositionCostActive, &s.baseQuaternionCostActive, &s.frameAngularVelocityCostActive, &s.baseLinearVelocityCostActive,
         &s.baseQuaternionVelocityCostActive, &s.angularMomentumCostActive, &s.constrainTargetCoMPosition}) *b = g.chance(60);
    return s;
}

// one deviation: how to spoil the description, and whether the spoiled description is unusable given what is enabled
struct Spoil { const char* name; std::function<void(Gen&, SettingsStruct&)> apply; std::function<bool(const SettingsStruct&)> matters; };
static bool always(const SettingsStruct&) { return true; }
#define ACT(f) [](const SettingsStruct& s) { return s.f; }
static const std::vector<Spoil>& spoils() {
    static const std::vector<Spoil> v = {
        {"negative minimumDt", [](Gen& g, SettingsStruct& s) { s.minimumDt = negative(g); }, always},
        {"negative maximumDt", [](Gen& g, SettingsStruct& s) { s.maximumDt = negative(g); }, always},
        {"step bounds too close", [](Gen& g, SettingsStruct& s) { s.minimumDt = g.logReal(1e-3, 1); s.maximumDt = s.minimumDt * g.real(1.0, 2.0); }, always},
        {"step bounds exactly at the limit", [](Gen& g, SettingsStruct& s) { s.minimumDt = g.logReal(1e-3, 1); s.maximumDt = 2 * s.minimumDt; }, always},
        {"negative controlPeriod", [](Gen& g, SettingsStruct& s) { s.controlPeriod = negative(g); }, always},
        {"negative horizon", [](Gen& g, SettingsStruct& s) { s.horizon = negative(g); }, always},
        {"percentage above one", [](Gen& g, SettingsStruct& s) { s.activeControlPercentage = 1 + g.logReal(1e-6, 10); }, always},
        {"negative percentage", [](Gen& g, SettingsStruct& s) { s.activeControlPercentage = negative(g); }, always},
        {"unknown floating base", [](Gen& g, SettingsStruct& s) { s.floatingBaseName = g.boolean() ? "l_sole" : "nothing"; }, always},
        {"different number of points", [](Gen& g, SettingsStruct& s) { if (g.boolean()) { s.leftPointsPosition.push_back(iDynTree::Position(0, 0, 0)); s.desiredLeftRatios.push_back(0.1); } else { s.rightPointsPosition.push_back(iDynTree::Position(0, 0, 0)); s.desiredRightRatios.push_back(0.1); } }, always},
        {"unknown left frame", [](Gen&, SettingsStruct& s) { s.leftFrameName = "nothing"; }, always},
        {"unknown right frame", [](Gen&, SettingsStruct& s) { s.rightFrameName = ""; }, always},
        {"negative dissipation", [](Gen& g, SettingsStruct& s) { s.complementarityDissipation = negative(g); }, always},
        {"negative friction", [](Gen& g, SettingsStruct& s) { s.frictionCoefficient = negative(g); }, always},
        {"lateral direction out of range", [](Gen& g, SettingsStruct& s) { s.indexOfLateralDirection = static_cast<unsigned>(g.integer(3, 9)); }, always},
        {"negative feet distance", [](Gen& g, SettingsStruct& s) { s.minimumFeetDistance = negative(g); }, always},
        {"unknown reference frame for feet distance", [](Gen&, SettingsStruct& s) { s.referenceFrameNameForFeetDistance = "nothing"; }, always},
        {"unknown other frame for feet distance", [](Gen&, SettingsStruct& s) { s.otherFrameNameForFeetDistance = "nothing"; }, always},
        {"negative CoM tolerance", [](Gen& g, SettingsStruct& s) { s.comPositionConstraintTolerance = negative(g); }, always},
        {"negative momentum tolerance", [](Gen& g, SettingsStruct& s) { s.centroidalMomentumConstraintTolerance = negative(g); }, always},
        {"negative quaternion tolerance", [](Gen& g, SettingsStruct& s) { s.quaternionModulusConstraintTolerance = negative(g); }, always},
        {"negative point tolerance", [](Gen& g, SettingsStruct& s) { s.pointPositionConstraintTolerance = negative(g); }, always},
        {"negative CoM height", [](Gen& g, SettingsStruct& s) { s.minimumCoMHeight = negative(g); }, always},
        {"joint limits of wrong size", [](Gen& g, SettingsStruct& s) { if (g.boolean()) s.jointsLimits.pop_back(); else s.jointsLimits.emplace_back(0, 1); }, always},
        {"joint velocity limits of wrong size", [](Gen& g, SettingsStruct& s) { if (g.boolean()) { s.jointsVelocityLimits.pop_back(); s.jointsVelocityLimits.shrink_to_fit(); } else s.jointsVelocityLimits.emplace_back(0, 1); }, always},
        {"inverted joint limit", [](Gen& g, SettingsStruct& s) { auto& l = s.jointsLimits[g.below(s.jointsLimits.size())]; l = {1.0, 1.0 - g.logReal(1e-9, 10)}; }, always},
        {"inverted joint velocity limit", [](Gen& g, SettingsStruct& s) { auto& l = s.jointsVelocityLimits[g.below(s.jointsVelocityLimits.size())]; l = {1.0, 1.0 - g.logReal(1e-9, 10)}; }, always},
        {"negative angular momentum bound", [](Gen& g, SettingsStruct& s) { s.maximumAngularMomentum = negative(g); }, always},
        {"negative relative height", [](Gen& g, SettingsStruct& s) { s.feetMaximumRelativeHeight = negative(g); }, always},
        {"negative velocity bound", [](Gen& g, SettingsStruct& s) { s.velocityMaximumDerivative(static_cast<unsigned>(g.below(3))) = negative(g); }, always},
        {"negative force derivative bound", [](Gen& g, SettingsStruct& s) { s.forceMaximumDerivative(static_cast<unsigned>(g.below(3))) = negative(g); }, always},
        {"no target CoM tolerance", [](Gen&, SettingsStruct& s) { s.targetCoMPositionTolerance = nullptr; }, ACT(constrainTargetCoMPosition)},
        {"no desired CoM", [](Gen&, SettingsStruct& s) { s.desiredCoMTrajectory = nullptr; }, [](const SettingsStruct& s) { return s.comCostActive || s.constrainTargetCoMPosition; }},
        {"CoM weights size", [](Gen& g, SettingsStruct& s) { s.comWeights.resize(g.boolean() ? 2 : 4); }, ACT(comCostActive)},
        {"CoM velocity weights size", [](Gen& g, SettingsStruct& s) { s.comVelocityWeights.resize(g.boolean() ? 2 : 4); }, ACT(comVelocityCostActive)},
        {"no desired CoM velocity", [](Gen&, SettingsStruct& s) { s.desiredCoMVelocityTrajectory = nullptr; }, ACT(comVelocityCostActive)},
        {"unknown frame for orientation", [](Gen&, SettingsStruct& s) { s.frameForOrientationCost = "nothing"; }, [](const SettingsStruct& s) { return s.frameCostActive || s.frameAngularVelocityCostActive; }},
        {"no desired rotation", [](Gen&, SettingsStruct& s) { s.desiredRotationTrajectory = nullptr; }, [](const SettingsStruct& s) { return s.frameCostActive || s.frameAngularVelocityCostActive; }},
        {"no frame weight", [](Gen&, SettingsStruct& s) { s.frameCostTimeVaryingWeight = nullptr; }, ACT(frameCostActive)},
        {"no desired joints", [](Gen&, SettingsStruct& s) { s.desiredJointsTrajectory = nullptr; }, [](const SettingsStruct& s) { return s.jointsRegularizationCostActive || s.jointsVelocityForPosturalCostActive; }},
        {"joint weights size", [](Gen& g, SettingsStruct& s) { s.jointsRegularizationWeights.resize(s.jointsLimits.size() + (g.boolean() ? 1 : -1)); }, [](const SettingsStruct& s) { return s.jointsRegularizationCostActive || s.jointsVelocityForPosturalCostActive; }},
        {"no desired joint velocity", [](Gen&, SettingsStruct& s) { s.desiredJointsVelocityTrajectory = nullptr; }, ACT(jointsVelocityCostActive)},
        {"joint velocity weights size", [](Gen& g, SettingsStruct& s) { s.jointsVelocityCostWeights.resize(s.jointsLimits.size() + (g.boolean() ? 1 : -1)); }, [](const SettingsStruct& s) { return s.jointsVelocityCostActive || s.jointsVelocityForPosturalCostActive; }},
        {"static torque weights size", [](Gen& g, SettingsStruct& s) { s.staticTorquesCostWeights.resize(s.jointsLimits.size() + (g.boolean() ? 1 : -1)); }, ACT(staticTorquesCostActive)},
        {"no desired force derivative", [](Gen&, SettingsStruct& s) { s.desiredForceDerivativeTrajectory = nullptr; }, ACT(forceDerivativeCostActive)},
        {"force derivative weights size", [](Gen& g, SettingsStruct& s) { s.forceDerivativeWeights.resize(g.boolean() ? 2 : 4); }, ACT(forceDerivativeCostActive)},
        {"no desired point acceleration", [](Gen&, SettingsStruct& s) { s.desiredPointAccelerationTrajectory = nullptr; }, ACT(pointAccelerationCostActive)},
        {"point acceleration weights size", [](Gen& g, SettingsStruct& s) { s.pointAccelerationWeights.resize(g.boolean() ? 2 : 4); }, ACT(pointAccelerationCostActive)},
        {"negative swing height", [](Gen& g, SettingsStruct& s) { s.desiredSwingHeight = negative(g); }, ACT(swingCostActive)},
        {"no desired mean position", [](Gen&, SettingsStruct& s) { s.desiredMeanPointPosition = nullptr; }, ACT(meanPointPositionCostActive)},
        {"no mean position weight", [](Gen&, SettingsStruct& s) { s.meanPointPositionCostTimeVaryingWeight = nullptr; }, ACT(meanPointPositionCostActive)},
        {"no desired left yaw", [](Gen&, SettingsStruct& s) { s.desiredLeftFootYaw = nullptr; }, ACT(leftFootYawCostActive)},
        {"no desired right yaw", [](Gen&, SettingsStruct& s) { s.desiredRightFootYaw = nullptr; }, ACT(rightFootYawCostActive)},
        {"base position weights size", [](Gen& g, SettingsStruct& s) { s.basePositionCostWeights.resize(g.boolean() ? 2 : 4); }, ACT(basePositionCostActive)},
        {"no desired base position", [](Gen&, SettingsStruct& s) { s.desiredBasePositionTrajectory = nullptr; }, ACT(basePositionCostActive)},
        {"no desired base quaternion", [](Gen&, SettingsStruct& s) { s.desiredBaseQuaternionTrajectory = nullptr; }, ACT(baseQuaternionCostActive)},
        {"no desired base velocity", [](Gen&, SettingsStruct& s) { s.desiredBaseLinearVelocityTrajectory = nullptr; }, ACT(baseLinearVelocityCostActive)},
        {"base velocity weights size", [](Gen& g, SettingsStruct& s) { s.baseLinearVelocityCostWeights.resize(g.boolean() ? 2 : 4); }, ACT(baseLinearVelocityCostActive)},
        {"no desired base quaternion velocity", [](Gen&, SettingsStruct& s) { s.desiredBaseQuaternionVelocityTrajectory = nullptr; }, ACT(baseQuaternionVelocityCostActive)},
        {"left ratio out of range", [](Gen& g, SettingsStruct& s) { s.desiredLeftRatios[g.below(s.desiredLeftRatios.size())] = g.boolean() ? 1 + g.logReal(1e-6, 10) : negative(g); }, ACT(forceRatioCostActive)},
        {"right ratio out of range", [](Gen& g, SettingsStruct& s) { s.desiredRightRatios[g.below(s.desiredRightRatios.size())] = g.boolean() ? 1 + g.logReal(1e-6, 10) : negative(g); }, ACT(forceRatioCostActive)},
        {"left ratios size", [](Gen&, SettingsStruct& s) { s.desiredLeftRatios.push_back(0.2); }, ACT(forceRatioCostActive)},
        {"right ratios size", [](Gen&, SettingsStruct& s) { s.desiredRightRatios.pop_back(); s.desiredRightRatios.shrink_to_fit(); }, ACT(forceRatioCostActive)},
        {"negative dynamic complementarity bound", [](Gen& g, SettingsStruct& s) { s.dynamicComplementarityUpperBound = negative(g); }, [](const SettingsStruct& s) { return s.complementarity == ComplementarityType::Dynamical; }},
        {"negative classical tolerance", [](Gen& g, SettingsStruct& s) { s.classicalComplementarityTolerance = negative(g); }, [](const SettingsStruct& s) { return s.complementarity == ComplementarityType::Classical; }},
        {"negative classical planar tolerance", [](Gen& g, SettingsStruct& s) { s.classicalPlanarComplementarityTolerance = negative(g); }, [](const SettingsStruct& s) { return s.planarComplementarity == PlanarComplementarityType::Classical; }},
        {"negative tangent scaling", [](Gen& g, SettingsStruct& s) { s.planarVelocityHyperbolicTangentScaling = negative(g); }, [](const SettingsStruct& s) { return s.planarComplementarity != PlanarComplementarityType::Classical; }},
    };
    return v;
}

static void verdict(Gen& g, Settings& set, const SettingsStruct& s, bool good, const std::string& what, bool& valid, std::string& held) {
    bool r = set.setFromStruct(s);
    if (good && !r) fail("refuses-usable", "a usable description was refused (" + what + ")");
    if (!good && r) fail("accepts-unusable:" + what, "an unusable description was accepted: " + what);
    if (r) { valid = true; held = image(s); }
    if (set.isValid() != valid) fail("validity-flag", std::string("the settings report ") + (set.isValid() ? "valid" : "invalid") + " after " + what);
    if (valid && image(set.getSettings()) != held) fail("held-settings", "the held settings are not the last accepted ones after " + what);
}

static void decisions(Gen& g) {
    iDynTree::Model m = model(g);
    Settings set; bool valid = false; std::string held;
    if (set.isValid()) fail("initially-valid", "empty settings report valid");
    int ops = static_cast<int>(g.integer(1, 4));
    for (int k = 0; k < ops; ++k) {
        SettingsStruct s = genValid(g, m);
        if (g.chance(25)) { verdict(g, set, s, true, "usable", valid, held); g.classify("usable"); g.nontrivial(); continue; }
        const Spoil& p = g.pick(spoils());
        p.apply(g, s); bool bad = p.matters(s);
        g.desc << p.name << (bad ? " (matters); " : " (feature off); ");
        verdict(g, set, s, !bad, std::string(p.name) + (bad ? "" : " with the feature off"), valid, held);
        g.classify(bad ? "unusable" : "irrelevant deviation"); g.nontrivial();
    }
}
static void construct(Gen& g) {
    iDynTree::Model m = model(g);
    SettingsStruct s = genValid(g, m);
    if (g.boolean()) { Settings a(s); if (!a.isValid()) fail("ctor-refuses", "constructing from a usable description gives invalid settings"); if (image(a.getSettings()) != image(s)) fail("held-settings", "constructed settings differ from the description"); }
    const Spoil& p = g.pick(spoils()); p.apply(g, s); bool bad = p.matters(s);
    g.desc << p.name << (bad ? " (matters)" : " (feature off)");
    Settings b(s);
    if (b.isValid() == bad) fail("ctor:" + std::string(p.name), std::string("constructing from ") + p.name + " gives " + (b.isValid() ? "valid" : "invalid") + " settings");
    g.nontrivial();
}
// dirties the memory the defaults are going to be built in
static void dirty() { std::vector<double*> v; for (int i = 0; i < 300; ++i) { size_t n = static_cast<size_t>(1 + i % 8); double* p = new double[n]; for (size_t k = 0; k < n; ++k) p[k] = 1234.5; v.push_back(p); } for (auto p : v) delete[] p; }

static void defaults(Gen& g) {
    iDynTree::Model m = model(g);
    dirty();
    SettingsStruct s = Settings::Defaults(m);
    Settings set;
    if (!set.setFromStruct(s)) fail("defaults-refused", "the default description is refused");
    size_t n = m.getNrOfDOFs();
    if (s.jointsLimits.size() != n || s.jointsVelocityLimits.size() != n) fail("defaults-limits-size", "the default limits do not cover every joint");
    for (size_t j = 0; j < n; ++j) {
        double lo, hi; bool has = m.getJoint(static_cast<long>(j))->getPosLimits(0, lo, hi) ;
        if (!has) { lo = -1e19; hi = 1e19; }
        if (s.jointsLimits[j].first != lo || s.jointsLimits[j].second != hi) fail("defaults-joint-limits", "default limits of joint " + std::to_string(j) + " are [" + str(s.jointsLimits[j].first) + "," + str(s.jointsLimits[j].second) + "] instead of the model's [" + str(lo) + "," + str(hi) + "]");
    }
    double t = g.real(-1, 10); bool ok;
    auto size = [&](const char* what, const std::shared_ptr<oc::TimeVaryingVector>& v, size_t e) { if (!v) fail("defaults-reference", std::string("no default ") + what); auto x = v->get(t, ok); if (!ok || x.size() != e) fail("defaults-reference", std::string("default ") + what + " has size " + std::to_string(x.size())); for (size_t i = 0; i < e; ++i) if (!(std::fabs(x(static_cast<unsigned>(i))) <= 10)) fail("defaults-reference-value", std::string("default ") + what + " contains " + str(x(static_cast<unsigned>(i)))); };
    auto zero = [&](const char* what, const std::shared_ptr<oc::TimeVaryingVector>& v) { auto x = v->get(t, ok); for (size_t i = 0; i < x.size(); ++i) if (x(static_cast<unsigned>(i)) != 0) fail("defaults-nonzero-rate", std::string("default ") + what + " is not zero: " + str(x(static_cast<unsigned>(i)))); };
    size("CoM", s.desiredCoMTrajectory, 3); size("CoM velocity", s.desiredCoMVelocityTrajectory, 3); size("joints", s.desiredJointsTrajectory, n); size("joint velocity", s.desiredJointsVelocityTrajectory, n);
    size("force derivative", s.desiredForceDerivativeTrajectory, 3); size("point acceleration", s.desiredPointAccelerationTrajectory, 3); size("base position", s.desiredBasePositionTrajectory, 3);
    size("base quaternion", s.desiredBaseQuaternionTrajectory, 4); size("base velocity", s.desiredBaseLinearVelocityTrajectory, 3); size("base quaternion velocity", s.desiredBaseQuaternionVelocityTrajectory, 4);
    zero("CoM velocity", s.desiredCoMVelocityTrajectory); zero("joint velocity", s.desiredJointsVelocityTrajectory); zero("force derivative", s.desiredForceDerivativeTrajectory);
    zero("point acceleration", s.desiredPointAccelerationTrajectory); zero("base velocity", s.desiredBaseLinearVelocityTrajectory); zero("base quaternion velocity", s.desiredBaseQuaternionVelocityTrajectory);
    auto q = s.desiredBaseQuaternionTrajectory->get(t, ok); double nn = 0; for (unsigned i = 0; i < 4; ++i) nn += q(i) * q(i);
    if (std::fabs(nn - 1) > 1e-9) fail("defaults-quaternion", "the default base quaternion has norm " + str(std::sqrt(nn)));
    Eigen::Matrix3d R = iDynTree::toEigen(s.desiredRotationTrajectory->get(t, ok));
    if ((R * R.transpose() - Eigen::Matrix3d::Identity()).norm() > 1e-9 || std::fabs(R.determinant() - 1) > 1e-9) fail("defaults-rotation", "the default desired rotation is not a rotation");
    auto ratios = [&](const std::vector<double>& v, size_t e) { double sum = 0; for (double x : v) sum += x; if (v.size() != e || std::fabs(sum - 1) > 1e-9) fail("defaults-ratios", "default force ratios do not share the load"); };
    ratios(s.desiredLeftRatios, s.leftPointsPosition.size()); ratios(s.desiredRightRatios, s.rightPointsPosition.size());
    // the two default feet are mirror images
    for (size_t i = 0; i < s.leftPointsPosition.size(); ++i) { auto& a = s.leftPointsPosition[i]; auto& b = s.rightPointsPosition[i]; if (a(0) != b(0) || a(1) != -b(1) || a(2) != b(2)) fail("defaults-feet", "default feet are not mirrored at point " + std::to_string(i)); }
    g.nontrivial(); g.classify(std::to_string(n) + " joints");
}

int main(int argc, char** argv) {
    Suite s; s.property = "C15";
    s.rule = "a case is non-trivial when a complete generated description is offered to the settings object and its verdict compared with the reference; distinct by generated choices";
    s.assumptions = {"numbers are finite", "the referenced time-varying objects return vectors of the size announced by the model"};
    s.aspects = {{"decisions", 24000, 400000, decisions}, {"construct", 8000, 120000, construct}, {"defaults", 4000, 60000, defaults}};
    s.quickBudget = 150; s.thoroughBudget = 600;
    Runner r(s); return r.main(argc, argv);
}
