// C22: a saved log is the run it was saved from.
#include "pbt.h"
#include "models.h"
#include <matioCpp/matioCpp.h>
#include <DynamicalPlanner/Logger.h>
using namespace pbt;
using namespace DynamicalPlanner;
using Rec = std::shared_ptr<matioCpp::Record>;

static Rec find(const std::vector<Rec>& v, const std::string& n) { for (auto& r : v) if (r->name == n) return r; return nullptr; }
static std::string dimsOf(const Rec& r) { std::string s; for (auto d : r->dims) s += (s.empty() ? "" : "x") + std::to_string(d); return s; }
static void same(const std::string& where, double a, double b) { if (!(a == b || std::fabs(a - b) <= 1e-12 * (1 + std::fabs(b)))) fail("wrong-value", where + " holds " + str(a) + " instead of " + str(b)); }
// a trajectory of columns
static void columns(const std::vector<Rec>& file, const std::string& name, size_t rows, const std::vector<Eigen::VectorXd>& want) {
    auto r = find(file, name); if (!r) fail("missing-variable", name + " is not in the file");
    if (r->kind != "array" || r->type != "double" || r->dims != std::vector<size_t>{rows, want.size()}) fail("wrong-shape", name + " is a " + r->type + " " + r->kind + " of " + dimsOf(r) + " instead of " + std::to_string(rows) + "x" + std::to_string(want.size()));
    for (size_t i = 0; i < want.size(); ++i) for (size_t k = 0; k < rows; ++k) same(name + "(" + std::to_string(k) + "," + std::to_string(i) + ")", r->data[i * rows + k], want[i](static_cast<long>(k)));
}
static Rec field(const Rec& s, const std::string& n) { auto r = find(s->children, n); if (!r) fail("missing-setting", "the setting " + n + " is not in the file"); return r; }
static void number(const Rec& s, const char* n, double v, const char* type = "double") { auto r = field(s, n); if (r->data.size() != 1 || !r->children.empty()) fail("wrong-setting", std::string("the setting ") + n + " is not a scalar"); if (std::string(type) == "logical" && r->type != "logical") fail("wrong-setting", std::string("the setting ") + n + " is not a truth value"); same(std::string("the setting ") + n, r->data[0], v); }
static void text(const Rec& s, const char* n, const std::string& v) { auto r = field(s, n); if (r->kind != "string" || r->text != v) fail("wrong-setting", std::string("the setting ") + n + " is '" + r->text.substr(0, 80) + "' instead of '" + v.substr(0, 80) + "'"); }
template <class V> static void list(const Rec& s, const char* n, const V& v) { auto r = field(s, n); if (r->data.size() != static_cast<size_t>(v.size())) fail("wrong-setting", std::string("the setting ") + n + " has " + std::to_string(r->data.size()) + " elements"); for (size_t k = 0; k < r->data.size(); ++k) same(std::string("the setting ") + n, r->data[k], v.data()[k]); }
static void points(const Rec& s, const char* n, const std::vector<iDynTree::Position>& v) {
    auto r = field(s, n); if (r->kind != "cell" || r->children.size() != v.size()) fail("wrong-setting", std::string("the setting ") + n + " has " + std::to_string(r->children.size()) + " points instead of " + std::to_string(v.size()));
    for (size_t k = 0; k < v.size(); ++k) { if (r->children[k]->data.size() != 3) fail("wrong-setting", std::string(n) + " holds something that is no point"); for (unsigned i = 0; i < 3; ++i) same(n, r->children[k]->data[i], v[k](i)); }
}
static void limits(const Rec& s, const char* n, const std::vector<std::pair<double, double>>& v) {
    auto r = field(s, n); if (r->kind != "cell" || r->children.size() != v.size()) fail("wrong-setting", std::string("the setting ") + n + " has " + std::to_string(r->children.size()) + " limits instead of " + std::to_string(v.size()));
    for (size_t k = 0; k < v.size(); ++k) { number(r->children[k], "min", v[k].first); number(r->children[k], "max", v[k].second); }
}

#define NUMBERS(F) F(minimumDt) F(maximumDt) F(controlPeriod) F(horizon) F(activeControlPercentage) F(updateTolerance) F(normalForceDissipationRatio) F(normalForceHyperbolicSecantScaling) F(complementarityDissipation) F(dynamicComplementarityUpperBound) \
    F(classicalComplementarityTolerance) F(frictionCoefficient) F(planarVelocityHyperbolicTangentScaling) F(normalVelocityHyperbolicSecantScaling) F(classicalPlanarComplementarityTolerance) F(minimumFeetDistance) F(feetMaximumRelativeHeight) \
    F(comPositionConstraintTolerance) F(centroidalMomentumConstraintTolerance) F(quaternionModulusConstraintTolerance) F(pointPositionConstraintTolerance) F(minimumCoMHeight) F(maximumAngularMomentum) F(comCostOverallWeight) F(comVelocityCostOverallWeight) \
    F(frameCostOverallWeight) F(forceMeanCostOverallWeight) F(forceRatioCostOverallWeight) F(jointsRegularizationCostOverallWeight) F(jointsVelocityCostOverallWeight) F(staticTorquesCostOverallWeight) F(forceDerivativesCostOverallWeight) \
    F(pointAccelerationCostOverallWeight) F(swingCostOverallWeight) F(desiredSwingHeight) F(phantomForcesCostOverallWeight) F(meanPointPositionCostOverallWeight) F(leftFootYawCostOverallWeight) F(rightFootYawCostOverallWeight) F(feetDistanceCostOverallWeight) \
    F(jointsVelocityForPosturalCostOverallWeight) F(complementarityCostOverallWeight) F(basePositionCostOverallWeight) F(baseQuaternionCostOverallWeight) F(frameAngularVelocityCostOverallWeight) F(rotationalPIDgain) F(baseLinearVelocityCostOverallWeight) \
    F(baseQuaternionVelocityCostOverallWeight) F(angularMomentumCostOverallWeight) F(constraintsHessianRegularization) F(costsHessianRegularization)
#define FLAGS(F) F(constrainTargetCoMPosition) F(comCostActive) F(comVelocityCostActive) F(frameCostActive) F(forceMeanCostActive) F(forceRatioCostActive) F(jointsRegularizationCostActive) F(jointsVelocityCostActive) F(staticTorquesCostActive) F(forceDerivativeCostActive) \
    F(pointAccelerationCostActive) F(swingCostActive) F(phantomForcesCostActive) F(meanPointPositionCostActive) F(leftFootYawCostActive) F(rightFootYawCostActive) F(feetDistanceCostActive) F(jointsVelocityForPosturalCostActive) F(complementarityCostActive) \
    F(basePositionCostActive) F(baseQuaternionCostActive) F(frameAngularVelocityCostActive) F(baseLinearVelocityCostActive) F(baseQuaternionVelocityCostActive) F(angularMomentumCostActive) F(useConstraintsHessianRegularization) F(useCostsHessianRegularization)
#define NAMES(F) F(floatingBaseName) F(leftFrameName) F(rightFrameName) F(referenceFrameNameForFeetDistance) F(otherFrameNameForFeetDistance) F(frameForOrientationCost)
#define LISTS(F) F(gravity) F(forceMaximumDerivative) F(velocityMaximumDerivative) F(comWeights) F(comVelocityWeights) F(desiredLeftRatios) F(desiredRightRatios) F(jointsRegularizationWeights) F(jointsVelocityCostWeights) F(staticTorquesCostWeights) \
    F(forceDerivativeWeights) F(pointAccelerationWeights) F(swingCostWeights) F(basePositionCostWeights) F(baseLinearVelocityCostWeights)

static double val(Gen& g) { return g.signedLog(1e-6, 1e6); }
static SettingsStruct genSettings(Gen& g) {
    static std::vector<iDynTree::Model> ms; if (ms.empty()) for (uint64_t k = 1; k <= 4; ++k) { Gen q(k * 77); ms.push_back(models::genTree(q, static_cast<unsigned>(k))); }
    SettingsStruct s = Settings::Defaults(ms[g.below(ms.size())]);
#define F(f) s.f = val(g);
    NUMBERS(F)
#undef F
#define F(f) s.f = g.boolean();
    FLAGS(F)
#undef F
#define F(f) s.f = "name" + std::to_string(g.below(1000));
    NAMES(F)
#undef F
    s.comWeights.resize(static_cast<unsigned>(g.integer(1, 4))); s.jointsRegularizationWeights.resize(static_cast<unsigned>(g.integer(1, 6))); s.desiredLeftRatios.resize(static_cast<size_t>(g.integer(1, 5))); s.desiredRightRatios.resize(static_cast<size_t>(g.integer(1, 5)));
#define F(f) for (size_t k = 0; k < static_cast<size_t>(s.f.size()); ++k) s.f.data()[k] = val(g);
    LISTS(F)
#undef F
    s.indexOfLateralDirection = static_cast<unsigned>(g.below(3));
    s.complementarity = g.oneOf<ComplementarityType>({ComplementarityType::HyperbolicSecantInequality, ComplementarityType::Dynamical, ComplementarityType::Classical, ComplementarityType::HyperbolicSecantInDynamics});
    s.planarComplementarity = g.oneOf<PlanarComplementarityType>({PlanarComplementarityType::HyperbolicTangentInDynamics, PlanarComplementarityType::HyperbolicTangentInequality, PlanarComplementarityType::Classical});
    for (auto* v : {&s.leftPointsPosition, &s.rightPointsPosition}) { v->resize(static_cast<size_t>(g.integer(1, 5))); for (auto& p : *v) p = models::genPosition(g, 1); }
    for (auto* v : {&s.jointsLimits, &s.jointsVelocityLimits}) { v->resize(g.below(5)); for (auto& p : *v) p = {val(g), val(g)}; }
    return s;
}
static std::string typeName(ComplementarityType t) { switch (t) { case ComplementarityType::Classical: return "Classical"; case ComplementarityType::Dynamical: return "Dynamical"; case ComplementarityType::HyperbolicSecantInDynamics: return "HyperbolicSecantInDynamics"; default: return "HyperbolicSecantInequality"; } }
static std::string typeName(PlanarComplementarityType t) { switch (t) { case PlanarComplementarityType::Classical: return "Classical"; case PlanarComplementarityType::HyperbolicTangentInDynamics: return "HyperbolicTangentInDynamics"; default: return "HyperbolicTangentInequality"; } }
static void checkSettings(const std::vector<Rec>& file, const SettingsStruct& s) {
    auto r = find(file, "settings"); if (!r || r->kind != "struct") fail("missing-variable", "the settings are not in the file");
#define F(f) number(r, #f, s.f);
    NUMBERS(F)
#undef F
#define F(f) number(r, #f, s.f ? 1 : 0, "logical");
    FLAGS(F)
#undef F
#define F(f) text(r, #f, s.f);
    NAMES(F)
#undef F
#define F(f) list(r, #f, s.f);
    LISTS(F)
#undef F
    number(r, "indexOfLateralDirection", s.indexOfLateralDirection); text(r, "complementarity", typeName(s.complementarity)); text(r, "planarComplementarity", typeName(s.planarComplementarity));
    points(r, "leftPointsPosition", s.leftPointsPosition); points(r, "rightPointsPosition", s.rightPointsPosition); limits(r, "jointsLimits", s.jointsLimits); limits(r, "jointsVelocityLimits", s.jointsVelocityLimits);
    text(r, "robotModel", s.robotModel.toString());
}

using VX = Eigen::VectorXd;
struct Log { SettingsStruct s; std::vector<State> st; std::vector<Control> co; std::vector<double> times, costs; size_t dofs, left, right; };
template <class V> static VX E(const V& v) { return VX(iDynTree::toEigen(v)); }
static VX one(double v) { VX x(1); x(0) = v; return x; }
static Log genLog(Gen& g) {
    Log l; l.s = genSettings(g); l.dofs = static_cast<size_t>(g.integer(1, 6)); l.left = static_cast<size_t>(g.integer(1, 5)); l.right = g.chance(40) ? static_cast<size_t>(g.integer(1, 5)) : l.left;
    size_t ns = g.below(8), nc = g.chance(50) ? ns : g.below(8); double t = 0;
    for (size_t i = 0; i < ns; ++i) {
        State s(l.dofs, l.left); s.rightContactPointsState.resize(l.right); t += g.real(0.01, 0.3); s.time = t;
        for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& p : *f) for (unsigned k = 0; k < 3; ++k) { p.pointPosition(k) = g.real(-2, 2); p.pointForce(k) = g.real(-200, 200); }
        for (unsigned k = 0; k < 3; ++k) s.comPosition(k) = g.real(-2, 2); for (unsigned k = 0; k < 6; ++k) s.momentumInCoM(k) = g.real(-9, 9);
        s.worldToBaseTransform = iDynTree::Transform(models::genRotation(g), models::genPosition(g, 2)); for (unsigned k = 0; k < l.dofs; ++k) s.jointsConfiguration(k) = g.real(-2, 2); l.st.push_back(s);
    }
    t = 0;
    for (size_t i = 0; i < nc; ++i) {
        Control c(l.dofs, l.left); c.rightContactPointsControl.resize(l.right); t += g.real(0.01, 0.3); c.time = t;
        for (auto* f : {&c.leftContactPointsControl, &c.rightContactPointsControl}) for (auto& p : *f) for (unsigned k = 0; k < 3; ++k) { p.pointForceControl(k) = g.real(-200, 200); p.pointVelocityControl(k) = g.real(-2, 2); }
        for (unsigned k = 0; k < 3; ++k) c.baseLinearVelocity(k) = g.real(-2, 2); for (unsigned k = 0; k < 4; ++k) c.baseQuaternionDerivative(k) = g.real(-2, 2); for (unsigned k = 0; k < l.dofs; ++k) c.jointsVelocity(k) = g.real(-2, 2); l.co.push_back(c);
    }
    for (size_t i = g.below(6); i-- > 0;) l.times.push_back(g.real(0, 60)); for (size_t i = g.below(6); i-- > 0;) l.costs.push_back(val(g));
    g.desc << ns << " states, " << nc << " controls, " << l.times.size() << " times, " << l.costs.size() << " costs, " << l.left << "+" << l.right << " points; "; return l;
}
static void checkLog(const std::vector<Rec>& f, const Log& l) {
    auto st = [&](const std::string& n, size_t rows, const std::function<VX(const State&)>& v) { std::vector<VX> c; for (auto& s : l.st) c.push_back(v(s)); columns(f, n, rows, c); };
    auto co = [&](const std::string& n, size_t rows, const std::function<VX(const Control&)>& v) { std::vector<VX> c; for (auto& s : l.co) c.push_back(v(s)); columns(f, n, rows, c); };
    if (!l.st.empty()) {
        for (size_t k = 0; k < l.left; ++k) { st("leftPoint" + std::to_string(k) + "Force", 3, [=](const State& s) { return E(s.leftContactPointsState[k].pointForce); }); st("leftPoint" + std::to_string(k) + "Position", 3, [=](const State& s) { return E(s.leftContactPointsState[k].pointPosition); }); }
        for (size_t k = 0; k < l.right; ++k) { st("rightPoint" + std::to_string(k) + "Force", 3, [=](const State& s) { return E(s.rightContactPointsState[k].pointForce); }); st("rightPoint" + std::to_string(k) + "Position", 3, [=](const State& s) { return E(s.rightContactPointsState[k].pointPosition); }); }
        st("momentumInCoM", 6, [](const State& s) { return E(s.momentumInCoM); }); st("comPosition", 3, [](const State& s) { return E(s.comPosition); }); st("basePosition", 3, [](const State& s) { return E(s.worldToBaseTransform.getPosition()); });
        st("baseQuaternion", 4, [](const State& s) { return E(s.worldToBaseTransform.getRotation().asQuaternion()); }); st("jointsConfiguraion", l.dofs, [](const State& s) { return E(s.jointsConfiguration); }); st("stateTime", 1, [](const State& s) { return one(s.time); });
    }
    if (!l.co.empty()) {
        for (size_t k = 0; k < l.left; ++k) { co("leftPoint" + std::to_string(k) + "ForceControl", 3, [=](const Control& s) { return E(s.leftContactPointsControl[k].pointForceControl); }); co("leftPoint" + std::to_string(k) + "VelocityControl", 3, [=](const Control& s) { return E(s.leftContactPointsControl[k].pointVelocityControl); }); }
        for (size_t k = 0; k < l.right; ++k) { co("rightPoint" + std::to_string(k) + "ForceControl", 3, [=](const Control& s) { return E(s.rightContactPointsControl[k].pointForceControl); }); co("rightPoint" + std::to_string(k) + "VelocityControl", 3, [=](const Control& s) { return E(s.rightContactPointsControl[k].pointVelocityControl); }); }
        co("baseLinearVelocity", 3, [](const Control& s) { return E(s.baseLinearVelocity); }); co("baseQuaternionDerivative", 4, [](const Control& s) { return E(s.baseQuaternionDerivative); }); co("jointsVelocity", l.dofs, [](const Control& s) { return E(s.jointsVelocity); }); co("controlTime", 1, [](const Control& s) { return one(s.time); });
    }
    auto series = [&](const std::string& n, const std::vector<double>& v) { if (v.empty()) return; std::vector<VX> c; for (double x : v) c.push_back(one(x)); columns(f, n, 1, c); };
    series("computationalTime", l.times); series("costValue", l.costs); checkSettings(f, l.s);
}
static void logs(Gen& g) {
    auto& disk = matioCpp::Disk::files(); disk.clear(); std::map<std::string, Log> kept; long n = g.integer(1, 3); size_t biggest = 0;
    for (long i = 0; i < n; ++i) {
        std::string name = g.oneOf<std::string>({"/logs/a.mat", "/logs/b.mat"}); Log l = genLog(g);
        bool noCosts = l.costs.empty(), noTimes = l.times.empty();
        if (noCosts && noTimes && l.co.empty() && l.st.empty()) Logger::saveSolutionVectorsToFile(name, l.s); else if (noCosts && noTimes && g.boolean()) Logger::saveSolutionVectorsToFile(name, l.s, l.st, l.co); else Logger::saveSolutionVectorsToFile(name, l.s, l.st, l.co, l.times, l.costs);
        biggest = std::max(biggest, std::min(l.st.size(), l.co.size())); kept[name] = l;
        // each file holds what was saved last under its name
        for (auto& k : kept) { const std::vector<Rec>* f = nullptr; for (auto& d : disk) if (d.first == k.first) f = &d.second; if (!f) fail("no-file", k.first + " is not written"); checkLog(*f, k.second); }
    }
    if (biggest >= 2) g.nontrivial();
}
int main(int argc, char** argv) {
    Suite s; s.property = "C22";
    s.rule = "a log of at least two states and two controls is saved; distinct by generated choices";
    s.assumptions = {"matioCpp writes what it is given (replaced by a recording stand-in, the library is not in this sandbox)", "all states and controls of a log have the same sizes"};
    s.aspects = {{"logs", 150000, 3000000, logs}};
    s.quickBudget = 150; s.thoroughBudget = 900;
    Runner r(s); return r.main(argc, argv);
}
