// Whole planning problems: generated settings with an independent description of what they mean, and an
// optimiser that, instead of optimising, looks at the problem it is handed.
#pragma once
#include "bodies.h"
#include <DynamicalPlanner/Settings.h>
#include <DynamicalPlanner/Solver.h>
#include <DynamicalPlanner/State.h>
#include <DynamicalPlanner/Control.h>
#include <iDynTree/Optimizer.h>
#include <iDynTree/OptimizationProblem.h>
#include <iDynTree/Integrators/ForwardEuler.h>
#include <iDynTree/Integrators/ImplicitTrapezoidal.h>

namespace planner {
using namespace scene;
using DynamicalPlanner::State; using DynamicalPlanner::Control; using DynamicalPlanner::SettingsStruct; using DynamicalPlanner::Settings; using DynamicalPlanner::Solver;
using DynamicalPlanner::ComplementarityType; using DynamicalPlanner::PlanarComplementarityType;
using NLP = iDynTree::optimization::OptimizationProblem;

// ---- an optimiser that hands its problem to a callback; the callback chooses the "solution"
struct Probe : public iDynTree::optimization::Optimizer {
    double inf = 1e19; VX solution; int calls = 0; std::function<bool(NLP&, Probe&)> visit;
    bool isAvailable() const override { return true; }
    bool solve() override { ++calls; if (!m_problem || !m_problem->prepare()) return false; return visit ? visit(*m_problem, *this) : false; }
    bool getPrimalVariables(iDynTree::VectorDynSize& p) override { p = dyn(solution); return true; }
    bool getDualVariables(iDynTree::VectorDynSize& c, iDynTree::VectorDynSize& l, iDynTree::VectorDynSize& u) override { c.resize(m_problem->numberOfConstraints()); c.zero(); l.resize(m_problem->numberOfVariables()); l.zero(); u = l; return true; }
    bool getOptimalCost(double& c) override { c = 0; return true; }
    double plusInfinity() override { return inf; }
    double minusInfinity() override { return -inf; }
};

// ---- what a generated problem means
struct CostRef { std::string kind; double weight; bool always; double from, to; std::function<double(double, const VX&, const VX&)> f; double weighted(double t, const VX& x, const VX& u) const { return always || (t >= from && t <= to) ? weight * f(t, x, u) : 0.0; } };
struct Row { std::string kind; double lb, ub, v; };
struct Problem {
    SettingsStruct st; Robot r; std::vector<CostRef> costs; double t0 = 0; TVVec com; TVDouble comTol; double rangeFrom = 0, rangeTo = 0; bool hessians = true; bool yaw = false; YawFoot lf, rf;
    long nx() const { return r.s.x.n; } long nu() const { return r.s.u.n; } long np() const { return r.s.nLeft; }
};
inline V3 v3(const iDynTree::Vector3& v) { return V3(v(0), v(1), v(2)); }

struct ProblemOptions { int maxJoints = 3; int costs = 4; bool staticTorques = true; int maxPoints = 2; bool alwaysCost = false; int meshes = 4; const Problem* like = nullptr; };   // like: the same robot and contact points
inline const std::vector<std::string>& costKinds() {
    static std::vector<std::string> v{"com", "com-velocity", "frame", "force-mean", "force-ratio", "joints", "joints-velocity", "static-torques", "force-derivative", "point-acceleration", "swing", "phantom", "mean-point",
        "left-yaw", "right-yaw", "feet-distance", "postural", "complementarity", "base-position", "base-quaternion", "frame-velocity", "base-velocity", "base-quaternion-velocity", "angular-momentum"};
    return v;
}
inline iDynTree::VectorDynSize genWeights(Gen& g, long n) { VX w(n); for (long i = 0; i < n; ++i) w(i) = g.chance(10) ? 0.0 : g.real(0.1, 3); return dyn(w); }
inline double half2(const VX& e, const VX& w) { return 0.5 * e.dot(w.cwiseProduct(e)); }

bool meshesSafe(const Problem& P, double t0);
inline Problem genProblem(Gen& g, const ProblemOptions& o = ProblemOptions()) {
    Problem P; Robot& r = P.r; unsigned n; bool yaw; long np; YawFoot &lf = P.lf, &rf = P.rf;
    if (o.like) { r = o.like->r; r.gravity = V3(0, 0, -9.81); r.base.clear(); n = static_cast<unsigned>(r.s.joints); np = r.s.nLeft; P.yaw = yaw = o.like->yaw; lf = o.like->lf; rf = o.like->rf; g.desc << "same robot, "; }
    else {
        n = static_cast<unsigned>(g.integer(1, o.maxJoints)); P.yaw = yaw = g.chance(15);
        r.model = models::genTree(g, n); r.left = r.model.getFrameIndex("l_sole"); r.right = r.model.getFrameIndex("r_sole"); r.neck = r.model.getFrameIndex("neck_2");
        if (r.model.getFrameLink(r.left) == r.model.getFrameLink(r.right)) throw pbt::Discard{};
        np = yaw ? 4 : g.integer(1, o.maxPoints); r.s = makeScene(np, np, static_cast<long>(n));
        if (yaw) { lf = genYawFoot(g); rf = genYawFoot(g); r.pl = lf.pts; r.pr = rf.pts; } else for (long i = 0; i < np; ++i) { r.pl.push_back(models::genPosition(g, 0.15)); r.pr.push_back(models::genPosition(g, 0.15)); }
        for (size_t l = 0; l < r.model.getNrOfLinks(); ++l) r.mass += r.model.getLink(static_cast<iDynTree::LinkIndex>(l))->getInertia().getMass();
    }
    P.st = Settings::Defaults(r.model); SettingsStruct& s = P.st; const Scene S = r.s; double mass = r.mass; long N = static_cast<long>(n);
    if (g.chance(50)) { r.base = r.model.getLinkName(static_cast<int>(g.below(r.model.getNrOfLinks()))); s.floatingBaseName = r.base; } else r.base = s.floatingBaseName;
    if (g.chance(40)) { r.gravity = g.boolean() ? V3(0, 0, -g.real(1, 20)) : V3(g.real(-2, 2), g.real(-2, 2), g.real(-12, 3)); for (unsigned c = 0; c < 3; ++c) s.gravity(c) = r.gravity(c); }
    g.desc << np << " points, " << n << " joints, base " << r.base << ", gravity " << r.gravity.transpose() << "; ";
    // time
    P.t0 = g.chance(40) ? 0.0 : g.real(-1, 3); double t0 = P.t0;
    s.horizon = g.logReal(0.1, 2); s.controlPeriod = s.horizon * g.real(1.0 / o.meshes, 1.1); s.minimumDt = s.horizon * g.real(0.003, 0.05); s.maximumDt = std::max(2.02 * s.minimumDt, s.horizon * g.real(1.0 / o.meshes, 1.2));
    s.activeControlPercentage = g.chance(20) ? 0.0 : g.chance(30) ? 1.0 : g.real(0.05, 0.95);
    // the rest of the quantities
    s.leftPointsPosition = r.pl; s.rightPointsPosition = r.pr; s.desiredLeftRatios.resize(static_cast<size_t>(np)); s.desiredRightRatios.resize(static_cast<size_t>(np));
    for (auto* v : {&s.desiredLeftRatios, &s.desiredRightRatios}) for (auto& q : *v) q = g.real(0, 1);
    s.complementarity = g.oneOf<ComplementarityType>({ComplementarityType::HyperbolicSecantInequality, ComplementarityType::Dynamical, ComplementarityType::Classical, ComplementarityType::HyperbolicSecantInDynamics});
    s.planarComplementarity = g.oneOf<PlanarComplementarityType>({PlanarComplementarityType::HyperbolicTangentInDynamics, PlanarComplementarityType::HyperbolicTangentInequality, PlanarComplementarityType::Classical});
    for (unsigned k = 0; k < 3; ++k) { s.forceMaximumDerivative(k) = g.logReal(1, 100); s.velocityMaximumDerivative(k) = g.logReal(0.1, 20); }
    s.normalForceDissipationRatio = g.logReal(0.1, 100); s.normalForceHyperbolicSecantScaling = g.logReal(0.5, 200); s.planarVelocityHyperbolicTangentScaling = g.logReal(0.5, 200); s.normalVelocityHyperbolicSecantScaling = g.logReal(0.5, 200);
    s.complementarityDissipation = g.logReal(0.1, 50); s.dynamicComplementarityUpperBound = g.logReal(1e-3, 1); s.classicalComplementarityTolerance = g.logReal(1e-3, 1); s.classicalPlanarComplementarityTolerance = g.logReal(1e-3, 1); s.frictionCoefficient = g.logReal(0.05, 2);
    s.indexOfLateralDirection = static_cast<unsigned>(g.below(3)); s.minimumFeetDistance = g.real(0, 0.5); s.feetMaximumRelativeHeight = g.logReal(1e-3, 1); if (g.boolean()) std::swap(s.referenceFrameNameForFeetDistance, s.otherFrameNameForFeetDistance);
    s.comPositionConstraintTolerance = g.logReal(1e-6, 0.1); s.centroidalMomentumConstraintTolerance = g.logReal(1e-6, 0.1); s.quaternionModulusConstraintTolerance = g.logReal(1e-6, 0.1); s.pointPositionConstraintTolerance = g.logReal(1e-6, 0.1);
    s.minimumCoMHeight = g.real(0.01, 1); s.maximumAngularMomentum = g.logReal(0.1, 50);
    for (auto* v : {&s.jointsLimits, &s.jointsVelocityLimits}) for (auto& l : *v) { double a = g.real(-4, 4); l = {a, a + g.real(0, 4)}; }
    P.com = genTVVec(g, 3, -1, 1); s.desiredCoMTrajectory = P.com.ptr(); s.constrainTargetCoMPosition = g.chance(40); P.comTol = TVDouble{g.real(0.1, 0.2), g.chance(50) ? g.real(0, 0.1) : 0.0}; s.targetCoMPositionTolerance = P.comTol.ptr();
    auto genRange = [&](double& a, double& b) { a = t0 + g.real(-0.3, 1.0) * s.horizon; b = a + g.real(0.1, 1.0) * s.horizon; return oc::TimeRange(a, b); };
    s.constrainTargetCoMPositionRange = genRange(P.rangeFrom, P.rangeTo);
    // costs
    for (bool* b : {&s.comCostActive, &s.comVelocityCostActive, &s.frameCostActive, &s.forceMeanCostActive, &s.forceRatioCostActive, &s.jointsRegularizationCostActive, &s.jointsVelocityCostActive, &s.staticTorquesCostActive,
         &s.forceDerivativeCostActive, &s.pointAccelerationCostActive, &s.swingCostActive, &s.phantomForcesCostActive, &s.meanPointPositionCostActive, &s.leftFootYawCostActive, &s.rightFootYawCostActive, &s.feetDistanceCostActive,
         &s.jointsVelocityForPosturalCostActive, &s.complementarityCostActive, &s.basePositionCostActive, &s.baseQuaternionCostActive, &s.frameAngularVelocityCostActive, &s.baseLinearVelocityCostActive,
         &s.baseQuaternionVelocityCostActive, &s.angularMomentumCostActive}) *b = false;
    std::set<std::string> on; int k = static_cast<int>(g.integer(o.alwaysCost ? 1 : 0, o.costs)); for (int i = 0; i < k; ++i) on.insert(g.pick(costKinds()));
    if (yaw && g.chance(70)) on.insert(g.boolean() ? "left-yaw" : "right-yaw");
    if (o.alwaysCost) on.insert("base-quaternion-velocity");
    if (!o.staticTorques) on.erase("static-torques");
    if (!yaw) { on.erase("left-yaw"); on.erase("right-yaw"); }
    M3 Rd = iDynTree::toEigen(models::genRotation(g)); V3 ax(0, 0, 1); double rate = g.chance(60) ? g.real(-1, 1) : 0.0; s.desiredRotationTrajectory = std::make_shared<RotTV>(Rd, ax, rate); auto Rt = [=](double t) { return RotTV::at(Rd, ax, rate, t); };
    long fo = static_cast<long>(g.below(r.model.getNrOfFrames())); s.frameForOrientationCost = r.model.getFrameName(static_cast<int>(fo));
    s.jointsRegularizationWeights = genWeights(g, N); s.jointsVelocityCostWeights = genWeights(g, N); TVVec qd = genTVVec(g, N, -2, 2); s.desiredJointsTrajectory = qd.ptr(); VX wq = eig(s.jointsRegularizationWeights), wv = eig(s.jointsVelocityCostWeights);
    auto W = [&](double& field) { field = g.logReal(0.05, 20); return field; };
    auto pt = [](const char* what, const std::string& f, long i) { return f + what + std::to_string(i); };
    Robot rc = r; double K = s.normalForceHyperbolicSecantScaling;
    for (const std::string& c : on) {
        g.desc << c << " "; g.classify(c);
        auto add = [&](double w, std::function<double(double, const VX&, const VX&)> f) { P.costs.push_back({c, w, true, 0, 0, f}); };
        auto addR = [&](double w, oc::TimeRange& rg, std::function<double(double, const VX&, const VX&)> f) { if (g.chance(30)) { rg = oc::TimeRange::AnyTime(); P.costs.push_back({c, w, true, 0, 0, f}); } else { double a, b; rg = genRange(a, b); P.costs.push_back({c, w, false, a, b, f}); } };
        auto perPoint = [&](double w, std::function<double(double, const VX&, const VX&, const std::string&, long)> f) { add(w, [=](double t, const VX& x, const VX& u) { double v = 0; for (std::string ft : {"Left", "Right"}) for (long i = 0; i < np; ++i) v += f(t, x, u, ft, i); return v; }); };
        auto sum = [S, np, pt](const VX& x, const char* what, const std::string& f) { V3 a = V3::Zero(); for (long i = 0; i < np; ++i) a += V3(S.x.seg(x, pt(what, f, i))); return a; };
        if (c == "com") { s.comCostActive = true; s.comWeights = genWeights(g, 3); VX w = eig(s.comWeights); TVVec d = P.com; addR(W(s.comCostOverallWeight), s.comCostActiveRange, [=](double t, const VX& x, const VX&) { return half2(S.x.seg(x, "CoMPosition") - d.at(t), w); }); }
        else if (c == "com-velocity") { s.comVelocityCostActive = true; s.comVelocityWeights = genWeights(g, 3); VX w = eig(s.comVelocityWeights); TVVec d = genTVVec(g, 3, -1, 1); s.desiredCoMVelocityTrajectory = d.ptr(); addR(W(s.comVelocityCostOverallWeight), s.comVelocityCostActiveRange, [=](double t, const VX& x, const VX&) { return half2(S.x.seg(x, "Momentum").head(3) - mass * d.at(t), w); }); }
        else if (c == "frame") { s.frameCostActive = true; TVDouble wt{g.real(0.1, 3), g.chance(60) ? g.real(0, 1) : 0.0}; s.frameCostTimeVaryingWeight = wt.ptr(); add(W(s.frameCostOverallWeight), [=](double t, const VX& x, const VX& u) { Ref R(rc, x, u); double q = ((R.rot(fo).transpose() * Rt(t)).trace() - 1) / 2; q = std::min(1.0, std::max(-1.0, q)); return wt.at(t) * (1 - std::sqrt((1 + q) / 2)); }); }
        else if (c == "force-mean") { s.forceMeanCostActive = true; perPoint(W(s.forceMeanCostOverallWeight), [=](double, const VX& x, const VX&, const std::string& f, long i) { V3 d = V3(S.x.seg(x, pt("ForcePoint", f, i))) - sum(x, "ForcePoint", f) / static_cast<double>(np); return 0.5 * d.head<2>().squaredNorm(); }); }
        else if (c == "force-ratio") { s.forceRatioCostActive = true; auto l = s.desiredLeftRatios, q = s.desiredRightRatios; perPoint(W(s.forceRatioCostOverallWeight), [=](double, const VX& x, const VX&, const std::string& f, long i) { double d = S.x.seg(x, pt("ForcePoint", f, i))(2) - (f == "Left" ? l : q)[static_cast<size_t>(i)] * sum(x, "ForcePoint", f)(2); return 0.5 * d * d; }); }
        else if (c == "joints") { s.jointsRegularizationCostActive = true; add(W(s.jointsRegularizationCostOverallWeight), [=](double t, const VX& x, const VX&) { return half2(S.x.seg(x, "JointsPosition") - qd.at(t), wq); }); }
        else if (c == "joints-velocity") { s.jointsVelocityCostActive = true; TVVec d = genTVVec(g, N, -1, 1); s.desiredJointsVelocityTrajectory = d.ptr(); add(W(s.jointsVelocityCostOverallWeight), [=](double t, const VX&, const VX& u) { return half2(S.u.seg(u, "JointsVelocity") - d.at(t), wv); }); }
        else if (c == "static-torques") { P.hessians = false; s.staticTorquesCostActive = true; s.staticTorquesCostWeights = genWeights(g, N); VX w = eig(s.staticTorquesCostWeights); add(W(s.staticTorquesCostOverallWeight), [=](double, const VX& x, const VX& u) { Ref R(rc, x, u); return half2(R.staticTorques(rc, x), w); }); }
        else if (c == "force-derivative") { s.forceDerivativeCostActive = true; s.forceDerivativeWeights = genWeights(g, 3); VX w = eig(s.forceDerivativeWeights); TVVec d = genTVVec(g, 3, -5, 5); s.desiredForceDerivativeTrajectory = d.ptr(); perPoint(W(s.forceDerivativesCostOverallWeight), [=](double t, const VX&, const VX& u, const std::string& f, long i) { return half2(S.u.seg(u, pt("ForceControlPoint", f, i)) - d.at(t), w); }); }
        else if (c == "point-acceleration") { s.pointAccelerationCostActive = true; s.pointAccelerationWeights = genWeights(g, 3); VX w = eig(s.pointAccelerationWeights); TVVec d = genTVVec(g, 3, -5, 5); s.desiredPointAccelerationTrajectory = d.ptr(); perPoint(W(s.pointAccelerationCostOverallWeight), [=](double t, const VX&, const VX& u, const std::string& f, long i) { return half2(S.u.seg(u, pt("VelocityControlPoint", f, i)) - d.at(t), w); }); }
        else if (c == "swing") { s.swingCostActive = true; s.desiredSwingHeight = g.real(0, 0.3); double h = s.desiredSwingHeight; for (unsigned q = 0; q < 3; ++q) s.swingCostWeights(q) = g.real(0.1, 3); V3 w = v3(s.swingCostWeights); perPoint(W(s.swingCostOverallWeight), [=](double, const VX& x, const VX& u, const std::string& f, long i) { double e = S.x.seg(x, pt("PositionPoint", f, i))(2) - h; return half2(S.u.seg(u, pt("VelocityControlPoint", f, i)) * e, w); }); }
        else if (c == "phantom") { s.phantomForcesCostActive = true; perPoint(W(s.phantomForcesCostOverallWeight), [=](double, const VX& x, const VX&, const std::string& f, long i) { double a = (1 - sech(K * S.x.seg(x, pt("PositionPoint", f, i))(2))) * S.x.seg(x, pt("ForcePoint", f, i))(2); return 0.5 * a * a; }); }
        else if (c == "mean-point") { s.meanPointPositionCostActive = true; TVVec d = genTVVec(g, 3, -1, 1), w = genTVVec(g, 3, 0.1, 3); w.b = w.b.cwiseAbs(); s.desiredMeanPointPosition = d.pos(); s.meanPointPositionCostTimeVaryingWeight = w.ptr(); addR(W(s.meanPointPositionCostOverallWeight), s.meanPointPositionCostActiveRange, [=](double t, const VX& x, const VX&) { V3 e = (sum(x, "PositionPoint", "Left") + sum(x, "PositionPoint", "Right")) / static_cast<double>(2 * np) - V3(d.at(t)); return half2(e, w.at(t)); }); }
        else if (c == "left-yaw" || c == "right-yaw") {
            bool L = c == "left-yaw"; (L ? s.leftFootYawCostActive : s.rightFootYawCostActive) = true; YawFoot f = L ? lf : rf; TVDouble y = genTVDouble(g, -3, 3); (L ? s.desiredLeftFootYaw : s.desiredRightFootYaw) = y.ptr(); std::string ft = L ? "Left" : "Right";
            long tr = -1, tl = -1, br = -1; for (long i = 0; i < 4; ++i) { double X = f.pts[static_cast<size_t>(i)](0) - f.centre(0), Y = f.pts[static_cast<size_t>(i)](1) - f.centre(1); if (X > 0 && Y > 0) tl = i; else if (X > 0) tr = i; else if (Y < 0) br = i; }
            add(W(L ? s.leftFootYawCostOverallWeight : s.rightFootYawCostOverallWeight), [=](double t, const VX& x, const VX&) { double a = y.at(t) + f.yaw; auto p = [&](long i) { return V3(S.x.seg(x, pt("PositionPoint", ft, i))); }; V3 e = p(tr) - p(br), l = p(tl) - p(tr); double e1 = e(1) * std::cos(a) - e(0) * std::sin(a), e2 = l(0) * std::cos(a) + l(1) * std::sin(a); return 0.5 * e1 * e1 + 0.5 * e2 * e2; });
        }
        else if (c == "feet-distance") { s.feetDistanceCostActive = true; add(W(s.feetDistanceCostOverallWeight), [=](double, const VX& x, const VX&) { V3 d = (sum(x, "PositionPoint", "Left") - sum(x, "PositionPoint", "Right")) / static_cast<double>(np); return 0.5 * d.squaredNorm(); }); }
        else if (c == "postural") { s.jointsVelocityForPosturalCostActive = true; add(W(s.jointsVelocityForPosturalCostOverallWeight), [=](double t, const VX& x, const VX& u) { VX e = S.u.seg(u, "JointsVelocity") + wq.cwiseProduct(S.x.seg(x, "JointsPosition") - qd.at(t)); return 0.5 * wv.cwiseProduct(e).squaredNorm(); }); }
        else if (c == "complementarity") { s.complementarityCostActive = true; perPoint(W(s.complementarityCostOverallWeight), [=](double, const VX& x, const VX& u, const std::string& f, long i) { double a = S.x.seg(x, pt("ForcePoint", f, i))(2) * S.u.seg(u, pt("VelocityControlPoint", f, i))(2); return 0.5 * a * a; }); }
        else if (c == "base-position") { s.basePositionCostActive = true; s.basePositionCostWeights = genWeights(g, 3); VX w = eig(s.basePositionCostWeights); TVVec d = genTVVec(g, 3, -1, 1); s.desiredBasePositionTrajectory = d.ptr(); addR(W(s.basePositionCostOverallWeight), s.basePositionCostActiveRange, [=](double t, const VX& x, const VX&) { return half2(S.x.seg(x, "BasePosition") - d.at(t), w); }); }
        else if (c == "base-quaternion") { s.baseQuaternionCostActive = true; TVVec d = genTVVec(g, 4, -1, 1); s.desiredBaseQuaternionTrajectory = d.ptr(); add(W(s.baseQuaternionCostOverallWeight), [=](double t, const VX& x, const VX&) { return 0.5 * (S.x.seg(x, "BaseQuaternion") - d.at(t)).squaredNorm(); }); }
        else if (c == "frame-velocity") { s.frameAngularVelocityCostActive = true; s.rotationalPIDgain = g.logReal(0.05, 20); double gain = s.rotationalPIDgain; add(W(s.frameAngularVelocityCostOverallWeight), [=](double t, const VX& x, const VX& u) { Ref R(rc, x, u); return 0.5 * (R.omegaWorld(fo) + gain * veeM(R.rot(fo) * Rt(t).transpose())).squaredNorm(); }); }
        else if (c == "base-velocity") { s.baseLinearVelocityCostActive = true; s.baseLinearVelocityCostWeights = genWeights(g, 3); VX w = eig(s.baseLinearVelocityCostWeights); TVVec d = genTVVec(g, 3, -1, 1); s.desiredBaseLinearVelocityTrajectory = d.ptr(); add(W(s.baseLinearVelocityCostOverallWeight), [=](double t, const VX&, const VX& u) { return half2(S.u.seg(u, "BaseLinearVelocity") - d.at(t), w); }); }
        else if (c == "base-quaternion-velocity") { s.baseQuaternionVelocityCostActive = true; TVVec d = genTVVec(g, 4, -1, 1); s.desiredBaseQuaternionVelocityTrajectory = d.ptr(); add(W(s.baseQuaternionVelocityCostOverallWeight), [=](double t, const VX&, const VX& u) { return 0.5 * (S.u.seg(u, "BaseQuaternionDerivative") - d.at(t)).squaredNorm(); }); }
        else { s.angularMomentumCostActive = true; add(W(s.angularMomentumCostOverallWeight), [=](double, const VX& x, const VX&) { return 0.5 * S.x.seg(x, "Momentum").tail(3).squaredNorm(); }); }
    }
    if (!meshesSafe(P, P.t0) || !meshesSafe(P, 0.0)) throw pbt::Discard{};
    return P;
}
// The transcription of iDynTree corrupts its own memory when the instants it is asked for (control instants, ends of the
// time ranges) form chains of points closer than the minimum step that are together longer than it,
// or when a time range starts or ends within the minimum step after the initial time: such requests are not made.
inline bool meshesSafe(const Problem& P, double t0) {
    double T = t0 + P.st.horizon, d = P.st.minimumDt * 1.0001; std::vector<double> t{t0, T}; for (int k = 1; t0 + k * P.st.controlPeriod <= T + 1e-9; ++k) t.push_back(t0 + k * P.st.controlPeriod);
    auto range = [&](double a, double b) { if (a > t0 - d && a < T + d) t.push_back(a); if (b > t0 - d && b < T + d) t.push_back(b); };
    for (auto& c : P.costs) if (!c.always) range(c.from, c.to);
    std::sort(t.begin(), t.end()); double start = t[0]; for (size_t i = 1; i < t.size(); ++i) { if (t[i] - t[i - 1] > d) start = t[i]; if (t[i] - start > 0.999 * P.st.minimumDt && t[i] != start) return false; if (t[i] > t0 && t[i] < t0 + d) return false; }
    return true;
}

// ---- the pieces of a problem, written from the documentation of the settings
inline VX dynamics(const Problem& P, const Scene& s, const VX& x, const VX& u) {
    VX d = VX::Zero(s.x.n); V3 com = s.x.seg(x, "CoMPosition"), lin = P.r.mass * P.r.gravity, ang(0, 0, 0); bool inXY = P.st.planarComplementarity == PlanarComplementarityType::HyperbolicTangentInDynamics, inZ = P.st.complementarity == ComplementarityType::HyperbolicSecantInDynamics;
    auto put = [&](const std::string& n, const VX& v) { d.segment(s.x.off(n), v.size()) = v; };
    for (std::string f : {"Left", "Right"}) for (long i = 0; i < s.points(f); ++i) {
        std::string k = std::to_string(i); V3 p = s.x.seg(x, f + "PositionPoint" + k), F = s.x.seg(x, f + "ForcePoint" + k), v = s.u.seg(u, f + "VelocityControlPoint" + k), w = s.u.seg(u, f + "ForceControlPoint" + k);
        double dz = inZ ? sech(P.st.normalForceHyperbolicSecantScaling * p(2)) : 1.0, dxy = inXY ? std::tanh(P.st.planarVelocityHyperbolicTangentScaling * p(2)) : 1.0;
        put(f + "ForcePoint" + k, V3(w(0), w(1), dz * w(2) - P.st.normalForceDissipationRatio * (1 - dz) * F(2))); put(f + "PositionPoint" + k, V3(dxy * v(0), dxy * v(1), v(2)));
        lin += F; ang += (p - com).cross(F);
    }
    VX m(6); m << lin, ang; put("Momentum", m); put("CoMPosition", V3(s.x.seg(x, "Momentum").head(3)) / P.r.mass);
    put("BasePosition", quatR(s.x.seg(x, "BaseQuaternion")) * V3(s.u.seg(u, "BaseLinearVelocity"))); put("BaseQuaternion", s.u.seg(u, "BaseQuaternionDerivative")); put("JointsPosition", s.u.seg(u, "JointsVelocity"));
    return d;
}
inline std::vector<Row> constraints(const Problem& P, const Scene& s, const VX& x, const VX& u) {
    std::vector<Row> R; const SettingsStruct& st = P.st; Robot r = P.r; r.s = s; Ref k(r, x, u);
    auto vecRows = [&](const char* n, const V3& v, double tol) { for (int c = 0; c < 3; ++c) R.push_back({n, -tol / 2, tol / 2, v(c)}); };
    vecRows("centroidal-momentum", k.angularMomentum() - V3(s.x.seg(x, "Momentum").tail(3)), st.centroidalMomentumConstraintTolerance);
    vecRows("com-position", k.com() - V3(s.x.seg(x, "CoMPosition")), st.comPositionConstraintTolerance);
    long a = r.model.getFrameIndex(st.referenceFrameNameForFeetDistance), b = r.model.getFrameIndex(st.otherFrameNameForFeetDistance);
    R.push_back({"lateral-distance", st.minimumFeetDistance, INF, (k.rot(a).transpose() * (k.pos(b) - k.pos(a)))(st.indexOfLateralDirection)});
    R.push_back({"quaternion-norm", -st.quaternionModulusConstraintTolerance / 2, st.quaternionModulusConstraintTolerance / 2, s.x.seg(x, "BaseQuaternion").squaredNorm() - 1});
    double h[2] = {0, 0}; int fi = 0;
    for (std::string f : {"Left", "Right"}) {
        for (long i = 0; i < s.points(f); ++i) {
            std::string n = std::to_string(i); V3 p = s.x.seg(x, f + "PositionPoint" + n), F = s.x.seg(x, f + "ForcePoint" + n), v = s.u.seg(u, f + "VelocityControlPoint" + n), w = s.u.seg(u, f + "ForceControlPoint" + n); h[fi] += p(2) / static_cast<double>(s.points(f));
            if (st.planarComplementarity == PlanarComplementarityType::HyperbolicTangentInequality) { double d = std::tanh(st.planarVelocityHyperbolicTangentScaling * p(2)); for (int c = 0; c < 2; ++c) { double m = st.velocityMaximumDerivative(static_cast<unsigned>(c)); R.push_back({"planar-velocity", 0, INF, d * m - v(c)}); R.push_back({"planar-velocity", 0, INF, v(c) + d * m}); } }
            if (st.planarComplementarity == PlanarComplementarityType::Classical) for (int c = 0; c < 2; ++c) R.push_back({"classical-planar", -st.classicalPlanarComplementarityTolerance, st.classicalPlanarComplementarityTolerance, v(c) * F(2)});
            if (st.complementarity == ComplementarityType::Dynamical) R.push_back({"dynamical-complementarity", -INF, st.dynamicComplementarityUpperBound, w(2) * p(2) + F(2) * v(2) + st.complementarityDissipation * F(2) * p(2)});
            if (st.complementarity == ComplementarityType::HyperbolicSecantInequality) { double d = sech(st.normalForceHyperbolicSecantScaling * p(2)); R.push_back({"force-control", -INF, 0, w(2) - d * st.forceMaximumDerivative(2) + (1 - d) * st.normalForceDissipationRatio * F(2)}); }
            if (st.complementarity == ComplementarityType::Classical) R.push_back({"classical-complementarity", -INF, st.classicalComplementarityTolerance, p(2) * F(2)});
            R.push_back({"friction", -INF, 0, F(0) * F(0) + F(1) * F(1) - st.frictionCoefficient * st.frictionCoefficient * F(2) * F(2)});
            vecRows("contact-position", k.pos(f == "Left" ? r.left : r.right, iDynTree::toEigen((f == "Left" ? r.pl : r.pr)[static_cast<size_t>(i)])) - p, st.pointPositionConstraintTolerance);
        }
        ++fi;
    }
    R.push_back({"relative-height", -st.feetMaximumRelativeHeight, st.feetMaximumRelativeHeight, h[0] - h[1]});
    return R;
}
// bounds of the variables at a time; start is the initial time of the horizon
inline void bounds(const Problem& P, const Scene& s, double t, double start, VX& xl, VX& xu, VX& ul, VX& uu) {
    const SettingsStruct& st = P.st; xl = VX::Constant(s.x.n, -INF); xu = VX::Constant(s.x.n, INF); ul = VX::Constant(s.u.n, -INF); uu = VX::Constant(s.u.n, INF);
    bool active = t < start + st.horizon * st.activeControlPercentage;
    for (std::string f : {"Left", "Right"}) for (long i = 0; i < s.points(f); ++i) {
        std::string k = std::to_string(i); xl(s.x.off(f + "PositionPoint" + k) + 2) = 0; xl(s.x.off(f + "ForcePoint" + k) + 2) = 0;
        V3 a = active ? v3(st.forceMaximumDerivative) : V3(V3::Zero()), b = active ? v3(st.velocityMaximumDerivative) : V3(V3::Zero()); long of = s.u.off(f + "ForceControlPoint" + k), ov = s.u.off(f + "VelocityControlPoint" + k);
        ul.segment(of, 3) = -a; uu.segment(of, 3) = a; ul.segment(ov, 3) = -b; uu.segment(ov, 3) = b;
    }
    xl(s.x.off("CoMPosition") + 2) = st.minimumCoMHeight; for (long c = 3; c < 6; ++c) { xl(s.x.off("Momentum") + c) = -st.maximumAngularMomentum; xu(s.x.off("Momentum") + c) = st.maximumAngularMomentum; }
    if (st.constrainTargetCoMPosition && t >= P.rangeFrom && t <= P.rangeTo) { VX c = P.com.at(t); double w = P.comTol.at(t); xl.segment(s.x.off("CoMPosition"), 3) = (c.array() - w).matrix(); xu.segment(s.x.off("CoMPosition"), 3) = (c.array() + w).matrix(); }
    for (long j = 0; j < s.joints; ++j) { auto q = st.jointsLimits[static_cast<size_t>(j)], v = st.jointsVelocityLimits[static_cast<size_t>(j)]; xl(s.x.off("JointsPosition") + j) = q.first; xu(s.x.off("JointsPosition") + j) = q.second; ul(s.u.off("JointsVelocity") + j) = v.first; uu(s.u.off("JointsVelocity") + j) = v.second; }
}

// ---- states and controls
struct Tag { int n = 0; double operator()() { return 0.01371 * ++n; } };   // keeps every number of a state different from the others, also after shrinking
inline State genState(Gen& g, const Scene& s, double time) {
    State x(static_cast<size_t>(s.joints), static_cast<size_t>(s.nLeft)); x.zero(); double fs = g.logReal(1, 100); Tag tag;
    for (auto* f : {&x.leftContactPointsState, &x.rightContactPointsState}) for (auto& p : *f) for (unsigned c = 0; c < 3; ++c) { p.pointForce(c) = g.real(-fs, fs) + tag(); p.pointPosition(c) = g.real(-1, 1) + tag(); }
    for (unsigned c = 0; c < 6; ++c) x.momentumInCoM(c) = g.real(-5, 5) + tag(); for (unsigned c = 0; c < 3; ++c) x.comPosition(c) = g.real(-1, 1) + tag();
    x.worldToBaseTransform = iDynTree::Transform(models::rpy(g.real(-3, 3), g.real(-1.4, 1.4), g.real(-3, 3)), iDynTree::Position(g.real(-1, 1) + tag(), g.real(-1, 1) + tag(), g.real(-1, 1) + tag())); for (long j = 0; j < s.joints; ++j) x.jointsConfiguration(static_cast<unsigned>(j)) = g.real(-2, 2) + tag();
    x.time = time; return x;
}
inline Control genControl(Gen& g, const Scene& s, double time) {
    Control u(static_cast<size_t>(s.joints), static_cast<size_t>(s.nLeft)); u.zero(); Tag tag;
    for (auto* f : {&u.leftContactPointsControl, &u.rightContactPointsControl}) for (auto& p : *f) for (unsigned c = 0; c < 3; ++c) { p.pointForceControl(c) = g.real(-20, 20) + tag(); p.pointVelocityControl(c) = g.real(-2, 2) + tag(); }
    for (unsigned c = 0; c < 3; ++c) u.baseLinearVelocity(c) = g.real(-1, 1) + tag(); for (unsigned c = 0; c < 4; ++c) u.baseQuaternionDerivative(c) = g.real(-1, 1) + tag(); for (long j = 0; j < s.joints; ++j) u.jointsVelocity(static_cast<unsigned>(j)) = g.real(-2, 2) + tag();
    u.time = time; return u;
}
template <class A> inline VX vx(const A& a, long n) { VX v(n); for (long i = 0; i < n; ++i) v(i) = a(static_cast<unsigned>(i)); return v; }
inline VX toVector(const Scene& s, const State& x) {
    VX v = VX::Zero(s.x.n); auto put = [&](const std::string& n, const VX& w) { v.segment(s.x.off(n), w.size()) = w; };
    for (long i = 0; i < s.nLeft; ++i) { std::string k = std::to_string(i); size_t c = static_cast<size_t>(i); put("LeftForcePoint" + k, vx(x.leftContactPointsState[c].pointForce, 3)); put("LeftPositionPoint" + k, vx(x.leftContactPointsState[c].pointPosition, 3)); put("RightForcePoint" + k, vx(x.rightContactPointsState[c].pointForce, 3)); put("RightPositionPoint" + k, vx(x.rightContactPointsState[c].pointPosition, 3)); }
    put("Momentum", vx(x.momentumInCoM, 6)); put("CoMPosition", vx(x.comPosition, 3)); put("BasePosition", vx(x.worldToBaseTransform.getPosition(), 3)); put("BaseQuaternion", vx(x.worldToBaseTransform.getRotation().asQuaternion(), 4)); put("JointsPosition", vx(x.jointsConfiguration, s.joints));
    return v;
}
inline VX toVector(const Scene& s, const Control& u) {
    VX v = VX::Zero(s.u.n); auto put = [&](const std::string& n, const VX& w) { v.segment(s.u.off(n), w.size()) = w; };
    for (long i = 0; i < s.nLeft; ++i) { std::string k = std::to_string(i); size_t c = static_cast<size_t>(i); put("LeftForceControlPoint" + k, vx(u.leftContactPointsControl[c].pointForceControl, 3)); put("LeftVelocityControlPoint" + k, vx(u.leftContactPointsControl[c].pointVelocityControl, 3)); put("RightForceControlPoint" + k, vx(u.rightContactPointsControl[c].pointForceControl, 3)); put("RightVelocityControlPoint" + k, vx(u.rightContactPointsControl[c].pointVelocityControl, 3)); }
    put("BaseLinearVelocity", vx(u.baseLinearVelocity, 3)); put("BaseQuaternionDerivative", vx(u.baseQuaternionDerivative, 4)); put("JointsVelocity", vx(u.jointsVelocity, s.joints));
    return v;
}
// ---- guesses that depend on time, so that the instants of the problem can be read off them
struct StateTV : public DynamicalPlanner::TimeVaryingState { State base, now; bool moving; int bad = -1, calls = 0; StateTV(const State& b, bool m) : base(b), now(b), moving(m) {}
    static State at(const State& b, bool m, double t) { State n = b; n.time = t; if (m) { n.momentumInCoM(0) = 1000 + t; n.comPosition(1) += 0.3 * t; for (auto& p : n.leftContactPointsState) { p.pointForce(0) += 2 * t; p.pointPosition(1) -= t; } for (auto& p : n.rightContactPointsState) { p.pointForce(2) += 3 * t; p.pointPosition(0) += 0.7 * t; } } return n; }
    const State& get(double t, bool& ok) override { ok = bad < 0 || calls != bad; ++calls; now = at(base, moving, t); return now; } };
struct ControlTV : public DynamicalPlanner::TimeVaryingControl { Control base, now; bool moving; int bad = -1, calls = 0; ControlTV(const Control& b, bool m) : base(b), now(b), moving(m) {}
    static Control at(const Control& b, bool m, double t) { Control n = b; n.time = t; if (m) { n.baseLinearVelocity(0) = 2000 + t; n.baseQuaternionDerivative(2) += t; for (auto& p : n.leftContactPointsControl) p.pointForceControl(1) += 5 * t; for (auto& p : n.rightContactPointsControl) p.pointVelocityControl(0) -= 0.5 * t; } return n; }
    const Control& get(double t, bool& ok) override { ok = bad < 0 || calls != bad; ++calls; now = at(base, moving, t); return now; } };

// ---- where the optimiser's variables are
struct Mesh { double t; long x, u; bool control; };
// finds where each quantity sits in a block, from a block of which the content is known
inline void locate(Layout& L, const VX& block, const std::map<std::string, VX>& content, const char* what) {
    for (auto& e : content) {
        long n = e.second.size(), at = -1;
        int seen = 0;
        for (long o = 0; o + n <= block.size(); ++o) {
            double d = (block.segment(o, n) - e.second).cwiseAbs().maxCoeff(), d2 = e.first == "BaseQuaternion" ? (block.segment(o, n) + e.second).cwiseAbs().maxCoeff() : 1;
            if (std::min(d, d2) <= 1e-9 * (1 + norm1(e.second))) { at = o; ++seen; }
        }
        if (seen > 1) throw pbt::Discard{};
        if (at < 0) fail("not-imposed:" + e.first.substr(0, 8), std::string(what) + " given for " + e.first + " is not found among the variables of the optimisation problem");
        L.at[e.first].first = at;
    }
}
inline std::map<std::string, VX> parts(const Layout& L, const VX& v) { std::map<std::string, VX> m; for (auto& e : L.at) m[e.first] = L.seg(v, e.first); return m; }
inline std::vector<Mesh> readMeshes(const Scene& s, const VX& guess, double t0) {     // from a moving guess
    std::vector<Mesh> m; long nx = s.x.n, nu = s.u.n, p = nx + nu, sm = s.x.off("Momentum"), um = s.u.off("BaseLinearVelocity"), last = nx; m.push_back({t0, 0, nx, true});
    auto isT = [&](double v, double b) { return v >= b + t0 - 1e-6 && v <= b + t0 + 50; };
    while (p < guess.size()) {
        if (p + nx <= guess.size() && isT(guess(p + sm), 1000)) { m.push_back({guess(p + sm) - 1000, p, last, false}); p += nx; }
        else if (p + nu + nx <= guess.size() && isT(guess(p + um), 2000) && isT(guess(p + nu + sm), 1000)) { last = p; m.push_back({guess(p + nu + sm) - 1000, p + nu, last, true}); if (std::abs(guess(p + um) - 2000 - m.back().t) > 1e-9) fail("guess-times", "the guesses of state and control of one instant are asked at different times"); p += nu + nx; }
        else fail("guess-lost", "the guess does not reach variable " + std::to_string(p) + " of the optimisation problem");
    }
    return m;
}

// ---- what an optimiser sees when it is handed the problem
struct Snapshot { long n = 0, m = 0; bool hasGuess = false; VX guess, lo, hi, clo, chi; std::vector<VX> at; std::vector<double> cost; std::vector<VX> con; };
inline void need(bool ok, const char* what) { if (!ok) fail("nlp-refused:" + std::string(what), std::string("the optimisation problem fails to provide ") + what); }
inline void look(NLP& p, Snapshot& s) {
    s = Snapshot(); s.n = p.numberOfVariables(); s.m = p.numberOfConstraints(); iDynTree::VectorDynSize v;
    s.hasGuess = p.getGuess(v); if (s.hasGuess) s.guess = eig(v);
    need(p.getVariablesLowerBound(v), "lower bounds"); s.lo = eig(v); need(p.getVariablesUpperBound(v), "upper bounds"); s.hi = eig(v);
    iDynTree::VectorDynSize w; need(p.getConstraintsBounds(v, w), "constraint bounds"); s.clo = eig(v); s.chi = eig(w);
    if (s.lo.size() != s.n || s.hi.size() != s.n || s.clo.size() != s.m || s.chi.size() != s.m || (s.hasGuess && s.guess.size() != s.n)) fail("nlp-sizes", "the optimisation problem has quantities of inconsistent sizes");
}
inline void evaluate(NLP& p, Snapshot& s, const VX& z, bool conFirst) {
    s.at.push_back(z); double c = 0; iDynTree::VectorDynSize v; need(p.setVariables(dyn(z)), "room for the variables");
    if (conFirst) need(p.evaluateConstraints(v), "constraints");
    need(p.evaluateCostFunction(c), "the cost"); if (!conFirst) need(p.evaluateConstraints(v), "constraints");
    s.cost.push_back(c); s.con.push_back(eig(v));
}
inline VX genVars(Gen& g, const Scene& s, const std::vector<Mesh>& m, long n, const VX& x0) {
    VX z = VX::Zero(n), x, u; for (auto& k : m) { genPoint(g, s, x, u); z.segment(k.x, s.x.n) = x; if (k.control) z.segment(k.u, s.u.n) = u; } z.head(s.x.n) = x0; return z;
}
inline bool same(double a, double b, double tol) { return std::abs(a - b) <= tol; }
inline void checkBounds(const Problem& P, const Scene& s, const Snapshot& S, const std::vector<Mesh>& M, const VX& x0, double t0, double inf) {
    auto one = [&](long at, const VX& lo, const VX& hi, const Layout& L, double t) {
        for (long i = 0; i < lo.size(); ++i) { double a = S.lo(at + i), b = S.hi(at + i), tol = 1e-9 * (1 + (std::isfinite(lo(i)) ? std::abs(lo(i)) : 0) + (std::isfinite(hi(i)) ? std::abs(hi(i)) : 0));
            bool ol = std::isfinite(lo(i)) ? same(a, lo(i), tol) : a <= -inf, oh = std::isfinite(hi(i)) ? same(b, hi(i), tol) : b >= inf;
            if (!ol || !oh) fail("bounds:" + nameOf(L, i).substr(0, 8), nameOf(L, i) + " is bounded to [" + str(a) + ", " + str(b) + "] at time " + str(t) + " of a horizon starting at " + str(t0) + ", expected [" + str(lo(i)) + ", " + str(hi(i)) + "]"); } };
    double sw = t0 + P.st.horizon * P.st.activeControlPercentage;
    for (size_t k = 0; k < M.size(); ++k) { VX xl, xu, ul, uu; bounds(P, s, M[k].t, t0, xl, xu, ul, uu); if (k == 0) xl = xu = x0; bool near = std::abs(M[k].t - sw) < 1e-7 || std::abs(M[k].t - P.rangeFrom) < 1e-7 || std::abs(M[k].t - P.rangeTo) < 1e-7;
        if (near) continue;                    // the two sides of a switch are not told apart at the switch itself
        one(M[k].x, xl, xu, s.x, M[k].t); if (M[k].control) one(M[k].u, ul, uu, s.u, M[k].t); }
}
enum class Method { Trapezoidal, Euler };
inline void checkValues(const Problem& P, const Scene& s, const Snapshot& S, const std::vector<Mesh>& M, Method method, double inf) {
    long nx = s.x.n, nu = s.u.n; if (!S.at.size()) return;
    for (size_t q = 0; q < S.at.size(); ++q) {
        const VX& z = S.at[q]; std::vector<VX> X, U; for (auto& k : M) { X.push_back(z.segment(k.x, nx)); U.push_back(z.segment(k.u, nu)); }
        double total = 0, big = norm1(z); for (size_t k = 0; k < M.size(); ++k) for (auto& c : P.costs) total += c.weighted(M[k].t, X[k], U[k]);
        bool edge = false; for (auto& c : P.costs) if (!c.always) for (auto& k : M) if ((std::abs(k.t - c.from) < 1e-9 || std::abs(k.t - c.to) < 1e-9) && k.t != c.from && k.t != c.to) edge = true;
        if (!edge && !same(S.cost[q], total, 1e-9 * (1 + total + 1e-4 * big * big))) fail("cost", "the cost of a trajectory is " + str(S.cost[q]) + ", expected " + str(total));
        long nc = 0, row = 0; double tolv = 1e-9 * (1 + 1e-2 * big * big);
        for (size_t k = 0; k < M.size(); ++k) {
            if (k) { double dt = M[k].t - M[k - 1].t; VX e = method == Method::Euler ? VX(-X[k] + X[k - 1] + dt * dynamics(P, s, X[k - 1], U[k - 1])) : VX(-X[k] + X[k - 1] + 0.5 * dt * (dynamics(P, s, X[k - 1], U[k - 1]) + dynamics(P, s, X[k], U[k])));
                if (row + nx > S.m) fail("rows", "there are fewer constraints than the instants of the horizon require");
                for (long i = 0; i < nx; ++i) { double v = S.con[q](row + i); if (!same(v, e(i), tolv * 10 * (1 + dt)) || S.clo(row + i) != 0 || S.chi(row + i) != 0) fail("collocation:" + nameOf(s.x, i).substr(0, 8), "between times " + str(M[k - 1].t) + " and " + str(M[k].t) + " the defect of " + nameOf(s.x, i) + " is " + str(v) + " in [" + str(S.clo(row + i)) + ", " + str(S.chi(row + i)) + "], expected " + str(e(i)) + " in [0, 0]"); }
                row += nx; }
            auto R = constraints(P, s, X[k], U[k]); nc = static_cast<long>(R.size()); if (row + nc > S.m) fail("rows", "there are fewer constraints than the instants of the horizon require"); std::vector<bool> used(static_cast<size_t>(nc), false);
            for (auto& r : R) { bool found = false; double near = -1; std::string closest;
                for (long i = 0; i < nc && !found; ++i) if (!used[static_cast<size_t>(i)]) { double v = S.con[q](row + i), a = S.clo(row + i), b = S.chi(row + i);
                    bool bl = std::isfinite(r.lb) ? same(a, r.lb, 1e-12) : a <= -inf / 2, bu = std::isfinite(r.ub) ? same(b, r.ub, 1e-12) : b >= inf / 2, va = same(v, r.v, tolv + 1e-9 * std::abs(r.v));
                    if (bl && bu && va) { used[static_cast<size_t>(i)] = true; found = true; }
                    else if ((bl && bu) || va) { if (near < 0 || std::abs(v - r.v) < near) { near = std::abs(v - r.v); closest = str(v) + " in [" + str(a) + ", " + str(b) + "]"; } } }
                if (!found) fail("constraint:" + r.kind, "at time " + str(M[k].t) + " no constraint of the problem is " + str(r.v) + " in [" + str(r.lb) + ", " + str(r.ub) + "], as required for " + r.kind + " (closest: " + closest + ")"); }
            row += nc;
        }
        if (row != S.m) fail("rows", "the problem has " + std::to_string(S.m) + " constraints, expected " + std::to_string(row));
    }
}
} // namespace planner
