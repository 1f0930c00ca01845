// Terms that involve the whole robot: kinematic constraints, body costs and the dynamics, with independent references.
// The references use iDynTree's own kinematics on the same model, configured from scratch for every question.
#pragma once
#include "points.h"
#include <iDynTree/Core/SpatialMomentum.h>
#include <DynamicalPlannerPrivate/Utilities/ExpressionsServer.h>
#include <DynamicalPlannerPrivate/Constraints/CentroidalMomentumConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/CoMPositionConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/ContactPositionConsistencyConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/DynamicalConstraints.h>
#include <DynamicalPlannerPrivate/Constraints/FeetLateralDistanceConstraint.h>
#include <DynamicalPlannerPrivate/Costs/CoMVelocityCost.h>
#include <DynamicalPlannerPrivate/Costs/FrameAngularVelocityCost.h>
#include <DynamicalPlannerPrivate/Costs/FrameOrientationCost.h>
#include <DynamicalPlannerPrivate/Costs/StaticTorquesCost.h>

namespace scene {
struct Rig {                                      // the services the terms of one problem share
    std::shared_ptr<DP::TimelySharedKinDynComputations> tk; std::shared_ptr<DP::ExpressionsServer> es;
};
struct Robot {
    Scene s; iDynTree::Model model; std::vector<double> timings; double mass = 0; long left = -1, right = -1, neck = -1;
    std::vector<iDynTree::Position> pl, pr;
    std::string base; V3 gravity = V3(0, 0, -9.81);   // the link whose pose the problem describes (empty: the model's own) and gravity
    Rig rig(bool server = true) const {
        Rig r; r.tk = std::make_shared<DP::TimelySharedKinDynComputations>();
        iDynTree::Vector3 gr; for (unsigned c = 0; c < 3; ++c) gr(c) = gravity(c);
        if (!r.tk->loadRobotModel(model) || (!base.empty() && !r.tk->setFloatingBase(base))) throw std::runtime_error("the kinematics service refused the model");
        r.tk->setGravity(gr); if (!r.tk->setTimings(timings)) throw std::runtime_error("the kinematics service refused the model");
        if (server) r.es = std::make_shared<DP::ExpressionsServer>(r.tk);
        return r;
    }
};
inline Robot genRobot(Gen& g, unsigned maxJoints, long maxPoints = 4) {
    Robot r; unsigned n = static_cast<unsigned>(g.integer(2, static_cast<int>(maxJoints)));
    r.model = models::genTree(g, n); r.left = r.model.getFrameIndex("l_sole"); r.right = r.model.getFrameIndex("r_sole"); r.neck = r.model.getFrameIndex("neck_2");
    // the two feet are different bodies
    if (r.model.getFrameLink(r.left) == r.model.getFrameLink(r.right)) throw pbt::Discard{};
    r.s = makeScene(g.integer(1, static_cast<int>(maxPoints)), g.integer(1, static_cast<int>(maxPoints)), static_cast<long>(n));
    for (long i = 0; i < r.s.nLeft; ++i) r.pl.push_back(models::genPosition(g, 0.15)); for (long i = 0; i < r.s.nRight; ++i) r.pr.push_back(models::genPosition(g, 0.15));
    for (size_t l = 0; l < r.model.getNrOfLinks(); ++l) r.mass += r.model.getLink(static_cast<iDynTree::LinkIndex>(l))->getInertia().getMass();
    if (g.chance(35)) { r.base = r.model.getLinkName(static_cast<int>(g.below(r.model.getNrOfLinks()))); g.classify("chosen base"); }
    if (g.chance(35)) { r.gravity = g.boolean() ? V3(0, 0, g.real(-20, 2)) : V3(g.real(-5, 5), g.real(-5, 5), g.real(-12, 3)); g.classify("chosen gravity"); }
    r.timings = g.boolean() ? std::vector<double>{0.0, 1.0} : std::vector<double>{0.0, 0.4, 1.0, 2.5};
    return r;
}
inline M3 skewM(const V3& v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
inline V3 veeM(const M3& m) { return V3(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1)) * 0.5; }
inline M3 quatR(V4 q) { q.normalize(); M3 S = skewM(q.tail<3>()); return M3::Identity() + 2 * q(0) * S + 2 * S * S; }
inline iDynTree::Rotation toRot(const M3& R) { iDynTree::Rotation o; iDynTree::toEigen(o) = R; return o; }
inline V4 rotQuat(const M3& R) { Eigen::Quaterniond q(R); V4 v(q.w(), q.x(), q.y(), q.z()); return v(0) < 0 ? V4(-v) : v; }

// the robot, seen by plain iDynTree, at a point of the problem
struct Ref {
    iDynTree::KinDynComputations k; V3 p; M3 R; V3 vb, wb;
    Ref(const Robot& r, const VX& x, const VX& u) {
        k.loadRobotModel(r.model); if (!r.base.empty() && !k.setFloatingBase(r.base)) throw std::runtime_error("the reference refused the base"); k.setFrameVelocityRepresentation(iDynTree::MIXED_REPRESENTATION);
        p = r.s.x.seg(x, "BasePosition"); V4 q = r.s.x.seg(x, "BaseQuaternion"), qd = r.s.u.seg(u, "BaseQuaternionDerivative"); R = quatR(q); q.normalize();
        V3 i = q.tail<3>(), id = qd.tail<3>(); wb = 2 * (q(0) * id - qd(0) * i - i.cross(id)); vb = r.s.u.seg(u, "BaseLinearVelocity");
        V3 v = R * vb, w = R * wb; iDynTree::Twist t; for (unsigned c = 0; c < 3; ++c) { t.getLinearVec3()(c) = v(c); t.getAngularVec3()(c) = w(c); }
        iDynTree::Vector3 gr; for (unsigned c = 0; c < 3; ++c) gr(c) = r.gravity(c);
        if (!k.setRobotState(iDynTree::Transform(toRot(R), iDynTree::Position(p(0), p(1), p(2))), dyn(r.s.x.seg(x, "JointsPosition")), t, dyn(r.s.u.seg(u, "JointsVelocity")), gr)) throw std::runtime_error("the reference refused the state");
    }
    V3 com() { return iDynTree::toEigen(k.getCenterOfMassPosition()); }
    M3 rot(long f) { return iDynTree::toEigen(k.getWorldTransform(static_cast<iDynTree::FrameIndex>(f)).getRotation()); }
    V3 pos(long f, const V3& in = V3::Zero()) { return V3(iDynTree::toEigen(k.getWorldTransform(static_cast<iDynTree::FrameIndex>(f)).getPosition())) + rot(f) * in; }
    V3 angularMomentum() { auto m = k.getCentroidalTotalMomentum(); return iDynTree::toEigen(m.getAngularVec3()); }
    V3 omegaWorld(long f) { auto t = k.getFrameVel(static_cast<iDynTree::FrameIndex>(f)); return iDynTree::toEigen(t.getAngularVec3()); }
    // joint torques that hold the robot still against gravity and the forces at the contact points
    VX staticTorques(const Robot& r, const VX& x) {
        iDynTree::FreeFloatingGeneralizedTorques t(r.model); k.generalizedGravityForces(t); VX tau = eig(t.jointTorques()); long n = tau.size();
        for (std::string foot : {"Left", "Right"}) for (long i = 0; i < r.s.points(foot); ++i) {
            long f = foot == "Left" ? r.left : r.right; V3 in = iDynTree::toEigen((foot == "Left" ? r.pl : r.pr)[static_cast<size_t>(i)]); V3 force = r.s.x.seg(x, foot + "ForcePoint" + std::to_string(i));
            iDynTree::MatrixDynSize J(6, static_cast<unsigned>(6 + n)); k.getFrameFreeFloatingJacobian(static_cast<iDynTree::FrameIndex>(f), J); MX j = eig(J).rightCols(n); V3 lever = rot(f) * in;
            tau -= (j.topRows(3) - skewM(lever) * j.bottomRows(3)).transpose() * force;
        }
        return tau;
    }
};

struct BodyTerm { std::string kind; bool cost = false; long rows = 1; std::function<std::shared_ptr<Ops>(const Rig&)> make; std::function<VX(double, const VX&, const VX&)> ref; VX lb, ub; bool hessians = true; };
inline const std::vector<std::string>& bodyConstraintKinds() { static std::vector<std::string> v{"centroidal-momentum", "com-position", "contact-position", "feet-lateral-distance"}; return v; }
inline const std::vector<std::string>& bodyCostKinds() { static std::vector<std::string> v{"com-velocity", "frame-angular-velocity", "frame-orientation", "static-torques"}; return v; }

struct RotTV : public oc::TimeVaryingRotation {   // a desired rotation that turns about a fixed axis
    iDynTree::Rotation base, value; V3 axis; double rate; RotTV(const M3& b, const V3& a, double r) : base(toRot(b)), value(base), axis(a), rate(r) {}
    static M3 at(const M3& b, const V3& a, double r, double t) { return b * Eigen::AngleAxisd(r * t, a).toRotationMatrix(); }
    iDynTree::Rotation& get(double t, bool& ok) override { ok = true; value = toRot(at(iDynTree::toEigen(base), axis, rate, t)); return value; }
};
inline BodyTerm bodyTerm(Gen& g, const Robot& r, const std::string& kind) {
    BodyTerm T; T.kind = kind; const Scene& S = r.s; double tol = g.chance(40) ? 0.0 : g.logReal(1e-6, 1e-1); bool setTol = g.boolean(); double w = setTol ? tol / 2 : 0.0;
    auto con = [&](long rows) { T.rows = rows; T.lb = VX::Constant(rows, -w); T.ub = VX::Constant(rows, w); };
    g.desc << kind << " ";
    M3 Rd = iDynTree::toEigen(models::genRotation(g)); V3 ax(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)); if (ax.norm() < 0.1) ax = V3(0, 0, 1); ax.normalize(); double rate = g.chance(60) ? g.real(-1, 1) : 0.0;
    auto Rt = [=](double t) { return RotTV::at(Rd, ax, rate, t); };
    long f; switch (g.below(4)) { case 0: f = r.left; break; case 1: f = r.right; break; case 2: f = r.neck; break; default: f = static_cast<long>(g.below(r.model.getNrOfFrames())); }
    g.desc << "frame " << r.model.getFrameName(static_cast<int>(f)) << " ";
    if (kind == "centroidal-momentum") {
        con(3); T.make = [=](const Rig& R) { auto c = std::make_shared<DP::CentroidalMomentumConstraint>(S.x.lab, S.u.lab, R.tk, R.es); if (setTol) c->setEqualityTolerance(tol); return wrap(S, kind, 3, c); };
        T.ref = [=](double, const VX& x, const VX& u) { Ref R(r, x, u); return VX(R.angularMomentum() - V3(S.x.seg(x, "Momentum").tail(3))); };
    } else if (kind == "com-position") {
        con(3); T.make = [=](const Rig& R) { auto c = std::make_shared<DP::CoMPositionConstraint>(S.x.lab, S.u.lab, R.tk, R.es); if (setTol) c->setEqualityTolerance(tol); return wrap(S, kind, 3, c); };
        T.ref = [=](double, const VX& x, const VX& u) { Ref R(r, x, u); return VX(R.com() - V3(S.x.seg(x, "CoMPosition"))); };
    } else if (kind == "contact-position") {
        con(3); std::string foot = g.boolean() ? "Right" : "Left"; size_t i = g.below(static_cast<uint64_t>(S.points(foot))); long fr = foot == "Left" ? r.left : r.right; iDynTree::Position in = foot == "Left" ? r.pl[i] : r.pr[i];
        T.make = [=](const Rig& R) { auto c = std::make_shared<DP::ContactPositionConsistencyConstraint>(S.x.lab, S.u.lab, R.tk, R.es, static_cast<iDynTree::FrameIndex>(fr), foot, in, i); if (setTol) c->setEqualityTolerance(tol); return wrap(S, kind, 3, c); };
        T.ref = [=](double, const VX& x, const VX& u) { Ref R(r, x, u); return VX(R.pos(fr, iDynTree::toEigen(in)) - V3(S.x.seg(x, foot + "PositionPoint" + std::to_string(i)))); };
    } else if (kind == "feet-lateral-distance") {
        T.rows = 1; unsigned lat = static_cast<unsigned>(g.below(3)); double d = g.chance(30) ? -1.0 : g.real(0, 0.5); T.lb = vec({d < 0 ? 0.0 : d}); T.ub = vec({INF}); bool swap = g.boolean(); long a = swap ? r.left : r.right, b = swap ? r.right : r.left;
        T.make = [=](const Rig& R) { auto c = std::make_shared<DP::FeetLateralDistanceConstraint>(S.x.lab, S.u.lab, R.tk, R.es, lat, static_cast<iDynTree::FrameIndex>(a), static_cast<iDynTree::FrameIndex>(b)); if (d >= 0) c->setMinimumDistance(d); return wrap(S, kind, 1, c); };
        T.ref = [=](double, const VX& x, const VX& u) { Ref R(r, x, u); V3 q = R.rot(a).transpose() * (R.pos(b) - R.pos(a)); return vec({q(lat)}); };
    } else if (kind == "com-velocity") {
        T.cost = true; TVVec v = genTVVec(g, 3, -1, 1); unsigned off = static_cast<unsigned>(S.x.off("Momentum"));
        T.make = [=](const Rig& R) { auto c = std::make_shared<DP::CoMVelocityCost>(S.x.lab, S.u.lab, off, R.tk); c->setLinearVelocityReference(v.ptr()); return wrap(S, kind, c); };
        T.ref = [=](double t, const VX& x, const VX&) { return vec({0.5 * (S.x.seg(x, "Momentum").head(3) - r.mass * v.at(t)).squaredNorm()}); };
    } else if (kind == "frame-angular-velocity") {
        T.cost = true; double gain = g.chance(20) ? 0.0 : g.logReal(1e-2, 20);
        T.make = [=](const Rig& R) { auto c = std::make_shared<DP::FrameAngularVelocityCost>(S.x.lab, S.u.lab, R.tk, R.es, static_cast<iDynTree::FrameIndex>(f), gain); if (!c->setDesiredRotationTrajectory(std::make_shared<RotTV>(Rd, ax, rate))) fail("refused-reference", "the rotation reference is refused"); return wrap(S, kind, c); };
        T.ref = [=](double t, const VX& x, const VX& u) { Ref R(r, x, u); V3 e = R.omegaWorld(f) + gain * veeM(R.rot(f) * Rt(t).transpose()); return vec({0.5 * e.squaredNorm()}); };
    } else if (kind == "frame-orientation") {
        T.cost = true; bool fixed = g.chance(25), weighted = g.boolean(); TVDouble wt = genTVDouble(g, 0, 10); M3 R0 = Rt(0);
        T.make = [=](const Rig& R) { auto c = std::make_shared<DP::FrameOrientationCost>(S.x.lab, S.u.lab, R.tk, R.es, static_cast<iDynTree::FrameIndex>(f)); if (fixed) c->setDesiredRotation(toRot(R0)); else if (!c->setDesiredRotationTrajectory(std::make_shared<RotTV>(Rd, ax, rate))) fail("refused-reference", "the rotation reference is refused"); if (weighted) c->setTimeVaryingWeight(wt.ptr()); return wrap(S, kind, c); };
        T.ref = [=](double t, const VX& x, const VX& u) { Ref R(r, x, u); M3 D = fixed ? R0 : Rt(t); double c = ((R.rot(f).transpose() * D).trace() - 1) / 2; c = std::min(1.0, std::max(-1.0, c)); double half = std::sqrt((1 + c) / 2); return vec({(weighted ? wt.at(t) : 1.0) * (1 - half)}); };   // half the squared distance of two unit quaternions is 1 - cos(angle/2)
    } else {
        T.cost = true; T.hessians = false; bool weighted = g.boolean(); VX W(S.joints); for (long i = 0; i < S.joints; ++i) W(i) = g.real(0, 2);
        T.make = [=](const Rig& R) { auto c = std::make_shared<DP::StaticTorquesCost>(S.x.lab, S.u.lab, R.tk, static_cast<iDynTree::FrameIndex>(r.left), static_cast<iDynTree::FrameIndex>(r.right), r.pl, r.pr); if (weighted && !c->setWeights(dyn(W))) fail("refused-weights", "the torque weights are refused"); return wrap(S, kind, c); };
        T.ref = [=](double, const VX& x, const VX& u) { Ref R(r, x, u); VX t = R.staticTorques(r, x); return vec({0.5 * (weighted ? VX(t.cwiseProduct(W)) : t).dot(t)}); };
    }
    return T;
}
inline BodyTerm bodyTerm(Gen& g, const Robot& r) { size_t a = bodyConstraintKinds().size(), k = g.below(a + bodyCostKinds().size()); std::string kind = k < a ? bodyConstraintKinds()[k] : bodyCostKinds()[k - a]; g.classify(kind); return bodyTerm(g, r, kind); }
inline Term asTerm(const BodyTerm& b, std::function<Rig()> rig) { Term T; T.kind = b.kind; T.cost = b.cost; T.rows = b.rows; T.ref = b.ref; T.lb = b.lb; T.ub = b.ub; T.hessians = b.hessians; auto mk = b.make; long n = b.rows; T.make = [mk, rig, n] { auto o = mk(rig()); o->rows = n; o->reset(); return o; }; return T; }
inline Again reconfigureBody(Gen& g, const Robot& r, Ops& o) {
    M3 Rd = iDynTree::toEigen(models::genRotation(g)); V3 ax = V3(g.real(-1, 1), g.real(-1, 1), 0.5).normalized(); double rate = g.real(-1, 1);
    if (dynamic_cast<DP::FrameOrientationCost*>(o.k.get())) {
        switch (g.below(3)) {
        case 0: return [=](Ops& q) { static_cast<DP::FrameOrientationCost&>(*q.k).setDesiredRotation(toRot(Rd)); };
        case 1: return [=](Ops& q) { if (!static_cast<DP::FrameOrientationCost&>(*q.k).setDesiredRotationTrajectory(std::make_shared<RotTV>(Rd, ax, rate))) fail("refused-reference", "the rotation reference is refused"); };
        default: { TVDouble w = genTVDouble(g, 0, 10); return [=](Ops& q) { static_cast<DP::FrameOrientationCost&>(*q.k).setTimeVaryingWeight(w.ptr()); }; } } }
    if (dynamic_cast<DP::FrameAngularVelocityCost*>(o.k.get())) return [=](Ops& q) { if (!static_cast<DP::FrameAngularVelocityCost&>(*q.k).setDesiredRotationTrajectory(std::make_shared<RotTV>(Rd, ax, rate))) fail("refused-reference", "the rotation reference is refused"); };
    if (dynamic_cast<DP::StaticTorquesCost*>(o.k.get())) { VX W(r.s.joints); for (long i = 0; i < W.size(); ++i) W(i) = g.real(0, 2); return [=](Ops& q) { if (!static_cast<DP::StaticTorquesCost&>(*q.k).setWeights(dyn(W))) fail("refused-weights", "the torque weights are refused"); }; }
    if (dynamic_cast<DP::CoMVelocityCost*>(o.k.get())) { TVVec v = genTVVec(g, 3, -1, 1); return [=](Ops& q) { static_cast<DP::CoMVelocityCost&>(*q.k).setLinearVelocityReference(v.ptr()); }; }
    if (dynamic_cast<DP::FeetLateralDistanceConstraint*>(o.c.get())) { double d = g.real(0, 0.5); return [=](Ops& q) { static_cast<DP::FeetLateralDistanceConstraint&>(*q.c).setMinimumDistance(d); }; }
    double tol = g.chance(40) ? 0.0 : g.logReal(1e-6, 1e-1);
    if (dynamic_cast<DP::CentroidalMomentumConstraint*>(o.c.get())) return [=](Ops& q) { static_cast<DP::CentroidalMomentumConstraint&>(*q.c).setEqualityTolerance(tol); };
    if (dynamic_cast<DP::CoMPositionConstraint*>(o.c.get())) return [=](Ops& q) { static_cast<DP::CoMPositionConstraint&>(*q.c).setEqualityTolerance(tol); };
    if (dynamic_cast<DP::ContactPositionConsistencyConstraint*>(o.c.get())) return [=](Ops& q) { static_cast<DP::ContactPositionConsistencyConstraint&>(*q.c).setEqualityTolerance(tol); };
    return nullptr;
}
inline double genTime(Gen& g) { return g.chance(30) ? static_cast<double>(g.below(3)) : g.real(0, 3); }
} // namespace scene
