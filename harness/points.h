// Constraints and costs that act on the contact points, the quaternion and the joints directly, with independent references.
#pragma once
#include "scene.h"
#include <DynamicalPlannerPrivate/Constraints/ClassicalComplementarityConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/ClassicalPlanarComplementarityConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/ContactForceControlConstraints.h>
#include <DynamicalPlannerPrivate/Constraints/ContactFrictionConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/DynamicalComplementarityConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/FeetRelativeHeightConstraint.h>
#include <DynamicalPlannerPrivate/Constraints/NormalVelocityControlConstraints.h>
#include <DynamicalPlannerPrivate/Constraints/PlanarVelocityControlConstraints.h>
#include <DynamicalPlannerPrivate/Constraints/QuaternionNormConstraint.h>
#include <DynamicalPlannerPrivate/Costs/ComplementarityCost.h>
#include <DynamicalPlannerPrivate/Costs/FeetDistanceCost.h>
#include <DynamicalPlannerPrivate/Costs/FootYawCost.h>
#include <DynamicalPlannerPrivate/Costs/ForceMeanCost.h>
#include <DynamicalPlannerPrivate/Costs/ForceRatioCost.h>
#include <DynamicalPlannerPrivate/Costs/JointsVelocityForPosturalCost.h>
#include <DynamicalPlannerPrivate/Costs/MeanPointPositionCost.h>
#include <DynamicalPlannerPrivate/Costs/PhantomForcesCost.h>
#include <DynamicalPlannerPrivate/Costs/SwingCost.h>

namespace scene {
namespace DP = DynamicalPlanner::Private;
static const double INF = std::numeric_limits<double>::infinity();
inline DP::HyperbolicTangent htan(double k) { DP::HyperbolicTangent h; h.setScaling(k); return h; }
inline DP::HyperbolicSecant hsec(double k) { DP::HyperbolicSecant h; h.setScaling(k); return h; }
inline VX vec(std::initializer_list<double> l) { VX v(static_cast<long>(l.size())); long i = 0; for (double d : l) v(i++) = d; return v; }
inline double genSharpness(Gen& g) { return g.chance(15) ? 0.0 : g.logReal(0.5, 200); }
inline double sech(double x) { return 1.0 / std::cosh(x); }

// one constraint on the points; picks the kind
inline const std::vector<std::string>& pointConstraintKinds() {
    static std::vector<std::string> v{"classical-complementarity", "classical-planar", "dynamical-complementarity", "force-control", "friction", "normal-velocity", "planar-velocity", "quaternion-norm", "relative-height"};
    return v;
}
inline Term pointConstraint(Gen& g, const Scene& s, const std::string& kind) {
    Term T; T.kind = kind; Scene S = s;
    std::string foot = g.boolean() ? "Right" : "Left"; long idx = static_cast<long>(g.below(static_cast<uint64_t>(s.points(foot)))); size_t ci = static_cast<size_t>(idx);
    std::string k = std::to_string(idx);
    std::string F = foot + "ForcePoint" + k, P = foot + "PositionPoint" + k, V = foot + "VelocityControlPoint" + k, U = foot + "ForceControlPoint" + k;
    g.desc << kind << " " << foot << k << " ";
    auto mk = [S, kind](long rows, std::function<std::shared_ptr<oc::Constraint>()> f) { return [S, kind, rows, f]() { return wrap(S, kind, rows, f()); }; };
    if (kind == "classical-complementarity") {
        double tol = g.logReal(1e-4, 1); T.lb = vec({-INF}); T.ub = vec({tol});
        T.make = mk(1, [=] { return std::make_shared<DP::ClassicalComplementarityConstraint>(S.x.lab, S.u.lab, foot, ci, tol); });
        T.ref = [=](double, const VX& x, const VX&) { return vec({S.x.seg(x, P)(2) * S.x.seg(x, F)(2)}); };
    } else if (kind == "classical-planar") {
        double tol = g.logReal(1e-4, 1); T.rows = 2; T.lb = vec({-tol, -tol}); T.ub = vec({tol, tol});
        T.make = mk(2, [=] { return std::make_shared<DP::ClassicalPlanarComplementarityConstraint>(S.x.lab, S.u.lab, foot, ci, tol); });
        T.ref = [=](double, const VX& x, const VX& u) { return VX(S.u.seg(u, V).head(2) * S.x.seg(x, F)(2)); };
    } else if (kind == "dynamical-complementarity") {
        double gain = g.logReal(0.1, 50), ub = g.logReal(1e-4, 1); T.lb = vec({-INF}); T.ub = vec({ub});
        T.make = mk(1, [=] { return std::make_shared<DP::DynamicalComplementarityConstraint>(S.x.lab, S.u.lab, foot, ci, gain, ub); });
        T.ref = [=](double, const VX& x, const VX& u) { double f = S.x.seg(x, F)(2), p = S.x.seg(x, P)(2); return vec({S.u.seg(u, U)(2) * p + f * S.u.seg(u, V)(2) + gain * f * p}); };
    } else if (kind == "force-control") {
        double K = genSharpness(g), mx = g.logReal(1, 500), ds = g.logReal(0.1, 100); T.lb = vec({-INF}); T.ub = vec({0});
        T.make = mk(1, [=] { return std::make_shared<DP::ContactForceControlConstraints>(S.x.lab, S.u.lab, foot, ci, hsec(K), mx, ds); });
        T.ref = [=](double, const VX& x, const VX& u) { double d = sech(K * S.x.seg(x, P)(2)); return vec({S.u.seg(u, U)(2) - d * mx + (1 - d) * ds * S.x.seg(x, F)(2)}); };
    } else if (kind == "friction") {
        double mu = g.logReal(0.05, 2); T.lb = vec({-INF}); T.ub = vec({0});
        T.make = mk(1, [=] { auto c = std::make_shared<DP::ContactFrictionConstraint>(S.x.lab, S.u.lab, foot, ci); if (!c->setFrictionCoefficient(mu)) fail("friction-coefficient", "a valid friction coefficient is refused"); return c; });
        T.ref = [=](double, const VX& x, const VX&) { V3 f = S.x.seg(x, F); return vec({f(0) * f(0) + f(1) * f(1) - mu * mu * f(2) * f(2)}); };
    } else if (kind == "normal-velocity") {
        double K = genSharpness(g), mx = g.logReal(0.05, 20); T.rows = 2; T.lb = vec({0, 0}); T.ub = vec({INF, INF});
        T.make = mk(2, [=] { return std::make_shared<DP::NormalVelocityControlConstraints>(S.x.lab, S.u.lab, foot, ci, htan(K), mx); });
        T.ref = [=](double, const VX& x, const VX& u) { double d = std::tanh(K * S.x.seg(x, P)(2)), v = S.u.seg(u, V)(2); return vec({mx - v, v + d * mx}); };
    } else if (kind == "planar-velocity") {
        double K = genSharpness(g), mx = g.logReal(0.05, 20), my = g.chance(20) ? mx : g.logReal(0.05, 20); T.rows = 4; T.lb = VX::Zero(4); T.ub = VX::Constant(4, INF);
        T.make = mk(4, [=] { return std::make_shared<DP::PlanarVelocityControlConstraints>(S.x.lab, S.u.lab, foot, ci, htan(K), mx, my); });
        T.ref = [=](double, const VX& x, const VX& u) { double d = std::tanh(K * S.x.seg(x, P)(2)); VX v = S.u.seg(u, V); return vec({d * mx - v(0), d * my - v(1), v(0) + d * mx, v(1) + d * my}); };
    } else if (kind == "quaternion-norm") {
        double tol = g.chance(40) ? 0.0 : g.logReal(1e-6, 1); T.lb = vec({-tol / 2}); T.ub = vec({tol / 2});
        T.make = mk(1, [=] { auto c = std::make_shared<DP::QuaternionNormConstraint>(S.x.lab, S.u.lab); c->setEqualityTolerance(tol); return c; });
        T.ref = [=](double, const VX& x, const VX&) { return vec({S.x.seg(x, "BaseQuaternion").squaredNorm() - 1}); };
    } else {
        double mx = g.logReal(1e-3, 1); T.lb = vec({-mx}); T.ub = vec({mx});
        T.make = mk(1, [=] { return std::make_shared<DP::FeetRelativeHeightConstraint>(S.x.lab, S.u.lab, mx); });
        T.ref = [=](double, const VX& x, const VX&) { double h[2] = {0, 0}; int f = 0; for (std::string ft : {"Left", "Right"}) { for (long i = 0; i < S.points(ft); ++i) h[f] += S.x.seg(x, ft + "PositionPoint" + std::to_string(i))(2); h[f] /= static_cast<double>(S.points(ft)); ++f; } return vec({h[0] - h[1]}); };
    }
    return T;
}

inline const std::vector<std::string>& pointCostKinds() {
    static std::vector<std::string> v{"complementarity-cost", "feet-distance", "foot-yaw", "force-mean", "force-ratio", "postural-velocity", "mean-point-position", "phantom-forces", "swing"};
    return v;
}
// a rectangular foot, turned by yaw in its own frame, whose corners sit in four different quadrants around its centre
struct YawFoot { std::vector<iDynTree::Position> pts; double L, W, yaw; V3 centre; };
inline YawFoot genYawFoot(Gen& g) {
    YawFoot f; f.L = g.real(0.1, 0.3); f.W = g.real(0.05, 0.2); double lim = 0.9 * std::min(std::atan2(f.W, f.L), std::atan2(f.L, f.W));
    f.yaw = g.chance(40) ? 0.0 : g.real(-lim, lim); f.centre = V3(g.real(-0.1, 0.1), g.real(-0.1, 0.1), g.real(-0.05, 0.05));
    std::vector<std::pair<double, double>> c{{1, 1}, {1, -1}, {-1, 1}, {-1, -1}};
    for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[g.below(i)]);       // any order of the corners
    for (auto& k : c) { double X = k.first * f.L / 2, Y = k.second * f.W / 2; f.pts.push_back(iDynTree::Position(f.centre(0) + std::cos(f.yaw) * X - std::sin(f.yaw) * Y, f.centre(1) + std::sin(f.yaw) * X + std::cos(f.yaw) * Y, f.centre(2))); }
    return f;
}
inline Term pointCost(Gen& g, const Scene& s, const std::string& kind) {
    Term T; T.kind = kind; T.cost = true; Scene S = s;
    std::string foot = g.boolean() ? "Right" : "Left"; long idx = static_cast<long>(g.below(static_cast<uint64_t>(s.points(foot)))); size_t ci = static_cast<size_t>(idx); long np = s.points(foot);
    std::string k = std::to_string(idx);
    std::string F = foot + "ForcePoint" + k, P = foot + "PositionPoint" + k, V = foot + "VelocityControlPoint" + k;
    g.desc << kind << " " << foot << k << " ";
    auto mk = [S, kind](std::function<std::shared_ptr<oc::Cost>()> f) { return [S, kind, f]() { return wrap(S, kind, f()); }; };
    auto sum = [S](const VX& x, const std::string& what, const std::string& ft) { V3 a = V3::Zero(); for (long i = 0; i < S.points(ft); ++i) a += V3(S.x.seg(x, ft + what + std::to_string(i))); return a; };
    if (kind == "complementarity-cost") {
        T.make = mk([=] { return std::make_shared<DP::ComplementarityCost>(S.x.lab, S.u.lab, foot, ci); });
        T.ref = [=](double, const VX& x, const VX& u) { double a = S.x.seg(x, F)(2) * S.u.seg(u, V)(2); return vec({0.5 * a * a}); };
    } else if (kind == "feet-distance") {
        T.make = mk([=] { return std::make_shared<DP::FeetDistanceCost>(S.x.lab, S.u.lab); });
        T.ref = [=](double, const VX& x, const VX&) { V3 d = sum(x, "PositionPoint", "Left") / static_cast<double>(S.nLeft) - sum(x, "PositionPoint", "Right") / static_cast<double>(S.nRight); return vec({0.5 * d.squaredNorm()}); };
    } else if (kind == "foot-yaw") {
        if (np < 4) throw pbt::Discard{};
        YawFoot f = genYawFoot(g); auto pts = f.pts; bool def = g.chance(15); TVDouble yaw = genTVDouble(g, -3, 3); if (def) yaw = TVDouble{0, 0};
        // the corners the cost looks at, told apart by the quadrant around the centre of the foot
        long tr = -1, tl = -1, br = -1; for (long i = 0; i < 4; ++i) { double X = pts[static_cast<size_t>(i)](0) - f.centre(0), Y = pts[static_cast<size_t>(i)](1) - f.centre(1); if (X > 0 && Y > 0) tl = i; else if (X > 0) tr = i; else if (Y < 0) br = i; }
        double y0 = f.yaw;
        T.make = mk([=] { auto c = std::make_shared<DP::FootYawCost>(S.x.lab, foot, pts); if (!def) c->setDesiredYawTrajectory(yaw.ptr()); return c; });
        T.ref = [=](double t, const VX& x, const VX&) { double a = yaw.at(t) + y0; auto pt = [&](long i) { return V3(S.x.seg(x, foot + "PositionPoint" + std::to_string(i))); };
            V3 e = pt(tr) - pt(br), l = pt(tl) - pt(tr); double e1 = e(1) * std::cos(a) - e(0) * std::sin(a), e2 = l(0) * std::cos(a) + l(1) * std::sin(a); return vec({0.5 * e1 * e1 + 0.5 * e2 * e2}); };
    } else if (kind == "force-mean") {
        T.make = mk([=] { return std::make_shared<DP::ForceMeanCost>(S.x.lab, S.u.lab, foot, ci); });
        T.ref = [=](double, const VX& x, const VX&) { V3 d = V3(S.x.seg(x, F)) - sum(x, "ForcePoint", foot) / static_cast<double>(np); return vec({0.5 * d.head<2>().squaredNorm()}); };
    } else if (kind == "force-ratio") {
        bool def = g.chance(30); double r = def ? 1.0 / static_cast<double>(np) : g.real(0, 1);
        T.make = mk([=] { auto c = std::make_shared<DP::ForceRatioCost>(S.x.lab, S.u.lab, foot, ci); if (!def) c->setDesiredRatio(r); return c; });
        T.ref = [=](double, const VX& x, const VX&) { double d = S.x.seg(x, F)(2) - r * sum(x, "ForcePoint", foot)(2); return vec({0.5 * d * d}); };
    } else if (kind == "postural-velocity") {
        long n = s.joints; VX w(n), k2(n); for (long i = 0; i < n; ++i) { w(i) = g.chance(15) ? 0.0 : g.logReal(0.1, 10); k2(i) = g.chance(15) ? 0.0 : g.real(0.1, 20); } TVVec q = genTVVec(g, n, -2, 2);
        T.make = mk([=] { return std::make_shared<DP::JointsVelocityForPosturalCost>(S.x.lab, S.u.lab, dyn(w), dyn(k2), q.ptr()); });
        T.ref = [=](double t, const VX& x, const VX& u) { VX e = S.x.seg(x, "JointsPosition") - q.at(t), v = S.u.seg(u, "JointsVelocity"); double c = 0; for (long i = 0; i < n; ++i) { double a = w(i) * (v(i) + k2(i) * e(i)); c += 0.5 * a * a; } return vec({c}); };
    } else if (kind == "mean-point-position") {
        TVVec p = genTVVec(g, 3, -1, 1), w = genTVVec(g, 3, 0, 5); w.b = w.b.cwiseAbs(); bool dw = g.chance(30), dp = g.chance(15); if (dw) { w.a = V3::Ones(); w.b = V3::Zero(); } if (dp) { p.a = V3::Zero(); p.b = V3::Zero(); }
        T.make = mk([=] { auto c = std::make_shared<DP::MeanPointPositionCost>(S.x.lab, S.u.lab); if (!dp && !c->setDesiredPositionTrajectory(p.pos())) fail("trajectory", "a position trajectory is refused"); if (!dw) c->setTimeVaryingWeight(w.ptr()); return c; });
        T.ref = [=](double t, const VX& x, const VX&) { V3 d = (sum(x, "PositionPoint", "Left") + sum(x, "PositionPoint", "Right")) / static_cast<double>(S.nLeft + S.nRight) - V3(p.at(t)); V3 W = w.at(t); return vec({0.5 * d.dot(W.asDiagonal() * d)}); };
    } else if (kind == "phantom-forces") {
        double K = genSharpness(g);
        T.make = mk([=] { return std::make_shared<DP::PhantomForcesCost>(S.x.lab, S.u.lab, foot, ci, hsec(K)); });
        T.ref = [=](double, const VX& x, const VX&) { double a = (1 - sech(K * S.x.seg(x, P)(2))) * S.x.seg(x, F)(2); return vec({0.5 * a * a}); };
    } else {
        double h = g.real(0, 0.2); iDynTree::Vector3 w; for (unsigned i = 0; i < 3; ++i) w(i) = g.chance(15) ? 0.0 : g.logReal(0.1, 10);
        T.make = mk([=] { return std::make_shared<DP::SwingCost>(S.x.lab, S.u.lab, foot, ci, h, w); });
        T.ref = [=](double, const VX& x, const VX& u) { double e = S.x.seg(x, P)(2) - h, c = 0; VX v = S.u.seg(u, V); for (unsigned i = 0; i < 3; ++i) c += 0.5 * w(i) * (v(i) * e) * (v(i) * e); return vec({c}); };
    }
    return T;
}
// another configuration for a term that was built already: the same call goes to the term in use and to fresh ones
using Again = std::function<void(Ops&)>;
inline Again reconfigurePoint(Gen& g, Ops& o) {
    if (dynamic_cast<DP::ContactFrictionConstraint*>(o.c.get())) { double mu = g.logReal(0.05, 2); return [mu](Ops& q) { if (!static_cast<DP::ContactFrictionConstraint&>(*q.c).setFrictionCoefficient(mu)) fail("friction-coefficient", "a valid friction coefficient is refused"); }; }
    if (dynamic_cast<DP::QuaternionNormConstraint*>(o.c.get())) { double tol = g.chance(40) ? 0.0 : g.logReal(1e-6, 1); return [tol](Ops& q) { static_cast<DP::QuaternionNormConstraint&>(*q.c).setEqualityTolerance(tol); }; }
    if (dynamic_cast<DP::ForceRatioCost*>(o.k.get())) { double r = g.real(0, 1); return [r](Ops& q) { static_cast<DP::ForceRatioCost&>(*q.k).setDesiredRatio(r); }; }
    if (dynamic_cast<DP::FootYawCost*>(o.k.get())) { TVDouble y = genTVDouble(g, -3, 3); return [y](Ops& q) { static_cast<DP::FootYawCost&>(*q.k).setDesiredYawTrajectory(y.ptr()); }; }
    if (dynamic_cast<DP::MeanPointPositionCost*>(o.k.get())) {
        if (g.boolean()) { TVVec v = genTVVec(g, 3, -1, 1); return [v](Ops& q) { if (!static_cast<DP::MeanPointPositionCost&>(*q.k).setDesiredPositionTrajectory(v.pos())) fail("trajectory", "a position trajectory is refused"); }; }
        TVVec w = genTVVec(g, 3, 0, 5); w.b = w.b.cwiseAbs(); return [w](Ops& q) { static_cast<DP::MeanPointPositionCost&>(*q.k).setTimeVaryingWeight(w.ptr()); }; }
    return nullptr;
}
// applies it to both, and from now on to every fresh term
inline void applyAgain(Gen& g, Term& T, Ops& used, const Again& a) {
    if (!a) return; g.desc << "reconfigure " << T.kind << "; "; g.classify("reconfigured"); a(used); auto mk = T.make; T.make = [mk, a] { auto o = mk(); a(*o); return o; };
    if (used.c) { auto f = T.make(); for (bool lower : {true, false}) { iDynTree::VectorDynSize p(static_cast<unsigned>(T.rows)), q(static_cast<unsigned>(T.rows)); bool hp = lower ? used.c->getLowerBound(p) : used.c->getUpperBound(p), hq = lower ? f->c->getLowerBound(q) : f->c->getUpperBound(q);
        if (hp != hq || (hp && (eig(p) - eig(q)).norm() > 0)) fail("bounds:" + T.kind, "the bounds of " + T.kind + " depend on what was evaluated before"); } }
}
} // namespace scene
