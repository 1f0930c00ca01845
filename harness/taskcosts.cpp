// C05: the task costs on points and joints.
#include "points.h"
using namespace scene; using pbt::Suite; using pbt::Runner;

static Scene genScene(Gen& g, bool four = false) { return four ? makeScene(4, 4, g.integer(1, 4)) : makeScene(genPoints(g), genPoints(g), g.integer(1, 6)); }
static void valueCase(Gen& g) {
    std::string kind = g.pick(pointCostKinds()); Scene s = genScene(g, kind == "foot-yaw"); Term T = pointCost(g, s, kind);
    auto op = T.make(); VX x, u; genPoint(g, s, x, u); g.nontrivial(); g.classify(kind);
    int n = static_cast<int>(g.integer(1, 4));
    for (int i = 0; i < n; ++i) {
        double t = g.real(0, 5); double v = op->value(t, x, u)(0), r = T.ref(t, x, u)(0), sc = 1 + std::abs(r) + 1e-4 * (norm1(x) * norm1(x) + norm1(u) * norm1(u));
        if (!(std::abs(v - r) <= 1e-9 * sc)) fail("value:" + kind, kind + " is " + str(v) + ", expected " + str(r));
        if (v < 0) fail("negative:" + kind, kind + " is negative: " + str(v));
        movePoint(g, s, x, u);
    }
}
static void put(VX& v, long at, const V3& p) { v.segment(at, 3) = p; }
// what the costs ask for, told from the task alone: they vanish when the task is fulfilled and grow with the known error
static void meaningCase(Gen& g) {
    Scene s = genScene(g, true); VX x, u; genPoint(g, s, x, u); g.nontrivial(); double t = g.real(0, 5);
    std::string foot = g.boolean() ? "Right" : "Left";
    auto cost = [&](std::shared_ptr<oc::Cost> c) { Ops o("meaning", 1, s.x.n, s.u.n); o.k = c; return o.value(t, x, u)(0); };
    auto expect = [&](const std::string& what, double got, double want, double scale) { if (!(std::abs(got - want) <= 1e-8 * (1 + std::abs(want) + scale))) fail("meaning:" + what, what + " costs " + str(got) + ", expected " + str(want)); };
    switch (g.below(6)) {
    case 0: {   // a rectangular foot lying at a given yaw: half the squared diagonal times the squared sine of the error
        YawFoot f = genYawFoot(g); TVDouble yaw = genTVDouble(g, -3, 3); double err = g.chance(30) ? 0.0 : g.real(-3, 3), a = yaw.at(t) + err; V3 p(g.real(-1, 1), g.real(-1, 1), g.real(0, 0.1)); M3 R = Eigen::AngleAxisd(a, V3::UnitZ()).toRotationMatrix();
        for (long i = 0; i < 4; ++i) put(x, s.x.off(foot + "PositionPoint" + std::to_string(i)), p + R * iDynTree::toEigen(f.pts[static_cast<size_t>(i)]));
        auto c = std::make_shared<DP::FootYawCost>(s.x.lab, foot, f.pts); c->setDesiredYawTrajectory(yaw.ptr());
        g.desc << "yaw of the foot in its frame " << f.yaw << " desired " << yaw.at(t) << " actual " << a << " ";
        expect("yaw", cost(c), 0.5 * (f.L * f.L + f.W * f.W) * std::sin(err) * std::sin(err), 0); break; }
    case 1: {   // equal loads on all points
        V3 f(g.real(-50, 50), g.real(-50, 50), g.real(0, 200)); for (long i = 0; i < 4; ++i) put(x, s.x.off(foot + "ForcePoint" + std::to_string(i)), f); size_t ci = g.below(4);
        expect("equal-forces", cost(std::make_shared<DP::ForceMeanCost>(s.x.lab, s.u.lab, foot, ci)), 0, 1e-3 * f.squaredNorm());
        expect("equal-loads", cost(std::make_shared<DP::ForceRatioCost>(s.x.lab, s.u.lab, foot, ci)), 0, 1e-3 * f.squaredNorm()); break; }
    case 2: {   // loads shared by given ratios
        std::vector<double> r(4); double sum = 0, tot = g.real(1, 500); for (auto& v : r) { v = g.real(0.01, 1); sum += v; } for (auto& v : r) v /= sum;
        for (long i = 0; i < 4; ++i) x(s.x.off(foot + "ForcePoint" + std::to_string(i)) + 2) = r[static_cast<size_t>(i)] * tot;
        size_t ci = g.below(4); double off = g.chance(30) ? 0 : g.real(-0.5, 0.5); auto c = std::make_shared<DP::ForceRatioCost>(s.x.lab, s.u.lab, foot, ci); c->setDesiredRatio(r[ci] + off);
        expect("load-ratio", cost(c), 0.5 * off * off * tot * tot, 1e-3 * tot * tot); break; }
    case 3: {   // both feet's centres, moved together and apart
        V3 d(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)), m(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)); std::vector<V3> pat; for (int i = 0; i < 4; ++i) pat.push_back(V3(g.real(-0.1, 0.1), g.real(-0.1, 0.1), g.real(-0.1, 0.1)));
        for (long i = 0; i < 4; ++i) { put(x, s.x.off("LeftPositionPoint" + std::to_string(i)), m + 0.5 * d + pat[static_cast<size_t>(i)]); put(x, s.x.off("RightPositionPoint" + std::to_string(i)), m - 0.5 * d + pat[static_cast<size_t>(3 - i)]); }
        expect("feet-distance", cost(std::make_shared<DP::FeetDistanceCost>(s.x.lab, s.u.lab)), 0.5 * d.squaredNorm(), 0);
        V3 mean = m; for (auto& p : pat) mean += p / 4.0; V3 e(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)), w(g.real(0, 3), g.real(0, 3), g.real(0, 3)); TVVec des; des.b = V3(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)); des.a = mean - e - des.b * t; TVVec W; W.a = w; W.b = V3::Zero();
        auto c = std::make_shared<DP::MeanPointPositionCost>(s.x.lab, s.u.lab); c->setDesiredPositionTrajectory(des.pos()); c->setTimeVaryingWeight(W.ptr());
        expect("mean-position", cost(c), 0.5 * e.dot(w.asDiagonal() * e), 0); break; }
    case 4: {   // joints moving towards the posture at the requested rate
        long n = s.joints; VX w(n), k(n), e(n); for (long i = 0; i < n; ++i) { w(i) = g.logReal(0.1, 5); k(i) = g.real(0, 10); e(i) = g.chance(40) ? 0 : g.real(-1, 1); } TVVec q = genTVVec(g, n, -2, 2);
        u.segment(s.u.off("JointsVelocity"), n) = -(k.array() * (s.x.seg(x, "JointsPosition") - q.at(t)).array()).matrix() + e;
        expect("posture", cost(std::make_shared<DP::JointsVelocityForPosturalCost>(s.x.lab, s.u.lab, dyn(w), dyn(k), q.ptr())), 0.5 * (w.array() * e.array()).square().sum(), 1e-2); break; }
    default: {  // a point at the swing height may move freely; an unloaded or a still point has no complementarity cost; a force on the ground is no phantom
        size_t ci = g.below(4); std::string k = std::to_string(ci); double h = g.real(0, 0.2), K = g.logReal(1, 100); iDynTree::Vector3 w; for (unsigned i = 0; i < 3; ++i) w(i) = g.logReal(0.1, 10);
        x(s.x.off(foot + "PositionPoint" + k) + 2) = h; expect("swing", cost(std::make_shared<DP::SwingCost>(s.x.lab, s.u.lab, foot, ci, h, w)), 0, 0);
        x(s.x.off(foot + "PositionPoint" + k) + 2) = 0; expect("no-phantom", cost(std::make_shared<DP::PhantomForcesCost>(s.x.lab, s.u.lab, foot, ci, hsec(K))), 0, 0);
        double fz = x(s.x.off(foot + "ForcePoint" + k) + 2); x(s.x.off(foot + "PositionPoint" + k) + 2) = 30.0 / K; expect("phantom", cost(std::make_shared<DP::PhantomForcesCost>(s.x.lab, s.u.lab, foot, ci, hsec(K))), 0.5 * fz * fz, 0);
        (g.boolean() ? x(s.x.off(foot + "ForcePoint" + k) + 2) : u(s.u.off(foot + "VelocityControlPoint" + k) + 2)) = 0; expect("complementarity", cost(std::make_shared<DP::ComplementarityCost>(s.x.lab, s.u.lab, foot, ci)), 0, 0); }
    }
}
// references set again later are the ones that count
static void referenceCase(Gen& g) {
    Scene s = genScene(g, true); VX x, u; genPoint(g, s, x, u); g.nontrivial(); std::string foot = g.boolean() ? "Right" : "Left"; size_t ci = g.below(4);
    DP::MeanPointPositionCost m(s.x.lab, s.u.lab); DP::ForceRatioCost r(s.x.lab, s.u.lab, foot, ci); YawFoot f = genYawFoot(g); DP::FootYawCost y(s.x.lab, foot, f.pts);
    TVVec p, w; p.a = p.b = V3::Zero(); w.a = V3::Ones(); w.b = V3::Zero(); double ratio = 0.25; TVDouble yaw{0, 0};
    V3 mean = V3::Zero(); double sum = 0; for (std::string ft : {"Left", "Right"}) for (int i = 0; i < 4; ++i) mean += V3(s.x.seg(x, ft + "PositionPoint" + std::to_string(i))) / 8; for (int i = 0; i < 4; ++i) sum += s.x.seg(x, foot + "ForcePoint" + std::to_string(i))(2);
    auto cost = [&](oc::Cost& c, double t) { Ops o("reference", 1, s.x.n, s.u.n); o.k = std::shared_ptr<oc::Cost>(&c, [](oc::Cost*) {}); return o.value(t, x, u)(0); };
    int n = static_cast<int>(g.integer(1, 6));
    for (int i = 0; i < n; ++i) {
        switch (g.below(5)) {
        case 0: p = genTVVec(g, 3, -1, 1); if (!m.setDesiredPositionTrajectory(p.pos())) fail("trajectory", "refused"); break;
        case 1: if (m.setDesiredPositionTrajectory(nullptr)) fail("null-trajectory", "a missing trajectory is accepted"); break;
        case 2: w = genTVVec(g, 3, 0, 3); m.setTimeVaryingWeight(w.ptr()); break;
        case 3: ratio = g.real(0, 1); r.setDesiredRatio(ratio); break;
        default: yaw = genTVDouble(g, -3, 3); y.setDesiredYawTrajectory(yaw.ptr()); break;
        }
        double t = g.real(0, 5); V3 d = mean - V3(p.at(t)), W = w.at(t); double e = s.x.seg(x, foot + "ForcePoint" + std::to_string(ci))(2) - ratio * sum;
        closeTo("reference:mean", MX::Constant(1, 1, cost(m, t)), MX::Constant(1, 1, 0.5 * d.dot(W.asDiagonal() * d)), 1e-9, "mean point cost after its references changed");
        closeTo("reference:ratio", MX::Constant(1, 1, cost(r, t)), MX::Constant(1, 1, 0.5 * e * e), 1e-8, "force ratio cost after its reference changed");
        VX xo = x; M3 R = Eigen::AngleAxisd(yaw.at(t), V3::UnitZ()).toRotationMatrix(); for (long k = 0; k < 4; ++k) put(x, s.x.off(foot + "PositionPoint" + std::to_string(k)), R * iDynTree::toEigen(f.pts[static_cast<size_t>(k)]));
        double c = cost(y, t); if (!(std::abs(c) < 1e-12)) fail("reference:yaw", "a foot at the desired yaw costs " + str(c)); x = xo;
    }
}
int main(int argc, char** argv) {
    Suite S; S.property = "C05"; S.rule = "every case evaluates at least one cost at a generated point";
    S.assumptions = {"iDynTree vectors and Eigen are trusted", "the smoothing functions are those checked by C10"};
    S.aspects = {{"values", 60000, 2000000, valueCase}, {"task-meaning", 60000, 2000000, meaningCase}, {"changed-references", 20000, 600000, referenceCase}};
    return Runner(S).main(argc, argv);
}
