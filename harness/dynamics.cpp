// C02: the dynamics that the planner transcribes, its derivatives and its independence from earlier queries.
#include "bodies.h"
using namespace scene; using pbt::Suite; using pbt::Runner;
struct Params { double kxy, kz, diss; int disXY = 0, disZ = 0; double cXY = 1, cZ = 1; };
struct Plant { Robot r; Params p; std::function<std::shared_ptr<Ops>(const Rig&)> make; };
static Plant genPlant(Gen& g, unsigned joints, long points) {
    Plant P; P.r = genRobot(g, joints, points); P.p.kxy = g.logReal(0.5, 200); P.p.kz = g.logReal(0.5, 200); P.p.diss = g.chance(20) ? 0.0 : g.logReal(0.1, 100);
    P.p.disXY = g.chance(12); P.p.disZ = g.chance(12);
    auto* r = &P.r; Params p = P.p; (void)r; Scene s = P.r.s;
    P.make = [s, p](const Rig& R) {
        DP::HyperbolicTangent t; t.setScaling(p.kxy); if (p.disXY) t.disable(p.cXY); DP::HyperbolicSecant h; h.setScaling(p.kz); if (p.disZ) h.disable(p.cZ);
        return wrapD(s, "dynamics", std::make_shared<DP::DynamicalConstraints>(s.x.lab, s.u.lab, R.tk, R.es, t, h, p.diss));
    };
    return P;
}
static VX reference(const Plant& P, const VX& x, const VX& u) {
    const Scene& s = P.r.s; VX d = VX::Zero(s.x.n); V3 com = s.x.seg(x, "CoMPosition"), lin = P.r.gravity * P.r.mass, ang(0, 0, 0);
    auto put = [&](const std::string& n, const VX& v) { d.segment(s.x.off(n), v.size()) = v; };
    for (std::string f : {"Left", "Right"}) for (long i = 0; i < s.points(f); ++i) {
        std::string k = std::to_string(i); V3 p = s.x.seg(x, f + "PositionPoint" + k), F = s.x.seg(x, f + "ForcePoint" + k), v = s.u.seg(u, f + "VelocityControlPoint" + k), w = s.u.seg(u, f + "ForceControlPoint" + k);
        double dz = P.p.disZ ? P.p.cZ : sech(P.p.kz * p(2)), dxy = P.p.disXY ? P.p.cXY : std::tanh(P.p.kxy * p(2));
        put(f + "ForcePoint" + k, V3(w(0), w(1), dz * w(2) - P.p.diss * (1 - dz) * F(2))); put(f + "PositionPoint" + k, V3(dxy * v(0), dxy * v(1), v(2)));
        lin += F; ang += (p - com).cross(F);
    }
    VX m(6); m << lin, ang; put("Momentum", m); put("CoMPosition", V3(s.x.seg(x, "Momentum").head(3)) / P.r.mass);
    put("BasePosition", quatR(s.x.seg(x, "BaseQuaternion")) * V3(s.u.seg(u, "BaseLinearVelocity"))); put("BaseQuaternion", s.u.seg(u, "BaseQuaternionDerivative")); put("JointsPosition", s.u.seg(u, "JointsVelocity"));
    return d;
}
static void valueCase(Gen& g) {
    Plant P = genPlant(g, 3, 8); Rig R = P.r.rig(); auto op = P.make(R); VX x, u; genPoint(g, P.r.s, x, u); g.nontrivial(); int n = static_cast<int>(g.integer(1, 16));
    for (int i = 0; i < n; ++i) {
        double t = genTime(g); if (g.chance(30)) { if (g.boolean()) op->jx(t, x, u); else op->ju(t, x, u); }
        VX v = op->value(t, x, u), e = reference(P, x, u); double sc = 1 + norm1(e) + 1e-2 * norm1(x) * norm1(x);
        for (long c = 0; c < v.size(); ++c) if (!(std::abs(v(c) - e(c)) <= 1e-9 * sc)) { std::string nm = nameOf(P.r.s.x, c); fail("value:" + nm.substr(0, 5), "the rate of " + nm + " is " + str(v(c)) + ", expected " + str(e(c))); }
        movePoint(g, P.r.s, x, u);
    }
}
// the robot as a whole obeys Newton and Euler: moving everything by a rigid motion about the vertical changes the momentum rate accordingly
static void invarianceCase(Gen& g) {
    Plant P = genPlant(g, 3, 6); P.p.disXY = 0; P.r.gravity.head(2).setZero(); Rig R = P.r.rig(); auto op = P.make(R); const Scene& s = P.r.s; VX x, u; genPoint(g, s, x, u); g.nontrivial(); double t = genTime(g), a = g.real(-3, 3); V3 d(g.real(-2, 2), g.real(-2, 2), 0);
    M3 Z = Eigen::AngleAxisd(a, V3::UnitZ()).toRotationMatrix(); VX y = x, w = u; auto turn = [&](const Layout& L, VX& v, const std::string& n, bool shift) { V3 q = Z * V3(L.seg(v, n)); if (shift) q += d; v.segment(L.off(n), 3) = q; };
    for (std::string f : {"Left", "Right"}) for (long i = 0; i < s.points(f); ++i) { std::string k = std::to_string(i); turn(s.x, y, f + "PositionPoint" + k, true); turn(s.x, y, f + "ForcePoint" + k, false); turn(s.u, w, f + "VelocityControlPoint" + k, false); turn(s.u, w, f + "ForceControlPoint" + k, false); }
    turn(s.x, y, "CoMPosition", true); turn(s.x, y, "BasePosition", true); { V3 l = Z * V3(s.x.seg(y, "Momentum").head(3)), h = Z * V3(s.x.seg(y, "Momentum").tail(3)); y.segment(s.x.off("Momentum"), 3) = l; y.segment(s.x.off("Momentum") + 3, 3) = h; }
    Eigen::Quaterniond qz(std::cos(a / 2), 0, 0, std::sin(a / 2)); auto mul = [&](const V4& q) { Eigen::Quaterniond p(q(0), q(1), q(2), q(3)); Eigen::Quaterniond o = qz * p; return V4(o.w(), o.x(), o.y(), o.z()); };
    y.segment(s.x.off("BaseQuaternion"), 4) = mul(s.x.seg(y, "BaseQuaternion")); w.segment(s.u.off("BaseQuaternionDerivative"), 4) = mul(s.u.seg(w, "BaseQuaternionDerivative"));
    VX f0 = op->value(t, x, u), f1 = op->value(t, y, w); double sc = 1 + norm1(f0) + norm1(x) * norm1(x);
    auto cmp = [&](const std::string& n, long o) { V3 e = Z * V3(f0.segment(s.x.off(n) + o, 3)), v = f1.segment(s.x.off(n) + o, 3); if (!((e - v).norm() <= 1e-9 * sc)) fail("turned:" + n.substr(0, 5), "after turning everything about the vertical, the rate of " + n + " is not the turned rate: off by " + str((e - v).norm())); };
    for (std::string f : {"Left", "Right"}) for (long i = 0; i < s.points(f); ++i) { cmp(f + "PositionPoint" + std::to_string(i), 0); cmp(f + "ForcePoint" + std::to_string(i), 0); }
    cmp("Momentum", 0); cmp("Momentum", 3); cmp("CoMPosition", 0); cmp("BasePosition", 0);
}
struct Setup { Plant P; Rig R; std::shared_ptr<Ops> op; VX x, u; double t; };
static void prepare(Gen& g, Setup& S) {
    S.P = genPlant(g, 3, 4); S.R = S.P.r.rig(); S.op = S.P.make(S.R); genPoint(g, S.P.r.s, S.x, S.u); S.t = genTime(g); g.nontrivial();
    if (g.chance(30)) { S.op->value(S.t, S.x, S.u); S.op->jx(S.t, S.x, S.u); movePoint(g, S.P.r.s, S.x, S.u); }
}
static DiffOptions options(const Setup& S) { DiffOptions o; o.levels = 7; o.h = 0.3 / (1 + std::max(S.P.p.kxy, S.P.p.kz)); return o; }
static void firstCase(Gen& g) { Setup S; prepare(g, S); checkFirst(g, S.P.r.s, *S.op, S.t, S.x, S.u, options(S)); }
static void secondCase(Gen& g) { Setup S; prepare(g, S); checkSecond(g, S.P.r.s, *S.op, S.t, S.x, S.u, genLambda(g, S.P.r.s.x.n), options(S)); }
static void sparsityCase(Gen& g) { Setup S; prepare(g, S); checkSparsity(*S.op, S.t, S.x, S.u, genLambda(g, S.P.r.s.x.n), true); }
// the same object, sharing the services with other terms of the problem, against a fresh one
static void historyCase(Gen& g) {
    Plant P = genPlant(g, 3, 3); Rig shared = P.r.rig(); Robot r = P.r; std::vector<Term> T; std::vector<std::shared_ptr<Ops>> op; Term D; D.kind = "dynamics"; D.rows = r.s.x.n; auto mk = P.make; D.make = [r, mk] { return mk(r.rig()); };
    T.push_back(D); op.push_back(mk(shared));
    if (g.chance(50)) { BodyTerm b = bodyTerm(g, r); auto o = b.make(shared); o->rows = b.rows; o->reset(); op.push_back(o); T.push_back(asTerm(b, [r] { return r.rig(); })); }
    VX x, u; genPoint(g, r.s, x, u); double t = genTime(g); int n = static_cast<int>(g.integer(1, 12)); if (n > 1) g.nontrivial();
    for (int i = 0; i < n; ++i) {
        size_t k = T.size() > 1 && g.chance(30) ? 1 : 0; VX l = T[k].cost ? VX::Ones(1) : genLambda(g, T[k].rows); int q = static_cast<int>(g.below(T[k].hessians ? 6 : 3));
        if (i == n - 1 || g.chance(35)) checkQuantity(g, T[k], *op[k], q, t, x, u, l); else { if (q == 0) op[k]->value(t, x, u); else if (q == 1) op[k]->jx(t, x, u); else if (q == 2) op[k]->ju(t, x, u); else op[k]->hess(q - 3, t, x, u, l); }
        movePoint(g, r.s, x, u); if (g.chance(30)) t = genTime(g);
    }
}
int main(int argc, char** argv) {
    Suite S; S.property = "C02"; S.rule = "every case evaluates the dynamics or its derivatives at a generated point; a history is non-trivial when it has at least two queries";
    S.assumptions = {"finite differences: extrapolated central differences with a per-component error estimate; components whose estimate does not converge are counted as inconclusive and not judged", "buffers are supplied as iDynTree's optimal-control layer does: sized and zeroed once, then reused"};
    S.aspects = {{"values", 1500, 40000, valueCase}, {"rigid-motion", 600, 10000, invarianceCase}, {"first-derivatives", 900, 12000, firstCase}, {"second-derivatives", 800, 12000, secondCase}, {"sparsity", 400, 8000, sparsityCase}, {"histories", 450, 8000, historyCase}};
    return Runner(S).main(argc, argv);
}
