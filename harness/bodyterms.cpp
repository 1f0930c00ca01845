// C04: values of the constraints and costs that involve the whole robot.
#include "bodies.h"
using namespace scene; using pbt::Suite; using pbt::Runner;
static void bounds(const BodyTerm& T, oc::Constraint& c) {
    iDynTree::VectorDynSize lo(static_cast<unsigned>(T.rows)), up(static_cast<unsigned>(T.rows));
    if (static_cast<long>(c.constraintSize()) != T.rows) fail("rows:" + T.kind, T.kind + " has " + std::to_string(c.constraintSize()) + " rows, expected " + std::to_string(T.rows));
    bool hasLo = c.getLowerBound(lo), hasUp = c.getUpperBound(up);
    for (long i = 0; i < T.rows; ++i) {
        double l = hasLo ? lo(static_cast<unsigned>(i)) : -INF, u = hasUp ? up(static_cast<unsigned>(i)) : INF;
        auto bad = [](double a, double b) { return std::isinf(b) ? !(std::abs(a) > 1e15 && (a > 0) == (b > 0)) : !(std::abs(a - b) <= 1e-12 * (1 + std::abs(b))); };
        if (bad(l, T.lb(i)) || bad(u, T.ub(i))) fail("bounds:" + T.kind, T.kind + " bounds row " + std::to_string(i) + " with [" + str(l) + "," + str(u) + "], expected [" + str(T.lb(i)) + "," + str(T.ub(i)) + "]");
    }
}
// one to three terms sharing the services of a problem, evaluated in turn at related points
static void valueCase(Gen& g) {
    Robot r = genRobot(g, 4); Rig rig = r.rig(); std::vector<BodyTerm> T; std::vector<std::shared_ptr<Ops>> op; int nt = static_cast<int>(g.integer(1, 3));
    for (int i = 0; i < nt; ++i) { T.push_back(bodyTerm(g, r)); op.push_back(T.back().make(rig)); op.back()->rows = T.back().rows; op.back()->reset(); if (!T.back().cost) bounds(T.back(), *op.back()->c); }
    VX x, u; genPoint(g, r.s, x, u); g.nontrivial(); double t = genTime(g); int n = static_cast<int>(g.integer(1, 8));
    for (int i = 0; i < n; ++i) {
        size_t k = g.below(T.size()); g.desc << "\n  " << T[k].kind << " t " << t << " x " << x.transpose() << " u " << u.transpose(); VX v = op[k]->value(t, x, u), e = T[k].ref(t, x, u); double sc = 1 + norm1(e) + 1e-3 * norm1(x) * (T[k].kind == "static-torques" ? norm1(x) : 1);
        for (long c = 0; c < v.size(); ++c) if (!(std::abs(v(c) - e(c)) <= 1e-8 * sc)) fail("value:" + T[k].kind, T[k].kind + " row " + std::to_string(c) + " evaluates to " + str(v(c)) + ", expected " + str(e(c)));
        movePoint(g, r.s, x, u); if (g.chance(30)) t = genTime(g);
    }
    for (size_t k = 0; k < T.size(); ++k) if (!T[k].cost) { bounds(T[k], *op[k]->c); if (op[k]->c->expectedStateSpaceSize() != static_cast<size_t>(r.s.x.n) || op[k]->c->expectedControlSpaceSize() != static_cast<size_t>(r.s.u.n)) fail("spaces:" + T[k].kind, T[k].kind + " expects state/control of the wrong size"); }
}
// postures built to satisfy a constraint satisfy it, whatever it was asked before, and a displacement is seen in full
static void meaningCase(Gen& g) {
    Robot r = genRobot(g, 4); Rig rig = r.rig(); VX x, u; genPoint(g, r.s, x, u); g.nontrivial(); const Layout& L = r.s.x;
    auto put = [&](VX& y, const std::string& n, const V3& v) { y.segment(L.off(n), 3) = v; };
    std::string kind = g.pick(std::vector<std::string>{"com-position", "contact-position", "centroidal-momentum"}); BodyTerm T = bodyTerm(g, r, kind); auto op = T.make(rig); op->rows = 3; op->reset();
    if (g.boolean()) { op->value(0, x, u); movePoint(g, r.s, x, u); }
    Ref R(r, x, u); put(x, "CoMPosition", R.com()); x.segment(L.off("Momentum") + 3, 3) = R.angularMomentum();
    for (std::string foot : {"Left", "Right"}) for (long i = 0; i < r.s.points(foot); ++i) put(x, foot + "PositionPoint" + std::to_string(i), R.pos(foot == "Left" ? r.left : r.right, iDynTree::toEigen((foot == "Left" ? r.pl : r.pr)[static_cast<size_t>(i)])));
    double t = genTime(g); VX v = op->value(t, x, u); if (!(norm1(v) <= 1e-8 * (1 + norm1(x)))) fail("consistent:" + kind, "a consistent posture is " + str(norm1(v)) + " away for " + kind);
    V3 d(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)); VX y = x; std::string moved;
    if (kind == "com-position") { y.segment(L.off("CoMPosition"), 3) += d; } else if (kind == "centroidal-momentum") y.segment(L.off("Momentum") + 3, 3) += d;
    else { y.segment(L.off("BasePosition"), 3) += -d; }
    VX w = op->value(t, y, u); if (!(norm1(w + d) <= 1e-8 * (1 + norm1(x)))) fail("displaced:" + kind, "a displacement of " + str(d.norm()) + " changes " + kind + " by " + str(w.norm()));
    g.classify(kind);
}
int main(int argc, char** argv) {
    Suite S; S.property = "C04"; S.rule = "every case evaluates at least one whole-robot constraint or cost of a generated robot at a generated point";
    S.assumptions = {"iDynTree's KinDynComputations, freshly configured, is the reference for kinematics and momentum", "the two feet are different bodies"};
    S.aspects = {{"values", 2000, 40000, valueCase}, {"consistent-postures", 800, 20000, meaningCase}};
    return Runner(S).main(argc, argv);
}
