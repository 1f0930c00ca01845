// C01: what the contact constraints accept.
#include "points.h"
using namespace scene; using pbt::Suite; using pbt::Runner;

static Scene genScene(Gen& g) { return makeScene(genPoints(g), genPoints(g), g.integer(1, 4)); }
static void bounds(const Term& T, oc::Constraint& c) {
    iDynTree::VectorDynSize lo(static_cast<unsigned>(T.rows)), up(static_cast<unsigned>(T.rows));
    if (static_cast<long>(c.constraintSize()) != T.rows) fail("rows:" + T.kind, T.kind + " has " + std::to_string(c.constraintSize()) + " rows, expected " + std::to_string(T.rows));
    bool hasLo = c.getLowerBound(lo), hasUp = c.getUpperBound(up);
    for (long i = 0; i < T.rows; ++i) {
        double l = hasLo ? lo(static_cast<unsigned>(i)) : -INF, u = hasUp ? up(static_cast<unsigned>(i)) : INF;
        auto bad = [](double a, double b) { return std::isinf(b) ? !(std::abs(a) > 1e15 && (a > 0) == (b > 0)) : !(std::abs(a - b) <= 1e-12 * (1 + std::abs(b))); };
        if (bad(l, T.lb(i)) || bad(u, T.ub(i))) fail("bounds:" + T.kind, T.kind + " bounds row " + std::to_string(i) + " with [" + str(l) + "," + str(u) + "], expected [" + str(T.lb(i)) + "," + str(T.ub(i)) + "]");
    }
}
static void valueCase(Gen& g) {
    Scene s = genScene(g); Term T = pointConstraint(g, s, g.pick(pointConstraintKinds()));
    auto op = T.make(); op->rows = T.rows; VX x, u; genPoint(g, s, x, u); g.nontrivial();
    bounds(T, *op->c);
    int n = static_cast<int>(g.integer(1, 4));
    for (int i = 0; i < n; ++i) {
        double t = g.real(0, 5); VX v = op->value(t, x, u), r = T.ref(t, x, u);
        for (long k = 0; k < T.rows; ++k) if (!(std::abs(v(k) - r(k)) <= 1e-9 * (1 + std::abs(r(k)) + norm1(x) * norm1(x)* 1e-3))) fail("value:" + T.kind, T.kind + " row " + std::to_string(k) + " evaluates to " + str(v(k)) + ", expected " + str(r(k)));
        movePoint(g, s, x, u);
    }
    if (op->c->expectedStateSpaceSize() != static_cast<size_t>(s.x.n) || op->c->expectedControlSpaceSize() != static_cast<size_t>(s.u.n)) fail("spaces:" + T.kind, T.kind + " expects state/control of the wrong size");
    bounds(T, *op->c);
    g.classify(T.kind);
}
// The set of accepted points, told from physics alone: generated point states that obviously respect or violate the contact model.
static void meaningCase(Gen& g) {
    Scene s = genScene(g); VX x, u; genPoint(g, s, x, u); g.nontrivial();
    std::string foot = g.boolean() ? "Right" : "Left"; long idx = static_cast<long>(g.below(static_cast<uint64_t>(s.points(foot)))); size_t ci = static_cast<size_t>(idx); std::string k = std::to_string(idx);
    long F = s.x.off(foot + "ForcePoint" + k), P = s.x.off(foot + "PositionPoint" + k), V = s.u.off(foot + "VelocityControlPoint" + k), U = s.u.off(foot + "ForceControlPoint" + k);
    auto feasible = [&](oc::Constraint& c) { Ops o("meaning", static_cast<long>(c.constraintSize()), s.x.n, s.u.n); o.c = std::shared_ptr<oc::Constraint>(&c, [](oc::Constraint*) {}); VX v = o.value(0, x, u); iDynTree::VectorDynSize b(static_cast<unsigned>(v.size()));
        bool ok = true; if (c.getLowerBound(b)) for (long i = 0; i < v.size(); ++i) ok = ok && v(i) >= b(static_cast<unsigned>(i)) - 1e-12; if (c.getUpperBound(b)) for (long i = 0; i < v.size(); ++i) ok = ok && v(i) <= b(static_cast<unsigned>(i)) + 1e-12; return ok; };
    auto expect = [&](oc::Constraint& c, bool want, const std::string& what) { if (feasible(c) != want) fail("meaning:" + what, what + (want ? " is refused" : " is accepted")); };
    double fz = g.logReal(0.1, 300), h = g.logReal(0.01, 1);
    switch (g.below(6)) {
    case 0: {   // friction: inside or outside the cone, force pushing
        double mu = g.logReal(0.05, 2), a = g.real(-3.14, 3.14); bool in = g.boolean(); double m = in ? g.real(0, 0.98) : g.real(1.02, 3); x(F) = m * mu * fz * std::cos(a); x(F + 1) = m * mu * fz * std::sin(a); x(F + 2) = fz;
        DP::ContactFrictionConstraint c(s.x.lab, s.u.lab, foot, ci); if (!c.setFrictionCoefficient(mu)) fail("friction-coefficient", "refused");
        expect(c, in, in ? "a force inside the friction cone" : "a force outside the friction cone"); break; }
    case 1: {   // no force at distance
        double tol = g.logReal(1e-5, 1e-3); bool contact = g.boolean(); x(P + 2) = contact ? 0.0 : h; x(F + 2) = fz; DP::ClassicalComplementarityConstraint c(s.x.lab, s.u.lab, foot, ci, tol);
        expect(c, contact || fz * h <= tol, contact ? "a force on the ground" : "a force in the air"); break; }
    case 2: {   // no sliding under load
        double tol = g.logReal(1e-5, 1e-3); bool still = g.boolean(); x(F + 2) = fz; u(V) = u(V + 1) = 0; if (!still) u(V + static_cast<long>(g.below(2))) = g.signedLog(0.05, 5); DP::ClassicalPlanarComplementarityConstraint c(s.x.lab, s.u.lab, foot, ci, tol);
        expect(c, still, still ? "a still loaded point" : "a sliding loaded point"); break; }
    case 3: {   // a point on the ground cannot move sideways, far from it it can up to the maximum
        double K = g.logReal(5, 100), mx = g.logReal(0.1, 10), my = g.logReal(0.1, 10); bool ground = g.boolean(); x(P + 2) = ground ? 0.0 : 20.0 / K + h; double f = g.real(-0.95, 0.95), f2 = g.real(-0.95, 0.95); bool over = g.boolean(); int ax = g.boolean(); if (over) (ax ? f : f2) = g.boolean() ? g.real(1.05, 3) : -g.real(1.05, 3);
        u(V) = f * mx; u(V + 1) = f2 * my; bool moving = f != 0.0 || f2 != 0.0; DP::PlanarVelocityControlConstraints c(s.x.lab, s.u.lab, foot, ci, htan(K), mx, my);
        if (ground) { expect(c, !moving, moving ? "a sideways motion on the ground" : "rest on the ground"); } else expect(c, !over, over ? "a sideways velocity above the maximum" : "a sideways velocity below the maximum"); break; }
    case 4: {   // a point on the ground cannot sink
        double K = g.logReal(5, 100), mx = g.logReal(0.1, 10); x(P + 2) = g.boolean() ? 0.0 : 20.0 / K + h; bool ground = x(P + 2) == 0.0; double f = g.boolean() ? g.real(0.01, 0.95) : g.real(1.05, 2); bool up = g.boolean(); u(V + 2) = (up ? f : -f) * mx;
        bool ok = up ? f < 1 : (!ground && f < 1); DP::NormalVelocityControlConstraints c(s.x.lab, s.u.lab, foot, ci, htan(K), mx); expect(c, ok, std::string(up ? "rising " : "descending ") + (ground ? "from the ground " : "in the air ") + (f < 1 ? "slower" : "faster") + " than the maximum"); break; }
    default: {  // force can only grow on the ground, and must vanish in the air
        double K = g.logReal(5, 100), mx = g.logReal(1, 500), ds = g.logReal(0.1, 100); bool ground = g.boolean(); x(P + 2) = ground ? 0.0 : 20.0 / K + h; x(F + 2) = fz; double f = g.boolean() ? g.real(0, 0.95) : g.real(1.05, 2); u(U + 2) = ground ? f * mx : -f * ds * fz;
        DP::ContactForceControlConstraints c(s.x.lab, s.u.lab, foot, ci, hsec(K), mx, ds); expect(c, ground ? f < 1 : f > 1, ground ? (f < 1 ? "an allowed force increase" : "a too fast force increase") : (f > 1 ? "a vanishing force in the air" : "a lasting force in the air")); break; }
    }
}
// limits that can be changed are taken into account, and invalid ones refused without effect
static void limitCase(Gen& g) {
    Scene s = genScene(g); VX x, u; genPoint(g, s, x, u); g.nontrivial();
    std::string foot = g.boolean() ? "Right" : "Left"; size_t ci = g.below(static_cast<uint64_t>(s.points(foot))); V3 f = s.x.seg(x, foot + "ForcePoint" + std::to_string(ci));
    DP::ContactFrictionConstraint c(s.x.lab, s.u.lab, foot, ci); DP::QuaternionNormConstraint q(s.x.lab, s.u.lab); double mu = -1;
    int n = static_cast<int>(g.integer(1, 5));
    for (int i = 0; i < n; ++i) {
        bool valid = g.chance(65); double m = valid ? g.logReal(0.05, 2) : g.chance(30) ? 0.0 : -g.logReal(0.05, 2);
        bool ok = c.setFrictionCoefficient(m); if (ok != (m > 0)) fail("friction-range", "friction coefficient " + str(m) + (ok ? " accepted" : " refused")); if (ok) mu = m;
        if (mu > 0) { Ops o("friction", 1, s.x.n, s.u.n); o.c = std::shared_ptr<oc::Constraint>(&c, [](oc::Constraint*) {}); double v = o.value(0, x, u)(0), r = f(0) * f(0) + f(1) * f(1) - mu * mu * f(2) * f(2); if (!(std::abs(v - r) <= 1e-9 * (1 + f.squaredNorm() * (1 + mu * mu)))) fail("friction-history", "after the coefficients were set the constraint is " + str(v) + ", expected " + str(r)); }
        double tol = g.chance(30) ? 0.0 : g.logReal(1e-6, 1); q.setEqualityTolerance(tol); iDynTree::VectorDynSize l(1), h(1); q.getLowerBound(l); q.getUpperBound(h); if (std::abs(l(0) + tol / 2) > 1e-15 || std::abs(h(0) - tol / 2) > 1e-15) fail("tolerance", "a tolerance of " + str(tol) + " gives [" + str(l(0)) + "," + str(h(0)) + "]");
    }
}
int main(int argc, char** argv) {
    Suite S; S.property = "C01"; S.rule = "every case evaluates at least one constraint of one contact point (or of the quaternion or the feet) at a generated point";
    S.assumptions = {"iDynTree vectors and Eigen are trusted", "the smoothing functions are those checked by C10"};
    S.aspects = {{"values-and-bounds", 60000, 2000000, valueCase}, {"physical-meaning", 60000, 2000000, meaningCase}, {"limits", 20000, 500000, limitCase}};
    return Runner(S).main(argc, argv);
}
