// C10: quaternion calculus and smoothing functions.
#include "pbt.h"
#include <DynamicalPlannerPrivate/Utilities/QuaternionUtils.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicSecant.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicTangent.h>
#include <iDynTree/Core/EigenHelpers.h>
#include <Eigen/Dense>
using namespace pbt;
using namespace DynamicalPlanner::Private;
using V3 = Eigen::Vector3d; using V4 = Eigen::Vector4d; using M3 = Eigen::Matrix3d;

static V4 genQuat(Gen& g, bool unit) {
    V4 q(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1));
    int k = static_cast<int>(g.below(8));
    if (k == 0) q = V4(1, 0, 0, 0);
    if (k == 1) q(0) = 0;
    if (k == 2) q *= 1e-3;
    if (k == 3) { q(1) *= 1e-6; q(2) *= 1e-6; q(3) *= 1e-6; }
    if (k == 4) { int keep = static_cast<int>(g.below(4)); for (int i = 0; i < 4; ++i) if (i != keep) q(i) = 0; }
    if (q.norm() < 1e-4) q = V4(1, 0, 0, 0);
    if (unit) q.normalize(); else { double s = g.chance(50) ? 1.0 : g.logReal(0.1, 10); q *= s; }
    if (q.norm() < 1e-3) q *= 1000;
    g.desc << "q=(" << q.transpose() << ") ";
    return q;
}
static V3 genVec(Gen& g, double s) { V3 v(g.real(-s, s), g.real(-s, s), g.real(-s, s)); if (g.chance(10)) v.setZero(); if (g.chance(20)) v *= 100; return v; }
static iDynTree::Vector4 t4(const V4& v) { iDynTree::Vector4 o; iDynTree::toEigen(o) = v; return o; }
static iDynTree::Vector3 t3(const V3& v) { iDynTree::Vector3 o; iDynTree::toEigen(o) = v; return o; }
static M3 skew(const V3& v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
// rotation of a quaternion as a polynomial in its components (a rotation when it has unit norm)
static M3 rot(const V4& q) { V3 r = q.tail<3>(); return M3::Identity() + 2 * q(0) * skew(r) + 2 * skew(r) * skew(r); }
template <class A, class B> static void near(const char* sig, const A& a, const B& b, double scale, double tol = 1e-10) {
    double e = (a - b).norm();
    if (!(e <= tol * (1 + scale))) { std::ostringstream o; o << "obtained\n" << a << "\nexpected\n" << b; fail(sig, o.str()); }
}

static void trivialized(Gen& g) {
    V4 q = genQuat(g, true); V3 w = genVec(g, 3);
    auto Gm = QuaternionLeftTrivializedDerivative(t4(q)); Eigen::Matrix<double, 4, 3> G = iDynTree::toEigen(Gm);
    auto Im = QuaternionLeftTrivializedDerivativeInverse(t4(q)); Eigen::Matrix<double, 3, 4> Gi = iDynTree::toEigen(Im);
    // the quaternion rate produced by a body angular velocity moves the rotation accordingly: Rdot = R S(w)
    V4 qd = G * w;
    double s = q(0), sd = qd(0); V3 r = q.tail<3>(), rd = qd.tail<3>();
    M3 Rd = 2 * sd * skew(r) + 2 * s * skew(rd) + 2 * skew(rd) * skew(r) + 2 * skew(r) * skew(rd);
    near("rate-of-rotation", Rd, M3(rot(q) * skew(w)), w.norm());
    near("norm-preserving", Eigen::Matrix<double, 1, 1>(q.dot(qd)), Eigen::Matrix<double, 1, 1>(0.0), w.norm());
    near("inverse-map", V3(Gi * qd), w, w.norm());
    // back and forth for any quaternion rate tangent to the unit sphere
    V4 d(g.real(-2, 2), g.real(-2, 2), g.real(-2, 2), g.real(-2, 2)); V4 tangent = d - q * q.dot(d);
    near("round-trip", V4(G * (Gi * tangent)), tangent, tangent.norm());
    // rate along the quaternion itself carries no angular velocity
    near("radial-rate", V3(Gi * q), V3(V3::Zero()), 1.0);
    // bilinear companions, for any (not necessarily unit) quaternion
    V4 p = genQuat(g, false);
    auto Jm = QuaternionLeftTrivializedDerivativeTimesOmegaJacobian(t3(w)); Eigen::Matrix4d J = iDynTree::toEigen(Jm);
    auto Gp = QuaternionLeftTrivializedDerivative(t4(p));
    near("omega-companion", V4(J * p), V4(iDynTree::toEigen(Gp) * w), p.norm() * w.norm());
    auto Km = QuaternionLeftTrivializedDerivativeInverseTimesQuaternionDerivativeJacobian(t4(d)); Eigen::Matrix<double, 3, 4> K = iDynTree::toEigen(Km);
    auto Gip = QuaternionLeftTrivializedDerivativeInverse(t4(p));
    near("rate-companion", V3(K * p), V3(iDynTree::toEigen(Gip) * d), p.norm() * d.norm());
    if (w.norm() > 0) g.nontrivial();
}
static void normalized(Gen& g) {
    V4 q = genQuat(g, false); double n = q.norm();
    auto un = NormalizedQuaternion(t4(q)); V4 u = iDynTree::toEigen(un);
    near("normalized", u, V4(q / n), 1);
    if (!(std::fabs(QuaternionNorm(t4(q)) - n) <= 1e-12 * n)) fail("norm", "norm");
    if (!(std::fabs(QuaternionSquaredNorm(t4(q)) - n * n) <= 1e-12 * n * n)) fail("squared-norm", "squared norm");
    auto Dm = NormalizedQuaternionDerivative(t4(q)); Eigen::Matrix4d D = iDynTree::toEigen(Dm);
    near("normalized-derivative", Eigen::Matrix4d(D * n), Eigen::Matrix4d(Eigen::Matrix4d::Identity() - u * u.transpose()), 1);
    auto iv = InverseQuaternion(t4(u)); V4 inv = iDynTree::toEigen(iv);
    near("inverse-rotation", rot(inv), M3(rot(u).transpose()), 1);
    auto dm = InverseQuaternionDerivative(); Eigen::Matrix4d di = iDynTree::toEigen(dm);
    auto ip = InverseQuaternion(t4(q)); near("inverse-derivative", V4(di * q), V4(iDynTree::toEigen(ip)), n);
    if (u(0) >= -1 + 1e-12 && !QuaternionBoundsRespected(t4(u))) fail("bounds-unit", "a unit quaternion is said to be out of bounds");
    V4 big = u; int c = static_cast<int>(g.below(4)); big(c) = (g.boolean() ? 1 : -1) * (1 + g.logReal(1e-5, 10));
    if (QuaternionBoundsRespected(t4(big))) fail("bounds-large", "a quaternion with component " + str(big(c)) + " is said to be within bounds");
    g.nontrivial();
}
static void rotatedVector(Gen& g) {
    V4 q = genQuat(g, g.boolean()); V3 x = genVec(g, 2);
    auto Jm = RotatedVectorQuaternionJacobian(t3(x), t4(q)); Eigen::Matrix<double, 3, 4> J = iDynTree::toEigen(Jm);
    // the map is quadratic in q: central differences are exact up to rounding
    double h = 1e-2;
    for (int i = 0; i < 4; ++i) { V4 a = q, b = q; a(i) += h; b(i) -= h; V3 fd = (rot(a) * x - rot(b) * x) / (2 * h);
        near("rotated-vector", V3(J.col(i)), fd, x.norm() * (1 + q.squaredNorm()), 1e-9); }
    g.classify(x.norm() > 1 ? "long vector" : "short vector"); if (x.norm() > 0) g.nontrivial();
}
static void errorQuaternion(Gen& g) {
    V4 a = genQuat(g, true), b = genQuat(g, true);
    if (g.chance(20)) b = (a + 1e-3 * V4(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1))).normalized();
    iDynTree::Rotation A, B; iDynTree::toEigen(A) = rot(a); iDynTree::toEigen(B) = rot(b);
    auto em = ErrorQuaternion(A, B); V4 e = iDynTree::toEigen(em);
    near("error-unit", Eigen::Matrix<double, 1, 1>(e.norm()), Eigen::Matrix<double, 1, 1>(1.0), 1, 1e-6);
    near("error-rotation", rot(e), M3(rot(b).transpose() * rot(a)), 1, 1e-6);
    g.nontrivial();
}
template <class F> static void smoothing(Gen& g, bool secant) {
    F f; double K = 1; bool off = false; double value = 1;
    int ops = static_cast<int>(g.below(4));
    for (int i = 0; i < ops; ++i) {
        if (g.chance(70)) { K = g.chance(10) ? 0.0 : g.signedLog(1e-2, 500); f.setScaling(K); g.desc << "scale " << K << "; "; }
        else { off = true; if (g.boolean()) { value = g.real(-3, 3); f.disable(value); } else { value = 1; f.disable(); } g.desc << "disable " << value << "; "; }
    }
    if (g.chance(30)) { F copy(f); f = copy; }
    for (int k = 0; k < 3; ++k) {
        double x = g.chance(10) ? 0.0 : g.signedLog(1e-6, 20); g.desc << "x=" << x << " ";
        double y = f.eval(x), d = f.evalDerivative(x), dd = f.evalDoubleDerivative(x);
        if (!std::isfinite(y) || !std::isfinite(d) || !std::isfinite(dd)) fail("smoothing-not-finite", "a value is not finite at " + str(x));
        if (off) { if (y != value || d != 0 || dd != 0) fail("smoothing-disabled", "a disabled function is not constant"); continue; }
        double a = K * x, ea = std::exp(-std::fabs(a)); double sech = 2 * ea / (1 + ea * ea), th = (a < 0 ? -1 : 1) * (1 - ea * ea) / (1 + ea * ea);
        double ey = secant ? sech : th, ed = secant ? -K * sech * th : K * sech * sech, edd = secant ? K * K * sech * (th * th - sech * sech) : -2 * K * K * th * sech * sech;
        auto close = [](double u, double v, double s) { return std::fabs(u - v) <= 1e-11 * s + 1e-9 * std::fabs(v); };
        if (!close(y, ey, 1)) fail("smoothing-value", "value " + str(y) + " expected " + str(ey));
        if (!close(d, ed, std::fabs(K))) fail("smoothing-derivative", "derivative " + str(d) + " expected " + str(ed));
        if (!close(dd, edd, K * K)) fail("smoothing-second-derivative", "second derivative " + str(dd) + " expected " + str(edd));
        if (a != 0) g.nontrivial();
        g.classify(std::fabs(a) > 20 ? "saturated" : "active");
    }
}
int main(int argc, char** argv) {
    Suite s; s.property = "C10";
    s.rule = "a case is non-trivial when a rotation, a rate or an argument different from the neutral one is mapped; distinct by generated choices";
    s.assumptions = {"quaternions have norm between 1e-3 and about 20"};
    s.aspects = {{"trivialized-rates", 200000, 4000000, trivialized}, {"normalization", 200000, 4000000, normalized}, {"rotated-vector", 100000, 2000000, rotatedVector}, {"error-quaternion", 100000, 2000000, errorQuaternion},
                 {"secant", 100000, 2000000, [](Gen& g) { smoothing<HyperbolicSecant>(g, true); }}, {"tangent", 100000, 2000000, [](Gen& g) { smoothing<HyperbolicTangent>(g, false); }}};
    s.quickBudget = 120; s.thoroughBudget = 600;
    Runner r(s); return r.main(argc, argv);
}
