// Generated optimal-control scenes: the variables of the planner, points to evaluate at, and a uniform
// view ("Ops") of constraints, costs and dynamics that calls them the way the optimal-control layer does:
// with one output buffer per quantity, sized and zeroed once and reused ever after.
#pragma once
#include <levi/levi.h>
#include "pbt.h"
#include "models.h"
#include <iDynTree/Constraint.h>
#include <iDynTree/Cost.h>
#include <iDynTree/DynamicalSystem.h>
#include <iDynTree/TimeVaryingObject.h>
#include <iDynTree/Core/EigenHelpers.h>
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
#include <memory>

namespace scene {
using pbt::Gen; using pbt::fail; using pbt::str;
using VX = Eigen::VectorXd; using MX = Eigen::MatrixXd; using V3 = Eigen::Vector3d; using V4 = Eigen::Vector4d; using M3 = Eigen::Matrix3d;
using MI = Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic>;
namespace oc = iDynTree::optimalcontrol;
using DynamicalPlanner::Private::VariablesLabeller;

inline iDynTree::VectorDynSize dyn(const VX& v) { iDynTree::VectorDynSize o(static_cast<unsigned>(v.size())); for (long i = 0; i < v.size(); ++i) o(static_cast<unsigned>(i)) = v(i); return o; }
inline VX eig(const iDynTree::VectorDynSize& v) { VX o(v.size()); for (unsigned i = 0; i < v.size(); ++i) o(i) = v(i); return o; }
inline MX eig(const iDynTree::MatrixDynSize& m) { MX o(m.rows(), m.cols()); for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) o(i, j) = m(i, j); return o; }

struct Layout {                                  // independent bookkeeping of where each variable lives
    std::map<std::string, std::pair<long, long>> at; long n = 0;
    VariablesLabeller lab;
    void add(const std::string& name, long d) { at[name] = {n, d}; n += d; lab.addLabel(name, static_cast<size_t>(d)); }
    VX seg(const VX& v, const std::string& name) const { auto p = at.at(name); return v.segment(p.first, p.second); }
    long off(const std::string& name) const { return at.at(name).first; }
};

struct Scene {
    Layout x, u; long nLeft = 0, nRight = 0, joints = 0;
    long points(const std::string& foot) const { return foot == "Left" ? nLeft : nRight; }
    std::string describe() const { return "points " + std::to_string(nLeft) + "+" + std::to_string(nRight) + " joints " + std::to_string(joints); }
};

inline Scene makeScene(long nl, long nr, long joints) {
    Scene s; s.nLeft = nl; s.nRight = nr; s.joints = joints;
    for (std::string foot : {"Left", "Right"}) for (long i = 0; i < s.points(foot); ++i) {
        s.x.add(foot + "ForcePoint" + std::to_string(i), 3); s.x.add(foot + "PositionPoint" + std::to_string(i), 3);
        s.u.add(foot + "VelocityControlPoint" + std::to_string(i), 3); s.u.add(foot + "ForceControlPoint" + std::to_string(i), 3);
    }
    s.x.add("Momentum", 6); s.x.add("CoMPosition", 3); s.x.add("BasePosition", 3); s.x.add("BaseQuaternion", 4); s.x.add("JointsPosition", joints);
    s.u.add("BaseLinearVelocity", 3); s.u.add("BaseQuaternionDerivative", 4); s.u.add("JointsVelocity", joints);
    return s;
}
inline long genPoints(Gen& g) { return g.chance(5) ? 11 : g.chance(45) ? 4 : g.integer(1, 6); }

inline double genHeight(Gen& g) {               // heights of a contact point: mostly where the smoothing acts
    switch (g.below(5)) { case 0: return 0.0; case 1: return g.signedLog(1e-5, 1e-2); case 2: return g.real(0.0, 0.1); case 3: return g.real(-0.3, 0.3); default: return g.signedLog(1e-3, 2.0); }
}
inline double genForce(Gen& g, double s) { return g.chance(15) ? 0.0 : g.chance(30) ? g.signedLog(1e-3, 1.0) : g.real(-s, s); }

inline void genPoint(Gen& g, const Scene& s, VX& x, VX& u) {
    x = VX::Zero(s.x.n); u = VX::Zero(s.u.n);
    double fs = g.logReal(1, 300), vs = g.logReal(0.05, 20);
    for (std::string foot : {"Left", "Right"}) for (long i = 0; i < s.points(foot); ++i) {
        std::string k = std::to_string(i); long f = s.x.off(foot + "ForcePoint" + k), p = s.x.off(foot + "PositionPoint" + k), v = s.u.off(foot + "VelocityControlPoint" + k), d = s.u.off(foot + "ForceControlPoint" + k);
        for (int c = 0; c < 3; ++c) { x(f + c) = genForce(g, fs); x(p + c) = c == 2 ? genHeight(g) : g.real(-1, 1); u(v + c) = genForce(g, vs); u(d + c) = genForce(g, fs); }
    }
    for (int c = 0; c < 6; ++c) x(s.x.off("Momentum") + c) = genForce(g, 20);
    for (int c = 0; c < 3; ++c) { x(s.x.off("CoMPosition") + c) = g.real(-1, 1); x(s.x.off("BasePosition") + c) = g.real(-1, 1); u(s.u.off("BaseLinearVelocity") + c) = g.real(-2, 2); }
    V4 q(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)); if (q.norm() < 0.3) q = V4(1, 0, 0, 0);
    if (g.chance(60)) q.normalize();
    x.segment(s.x.off("BaseQuaternion"), 4) = q;
    for (int c = 0; c < 4; ++c) u(s.u.off("BaseQuaternionDerivative") + c) = g.real(-2, 2);
    for (long c = 0; c < s.joints; ++c) { x(s.x.off("JointsPosition") + c) = g.real(-2, 2); u(s.u.off("JointsVelocity") + c) = g.real(-3, 3); }
}
// a later point of a history: usually only part of the variables moves, sometimes nothing does
inline void movePoint(Gen& g, const Scene& s, VX& x, VX& u) {
    if (g.chance(15)) return;
    if (g.chance(25)) { genPoint(g, s, x, u); return; }
    VX x2, u2; genPoint(g, s, x2, u2);
    int k = static_cast<int>(g.integer(1, 3));
    for (int i = 0; i < k; ++i) {
        if (g.chance(65)) { auto it = s.x.at.begin(); std::advance(it, g.below(s.x.at.size())); x.segment(it->second.first, it->second.second) = x2.segment(it->second.first, it->second.second); }
        else { auto it = s.u.at.begin(); std::advance(it, g.below(s.u.at.size())); u.segment(it->second.first, it->second.second) = u2.segment(it->second.first, it->second.second); }
    }
}

// a reference that depends on time: a + b t
template <class Base, class T> struct Linear : public Base {
    std::function<T(double)> f; T value;
    Linear(std::function<T(double)> fn) : f(fn), value(fn(0.0)) {}
    const T& get(double t, bool& ok) override { ok = true; value = f(t); return value; }
};
struct TVDouble { double a, b; double at(double t) const { return a + b * t; }
    std::shared_ptr<oc::TimeVaryingDouble> ptr() const { auto c = *this; return std::make_shared<Linear<oc::TimeVaryingDouble, double>>([c](double t) { return c.at(t); }); } };
struct TVVec { VX a, b; VX at(double t) const { return a + b * t; }
    std::shared_ptr<oc::TimeVaryingVector> ptr() const { auto c = *this; return std::make_shared<Linear<oc::TimeVaryingVector, iDynTree::VectorDynSize>>([c](double t) { return dyn(c.at(t)); }); }
    std::shared_ptr<oc::TimeVaryingPosition> pos() const { auto c = *this; return std::make_shared<Linear<oc::TimeVaryingPosition, iDynTree::Position>>([c](double t) { VX v = c.at(t); return iDynTree::Position(v(0), v(1), v(2)); }); } };
inline TVVec genTVVec(Gen& g, long n, double lo, double hi) { TVVec v; v.a.resize(n); v.b = VX::Zero(n); bool m = g.chance(60); for (long i = 0; i < n; ++i) { v.a(i) = g.real(lo, hi); if (m) v.b(i) = g.real(-1, 1); } return v; }
inline TVDouble genTVDouble(Gen& g, double lo, double hi) { TVDouble d; d.a = g.real(lo, hi); d.b = g.chance(60) ? g.real(-1, 1) : 0.0; return d; }

// ---------------------------------------------------------------------------------------------------------
struct Ops {
    std::string kind; long rows, nx, nu;
    std::shared_ptr<oc::Constraint> c; std::shared_ptr<oc::Cost> k; std::shared_ptr<oc::DynamicalSystem> d;
    iDynTree::VectorDynSize bv, bgx, bgu; iDynTree::MatrixDynSize bjx, bju, bxx, bxu, buu;
    Ops(const std::string& kd, long r, long x, long u) : kind(kd), rows(r), nx(x), nu(u) { reset(); }
    void reset() {
        auto U = [](long v) { return static_cast<unsigned>(v); };
        bv.resize(U(rows)); bv.zero(); bgx.resize(U(nx)); bgx.zero(); bgu.resize(U(nu)); bgu.zero();
        bjx.resize(U(rows), U(nx)); bjx.zero(); bju.resize(U(rows), U(nu)); bju.zero();
        bxx.resize(U(nx), U(nx)); bxx.zero(); bxu.resize(U(nx), U(nu)); bxu.zero(); buu.resize(U(nu), U(nu)); buu.zero();
    }
    void need(bool ok, const char* what) const { if (!ok) fail("refused:" + std::string(what) + ":" + kind, "the evaluation of " + kind + " returned an error"); }
    void size(const MX& m, long r, long cl, const char* what) const {
        if (m.rows() != r || m.cols() != cl) fail("size:" + std::string(what) + ":" + kind, kind + " answered with a " + std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + " quantity, expected " + std::to_string(r) + "x" + std::to_string(cl));
    }
    VX value(double t, const VX& x, const VX& u) {
        auto X = dyn(x), U = dyn(u);
        if (c) { need(c->evaluateConstraint(t, X, U, bv), "value"); }
        else if (k) { double v = 0; need(k->costEvaluation(t, X, U, v), "value"); bv(0) = v; }
        else { need(d->setControlInput(U), "control"); need(d->dynamics(X, t, bv), "value"); }
        VX o = eig(bv); size(o, rows, 1, "value"); return o;
    }
    MX jx(double t, const VX& x, const VX& u) {
        auto X = dyn(x), U = dyn(u); MX o;
        if (c) { need(c->constraintJacobianWRTState(t, X, U, bjx), "jx"); o = eig(bjx); }
        else if (k) { need(k->costFirstPartialDerivativeWRTState(t, X, U, bgx), "jx"); o = eig(bgx).transpose(); }
        else { need(d->setControlInput(U), "control"); need(d->dynamicsStateFirstDerivative(X, t, bjx), "jx"); o = eig(bjx); }
        size(o, rows, nx, "jx"); return o;
    }
    MX ju(double t, const VX& x, const VX& u) {
        auto X = dyn(x), U = dyn(u); MX o;
        if (c) { need(c->constraintJacobianWRTControl(t, X, U, bju), "ju"); o = eig(bju); }
        else if (k) { need(k->costFirstPartialDerivativeWRTControl(t, X, U, bgu), "ju"); o = eig(bgu).transpose(); }
        else { need(d->setControlInput(U), "control"); need(d->dynamicsControlFirstDerivative(X, t, bju), "ju"); o = eig(bju); }
        size(o, rows, nu, "ju"); return o;
    }
    MX hess(int which, double t, const VX& x, const VX& u, const VX& l) {     // 0: xx 1: xu 2: uu
        auto X = dyn(x), U = dyn(u), L = dyn(l); auto& b = which == 0 ? bxx : which == 1 ? bxu : buu; const char* w = which == 0 ? "hxx" : which == 1 ? "hxu" : "huu";
        bool ok;
        if (c) ok = which == 0 ? c->constraintSecondPartialDerivativeWRTState(t, X, U, L, b) : which == 1 ? c->constraintSecondPartialDerivativeWRTStateControl(t, X, U, L, b) : c->constraintSecondPartialDerivativeWRTControl(t, X, U, L, b);
        else if (k) ok = which == 0 ? k->costSecondPartialDerivativeWRTState(t, X, U, b) : which == 1 ? k->costSecondPartialDerivativeWRTStateControl(t, X, U, b) : k->costSecondPartialDerivativeWRTControl(t, X, U, b);
        else { need(d->setControlInput(U), "control"); ok = which == 0 ? d->dynamicsSecondPartialDerivativeWRTState(t, X, L, b) : which == 1 ? d->dynamicsSecondPartialDerivativeWRTStateControl(t, X, L, b) : d->dynamicsSecondPartialDerivativeWRTControl(t, X, L, b); }
        need(ok, w); MX o = eig(b); size(o, which == 2 ? nu : nx, which == 0 ? nx : nu, w);
        return k ? MX(o * l(0)) : o;
    }
    // declared sparsity as a mask; which: 0 jx, 1 ju, 2 hxx, 3 hxu, 4 huu. false when nothing is declared
    bool mask(int which, MI& m) {
        oc::SparsityStructure sp; bool ok = false;
        if (c) ok = which == 0 ? c->constraintJacobianWRTStateSparsity(sp) : which == 1 ? c->constraintJacobianWRTControlSparsity(sp) : which == 2 ? c->constraintSecondPartialDerivativeWRTStateSparsity(sp) : which == 3 ? c->constraintSecondPartialDerivativeWRTStateControlSparsity(sp) : c->constraintSecondPartialDerivativeWRTControlSparsity(sp);
        else if (k) { if (which < 2) return false; ok = which == 2 ? k->costSecondPartialDerivativeWRTStateSparsity(sp) : which == 3 ? k->costSecondPartialDerivativeWRTStateControlSparsity(sp) : k->costSecondPartialDerivativeWRTControlSparsity(sp); }
        else ok = which == 0 ? d->dynamicsStateFirstDerivativeSparsity(sp) : which == 1 ? d->dynamicsControlFirstDerivativeSparsity(sp) : which == 2 ? d->dynamicsSecondPartialDerivativeWRTStateSparsity(sp) : which == 3 ? d->dynamicsSecondPartialDerivativeWRTStateControlSparsity(sp) : d->dynamicsSecondPartialDerivativeWRTControlSparsity(sp);
        if (!ok) return false;
        long R = which < 2 ? rows : which == 4 ? nu : nx, C = which == 0 || which == 2 ? nx : nu;
        m = MI::Zero(R, C);
        for (size_t i = 0; i < sp.size(); ++i) {
            size_t r = sp.nonZeroElementRows()[i], cc = sp.nonZeroElementColumns()[i];
            if (static_cast<long>(r) >= R || static_cast<long>(cc) >= C) fail("sparsity-range:" + kind, kind + " declares a non-zero at (" + std::to_string(r) + "," + std::to_string(cc) + ") outside a " + std::to_string(R) + "x" + std::to_string(C) + " matrix");
            m(static_cast<long>(r), static_cast<long>(cc)) = 1;
        }
        return true;
    }
};

struct Term {
    std::string kind; bool cost = false; long rows = 1;
    std::function<std::shared_ptr<Ops>()> make;                     // a fresh object, configured as generated
    std::function<VX(double, const VX&, const VX&)> ref;            // what it should evaluate to
    VX lb, ub;                                                      // expected bounds (+-inf when unbounded)
    bool hessians = true;
    double magnitude = 1.0;                                         // scale of the quantities that cancel in the value
};
inline std::shared_ptr<Ops> wrap(const Scene& s, const std::string& kind, long rows, std::shared_ptr<oc::Constraint> c) { auto o = std::make_shared<Ops>(kind, rows, s.x.n, s.u.n); o->c = c; return o; }
inline std::shared_ptr<Ops> wrap(const Scene& s, const std::string& kind, std::shared_ptr<oc::Cost> k) { auto o = std::make_shared<Ops>(kind, 1, s.x.n, s.u.n); o->k = k; return o; }
inline std::shared_ptr<Ops> wrapD(const Scene& s, const std::string& kind, std::shared_ptr<oc::DynamicalSystem> d) { auto o = std::make_shared<Ops>(kind, s.x.n, s.x.n, s.u.n); o->d = d; return o; }

inline void closeTo(const std::string& sig, const MX& a, const MX& b, double tol, const std::string& what) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) fail(sig, what + ": dimensions differ");
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j) {
        if (!(std::abs(a(i, j) - b(i, j)) <= tol * (1 + std::abs(b(i, j))))) {
            std::ostringstream o; o << what << ": entry (" << i << "," << j << ") is " << str(a(i, j)) << ", expected " << str(b(i, j)); fail(sig, o.str());
        }
    }
}
inline double norm1(const MX& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0.0; }

// extrapolated central differences (Ridders) of a vector function along one direction, with an error estimate per component
inline void ridders(const std::function<VX(double)>& f, double h, int levels, VX& der, VX& err) {
    std::vector<std::vector<VX>> A(static_cast<size_t>(levels));
    long n = 0;
    for (int i = 0; i < levels; ++i) {
        VX v = (f(h) - f(-h)) / (2 * h); n = v.size();
        auto& row = A[static_cast<size_t>(i)]; row.push_back(v);
        if (i == 0) { der = v; err = VX::Constant(n, 1e300); }
        double fac = 4.0;
        for (int j = 1; j <= i; ++j) {
            VX w = (row[static_cast<size_t>(j - 1)] * fac - A[static_cast<size_t>(i - 1)][static_cast<size_t>(j - 1)]) / (fac - 1); fac *= 4.0;
            VX e = (w - row[static_cast<size_t>(j - 1)]).cwiseAbs().cwiseMax((w - A[static_cast<size_t>(i - 1)][static_cast<size_t>(j - 1)]).cwiseAbs());
            for (long c = 0; c < n; ++c) if (e(c) < err(c)) { err(c) = e(c); der(c) = w(c); }
            row.push_back(w);
        }
        h *= 0.5;
    }
}

struct DiffOptions { double h = 0.05; int levels = 9; double tol = 1e-6; int dirs = 2; };

// a direction touching either every variable or one labelled block or a single entry
inline VX genDirection(Gen& g, const Layout& l) {
    VX d = VX::Zero(l.n);
    switch (g.below(3)) {
    case 0: for (long i = 0; i < l.n; ++i) d(i) = g.real(-1, 1); break;
    case 1: { auto it = l.at.begin(); std::advance(it, g.below(l.at.size())); for (long i = 0; i < it->second.second; ++i) d(it->second.first + i) = g.real(-1, 1); break; }
    default: d(static_cast<long>(g.below(static_cast<uint64_t>(l.n)))) = 1;
    }
    if (d.norm() < 0.05 && l.n) d(static_cast<long>(g.below(static_cast<uint64_t>(l.n)))) = 1;
    return d;
}

inline void compareDerivative(Gen& g, const std::string& sig, const std::string& what, const VX& analytic, const std::function<VX(double)>& f, const DiffOptions& o, double scale) {
    VX der, err; ridders(f, o.h, o.levels, der, err);
    double s = 1 + norm1(der) + scale;
    for (long i = 0; i < analytic.size(); ++i) {
        if (!std::isfinite(analytic(i))) fail(sig, what + " is not finite");
        if (err(i) > 1e-3 * s) { g.classify("inconclusive"); continue; }
        if (std::abs(analytic(i) - der(i)) > o.tol * s + 50 * err(i)) {
            fail(sig, what + ": component " + std::to_string(i) + " is " + str(analytic(i)) + " but the differences of the values give " + str(der(i)) + " (+-" + str(err(i)) + ")");
        }
    }
}

inline std::string nameOf(const Layout& l, long i) { for (auto& e : l.at) if (i >= e.second.first && i < e.second.first + e.second.second) return e.first + "[" + std::to_string(i - e.second.first) + "]"; return std::to_string(i); }
// compares a matrix with the differences of f along a direction; on a mismatch names the variables responsible
inline void compareAlong(Gen& g, const std::string& sig, const std::string& what, const Layout& L, const VX& dir, const MX& J, const std::function<VX(const VX&, double)>& f, const DiffOptions& o, double scale) {
    try { compareDerivative(g, sig, what, J * dir, [&](double e) { return f(dir, e); }, o, scale); }
    catch (const pbt::Fail& F) {
        std::string names; int n = 0;
        for (long i = 0; i < L.n && n < 12; ++i) if (dir(i) != 0.0) { VX d = VX::Zero(L.n); d(i) = 1; try { compareDerivative(g, sig, what, J * d, [&](double e) { return f(d, e); }, o, scale); } catch (const pbt::Fail&) { names += " " + nameOf(L, i); ++n; } }
        fail(F.sig, F.msg + (names.empty() ? "" : "; wrong with respect to" + names));
    }
}
// first derivatives of one term at a point
inline void checkFirst(Gen& g, const Scene& s, Ops& op, double t, const VX& x, const VX& u, const DiffOptions& o) {
    MX jx = op.jx(t, x, u), ju = op.ju(t, x, u); double fs = 1e-6 * norm1(op.value(t, x, u));
    for (int k = 0; k < o.dirs; ++k) {
        VX dx = genDirection(g, s.x), du = genDirection(g, s.u);
        compareAlong(g, "state-jacobian:" + op.kind, "state derivative of " + op.kind, s.x, dx, jx, [&](const VX& d, double e) { return op.value(t, x + e * d, u); }, o, fs);
        compareAlong(g, "control-jacobian:" + op.kind, "control derivative of " + op.kind, s.u, du, ju, [&](const VX& d, double e) { return op.value(t, x, u + e * d); }, o, fs);
    }
}
inline void checkSecond(Gen& g, const Scene& s, Ops& op, double t, const VX& x, const VX& u, const VX& l, const DiffOptions& o) {
    MX xx = op.hess(0, t, x, u, l), xu = op.hess(1, t, x, u, l), uu = op.hess(2, t, x, u, l);
    closeTo("hessian-symmetry:" + op.kind, xx, xx.transpose(), 1e-9, "state second derivative of " + op.kind + " is not symmetric"); closeTo("hessian-symmetry:" + op.kind, uu, uu.transpose(), 1e-9, "control second derivative of " + op.kind + " is not symmetric");
    double fx = 1e-6 * norm1(op.jx(t, x, u).transpose() * l), fu = 1e-6 * norm1(op.ju(t, x, u).transpose() * l);
    for (int k = 0; k < o.dirs; ++k) {
        VX dx = genDirection(g, s.x), du = genDirection(g, s.u);
        compareAlong(g, "state-hessian:" + op.kind, "second state derivative of " + op.kind, s.x, dx, xx, [&](const VX& d, double e) { return VX(op.jx(t, x + e * d, u).transpose() * l); }, o, fx);
        compareAlong(g, "mixed-hessian:" + op.kind, "state-control second derivative of " + op.kind, s.u, du, xu, [&](const VX& d, double e) { return VX(op.jx(t, x, u + e * d).transpose() * l); }, o, fx);
        compareAlong(g, "control-hessian:" + op.kind, "second control derivative of " + op.kind, s.u, du, uu, [&](const VX& d, double e) { return VX(op.ju(t, x, u + e * d).transpose() * l); }, o, fu);
    }
}
inline void checkMask(const std::string& sig, const std::string& what, const MX& m, const MI& mask) {
    double zero = 1e-13 * (1 + norm1(m));          // rounding left by an analytically vanishing product is a zero
    for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) if (!(std::abs(m(i, j)) <= zero) && !mask(i, j))
        fail(sig, what + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ") = " + str(m(i, j)) + " is outside the declared non-zero pattern");
}
inline void checkSparsity(Ops& op, double t, const VX& x, const VX& u, const VX& l, bool hessians) {
    MI m; const char* nm[5] = {"state derivative", "control derivative", "second state derivative", "state-control second derivative", "second control derivative"};
    for (int w = 0; w < (hessians ? 5 : 2); ++w) if (op.mask(w, m)) {
        MX v = w == 0 ? op.jx(t, x, u) : w == 1 ? op.ju(t, x, u) : op.hess(w - 2, t, x, u, l);
        checkMask("sparsity:" + op.kind, std::string(nm[w]) + " of " + op.kind, v, m);
    }
}
inline VX genLambda(Gen& g, long n) { VX l(n); for (long i = 0; i < n; ++i) l(i) = g.chance(15) ? 0.0 : g.real(-2, 2); return l; }

// every quantity of a term that has a history must equal that of a fresh one
inline void checkQuantity(Gen& g, const Term& T, Ops& old, int q, double t, const VX& x, const VX& u, const VX& l) {
    auto fresh = T.make(); MX a, b; const char* nm[6] = {"value", "state derivative", "control derivative", "second state derivative", "state-control second derivative", "second control derivative"};
    (void)g;
    auto get = [&](Ops& o) -> MX { return q == 0 ? MX(o.value(t, x, u)) : q == 1 ? o.jx(t, x, u) : q == 2 ? o.ju(t, x, u) : o.hess(q - 3, t, x, u, l); };
    a = get(old); b = get(*fresh);
    if (a.allFinite() != b.allFinite()) fail("history:" + T.kind, std::string(nm[q]) + " of " + T.kind + " depends on earlier evaluations: " + (a.allFinite() ? "finite, a fresh object gives a non-finite one" : "not finite, a fresh object gives a finite one"));
    if (!b.allFinite()) return;
    double sc = 1e-9 * (1 + norm1(b));
    if (!(norm1(a - b) <= sc)) { long r, c; (a - b).cwiseAbs().maxCoeff(&r, &c);
        fail("history:" + T.kind, std::string(nm[q]) + " of " + T.kind + " depends on earlier evaluations: entry (" + std::to_string(r) + "," + std::to_string(c) + ") is " + str(a(r, c)) + ", a fresh object gives " + str(b(r, c))); }
}
} // namespace scene
