// C09: the shared kinematics/dynamics service against freshly configured iDynTree computations.
#include <levi/levi.h>
#include "pbt.h"
#include "models.h"
#include <DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h>
#include <DynamicalPlannerPrivate/Utilities/TimelySharedKinDynComputations.h>
#include <thread>
#include <mutex>
#include <atomic>
using namespace pbt;
using namespace DynamicalPlanner::Private;
using V3 = Eigen::Vector3d; using V4 = Eigen::Vector4d; using M3 = Eigen::Matrix3d; using MX = Eigen::MatrixXd; using VX = Eigen::VectorXd; using V6 = Eigen::Matrix<double, 6, 1>;
using iDynTree::FrameVelocityRepresentation;
static const FrameVelocityRepresentation REP[] = {FrameVelocityRepresentation::MIXED_REPRESENTATION, FrameVelocityRepresentation::BODY_FIXED_REPRESENTATION, FrameVelocityRepresentation::INERTIAL_FIXED_REPRESENTATION};

static RobotState genState(Gen& g, unsigned n) {
    RobotState s; s.s.resize(n); s.s_dot.resize(n);
    for (unsigned i = 0; i < 3; ++i) { s.base_position(i) = g.real(-2, 2); s.base_linearVelocity(i) = g.real(-2, 2); }
    V4 q(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)); if (q.norm() < 1e-2) q = V4(1, 0, 0, 0);
    if (g.chance(70)) q.normalize(); iDynTree::toEigen(s.base_quaternion) = q;
    for (unsigned i = 0; i < 4; ++i) s.base_quaternionVelocity(i) = g.real(-2, 2);
    for (unsigned i = 0; i < n; ++i) { s.s(i) = g.real(-2, 2); s.s_dot(i) = g.real(-3, 3); }
    return s;
}
// changes one component, by an amount far above the tolerance of the service
static void nudge(Gen& g, RobotState& s, double d) {
    switch (g.below(6)) {
    case 0: s.base_position(static_cast<unsigned>(g.below(3))) += d; break;
    case 1: s.base_quaternion(static_cast<unsigned>(g.below(4))) += d; break;
    case 2: if (s.s.size()) s.s(static_cast<unsigned>(g.below(s.s.size()))) += d; break;
    case 3: s.base_linearVelocity(static_cast<unsigned>(g.below(3))) += d; break;
    case 4: s.base_quaternionVelocity(static_cast<unsigned>(g.below(4))) += d; break;
    default: if (s.s.size()) s.s_dot(static_cast<unsigned>(g.below(s.s.size()))) += d;
    }
}
static M3 skew(const V3& v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
struct Config { iDynTree::Model model; std::string base; V3 gravity; };

// reference: a new iDynTree object, loaded and configured for every single question
struct Ref {
    iDynTree::KinDynComputations k;
    Ref(const Config& c, const RobotState& s) {
        k.loadRobotModel(c.model); k.setFloatingBase(c.base); set(c, s);
    }
    void set(const Config& c, const RobotState& s) {
        V4 q = iDynTree::toEigen(s.base_quaternion); q.normalize(); double w = q(0); V3 r = q.tail<3>(); V4 qd = iDynTree::toEigen(s.base_quaternionVelocity);
        M3 R = M3::Identity() + 2 * w * skew(r) + 2 * skew(r) * skew(r);
        V3 om = 2 * (w * V3(qd.tail<3>()) - qd(0) * r - r.cross(V3(qd.tail<3>())));   // body angular velocity of a unit quaternion
        iDynTree::Rotation Ri; iDynTree::toEigen(Ri) = R; iDynTree::Position p(s.base_position(0), s.base_position(1), s.base_position(2));
        iDynTree::Twist t; for (unsigned i = 0; i < 3; ++i) { t.getLinearVec3()(i) = s.base_linearVelocity(i); t.getAngularVec3()(i) = om(i); }
        iDynTree::Vector3 gr; iDynTree::toEigen(gr) = c.gravity;
        k.setFrameVelocityRepresentation(FrameVelocityRepresentation::BODY_FIXED_REPRESENTATION);
        if (!k.setRobotState(iDynTree::Transform(Ri, p), s.s, t, s.s_dot, gr)) throw std::runtime_error("reference refused the state");
    }
};
static void same(const std::string& sig, const MX& a, const MX& b, double tol = 1e-9) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) fail(sig, "dimensions " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) + " expected " + std::to_string(b.rows()) + "x" + std::to_string(b.cols()));
    double e = models::maxAbs(a - b), s = 1 + models::maxAbs(b);
    if (!(e <= tol * s)) { std::ostringstream o; o << "difference " << e << " obtained\n" << a << "\nexpected\n" << b; fail(sig, o.str()); }
}
static MX mat(const iDynTree::MatrixDynSize& m) { return iDynTree::toEigen(m); }
static MX tr(const iDynTree::Transform& t) { auto h = t.asHomogeneousTransform(); return iDynTree::toEigen(h); }
static MX tw(const iDynTree::Twist& t) { V6 v; v << iDynTree::toEigen(t.getLinearVec3()), iDynTree::toEigen(t.getAngularVec3()); return v; }
static MX mo(const iDynTree::SpatialMomentum& t) { V6 v; v << iDynTree::toEigen(t.getLinearVec3()), iDynTree::toEigen(t.getAngularVec3()); return v; }
static iDynTree::LinkNetExternalWrenches genWrenches(Gen& g, const iDynTree::Model& m) {
    iDynTree::LinkNetExternalWrenches w(m); w.zero();
    for (size_t l = 0; l < m.getNrOfLinks(); ++l) if (g.chance(50)) for (unsigned i = 0; i < 6; ++i) w(static_cast<iDynTree::LinkIndex>(l))(i) = g.real(-20, 20);
    return w;
}
static V6 wv(const iDynTree::Wrench& t) { V6 v; v << iDynTree::toEigen(t.getLinearVec3()), iDynTree::toEigen(t.getAngularVec3()); return v; }
// static joint torques by virtual work, and the wrench each link receives from its parent
static VX staticTorques(Ref& r, const Config& c, const iDynTree::LinkNetExternalWrenches& w, std::vector<V6>& body) {
    const iDynTree::Model& m = c.model; VX t = VX::Zero(static_cast<long>(m.getNrOfDOFs())); body.clear();
    r.k.setFrameVelocityRepresentation(FrameVelocityRepresentation::BODY_FIXED_REPRESENTATION);
    for (size_t l = 0; l < m.getNrOfLinks(); ++l) {
        auto li = static_cast<iDynTree::LinkIndex>(l); auto T = r.k.getWorldTransform(li); auto I = m.getLink(li)->getInertia();
        V3 f = I.getMass() * (iDynTree::toEigen(T.getRotation()).transpose() * c.gravity); auto ci = I.getCenterOfMass(); V3 cm = iDynTree::toEigen(ci);
        V6 tot = wv(w(li)); tot.head<3>() += f; tot.tail<3>() += cm.cross(f); body.push_back(tot);
        iDynTree::MatrixDynSize J(6, 6 + static_cast<unsigned>(t.size())); r.k.getFrameFreeFloatingJacobian(li, J);
        t -= mat(J).rightCols(t.size()).transpose() * tot;
    }
    return t;
}

static void query(Gen& g, SharedKinDynComputations& k, const Config& c, const RobotState& s, bool rebased = false) {
    Ref r(c, s); const iDynTree::Model& m = c.model; auto rep = REP[g.below(3)];
    auto frame = [&] { return static_cast<iDynTree::FrameIndex>(g.below(m.getNrOfFrames())); };
    auto useRef = [&] { r.k.setFrameVelocityRepresentation(rep); };
    int q = static_cast<int>(g.below(16)); if (q == 10 && rebased) q = 9;   // iDynTree itself keeps mass matrix entries of an earlier base g.desc << "q" << q << " ";
    unsigned nd = static_cast<unsigned>(m.getNrOfDOFs()); iDynTree::MatrixDynSize J(6, 6 + nd), E(6, 6 + nd); iDynTree::FrameIndex f = frame(), f2 = frame(); bool byName = g.boolean();
    switch (q) {
    case 0: { auto a = k.getCenterOfMassPosition(s); auto b = r.k.getCenterOfMassPosition(); same("com", iDynTree::toEigen(a), iDynTree::toEigen(b)); break; }
    case 1: J.resize(3, 6 + nd); E.resize(3, 6 + nd); useRef(); if (!k.getCenterOfMassJacobian(s, J, rep)) fail("com-jacobian", "refused"); r.k.getCenterOfMassJacobian(E); same("com-jacobian", mat(J), mat(E)); break;
    case 2: same("world-transform", tr(byName ? k.getWorldTransform(s, m.getFrameName(f)) : k.getWorldTransform(s, f)), tr(r.k.getWorldTransform(f))); break;
    case 3: same("base-transform", tr(k.getBaseTransform(s)), tr(r.k.getWorldBaseTransform())); break;
    case 4: useRef(); if (!(byName ? k.getFrameFreeFloatingJacobian(s, m.getFrameName(f), J, rep) : k.getFrameFreeFloatingJacobian(s, f, J, rep))) fail("frame-jacobian", "refused"); r.k.getFrameFreeFloatingJacobian(f, E); same("frame-jacobian", mat(J), mat(E)); break;
    case 5: same("relative-transform", tr(byName ? k.getRelativeTransform(s, m.getFrameName(f), m.getFrameName(f2)) : k.getRelativeTransform(s, f, f2)), tr(r.k.getRelativeTransform(f, f2))); break;
    case 6: J.resize(6, nd); useRef(); if (!k.getRelativeJacobian(s, f, f2, J, rep)) fail("relative-jacobian", "refused"); E.resize(6, static_cast<unsigned>(m.getNrOfDOFs())); r.k.getRelativeJacobian(f, f2, E); same("relative-jacobian", mat(J), mat(E)); break;
    case 7: useRef(); same("frame-velocity", tw(byName ? k.getFrameVel(s, m.getFrameName(f), rep) : k.getFrameVel(s, f, rep)), tw(r.k.getFrameVel(f))); break;
    case 8: useRef(); same("momentum", mo(k.getLinearAngularMomentum(s, rep)), mo(r.k.getLinearAngularMomentum())); break;
    case 9: useRef(); if (!k.getLinearAngularMomentumJacobian(s, J, rep)) fail("momentum-jacobian", "refused"); r.k.getLinearAngularMomentumJacobian(E); same("momentum-jacobian", mat(J), mat(E)); break;
    case 10: J.resize(6 + nd, 6 + nd); E.resize(6 + nd, 6 + nd); useRef(); if (!k.getFreeFloatingMassMatrix(s, J, rep)) fail("mass-matrix", "refused"); r.k.getFreeFloatingMassMatrix(E); same("mass-matrix", mat(J), mat(E)); break;
    case 11: case 12: {
        auto w = genWrenches(g, m); iDynTree::FreeFloatingGeneralizedTorques t(m); iDynTree::LinkWrenches lw(m); std::vector<V6> body;
        if (!(q == 11 ? k.getStaticForces(s, w, t, lw) : k.getStaticForces(s, w, t))) fail("static-forces", "refused");
        VX e = staticTorques(r, c, w, body); VX got = iDynTree::toEigen(t.jointTorques()); same("static-torques", got, e, 1e-8);
        auto bi = m.getLinkIndex(c.base);
        auto wrenchOf = [&](iDynTree::LinkIndex root, iDynTree::LinkIndex excl) {      // what the part of the tree hanging from root needs from the rest
            V6 sum = V6::Zero(); std::vector<std::pair<iDynTree::LinkIndex, iDynTree::LinkIndex>> st{{root, excl}};
            while (!st.empty()) { auto x = st.back(); st.pop_back(); auto X = r.k.getRelativeTransform(root, x.first).asAdjointTransformWrench(); sum -= iDynTree::toEigen(X) * body[static_cast<size_t>(x.first)];
                for (unsigned nb = 0; nb < m.getNrOfNeighbors(x.first); ++nb) { auto o = m.getNeighbor(x.first, nb).neighborLink; if (o != x.second) st.emplace_back(o, x.first); } }
            return sum; };
        same("base-wrench", MX(wv(t.baseWrench())), MX(wrenchOf(bi, iDynTree::LINK_INVALID_INDEX)), 1e-8);
        if (q == 11) { iDynTree::Traversal tv; m.computeFullTreeTraversal(tv, bi);
            for (size_t l = 0; l < m.getNrOfLinks(); ++l) { auto li = static_cast<iDynTree::LinkIndex>(l); if (li == bi) continue; same("link-wrench", MX(wv(lw(li))), MX(wrenchOf(li, tv.getParentLinkFromLinkIndex(li)->getIndex())), 1e-8); } }
        break; }
    case 13: { if (!k.updateRobotState(s)) fail("update", "a well-sized state is refused"); if (!k.sameState(s)) fail("same-state", "the state just set is not the current one"); RobotState o = s; nudge(g, o, 0.01); bool diff = false;
        auto d = [&](const VX& a, const VX& b) { if ((a - b).cwiseAbs().size() && (a - b).cwiseAbs().maxCoeff() > 1e-3) diff = true; };
        d(iDynTree::toEigen(o.base_position), iDynTree::toEigen(s.base_position)); d(iDynTree::toEigen(o.base_quaternion), iDynTree::toEigen(s.base_quaternion)); d(iDynTree::toEigen(o.s), iDynTree::toEigen(s.s));
        d(iDynTree::toEigen(o.base_linearVelocity), iDynTree::toEigen(s.base_linearVelocity)); d(iDynTree::toEigen(o.base_quaternionVelocity), iDynTree::toEigen(s.base_quaternionVelocity)); d(iDynTree::toEigen(o.s_dot), iDynTree::toEigen(s.s_dot));
        if (diff && k.sameState(o)) fail("same-state", "a different state is said to be the current one");
        auto& cs = k.currentState(); same("current-state", iDynTree::toEigen(cs.s), iDynTree::toEigen(s.s), 1e-6); break; }
    case 14: { RobotState o = s; o.s.resize(s.s.size() + 1); o.s.zero(); iDynTree::MatrixDynSize X; if (k.getCenterOfMassJacobian(o, X)) fail("mis-sized", "a state with too many joints is accepted"); g.classify("mis-sized state"); break; }
    default: { useRef(); MX a = tw(k.getFrameVel(s, f, rep)); iDynTree::MatrixDynSize JJ(6, 6 + nd); k.getFrameFreeFloatingJacobian(s, f, JJ, FrameVelocityRepresentation::BODY_FIXED_REPRESENTATION);
        r.k.setFrameVelocityRepresentation(FrameVelocityRepresentation::BODY_FIXED_REPRESENTATION); VX nu(6 + static_cast<long>(m.getNrOfDOFs())); auto bt = r.k.getBaseTwist(); nu << tw(bt), iDynTree::toEigen(s.s_dot); same("jacobian-velocity", mat(JJ) * nu, tw(k.getFrameVel(s, f, FrameVelocityRepresentation::BODY_FIXED_REPRESENTATION))); r.k.setFrameVelocityRepresentation(rep); same("frame-velocity", a, tw(r.k.getFrameVel(f))); }
    }
}
static Config genConfig(Gen& g, bool anyBase = true) {
    Config c; unsigned n = static_cast<unsigned>(g.integer(1, 7)); c.model = models::genTree(g, n); c.base = anyBase && g.chance(50) ? c.model.getLinkName(static_cast<iDynTree::LinkIndex>(g.below(c.model.getNrOfLinks()))) : "root_link"; c.gravity = V3(0, 0, -9.81);
    return c;
}
static void service(Gen& g) {
    Config c = genConfig(g, false); unsigned n = static_cast<unsigned>(c.model.getNrOfDOFs());
    auto k = std::make_unique<SharedKinDynComputations>(); if (!k->loadRobotModel(c.model)) fail("load", "a valid model is refused");
    RobotState s = genState(g, n); int ops = static_cast<int>(g.integer(2, 14)); int queries = 0; bool changed = false, rebased = false;
    for (int o = 0; o < ops; ++o) {
        int op = static_cast<int>(g.below(12));
        if (op == 0) { c.base = c.model.getLinkName(static_cast<iDynTree::LinkIndex>(g.below(c.model.getNrOfLinks()))); g.desc << "base " << c.base << "; "; if (!k->setFloatingBase(c.base) || k->getFloatingBase() != c.base) fail("floating-base", "a valid base is refused"); if (queries) { g.classify("base changed after use"); rebased = true; } }
        else if (op == 1) { c.gravity = g.chance(30) ? V3(0, 0, 0) : V3(g.real(-10, 10), g.real(-10, 10), g.real(-10, 10)); iDynTree::Vector3 gr; iDynTree::toEigen(gr) = c.gravity; k->setGravity(gr); g.desc << "gravity; "; same("gravity", iDynTree::toEigen(k->gravity()), c.gravity); if (queries) g.classify("gravity changed after use"); }
        else if (op == 2) { double t = g.oneOf({1e-10, 1e-12, 1e-7, 1e-5}); if (k->setToleranceForUpdate(-t - 1e-9)) fail("tolerance", "a negative tolerance is accepted"); if (!k->setToleranceForUpdate(t) || k->getUpdateTolerance() != t) fail("tolerance", "a tolerance is refused"); }
        else if (op == 3) { auto k2 = std::make_unique<SharedKinDynComputations>(*k); if (k2->getFloatingBase() != c.base || k2->getUpdateTolerance() != k->getUpdateTolerance()) fail("copy", "a copy has another configuration"); k = std::move(k2); rebased = false; g.desc << "copy; "; g.classify("copied"); }
        else if (op <= 5) { s = genState(g, n); g.desc << "new state; "; }
        else if (op <= 8) { nudge(g, s, g.signedLog(1e-2, 1)); if (V4(iDynTree::toEigen(s.base_quaternion)).norm() < 1e-2) s.base_quaternion(0) = 1; g.desc << "nudge; "; changed = true; }
        query(g, *k, c, s, rebased); ++queries;
    }
    if (queries > 2 && changed) g.nontrivial();
    g.classify(std::to_string(n) + " joints");
}
// configuration derivatives against central differences of the reference
static void derivatives(Gen& g) {
    Config c = genConfig(g); unsigned n = static_cast<unsigned>(c.model.getNrOfDOFs()); const auto& m = c.model; g.desc << n << " joints, base " << c.base << " ";
    SharedKinDynComputations k; k.loadRobotModel(c.model); k.setFloatingBase(c.base);
    if (g.boolean()) { c.gravity = V3(g.real(-10, 10), g.real(-10, 10), g.real(-10, 10)); iDynTree::Vector3 gr; iDynTree::toEigen(gr) = c.gravity; k.setGravity(gr); }
    int rounds = static_cast<int>(g.integer(1, 3)); RobotState s = genState(g, n);
    for (int round = 0; round < rounds; ++round) {
        if (round) { if (g.boolean()) nudge(g, s, 0.3); else s = genState(g, n); if (V4(iDynTree::toEigen(s.base_quaternion)).norm() < 1e-2) s.base_quaternion(0) = 1; }
        auto f = static_cast<iDynTree::FrameIndex>(g.below(m.getNrOfFrames())); auto w = genWrenches(g, m); const double h = 1e-5;
        iDynTree::MatrixDynSize dv, dm, dt; int which = static_cast<int>(g.below(3));
        if (which == 0 && !k.getFrameVelJointsDerivative(s, f, dv)) fail("velocity-derivative", "refused");
        if (which == 1 && !k.getLinearAngularMomentumJointsDerivative(s, dm)) fail("momentum-derivative", "refused");
        if (which == 2 && !k.getStaticForcesJointsDerivative(s, w, dt)) fail("static-derivative", "refused");
        MX got = which == 0 ? mat(dv) : which == 1 ? mat(dm) : mat(dt);
        MX fd(which == 2 ? n : 6, n); Ref r(c, s);
        for (unsigned j = 0; j < n; ++j) {
            MX v[2];
            for (int side = 0; side < 2; ++side) { RobotState t = s; t.s(j) += side ? -h : h; r.set(c, t); std::vector<V6> b; r.k.setFrameVelocityRepresentation(FrameVelocityRepresentation::BODY_FIXED_REPRESENTATION);
                v[side] = which == 0 ? tw(r.k.getFrameVel(f)) : which == 1 ? mo(r.k.getLinearAngularMomentum()) : MX(staticTorques(r, c, w, b)); }
            fd.col(j) = (v[0] - v[1]) / (2 * h);
        }
        double scale = 1 + models::maxAbs(fd); static const char* nm[] = {"velocity-derivative", "momentum-derivative", "static-derivative"};
        same(nm[which], got / scale, fd / scale, 1e-6); g.classify(nm[which]);
    }
    if (n > 1) g.nontrivial();
}
static void timings(Gen& g) {
    Config c = genConfig(g); c.model = models::genTree(g, static_cast<unsigned>(g.integer(1, 3))); c.base = c.model.getLinkName(static_cast<iDynTree::LinkIndex>(g.below(c.model.getNrOfLinks())));
    TimelySharedKinDynComputations T; if (T.setTimings({0, 1})) fail("timings-before-model", "timings are accepted without a model");
    if (!T.loadRobotModel(c.model) || !T.setFloatingBase(c.base)) fail("timely-load", "model refused"); c.gravity = V3(g.real(-10, 10), 0, g.real(-10, 10)); iDynTree::Vector3 gr; iDynTree::toEigen(gr) = c.gravity; T.setGravity(gr); T.setToleranceForUpdate(1e-8);
    auto tmpl = T.get(g.real(-5, 5)); if (T.get(g.real(-5, 5)) != tmpl) fail("single-slot", "without timings there is more than one slot");
    int sets = static_cast<int>(g.integer(1, 4)); unsigned n = static_cast<unsigned>(c.model.getNrOfDOFs());
    for (int k = 0; k < sets; ++k) {
        std::vector<double> t; double x = g.real(-2, 2); size_t N = static_cast<size_t>(g.integer(1, 12)); for (size_t i = 0; i < N; ++i) { t.push_back(x); x += g.logReal(1e-3, 1.0); }
        g.desc << "set " << N << " times; "; if (!T.setTimings(t)) fail("set-timings", "refused");
        std::vector<SharedKinDynComputationsPointer> slot; std::vector<size_t> order; for (size_t i = 0; i < N; ++i) order.push_back(i);
        for (size_t i = N; i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
        slot.resize(N); for (size_t i : order) slot[i] = T.get(t[i]);
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) if (slot[i] == slot[j]) fail("slots-shared", "two evaluation times share the same computations after setting " + std::to_string(N) + " times");
        int asks = static_cast<int>(g.integer(1, 12));
        for (int a = 0; a < asks; ++a) {
            double y; int kind = static_cast<int>(g.below(4)); size_t i = g.below(N);
            if (kind == 0) y = t[i]; else if (kind == 1) y = t[i] + g.signedLog(1e-9, 1e-4); else if (kind == 2) y = g.real(t.front() - 1, t.back() + 1); else y = i + 1 < N ? (t[i] + t[i + 1]) / 2 + g.signedLog(1e-6, 1e-4) : t[i] + 100;
            auto p = T.get(y); size_t best = 0; for (size_t j = 1; j < N; ++j) if (std::fabs(y - t[j]) < std::fabs(y - t[best])) best = j;
            bool ok = false; for (size_t j = 0; j < N; ++j) if (std::fabs(y - t[j]) <= std::fabs(y - t[best]) + 1e-9 && p == slot[j]) ok = true;
            if (!ok) fail("closest-slot", "time " + str(y) + " is not served by the closest of " + std::to_string(N) + " times");
            if (p->getFloatingBase() != c.base || p->getUpdateTolerance() != 1e-8 || (iDynTree::toEigen(p->gravity()) - c.gravity).norm() > 1e-12) fail("slot-configuration", "a slot does not have the configuration of the template");
        }
        // what a slot knows does not depend on the other slots
        if (N > 1) { size_t i = g.below(N), j = (i + 1 + g.below(N - 1)) % N; RobotState a = genState(g, n), b = genState(g, n); slot[i]->updateRobotState(a); slot[j]->updateRobotState(b); if (!slot[i]->sameState(a)) fail("slot-independence", "updating one slot changes another"); query(g, *slot[i], c, a); query(g, *slot[j], c, b); g.nontrivial(); }
        if (k) g.classify("timings set again");
    }
}
// concurrent users of one service each get the answer for the state they asked about
static void threads(Gen& g) {
    Config c = genConfig(g); unsigned n = static_cast<unsigned>(c.model.getNrOfDOFs()); SharedKinDynComputations k; k.loadRobotModel(c.model); k.setFloatingBase(c.base);
    const int T = 3; std::vector<RobotState> st; std::vector<int> kind; std::vector<FrameVelocityRepresentation> rep; std::vector<MX> expect; auto w = genWrenches(g, c.model); auto f = static_cast<iDynTree::FrameIndex>(g.below(c.model.getNrOfFrames()));
    auto ask = [&](int t) { iDynTree::MatrixDynSize J(6, 6 + n);
        auto s = st[static_cast<size_t>(t)]; auto r = rep[static_cast<size_t>(t)];
        switch (kind[static_cast<size_t>(t)]) { case 0: k.getFrameFreeFloatingJacobian(s, f, J, r); return mat(J); case 1: return tw(k.getFrameVel(s, f, r)); case 2: k.getLinearAngularMomentumJacobian(s, J, r); return mat(J); case 3: return mo(k.getLinearAngularMomentum(s, r));
            case 4: return tr(k.getWorldTransform(s, f)); case 5: k.getLinearAngularMomentumJointsDerivative(s, J); return mat(J); case 6: k.getStaticForcesJointsDerivative(s, w, J); return mat(J); case 7: k.getFrameVelJointsDerivative(s, f, J); return mat(J); case 8: J.resize(3, 6 + n); k.getCenterOfMassJacobian(s, J, r); return mat(J);
            case 9: J.resize(6 + n, 6 + n); k.getFreeFloatingMassMatrix(s, J, r); return mat(J); case 10: { iDynTree::FreeFloatingGeneralizedTorques t2(c.model); k.getStaticForces(s, w, t2); return MX(iDynTree::toEigen(t2.jointTorques())); }
            case 11: return tr(k.getRelativeTransform(s, 0, f)); case 12: J.resize(6, n); k.getRelativeJacobian(s, 0, f, J, r); return mat(J); default: { auto p = k.getCenterOfMassPosition(s); return MX(iDynTree::toEigen(p)); } } };
    for (int t = 0; t < T; ++t) { st.push_back(genState(g, n)); kind.push_back(static_cast<int>(g.below(14))); rep.push_back(REP[g.below(3)]); g.desc << "thread asks " << kind.back() << "; "; expect.push_back(ask(t)); }
    std::atomic<int> bad{-1}; std::atomic<bool> go{false}; std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { while (!go) std::this_thread::yield(); for (int i = 0; i < 1500 && bad < 0; ++i) { MX a = ask(t); if (a.rows() != expect[static_cast<size_t>(t)].rows() || !(models::maxAbs(a - expect[static_cast<size_t>(t)]) <= 1e-9 * (1 + models::maxAbs(expect[static_cast<size_t>(t)])))) bad = t; } });
    go = true; for (auto& x : th) x.join();
    if (bad >= 0) fail("concurrent-users", "a thread got the answer for another state, representation or query (kind " + std::to_string(kind[static_cast<size_t>(bad.load())]) + ")");
    g.nontrivial();
}
int main(int argc, char** argv) {
    Suite s; s.property = "C09";
    s.rule = "service: at least three queries with a single-component state change in between; derivatives: more than one joint; timings: two or more slots used together; threads: always; distinct by generated choices";
    s.assumptions = {"revolute joints only (the planner refuses others by assertion)", "iDynTree's KinDynComputations configured afresh is the reference", "evaluation times differ by at least 1e-3 and states by at least 1e-2 (the service's update tolerance is at most 1e-5)"};
    s.aspects = {{"service", 100000, 2000000, service}, {"derivatives", 40000, 600000, derivatives}, {"timings", 40000, 600000, timings}, {"threads", 300, 5000, threads}};
    s.quickBudget = 120; s.thoroughBudget = 900;
    Runner r(s); return r.main(argc, argv);
}
