// C13: the shared kinematic expressions: values and derivatives for the state the server was last updated with.
#include "bodies.h"
#include <DynamicalPlannerPrivate/Utilities/levi/MomentumInBaseExpression.h>
#include <DynamicalPlannerPrivate/Utilities/levi/TransformExpression.h>
#include <DynamicalPlannerPrivate/Utilities/levi/QuaternionExpressions.h>
using namespace scene; using pbt::Suite; using pbt::Runner; using M6 = Eigen::Matrix<double, 6, 6>;

// everything the expressions may depend on
struct Z { V3 p; V4 q; V3 vb; V4 qd; VX s, sd; VX tw[2]; V4 des[2];
    VX pack() const { VX v(26 + 2 * s.size()); v << p, q, vb, qd, s, sd, tw[0], tw[1]; return v; }
    void unpack(const VX& v) { long n = s.size(); p = v.segment(0, 3); q = v.segment(3, 4); vb = v.segment(7, 3); qd = v.segment(10, 4); s = v.segment(14, n); sd = v.segment(14 + n, n); tw[0] = v.segment(14 + 2 * n, 6); tw[1] = v.segment(20 + 2 * n, 6); } };
using DP::RobotState;
static RobotState toState(const Z& z) {
    RobotState r; for (unsigned i = 0; i < 3; ++i) { r.base_position(i) = z.p(i); r.base_linearVelocity(i) = z.vb(i); } for (unsigned i = 0; i < 4; ++i) { r.base_quaternion(i) = z.q(i); r.base_quaternionVelocity(i) = z.qd(i); }
    r.s = dyn(z.s); r.s_dot = dyn(z.sd); return r;
}
static V4 genQuat(Gen& g) { V4 q(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)); if (q.norm() < 0.3) q = V4(1, 0, 0, 0); return q; }
static VX genVec(Gen& g, long n, double s) { VX v(n); for (long i = 0; i < n; ++i) v(i) = g.chance(10) ? 0.0 : g.real(-s, s); return v; }
static Z genZ(Gen& g, long n) { Z z; z.p = genVec(g, 3, 1); z.q = genQuat(g); if (g.chance(60)) z.q.normalize(); z.vb = genVec(g, 3, 2); z.qd = genVec(g, 4, 2); z.s = genVec(g, n, 2); z.sd = genVec(g, n, 3); for (int i = 0; i < 2; ++i) { z.tw[i] = genVec(g, 6, 2); z.des[i] = genQuat(g).normalized(); } return z; }
static void moveZ(Gen& g, Z& z) {
    if (g.chance(15)) return;
    Z o = genZ(g, z.s.size()); if (g.chance(25)) { z = o; return; }
    for (int k = static_cast<int>(g.integer(1, 2)); k > 0; --k) switch (g.below(8)) { case 0: z.p = o.p; break; case 1: z.q = o.q; break; case 2: z.vb = o.vb; break; case 3: z.qd = o.qd; break; case 4: z.s = o.s; break; case 5: z.sd = o.sd; break; case 6: z.tw[g.below(2)] = o.tw[0]; break; default: { long i = static_cast<long>(g.below(static_cast<uint64_t>(z.s.size()))); z.s(i) = o.s(i); } }
}
// the robot seen by plain iDynTree, with nothing but elementary spatial algebra on top
struct World {
    iDynTree::Model model; std::string base; std::shared_ptr<iDynTree::KinDynComputations> k; long n; std::vector<std::string> frames, links; double mass = 0;
    void init() { k = std::make_shared<iDynTree::KinDynComputations>(); k->loadRobotModel(model); if (!k->setFloatingBase(base)) throw std::runtime_error("floating base"); k->setFrameVelocityRepresentation(iDynTree::BODY_FIXED_REPRESENTATION);
        n = static_cast<long>(model.getNrOfDOFs()); for (size_t f = 0; f < model.getNrOfFrames(); ++f) frames.push_back(model.getFrameName(static_cast<int>(f)));
        for (size_t l = 0; l < model.getNrOfLinks(); ++l) { links.push_back(model.getLinkName(static_cast<int>(l))); mass += model.getLink(static_cast<int>(l))->getInertia().getMass(); } }
    void put(const VX& s) const { iDynTree::Vector3 gr; gr.zero(); VX z = VX::Zero(n); k->setRobotState(iDynTree::Transform::Identity(), dyn(s), iDynTree::Twist::Zero(), dyn(z), gr); }
    M3 R(const VX& s, const std::string& a, const std::string& b) const { put(s); return iDynTree::toEigen(k->getRelativeTransform(a, b).getRotation()); }
    V3 p(const VX& s, const std::string& a, const std::string& b) const { put(s); return iDynTree::toEigen(k->getRelativeTransform(a, b).getPosition()); }
    M6 X(const VX& s, const std::string& a, const std::string& b) const { M3 r = R(s, a, b); V3 t = p(s, a, b); M6 m; m << r, skewM(t) * r, M3::Zero(), r; return m; }
    M6 Xw(const VX& s, const std::string& a, const std::string& b) const { M3 r = R(s, a, b); V3 t = p(s, a, b); M6 m; m << r, M3::Zero(), skewM(t) * r, r; return m; }
    MX J(const VX& s, const std::string& a) const { put(s); iDynTree::MatrixDynSize j(6, static_cast<unsigned>(6 + n)); k->getFrameFreeFloatingJacobian(a, j); return eig(j).rightCols(n); }
    MX J(const VX& s, const std::string& a, const std::string& b) const { return J(s, b) - X(s, b, a) * J(s, a); }
    V3 com(const VX& s) const { put(s); return iDynTree::toEigen(k->getCenterOfMassPosition()); }
    M6 I(size_t l) const { return iDynTree::toEigen(model.getLink(static_cast<int>(l))->getInertia().asMatrix()); }
    VX vel(const Z& z, const std::string& f, const VX& twist) const { return J(z.s, base, f) * z.sd + X(z.s, f, base) * twist; }
    VX twist(const Z& z) const { V4 q = z.q.normalized(); V3 i = q.tail<3>(), id = z.qd.tail<3>(); V3 w = 2 * (q(0) * id - z.qd(0) * i - i.cross(id)); VX t(6); t << z.vb, w; return t; }
    VX momentum(const Z& z, const VX& tw) const { VX h = VX::Zero(6); for (size_t l = 0; l < links.size(); ++l) h += Xw(z.s, base, links[l]) * I(l) * vel(z, links[l], tw); return h; }
};
struct Exp { std::string name; levi::Expression e; std::function<MX(const Z&)> ref; bool twist = false, linear = false; };
struct Service {
    World w; std::shared_ptr<DP::TimelySharedKinDynComputations> tk; std::shared_ptr<DP::ExpressionsServer> es; levi::Variable tw[2], des[2]; std::vector<double> times;
    void build(const char* n0, const char* n1) {
        tk = std::make_shared<DP::TimelySharedKinDynComputations>(); if (!tk->loadRobotModel(w.model) || !tk->setFloatingBase(w.base) || !tk->setTimings(times)) throw std::runtime_error("the kinematics service refused the model");
        es = std::make_shared<DP::ExpressionsServer>(tk); tw[0] = levi::Variable(6, n0); tw[1] = levi::Variable(6, n1); des[0] = levi::Variable(4, "des0"); des[1] = levi::Variable(4, "des1");
    }
    void leaves(const Z& z) { for (int i = 0; i < 2; ++i) { tw[i] = z.tw[i]; des[i] = z.des[i]; } }
    void update(double t, const Z& z) { if (!es->updateRobotState(t, toState(z))) fail("refused-state", "a state of the right size is refused"); leaves(z); }
};
static levi::Variable variable(Service& S, int v) { switch (v) { case 0: return S.es->basePosition(); case 1: return S.es->baseQuaternion(); case 2: return S.es->baseLinearVelocity(); case 3: return S.es->baseQuaternionVelocity(); case 4: return S.es->jointsPosition(); case 5: return S.es->jointsVelocity(); case 6: return S.tw[0]; default: return S.tw[1]; } }
static const char* VARN[] = {"base position", "base quaternion", "base linear velocity", "base quaternion velocity", "joints", "joint velocities", "first twist", "second twist"};
static std::pair<long, long> place(long n, int v) { switch (v) { case 0: return {0, 3}; case 1: return {3, 4}; case 2: return {7, 3}; case 3: return {10, 4}; case 4: return {14, n}; case 5: return {14 + n, n}; case 6: return {14 + 2 * n, 6}; default: return {20 + 2 * n, 6}; } }
static VX jointSubspace(const World& w, long j, long parent, long child) {  // from the kinematics: twist of the child in its own frame for a unit joint rate
    VX s = VX::Zero(w.n); return w.J(s, w.links[static_cast<size_t>(parent)], w.links[static_cast<size_t>(child)]).col(j);
}
static V4 positiveQuat(const M3& R) { return iDynTree::toEigen(toRot(R).asQuaternion()); }
static const int KINDS = 28;
static Exp genExp(Gen& g, Service& S, int kind) {
    Exp E; const World* w = &S.w; auto& es = *S.es; auto fr = [&] { return w->frames[g.below(w->frames.size())]; }; std::string a = fr(), b = fr(); if (g.chance(25)) a = w->base; int k = static_cast<int>(g.below(2)); levi::Variable tw = S.tw[k];
    size_t l = g.below(w->links.size()); std::string ab = "(" + a + "," + b + ")"; auto vx = [](const VX& v) { return MX(v); };
    switch (kind) {
    case 0: E = {"baseRotation", es.baseRotation(), [](const Z& z) { return MX(quatR(z.q)); }}; break;
    case 1: E = {"normalizedBaseQuaternion", es.normalizedBaseQuaternion(), [](const Z& z) { return MX(z.q.normalized()); }}; break;
    case 2: E = {"baseTwist", es.baseTwist(), [=](const Z& z) { return vx(w->twist(z)); }}; break;
    case 3: E = {"worldToBase.position", es.worldToBase().position(), [](const Z& z) { return MX(z.p); }}; break;
    case 4: E = {"worldToBase.rotation", es.worldToBase().rotation(), [](const Z& z) { return MX(quatR(z.q)); }}; break;
    case 5: E = {"comInBase", es.comInBase(), [=](const Z& z) { return MX(w->com(z.s)); }}; break;
    case 6: E = {"worldToBase*comInBase", es.worldToBase() * es.comInBase(), [=](const Z& z) { return MX(z.p + quatR(z.q) * w->com(z.s)); }}; break;
    case 7: E = {"adjointTransform" + ab, es.adjointTransform(a, b), [=](const Z& z) { return MX(w->X(z.s, a, b)); }}; break;
    case 8: E = {"adjointTransformWrench" + ab, es.adjointTransformWrench(a, b), [=](const Z& z) { return MX(w->Xw(z.s, a, b)); }}; break;
    case 9: E = {"relativePosition" + ab, es.relativePosition(a, b), [=](const Z& z) { return MX(w->p(z.s, a, b)); }}; break;
    case 10: E = {"relativeQuaternion" + ab, es.relativeQuaternion(a, b), [=](const Z& z) { return MX(positiveQuat(w->R(z.s, a, b))); }}; break;
    case 11: E = {"relativeRotation" + ab, es.relativeRotation(a, b), [=](const Z& z) { return MX(w->R(z.s, a, b)); }}; break;
    case 12: E = {"relativeTransform.position" + ab, es.relativeTransform(a, b).position(), [=](const Z& z) { return MX(w->p(z.s, a, b)); }}; break;
    case 13: E = {"relativeTransform.rotation" + ab, es.relativeTransform(a, b).rotation(), [=](const Z& z) { return MX(w->R(z.s, a, b)); }}; break;
    case 14: { std::string c = fr(); auto T = es.relativeTransform(a, b) * es.relativeTransform(b, c); E = {"composed transform " + a + "," + b + "," + c, T.position(), [=](const Z& z) { return MX(w->p(z.s, a, c)); }}; if (g.boolean()) { E.e = T.rotation(); E.ref = [=](const Z& z) { return MX(w->R(z.s, a, c)); }; } break; }
    case 15: E = {"relativeLeftJacobian" + ab, es.relativeLeftJacobian(a, b), [=](const Z& z) { return w->J(z.s, a, b); }}; break;
    case 16: E = {"relativeVelocity" + ab, es.relativeVelocity(a, b), [=](const Z& z) { return MX(w->J(z.s, a, b) * z.sd); }}; break;
    case 17: E = {"absoluteVelocity(" + b + ")", es.absoluteVelocity(b), [=](const Z& z) { return vx(w->vel(z, b, w->twist(z))); }}; break;
    case 18: E = {"absoluteVelocity(" + b + "," + tw.name() + ")", es.absoluteVelocity(b, tw), [=](const Z& z) { return vx(w->vel(z, b, z.tw[k])); }, true}; break;
    case 19: { MX I = w->I(l); E = {"linkInertia(" + w->links[l] + ")", es.linkInertia(static_cast<long>(l)), [=](const Z&) { return I; }}; break; }
    case 20: E = {"linkInertiaInBase(" + w->links[l] + ")", es.linkInertiaInBase(static_cast<long>(l)), [=](const Z& z) { return MX(w->Xw(z.s, w->base, w->links[l]) * w->I(l)); }}; break;
    case 21: E = {"compositeRigidBodyInertia", es.compositeRigidBodyInertia(), [=](const Z& z) { MX m = MX::Zero(6, 6); for (size_t i = 0; i < w->links.size(); ++i) m += w->Xw(z.s, w->base, w->links[i]) * w->I(i) * w->X(z.s, w->links[i], w->base); return m; }}; break;
    case 22: E = {"momentumInBase(" + tw.name() + ")", DP::MomentumInBaseExpression(&es, tw), [=](const Z& z) { return vx(w->momentum(z, z.tw[k])); }, true, true}; break;   // its joint derivative is only offered for the twist of the robot
    case 23: E = {"quaternionError(" + b + "," + S.des[k].name() + ")", es.quaternionError(b, S.des[k]), [=](const Z& z) { return MX(positiveQuat(quatR(z.des[k]).transpose() * quatR(z.q) * w->R(z.s, w->base, b))); }}; break;
    default: {
        long j = static_cast<long>(g.below(static_cast<uint64_t>(w->n))); auto jp = w->model.getJoint(static_cast<int>(j)); long p = jp->getFirstAttachedLink(), c = jp->getSecondAttachedLink(); if (g.boolean()) std::swap(p, c); VX m = jointSubspace(*w, j, p, c); std::string at = "(" + w->model.getJointName(static_cast<int>(j)) + "," + std::to_string(p) + "," + std::to_string(c) + ")";
        M6 x; x << skewM(m.tail(3)), skewM(m.head(3)), M3::Zero(), skewM(m.tail(3)); MX xw = -x.transpose();
        if (kind == 24) E = {"motionSubSpaceVector" + at, es.motionSubSpaceVector(j, p, c), [=](const Z&) { return MX(m); }};
        else if (kind == 25) E = {"motionSubSpaceAsCrossProduct" + at, es.motionSubSpaceAsCrossProduct(j, p, c), [=](const Z&) { return MX(x); }};
        else if (kind == 26) E = {"motionSubSpaceAsCrossProductWrench" + at, es.motionSubSpaceAsCrossProductWrench(j, p, c), [=](const Z&) { return xw; }};
        else E = {"momentumInBase(baseTwist)", DP::MomentumInBaseExpression(&es, es.baseTwist().asVariable()), [=](const Z& z) { return vx(w->momentum(z, w->twist(z))); }};
    } }
    g.classify(E.name.substr(0, E.name.find('(')));
    return E;
}
// names whose concatenations coincide
static std::vector<std::string> tricky(Gen& g, size_t n) { std::vector<std::string> pool{"a", "b", "aa", "ab", "ba", "bb", "aab", "aba", "baa", "abb", "bab", "bba", "aaa", "bbb", "a1", "1a", "11", "1", "b1", "__0", "a__0", "__1"}, o; while (o.size() < n && !pool.empty()) { size_t i = g.below(pool.size()); o.push_back(pool[i]); pool.erase(pool.begin() + static_cast<long>(i)); } return o; }
static void build(Gen& g, Service& S, unsigned joints, unsigned minJoints = 1) {
    unsigned n = static_cast<unsigned>(g.integer(static_cast<int>(minJoints), static_cast<int>(joints))); models::TreeOptions o;
    if (g.chance(60)) { auto v = tricky(g, n + 4); for (size_t i = 0; i < v.size(); ++i) if (i <= n) o.links.push_back(v[i]); o.frames.assign(v.begin() + static_cast<long>(std::min<size_t>(n + 1, v.size())), v.end()); }
    if (g.chance(60)) { std::vector<std::string> j{"j", "j1", "j11", "1", "11", "j111", "1j", "j2", "j12", "12", "2", "21", "121", "112"}; for (unsigned i = 0; i < n && !j.empty(); ++i) { size_t k = g.below(j.size()); o.joints.push_back(j[k]); j.erase(j.begin() + static_cast<long>(k)); } }
    S.w.model = models::genTree(g, n, o); S.w.base = S.w.model.getLinkName(g.chance(70) ? 0 : static_cast<int>(g.below(S.w.model.getNrOfLinks()))); S.w.init(); S.times = {0.0, 1.0}; if (g.boolean()) S.times.push_back(2.0);
    bool t = g.chance(50); S.build(t ? "a" : "twist0", t ? "ba" : "twist1");
    g.desc << n << " joints, base " << S.w.base << ", frames"; for (auto& f : S.w.frames) g.desc << " " << f; g.desc << ": ";
}
static void checkValue(const Exp& E, const Z& z) {
    levi::Expression e = E.e; MX v = e.evaluate(), r = E.ref(z); std::string k = E.name.substr(0, E.name.find('('));
    if (v.rows() != r.rows() || v.cols() != r.cols()) fail("size:" + k, E.name + " is " + std::to_string(v.rows()) + "x" + std::to_string(v.cols()) + ", expected " + std::to_string(r.rows()) + "x" + std::to_string(r.cols()));
    if (!(norm1(v - r) <= 1e-8 * (1 + norm1(r)))) { long i, j; (v - r).cwiseAbs().maxCoeff(&i, &j); fail("value:" + k, E.name + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + str(v(i, j)) + ", expected " + str(r(i, j))); }
}
static bool nearFlip(const Exp& E, const Z& z) { return (E.name.compare(0, 18, "relativeQuaternion") == 0 || E.name.compare(0, 15, "quaternionError") == 0) && std::abs(E.ref(z)(0, 0)) < 0.15; }   // a quaternion changes sign at half a turn
static void checkFirst(Gen& g, Service& S, const Exp& E, const Z& z, int v) {
    if (nearFlip(E, z)) throw pbt::Discard{};
    auto pl = place(S.w.n, v); levi::Expression e = E.e; long c = static_cast<long>(g.below(static_cast<uint64_t>(e.cols()))); MX D = e.getColumnDerivative(c, variable(S, v)).evaluate(); std::string k = E.name.substr(0, E.name.find('('));
    if (D.rows() != e.rows() || D.cols() != pl.second) fail("derivative-size:" + k, "the derivative of " + E.name + " with respect to the " + VARN[v] + " has the wrong size");
    VX d(pl.second); for (long i = 0; i < d.size(); ++i) d(i) = g.real(-1, 1); if (g.chance(40)) { d.setZero(); d(static_cast<long>(g.below(static_cast<uint64_t>(d.size())))) = 1; }
    DiffOptions o; o.levels = 7; VX z0 = z.pack(); auto f = [&](double h) { Z y = z; VX p = z0; p.segment(pl.first, pl.second) += h * d; y.unpack(p); return VX(E.ref(y).col(c)); };
    compareDerivative(g, "derivative:" + k, "derivative of column " + std::to_string(c) + " of " + E.name + " with respect to the " + VARN[v], D * d, f, o, 1e-6 * norm1(E.ref(z)));
}
static int relevant(Gen& g, const Exp& E) { if (E.linear) return static_cast<int>(5 + g.below(3)); if (E.twist && g.chance(40)) return static_cast<int>(6 + g.below(2)); return g.chance(50) ? 4 : static_cast<int>(g.below(8)); }
// any history of updates, time changes and requests
static void historyCase(Gen& g) {
    Service S; build(g, S, 5); std::map<size_t, Z> slot; std::vector<Exp> E; Z z = genZ(g, S.w.n); size_t now = g.below(S.times.size()); S.update(S.times[now], z); slot[now] = z; g.nontrivial();
    int n = static_cast<int>(g.integer(2, 14));
    for (int i = 0; i < n; ++i) {
        if (E.size() < 6 && (E.empty() || g.chance(60))) { E.push_back(genExp(g, S, static_cast<int>(g.below(KINDS)))); g.desc << E.back().name << "; "; }
        double jitter = g.chance(20) ? g.real(-0.2, 0.2) : 0.0; size_t to = g.below(S.times.size()); double t = S.times[to] + jitter;
        switch (g.below(5)) {
        case 0: moveZ(g, z); S.update(t, z); slot[to] = z; now = to; break;
        case 1: { moveZ(g, z); S.tk->get(t)->updateRobotState(toState(z)); if (!S.es->updateRobotState(t)) fail("refused-update", "an update to the current state of a time is refused"); S.leaves(z); slot[to] = z; now = to; break; }       // as the terms of a problem do
        case 2: { moveZ(g, z); S.tk->get(t)->updateRobotState(toState(z)); S.update(t, z); slot[to] = z; now = to; break; }                                       // the slot already has the state
        case 3: if (slot.count(to)) { Z y = slot[to]; for (int q = 0; q < 2; ++q) { y.tw[q] = z.tw[q]; y.des[q] = z.des[q]; } z = y; if (!S.es->updateRobotState(t)) fail("refused-update", "an update to the current state of a time is refused"); S.leaves(z); slot[to] = z; now = to; } break;
        default: for (int q = 0; q < 2; ++q) if (g.boolean()) { z.tw[q] = genVec(g, 6, 2); z.des[q] = genQuat(g).normalized(); } S.leaves(z);
        }
        const Exp& e = E[g.below(E.size())]; checkValue(e, z);
        if (g.chance(25)) { try { checkFirst(g, S, e, z, relevant(g, e)); } catch (const pbt::Discard&) {} }
        if (g.chance(5)) { levi::Expression x = e.e; x.clearDerivativesCache(); }
    }
    for (auto& e : E) checkValue(e, z);
}
// first derivatives of any expression with respect to any variable
static void derivativeCase(Gen& g) {
    Service S; build(g, S, 5); Z z = genZ(g, S.w.n); S.update(0, z); g.nontrivial(); int kind = static_cast<int>(g.below(KINDS));
    int m = static_cast<int>(g.integer(1, 3)); for (int i = 0; i < m; ++i) { Exp E = genExp(g, S, kind); g.desc << E.name << "; "; checkFirst(g, S, E, z, relevant(g, E)); }
}
// derivatives of derivatives, against differences of the first ones (which derivativeCase judges)
static void secondCase(Gen& g) {
    Service S; build(g, S, 4); Z z = genZ(g, S.w.n); S.update(0, z); g.nontrivial();
    static const int kinds[] = {0, 1, 2, 5, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 18, 20, 21, 23, 27, 27, 27}; Exp E = genExp(g, S, kinds[g.below(sizeof(kinds) / sizeof(int))]); if (nearFlip(E, z)) throw pbt::Discard{};
    int v1 = relevant(g, E), v2 = relevant(g, E); auto p1 = place(S.w.n, v1), p2 = place(S.w.n, v2); g.desc << E.name << " " << VARN[v1] << "/" << VARN[v2] << "; ";
    levi::Expression e = E.e; long c = static_cast<long>(g.below(static_cast<uint64_t>(e.cols()))), c1 = static_cast<long>(g.below(static_cast<uint64_t>(p1.second))); levi::Expression D1 = e.getColumnDerivative(c, variable(S, v1)), D2 = D1.getColumnDerivative(c1, variable(S, v2));
    MX D = D2.evaluate(); VX d(p2.second); for (long i = 0; i < d.size(); ++i) d(i) = g.real(-1, 1); if (g.chance(40)) { d.setZero(); d(static_cast<long>(g.below(static_cast<uint64_t>(d.size())))) = 1; }
    std::string k = E.name.substr(0, E.name.find('(')); if (D.rows() != e.rows() || D.cols() != p2.second) fail("second-size:" + k, "the second derivative of " + E.name + " (" + VARN[v1] + ", " + VARN[v2] + ") is " + std::to_string(D.rows()) + "x" + std::to_string(D.cols()));
    DiffOptions o; o.levels = 7; VX z0 = z.pack(); auto f = [&](double h) { Z y = z; VX p = z0; p.segment(p2.first, p2.second) += h * d; y.unpack(p); S.update(0, y); return VX(MX(D1.evaluate()).col(c1)); };
    compareDerivative(g, "second-derivative:" + k, "derivative with respect to the " + std::string(VARN[v2]) + " of column " + std::to_string(c1) + " of the derivative of column " + std::to_string(c) + " of " + E.name + " with respect to the " + VARN[v1], D * d, f, o, 1e-6 * norm1(MX(D1.evaluate())));
    S.update(0, z); if (!(norm1(MX(D2.evaluate()) - D) <= 1e-9 * (1 + norm1(D)))) fail("second-return:" + k, "the second derivative of " + E.name + " does not return to its value");
}
// the joint derivatives offered by name
static void namedCase(Gen& g) {
    Service S; build(g, S, 4); Z z = genZ(g, S.w.n); const World* w = &S.w; z.tw[g.below(2)] = w->twist(z); int own = z.tw[0] == w->twist(z) ? 0 : 1; S.update(0, z); g.nontrivial(); auto fr = [&] { return w->frames[g.below(w->frames.size())]; }; long n = w->n;
    int m = static_cast<int>(g.integer(1, 4));
    for (int i = 0; i < m; ++i) {
        std::string a = fr(), b = fr(); long c6 = static_cast<long>(g.below(6)), cj = static_cast<long>(g.below(static_cast<uint64_t>(n))); int k = static_cast<int>(g.below(2)); levi::Expression e; std::function<VX(const Z&)> f; std::string nm; bool server = false; levi::Expression first;
        switch (g.below(5)) {
        case 0: nm = "adjointTransformJointsDerivative"; e = S.es->adjointTransformJointsDerivative(a, b, c6); f = [=](const Z& y) { return VX(w->X(y.s, a, b).col(c6)); }; break;
        case 1: nm = "adjointTransformWrenchJointsDerivative"; e = S.es->adjointTransformWrenchJointsDerivative(a, b, c6); f = [=](const Z& y) { return VX(w->Xw(y.s, a, b).col(c6)); }; break;
        case 2: nm = "absoluteVelocityJointsDerivative"; e = S.es->absoluteVelocityJointsDerivative(b, S.tw[k]); f = [=](const Z& y) { return VX(w->vel(y, b, y.tw[k])); }; break;
        case 3: nm = "comInBaseHessian"; e = S.es->comInBaseHessian(cj); first = S.es->comInBase().getColumnDerivative(0, S.es->jointsPosition()); server = true; break;
        default: nm = "momentumInBaseJointsDoubleDerivative"; if (g.boolean()) S.es->momentumInBaseJointsDoubleDerivative(S.tw[1 - own], cj); k = own; e = S.es->momentumInBaseJointsDoubleDerivative(S.tw[k], cj); first = DP::MomentumInBaseExpression(S.es.get(), S.tw[k]).getColumnDerivative(0, S.es->jointsPosition()); server = true;
        }
        g.classify(nm); g.desc << nm << "(" << a << "," << b << "," << c6 << "," << cj << "," << k << "); "; MX D = e.evaluate(); if (D.cols() != n) fail("named-size:" + nm, nm + " has " + std::to_string(D.cols()) + " columns");
        VX d = genVec(g, n, 1); d(static_cast<long>(g.below(static_cast<uint64_t>(n)))) = 1; DiffOptions o; o.levels = 7;
        auto at = [&](double h) { Z y = z; y.s = z.s + h * d; if (!server) return f(y); S.update(0, y); return VX(MX(first.evaluate()).col(cj)); };
        compareDerivative(g, "named:" + nm, nm, D * d, at, o, 1e-6); S.update(0, z);
    }
}
// larger trees, many requests, nothing but the association of names with expressions
static void labelCase(Gen& g) {
    Service S; build(g, S, 14, 11); Z z = genZ(g, S.w.n); S.update(0, z); g.nontrivial(); std::vector<Exp> E; static const int kinds[] = {7, 8, 9, 10, 11, 15, 24, 24, 24, 25, 26, 19, 20, 23, 18};
    for (int i = 0; i < 25; ++i) { Exp e = genExp(g, S, kinds[g.below(sizeof(kinds) / sizeof(int))]); checkValue(e, z); E.push_back(e); }
    z = genZ(g, S.w.n); S.update(0, z); for (auto& e : E) checkValue(e, z);
}
int main(int argc, char** argv) {
    Suite S; S.property = "C13"; S.rule = "every case builds the expression server of a generated robot and evaluates at least one expression or derivative at a generated state";
    S.assumptions = {"twist and desired-quaternion variables given to one server have different names", "quaternions are compared and differentiated away from half turns, where their sign changes", "the joint derivatives of the momentum are those at the base twist of the robot: the twist variable given must hold it", "the derivative of the quaternion error with respect to the desired quaternion is not provided"};
    S.aspects = {{"histories", 40000, 1200000, historyCase}, {"first-derivatives", 50000, 1500000, derivativeCase}, {"second-derivatives", 40000, 1200000, secondCase}, {"named-derivatives", 20000, 600000, namedCase}, {"names", 3000, 60000, labelCase}};
    return Runner(S).main(argc, argv);
}
