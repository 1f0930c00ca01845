// C18: default initial states and the placement of the contact points on the ground.
#include "pbt.h"
#include "models.h"
#include <DynamicalPlanner/Utilities.h>
using namespace pbt;
using namespace DynamicalPlanner;
using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d;
template <class T> static V3 v3(const T& p) { return V3(p(0), p(1), p(2)); }
static double massOf(const iDynTree::Model& m) { double t = 0; for (size_t l = 0; l < m.getNrOfLinks(); ++l) t += m.getLink(static_cast<iDynTree::LinkIndex>(l))->getInertia().getMass(); return t; }

struct Robot { iDynTree::Model model; iDynTree::VectorDynSize q; bool parallel; bool between; };
// a robot whose right sole may be placed parallel to the left one with the centre of mass between the two
static Robot genRobot(Gen& g) {
    Robot r; r.parallel = false; r.between = false;
    if (g.chance(10)) { r.model = models::icubFull(); r.q.resize(static_cast<unsigned>(r.model.getNrOfDOFs())); for (unsigned i = 0; i < r.q.size(); ++i) r.q(i) = g.boolean() ? 0.0 : g.real(-0.4, 0.4); g.desc << "icub; "; return r; }
    models::TreeOptions o; o.frames = {"neck_2"}; unsigned n = static_cast<unsigned>(g.integer(1, 7)); r.model = models::genTree(g, n, o); r.q.resize(n); for (unsigned i = 0; i < n; ++i) r.q(i) = g.chance(15) ? 0.0 : g.real(-2, 2);
    auto L = static_cast<iDynTree::LinkIndex>(g.below(n + 1)), R = static_cast<iDynTree::LinkIndex>(g.below(n + 1)); g.desc << n << " joints, feet on links " << L << " and " << R << "; ";
    iDynTree::Transform XL = g.chance(20) ? iDynTree::Transform::Identity() : iDynTree::Transform(models::genRotation(g), models::genPosition(g, 0.4));
    r.model.addAdditionalFrameToLink(r.model.getLinkName(L), "l_sole", XL);
    iDynTree::KinDynComputations k; k.loadRobotModel(r.model); k.setFloatingBase(r.model.getLinkName(L)); iDynTree::VectorDynSize z(n); z.zero(); iDynTree::Vector3 gr; gr.zero(); gr(2) = -9.81;
    k.setRobotState(XL.inverse(), r.q, iDynTree::Twist::Zero(), z, gr); V3 c = v3(k.getCenterOfMassPosition());
    iDynTree::Transform T(models::genRotation(g), models::genPosition(g, 0.8)); r.parallel = g.chance(70); 
    if (r.parallel) { T.setRotation(iDynTree::Rotation::Identity()); V3 p = v3(T.getPosition()); p(1) = c(1) * (1 + g.logReal(0.02, 3)) + (g.chance(50) && std::fabs(c(1)) < 0.01 ? -0.2 : 0); iDynTree::Position pp(p(0), p(1), p(2)); T.setPosition(pp); r.between = p(1) * c(1) > 0 && std::fabs(p(1)) > std::fabs(c(1)) && std::fabs(c(1)) > 1e-4; }
    r.model.addAdditionalFrameToLink(r.model.getLinkName(R), "r_sole", k.getWorldTransform(r.model.getLinkName(R)).inverse() * T);
    return r;
}
static void close(const char* sig, const V3& a, const V3& b, double tol = 1e-8) { if (!((a - b).norm() <= tol * (1 + b.norm()))) { std::ostringstream o; o.precision(12); o << "(" << a.transpose() << ") instead of (" << b.transpose() << ")"; fail(sig, o.str()); } }
struct Feet { double l, d; V3 top; };
static Feet genFeet(Gen& g) { Feet f; f.l = g.logReal(0.02, 0.5); f.d = g.logReal(0.02, 0.3); f.top = g.chance(50) ? V3(g.real(0, 1) * f.l, f.d / 2, 0) : V3(g.real(-0.2, 0.4), g.real(-0.2, 0.4), g.real(-0.1, 0.1)); return f; }
static bool settingsFor(Gen& g, const Robot& r, Settings& S, const std::vector<iDynTree::Position>& pts) {
    SettingsStruct s = Settings::Defaults(r.model); s.leftPointsPosition = s.rightPointsPosition = pts; s.desiredLeftRatios.assign(pts.size(), 1.0 / pts.size()); s.desiredRightRatios = s.desiredLeftRatios;
    if (g.boolean()) s.floatingBaseName = r.model.getLinkName(static_cast<iDynTree::LinkIndex>(g.below(r.model.getNrOfLinks()))); if (g.boolean()) s.gravity(2) = -g.real(0.5, 25); g.desc << "base " << s.floatingBaseName << ", gravity " << s.gravity(2) << "; "; return S.setFromStruct(s);
}
static State noise(Gen& g, size_t n, size_t p) {
    State s(n, p); for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& x : *f) { x.pointPosition = models::genPosition(g, 2); for (unsigned i = 0; i < 3; ++i) x.pointForce(i) = g.real(-5, 60); }
    for (unsigned i = 0; i < 6; ++i) s.momentumInCoM(i) = g.real(-2, 2); s.comPosition = models::genPosition(g, 2); s.worldToBaseTransform = iDynTree::Transform(models::genRotation(g), models::genPosition(g, 1));
    for (unsigned i = 0; i < n; ++i) s.jointsConfiguration(i) = g.real(-2, 2); s.time = g.real(0, 4); return s;
}
static void standing(Gen& g) {
    Robot r = genRobot(g); Feet f = genFeet(g); RectangularFoot lf, rf; lf.setFoot(f.l, f.d, iDynTree::Position(f.top(0), f.top(1), f.top(2))); rf.setFoot(f.l, f.d, iDynTree::Position(f.top(0), f.top(1), f.top(2)));
    std::vector<iDynTree::Position> pts; lf.getPoints(iDynTree::Transform::Identity(), pts); Settings S; size_t n = r.q.size();
    State st; if (g.boolean()) st = noise(g, g.below(5), g.below(6));
    if (g.chance(6)) { if (Utilities::FillDefaultInitialState(S, r.q, lf, rf, st)) fail("standing-accepts", "settings that were never set are accepted"); g.classify("no settings"); return; }
    if (g.chance(5)) { std::vector<iDynTree::Position> other(static_cast<size_t>(g.oneOf({1, 2, 3, 5, 6})), iDynTree::Position(0.1, 0, 0)); if (!settingsFor(g, r, S, other)) fail("standing-settings", "the settings are refused"); if (Utilities::FillDefaultInitialState(S, r.q, lf, rf, st)) fail("standing-accepts", "settings with " + std::to_string(other.size()) + " points are accepted for feet with four"); g.classify("other number of points"); return; }
    if (!settingsFor(g, r, S, pts)) fail("standing-settings", "the settings are refused");
    if (g.chance(5)) { RectangularFoot u; bool left = g.boolean(); if (Utilities::FillDefaultInitialState(S, r.q, left ? u : lf, left ? rf : u, st)) fail("standing-accepts", "a foot that was never set is accepted"); g.classify("foot not set"); return; }
    if (g.chance(5)) { iDynTree::VectorDynSize q(static_cast<unsigned>(n + (g.boolean() || n == 1 ? 1 : -1))); q.zero(); if (Utilities::FillDefaultInitialState(S, q, lf, rf, st)) fail("standing-accepts", "a joint configuration of the wrong size is accepted"); g.classify("mis-sized joints"); return; }
    if (!Utilities::FillDefaultInitialState(S, r.q, lf, rf, st)) fail("standing-refuses", "a consistent description is refused");
    if (!st.checkSize(n, 4)) fail("standing-size", "the state does not have the size of the problem");
    if (st.time != 0) fail("standing-time", "the initial time is " + str(st.time));
    for (unsigned i = 0; i < n; ++i) if (st.jointsConfiguration(i) != r.q(i)) fail("standing-joints", "the joints are not the desired ones");
    for (unsigned i = 0; i < 6; ++i) if (std::fabs(st.momentumInCoM(i)) > 1e-9) fail("standing-momentum", "a robot at rest has momentum");
    // left sole at the origin; everything consistent with the kinematics of the robot from the floating base
    iDynTree::KinDynComputations k; k.loadRobotModel(r.model); k.setFloatingBase(S.getSettings().floatingBaseName); iDynTree::VectorDynSize z(static_cast<unsigned>(n)); z.zero(); iDynTree::Vector3 gr; gr.zero(); gr(2) = -9.81;
    k.setRobotState(st.worldToBaseTransform, r.q, iDynTree::Twist::Zero(), z, gr); auto TL = k.getWorldTransform("l_sole"), TR = k.getWorldTransform("r_sole");
    close("standing-left-sole", v3(TL.getPosition()), V3(0, 0, 0)); if ((iDynTree::toEigen(TL.getRotation()) - M3::Identity()).norm() > 1e-8) fail("standing-left-sole", "the left sole is not aligned with the world");
    V3 c = v3(k.getCenterOfMassPosition()); close("standing-com", v3(st.comPosition), c);
    V3 F(0, 0, 0), Mom(0, 0, 0); double fz[2] = {0, 0};
    for (size_t i = 0; i < 4; ++i) for (int w = 0; w < 2; ++w) { auto& p = w ? st.rightContactPointsState[i] : st.leftContactPointsState[i]; V3 x = v3((w ? TR : TL) * pts[i]); close(w ? "standing-right-point" : "standing-left-point", v3(p.pointPosition), x); V3 fo = v3(p.pointForce); F += fo; Mom += (x - c).cross(fo); fz[w] += fo(2); if (std::fabs(fo(0)) + std::fabs(fo(1)) > 1e-6 * (1 + fo.norm())) fail("standing-tangential", "a robot at rest is pushed sideways"); }
    double W = -massOf(r.model) * S.getSettings().gravity(2); if (!(std::fabs(F(2) - W) <= 1e-7 * W)) fail("standing-weight", "the contact forces carry " + str(F(2)) + " instead of the weight " + str(W));
    if (fz[0] < -1e-7 * W || fz[1] < -1e-7 * W) fail("standing-pull", "a foot pulls on the ground");
    if (r.parallel) { if (!(std::fabs(Mom(1)) <= 1e-6 * W)) fail("standing-pitch", "the forces produce a pitch moment " + str(Mom(1)) + " about the centre of mass"); g.classify("parallel feet"); }
    if (r.between) { if (!(std::fabs(Mom(0)) <= 1e-6 * W)) fail("standing-roll", "the forces produce a roll moment " + str(Mom(0)) + " about the centre of mass"); g.classify("centre of mass between the feet"); g.nontrivial(); }
    // the nearer foot carries more
    if (r.between) { double dl = std::fabs(c(1)), dr = std::fabs(c(1) - TR.getPosition()(1)); if (std::fabs(dl - dr) > 1e-3 && (fz[0] > fz[1]) != (dl < dr)) fail("standing-share", "the farther foot carries more weight"); }
    // a second call on the result gives the same
    State again = st; if (!Utilities::FillDefaultInitialState(S, r.q, lf, rf, again)) fail("standing-again", "refused the second time"); close("standing-again", v3(again.comPosition), v3(st.comPosition)); for (size_t i = 0; i < 4; ++i) close("standing-again", v3(again.rightContactPointsState[i].pointForce), v3(st.rightContactPointsState[i].pointForce), 1e-7);
}
static void grounding(Gen& g) {
    Robot r = genRobot(g); size_t P = static_cast<size_t>(g.integer(1, 6)); std::vector<iDynTree::Position> pts; for (size_t i = 0; i < P; ++i) pts.push_back(models::genPosition(g, 0.3)); Settings S; size_t n = r.q.size();
    State st = noise(g, n, P); st.jointsConfiguration = r.q; double h = g.oneOf<double>({0.0, 1e-9, -1e-9, g.signedLog(1e-8, 5), g.real(-3, 3)}); if (g.chance(15)) h = g.real(3, 40);
    if (g.chance(6)) { State o = st; if (Utilities::SetMinContactPointToZero(S, st)) fail("grounding-accepts", "settings that were never set are accepted"); return; }
    if (!settingsFor(g, r, S, pts)) fail("grounding-settings", "the settings are refused");
    auto kin = [&](const State& s, std::vector<V3>& x, V3& c) { iDynTree::KinDynComputations k; k.loadRobotModel(r.model); k.setFloatingBase(S.getSettings().floatingBaseName); iDynTree::VectorDynSize z(static_cast<unsigned>(n)); z.zero(); iDynTree::Vector3 gr; gr.zero();
        k.setRobotState(s.worldToBaseTransform, s.jointsConfiguration, iDynTree::Twist::Zero(), z, gr); x.clear(); for (int w = 0; w < 2; ++w) for (auto& p : pts) x.push_back(v3(k.getWorldTransform(w ? "r_sole" : "l_sole") * p)); c = v3(k.getCenterOfMassPosition()); };
    auto lowest = [](const std::vector<V3>& x) { double z = 1e300; for (auto& p : x) z = std::min(z, p(2)); return z; };
    std::vector<V3> x; V3 c; kin(st, x, c); iDynTree::Position b = st.worldToBaseTransform.getPosition(); b(2) += h - lowest(x); st.worldToBaseTransform.setPosition(b); g.desc << "lowest point at " << h << "; ";
    if (g.chance(15)) { st.jointsConfiguration.resize(static_cast<unsigned>(n + 1)); st.jointsConfiguration.zero(); if (Utilities::SetMinContactPointToZero(S, st)) fail("grounding-accepts", "a joint configuration of the wrong size is accepted"); g.classify("mis-sized joints"); return; }
    const State before = st; int times = static_cast<int>(g.integer(1, 2));
    for (int q = 0; q < times; ++q) if (!Utilities::SetMinContactPointToZero(S, st)) fail("grounding-refuses", "a consistent state is refused");
    kin(st, x, c); double z = lowest(x); if (!(z >= -1e-6 && z <= 1e-6)) fail("grounding-height", "the lowest contact point ends at height " + str(z));
    close("grounding-com", v3(st.comPosition), c, 1e-6); double zs = 1e300; for (size_t i = 0; i < 2 * P; ++i) { V3 p = v3((i < P ? st.leftContactPointsState : st.rightContactPointsState)[i % P].pointPosition); close(i < P ? "grounding-left-point" : "grounding-right-point", p, x[i], 1e-6); zs = std::min(zs, p(2)); }
    if (!(zs >= 0 && zs <= 1.1e-8)) fail("grounding-state-height", "the lowest contact point of the state is at height " + str(zs));
    V3 db = v3(st.worldToBaseTransform.getPosition()) - v3(before.worldToBaseTransform.getPosition()); if (std::fabs(db(0)) + std::fabs(db(1)) > 1e-12 || !(std::fabs(db(2) + h) <= 1e-6)) fail("grounding-shift", "the base does not move by the height of the lowest point, vertically");
    if ((iDynTree::toEigen(st.worldToBaseTransform.getRotation()) - iDynTree::toEigen(before.worldToBaseTransform.getRotation())).norm() > 1e-12) fail("grounding-rotation", "the base orientation changes");
    for (unsigned i = 0; i < n; ++i) if (st.jointsConfiguration(i) != before.jointsConfiguration(i)) fail("grounding-joints", "the joints change");
    for (unsigned i = 0; i < 6; ++i) if (st.momentumInCoM(i) != before.momentumInCoM(i)) fail("grounding-momentum", "the momentum changes"); if (st.time != before.time) fail("grounding-time", "the time changes");
    for (size_t i = 0; i < P; ++i) { close("grounding-force", v3(st.leftContactPointsState[i].pointForce), v3(before.leftContactPointsState[i].pointForce)); close("grounding-force", v3(st.rightContactPointsState[i].pointForce), v3(before.rightContactPointsState[i].pointForce)); }
    if (std::fabs(h) > 1e-7) g.nontrivial(); g.classify(h > 1 ? "high above" : h < 0 ? "below ground" : "near");
}
int main(int argc, char** argv) {
    Suite s; s.property = "C18";
    s.rule = "standing: parallel feet with the centre of mass between them; grounding: the lowest point starts at least 1e-7 away from the ground; distinct by generated choices";
    s.assumptions = {"the contact points of the settings are those of the given feet", "the state to be grounded has the number of points of the settings", "kinematics recomputed with iDynTree from the floating base"};
    s.aspects = {{"standing", 40000, 800000, standing}, {"grounding", 40000, 800000, grounding}};
    s.quickBudget = 120; s.thoroughBudget = 600;
    Runner r(s); return r.main(argc, argv);
}
