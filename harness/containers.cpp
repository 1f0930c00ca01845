// C20: variable labelling and the state/control containers.
#include "pbt.h"
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
#include <DynamicalPlanner/State.h>
#include <DynamicalPlanner/Control.h>
#include <iDynTree/Core/EigenHelpers.h>
using namespace pbt;
using namespace DynamicalPlanner;
using Private::VariablesLabeller;
using V3 = Eigen::Vector3d;

struct Model { std::vector<std::pair<std::string, long>> labels; std::vector<double> v;
    long off(const std::string& n, long& dim) const { long o = 0; for (auto& l : labels) { if (l.first == n) { dim = l.second; return o; } o += l.second; } dim = -1; return -1; } };

static void compare(const VariablesLabeller& lab, const Model& m) {
    if (lab.size() != m.v.size()) fail("labeller-size", "size " + std::to_string(lab.size()) + " expected " + std::to_string(m.v.size()));
    if (lab.numberOfLabels() != m.labels.size() || lab.listOfLabels().size() != m.labels.size()) fail("labeller-count", "number of labels");
    auto all = lab.values(); if (static_cast<size_t>(all.size()) != m.v.size()) fail("labeller-values-size", "values size");
    for (size_t i = 0; i < m.v.size(); ++i) if (all[static_cast<long>(i)] != m.v[i] || lab(static_cast<unsigned>(i)) != m.v[i]) fail("labeller-value", "value " + std::to_string(i) + " is " + str(all[static_cast<long>(i)]) + " expected " + str(m.v[i]));
    long o = 0;
    for (size_t k = 0; k < m.labels.size(); ++k) {
        auto& l = m.labels[k];
        if (lab.listOfLabels()[k] != l.first) fail("labeller-order", "label " + std::to_string(k) + " is " + lab.listOfLabels()[k]);
        auto r = lab.getIndexRange(l.first);
        if (r.offset != o || r.size != l.second) fail("labeller-range", "range of " + l.first + " is (" + std::to_string(r.offset) + "," + std::to_string(r.size) + ") expected (" + std::to_string(o) + "," + std::to_string(l.second) + ")");
        auto s = lab(l.first); auto s2 = lab(r);
        if (s.size() != l.second || s2.size() != l.second) fail("labeller-segment-size", "segment of " + l.first);
        for (long i = 0; i < l.second; ++i) if (s[i] != m.v[static_cast<size_t>(o + i)] || s2[i] != m.v[static_cast<size_t>(o + i)]) fail("labeller-segment", "segment of " + l.first + " does not show the shared vector");
        o += l.second;
    }
}
static void labeller(Gen& g) {
    VariablesLabeller lab; Model m; int ops = static_cast<int>(g.integer(1, 25));
    for (int k = 0; k < ops; ++k) {
        int op = static_cast<int>(g.below(9)); std::string n = "v" + std::to_string(g.below(10)); if (g.chance(20)) n += "0";
        if (op <= 3) {
            long dim = g.integer(1, 7); long had; m.off(n, had); bool exists = had >= 0;
            g.desc << "add " << n << ":" << dim << "; ";
            if (op <= 1) { if (lab.addLabel(n, static_cast<size_t>(dim)) == exists) fail("labeller-add", "result of adding " + n); }
            else { auto r = lab.addLabelAndGetIndexRange(n, static_cast<size_t>(dim)); if (r.isValid() == exists) fail("labeller-add-range", "result of adding " + n);
                   if (!exists && (r.offset != static_cast<long>(m.v.size()) || r.size != dim)) fail("labeller-new-range", "range given when adding " + n); }
            if (!exists) { m.labels.emplace_back(n, dim); m.v.resize(m.v.size() + static_cast<size_t>(dim), 0.0); } else g.classify("duplicate label");
        } else if (op == 4) { long dim; long o = m.off(n, dim); auto s = lab(n); if (dim < 0) { if (s.size() != 0) fail("labeller-unknown", "an unknown label shows " + std::to_string(s.size()) + " values"); if (lab.getIndexRange(n).isValid()) fail("labeller-unknown-range", "an unknown label has a valid range"); }
            else for (long i = 0; i < dim; ++i) { double v = g.real(-10, 10); s[i] = v; m.v[static_cast<size_t>(o + i)] = v; } g.desc << "write " << n << "; ";
        } else if (op == 5 && !m.v.empty()) { size_t i = g.below(m.v.size()); double v = g.real(-10, 10); lab(static_cast<unsigned>(i)) = v; m.v[i] = v; g.desc << "poke; ";
        } else if (op == 6) { iDynTree::VectorDynSize v(m.v.size()); for (size_t i = 0; i < m.v.size(); ++i) { v(static_cast<unsigned>(i)) = g.real(-10, 10); m.v[i] = v(static_cast<unsigned>(i)); } lab = v; g.desc << "assign; ";
        } else if (op == 7) { if (g.chance(40)) { lab.clear(); m = Model(); g.desc << "clear; "; g.classify("cleared"); } else { lab.zero(); for (auto& x : m.v) x = 0; g.desc << "zero; "; }
        } else if (op == 8) { VariablesLabeller c(lab); if (!m.v.empty()) { size_t i = g.below(m.v.size()); c(static_cast<unsigned>(i)) = 99; } compare(lab, m); if (g.boolean()) { VariablesLabeller d; d = lab; lab = d; } g.desc << "copy; "; }
        compare(lab, m);
    }
    if (m.labels.size() > 1) g.nontrivial();
}

static V3 genV(Gen& g) { return V3(g.real(-2, 2), g.real(-2, 2), g.real(-2, 2)); }
static void fillState(Gen& g, State& s) {
    for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& p : *f) { iDynTree::toEigen(p.pointPosition) = genV(g); V3 x = 50 * genV(g); for (unsigned i = 0; i < 3; ++i) p.pointForce(i) = x(i); }
    for (unsigned i = 0; i < 6; ++i) s.momentumInCoM(i) = g.real(-2, 2);
    iDynTree::toEigen(s.comPosition) = genV(g); s.worldToBaseTransform = iDynTree::Transform(iDynTree::Rotation::RPY(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)), iDynTree::Position(g.real(-1, 1), 0, 1));
    for (unsigned i = 0; i < s.jointsConfiguration.size(); ++i) s.jointsConfiguration(i) = g.real(-2, 2);
    s.time = g.real(0, 5);
}
static bool zeroState(const State& s) {
    for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& p : *f) for (unsigned i = 0; i < 3; ++i) if (p.pointPosition(i) != 0 || p.pointForce(i) != 0) return false;
    for (unsigned i = 0; i < 6; ++i) if (s.momentumInCoM(i) != 0) return false;
    for (unsigned i = 0; i < 3; ++i) if (s.comPosition(i) != 0 || s.worldToBaseTransform.getPosition()(i) != 0) return false;
    if ((iDynTree::toEigen(s.worldToBaseTransform.getRotation()) - Eigen::Matrix3d::Identity()).norm() != 0) return false;
    for (unsigned i = 0; i < s.jointsConfiguration.size(); ++i) if (s.jointsConfiguration(i) != 0) return false;
    return s.time == 0;
}
static bool zeroControl(const Control& s) {
    for (auto* f : {&s.leftContactPointsControl, &s.rightContactPointsControl}) for (auto& p : *f) for (unsigned i = 0; i < 3; ++i) if (p.pointForceControl(i) != 0 || p.pointVelocityControl(i) != 0) return false;
    for (unsigned i = 0; i < 3; ++i) if (s.baseLinearVelocity(i) != 0) return false;
    for (unsigned i = 0; i < 4; ++i) if (s.baseQuaternionDerivative(i) != 0) return false;
    for (unsigned i = 0; i < s.jointsVelocity.size(); ++i) if (s.jointsVelocity(i) != 0) return false;
    return s.time == 0;
}
static void containers(Gen& g) {
    size_t n = g.below(12), p = g.below(6); g.desc << n << " joints " << p << " points";
    State s(n, p); Control c(n, p);
    if (!zeroState(s)) fail("state-initially-zero", "a sized state is not zero"); if (!zeroControl(c)) fail("control-initially-zero", "a sized control is not zero");
    size_t n2 = g.below(12), p2 = g.below(6); State o(n2, p2); Control oc(n2, p2);
    bool same = n == n2 && p == p2;
    if (s.sameSize(o) != same || o.sameSize(s) != same || s.checkSize(n2, p2) != same || !s.checkSize(n, p)) fail("state-size", "size comparison of states");
    if (c.sameSize(oc) != same || oc.sameSize(c) != same || c.checkSize(n2, p2) != same || !c.checkSize(n, p)) fail("control-size", "size comparison of controls");
    // a different number of points on one foot only is a different size
    if (g.boolean()) { State u = s; (g.boolean() ? u.leftContactPointsState : u.rightContactPointsState).resize(p + 1); if (u.sameSize(s) || u.checkSize(n, p) || u.checkSize(n, p + 1)) fail("state-one-foot", "a foot with a different number of points is not noticed");
        Control v = c; (g.boolean() ? v.leftContactPointsControl : v.rightContactPointsControl).resize(p + 1); if (v.sameSize(c) || v.checkSize(n, p) || v.checkSize(n, p + 1)) fail("control-one-foot", "a foot with a different number of points is not noticed"); }
    fillState(g, s); s.resize(n2, p2); if (!s.checkSize(n2, p2)) fail("state-resize", "resize"); c.resize(n2, p2); if (!c.checkSize(n2, p2)) fail("control-resize", "resize");
    fillState(g, s); for (auto& x : c.leftContactPointsControl) { x.pointForceControl(0) = 1; x.pointVelocityControl(2) = 1; } for (auto& x : c.rightContactPointsControl) { x.pointForceControl(1) = 1; x.pointVelocityControl(0) = 1; }
    c.baseLinearVelocity(1) = 2; c.baseQuaternionDerivative(3) = 1; c.time = 3; for (unsigned i = 0; i < c.jointsVelocity.size(); ++i) c.jointsVelocity(i) = 1;
    TimeInvariantState ts(s); bool ok = false; const State& back = ts.get(g.real(-3, 3), ok); if (!ok || !back.sameSize(s) || back.time != s.time) fail("invariant-state", "a constant state reference does not return the state");
    TimeInvariantControl tc(c); ok = false; const Control& cb = tc.get(g.real(-3, 3), ok); if (!ok || !cb.sameSize(c) || cb.baseQuaternionDerivative(3) != 1) fail("invariant-control", "a constant control reference does not return the control");
    s.zero(); c.zero(); if (!zeroState(s) || !s.checkSize(n2, p2)) fail("state-zero", "zeroing a state leaves something"); if (!zeroControl(c) || !c.checkSize(n2, p2)) fail("control-zero", "zeroing a control leaves something");
    g.nontrivial();
}
static void feet(Gen& g) {
    size_t p = static_cast<size_t>(g.integer(1, 6)); State s(static_cast<size_t>(g.below(5)), p); fillState(g, s);
    if (g.chance(30)) { size_t q = static_cast<size_t>(g.integer(1, 6)); s.rightContactPointsState.resize(q); fillState(g, s); g.classify("different number of points"); }
    V3 l(0, 0, 0), r(0, 0, 0); for (auto& x : s.leftContactPointsState) l += iDynTree::toEigen(x.pointPosition); for (auto& x : s.rightContactPointsState) r += iDynTree::toEigen(x.pointPosition);
    double nl = static_cast<double>(s.leftContactPointsState.size()), nr = static_cast<double>(s.rightContactPointsState.size());
    auto cen = s.computeFeetCentroid(); V3 ce(cen(0), cen(1), cen(2));
    if (!((ce - (l + r) / (nl + nr)).norm() <= 1e-10)) fail("feet-centroid", "centroid of the contact points");
    V3 dir = genV(g); if (dir.norm() < 1e-3) dir = V3(1, 0, 0); iDynTree::Vector3 d; iDynTree::toEigen(d) = dir;
    double gap = (l / nl - r / nr).dot(dir); if (std::fabs(gap) < 1e-9) throw Discard();
    if (s.leftIsForward(d) != (gap > 0)) fail("left-is-forward", "forward foot");
    auto& fw = gap > 0 ? s.leftContactPointsState : s.rightContactPointsState; double mn = 1e300; for (auto& x : fw) { V3 f(x.pointForce(0), x.pointForce(1), x.pointForce(2)); mn = std::min(mn, f.norm()); }
    double got = s.minimumPointForceOnForwardFoot(d); if (!(std::fabs(got - mn) <= 1e-10 * (1 + mn))) fail("minimum-force", "minimum force on the forward foot is " + str(got) + " expected " + str(mn));
    // the answers do not depend on the length of the direction
    iDynTree::Vector3 d2; iDynTree::toEigen(d2) = dir * g.logReal(0.01, 100); if (s.leftIsForward(d2) != (gap > 0)) fail("left-is-forward", "forward foot depends on the length of the direction");
    g.nontrivial();
}
int main(int argc, char** argv) {
    Suite s; s.property = "C20";
    s.rule = "labeller: at least two labels exist at the end of the history; containers: a sized container is compared; distinct by generated choices";
    s.assumptions = {"labels have positive dimension", "both feet have at least one point where a forward foot is asked for"};
    s.aspects = {{"labeller", 100000, 2000000, labeller}, {"containers", 60000, 1000000, containers}, {"feet", 100000, 2000000, feet}};
    s.quickBudget = 120; s.thoroughBudget = 600;
    Runner r(s); return r.main(argc, argv);
}
