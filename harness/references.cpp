// C19: time-varying references, initial guesses and the walking state machine.
#include "pbt.h"
#include "models.h"
#include <DynamicalPlanner/Utilities.h>
#include <DynamicalPlanner/PositionReferenceGenerator.h>
using namespace pbt;
using namespace DynamicalPlanner;
using namespace DynamicalPlanner::Utilities;
namespace oc = iDynTree::optimalcontrol;
using V3 = Eigen::Vector3d;
static V3 genV(Gen& g, double s = 2) { return V3(g.real(-s, s), g.real(-s, s), g.real(-s, s)); }
template <class T> static V3 v3(const T& p) { return V3(p(0), p(1), p(2)); }

struct El { V3 p{0, 0, 0}; double a = 0, b = 0; bool any = false; };
static void generator(Gen& g) {
    std::vector<El> m; double k[3]; for (auto& x : k) x = g.oneOf<double>({0.0, 1.0, g.real(-3, 10)});
    size_t n0 = g.below(5); std::unique_ptr<PositionReferenceGenerator> gen;
    if (g.boolean()) gen = std::make_unique<PositionReferenceGenerator>(static_cast<unsigned>(n0), k[0], k[1], k[2]);
    else { gen = std::make_unique<PositionReferenceGenerator>(); if (g.boolean()) gen->resize(g.below(4)); gen->init(static_cast<unsigned>(n0), k[0], k[1], k[2]); }
    m.resize(n0); g.desc << n0 << " points; ";
    auto ref = gen->timeVaryingReference(); auto wei = gen->timeVaryingWeight(); int ops = static_cast<int>(g.integer(1, 14)); bool hit = false, miss = false;
    if (!ref || !wei) fail("generator-null", "an initialised generator gives no reference or weight");
    const double grid[] = {0, 0.5, 1, 1.5, 2, 3};
    auto when = [&] { return g.boolean() ? grid[g.below(6)] : g.real(-0.5, 3.5); };
    for (int o = 0; o < ops; ++o) {
        switch (g.below(6)) {
        case 0: { size_t n = g.below(6); gen->resize(n); m.resize(n); g.desc << "resize " << n << "; "; break; }
        case 1: case 2: if (!m.empty()) { size_t i = g.below(m.size()); El& e = m[i]; auto& r = g.boolean() ? (*gen)[i] : gen->at(i);
                    if (g.chance(8)) { e.any = true; r.activeRange = oc::TimeRange::AnyTime(); g.classify("always active"); }
                    else { double a = when(), b = when(); if (b < a) std::swap(a, b); if (a == b) g.classify("instantaneous range"); e.a = a; e.b = b; e.any = false; if (g.boolean()) r.activeRange = oc::TimeRange(a, b); else { r.activeRange = oc::TimeRange(0, 1); r.activeRange.setTimeInterval(a, b); } }
                    g.desc << "range " << i << " [" << e.a << "," << e.b << "]" << (e.any ? "any" : "") << "; "; } break;
        case 3: if (!m.empty()) { size_t i = g.below(m.size()); m[i].p = genV(g); iDynTree::toEigen(g.boolean() ? (*gen)[i].desiredPosition : gen->at(i).desiredPosition) = m[i].p; } break;
        default: { double t = when(); bool ok = false; int act = -1; for (size_t i = 0; i < m.size(); ++i) if (m[i].any || (t >= m[i].a && t <= m[i].b)) act = static_cast<int>(i);
            V3 p = v3(ref->get(t, ok)); if (!ok) fail("reference-invalid", "the position reference is not valid at " + str(t));
            V3 e = act < 0 ? V3(0, 0, 0) : m[static_cast<size_t>(act)].p; if (!((p - e).norm() <= 1e-12)) { std::ostringstream s; s << "reference at " << t << " is (" << p.transpose() << ") expected (" << e.transpose() << "), active element " << act; fail("reference-position", s.str()); }
            ok = false; auto& w = wei->get(t, ok); if (!ok || w.size() != 3) fail("weight-invalid", "the weight is not valid at " + str(t));
            for (unsigned i = 0; i < 3; ++i) { double want = 0; if (act >= 0) { const El& x = m[static_cast<size_t>(act)]; double f = !x.any && x.b > x.a ? (t - x.a) / (x.b - x.a) : 0; want = (1 + k[i] * f) * (1 + k[i] * f); }
                if (!(std::fabs(w(i) - want) <= 1e-9 * (1 + want))) fail("weight-value", "weight " + std::to_string(i) + " at " + str(t) + " is " + str(w(i)) + " expected " + str(want) + " (active element " + std::to_string(act) + ")"); }
            (act < 0 ? miss : hit) = true; g.desc << "ask " << t << "; "; break; }
        }
        const PositionReferenceGenerator& c = *gen; for (size_t i = 0; i < m.size(); ++i) if ((v3(c[i].desiredPosition) - m[i].p).norm() > 0 || (v3(c.at(i).desiredPosition) - m[i].p).norm() > 0) fail("generator-element", "element " + std::to_string(i) + " does not hold what was written");
    }
    if (hit) g.nontrivial(); if (miss) g.classify("no active element");
}
// a reference whose value depends on time, and which can be unavailable
struct MovingCoM : oc::TimeVaryingVector { V3 a, b, c; double from = -1e9; iDynTree::VectorDynSize v{3};
    V3 at(double t) const { return a + b * t + c * std::sin(3 * t); }
    const iDynTree::VectorDynSize& get(double t, bool& ok) override { iDynTree::toEigen(v) = at(t); ok = t >= from; return v; } };
static State genState(Gen& g) {
    State s(g.below(6), static_cast<size_t>(g.integer(1, 5))); if (g.chance(25)) s.rightContactPointsState.resize(static_cast<size_t>(g.integer(1, 5)));
    for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& p : *f) { iDynTree::toEigen(p.pointPosition) = genV(g); V3 x = genV(g, 50); for (unsigned i = 0; i < 3; ++i) p.pointForce(i) = x(i); }
    for (unsigned i = 0; i < 6; ++i) s.momentumInCoM(i) = g.real(-2, 2);
    iDynTree::toEigen(s.comPosition) = genV(g); s.worldToBaseTransform = iDynTree::Transform(models::genRotation(g), models::genPosition(g, 1));
    for (unsigned i = 0; i < s.jointsConfiguration.size(); ++i) s.jointsConfiguration(i) = g.real(-2, 2);
    s.time = g.real(0, 5); return s;
}
static void guess(Gen& g) {
    State s = genState(g); auto ref = std::make_shared<MovingCoM>(); ref->a = genV(g); ref->b = genV(g); ref->c = genV(g, 0.5); bool fails = g.chance(30); if (fails) ref->from = 1;
    const State init = s; TranslatingCoMStateGuess guess(ref, s); s.zero(); int asks = static_cast<int>(g.integer(1, 4));
    for (int k = 0; k < asks; ++k) {
        double t = g.real(0, 2); bool ok = g.boolean(); g.desc << "at " << t << "; "; State& r = guess.get(t, ok);
        if (ok != (t >= ref->from)) fail("guess-validity", ok ? "the guess is said to be valid while its reference is not" : "the guess is said to be invalid while its reference is valid");
        if (!ok) { g.classify("unavailable reference"); continue; }
        V3 com = ref->at(t), d = com - v3(init.comPosition); auto near = [&](const char* sig, const V3& a, const V3& b) { if (!((a - b).norm() <= 1e-10 * (1 + b.norm()))) { std::ostringstream o; o << "(" << a.transpose() << ") instead of (" << b.transpose() << ") at " << t; fail(sig, o.str()); } };
        if (!r.sameSize(init)) fail("guess-size", "the guess has another size than the initial state");
        near("guess-com", v3(r.comPosition), com); near("guess-base", v3(r.worldToBaseTransform.getPosition()), v3(init.worldToBaseTransform.getPosition()) + d);
        if ((iDynTree::toEigen(r.worldToBaseTransform.getRotation()) - iDynTree::toEigen(init.worldToBaseTransform.getRotation())).norm() > 1e-12) fail("guess-rotation", "the base orientation changes");
        for (int f = 0; f < 2; ++f) { auto& p = f ? r.rightContactPointsState : r.leftContactPointsState; auto& q = f ? init.rightContactPointsState : init.leftContactPointsState;
            for (size_t i = 0; i < q.size(); ++i) { near("guess-point", v3(p[i].pointPosition), v3(q[i].pointPosition) + d); near("guess-force", v3(p[i].pointForce), v3(q[i].pointForce)); } }
        for (unsigned i = 0; i < 6; ++i) if (r.momentumInCoM(i) != 0) fail("guess-momentum", "the guess has momentum");
        for (unsigned i = 0; i < init.jointsConfiguration.size(); ++i) if (r.jointsConfiguration(i) != init.jointsConfiguration(i)) fail("guess-joints", "the joints change");
        if (r.time != t) fail("guess-time", "the guess is for time " + str(r.time) + " instead of " + str(t));
        g.nontrivial();
    }
}
static void exponential(Gen& g) {
    double a = g.real(-5, 5), b = g.real(-3, 3), c = g.real(-5, 5), d = g.real(-2, 2); ExponentialWeight w(a, b, c, d);
    for (int k = 0; k < 3; ++k) { double t = g.real(-3, 3); bool ok = false; double v = w.get(t, ok), e = a * std::exp(b * (t - d)) + c; if (!ok) fail("exponential-invalid", "not valid"); if (!(std::fabs(v - e) <= 1e-10 * (1 + std::fabs(a) * std::exp(b * (t - d)) + std::fabs(c)))) fail("exponential-value", "value " + str(v) + " expected " + str(e)); }
    if (a != 0 && b != 0) g.nontrivial();
}
// ---- walking: the machine against a model of when steps are planned, held and made
struct Plan { V3 p0, p1; double a0, b0, a1, b1; };
static void walking(Gen& g) {
    SimpleWalkingStateMachine M; State dummy(0, 1); if (M.advance(dummy, dummy)) fail("walking-uninitialised", "advancing without initialisation is accepted");
    V3 start = genV(g), inc(g.real(0.02, 0.3) * (g.boolean() ? 1 : -1), g.real(-0.1, 0.1), 0); double H = g.real(0.5, 3), dur = g.real(0.2, 1.2) * H, dt = g.real(0.01, 0.15) * std::min(H, dur), ft = g.oneOf({40.0, 0.0, 10.0}), pt = g.oneOf({5e-3, 0.05});
    double k[3] = {g.real(0, 5), g.real(0, 5), g.real(0, 5)}; iDynTree::Vector3 s3, i3; iDynTree::toEigen(s3) = start; iDynTree::toEigen(i3) = inc;
    if (g.chance(20)) { bool r; int w = static_cast<int>(g.below(3)); if (w == 0) r = M.initialize(s3, i3, dur, H, dt, 1, 1, 1, -g.logReal(1e-6, 10)); else if (w == 1) r = M.initialize(s3, i3, dur, H, H + g.real(1e-3, 1), 1, 1, 1); else r = M.initialize(s3, i3, dt * 0.5, H, dt, 1, 1, 1); if (r) fail("walking-initialise-accepts", "an inconsistent description is accepted"); if (M.references()) fail("walking-refused", "a refused description leaves references"); g.classify("refused description first"); }
    if (!M.initialize(s3, i3, dur, H, dt, k[0], k[1], k[2], ft, pt)) fail("walking-initialise", "a consistent description is refused");
    if (g.boolean()) M.setVerbose(g.boolean()); auto R = M.references(); if (!R) fail("walking-references", "no references");
    Plan m{start, start, 0, dur, H + 1, H + 1}; int steps = 0, planned = 0, held = 0;
    auto check = [&](const char* after) {
        auto near = [&](const char* sig, double got, double want) { if (!(std::fabs(got - want) <= 1e-9)) fail(sig, std::string(after) + ": " + str(got) + " instead of " + str(want)); };
        if (M.references() != R) fail("walking-references", "the references are replaced while walking");
        if (!((v3(R->at(0).desiredPosition) - m.p0).norm() <= 1e-9)) { std::ostringstream o; o << after << ": the current target is (" << v3(R->at(0).desiredPosition).transpose() << ") instead of (" << m.p0.transpose() << ")"; fail("walking-target", o.str()); }
        if (m.a1 <= H && !((v3(R->at(1).desiredPosition) - m.p1).norm() <= 1e-9)) fail("walking-next-target", std::string(after) + ": the planned target is not one increment ahead");
        near("walking-first-start", R->at(0).activeRange.initTime(), m.a0); near("walking-first-end", R->at(0).activeRange.endTime(), m.b0); near("walking-second-start", R->at(1).activeRange.initTime(), m.a1); near("walking-second-end", R->at(1).activeRange.endTime(), m.b1); };
    check("after initialisation"); int n = static_cast<int>(g.integer(1, 40)); double behind = g.real(0, 0.1);
    for (int i = 0; i < n; ++i) {
        auto place = [&](State& s, const V3& c, double force) { s = State(0, 2); V3 half = 0.1 * V3(-inc(1), inc(0), 0).normalized(); bool leftFront = g.boolean(); double f2 = force + g.real(0, 50);
            for (int j = 0; j < 2; ++j) { V3 o = V3(0.05 * (j ? 1 : -1), 0, 0); V3 L = c + half + inc * (leftFront ? 0.5 : -0.5) + o, Rr = c - half - inc * (leftFront ? 0.5 : -0.5) + o; iDynTree::toEigen(s.leftContactPointsState[static_cast<size_t>(j)].pointPosition) = L; iDynTree::toEigen(s.rightContactPointsState[static_cast<size_t>(j)].pointPosition) = Rr;
                auto& fr = leftFront ? s.leftContactPointsState : s.rightContactPointsState; auto& bk = leftFront ? s.rightContactPointsState : s.leftContactPointsState; fr[static_cast<size_t>(j)].pointForce(0) = fr[static_cast<size_t>(j)].pointForce(1) = 0; fr[static_cast<size_t>(j)].pointForce(2) = j == (leftFront ? 0 : 1) ? force : f2; bk[static_cast<size_t>(j)].pointForce.zero(); bk[static_cast<size_t>(j)].pointForce(2) = g.real(0, 100); } };
        State cur, fut; double ferr = g.chance(60) ? g.real(0, 0.8) * pt : g.real(1.2, 20) * pt; double force = g.chance(65) ? ft + g.real(0.5, 60) : ft * g.real(0, 0.95); V3 dir = genV(g); dir /= dir.norm() + 1e-6; if (dir.norm() < 0.5) dir = V3(1, 0, 0);
        place(fut, m.p0 + dir.normalized() * ferr, 10); place(cur, m.p0 - inc * behind, force); double t = g.chance(80) ? dt * g.real(0.5, 2) : g.real(0, 0.6) * H; cur.time = t;
        // decisions too close to call are left out
        auto clear = [](double a, double b) { if (a != b && std::fabs(a - b) < 1e-7) throw Discard(); };      // an end at exactly 0.6 of the horizon was put there on purpose
        bool done = ferr < pt; double len = m.b0 - m.a0; clear(len, 2 * dur); clear(m.b0, 0.6 * H); g.desc << "advance " << t << (done ? " done" : " far") << " force " << force << "; ";
        if (m.a1 > H && m.b0 <= 0.6 * H && (done || len > 2 * dur)) { m.a1 = H; m.b1 = H + dur; m.p1 = m.p0 + inc; ++planned; if (!done) g.classify("waited too long"); }
        double a = m.a0 - t; clear(a, 0.3 * H); clear(a + dur, dt);
        if (m.a1 <= H) {
            if (a < 0.3 * H && force < ft) { m.a0 = a; ++held; }
            else if (a + dur < dt) { m.p0 = m.p1; m.a0 = 0; m.b0 = dur; m.a1 = m.b1 = H + 1; ++steps; }
            else { m.a0 = a; m.b0 = a + dur; double b = m.a1 - t; m.a1 = b; m.b1 = b + dur; }
        } else { m.a0 = a; m.b0 = std::max(a + dur, 0.6 * H); }
        if (!M.advance(cur, fut)) fail("walking-advance", "advancing is refused"); check(("after advance " + std::to_string(i)).c_str());
    }
    if (planned) g.nontrivial(); if (steps) g.classify("stepped"); if (steps > 1) g.classify("several steps"); if (held) g.classify("held for lack of load");
}
int main(int argc, char** argv) {
    Suite s; s.property = "C19";
    s.rule = "generator: a query hits an active element; guess: a valid query; exponential: non-constant; walking: a next step is planned; distinct by generated choices";
    s.assumptions = {"time ranges are valid", "walking decisions within 1e-7 of a threshold are left out"};
    s.aspects = {{"generator", 150000, 3000000, generator}, {"guess", 60000, 1000000, guess}, {"exponential", 20000, 300000, exponential}, {"walking", 60000, 1500000, walking}};
    s.quickBudget = 120; s.thoroughBudget = 600;
    Runner r(s); return r.main(argc, argv);
}
