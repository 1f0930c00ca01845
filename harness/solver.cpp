// C17: the optimisation problem the planner hands to the optimiser is the one its settings describe, and the answer is reported faithfully.
#include "planner.h"
using namespace planner; using pbt::Suite; using pbt::Runner;

// one planner under test with everything we know about it
struct Session {
    Solver sv; std::shared_ptr<Probe> probe = std::make_shared<Probe>(); Snapshot snap; std::exception_ptr err;
    Problem P; bool prepared = false; Scene located; bool hasLayout = false; Method method = Method::Trapezoidal;
    State x0; std::shared_ptr<StateTV> gx; std::shared_ptr<ControlTV> gu; bool first = true;
    // solves with a visitor protected from exceptions travelling through the library
    bool run(std::function<bool(NLP&)> f, std::vector<State>& X, std::vector<Control>& U) {
        err = nullptr; probe->visit = [&](NLP& p, Probe&) { try { return f(p); } catch (...) { err = std::current_exception(); return false; } };
        bool ok = sv.solve(X, U); probe->visit = nullptr; if (err) std::rethrow_exception(err); return ok;
    }
};
static void requireTrue(bool ok, const char* what) { if (!ok) fail(std::string("refused:") + what, std::string("a valid call is refused: ") + what); }

static void checkAnswer(const Scene& s, const Problem& P, const std::vector<Mesh>& M, const VX& z, const std::vector<State>& X, const std::vector<Control>& U, double t0) {
    if (X.size() + 1 != M.size()) fail("answer-size", "the plan has " + std::to_string(X.size()) + " states for " + std::to_string(M.size()) + " instants");
    size_t nu = 0;
    for (size_t k = 0; k < M.size(); ++k) {
        if (k) {
            const State& a = X[k - 1]; if (!same(a.time, M[k].t, 1e-9)) fail("answer-times", "state " + std::to_string(k - 1) + " of the plan is at time " + str(a.time) + ", expected " + str(M[k].t));
            if (!a.checkSize(static_cast<size_t>(s.joints), static_cast<size_t>(s.nLeft))) fail("answer-size", "a state of the plan has the wrong dimensions");
            VX e = z.segment(M[k].x, s.x.n), v = toVector(s, a); V4 q = e.segment(s.x.off("BaseQuaternion"), 4), w = v.segment(s.x.off("BaseQuaternion"), 4); q.normalize(); if (q.dot(w) < 0) w = -w;
            e.segment(s.x.off("BaseQuaternion"), 4) = q; v.segment(s.x.off("BaseQuaternion"), 4) = w;
            for (long i = 0; i < s.x.n; ++i) if (!same(v(i), e(i), 1e-7 * (1 + std::abs(e(i))))) fail("answer:" + nameOf(s.x, i).substr(0, 8), nameOf(s.x, i) + " at time " + str(M[k].t) + " is reported as " + str(v(i)) + ", the optimiser found " + str(e(i)));
        }
        if (M[k].control) {
            if (nu >= U.size()) { if (M[k].t > t0 + P.st.horizon - 1e-9) continue; fail("answer-size", "the plan has fewer controls than the optimisation problem"); }
            const Control& a = U[nu++]; if (!same(a.time, M[k].t, 1e-9)) fail("answer-times", "control " + std::to_string(nu - 1) + " of the plan is at time " + str(a.time) + ", expected " + str(M[k].t));
            if (!a.checkSize(static_cast<size_t>(s.joints), static_cast<size_t>(s.nLeft))) fail("answer-size", "a control of the plan has the wrong dimensions");
            VX e = z.segment(M[k].u, s.u.n), v = toVector(s, a); for (long i = 0; i < s.u.n; ++i) if (!same(v(i), e(i), 1e-7 * (1 + std::abs(e(i))))) fail("answer:" + nameOf(s.u, i).substr(0, 8), nameOf(s.u, i) + " at time " + str(M[k].t) + " is reported as " + str(v(i)) + ", the optimiser found " + str(e(i)));
        }
    }
    if (nu != U.size()) fail("answer-size", "the plan has " + std::to_string(U.size()) + " controls, the optimisation problem has " + std::to_string(nu));
}
// the instants respect the horizon, the step bound and the control period
static void checkMeshes(const Problem& P, const std::vector<Mesh>& M, double t0) {
    double T = t0 + P.st.horizon; if (M.size() < 2 || !same(M.back().t, T, 1e-7)) fail("horizon", "the last instant is " + str(M.back().t) + ", the horizon ends at " + str(T));
    for (size_t k = 1; k < M.size(); ++k) { double d = M[k].t - M[k - 1].t; if (!(d > 0) || d > P.st.maximumDt + 1e-7) fail("step", "the step between times " + str(M[k - 1].t) + " and " + str(M[k].t) + " is outside (0, " + str(P.st.maximumDt) + "]");
        if (M[k].control) { double n = (M[k].t - t0) / P.st.controlPeriod; if (std::abs(n - std::round(n)) > 1e-5 && !same(M[k].t, T, 1e-7)) fail("control-period", "the control changes at time " + str(M[k].t) + ", not at a multiple of the control period"); } }
}
static Scene locateAll(const Problem& P, const Snapshot& S, const VX& x0c, const VX& u0c) {
    Scene s = P.r.s; if (S.n < s.x.n + s.u.n) fail("nlp-sizes", "the optimisation problem is smaller than one instant");
    locate(s.x, S.lo.head(s.x.n), parts(P.r.s.x, x0c), "the initial state"); locate(s.u, S.guess.segment(s.x.n, s.u.n), parts(P.r.s.u, u0c), "the guess"); return s;
}
static void specify(Session& z, const Problem& P) { Settings st; requireTrue(st.setFromStruct(P.st), "the settings"); requireTrue(z.sv.specifySettings(st), "specifySettings"); z.P = P; z.prepared = true; z.first = true; z.hasLayout = false; }

static void solveWithGuess(Gen& g, Session& z, double t0, int points) {
    Problem& P = z.P; z.x0 = genState(g, P.r.s, t0); Control c0 = genControl(g, P.r.s, t0); State b = genState(g, P.r.s, t0); requireTrue(z.sv.setInitialState(z.x0), "setInitialState");
    z.gx = std::make_shared<StateTV>(b, true); z.gu = std::make_shared<ControlTV>(c0, true); requireTrue(z.sv.setGuesses(z.gx, z.gu), "setGuesses");
    std::vector<State> X; std::vector<Control> U; std::vector<Mesh> M; VX x0v, answer;
    bool ok = z.run([&](NLP& p) {
        look(p, z.snap); if (!z.snap.hasGuess) fail("no-guess", "the guesses given are not handed to the optimiser");
        z.located = locateAll(P, z.snap, toVector(P.r.s, z.x0), toVector(P.r.s, ControlTV::at(c0, true, t0))); z.hasLayout = true; const Scene& s = z.located; x0v = toVector(s, z.x0);
        M = readMeshes(s, z.snap.guess, t0); checkMeshes(P, M, t0);
        for (size_t k = 0; k < M.size(); ++k) { VX e = k ? toVector(s, StateTV::at(b, true, M[k].t)) : x0v, v = z.snap.guess.segment(M[k].x, s.x.n); V4 q = e.segment(s.x.off("BaseQuaternion"), 4), w = v.segment(s.x.off("BaseQuaternion"), 4); if (q.dot(w) < 0) v.segment(s.x.off("BaseQuaternion"), 4) = -w;
            for (long i = 0; i < e.size(); ++i) if (!same(v(i), e(i), 1e-7 * (1 + std::abs(e(i))))) fail("guess:" + nameOf(s.x, i).substr(0, 8), "the guess for " + nameOf(s.x, i) + " at time " + str(M[k].t) + " reaches the optimiser as " + str(v(i)) + ", given was " + str(e(i)));
            if (M[k].control) { e = toVector(s, ControlTV::at(c0, true, M[k].t)); v = z.snap.guess.segment(M[k].u, s.u.n); for (long i = 0; i < e.size(); ++i) if (!same(v(i), e(i), 1e-7 * (1 + std::abs(e(i))))) fail("guess:" + nameOf(s.u, i).substr(0, 8), "the guess for " + nameOf(s.u, i) + " at time " + str(M[k].t) + " reaches the optimiser as " + str(v(i)) + ", given was " + str(e(i))); } }
        for (int i = 0; i < points; ++i) evaluate(p, z.snap, genVars(g, s, M, z.snap.n, x0v), g.boolean());
        answer = genVars(g, s, M, z.snap.n, x0v); z.probe->solution = answer; return true; }, X, U);
    if (!ok) fail("solve-failed", "solve fails although the optimiser succeeded");
    z.gx = nullptr; z.gu = nullptr; z.first = false;
    g.desc << M.size() << " instants from " << t0 << "; "; if (M.size() > 2) g.nontrivial(); if (t0 != 0) g.classify("later-start");
    checkBounds(P, z.located, z.snap, M, x0v, t0, z.probe->inf); checkValues(P, z.located, z.snap, M, z.method, z.probe->inf); checkAnswer(z.located, P, M, answer, X, U, t0);
    if (z.sv.optimalStates().size() != X.size() || z.sv.optimalControls().size() != U.size()) fail("answer-size", "the stored plan differs from the one returned");
}
static void assemblyCase(Gen& g) {
    Problem P = genProblem(g); Session z; bool late = g.chance(25); z.probe->inf = g.oneOf<double>({1e19, 2e19, 1e10});
    if (!late) requireTrue(z.sv.setOptimizer(z.probe), "setOptimizer");
    if (g.chance(15)) { z.method = Method::Euler; requireTrue(z.sv.setIntegrator(std::make_shared<oc::integrators::ForwardEuler>()), "setIntegrator"); }
    specify(z, P);
    if (late) requireTrue(z.sv.setOptimizer(z.probe), "setOptimizer");
    solveWithGuess(g, z, P.t0, static_cast<int>(g.integer(1, 2)));
}

// ---- histories: whatever was called before, each solve is that of the accepted settings, the last initial state and guesses
struct Seen { Snapshot S; std::vector<Mesh> M; State x0; double inf; bool guess, defaults, solved, failing; VX answer; std::vector<State> X; std::vector<Control> U; State b; Control c; };
struct Epoch { Problem P; Method method; std::vector<Seen> seen; };
static void sameState(const char* sig, const Scene& s, const State& a, const State& b) { if (a.time != b.time || (toVector(s, a) - toVector(s, b)).cwiseAbs().maxCoeff() > 0) fail(sig, "a plan kept by the planner differs from the one it returned"); }
static std::vector<Mesh> decodeMeshes(const Scene& s, const std::vector<State>& X, const std::vector<Control>& U, double t0, long n) {
    std::vector<Mesh> M; long nx = s.x.n, nu = s.u.n, p = nx + nu, last = nx; size_t ui = 0; M.push_back({t0, 0, nx, true}); if (U.size() && same(U[0].time, t0, 1e-9)) ui = 1; else fail("answer-times", "the first control of the plan is not at the initial time");
    for (auto& x : X) { bool c = ui < U.size() && same(U[ui].time, x.time, 1e-9); if (c) { ++ui; last = p; M.push_back({x.time, p + nu, last, true}); p += nu + nx; } else { M.push_back({x.time, p, last, false}); p += nx; } }
    if (p != n || ui != U.size()) fail("answer-size", "the plan does not correspond to the variables of the optimisation problem"); return M;
}
static void judge(const Problem& P, const Scene& s, Method method, Seen& q) {
    double t0 = q.x0.time; VX x0v = toVector(s, q.x0); long nx = s.x.n, nu = s.u.n;
    if (q.guess) { if (!q.S.hasGuess) fail("no-guess", "the guesses given are not handed to the optimiser"); q.M = readMeshes(s, q.S.guess, t0); }
    else if (q.solved) q.M = decodeMeshes(s, q.X, q.U, t0, q.S.n);
    if (q.M.empty()) { VX e = q.S.lo.head(nx), w = e; if (e.segment(s.x.off("BaseQuaternion"), 4).dot(x0v.segment(s.x.off("BaseQuaternion"), 4)) < 0) e.segment(s.x.off("BaseQuaternion"), 4) *= -1; if ((e - x0v).cwiseAbs().maxCoeff() > 1e-9 * (1 + norm1(x0v))) fail("initial-state", "the first instant is not tied to the initial state last given"); return; }
    checkMeshes(P, q.M, t0);
    if (q.guess || q.defaults) {
        if (!q.S.hasGuess) fail("no-guess", "the first problem reaches the optimiser without any guess");
        for (size_t k = 0; k < q.M.size(); ++k) {
            VX e = k && q.guess ? toVector(s, StateTV::at(q.b, true, q.M[k].t)) : x0v, v = q.S.guess.segment(q.M[k].x, nx); V4 a = e.segment(s.x.off("BaseQuaternion"), 4), b = v.segment(s.x.off("BaseQuaternion"), 4); if (a.dot(b) < 0) v.segment(s.x.off("BaseQuaternion"), 4) = -b;
            for (long i = 0; i < nx; ++i) if (!same(v(i), e(i), 1e-7 * (1 + std::abs(e(i))))) fail("guess:" + nameOf(s.x, i).substr(0, 8), "the guess for " + nameOf(s.x, i) + " at time " + str(q.M[k].t) + " reaches the optimiser as " + str(v(i)) + ", expected " + str(e(i)));
            if (q.M[k].control) { e = q.guess ? toVector(s, ControlTV::at(q.c, true, q.M[k].t)) : VX(VX::Zero(nu)); v = q.S.guess.segment(q.M[k].u, nu); for (long i = 0; i < nu; ++i) if (!same(v(i), e(i), 1e-7 * (1 + std::abs(e(i))))) fail("guess:" + nameOf(s.u, i).substr(0, 8), "the guess for " + nameOf(s.u, i) + " at time " + str(q.M[k].t) + " reaches the optimiser as " + str(v(i)) + ", expected " + str(e(i))); }
        }
    } else if (q.S.hasGuess && !q.failing) fail("stale-guess", "a guess that was already used, or never given, is handed to the optimiser again");
    checkBounds(P, s, q.S, q.M, x0v, t0, q.inf); checkValues(P, s, q.S, q.M, method, q.inf); if (q.solved) checkAnswer(s, P, q.M, q.answer, q.X, q.U, t0);
}
static VX randomVars(Gen& g, const Snapshot& S, long nx) { VX z(S.n); Tag t; for (long i = 0; i < S.n; ++i) z(i) = g.real(-1, 1) + 1e-3 * t(); z.head(nx) = S.lo.head(nx); return z; }
static void historyCase(Gen& g) {
    ProblemOptions o; o.maxJoints = 2; o.costs = 3; o.meshes = 3; std::vector<Problem> pool; pool.push_back(genProblem(g, o)); { ProblemOptions l = o; if (g.chance(60)) l.like = &pool[0]; Problem q = genProblem(g, l); pool.push_back(q); }
    Solver sv; std::vector<std::shared_ptr<Probe>> probes{std::make_shared<Probe>(), std::make_shared<Probe>()}; probes[1]->inf = g.oneOf<double>({1e19, 3e19, 1e8}); std::shared_ptr<Probe> probe;
    std::unique_ptr<Epoch> e; bool uncertain = false, haveX0 = false, first = true, pending = false, custom = false, wantEuler = false; State x0, gb; Control gc; std::shared_ptr<StateTV> gx; std::shared_ptr<ControlTV> gu; int badCall = -1; Scene located; bool hasLayout = false; int solves = 0; std::exception_ptr err;
    auto newState = [&](const Problem& P, State& out) { for (int k = 0; k < 6; ++k) { double t = k == 0 && g.chance(50) ? P.t0 : P.t0 + g.real(-0.3, 0.6) * P.st.horizon; if (meshesSafe(P, t)) { out = genState(g, P.r.s, t); return true; } } return false; };
    auto solve = [&](bool succeed, int points, bool mustGuess) {
        Epoch& E = *e; const Problem& P = E.P; Seen q; q.x0 = x0; q.inf = probe->inf; q.guess = pending; q.defaults = !pending && first; q.solved = false; q.failing = pending && badCall >= 0; q.b = gb; q.c = gc; if (pending) { gx->calls = gu->calls = 0; }
        std::vector<State> X(1); std::vector<Control> U(1); X[0].time = U[0].time = -77; bool visited = false; err = nullptr; long nx = P.r.s.x.n;
        probe->visit = [&](NLP& p, Probe&) { try {
            visited = true; look(p, q.S);
            if (pending && badCall < 0 && (!hasLayout || mustGuess)) { if (!q.S.hasGuess) fail("no-guess", "the guesses given are not handed to the optimiser"); located = locateAll(P, q.S, toVector(P.r.s, x0), toVector(P.r.s, ControlTV::at(gc, true, x0.time))); hasLayout = true; }
            for (int i = 0; i < points; ++i) evaluate(p, q.S, randomVars(g, q.S, nx), g.boolean());
            q.answer = randomVars(g, q.S, nx); probe->solution = q.answer; return succeed; } catch (...) { err = std::current_exception(); return false; } };
        bool ok = sv.solve(X, U); probe->visit = nullptr; ++solves; if (err) std::rethrow_exception(err);
        if (!ok && !(X.empty() && U.empty()) && !(X.size() == 1 && U.size() == 1 && X[0].time == -77 && U[0].time == -77)) fail("failed-plan", "a solve that fails returns a plan");
        if (ok && (!visited || !succeed)) fail("invented-plan", "solve succeeds although the optimiser did not");
        if (!visited && !uncertain) fail("solve-failed", "the problem is not handed to the optimiser");
        if (!ok && visited && succeed) fail("solve-failed", "solve fails although the optimiser succeeded");
        if (!visited) return;
        q.solved = ok; q.X = X; q.U = U; if (q.failing) { if (q.S.hasGuess) fail("failing-guess", "a guess that failed is handed to the optimiser"); q.guess = q.defaults = false; }
        if (ok) { auto& ks = sv.optimalStates(); auto& ku = sv.optimalControls(); if (ks.size() != X.size() || ku.size() != U.size()) fail("kept-plan", "a plan kept by the planner differs from the one it returned"); for (size_t k = 0; k < X.size(); ++k) sameState("kept-plan", P.r.s, ks[k], X[k]); for (size_t k = 0; k < U.size(); ++k) if (ku[k].time != U[k].time || (toVector(P.r.s, ku[k]) - toVector(P.r.s, U[k])).cwiseAbs().maxCoeff() > 0) fail("kept-plan", "a plan kept by the planner differs from the one it returned"); }
        if (ok) { pending = false; first = false; gx = nullptr; gu = nullptr; }
        if (!(q.failing && !ok)) E.seen.push_back(q);
    };
    auto guess = [&](bool failing) { const Problem& P = e->P; gb = genState(g, P.r.s, 0); gc = genControl(g, P.r.s, 0); gx = std::make_shared<StateTV>(gb, true); gu = std::make_shared<ControlTV>(gc, true); badCall = -1; if (failing) { badCall = static_cast<int>(g.below(2)); if (g.boolean()) gx->bad = badCall; else gu->bad = badCall; } requireTrue(sv.setGuesses(gx, gu), "setGuesses"); pending = true; };
    auto close = [&]() {
        if (!e) return; if (e->seen.size() && !hasLayout) { if (uncertain) { e.reset(); return; } State n; if (!newState(e->P, n)) throw pbt::Discard{}; requireTrue(sv.setInitialState(n), "setInitialState"); x0 = n; guess(false); solve(true, 0, true); }
        for (auto& q : e->seen) judge(e->P, located, e->method, q);
        e.reset(); hasLayout = false;
    };
    int ops = static_cast<int>(g.integer(4, 12)); int refusals = 0;
    for (int k = 0; k < ops; ++k) {
        uint64_t w = g.below(100);
        if (!e || w < 12) {                                                  // specify
            if (pending && e) { if (!probe || !haveX0) continue; if (badCall >= 0) guess(false); solve(true, 0, false); }
            const Problem& P = g.boolean() ? pool[0] : pool[1]; Settings st;
            if (g.chance(12)) { ++refusals; g.desc << "unset settings; "; if (sv.specifySettings(st)) fail("accepts-unset", "settings that were never set are accepted"); continue; }
            Problem before; bool known = e && hasLayout && haveX0; State keptX0 = x0; Method keptMethod = e ? e->method : Method::Trapezoidal; if (e) before = e->P; Scene keptLayout = located; if (e) close();
            if (g.chance(15)) {                                              // settings of which the horizon cannot be discretised
                ++refusals; SettingsStruct b = P.st; if (g.boolean()) b.controlPeriod = b.minimumDt * 0.5; else { b.minimumDt = b.horizon * 2; b.maximumDt = b.horizon * 5; b.controlPeriod = b.horizon * 3; }
                if (!st.setFromStruct(b)) continue; g.desc << "impossible settings; "; if (sv.specifySettings(st)) fail("accepts-impossible", "settings of which the horizon cannot be discretised are accepted");
                if (!probe) continue;
                // from here on the planner refuses to solve, or solves what it solved before
                Seen q; q.x0 = keptX0; q.inf = probe->inf; q.guess = q.defaults = false; q.failing = true; bool visited = false; err = nullptr;
                probe->visit = [&](NLP& p, Probe&) { try { visited = true; if (!known) fail("solves-refused", "the planner solves a problem although the settings were refused"); look(p, q.S); if (q.S.n < before.r.s.x.n) fail("solves-refused", "the planner solves a problem it refused"); evaluate(p, q.S, randomVars(g, q.S, before.r.s.x.n), true); q.answer = randomVars(g, q.S, before.r.s.x.n); probe->solution = q.answer; return true; } catch (...) { err = std::current_exception(); return false; } };
                q.solved = sv.solve(q.X, q.U); probe->visit = nullptr; if (err) std::rethrow_exception(err); if (!visited && q.solved) fail("invented-plan", "solve succeeds although the optimiser did not"); if (visited) judge(before, keptLayout, keptMethod, q);
                haveX0 = false; pending = false; continue;
            }
            bool sameDims = haveX0 && x0.checkSize(static_cast<size_t>(P.r.s.joints), static_cast<size_t>(P.r.s.nLeft)); if (!meshesSafe(P, sameDims ? x0.time : 0.0)) throw pbt::Discard{};
            if (!custom && g.chance(20)) { requireTrue(sv.setIntegrator(std::make_shared<oc::integrators::ForwardEuler>()), "setIntegrator"); custom = true; wantEuler = true; }
            requireTrue(st.setFromStruct(P.st), "the settings"); requireTrue(sv.specifySettings(st), "specifySettings"); g.desc << "specify " << (&P == &pool[0] ? 0 : 1) << "; ";
            e.reset(new Epoch); e->P = P; e->method = wantEuler ? Method::Euler : Method::Trapezoidal; wantEuler = false; custom = true; haveX0 = sameDims; first = true; hasLayout = false; uncertain = false; continue;
        }
        const Problem& P = e->P;
        if (w < 24 || !haveX0) { State n; if (!newState(P, n)) continue; requireTrue(sv.setInitialState(n), "setInitialState"); x0 = n; haveX0 = true; g.desc << "state at " << n.time << "; "; }
        else if (w < 27) { Scene s2 = makeScene(P.r.s.nLeft + (g.boolean() ? 1 : 0), P.r.s.nLeft, P.r.s.joints); State n(static_cast<size_t>(P.r.s.joints + (s2.nLeft == P.r.s.nLeft ? 1 : 0)), static_cast<size_t>(s2.nLeft)); n.zero(); n.time = 5; g.desc << "state of another size; "; if (sv.setInitialState(n)) fail("accepts-state", "an initial state of another size is accepted"); }
        else if (w < 38 && !pending) { bool bad = g.chance(15); guess(bad); g.desc << (bad ? "failing " : "") << "guess; "; }
        else if (w < 41) { auto b = std::make_shared<StateTV>(genState(g, P.r.s, 0), true); auto c = std::make_shared<ControlTV>(genControl(g, P.r.s, 0), true); g.desc << "null guess; "; if (g.boolean() ? sv.setGuesses(nullptr, c) : sv.setGuesses(b, nullptr)) fail("accepts-null", "a missing guess is accepted"); }
        else if (w < 46) { probe = g.pick(probes); requireTrue(sv.setOptimizer(probe), "setOptimizer"); g.desc << "optimiser; "; }
        else if (w < 49) { g.desc << "null optimiser; "; if (g.boolean() ? sv.setOptimizer(nullptr) : sv.setIntegrator(nullptr)) fail("accepts-null", "a missing optimiser or integrator is accepted"); }
        else { if (!probe) { probe = g.pick(probes); requireTrue(sv.setOptimizer(probe), "setOptimizer"); } bool good = g.chance(75); g.desc << (good ? "solve; " : "failing solve; "); solve(good, static_cast<int>(g.below(3) == 0), false); }
    }
    close(); if (solves >= 2) g.nontrivial(); if (refusals) g.classify("refusal"); if (solves >= 3) g.classify("three-solves");
}
int main(int argc, char** argv) {
    Suite S; S.property = "C17"; S.rule = "assembly: the horizon has at least two steps; histories: at least two solves";
    S.assumptions = {"time ranges do not start or end within the minimum step after the initial time and do not form chains of instants closer than the minimum step (iDynTree corrupts its memory there)", "guesses are given for the problem last specified"};
    S.aspects = {{"assembly", 400, 10000, assemblyCase}, {"histories", 300, 8000, historyCase}};
    S.quickBudget = 120; S.thoroughBudget = 900;
    return Runner(S).main(argc, argv);
}
