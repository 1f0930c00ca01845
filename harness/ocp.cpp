// C16: the derivatives and sparsity handed to the optimiser are those of the problem it is handed, whatever was asked before.
#include "planner.h"
using namespace planner; using pbt::Suite; using pbt::Runner;

// a planner stopped inside its optimiser
struct Bench {
    Problem P; Solver sv; std::shared_ptr<Probe> probe = std::make_shared<Probe>(); State x0, gb; Control gc; bool costReg = false, conReg = false, euler = false;
    void open(const std::function<void(NLP&, const Snapshot&, const std::vector<Mesh>&, const Scene&)>& f) {
        Settings st; if (!st.setFromStruct(P.st)) fail("refused:settings", "valid settings are refused");
        if (!sv.setOptimizer(probe) || !sv.specifySettings(st) || !sv.setInitialState(x0)) fail("refused:specification", "a valid specification is refused");
        if (!sv.setGuesses(std::make_shared<StateTV>(gb, true), std::make_shared<ControlTV>(gc, true))) fail("refused:guesses", "valid guesses are refused");
        std::exception_ptr err; std::vector<State> X; std::vector<Control> U;
        probe->visit = [&](NLP& p, Probe&) { try { Snapshot S; look(p, S); if (!S.hasGuess) fail("no-guess", "the guesses given are not handed to the optimiser");
            Scene s = P.r.s; locate(s.x, S.lo.head(s.x.n), parts(P.r.s.x, toVector(P.r.s, x0)), "the initial state"); locate(s.u, S.guess.segment(s.x.n, s.u.n), parts(P.r.s.u, toVector(P.r.s, ControlTV::at(gc, true, P.t0))), "the guess");
            f(p, S, readMeshes(s, S.guess, P.t0), s); } catch (...) { err = std::current_exception(); } return false; };
        sv.solve(X, U); probe->visit = nullptr; if (err) std::rethrow_exception(err);
    }
};
static void set(NLP& p, const VX& z) { need(p.setVariables(dyn(z)), "room for the variables"); }
static double cost(NLP& p, const VX& z) { double c = 0; set(p, z); need(p.evaluateCostFunction(c), "the cost"); return c; }
static VX gradient(NLP& p, const VX& z) { iDynTree::VectorDynSize v(static_cast<unsigned>(z.size())); v.zero(); set(p, z); need(p.evaluateCostGradient(v), "the cost gradient"); return eig(v); }
static VX constraintsAt(NLP& p, const VX& z) { iDynTree::VectorDynSize v; set(p, z); need(p.evaluateConstraints(v), "the constraints"); return eig(v); }
static MX jacobian(NLP& p, const VX& z) { iDynTree::MatrixDynSize m(p.numberOfConstraints(), p.numberOfVariables()); m.zero(); set(p, z); need(p.evaluateConstraintsJacobian(m), "the constraint Jacobian"); return eig(m); }
static MX costHessian(NLP& p, const VX& z) { iDynTree::MatrixDynSize m(p.numberOfVariables(), p.numberOfVariables()); m.zero(); set(p, z); need(p.evaluateCostHessian(m), "the cost Hessian"); return eig(m); }
static MX conHessian(NLP& p, const VX& z, const VX& l) { iDynTree::MatrixDynSize m(p.numberOfVariables(), p.numberOfVariables()); m.zero(); set(p, z); need(p.evaluateConstraintsHessian(dyn(l), m), "the constraint Hessian"); return eig(m); }

static std::string where(const std::vector<Mesh>& M, const Scene& s, long i) {
    for (auto& m : M) { if (i >= m.x && i < m.x + s.x.n) return nameOf(s.x, i - m.x) + " at time " + str(m.t); if (m.control && i >= m.u && i < m.u + s.u.n) return nameOf(s.u, i - m.u) + " at time " + str(m.t); } return "variable " + std::to_string(i);
}
// variations of everything but the initial state, which is fixed
static VX genVariation(Gen& g, const Scene& s, const std::vector<Mesh>& M, long n) {
    VX d = VX::Zero(n); auto& m = M[g.below(M.size())]; bool st = &m != &M[0] && g.boolean(); const Layout& L = st ? s.x : s.u; long at = st ? m.x : m.u;
    switch (g.below(4)) { case 0: for (long i = s.x.n; i < n; ++i) d(i) = g.real(-1, 1); break; case 1: for (long i = 0; i < L.n; ++i) d(at + i) = g.real(-1, 1); break; default: d.segment(at, L.n) = genDirection(g, L); }
    if (d.norm() < 0.05) d(at) = 1; return d;
}
static Bench* makeBench(Gen& g, bool hessians) {
    std::unique_ptr<Bench> b(new Bench); ProblemOptions o; o.maxJoints = hessians ? 2 : 3; o.costs = 4; o.meshes = 3; o.alwaysCost = true; o.staticTorques = !hessians; b->P = genProblem(g, o); SettingsStruct& s = b->P.st;
    if (hessians) { s.useCostsHessianRegularization = g.chance(30); s.costsHessianRegularization = g.logReal(1e-4, 1); s.useConstraintsHessianRegularization = g.chance(30); s.constraintsHessianRegularization = g.logReal(1e-4, 1); }
    b->costReg = s.useCostsHessianRegularization; b->conReg = s.useConstraintsHessianRegularization;
    b->x0 = genState(g, b->P.r.s, b->P.t0); b->gb = genState(g, b->P.r.s, b->P.t0); b->gc = genControl(g, b->P.r.s, b->P.t0); if (g.chance(15)) { b->euler = true; b->sv.setIntegrator(std::make_shared<oc::integrators::ForwardEuler>()); } return b.release();
}
// names the variables responsible for a mismatch found along a direction
static void along(Gen& g, const std::string& sig, const std::string& what, const Scene& s, const std::vector<Mesh>& M, const VX& dir, const MX& J, const std::function<VX(const VX&, double)>& f, const DiffOptions& o, double scale) {
    try { compareDerivative(g, sig, what, J * dir, [&](double e) { return f(dir, e); }, o, scale); }
    catch (const pbt::Fail& F) { std::string names; int n = 0; for (long i = 0; i < dir.size() && n < 6; ++i) if (dir(i) != 0.0) { VX d = VX::Zero(dir.size()); d(i) = 1; try { compareDerivative(g, sig, what, J * d, [&](double e) { return f(d, e); }, o, scale); } catch (const pbt::Fail&) { names += "; " + where(M, s, i); ++n; } } fail(F.sig, F.msg + (names.empty() ? "" : "; wrong with respect to" + names)); }
}
static MI pattern(const std::vector<size_t>& r, const std::vector<size_t>& c, long R, long C, const char* what) {
    if (r.size() != c.size()) fail("pattern", std::string(what) + ": rows and columns of the declared non-zeros differ in number"); MI m = MI::Zero(R, C);
    for (size_t i = 0; i < r.size(); ++i) { if (static_cast<long>(r[i]) >= R || static_cast<long>(c[i]) >= C) fail("pattern", std::string(what) + ": a declared non-zero is outside the matrix"); m(static_cast<long>(r[i]), static_cast<long>(c[i])) = 1; } return m;
}
static void masked(const std::string& sig, const char* what, const Scene& s, const std::vector<Mesh>& M, const MX& m, const MI& mask, bool rowsAreVariables) {
    double zero = 1e-13 * (1 + norm1(m)); for (long i = rowsAreVariables ? s.x.n : 0; i < m.rows(); ++i) for (long j = s.x.n; j < m.cols(); ++j) if (!(std::abs(m(i, j)) <= zero) && !mask(i, j)) fail(sig, std::string(what) + " has the value " + str(m(i, j)) + " outside its declared pattern, with respect to " + where(M, s, j) + (rowsAreVariables ? " and " + where(M, s, i) : ", row " + std::to_string(i)));
}
static void firstCase(Gen& g) {
    std::unique_ptr<Bench> b(makeBench(g, false));
    b->open([&](NLP& p, const Snapshot& S, const std::vector<Mesh>& M, const Scene& s) {
        if (M.size() > 2) g.nontrivial(); VX z = genVars(g, s, M, S.n, toVector(s, b->x0)); DiffOptions o; o.levels = 7;
        VX d = genVariation(g, s, M, S.n); VX G = gradient(p, z); MX J = jacobian(p, z); double fs = 1e-6 * std::abs(cost(p, z)), cs = 1e-6 * norm1(constraintsAt(p, z));
        along(g, "gradient", "gradient of the cost", s, M, d, G.transpose(), [&](const VX& v, double e) { return vec({cost(p, z + e * v)}); }, o, fs);
        VX d2 = genVariation(g, s, M, S.n); along(g, "jacobian", "Jacobian of the constraints", s, M, d2, J, [&](const VX& v, double e) { return constraintsAt(p, z + e * v); }, o, cs);
        std::vector<size_t> r, c; if (p.getConstraintsJacobianInfo(r, c)) masked("jacobian-pattern", "the Jacobian of the constraints", s, M, J, pattern(r, c, S.m, S.n, "the Jacobian"), false);
    });
}
static void secondCase(Gen& g) {
    std::unique_ptr<Bench> b(makeBench(g, true));
    b->open([&](NLP& p, const Snapshot& S, const std::vector<Mesh>& M, const Scene& s) {
        if (M.size() > 2) g.nontrivial(); VX z = genVars(g, s, M, S.n, toVector(s, b->x0)); DiffOptions o; o.levels = 6; o.h = 0.03; long nx = s.x.n, k = S.n - nx; VX l = genLambda(g, S.m); bool onCost = g.chance(40);
        MX H = onCost ? costHessian(p, z) : conHessian(p, z, l); if (onCost ? b->costReg : b->conReg) { H.diagonal().array() -= onCost ? b->P.st.costsHessianRegularization : b->P.st.constraintsHessianRegularization; g.classify("regularised"); }
        closeTo(onCost ? "cost-hessian-symmetry" : "constraint-hessian-symmetry", H.bottomRightCorner(k, k), H.bottomRightCorner(k, k).transpose(), 1e-9, "a Hessian is not symmetric");
        VX d = genVariation(g, s, M, S.n); VX G = onCost ? gradient(p, z) : VX(jacobian(p, z).transpose() * l);
        along(g, onCost ? "cost-hessian" : "constraint-hessian", onCost ? "Hessian of the cost" : "Hessian of the constraints", s, M, d, H.bottomRows(k), [&](const VX& v, double e) { return VX(onCost ? gradient(p, z + e * v).tail(k) : VX(jacobian(p, z + e * v).transpose() * l).tail(k)); }, o, 1e-6 * norm1(G));
        std::vector<size_t> r, c; if (p.getHessianInfo(r, c)) masked("hessian-pattern", onCost ? "the Hessian of the cost" : "the Hessian of the constraints", s, M, H, pattern(r, c, S.n, S.n, "the Hessian"), true);
    });
}
static void orderCase(Gen& g) {
    bool hess = g.chance(50); std::unique_ptr<Bench> b(makeBench(g, hess)); const char* nm[] = {"cost", "cost gradient", "constraints", "constraint Jacobian", "cost Hessian", "constraint Hessian"}; VX z0; int q0 = 0; MX first; VX l; bool any = false;
    auto ask = [&](NLP& p, int q, const VX& z) -> MX { switch (q) { case 0: return vec({cost(p, z)}); case 1: return gradient(p, z); case 2: return constraintsAt(p, z); case 3: return jacobian(p, z); case 4: return costHessian(p, z); default: return conHessian(p, z, l); } };
    auto differ = [&](const char* sig, int q, const MX& A, const MX& B) { if (A.rows() != B.rows() || A.cols() != B.cols() || !(norm1(A - B) <= 1e-9 * (1 + norm1(B)))) fail(std::string(sig) + ":" + nm[q], std::string("the ") + nm[q] + " of one trajectory depends on what was asked before"); };
    b->open([&](NLP& p, const Snapshot& S, const std::vector<Mesh>& M, const Scene& s) {
        VX x0v = toVector(s, b->x0); l = genLambda(g, S.m); std::vector<VX> Z{genVars(g, s, M, S.n, x0v), genVars(g, s, M, S.n, x0v)}; { VX z = Z[0]; auto& m = M[g.below(M.size())]; if (&m != &M[0] && g.boolean()) z.segment(m.x, s.x.n) = Z[1].segment(m.x, s.x.n); else z.segment(m.u, s.u.n) = Z[1].segment(m.u, s.u.n); Z.push_back(z); }
        std::map<std::pair<int, int>, MX> seen; int n = static_cast<int>(g.integer(3, 10)); for (int k = 0; k < n; ++k) { int q = static_cast<int>(g.below(hess ? 6 : 4)), i = static_cast<int>(g.below(3)); g.desc << nm[q] << " of " << i << "; "; MX v = ask(p, q, Z[static_cast<size_t>(i)]); auto it = seen.find({q, i}); if (it == seen.end()) seen[{q, i}] = v; else { differ("repeat", q, v, it->second); g.nontrivial(); } z0 = Z[static_cast<size_t>(i)]; q0 = q; first = v; any = true; }
    });
    if (any) { Bench f; f.P = b->P; f.x0 = b->x0; f.gb = b->gb; f.gc = b->gc; if (b->euler) f.sv.setIntegrator(std::make_shared<oc::integrators::ForwardEuler>()); f.open([&](NLP& p, const Snapshot& S, const std::vector<Mesh>&, const Scene&) { if (S.n != z0.size()) return; differ("fresh", q0, first, ask(p, q0, z0)); g.nontrivial(); }); }
}
int main(int argc, char** argv) {
    Suite S; S.property = "C16"; S.rule = "derivatives: the horizon has at least two steps; order: some answer is compared with an earlier one or with that of a fresh planner";
    S.assumptions = {"the initial state, which the problem fixes, is not varied", "a cost is active at every instant (iDynTree leaves its derivative buffers unset otherwise)", "no static torques cost where second derivatives are asked: it provides none", "finite differences with an error estimate; what does not converge is counted and not judged"};
    S.aspects = {{"first-derivatives", 200, 6000, firstCase}, {"second-derivatives", 200, 6000, secondCase}, {"order", 100, 3000, orderCase}};
    S.quickBudget = 120; S.thoroughBudget = 900;
    return Runner(S).main(argc, argv);
}
