// C03: derivatives of the constraints and costs on points, quaternion and joints.
#include "points.h"
using namespace scene; using pbt::Suite; using pbt::Runner;
static Term genTerm(Gen& g, Scene& s, VX& x, VX& u) {
    size_t nc = pointConstraintKinds().size(), nk = pointCostKinds().size(); size_t k = g.below(nc + nk);
    std::string kind = k < nc ? pointConstraintKinds()[k] : pointCostKinds()[k - nc];
    s = kind == "foot-yaw" ? makeScene(4, 4, 2) : makeScene(g.chance(3) ? 11 : g.integer(1, 4), g.integer(1, 4), g.integer(1, 4));
    Term T = k < nc ? pointConstraint(g, s, kind) : pointCost(g, s, kind);
    genPoint(g, s, x, u); g.nontrivial(); g.classify(kind);
    return T;
}
static std::shared_ptr<Ops> warm(Gen& g, const Scene& s, const Term& T, VX& x, VX& u) {     // an object that may have been used before
    auto op = T.make(); op->rows = T.rows; int n = static_cast<int>(g.integer(0, 2));
    for (int i = 0; i < n; ++i) { double t = g.real(0, 5); VX l = genLambda(g, T.rows); switch (g.below(4)) { case 0: op->value(t, x, u); break; case 1: op->jx(t, x, u); op->ju(t, x, u); break; case 2: op->hess(0, t, x, u, l); break; default: op->hess(1, t, x, u, l); op->hess(2, t, x, u, l); } movePoint(g, s, x, u); }
    return op;
}
static void firstCase(Gen& g) { Scene s; VX x, u; Term T = genTerm(g, s, x, u); auto op = warm(g, s, T, x, u); double t = g.real(0, 5); DiffOptions o; checkFirst(g, s, *op, t, x, u, o); }
static void secondCase(Gen& g) { Scene s; VX x, u; Term T = genTerm(g, s, x, u); auto op = warm(g, s, T, x, u); double t = g.real(0, 5); VX l = T.cost ? VX::Ones(1) : genLambda(g, T.rows); DiffOptions o; checkSecond(g, s, *op, t, x, u, l, o); }
static void sparsityCase(Gen& g) { Scene s; VX x, u; Term T = genTerm(g, s, x, u); auto op = warm(g, s, T, x, u); VX l = T.cost ? VX::Ones(1) : genLambda(g, T.rows); checkSparsity(*op, g.real(0, 5), x, u, l, true); }
int main(int argc, char** argv) {
    Suite S; S.property = "C03"; S.rule = "every case differentiates one generated constraint or cost at a generated point";
    S.assumptions = {"finite differences: extrapolated central differences with a per-component error estimate; components whose estimate does not converge are counted as inconclusive and not judged", "buffers are supplied as iDynTree's optimal-control layer does: sized and zeroed once, then reused"};
    S.aspects = {{"first-derivatives", 40000, 1200000, firstCase}, {"second-derivatives", 40000, 1200000, secondCase}, {"sparsity", 40000, 1200000, sparsityCase}};
    return Runner(S).main(argc, argv);
}
