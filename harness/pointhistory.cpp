// C08: constraints and costs on points, quaternion and joints answer the same whatever was evaluated before.
#include "points.h"
#include <thread>
using namespace scene; using pbt::Suite; using pbt::Runner;
static Term genTerm(Gen& g, const Scene& s, bool& ok) {
    size_t nc = pointConstraintKinds().size(), nk = pointCostKinds().size(); size_t k = g.below(nc + nk); ok = true;
    std::string kind = k < nc ? pointConstraintKinds()[k] : pointCostKinds()[k - nc];
    if (kind == "foot-yaw" && s.nLeft < 4) kind = "swing";
    g.classify(kind);
    return k < nc ? pointConstraint(g, s, kind) : pointCost(g, s, kind);
}
// several terms of one problem evaluated in turn at points that share part of their variables
static void historyCase(Gen& g) {
    Scene s = g.chance(50) ? makeScene(4, 4, g.integer(1, 4)) : makeScene(g.integer(1, 3), g.integer(1, 3), g.integer(1, 4));
    bool ok; std::vector<Term> T; std::vector<std::shared_ptr<Ops>> op; int nt = static_cast<int>(g.integer(1, 3));
    for (int i = 0; i < nt; ++i) { T.push_back(genTerm(g, s, ok)); if (T.back().kind == "foot-yaw" && s.nRight < 4) throw pbt::Discard{}; op.push_back(T.back().make()); op.back()->rows = T.back().rows; }
    VX x, u; genPoint(g, s, x, u); int n = static_cast<int>(g.integer(1, 12)); if (n > 1) g.nontrivial(); double t = g.real(0, 5);
    for (int i = 0; i < n; ++i) {
        size_t k = g.below(T.size()); if (g.chance(12)) applyAgain(g, T[k], *op[k], reconfigurePoint(g, *op[k]));
        VX l = T[k].cost ? VX::Ones(1) : genLambda(g, T[k].rows); int q = static_cast<int>(g.below(6));
        auto mk = T[k].make; long rows = T[k].rows; T[k].make = [mk, rows] { auto o = mk(); o->rows = rows; o->reset(); return o; };
        checkQuantity(g, T[k], *op[k], q, t, x, u, l); T[k].make = mk;
        movePoint(g, s, x, u); if (g.chance(30)) t = g.real(0, 5);
    }
}
int main(int argc, char** argv) {
    Suite S; S.property = "C08"; S.rule = "a history is non-trivial when it has at least two evaluations";
    S.assumptions = {"buffers are supplied as iDynTree's optimal-control layer does: sized and zeroed once, then reused"};
    S.aspects = {{"histories", 60000, 2000000, historyCase}};
    return Runner(S).main(argc, argv);
}
