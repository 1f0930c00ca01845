// C07: whole-robot terms that share the kinematics services of one problem do not influence each other, nor their own later answers.
#include "bodies.h"
using namespace scene; using pbt::Suite; using pbt::Runner;
static void historyCase(Gen& g) {
    Robot r = genRobot(g, 3, 2); Rig shared = r.rig(); std::vector<Term> T; std::vector<std::shared_ptr<Ops>> op; int nt = static_cast<int>(g.integer(1, 4)); std::vector<std::string> used; 
    for (int i = 0; i < nt; ++i) {
        BodyTerm b = bodyTerm(g, r); bool dup = b.kind == "frame-orientation" && std::find(used.begin(), used.end(), b.kind) != used.end(); if (dup) continue; used.push_back(b.kind);
        auto o = b.make(shared); o->rows = b.rows; o->reset(); op.push_back(o); T.push_back(asTerm(b, [r] { return r.rig(); }));
    }
    if (T.empty()) throw pbt::Discard{};
    VX x, u; genPoint(g, r.s, x, u); double t = genTime(g); int n = static_cast<int>(g.integer(1, 10)); if (n > 1) g.nontrivial();
    for (int i = 0; i < n; ++i) {
        size_t k = g.below(T.size()); if (g.chance(15)) applyAgain(g, T[k], *op[k], reconfigureBody(g, r, *op[k]));
        VX l = T[k].cost ? VX::Ones(1) : genLambda(g, T[k].rows); int q = static_cast<int>(g.below(T[k].hessians ? 6 : 3));
        bool judge = i == n - 1 || g.chance(35);
        if (judge) checkQuantity(g, T[k], *op[k], q, t, x, u, l); else { if (q == 0) op[k]->value(t, x, u); else if (q == 1) op[k]->jx(t, x, u); else if (q == 2) op[k]->ju(t, x, u); else op[k]->hess(q - 3, t, x, u, l); }
        movePoint(g, r.s, x, u); if (g.chance(30)) t = genTime(g);
    }
}
int main(int argc, char** argv) {
    Suite S; S.property = "C07"; S.rule = "a history is non-trivial when it has at least two evaluations on the shared services";
    S.assumptions = {"buffers are supplied as iDynTree's optimal-control layer does: sized and zeroed once, then reused", "one frame orientation cost per frame, as the planner creates"};
    S.aspects = {{"histories", 700, 20000, historyCase}};
    return Runner(S).main(argc, argv);
}
