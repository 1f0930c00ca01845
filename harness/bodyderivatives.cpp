// C06: derivatives of the constraints and costs that involve the whole robot.
#include "bodies.h"
using namespace scene; using pbt::Suite; using pbt::Runner;
struct Setup { Robot r; Rig rig; BodyTerm T; std::shared_ptr<Ops> op; VX x, u; double t; };
static void prepare(Gen& g, Setup& S, unsigned joints) {
    S.r = genRobot(g, joints, 2); S.rig = S.r.rig(); S.T = bodyTerm(g, S.r); S.op = S.T.make(S.rig); S.op->rows = S.T.rows; S.op->reset(); genPoint(g, S.r.s, S.x, S.u); S.t = genTime(g); g.nontrivial();
    if (g.chance(30)) { S.op->value(S.t, S.x, S.u); S.op->jx(S.t, S.x, S.u); movePoint(g, S.r.s, S.x, S.u); }
}
static void firstCase(Gen& g) { Setup S; prepare(g, S, 5); DiffOptions o; o.levels = 6; o.tol = 1e-5; checkFirst(g, S.r.s, *S.op, S.t, S.x, S.u, o); }
static void secondCase(Gen& g) {
    Setup S; prepare(g, S, 3); if (!S.T.hessians) { g.classify("no-second-derivatives"); throw pbt::Discard{}; }
    VX l = S.T.cost ? VX::Ones(1) : genLambda(g, S.T.rows); DiffOptions o; o.levels = 5; o.tol = 1e-5; checkSecond(g, S.r.s, *S.op, S.t, S.x, S.u, l, o);
}
static void sparsityCase(Gen& g) { Setup S; prepare(g, S, 3); VX l = S.T.cost ? VX::Ones(1) : genLambda(g, S.T.rows); checkSparsity(*S.op, S.t, S.x, S.u, l, S.T.hessians); }
int main(int argc, char** argv) {
    Suite S; S.property = "C06"; S.rule = "every case differentiates one whole-robot constraint or cost of a generated robot at a generated point";
    S.assumptions = {"finite differences: extrapolated central differences with a per-component error estimate; components whose estimate does not converge are counted as inconclusive and not judged", "buffers are supplied as iDynTree's optimal-control layer does: sized and zeroed once, then reused", "the static torques cost offers no second derivatives"};
    S.aspects = {{"first-derivatives", 1500, 20000, firstCase}, {"second-derivatives", 1000, 12000, secondCase}, {"sparsity", 500, 10000, sparsityCase}};
    return Runner(S).main(argc, argv);
}
