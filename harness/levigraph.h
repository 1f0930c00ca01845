// expression graphs built with the expression library, and their reference value and derivatives (shared by levi.cpp and compiled.cpp)
#pragma once
#include "pbt.h"
#include <levi/levi.h>
#include <Eigen/Dense>
#include <memory>
using namespace pbt;
using MX = Eigen::MatrixXd; using VX = Eigen::VectorXd;

// matrix carrying its derivatives along two directions and the mixed second derivative
struct HD { MX v, a, b, c; long rows() const { return v.rows(); } long cols() const { return v.cols(); } bool scalar() const { return v.size() == 1; } };
template <class F> static HD lift(const HD& x, F f) { return {f(x.v), f(x.a), f(x.b), f(x.c)}; }
template <class F> static HD lift2(const HD& x, const HD& y, F f) { return {f(x.v, y.v), f(x.a, y.a), f(x.b, y.b), f(x.c, y.c)}; }
static MX mul(const MX& x, const MX& y) { if (x.cols() == y.rows()) return x * y; if (x.size() == 1) return x(0, 0) * y; return x * y(0, 0); }
static HD mul(const HD& x, const HD& y) { return {mul(x.v, y.v), mul(x.a, y.v) + mul(x.v, y.a), mul(x.b, y.v) + mul(x.v, y.b), mul(x.c, y.v) + mul(x.a, y.b) + mul(x.b, y.a) + mul(x.v, y.c)}; }
static HD powHD(const HD& x, double p) {
    double v = x.v(0, 0), f = std::pow(v, p), d = p * std::pow(v, p - 1), dd = p * (p - 1) * std::pow(v, p - 2); auto m = [](double q) { return MX::Constant(1, 1, q); };
    return {m(f), m(d * x.a(0, 0)), m(d * x.b(0, 0)), m(dd * x.a(0, 0) * x.b(0, 0) + d * x.c(0, 0))};
}
static MX skewM(const MX& v) { MX m(3, 3); m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
static MX veeM(const MX& m) { MX v(3, 1); v << m(2, 1), m(0, 2), m(1, 0); return v; }

enum Op { VAR, FIXVAR, SCALVAR, MUTABLE, SMUT, CONST, NUL, IDENT, ADD, SUB, MUL, DIV, NEG, POW, TRANS, ROW, COL, ELEM, BLOCK, FBLOCK, SKEW, VEE, HCAT, VCAT, BYROWS, BYCOLS, SCALE, ADDC, DIVC, RSUBC, FIXMUL, ASVAR, ASINDEP, SQUEEZE, CMUL, PLUS };
static const char* OPN[] = {"var", "fixvar", "scalarvar", "mutable", "scalarmutable", "const", "null", "identity", "+", "-", "*", "/", "neg", "pow", "transpose", "row", "col", "elem", "block", "fixedblock", "skew", "vee", "hcat", "vcat", "byrows", "bycols", "scale", "+const", "/const", "const-", "fixed*", "asvar", "asindep", "squeeze", "const*", "unary+"};
struct Node { Op op; std::vector<int> in; long p[4]{0, 0, 0, 0}; double s = 0; MX k; levi::Expression e; long r = 0, c = 0; };

struct Graph {
    std::vector<Node> n;
    std::map<int, levi::Variable> vars; std::map<int, levi::FixedSizeVariable<3>> fvars; std::map<int, levi::ScalarVariable> svars; std::map<int, levi::Mutable> muts;
    std::map<int, levi::Variable> asvars;
    std::map<int, MX> env;                    // values of the leaves
    std::vector<int> leaves, diffable;
    // value and derivatives of every node along (v1,k1) and (v2,k2)
    std::vector<HD> eval(int v1 = -1, long k1 = 0, int v2 = -1, long k2 = 0) const {
        std::vector<HD> o; o.reserve(n.size());
        for (size_t i = 0; i < n.size(); ++i) {
            const Node& x = n[i]; HD h; auto I = [&](size_t j) -> const HD& { return o[static_cast<size_t>(x.in[j])]; };
            auto zeroed = [&](const MX& v) { HD z{v, MX::Zero(v.rows(), v.cols()), MX::Zero(v.rows(), v.cols()), MX::Zero(v.rows(), v.cols())}; return z; };
            switch (x.op) {
            case VAR: case FIXVAR: case SCALVAR: case MUTABLE: case SMUT: h = zeroed(env.at(static_cast<int>(i))); break;
            case CONST: case NUL: case IDENT: h = zeroed(x.k); break;
            case ADD: h = lift2(I(0), I(1), [](const MX& a, const MX& b) { return MX(a + b); }); break;
            case SUB: h = lift2(I(0), I(1), [](const MX& a, const MX& b) { return MX(a - b); }); break;
            case MUL: case FIXMUL: h = mul(I(0), I(1)); break;
            case DIV: h = mul(I(0), powHD(I(1), -1)); break;
            case NEG: h = lift(I(0), [](const MX& a) { return MX(-a); }); break;
            case PLUS: case SQUEEZE: h = I(0); break;
            case POW: h = powHD(I(0), x.s); break;
            case TRANS: h = lift(I(0), [](const MX& a) { return MX(a.transpose()); }); break;
            case ROW: h = lift(I(0), [&](const MX& a) { return MX(a.row(x.p[0])); }); break;
            case COL: h = lift(I(0), [&](const MX& a) { return MX(a.col(x.p[0])); }); break;
            case ELEM: h = lift(I(0), [&](const MX& a) { return MX(MX::Constant(1, 1, a(x.p[0], x.p[1]))); }); break;
            case BLOCK: case FBLOCK: h = lift(I(0), [&](const MX& a) { return MX(a.block(x.p[0], x.p[1], x.p[2], x.p[3])); }); break;
            case SKEW: h = lift(I(0), skewM); break;
            case VEE: h = lift(I(0), veeM); break;
            case HCAT: h = lift2(I(0), I(1), [](const MX& a, const MX& b) { MX m(a.rows(), a.cols() + b.cols()); m << a, b; return m; }); break;
            case VCAT: h = lift2(I(0), I(1), [](const MX& a, const MX& b) { MX m(a.rows() + b.rows(), a.cols()); m << a, b; return m; }); break;
            case BYROWS: { h = zeroed(MX::Zero(x.r, x.c)); for (size_t j = 0; j < x.in.size(); ++j) { h.v.row(static_cast<long>(j)) = I(j).v; h.a.row(static_cast<long>(j)) = I(j).a; h.b.row(static_cast<long>(j)) = I(j).b; h.c.row(static_cast<long>(j)) = I(j).c; } break; }
            case BYCOLS: { h = zeroed(MX::Zero(x.r, x.c)); for (size_t j = 0; j < x.in.size(); ++j) { h.v.col(static_cast<long>(j)) = I(j).v; h.a.col(static_cast<long>(j)) = I(j).a; h.b.col(static_cast<long>(j)) = I(j).b; h.c.col(static_cast<long>(j)) = I(j).c; } break; }
            case SCALE: h = lift(I(0), [&](const MX& a) { return MX(x.s * a); }); break;
            case DIVC: h = lift(I(0), [&](const MX& a) { return MX(a / x.s); }); break;
            case ADDC: h = I(0); h.v += x.k; break;
            case RSUBC: h = lift(I(0), [](const MX& a) { return MX(-a); }); h.v += x.k; break;
            case CMUL: h = lift(I(0), [&](const MX& a) { return MX(x.k * a); }); break;
            case ASVAR: h = I(0); break;
            case ASINDEP: h = zeroed(I(0).v); break;
            }
            if (static_cast<int>(i) == v1) h.a(k1, 0) = 1, h.a = (MX::Identity(h.v.rows(), h.v.rows())).col(k1);
            if (static_cast<int>(i) == v2) h.b = (MX::Identity(h.v.rows(), h.v.rows())).col(k2);
            if (static_cast<int>(i) == v1 || static_cast<int>(i) == v2) h.c = MX::Zero(h.v.rows(), 1);
            o.push_back(h);
        }
        return o;
    }
    bool tame() const {
        for (auto& h : eval()) if (!h.v.allFinite() || (h.v.size() && h.v.cwiseAbs().maxCoeff() > 50)) return false;
        auto all = eval();
        for (auto& x : n) { if (x.op == DIV && std::fabs(all[static_cast<size_t>(x.in[1])].v(0, 0)) < 0.2) return false;
            if (x.op == POW) { double b = all[static_cast<size_t>(x.in[0])].v(0, 0); bool integer = x.s == std::floor(x.s); if (!integer && b < 0.2) return false; if (x.s < 3 && std::fabs(b) < 0.2) return false; if (integer && std::fabs(b) < 1e-3) return false; } }
        return true;
    }
    void set(int i, const MX& v) {
        env[i] = v;
        switch (n[static_cast<size_t>(i)].op) { case VAR: vars.at(i) = VX(v); break; case FIXVAR: fvars.at(i) = Eigen::Vector3d(v); break; case SCALVAR: svars.at(i) = v(0, 0); break; case MUTABLE: muts.at(i) = v; break; default: break; }
    }
    std::shared_ptr<levi::VariableBase> base(int i) {
        switch (n[static_cast<size_t>(i)].op) { case VAR: return vars.at(i).evaluable().lock(); case FIXVAR: return fvars.at(i).evaluable().lock(); case SCALVAR: return svars.at(i).evaluable().lock(); default: return asvars.at(i).evaluable().lock(); }
    }
};
static MX genM(Gen& g, long r, long c) { MX m(r, c); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) m(i, j) = g.real(-1.5, 1.5); return m; }

static bool addNode(Gen& g, Graph& G, int forced = -1) {
    Node x; int id = static_cast<int>(G.n.size()); std::string nm = "n" + std::to_string(id);
    auto any = [&] { return g.chance(50) ? static_cast<int>(G.n.size() - 1 - g.below(std::min<size_t>(G.n.size(), 3))) : static_cast<int>(g.below(G.n.size())); };
    auto R = [&](int i) { return G.n[static_cast<size_t>(i)].r; }; auto C = [&](int i) { return G.n[static_cast<size_t>(i)].c; }; auto E = [&](int i) -> levi::Expression& { return G.n[static_cast<size_t>(i)].e; };
    x.op = static_cast<Op>(forced >= 0 ? forced : static_cast<int>(g.below(36)));
    // now and then a near twin of an earlier node: the same operands, other operation, order or parameters
    int twin = -1; if (forced < 0 && G.n.size() > 2 && g.chance(15)) { int j = any(); if (G.n[static_cast<size_t>(j)].op > IDENT && !G.n[static_cast<size_t>(j)].in.empty()) { twin = j; x.op = G.n[static_cast<size_t>(j)].op;
        if (g.chance(25)) switch (x.op) { case ADD: x.op = SUB; break; case SUB: x.op = ADD; break; case ROW: x.op = COL; break; case COL: x.op = ROW; break; case HCAT: x.op = VCAT; break; case VCAT: x.op = HCAT; break; case ELEM: case FBLOCK: x.op = BLOCK; break; case MUL: x.op = ADD; break; case DIV: x.op = MUL; break; case NEG: x.op = TRANS; break; default: break; } } }
    auto T = [&]() -> const Node& { return G.n[static_cast<size_t>(twin)]; };
    int a = -1, b = -1; if (x.op > IDENT) { a = twin >= 0 ? T().in[g.below(T().in.size())] : any(); x.in = {a}; }
    auto keep = [&](long v, int i, long lo, long hi) { return twin >= 0 && g.chance(60) && T().p[i] >= lo && T().p[i] <= hi ? T().p[i] : v; };
    auto find = [&](auto pred) { if (twin >= 0 && g.chance(60)) { int j = T().in[g.below(T().in.size())]; if (pred(j)) return j; } for (int t = 0; t < 12; ++t) { int j = any(); if (pred(j)) return j; } return -1; };
    switch (g.below(8)) { case 0: x.e = levi::Null(2, 2); break; case 1: x.e = levi::Identity(3, 3); break; case 2: if (!G.n.empty()) x.e = E(any()); break; default: break; }      // what an expression held before it was assigned leaves no trace
    switch (x.op) {
    case VAR: x.r = g.integer(1, 4); x.c = 1; G.vars.emplace(id, levi::Variable(x.r, "x" + std::to_string(id))); x.e = G.vars.at(id); break;
    case FIXVAR: x.r = 3; x.c = 1; G.fvars.emplace(id, levi::FixedSizeVariable<3>(3, "f" + std::to_string(id))); x.e = G.fvars.at(id); break;
    case SCALVAR: x.r = x.c = 1; G.svars.emplace(id, levi::ScalarVariable("s" + std::to_string(id))); x.e = G.svars.at(id); break;
    case MUTABLE: x.r = g.integer(1, 4); x.c = g.integer(1, 4); if (g.chance(30)) { G.muts.emplace(id, levi::Mutable("m" + std::to_string(id))); G.muts.at(id) = MX(MX::Zero(x.r, x.c)); } else G.muts.emplace(id, levi::Mutable(x.r, x.c, "m" + std::to_string(id))); x.e = G.muts.at(id); break;
    case SMUT: return false;
    case CONST: x.r = g.integer(1, 4); x.c = g.integer(1, 4); x.k = genM(g, x.r, x.c); x.e = levi::Constant(x.k, "c" + std::to_string(id)); break;
    case NUL: x.r = g.integer(1, 4); x.c = g.integer(1, 4); x.k = MX::Zero(x.r, x.c); x.e = levi::Null(x.r, x.c); break;
    case IDENT: x.r = x.c = g.integer(1, 4); x.k = MX::Identity(x.r, x.r); x.e = levi::Identity(x.r, x.r); break;
    case ADD: case SUB: b = find([&](int j) { return R(j) == R(a) && C(j) == C(a); }); if (b < 0) return false; x.in.push_back(b); x.r = R(a); x.c = C(a); x.e = x.op == ADD ? E(a) + E(b) : E(a) - E(b); break;
    case MUL: b = find([&](int j) { return R(j) == C(a) || (R(j) == 1 && C(j) == 1) || (R(a) == 1 && C(a) == 1); }); if (b < 0) return false; x.in.push_back(b);
        if (C(a) == R(b)) { x.r = R(a); x.c = C(b); } else if (R(a) == 1 && C(a) == 1) { x.r = R(b); x.c = C(b); } else { x.r = R(a); x.c = C(a); } x.e = E(a) * E(b); break;
    case DIV: b = find([&](int j) { return R(j) == 1 && C(j) == 1; }); if (b < 0) return false; x.in.push_back(b); x.r = R(a); x.c = C(a); x.e = E(a) / E(b); break;
    case NEG: x.r = R(a); x.c = C(a); x.e = -E(a); break;
    case PLUS: x.r = R(a); x.c = C(a); x.e = +E(a); break;
    case POW: if (R(a) != 1 || C(a) != 1) return false; x.r = x.c = 1; x.s = g.oneOf({2.0, 1.0, 3.0, -1.0, 0.5, -2.0, 1.0 / 3.0}); x.e = E(a).pow(x.s); break;
    case TRANS: x.r = C(a); x.c = R(a); x.e = E(a).transpose(); break;
    case ROW: x.r = 1; x.c = C(a); x.p[0] = g.integer(0, R(a) - 1); x.e = E(a).row(x.p[0]); break;
    case COL: x.r = R(a); x.c = 1; x.p[0] = g.integer(0, C(a) - 1); x.e = E(a).col(x.p[0]); break;
    case ELEM: x.r = x.c = 1; x.p[0] = g.integer(0, R(a) - 1); x.p[1] = g.integer(0, C(a) - 1); x.e = E(a)(x.p[0], x.p[1]); break;
    case BLOCK: x.p[0] = g.integer(0, R(a) - 1); x.p[1] = g.integer(0, C(a) - 1); x.p[0] = keep(x.p[0], 0, 0, R(a) - 1); x.p[1] = keep(x.p[1], 1, 0, C(a) - 1); x.p[2] = g.integer(1, R(a) - x.p[0]); x.p[3] = g.integer(1, C(a) - x.p[1]); x.p[2] = keep(x.p[2], 2, 1, R(a) - x.p[0]); x.p[3] = keep(x.p[3], 3, 1, C(a) - x.p[1]); x.r = x.p[2]; x.c = x.p[3]; x.e = E(a).block(x.p[0], x.p[1], x.p[2], x.p[3]); break;
    case FBLOCK: if (R(a) < 2 || C(a) < 2) return false; x.p[0] = g.integer(0, R(a) - 2); x.p[1] = g.integer(0, C(a) - 2); x.p[2] = x.p[3] = 2; x.r = x.c = 2; x.e = E(a).block<2, 2>(x.p[0], x.p[1]); break;
    case SKEW: if (R(a) != 3 || C(a) != 1) { a = find([&](int j) { return R(j) == 3 && C(j) == 1; }); if (a < 0) return false; x.in = {a}; } x.r = x.c = 3; x.e = E(a).skew(); break;
    case VEE: if (R(a) != 3 || C(a) != 3) { a = find([&](int j) { return R(j) == 3 && C(j) == 3; }); if (a < 0) return false; x.in = {a}; } x.r = 3; x.c = 1; x.e = E(a).vee(); break;
    case HCAT: b = find([&](int j) { return R(j) == R(a); }); if (b < 0 || C(a) + C(b) > 6) return false; x.in.push_back(b); x.r = R(a); x.c = C(a) + C(b); x.e = levi::Expression::Horzcat(E(a), E(b), nm); break;
    case VCAT: b = find([&](int j) { return C(j) == C(a); }); if (b < 0 || R(a) + R(b) > 6) return false; x.in.push_back(b); x.r = R(a) + R(b); x.c = C(a); x.e = levi::Expression::Vertcat(E(a), E(b), nm); break;
    case BYROWS: case BYCOLS: { bool rows = x.op == BYROWS; long k = g.integer(1, 4), len = rows ? C(a) : R(a); x.in.clear();
        std::vector<levi::ExpressionComponent<levi::Evaluable<Eigen::Matrix<double, 1, Eigen::Dynamic>>>> vr; std::vector<levi::ColumnExpression> vc;
        for (long i = 0; i < k; ++i) { int j = find([&](int q) { return rows ? (R(q) == 1 && C(q) == len) : (C(q) == 1 && R(q) == len); }); if (j < 0) return false; x.in.push_back(j); if (rows) vr.push_back(E(j).row(0)); else vc.push_back(E(j).col(0)); }
        x.r = rows ? k : len; x.c = rows ? len : k; if (rows) x.e = levi::Expression::ComposeByRows(vr, nm); else x.e = levi::Expression::ComposeByCols(vc, nm); break; }
    case SCALE: x.s = g.real(-2, 2); x.r = R(a); x.c = C(a); x.e = g.boolean() ? x.s * E(a) : E(a) * x.s; break;
    case DIVC: x.s = g.real(0.4, 2); x.r = R(a); x.c = C(a); x.e = E(a) / x.s; break;
    case ADDC: x.r = R(a); x.c = C(a); x.k = genM(g, x.r, x.c); x.e = g.boolean() ? E(a) + x.k : x.k + E(a); break;
    case RSUBC: x.r = R(a); x.c = C(a); x.k = genM(g, x.r, x.c); x.e = x.k - E(a); break;
    case CMUL: x.r = g.integer(1, 4); x.c = C(a); x.k = genM(g, x.r, R(a)); if (x.r == 1 && R(a) == 1) return false; x.e = x.k * E(a); break;
    case FIXMUL: { if (R(a) != 3 || C(a) != 3) { a = find([&](int j) { return R(j) == 3 && C(j) == 3; }); if (a < 0) return false; } b = find([&](int j) { return R(j) == 3 && C(j) == 1; }); if (b < 0) return false; x.in = {a, b}; x.r = 3; x.c = 1;
        levi::FixedSizeExpression<3, 3> fa = E(a); levi::FixedSizeExpression<3, 1> fb = E(b); x.e = fa * fb; break; }
    case ASVAR: case ASINDEP: if (C(a) != 1 || !G.asvars.empty()) return false;
        for (int l : G.diffable) if (G.base(l)->variableName() == E(a).name()) return false;      // variables are told apart by name
        x.r = R(a); x.c = 1; G.asvars.emplace(id, x.op == ASVAR ? E(a).asVariable() : E(a).asIndependentVariable()); x.e = G.asvars.at(id); break;
    case SQUEEZE: x.r = R(a); x.c = C(a); x.e = E(a).squeeze(nm); break;
    }
    if (!x.e.isValidExpression()) return false;
    if (x.e.rows() != x.r || x.e.cols() != x.c) fail("dimensions", std::string(OPN[x.op]) + " gives an expression of " + std::to_string(x.e.rows()) + "x" + std::to_string(x.e.cols()) + " instead of " + std::to_string(x.r) + "x" + std::to_string(x.c));
    G.n.push_back(x);
    bool leaf = x.op <= SMUT; if (leaf) { MX v = genM(g, x.r, x.c); G.env[id] = v; G.set(id, v); G.leaves.push_back(id); }
    if (!G.tame()) { G.n.pop_back(); G.asvars.erase(id); if (leaf) { G.env.erase(id); G.leaves.pop_back(); G.vars.erase(id); G.fvars.erase(id); G.svars.erase(id); G.muts.erase(id); } return false; }
    if (x.op <= SCALVAR || x.op == ASVAR || x.op == ASINDEP) G.diffable.push_back(id);
    std::ostringstream d; d << nm << "=" << OPN[x.op]; for (int j : x.in) d << ",n" << j; if (x.op == ROW || x.op == COL || x.op == ELEM || x.op == BLOCK || x.op == FBLOCK) d << "(" << x.p[0] << "," << x.p[1] << "," << x.p[2] << "," << x.p[3] << ")"; if (x.op == POW || x.op == SCALE) d << "^" << x.s; d << "[" << x.r << "x" << x.c << "]; "; g.desc << d.str();
    return true;
}
static void close(const std::string& sig, const MX& got, const MX& want, double tol, const std::string& what) {
    if (got.rows() != want.rows() || got.cols() != want.cols()) fail(sig + "-size", what + " is " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " instead of " + std::to_string(want.rows()) + "x" + std::to_string(want.cols()));
    double s = 1 + (want.size() ? want.cwiseAbs().maxCoeff() : 0), e = want.size() ? (got - want).cwiseAbs().maxCoeff() : 0;
    if (!(e <= tol * s)) { std::ostringstream o; o << what << " is\n" << got << "\ninstead of\n" << want; fail(sig, o.str()); }
}
