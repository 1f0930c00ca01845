// C11: the expression library: values, derivatives and caching of arbitrary expression graphs.
#include "levigraph.h"
struct Deriv { int node, var, var2; long col, k; levi::ExpressionComponent<levi::DefaultEvaluable::derivative_evaluable> e; };

static void graph(Gen& g) {
    Graph G; int size = static_cast<int>(g.integer(3, 14));
    addNode(g, G, VAR); if (g.boolean()) addNode(g, G, g.boolean() ? SCALVAR : FIXVAR);
    for (int t = 0; t < 60 && static_cast<int>(G.n.size()) < size; ++t) addNode(g, G);
    if (G.n.size() < 2) throw Discard();
    std::vector<Deriv> ds; int steps = static_cast<int>(g.integer(1, 10)); int changes = 0, derivs = 0;
    std::vector<std::pair<int, levi::Expression>> extra;          // copies and squeezed versions
    levi::DefaultMultipleSqueezedOutputPointer multi; std::vector<int> multiNodes;
    auto squeezable = [&](int node) { std::vector<int> st{node}; while (!st.empty()) { int q = st.back(); st.pop_back(); for (int j : G.n[static_cast<size_t>(q)].in) st.push_back(j); } return true; };
    auto dOf = [&](const Deriv& d) {      // reference of a derivative expression
        long dim = G.n[static_cast<size_t>(d.var2 < 0 ? d.var : d.var2)].r; MX m(G.n[static_cast<size_t>(d.node)].r, dim);
        for (long q = 0; q < dim; ++q) m.col(q) = d.var2 < 0 ? MX(G.eval(d.var, q)[static_cast<size_t>(d.node)].a.col(d.col)) : MX(G.eval(d.var, d.k, d.var2, q)[static_cast<size_t>(d.node)].c.col(d.col));
        return m; };
    auto checkD = [&](Deriv& d) { MX want = dOf(d); if (want.size() && want.cwiseAbs().maxCoeff() > 1e6) return; close(d.var2 < 0 ? "derivative" : "second-derivative", MX(d.e.evaluate()), want, 1e-7, (d.var2 < 0 ? "derivative of column " : "second derivative of column ") + std::to_string(d.col) + " of n" + std::to_string(d.node) + " wrt n" + std::to_string(d.var) + (d.var2 < 0 ? "" : " row " + std::to_string(d.k) + " and n" + std::to_string(d.var2)) + " (evaluation after " + std::to_string(changes) + " changes)"); };
    for (int s = 0; s < steps; ++s) {
        int act = static_cast<int>(g.below(12));
        if (act <= 3) {       // change some leaves
            auto saved = G.env; int k = static_cast<int>(g.integer(1, 2)); std::map<int, MX> nw;
            for (int i = 0; i < k; ++i) { int l = G.leaves[g.below(G.leaves.size())]; nw[l] = genM(g, G.n[static_cast<size_t>(l)].r, G.n[static_cast<size_t>(l)].c); }
            for (auto& p : nw) G.env[p.first] = p.second; if (!G.tame()) { G.env = saved; continue; }
            for (auto& p : nw) G.set(p.first, p.second); ++changes; g.desc << "change; ";
        } else if (act <= 6) {
            int i = static_cast<int>(g.below(G.n.size())); auto ref = G.eval(); g.desc << "eval n" << i << "; ";
            close("value", MX(G.n[static_cast<size_t>(i)].e.evaluate()), ref[static_cast<size_t>(i)].v, 1e-9, "value of n" + std::to_string(i) + " (" + OPN[G.n[static_cast<size_t>(i)].op] + ") after " + std::to_string(changes) + " changes");
            if (g.chance(30)) { levi::Expression c = G.n[static_cast<size_t>(i)].e; close("copied-value", MX(c.evaluate()), ref[static_cast<size_t>(i)].v, 1e-9, "value of a copy"); }
        } else if (act <= 9) {
            Deriv d; d.node = static_cast<int>(G.n.size() - 1 - g.below(std::min<size_t>(G.n.size(), 6))); d.var = G.diffable[g.below(G.diffable.size())]; d.var2 = -1; auto& x = G.n[static_cast<size_t>(d.node)]; d.col = g.integer(0, x.c - 1); d.k = 0;
            bool hasSq = false; { std::vector<int> st{d.node}; while (!st.empty()) { int q = st.back(); st.pop_back(); if (G.n[static_cast<size_t>(q)].op == SQUEEZE) hasSq = true; for (int j : G.n[static_cast<size_t>(q)].in) st.push_back(j); } } if (hasSq) continue;      // squeezed expressions are for evaluation only
            auto vb = G.base(d.var); if (!x.e.isDependentFrom(vb)) { for (long q = 0; q < G.n[static_cast<size_t>(d.var)].r; ++q) if (G.eval(d.var, q)[static_cast<size_t>(d.node)].a.cwiseAbs().maxCoeff() > 1e-9) fail("dependency", "n" + std::to_string(d.node) + " is said not to depend on n" + std::to_string(d.var)); g.classify("independent"); }
            d.e = x.e.getColumnDerivative(d.col, vb); g.desc << "d n" << d.node << "/d n" << d.var << "; "; checkD(d); ds.push_back(d); ++derivs;
            if (g.chance(60)) { Deriv dd = d; dd.var2 = G.diffable[g.below(G.diffable.size())]; dd.k = g.integer(0, G.n[static_cast<size_t>(d.var)].r - 1); dd.e = d.e.getColumnDerivative(dd.k, G.base(dd.var2)); g.desc << "dd/d n" << dd.var2 << "; "; checkD(dd); ds.push_back(dd); g.classify("second derivative"); }
        } else if (act == 10) {
            int i = static_cast<int>(g.below(G.n.size())); if (!squeezable(i)) continue; if (multi && g.boolean()) { auto& out = multi->evaluate(); auto ref = G.eval(); for (int q : multiNodes) close("multi-squeeze", out.at("o" + std::to_string(q)), ref[static_cast<size_t>(q)].v, 1e-9, "value of n" + std::to_string(q) + " evaluated together with others"); }
            else if (!extra.empty() && g.chance(30)) { auto& p = extra[g.below(extra.size())]; p.first = i; p.second = G.n[static_cast<size_t>(i)].e; g.classify("reassigned"); }
            else if (g.boolean()) { extra.emplace_back(i, G.n[static_cast<size_t>(i)].e.squeeze("q" + std::to_string(i))); g.classify("squeezed"); }
            else { levi::DefaultMultipleExpressionsMap m; multiNodes.clear(); for (int q = 0; q < 3; ++q) { int j = static_cast<int>(g.below(G.n.size())); m.emplace("o" + std::to_string(j), G.n[static_cast<size_t>(j)].e); } for (auto& p : m) multiNodes.push_back(atoi(p.first.c_str() + 1)); multi = levi::SqueezeMultipleExpressions(m); g.classify("several squeezed");
                auto& out = multi->evaluate(); auto ref = G.eval(); for (int q : multiNodes) close("multi-squeeze", out.at("o" + std::to_string(q)), ref[static_cast<size_t>(q)].v, 1e-9, "value of n" + std::to_string(q) + " evaluated together with others"); }
            g.desc << "squeeze; ";
        } else { int i = static_cast<int>(g.below(G.n.size())); G.n[static_cast<size_t>(i)].e.clearDerivativesCache(); if (!ds.empty() && g.boolean()) ds.erase(ds.begin() + static_cast<long>(g.below(ds.size()))); g.desc << "clear; "; }
        // everything obtained earlier still tells the truth
        if (!ds.empty()) checkD(ds[g.below(ds.size())]);
        if (!extra.empty()) { auto& p = extra[g.below(extra.size())]; close("squeezed-value", MX(p.second.evaluate()), G.eval()[static_cast<size_t>(p.first)].v, 1e-9, "squeezed value of n" + std::to_string(p.first) + " after " + std::to_string(changes) + " changes"); }
    }
    auto ref = G.eval(); for (size_t i = 0; i < G.n.size(); ++i) close("value", MX(G.n[i].e.evaluate()), ref[i].v, 1e-9, "final value of n" + std::to_string(i) + " (" + OPN[G.n[i].op] + ")");
    for (auto& d : ds) checkD(d);
    for (auto& x : G.n) g.classify(OPN[x.op]);
    if (changes && derivs && G.n.size() > 4) g.nontrivial();
}
int main(int argc, char** argv) {
    Suite s; s.property = "C11";
    s.rule = "a case is non-trivial when its graph has at least five nodes, a derivative was taken and a leaf changed value; distinct by generated choices";
    s.assumptions = {"differentiable points only (denominators and bases of non-positive powers away from zero)", "at most one expression per graph is turned into a variable", "squeezed expressions are only evaluated, as they have no derivatives"};
    s.aspects = {{"graph", 1200000, 20000000, graph}};
    s.quickBudget = 150; s.thoroughBudget = 1200;
    Runner r(s); return r.main(argc, argv);
}
