// C12: expressions turned into generated, compiled and loaded code compute what the expression computes.
#include "levigraph.h"
#include <filesystem>
#include <unistd.h>
using E = levi::Expression;
struct Scratch {      // a working directory of its own: the library generates its code below the current one
    std::string dir; std::filesystem::path old;
    Scratch() { char t[] = LEVI_AUTOGENERATED_DIR "/caseXXXXXX"; dir = mkdtemp(t); old = std::filesystem::current_path(); std::filesystem::current_path(dir); }
    ~Scratch() { std::error_code ec; std::filesystem::current_path(old, ec); std::filesystem::remove_all(dir, ec); }
};
static bool subtreeHas(const Graph& G, int node, Op op) { std::vector<int> st{node}; while (!st.empty()) { int q = st.back(); st.pop_back(); if (G.n[static_cast<size_t>(q)].op == op) return true; for (int j : G.n[static_cast<size_t>(q)].in) st.push_back(j); } return false; }
static long operations(const Graph& G, int node) { long k = 0; std::vector<int> st{node}; while (!st.empty() && k < 60) { int q = st.back(); st.pop_back(); Op o = G.n[static_cast<size_t>(q)].op; if (o > IDENT) ++k; for (int j : G.n[static_cast<size_t>(q)].in) st.push_back(j); } return k; }
struct Item { int node, var; long col; E e; std::string key; };

static void compiled(Gen& g) {
    Graph G; bool algebra = g.chance(60); int size = static_cast<int>(g.integer(5, 22));
    addNode(g, G, VAR); addNode(g, G, SCALVAR); if (g.boolean()) addNode(g, G, g.boolean() ? SCALVAR : FIXVAR); if (g.chance(30)) addNode(g, G, MUTABLE);
    for (int t = 0; t < 90 && static_cast<int>(G.n.size()) < size; ++t) {
        if (algebra) { static const Op ops[] = {MUL, MUL, DIV, DIV, NEG, ADD, SUB, POW, ELEM, TRANS, SCALE, DIVC, MUL, DIV, BLOCK, ROW, COL}; addNode(g, G, ops[g.below(17)]); }
        else addNode(g, G);
    }
    if (G.n.size() < 3) throw Discard();
    std::vector<Item> items; int want = static_cast<int>(g.chance(35) ? 1 : g.integer(2, 6));
    for (int t = 0; t < 3 * want && static_cast<int>(items.size()) < want; ++t) {
        Item it; it.node = static_cast<int>(G.n.size() - 1 - g.below(std::min<size_t>(G.n.size(), 10))); it.var = -1; it.col = 0; auto& x = G.n[static_cast<size_t>(it.node)];
        if (subtreeHas(G, it.node, SQUEEZE)) { it.e = x.e; }
        else if (g.chance(25)) { it.var = G.diffable[g.below(G.diffable.size())]; it.col = g.integer(0, x.c - 1); it.e = x.e.getColumnDerivative(it.col, G.base(it.var)); if (!it.e.isValidExpression()) continue; }
        else it.e = x.e;
        it.key = "o" + std::to_string(it.node) + "_" + std::to_string(it.var) + "_" + std::to_string(it.col); bool dup = false; for (auto& o : items) dup = dup || o.key == it.key; if (dup) continue;
        items.push_back(it); g.desc << "compile " << it.key << "; ";
    }
    if (items.empty()) throw Discard();
    bool several = items.size() > 1;
    Scratch where;
    static long serial = 0; static const char* names[] = {"generated", "my expression", "R_dot(q)", "d/dx"}; std::string name = std::string(names[g.below(4)]) + std::to_string(++serial) + (g.boolean() ? "" : " *");
    g.desc << "name '" << name << "'; ";
    std::vector<E> single;
    levi::DefaultMultipleCompiledOutputPointer multi;
    if (several) { levi::DefaultMultipleExpressionsMap m; for (auto& it : items) m.emplace(it.key, it.e); multi = levi::CompileMultipleExpressions(m, name); }
    else {
        auto& x = G.n[static_cast<size_t>(items[0].node)]; bool plain = items[0].var < 0;
        if (plain && x.r == 3 && x.c == 1 && g.boolean()) { levi::FixedSizeExpression<3, 1> f = items[0].e; single.push_back(f.compile(name)); g.classify("fixed size"); }
        else if (plain && x.r == 2 && x.c == 2 && g.boolean()) { levi::FixedSizeExpression<2, 2> f = items[0].e; single.push_back(f.compile(name)); g.classify("fixed size"); }
        else single.push_back(items[0].e.compile(name));
    }
    int changes = 0, steps = static_cast<int>(g.integer(1, 6)); long ops = 0; for (auto& it : items) ops = std::max(ops, operations(G, it.node));
    auto ref = [&](const Item& it) { if (it.var < 0) return G.eval()[static_cast<size_t>(it.node)].v; long dim = G.n[static_cast<size_t>(it.var)].r; MX m(G.n[static_cast<size_t>(it.node)].r, dim); for (long q = 0; q < dim; ++q) m.col(q) = G.eval(it.var, q)[static_cast<size_t>(it.node)].a.col(it.col); return m; };
    auto check = [&] {
        if (several) { auto& out = multi->evaluate(); if (out.size() != items.size()) fail("outputs", "the compiled group has " + std::to_string(out.size()) + " outputs instead of " + std::to_string(items.size()));
            for (auto& it : items) { if (!out.count(it.key)) fail("outputs", "no output named " + it.key); MX w = ref(it); if (w.cwiseAbs().maxCoeff() > 1e5) continue; close("compiled-group", MX(out.at(it.key)), w, 1e-9, "compiled value of " + it.key + " after " + std::to_string(changes) + " changes"); } }
        else { MX w = ref(items[0]); if (w.cwiseAbs().maxCoeff() <= 1e5) close("compiled", MX(single[0].evaluate()), w, 1e-9, "compiled value of " + items[0].key + " after " + std::to_string(changes) + " changes"); } };
    check();
    for (int s = 0; s < steps; ++s) {
        auto saved = G.env; std::map<int, MX> nw; int k = static_cast<int>(g.integer(1, 2));
        for (int i = 0; i < k; ++i) { int l = G.leaves[g.below(G.leaves.size())]; if (G.n[static_cast<size_t>(l)].op > SMUT) continue; nw[l] = genM(g, G.n[static_cast<size_t>(l)].r, G.n[static_cast<size_t>(l)].c); }
        for (auto& p : nw) G.env[p.first] = p.second; if (!G.tame()) { G.env = saved; continue; }
        for (auto& p : nw) G.set(p.first, p.second); ++changes; g.desc << "change; ";
        if (!several && g.chance(40)) { E bigger = 2.0 * single[0] + single[0]; MX w = 3 * ref(items[0]); if (w.cwiseAbs().maxCoeff() <= 1e5) close("compiled-inside", MX(bigger.evaluate()), w, 1e-9, "an expression using the compiled one"); }
        if (g.chance(70)) check();
    }
    check();
    g.classify(several ? "several expressions at once" : "single expression"); for (auto& it : items) { if (it.var >= 0) g.classify("derivative compiled"); std::vector<int> st{it.node}; std::set<int> seen; while (!st.empty()) { int q = st.back(); st.pop_back(); if (!seen.insert(q).second) continue; g.classify(OPN[G.n[static_cast<size_t>(q)].op]); for (int j : G.n[static_cast<size_t>(q)].in) st.push_back(j); } }
    if (changes && ops >= 3) g.nontrivial();
}
int main(int argc, char** argv) {
    setenv("shlibpp_DIR", LEVI_AUTOGENERATED_DIR, 1); setenv("CMAKE_TOOLCHAIN_FILE", LEVI_AUTOGENERATED_DIR "/toolchain.cmake", 1);
    Suite s; s.property = "C12";
    s.rule = "a case is non-trivial when some compiled expression is made of at least three operations and a leaf changed value after compiling; distinct by generated choices";
    s.assumptions = {"every compiled expression gets a name not used before in the process", "the generated code is compiled without optimisation and with precompiled headers (only faster)", "tame values: denominators away from zero, magnitudes up to 50"};
    s.aspects = {{"compiled", 2000, 40000, compiled}};
    s.quickBudget = 240; s.thoroughBudget = 1500; s.hangSeconds = 120;
    Runner r(s); return r.main(argc, argv);
}
