// C14: rectangular foot model: contact points and wrench distribution.
#include "pbt.h"
#include <DynamicalPlanner/RectangularFoot.h>
#include <iDynTree/Core/EigenHelpers.h>
#include <iDynTree/Core/Rotation.h>
#include <Eigen/Dense>
using namespace pbt;
using V3 = Eigen::Vector3d;

static iDynTree::Transform genTransform(Gen& g) {
    iDynTree::Transform t = iDynTree::Transform::Identity();
    t.setPosition(iDynTree::Position(g.real(-2, 2), g.real(-2, 2), g.real(-1, 1)));
    if (g.chance(80)) t.setRotation(iDynTree::Rotation::RPY(g.real(-3, 3), g.real(-1.5, 1.5), g.real(-3, 3)));
    return t;
}

struct Foot { double l, d; V3 top; V3 center() const { return top - V3(l / 2, d / 2, 0); } };
static Foot genFoot(Gen& g) {
    Foot f; f.l = g.chance(30) ? 0.188 : g.logReal(0.01, 2); f.d = g.chance(30) ? 0.08 : g.logReal(0.01, 2);
    f.top = g.chance(15) ? V3(f.l / 2, f.d / 2, 0) : V3(g.real(-0.5, 0.5), g.real(-0.5, 0.5), g.chance(40) ? 0.0 : g.real(-0.3, 0.3));
    g.desc << "foot l=" << f.l << " d=" << f.d << " top=(" << f.top.transpose() << ") ";
    return f;
}
static iDynTree::Position pos(const V3& v) { return iDynTree::Position(v(0), v(1), v(2)); }
static V3 vec(const iDynTree::Position& p) { return V3(p(0), p(1), p(2)); }
static V3 corner(const Foot& f, int i) { return f.center() + V3((i < 2 ? 1 : -1) * f.l / 2, (i % 2 ? -1 : 1) * f.d / 2, 0); }

// puts the object in some earlier state: other dimensions, earlier queries
static void warm(Gen& g, const Foot& target, DynamicalPlanner::RectangularFoot& foot, std::vector<iDynTree::Force>& forces, std::vector<iDynTree::Position>& pts) {
    int n = static_cast<int>(g.below(3));
    for (int k = 0; k < n; ++k) {
        Foot o; o.l = g.logReal(0.01, 2); o.d = g.logReal(0.01, 2); o.top = V3(g.real(-1, 1), g.real(-1, 1), g.real(-.2, .2));
        if (g.chance(40)) o.l = target.l; if (g.chance(40)) o.d = target.d; if (g.chance(40)) o.top = target.top;      // only some of the dimensions change
        foot.setFoot(o.l, o.d, pos(o.top));
        if (g.boolean()) { iDynTree::Wrench w; for (unsigned i = 0; i < 6; ++i) w(i) = g.real(-10, 10); w(2) = g.real(-5, 100); foot.getForces(w, forces); }
        if (g.boolean()) foot.getPoints(genTransform(g), pts);
        g.classify("reused object");
    }
}

static void points(Gen& g) {
    DynamicalPlanner::RectangularFoot foot; std::vector<iDynTree::Force> fo; std::vector<iDynTree::Position> pts;
    Foot f = genFoot(g);
    warm(g, f, foot, fo, pts);
    if (!foot.setFoot(f.l, f.d, pos(f.top))) fail("setFoot-rejects", "positive dimensions were rejected");
    if (g.chance(25)) {     // a rejected call must leave the foot as it was
        double bad = g.chance(30) ? 0.0 : -g.logReal(1e-3, 2); bool first = g.boolean();
        double good = g.logReal(0.01, 2);
        if (foot.setFoot(first ? bad : good, first ? good : bad, iDynTree::Position(9, 9, 9))) fail("setFoot-accepts", "non-positive dimension " + str(bad) + " was accepted");
        g.classify("rejected call in between");
    }
    int times = 1 + static_cast<int>(g.below(2));
    for (int k = 0; k < times; ++k) {
        iDynTree::Transform t = genTransform(g);
        if (!foot.getPoints(t, pts)) fail("getPoints-false", "getPoints failed on a set foot");
        if (pts.size() != 4) fail("points-number", "number of points is " + std::to_string(pts.size()));
        Eigen::Matrix3d R = iDynTree::toEigen(t.getRotation()); V3 p = iDynTree::toEigen(t.getPosition());
        for (int i = 0; i < 4; ++i) {
            V3 e = p + R * corner(f, i);
            if (!((vec(pts[static_cast<size_t>(i)]) - e).norm() <= 1e-9)) {
                std::ostringstream o; o << "point " << i << " is (" << vec(pts[static_cast<size_t>(i)]).transpose() << ") expected (" << e.transpose() << ")";
                fail("point-position", o.str());
            }
        }
    }
    g.nontrivial();
}

static void ratios(Gen& g) {
    DynamicalPlanner::RectangularFoot foot; std::vector<iDynTree::Force> fo; std::vector<iDynTree::Position> pts;
    Foot f = genFoot(g);
    warm(g, f, foot, fo, pts);
    foot.setFoot(f.l, f.d, pos(f.top));
    auto coord = [&](double half) { switch (g.below(5)) { case 0: return 0.0; case 1: return half; case 2: return -half; default: return g.real(-half, half); } };
    double cx = coord(f.l / 2), cy = coord(f.d / 2);
    bool diag = g.chance(10); if (diag) cy = -cx * f.d / f.l;
    g.desc << "cop=(" << cx << "," << cy << ")";
    std::vector<double> r(g.below(7), 7.7);
    foot.getNormalRatiosFromCoP(cx, cy, r);
    if (r.size() != 4) fail("ratios-number", "number of ratios is " + std::to_string(r.size()));
    double sum = 0, mx = 0, my = 0;
    for (int i = 0; i < 4; ++i) { double v = r[static_cast<size_t>(i)]; V3 c = corner(f, i) - f.center(); sum += v; mx += v * c(0); my += v * c(1);
        if (!(v >= -1e-9)) fail("ratio-negative", "centre of pressure inside the foot but ratio " + std::to_string(i) + " is " + str(v)); }
    if (!(std::fabs(sum - 1) <= 1e-9)) fail("ratio-sum", "ratios sum to " + str(sum));
    if (!(std::fabs(mx - cx) <= 1e-9 && std::fabs(my - cy) <= 1e-9)) fail("ratio-cop", "ratios give centre of pressure (" + str(mx) + "," + str(my) + ") instead of (" + str(cx) + "," + str(cy) + ")");
    // symmetric load: mirroring the centre of pressure mirrors the ratios
    std::vector<double> m; foot.getNormalRatiosFromCoP(cx, -cy, m);
    double s2 = 0; for (double v : m) { s2 += v; if (!(v >= -1e-9)) fail("ratio-negative", "negative ratio for the mirrored point"); }
    if (!(std::fabs(s2 - 1) <= 1e-9)) fail("ratio-sum", "mirrored ratios sum to " + str(s2));
    if (cx != 0 || cy != 0) g.nontrivial();
    g.classify(std::fabs(cx) == f.l / 2 && std::fabs(cy) == f.d / 2 ? "corner" : (std::fabs(cx) == f.l / 2 || std::fabs(cy) == f.d / 2) ? "edge" : diag ? "diagonal" : "interior or axis");
}

static void wrench(Gen& g) {
    DynamicalPlanner::RectangularFoot foot; std::vector<iDynTree::Force> forces; std::vector<iDynTree::Position> pts;
    Foot f = genFoot(g);
    warm(g, f, foot, forces, pts);
    foot.setFoot(f.l, f.d, pos(f.top));
    if (g.boolean()) { forces.assign(g.below(7), iDynTree::Force()); for (auto& x : forces) { x(0) = 3; x(1) = 4; x(2) = 5; } }
    int queries = 1 + static_cast<int>(g.below(3));
    std::vector<iDynTree::Position> local;
    foot.getPoints(iDynTree::Transform::Identity(), local);
    for (int q = 0; q < queries; ++q) {
        double fz; int kind = static_cast<int>(g.below(10));
        if (kind == 0) fz = -g.logReal(1e-3, 500); else if (kind == 1) fz = 0; else fz = g.logReal(1e-2, 1000);
        int region = static_cast<int>(g.below(6));   // 0..2 interior, 3 edge, 4 corner, 5 outside
        double cx = g.real(-1, 1) * f.l / 2, cy = g.real(-1, 1) * f.d / 2;
        if (region <= 2) { cx *= 0.999; cy *= 0.999; }
        if (region == 3) { if (g.boolean()) { cx = (g.boolean() ? 1 : -1) * f.l / 2; cy *= 0.999; } else { cy = (g.boolean() ? 1 : -1) * f.d / 2; cx *= 0.999; } }
        if (region == 4) { cx = (g.boolean() ? 1 : -1) * f.l / 2; cy = (g.boolean() ? 1 : -1) * f.d / 2; }
        if (region == 5) { cx *= 1 + g.real(0.1, 2); cy *= 1 + g.real(0.1, 2); }
        double fx = g.real(-50, 50), fy = g.real(-50, 50), tz = g.real(-5, 5);
        if (region == 4) tz = cx * fy - cy * fx;      // all the load on one corner: no other torque can be produced
        if (region == 3 || region == 2) {             // near-corner loads put everything on a point: keep the torque consistent there
            if (std::fabs(std::fabs(cx) - f.l / 2) < 1e-5 * f.l && std::fabs(std::fabs(cy) - f.d / 2) < 1e-5 * f.d) throw Discard();
        }
        V3 F(fx, fy, fz), M(cy * fz, -cx * fz, tz);   // about the foot centre
        if (fz <= 0) M = V3(g.real(-5, 5), g.real(-5, 5), tz);
        V3 c = f.center(); V3 Mf = M + c.cross(F);
        iDynTree::Wrench w; for (unsigned i = 0; i < 3; ++i) { w(i) = F(i); w(i + 3) = Mf(i); }
        g.desc << "region " << region << " F=(" << F.transpose() << ") M=(" << M.transpose() << ") ";
        if (!foot.getForces(w, forces)) fail("getForces-false", "getForces failed on a set foot");
        if (forces.size() != 4) fail("forces-number", "number of forces is " + std::to_string(forces.size()));
        V3 sF(0, 0, 0), sM(0, 0, 0); double scaleT = 0;
        for (size_t i = 0; i < 4; ++i) {
            V3 x(forces[i](0), forces[i](1), forces[i](2)); V3 p = corner(f, static_cast<int>(i));
            sF += x; sM += p.cross(x); scaleT += x.norm() * (p.norm() + f.l + f.d);
            if (!std::isfinite(x.sum())) fail("force-not-finite", "a point force is not finite");
            if (fz <= 0 && x.norm() != 0) fail("force-without-load", "no normal load but a point force is not zero");
            if (fz > 0 && region != 5 && !(x(2) >= -1e-6 * fz)) fail("force-pulls", "centre of pressure inside the foot but point " + std::to_string(i) + " pulls with " + str(x(2)));
        }
        if (fz > 0) {
            double tol = 1e-6 * (1 + F.norm() + scaleT + Mf.norm());
            if (!((sF - F).norm() <= tol)) { std::ostringstream o; o << "point forces sum to (" << sF.transpose() << ") instead of (" << F.transpose() << ")"; fail("force-sum", o.str()); }
            if (!((sM - Mf).norm() <= tol)) { std::ostringstream o; o << "point forces give torque (" << sM.transpose() << ") instead of (" << Mf.transpose() << ")"; fail("torque-sum", o.str()); }
            g.nontrivial();
        }
        g.classify(fz <= 0 ? "no load" : region <= 2 ? "interior" : region == 3 ? "edge" : region == 4 ? "corner" : "outside");
    }
}

static void lifecycle(Gen& g) {
    DynamicalPlanner::RectangularFoot foot; std::vector<iDynTree::Force> fo(2); std::vector<iDynTree::Position> pts(3);
    bool set = false; int ops = 1 + static_cast<int>(g.below(8));
    Foot cur{1, 1, V3(0, 0, 0)};
    for (int k = 0; k < ops; ++k) {
        switch (g.below(4)) {
        case 0: { double l = g.chance(80) ? g.real(0.01, 1) : g.real(-1, 1), d = g.chance(80) ? g.real(0.01, 1) : g.real(-1, 1); V3 t(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1));
                  if (g.chance(8)) l = 0; if (g.chance(8)) d = 0;
                  if (set && g.chance(30)) l = cur.l; if (set && g.chance(30)) d = cur.d; if (set && g.chance(30)) t = cur.top;
                  bool exp = l > 0 && d > 0; g.desc << "set(" << l << "," << d << ") ";
                  if (l > 0 && l < 1e-3) l = 1e-3; if (d > 0 && d < 1e-3) d = 1e-3;
                  if (foot.setFoot(l, d, pos(t)) != exp) fail("setFoot-result", "setFoot(" + str(l) + "," + str(d) + ") returned the wrong result");
                  if (exp) { set = true; cur = Foot{l, d, t}; } break; }
        case 1: { g.desc << "points "; iDynTree::Transform tr = genTransform(g); bool r = foot.getPoints(tr, pts);
                  if (r != set) fail("getPoints-result", "getPoints result does not tell whether the foot was set");
                  if (r) { V3 e = vec(tr * pos(corner(cur, 3))); if (pts.size() != 4 || !((vec(pts[3]) - e).norm() < 1e-9)) fail("point-position", "points do not belong to the last accepted foot"); g.nontrivial(); } break; }
        default: { g.desc << "forces "; iDynTree::Wrench w; V3 F(g.real(-5, 5), g.real(-5, 5), g.real(1, 50)); for (unsigned i = 0; i < 3; ++i) w(i) = F(i);
                  V3 c = cur.center(); V3 M = c.cross(F); for (unsigned i = 0; i < 3; ++i) w(i + 3) = M(i);
                  bool r = foot.getForces(w, fo);
                  if (r != set) fail("getForces-result", "getForces result does not tell whether the foot was set");
                  if (r) { for (auto& x : fo) if (!(std::fabs(x(2) - F(2) / 4) < 1e-6 * F(2))) fail("central-load", "a centred load is not shared equally: " + str(x(2)) + " of " + str(F(2))); g.nontrivial(); } }
        }
    }
}

int main(int argc, char** argv) {
    Suite s; s.property = "C14";
    s.rule = "a case is non-trivial when the foot is set and a loaded wrench, an off-centre pressure point or a frame transform is actually mapped; distinct by generated choices";
    s.assumptions = {"loads whose centre of pressure lies within 1e-5 of a corner carry the only torque that corner can produce", "tolerance 1e-6 relative to the size of the forces and lever arms"};
    s.aspects = {{"points", 200000, 3000000, points}, {"normal-ratios", 200000, 3000000, ratios}, {"wrench-split", 400000, 8000000, wrench}, {"lifecycle", 100000, 2000000, lifecycle}};
    s.quickBudget = 120; s.thoroughBudget = 600;
    Runner r(s); return r.main(argc, argv);
}
