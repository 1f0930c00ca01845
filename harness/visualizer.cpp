// C21: what is shown and saved is the trajectory.
#include "pbt.h"
#include "screen.h"
#include <sys/resource.h>
#include <DynamicalPlanner/Visualizer.h>
#include <DynamicalPlanner/State.h>
using namespace pbt;
using DynamicalPlanner::State;
using DynamicalPlanner::Visualizer;
using screen::world;
using Pos = iDynTree::Position;
using V3 = Eigen::Vector3d;

static std::string vec(const V3& v) { return "(" + str(v(0)) + " " + str(v(1)) + " " + str(v(2)) + ")"; }
static V3 p3(const Pos& p) { return iDynTree::toEigen(p); }

struct Ctx {
    unsigned dofs = 1; size_t left = 4, right = 4; bool hasModel = false; V3 cam, target; int maxArrows = 0; bool fewer = false;
};
static State genState(Gen& g, const Ctx& c, double time) {
    State s(c.dofs, c.left); s.rightContactPointsState.resize(c.right);
    bool quiet = g.chance(20);
    for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& p : *f) for (unsigned k = 0; k < 3; ++k) { p.pointPosition(k) = g.real(-2, 2); p.pointForce(k) = quiet ? 0.0 : g.real(-200, 200); }
    for (unsigned k = 0; k < 3; ++k) s.comPosition(k) = g.real(-2, 2);
    for (unsigned k = 0; k < 6; ++k) s.momentumInCoM(k) = g.real(-2, 2);
    s.worldToBaseTransform = iDynTree::Transform(models::genRotation(g), models::genPosition(g, 2));
    for (unsigned k = 0; k < c.dofs; ++k) s.jointsConfiguration(k) = g.real(-2, 2);
    s.time = time; return s;
}
static std::vector<State> genTrajectory(Gen& g, const Ctx& c, size_t n, double t0) {
    std::vector<State> v; double t = t0, step = g.logReal(0.005, 0.3); bool fixedStep = g.boolean();
    for (size_t i = 0; i < n; ++i) { v.push_back(genState(g, c, t)); t += fixedStep ? step : g.logReal(0.002, 0.3); }
    return v;
}
static std::vector<std::array<double, 6>> arrowsOf(const State& s) {
    std::vector<std::array<double, 6>> a;
    for (auto* f : {&s.leftContactPointsState, &s.rightContactPointsState}) for (auto& p : *f) { V3 fo(p.pointForce(0), p.pointForce(1), p.pointForce(2)); if (fo.norm() > 0) a.push_back({p.pointPosition(0), p.pointPosition(1), p.pointPosition(2), fo(0), fo(1), fo(2)}); }
    std::sort(a.begin(), a.end()); return a;
}
// the panel shows that state
static void shows(const screen::Panel& p, const State& s, const std::string& where) {
    double d = (iDynTree::toEigen(p.pose.asHomogeneousTransform()) - iDynTree::toEigen(s.worldToBaseTransform.asHomogeneousTransform())).cwiseAbs().maxCoeff();
    if (!(d <= 1e-9)) fail("wrong-base", where + ": the robot is drawn at another base pose than the state's");
    Eigen::VectorXd q = iDynTree::toEigen(s.jointsConfiguration);
    if (p.joints.size() != q.size() || !((p.joints - q).cwiseAbs().maxCoeff() <= 1e-9)) fail("wrong-joints", where + ": the robot is drawn with other joints than the state's");
    auto a = arrowsOf(s);
    if (p.arrows.size() != a.size()) fail("wrong-arrows", where + ": " + std::to_string(p.arrows.size()) + " forces are drawn, the state has " + std::to_string(a.size()));
    for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < 6; ++k) if (!(std::fabs(a[i][k] - p.arrows[i][k]) <= 1e-9 * (1 + std::fabs(a[i][k])))) fail("wrong-arrows", where + ": a force is drawn at another point or with other components");
}
static void seenFrom(const screen::Panel& p, const V3& cam, const V3& target, const std::string& where) {
    if (!((p.cam - cam).norm() <= 1e-12)) fail("wrong-camera", where + ": the camera is at " + vec(p.cam) + " instead of " + vec(cam));
    if (!((p.target - target).norm() <= 1e-12)) fail("wrong-camera", where + ": the camera looks at " + vec(p.target) + " instead of " + vec(target));
}
static const screen::Panel& whole(const std::vector<screen::Panel>& v, int W, int H, const std::string& where) {
    if (v.size() != 1) fail("not-one-picture", where + ": " + std::to_string(v.size()) + " pictures side by side");
    if (v[0].x != 0 || v[0].y != 0 || v[0].w != W || v[0].h != H) fail("partial-picture", where + ": only the area " + std::to_string(v[0].x) + "," + std::to_string(v[0].y) + " " + std::to_string(v[0].w) + "x" + std::to_string(v[0].h) + " is painted");
    return v[0];
}
static void noTrace(const screen::Panel& p, const std::string& where) { if (!p.labels.empty()) fail("label-left", where + ": the label of an earlier animation is still visible"); }
// pictures of one trajectory follow each other at its pace
static void pace(const std::vector<screen::Shown>& shown, const std::vector<State>& v, double cost, double finished) {
    size_t want = shown.size();
    for (size_t i = 0; i < want; ++i) {
        bool last = i + 1 == want; double gap = (last ? finished : shown[i + 1].at) - shown[i].at, dt = i + 1 < v.size() ? v[i + 1].time - v[i].time : 0.0;
        if (!last && gap < dt - 2e-3) fail("too-fast", "states " + str(dt) + " s apart are shown " + str(gap) + " s apart");
        if (gap > std::max(dt, cost) + 2.5e-3) fail("too-slow", (last ? "after the last state of " + std::to_string(v.size()) + " nothing happens for " + str(gap) + " s" : "states " + str(dt) + " s apart are shown " + str(gap) + " s apart") + " while drawing takes " + str(cost) + " s");
    }
}
static const int W = 1920, H = 1080;
static void reset() { auto& w = world(); w.shown.clear(); w.files.clear(); w.commands.clear(); }
static void nothing(const std::string& what) { auto& w = world(); if (!w.shown.empty() || !w.files.empty() || !w.commands.empty()) fail("refused-but-acted", what + " was refused but something was drawn, saved or run"); }
static double after(Gen& g, const std::vector<State>& s, bool& limited) {
    // no limit, before the first state, exactly at a state, between states, beyond the last
    limited = true;
    switch (g.below(6)) {
    case 0: case 1: limited = false; return g.boolean() ? -1.0 : -g.logReal(1e-3, 10);
    case 2: return s.empty() ? 1.0 : s.front().time * g.real(0.1, 0.9);
    case 3: return s.empty() ? 1.0 : s[g.below(s.size())].time;
    case 4: return s.empty() ? 1.0 : s[g.below(s.size())].time + 1e-3;
    default: return s.empty() ? 1.0 : s.back().time + g.real(0.1, 5);
    }
}
// the command makes the movie of exactly the saved images
static void movie(const std::string& cmd, const std::string& folder, const std::string& name, const std::string& ext, const std::vector<screen::Shot>& files, const std::string& where) {
    if (cmd.rfind("ffmpeg ", 0) != 0) fail("movie-command", where + ": '" + cmd + "'");
    size_t i = cmd.find(" -i "); if (i == std::string::npos) fail("movie-command", where + ": no input in '" + cmd + "'");
    std::string pat = cmd.substr(i + 4); pat = pat.substr(0, pat.find(' '));
    size_t pc = pat.find('%'); if (pc == std::string::npos || pat.find('d', pc) == std::string::npos) fail("movie-command", where + ": the input is no numbered series: " + pat);
    for (size_t k = 0; k < files.size(); ++k) { char b[512]; snprintf(b, sizeof b, pat.c_str(), static_cast<int>(k)); if (files[k].file != b) fail("movie-misses-images", where + ": image " + std::to_string(k) + " is saved as " + files[k].file + " while the movie reads " + b); }
    std::string out = " " + folder + "/" + name + "." + ext;
    if (cmd.size() < out.size() || cmd.substr(cmd.size() - out.size()) != out) fail("movie-command", where + ": the movie is not written to" + out + ": '" + cmd + "'");
    if (ext == "mp4" && cmd.find("-pix_fmt yuv420p") == std::string::npos) fail("movie-command", where + ": an mp4 without the portable pixel format");
    if (cmd.find(" -y") == std::string::npos) fail("movie-command", where + ": an earlier movie would make the command wait for an answer");
    // a series shorter than earlier ones under the same name is not our business: every image above was rewritten
}
static int frameRate(const std::string& cmd) { size_t i = cmd.find("-framerate "); return i == std::string::npos ? -1 : atoi(cmd.c_str() + i + 11); }

static void history(Gen& g) {
    auto& w = world(); w.refuseModels = 0; w.errors.clear(); reset();
    double cost = g.oneOf<double>({0.0, 0.004, 0.03, 0.2}); w.drawCost = [cost] { return cost; };
    struct Quiet { std::streambuf *o, *e; bool& v; Quiet(bool& vt) : o(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)), v(vt) { v = true; } ~Quiet() { v = false; std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } } quiet(w.virtualTime);
    w.clock = 1000;
    Visualizer viz;
    Ctx c; c.dofs = static_cast<unsigned>(g.integer(1, 4)); c.left = static_cast<size_t>(g.integer(1, 4)); c.right = g.chance(30) ? static_cast<size_t>(g.integer(1, 4)) : c.left;
    iDynTree::Model m = models::genTree(g, c.dofs);
    { Pos a = screen::cameraPosition(), b = screen::cameraTarget(); c.cam = p3(a); c.target = p3(b); }
    long steps = g.integer(3, 10); int played = 0;
    for (long st = 0; st < steps; ++st) {
        reset();
        int op = static_cast<int>(g.below(20)); if (!c.hasModel && st >= 1 && g.chance(70)) op = 0;
        if (g.chance(12)) { c.left = static_cast<size_t>(g.integer(1, 4)); c.right = static_cast<size_t>(g.integer(1, 4)); g.classify("other number of points"); }
        std::string folder = g.oneOf<std::string>({"/out", "movies/today", "."}), name = "run" + std::to_string(st);
        if (op <= 1) {
            bool refuse = g.chance(25); w.refuseModels = refuse ? 1 : 0; bool expect = !c.hasModel && !refuse; g.desc << "model " << (refuse ? "(refused) " : "") << "; ";
            bool had = c.hasModel, ok = viz.setModel(m);
            if (had && ok) fail("second-model", "a second model is accepted"); if (ok != expect) fail("set-model", "setting the model answers " + std::to_string(ok));
            if (had && screen::modelCount() != 1) fail("second-model", "there are now several robots"); c.hasModel = had || ok; w.refuseModels = 0; nothing("setting a model");
        } else if (op <= 3) {
            Pos p = models::genPosition(g, 3); g.desc << "camera; "; bool ok; if (op == 2) { ok = viz.setCameraPosition(p); c.cam = p3(p); } else { ok = viz.setCameraTarget(p); c.target = p3(p); } if (!ok) fail("answer", "placing the camera is refused");
            if (!((p3(screen::cameraPosition()) - c.cam).norm() <= 1e-12) || !((p3(screen::cameraTarget()) - c.target).norm() <= 1e-12)) fail("camera-set", "the camera is not where it was put");
        } else if (op == 4) {
            V3 d(g.real(-1, 1), g.real(-1, 1), g.real(-1, 1)); if (d.norm() < 0.1) d = V3(0, 0, -1); iDynTree::Direction dir(d(0), d(1), d(2)); g.desc << "light; "; if (!viz.setLightDirection(dir)) fail("answer", "turning the light is refused");
            for (auto* e : screen::environments()) for (unsigned k = 0; k < 3; ++k) if (!(std::fabs(e->lights["sun"].dir(k) - dir(k)) <= 1e-9)) fail("light", "the light of the window or of the saved images does not follow the request");
        } else if (op == 5) {
            bool b = g.boolean(); g.desc << "world frame " << b << "; "; viz.visualizeWorldFrame(b); for (auto* e : screen::environments()) if (e->visible["world_frame"] != b) fail("world-frame", "the world frame of the window or of the saved images does not follow the request");
        } else if (op <= 7) {
            State s = genState(g, c, g.real(0, 3)); g.desc << "state; "; bool ok = viz.visualizeState(s);
            if (ok != c.hasModel) fail("answer", "showing a state answers " + std::to_string(ok)); if (!c.hasModel) { nothing("a state without robot"); continue; }
            if (w.shown.size() != 1) fail("not-one-drawing", "a state is drawn " + std::to_string(w.shown.size()) + " times"); const auto& p = whole(w.shown[0].panels, W, H, "state"); shows(p, s, "state"); noTrace(p, "state"); seenFrom(p, c.cam, c.target, "state"); ++played;
        } else if (op <= 11) {
            bool cams = op >= 10; size_t n = g.below(7); auto v = genTrajectory(g, c, n, g.boolean() ? 0.0 : g.logReal(0.001, 2)); bool limited; double end = after(g, v, limited); if (end == 0.0) { end = -1; limited = false; }
            std::vector<Pos> cp(n), ct(n); for (auto& x : cp) x = models::genPosition(g, 3); for (auto& x : ct) x = models::genPosition(g, 3);
            bool wrong = false; if (cams && g.chance(25)) { auto& x = g.boolean() ? cp : ct; if (g.boolean() || x.empty()) x.push_back(Pos(0, 0, 0)); else x.pop_back(); wrong = true; }
            g.desc << "play " << n << (cams ? " with cameras" : "") << (wrong ? " (wrong size)" : "") << (limited ? " until " + str(end) : "") << "; ";
            bool dflt = !limited && end == -1.0; bool ok = cams ? (dflt ? viz.visualizeStates(v, cp, ct) : viz.visualizeStates(v, cp, ct, end)) : (dflt ? viz.visualizeStates(v) : viz.visualizeStates(v, end));
            bool expect = c.hasModel && !wrong; if (ok != expect) fail("answer", "playing answers " + std::to_string(ok)); if (!expect) { nothing("playing"); continue; }
            size_t want = 0; while (want < n && (!limited || v[want].time <= end)) ++want;
            if (w.shown.size() != want) fail("frames-shown", std::to_string(w.shown.size()) + " states are shown instead of " + std::to_string(want));
            for (size_t i = 0; i < want; ++i) { const auto& p = whole(w.shown[i].panels, W, H, "play"); shows(p, v[i], "play, state " + std::to_string(i)); noTrace(p, "play"); seenFrom(p, cams ? p3(cp[i]) : c.cam, cams ? p3(ct[i]) : c.target, "play, state " + std::to_string(i)); }
            pace(w.shown, v, cost, w.clock);
            if (!((p3(screen::cameraPosition()) - c.cam).norm() <= 1e-12) || !((p3(screen::cameraTarget()) - c.target).norm() <= 1e-12)) fail("camera-left", "after playing the camera is not back where it was put");
            if (want >= 2) ++played; g.classify(limited ? "limited" : "unlimited");
        } else if (op <= 15) {
            size_t n = g.chance(5) ? static_cast<size_t>(g.integer(95, 105)) : g.below(14); auto v = genTrajectory(g, c, n, g.logReal(0.001, 0.3)); bool limited; double end = after(g, v, limited); if (end == 0.0) { end = -1; limited = false; }
            std::string ext = g.oneOf<std::string>({"gif", "mp4", "avi"}); g.desc << "save " << n << (limited ? " until " + str(end) : "") << " " << ext << "; ";
            bool dflt = !limited && end == -1.0; bool ok = dflt ? (ext == "gif" ? viz.visualizeStatesAndSaveAnimation(v, folder, name) : viz.visualizeStatesAndSaveAnimation(v, folder, name, ext)) : viz.visualizeStatesAndSaveAnimation(v, folder, name, ext, end);
            if (ok != c.hasModel) fail("answer", "saving answers " + std::to_string(ok)); if (!c.hasModel) { nothing("saving"); continue; }
            size_t want = 0; while (want < n && (!limited || v[want].time <= end)) ++want;
            if (w.files.size() != want) fail("frames-saved", std::to_string(w.files.size()) + " images are saved instead of " + std::to_string(want));
            if (w.shown.size() != want) fail("frames-shown", std::to_string(w.shown.size()) + " states are shown while saving instead of " + std::to_string(want));
            for (size_t i = 0; i < want; ++i) { const auto& p = whole(w.files[i].panels, W, H, "saved image"); shows(p, v[i], "saved image " + std::to_string(i)); noTrace(p, "saved image"); seenFrom(p, c.cam, c.target, "saved image " + std::to_string(i)); }
            pace(w.shown, v, cost, w.clock);
            if (want == 0) { if (!w.commands.empty()) fail("movie-command", "a movie of nothing is made"); continue; }
            if (w.commands.size() != 1) fail("movie-command", std::to_string(w.commands.size()) + " commands are run"); movie(w.commands[0], folder, name, ext, w.files, "saving");
            double fps = static_cast<double>(want) / v[want - 1].time; if (fps >= 1 && fps < 1e6 && std::fabs(frameRate(w.commands[0]) - fps) > 0.5 + 1e-6 * fps) fail("frame-rate", std::to_string(want) + " images covering " + str(v[want - 1].time) + " s are played at " + std::to_string(frameRate(w.commands[0])) + " images per second");
            if (want >= 2) ++played; g.classify(limited ? "limited" : "unlimited");
        } else {
            size_t its = g.below(8), inc = g.below(4), len = static_cast<size_t>(g.integer(1, 8)); if (g.chance(4)) { its = static_cast<size_t>(g.integer(8, 20)); }
            size_t n = its == 0 ? g.below(3) : 1 + its * inc + g.below(its); if (g.chance(10)) n = g.below(its + 1);
            auto v = genTrajectory(g, c, n, g.boolean() ? 0.0 : g.logReal(0.001, 0.3)); std::vector<std::vector<State>> full; bool uneven = g.chance(30); for (size_t k = 0; k < its; ++k) full.push_back(genTrajectory(g, c, uneven ? static_cast<size_t>(g.integer(1, 8)) : len, 0.01));
            bool limited; double end = after(g, v, limited); if (end == 0.0) { end = -1; limited = false; } double speed = g.oneOf<double>({1.0, 0.5, 2.0, 0.25}); std::string ext = g.oneOf<std::string>({"gif", "mp4"});
            g.desc << "mpc " << n << " states " << its << " iterations of " << len << (limited ? " until " + str(end) : "") << "; ";
            auto camS = [](const State& s) { return Pos(s.comPosition(0) + 1, s.comPosition(1), s.comPosition(2)); }; auto camF = [](const State& s) { return Pos(s.comPosition(0) - 1, s.comPosition(1) + 2, s.comPosition(2)); };
            bool ok = (!limited && end == -1.0) ? viz.visualizeMPCStatesAndSaveAnimation(v, camS, full, camF, folder, name, ext, speed) : viz.visualizeMPCStatesAndSaveAnimation(v, camS, full, camF, folder, name, ext, speed, end);
            bool empty = n == 0 || its == 0, expect = c.hasModel && (empty || n >= its); if (ok != expect) fail("answer", "saving the receding horizon answers " + std::to_string(ok) + " for " + std::to_string(n) + " states and " + std::to_string(its) + " iterations"); if (!expect || empty) { nothing("saving the receding horizon"); continue; }
            inc = (n - 1) / its;                                                      // states advanced by each iteration
            std::vector<std::pair<const State*, const State*>> want; std::vector<std::pair<const State*, const State*>> from; size_t cur = 0, shownIts = 0;
            for (size_t k = 0; k < its; ++k) {
                size_t next = inc == 0 ? 1 : 1 + k * inc; if (next >= n || (limited && v[next].time > end)) break;
                ++shownIts; for (auto& f : full[k]) { want.push_back({&v[cur], &f}); from.push_back({&v[cur], &v[cur]}); }
                for (size_t j = 0; j < inc; ++j) { want.push_back({&v[next + j], &full[k].back()}); from.push_back({&v[cur], &v[next + j]}); cur = next + j; }
            }
            if (w.files.size() != want.size()) fail("frames-saved", "receding horizon: " + std::to_string(w.files.size()) + " images are saved instead of " + std::to_string(want.size()));
            for (size_t i = 0; i < want.size(); ++i) {
                auto& ps = w.files[i].panels; std::string wh = "receding horizon, image " + std::to_string(i); if (ps.size() != 2) fail("not-two-pictures", wh + ": " + std::to_string(ps.size()) + " pictures");
                for (auto& p : ps) if (p.y != 0 || p.h != H || p.w != W / 2 || (p.x != 0 && p.x != W / 2)) fail("partial-picture", wh + ": a picture does not fill its half"); if (ps[0].x == ps[1].x) fail("partial-picture", wh + ": both pictures are in the same half");
                const auto& l = ps[0].x == 0 ? ps[0] : ps[1]; const auto& r = ps[0].x == 0 ? ps[1] : ps[0];
                shows(l, *want[i].first, wh + " (left)"); shows(r, *want[i].second, wh + " (right)");
                auto at = [&](const screen::Panel& p, const std::function<Pos(const State&)>& f) { for (auto* s : {from[i].first, from[i].second}) if ((p.cam - p3(f(*s))).norm() <= 1e-12) return; fail("wrong-camera", wh + ": the camera is not where the given function puts it"); }; at(l, camS); at(r, camF);
                char b[64]; snprintf(b, sizeof b, "%.2fX", speed); bool lab = false; for (auto& x : r.labels) if (x.second == b) lab = true; if (!lab) fail("speed-label", wh + ": the speed is not written on the prediction"); if (!l.labels.empty()) fail("speed-label", wh + ": the label is drawn over the executed motion");
            }
            if (!((p3(screen::cameraPosition()) - c.cam).norm() <= 1e-12) || !((p3(screen::cameraTarget()) - c.target).norm() <= 1e-12)) fail("camera-left", "after saving the camera is not back where it was put");
            if (!want.empty()) { if (w.commands.size() != 1) fail("movie-command", std::to_string(w.commands.size()) + " commands are run"); movie(w.commands[0], folder, name, ext, w.files, "receding horizon"); ++played;
                size_t used = 1 + shownIts * inc; double fps = static_cast<double>(used) / v[used - 1].time * speed; if (inc > 0 && fps >= 1 && fps < 1e6 && std::fabs(frameRate(w.commands[0]) - fps) > 0.5 + 1e-6 * fps) fail("frame-rate", "receding horizon: " + std::to_string(used) + " states covering " + str(v[used - 1].time) + " s are played " + str(speed) + " times faster at " + std::to_string(frameRate(w.commands[0])) + " images per second"); g.classify("receding horizon"); }
        }
    }
    if (!w.errors.empty()) fail("misuse", "the window was asked the impossible: " + w.errors[0]);
    if (played >= 2) g.nontrivial();
}
int main(int argc, char** argv) {
    struct rlimit lim{2ull << 30, 2ull << 30}; setrlimit(RLIMIT_AS, &lim);         // an endless name or list of images is noticed, not suffered
    Suite s; s.property = "C21";
    s.rule = "at least two trajectories (or single states) are shown or saved on the same visualizer; distinct by generated choices";
    s.assumptions = {"iDynTree's visualizer paints what it is told (replaced by a recording stand-in with the same interface)", "trajectories have increasing times", "the end time is negative or positive"};
    s.aspects = {{"history", 600000, 12000000, history}};
    s.quickBudget = 150; s.thoroughBudget = 900;
    Runner r(s); return r.main(argc, argv);
}
