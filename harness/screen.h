// A stand-in for iDynTree's Visualizer: same interface, but instead of painting pixels it remembers what is painted where.
// Also: a virtual clock (draws and sleeps advance it) and a recorder of started commands.
#pragma once
#include "models.h"
#include <iDynTree/Visualizer.h>
#include <memory>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace screen {
struct Panel { int x, y, w, h; iDynTree::Transform pose; Eigen::VectorXd joints; std::vector<std::array<double, 6>> arrows; Eigen::Vector3d cam, target; std::map<std::string, std::string> labels; };
struct Shot { std::string file; bool window = false; std::vector<Panel> panels; };
struct Shown { double at; std::vector<Panel> panels; };

struct World {
    // faults and costs chosen by the generator
    int refuseModels = 0; std::function<double()> drawCost;
    // what happened
    std::vector<Shown> shown; std::vector<Shot> files; std::vector<std::string> commands; std::vector<std::string> errors;
    bool virtualTime = false; double clock = 1000.0;
};
inline World& world() { static World w; return w; }

struct Light : iDynTree::ILight {
    std::string name; iDynTree::LightType type = iDynTree::DIRECTIONAL_LIGHT; iDynTree::Position pos; iDynTree::Direction dir; iDynTree::ColorViz a, s, d;
    const std::string& getName() const override { return name; }
    void setType(const iDynTree::LightType t) override { type = t; } iDynTree::LightType getType() override { return type; }
    void setPosition(const iDynTree::Position& p) override { pos = p; } iDynTree::Position getPosition() override { return pos; }
    void setDirection(const iDynTree::Direction& p) override { dir = p; } iDynTree::Direction getDirection() override { return dir; }
    void setAmbientColor(const iDynTree::ColorViz& c) override { a = c; } iDynTree::ColorViz getAmbientColor() override { return a; }
    void setSpecularColor(const iDynTree::ColorViz& c) override { s = c; } iDynTree::ColorViz getSpecularColor() override { return s; }
    void setDiffuseColor(const iDynTree::ColorViz& c) override { d = c; } iDynTree::ColorViz getDiffuseColor() override { return d; }
};
struct Environment : iDynTree::IEnvironment {
    std::map<std::string, bool> visible{{"floor_grid", true}, {"world_frame", true}, {"root_frame", true}}; std::map<std::string, Light> lights; Light none;
    Environment() { lights["sun"].name = "sun"; }
    std::vector<std::string> getElements() override { std::vector<std::string> v; for (auto& e : visible) v.push_back(e.first); return v; }
    bool setElementVisibility(const std::string k, bool v) override { auto it = visible.find(k); if (it == visible.end()) return false; it->second = v; return true; }
    void setBackgroundColor(const iDynTree::ColorViz&) override {} void setFloorGridColor(const iDynTree::ColorViz&) override {} void setAmbientLight(const iDynTree::ColorViz&) override {}
    std::vector<std::string> getLights() override { std::vector<std::string> v; for (auto& e : lights) v.push_back(e.first); return v; }
    bool addLight(const std::string& n) override { lights[n].name = n; return true; }
    iDynTree::ILight& lightViz(const std::string& n) override { auto it = lights.find(n); return it == lights.end() ? none : it->second; }
    bool removeLight(const std::string& n) override { return lights.erase(n) != 0; }
};
struct Animator : iDynTree::ICameraAnimator { void enableMouseControl(bool) override {} double getMoveSpeed() const override { return 1; } void setMoveSpeed(double) override {} double getRotateSpeed() const override { return 1; } void setRotateSpeed(double) override {} double getZoomSpeed() const override { return 1; } void setZoomSpeed(double) override {} };
struct Camera : iDynTree::ICamera {
    iDynTree::Position p, t; Animator a; Camera() { p.zero(); t.zero(); }
    void setPosition(const iDynTree::Position& x) override { p = x; } void setTarget(const iDynTree::Position& x) override { t = x; }
    iDynTree::Position getPosition() override { return p; } iDynTree::Position getTarget() override { return t; } void setUpVector(const iDynTree::Direction&) override {} iDynTree::ICameraAnimator* animator() override { return &a; }
};
struct Label : iDynTree::ILabel {
    std::string text; bool visible = true; iDynTree::Position pos;
    void setText(const std::string& s) override { text = s; } std::string getText() const override { return text; } void setSize(float) override {} void setSize(float, float) override {}
    float width() const override { return 1; } float height() const override { return 1; } void setPosition(const iDynTree::Position& p) override { pos = p; } iDynTree::Position getPosition() const override { return pos; }
    void setColor(const iDynTree::ColorViz&) override {} void setVisible(bool v) override { visible = v; }
};
struct Vectors : iDynTree::IVectorsVisualization {
    struct A { Eigen::Vector3d o, c; bool visible; std::shared_ptr<Label> label; }; std::vector<A> v;
    static Eigen::Vector3d dir(const iDynTree::Direction& d) { return Eigen::Vector3d(d(0), d(1), d(2)); }
    size_t addVector(const iDynTree::Position& o, const iDynTree::Direction& d, double m) override { v.push_back({iDynTree::toEigen(o), m * dir(d), true, std::make_shared<Label>()}); return v.size() - 1; }
    size_t addVector(const iDynTree::Position& o, const iDynTree::Vector3& c) override { v.push_back({iDynTree::toEigen(o), iDynTree::toEigen(c), true, std::make_shared<Label>()}); return v.size() - 1; }
    size_t getNrOfVectors() const override { return v.size(); }
    bool getVector(size_t i, iDynTree::Position& o, iDynTree::Direction& d, double& m) const override { if (i >= v.size()) return false; iDynTree::toEigen(o) = v[i].o; m = v[i].c.norm(); d = iDynTree::Direction(v[i].c(0), v[i].c(1), v[i].c(2)); return true; }
    bool getVector(size_t i, iDynTree::Position& o, iDynTree::Vector3& c) const override { if (i >= v.size()) return false; iDynTree::toEigen(o) = v[i].o; iDynTree::toEigen(c) = v[i].c; return true; }
    bool updateVector(size_t i, const iDynTree::Position& o, const iDynTree::Direction& d, double m) override { if (i >= v.size()) return false; v[i].o = iDynTree::toEigen(o); v[i].c = m * dir(d); return true; }
    bool updateVector(size_t i, const iDynTree::Position& o, const iDynTree::Vector3& c) override { if (i >= v.size()) return false; v[i].o = iDynTree::toEigen(o); v[i].c = iDynTree::toEigen(c); return true; }
    bool setVectorColor(size_t i, const iDynTree::ColorViz&) override { return i < v.size(); } void setVectorsDefaultColor(const iDynTree::ColorViz&) override {} void setVectorsColor(const iDynTree::ColorViz&) override {}
    bool setVectorsAspect(double a, double b, double c) override { return a >= 0 && b >= 0 && c >= 0; }
    bool setVisible(size_t i, bool s) override { if (i >= v.size()) return false; v[i].visible = s; return true; }
    iDynTree::ILabel* getVectorLabel(size_t i) override { return i < v.size() ? v[i].label.get() : nullptr; }
};
struct Frames : iDynTree::IFrameVisualization {
    std::vector<iDynTree::Transform> f; Label l;
    size_t addFrame(const iDynTree::Transform& t, double) override { f.push_back(t); return f.size() - 1; } bool setVisible(size_t i, bool) override { return i < f.size(); } size_t getNrOfFrames() const override { return f.size(); }
    bool getFrameTransform(size_t i, iDynTree::Transform& t) const override { if (i >= f.size()) return false; t = f[i]; return true; } bool updateFrame(size_t i, const iDynTree::Transform& t) override { if (i >= f.size()) return false; f[i] = t; return true; }
    iDynTree::ILabel* getFrameLabel(size_t) override { return &l; }
};
struct Jets : iDynTree::IJetsVisualization {
    bool setJetsFrames(const std::vector<std::string>&) override { return true; } size_t getNrOfJets() const override { return 0; } iDynTree::Direction getJetDirection(const int) const override { return {}; }
    bool setJetDirection(const int, const iDynTree::Direction&) override { return true; } bool setJetColor(const int, const iDynTree::ColorViz&) override { return true; } bool setJetsDimensions(const double&, const double&, const double&) override { return true; } bool setJetsIntensity(const iDynTree::VectorDynSize&) override { return true; }
};
struct Robot : iDynTree::IModelVisualization {
    iDynTree::Model m; std::string name; iDynTree::Transform pose; Eigen::VectorXd joints; Jets j; Label l;
    bool setPositions(const iDynTree::Transform& t, const iDynTree::VectorDynSize& q) override { if (q.size() != m.getNrOfPosCoords()) { world().errors.push_back("joints of the wrong size"); return false; } pose = t; joints = iDynTree::toEigen(q); return true; }
    bool setLinkPositions(const iDynTree::LinkPositions&) override { return true; } iDynTree::Model& model() override { return m; } std::string getInstanceName() override { return name; }
    void setModelVisibility(const bool) override {} void setModelColor(const iDynTree::ColorViz&) override {} void resetModelColor() override {} bool setLinkColor(const iDynTree::LinkIndex&, const iDynTree::ColorViz&) override { return true; } bool resetLinkColor(const iDynTree::LinkIndex&) override { return true; }
    std::vector<std::string> getLinkNames() override { return {}; } bool setLinkVisibility(const std::string&, bool) override { return true; } std::vector<std::string> getFeatures() override { return {}; } bool setFeatureVisibility(const std::string&, bool) override { return true; }
    iDynTree::IJetsVisualization& jets() override { return j; } iDynTree::Transform getWorldLinkTransform(const iDynTree::LinkIndex&) override { return pose; } iDynTree::Transform getWorldLinkTransform(const std::string&) override { return pose; }
    iDynTree::Transform getWorldFrameTransform(const iDynTree::FrameIndex&) override { return pose; } iDynTree::Transform getWorldFrameTransform(const std::string&) override { return pose; } iDynTree::ILabel& label() override { return l; }
};
struct Texture : iDynTree::ITexture {
    Environment env; int W, H, x = 0, y = 0, w, h; bool enabled = true; std::vector<Panel> panels;
    Texture(int a, int b) : W(a), H(b), w(a), h(b) {}
    iDynTree::IEnvironment& environment() override { return env; } iDynTree::ColorViz getPixelColor(unsigned, unsigned) const override { return {}; } bool getPixels(std::vector<iDynTree::PixelViz>&) const override { return true; }
    bool drawToFile(const std::string f) const override { Shot s; s.file = f; s.panels = panels; world().files.push_back(s); if (world().files.size() > 20000) pbt::fail("endless", "images are saved without end"); return true; }
    void enableDraw(bool e) override { enabled = e; } int width() const override { return W; } int height() const override { return H; }
    bool setSubDrawArea(int a, int b, int c, int d) override { if (a + c > W || b + d > H || d <= 0) { world().errors.push_back("area outside the image"); return false; } x = a; y = b; w = c; h = d; return true; }
};
struct Textures : iDynTree::ITexturesHandler {
    std::map<std::string, Texture> t;
    iDynTree::ITexture* add(const std::string& n, const iDynTree::VisualizerOptions& o) override { if (t.count(n)) return nullptr; return &t.emplace(n, Texture(o.winWidth, o.winHeight)).first->second; }
    iDynTree::ITexture* get(const std::string& n) override { auto i = t.find(n); return i == t.end() ? nullptr : &i->second; }
};
} // namespace screen

namespace iDynTree {
ICamera::~ICamera() {} ILight::~ILight() {} IEnvironment::~IEnvironment() {} IJetsVisualization::~IJetsVisualization() {} ILabel::~ILabel() {} IVectorsVisualization::~IVectorsVisualization() {}
IFrameVisualization::~IFrameVisualization() {} IModelVisualization::~IModelVisualization() {} ITexture::~ITexture() {} ITexturesHandler::~ITexturesHandler() {}
ColorViz::ColorViz() : r(0), g(0), b(0), a(1) {} ColorViz::ColorViz(float r_, float g_, float b_, float a_) : r(r_), g(g_), b(b_), a(a_) {} ColorViz::ColorViz(const Vector4& v) : r(float(v(0))), g(float(v(1))), b(float(v(2))), a(float(v(3))) {}
struct ScreenPimpl {
    bool open = false; int W = 800, H = 600; bool sub = false; std::vector<screen::Panel> window; std::vector<std::unique_ptr<screen::Robot>> robots; screen::Robot none;
    screen::Camera cam; screen::Environment env; screen::Vectors vec; screen::Frames fr; screen::Textures tex; std::map<std::string, screen::Label> labels;
    screen::Panel panel(int x, int y, int w, int h) {
        screen::Panel p{x, y, w, h, {}, {}, {}, toEigen(cam.p), toEigen(cam.t), {}};
        if (!robots.empty()) { p.pose = robots[0]->pose; p.joints = robots[0]->joints; }
        for (auto& a : vec.v) if (a.visible && a.c.norm() > 0) p.arrows.push_back({a.o(0), a.o(1), a.o(2), a.c(0), a.c(1), a.c(2)});
        std::sort(p.arrows.begin(), p.arrows.end());
        for (auto& l : labels) if (l.second.visible) p.labels[l.first] = l.second.text;
        return p;
    }
    void paint(int x, int y, int w, int h, bool clear) {
        for (auto& t : tex.t) if (t.second.enabled) { if (clear) t.second.panels.clear(); t.second.panels.push_back(panel(t.second.x, t.second.y, t.second.w, t.second.h)); }
        if (clear) window.clear();
        window.push_back(panel(x, y, w, h));
    }
};
struct Visualizer::VisualizerPimpl : ScreenPimpl {};
static ScreenPimpl* theLast = nullptr;
Visualizer::Visualizer() : pimpl(new VisualizerPimpl) { theLast = pimpl; }
Visualizer::~Visualizer() { if (theLast == pimpl) theLast = nullptr; delete pimpl; }
bool Visualizer::init(const VisualizerOptions& o) { if (pimpl->open) return false; pimpl->open = true; pimpl->W = o.winWidth; pimpl->H = o.winHeight; return true; }
size_t Visualizer::getNrOfVisualizedModels() { return pimpl->robots.size(); }
std::string Visualizer::getModelInstanceName(size_t i) { return i < pimpl->robots.size() ? pimpl->robots[i]->name : ""; }
int Visualizer::getModelInstanceIndex(const std::string n) { for (size_t i = 0; i < pimpl->robots.size(); ++i) if (pimpl->robots[i]->name == n) return static_cast<int>(i); return -1; }
bool Visualizer::addModel(const Model& m, const std::string& n) { if (!pimpl->open) init(); if (screen::world().refuseModels > 0) { --screen::world().refuseModels; return false; } auto r = std::make_unique<screen::Robot>(); r->m = m; r->name = n; r->pose = Transform::Identity(); r->joints = Eigen::VectorXd::Zero(static_cast<long>(m.getNrOfPosCoords())); pimpl->robots.push_back(std::move(r)); return true; }
IModelVisualization& Visualizer::modelViz(size_t i) { if (i >= pimpl->robots.size()) { screen::world().errors.push_back("no such model"); return pimpl->none; } return *pimpl->robots[i]; }
IModelVisualization& Visualizer::modelViz(const std::string& n) { int i = getModelInstanceIndex(n); return modelViz(i < 0 ? size_t(1000) : size_t(i)); }
ICamera& Visualizer::camera() { return pimpl->cam; }
IEnvironment& Visualizer::enviroment() { return pimpl->env; }
IEnvironment& Visualizer::environment() { return pimpl->env; }
IVectorsVisualization& Visualizer::vectors() { return pimpl->vec; }
IFrameVisualization& Visualizer::frames() { return pimpl->fr; }
ITexturesHandler& Visualizer::textures() { return pimpl->tex; }
ILabel& Visualizer::getLabel(const std::string& n) { return pimpl->labels[n]; }
int Visualizer::width() const { return pimpl->W; }
int Visualizer::height() const { return pimpl->H; }
bool Visualizer::run() { return pimpl->open; }
void Visualizer::draw() {
    auto& w = screen::world();
    if (!pimpl->open) { w.errors.push_back("drawing on a closed window"); return; }
    if (!pimpl->sub) pimpl->paint(0, 0, pimpl->W, pimpl->H, true);
    pimpl->sub = false; w.shown.push_back({w.clock, pimpl->window}); if (w.shown.size() > 20000) pbt::fail("endless", "pictures are shown without end");
    if (w.drawCost) w.clock += w.drawCost();
}
void Visualizer::subDraw(int x, int y, int a, int b) {
    auto& w = screen::world();
    if (!pimpl->open) { w.errors.push_back("drawing on a closed window"); return; }
    if (x + a > pimpl->W || y + b > pimpl->H || b <= 0) { w.errors.push_back("area outside the window"); return; }
    bool clear = !pimpl->sub; pimpl->sub = true; pimpl->paint(x, y, a, b, clear);
}
bool Visualizer::drawToFile(const std::string f) { screen::Shot s; s.file = f; s.window = true; s.panels = pimpl->window; screen::world().files.push_back(s); return true; }
void Visualizer::close() { pimpl->open = false; pimpl->robots.clear(); pimpl->vec.v.clear(); }
bool Visualizer::isWindowActive() const { return pimpl->open; }
bool Visualizer::setColorPalette(const std::string&) { return true; }
} // namespace iDynTree

namespace iDynTree {
// what the driver may ask about the last visualizer made
struct LastVisualizer {
    static Position cameraPosition() { return theLast->cam.p; } static Position cameraTarget() { return theLast->cam.t; } static size_t models() { return theLast->robots.size(); }
    static std::vector<screen::Environment*> environments() { std::vector<screen::Environment*> v{&theLast->env}; for (auto& t : theLast->tex.t) v.push_back(&t.second.env); return v; }
};
}
namespace screen {
inline iDynTree::Position cameraPosition() { return iDynTree::LastVisualizer::cameraPosition(); }
inline iDynTree::Position cameraTarget() { return iDynTree::LastVisualizer::cameraTarget(); }
inline size_t modelCount() { return iDynTree::LastVisualizer::models(); }
inline std::vector<Environment*> environments() { return iDynTree::LastVisualizer::environments(); }
}

// ---- clock, sleeps and commands
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) {
    auto& w = screen::world();
    if (!w.virtualTime) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    ts->tv_sec = static_cast<time_t>(std::floor(w.clock)); ts->tv_nsec = static_cast<long>((w.clock - std::floor(w.clock)) * 1e9); return 0;
}
static double span(const struct timespec* t) { return static_cast<double>(t->tv_sec) + 1e-9 * static_cast<double>(t->tv_nsec); }
int nanosleep(const struct timespec* req, struct timespec* rem) {
    auto& w = screen::world();
    if (!w.virtualTime) return static_cast<int>(syscall(SYS_nanosleep, req, rem));
    if (req->tv_sec < 0) return 0;
    w.clock += span(req); return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec* req, struct timespec* rem) {
    auto& w = screen::world();
    if (!w.virtualTime) return static_cast<int>(syscall(SYS_clock_nanosleep, id, fl, req, rem));
    if (fl & TIMER_ABSTIME) w.clock = std::max(w.clock, span(req)); else w.clock += span(req);
    return 0;
}
int usleep(useconds_t us) { struct timespec t{static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int system(const char* c) { screen::world().commands.push_back(c ? c : ""); return 0; }
FILE* popen(const char* c, const char*) { screen::world().commands.push_back(c ? c : ""); return fopen("/dev/null", "r"); }
int pclose(FILE* f) { return fclose(f); }
}
