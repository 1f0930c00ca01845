// Small property-based testing engine: every case is a sequence of recorded integer choices, so
// that any failing case can be shrunk and replayed independently of how it was generated.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <chrono>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// new memory holds garbage, so that nothing can rely on it being zero
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0x41, n); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }

namespace pbt {

struct Fail { std::string sig, msg; };     // the property is violated; sig names the relation that broke
struct Discard {};                          // the generated case is outside the property's domain

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

class Gen {
    uint64_t m_rng; bool m_random; size_t m_pos = 0;
    std::vector<uint64_t> m_prefix;
public:
    std::vector<uint64_t> rec;
    bool nontrivialFlag = false;
    std::map<std::string, long> classes;
    std::ostringstream desc;                 // human-readable rendering of the case
    Gen(uint64_t seed) : m_rng(seed), m_random(true) {}
    Gen(const std::vector<uint64_t>& prefix) : m_rng(0), m_random(false), m_prefix(prefix) {}

    uint64_t below(uint64_t n) {             // uniform in [0,n), shrinks towards 0
        if (n == 0) n = 1;
        uint64_t v;
        if (m_pos < m_prefix.size()) v = m_prefix[m_pos] % n;
        else if (m_random) v = splitmix(m_rng) % n;
        else v = 0;
        ++m_pos;
        rec.push_back(v);
        return v;
    }
    long integer(long lo, long hi) { return lo + static_cast<long>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(int percent) { return below(100) >= static_cast<uint64_t>(100 - percent); }
    bool boolean() { return below(2) == 1; }
    // a real in [lo,hi]; the zero choice is the simplest value of the range
    double real(double lo, double hi) {
        const uint64_t N = 1ull << 32;
        uint64_t c = below(N);
        if (c == 0) return (lo <= 0 && hi >= 0) ? 0.0 : lo;
        return lo + (hi - lo) * (static_cast<double>(c) / static_cast<double>(N - 1));
    }
    // log-uniform magnitude in [lo,hi], both > 0
    double logReal(double lo, double hi) { return lo * std::pow(hi / lo, real(0.0, 1.0)); }
    double signedLog(double lo, double hi) { bool n = boolean(); double v = logReal(lo, hi); return n ? -v : v; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T oneOf(std::initializer_list<T> l) { std::vector<T> v(l); return v[below(v.size())]; }

    void nontrivial() { nontrivialFlag = true; }
    void classify(const std::string& c) { classes[c]++; }
};

[[noreturn]] inline void fail(const std::string& sig, const std::string& msg) { throw Fail{sig, msg}; }
inline std::string str(double v) { char b[64]; snprintf(b, sizeof b, "%.12g", v); return b; }

using Body = std::function<void(Gen&)>;
struct Aspect {
    std::string name;
    long quick, thorough;
    Body body;
};

struct Suite {
    std::string property, rule;
    std::vector<std::string> assumptions;
    std::vector<Aspect> aspects;
    // regression cases of recorded known findings: signature -> body that must throw Fail with that signature
    std::vector<std::pair<std::string, Body>> known;
    int workers = 8;
    double quickBudget = 240, thoroughBudget = 2400;  // no new case is started after that many seconds
    double hangSeconds = 250;
};

struct Slot { volatile long aspect, index; volatile double started; volatile int phase; };

inline double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline std::string jsonEscape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}

class Runner {
    Suite& S;
    uint64_t seed; std::string tier, outDir, evidencePath, knownPath;
    std::vector<std::string> knownSigs;      // listed (unrepaired) findings of this property
    double t0;

    uint64_t caseSeed(size_t a, long i) const {
        uint64_t s = seed * 0x9E3779B97F4A7C15ull ^ hashStr(S.property + "/" + S.aspects[a].name) ^ (static_cast<uint64_t>(i) * 0xD1B54A32D192ED03ull);
        splitmix(s); return splitmix(s);
    }
    bool isKnown(const std::string& sig) const {
        return std::find(knownSigs.begin(), knownSigs.end(), sig) != knownSigs.end();
    }
    // runs one case; true when it fails
    bool run(size_t a, Gen& g, Fail& f, bool& discarded) {
        discarded = false;
        try { S.aspects[a].body(g); return false; }
        catch (const Fail& e) { f = e; return true; }
        catch (const Discard&) { discarded = true; return false; }
        catch (const std::exception& e) { f = Fail{"exception:" + S.aspects[a].name, std::string("unexpected exception: ") + e.what()}; return true; }
    }
    bool failsWith(size_t a, const std::vector<uint64_t>& rec, const std::string& sig, Fail& f, std::vector<uint64_t>& outRec) {
        Gen g(rec); bool d;
        bool bad = run(a, g, f, d);
        outRec = g.rec;
        return bad && f.sig == sig;
    }
    std::vector<uint64_t> shrink(size_t a, std::vector<uint64_t> best, const std::string& sig, double budget, Slot* slot) {
        double end = now() + budget;
        Fail f; std::vector<uint64_t> r;
        bool progress = true;
        auto attempt = [&](const std::vector<uint64_t>& c) {
            if (now() > end) return false;
            slot->started = now();
            if (failsWith(a, c, sig, f, r) && (r.size() < best.size() || (r.size() == best.size() && r < best))) { best = r; return true; }
            return false;
        };
        while (progress && now() < end) {
            progress = false;
            for (size_t len = best.size() / 2; len >= 1; len /= 2) {
                for (size_t i = 0; i + len <= best.size() && now() < end;) {
                    auto c = best; c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
                    if (attempt(c)) progress = true; else i += len;
                }
            }
            for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2) {
                for (size_t i = 0; i + len <= best.size() && now() < end; i += len) {
                    auto c = best; bool any = false;
                    for (size_t k = i; k < i + len; ++k) { if (c[k]) any = true; c[k] = 0; }
                    if (any && attempt(c)) progress = true;
                }
                if (len == 1) break;
            }
            for (size_t i = 0; i < best.size() && now() < end; ++i) {
                for (int sh = 1; sh <= 32 && best[i] > 1; sh *= 2) { auto c = best; c[i] >>= sh; if (attempt(c)) { progress = true; } }
                if (best[i] > 0 && best[i] < 64) { auto c = best; c[i] -= 1; if (attempt(c)) progress = true; }
            }
        }
        return best;
    }
    void writeReplay(const std::string& path, size_t a, const std::string& sig, const std::string& msg, const std::string& desc,
                     const std::vector<uint64_t>* rec, long index) {
        std::ofstream o(path);
        o << "property " << S.property << "\naspect " << S.aspects[a].name << "\nseed " << seed << "\nindex " << index << "\n";
        if (rec) { o << "choices"; for (auto v : *rec) o << ' ' << v; o << "\n"; }
        o << "signature " << sig << "\n# " ;
        std::string m = msg + "\n" + desc; for (char c : m) { o << c; if (c == '\n') o << "# "; }
        o << "\n";
    }
    std::string base(int w) const { return outDir + "/w" + std::to_string(w); }

    int worker(int w, int W, Slot* slot) {
        double budget = tier == "quick" ? S.quickBudget : S.thoroughBudget;
        std::vector<long> evals(S.aspects.size(), 0), nontriv(S.aspects.size(), 0), disc(S.aspects.size(), 0);
        std::set<uint64_t> distinct; std::map<std::string, long> classes; std::vector<std::string> samples; std::map<std::string, long> knownHits;
        std::ofstream fails(base(w) + ".fail");
        bool capped = false, stop = false;
        // interleave aspects so that a budget hit starves none of them
        std::vector<long> next(S.aspects.size(), w), total(S.aspects.size());
        long maxTotal = 1;
        for (size_t a = 0; a < S.aspects.size(); ++a) { total[a] = tier == "quick" ? S.aspects[a].quick : S.aspects[a].thorough; maxTotal = std::max(maxTotal, total[a]); }
        const long rounds = std::min<long>(maxTotal, 50);
        std::vector<int> failedAspect(S.aspects.size(), 0);
        for (long r = 1; r <= rounds && !stop; ++r) {
            for (size_t a = 0; a < S.aspects.size() && !stop; ++a) {
                long until = total[a] * r / rounds;
                if (r == rounds) until = total[a];
                for (; next[a] < until && !failedAspect[a]; next[a] += W) {
                    if (now() - t0 > budget) { capped = true; stop = true; break; }
                    long i = next[a];
                    slot->aspect = static_cast<long>(a); slot->index = i; slot->started = now();
                    Gen g(caseSeed(a, i)); Fail f; bool d;
                    bool bad = run(a, g, f, d);
                    ++evals[a];
                    if (d) { ++disc[a]; continue; }
                    if (g.nontrivialFlag) {
                        uint64_t h = hashStr(S.aspects[a].name); for (auto v : g.rec) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); }
                        if (distinct.insert(h).second) ++nontriv[a];
                        if (samples.size() < 2 + 0u && (samples.empty() || nontriv[a] == 1)) samples.push_back("[" + S.aspects[a].name + "] " + g.desc.str());
                    }
                    for (auto& c : g.classes) classes[S.aspects[a].name + ":" + c.first] += c.second;
                    if (!bad) continue;
                    if (isKnown(f.sig)) { knownHits[f.sig]++; continue; }
                    // confirm three times before believing it
                    int again = 0; Fail f2; std::vector<uint64_t> r2;
                    for (int k = 0; k < 3; ++k) { slot->started = now(); if (failsWith(a, g.rec, f.sig, f2, r2)) ++again; }
                    std::string rp = base(w) + "_" + std::to_string(a) + ".replay";
                    if (again == 3) {
                        static const bool fast = getenv("PBT_FAST") != nullptr;   // mutation runs: any failure settles it
                        if (fast) stop = true;
                        auto best = fast ? g.rec : shrink(a, g.rec, f.sig, tier == "quick" ? 20 : 60, slot);
                        Gen gb(best); Fail fb = f; bool db; if (!run(a, gb, fb, db)) { fb = f; }
                        writeReplay(rp, a, fb.sig, fb.msg, gb.desc.str(), &best, i);
                        fails << "F\t" << rp << "\t" << fb.sig << "\t" << jsonEscape(fb.msg.substr(0, 600)) << "\n";
                    } else {
                        writeReplay(rp, a, f.sig, f.msg, g.desc.str(), nullptr, i);
                        fails << "U" << "\t" << rp << "\t" << f.sig << "\t" << jsonEscape(f.msg.substr(0, 600)) << "\n";
                    }
                    fails.flush();
                    failedAspect[a] = 1;
                }
            }
        }
        std::ofstream o(base(w) + ".stat");
        for (size_t a = 0; a < S.aspects.size(); ++a) o << "A\t" << a << "\t" << evals[a] << "\t" << nontriv[a] << "\t" << disc[a] << "\n";
        for (auto& c : classes) o << "C\t" << c.first << "\t" << c.second << "\n";
        for (auto& k : knownHits) o << "K\t" << k.first << "\t" << k.second << "\n";
        for (auto& s : samples) o << "S\t" << jsonEscape(s.substr(0, 1500)) << "\n";
        if (capped) o << "B\t1\n";
        o << "E\n";
        return 0;
    }
    // runs one generated case (aspect,index) in a child; returns its wait status, -1 on hang
    int isolated(size_t a, long i) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) { int nul = open("/dev/null", O_WRONLY); if (!getenv("PBT_VERBOSE")) dup2(nul, 2); Gen g(caseSeed(a, i)); Fail f; bool d; bool bad = run(a, g, f, d); _exit(bad ? 1 : 0); }
        double end = now() + S.hangSeconds; int st;
        while (true) {
            if (waitpid(p, &st, WNOHANG) == p) return st;
            if (now() > end) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; }
            usleep(5000);
        }
    }
public:
    Runner(Suite& s) : S(s) {}

    int replay(const std::string& path) {
        std::ifstream in(path); std::string line, aspect; std::vector<uint64_t> rec; bool have = false; long index = 0;
        while (std::getline(in, line)) {
            std::istringstream is(line); std::string k; is >> k;
            if (k == "aspect") { is >> aspect; }
            else if (k == "seed") is >> seed;
            else if (k == "index") is >> index;
            else if (k == "choices") { have = true; uint64_t v; while (is >> v) rec.push_back(v); }
        }
        for (size_t a = 0; a < S.aspects.size(); ++a) if (S.aspects[a].name == aspect) {
            Gen g = have ? Gen(rec) : Gen(caseSeed(a, index)); Fail f; bool d;
            bool bad = run(a, g, f, d);
            printf("%s\n", g.desc.str().c_str());
            if (bad) { printf("FAILS [%s] %s\n", f.sig.c_str(), f.msg.c_str()); return 1; }
            printf("%s\n", d ? "discarded" : "passes"); return 0;
        }
        fprintf(stderr, "unknown aspect %s\n", aspect.c_str());
        return 2;
    }

    int main(int argc, char** argv) {
        t0 = now(); mallopt(M_PERTURB, 0xbe);
        const char* e = getenv("VERIF_SEED"); seed = e ? strtoull(e, nullptr, 10) : 1;
        tier = "quick"; outDir = "/tmp/pbt_out"; std::string replayFile;
        if (const char* t = getenv("VERIF_TIER")) tier = t;
        double scale = 1; std::string only;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--tier") tier = argv[++i];
            else if (a == "--out") outDir = argv[++i];
            else if (a == "--evidence") evidencePath = argv[++i];
            else if (a == "--known") knownPath = argv[++i];
            else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
            else if (a == "--scale") scale = atof(argv[++i]);
            else if (a == "--only") only = argv[++i];
            else if (a == "--workers") S.workers = atoi(argv[++i]);
            else if (a == "--t0") t0 = now() - (static_cast<double>(time(nullptr)) - atof(argv[++i]));
            else if (a == "--replay") replayFile = argv[++i];
        }
        if (tier != "thorough") tier = "quick";
        if (!replayFile.empty()) return replay(replayFile);
        mkdir(outDir.c_str(), 0755);
        for (auto& a : S.aspects) { a.quick = static_cast<long>(std::ceil(a.quick * scale)); a.thorough = static_cast<long>(std::ceil(a.thorough * scale));
            if (!only.empty() && a.name.find(only) == std::string::npos) a.quick = a.thorough = 0; }
        std::map<std::string, std::string> knownText;
        if (!knownPath.empty()) {
            std::ifstream in(knownPath); std::string line;
            while (std::getline(in, line)) {       // known: property=<id> sig=<signature> <what fails>
                std::string pre = "known: property=" + S.property + " sig=";
                if (line.compare(0, pre.size(), pre) == 0) {
                    std::string rest = line.substr(pre.size()); size_t sp = rest.find(' ');
                    knownSigs.push_back(rest.substr(0, sp)); knownText[knownSigs.back()] = sp == std::string::npos ? "" : rest.substr(sp + 1);
                }
            }
        }
        double tStart = now();
        int W = S.workers;
        Slot* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * static_cast<size_t>(W), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::vector<pid_t> pids(static_cast<size_t>(W));
        fflush(nullptr);
        for (int w = 0; w < W; ++w) {
            slots[w].aspect = -1; slots[w].started = now();
            pid_t p = fork();
            if (p == 0) {
                int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!getenv("PBT_VERBOSE")) dup2(nul, 2);
                int rc = worker(w, W, &slots[w]); fflush(nullptr); _exit(rc);
            }
            pids[static_cast<size_t>(w)] = p;
        }
        struct V { std::string sig, msg, replay; };
        std::vector<V> violations, unrepro; std::vector<std::string> notes;
        int alive = W; std::vector<int> done(static_cast<size_t>(W), 0);
        while (alive > 0) {
            for (int w = 0; w < W; ++w) if (!done[static_cast<size_t>(w)]) {
                int st; pid_t r = waitpid(pids[static_cast<size_t>(w)], &st, WNOHANG);
                bool hang = false;
                if (r == 0 && now() - slots[w].started > S.hangSeconds) { kill(pids[static_cast<size_t>(w)], SIGKILL); waitpid(pids[static_cast<size_t>(w)], &st, 0); hang = true; r = pids[static_cast<size_t>(w)]; }
                if (r == 0) continue;
                done[static_cast<size_t>(w)] = 1; --alive;
                if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                long a = slots[w].aspect, i = slots[w].index;
                std::string how = hang ? "hang" : "crash";
                bool already = false; for (auto& v : violations) already = already || v.sig == how + ":" + S.aspects[static_cast<size_t>(std::max(0L, a))].name;
                if (a >= 0 && already) { notes.push_back("another worker ended the same way (" + how + ")"); continue; }
                if (a < 0) { notes.push_back("worker died before its first case (" + how + ")"); continue; }
                if (!hang && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { notes.push_back("worker killed from outside (memory?)"); continue; }
                int bad = 0;
                for (int k = 0; k < (hang ? 1 : 3); ++k) { int s2 = isolated(static_cast<size_t>(a), i); if (hang ? s2 == -1 : (s2 == -1 || !WIFEXITED(s2) || WEXITSTATUS(s2) > 1)) ++bad; }
                std::string sig = how + ":" + S.aspects[static_cast<size_t>(a)].name;
                std::string rp = base(w) + "_" + how + ".replay";
                std::string msg = how == "hang" ? "case did not finish" : "process ended by " + (WIFSIGNALED(st) ? std::string(strsignal(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st)));
                writeReplay(rp, static_cast<size_t>(a), sig, msg, "", nullptr, i);
                if (bad >= (hang ? 1 : 2)) violations.push_back({sig, msg, rp}); else notes.push_back(sig + " did not reproduce (" + msg + ") index " + std::to_string(i));
            }
            usleep(3000);
        }
        // regression cases of the listed findings
        std::vector<std::string> knownShown;
        for (auto& k : S.known) {
            if (!isKnown(k.first)) continue;
            Gen g(std::vector<uint64_t>{}); bool hit = false;
            try { k.second(g); } catch (const Fail& f) { hit = f.sig == k.first; } catch (...) {}
            if (hit) knownShown.push_back(k.first);
        }
        // merge
        std::vector<long> ev(S.aspects.size(), 0), nt(S.aspects.size(), 0), di(S.aspects.size(), 0);
        std::map<std::string, long> classes, knownHits; std::vector<std::string> samples; bool capped = false; int complete = 0;
        for (int w = 0; w < W; ++w) {
            std::ifstream in(base(w) + ".stat"); std::string line;
            while (std::getline(in, line)) {
                std::istringstream is(line); std::string k; std::getline(is, k, '\t');
                if (k == "A") { size_t a; long x, y, z; is >> a >> x >> y >> z; ev[a] += x; nt[a] += y; di[a] += z; }
                else if (k == "C" || k == "K") { std::string n; long v; std::getline(is, n, '\t'); is >> v; (k == "C" ? classes : knownHits)[n] += v; }
                else if (k == "S") { std::string s; std::getline(is, s); samples.push_back(s); }
                else if (k == "B") capped = true;
                else if (k == "E") ++complete;
            }
            std::ifstream fi(base(w) + ".fail");
            while (std::getline(fi, line)) {
                std::istringstream is(line); std::string k, rp, sig, msg; std::getline(is, k, '\t'); std::getline(is, rp, '\t'); std::getline(is, sig, '\t'); std::getline(is, msg);
                (k == "F" ? violations : unrepro).push_back({sig, msg, rp});
            }
        }
        long E = 0, N = 0; for (size_t a = 0; a < ev.size(); ++a) { E += ev[a]; N += nt[a]; }
        if (samples.size() > 12) samples.resize(12);
        if (!evidencePath.empty()) {
            std::ofstream o(evidencePath);
            o << "{\n \"property\": \"" << S.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << E
              << ",\n  \"distinct_nontrivial\": " << N << ",\n  \"rule\": \"" << jsonEscape(S.rule) << "\",\n  \"samples\": [";
            for (size_t i = 0; i < samples.size(); ++i) o << (i ? ",\n   " : "\n   ") << "\"" << samples[i] << "\"";
            o << "],\n  \"aspects\": {";
            for (size_t a = 0; a < ev.size(); ++a) o << (a ? ",\n   " : "\n   ") << "\"" << S.aspects[a].name << "\": {\"cases\": " << ev[a] << ", \"nontrivial\": " << nt[a] << ", \"discarded\": " << di[a] << "}";
            o << "},\n  \"classes\": {"; bool first = true;
            for (auto& c : classes) { o << (first ? "\n   " : ",\n   ") << "\"" << jsonEscape(c.first) << "\": " << c.second; first = false; }
            o << "},\n  \"known_finding_hits\": {"; first = true;
            for (auto& c : knownHits) { o << (first ? "" : ", ") << "\"" << jsonEscape(c.first) << "\": " << c.second; first = false; }
            o << "},\n  \"stopped_by_time_budget\": " << (capped ? "true" : "false") << ",\n  \"notes\": ["; first = true;
            for (auto& n : notes) { o << (first ? "" : ", ") << "\"" << jsonEscape(n) << "\""; first = false; }
            for (auto& u : unrepro) { o << (first ? "" : ", ") << "\"unreproduced: " << jsonEscape(u.sig + " " + u.msg) << "\""; first = false; }
            o << "]\n },\n \"assumptions\": ["; first = true;
            for (auto& s : S.assumptions) { o << (first ? "" : ", ") << "\"" << jsonEscape(s) << "\""; first = false; }
            o << "],\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << violations.size() << "\n}\n";
        }
        printf("%s tier=%s seed=%llu cases=%ld nontrivial=%ld time=%.1fs%s\n", S.property.c_str(), tier.c_str(), static_cast<unsigned long long>(seed), E, N, now() - tStart, capped ? " (time budget hit)" : "");
        for (size_t a = 0; a < ev.size(); ++a) printf("  %-40s cases=%ld nontrivial=%ld discarded=%ld\n", S.aspects[a].name.c_str(), ev[a], nt[a], di[a]);
        for (auto& n : notes) printf("note: %s\n", n.c_str());
        for (auto& u : unrepro) printf("note: unreproduced failure %s %s (%s)\n", u.sig.c_str(), u.msg.c_str(), u.replay.c_str());
        for (auto& k : knownSigs) printf("KNOWN-FINDING: property=%s %s%s\n", S.property.c_str(), knownText[k].c_str(),
                                         std::find(knownShown.begin(), knownShown.end(), k) == knownShown.end() && !knownHits.count(k) ? " (not seen in this run)" : "");
        if (!violations.empty()) {
            std::set<std::string> seen;
            for (auto& v : violations) if (seen.insert(v.sig).second) printf("VIOLATION property=%s replay=%s\n  [%s] %s\n", S.property.c_str(), v.replay.c_str(), v.sig.c_str(), v.msg.c_str());
            return 1;
        }
        if (complete < W) { printf("error: %d of %d workers did not complete and no failure reproduced\n", W - complete, W); return 3; }
        if (E == 0) { printf("error: no case was run\n"); return 3; }
        return 0;
    }
};
} // namespace pbt
