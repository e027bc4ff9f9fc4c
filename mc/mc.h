// Exploration kernel shared by every harness in /verif/harness.
//
// A harness is a program that enumerates a *bounded, fully described* space of
// cases (inputs, operation histories, tree shapes ...) on the real geomc code
// and compares every one against a boring reference model.  This header gives:
//
//   * the case gate      mc::begin(group, idx)   (sharding, replay, crash marker)
//   * the counters       mc::state / mc::step / mc::trace
//   * failure recording  mc::fail / MC_CHECK
//   * two exploration engines over operation histories of a real object:
//       mc::bfs            explicit-state search with state de-duplication
//       mc::all_sequences  every history up to a depth, no abstraction
//
// The driver (/verif/mc/check.py) compiles, shards, runs and merges.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iomanip>
#include <functional>
#include <thread>
#include <atomic>
#include <limits>
#include <algorithm>
#include <optional>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace mc {

struct Shared {
    volatile uint64_t counter;
    volatile uint64_t idx;
    char group[128];
    char desc[3840];
};

struct Failure {
    std::string key, group, detail, history;
    uint64_t idx = 0, count = 0;
};

struct Config {
    bool thorough = false;
    uint64_t shard = 0, nshards = 1;
    bool replay = false;
    std::string rgroup, rhistory;
    uint64_t ridx = 0;
    std::string out, status, part;
    uint64_t seed = 1;
    double hang_s = 60;
};

struct Globals {
    Config cfg;
    Shared* sh = nullptr;
    Shared local_sh;
    uint64_t transitions = 0, traces = 0, states = 0;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, Failure> fails;
    uint64_t nfails = 0;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> outcomes, groups;
    std::map<std::string, std::string> bounds;
    const char* cur_group = "";
    std::string cur_history;
    uint64_t cur_idx = 0;
    bool at_last = true;      // the op being applied is the last of its history (prefixes were judged before)
};
inline Globals& G() { static Globals g; return g; }

inline bool thorough() { return G().cfg.thorough; }
/// pick a bound by tier
template <typename A> inline A tier(A quick, A deep) { return thorough() ? deep : quick; }
/// pick a part of a harness (units may run only one part); empty = all
inline bool part(const char* p) { return G().cfg.part.empty() or G().cfg.part == p; }

inline void set_group(const char* g) {
    auto& gl = G();
    gl.cur_group = g;
    std::strncpy(gl.sh->group, g, sizeof(gl.sh->group) - 1);
}
inline void note(const std::string& s) {
    auto& gl = G();
    std::strncpy(gl.sh->desc, s.c_str(), sizeof(gl.sh->desc) - 1);
}

/// Gate of one case. Returns true if this process should execute it.
inline bool begin(const char* group, uint64_t idx) {
    auto& g = G();
    if (g.cfg.replay) {
        if (g.cfg.rgroup != group or g.cfg.ridx != idx) return false;
    } else if (g.cfg.nshards > 1 and idx % g.cfg.nshards != g.cfg.shard) return false;
    if (group != g.cur_group) set_group(group);
    g.cur_idx = idx;
    g.sh->idx = idx;
    g.sh->counter = g.sh->counter + 1;
    return true;
}
inline void tick() { auto& g = G(); g.sh->counter = g.sh->counter + 1; }
/// a transition: one operation of the real code executed (and judged)
inline void step(uint64_t n = 1) { G().transitions += n; }
/// one complete case / history of the model replayed against the real code
inline void trace(uint64_t n = 1) { G().traces += n; G().groups[G().cur_group] += n; }
/// count a state known to be distinct by construction of the enumeration
inline void state() { G().states++; }
/// count a state if its canonical hash is new
inline bool state(uint64_t h) {
    auto& g = G();
    if (g.seen.insert(h).second) { g.states++; return true; }
    return false;
}
inline void outcome(const std::string& s) { G().outcomes[s]++; }
inline void sample(const std::string& s) { if (G().samples.size() < 6) G().samples.push_back(s); }
inline void bound(const std::string& k, const std::string& v) { G().bounds[k] = v; }
template <typename N> inline void bound(const std::string& k, N v) { std::ostringstream o; o << v; G().bounds[k] = o.str(); }

inline void fail(const std::string& key, const std::string& detail) {
    auto& g = G();
    g.nfails++;
    std::string k = std::string(g.cur_group) + "/" + key;
    auto it = g.fails.find(k);
    if (it == g.fails.end()) {
        if (g.fails.size() >= 200) return;
        Failure f;
        f.key = k; f.group = g.cur_group; f.detail = detail; f.idx = g.cur_idx; f.count = 1;
        f.history = g.cur_history;
        g.fails[k] = f;
        if (g.cfg.replay) std::fprintf(stderr, "FAIL %s: %s\n", k.c_str(), detail.c_str());
    } else it->second.count++;
}

inline void put(std::ostream& o) {}
template <typename A, typename... R>
inline void put(std::ostream& o, const A& a, const R&... r) { o << a; put(o, r...); }
template <typename... R>
inline std::string str(const R&... r) { std::ostringstream o; o << std::setprecision(17); put(o, r...); return o.str(); }

#define MC_CHECK(cond, key, ...) do { if (!(cond)) ::mc::fail((key), ::mc::str(__VA_ARGS__)); } while (0)

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 29;
    return h;
}
inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h, s.size());
}

/// tolerant floating comparison: |a-b| <= tol * max(1,|a|,|b|); inf==inf; nan never equal
inline bool close(double a, double b, double tol = 1e-9) {
    if (a == b) return true;
    if (!(std::isfinite(a) and std::isfinite(b))) return false;
    double m = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    return std::fabs(a - b) <= tol * m;
}

//////////////// engines ////////////////
//
// Sys requirements:
//   static int n_ops();  static std::string op_name(int);
//   Sys();                     a fresh system (real object + model)
//   bool enabled(int op);      by the model
//   void apply(int op);        run op on object and model, compare; calls mc::fail on mismatch
//   uint64_t key();            canonical key (bfs only)
//   void finish();             end-of-history checks (e.g. destroy + leak accounting)

template <typename Sys>
std::string history_str(const std::vector<int>& h) {
    std::string s;
    for (int o : h) { if (!s.empty()) s += ' '; s += Sys::op_name(o); }
    return s;
}

// run a complete history on a fresh system; returns false if something failed
template <typename Sys>
bool run_history(const std::vector<int>& h, uint64_t* key = nullptr, std::vector<int>* enabled = nullptr) {
    auto& g = G();
    uint64_t before = g.nfails;
    g.cur_history = history_str<Sys>(h);
    note(g.cur_history);
    tick();
    {
        Sys s;
        for (size_t i = 0; i < h.size(); ++i) {
            g.at_last = (i + 1 == h.size());
            s.apply(h[i]);
            if (i + 1 == h.size()) step();
            if (g.nfails != before) return false;
        }
        if (key) *key = s.key();
        if (enabled) {
            enabled->clear();
            for (int o = 0; o < Sys::n_ops(); ++o) if (s.enabled(o)) enabled->push_back(o);
        }
        s.finish();
    }
    trace();
    return g.nfails == before;
}

template <typename Sys>
bool replay_history_if_asked(const char* group) {
    auto& g = G();
    if (!g.cfg.replay) return false;
    if (g.cfg.rgroup != group) return true;
    set_group(group);
    std::istringstream is(g.cfg.rhistory);
    std::vector<int> h;
    std::string w;
    while (is >> w) {
        int f = -1;
        for (int o = 0; o < Sys::n_ops(); ++o) if (Sys::op_name(o) == w) f = o;
        if (f < 0) { std::fprintf(stderr, "replay: unknown op %s\n", w.c_str()); std::exit(3); }
        h.push_back(f);
    }
    std::vector<int> en;
    uint64_t k;
    run_history<Sys>(h, &k, &en);
    return true;
}

/// Breadth first search over canonical states; every edge of the reachable graph
/// (within max_states / max_depth) is executed on a fresh real object.
template <typename Sys>
void bfs(const char* group, size_t max_depth, size_t max_states) {
    if (replay_history_if_asked<Sys>(group)) return;
    set_group(group);
    auto& g = G();
    g.cur_idx = 0;
    struct Node { std::vector<int> h; std::vector<int> en; };
    std::deque<Node> frontier;
    std::unordered_set<uint64_t> seen;
    uint64_t salt = hash_str(group);
    size_t depth = 0; bool capped = false;
    {
        Node n; uint64_t k;
        if (!run_history<Sys>(n.h, &k, &n.en)) return;
        seen.insert(k); state(mix(salt, k));
        frontier.push_back(n);
    }
    while (!frontier.empty()) {
        Node n = std::move(frontier.front());
        frontier.pop_front();
        if (n.h.size() >= max_depth) { capped = true; continue; }
        for (int o : n.en) {
            Node m; uint64_t k = 0;
            m.h = n.h; m.h.push_back(o);
            if (!run_history<Sys>(m.h, &k, &m.en)) continue;
            if (seen.size() >= max_states and !seen.count(k)) { capped = true; continue; }
            if (seen.insert(k).second) {
                state(mix(salt, k));
                depth = std::max(depth, m.h.size());
                if (m.h.size() == depth and m.h.size() > 2 and g.samples.size() < 3) sample(str(group, ": ", history_str<Sys>(m.h)));
                frontier.push_back(std::move(m));
            }
        }
    }
    sample(str(group, " deepest (last): ", g.cur_history));
    bound(str(group, ".states"), seen.size());
    bound(str(group, ".depth"), depth);
    bound(str(group, ".closed"), capped ? "no: truncated at bound" : "yes: fixpoint reached");
    g.cur_history.clear();
}

template <typename Sys>
void all_sequences_rec(std::vector<int>& h, size_t depth, size_t shard_depth, uint64_t& counter) {
    auto& g = G();
    std::vector<int> en;
    if (h.size() == shard_depth) {
        uint64_t me = counter++;
        if (g.cfg.nshards > 1 and me % g.cfg.nshards != g.cfg.shard) return;
    }
    if (h.size() == depth) {
        if (h.size() < shard_depth or true) run_history<Sys>(h);
        return;
    }
    // run the prefix itself (its failures are reported here, with the shortest history)
    uint64_t b = g.nfails;
    uint64_t tr = g.traces, st = g.transitions; auto gr = g.groups[g.cur_group];
    run_history<Sys>(h, nullptr, &en);
    bool owner = h.size() >= shard_depth or g.cfg.shard == 0;
    if (!owner) { g.traces = tr; g.transitions = st; g.groups[g.cur_group] = gr; }
    if (g.nfails != b) return;
    for (int o : en) {
        h.push_back(o);
        all_sequences_rec<Sys>(h, depth, shard_depth, counter);
        h.pop_back();
    }
}

/// Every history of length <= depth over the alphabet, without any state merging.
template <typename Sys>
void all_sequences(const char* group, size_t depth) {
    if (replay_history_if_asked<Sys>(group)) return;
    set_group(group);
    std::vector<int> h;
    uint64_t c = 0;
    uint64_t t0 = G().traces;
    all_sequences_rec<Sys>(h, depth, std::min<size_t>(2, depth), c);
    bound(str(group, ".depth"), depth);
    bound(str(group, ".closed"), "every history up to this depth");
    sample(str(group, " last: ", G().cur_history));
    G().cur_history.clear();
    (void)t0;
}

//////////////// output ////////////////

inline std::string jq(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' or c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 or c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
inline void write_result(const char* hang) {
    auto& g = G();
    if (g.cfg.out.empty()) return;
    std::ostringstream o;
    o << "{\"states\":" << g.states << ",\"transitions\":" << g.transitions << ",\"traces\":" << g.traces
      << ",\"nfails\":" << g.nfails << ",\"hang\":" << (hang ? jq(hang) : "null") << ",\"samples\":[";
    for (size_t i = 0; i < g.samples.size(); ++i) o << (i ? "," : "") << jq(g.samples[i]);
    o << "],\"outcomes\":{";
    bool f = true;
    for (auto& p : g.outcomes) { o << (f ? "" : ",") << jq(p.first) << ":" << p.second; f = false; }
    o << "},\"groups\":{"; f = true;
    for (auto& p : g.groups) { o << (f ? "" : ",") << jq(p.first) << ":" << p.second; f = false; }
    o << "},\"bounds\":{"; f = true;
    for (auto& p : g.bounds) { o << (f ? "" : ",") << jq(p.first) << ":" << jq(p.second); f = false; }
    o << "},\"fails\":["; f = true;
    for (auto& p : g.fails) {
        auto& x = p.second;
        o << (f ? "" : ",") << "{\"key\":" << jq(x.key) << ",\"group\":" << jq(x.group) << ",\"idx\":" << x.idx
          << ",\"count\":" << x.count << ",\"history\":" << jq(x.history) << ",\"detail\":" << jq(x.detail.substr(0, 1500)) << "}";
        f = false;
    }
    o << "]}\n";
    std::string tmp = g.cfg.out + ".tmp";
    FILE* fp = std::fopen(tmp.c_str(), "w");
    if (fp) { std::string s = o.str(); std::fwrite(s.data(), 1, s.size(), fp); std::fclose(fp); std::rename(tmp.c_str(), g.cfg.out.c_str()); }
}

} // namespace mc

void mc_run();   // supplied by the harness

#ifndef MC_NO_MAIN
int main(int argc, char** argv) {
    auto& g = mc::G();
    auto& c = g.cfg;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--tier") c.thorough = (v == "thorough");
        else if (a == "--shard") c.shard = std::stoull(v);
        else if (a == "--nshards") c.nshards = std::stoull(v);
        else if (a == "--out") c.out = v;
        else if (a == "--status") c.status = v;
        else if (a == "--part") c.part = v;
        else if (a == "--seed") c.seed = std::stoull(v);
        else if (a == "--hang") c.hang_s = std::stod(v);
        else if (a == "--rgroup") { c.replay = true; c.rgroup = v; }
        else if (a == "--ridx") c.ridx = std::stoull(v);
        else if (a == "--rhistory") c.rhistory = v;
        else { std::fprintf(stderr, "unknown arg %s\n", a.c_str()); return 3; }
    }
    g.sh = &g.local_sh;
    std::memset((void*)g.sh, 0, sizeof(mc::Shared));
    if (!c.status.empty()) {
        int fd = open(c.status.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 and ftruncate(fd, sizeof(mc::Shared)) == 0) {
            void* p = mmap(nullptr, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) g.sh = (mc::Shared*)p;
        }
    }
    // hang watchdog: no case finished during hang_s seconds of *CPU* time of this process
    std::thread([]() {
        auto& g = mc::G();
        uint64_t last = ~0ull; double t0 = 0;
        for (;;) {
            std::this_thread::sleep_for(std::chrono::milliseconds(500));
            timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
            double t = ts.tv_sec + 1e-9 * ts.tv_nsec;
            uint64_t n = g.sh->counter;
            if (n != last) { last = n; t0 = t; }
            else if (t - t0 > g.cfg.hang_s) _exit(97);
        }
    }).detach();
    try { mc_run(); }
    catch (const std::exception& e) { mc::fail("uncaught-exception", e.what()); }
    catch (...) { mc::fail("uncaught-exception", "unknown exception type"); }
    mc::write_result(nullptr);
    std::fflush(stdout);
    _exit(g.nfails ? 10 : 0);
}
#endif
