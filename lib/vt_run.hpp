// Exhaustive case runner: enumerates every case of a finite space, spreads the cases over forked workers,
// turns crashes and hangs of the code under test into violations and replays each violation before reporting it.
#pragma once
#include "vt_model.hpp"
#include <atomic>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace vt {
struct Violation : std::runtime_error { using runtime_error::runtime_error; };
struct HarnessError : std::runtime_error { using runtime_error::runtime_error; };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
inline std::string json_str(std::string_view s)
{
    std::string o = "\""; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

struct Shared { std::atomic<uint64_t> cur; std::atomic<double> started; char what[2000]; };

struct Run {
    struct Stop {};
    bool thorough = false;
    int worker = 0, workers = 1;
    int64_t only = -1;      // run a single case
    uint64_t upto = UINT64_MAX; // replay a shard up to this case
    bool verbose = false;
    uint64_t idx = 0;
    Shared *sh = nullptr;
    // coverage
    uint64_t evaluations = 0, transitions = 0, validated = 0;
    std::unordered_set<uint64_t> states, outcomes, nontrivial;
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> known; // (case, what)
    std::unordered_set<std::string> known_hit;
    std::string fail_case, fail_msg;
    std::string out_dir;
    double alarm_at = 0;

    void state(uint64_t h) { states.insert(h); }
    void state(std::string_view s) { states.insert(hash64(s)); }
    void outcome(std::string_view s) { outcomes.insert(hash64(s)); }
    void count(const std::string &k, uint64_t n = 1) { counters[k] += n; }
    [[noreturn]] static void fail(const std::string &m) { throw Violation(m); }
    static void check(bool c, const std::string &m) { if (!c) throw Violation(m); }

    // returns false when this worker has to stop
    template <class D, class F> void test(D &&describe, F &&body)
    {
        const auto i = idx++;
        if (only >= 0) { if (int64_t(i) != only) return; }
        else if (int(i % uint64_t(workers)) != worker || i > upto) return;
        if (sh) { sh->cur.store(i); sh->started.store(now()); if (only >= 0 || upto == i) snprintf(sh->what, sizeof(sh->what), "%s", std::string(describe()).c_str()); }
        ++evaluations;
        std::string msg;
        try { body(); if (only >= 0 && verbose) std::cerr << "case " << i << ": " << describe() << " held\n"; }
        catch (const Violation &e) { msg = e.what(); }
        catch (const HarnessError &) { throw; }
        catch (const std::logic_error &e) { msg = std::string("unexpected exception: ") + e.what(); }
        catch (const std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); }
        catch (...) { msg = "unexpected exception of an unknown type"; }
        if (!msg.empty()) {
            auto d = std::string(describe());
            for (auto &[k, w] : known) if (k == d) { known_hit.insert(k); return; }
            fail_case = d; fail_msg = msg;
            throw Stop{};
        }
        if (samples.size() < 3 && (i % 997) == uint64_t(worker)) samples.push_back(describe());
    }

};

struct Check {
    const char *prop;
    const char *level = "model_checking"; // or exploration / fault_enumeration
    std::function<void(Run &)> prepare;   // executed once before the workers are forked
    std::function<void(Run &)> enumerate; // executed by every worker; calls run.test for every case
    std::string rule;
    std::vector<std::string> assumptions;
    double case_limit = 10;
    bool exhaustive = true;
    size_t mem_limit_mb = 6000; // 0: none (sanitizers)
};

inline void write_set(std::ofstream &o, const std::unordered_set<uint64_t> &s)
{
    uint64_t n = s.size(); o.write((char *)&n, 8);
    for (auto v : s) o.write((char *)&v, 8);
}
inline void read_set(std::ifstream &i, std::unordered_set<uint64_t> &s)
{
    uint64_t n = 0; i.read((char *)&n, 8);
    for (uint64_t k = 0; k < n; k++) { uint64_t v; i.read((char *)&v, 8); s.insert(v); }
}
inline void write_str(std::ofstream &o, const std::string &s) { uint64_t n = s.size(); o.write((char *)&n, 8); o.write(s.data(), n); }
inline std::string read_str(std::ifstream &i) { uint64_t n = 0; i.read((char *)&n, 8); std::string s(n, 0); i.read(s.data(), n); return s; }
inline void save(const Run &r, const std::string &path)
{
    std::ofstream o(path, std::ios::binary);
    uint64_t v[4] = {r.evaluations, r.transitions, r.validated, r.idx}; o.write((char *)v, 32);
    write_set(o, r.states); write_set(o, r.outcomes); write_set(o, r.nontrivial);
    uint64_t n = r.counters.size(); o.write((char *)&n, 8);
    for (auto &[k, c] : r.counters) { write_str(o, k); o.write((char *)&c, 8); }
    n = r.samples.size(); o.write((char *)&n, 8);
    for (auto &s : r.samples) write_str(o, s);
    n = r.known_hit.size(); o.write((char *)&n, 8);
    for (auto &s : r.known_hit) write_str(o, s);
    write_str(o, r.fail_case); write_str(o, r.fail_msg);
}
inline bool load(Run &r, const std::string &path, std::string &fc, std::string &fm, uint64_t &total)
{
    std::ifstream i(path, std::ios::binary); if (!i) return false;
    uint64_t v[4]; i.read((char *)v, 32); if (!i) return false;
    r.evaluations += v[0]; r.transitions += v[1]; r.validated += v[2]; total = std::max(total, v[3]);
    read_set(i, r.states); read_set(i, r.outcomes); read_set(i, r.nontrivial);
    uint64_t n = 0; i.read((char *)&n, 8);
    for (uint64_t k = 0; k < n; k++) { auto s = read_str(i); uint64_t c; i.read((char *)&c, 8); r.counters[s] += c; }
    i.read((char *)&n, 8);
    for (uint64_t k = 0; k < n; k++) r.samples.push_back(read_str(i));
    i.read((char *)&n, 8);
    for (uint64_t k = 0; k < n; k++) r.known_hit.insert(read_str(i));
    fc = read_str(i); fm = read_str(i);
    return true;
}
inline std::string tail(const std::string &path, size_t n = 1500)
{
    std::ifstream i(path); std::stringstream s; s << i.rdbuf(); auto t = s.str();
    // the beginning of a sanitizer report is the interesting part
    auto p = t.find("ERROR: "); if (p == t.npos) p = t.find("runtime error"); if (p != t.npos) return t.substr(p > 120 ? p - 120 : 0, n);
    return t.size() > n ? t.substr(t.size() - n) : t;
}

struct ChildResult { bool ok = false; bool violated = false; bool harness = false; bool hung = false; int sig = 0; int code = 0; std::string fc, fm; uint64_t at = 0; };

inline int run_check(int argc, char **argv, Check c)
{
    Run base; std::string evidence, replays, work = "."; int seed = 1; int workers = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") base.thorough = next() == "thorough";
        else if (a == "--evidence") evidence = next();
        else if (a == "--replays") replays = next();
        else if (a == "--work") work = next();
        else if (a == "--seed") seed = atoi(next().c_str());
        else if (a == "--workers") workers = atoi(next().c_str());
        else if (a == "--only") base.only = atoll(next().c_str());
        else if (a == "--known") {
            std::ifstream f(next()); std::string line; // property \t case \t what
            while (std::getline(f, line)) {
                auto p = line.find('\t'); auto q = line.find('\t', p + 1);
                if (p != line.npos && q != line.npos && line.substr(0, p) == c.prop) base.known.push_back({line.substr(p + 1, q - p - 1), line.substr(q + 1)});
            }
        }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    const double t0 = now();
    base.out_dir = work;
    try { if (c.prepare) c.prepare(base); }
    catch (const std::exception &e) { std::cerr << "prepare: " << e.what() << "\n"; return 2; }

    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto body = [&](Run &r) -> int {
        int rc = 0;
        try { c.enumerate(r); }
        catch (Run::Stop &) { rc = 1; }
        catch (const std::exception &e) { std::cerr << "HARNESS: " << e.what() << "\n"; rc = 2; }
        return rc;
    };
    if (base.only >= 0 && evidence.empty()) { // interactive replay
        base.verbose = true; int rc = body(base);
        if (rc == 0) std::cout << "cases: " << base.idx << "\n";
        if (rc == 1) std::cout << "VIOLATED: " << base.fail_case << "\n  " << base.fail_msg << "\n";
        return rc;
    }
    auto spawn = [&](Run r, int slot, const std::string &tag) -> pid_t {
        sh[slot].cur = UINT64_MAX; sh[slot].started = now(); sh[slot].what[0] = 0;
        pid_t p = fork();
        if (p) return p;
        auto err = work + "/err." + tag;
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1);
        if (c.mem_limit_mb) { rlimit l{c.mem_limit_mb << 20, c.mem_limit_mb << 20}; setrlimit(RLIMIT_AS, &l); }
        rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
        r.sh = sh + slot;
        int rc = body(r);
        r.sh->started = now() + 3600;
        save(r, work + "/res." + tag);
        fflush(nullptr); _exit(rc == 0 ? 0 : rc == 1 ? 41 : 42);
    };
    auto collect = [&](pid_t p, int slot, double limit) -> ChildResult {
        ChildResult res; int st = 0;
        for (;;) {
            auto w = waitpid(p, &st, WNOHANG);
            if (w == p) break;
            if (now() - sh[slot].started.load() > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); res.hung = true; break; }
            usleep(5000);
        }
        res.at = sh[slot].cur.load();
        if (res.hung) return res;
        if (WIFSIGNALED(st)) res.sig = WTERMSIG(st); else res.code = WEXITSTATUS(st);
        res.ok = !res.sig && res.code == 0; res.violated = !res.sig && res.code == 41; res.harness = !res.sig && res.code == 42;
        return res;
    };
    if (workers > 60) workers = 60;
    std::vector<pid_t> pids;
    if (base.only >= 0) workers = 1;
    for (int w = 0; w < workers; w++) { Run r = base; r.worker = w; r.workers = workers; pids.push_back(spawn(r, w, std::to_string(w))); }
    Run total; std::string vcase, vmsg; uint64_t vidx = 0; int vworker = -1; bool harness = false; uint64_t cases = 0; int violations = 0;
    std::vector<ChildResult> rs(workers);
    {   // poll all of the workers together, so that a hang of one is seen in time
        std::vector<bool> done(workers, false); int left = workers;
        while (left) {
            for (int w = 0; w < workers; w++) {
                if (done[w]) continue;
                int st; auto p = waitpid(pids[w], &st, WNOHANG);
                if (p == pids[w]) {
                    done[w] = true; --left; auto &r = rs[w]; r.at = sh[w].cur.load();
                    if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.code = WEXITSTATUS(st);
                    r.ok = !r.sig && r.code == 0; r.violated = !r.sig && r.code == 41; r.harness = !r.sig && r.code == 42;
                } else if (now() - sh[w].started.load() > c.case_limit) {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); done[w] = true; --left; rs[w].hung = true; rs[w].at = sh[w].cur.load();
                }
            }
            if (left) usleep(3000);
        }
    }
    for (int w = 0; w < workers; w++) {
        auto &r = rs[w]; auto tag = std::to_string(w);
        if (r.ok || r.violated) load(total, work + "/res." + tag, r.fc, r.fm, cases);
        if (r.harness) { harness = true; std::cerr << tail(work + "/err." + tag) << "\n"; }
        if (!r.ok && !r.harness) {
            ++violations;
            std::string m = r.violated ? r.fm : r.hung ? "does not terminate" : (r.sig ? "killed by signal " + std::to_string(r.sig) : "exit code " + std::to_string(r.code)) + ": " + tail(work + "/err." + tag);
            if (vworker < 0 || r.at < vidx) { vworker = w; vidx = r.at; vmsg = m; vcase = r.fc; }
        }
    }
    if (vworker >= 0) { // replay before report
        bool solo = false, again = false;
        if (vidx != UINT64_MAX) {
            Run r = base; r.only = int64_t(vidx); r.verbose = true;
            auto cr = collect(spawn(r, 61, "replay"), 61, c.case_limit * 4);
            solo = !cr.ok && !cr.harness;
            if (solo) {
                Run x; std::string fc, fm; uint64_t t = 0;
                if (cr.violated && load(x, work + "/res.replay", fc, fm, t)) { vcase = fc; vmsg = fm; }
                else if (!cr.violated) { vcase = sh[61].what; vmsg = cr.hung ? "does not terminate" : (cr.sig ? "killed by signal " + std::to_string(cr.sig) : "exit code " + std::to_string(cr.code)) + ": " + tail(work + "/err.replay"); }
            }
        }
        if (!solo) {
            Run r = base; r.worker = vworker; r.workers = workers; r.upto = vidx;
            auto cr = collect(spawn(r, 61, "shard"), 61, c.case_limit * 4);
            again = !cr.ok && !cr.harness;
            if (again && vcase.empty()) vcase = sh[61].what;
            if (!again) { std::cerr << "not reproducible: " << vcase << " " << vmsg << "\n"; return 2; }
        }
        mkdir(replays.c_str(), 0755);
        auto path = replays + "/" + c.prop + (base.thorough ? "-thorough" : "-quick") + ".json";
        std::ofstream o(path);
        o << "{\"property\": \"" << c.prop << "\", \"tier\": \"" << (base.thorough ? "thorough" : "quick") << "\", \"case\": " << int64_t(vidx)
          << ", \"alone\": " << (solo ? "true" : "false") << ",\n \"input\": " << json_str(vcase) << ",\n \"observed\": " << json_str(vmsg)
          << ",\n \"replay\": \"python3 /verif/check.py " << c.prop << " " << (base.thorough ? "thorough" : "quick") << " --only " << int64_t(vidx) << "\"}\n";
        o.close();
        std::cout << "case: " << vcase << "\nobserved: " << vmsg << "\n";
        std::cout << "VIOLATION property=" << c.prop << " replay=" << path << "\n";
    }
    if (harness && vworker < 0) { std::cerr << "the harness failed, no verdict\n"; return 2; }
    for (auto &[k, w] : base.known) if (total.known_hit.count(k)) std::cout << "KNOWN-FINDING: property=" << c.prop << " " << w << "\n";
    if (!evidence.empty()) {
        std::ofstream o(evidence);
        auto num = [&](const char *k, uint64_t v) { o << "  \"" << k << "\": " << v << ",\n"; };
        o << "{\n \"property\": \"" << c.prop << "\",\n \"tier\": \"" << (base.thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"" << c.level << "\",\n \"coverage\": {\n";
        num("evaluations", total.evaluations);
        if (std::string(c.level) == "model_checking") {
            num("states", total.states.size()); num("transitions", total.transitions); num("traces_validated_against_impl", total.validated);
        } else num("distinct_nontrivial", total.nontrivial.size());
        num("distinct_outcomes", total.outcomes.size());
        for (auto &[k, v] : total.counters) num(k.c_str(), v);
        o << "  \"rule\": " << json_str(c.rule) << ",\n  \"exhaustive\": " << (c.exhaustive && vworker < 0 ? "true" : "false") << ",\n  \"samples\": [";
        for (size_t i = 0; i < total.samples.size() && i < 8; i++) o << (i ? ", " : "") << json_str(total.samples[i].substr(0, 600));
        o << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < c.assumptions.size(); i++) o << (i ? ", " : "") << json_str(c.assumptions[i]);
        o << "],\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << violations << "\n}\n";
    }
    std::cout << c.prop << ": evaluations=" << total.evaluations << " states=" << total.states.size() << " transitions=" << total.transitions
              << " validated=" << total.validated << " outcomes=" << total.outcomes.size() << " nontrivial=" << total.nontrivial.size();
    for (auto &[k, v] : total.counters) std::cout << " " << k << "=" << v;
    std::cout << " wall=" << now() - t0 << "s\n";
    return vworker >= 0 ? 1 : 0;
}
} // namespace vt
