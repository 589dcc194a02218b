// The search driver: seeds -> forked simulated runs, gating, minimisation, replay.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <time.h>

namespace sim {
Scenario* scenario_list = nullptr;
void sample(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
}
}
using namespace sim;
namespace sim { void race_setup() __attribute__((weak)); void race_quiet() __attribute__((weak)); }

static double wall() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

static bool has_prop(const Scenario* s, const std::string& p) {
    std::string l = std::string(" ") + s->props + " ";
    return l.find(" " + p + " ") != std::string::npos;
}
static const char* only_scenario = nullptr;
static Scenario* pick_scenario(const RunSpec& rs) {
    std::vector<Scenario*> c; uint64_t tot = 0;
    for (auto* s = scenario_list; s; s = s->next) if (has_prop(s, rs.prop) && (!only_scenario || !strcmp(only_scenario, s->name))) c.push_back(s);
    std::sort(c.begin(), c.end(), [](auto* a, auto* b) { return strcmp(a->name, b->name) < 0; });
    for (auto* s : c) tot += s->weight;
    if (!tot) return nullptr;
    uint64_t x = Rng(rs.seed ^ 0x5CEAull).below(tot);
    for (auto* s : c) { if (x < s->weight) return s; x -= s->weight; }
    return nullptr;
}

struct Slot { Shared* sh; pid_t pid = 0; uint64_t seed = 0; int errfd = -1; RunSpec rs; double t0 = 0; bool recheck = false; uint64_t want = 0; };

static Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return (Shared*)p;
}
static void clear(Shared* s) {
    uint32_t nd = s->ndec;
    memset(s, 0, offsetof(Shared, dec));
    (void)nd;
}

[[noreturn]] static void child(const RunSpec& rs, Shared* shp, int errfd) {
    if (errfd >= 0) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); if (!rs.verbose) dup2(errfd, 2); }
    if (!rs.verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); }
    struct rlimit rl{25, 26}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    signal(SIGPIPE, SIG_DFL);
    static RunSpec keep; keep = rs;
    Scenario* s = pick_scenario(keep);
    if (!s) _exit(9);
    snprintf(shp->scenario, sizeof shp->scenario, "%s", s->name);
    attach(keep, shp, rs.verbose);
    start();
    s->run(keep);
    finish_ok();
}

static void launch(Slot& s, const RunSpec& rs) {
    clear(s.sh);
    s.rs = rs; s.seed = rs.seed; s.t0 = wall();
    fflush(stdout); fflush(stderr);
    s.pid = fork();
    if (s.pid == 0) { if (race_quiet) race_quiet(); child(s.rs, s.sh, s.errfd); }
}

static std::string read_err(int fd) {
    std::string r; char b[8192]; lseek(fd, 0, SEEK_SET);
    for (;;) { ssize_t n = read(fd, b, sizeof b); if (n <= 0) break; r.append(b, n); if (r.size() > 200000) break; }
    return r;
}
static std::string crash_sig(const std::string& e, int st, std::string& msg) {
    // classify from the sanitizer report / terminate message
    auto line = [&](const char* key) { size_t p = e.find(key); if (p == std::string::npos) return std::string(); size_t q = e.find('\n', p); return e.substr(p, q - p); };
    std::string s = "crash";
    std::string l = line("ERROR: AddressSanitizer: ");
    if (!l.empty()) { std::string k = l.substr(25); k = k.substr(0, k.find(' ')); s = "asan-" + k; msg = l; }
    else if (!(l = line("runtime error: ")).empty()) { s = "ubsan"; msg = l; }
    else if (!(l = line("WARNING: ThreadSanitizer: ")).empty()) { s = "tsan"; msg = l; }
    else if (!(l = line("terminate called")).empty()) { s = "terminate"; msg = l; size_t p = e.find("what():"); if (p != std::string::npos) msg += " " + e.substr(p, e.find('\n', p) - p); }
    else if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGXCPU || sg == SIGKILL) { s = "hang"; msg = "the process burns CPU without reaching a scheduling point"; }
        else { s = std::string("signal-") + std::to_string(sg); msg = strsignal(sg); }
    } else { s = "exit-" + std::to_string(WEXITSTATUS(st)); msg = "the process ended unexpectedly"; }
    // add the innermost frames
    size_t p = 0; int n = 0;
    while (n < 10 && (p = e.find("\n    #", p)) != std::string::npos) {
        size_t q = e.find('\n', p + 1);
        std::string f = e.substr(p + 5, q - p - 5);
        p = q - 1;
        size_t in = f.find(" in ");
        if (in != std::string::npos && (f.find("/verif/sim/") == std::string::npos && f.find("/verif/harness/") == std::string::npos)) { msg += " |" + f.substr(in + 3, 180); n++; }
        if (q == std::string::npos) break;
    }
    return s;
}
// normalise the outcome of a finished child into the Shared block
static void settle(Slot& s, int st) {
    if (s.sh->status == 1 || s.sh->status == 2 || s.sh->status == 3) if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (s.sh->status == 2) return;
    std::string m; std::string e = read_err(s.errfd);
    std::string sg = crash_sig(e, st, m);
    s.sh->status = 2;
    snprintf(s.sh->prop, sizeof s.sh->prop, "%s", s.rs.prop.c_str());
    snprintf(s.sh->sig, sizeof s.sh->sig, "%s", sg.c_str());
    snprintf(s.sh->msg, sizeof s.sh->msg, "%s", m.c_str());
}
static int wait_slot(Slot& s) {
    int st = 0; waitpid(s.pid, &st, 0); s.pid = 0;
    settle(s, st);
    return s.sh->status;
}

struct Outcome { int status; std::string prop, sig, msg; uint64_t hash; std::vector<Decision> dec; };
static Outcome snap(const Slot& s) {
    Outcome o{s.sh->status, s.sh->prop, s.sh->sig, s.sh->msg, s.sh->hash, {}};
    o.dec.assign(s.sh->dec, s.sh->dec + std::min<uint32_t>(s.sh->ndec, Shared::MAXDEC));
    return o;
}
static Outcome run1(Slot& s, const RunSpec& rs) { launch(s, rs); wait_slot(s); return snap(s); }

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}

static void write_replay(const char* path, const RunSpec& rs, const Outcome& o, const char* scn) {
    FILE* f = fopen(path, "w");
    if (!f) { perror(path); return; }
    fprintf(f, "vsim-replay 1\nprop %s\nscenario %s\nseed %lu\nsig %s\nhash %016lx\nmsg %s\n", rs.prop.c_str(), scn, rs.seed, o.sig.c_str(), o.hash, o.msg.c_str());
    fprintf(f, "opmask");
    for (size_t i = 0; i < rs.opmask.size(); i++) if (rs.opmask[i]) fprintf(f, " %zu", i);
    fprintf(f, "\nmode %s\n", rs.is_replay ? "decisions" : "seed");
    if (rs.is_replay) for (auto& d : rs.replay) fprintf(f, "d %u %s %u\n", d.idx, kind_name(d.kind), d.val);
    fprintf(f, "end\n");
    fclose(f);
}
static bool read_replay(const char* path, RunSpec& rs, std::string& sig, uint64_t& hash) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char* line = nullptr; size_t cap = 0; ssize_t n; bool ok = false;
    while ((n = getline(&line, &cap, f)) > 0) {
        std::string l(line, n); while (!l.empty() && (l.back() == '\n')) l.pop_back();
        auto rest = [&](size_t k) { return l.size() > k ? l.substr(k) : std::string(); };
        if (l.rfind("prop ", 0) == 0) rs.prop = rest(5);
        else if (l.rfind("seed ", 0) == 0) rs.seed = strtoull(rest(5).c_str(), nullptr, 10);
        else if (l.rfind("sig ", 0) == 0) sig = rest(4);
        else if (l.rfind("hash ", 0) == 0) hash = strtoull(rest(5).c_str(), nullptr, 16);
        else if (l.rfind("opmask", 0) == 0) {
            const char* p = l.c_str() + 6; char* e;
            for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; if (rs.opmask.size() <= v) rs.opmask.resize(v + 1); rs.opmask[v] = 1; p = e; }
        } else if (l.rfind("mode decisions", 0) == 0) rs.is_replay = true;
        else if (l.rfind("d ", 0) == 0) {
            unsigned i, v; char k[32];
            if (sscanf(l.c_str(), "d %u %31s %u", &i, k, &v) == 3) for (int x = 0; x < K_COUNT; x++) if (!strcmp(kind_name(x), k)) rs.replay.push_back({i, (uint16_t)x, (uint16_t)v});
        } else if (l == "end") ok = true;
    }
    free(line); fclose(f);
    return ok;
}

// ddmin over a set of items; 'test' tells whether the failure persists when only 'keep' items stay
template <class T, class F> static std::vector<T> ddmin(std::vector<T> items, F test, double deadline) {
    if (test(std::vector<T>{})) return {};
    size_t n = 2;
    while (items.size() >= 2 && wall() < deadline) {
        size_t chunk = (items.size() + n - 1) / n; bool red = false;
        for (size_t i = 0; i < items.size() && wall() < deadline; i += chunk) {
            std::vector<T> rest;
            for (size_t j = 0; j < items.size(); j++) if (j < i || j >= i + chunk) rest.push_back(items[j]);
            if (test(rest)) { items = std::move(rest); n = std::max<size_t>(n - 1, 2); red = true; break; }
        }
        if (!red) { if (chunk == 1) break; n = std::min(n * 2, items.size()); }
    }
    return items;
}

int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && !getenv("VSIM_NOASLR")) { setenv("VSIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
    }
    std::string prop, replay, out, known;
    uint64_t seed0 = 1, maxruns = ~0ull; double secs = 20, mintime = 25; int jobs = 8; bool vb = false, one = false, nomin = false, keep_going = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--prop") prop = nx(); else if (a == "--seed0") seed0 = strtoull(nx(), 0, 10); else if (a == "--time") secs = atof(nx());
        else if (a == "--jobs") jobs = atoi(nx()); else if (a == "--runs") maxruns = strtoull(nx(), 0, 10); else if (a == "--replay") replay = nx();
        else if (a == "--out") out = nx(); else if (a == "--verbose") vb = true; else if (a == "--one") one = true; else if (a == "--known") known = nx();
        else if (a == "--scenario") only_scenario = nx(); else if (a == "--nomin") nomin = true; else if (a == "--mintime") mintime = atof(nx());
        else if (a == "--keep-going") keep_going = true;
        else if (a == "--list") { for (auto* s = scenario_list; s; s = s->next) printf("%s: %s (%u)\n", s->name, s->props, s->weight); return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (race_setup) race_setup();
    std::vector<Slot> slots(jobs);
    for (auto& s : slots) {
        s.sh = new_shared();
        s.errfd = (int)syscall(SYS_memfd_create, "err", 0);
    }
    auto is_known = [&](const std::string& sig) { return (" " + known + " ").find(" " + sig + " ") != std::string::npos && !sig.empty(); };

    if (!replay.empty()) {
        RunSpec rs; std::string sig; uint64_t hash = 0;
        if (!read_replay(replay.c_str(), rs, sig, hash)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        rs.verbose = vb;
        Outcome o = run1(slots[0], rs);
        bool same = o.status == 2 && o.sig == sig && o.hash == hash;
        printf("{\"status\":%d,\"prop\":%s,\"sig\":%s,\"hash\":\"%016lx\",\"msg\":%s,\"same\":%s}\n", o.status, jstr(o.prop).c_str(), jstr(o.sig).c_str(), o.hash, jstr(o.msg).c_str(), same ? "true" : "false");
        if (vb && o.status == 2) { fputs(read_err(slots[0].errfd).c_str(), stderr); }
        return same ? 1 : 0;
    }
    if (one) {
        RunSpec rs; rs.prop = prop; rs.seed = seed0; rs.verbose = vb;
        Outcome o = run1(slots[0], rs);
        printf("seed %lu scenario %s status %d hash %016lx steps %lu sim %.3fs sig %s msg %s\n", seed0, slots[0].sh->scenario, o.status, o.hash, slots[0].sh->steps, slots[0].sh->sim_ns / 1e9, o.sig.c_str(), o.msg.c_str());
        if (!vb && o.status == 2) fputs(read_err(slots[0].errfd).c_str(), stderr);
        return o.status == 1 ? 0 : 1;
    }

    double t0 = wall();
    uint64_t next = seed0, runs = 0, recheck = 0, mismatch = 0, internal = 0, nontrivial = 0, knownhits = 0;
    std::set<uint64_t> scheds, hashes; std::set<uint64_t> shapes;
    uint64_t fired[K_COUNT]{}, asked[K_COUNT]{}, withk[K_COUNT]{}, notes[32]{}, steps = 0, switches = 0, simns = 0, appev = 0, stray = 0, parts = 0, crashes = 0, restarts = 0;
    std::map<std::string, uint64_t> perscn, known_cnt, vio_cnt; std::vector<std::string> samples;
    std::map<std::string, std::string> vio_msg;
    std::vector<std::pair<RunSpec, Outcome>> fails; std::string failscn;
    uint64_t last_seed = 0;
    bool stop = false; int live = 0;
    while (live > 0 || !stop) {
        if (wall() - t0 > secs || next - seed0 >= maxruns) stop = true;
        for (auto& s : slots) if (!s.pid && !stop) {
            RunSpec rs; rs.prop = prop; rs.seed = next++;
            launch(s, rs); live++;
            if (next - seed0 >= maxruns) stop = true;
        }
        if (!live) break;
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p <= 0) break;
        Slot* s = nullptr; for (auto& x : slots) if (x.pid == p) s = &x;
        if (!s) continue;
        s->pid = 0; live--;
        settle(*s, st);
        if (s->recheck) {
            s->recheck = false; recheck++;
            if (s->sh->hash != s->want) { mismatch++; fprintf(stderr, "seed %lu is not deterministic (%s)\n", s->seed, s->sh->scenario); }
            continue;
        }
        runs++; last_seed = std::max(last_seed, s->seed);
        perscn[s->sh->scenario]++;
        steps += s->sh->steps; switches += s->sh->switches; simns += s->sh->sim_ns; appev += s->sh->app_events;
        stray += s->sh->stray; parts += s->sh->partitions; crashes += s->sh->crashes; restarts += s->sh->restarts;
        bool f = s->sh->stray || s->sh->partitions || s->sh->crashes;
        for (int k = 0; k < K_COUNT; k++) { fired[k] += s->sh->fired[k]; asked[k] += s->sh->asked[k]; withk[k] += s->sh->fired[k] > 0; f |= s->sh->fired[k] > 0; }
        for (int k = 0; k < 32; k++) notes[k] += s->sh->notes[k];
        if (scheds.size() < 4000000) { scheds.insert(s->sh->sched_hash); hashes.insert(s->sh->hash); shapes.insert(((uint64_t)s->sh->shape)); }
        if (f && s->sh->app_events) nontrivial++;
        if (s->sh->status == 3) internal++;
        if (s->sh->status == 1 && samples.size() < 5 && s->sh->msg[0] && runs % 37 == 1) samples.push_back("seed " + std::to_string(s->seed) + " [" + s->sh->scenario + "] " + s->sh->msg);
        if (s->sh->status == 2) {
            if (is_known(s->sh->sig)) { knownhits++; known_cnt[s->sh->sig]++; continue; }
            vio_cnt[std::string(s->sh->scenario) + ":" + s->sh->sig]++;
            if (vio_msg[std::string(s->sh->scenario) + ":" + s->sh->sig].empty()) vio_msg[std::string(s->sh->scenario) + ":" + s->sh->sig] = "seed " + std::to_string(s->seed) + ": " + s->sh->msg;
            RunSpec rs = s->rs; Outcome o = snap(*s);
            fails.push_back({rs, o});
            if (!keep_going) stop = true;
        } else if (s->sh->status == 1 && s->seed % 40 == 0) {
            uint64_t w = s->sh->hash; RunSpec rs = s->rs;
            s->recheck = true; s->want = w;
            launch(*s, rs); live++;
        }
    }
    double tsearch = wall() - t0;
    // gate: the same seed must fail the same way again
    std::string vjson = "null"; uint64_t ungated = 0;
    if (!keep_going) std::sort(fails.begin(), fails.end(), [](auto& a, auto& b) { return a.first.seed < b.first.seed; });
    for (auto& fl : fails) {
        if (keep_going) break;
        Outcome a = run1(slots[0], fl.first);
        if (a.status != 2 || a.sig != fl.second.sig || a.hash != fl.second.hash) {
            ungated++; mismatch++;
            fprintf(stderr, "seed %lu: %s did not reproduce (%s), dropped\n", fl.first.seed, fl.second.sig.c_str(), a.sig.c_str());
            continue;
        }
        std::string scn = slots[0].sh->scenario;
        RunSpec best = fl.first; Outcome bo = a;
        size_t nops0 = 0, nd0 = a.dec.size();
        if (!nomin) {
            double dl = wall() + mintime / 2;
            auto same = [&](const Outcome& o) { return o.status == 2 && o.sig == a.sig; };
            // workload operations first (seed mode), then decisions (replay mode)
            std::vector<uint32_t> ops; for (uint32_t i = 0; i < 256; i++) ops.push_back(i);
            auto spec_ops = [&](const std::vector<uint32_t>& keep) { RunSpec r = fl.first; r.opmask.assign(256, 1); for (auto i : keep) r.opmask[i] = 0; return r; };
            auto kept = ddmin(ops, [&](const std::vector<uint32_t>& k) { return same(run1(slots[0], spec_ops(k))); }, dl);
            RunSpec r1 = spec_ops(kept);
            Outcome o1 = run1(slots[0], r1);
            if (same(o1)) { best = r1; bo = o1; }
            nops0 = kept.size();
            dl = wall() + mintime / 2;
            auto spec_dec = [&](const std::vector<Decision>& d) { RunSpec r = best; r.is_replay = true; r.replay = d; return r; };
            if (bo.dec.size() < Shared::MAXDEC) {
                RunSpec r2 = spec_dec(bo.dec);
                if (same(run1(slots[0], r2))) {
                    RunSpec base = best;
                    auto dmin = ddmin(bo.dec, [&](const std::vector<Decision>& d) { RunSpec r = base; r.is_replay = true; r.replay = d; return same(run1(slots[0], r)); }, dl);
                    RunSpec r3 = spec_dec(dmin);
                    Outcome o3 = run1(slots[0], r3);
                    if (same(o3)) { best = r3; bo = o3; }
                }
            }
        }
        if (!out.empty()) write_replay(out.c_str(), best, bo, scn.c_str());
        char b[512];
        snprintf(b, sizeof b, "{\"seed\":%lu,\"hash\":\"%016lx\",\"ops_kept\":%zu,\"decisions_before\":%zu,\"decisions_after\":%zu,", best.seed, bo.hash, nops0, nd0, best.is_replay ? best.replay.size() : bo.dec.size());
        vjson = std::string(b) + "\"prop\":" + jstr(bo.prop) + ",\"sig\":" + jstr(bo.sig) + ",\"scenario\":" + jstr(scn) + ",\"msg\":" + jstr(bo.msg) + "}";
        break;
    }
    printf("{\"prop\":%s,\"seed_first\":%lu,\"seed_last\":%lu,\"runs\":%lu,\"search_s\":%.2f,\"total_s\":%.2f,\"steps\":%lu,\"switches\":%lu,\"sim_s\":%.3f,\"app_events\":%lu,\"nontrivial\":%lu,",
        jstr(prop).c_str(), seed0, last_seed, runs, tsearch, wall() - t0, steps, switches, simns / 1e9, appev, nontrivial);
    printf("\"distinct_schedules\":%zu,\"distinct_executions\":%zu,\"distinct_shapes\":%zu,\"rechecked\":%lu,\"mismatches\":%lu,\"internal\":%lu,\"ungated\":%lu,\"known_hits\":%lu,", scheds.size(), hashes.size(), shapes.size(), recheck, mismatch, internal, ungated, knownhits);
    printf("\"faults\":{");
    bool first = true;
    for (int k = 0; k < K_COUNT; k++) if (asked[k]) { printf("%s\"%s\":{\"asked\":%lu,\"fired\":%lu,\"runs_with\":%lu}", first ? "" : ",", kind_name(k), asked[k], fired[k], withk[k]); first = false; }
    printf("},\"injected\":{\"stray_datagrams_or_messages\":%lu,\"partitions\":%lu,\"crashes\":%lu,\"restarts\":%lu},\"notes\":[", stray, parts, crashes, restarts);
    for (int k = 0; k < 32; k++) printf("%s%lu", k ? "," : "", notes[k]);
    printf("],\"scenarios\":{"); first = true;
    for (auto& p : perscn) { printf("%s%s:%lu", first ? "" : ",", jstr(p.first).c_str(), p.second); first = false; }
    printf("},\"known\":{"); first = true;
    for (auto& p : known_cnt) { printf("%s%s:%lu", first ? "" : ",", jstr(p.first).c_str(), p.second); first = false; }
    printf("},\"samples\":["); first = true;
    for (auto& p : samples) { printf("%s%s", first ? "" : ",", jstr(p).c_str()); first = false; }
    printf("],\"violation\":%s", vjson.c_str());
    if (keep_going) { printf(",\"vio\":{"); first = true; for (auto& p : vio_cnt) { printf("%s\n%s:[%lu,%s]", first ? "" : ",", jstr(p.first).c_str(), p.second, jstr(vio_msg[p.first]).c_str()); first = false; } printf("}"); }
    printf("}\n");
    return 0;
}
