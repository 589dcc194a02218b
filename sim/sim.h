// Deterministic simulator: public interface for the scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- decision kinds -------------------------------------------------------------------------------
// Every nondeterministic choice of a run is one call of choose(kind, n).  Value 0 is the benign default.
#define SIM_KINDS(X) \
    X(SCHED) X(STALL) X(SPURIOUS) X(WAKE_ORDER) X(THREAD_FAIL) X(CLOCK_JUMP) \
    X(UDP_LOSS) X(UDP_DUP) X(UDP_DELAY) X(UDP_CORRUPT) X(UDP_TRUNC) X(UDP_EXTEND) \
    X(TCP_DELAY) X(TCP_SEG) X(TCP_SHORT_WRITE) X(TCP_SHORT_READ) X(TCP_RST) \
    X(ERR_RECV) X(ERR_SEND) X(ERR_SOCKET) X(ERR_BIND) X(ERR_CONNECT) X(ERR_ACCEPT) X(ERR_LISTEN) \
    X(ERR_SOCKOPT) X(ERR_CLOSE) \
    X(NATS_LOSS) X(NATS_DELAY) X(NATS_ERR) X(NATS_DISCONNECT) X(NATS_SLOW_CB) \
    X(CRASH) X(PARTITION) X(APP)
enum Kind : int {
#define X(n) K_##n,
    SIM_KINDS(X)
#undef X
    K_COUNT
};
const char* kind_name(int k);

struct Rates { uint32_t ppm[K_COUNT]; };        // probability (per million) that a choice is not the default

struct Decision { uint32_t idx; uint16_t kind; uint16_t val; };

// Shared with the parent process (survives a crash of the run).
struct Shared {
    uint64_t hash;
    uint64_t steps;             // scheduling points
    uint64_t switches;
    uint64_t sim_ns;
    uint64_t app_events;        // interesting application events (callbacks, sends, ...)
    uint64_t fired[K_COUNT];    // decisions that were not the default
    uint64_t asked[K_COUNT];
    uint64_t stray, partitions, crashes, restarts; // faults injected by scenarios
    uint64_t notes[32];         // scenario defined counters
    uint32_t ndec;
    uint32_t nchoices;
    int32_t  status;            // 0 running 1 ok 2 violation 3 internal
    uint32_t shape;             // hash of the abstract history (distinct behaviours measure)
    uint64_t sched_hash;        // hash of the thread interleaving only
    char prop[8];
    char sig[96];
    char msg[1600];
    char scenario[48];
    static constexpr uint32_t MAXDEC = 60000;
    Decision dec[MAXDEC];
};

struct RunSpec {
    uint64_t seed = 1;
    std::string prop;                   // the property being decided
    std::vector<Decision> replay;       // when is_replay
    bool is_replay = false;
    std::vector<uint8_t> opmask;        // opmask[i]==1 -> op i is left out
    bool verbose = false;
};

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(uint32_t ppm) { return below(1000000) < ppm; }
    bool coin() { return next() & 1; }
};

extern Rates rates;
extern Shared* sh;
extern const RunSpec* spec;

// ---- scenarios -----------------------------------------------------------------------------------
struct Scenario { const char* name; const char* props; uint32_t weight; void (*run)(const RunSpec&); Scenario* next; };
extern Scenario* scenario_list;
struct ScenarioReg { ScenarioReg(Scenario* s) { s->next = scenario_list; scenario_list = s; } };
#define SIM_SCENARIO(id, name, props, weight, fn) \
    static ::sim::Scenario scn_##id{name, props, weight, fn, nullptr}; static ::sim::ScenarioReg scnreg_##id(&scn_##id)
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    // what this run did, for the evidence

// ---- lifecycle -------------------------------------------------------------------------------------
void attach(const RunSpec& rs, Shared* shared, bool verbose);
void start();                               // the calling thread becomes simulated thread 0
[[noreturn]] void finish_ok();
[[noreturn]] void violation(const char* prop, const char* sig, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
bool deciding(const char* prop);            // is this property the one being decided by this run?
// report if 'prop' is being decided by this run; otherwise ignore
#define SIM_CHECK(prop, cond, sig, ...) do { if (!(cond) && ::sim::deciding(prop)) ::sim::violation(prop, sig, __VA_ARGS__); } while (0)

// ---- choices -----------------------------------------------------------------------------------
uint32_t choose(Kind k, uint32_t n);
void set_faults(bool on);                   // false: only scheduling choices keep being made
bool faults_on();
bool op_enabled(uint32_t i);                // false when the minimiser removed workload op i
void set_sched(uint32_t mode, uint32_t step_ns);
uint32_t step_ns();

// ---- log ---------------------------------------------------------------------------------------
void ev(uint32_t code, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
void evbytes(uint32_t code, const void* p, size_t n);
void tr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));    // only in verbose runs
extern bool verbose;

// ---- nodes, threads, time -------------------------------------------------------------------------
int  node_new(const char* name);                            // returns node id (ip 10.0.0.<id+1>)
std::string node_ip(int node);
int  spawn(int node, const char* name, std::function<void()> fn);   // a simulated application thread
bool finished(int thr);
void join(int thr);
int  self();
int  self_node();
int  live_threads(int node);                                // threads of that node that have not ended
std::vector<int> node_threads(int node);
uint64_t now();                                             // monotonic ns
void sleep_ns(uint64_t ns);
void yield();
bool wait_until(const std::function<bool()>& pred, uint64_t timeout_ns, const char* why);
uint64_t thread_cpu_points(int thr);
const char* waiting_in(int thr);                            // what a blocked thread waits for, "" when it can run
uint64_t stalled_ns(int node);                              // injected stalls of that node's threads so far
void set_tcp_sndbuf(size_t n);
void set_max_delay(uint32_t level);
void crash_node(int node, bool rst);                        // freezes its threads, kernel closes its sockets
void at(uint64_t when_ns, std::function<void()> fn);        // run fn as an event (must not block)

// ---- simulated network (truth, taps and fault control) ---------------------------------------------
struct Wire {                                               // one transmission accepted by the kernel / broker
    uint64_t t; int node; int proto;                        // 0 udp 1 tcp 2 nats
    uint32_t src_ip; uint16_t src_port; uint32_t dst_ip; uint16_t dst_port;
    uint64_t conn;                                          // tcp: connection id *2 + direction
    std::string subject, reply;
    std::vector<uint8_t> bytes;
    int thr;
};
struct Rx {                                                 // one receive completed by the kernel / broker
    uint64_t t; int node; int proto; uint64_t wire;         // index into wires() or ~0 if not from a node
    bool intact; std::vector<uint8_t> bytes; int thr; uint16_t dst_port; std::string subject, reply;
    uint32_t src_ip; uint16_t src_port; uint64_t conn;
};
std::vector<Wire>& wires();
std::vector<Rx>& rxs();
void partition(int a, int b, bool on);                      // -1: everyone
void heal();
void inject_udp(uint32_t src_ip, uint16_t src_port, const std::string& dst_ip, uint16_t dst_port,
                const std::vector<uint8_t>& bytes, uint64_t delay_ns);
void inject_tcp(uint64_t conn_dir, const std::vector<uint8_t>& bytes);
uint32_t ip4(const std::string& s);
size_t open_fds(int node);
std::string describe_fds(int node);
struct FdTruth { bool open; int type; bool bound; uint32_t ip; uint16_t port; bool connected; uint32_t pip; uint16_t pport; int id = -1; };
FdTruth fd_truth(int node, int fd);
uint64_t bad_closes(int node);
bool tcp_intact(int node, int fd);          // connected, and neither end closed, shut down or reset it
uint64_t tcp_conn(int node, int fd);        // connection id
bool tcp_backlog(int node, uint16_t port);
struct SysCall { uint64_t t; int thr; int node; int op; int fd; int64_t ret; int err; uint64_t dur; };
enum { SC_SOCKET, SC_BIND, SC_CONNECT, SC_LISTEN, SC_ACCEPT, SC_SEND, SC_RECV, SC_CLOSE, SC_SHUTDOWN, SC_SETSOCKOPT };
std::vector<SysCall>& syscalls();
void realtime_jump(int64_t ns);
uint64_t sigpipe_hits();
// spin detection: a thread that makes many immediately returning receives without progress
struct Spin { int thr; uint64_t count; uint64_t span_ns; };
uint64_t spin_hits(int node);

// ---- simulated NATS broker ---------------------------------------------------------------------------
struct NatsStats { uint64_t live_conn, live_sub, live_msg, double_free, use_after_free; };
NatsStats nats_stats();
void nats_set_url(const char* url);
void nats_disconnect(int node);
void nats_reconnect(int node);
bool nats_conn_up(int node);
bool nats_conn_made(int node);              // has a connection that is not destroyed
struct NatsDelivery { uint64_t t; uint64_t sub; std::string subject; std::vector<uint8_t> bytes; uint64_t wire; uint64_t seq; bool handed; uint64_t t_handed; };
std::vector<NatsDelivery>& nats_deliveries();
struct NatsSub { uint64_t id; int node; std::string subject, queue; bool async, closed, destroyed; };
std::vector<NatsSub> nats_subs();
void nats_inject(const std::string& subject, const std::string& reply, const std::vector<uint8_t>& bytes, uint64_t delay_ns);

// race detector glue (no-ops unless the TSan build)
void hb_release(void* p);
void hb_acquire(void* p);
void hb_write(void* p, size_t n);      // the operating system writes to / reads from memory of the program
void hb_read(const void* p, size_t n);

} // namespace sim
