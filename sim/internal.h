// Shared between the simulator's translation units.
#pragma once
#include "sim.h"
#include <pthread.h>
#include <map>
#include <deque>
#include <memory>
#include <string>

namespace sim {

enum TState { T_RUN, T_BLOCKED, T_DONE, T_FROZEN };

struct Thr {
    int id = 0, node = 0;
    std::string name;
    pthread_t real{};
    int turn = 0;                       // futex word
    TState st = T_RUN;
    const std::function<bool()>* pred = nullptr;
    uint64_t deadline = ~0ull;
    bool timed_out = false;
    const char* why = "";
    uint64_t stall_until = 0, stalled = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool detached = false, joined = false;
    std::function<void()> app;          // application thread
    // futex / cond waiting
    const void* wobj = nullptr;
    bool woken = false;
    uint64_t points = 0, streak = 0;
    uint64_t spin_n = 0, spin_t0 = 0;
    uint32_t prio = 0;
    bool user = false;                  // application thread of a scenario (spawn)
    bool lib = false;                   // created through pthread_create by code under test
};

struct Node {
    int id; std::string name; bool alive = true;
    std::vector<int> fds;               // fd-FD_BASE -> socket id or -1
    uint64_t bad_close = 0, spin = 0;
};

extern __thread Thr* me;
extern uint64_t now_;
extern bool running;
Thr* thr(int id);
Node* node(int id);
int nnodes();

// scheduling point of the current thread
void point(uint32_t code, uint64_t a = 0, uint64_t b = 0);
// block until pred() or deadline (absolute, ~0: never); returns true if pred held
bool block(const std::function<bool()>& pred, uint64_t deadline, const char* why);
int  sim_pthread_create(pthread_t* t, const pthread_attr_t* attr, void* (*fn)(void*), void* arg, bool lib, const char* name, int node, std::function<void()> app);
[[noreturn]] void die(int status);
void spin_note(bool useless);
uint64_t delay_level(uint32_t v);
extern uint32_t max_delay_level;
void net_crash_node(int n, bool rst);
void nats_crash_node(int n);
bool partitioned(int a, int b);
uint64_t mono_now();
int64_t real_now();

constexpr int FD_BASE = 100;
constexpr int FD_MAX = 1100;

struct HB { HB(); ~HB(); };             // race detector must not look at simulator / scenario memory
}
