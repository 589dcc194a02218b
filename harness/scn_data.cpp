// Data and context packets from senders to receiving controllers over UDP, with damaged, repeated and foreign datagrams.
// What the listeners see is judged against what the kernel handed to the receive loops.
#include "common.h"
using namespace scn;
using sysif::Addr;
using sysif::System;

namespace {

struct Call { int data; Model m; uint64_t t0; int thr; };
struct RecvObj {                                // one receiving controller object
    int idx, node, inc; Addr src; size_t r0, r1 = ~0ull, s0, s1 = ~0ull; sysif::ControllerIf* obj = nullptr;
    bool gone = false, crashed = false, bound = false, enabled = false, in_call = false, selfdis = false, owner_api = false;
    uint32_t reg = 0; std::vector<std::pair<uint64_t, uint32_t>> regs; int running = 0; uint64_t quiet_since = 0; std::vector<Call> calls; uint32_t enables = 0;
};
struct Receiver { int idx, node, inc = 0, gen = 0, next_op = 0; RecvObj* cur = nullptr; bool finished = false, done = false, ready = false, quit = false; bool reg[16] = {}; };
struct Out { int data; Bytes b; bool ok; size_t w0, w1, s0, s1; int node; };
struct Sender { int idx, node, gen = 0, next_op = 0; sysif::ControllerIf* obj = nullptr; std::vector<Any> pk; std::vector<Model> md; int to = 0; bool finished = false, done = false; std::vector<Out> out; };
struct World {
    System* sys; uint64_t seed; int nops, richness; bool slow, inner, rogue, big, early; std::vector<Receiver*> rc; std::vector<Sender*> sn; std::vector<RecvObj*> objs; std::vector<Sender*> all_senders;
    bool probe = false, end = false;
    uint32_t rogue_ip;
};
World* W;
constexpr uint16_t PORT = 6100;
std::string where(const RecvObj* o) { return strf("%s receiving controller on node %d (object %d)", W->sys->ns, o->node, o->inc); }

void on_packet(RecvObj* o, int data, const PacketDesc& d, void* p) {
    REQUIRE("L01 D02", !o->gone, "call-after-stop", "the listener of %s is called after its %s was destroyed", d.name, where(o).c_str());
    REQUIRE("L01 D02", o->enabled, "call-after-stop", "the listener of %s is called although reception of the %s is disabled", d.name, where(o).c_str());
    o->calls.push_back({data, snapshot(d, p), now(), self()});
    sh->app_events++;
    ev(400, (uint64_t)data, o->calls.size());
    if (verbose) tr("listener %s", show(d, o->calls.back().m).c_str());
    ++o->running;
    Rng q(W->seed * 131 + o->calls.size() * 17 + o->inc);
    if (faults_on()) {
        static const uint64_t dl[] = {0, 0, 0, 0, 1 * MS, 200 * MS, 3500 * MS, 20 * MS};
        if (uint64_t x = dl[q.below(W->slow ? 8 : 5)]) sleep_ns(x);
        if (W->inner && q.below(4) == 0 && !o->owner_api && o->enabled) {   // a listener may stop the reception
            o->in_call = true;
            uint64_t t0 = now(), st0 = stalled_ns(o->node);
            o->obj->disable_receive();
            REQUIRE("L01 R03", now() - t0 < 10 * SEC + (stalled_ns(o->node) - st0), "slow-stop", "disable_receive() called by a listener took %.3f s", (now() - t0) / 1e9);
            o->enabled = false; o->selfdis = true;
            if (q.below(3) == 0) { o->enabled = true; o->selfdis = false; o->enables++; o->obj->enable_receive(); }
            o->in_call = false;
            mixshape(0x51);
        }
    }
    --o->running;
    REQUIRE("L01", !o->gone, "call-after-stop", "the listener of %s is still running after its %s was destroyed", d.name, where(o).c_str());
}

void check_gone(int node, const char* what, uint64_t took, uint64_t bound) {
    REQUIRE("L01 R03", took < bound, "slow-stop", "destroying %s took %.3f s", what, took / 1e9);
    REQUIRE("L01", live_threads(node) == 0, "thread-left", "%s was destroyed but left a thread running on node %d", what, node);
    REQUIRE("L02", open_fds(node) == 0, "leak", "%s was destroyed but left descriptors open: %s", what, describe_fds(node).c_str());
    REQUIRE("L02", bad_closes(node) == 0, "double-close", "%s closed a descriptor it does not own any more (node %d)", what, node);
}
void setup_failed(const char* what, int tries, const char* e, bool faulty) {
    tr("set-up of %s fails: %s", what, e);
    if (!faulty) violation(spec->prop.c_str(), "setup-fails", "%s cannot be set up although nothing fails: %s", what, e);
    sh->notes[0]++;
    sleep_ns((20 + 100 * tries) * MS);
    if (tries > 6) set_faults(false);
}
sysif::ControllerIf* new_controller(const char* what, int node, uint16_t port) {
    for (int tries = 0;; ++tries) {
        bool faulty = faults_on();
        try { return W->sys->controller(W->sys->tr == sysif::NATS ? Addr{"nats://server:4222", 0, ""} : Addr{node_ip(node), port, ""}); }
        catch (const std::exception& e) {
            check_gone(node, "a controller whose set-up failed", 0, 1);
            setup_failed(what, tries, e.what(), faulty);
        }
    }
}

// ---- receivers ---------------------------------------------------------------------------------------------------
void disable(RecvObj* o) {
    wait_until([o] { return !o->in_call; }, 3600 * SEC, "a listener's own call");
    o->owner_api = true;
    uint64_t t0 = now(), st0 = stalled_ns(o->node);
    o->obj->disable_receive();
    REQUIRE("L01 R03", now() - t0 < 12 * SEC + (stalled_ns(o->node) - st0), "slow-stop", "disable_receive() took %.3f s", (now() - t0) / 1e9);
    REQUIRE("L01", o->running == 0 , "call-after-stop", "disable_receive() returned while a listener of the %s was running", where(o).c_str());
    REQUIRE("L01", live_threads(o->node) == 0 || W->sys->tr == sysif::NATS, "thread-left", "disable_receive() returned but the receive thread of the %s still exists", where(o).c_str());
    o->enabled = false; o->selfdis = false; o->owner_api = false;
    mixshape(0x52);
}
void enable(RecvObj* o) {
    wait_until([o] { return !o->in_call; }, 3600 * SEC, "a listener's own call");
    o->owner_api = true;
    for (int tries = 0;; ++tries) {
        bool faulty = faults_on();
        bool was = o->enabled;
        o->enabled = true; o->selfdis = false; o->enables++;
        try { o->obj->enable_receive(); break; }
        catch (const std::exception& e) {
            o->enabled = was;
            if (W->seed & 1) o->obj->disable_receive();          // a start that failed can be undone, or simply be tried again
            o->enabled = false;
            setup_failed("the receive thread", tries, e.what(), faulty);
        }
    }
    o->owner_api = false;
    mixshape(0x53);
}
void drop(Receiver* r) {
    auto* o = r->cur;
    if (!o || !o->obj) return;
    wait_until([o] { return !o->in_call; }, 3600 * SEC, "a listener's own call");
    o->owner_api = true;
    uint64_t t0 = now(), st0 = stalled_ns(o->node);
    delete o->obj;
    o->obj = nullptr; o->gone = true; o->enabled = false;
    check_gone(o->node, "a receiving controller", now() - t0, 15 * SEC + (stalled_ns(o->node) - st0));
    REQUIRE("L01", o->running == 0, "call-after-stop", "the %s was destroyed while a listener was running", where(o).c_str());
    o->r1 = std::min(o->r1, rxs().size()); o->s1 = std::min(o->s1, syscalls().size());
    r->cur = nullptr;
}
void bind(RecvObj* o) {
    for (int tries = 0;; ++tries) {
        bool faulty = faults_on();
        try { o->obj->data_src(o->src); break; } catch (const std::exception& e) { setup_failed("the receive socket", tries, e.what(), faulty); }
    }
    o->bound = true;
    std::string want = o->src.ip + ":" + std::to_string(o->src.port);
    REQUIRE("L02 R02 D02", o->obj->data_src() == want, "endpoint", "the receive endpoint was set to %s and reads %s", want.c_str(), o->obj->data_src().c_str());
}
void listen(RecvObj* o, int i, bool on) {
    if (on) o->obj->listen(i, [o, i](const PacketDesc& d, void* p) { on_packet(o, i, d, p); });
    else o->obj->listen(i, {});
    o->reg = (o->reg & ~(1u << i)) | (uint32_t)on << i;
    o->regs.push_back({rxs().size(), o->reg});
}
void make(Receiver* r, Rng& q) {
    drop(r);
    auto* o = new RecvObj{r->idx, r->node, r->inc++, Addr{node_ip(r->node), PORT, ""}, rxs().size(), ~0ull, syscalls().size()};
    W->objs.push_back(o);
    r->cur = o;
    o->obj = new_controller("a receiving controller", r->node, 5000);
    for (size_t i = 0; i < W->sys->datas.size(); ++i) listen(o, (int)i, r->reg[i]);
    if (W->early && q.coin()) { enable(o); sleep_ns(q.below(100) * MS); }     // started before there is an address
    bind(o);
    if (!o->enabled && q.below(5)) enable(o);
    sh->notes[4]++;
}
void receiver_main(Receiver* r) {
    Rng q0(W->seed * 11 + r->idx + 100 * r->gen);
    for (auto& x : r->reg) x = q0.below(5) > 0;
    make(r, q0);
    r->ready = true;
    int n = 3 + (int)q0.below(5);
    for (; r->next_op < n;) {
        int i = r->next_op++;
        Rng q(W->seed * 1000 + 100 + 20 * r->idx + i);
        static const uint64_t dl[] = {1, 20, 500, 2500, 4000};
        sleep_ns((dl[q.below(5)] + q.below(40)) * MS);
        if (i < 20 && !op_enabled(100 + 20 * r->idx + i)) continue;
        auto* o = r->cur;
        switch (q.below(8)) {
        case 0: if (o->enabled) disable(o); else enable(o); break;
        case 1: disable(o); if (q.coin()) disable(o); sleep_ns(q.below(2000) * MS); enable(o); if (q.coin()) enable(o); break;
        case 2: make(r, q); break;
        case 3: disable(o); { int k = (int)q.below(W->sys->datas.size()); listen(o, k, r->reg[k] = !r->reg[k]); } enable(o); break;
        case 4: if (o->selfdis) enable(o); break;
        default: break;
        }
    }
    r->finished = true;
    wait_until([] { return W->end; }, ~0ull, "the end of the faults");
    // probe phase
    auto* o = r->cur;
    disable(o);
    for (size_t k = 0; k < W->sys->datas.size(); ++k) listen(o, (int)k, r->reg[k] = true);
    enable(o);
    r->ready = true; r->done = false; r->quit = false;
    sleep_ns(10 * MS);
    r->finished = true; r->done = true;
    wait_until([r] { return r->quit; }, ~0ull, "the end of the probes");
    drop(r);
    r->done = false;
}

// ---- senders -----------------------------------------------------------------------------------------------------
void aim(Sender* s, int to) {
    s->to = to;
    Addr a{node_ip(W->rc[to]->node), PORT, ""};
    s->obj->data_dst(a);
    std::string want = a.ip + ":" + std::to_string(a.port);
    REQUIRE("D01", s->obj->data_dst() == want, "endpoint", "the data endpoint was set to %s and reads %s", want.c_str(), s->obj->data_dst().c_str());
}
void send_one(Sender* s, int data) {
    auto& d = W->sys->data(data);
    Bytes want = encode(d, s->md[data]);
    size_t w0 = wires().size(), s0 = syscalls().size();
    if (verbose) tr("send %s to %s", show(d, s->md[data]).c_str(), node_ip(W->rc[s->to]->node).c_str());
    s->obj->send_data(data, s->pk[data].p);
    std::string df = diff(d, s->md[data], snapshot(d, s->pk[data].p));
    REQUIRE("D01", df.empty(), "packet-changed", "after sending, the %s object reads back %s", d.name, df.c_str());
    int copies = 0; bool failed = false;
    for (size_t i = s0; i < syscalls().size(); ++i) if (syscalls()[i].node == s->node && syscalls()[i].op == SC_SEND && syscalls()[i].ret < 0) failed = true;
    for (size_t i = w0; i < wires().size(); ++i) {
        auto& w = wires()[i];
        if (w.node != s->node) continue;
        ++copies;
        if (w.bytes != want) {
            Model g; std::string why = decode(d, w.bytes, g);
            if (!why.empty()) REQUIRE("C07 D01", false, "malformed", "the transmitted %s is not well formed: %s; contents %s; bytes %s", d.name, why.c_str(), show(d, s->md[data]).c_str(), hex(w.bytes).c_str());
            REQUIRE("C07 D01", false, "wire-contents", "the transmitted %s has %s; bytes %s", d.name, diff(d, s->md[data], g).c_str(), hex(w.bytes).c_str());
        }
        REQUIRE("D01", w.dst_ip == ip4(node_ip(W->rc[s->to]->node)) && w.dst_port == PORT, "wrong-target", "a %s for node %d went to %08x:%u", d.name, W->rc[s->to]->node, w.dst_ip, w.dst_port);
    }
    REQUIRE("D01 R04", copies <= 1, "sent-twice", "sending one %s put %d datagrams on the wire", d.name, copies);
    REQUIRE("D01", copies == 1 || failed, "not-sent", "sending a %s put nothing on the wire although no system call failed", d.name);
    sh->notes[1]++;
}
Bytes some_bytes(Rng& q) {
    auto packet = [&] { auto& d = W->sys->data((int)q.below(W->sys->datas.size())); return encode(d, random_model(d, q, W->richness)); };
    auto old = [&] { auto& w = wires(); for (int i = 0; i < 10 && !w.empty(); ++i) { auto& x = w[q.below(w.size())]; if (x.bytes.size() > 8) return x.bytes; } return packet(); };
    switch (q.below(8)) {
    case 0: { Bytes b(q.below(80)); for (auto& x : b) x = (uint8_t)q.next(); return b; }
    case 1: return packet();
    case 2: return damage(packet(), q);
    case 3: return old();
    case 4: return damage(old(), q);
    case 5: { Bytes b = old(); if (b.size() > 4) b.resize(4 * q.below(b.size() / 4)); return b; }         // cut at a word
    case 6: { auto& d = *W->sys->table[q.below(W->sys->table.size())]; return encode(d, random_model(d, q, W->richness)); }   // not data
    default: { Bytes b(q.below(3) ? 20000 + q.below(45500) : 65507, (uint8_t)q.next()); Bytes h = packet(); std::copy(h.begin(), h.begin() + std::min(h.size(), b.size()), b.begin());
               if (q.coin()) { b[2] = (uint8_t)(b.size() / 4 >> 8); b[3] = (uint8_t)(b.size() / 4); } return b; }
    }
}
void sender_main(Sender* s) {
    Rng q0(W->seed * 57 + s->idx + 1000 * s->gen);
    for (size_t i = 0; i < W->sys->datas.size(); ++i) { s->pk.emplace_back(W->sys->data((int)i)); s->md.emplace_back(); init_required(W->sys->data((int)i), s->pk[i].p, s->md[i], q0); }
    s->obj = new_controller("a sending controller", s->node, (uint16_t)(5000 + s->gen));
    aim(s, (int)q0.below(W->rc.size()));
    int n = (int)W->sn.size();
    for (; s->next_op < W->nops;) {
        int i = s->next_op++;
        if (i % n != s->idx || !op_enabled((uint32_t)i)) continue;
        Rng q(W->seed * 1000 + i + 5000);
        int kind = (int)q.below(100), data = (int)q.below(W->sys->datas.size());
        if (kind < 8) { static const uint64_t d[] = {1, 50, 500, 2500, 4000}; sleep_ns(d[q.below(5)] * MS); continue; }
        if (kind < 14) aim(s, (int)q.below(W->rc.size()));
        else if (kind < 34 && W->rogue) {
            bool spoof = q.coin();
            inject_udp(spoof ? ip4(node_ip(s->node)) : W->rogue_ip, spoof ? (uint16_t)(40000 + q.below(3)) : 7000, node_ip(W->rc[q.below(W->rc.size())]->node), PORT, some_bytes(q), q.below(3) * q.below(300) * MS);
            if (q.coin()) continue;
        }
        auto& d = W->sys->data(data);
        if (kind < 90) { int m = (int)q.below(W->richness + 2); for (int k = 0; k < m; ++k) mutate(d, s->pk[data].p, s->md[data], q); }
        if (W->big && d.kind == DATA && q.below(3) == 0) {
            size_t sz = 4 * (q.below(2) ? q.below(500) : q.below(16370)) ;
            s->md[data].payload.assign(sz, (uint8_t)q.next());
            for (size_t k = 0; k < sz; k += 97) s->md[data].payload[k] = (uint8_t)q.next();
            d.ops.set_payload(s->pk[data].p, s->md[data].payload);
        }
        if (encode(d, s->md[data]).size() > 65507) continue;
        send_one(s, data);
    }
    s->finished = true;
    wait_until([] { return W->probe; }, ~0ull, "the probes");
    wait_until([s] { for (auto* x : W->sn) if (x->idx < s->idx && !x->done) return false; return true; }, ~0ull, "the other probes");
    Rng q(W->seed * 3 + s->idx);
    for (size_t t = 0; t < W->rc.size(); ++t) {
        aim(s, (int)t);
        for (size_t k = 0; k < W->sys->datas.size(); ++k) {
            auto& d = W->sys->data((int)k);
            if (encode(d, s->md[k]).size() > 60000) { s->md[k].payload.assign(16, 7); d.ops.set_payload(s->pk[k].p, s->md[k].payload); }
            auto* o = W->rc[t]->cur;
            size_t before = 0, after = 0;
            for (auto& c : o->calls) before += c.data == (int)k;
            send_one(s, (int)k);
            sleep_ns(1 * SEC);
            for (auto& c : o->calls) after += c.data == (int)k;
            REQUIRE("D01 D02 R01 R02", after == before + 1, "no-recovery", "faults have stopped, but a %s sent to the %s causes %zu calls of its listener", d.name, where(o).c_str(), after - before);
        }
    }
    uint64_t t0 = now();
    delete s->obj; s->obj = nullptr;
    check_gone(s->node, "a sending controller", now() - t0, 10 * SEC);
    s->done = true;
}

// ---- judging -----------------------------------------------------------------------------------------------------
void judge(RecvObj* o) {
    std::map<int, std::vector<size_t>> rx;      // by receive thread
    for (size_t i = o->r0; i < std::min(o->r1, rxs().size()); ++i) { auto& r = rxs()[i]; if (r.node == o->node && r.proto == 0 && r.dst_port == PORT) rx[r.thr].push_back(i); }
    std::map<int, std::vector<size_t>> calls;
    for (size_t i = 0; i < o->calls.size(); ++i) { calls[o->calls[i].thr].push_back(i); rx[o->calls[i].thr]; }
    std::map<int, std::pair<size_t, bool>> tail;        // the thread's last receive call: did it return a datagram?
    for (size_t i = o->s0; i < std::min(o->s1, syscalls().size()); ++i) { auto& y = syscalls()[i]; if (y.node == o->node && y.op == SC_RECV) tail[y.thr] = {i, y.ret >= 0}; }
    // listeners change only while the reception is stopped
    auto registered = [&](size_t ri, int data) { uint32_t m = 0; for (auto& [at, mask] : o->regs) if (at <= ri) m = mask; return (bool)(m >> data & 1); };
    for (auto& [thr, list] : rx) {
        auto& cs = calls[thr];
        size_t K = list.size(), N = cs.size();
        struct Need { Verdict v = NOT_OURS; int data = -1; Model m; };
        std::vector<Need> need(K);
        for (size_t i = 0; i < K; ++i) {
            for (size_t c = 0; c < W->sys->datas.size(); ++c) {
                Model x; auto v = classify(W->sys->data((int)c), rxs()[list[i]].bytes, x);
                auto& n = need[i];
                if (v == VALID && n.v == NOT_OURS) { n.v = VALID; n.data = (int)c; n.m = x; }
                else if (v == VALID || v == ODD) n.v = ODD;
            }
        }
        // the last datagram is not necessarily dispatched when the reception was stopped meanwhile
        bool last_free = tail.count(thr) && tail[thr].second;
        std::vector<std::map<size_t, size_t>> reach(K + 1);
        reach[0][0] = 0;
        size_t bi = 0, bj = 0;
        for (size_t i = 0; i < K; ++i) for (auto& [j, _] : reach[i]) {
            bi = i; bj = j;
            auto& n = need[i];
            if (n.v == ODD) { for (size_t x = 0; x <= W->sys->datas.size() && j + x <= N; ++x) reach[i + 1].emplace(j + x, j); continue; }
            if (n.v == VALID) {
                bool fits = j < N && o->calls[cs[j]].data == n.data && diff(W->sys->data(n.data), n.m, o->calls[cs[j]].m).empty();
                if (fits && registered(list[i], n.data)) reach[i + 1].emplace(j + 1, j);
                // not registered while this packet arrived, or stopped before it was dispatched
                if (!registered(list[i], n.data) || (i + 1 == K && last_free)) reach[i + 1].emplace(j, j);
            } else reach[i + 1].emplace(j, j);
        }
        if (reach[K].count(N)) continue;
        std::string w = where(o);
        if (verbose) {
            for (size_t i = 0; i < K; ++i) tr("  datagram %zu at %.6f %s %s: %s", i, rxs()[list[i]].t / 1e9, need[i].v == VALID ? "valid" : need[i].v == ODD ? "odd" : "not ours", need[i].data < 0 ? "-" : W->sys->data(need[i].data).name, hex(rxs()[list[i]].bytes).c_str());
            for (size_t j = 0; j < N; ++j) tr("  call %zu at %.6f %s", j, o->calls[cs[j]].t0 / 1e9, W->sys->data(o->calls[cs[j]].data).name);
        }
        if (!reach[K].empty()) { bi = K; bj = reach[K].rbegin()->first; }
        else for (auto& [j, _] : reach[bi]) if (j < N && o->calls[cs[j]].data == need[bi].data) bj = j;     // the likeliest counterpart
        if (bi < K && need[bi].v == VALID) {
            auto& n = need[bi]; auto& d = W->sys->data(n.data); auto& b = rxs()[list[bi]].bytes;
            if (bj < N && o->calls[cs[bj]].data == n.data) {
                std::string df = diff(d, n.m, o->calls[cs[bj]].m);
                REQUIRE("D01 D03 R01 D02", false, "call-contents", "%s: the listener of %s was called with %s; datagram %s", w.c_str(), d.name, df.c_str(), hex(b).c_str());
            } else if (bj < N) REQUIRE("D02 D03 D01 R01", false, "wrong-listener", "%s: a %s arrived, the listener of %s was called; datagram %s", w.c_str(), d.name, W->sys->data(o->calls[cs[bj]].data).name, hex(b).c_str());
            REQUIRE("D01 D02 R01 R02", false, "missing-call", "%s: the listener of %s was not called for an arrived datagram (at %.6f s): %s", w.c_str(), d.name, rxs()[list[bi]].t / 1e9, hex(b).c_str());
        } else if (bj < N) {
            auto& c = o->calls[cs[bj]];
            REQUIRE("D02 D03 R01 R02", false, "extra-call", "%s: the listener of %s was called without such a datagram: %s", w.c_str(), W->sys->data(c.data).name, show(W->sys->data(c.data), c.m).c_str());
        }
    }
}

void start_receiver(Receiver* r) { spawn(r->node, strf("recv%d.%d", r->idx, r->gen).c_str(), [r] { receiver_main(r); }); }
void start_sender(Sender* s) { W->all_senders.push_back(s); spawn(s->node, strf("send%d.%d", s->idx, s->gen).c_str(), [s] { sender_main(s); }); }

void run(const RunSpec& rs) {
    Rng r(rs.seed ^ 0xDA7Aull);
    W = new World{};
    std::vector<System*> ss = sysif::systems();
    W->sys = ss[r.below(ss.size())];
    W->seed = rs.seed;
    W->nops = 6 + (int)r.below(r.below(4) ? 25 : 80);
    W->richness = (int)r.below(7);
    W->slow = r.below(3) == 0;
    W->inner = r.below(3) == 0;
    W->rogue = r.below(3) > 0;
    W->big = r.below(3) == 0;
    W->early = r.below(4) == 0;
    W->rogue_ip = ip4("10.0.0.77");
    bool churn = r.below(3) == 0;
    int nr = 1 + (int)(r.below(3) == 0), ns = 1 + (int)(r.below(3) == 0);

    rates = Rates{};
    Swarm sw(r);
    sw.sched();
    if (r.below(8)) {
        sw.group(60, {K_UDP_LOSS, K_UDP_DUP, K_UDP_DELAY});
        sw.group(deciding("D03") || deciding("R01") ? 75 : 40, {K_UDP_CORRUPT, K_UDP_TRUNC, K_UDP_EXTEND});
        sw.group(deciding("R02") ? 90 : 40, {K_ERR_RECV, K_ERR_SEND}, 60, 200000);
        sw.group(20, {K_ERR_SOCKET, K_ERR_BIND, K_ERR_CLOSE, K_THREAD_FAIL, K_NATS_ERR}, 50, 200000);
        sw.group(25, {K_STALL}, 100, 2000);
        sw.group(40, {K_SPURIOUS}, 100, 100000);
    }
    node_new("director");
    for (int i = 0; i < nr; ++i) W->rc.push_back(new Receiver{i, node_new(strf("rx%d", i).c_str())});
    for (int i = 0; i < ns; ++i) W->sn.push_back(new Sender{i, node_new(strf("tx%d", i).c_str())});
    for (auto* x : W->rc) start_receiver(x);
    if (r.below(3)) wait_until([] { for (auto* x : W->rc) if (!x->ready) return false; return true; }, 60 * SEC, "the receivers");
    for (auto* x : W->sn) start_sender(x);
    auto all = [] { for (auto* x : W->sn) if (!x->finished) return false; for (auto* x : W->rc) if (!x->finished) return false; return true; };
    int dops = churn ? 1 + (int)r.below(4) : 0;
    for (int i = 0; i < dops && !all(); ++i) {
        Rng q(rs.seed * 1000 + 700 + i);
        static const uint64_t dl[] = {1, 20, 300, 1500, 4000};
        sleep_ns((dl[q.below(5)] + q.below(300)) * MS);
        if (!op_enabled(200 + i)) continue;
        uint64_t down = q.below(4) ? q.below(3000) * MS : 0;
        Receiver* x = W->rc[q.below(W->rc.size())];
        Sender* s = W->sn[q.below(W->sn.size())];
        switch (q.below(4)) {
        case 0: case 1: {
            if (x->finished) break;
            crash_node(x->node, q.coin());
            if (auto* o = x->cur) { o->crashed = true; o->r1 = std::min(o->r1, rxs().size()); o->s1 = std::min(o->s1, syscalls().size()); }
            sleep_ns(down);
            auto* n = new Receiver{x->idx, x->node, x->inc, x->gen + 1, x->next_op};
            W->rc[x->idx] = n;
            start_receiver(n);
            sh->restarts++; mixshape(2);
            break;
        }
        case 2: {
            if (s->finished) break;
            crash_node(s->node, q.coin());
            sleep_ns(down);
            auto* n = new Sender{s->idx, s->node, s->gen + 1, s->next_op};
            W->sn[s->idx] = n;
            start_sender(n);
            sh->restarts++; mixshape(3);
            break;
        }
        default: partition(x->node, s->node, true); sleep_ns(100 * MS + down); partition(x->node, s->node, false); mixshape(4); break;
        }
    }
    wait_until(all, ~0ull, "senders and receivers");
    set_faults(false);
    heal();
    sleep_ns(15 * SEC);
    for (auto* x : W->rc) x->done = false;
    W->end = true;
    wait_until([] { for (auto* x : W->rc) if (!x->done) return false; return true; }, ~0ull, "the receivers");
    W->probe = true;
    wait_until([] { for (auto* x : W->sn) if (!x->done) return false; return true; }, ~0ull, "the senders");
    sleep_ns(5 * SEC);
    for (auto* x : W->rc) x->quit = true;
    wait_until([] { for (auto* x : W->rc) if (x->done) return false; return true; }, ~0ull, "the receivers' end");
    for (int n = 1; n <= nr + ns; ++n) REQUIRE("R02 R01", spin_hits(n) == 0, "spinning", "a receive loop on node %d runs at full speed without receiving anything", n);
    for (auto* o : W->objs) judge(o);
    size_t calls = 0;
    for (auto* o : W->objs) calls += o->calls.size();
    sh->notes[2] += calls; sh->notes[3] += rxs().size();
    sample("%s: %d receivers, %d senders, %lu sends, %zu datagrams received, %zu listener calls, %zu receiving objects", W->sys->ns, nr, ns, sh->notes[1], rxs().size(), calls, W->objs.size());
}
SIM_SCENARIO(data, "data", "C07 D01 D02 D03 R01 R02 L01 L02 L03", 60, run);
} // namespace
