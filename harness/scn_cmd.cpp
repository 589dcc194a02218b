// Controllers and controllees exchanging commands and acknowledgements over UDP, TCP or NATS, under faults.
// The history (system calls, wire traffic, handler calls, results) is judged against the packet model.
#include <bit>
#include "common.h"
#include <functional>
using namespace scn;
using sysif::Addr;
using sysif::System;

namespace {

struct Sent {                                   // one send call
    int ctl, cmd; bool probe; Model m; uint64_t t0, t1 = 0; bool done = false, thrown = false; std::string err;
    std::optional<Model> a[3];                  // validation, execution, status acknowledgement
    size_t w0, w1 = ~0ull, r0, r1 = ~0ull, s0, s1 = ~0ull; uint64_t stall0, stall1 = 0;
    Addr to; bool addressed; uint32_t before = 0;
};
struct Call { int cmd; bool exec; Model m; uint64_t t0, t1 = 0; std::optional<Model> avx, as; bool ended = false; };
struct CtlInc { int idx, node, inc; Addr addr; size_t r0, r1 = ~0ull; bool crashed = false, dirty = false; };
struct TeeInc {
    int idx, node, inc; Addr addr; size_t r0, r1 = ~0ull, w0, w1 = ~0ull, s0, s1 = ~0ull; bool abrupt = false, crashed = false, dirty = false;
    bool ready = false, stop = false, gone = false; std::vector<Call> calls; sysif::ControlleeIf* obj = nullptr; uint64_t down_ns = 0;
};
struct Owner { int idx, node, inc = 0; TeeInc* cur = nullptr; bool want = true, done = false, crashed = false; };
struct Client {
    int idx, node, inc = 0, gen = 0, next_op = 0; sysif::ControllerIf* obj = nullptr; CtlInc* cur = nullptr; int cur_i = -1;
    std::vector<Any> pk; std::vector<Model> md; Addr to; int tee = -1; bool addressed = false; Vals identity;
    bool finished = false, done = false; bool quit = false;
};
struct World {
    System* sys; sysif::Transport tr; uint64_t seed; int nops = 0; int richness = 3;
    std::vector<Client*> cl; std::vector<Owner*> ow;
    std::vector<Sent*> sent; std::vector<CtlInc*> ctls; std::vector<TeeInc*> tees;
    uint16_t next_port = 5000; bool slow = false, dirty_ok = false, rogue = false, probe = false, end = false, churn = false;
    uint32_t rogue_ip = 0;
};
World* W;
constexpr uint16_t PORT = 6000;
const char* NAMES[3] = {"validation", "execution", "status"};

bool wants(const Model& m, int k) { return k == 0 ? m.req_v : k == 1 ? m.req_x : m.req_s; }
int ack_pkt(int cmd, int k) { auto& c = W->sys->cmds[cmd]; return k == 2 ? c.s : c.vx; }
bool executes(const PacketDesc& d, int cmd, const Model& m) {
    auto& c = W->sys->cmds[cmd];
    return (d.req_x != NEVER && c.vx >= 0 && m.req_x) || (d.req_s != NEVER && c.s >= 0 && m.req_s);
}
std::string where(const TeeInc* t) { return strf("%s controllee on node %d (object %d)", W->sys->ns, t->node, t->inc); }

// ---- controllees -------------------------------------------------------------------------------------------------
void fill_ack(const PacketDesc& d, void* p, Model& out, const Model& cmd, bool exec, bool status) {
    Rng q(W->seed * 7919 + cmd.msgid * 31 + exec * 7 + status * 3);
    init_required(d, p, out, q);
    int n = q.below(4) == 0 ? 0 : (int)q.below(W->richness + 2);
    for (int i = 0; i < n; ++i) mutate(d, p, out, q);
    if (q.below(3) == 0) {              // a handler that reports from an object it keeps: the identifiers of an earlier command are still there
        Model stale = out; stale.sid = (uint32_t)q.next() & d.sid_mask; stale.msgid = 1 + (uint32_t)q.below(q.coin() ? 9 : 0xfffffffe);
        for (auto& x : stale.controllee) x = (int64_t)(q.next() & 0xffffffff);
        for (auto& x : stale.controller) x = (int64_t)(q.next() & 0xffffffff);
        d.ops.set_prologue(p, stale, W_SID | W_MSGID | W_CONTROLLEE | W_CONTROLLER);
    }
}
Model finished_ack(Model a, const Model& cmd, const PacketDesc& d, bool exec) {
    if (d.kind == ACKVX) { a.ack_v = !exec; a.ack_x = exec; }
    a.sid = cmd.sid; a.msgid = cmd.msgid; a.controllee = cmd.controllee; a.controller = cmd.controller;
    return a;
}
void well_framed_junk(uint64_t conn_dir, Rng& q);

void on_call(TeeInc* t, int cmd, bool exec, const PacketDesc& d, void* p, void* avx, void* as) {
    REQUIRE("L01 C04", !t->gone, "call-after-stop", "a handler of %s runs after its %s was destroyed", d.name, where(t).c_str());
    size_t at = t->calls.size();
    t->calls.push_back(Call{cmd, exec, snapshot(d, p), now()});
    sh->app_events++;
    Model m = t->calls[at].m;
    if (verbose) tr("handler %s %s", exec ? "execute" : "validate", show(d, m).c_str());
    ev(300, (uint64_t)cmd, exec, m.msgid);
    std::optional<Model> mvx, ms;
    if (avx) { mvx.emplace(); fill_ack(*W->sys->table[W->sys->cmds[cmd].vx], avx, *mvx, m, exec, false); }
    if (as) { ms.emplace(); fill_ack(*W->sys->table[W->sys->cmds[cmd].s], as, *ms, m, exec, true); }
    Rng q(W->seed * 131 + m.msgid * 17 + exec);
    if (faults_on()) {
        static const uint64_t dl[] = {0, 0, 0, 1 * MS, 100 * MS, 1200 * MS, 2500 * MS, 1900 * MS};
        if (uint64_t x = dl[q.below(W->slow ? 8 : 4)]) sleep_ns(x);
        if (W->rogue && W->tr == sysif::TCP && q.below(5) == 0 && t->obj) {
            uint64_t c = tcp_conn(t->node, t->obj->fd());
            if (c != ~0ull) well_framed_junk(c * 2 + 1, q);
        }
    }
    auto& c = t->calls[at];
    c.avx = std::move(mvx); c.as = std::move(ms); c.t1 = now(); c.ended = true;
    REQUIRE("L01", !t->gone, "call-after-stop", "a handler of %s is still running after its %s was destroyed", d.name, where(t).c_str());
}

// destroying an object is bounded and leaves nothing behind on its node
void check_gone(int node, const char* what, uint64_t took, uint64_t bound) {
    REQUIRE("L01 R03", took < bound, "slow-stop", "destroying %s took %.3f s", what, took / 1e9);
    REQUIRE("L01", live_threads(node) == 0, "thread-left", "%s was destroyed but left a thread running on node %d", what, node);
    REQUIRE("L02", open_fds(node) == 0, "leak", "%s was destroyed but left descriptors open: %s", what, describe_fds(node).c_str());
    REQUIRE("L02", bad_closes(node) == 0, "double-close", "%s closed a descriptor it does not own any more (node %d)", what, node);
}
void setup_failed(const char* what, int tries, const char* e, bool faulty) {
    tr("set-up of %s fails: %s", what, e);
    if (!faulty) violation(spec->prop.c_str(), "setup-fails", "%s cannot be set up although nothing fails: %s", what, e);
    sh->notes[0]++;
    sleep_ns((20 + 100 * tries) * MS);
    if (tries > 6) set_faults(false);
}

void owner_main(Owner* o) {
    int gen_tries = 0;
    while (o->want) {
        auto* t = new TeeInc{o->idx, o->node, o->inc++, {}, rxs().size(), ~0ull, wires().size(), ~0ull, syscalls().size()};
        t->addr = W->tr == sysif::NATS ? Addr{"nats://server:4222", 0, strf("ctee%d", o->idx)} : Addr{node_ip(o->node), PORT, ""};
        W->tees.push_back(t);
        o->cur = t;
        bool ok = false, faulty = faults_on();
        try {
            t->obj = W->sys->controllee(t->addr);
            t->obj->handler = [t](int cmd, bool exec, const PacketDesc& d, void* p, void* avx, void* as) { on_call(t, cmd, exec, d, p, avx, as); };
            if (W->tr == sysif::TCP) t->obj->tcp_listen();
            ok = true;
        } catch (const std::exception& e) {
            delete t->obj; t->obj = nullptr; t->gone = true;
            check_gone(o->node, "a controllee whose set-up failed", 0, 1);
            setup_failed("a controllee", gen_tries++, e.what(), faulty);
        }
        if (ok) {
            t->ready = true;
            bool accepted = W->tr != sysif::TCP;
            while (!accepted && !t->stop) {
                if (!wait_until([&] { return t->stop || tcp_backlog(o->node, PORT); }, 3600 * SEC, "a connection or the end")) continue;
                if (!t->stop) accepted = t->obj->tcp_accept();
            }
            bool listening = false;
            while (accepted && !t->stop && !listening) {
                faulty = faults_on();
                try {
                    t->obj->listen();
                    listening = true;
                    if (W->seed % 5 == 0) t->obj->listen();     // twice is the same as once
                } catch (const std::exception& e) {             // no thread could be started
                    setup_failed("the listener of a controllee", gen_tries++, e.what(), faulty);
                    if (W->seed & 1) { t->stop = true; t->abrupt = true; }
                }
            }
            wait_until([&] { return t->stop; }, ~0ull, "the end of the controllee");
            uint64_t t0 = now(), st0 = stalled_ns(o->node);
            delete t->obj;
            t->obj = nullptr; t->gone = true;
            check_gone(o->node, "a controllee", now() - t0, 36 * SEC + (stalled_ns(o->node) - st0));
            ev(310, (uint64_t)o->idx, (uint64_t)t->inc);
        }
        t->r1 = rxs().size(); t->w1 = wires().size(); t->s1 = syscalls().size();
        if (o->want && t->down_ns) sleep_ns(t->down_ns);
    }
    o->done = true;
}

// ---- controllers -------------------------------------------------------------------------------------------------
void drop_controller(Client* c, const char* what) {
    if (!c->obj) return;
    uint64_t t0 = now(), st0 = stalled_ns(c->node);
    delete c->obj;
    c->obj = nullptr;
    check_gone(c->node, what, now() - t0, 10 * SEC + (stalled_ns(c->node) - st0));
    if (c->cur) { c->cur->r1 = rxs().size(); c->cur = nullptr; c->cur_i = -1; }
}
void set_target(Client* c, int tee) {
    c->tee = tee; c->to = W->tr == sysif::NATS ? Addr{"", 0, strf("ctee%d", tee)} : Addr{node_ip(W->ow[tee]->node), PORT, ""};
    c->obj->target(c->to);
    c->addressed = true;
}
void make_controller(Client* c, bool address) {
    drop_controller(c, "a controller");
    auto renew = [&] {
        Owner* o = W->ow[c->idx];
        TeeInc* was = o->cur;
        if (was && !was->stop) { was->abrupt = true; was->stop = true; }
        wait_until([&] { return o->cur && o->cur != was && o->cur->ready; }, 3600 * SEC, "a new controllee");
    };
    if (W->tr == sysif::TCP) {
        Owner* o = W->ow[c->idx];
        if (c->inc == 0) wait_until([&] { return o->cur && o->cur->ready; }, 3600 * SEC, "the controllee");
        else renew();
    }
    for (int tries = 0;; ++tries) {
        auto* k = new CtlInc{c->idx, c->node, c->inc++, {}, rxs().size()};
        k->addr = W->tr == sysif::NATS ? Addr{"nats://server:4222", 0, ""} : Addr{node_ip(c->node), W->next_port++, ""};
        W->ctls.push_back(k);
        c->cur = k; c->cur_i = (int)W->ctls.size() - 1; c->addressed = false; c->identity.clear();
        bool faulty = faults_on();
        try {
            c->obj = W->sys->controller(k->addr);
            if (W->tr == sysif::TCP || address) set_target(c, W->tr == sysif::TCP ? c->idx : c->tee < 0 ? (int)(W->seed % W->ow.size()) : c->tee);
            return;
        } catch (const std::exception& e) {
            drop_controller(c, "a controller whose set-up failed");
            check_gone(c->node, "a controller whose set-up failed", 0, 1);
            k->r1 = rxs().size();
            setup_failed("a controller", tries, e.what(), faulty);
            if (W->tr == sysif::TCP) renew();
        }
    }
}
bool channel_ok(Client* c) { return W->tr != sysif::TCP || (c->obj && tcp_intact(c->node, c->obj->fd()) && !c->cur->dirty); }

void do_send(Client* c, int cmd, bool probe) {
    auto& d = W->sys->cmd(cmd);
    auto* s = new Sent{c->cur_i, cmd, probe, c->md[cmd], now(), 0, false, false, "", {}, wires().size(), ~0ull, rxs().size(), ~0ull, syscalls().size(), ~0ull, stalled_ns(c->node), 0, c->to, c->addressed};
    W->sent.push_back(s);
    if (d.controller != ID_NONE) s->m.controller = c->identity.empty() ? Vals(d.controller == ID_UUID ? 4 : 1, 0) : c->identity;
    if (verbose) tr("send %s to %s%s", show(d, s->m).c_str(), c->to.ip.c_str(), c->to.subject.c_str());
    ev(320, (uint64_t)c->idx, (uint64_t)cmd, probe);
    auto r = c->obj->send(cmd, c->pk[cmd].p);
    s->t1 = now(); s->thrown = r.thrown; s->err = r.err; s->w1 = wires().size(); s->r1 = rxs().size(); s->s1 = syscalls().size(); s->stall1 = stalled_ns(c->node);
    sh->app_events++;
    ev(321, r.thrown, s->t1 - s->t0);
    tr("send returns: %s%s%s%s", r.thrown ? r.err.c_str() : "ok", r.v ? " v" : "", r.x ? " x" : "", r.s ? " s" : "");
    Model after = snapshot(d, c->pk[cmd].p);
    s->m.msgid = after.msgid;
    c->md[cmd] = s->m;
    Any* an[3] = {&r.v, &r.x, &r.s};
    for (int k = 0; k < 3; ++k) if (*an[k]) s->a[k] = snapshot(*an[k]->d, an[k]->p);
    s->done = true;
    std::string df = diff(d, s->m, after);
    REQUIRE("C01", df.empty(), "packet-changed", "after sending, the %s object reads back %s", d.name, df.c_str());
    REQUIRE("C04 C05", !r.thrown || r.err.find("bad variant") == std::string::npos, "bad-exception", "%s", r.err.c_str());
    // every result that depends on this call only
    for (int k = 0; k < 3 && !r.thrown; ++k)
        REQUIRE("C03 R04 C04", (bool)s->a[k] == (bool)wants(s->m, k), "ack-presence", "send of %s requested %s%s%s acknowledgements, %s acknowledgement is %s", d.name, s->m.req_v ? "v" : "",
                s->m.req_x ? "x" : "", s->m.req_s ? "s" : "", NAMES[k], s->a[k] ? "returned" : "missing");
    int nacks = s->m.req_v + s->m.req_x + s->m.req_s, sends = 0;
    for (size_t i = s->s0; i < s->s1; ++i) if (syscalls()[i].node == c->node && syscalls()[i].op == SC_SEND) ++sends;
    uint64_t bound = nacks * 5500 * MS + sends * 3100 * MS + 2 * SEC + (s->stall1 - s->stall0);
    REQUIRE("C05 R03 R02", s->t1 - s->t0 <= bound, "slow-send", "a send of %s with %d requested acknowledgements returned after %.3f s", d.name, nacks, (s->t1 - s->t0) / 1e9);
    if (probe)
        REQUIRE("C05 R01 R02 R03 C06 C04 C08", !r.thrown, "no-recovery", "faults have stopped and the channel is intact, but sending %s to the %s controllee fails: %s", d.name, W->sys->ns, r.err.c_str());
    if (!s->addressed) REQUIRE("R04", r.thrown, "sent-nowhere", "sending %s without a controllee address returned normally", d.name);
    mixshape(0x100 + cmd * 16 + r.thrown * 8 + nacks);
}

Bytes random_packet(Rng& q) {                   // a valid packet of some class, as a stranger would send it
    auto& d = *W->sys->table[q.below(W->sys->table.size())];
    Model m = random_model(d, q, W->richness);
    if (d.kind >= COMMAND) m.msgid = 1 + (uint32_t)q.below(40);
    return encode(d, m);
}
Bytes old_wire(Rng& q) {
    auto& w = wires();
    for (int i = 0; i < 20 && !w.empty(); ++i) { auto& x = w[q.below(w.size())]; if (x.bytes.size() > 8) return x.bytes; }
    return random_packet(q);
}
// an acknowledgement that was sent before, with one identifying part changed
Bytes forged_ack(Rng& q) {
    std::vector<const Wire*> v;
    std::set<int> tn; for (auto* o : W->ow) tn.insert(o->node);
    for (auto& w : wires()) if (tn.count(w.node)) v.push_back(&w);
    if (v.empty()) return random_packet(q);
    const Wire* w = v[v.size() - 1 - q.below(std::min<size_t>(v.size(), 6))];
    for (auto* d : W->sys->table) if (d->kind >= ACKVX) {
        Model m;
        if (classify(*d, w->bytes, m) != VALID) continue;
        switch (q.below(5)) {
        case 0: m.msgid += 1 + (uint32_t)q.below(3); break;
        case 1: if (d->has_sid) m.sid ^= 1u << q.below((uint64_t)std::popcount(d->sid_mask)); else m.msgid++; break;
        case 2: if (!m.controllee.empty()) m.controllee[q.below(m.controllee.size())] ^= 1; else m.msgid--; break;
        case 3: if (!m.controller.empty()) m.controller[q.below(m.controller.size())] ^= 1; else m.msgid += 2; break;
        default: if (d->kind == ACKVX) std::swap(m.ack_v, m.ack_x); else m.msgid++;
        }
        return encode(*d, m);
    }
    return w->bytes;
}
Bytes rogue_bytes(Rng& q) {
    switch (q.below(9)) {
    case 0: { Bytes b(q.below(64)); for (auto& x : b) x = (uint8_t)q.next(); return b; }
    case 1: case 2: return random_packet(q);
    case 3: return damage(random_packet(q), q);
    case 4: return old_wire(q);
    case 5: return damage(old_wire(q), q);
    case 6: { Bytes b(q.below(3) ? 20000 + q.below(45500) : 65507, (uint8_t)q.next()); Bytes h = random_packet(q); std::copy(h.begin(), h.begin() + std::min(h.size(), b.size()), b.begin());
              if (q.coin()) { b[2] = (uint8_t)(b.size() / 4 >> 8); b[3] = (uint8_t)(b.size() / 4); } return b; }
    default: return forged_ack(q);
    }
}
void well_framed_junk(uint64_t cd, Rng& q) {    // TCP: a stream of packets stays a stream of packets
    Bytes b = q.coin() ? forged_ack(q) : q.coin() ? random_packet(q) : damage(random_packet(q), q);
    if (b.size() < 4) b.resize(4);
    while (b.size() % 4) b.push_back(0);
    b[2] = (uint8_t)(b.size() / 4 >> 8); b[3] = (uint8_t)(b.size() / 4);
    inject_tcp(cd, b);
}
void rogue(Client* c, Rng& q) {
    int n = 1 + (int)q.below(4);
    for (int i = 0; i < n; ++i) {
        uint64_t delay = q.below(4) * q.below(500) * MS;
        if (W->tr == sysif::TCP) {
            if (!c->obj) return;
            uint64_t cd = tcp_conn(c->node, c->obj->fd());
            if (cd == ~0ull || !tcp_intact(c->node, c->obj->fd())) return;
            if (W->dirty_ok && q.below(3) == 0) {
                c->cur->dirty = true;
                if (auto* t = W->ow[c->idx]->cur) t->dirty = true;
                inject_tcp(cd * 2 + q.below(2), rogue_bytes(q));
            } else well_framed_junk(cd * 2, q);
            continue;
        }
        Bytes b = rogue_bytes(q);
        bool to_tee = q.coin();
        if (W->tr == sysif::NATS) {
            std::string inbox;
            for (auto& w : wires()) if (w.node == c->node && !w.reply.empty()) inbox = w.reply;
            if (to_tee || inbox.empty()) nats_inject(strf("ctee%d", (int)q.below(W->ow.size())), q.coin() ? "" : q.coin() && !inbox.empty() ? inbox : "rogue.reply", b, delay);
            else nats_inject(inbox, q.coin() ? "" : "x", b, delay);
        } else {
            Owner* o = W->ow[q.below(W->ow.size())];
            uint32_t cip = ip4(node_ip(c->node)), tip = ip4(node_ip(o->node));
            uint16_t cport = c->cur ? c->cur->addr.port : 5000;
            if (to_tee) { bool spoof = q.below(3) == 0; inject_udp(spoof ? cip : W->rogue_ip, spoof ? cport : (uint16_t)(7000 + q.below(5)), node_ip(o->node), PORT, b, delay); }
            else { bool spoof = q.coin(); inject_udp(spoof ? tip : W->rogue_ip, spoof ? PORT : 7000, node_ip(c->node), cport, b, delay); }
        }
    }
}
void randomise_requests(Client* c, int cmd, Rng& q, bool all) {
    auto& d = W->sys->cmd(cmd);
    uint32_t have = d.ops.setters() & (W_REQV | W_REQX | W_REQS);
    Model& m = c->md[cmd];
    if (have & W_REQV) m.req_v = all || q.below(3) > 0;
    if (have & W_REQX) m.req_x = all || q.below(3) > 0;
    if (have & W_REQS) m.req_s = all || q.below(3) > 0;
    d.ops.set_prologue(c->pk[cmd].p, m, have);
}
void fresh_packets(Client* c) {
    c->pk.clear(); c->md.clear();
    Rng q(W->seed * 57 + c->idx + 1000 * c->gen);
    for (size_t i = 0; i < W->sys->cmds.size(); ++i) {
        c->pk.emplace_back(W->sys->cmd((int)i));
        c->md.emplace_back();
        init_required(W->sys->cmd((int)i), c->pk[i].p, c->md[i], q);
    }
}
void client_op(Client* c, int i) {
    Rng q(W->seed * 1000 + i);
    int kind = (int)q.below(100);
    int cmd = (int)q.below(W->sys->cmds.size());
    if (W->tr == sysif::TCP && !channel_ok(c) && q.below(2)) make_controller(c, true);
    bool mut = true;
    if (kind >= 60 && kind < 68) mut = false;
    else if (kind >= 68 && kind < 76) {
        c->identity.clear();
        for (auto* d : W->sys->table) if (d->kind == COMMAND && d->controller != ID_NONE) { c->identity.resize(d->controller == ID_UUID ? 4 : 1); for (auto& v : c->identity) v = (int64_t)(uint32_t)q.next(); break; }
        if (!c->identity.empty()) c->obj->identity(c->identity);
    } else if (kind >= 76 && kind < 82) {
        if (W->tr != sysif::TCP) set_target(c, (int)q.below(W->ow.size()));
    } else if (kind >= 82 && kind < 86) { make_controller(c, q.below(4) > 0); }
    else if (kind >= 86 && kind < 90) { static const uint64_t d[] = {1, 50, 500, 2100, 4000}; sleep_ns(d[q.below(5)] * MS); return; }
    else if (kind >= 90) { if (W->rogue) { rogue(c, q); if (q.coin()) return; } }
    if (mut) {
        int n = (int)q.below(W->richness + 1);
        for (int k = 0; k < n; ++k) mutate(W->sys->cmd(cmd), c->pk[cmd].p, c->md[cmd], q);
        randomise_requests(c, cmd, q, false);
    }
    if (!c->addressed && q.below(3)) set_target(c, (int)q.below(W->ow.size()));
    if (c->cur->dirty && W->tr == sysif::TCP && q.coin()) make_controller(c, true);
    do_send(c, cmd, false);
}
void client_main(Client* c) {
    fresh_packets(c);
    make_controller(c, W->seed % 7 != 0 || c->inc > 0);
    int n = (int)W->cl.size();
    for (; c->next_op < W->nops;) {
        int i = c->next_op++;
        if (i % n != c->idx || !op_enabled((uint32_t)i)) continue;
        client_op(c, i);
    }
    c->finished = true;
    wait_until([] { return W->probe; }, ~0ull, "the end of the faults");
    if (!channel_ok(c)) make_controller(c, true);
    Rng q(W->seed * 3 + c->idx);
    for (size_t t = 0; t < (W->tr == sysif::TCP ? 1 : W->ow.size()); ++t) {
        if (W->tr != sysif::TCP) set_target(c, (int)t);
        for (size_t k = 0; k < W->sys->cmds.size(); ++k) { randomise_requests(c, (int)k, q, true); do_send(c, (int)k, true); }
    }
    if (W->rogue) {                             // nobody else's traffic has changed where commands go
        std::string want = W->tr == sysif::NATS ? c->to.subject : c->to.ip + ":" + std::to_string(c->to.port);
        REQUIRE("C08", c->obj->target() == want, "target-changed", "the controllee endpoint was set to %s and now reads %s", want.c_str(), c->obj->target().c_str());
    }
    drop_controller(c, "a controller");
    c->done = true;
}

// ---- judging the history -----------------------------------------------------------------------------------------
struct Msg {                                    // one message as the receiver's kernel or broker handed it over
    Verdict v = NOT_OURS; int idx = -1; Model m; uint64_t t; size_t rx; bool intact; Bytes b; uint32_t ip = 0; uint16_t port = 0; std::string reply; uint64_t conn = 0;
};
// splits a TCP stream into packets by their size words
struct Framer {
    Bytes buf; bool bad = false;
    void feed(const Rx& r, size_t ri, std::vector<Msg>& out) {
        buf.insert(buf.end(), r.bytes.begin(), r.bytes.end());
        while (buf.size() >= 4 && !bad) {
            size_t n = ((size_t)buf[2] << 8 | buf[3]) * 4;
            if (n == 0) { bad = true; break; }
            if (buf.size() < n) break;
            Msg m{}; m.b.assign(buf.begin(), buf.begin() + n); m.t = r.t; m.rx = ri; m.intact = true; m.conn = r.conn;
            buf.erase(buf.begin(), buf.begin() + n);
            out.push_back(std::move(m));
        }
    }
};
std::vector<Msg> messages(int node, size_t r0, size_t r1, uint16_t port) {
    std::vector<Msg> v;
    std::map<uint64_t, Framer> fr;
    for (size_t i = r0; i < std::min(r1, rxs().size()); ++i) {
        auto& r = rxs()[i];
        if (r.node != node) continue;
        if (W->tr == sysif::TCP) { if (r.proto == 1) fr[r.conn].feed(r, i, v); continue; }
        if (W->tr == sysif::UDP && (r.proto != 0 || r.dst_port != port)) continue;
        if (W->tr == sysif::NATS && r.proto != 2) continue;
        Msg m{}; m.b = r.bytes; m.t = r.t; m.rx = i; m.intact = r.intact; m.ip = r.src_ip; m.port = r.src_port; m.reply = r.reply;
        if (m.b.empty()) continue;
        v.push_back(std::move(m));
    }
    return v;
}

void judge_controllee(TeeInc* t) {
    if (t->dirty) return;
    auto msgs = messages(t->node, t->r0, t->r1, PORT);
    int wild = 0;
    std::vector<std::vector<bool>> need(msgs.size());           // the calls a message requires: false validate, true execute
    std::vector<bool> odd(msgs.size());
    for (size_t i = 0; i < msgs.size(); ++i) {
        auto& m = msgs[i];
        for (size_t c = 0; c < W->sys->cmds.size(); ++c) {
            Model x; auto v = classify(W->sys->cmd((int)c), m.b, x);
            if (v == VALID) {
                if (m.idx >= 0) odd[i] = true;
                m.v = v; m.idx = (int)c; m.m = x;
            } else if (v == ODD) { odd[i] = true; if (m.idx < 0) { m.v = v; m.idx = (int)c; m.m = x; } }
        }
        if (odd[i]) { ++wild; continue; }
        if (m.v != VALID) continue;
        if (m.m.req_v) need[i].push_back(false);
        if (executes(W->sys->cmd(m.idx), m.idx, m.m)) need[i].push_back(true);
    }
    // align the calls with the messages, in order
    size_t K = msgs.size(), N = t->calls.size();
    auto fits = [&](size_t i, size_t k, size_t j) {
        auto& c = t->calls[j];
        return c.cmd == msgs[i].idx && c.exec == need[i][k] && diff(W->sys->cmd(c.cmd), msgs[i].m, c.m).empty();
    };
    std::vector<std::map<size_t, size_t>> reach(K + 1);         // reach[i][j] = predecessor
    reach[0][0] = 0;
    size_t bi = 0, bj = 0; bool end = false; size_t ei = 0;
    for (size_t i = 0; i <= K && !end; ++i) {
        for (auto& [j, _] : reach[i]) {
            if (i >= bi) { bi = i; bj = j; }
            if (j == N && (i == K || t->abrupt || t->crashed)) { end = true; ei = i; break; }
            if (i == K) continue;
            if (odd[i]) { for (size_t x = 0; x <= 4 && j + x <= N; ++x) reach[i + 1].emplace(j + x, j); continue; }
            size_t k = 0;
            while (k < need[i].size() && j + k < N && fits(i, k, j + k)) ++k;
            if (k == need[i].size()) reach[i + 1].emplace(j + k, j);
            else if (j + k == N && t->crashed) { end = true; ei = i; break; }
        }
    }
    if (!end) {
        std::string w = where(t);
        if (verbose) {
            for (size_t i = 0; i < K; ++i) {
                std::string why; Model x;
                for (size_t c = 0; c < W->sys->cmds.size() && msgs[i].v != VALID; ++c) { std::string y; classify(W->sys->cmd((int)c), msgs[i].b, x, &y); why += "; " + y; }
                tr("  message %zu %s%s", i, hex(msgs[i].b).c_str(), why.c_str());
                tr("  message %zu at %.6f conn %lu: %s%s%s #%u, %zu calls", i, msgs[i].t / 1e9, msgs[i].conn, odd[i] ? "odd " : "", msgs[i].v == VALID ? "valid " : "", msgs[i].idx < 0 ? "-" : W->sys->cmd(msgs[i].idx).name, msgs[i].m.msgid, need[i].size());
            }
            for (size_t j = 0; j < N; ++j) tr("  call %zu at %.6f: %s %s #%u", j, t->calls[j].t0 / 1e9, t->calls[j].exec ? "execute" : "validate", W->sys->cmd(t->calls[j].cmd).name, t->calls[j].m.msgid);
        }
        if (bi == K) REQUIRE("C04 D03 R01 R02 C06 C01", false, "extra-call", "%s: handler call %zu (%s of %s) has no delivered command: %s", w.c_str(), bj, t->calls[bj].exec ? "execute" : "validate",
                             W->sys->cmd(t->calls[bj].cmd).name, show(W->sys->cmd(t->calls[bj].cmd), t->calls[bj].m).c_str());
        size_t k = 0;
        while (k < need[bi].size() && bj + k < N && fits(bi, k, bj + k)) ++k;
        auto& m = msgs[bi]; auto& d = W->sys->cmd(m.idx);
        bool ex = need[bi][k];
        if (bj + k < N) {
            auto& c = t->calls[bj + k];
            if (c.cmd == m.idx && c.exec == ex && c.m.msgid == m.m.msgid)
                REQUIRE("C01 C06 D03 C04 R01", false, "call-contents", "%s: %s of %s was called with %s; packet %s", w.c_str(), ex ? "execute" : "validate", d.name, diff(d, m.m, c.m).c_str(), hex(m.b).c_str());
            bool later = false;
            for (size_t i = bi; i < K; ++i) if (!need[i].empty() && msgs[i].idx == c.cmd && msgs[i].m.msgid == c.m.msgid) for (size_t z = 0; z < need[i].size(); ++z) if ((i > bi || z > k) && need[i][z] == c.exec) later = true;
            if (!later) REQUIRE("C04 D03 R01 R02 C06 C01", false, "extra-call", "%s: %s of %s (message %u) was called where %s of %s (message %u) was due", w.c_str(), c.exec ? "execute" : "validate", W->sys->cmd(c.cmd).name,
                                c.m.msgid, ex ? "execute" : "validate", d.name, m.m.msgid);
        }
        REQUIRE("C04 C05 C06 R01 R02 C01 C02", false, "missing-call", "%s: %s of %s was not called for a delivered command (message %u, received at %.6f s): %s", w.c_str(), ex ? "execute" : "validate", d.name, m.m.msgid,
                m.t / 1e9, hex(m.b).c_str());
        return;                                 // not a matter of the property being decided
    }
    // which message each call belongs to
    std::vector<int> of(N, -1);
    { size_t i = ei, j = N; if (ei < K && t->crashed) { size_t b = 0; for (auto& [jj, _] : reach[ei]) b = std::max(b, jj <= N ? jj : 0); (void)b; }
      // walk back over the recorded predecessors; a call of a message cut short by a crash belongs to message ei
      if (!reach[i].count(j)) { size_t b = 0; for (auto& [jj, _] : reach[i]) if (jj < j) b = jj; for (size_t x = b; x < j; ++x) of[x] = (int)i; j = b; }
      while (i > 0) { size_t p = reach[i][j]; for (size_t x = p; x < j; ++x) of[x] = (int)(i - 1); j = p; --i; } }
    if (wild && !any("C02 C04 C07")) return;
    // the acknowledgements on the wire are those of the calls, in order
    struct Ack { Bytes b; const PacketDesc* d; size_t call; bool free; };
    std::vector<Ack> exp;
    for (size_t j = 0; j < N; ++j) {
        auto& c = t->calls[j];
        if (!c.ended) continue;
        bool fr = of[j] >= 0 && odd[of[j]];
        auto add = [&](int pi, const Model& a, bool ex) { auto& d = *W->sys->table[pi]; exp.push_back({encode(d, finished_ack(a, c.m, d, ex)), &d, j, fr}); };
        if (W->tr == sysif::NATS && !fr && of[j] >= 0 && msgs[of[j]].reply.empty()) continue;     // nowhere to send it
        if (!c.exec) { if (c.avx) add(W->sys->cmds[c.cmd].vx, *c.avx, false); }
        else {
            if (c.avx && c.m.req_x) add(W->sys->cmds[c.cmd].vx, *c.avx, true);
            if (c.as && c.m.req_s) add(W->sys->cmds[c.cmd].s, *c.as, true);
        }
    }
    size_t failed = 0;
    for (size_t i = t->s0; i < std::min(t->s1, syscalls().size()); ++i) { auto& s = syscalls()[i]; if (s.node == t->node && s.op == SC_SEND && s.ret < 0) ++failed; }
    std::vector<const Wire*> ws;
    for (size_t i = t->w0; i < std::min(t->w1, wires().size()); ++i) if (wires()[i].node == t->node) ws.push_back(&wires()[i]);
    std::string w = where(t);
    if (W->tr == sysif::TCP) {
        Bytes st; for (auto* x : ws) st.insert(st.end(), x->bytes.begin(), x->bytes.end());
        size_t pos = 0, missing = 0; bool cut = false;
        for (auto& a : exp) {
            if (pos + a.b.size() <= st.size() && std::equal(a.b.begin(), a.b.end(), st.begin() + pos)) { pos += a.b.size(); continue; }
            if (pos < st.size() && st.size() - pos < a.b.size() && std::equal(st.begin() + pos, st.end(), a.b.begin())) { cut = true; pos = st.size(); continue; }   // a failed write
            if (a.free) {           // an ambiguous command: anything goes, but stay in step
                if (pos + 4 <= st.size()) { size_t n = ((size_t)st[pos + 2] << 8 | st[pos + 3]) * 4; pos = std::min(st.size(), pos + std::max<size_t>(n, 4)); }
                continue;
            }
            if (pos < st.size()) {
                Bytes rest(st.begin() + pos, st.end()); Model x; std::string why = decode(*a.d, Bytes(rest.begin(), rest.begin() + std::min(rest.size(), a.b.size())), x);
                if (failed == 0) REQUIRE("C02 C04 C06 C07", false, "ack-on-wire", "%s: acknowledgement of call %zu (%s of message %u) should be %s, the stream continues with %s (%s)", w.c_str(), a.call, a.d->name, t->calls[a.call].m.msgid, hex(a.b).c_str(), hex(rest).c_str(), why.c_str());
            }
            ++missing;
        }
        if (failed == 0 && !t->crashed) REQUIRE("C04 C06", missing == 0, "ack-missing", "%s: %zu of %zu acknowledgements were not sent, although no write failed", w.c_str(), missing, exp.size());
        if (!t->crashed) REQUIRE("C04", missing <= failed + (cut ? exp.size() : 0), "ack-missing", "%s: %zu of %zu acknowledgements were not sent, %zu writes failed", w.c_str(), missing, exp.size(), failed);
        REQUIRE("C04 C06 C02 C07", pos == st.size(), "ack-extra", "%s: the stream holds %zu bytes beyond the acknowledgements of the calls: %s", w.c_str(), st.size() - pos, hex(Bytes(st.begin() + pos, st.end())).c_str());
        return;
    }
    // fewest[i] = the fewest acknowledgements left out when the first i packets are explained by the first e expected ones
    auto right_place = [&](const Wire* x, const Ack& a) {
        if (a.free || of[a.call] < 0) return true;
        auto& m = msgs[of[a.call]];
        return W->tr == sysif::UDP ? x->dst_ip == m.ip && x->dst_port == m.port : x->subject == m.reply;
    };
    size_t missing = 0, stuck = 0;
    auto explain = [&](bool places) {
        const size_t INF = ~0ull >> 1;
        std::vector<size_t> fewest(ws.size() + 1, INF);
        fewest[0] = 0; stuck = 0;
        for (auto& a : exp) {
            std::vector<size_t> nx(ws.size() + 1, INF);
            for (size_t i = 0; i <= ws.size(); ++i) {
                if (fewest[i] == INF) continue;
                nx[i] = std::min(nx[i], fewest[i] + !a.free);
                if (i < ws.size() && (a.free || a.b == ws[i]->bytes) && (!places || right_place(ws[i], a))) { nx[i + 1] = std::min(nx[i + 1], fewest[i]); stuck = std::max(stuck, i + 1); }
            }
            fewest = nx;
        }
        missing = fewest[ws.size()];
        return missing != INF;
    };
    if (!explain(false)) {
        auto* x = ws[stuck];
        std::string nx;
        for (auto& a : exp) {
            auto& c = t->calls[a.call]; Model g;
            std::string why = decode(*a.d, x->bytes, g);
            if (why.empty() && g.msgid == c.m.msgid) nx = strf("; the acknowledgement due for message %u differs: %s", g.msgid, diff(*a.d, finished_ack(c.exec && a.d->kind == ACKS ? *c.as : *c.avx, c.m, *a.d, c.exec), g).c_str());
        }
        REQUIRE("C02 C04 C07", false, "ack-on-wire", "%s sent %s, which no handler call and request accounts for%s", w.c_str(), hex(x->bytes).c_str(), nx.c_str());
        return;
    }
    if (!explain(true)) {
        auto* x = ws[stuck];
        REQUIRE("C04 C03", false, "ack-to-other", "%s: acknowledgement %s was sent to %s%s, where no command it answers came from", w.c_str(), hex(x->bytes).c_str(), strf("%08x:%u ", x->dst_ip, x->dst_port).c_str(), x->subject.c_str());
        return;
    }
    if (!t->crashed) REQUIRE("C04 C05", missing <= failed, "ack-missing", "%s: %zu of %zu due acknowledgements were not sent, %zu send calls failed", w.c_str(), missing, exp.size(), failed);
}

bool ids_match(const PacketDesc& a, const Model& ack, const Model& cmd) {
    if (ack.msgid != cmd.msgid) return false;
    if (a.has_sid && ack.sid != cmd.sid) return false;
    if (a.controllee != ID_NONE && ack.controllee != cmd.controllee) return false;
    if (a.controller != ID_NONE && ack.controller != cmd.controller) return false;
    return true;
}
bool kind_match(const PacketDesc& a, const Model& m, int k) { return a.kind == ACKS ? k == 2 : k == 0 ? m.ack_v && !m.ack_x : k == 1 ? m.ack_x && !m.ack_v : false; }

void judge_controller(int ci) {
    auto* k = W->ctls[ci];
    auto msgs = messages(k->node, k->r0, k->r1, k->addr.port);
    std::set<uint32_t> ids;
    for (auto* s : W->sent) {
        if (s->ctl != ci) continue;
        auto& d = W->sys->cmd(s->cmd);
        // what was put on the channel
        std::vector<const Wire*> ws; Bytes st;
        size_t w1 = s->done ? s->w1 : wires().size();
        for (size_t i = s->w0; i < std::min(w1, wires().size()); ++i) if (wires()[i].node == k->node && (s->done || wires()[i].t >= s->t0)) { ws.push_back(&wires()[i]); st.insert(st.end(), wires()[i].bytes.begin(), wires()[i].bytes.end()); }
        if (!s->done) continue;                 // the node crashed within the call
        Bytes want = encode(d, s->m);
        size_t copies = W->tr == sysif::TCP ? (st == want) : ws.size();
        if (!s->thrown) {
            REQUIRE("R04 C01 C06", copies == 1 && (W->tr != sysif::TCP || !st.empty()), "not-on-channel", "a send of %s returned normally, but %zu complete copies (%zu bytes of %zu) were put on the channel", d.name, copies, st.size(), want.size());
        } else if (W->tr == sysif::TCP) {
            REQUIRE("R04 C06 C07 C01", st.size() <= want.size() && std::equal(st.begin(), st.end(), want.begin()), "stream-corrupted", "a failed send of %s wrote %s instead of (a part of) %s", d.name, hex(st).c_str(), hex(want).c_str());
        } else REQUIRE("R04 C04", copies <= 1, "sent-twice", "one send of %s put %zu packets on the channel", d.name, copies);
        for (auto* x : ws) {
            if (W->tr != sysif::TCP && x->bytes != want) {
                Model g; std::string why = decode(d, x->bytes, g);
                if (!why.empty()) REQUIRE("C07 C01", false, "malformed", "the transmitted %s is not well formed: %s; contents %s; bytes %s", d.name, why.c_str(), show(d, s->m).c_str(), hex(x->bytes).c_str());
                std::string df = diff(d, s->m, g);
                REQUIRE("C07 C01 C08", false, "wire-contents", "the transmitted %s has %s; bytes %s", d.name, df.empty() ? "other reserved bits" : df.c_str(), hex(x->bytes).c_str());
            }
            if (W->tr == sysif::NATS) REQUIRE("C08", x->subject == s->to.subject, "wrong-target", "a command for %s was published on %s", s->to.subject.c_str(), x->subject.c_str());
            else REQUIRE("C08", x->dst_ip == ip4(s->to.ip) && x->dst_port == s->to.port, "wrong-target", "a command for %s went to node address %08x port %u", s->to.ip.c_str(), x->dst_ip, x->dst_port);
        }
        if (W->tr == sysif::TCP && !s->thrown && st != want) REQUIRE("C07 C01 R04", false, "wire-contents", "the transmitted %s is %s instead of %s", d.name, hex(st).c_str(), hex(want).c_str());
        REQUIRE("C08", ids.insert(s->m.msgid).second, "message-id-reused", "message id %u was used for two commands of one controller", s->m.msgid);
        // what came back
        if (k->dirty) continue;
        std::vector<const Msg*> in;
        for (auto& m : msgs) if (m.rx >= s->r0 && m.rx < s->r1) in.push_back(&m);
        int found = 0, wanted = 0; uint64_t last = s->t0, gap = 0;
        std::vector<std::pair<uint64_t, int>> arr;
        for (int a = 0; a < 3; ++a) if (wants(s->m, a)) {
            ++wanted;
            auto& ad = *W->sys->table[ack_pkt(s->cmd, a)];
            for (auto* m : in) { Model g; if (classify(ad, m->b, g) == VALID && ids_match(ad, g, s->m) && kind_match(ad, g, a)) { ++found; arr.push_back({m->t, a}); break; } }
        }
        std::sort(arr.begin(), arr.end());
        for (auto& x : arr) { gap = std::max(gap, x.first - std::min(last, x.first)); last = x.first; }
        for (int a = 0; a < 3; ++a) if (s->a[a]) {
            auto& ad = *W->sys->table[ack_pkt(s->cmd, a)]; auto& g = *s->a[a];
            REQUIRE("C03 C02", ids_match(ad, g, s->m), "foreign-ack", "the %s acknowledgement returned for %s (message %u) is %s", NAMES[a], d.name, s->m.msgid, show(ad, g).c_str());
            REQUIRE("C03 C02", kind_match(ad, g, a), "wrong-kind", "returned as the %s acknowledgement of %s: ack_v=%d ack_x=%d", NAMES[a], d.name, g.ack_v, g.ack_x);
            bool ok = false, odd = false; std::string best = "nothing received";
            for (auto& mm : msgs) {             // also those that arrived before the call and were still waiting
                auto* m = &mm;
                if (m->rx >= s->r1) break;
                Model x; auto v = classify(ad, m->b, x);
                if (v == ODD) { if (x.msgid == g.msgid) odd = true; continue; }
                if (v != VALID || !kind_match(ad, x, a)) continue;
                std::string df = diff(ad, x, g);
                if (df.empty()) { ok = true; break; }
                best = df + "; packet " + hex(m->b);
            }
            if (!ok && !odd) REQUIRE("C02 C03 D03 C06 R02", false, "ack-contents", "the %s acknowledgement returned for %s (message %u) is none of the packets received: %s", NAMES[a], d.name, s->m.msgid, best.c_str());
        }
        if (s->thrown && found == wanted && wanted > 0) {
            bool excuse = s->stall1 != s->stall0 && W->tr != sysif::UDP;
            for (size_t i = s->s0; i < s->s1; ++i) { auto& y = syscalls()[i]; if (y.node == k->node && y.ret < 0 && !((y.err == EAGAIN || y.err == EINTR) && y.op == SC_RECV)) excuse = true; }
            if (gap > 1900 * MS) excuse = true;
            if (!excuse) REQUIRE("C02 C03 C05 C06 R02", false, "ack-ignored", "all %d acknowledgements of %s (message %u) were received within the call, but it fails: %s", wanted, d.name, s->m.msgid, s->err.c_str());
        }
        if (s->thrown && wanted == 0) {
            bool failed = false;
            for (size_t i = s->s0; i < s->s1; ++i) { auto& y = syscalls()[i]; if (y.node == k->node && y.op == SC_SEND && y.ret < 0) failed = true; }
            REQUIRE("C05 R04", failed || !s->addressed, "fails-for-nothing", "%s requests no acknowledgement and was sent, but the call fails: %s", d.name, s->err.c_str());
        }
    }
}

void start_client(Client* c) { spawn(c->node, strf("client%d.%d", c->idx, c->gen).c_str(), [c] { client_main(c); }); }

void run(const RunSpec& rs) {
    Rng r(rs.seed ^ 0xC3Dull);
    W = new World{};
    std::vector<System*> ss = sysif::systems();
    W->sys = ss[r.below(ss.size())];
    if (deciding("C06") || (deciding("R03") && r.below(3))) for (auto* s : ss) if (s->tr == sysif::TCP) W->sys = s;
    W->tr = W->sys->tr; W->seed = rs.seed;
    int nc = 1 + (int)(r.below(3) == 0), nt = W->tr == sysif::TCP ? nc : 1 + (int)(r.below(3) == 0);
    W->nops = 4 + (int)r.below(r.below(4) ? 16 : 60);
    W->richness = (int)r.below(7);
    W->rogue = r.below(deciding("R01") || deciding("D03") || deciding("C03") || deciding("C08") ? 5 : 2) > 0;
    W->dirty_ok = deciding("R01");
    W->slow = r.below(3) == 0;
    W->churn = r.below(3) == 0;
    W->rogue_ip = ip4("10.0.0.77");

    rates = Rates{};
    Swarm sw(r);
    sw.sched();
    if (r.below(8)) {                           // an eighth of the runs is left alone
        sw.group(60, {K_UDP_LOSS, K_UDP_DUP, K_UDP_DELAY, K_NATS_LOSS, K_NATS_DELAY, K_NATS_SLOW_CB});
        sw.group(deciding("D03") || deciding("R01") ? 70 : 35, {K_UDP_CORRUPT, K_UDP_TRUNC, K_UDP_EXTEND});
        sw.group(deciding("C06") ? 95 : 70, {K_TCP_DELAY, K_TCP_SEG, K_TCP_SHORT_WRITE, K_TCP_SHORT_READ}, 70, 1000000);
        sw.group(deciding("R02") || deciding("R04") ? 85 : 40, {K_ERR_RECV, K_ERR_SEND, K_NATS_ERR}, 60, 100000);
        sw.group(25, {K_ERR_SOCKET, K_ERR_BIND, K_ERR_CONNECT, K_ERR_ACCEPT, K_ERR_LISTEN, K_ERR_CLOSE, K_THREAD_FAIL}, 50, 200000);
        sw.group(deciding("R03") ? 60 : 15, {K_TCP_RST}, 100, 20000);
        sw.group(25, {K_STALL}, 100, 2000);
        sw.group(40, {K_SPURIOUS}, 100, 100000);
        static const size_t sb[] = {200000, 4000, 300, 64};
        if (W->tr == sysif::TCP) set_tcp_sndbuf(sb[r.below(4)]);
    }
    node_new("director");
    for (int i = 0; i < nc; ++i) { auto* c = new Client{i, node_new(strf("ctl%d", i).c_str())}; W->cl.push_back(c); }
    for (int i = 0; i < nt; ++i) { auto* o = new Owner{i, node_new(strf("tee%d", i).c_str())}; W->ow.push_back(o); }
    for (auto* o : W->ow) spawn(o->node, strf("owner%d", o->idx).c_str(), [o] { owner_main(o); });
    for (auto* c : W->cl) start_client(c);
    // the director: crashes, restarts, partitions
    int dops = W->churn ? 1 + (int)r.below(6) : 0;
    auto all_finished = [] { for (auto* c : W->cl) if (!c->finished) return false; return true; };
    for (int i = 0; i < dops && !all_finished(); ++i) {
        Rng q(rs.seed * 1000 + 500 + i);
        static const uint64_t dl[] = {1, 20, 300, 1500, 4000};
        sleep_ns((dl[q.below(5)] + q.below(300)) * MS);
        if (!op_enabled(200 + i)) continue;
        Owner* o = W->ow[q.below(W->ow.size())];
        Client* c = W->cl[q.below(W->cl.size())];
        uint64_t down = q.below(4) ? q.below(3000) * MS : 0;
        switch (q.below(7)) {
        case 0: if (o->cur && !o->cur->stop) { o->cur->down_ns = down; o->cur->abrupt = true; o->cur->stop = true; sh->restarts++; mixshape(1); } break;
        case 1: case 2: {
            if (o->done) break;
            crash_node(o->node, q.coin());
            if (auto* t = o->cur) {
                if (!t->gone) { t->crashed = t->abrupt = true; t->stop = true; t->ready = false; }
                t->r1 = std::min(t->r1, rxs().size()); t->w1 = std::min(t->w1, wires().size()); t->s1 = std::min(t->s1, syscalls().size());
            }
            sleep_ns(down);
            auto* n = new Owner(*o);            // the frozen thread keeps the old record
            n->cur = nullptr;
            W->ow[o->idx] = n;
            spawn(n->node, strf("owner%d'", n->idx).c_str(), [n] { owner_main(n); });
            sh->restarts++; mixshape(2);
            break;
        }
        case 3: {
            if (c->finished) break;
            crash_node(c->node, q.coin());
            if (c->cur) { c->cur->crashed = true; c->cur->r1 = std::min(c->cur->r1, rxs().size()); }
            for (auto* s : W->sent) if (!s->done && s->ctl == c->cur_i) { s->w1 = wires().size(); }
            sleep_ns(down);
            auto* n = new Client{c->idx, c->node, c->inc, c->gen + 1, c->next_op};
            n->tee = c->tee;
            W->cl[c->idx] = n;
            start_client(n);
            sh->restarts++; mixshape(3);
            break;
        }
        case 4: partition(c->node, o->node, true); sleep_ns(100 * MS + down); partition(c->node, o->node, false); mixshape(4); break;
        case 5: if (W->tr == sysif::NATS) { int n = q.coin() ? c->node : o->node; nats_disconnect(n); sleep_ns(100 * MS + down); nats_reconnect(n); mixshape(5); } break;
        default: realtime_jump((int64_t)(q.below(7200) - 3600) * (int64_t)SEC); mixshape(6);
        }
    }
    wait_until(all_finished, ~0ull, "the clients");
    set_faults(false);
    heal();
    for (auto* c : W->cl) nats_reconnect(c->node);
    for (auto* o : W->ow) nats_reconnect(o->node);
    sleep_ns(20 * SEC);                         // delayed messages and running handlers
    for (auto* o : W->ow) wait_until([o] { return o->cur && o->cur->ready && !o->cur->stop; }, 3600 * SEC, "the controllees");
    sleep_ns(1 * SEC);
    W->probe = true;
    wait_until([] { for (auto* c : W->cl) if (!c->done) return false; return true; }, ~0ull, "the probes");
    sleep_ns(5 * SEC);
    for (auto* o : W->ow) { o->want = false; if (o->cur) o->cur->stop = true; }
    wait_until([] { for (auto* o : W->ow) if (!o->done) return false; return true; }, ~0ull, "the controllees' end");
    bool crashed = sh->crashes > 0;
    if (!crashed) {
        auto ns = nats_stats();
        REQUIRE("L02", ns.live_conn == 0 && ns.live_sub == 0 && ns.live_msg == 0, "nats-leak", "%lu connections, %lu subscriptions and %lu messages are left", ns.live_conn, ns.live_sub, ns.live_msg);
    }
    for (size_t n = 1; n <= W->cl.size() + W->ow.size(); ++n) REQUIRE("R03 R02", spin_hits((int)n) == 0, "spinning", "a receive loop on node %zu runs at full speed without receiving anything", n);
    for (auto* t : W->tees) judge_controllee(t);
    for (size_t i = 0; i < W->ctls.size(); ++i) judge_controller((int)i);
    size_t ok = 0, calls = 0;
    for (auto* s : W->sent) ok += s->done && !s->thrown;
    for (auto* t : W->tees) calls += t->calls.size();
    sh->notes[1] += W->sent.size(); sh->notes[2] += ok; sh->notes[3] += calls; sh->notes[4] += W->tees.size() - W->ow.size(); sh->notes[5] += W->tr == sysif::UDP; sh->notes[6] += W->tr == sysif::TCP; sh->notes[7] += W->tr == sysif::NATS;
    sample("%s: %d controllers, %d controllees, %zu sends (%zu ok), %zu handler calls, %d director actions, %zu controllee objects", W->sys->ns, nc, nt, W->sent.size(), ok, calls, dops, W->tees.size());
}
SIM_SCENARIO(cmd, "cmd", "C01 C02 C03 C04 C05 C06 C07 C08 D03 R01 R02 R03 R04 L01 L02 L03", 60, run);
} // namespace
