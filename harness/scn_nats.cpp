// The NATS client on its own: subscriptions of every kind, inboxes, concurrent getters, replaced connections and destruction,
// over a faulty broker. What the getters return is judged against what the broker handed to the client.
#include "common.h"
#include <iostream>
#include <span>
#include <vrtgen/nats.hpp>
using namespace scn;

namespace {
using vrtgen::nats::client;
struct Got { uint64_t t0, t1; int64_t timeout; bool null; Bytes b; std::string reply; int thr; };
struct Cli {                                    // one client object; every object lives on a node of its own
    int idx, node; std::unique_ptr<client> c; bool stop = false, crowd = false; uint64_t t_destroy = ~0ull;
    std::vector<int> getters; int in_call[16] = {}; std::vector<Got> got[2];        // 0 messages, 1 inbox
    std::set<uint64_t> subs[2]; std::string subj, inbox; bool connected = false, finished = false; uint64_t t_drain = 0;   // everything handed over before is to be returned
};
struct World { bool repeat, patient, flood; uint64_t seed; std::vector<Cli*> all; std::vector<std::string> inboxes; bool end = false; uint32_t seq = 0; int nops; };
World* W;
const char* KIND[] = {"message", "inbox"};
std::string where(const Cli* c) { return strf("client %d on node %d", c->idx, c->node); }
const char* subject_name(uint64_t k) { static const char* n[] = {"alpha", "beta", "alpha.one", "alpha.two", "gamma"}; return n[k % 5]; }
const char* pattern(uint64_t k) { static const char* n[] = {"alpha", "beta", "alpha.*", "alpha.>", ">", "gamma", "alpha", "alpha.two"}; return n[k % 8]; }

Bytes payload(Rng& q) {
    static const int sizes[] = {0, 4, 5, 8, 60, 700, 3000, 1, 2};
    size_t n = sizes[q.below(9)];
    if (!W->flood && q.below(40) == 0) n = 70000;
    Bytes b(n);
    uint32_t id = W->repeat && q.coin() ? W->seq : ++W->seq;             // the same bytes may come again
    if (W->repeat) b.resize(q.below(4) ? 8 : 60);
    for (size_t i = 0; i < b.size(); ++i) b[i] = i < 4 ? (uint8_t)(id >> (8 * i)) : (uint8_t)(id * 31 + i);
    return b;
}
void one_get(Cli* c, int kind, int64_t t, int slot) {
    Got g{}; g.timeout = t; g.thr = self(); g.t0 = now();
    if (slot >= 0) c->in_call[slot] = 1;
    auto m = kind ? (t < 0 ? c->c->next_inbox_msg() : c->c->next_inbox_msg(std::chrono::milliseconds(t)))
                  : (t < 0 ? c->c->next_msg() : c->c->next_msg(std::chrono::milliseconds(t)));
    g.t1 = now(); g.null = m == nullptr;
    if (slot >= 0) c->in_call[slot] = 0;
    if (m) {
        auto s = m->data(); g.b.assign(s.begin(), s.end()); g.reply = m->reply_subject();
        REQUIRE("N01", !g.b.empty(), "empty", "%s: the %s getter returns an empty message", where(c).c_str(), KIND[kind]);
        sh->app_events++;
    }
    c->got[kind].push_back(g);
    ev(500 + kind, g.b.size(), g.t1 - g.t0);
    if (verbose) tr("%s getter(%ld ms) returns %zu bytes after %.6f s", KIND[kind], (long)t, g.b.size(), (g.t1 - g.t0) / 1e9);
    sh->notes[m ? 2 : 3]++;
    mixshape(0x60 + kind * 2 + g.null);
}
void getter(Cli* c, int slot, int kind) {
    Rng q(W->seed * 7919 + c->idx * 101 + slot);
    for (int n = 0; n < 80 && !c->stop; ++n) {
        static const int64_t to[] = {0, 1, 20, 300, 2000, -1, -1, 100, 5000, 15000, 61000, 3600000};
        int64_t t = to[q.below(W->patient ? 12 : 9)];
        one_get(c, kind, t, slot);
        if (t == 0 || q.below(3) == 0) { uint64_t d = q.below(400) * MS; wait_until([c] { return c->stop; }, d, "getter pause"); }
    }
}
// the subscriptions this client made since there were 'before' of them
void note_subs(Cli* c, int kind, size_t before) { auto v = nats_subs(); for (size_t i = before; i < v.size(); ++i) if (v[i].node == c->node) c->subs[kind].insert(v[i].id); }

void check_state(Cli* c, const char* after) {
    std::string s = c->c->subject(), i = c->c->inbox();
    auto live = [&](const std::string& sub, int kind) { int n = 0; for (auto& x : nats_subs()) if (x.node == c->node && !x.destroyed && c->subs[kind].count(x.id)) { ++n; if (x.subject != sub) return -1; } return n; };
    REQUIRE("N01", s == c->subj, "subject", "%s: after %s subject() is '%s', expected '%s'", where(c).c_str(), after, s.c_str(), c->subj.c_str());
    REQUIRE("N01", i == c->inbox, "inbox", "%s: after %s inbox() is '%s', expected '%s'", where(c).c_str(), after, i.c_str(), c->inbox.c_str());
    REQUIRE("N01 L02", live(c->subj, 0) == (c->subj.empty() ? 0 : 1), "subscriptions", "%s: after %s the broker has %d live subscriptions for it, subject() is '%s'", where(c).c_str(), after, live(c->subj, 0), c->subj.c_str());
    REQUIRE("N01 L02", live(c->inbox, 1) == (c->inbox.empty() ? 0 : 1), "subscriptions", "%s: after %s the broker has %d live inbox subscriptions for it, inbox() is '%s'", where(c).c_str(), after, live(c->inbox, 1), c->inbox.c_str());
    REQUIRE("N01", c->c->is_connected() == (c->connected && nats_conn_up(c->node)), "connected", "%s: after %s is_connected() is wrong", where(c).c_str(), after);
}
bool do_connect(Cli* c, Rng& q) {
    bool bad = q.below(8) == 0;
    std::string url = bad ? "nats://bad:4222" : q.coin() ? "nats://server:4222" : "nats://" + std::string(q.below(2) ? 20 : 228, 's') + ":4222";
    uint64_t t0 = now(), st = stalled_ns(c->node);
    auto before = nats_stats().live_conn;
    (void)before;
    auto res = c->c->connect(url);
    REQUIRE("N02 L01", now() - t0 < 7 * SEC + stalled_ns(c->node) - st, "slow-connect", "%s: connect() took %.3f s", where(c).c_str(), (now() - t0) / 1e9);
    REQUIRE("N01", !bad || res != NATS_OK, "connect", "%s: connect() to a server that does not exist reports success", where(c).c_str());
    if (res == NATS_OK) { c->connected = true; c->subj.clear(); c->inbox.clear(); if (nats_conn_up(c->node)) {
        std::string u = c->c->url();
        REQUIRE("N01", u == url || (u.empty() && !nats_conn_up(c->node)), "url", "%s: connected to %s, url() is '%s'", where(c).c_str(), url.c_str(), u.c_str());
    } }
    check_state(c, res == NATS_OK ? "connect" : "a failed connect");
    return res == NATS_OK;
}
void do_subscribe(Cli* c, Rng& q) {
    size_t n0 = nats_subs().size();
    std::string p = q.below(12) == 0 ? "" : q.below(16) == 0 ? "a b" : pattern(q.next());
    bool sync = q.coin(), queue = q.below(4) == 0; std::string grp = q.below(6) == 0 ? "" : "group";
    uint64_t t0 = now(), st = stalled_ns(c->node);
    auto res = queue ? (!sync && q.coin() ? c->c->queue_subscribe(p, grp) : c->c->queue_subscribe(p, grp, sync)) : !sync && q.coin() ? c->c->subscribe(p) : c->c->subscribe(p, sync);
    REQUIRE("N02 L01", now() - t0 < 5 * SEC + stalled_ns(c->node) - st, "slow-subscribe", "%s: subscribe() took %.3f s", where(c).c_str(), (now() - t0) / 1e9);
    note_subs(c, 0, n0);
    bool valid = !p.empty() && !(queue && grp.empty());
    if (p.empty()) REQUIRE("N01", res == NATS_INVALID_SUBJECT, "status", "%s: subscribing without a subject returns %d", where(c).c_str(), (int)res);
    else if (!valid) REQUIRE("N01", res == NATS_INVALID_QUEUE_NAME, "status", "%s: subscribing without a queue name returns %d", where(c).c_str(), (int)res);
    else c->subj = res == NATS_OK ? p : "";
    if (!c->connected || p == "a b") REQUIRE("N01", res != NATS_OK, "status", "%s: subscribing reports success although it can not be", where(c).c_str());
    if (res == NATS_OK && valid) {
        auto v = nats_subs(); const NatsSub* s = nullptr; for (auto& x : v) if (x.id >= n0 && x.node == c->node) s = &x;
        REQUIRE("N01", s && s->subject == p && s->queue == (queue ? grp : "") && s->async == !sync, "subscription", "%s: the subscription made is not the one asked for (%s, %s)", where(c).c_str(), p.c_str(), sync ? "sync" : "async");
    }
    check_state(c, res == NATS_OK ? "subscribe" : "a failed subscribe");
    mixshape(0x70 + sync * 2 + queue + 8 * (res == NATS_OK));
}
void do_inbox(Cli* c) {
    size_t n0 = nats_subs().size();
    auto res = c->c->new_inbox();
    note_subs(c, 1, n0);
    c->inbox = res == NATS_OK ? c->c->inbox() : "";
    if (res == NATS_OK) {
        REQUIRE("N01", !c->inbox.empty(), "inbox", "%s: there is no inbox after new_inbox() succeeded", where(c).c_str());
        for (auto& x : W->inboxes) REQUIRE("N01", x != c->inbox, "inbox-unique", "%s: the inbox '%s' was used before", where(c).c_str(), c->inbox.c_str());
        W->inboxes.push_back(c->inbox);
    }
    check_state(c, res == NATS_OK ? "new_inbox" : "a failed new_inbox");
}
void do_publish(Cli* c, Rng& q) {
    std::string to = q.coin() || W->inboxes.empty() ? subject_name(q.next()) : W->inboxes[q.below(W->inboxes.size())], rep = q.coin() ? c->inbox : "";
    Bytes b = payload(q);
    size_t w0 = wires().size();
    auto res = rep.empty() ? c->c->publish(to, sp(b)) : c->c->publish(to, sp(b), rep);
    const Wire* w = nullptr; int n = 0;
    for (size_t i = w0; i < wires().size(); ++i) if (wires()[i].thr == self()) { w = &wires()[i]; ++n; }
    REQUIRE("N01", (res == NATS_OK) == (n > 0), "publish", "%s: publish returns %d, %d messages left", where(c).c_str(), (int)res, n);
    if (w) REQUIRE("N01", n == 1 && w->subject == to && w->reply == rep && w->bytes == b, "publish", "%s: the published message differs (to '%s' reply '%s')", where(c).c_str(), w->subject.c_str(), w->reply.c_str());
    sh->notes[1]++;
}
void destroy(Cli* c) {
    c->stop = true;
    // a getter that waits is released; a call that has only begun must not meet the destructor
    wait_until([c] {
        for (size_t i = 0; i < c->getters.size(); ++i) if (c->in_call[i]) { std::string w = waiting_in(c->getters[i]); if (w.empty() || w == "mutex") return false; }
        return true; }, ~0ull, "getters");
    uint64_t t0 = now(), st = stalled_ns(c->node); c->t_destroy = t0;
    c->c.reset();
    uint64_t took = now() - t0, sl = stalled_ns(c->node) - st;
    REQUIRE("N02 L01", took < 4 * SEC + sl, "slow-stop", "%s: the destructor took %.3f s", where(c).c_str(), took / 1e9);
    bool out = wait_until([c] { for (int g : c->getters) if (!finished(g)) return false; return true; }, 3 * SEC + 4 * sl, "getters");
    REQUIRE("N02", out || stalled_ns(c->node) - st > sl, "getter-left", "%s: a getter is still waiting after the client was destroyed", where(c).c_str());
    for (int g : c->getters) join(g);
    REQUIRE("L01 N02", live_threads(c->node) == 0, "thread-left", "%s: a thread is left after the client was destroyed", where(c).c_str());
    int subs = 0; for (auto& x : nats_subs()) if (x.node == c->node && !x.destroyed) ++subs;
    REQUIRE("L02", subs == 0, "leak", "%s: %d subscriptions are left after the client was destroyed", where(c).c_str(), subs);
    c->finished = true;
}
void owner(Cli* c) {
    Rng r(W->seed * 31 + c->idx);
    if (r.below(3) == 0) {
        c->c = std::make_unique<client>("nats://server:4222");      // the constructor reports nothing: ask
        c->connected = c->c->is_connected() || (nats_stats().live_conn && nats_conn_made(c->node));
    } else c->c = std::make_unique<client>();
    int ng = (int)r.below(c->crowd ? 7 : 4);
    for (int i = 0; i < ng; ++i) { int kind = (int)r.below(2); c->getters.push_back(spawn(c->node, "getter", [c, i, kind] { getter(c, i, kind); })); }
    for (int i = 0; i < W->nops; ++i) {
        if (!op_enabled((uint32_t)(c->idx * 60 + i) % 256)) continue;
        Rng q(W->seed * 977 + c->idx * 131071 + i);
        if (!c->connected && q.below(4)) { do_connect(c, q); continue; }
        if (c->connected && c->subj.empty() && q.below(3)) { do_subscribe(c, q); continue; }
        switch (q.below(14)) {
        case 0: do_connect(c, q); break;
        case 1: do_subscribe(c, q); break;
        case 2: case 3: do_inbox(c); break;
        case 4: case 5: case 6: do_publish(c, q); break;
        case 7: one_get(c, (int)q.below(2), (int64_t)q.below(3) * 100, -1); break;
        case 8: check_state(c, "some time"); break;
        default: if (W->patient && q.coin()) wait_until([c] { return c->stop; }, q.below(90) * SEC, "owner"); else sleep_ns(q.below(600) * MS);
        }
    }
    Rng q(W->seed * 53 + c->idx);
    if (q.below(3)) {                           // quiet down: everything delivered has to come out
        set_faults(false);
        nats_reconnect(c->node);
        sleep_ns(3 * SEC);
        auto st = stalled_ns(c->node);
        sleep_ns(3 * SEC + st);
        auto v = nats_subs();
        for (auto& d : nats_deliveries()) if (v[d.sub].node == c->node && !v[d.sub].closed && d.t + 2 * SEC < now())
            REQUIRE("N01", d.handed, "not-taken", "%s: a message of %zu bytes that was delivered at %.6f s is never taken from the subscription", where(c).c_str(), d.bytes.size(), d.t / 1e9);
        c->stop = true;
        wait_until([c] { for (size_t i = 0; i < c->getters.size(); ++i) if (!finished(c->getters[i]) && !(c->in_call[i] && std::string(waiting_in(c->getters[i])) == "condition")) return false; return true; }, 10 * SEC, "getters");
        c->t_drain = now();
        for (int kind = 0; kind < 2; ++kind)
            for (;;) { one_get(c, kind, 0, -1); if (c->got[kind].back().null) break; }
    }
    destroy(c);
}
void judge(Cli* c) {
    // a run with many messages may keep one thread from running while all the others do their work
    uint64_t events = rxs().size(); for (auto& g : c->got) events += g.size();
    uint64_t st = stalled_ns(c->node), slack = 50 * MS + st + 12 * (uint64_t)step_ns() * events;
    auto v = nats_subs();
    for (int kind = 0; kind < 2; ++kind) {
        struct H { const Rx* x; int by = -1; };
        std::vector<H> h;
        for (auto& x : rxs()) if (x.node == c->node && x.proto == 2 && c->subs[kind].count(x.conn) && !x.bytes.empty()) h.push_back({&x});
        auto& got = c->got[kind];
        std::map<int, size_t> last;
        std::vector<size_t> idx(got.size(), ~size_t(0));
        for (size_t i = 0; i < got.size(); ++i) {
            if (got[i].null) continue;
            size_t k = 0; bool twice = false;
            for (; k < h.size(); ++k) if (h[k].by < 0 && h[k].x->bytes == got[i].b && h[k].x->reply == got[i].reply) break;
            if (k == h.size()) for (k = 0; k < h.size(); ++k) if (h[k].x->bytes == got[i].b) { if (h[k].by < 0) break; twice = true; }
            if (k == h.size()) {
                bool other = false; for (auto& x : rxs()) if (x.node == c->node && x.proto == 2 && c->subs[1 - kind].count(x.conn) && x.bytes == got[i].b) other = true;
                REQUIRE("N01", false, twice ? "twice" : other ? "wrong-queue" : "altered", "%s: the %s getter returns a message of %zu bytes that %s: %s", where(c).c_str(), KIND[kind], got[i].b.size(),
                        twice ? "was returned before" : other ? "belongs to the other getter" : "was not delivered", hex(got[i].b, 24).c_str());
                return;
            }
            REQUIRE("N01", h[k].x->reply == got[i].reply, "reply", "%s: the %s getter returns a message with the reply subject '%s', it had '%s'", where(c).c_str(), KIND[kind], got[i].reply.c_str(), h[k].x->reply.c_str());
            REQUIRE("N01", got[i].t1 >= h[k].x->t, "early", "%s: a message is returned before it was delivered", where(c).c_str());
            h[k].by = (int)i; idx[i] = k;
        }
        // Which call took which of several equal messages is open: give each message, in order, to the call that ended first among
        // those that may come next (no call that is still to be placed ended before it began); if any assignment is in order, this one is.
        if (W->repeat) {
            std::vector<char> used(got.size(), 0);
            for (auto& x : h) x.by = -1;
            for (size_t k = 0; k < h.size(); ++k) {
                uint64_t first = ~0ull;
                for (size_t i = 0; i < got.size(); ++i) if (idx[i] != ~size_t(0) && !used[i]) first = std::min(first, got[i].t1);
                size_t best = ~size_t(0);
                auto ready = [&](size_t i) { return got[i].t0 <= first; };
                for (size_t i = 0; i < got.size(); ++i) {
                    if (idx[i] == ~size_t(0) || used[i] || got[i].b != h[k].x->bytes || got[i].reply != h[k].x->reply) continue;
                    if (best == ~size_t(0) || (ready(i) && !ready(best)) || (ready(i) == ready(best) && got[i].t1 < got[best].t1)) best = i;
                }
                if (best != ~size_t(0)) { used[best] = 1; h[k].by = (int)best; }
            }
            for (size_t k = 0; k < h.size(); ++k) if (h[k].by >= 0) idx[h[k].by] = k;
            for (size_t i = 0; i < got.size(); ++i) if (idx[i] != ~size_t(0))
                REQUIRE("N01", got[i].t1 >= h[idx[i]].x->t, "early", "%s: a message is returned before it was delivered", where(c).c_str());
        }
        // first in, first out: a call that ended before another one began took an earlier message
        for (size_t i = 0; i < got.size(); ++i) if (idx[i] != ~size_t(0)) for (size_t j = 0; j < got.size(); ++j) if (idx[j] != ~size_t(0) && idx[i] < idx[j])
            REQUIRE("N01", !(got[j].t1 < got[i].t0), "order", "%s: %s number %zu was returned before number %zu", where(c).c_str(), KIND[kind], idx[j], idx[i]);
        for (size_t k = 0; k < h.size(); ++k) if (h[k].x->t < c->t_drain)
            REQUIRE("N01", h[k].by >= 0, "lost", "%s: a %s of %zu bytes (number %zu) that was handed to the client at %.6f s is never returned", where(c).c_str(), KIND[kind], h[k].x->bytes.size(), k, h[k].x->t / 1e9);
        for (size_t i = 0; i < got.size(); ++i) {
            auto& g = got[i];
            uint64_t T = g.timeout < 0 ? ~0ull : (uint64_t)g.timeout * MS;
            if (g.null) {
                bool ended = c->t_destroy <= g.t1;
                REQUIRE("N02", ended || (g.timeout >= 0 && g.t1 - g.t0 >= T), "early-timeout", "%s: the %s getter with a timeout of %ld ms returned nothing after %.6f s", where(c).c_str(), KIND[kind], (long)g.timeout, (g.t1 - g.t0) / 1e9);
                if (g.timeout >= 0) REQUIRE("N02", g.t1 - g.t0 <= T + slack, "late-timeout", "%s: the %s getter with a timeout of %ld ms returned nothing after %.6f s", where(c).c_str(), KIND[kind], (long)g.timeout, (g.t1 - g.t0) / 1e9);
                for (auto& x : h) if (x.x->t + slack < g.t1 && (x.by < 0 ? !ended : got[x.by].t0 > g.t1))
                    REQUIRE("N02 N01", false, "missed", "%s: the %s getter returned nothing at %.6f s although a message was there since %.6f s", where(c).c_str(), KIND[kind], g.t1 / 1e9, x.x->t / 1e9);
            } else {
                uint64_t from = std::max(g.t0, h[idx[i]].x->t);
                REQUIRE("N02", g.t1 <= from + slack, "late-wake", "%s: the %s getter that waited since %.6f s returned at %.6f s the message that was there since %.6f s", where(c).c_str(), KIND[kind], g.t0 / 1e9, g.t1 / 1e9, h[idx[i]].x->t / 1e9);
            }
            // no getter keeps waiting while a message is there
            for (auto& x : h) {
                uint64_t b = std::max(g.t0, x.x->t);
                if (b + slack < g.t1 && (x.by < 0 || got[x.by].t1 > b + slack))
                    REQUIRE("N02", false, "sleeps", "%s: the %s getter waited from %.6f s to %.6f s although a message was there since %.6f s", where(c).c_str(), KIND[kind], g.t0 / 1e9, g.t1 / 1e9, x.x->t / 1e9);
            }
        }
    }
}
void run(const RunSpec& rs) {
    Rng r(rs.seed ^ 0x4A75ull);
    static World w; w = World{}; W = &w;
    w.seed = rs.seed; w.nops = 6 + (int)r.below(34);
    Rng r2(rs.seed ^ 0xF10Dull);
    w.repeat = r2.below(4) == 0; w.patient = r2.below(4) == 0; w.flood = r2.below(24) == 0;
    Swarm s(r); s.sched();
    s.group(50, {K_NATS_LOSS, K_NATS_DELAY, K_NATS_SLOW_CB});
    s.group(30, {K_NATS_ERR}, 100, 100000);
    s.group(30, {K_SPURIOUS}, 100, 300000);
    s.group(25, {K_STALL}, 100, 5000);
    s.group(25, {K_CLOCK_JUMP}, 100, 20000);
    int nc = 1 + (int)r.below(3); bool crowd = r.coin(), drops = r.below(3) == 0;
    std::vector<int> th;
    for (int i = 0; i < nc; ++i) {
        auto* c = new Cli; c->idx = i; c->node = node_new("client"); c->crowd = crowd; w.all.push_back(c);
        if (i && r.below(4) == 0 && false) c->crowd = false;
    }
    for (auto* c : w.all) th.push_back(spawn(c->node, "owner", [c] { owner(c); }));
    // the other side of the broker
    int n = 20 + (int)r.below(120); uint64_t gap = (1 + r.below(80)) * MS;
    if (w.patient) gap = (1 + r.below(20)) * SEC;
    for (int i = 0; i < n; ++i) {
        bool all = true; for (auto* c : w.all) all &= c->finished;
        if (all) break;
        Rng q(rs.seed * 271 + i);
        if (!op_enabled((uint32_t)(100 + i) % 256)) continue;
        int burst = q.below(6) ? 1 : 1 + (int)q.below(8);
        if (w.flood && q.below(30) == 0) burst = 200 + (int)q.below(1200);
        for (int k = 0; k < burst; ++k) {
            std::string to = q.coin() || w.inboxes.empty() ? subject_name(q.next()) : w.inboxes[w.inboxes.size() - 1 - q.below(std::min<size_t>(w.inboxes.size(), 3))];
            nats_inject(to, q.below(4) ? "" : "reply.here", payload(q), q.below(3) * MS);
        }
        if (drops && faults_on() && q.below(10) == 0) { int nd = w.all[q.below(w.all.size())]->node; nats_disconnect(nd); sleep_ns(q.below(800) * MS); nats_reconnect(nd); }
        sleep_ns(q.below(gap + 1));
    }
    for (int t : th) join(t);
    for (auto* c : w.all) judge(c);
    auto st = nats_stats();
    REQUIRE("L02", st.live_conn == 0, "leak", "%lu connections are left when all clients are gone", (unsigned long)st.live_conn);
    REQUIRE("L02", st.live_sub == 0, "leak", "%lu subscriptions are left when all clients are gone", (unsigned long)st.live_sub);
    REQUIRE("L02", st.live_msg == 0, "leak", "%lu messages are left when all clients are gone", (unsigned long)st.live_msg);
    for (auto* c : w.all) { sh->notes[4] += c->got[0].size(); sh->notes[5] += c->got[1].size(); }
    sample("%d clients, %d operations each, %d messages injected", nc, w.nops, n);
    finish_ok();
}
SIM_SCENARIO(nats, "nats", "N01 N02 L01 L02 L03", 60, run);
} // namespace
