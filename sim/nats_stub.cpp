// Simulated NATS server and the part of the NATS C client API that vrtgen uses.
//
// Faithful to cnats where it matters: one delivery thread per asynchronous subscription, the callback owns the
// message, natsSubscription_Destroy()/natsConnection_Destroy() do not wait for a callback that is already running,
// the on-complete callback runs after the last message callback.
#include "internal.h"
#include <nats/nats.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <map>

using namespace sim;

struct Pend { std::vector<uint8_t> b; std::string subject, reply; uint64_t wire; uint64_t del; bool intact; };

struct __natsMsg { bool live = true; char* data = nullptr; int len = 0; std::string subject, reply; int node = 0; };
struct __natsSubscription {
    uint64_t id = 0; natsConnection* nc = nullptr; std::string subject, queue; int node = 0;
    bool async = false, closed = false, destroyed = false, dead = false;
    std::deque<Pend> q; uint64_t last_t = 0;
    natsMsgHandler cb = nullptr; void* ctx = nullptr; bool in_cb = false, thread_gone = false; int thr = -1;
    natsOnCompleteCB done = nullptr; void* done_arg = nullptr;
};
struct __natsConnection { int node = 0; bool closed = false, destroyed = false, up = true; std::string url; std::vector<Pend> buffered; uint64_t id = 0; };

namespace sim {
static std::vector<natsConnection*> nc_all;
static std::vector<natsSubscription*> sub_all;
static std::vector<natsMsg*> msg_all;
static std::vector<NatsDelivery> del_;
static uint64_t dfree = 0, uaf = 0;
static std::string server_url = "nats://server:4222";
static uint64_t rr = 0;

std::vector<NatsDelivery>& nats_deliveries() { return del_; }
std::vector<NatsSub> nats_subs() {
    std::vector<NatsSub> v;
    for (auto* s : sub_all) v.push_back({s->id, s->node, s->subject, s->queue, s->async, s->closed, s->destroyed});
    return v;
}
void nats_set_url(const char* u) { server_url = u; }
NatsStats nats_stats() {
    NatsStats s{};
    for (auto* c : nc_all) s.live_conn += !c->destroyed;
    for (auto* c : sub_all) s.live_sub += !c->destroyed;
    for (auto* m : msg_all) s.live_msg += m->live;
    s.double_free = dfree; s.use_after_free = uaf;
    return s;
}
static void use(bool destroyed, const char* what) {
    if (!destroyed) return;
    uaf++;
    violation(spec->prop.c_str(), "nats-use-after-destroy", "%s is used after it was destroyed (node %d, thread %s)", what, me->node, me->name.c_str());
}
static bool subject_match(const std::string& pat, const std::string& s) {
    if (pat.find_first_of("*>") == std::string::npos) return pat == s;
    size_t i = 0, j = 0;
    for (;;) {
        size_t pe = pat.find('.', i), se = s.find('.', j);
        std::string p = pat.substr(i, pe == std::string::npos ? pe : pe - i), q = s.substr(j, se == std::string::npos ? se : se - j);
        if (p == ">") return true;
        if (p != "*" && p != q) return false;
        if (pe == std::string::npos || se == std::string::npos) return pe == se;
        i = pe + 1; j = se + 1;
    }
}
static void sub_close(natsSubscription* s) { s->closed = true; s->q.clear(); }

static void arrive(natsSubscription* s, Pend p) {
    if (s->closed || s->dead) return;
    if (!s->nc->up) return;                     // core NATS: a disconnected subscriber misses it
    p.del = del_.size();
    del_.push_back({now_, s->id, p.subject, p.b, p.wire, 0, false, 0});
    ev(80, s->id, p.b.size(), p.wire);
    s->q.push_back(std::move(p));
}
static void route(const Pend& p, int from) {
    std::map<std::string, std::vector<natsSubscription*>> groups;
    std::vector<natsSubscription*> to;
    for (auto* s : sub_all) {
        if (s->closed || s->dead || !subject_match(s->subject, p.subject)) continue;
        if (s->queue.empty()) to.push_back(s); else groups[s->queue].push_back(s);
    }
    for (auto& g : groups) to.push_back(g.second[rr++ % g.second.size()]);
    for (auto* s : to) {
        if (partitioned(from, s->node)) continue;
        if (choose(K_NATS_LOSS, 2)) continue;
        Pend c = p;
        uint64_t d = 50000 + delay_level(std::min(choose(K_NATS_DELAY, 14), max_delay_level));
        if (uint32_t x = choose(K_UDP_CORRUPT, 64)) if (!c.b.empty()) { c.b[(x * 7919u) % std::min<size_t>(c.b.size(), 64)] ^= (uint8_t)(1u << (x & 7)); c.intact = false; }
        if (uint32_t x = choose(K_UDP_TRUNC, 32)) { size_t cut = x * 4 - (x & 1); if (cut < c.b.size()) { c.b.resize(cut); c.intact = false; } }
        if (uint32_t x = choose(K_UDP_EXTEND, 16)) { c.b.resize(c.b.size() + x * 3, (uint8_t)(x * 17)); c.intact = false; }
        uint64_t t = std::max(s->last_t, now_ + d);
        s->last_t = t;
        at(t, [s, c] { arrive(s, c); });
    }
}
void nats_inject(const std::string& subject, const std::string& reply, const std::vector<uint8_t>& b, uint64_t delay) {
    sh->stray++;
    evbytes(81, b.data(), b.size());
    Pend p{b, subject, reply, ~0ull, 0, true};
    at(now_ + delay, [p] { route(p, -2); });
}
void nats_disconnect(int n) { for (auto* c : nc_all) if (c->node == n && !c->closed) c->up = false; ev(82, n); tr("nats: node %d loses its server connection", n); }
void nats_reconnect(int n) {
    ev(83, n); tr("nats: node %d reconnects", n);
    for (auto* c : nc_all) if (c->node == n && !c->closed && !c->up) {
        c->up = true;
        auto b = std::move(c->buffered); c->buffered.clear();
        for (auto& p : b) route(p, n);
    }
}
bool nats_conn_up(int n) { for (auto* c : nc_all) if (c->node == n && !c->closed) return c->up; return false; }
bool nats_conn_made(int n) { for (auto* c : nc_all) if (c->node == n && !c->destroyed) return true; return false; }
void nats_crash_node(int n) {
    for (auto* s : sub_all) if (s->node == n) { s->dead = true; s->destroyed = true; }
    for (auto* c : nc_all) if (c->node == n) { c->closed = true; c->destroyed = true; }
    for (auto* m : msg_all) if (m->node == n) m->live = false;
}
static natsMsg* mk(const Pend& p, int nd) {
    auto* m = new natsMsg;
    m->len = (int)p.b.size(); m->subject = p.subject; m->reply = p.reply; m->node = nd;
    m->data = (char*)malloc(p.b.size());
    if (m->len) memcpy(m->data, p.b.data(), p.b.size());
    msg_all.push_back(m);
    return m;
}
static natsMsg* take(natsSubscription* s) {
    Pend p = std::move(s->q.front()); s->q.pop_front();
    auto& d = del_[p.del]; d.handed = true; d.t_handed = now_;
    Rx r{}; r.t = now_; r.node = s->node; r.proto = 2; r.wire = p.wire; r.intact = p.intact; r.bytes = p.b; r.thr = me->id; r.subject = p.subject; r.reply = p.reply; r.conn = s->id;
    rxs().push_back(std::move(r));
    evbytes(84, p.b.data(), p.b.size());
    return mk(p, s->node);
}
static void delivery_thread(natsSubscription* s) {
    hb_acquire(s);
    for (;;) {
        natsMsg* m = nullptr;
        {
            HB hb;
            block([s] { return s->closed || !s->q.empty(); }, ~0ull, "nats delivery thread (idle)");
            if (!s->closed) {
                if (uint32_t v = choose(K_NATS_SLOW_CB, 8)) { sleep_ns(delay_level(v)); if (s->closed) continue; }
                m = take(s);
                s->in_cb = true;
                tr("nats delivers %d bytes on %s", m->len, s->subject.c_str());
            }
        }
        if (!m) break;
        point(85, s->id);                       // between taking the message and entering the callback
        hb_acquire(s);                          // libnats takes the subscription's lock before and after the callback
        s->cb(s->nc, s, m, s->ctx);
        hb_release(s);
        s->in_cb = false;
    }
    hb_acquire(s);
    if (s->done) s->done(s->done_arg);
    s->thread_gone = true;
}
static natsStatus err(int n, const natsStatus* t) { return t[choose(K_NATS_ERR, n)]; }

static natsStatus subscribe(natsSubscription** out, natsConnection* nc, const char* subject, const char* queue, bool async, natsMsgHandler cb, void* ctx) {
    point(90);
    if (!out || !nc) return NATS_INVALID_ARG;
    use(nc->destroyed, "a NATS connection");
    if (!subject || !*subject || strpbrk(subject, " \t\r\n")) return NATS_INVALID_SUBJECT;
    if (queue && !*queue) return NATS_INVALID_QUEUE_NAME;
    if (async && !cb) return NATS_INVALID_ARG;
    if (nc->closed) return NATS_CONNECTION_CLOSED;
    static const natsStatus e[] = {NATS_OK, NATS_NO_MEMORY, NATS_CONNECTION_CLOSED};
    if (auto s = err(3, e)) return s;
    natsSubscription* s;
    {
        HB hb;
        s = new natsSubscription;
        s->id = sub_all.size(); s->nc = nc; s->subject = subject; s->queue = queue ? queue : ""; s->node = me->node; s->async = async; s->cb = cb; s->ctx = ctx;
        sub_all.push_back(s);
    }
    hb_release(s);
    if (async) {
        std::string nm = node(me->node)->name + ".nats" + std::to_string(s->id);
        pthread_t t;
        sim_pthread_create(&t, nullptr, nullptr, nullptr, false, nm.c_str(), me->node, [s] { delivery_thread(s); });
    }
    *out = s;                                   // as libnats: callbacks may already be running
    hb_write(out, sizeof *out);
    return NATS_OK;
}
static natsStatus publish(natsConnection* nc, const char* subj, const char* reply, const void* data, int len) {
    uint64_t t0 = now_;
    auto log = [&](natsStatus st) { HB hb; syscalls().push_back({now_, me->id, me->node, SC_SEND, -2, st == NATS_OK ? len : -1, (int)st, now_ - t0}); ev(91, len, st); tr("nats publish(%s, %d bytes) = %d", subj ? subj : "-", len, (int)st); return st; };
    point(91, len);
    std::vector<uint8_t> b(len > 0 ? len : 0);
    if (len > 0) memcpy(b.data(), data, len);
    HB hb;
    if (!nc) return log(NATS_INVALID_ARG);
    use(nc->destroyed, "a NATS connection");
    if (!subj || !*subj) return log(NATS_INVALID_SUBJECT);
    if (reply && !*reply) return log(NATS_INVALID_ARG);
    if (nc->closed) return log(NATS_CONNECTION_CLOSED);
    static const natsStatus e[] = {NATS_OK, NATS_INSUFFICIENT_BUFFER, NATS_IO_ERROR, NATS_CONNECTION_CLOSED, NATS_NO_MEMORY};
    if (auto s = err(5, e)) return log(s);
    if (len > 1048576) return log(NATS_MAX_PAYLOAD);
    Wire w{}; w.t = now_; w.node = me->node; w.proto = 2; w.subject = subj; w.reply = reply ? reply : ""; w.bytes = b; w.thr = me->id;
    wires().push_back(std::move(w));
    evbytes(92, b.data(), b.size());
    Pend p{b, subj, reply ? reply : "", wires().size() - 1, 0, true};
    if (!nc->up) nc->buffered.push_back(std::move(p)); else route(p, me->node);
    return log(NATS_OK);
}
} // namespace sim

extern "C" {
natsStatus natsConnection_ConnectTo(natsConnection** nc, const char* urls) {
    point(93);
    if (!nc) return NATS_INVALID_ARG;
    static const natsStatus e[] = {NATS_OK, NATS_NO_SERVER, NATS_TIMEOUT, NATS_IO_ERROR};
    if (auto s = err(4, e)) { if (s == NATS_TIMEOUT) sleep_ns(2000000000ull); return s; }
    if (!urls || std::string(urls).find("bad") != std::string::npos) return NATS_NO_SERVER;
    HB hb;
    auto* c = new natsConnection;
    c->node = me->node; c->url = urls; c->id = nc_all.size();
    nc_all.push_back(c);
    *nc = c;
    return NATS_OK;
}
natsConnStatus natsConnection_Status(natsConnection* nc) {
    point(94);
    if (!nc) return NATS_CONN_STATUS_CLOSED;
    use(nc->destroyed, "a NATS connection");
    return nc->closed ? NATS_CONN_STATUS_CLOSED : nc->up ? NATS_CONN_STATUS_CONNECTED : NATS_CONN_STATUS_RECONNECTING;
}
bool natsConnection_IsClosed(natsConnection* nc) { return natsConnection_Status(nc) == NATS_CONN_STATUS_CLOSED; }
natsStatus natsConnection_GetConnectedUrl(natsConnection* nc, char* buf, size_t n) {
    point(95);
    if (!nc || !buf) return NATS_INVALID_ARG;
    use(nc->destroyed, "a NATS connection");
    if (nc->closed || !nc->up) { if (n) buf[0] = 0; return NATS_OK; }
    if (nc->url.size() >= n) return NATS_INSUFFICIENT_BUFFER;
    memcpy(buf, nc->url.c_str(), nc->url.size() + 1);
    return NATS_OK;
}
natsStatus natsConnection_Publish(natsConnection* nc, const char* subj, const void* d, int n) { return publish(nc, subj, nullptr, d, n); }
natsStatus natsConnection_PublishString(natsConnection* nc, const char* subj, const char* s) { return publish(nc, subj, nullptr, s, (int)strlen(s)); }
natsStatus natsConnection_PublishRequest(natsConnection* nc, const char* subj, const char* reply, const void* d, int n) {
    if (!reply || !*reply) { point(96); return NATS_INVALID_ARG; }
    return publish(nc, subj, reply, d, n);
}
natsStatus natsConnection_Flush(natsConnection* nc) { point(97); return !nc ? NATS_INVALID_ARG : nc->closed ? NATS_CONNECTION_CLOSED : NATS_OK; }
natsStatus natsConnection_FlushTimeout(natsConnection* nc, int64_t) { return natsConnection_Flush(nc); }
natsStatus natsConnection_Subscribe(natsSubscription** s, natsConnection* nc, const char* subj, natsMsgHandler cb, void* ctx) { return subscribe(s, nc, subj, nullptr, true, cb, ctx); }
natsStatus natsConnection_SubscribeSync(natsSubscription** s, natsConnection* nc, const char* subj) { return subscribe(s, nc, subj, nullptr, false, nullptr, nullptr); }
natsStatus natsConnection_QueueSubscribe(natsSubscription** s, natsConnection* nc, const char* subj, const char* q, natsMsgHandler cb, void* ctx) { return subscribe(s, nc, subj, q, true, cb, ctx); }
natsStatus natsConnection_QueueSubscribeSync(natsSubscription** s, natsConnection* nc, const char* subj, const char* q) { return subscribe(s, nc, subj, q, false, nullptr, nullptr); }
void natsConnection_Close(natsConnection* nc) {
    point(98);
    if (!nc) return;
    use(nc->destroyed, "a NATS connection");
    HB hb;
    nc->closed = true;
    for (auto* s : sub_all) if (s->nc == nc && !s->closed) sub_close(s);
}
void natsConnection_Destroy(natsConnection* nc) {
    point(98);
    if (!nc) return;
    if (nc->destroyed) { dfree++; violation(spec->prop.c_str(), "nats-double-destroy", "a NATS connection is destroyed twice (node %d)", me->node); }
    { HB hb; nc->closed = true; for (auto* s : sub_all) if (s->nc == nc && !s->closed) sub_close(s); nc->destroyed = true; }
    point(98);
}
natsStatus natsSubscription_NextMsg(natsMsg** m, natsSubscription* s, int64_t timeout) {
    point(99);
    if (!m || !s) { spin_note(true); return NATS_INVALID_ARG; }
    use(s->destroyed, "a NATS subscription");
    hb_acquire(s);
    HB hb;
    if (s->async) return NATS_ILLEGAL_STATE;
    if (s->closed) { spin_note(true); return s->nc->closed ? NATS_CONNECTION_CLOSED : NATS_INVALID_SUBSCRIPTION; }
    if (s->q.empty() && timeout <= 0) { spin_note(true); return NATS_TIMEOUT; }
    spin_note(false);
    bool ok = block([s] { return s->closed || !s->q.empty(); }, now_ + (uint64_t)timeout * 1000000ull, "natsSubscription_NextMsg");
    if (!ok) return NATS_TIMEOUT;
    if (s->closed) return s->nc->closed ? NATS_CONNECTION_CLOSED : NATS_INVALID_SUBSCRIPTION;
    *m = take(s);
    return NATS_OK;
}
natsStatus natsSubscription_Unsubscribe(natsSubscription* s) {
    point(87);
    if (!s) return NATS_INVALID_ARG;
    use(s->destroyed, "a NATS subscription");
    if (s->closed) return NATS_INVALID_SUBSCRIPTION;
    hb_release(s);
    HB hb; sub_close(s);
    return NATS_OK;
}
natsStatus natsSubscription_SetOnCompleteCB(natsSubscription* s, natsOnCompleteCB cb, void* arg) {
    point(88);
    if (!s) return NATS_INVALID_ARG;
    if (!s->async) return NATS_ILLEGAL_STATE;
    s->done_arg = arg; s->done = cb;
    hb_release(s);
    return NATS_OK;
}
const char* natsSubscription_GetSubject(natsSubscription* s) {
    if (!s) return nullptr;
    use(s->destroyed, "a NATS subscription");
    return s->closed ? nullptr : s->subject.c_str();
}
bool natsSubscription_IsValid(natsSubscription* s) { return s && !s->closed; }
void natsSubscription_Destroy(natsSubscription* s) {
    point(89);
    if (!s) return;
    if (s->destroyed) { dfree++; violation(spec->prop.c_str(), "nats-double-destroy", "a NATS subscription is destroyed twice (node %d)", me->node); }
    hb_release(s);
    { HB hb; sub_close(s); s->destroyed = true; }
    point(89);
}
natsStatus natsMsg_Create(natsMsg** m, const char* subj, const char* reply, const char* data, int len) {
    if (!m || !subj || !*subj) return NATS_INVALID_ARG;
    if (len < 0) return NATS_INVALID_ARG;
    HB hb;
    Pend p{std::vector<uint8_t>(data, data + len), subj, reply ? reply : "", ~0ull, 0, true};
    *m = mk(p, me->node);
    return NATS_OK;
}
void natsMsg_Destroy(natsMsg* m) {
    if (!m) return;
    if (!m->live) { dfree++; violation(spec->prop.c_str(), "nats-double-destroy", "a NATS message is destroyed twice (node %d)", me ? me->node : -1); }
    m->live = false;
    free(m->data); m->data = nullptr;
}
static void live(const natsMsg* m) { if (!m->live) { uaf++; violation(spec->prop.c_str(), "nats-use-after-destroy", "a NATS message is used after it was destroyed (node %d)", me ? me->node : -1); } }
const char* natsMsg_GetData(const natsMsg* m) { if (!m) return nullptr; live(m); return m->data; }
int natsMsg_GetDataLength(const natsMsg* m) { if (!m) return 0; live(m); return m->len; }
const char* natsMsg_GetSubject(const natsMsg* m) { if (!m) return nullptr; live(m); return m->subject.c_str(); }
const char* natsMsg_GetReply(const natsMsg* m) { if (!m) return nullptr; live(m); return m->reply.empty() ? nullptr : m->reply.c_str(); }
natsStatus natsInbox_Create(char** out) { static int n = 0; char b[64]; snprintf(b, sizeof b, "_INBOX.%08d", n++); *out = strdup(b); return NATS_OK; }
void natsInbox_Destroy(char* p) { free(p); }
const char* natsStatus_GetText(natsStatus s) { return s == NATS_OK ? "OK" : "error"; }
natsStatus nats_Open(int64_t) { return NATS_OK; }
void nats_Close(void) {}
}
