// Simulated kernel: descriptors, UDP, TCP.
#include "internal.h"
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <algorithm>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>

namespace sim {

struct Dgram { uint32_t sip; uint16_t sport; std::vector<uint8_t> b; uint64_t wire; bool intact; };
struct Seg { uint64_t t; std::vector<uint8_t> b; bool fin = false, rst = false; };
struct Half {                       // one direction of a connection
    std::deque<Seg> pipe;           // in flight
    std::deque<uint8_t> rx;         // arrived, unread
    uint64_t last_t = 0;
    bool fin_sent = false, fin_rx = false;
    size_t inflight = 0;
    int to_node = 0, from_node = 0;
};
struct Conn {
    uint64_t id; Half h[2];         // h[0]: client->server, h[1]: server->client
    bool rst[2] = {false, false};   // endpoint 0 client / 1 server has received a reset
    int err[2] = {0, 0};            // pending so_error
    bool closed[2] = {false, false}; bool shut[2] = {false, false};
    uint32_t ip[2]; uint16_t port[2]; int node[2];
};
struct Sock {
    int id, type, node;
    bool v6 = false;
    bool open = true, bound = false, connected = false, listening = false, nonblock = false, reuse = false;
    uint32_t ip = 0, pip = 0; uint16_t port = 0, pport = 0;
    uint64_t rcvto = 0, sndto = 0;
    std::deque<Dgram> q;
    std::deque<int> backlog;        // accepted-to-be: conn ids
    int conn = -1, side = 0;
    bool shut_rd = false, shut_wr = false;
    int so_error = 0;
    bool connecting = false; int conn_res = 0;
};
static std::vector<std::unique_ptr<Sock>> socks;
static std::vector<std::unique_ptr<Conn>> conns;
static std::vector<Wire> wires_;
static std::vector<Rx> rxs_;
static std::vector<SysCall> sc_;
static uint64_t sigpipes = 0;
static uint16_t next_port = 40000;
static size_t SNDBUF = 200000;
void set_tcp_sndbuf(size_t n) { SNDBUF = n; }
void set_max_delay(uint32_t l) { max_delay_level = l; }

std::vector<Wire>& wires() { return wires_; }
std::vector<Rx>& rxs() { return rxs_; }
std::vector<SysCall>& syscalls() { return sc_; }
uint64_t sigpipe_hits() { return sigpipes; }
uint64_t bad_closes(int n) { return node(n)->bad_close; }

uint32_t ip4(const std::string& s) { in_addr a{}; inet_pton(AF_INET, s.c_str(), &a); return ntohl(a.s_addr); }
static std::string ips(uint32_t ip) { char b[32]; snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255); return b; }
static int ip_node(uint32_t ip, int from) {
    if ((ip >> 24) == 127 || ip == 0) return from;
    if ((ip & 0xffffff00) == 0x0a000000) { int n = (int)(ip & 255) - 1; if (n >= 0 && n < nnodes()) return n; }
    return -1;
}
static uint32_t own_ip(int n) { return 0x0a000000u + (uint32_t)n + 1; }

static Sock* get(int fd) {
    if (fd < FD_BASE || fd >= FD_MAX) return nullptr;
    auto& f = node(me->node)->fds;
    size_t i = fd - FD_BASE;
    if (i >= f.size() || f[i] < 0) return nullptr;
    return socks[f[i]].get();
}
static int alloc_fd(int sid) {
    auto& f = node(me->node)->fds;
    for (size_t i = 0; i < f.size(); i++) if (f[i] < 0) { f[i] = sid; return FD_BASE + (int)i; }
    if (f.size() >= size_t(FD_MAX - FD_BASE)) { errno = EMFILE; return -1; }
    f.push_back(sid);
    return FD_BASE + (int)f.size() - 1;
}
static int new_sock(int type, bool v6) {
    auto s = std::make_unique<Sock>();
    s->id = (int)socks.size(); s->type = type; s->node = me->node; s->v6 = v6;
    socks.push_back(std::move(s));
    return (int)socks.size() - 1;
}
size_t open_fds(int n) { size_t c = 0; for (int s : node(n)->fds) if (s >= 0) c++; return c; }
std::string describe_fds(int n) {
    std::string r;
    auto& f = node(n)->fds;
    for (size_t i = 0; i < f.size(); i++) if (f[i] >= 0) {
        Sock* s = socks[f[i]].get();
        r += "fd" + std::to_string(FD_BASE + i) + (s->type == SOCK_DGRAM ? "/udp" : "/tcp") + (s->listening ? "/listening" : "") + (s->conn >= 0 ? "/conn" : "") + " ";
    }
    return r;
}
FdTruth fd_truth(int n, int fd) {
    FdTruth t{};
    auto& f = node(n)->fds;
    size_t i = (size_t)(fd - FD_BASE);
    if (fd < FD_BASE || i >= f.size() || f[i] < 0) return t;
    Sock* s = socks[f[i]].get();
    t = {true, s->type, s->bound, s->ip, s->port, s->connected, s->pip, s->pport, s->id};
    return t;
}

// is the connection of this descriptor still whole in both directions, as far as both kernels know?
bool tcp_intact(int n, int fd) {
    auto& f = node(n)->fds;
    size_t i = (size_t)(fd - FD_BASE);
    if (fd < FD_BASE || i >= f.size() || f[i] < 0) return false;
    Sock* s = socks[f[i]].get();
    if (s->conn < 0 || s->shut_rd || s->shut_wr) return false;
    Conn* c = conns[s->conn].get();
    for (int x = 0; x < 2; x++) {
        if (c->rst[x] || c->closed[x] || c->h[x].fin_sent) return false;
        for (auto& g : c->h[x].pipe) if (g.rst || g.fin) return false;
    }
    return true;
}
uint64_t tcp_conn(int n, int fd) {
    auto& f = node(n)->fds;
    size_t i = (size_t)(fd - FD_BASE);
    if (fd < FD_BASE || i >= f.size() || f[i] < 0 || socks[f[i]]->conn < 0) return ~0ull;
    return (uint64_t)socks[f[i]]->conn;
}

struct Log {                         // records one system call
    uint64_t t0; int op, fd;
    Log(int o, int f) : t0(now_), op(o), fd(f) {}
    int64_t done(int64_t r) {
        HB hb;
        sc_.push_back({now_, me->id, me->node, op, fd, r, r < 0 ? errno : 0, now_ - t0});
        ev(40 + op, (uint64_t)fd, (uint64_t)r, r < 0 ? errno : 0);
        if (verbose) {
            static const char* n[] = {"socket", "bind", "connect", "listen", "accept", "send", "recv", "close", "shutdown", "setsockopt"};
            if (r < 0) { int e = errno; tr("%s(fd %d) = %ld %s", n[op], fd, (long)r, strerror(e)); errno = e; }
            else tr("%s(fd %d) = %ld", n[op], fd, (long)r);
        }
        return r;
    }
};
#define RET(v) return log.done(v)
#define FAIL(e) do { int e__ = (e); errno = e__; int64_t r__ = log.done(-1); errno = e__; return r__; } while (0)

// ---- address helpers -------------------------------------------------------------------------------
static bool parse(const sockaddr* a, socklen_t l, uint32_t& ip, uint16_t& port) {
    if (!a) return false;
    if (a->sa_family == AF_INET && l >= sizeof(sockaddr_in)) {
        sockaddr_in in; memcpy(&in, a, sizeof in);
        ip = ntohl(in.sin_addr.s_addr); port = ntohs(in.sin_port);
        return true;
    }
    if (a->sa_family == AF_INET6 && l >= sizeof(sockaddr_in6)) {
        sockaddr_in6 in; memcpy(&in, a, sizeof in);
        uint8_t* p = in.sin6_addr.s6_addr;      // ::ffff:a.b.c.d, ::1 and :: are understood
        ip = (uint32_t)p[12] << 24 | p[13] << 16 | p[14] << 8 | p[15];
        if (ip == 1) ip = 0x7f000001;
        port = ntohs(in.sin6_port);
        return true;
    }
    return false;
}
static void fill(Sock* s, sockaddr* a, socklen_t* l, uint32_t ip, uint16_t port) {
    if (!a || !l) return;
    if (!s->v6) {
        sockaddr_in in{}; in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(ip); in.sin_port = htons(port);
        memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in;
    } else {
        sockaddr_in6 in{}; in.sin6_family = AF_INET6; in.sin6_port = htons(port);
        uint8_t* p = in.sin6_addr.s6_addr; p[10] = p[11] = 0xff; p[12] = ip >> 24; p[13] = ip >> 16; p[14] = ip >> 8; p[15] = ip;
        memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in;
    }
}
static bool port_used(int nd, int type, uint16_t port, const Sock* self) {
    for (auto& s : socks) if (s->open && s.get() != self && s->node == nd && s->type == type && s->bound && s->port == port && !(type == SOCK_STREAM && s->conn >= 0 && !s->listening && s->side == 1)) return true;
    return false;
}
static void autobind(Sock* s) {
    if (s->bound) return;
    while (port_used(s->node, s->type, next_port, s)) next_port++;
    s->bound = true; s->port = next_port++; s->ip = 0;
}

// ---- UDP --------------------------------------------------------------------------------------------
static void udp_deliver(int to_node, uint16_t port, Dgram d, uint32_t dst_ip) {
    for (auto& s : socks) {
        if (!s->open || s->node != to_node || s->type != SOCK_DGRAM || !s->bound || s->port != port) continue;
        if (s->ip && s->ip != dst_ip && (dst_ip >> 24) != 127) continue;
        if (s->connected && (s->pip != d.sip || s->pport != d.sport)) continue;
        if (s->q.size() >= 400) { tr("udp receive queue overflow"); return; }
        s->q.push_back(std::move(d));
        return;
    }
    tr("datagram for %s:%u finds no socket", ips(dst_ip).c_str(), port);
}
static void udp_transmit(Sock* s, uint32_t dip, uint16_t dport, const uint8_t* p, size_t n) {
    uint32_t sip = s->ip ? s->ip : ((dip >> 24) == 127 ? 0x7f000001u : own_ip(s->node));
    Wire w{}; w.t = now_; w.node = s->node; w.proto = 0; w.src_ip = sip; w.src_port = s->port; w.dst_ip = dip; w.dst_port = dport; w.thr = me->id;
    w.bytes.assign(p, p + n);
    wires_.push_back(w);
    uint64_t wi = wires_.size() - 1;
    evbytes(60, p, n);
    int dn = ip_node(dip, s->node);
    if (dn < 0) return;
    if (choose(K_UDP_LOSS, 2)) return;
    int copies = 1 + (int)choose(K_UDP_DUP, 3);
    int sn = s->node;
    for (int i = 0; i < copies; i++) {
        uint64_t d = 30000 + delay_level(std::min(choose(K_UDP_DELAY, 14), max_delay_level));
        Dgram g{sip, s->port, w.bytes, wi, true};
        if (uint32_t c = choose(K_UDP_CORRUPT, 64)) {
            if (!g.b.empty()) { size_t pos = c < 40 ? (c * 7919u) % std::min<size_t>(g.b.size(), 64) : (c * 104729u) % g.b.size(); g.b[pos] ^= (uint8_t)(1u << (c & 7)); g.intact = false; }
        }
        if (uint32_t c = choose(K_UDP_TRUNC, 32)) {
            size_t cut = c < 20 ? std::min<size_t>(g.b.size(), c * 4 - (c & 1)) : g.b.size() * (c - 19) / 13;
            if (cut < g.b.size()) { g.b.resize(cut); g.intact = false; }
        }
        if (uint32_t c = choose(K_UDP_EXTEND, 16)) { g.b.resize(g.b.size() + c * 3, (uint8_t)(c * 17)); g.intact = false; }
        at(now_ + d, [dn, dport, g, dip, sn] {
            if (partitioned(sn, dn)) return;
            udp_deliver(dn, dport, g, dip);
        });
    }
}
void inject_udp(uint32_t sip, uint16_t sport, const std::string& dst, uint16_t dport, const std::vector<uint8_t>& b, uint64_t delay) {
    sh->stray++;
    uint32_t dip = ip4(dst);
    int dn = ip_node(dip, 0);
    Dgram g{sip, sport, b, ~0ull, true};
    evbytes(61, b.data(), b.size());
    at(now_ + delay, [dn, dport, g, dip] { udp_deliver(dn, dport, g, dip); });
}

// ---- TCP --------------------------------------------------------------------------------------------
static void tcp_pump(int ci, int dir);
static void tcp_send_rst(Conn* c, int to_side) {                // a reset travels to endpoint to_side
    int dir = to_side == 1 ? 0 : 1;
    Seg s; s.t = std::max(c->h[dir].last_t, now_ + 30000); s.rst = true;
    c->h[dir].last_t = s.t; uint64_t t = s.t; int ci = (int)c->id;
    c->h[dir].pipe.push_back(std::move(s));
    at(t, [ci, dir] { tcp_pump(ci, dir); });
}
static void tcp_pump(int ci, int dir) {
    Conn* c = conns[ci].get(); Half& h = c->h[dir];
    int side = dir == 0 ? 1 : 0;                                // receiving endpoint
    while (!h.pipe.empty() && h.pipe.front().t <= now_) {
        if (partitioned(h.from_node, h.to_node)) { at(now_ + 200000000ull, [ci, dir] { tcp_pump(ci, dir); }); h.pipe.front().t = now_ + 200000000ull; return; }
        Seg s = std::move(h.pipe.front()); h.pipe.pop_front();
        if (s.rst) { c->rst[side] = true; if (!c->err[side]) c->err[side] = ECONNRESET; continue; }
        if (s.fin) { h.fin_rx = true; continue; }
        h.inflight -= s.b.size();
        if (c->closed[side]) { tcp_send_rst(c, 1 - side); continue; }
        if (c->shut[side]) { tcp_send_rst(c, 1 - side); c->rst[side] = true; c->err[side] = ECONNRESET; continue; }   // data after both directions were shut down
        h.rx.insert(h.rx.end(), s.b.begin(), s.b.end());
    }
}
static void tcp_queue(Conn* c, int dir, const uint8_t* p, size_t n) {
    Half& h = c->h[dir]; int ci = (int)c->id;
    size_t off = 0; int cuts = 0;
    while (off < n) {
        size_t len = n - off;
        if (cuts < 6 && len > 1) {
            if (uint32_t v = choose(K_TCP_SEG, 24)) {
                size_t cut = v <= 8 ? v : len * (v - 8) / 16;
                if (cut >= 1 && cut < len) len = cut;
                cuts++;
            }
        }
        Seg s; s.b.assign(p + off, p + off + len);
        uint64_t d = 40000 + delay_level(std::min(choose(K_TCP_DELAY, 14), max_delay_level));
        s.t = std::max(h.last_t, now_ + d); h.last_t = s.t;
        uint64_t t = s.t;
        h.inflight += len;
        h.pipe.push_back(std::move(s));
        at(t, [ci, dir] { tcp_pump(ci, dir); });
        off += len;
    }
}
static void tcp_fin(Conn* c, int dir) {
    Half& h = c->h[dir]; int ci = (int)c->id;
    if (h.fin_sent) return;
    h.fin_sent = true;
    Seg s; s.fin = true; s.t = std::max(h.last_t, now_ + 40000); h.last_t = s.t; uint64_t t = s.t;
    h.pipe.push_back(std::move(s));
    at(t, [ci, dir] { tcp_pump(ci, dir); });
}
void inject_tcp(uint64_t cd, const std::vector<uint8_t>& b) {
    sh->stray++;
    if ((cd >> 1) < conns.size()) tcp_queue(conns[cd >> 1].get(), (int)(cd & 1), b.data(), b.size());
}
static void sock_release(Sock* s, bool rst) {
    s->open = false;
    if (s->conn >= 0) {
        Conn* c = conns[s->conn].get();
        c->closed[s->side] = true;
        Half& in = c->h[s->side == 0 ? 1 : 0];
        if (rst || !in.rx.empty()) tcp_send_rst(c, 1 - s->side);
        else tcp_fin(c, s->side == 0 ? 0 : 1);
    }
    for (int ci : s->backlog) { Conn* c = conns[ci].get(); c->closed[1] = true; tcp_send_rst(c, 0); }
    s->backlog.clear();
    s->listening = false;
}
void net_crash_node(int n, bool rst) {
    auto& f = node(n)->fds;
    for (auto& sid : f) if (sid >= 0) { sock_release(socks[sid].get(), rst); sid = -1; }
}
bool tcp_backlog(int n, uint16_t port) {
    for (auto& s : socks) if (s->open && s->node == n && s->listening && s->port == port && !s->backlog.empty()) return true;
    return false;
}
static void sigpipe() {
    sigpipes++;
    struct sigaction sa{};
    sigaction(SIGPIPE, nullptr, &sa);
    if (sa.sa_handler == SIG_IGN || sa.sa_handler != SIG_DFL) return;
    sigset_t ss; sigemptyset(&ss); pthread_sigmask(SIG_SETMASK, nullptr, &ss);
    if (sigismember(&ss, SIGPIPE)) return;
    violation(spec->prop.c_str(), "sigpipe", "a write to a broken connection raises SIGPIPE, which terminates the process (node %d, thread %s)", me->node, me->name.c_str());
}

// ---- receive / send cores --------------------------------------------------------------------------
static int recv_err() {
    static const int e[] = {0, EINTR, EINTR, ENOMEM, ECONNREFUSED, ENOBUFS};
    return e[choose(K_ERR_RECV, 6)];
}
static int64_t do_recv(int fd, void* buf, size_t len, int flags, sockaddr* sa, socklen_t* sl) {
    Log log(SC_RECV, fd);
    point(101, fd);
    HB* hb = new HB; struct G { HB* h; ~G() { delete h; } } g{hb};
    Sock* s = get(fd);
    if (!s) { spin_note(true); FAIL(EBADF); }
    if ((flags & MSG_OOB) && s->type == SOCK_STREAM) FAIL(EINVAL);
    if (int e = recv_err()) { if (!(s->type == SOCK_STREAM && e == ECONNREFUSED)) { spin_note(true); FAIL(e); } }
    bool nb = s->nonblock || (flags & MSG_DONTWAIT);
    uint64_t dl = s->rcvto ? now_ + s->rcvto : ~0ull;
    if (s->type == SOCK_DGRAM) {
        int sid = s->id;
        if (s->so_error) { int e = s->so_error; s->so_error = 0; FAIL(e); }
        if (s->q.empty()) {
            if (s->shut_rd) { spin_note(true); RET(0); }
            if (nb) { spin_note(true); FAIL(EAGAIN); }
            spin_note(false);
            if (!block([sid] { return !socks[sid]->q.empty() || !socks[sid]->open || socks[sid]->shut_rd; }, dl, "recvfrom")) FAIL(EAGAIN);
            if (s->q.empty() && s->shut_rd) RET(0);
            if (!s->open || s->q.empty()) {
                // closed under a blocked receiver: Linux keeps waiting on the orphaned description
                if (!block([] { return false; }, dl, "recvfrom on a closed descriptor")) FAIL(EAGAIN);
            }
        }
        spin_note(false);
        Dgram d = s->q.front();
        if (!(flags & MSG_PEEK)) s->q.pop_front();
        size_t n = std::min(len, d.b.size());
        { delete g.h; g.h = nullptr; memcpy(buf, d.b.data(), n); fill(s, sa, sl, d.sip, d.sport); g.h = new HB; }
        if (!(flags & MSG_PEEK)) {
            Rx r{}; r.t = now_; r.node = me->node; r.proto = 0; r.wire = d.wire; r.intact = d.intact && n == d.b.size(); r.bytes.assign(d.b.begin(), d.b.begin() + n); r.thr = me->id; r.dst_port = s->port; r.src_ip = d.sip; r.src_port = d.sport;
            rxs_.push_back(std::move(r));
        }
        if (flags & MSG_TRUNC) n = d.b.size();
        RET((int64_t)n);
    }
    // stream
    if (s->conn < 0) { spin_note(true); FAIL(ENOTCONN); }
    if (len == 0) { spin_note(true); RET(0); }
    Conn* c = conns[s->conn].get(); int side = s->side; Half& h = c->h[side == 0 ? 1 : 0];
    if (choose(K_TCP_RST, 2)) { // the connection breaks
        for (int x = 0; x < 2; x++) { c->rst[x] = true; if (!c->err[x]) c->err[x] = ECONNRESET; }
        tr("connection %lu is reset", c->id);
    }
    auto ready = [c, side, &h, s] { return !h.rx.empty() || h.fin_rx || c->rst[side] || s->shut_rd || !s->open; };
    size_t want = 1;
    if ((flags & MSG_WAITALL) && !nb) want = len;
    if (!ready()) {
        if (nb) { spin_note(true); FAIL(EAGAIN); }
        spin_note(false);
        if (!block(ready, dl, "read")) FAIL(EAGAIN);
        if (!s->open) { if (!block([] { return false; }, dl, "read on a closed descriptor")) FAIL(EAGAIN); }
    }
    if (want > 1 && h.rx.size() < want) block([&h, c, side, want] { return h.rx.size() >= want || h.fin_rx || c->rst[side]; }, dl, "read (all)");
    if (h.rx.empty()) {
        spin_note(true);
        if (c->err[side]) { int e = c->err[side]; c->err[side] = 0; FAIL(e); }
        RET(0);
    }
    spin_note(false);
    size_t n = std::min(len, h.rx.size());
    if (want == 1) if (uint32_t v = choose(K_TCP_SHORT_READ, 16)) n = std::min<size_t>(n, v <= 8 ? v : v * 6);
    std::vector<uint8_t> tmp(h.rx.begin(), h.rx.begin() + n);
    if (!(flags & MSG_PEEK)) {
        h.rx.erase(h.rx.begin(), h.rx.begin() + n);
        Rx r{}; r.t = now_; r.node = me->node; r.proto = 1; r.wire = ~0ull; r.intact = true; r.bytes = tmp; r.thr = me->id; r.conn = c->id * 2 + (side == 0 ? 1 : 0);
        rxs_.push_back(std::move(r));
    }
    evbytes(62, tmp.data(), n);
    { delete g.h; g.h = nullptr; memcpy(buf, tmp.data(), n); if (sa) fill(s, sa, sl, s->pip, s->pport); g.h = new HB; }
    RET((int64_t)n);
}

static int64_t do_send(int fd, const void* buf, size_t len, int flags, const sockaddr* sa, socklen_t sl) {
    Log log(SC_SEND, fd);
    point(102, fd);
    std::vector<uint8_t> data(len);
    if (len) memcpy(data.data(), buf, len);         // (ASan checks the caller's buffer here)
    HB hb;
    Sock* s = get(fd);
    if (!s) FAIL(EBADF);
    if ((flags & MSG_OOB) && s->type == SOCK_DGRAM) FAIL(EOPNOTSUPP);
    static const int ue[] = {0, ENOBUFS, ENETUNREACH, EPERM, EINTR, EAGAIN, EHOSTUNREACH, ECONNREFUSED};
    static const int te[] = {0, EINTR, ENOBUFS, EINTR, EAGAIN, EINTR, ENOMEM, EINTR};
    if (s->type == SOCK_DGRAM) {
        if (int e = ue[choose(K_ERR_SEND, 8)]) FAIL(e);
        if (s->shut_wr) { if (!(flags & MSG_NOSIGNAL)) sigpipe(); FAIL(EPIPE); }
        if (len > 65507) FAIL(EMSGSIZE);
        uint32_t ip; uint16_t port;
        if (sa && sl) { if (!parse(sa, sl, ip, port)) FAIL(EINVAL); }
        else { if (!s->connected) FAIL(EDESTADDRREQ); ip = s->pip; port = s->pport; }
        if (port == 0) FAIL(EINVAL);
        if (ip == 0) ip = 0x7f000001;
        autobind(s);
        udp_transmit(s, ip, port, data.data(), len);
        RET((int64_t)len);
    }
    if (s->conn < 0) { if (!(flags & MSG_NOSIGNAL)) sigpipe(); FAIL(s->listening || !s->connecting ? EPIPE : ENOTCONN); }
    Conn* c = conns[s->conn].get(); int side = s->side, dir = side == 0 ? 0 : 1; Half& h = c->h[dir];
    if (choose(K_TCP_RST, 2)) { for (int x = 0; x < 2; x++) { c->rst[x] = true; if (!c->err[x]) c->err[x] = ECONNRESET; } tr("connection %lu is reset", c->id); }
    if (c->rst[side] && c->err[side]) { int e = c->err[side]; c->err[side] = 0; FAIL(e); }
    if (c->rst[side] || s->shut_wr) { if (!(flags & MSG_NOSIGNAL)) sigpipe(); FAIL(EPIPE); }
    if (int e = te[choose(K_ERR_SEND, 8)]) FAIL(e);
    size_t n = len;
    if (len > 1) if (uint32_t v = choose(K_TCP_SHORT_WRITE, 24)) n = std::max<size_t>(1, v <= 8 ? std::min<size_t>(v, len - 1) : (len - 1) * (v - 8) / 16);
    size_t room = h.inflight + h.rx.size() < SNDBUF ? SNDBUF - h.inflight - h.rx.size() : 0;
    if (room == 0) {
        bool nb = s->nonblock || (flags & MSG_DONTWAIT);
        if (nb) FAIL(EAGAIN);
        uint64_t dl = s->sndto ? now_ + s->sndto : ~0ull;
        if (!block([&h, c, side, s] { return h.inflight + h.rx.size() < SNDBUF || c->rst[side] || !s->open; }, dl, "write")) FAIL(EAGAIN);
        if (c->rst[side]) { c->err[side] = 0; if (!(flags & MSG_NOSIGNAL)) sigpipe(); FAIL(EPIPE); }
        room = SNDBUF - std::min(SNDBUF, h.inflight + h.rx.size());
    }
    n = std::min(n, std::max<size_t>(room, 1));
    Wire w{}; w.t = now_; w.node = me->node; w.proto = 1; w.conn = c->id * 2 + dir; w.src_ip = c->ip[side]; w.src_port = c->port[side]; w.dst_ip = c->ip[1 - side]; w.dst_port = c->port[1 - side]; w.thr = me->id;
    w.bytes.assign(data.begin(), data.begin() + n);
    evbytes(63, data.data(), n);
    wires_.push_back(std::move(w));
    tcp_queue(c, dir, data.data(), n);
    RET((int64_t)n);
}

static int64_t do_connect(int fd, const sockaddr* sa, socklen_t sl) {
    Log log(SC_CONNECT, fd);
    point(103, fd);
    HB hb;
    Sock* s = get(fd);
    if (!s) FAIL(EBADF);
    uint32_t ip; uint16_t port;
    if (!parse(sa, sl, ip, port)) FAIL(EINVAL);
    if (s->type == SOCK_DGRAM) {
        static const int e[] = {0, ENETUNREACH, EINTR};
        if (int x = e[choose(K_ERR_CONNECT, 3)]) FAIL(x);
        autobind(s); s->connected = true; s->pip = ip == 0 ? 0x7f000001 : ip; s->pport = port;
        RET(0);
    }
    if (s->conn >= 0) FAIL(EISCONN);
    if (s->listening) FAIL(EINVAL);
    static const int ce[] = {0, ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EINTR, EADDRNOTAVAIL};
    if (int x = ce[choose(K_ERR_CONNECT, 6)]) { if (x == ETIMEDOUT) sleep_ns(3000000000ull); FAIL(x); }
    if (ip == 0) ip = 0x7f000001;
    autobind(s);
    int dn = ip_node(ip, s->node);
    uint64_t rtt = 100000 + delay_level(std::min(choose(K_TCP_DELAY, 14), max_delay_level));
    if (dn < 0) { sleep_ns(3000000000ull); FAIL(EHOSTUNREACH); }
    for (int tries = 0;; tries++) {
        s->connecting = true;
        sleep_ns(rtt);
        s->connecting = false;
        if (!s->open) FAIL(EBADF);
        if (!partitioned(s->node, dn)) break;
        if (tries == 6) FAIL(ETIMEDOUT);
        rtt = 1000000000ull << tries;
    }
    Sock* l = nullptr;
    for (auto& x : socks) if (x->open && x->node == dn && x->type == SOCK_STREAM && x->listening && x->port == port && (!x->ip || x->ip == ip || (ip >> 24) == 127)) { l = x.get(); break; }
    if (!l) FAIL(ECONNREFUSED);
    auto c = std::make_unique<Conn>();
    c->id = conns.size();
    c->node[0] = s->node; c->node[1] = dn;
    c->ip[0] = s->ip ? s->ip : ((ip >> 24) == 127 ? 0x7f000001u : own_ip(s->node)); c->port[0] = s->port; c->ip[1] = ip; c->port[1] = port;
    c->h[0].from_node = c->h[1].to_node = s->node; c->h[0].to_node = c->h[1].from_node = dn;
    s->conn = (int)c->id; s->side = 0; s->connected = true; s->pip = ip; s->pport = port;
    l->backlog.push_back((int)c->id);
    conns.push_back(std::move(c));
    RET(0);
}

static int64_t do_accept(int fd, sockaddr* sa, socklen_t* sl, int flags) {
    Log log(SC_ACCEPT, fd);
    point(104, fd);
    HB hb;
    Sock* s = get(fd);
    if (!s) { spin_note(true); FAIL(EBADF); }
    if (s->type != SOCK_STREAM) FAIL(EOPNOTSUPP);
    if (!s->listening) { spin_note(true); FAIL(EINVAL); }
    static const int ae[] = {0, ECONNABORTED, EMFILE, EINTR, EINTR};
    if (int x = ae[choose(K_ERR_ACCEPT, 5)]) { spin_note(true); FAIL(x); }
    if (s->backlog.empty()) {
        if (s->nonblock) { spin_note(true); FAIL(EAGAIN); }
        spin_note(false);
        uint64_t dl = s->rcvto ? now_ + s->rcvto : ~0ull;
        if (!block([s] { return !s->backlog.empty() || !s->open; }, dl, "accept")) FAIL(EAGAIN);
        if (!s->open) FAIL(EINVAL);
    }
    spin_note(false);
    int ci = s->backlog.front(); s->backlog.pop_front();
    int sid = new_sock(SOCK_STREAM, s->v6);
    Sock* n = socks[sid].get();
    Conn* c = conns[ci].get();
    n->conn = ci; n->side = 1; n->connected = true; n->bound = true; n->ip = c->ip[1]; n->port = c->port[1]; n->pip = c->ip[0]; n->pport = c->port[0];
    n->rcvto = s->rcvto; n->sndto = s->sndto;           // inherited, as on Linux
    n->nonblock = flags & SOCK_NONBLOCK;
    int nfd = alloc_fd(sid);
    if (nfd < 0) FAIL(EMFILE);
    fill(n, sa, sl, n->pip, n->pport);
    RET(nfd);
}

static int do_poll(pollfd* f, nfds_t n, int64_t timeout_ns) {
    point(105, n);
    HB hb;
    auto eval = [f, n]() {
        int c = 0;
        for (nfds_t i = 0; i < n; i++) {
            f[i].revents = 0;
            if (f[i].fd < 0) continue;
            Sock* s = get(f[i].fd);
            if (!s) { f[i].revents = POLLNVAL; c++; continue; }
            short r = 0;
            if (s->type == SOCK_DGRAM) { if (!s->q.empty() || s->shut_rd) r |= POLLIN; r |= POLLOUT; }
            else if (s->listening) { if (!s->backlog.empty()) r |= POLLIN; }
            else if (s->conn >= 0) {
                Conn* cn = conns[s->conn].get(); Half& in = cn->h[s->side == 0 ? 1 : 0]; Half& out = cn->h[s->side == 0 ? 0 : 1];
                if (!in.rx.empty() || in.fin_rx || cn->rst[s->side] || s->shut_rd) r |= POLLIN;
                if (out.inflight + out.rx.size() < SNDBUF || cn->rst[s->side]) r |= POLLOUT;
                if (in.fin_rx) r |= POLLRDHUP;
                if (cn->rst[s->side]) r |= POLLERR | POLLHUP;
            } else r |= POLLOUT | POLLHUP;
            f[i].revents = r & (f[i].events | POLLERR | POLLHUP | POLLNVAL);
            if (f[i].revents) c++;
        }
        return c;
    };
    int c = eval();
    if (c || timeout_ns == 0) { spin_note(true); ev(70, c); return c; }
    if (choose(K_ERR_RECV, 3) == 1) { errno = EINTR; return -1; }
    spin_note(false);
    Thr* t = me;                                     // get() uses 'me': evaluate in this thread's node
    block([&eval, t] { Thr* o = me; me = t; int r = eval(); me = o; return r > 0; }, timeout_ns < 0 ? ~0ull : now_ + (uint64_t)timeout_ns, "poll");
    c = eval();
    ev(70, c);
    return c;
}

} // namespace sim

using namespace sim;
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
#define SIM (me != nullptr && running)
#define EXP extern "C" __attribute__((visibility("default")))
static inline bool simfd(int fd) { return fd < 0 || fd >= FD_BASE; }

EXP int socket(int d, int t, int p) noexcept {
    if (!SIM) { static auto f = REAL(socket); return f(d, t, p); }
    Log log(SC_SOCKET, -1);
    point(100);
    HB hb;
    if (d != AF_INET && d != AF_INET6) FAIL(EAFNOSUPPORT);
    int ty = t & 0xf;
    if (ty != SOCK_STREAM && ty != SOCK_DGRAM) FAIL(EPROTONOSUPPORT);
    static const int se[] = {0, EMFILE, ENFILE, ENOBUFS, ENOMEM};
    if (int x = se[choose(K_ERR_SOCKET, 5)]) FAIL(x);
    int sid = new_sock(ty, d == AF_INET6);
    socks[sid]->nonblock = t & SOCK_NONBLOCK;
    int fd = alloc_fd(sid);
    if (fd < 0) FAIL(EMFILE);
    RET(fd);
}
EXP int bind(int fd, const sockaddr* a, socklen_t l) noexcept {
    if (!SIM) { static auto f = REAL(bind); return f(fd, a, l); }
    Log log(SC_BIND, fd);
    point(106, fd);
    HB hb;
    Sock* s = get(fd);
    if (!s) FAIL(EBADF);
    uint32_t ip; uint16_t port;
    if (!parse(a, l, ip, port)) FAIL(EINVAL);
    static const int be[] = {0, EADDRINUSE, EACCES, ENOBUFS};
    if (int x = be[choose(K_ERR_BIND, 4)]) FAIL(x);
    if (s->bound) FAIL(EINVAL);
    if (ip && (ip >> 24) != 127 && ip_node(ip, -1) != s->node) FAIL(EADDRNOTAVAIL);
    if (port && port_used(s->node, s->type, port, s)) FAIL(EADDRINUSE);
    if (!port) { autobind(s); s->ip = ip; }
    else { s->bound = true; s->ip = ip; s->port = port; }
    RET(0);
}
EXP int connect(int fd, const sockaddr* a, socklen_t l) { if (!SIM) { static auto f = REAL(connect); return f(fd, a, l); } return (int)do_connect(fd, a, l); }
EXP int listen(int fd, int n) noexcept {
    if (!SIM) { static auto f = REAL(listen); return f(fd, n); }
    Log log(SC_LISTEN, fd);
    point(107, fd);
    HB hb;
    Sock* s = get(fd);
    if (!s) FAIL(EBADF);
    if (s->type != SOCK_STREAM) FAIL(EOPNOTSUPP);
    if (choose(K_ERR_LISTEN, 2)) FAIL(EADDRINUSE);
    if (s->conn >= 0) FAIL(EINVAL);
    autobind(s);
    s->listening = true;
    RET(0);
}
EXP int accept(int fd, sockaddr* a, socklen_t* l) { if (!SIM) { static auto f = REAL(accept); return f(fd, a, l); } return (int)do_accept(fd, a, l, 0); }
EXP int accept4(int fd, sockaddr* a, socklen_t* l, int fl) { if (!SIM) { static auto f = REAL(accept4); return f(fd, a, l, fl); } return (int)do_accept(fd, a, l, fl); }
EXP ssize_t send(int fd, const void* b, size_t n, int fl) { if (!SIM || !simfd(fd)) { static auto f = REAL(send); return f(fd, b, n, fl); } return do_send(fd, b, n, fl, nullptr, 0); }
EXP ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l) { if (!SIM || !simfd(fd)) { static auto f = REAL(sendto); return f(fd, b, n, fl, a, l); } return do_send(fd, b, n, fl, a, l); }
EXP ssize_t recv(int fd, void* b, size_t n, int fl) { if (!SIM || !simfd(fd)) { static auto f = REAL(recv); return f(fd, b, n, fl); } return do_recv(fd, b, n, fl, nullptr, nullptr); }
EXP ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) { if (!SIM || !simfd(fd)) { static auto f = REAL(recvfrom); return f(fd, b, n, fl, a, l); } return do_recv(fd, b, n, fl, a, l); }
EXP ssize_t read(int fd, void* b, size_t n) { if (!SIM || !simfd(fd)) { static auto f = REAL(read); return f(fd, b, n); } return do_recv(fd, b, n, 0, nullptr, nullptr); }
EXP ssize_t write(int fd, const void* b, size_t n) { if (!SIM || !simfd(fd)) { static auto f = REAL(write); return f(fd, b, n); } return do_send(fd, b, n, 0, nullptr, 0); }
static std::vector<uint8_t> gather(const iovec* v, size_t c) {
    std::vector<uint8_t> b;
    for (size_t i = 0; i < c; i++) { size_t o = b.size(); b.resize(o + v[i].iov_len); memcpy(b.data() + o, v[i].iov_base, v[i].iov_len); }
    return b;
}
static ssize_t scatter(const std::vector<uint8_t>& b, ssize_t n, const iovec* v, size_t c) {
    size_t o = 0;
    for (size_t i = 0; i < c && (ssize_t)o < n; i++) { size_t k = std::min<size_t>(v[i].iov_len, n - o); memcpy(v[i].iov_base, b.data() + o, k); o += k; }
    return n;
}
EXP ssize_t sendmsg(int fd, const msghdr* m, int fl) {
    if (!SIM || !simfd(fd)) { static auto f = REAL(sendmsg); return f(fd, m, fl); }
    auto b = gather(m->msg_iov, m->msg_iovlen);
    return do_send(fd, b.data(), b.size(), fl, (const sockaddr*)m->msg_name, m->msg_namelen);
}
EXP ssize_t recvmsg(int fd, msghdr* m, int fl) {
    if (!SIM || !simfd(fd)) { static auto f = REAL(recvmsg); return f(fd, m, fl); }
    size_t t = 0; for (size_t i = 0; i < m->msg_iovlen; i++) t += m->msg_iov[i].iov_len;
    std::vector<uint8_t> b(t);
    socklen_t l = m->msg_namelen;
    ssize_t n = do_recv(fd, b.data(), t, fl, (sockaddr*)m->msg_name, m->msg_name ? &l : nullptr);
    if (n < 0) return n;
    m->msg_namelen = l; m->msg_flags = 0;
    return scatter(b, n, m->msg_iov, m->msg_iovlen);
}
EXP ssize_t writev(int fd, const iovec* v, int c) { if (!SIM || !simfd(fd)) { static auto f = REAL(writev); return f(fd, v, c); } auto b = gather(v, c); return do_send(fd, b.data(), b.size(), 0, nullptr, 0); }
EXP ssize_t readv(int fd, const iovec* v, int c) {
    if (!SIM || !simfd(fd)) { static auto f = REAL(readv); return f(fd, v, c); }
    size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len;
    std::vector<uint8_t> b(t);
    ssize_t n = do_recv(fd, b.data(), t, 0, nullptr, nullptr);
    return n < 0 ? n : scatter(b, n, v, c);
}
EXP int close(int fd) {
    if (!SIM || !simfd(fd)) { static auto f = REAL(close); return f(fd); }
    Log log(SC_CLOSE, fd);
    point(108, fd);
    HB hb;
    Sock* s = get(fd);
    if (!s) { if (fd >= 0) { node(me->node)->bad_close++; tr("close of descriptor %d, which is not open", fd); } FAIL(EBADF); }
    node(me->node)->fds[fd - FD_BASE] = -1;
    sock_release(s, false);
    if (choose(K_ERR_CLOSE, 2)) FAIL(EINTR);
    RET(0);
}
EXP int shutdown(int fd, int how) noexcept {
    if (!SIM) { static auto f = REAL(shutdown); return f(fd, how); }
    Log log(SC_SHUTDOWN, fd);
    point(109, fd);
    HB hb;
    Sock* s = get(fd);
    if (!s) FAIL(EBADF);
    if (s->conn < 0 && !s->connected && !s->listening) { if (s->type == SOCK_DGRAM) { if (how != SHUT_WR) s->shut_rd = true; if (how != SHUT_RD) s->shut_wr = true; } FAIL(ENOTCONN); }
    if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
    if (s->conn >= 0 && s->shut_rd && (s->shut_wr || how != SHUT_RD)) conns[s->conn]->shut[s->side] = true;
    if (how == SHUT_WR || how == SHUT_RDWR) { s->shut_wr = true; if (s->conn >= 0) tcp_fin(conns[s->conn].get(), s->side == 0 ? 0 : 1); }
    RET(0);
}
EXP int setsockopt(int fd, int lvl, int opt, const void* v, socklen_t l) noexcept {
    if (!SIM) { static auto f = REAL(setsockopt); return f(fd, lvl, opt, v, l); }
    Log log(SC_SETSOCKOPT, fd);
    point(110, fd);
    HB hb;
    Sock* s = get(fd);
    if (!s) FAIL(EBADF);
    if (choose(K_ERR_SOCKOPT, 2)) FAIL(ENOMEM);
    if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
        if (l < sizeof(timeval)) FAIL(EINVAL);
        timeval tv; memcpy(&tv, v, sizeof tv);
        if (tv.tv_usec < 0 || tv.tv_usec >= 1000000) FAIL(EDOM);
        uint64_t ns = tv.tv_sec < 0 ? 1 : (uint64_t)std::min<long>(tv.tv_sec, 4000000000l) * 1000000000ull + (uint64_t)tv.tv_usec * 1000;
        (opt == SO_RCVTIMEO ? s->rcvto : s->sndto) = ns;
    }
    if (lvl == SOL_SOCKET && opt == SO_REUSEADDR) s->reuse = true;
    RET(0);
}
EXP int getsockopt(int fd, int lvl, int opt, void* v, socklen_t* l) noexcept {
    if (!SIM) { static auto f = REAL(getsockopt); return f(fd, lvl, opt, v, l); }
    point(111, fd);
    HB hb;
    Sock* s = get(fd);
    if (!s) { errno = EBADF; return -1; }
    if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
        uint64_t ns = opt == SO_RCVTIMEO ? s->rcvto : s->sndto;
        timeval tv{(time_t)(ns / 1000000000), (suseconds_t)(ns % 1000000000 / 1000)};
        memcpy(v, &tv, std::min<size_t>(*l, sizeof tv)); *l = sizeof tv; return 0;
    }
    int x = 0;
    if (lvl == SOL_SOCKET && opt == SO_ERROR) { if (s->conn >= 0) { Conn* c = conns[s->conn].get(); x = c->err[s->side]; c->err[s->side] = 0; } }
    if (lvl == SOL_SOCKET && opt == SO_TYPE) x = s->type;
    if (lvl == SOL_SOCKET && opt == SO_ACCEPTCONN) x = s->listening;
    if (lvl == SOL_SOCKET && (opt == SO_RCVBUF || opt == SO_SNDBUF)) x = 212992;
    memcpy(v, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x;
    return 0;
}
EXP int getsockname(int fd, sockaddr* a, socklen_t* l) noexcept {
    if (!SIM) { static auto f = REAL(getsockname); return f(fd, a, l); }
    HB hb; Sock* s = get(fd);
    if (!s) { errno = EBADF; return -1; }
    fill(s, a, l, s->ip, s->port);
    return 0;
}
EXP int getpeername(int fd, sockaddr* a, socklen_t* l) noexcept {
    if (!SIM) { static auto f = REAL(getpeername); return f(fd, a, l); }
    HB hb; Sock* s = get(fd);
    if (!s) { errno = EBADF; return -1; }
    if (!s->connected) { errno = ENOTCONN; return -1; }
    fill(s, a, l, s->pip, s->pport);
    return 0;
}
EXP int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!SIM || !simfd(fd)) { static auto f = REAL(fcntl); return f(fd, cmd, arg); }
    HB hb; Sock* s = get(fd);
    if (!s) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
EXP int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    return fcntl(fd, cmd, arg);
}
EXP int pselect(int nf, fd_set* r, fd_set* w, fd_set* e, const timespec* ts, const sigset_t* ss) {
    if (!SIM) { static auto f = REAL(pselect); return f(nf, r, w, e, ts, ss); }
    timeval tv{};
    if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; }
    return select(nf, r, w, e, ts ? &tv : nullptr);
}
EXP int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
    if (!SIM || !simfd(fd)) { static auto f = REAL(ioctl); return f(fd, req, arg); }
    HB hb; Sock* s = get(fd);
    if (!s) { errno = EBADF; return -1; }
    if (req == FIONBIO) { s->nonblock = *(int*)arg != 0; return 0; }
    if (req == FIONREAD) { int n = 0; if (s->type == SOCK_DGRAM) n = s->q.empty() ? 0 : (int)s->q.front().b.size(); else if (s->conn >= 0) n = (int)conns[s->conn]->h[s->side == 0 ? 1 : 0].rx.size(); *(int*)arg = n; return 0; }
    errno = ENOTTY; return -1;
}
EXP int poll(pollfd* f, nfds_t n, int ms) { if (!SIM) { static auto r = REAL(poll); return r(f, n, ms); } return do_poll(f, n, ms < 0 ? -1 : (int64_t)ms * 1000000); }
EXP int ppoll(pollfd* f, nfds_t n, const timespec* ts, const sigset_t* ss) { if (!SIM) { static auto r = REAL(ppoll); return r(f, n, ts, ss); } return do_poll(f, n, ts ? (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec : -1); }
EXP int select(int nf, fd_set* r, fd_set* w, fd_set* e, timeval* tv) {
    if (!SIM) { static auto f = REAL(select); return f(nf, r, w, e, tv); }
    std::vector<pollfd> p;
    for (int i = 0; i < nf; i++) {
        short evs = 0;
        if (r && FD_ISSET(i, r)) evs |= POLLIN;
        if (w && FD_ISSET(i, w)) evs |= POLLOUT;
        if (evs) p.push_back({i, evs, 0});
    }
    int c = do_poll(p.data(), p.size(), tv ? (int64_t)tv->tv_sec * 1000000000 + (int64_t)tv->tv_usec * 1000 : -1);
    if (c < 0) return c;
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (e) FD_ZERO(e);
    c = 0;
    for (auto& x : p) {
        if (r && (x.events & POLLIN) && (x.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(x.fd, r); c++; }
        if (w && (x.events & POLLOUT) && (x.revents & POLLOUT)) { FD_SET(x.fd, w); c++; }
    }
    return c;
}
