// The socket classes on their own: random histories of documented calls on UDP and TCP sockets of both address families,
// on several nodes, over a faulty network and a failing kernel. Every result is judged against what the simulated kernel did.
#include "common.h"
#include <iostream>
#include <sstream>
#include <vrtgen/socket.hpp>
using namespace scn;

namespace {
namespace vs = vrtgen::socket;

struct World { uint64_t seed; int nodes; bool tcp, small_buf; };
World* W;

// what the kernel did for this thread since the start of an operation
struct Span {
    size_t s0 = syscalls().size(), w0 = wires().size(), r0 = rxs().size(); uint64_t t0 = now(), st0 = stalled_ns(self_node());
    uint64_t took() const { return now() - t0; }
    uint64_t slack() const { return 60 * MS + (stalled_ns(self_node()) - st0); }
    int calls(int op, int* ok = nullptr, const SysCall** last = nullptr) const {
        int n = 0; auto& sc = syscalls();
        for (size_t i = s0; i < sc.size(); ++i) if (sc[i].thr == self() && sc[i].op == op) {
            ++n; if (ok && sc[i].ret >= 0) ++*ok; if (last) *last = &sc[i];
        }
        return n;
    }
    Bytes sent() const { Bytes b; for (size_t i = w0; i < wires().size(); ++i) if (wires()[i].thr == self()) b.insert(b.end(), wires()[i].bytes.begin(), wires()[i].bytes.end()); return b; }
    int nsent(const Wire** last = nullptr) const { int n = 0; for (size_t i = w0; i < wires().size(); ++i) if (wires()[i].thr == self()) { ++n; if (last) *last = &wires()[i]; } return n; }
    Bytes received(int* n = nullptr, const Rx** last = nullptr) const {
        Bytes b; for (size_t i = r0; i < rxs().size(); ++i) if (rxs()[i].thr == self()) { b.insert(b.end(), rxs()[i].bytes.begin(), rxs()[i].bytes.end()); if (n) ++*n; if (last) *last = &rxs()[i]; }
        return b;
    }
};

template <int D> std::string ip_of(int node) { return (D == AF_INET6 ? "::ffff:" : "") + node_ip(node); }
template <class EP> uint32_t v4part(const EP& e) {
    uint8_t b[16]; memcpy(b, &e.address(), sizeof e.address());
    const uint8_t* p = sizeof e.address() == 4 ? b : b + 12;
    return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3];
}
template <class EP> bool same_ep(const EP& a, const EP& b) {
    return a.port() == b.port() && memcmp(&a.address(), &b.address(), sizeof a.address()) == 0;
}
#define S01(cond, sig, ...) REQUIRE("S01", cond, sig, __VA_ARGS__)

// an endpoint built in one of the documented ways
template <class EP, int D> EP make_ep(Rng& q, const std::string& ip, uint16_t port) {
    bool as_bad = false;
    EP e = [&]() -> EP {
        switch (q.below(6)) {
        case 0: { EP x; x.address(ip); x.port(port); return x; }
        case 1: { EP x(port); x.address(ip); return x; }
        case 2: { EP x(ip, (uint16_t)(port + 1)); x.port(port); return x; }
        case 3: { EP x; x.port(port); x.address("300.1.2.3"); as_bad = v4part(x) != 0; x.address(ip); return x; }
        case 4: { EP x(ip, port); EP y; y = x; return y; }
        default: return EP(ip, port);
        }
    }();
    S01(!as_bad, "endpoint", "an endpoint keeps an address although the given one is no address");
    S01(e.port() == port, "endpoint", "an endpoint for port %d reports port %d", port, e.port());
    typename EP::sockaddr_type sa; memcpy(&sa, &e.sockaddr(), sizeof sa);
    uint16_t wport; uint8_t addr[16] = {}; int fam; uint8_t want[16] = {};
    if constexpr (D == AF_INET) { wport = ntohs(sa.sin_port); memcpy(addr, &sa.sin_addr, 4); fam = sa.sin_family; }
    else { wport = ntohs(sa.sin6_port); memcpy(addr, &sa.sin6_addr, 16); fam = sa.sin6_family; }
    if (!ip.empty()) inet_pton(D, ip.c_str(), want);
    S01(wport == port && fam == D && memcmp(addr, want, 16) == 0 && e.socklen() == sizeof sa, "endpoint", "an endpoint for %s port %d holds family %d, port %d", ip.c_str(), port, fam, wport);
    std::string text = (ip.empty() ? (D == AF_INET ? "0.0.0.0" : "::") : ip) + ":" + std::to_string(port);
    S01(e.to_string() == text, "endpoint", "the endpoint %s is shown as %s", text.c_str(), e.to_string().c_str());
    if (q.below(8) == 0) {
        bool thrown = false;
        static const char* bad[] = {"10.0.0", "host", "10.0.0.1:80", " 10.0.0.1", "1.2.3.4.5", "::g"};
        try { EP x(bad[q.below(6)], port); } catch (const std::runtime_error&) { thrown = true; }
        S01(thrown, "endpoint", "an endpoint is created from a text that is no address");
    }
    return e;
}

// the part that is common to all sockets
template <class S> struct Obj {
    using EP = typename S::endpoint_type;
    std::unique_ptr<S> s; EP src, dst; int fd = -1, id = -1; uint64_t timeout = 3; bool open = false, virgin_close = true;
    std::string where() const { return strf("node %d, descriptor %d", self_node(), fd); }
    bool create() {
        Span k;
        try { s = std::make_unique<S>(); }
        catch (const std::runtime_error&) {
            int ok = 0; k.calls(SC_SOCKET, &ok);
            S01(ok == 0, "create", "creating a socket throws although the system created it");
            return false;
        }
        int ok = 0; const SysCall* c = nullptr; k.calls(SC_SOCKET, &ok, &c);
        S01(ok == 1 && c->ret == s->native_handle(), "create", "a socket is created with descriptor %d, the system returned %d", s->native_handle(), c ? (int)c->ret : -1);
        fd = s->native_handle(); id = fd_truth(self_node(), fd).id; open = true; timeout = 3; src = EP(); dst = EP();
        check("creation");
        return true;
    }
    void check(const char* after) {
        bool t = fd >= 0 && fd_truth(self_node(), fd).id == id && open;
        S01(s->is_open() == t, "is-open", "%s: after %s is_open() is %d, the descriptor is %s", where().c_str(), after, s->is_open(), t ? "open" : "closed");
        S01(same_ep(s->src(), src), "src", "%s: after %s the recorded source is %s, expected %s", where().c_str(), after, s->src().to_string().c_str(), src.to_string().c_str());
        S01(same_ep(s->dst(), dst), "dst", "%s: after %s the recorded destination is %s, expected %s", where().c_str(), after, s->dst().to_string().c_str(), dst.to_string().c_str());
        if (open) S01(s->native_handle() == fd, "handle", "%s: native_handle() is %d after %s", where().c_str(), s->native_handle(), after);
    }
    void do_bind(const EP& e) {
        Span k;
        bool r = s->bind(e);
        int ok = 0; k.calls(SC_BIND, &ok);
        S01(r == (ok > 0), "bind", "%s: bind(%s) returns %d, the system %s it", where().c_str(), e.to_string().c_str(), r, ok ? "did" : "refused");
        if (r) {
            src = e;
            auto t = fd_truth(self_node(), fd);
            S01(t.bound && (e.port() == 0 || t.port == e.port()) && t.ip == v4part(e), "bind", "%s: after bind(%s) the system has the socket on port %d", where().c_str(), e.to_string().c_str(), t.port);
        }
        check(r ? "bind" : "a failed bind"); mixshape(0x10 + r);
    }
    bool do_connect(const EP& e) {
        Span k;
        bool r = s->connect(e);
        int ok = 0; k.calls(SC_CONNECT, &ok);
        S01(r == (ok > 0), "connect", "%s: connect(%s) returns %d, the system %s it", where().c_str(), e.to_string().c_str(), r, ok ? "did" : "refused");
        if (r) {
            dst = e;
            auto t = fd_truth(self_node(), fd);
            S01(t.connected && t.pport == e.port() && t.pip == v4part(e), "connect", "%s: after connect(%s) the system's peer is port %d", where().c_str(), e.to_string().c_str(), t.pport);
        }
        check(r ? "connect" : "a failed connect"); mixshape(0x12 + r);
        return r;
    }
    void set_timeout(size_t sec) { s->timeout(sec); timeout = sec; }
    void accessors(Rng& q, const EP& e) {
        switch (q.below(4)) {
        case 0: s->src(e); src = e; break;
        case 1: s->dst(e); dst = e; break;
        case 2: s->src().port(e.port()); src.port(e.port()); break;
        default: s->dst() = e; dst = e;
        }
        check("setting an endpoint");
    }
    // the number may have been given to another socket of the node meanwhile
    void closed_now(int node, std::vector<std::pair<int, int>> fds, const char* how) {
        for (auto [f, id] : fds) if (f >= 0) {
            S01(fd_truth(node, f).id != id, "close", "node %d: descriptor %d is still open after %s", node, f, how);
            REQUIRE("L02", fd_truth(node, f).id != id, "leak", "node %d: descriptor %d is still open after %s", node, f, how);
        }
        REQUIRE("L02 S01", bad_closes(node) == 0, "double-close", "node %d: a descriptor was closed that is not open (%s)", node, how);
    }
};

size_t some_timeout(Rng& q) { static const size_t t[] = {1, 2, 3, 4, 1, 2, 3, 4, 30, 61, 100, 3600}; return t[q.below(12)]; }

void wait_judged(bool r, Span& k, uint64_t ms, bool data_there, const std::string& where) {
    if (!r && !data_there && k.took() + 1 * MS < ms * MS) sh->notes[6]++;      // interrupted
    S01(k.took() <= ms * MS + k.slack(), "wait", "%s: wait_readable(%lu ms) took %.3f s", where.c_str(), (unsigned long)ms, k.took() / 1e9);
    if (data_there) S01(r || k.took() < ms * MS, "wait", "%s: wait_readable(%lu ms) waits although data is there", where.c_str(), (unsigned long)ms);
}

// ---- UDP ---------------------------------------------------------------------------------------------------------
template <int D> void udp_actor(int ai, int nops) {
    using S = vs::datagram_socket<D>; using EP = typename S::endpoint_type;
    int me = self_node();
    std::vector<Obj<S>> objs(1 + ai % 2);
    int fails = 0;
    for (int i = 0; i < nops; ++i) {
        if (!op_enabled((uint32_t)(ai * 60 + i) % 256)) continue;
        Rng q(W->seed * 977 + ai * 131071 + i);
        auto& o = objs[q.below(objs.size())];
        if (!o.s) { if (!o.create()) { sh->notes[0]++; REQUIRE("S01", faults_on() || ++fails < 3, "create", "a socket cannot be created although nothing fails"); continue; }
            if (q.below(4)) { uint16_t p = 7000 + (uint16_t)q.below(4); o.do_bind(make_ep<EP, D>(q, q.coin() ? ip_of<D>(me) : "", p)); } }
        int peer = (int)q.below(W->nodes);
        uint16_t pp = 7000 + (uint16_t)q.below(4);
        sh->app_events++;
        switch (o.open ? q.below(16) : 14 + q.below(3)) {
        case 0: { uint16_t p = q.below(5) ? 7000 + (uint16_t)q.below(4) : 0;
            o.do_bind(make_ep<EP, D>(q, q.below(6) == 0 ? ip_of<D>((me + 1) % W->nodes) : q.coin() ? ip_of<D>(me) : "", p)); break; }
        case 1: o.do_connect(make_ep<EP, D>(q, ip_of<D>(peer), pp)); break;
        case 2: o.accessors(q, make_ep<EP, D>(q, ip_of<D>(peer), pp)); break;
        case 3: { o.set_timeout(some_timeout(q)); break; }
        case 4: case 5: case 6: case 7: case 8: {
            static const int sizes[] = {1, 0, 4, 100, 1472, 9000, 65507, 65508, 700};
            Bytes b(sizes[q.below(9)]); for (auto& x : b) x = (uint8_t)q.next();
            auto e = make_ep<EP, D>(q, ip_of<D>(peer), pp);
            Span k; errno = 0;
            ssize_t r = o.s->send_to(b.data(), b.size(), e);
            int err = errno;
            const Wire* w = nullptr; int n = k.nsent(&w), ok = 0; const SysCall* c = nullptr; k.calls(SC_SEND, &ok, &c);
            if (r >= 0) {
                S01(n == 1 && w->bytes == b && r == (ssize_t)b.size(), "send", "%s: send_to of %zu bytes returns %zd, %d datagrams left the node", o.where().c_str(), b.size(), r, n);
                S01(n != 1 || (w->dst_ip == v4part(e) && w->dst_port == e.port()), "send", "%s: send_to(%s) sent the datagram to port %d", o.where().c_str(), e.to_string().c_str(), n ? w->dst_port : 0);
            } else S01(n == 0 && c && c->err == err, "send", "%s: send_to returns an error (%s) but %d datagrams left the node", o.where().c_str(), strerror(err), n);
            o.check("send_to"); sh->notes[1]++; mixshape(0x20 + (r < 0)); break; }
        case 9: case 10: case 11: case 12: {
            static const size_t lens[] = {65536, 65536, 1, 100, 1472, 0};
            Bytes b(lens[q.below(6)] + 8, 0xA5); size_t len = b.size() - 8;
            EP e = q.coin() ? EP() : EP(ip_of<D>(peer), 9);
            Span k; errno = 0;
            ssize_t r = o.s->receive_from(b.data(), len, e);
            int err = errno; int n = 0; const Rx* x = nullptr; Bytes got = k.received(&n, &x);
            const SysCall* c = nullptr; k.calls(SC_RECV, nullptr, &c);
            if (r >= 0 && n) {
                S01(n == 1 && (size_t)r == got.size() && memcmp(b.data(), got.data(), got.size()) == 0, "receive", "%s: receive_from returns %zd bytes, the system delivered %zu", o.where().c_str(), r, got.size());
                S01(v4part(e) == x->src_ip && e.port() == x->src_port, "receive-from", "%s: a datagram from %08x port %d is reported as from %s", o.where().c_str(), x->src_ip, x->src_port, e.to_string().c_str());
                sh->notes[2]++;
            } else if (r >= 0) S01(r == 0 && c && c->ret == 0, "receive", "%s: receive_from returns %zd but nothing arrived", o.where().c_str(), r);
            else S01(n == 0 && c && c->ret < 0 && c->err == err, "receive", "%s: receive_from returns an error (%s) but a datagram was taken", o.where().c_str(), strerror(err));
            bool canary = true; for (size_t j = (size_t)std::max<ssize_t>(r, 0); j < b.size(); ++j) if (b[j] != 0xA5) canary = false;
            S01(canary, "receive", "%s: receive_from changes the buffer behind the %zd bytes it returns", o.where().c_str(), r);
            if (r < 0 && (err == EAGAIN || err == EWOULDBLOCK)) {
                S01(k.took() + MS >= o.timeout * SEC, "timeout", "%s: receive_from gives up after %.3f s, the timeout is %lu s", o.where().c_str(), k.took() / 1e9, (unsigned long)o.timeout);
                sh->notes[3]++;
            }
            S01(k.took() <= o.timeout * SEC + k.slack(), "timeout", "%s: receive_from took %.3f s, the timeout is %lu s", o.where().c_str(), k.took() / 1e9, (unsigned long)o.timeout);
            o.check("receive_from"); mixshape(0x24 + (r < 0)); break; }
        case 13: { static const int ms[] = {0, 1, 50, 900}; uint64_t t = ms[q.below(4)]; Span k; bool r = o.s->wait_readable(std::chrono::milliseconds(t)); wait_judged(r, k, t, false, o.where()); break; }
        case 14: { int f = o.fd; bool was = o.open; o.s->close(); o.open = false; if (was) o.closed_now(me, {{f, o.id}}, "close()"); o.fd = -1; o.check("close"); if (q.coin()) { o.s->close(); o.closed_now(me, {}, "a second close()"); o.check("a second close"); } break; }
        default: { int f = o.open ? o.fd : -1; o.s.reset(); o.closed_now(me, {{f, o.id}}, "destruction"); o.open = false; o.fd = -1; break; }
        }
        if (q.below(3) == 0) sleep_ns(q.below(1000) * 10000);
    }
    for (auto& o : objs) { int f = o.open ? o.fd : -1; o.s.reset(); o.closed_now(me, {{f, o.id}}, "destruction"); }
}

// ---- TCP ---------------------------------------------------------------------------------------------------------
template <int D> struct Tcp : Obj<vs::stream_socket<D>> {
    int acc = -1, acc_id = -1; uint64_t lt = 3; bool connected = false, listening = false; Bytes kept;    // kept: bytes read but not handed out by read_packet
    int active() const { return acc >= 0 ? acc : this->fd; }
};
size_t frame_of(const Bytes& b) { return b.size() < 4 ? 0 : ((size_t)b[2] << 8 | b[3]) * 4; }

template <class O> void tcp_write(O& o, Rng& q, bool all) {
    static const int sizes[] = {1, 4, 64, 1000, 20000, 90000, 0};
    Bytes b(sizes[q.below(7)]);
    if (q.below(4)) {                                               // whole packets
        b.clear(); int n = 1 + (int)q.below(4);
        for (int i = 0; i < n; ++i) { size_t w = 1 + q.below(W->small_buf ? 40 : 900); size_t at = b.size(); b.resize(at + w * 4); for (size_t j = at; j < b.size(); ++j) b[j] = (uint8_t)q.next(); b[at + 2] = w >> 8; b[at + 3] = (uint8_t)w; }
    } else for (auto& x : b) x = (uint8_t)q.next();
    Span k; errno = 0; int fd = o.active(); uint64_t cid = tcp_conn(self_node(), fd);
    ssize_t r = all ? o.s->write_all(b.data(), b.size()) : o.s->write_some(b.data(), b.size());
    int err = errno; Bytes w = k.sent(); const SysCall* c = nullptr; k.calls(SC_SEND, nullptr, &c);
    const Wire* lw = nullptr; k.nsent(&lw);
    if (lw && cid != ~0ull) S01((lw->conn >> 1) == cid, "write", "%s: data is written to another connection", o.where().c_str());
    S01(w.size() <= b.size() && std::equal(w.begin(), w.end(), b.begin()), "write", "%s: the bytes that left differ from the given ones", o.where().c_str());
    if (all) {
        if (r >= 0) S01((size_t)r == b.size() && w.size() == b.size(), "write", "%s: write_all of %zu bytes returns %zd, %zu left", o.where().c_str(), b.size(), r, w.size());
        else S01(c && c->ret < 0 && w.size() < b.size(), "write", "%s: write_all of %zu bytes returns %zd, %zu left", o.where().c_str(), b.size(), r, w.size());
    } else if (r >= 0) S01((size_t)r == w.size() || (c && c->ret == r), "write", "%s: write_some returns %zd, %zu bytes left", o.where().c_str(), r, w.size());
    else S01(w.empty() && c && c->ret < 0 && c->err == err, "write", "%s: write_some returns an error (%s), %zu bytes left", o.where().c_str(), strerror(err), w.size());
    sh->notes[1]++; mixshape(0x30 + (r < 0) + 2 * all);
    o.check("a write");
}
template <class O> ssize_t tcp_read(O& o, Rng& q) {
    static const size_t lens[] = {1, 4, 100, 4096, 65536};
    size_t len = lens[q.below(5)]; Bytes b(len + 8, 0xA5);
    int fd = o.active(); uint64_t cid = tcp_conn(self_node(), fd);
    Span k; errno = 0;
    ssize_t r = o.s->read_some(b.data(), len);
    int err = errno, n = 0; const Rx* x = nullptr; Bytes got = k.received(&n, &x); const SysCall* c = nullptr; k.calls(SC_RECV, nullptr, &c);
    if (r >= 0) S01((size_t)r == got.size() && std::equal(got.begin(), got.end(), b.begin()), "read", "%s: read_some returns %zd bytes, the system delivered %zu", o.where().c_str(), r, got.size());
    else S01(n == 0 && c && c->ret < 0 && c->err == err, "read", "%s: read_some returns an error (%s) but data was taken", o.where().c_str(), strerror(err));
    if (x && cid != ~0ull) S01((x->conn >> 1) == cid, "read", "%s: data is read from another connection", o.where().c_str());
    bool canary = true; for (size_t j = (size_t)std::max<ssize_t>(r, 0); j < b.size(); ++j) if (b[j] != 0xA5) canary = false;
    S01(canary, "read", "%s: read_some changes the buffer behind the %zd bytes it returns", o.where().c_str(), r);
    if (r < 0 && (err == EAGAIN || err == EWOULDBLOCK)) { S01(k.took() + MS >= o.timeout * SEC, "timeout", "%s: read_some gives up after %.3f s, the timeout is %lu s", o.where().c_str(), k.took() / 1e9, (unsigned long)o.timeout); sh->notes[3]++; }
    S01(k.took() <= o.timeout * SEC + k.slack(), "timeout", "%s: read_some took %.3f s, the timeout is %lu s", o.where().c_str(), k.took() / 1e9, (unsigned long)o.timeout);
    if (n) sh->notes[2]++;
    mixshape(0x34 + (r < 0));
    return r;
}
template <class O> ssize_t tcp_packet(O& o, Rng&) {
    std::vector<uint8_t> p(3, 7);
    Span k; errno = 0;
    ssize_t r = o.s->read_packet(p);
    int err = errno, n = 0; Bytes got = k.received(&n); int ok = 0; const SysCall* c = nullptr; int nc = k.calls(SC_RECV, &ok, &c);
    o.kept.insert(o.kept.end(), got.begin(), got.end());
    size_t f = frame_of(o.kept);
    if (r > 0) {
        S01(f && f <= o.kept.size() && p.size() == f && (size_t)r == f && std::equal(p.begin(), p.end(), o.kept.begin()), "packet", "%s: read_packet returns %zd bytes (%zu), the stream holds a packet of %zu (%zu bytes)", o.where().c_str(), r, p.size(), f, o.kept.size());
        o.kept.erase(o.kept.begin(), o.kept.begin() + std::min(f, o.kept.size()));
        sh->notes[4]++;
    } else if (r == 0) {
        S01(nc && c->ret == 0, "packet", "%s: read_packet reports the end of a stream that has not ended", o.where().c_str());
        o.kept.clear();
    } else {
        S01(!(f && f <= o.kept.size()), "packet", "%s: read_packet returns an error (%s) although a packet of %zu bytes is complete", o.where().c_str(), strerror(err), f);
        S01(nc > 0, "packet", "%s: read_packet fails without reading", o.where().c_str());
        if (o.kept.size() >= 4 && f == 0) o.kept.clear();           // not a packet
        else if (n) S01(err == EAGAIN, "packet", "%s: read_packet fails with %s although it received a part of a packet", o.where().c_str(), strerror(err));
    }
    S01(k.took() <= o.timeout * SEC + k.slack(), "timeout", "%s: read_packet took %.3f s, the timeout is %lu s", o.where().c_str(), k.took() / 1e9, (unsigned long)o.timeout);
    mixshape(0x38 + (r < 0));
    return r;
}
template <class O> void tcp_end(O& o, bool destroy, const char* how) {
    int f = o.open ? o.fd : -1, a = o.acc;
    if (destroy) o.s.reset(); else o.s->close();
    o.closed_now(self_node(), {{f, o.id}, {a, o.acc_id}}, how);
    o.open = false; o.fd = o.acc = -1; o.connected = o.listening = false; o.kept.clear();
    if (!destroy) o.check(how);
}
template <class O> void tcp_io(O& o, Rng& q, bool& dead) {
    dead = false;
    switch (q.below(9)) {
    case 0: case 1: tcp_write(o, q, q.coin()); break;
    case 2: tcp_write(o, q, true); break;
    case 3: case 4: if (o.kept.empty()) dead = tcp_read(o, q) == 0; else dead = tcp_packet(o, q) == 0; break;
    case 5: case 6: case 7: dead = tcp_packet(o, q) == 0; break;
    default: {
        static const int ms[] = {0, 1, 50, 900}; uint64_t t = ms[q.below(4)]; Span k;
        size_t f = frame_of(o.kept); bool there = f && f <= o.kept.size();
        bool r = o.s->wait_readable(std::chrono::milliseconds(t));
        S01(r || !there, "wait", "%s: wait_readable() reports nothing although a packet is complete", o.where().c_str());
        wait_judged(r, k, t, there, o.where()); }
    }
}
template <int D> void tcp_server(int ai, int nops) {
    using EP = typename vs::stream_socket<D>::endpoint_type;
    int me = self_node(); Tcp<D> o;
    for (int i = 0; i < nops; ++i) {
        if (!op_enabled((uint32_t)(ai * 60 + i) % 256)) continue;
        Rng q(W->seed * 977 + ai * 131071 + i);
        sh->app_events++;
        if (!o.s) { if (!o.create()) { sh->notes[0]++; continue; } o.lt = 3; }
        if (!o.open) { tcp_end(o, true, "destruction of a closed socket"); continue; }
        if (!o.listening) {
            o.do_bind(make_ep<EP, D>(q, q.coin() ? ip_of<D>(me) : "", 7100 + (uint16_t)(ai % 2)));
            if (q.below(10) == 0) continue;
            Span k; bool r = o.s->listen(); int ok = 0; k.calls(SC_LISTEN, &ok);
            S01(r == (ok > 0), "listen", "%s: listen() returns %d, the system %s it", o.where().c_str(), r, ok ? "did" : "refused");
            o.listening = r; o.check("listen");
            if (!r && q.coin()) tcp_end(o, true, "destruction");
            continue;
        }
        unsigned x = o.acc < 0 ? 0 : (unsigned)q.below(20);
        if (x == 0) {
            Span k; int old = o.acc, old_id = o.acc_id; errno = 0;
            bool r = o.s->accept();
            int ok = 0; const SysCall* c = nullptr; k.calls(SC_ACCEPT, &ok, &c);
            S01(r == (ok > 0), "accept", "%s: accept() returns %d, the system %s a connection", o.where().c_str(), r, ok ? "returned" : "did not return");
            if (r && c) {
                o.acc = (int)c->ret; o.kept.clear(); o.timeout = o.lt;          // inherited
                auto t = fd_truth(me, o.acc); o.acc_id = t.id;
                S01(t.open, "accept", "%s: the accepted connection is closed at once", o.where().c_str());
                o.dst = EP(D == AF_INET6 ? "::ffff:" + strf("%u.%u.%u.%u", t.pip >> 24, t.pip >> 16 & 255, t.pip >> 8 & 255, t.pip & 255) : strf("%u.%u.%u.%u", t.pip >> 24, t.pip >> 16 & 255, t.pip >> 8 & 255, t.pip & 255), t.pport);
                if (old >= 0) o.closed_now(me, {{old, old_id}}, "accepting another connection");
                sh->notes[5]++;
            } else if (old >= 0) S01(fd_truth(me, old).id == old_id, "accept", "%s: a failed accept() closes the existing connection", o.where().c_str());
            if (!r && c && c->err == EAGAIN) S01(k.took() + MS >= o.lt * SEC, "timeout", "%s: accept gives up after %.3f s", o.where().c_str(), k.took() / 1e9);
            o.check(r ? "accept" : "a failed accept"); mixshape(0x40 + r);
        } else if (x == 1) tcp_end(o, q.coin(), q.coin() ? "close()" : "destruction");
        else if (x == 2) { size_t t = some_timeout(q); o.s->timeout(t); o.lt = t; }     // of the listening descriptor
        else { bool dead; tcp_io(o, q, dead); if (dead && q.coin()) tcp_end(o, q.coin(), "the end of the stream"); }
        if (q.below(3) == 0) sleep_ns(q.below(1000) * 10000);
    }
    tcp_end(o, true, "destruction");
}
template <int D> void tcp_client(int ai, int nops, int server) {
    using EP = typename vs::stream_socket<D>::endpoint_type;
    Tcp<D> o;
    for (int i = 0; i < nops; ++i) {
        if (!op_enabled((uint32_t)(ai * 60 + i) % 256)) continue;
        Rng q(W->seed * 977 + ai * 131071 + i);
        sh->app_events++;
        if (!o.s) { if (!o.create()) { sh->notes[0]++; continue; } if (q.below(4) == 0) o.do_bind(make_ep<EP, D>(q, "", 0)); }
        if (!o.open) { tcp_end(o, true, "destruction of a closed socket"); continue; }
        if (!o.connected) {
            o.connected = o.do_connect(make_ep<EP, D>(q, ip_of<D>(server), 7100 + (uint16_t)q.below(2)));
            if (!o.connected) { sleep_ns(20 * MS); if (q.coin()) tcp_end(o, true, "destruction"); }
            continue;
        }
        unsigned x = (unsigned)q.below(24);
        if (x == 0) { o.kept.clear(); tcp_end(o, q.coin(), "close()"); }
        else if (x == 1) o.set_timeout(some_timeout(q));
        else if (x == 2) { o.do_connect(make_ep<EP, D>(q, ip_of<D>(server), 7100)); }            // already connected: the system refuses it
        else if (x == 3) { o.s->shutdown(SHUT_WR); o.check("shutdown"); }
        else { bool dead; tcp_io(o, q, dead); if (dead && q.coin()) tcp_end(o, q.coin(), "the end of the stream"); }
        if (q.below(3) == 0) sleep_ns(q.below(1000) * 10000);
    }
    tcp_end(o, true, "destruction");
}

void run(const RunSpec& rs) {
    Rng r(rs.seed ^ 0x50C4ull);
    World w{}; W = &w;
    w.seed = rs.seed; w.nodes = 2 + (int)r.below(2); w.tcp = r.coin(); w.small_buf = r.below(3) == 0;
    Swarm s(r); s.sched();
    s.group(50, {K_UDP_LOSS, K_UDP_DUP, K_UDP_DELAY, K_UDP_CORRUPT, K_UDP_TRUNC, K_UDP_EXTEND});
    s.group(60, {K_TCP_DELAY, K_TCP_SEG, K_TCP_SHORT_READ, K_TCP_SHORT_WRITE});
    s.group(30, {K_TCP_RST}, 100, 30000);
    s.group(40, {K_ERR_RECV, K_ERR_SEND, K_ERR_CLOSE});
    s.group(40, {K_ERR_SOCKET, K_ERR_BIND, K_ERR_CONNECT, K_ERR_ACCEPT, K_ERR_LISTEN});
    s.group(20, {K_STALL}, 100, 5000);
    if (w.small_buf) set_tcp_sndbuf(2000);
    std::vector<int> nd; for (int i = 0; i < w.nodes; ++i) nd.push_back(node_new("host"));
    int base = nd[0];
    (void)base;
    std::vector<int> th; int nops = 10 + (int)r.below(45), actors = w.tcp ? 2 + (int)r.below(3) : 2 + (int)r.below(3);
    for (int a = 0; a < actors; ++a) {
        bool v6 = r.below(3) == 0; int node = nd[w.tcp ? (a == 0 ? 0 : r.below(w.nodes)) : a % w.nodes], srv = nd[0];
        th.push_back(spawn(node, "actor", [=] {
            if (!w.tcp) { if (v6) udp_actor<AF_INET6>(a, nops); else udp_actor<AF_INET>(a, nops); }
            else if (a == 0) { if (v6) tcp_server<AF_INET6>(a, nops); else tcp_server<AF_INET>(a, nops); }
            else { if (v6) tcp_client<AF_INET6>(a, nops, srv); else tcp_client<AF_INET>(a, nops, srv); }
        }));
    }
    if (r.below(4) == 0) {
        sleep_ns(r.below(2000) * MS);
        int a = nd[r.below(w.nodes)];
        partition(a, -1, true); sh->partitions++; sleep_ns(r.below(4000) * MS); heal();
    }
    for (int t : th) join(t);
    for (int n : nd) {
        REQUIRE("L02 S01", open_fds(n) == 0, "leak", "node %d: descriptors are left when all sockets are gone: %s", n, describe_fds(n).c_str());
        REQUIRE("L02 S01", bad_closes(n) == 0, "double-close", "node %d: a descriptor was closed that is not open", n);
    }
    sh->notes[w.tcp ? 8 : 7]++;
    sample("%s: %d actors on %d nodes, %d operations each", w.tcp ? "tcp" : "udp", actors, w.nodes, nops);
    finish_ok();
}
SIM_SCENARIO(sock, "sock", "S01 L02", 60, run);
} // namespace
