// Single packets under transport damage: a packet of a class, over a history of updates, is cut, stretched, given a lying size
// or another packet's header, or loses bits where classes are told apart; every class of the system is asked whether the
// bytes are one of its packets.  The reference codec knows which of them are.
#include "common.h"
#include <memory>
#include <stdexcept>
using namespace scn;

namespace {
bool mine(const PacketDesc& d) {
    if (d.cif7 && !(d.cif7 >> 31)) return false;
    if (deciding("D01") || deciding("D02")) return d.kind < COMMAND;
    if (deciding("C01")) return d.kind == COMMAND;
    if (deciding("C02") || deciding("C03")) return d.kind >= ACKVX;
    return true;
}

Bytes hurt(const sysif::System& sys, Bytes b, Rng& q) {
    auto words = [&](size_t n) { b[2] = (uint8_t)(n >> 8); b[3] = (uint8_t)n; };
    auto junk = [&](size_t n) { while (n--) b.push_back((uint8_t)(q.coin() ? 0 : q.next())); };
    if (b.size() < 8) return b;
    switch (q.below(11)) {
    case 0: b.resize(q.below(b.size())); break;
    case 1: b.resize(b.size() - 1 - q.below(std::min<size_t>(b.size() - 4, 12))); break;
    case 2: b.resize(4 * (1 + q.below(b.size() / 4))); words(b.size() / 4); break;      // a short packet, honest about it
    case 3: junk(1 + q.below(24)); break;
    case 4: junk(4 * (1 + q.below(6))); words(b.size() / 4); break;                     // room left in the packet
    case 5: b[q.below(2)] ^= 1u << q.below(8); break;
    case 6: case 7: { int n = 1 + (int)q.below(2); while (n--) b[4 + q.below(std::min<size_t>(b.size() - 4, 28))] ^= 1u << q.below(8); break; }
    case 8: words(q.coin() ? b.size() / 4 + 1 - 2 * q.below(2) : q.below(70000)); break;
    case 9: {                                                                           // another class's header
        const PacketDesc* o = sys.table[q.below(sys.table.size())];
        Any x(*o); Model m;
        init_required(*o, x.p, m, q);
        auto s = o->ops.data(x.p);
        size_t n = std::min({s.size(), b.size(), 4 * (1 + (size_t)q.below(5))}), len = b.size() / 4;
        std::copy(s.begin(), s.begin() + n, b.begin());
        words(len);
        break;
    }
    default: b = damage(b, q);
    }
    return b;
}

void run(const RunSpec& rs) {
    Rng r(rs.seed ^ 0x31DEull);
    auto& ss = sysif::all_systems();
    const sysif::System* sys;
    const PacketDesc* d;
    do { sys = ss[r.below(ss.size())]; d = sys->table[r.below(sys->table.size())]; } while (!mine(*d));
    std::vector<const PacketDesc*> all;
    for (auto* x : sys->table) if (mine(*x)) all.push_back(x);
    Any a(*d);
    Model m;
    {
        Rng q(rs.seed * 1000 + 999);
        init_required(*d, a.p, m, q);
        if (d->kind == ACKVX) {
            m.ack_v = q.coin() || d->req_x == NEVER; if (d->req_v == NEVER) m.ack_v = 0; m.ack_x = !m.ack_v;
            d->ops.set_prologue(a.p, m, d->ops.setters() & (W_ACKV | W_ACKX));
        }
        if (d->kind >= COMMAND) { m.msgid = (uint32_t)q.next(); d->ops.set_prologue(a.p, m, W_MSGID); }
    }
    int rounds = 20 + (int)r.below(60), tally[4] = {};
    for (int i = 0; i < rounds; ++i) {
        if (!op_enabled(i)) continue;
        Rng q(rs.seed * 1000 + i);
        mutate(*d, a.p, m, q);
        auto s = d->ops.data(a.p);
        Bytes b(s.begin(), s.end());
        for (int k = (int)q.below(3); k > 0; --k) b = hurt(*sys, b, q);
        for (int k = 0; k < 3; ++k) {
            const PacketDesc* e = k == 0 ? d : all[q.below(all.size())];
            // the bytes end where the allocation ends, and are gone once the packet has been unpacked
            std::unique_ptr<uint8_t[]> buf(new uint8_t[b.size()]);
            std::copy(b.begin(), b.end(), buf.get());
            std::span<const uint8_t> view(buf.get(), b.size());
            Model want;
            std::string why, own;
            auto v = classify(*e, b, want, &why);
            ++tally[v];
            bool taken = false;
            Any got;
            try {
                if (auto no = e->ops.match(view)) own = *no;
                else {
                    taken = true;
                    try { got = Any(*e, e->ops.from(view)); } catch (const std::runtime_error& x) { taken = false; own = x.what(); }
                }
            } catch (const std::exception& x) {
                REQUIRE("C01 C02 C03 D01 D02 D03 R01", false, "throws", "%s/%s: looking at received bytes throws %s, which nothing on the way to the receive loop catches; bytes %s",
                        sys->ns, e->name, x.what(), hex(b).c_str());
                finish_ok();
            }
            std::fill(buf.get(), buf.get() + b.size(), 0xEE);
            buf.reset();
            ev(220, (uint64_t)v << 8 | taken);
            if (v == VALID) {
                REQUIRE("C01 C02 C03 D01 D02 R01", taken, "refused", "%s/%s: a packet of this class is refused: %s; bytes %s", sys->ns, e->name, own.c_str(), hex(b).c_str());
            } else if (v == NOT_OURS) {
                REQUIRE("C01 C03 D02", !taken, "mistaken", "%s/%s: bytes are taken for a packet of this class although they are not (%s); bytes %s", sys->ns, e->name, why.c_str(),
                        hex(b).c_str());
            } else if (v == TRUNCATED) {
                REQUIRE("C01 C02 C03 D01 D02 D03", !taken, "completed", "%s/%s: a cut off packet is accepted (%s); bytes %s", sys->ns, e->name, why.c_str(), hex(b).c_str());
            }
            if (!taken) continue;
            Model x = snapshot(*e, got.p);
            auto out = e->ops.data(got.p);
            evbytes(221, out.data(), out.size());
            if (v == VALID) {
                std::string df = diff(*e, want, x);
                REQUIRE("C01 C02 D01 D03", df.empty(), "contents", "%s/%s: the received object has %s; bytes %s", sys->ns, e->name, df.c_str(), hex(b).c_str());
                REQUIRE("C01 C02 D01 D03", Bytes(out.begin(), out.end()) == b, "bytes", "%s/%s: the received object holds other bytes: %s, received %s", sys->ns, e->name,
                        hex(Bytes(out.begin(), out.end())).c_str(), hex(b).c_str());
            }
            sh->app_events++;
        }
    }
    sample("%s/%s: %d packets; %d valid, %d of another kind, %d cut off, %d open", sys->ns, d->name, rounds, tally[VALID], tally[NOT_OURS], tally[TRUNCATED], tally[ODD]);
}
SIM_SCENARIO(wire, "wire", "C01 C02 C03 D01 D02 D03 R01", 20, run);
} // namespace
