// One packet object over a random history of documented updates, serialised at arbitrary moments.
#include "system.h"
using namespace sim;
using namespace pkt;

static const char* prop_of(const PacketDesc& d) {
    // the property a damaged object violates, depending on who would see it
    const char* c = d.kind == COMMAND ? "C01" : d.kind >= ACKVX ? "C02" : "D01";
    return deciding(c) ? c : "C07";
}

// a class whose CIF7 carries attributes but not the current values
static bool attributes_only(const PacketDesc& d) { return d.cif7 && !(d.cif7 >> 31); }

static void run(const RunSpec& rs) {
    Rng r(rs.seed ^ 0xC0DECull);
    auto& ss = sysif::all_systems();
    auto& sys = *ss[r.below(ss.size())];
    const PacketDesc* d;
    for (;;) {
        d = sys.table[r.below(sys.table.size())];
        if (deciding("C07") || (deciding(prop_of(*d)) && !attributes_only(*d))) break;
    }
    const char* P = prop_of(*d);
    size_t pi = 0;
    for (size_t i = 0; i < sys.table.size(); ++i) if (sys.table[i] == d) pi = i;
    (void)pi;
    Any a(*d);
    Model m;
    if (attributes_only(*d)) {
        // the indicator word says that no values accompany the attributes, so there must be none
        Rng q(rs.seed * 1000 + 998);
        init_required(*d, a.p, m, q);
        auto s = d->ops.data(a.p);
        size_t want = 4 * (2 + 2 + d->f[0].words);      // header, stream identifier, CIF0, CIF7, mean value
        bool known = s.size() == want + 4 * d->f[0].words;      // the current value as well, and nothing else amiss
        SIM_CHECK("C07", s.size() == want, known ? "no-current-value" : "attributes-only-size", "%s/%s has attributes without current values: expected %zu bytes, got %zu: %s", sys.ns, d->name, want,
                  s.size(), hex(Bytes(s.begin(), s.end())).c_str());
        finish_ok();
    }
    {
        Rng q(rs.seed * 1000 + 999);
        init_required(*d, a.p, m, q);
        if (d->kind == ACKVX) {
            m.ack_v = q.coin() || d->req_x == NEVER; if (d->req_v == NEVER) m.ack_v = 0; m.ack_x = !m.ack_v;
            uint32_t have = d->ops.setters();
            if (!(have & W_ACKV) && !(have & W_ACKX)) { }
            d->ops.set_prologue(a.p, m, have & (W_ACKV | W_ACKX));
        }
        if (d->kind >= COMMAND) { m.msgid = (uint32_t)q.next(); d->ops.set_prologue(a.p, m, W_MSGID); }
    }
    int nops = 4 + (int)r.below(60), checks = 0;
    for (int i = 0; i < nops; ++i) {
        if (!op_enabled(i)) continue;
        Rng q(rs.seed * 1000 + i);
        mutate(*d, a.p, m, q);
        ev(200, i);
        if (i + 1 < nops && q.below(3)) continue;
        auto s = d->ops.data(a.p);
        Bytes b(s.begin(), s.end());
        evbytes(201, b.data(), b.size());
        ++checks;
        Model got;
        std::string why = decode(*d, b, got);
        SIM_CHECK(P, why.empty(), "malformed", "%s/%s after %d updates is not well formed: %s; contents %s; bytes %s", sys.ns, d->name, i + 1, why.c_str(),
                  show(*d, m).c_str(), hex(b).c_str());
        if (!why.empty()) finish_ok();
        std::string df = diff(*d, m, got);
        SIM_CHECK(P, df.empty(), "contents", "%s/%s after %d updates: serialised %s; bytes %s", sys.ns, d->name, i + 1, df.c_str(), hex(b).c_str());
        SIM_CHECK(P, encode(*d, m) == b, "bytes", "%s/%s after %d updates: expected %s, got %s", sys.ns, d->name, i + 1, hex(encode(*d, m)).c_str(), hex(b).c_str());
        SIM_CHECK(P, d->ops.size(a.p) == b.size(), "size", "%s/%s: size() differs from the length of data()", sys.ns, d->name);
        auto mt = d->ops.match(std::span<const uint8_t>(b.data(), b.size()));
        SIM_CHECK(P, !mt, "match", "%s/%s: own packet is not matched: %s; bytes %s", sys.ns, d->name, mt ? mt->c_str() : "", hex(b).c_str());
        try {
            Any c(*d, d->ops.from(std::span<const uint8_t>(b.data(), b.size())));
            df = diff(*d, m, snapshot(*d, c.p));
            SIM_CHECK(P, df.empty(), "unpacked", "%s/%s after %d updates: received object has %s; bytes %s", sys.ns, d->name, i + 1, df.c_str(), hex(b).c_str());
            if (q.below(4) == 0) { a = std::move(c); }      // go on with the received object
        } catch (const std::exception& e) {
            SIM_CHECK(P, false, "unpack-throws", "%s/%s: unpacking its own bytes throws %s; bytes %s", sys.ns, d->name, e.what(), hex(b).c_str());
        }
        df = diff(*d, m, snapshot(*d, a.p));
        SIM_CHECK(P, df.empty(), "getters", "%s/%s after %d updates: object reads back %s", sys.ns, d->name, i + 1, df.c_str());
        sh->app_events++;
    }
    sample("%s/%s: %d updates, %d serialisations", sys.ns, d->name, nops, checks);
}
SIM_SCENARIO(codec, "codec", "C01 C02 C07 D01", 50, run);
