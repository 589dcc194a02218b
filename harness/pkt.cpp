// The independent model of packet contents: encoder, strict decoder, random histories.
#include "pkt.h"
#include "system.h"
#include <algorithm>
#include <cstdio>
#include <stdexcept>

namespace sysif {
std::vector<System*>& systems() { static std::vector<System*> v; return v; }
std::vector<System*>& all_systems() { static std::vector<System*> v; return v; }
}

namespace pkt {

static uint64_t mask(int bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }

std::string uuid_text(const Vals& v, size_t at) {
    char b[48];
    uint32_t w[4];
    for (int i = 0; i < 4; ++i) w[i] = (uint32_t)v[at + i];
    snprintf(b, sizeof b, "%08x-%04x-%04x-%04x-%04x%08x", w[0], w[1] >> 16, w[1] & 0xffff, w[2] >> 16, w[2] & 0xffff, w[3]);
    return b;
}
void uuid_parse(const std::string& s, Vals& out) {
    out.clear();
    std::string h;
    for (char c : s) if (c != '-') h += c;
    for (size_t i = 0; i + 8 <= h.size(); i += 8) out.push_back((int64_t)strtoul(h.substr(i, 8).c_str(), nullptr, 16));
}

std::string hex(const Bytes& b, size_t max) {
    std::string s;
    char t[4];
    for (size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, sizeof t, "%02x", b[i]); s += t; if (i % 4 == 3) s += ' '; }
    if (b.size() > max) s += "...(" + std::to_string(b.size()) + " bytes)";
    return s;
}

// ---- bit access: offset counted from the most significant bit of the first byte ---------------------------------
static uint64_t getbits(const uint8_t* p, size_t off, int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; ++i, ++off) v = (v << 1) | ((p[off / 8] >> (7 - off % 8)) & 1);
    return v;
}
static void setbits(uint8_t* p, size_t off, int n, uint64_t v) {
    for (int i = n - 1; i >= 0; --i, ++off) {
        uint8_t m = 1 << (7 - off % 8);
        if ((v >> i) & 1) p[off / 8] |= m; else p[off / 8] &= ~m;
    }
}
static size_t bitoff(const Sub& s) { return (size_t)s.word * 32 + (31 - s.msb); }
static int64_t sext(uint64_t v, int bits) {
    if (bits < 64 && (v >> (bits - 1)) & 1) v |= ~mask(bits);
    return (int64_t)v;
}

static void put_subs(const std::vector<Sub>& subs, const Vals& v, uint8_t* p) {
    for (size_t i = 0; i < subs.size(); ++i) {
        const Sub& s = subs[i];
        size_t o = bitoff(s);
        switch (s.kind) {
        case 'e': if (v[i] >= 0) { setbits(p, o - 12, 1, 1); setbits(p, o, 1, v[i] & 1); } break;
        case 't': if (v[i] >= 0) { setbits(p, o - 12, 2, 3); setbits(p, o, 2, v[i] & 3); } break;
        case 'E': if (v[i] >= 0) { setbits(p, o - 12, s.bits, mask(s.bits)); setbits(p, o, s.bits, v[i]); } break;
        case 'a': if (v[i] >= 0) { setbits(p, 24, 1, 1); setbits(p, o, s.bits, v[i]); } break;
        case 'o': setbits(p, o, s.bits, (uint64_t)(v[i] - 1) & mask(s.bits)); break;
        default: setbits(p, o, s.bits, (uint64_t)v[i] & mask(s.bits));
        }
    }
}
// returns false when reserved bits are set
static bool get_subs(const std::vector<Sub>& subs, const uint8_t* p, int words, Vals& v) {
    v.clear();
    for (auto& s : subs) {
        size_t o = bitoff(s);
        uint64_t raw = getbits(p, o, s.bits);
        switch (s.kind) {
        case 'e': v.push_back(getbits(p, o - 12, 1) ? (int64_t)raw : -1); break;
        case 't': v.push_back(getbits(p, o - 12, 2) == 3 ? (int64_t)raw : -1); break;
        case 'E': v.push_back(getbits(p, o - 12, s.bits) == mask(s.bits) ? (int64_t)raw : -1); break;
        case 'a': v.push_back(getbits(p, 24, 1) ? (int64_t)raw : -1); break;
        case 'o': v.push_back(s.bits == 16 ? (raw + 1) & 0xffff : (int64_t)raw + 1); break;      // accessors of 16 bits give 0 for 65536
        case 's': case 'f': v.push_back(sext(raw, s.bits)); break;
        default: v.push_back((int64_t)raw);
        }
    }
    Bytes again(words * 4, 0);
    put_subs(subs, v, again.data());
    return memcmp(again.data(), p, again.size()) == 0;
}

// ---- encoding ---------------------------------------------------------------------------------------------------
static void w32(Bytes& b, uint32_t v) { for (int i = 3; i >= 0; --i) b.push_back(v >> (8 * i)); }
static uint32_t r32(const Bytes& b, size_t at) { return (uint32_t)b[at] << 24 | b[at + 1] << 16 | b[at + 2] << 8 | b[at + 3]; }

static void put_field(const FieldDesc& f, const Vals& v, Bytes& b) {
    switch (f.shape) {
    case FIXED: { size_t at = b.size(); b.resize(at + f.words * 4, 0); put_subs(f.subs, v, b.data() + at); break; }
    case INDEX: {
        size_t bytes = v.size() * f.elem_bits / 8;
        w32(b, (uint32_t)(2 + (bytes + 3) / 4));
        w32(b, (uint32_t)(f.elem_bits == 8 ? 1 : f.elem_bits == 16 ? 2 : 4) << 28 | (uint32_t)(v.size() & 0xfffff));
        for (auto x : v) for (int i = f.elem_bits / 8 - 1; i >= 0; --i) b.push_back((uint64_t)x >> (8 * i));
        while (b.size() % 4) b.push_back(0);
        break;
    }
    case GPS:
        w32(b, (uint32_t)v[0] & 0xffffff); w32(b, (uint32_t)((v.size() - 1) / 4));
        for (size_t i = 1; i < v.size(); ++i) b.push_back((uint8_t)v[i]);
        break;
    case CAL:
        w32(b, (uint32_t)(v[0] & 0x1ff) << 16 | (v[1] & 0x1ff));
        w32(b, (uint32_t)(v[2] & 0xffff) << 16 | (v[4] ? 0x8000u : 0) | (v[3] & 0x7fff));
        for (size_t i = 5; i < v.size(); ++i) w32(b, (uint32_t)v[i]);
        break;
    case FLAG: break;
    }
}
static void put_weif(const std::vector<FieldDesc>& t, const std::vector<std::optional<Vals>>& v, uint32_t w[3]) {
    w[0] = w[1] = w[2] = 0;
    for (size_t i = 0; i < t.size(); ++i) if (v[i]) w[t[i].cif] |= 1u << t[i].bit;
    if (w[1]) w[0] |= 1u << 1;
    if (w[2]) w[0] |= 1u << 2;
}
static void put_id(IdKind k, const Vals& v, Bytes& b) {
    if (k == ID_WORD) w32(b, (uint32_t)v[0]);
    if (k == ID_UUID) for (int i = 0; i < 4; ++i) w32(b, (uint32_t)v[i]);
}
static uint32_t cam_of(const PacketDesc& d, const Model& m) {
    uint32_t c = d.cam_fixed & ~(3u << 23);
    c |= (uint32_t)(m.action & 3) << 23 | (uint32_t)(m.timing & 7) << 12;
    if (d.kind == COMMAND) {
        c |= (uint32_t)(m.req_v & 1) << 20 | (uint32_t)(m.req_x & 1) << 19 | (uint32_t)(m.req_s & 1) << 18;
        c |= (uint32_t)d.req_w << 17 | (uint32_t)d.req_er << 16;
    } else {
        c |= (uint32_t)(m.ack_v & 1) << 20 | (uint32_t)(m.ack_x & 1) << 19 | (d.kind == ACKS ? 1u << 18 : 0);
        bool w = false, e = false;
        for (auto& x : m.w) w |= x.has_value();
        for (auto& x : m.e) e |= x.has_value();
        c |= (uint32_t)w << 17 | (uint32_t)e << 16;
        c |= (uint32_t)(m.partial & 1) << 11 | (uint32_t)(m.sched & 1) << 10;
    }
    return c;
}

Bytes encode(const PacketDesc& d, const Model& m) {
    Bytes b;
    w32(b, 0);
    if (d.has_sid) w32(b, m.sid);
    if (d.has_class) { w32(b, (m.pad & 31) << 27 | (d.oui & 0xffffff)); w32(b, (d.any_info ? m.info : d.info) << 16 | d.code); }
    if (d.tsi) w32(b, m.its);
    if (d.tsf) { w32(b, m.fts >> 32); w32(b, (uint32_t)m.fts); }
    if (d.kind >= COMMAND) {
        w32(b, cam_of(d, m));
        w32(b, m.msgid);
        put_id(d.controllee, m.controllee, b);
        put_id(d.controller, m.controller, b);
    }
    if (d.kind == ACKVX) {
        uint32_t w[3], e[3];
        put_weif(d.w, m.w, w);
        put_weif(d.e, m.e, e);
        for (auto x : w) if (x) w32(b, x);
        for (auto x : e) if (x) w32(b, x);
        for (size_t i = 0; i < d.w.size(); ++i) if (m.w[i]) put_field(d.w[i], *m.w[i], b);
        for (size_t i = 0; i < d.e.size(); ++i) if (m.e[i]) put_field(d.e[i], *m.e[i], b);
    } else if (d.kind != DATA) {
        uint32_t c[3];
        put_weif(d.f, m.f, c);
        if (d.cif_req[1]) c[0] |= 1u << 1;
        if (d.cif_req[2]) c[0] |= 1u << 2;
        if (d.cif7) c[0] |= 1u << 7;
        w32(b, c[0] | (m.change ? 1u << 31 : 0));
        if (c[0] & 2) w32(b, c[1]);
        if (c[0] & 4) w32(b, c[2]);
        if (d.cif7) w32(b, d.cif7);
        for (size_t i = 0; i < d.f.size(); ++i) if (m.f[i]) put_field(d.f[i], *m.f[i], b);
    } else {
        b.insert(b.end(), m.payload.begin(), m.payload.end());
        while (b.size() % 4) b.push_back(0);
        if (d.has_trailer) { size_t at = b.size(); b.resize(at + 4, 0); put_subs(d.trailer, m.trailer, b.data() + at); }
    }
    uint32_t h = (uint32_t)d.type << 28 | (d.has_class ? 1u << 27 : 0) | d.indicators << 24 | (uint32_t)(d.any_tsm && m.tsm) << 24 | (uint32_t)(d.tsi == ANY ? m.tsi : d.tsi) << 22 |
                 (uint32_t)(d.tsf == ANY ? m.tsf : d.tsf) << 20 | (m.count & 15) << 16 | (uint32_t)((b.size() / 4) & 0xffff);
    for (int i = 0; i < 4; ++i) b[i] = h >> (24 - 8 * i);
    return b;
}

// ---- decoding -----------------------------------------------------------------------------------------------------
struct Cursor {
    const Bytes& b; size_t at = 0, end; bool short_ = false;
    bool need(size_t n) { if (short_ || end - at < n) { short_ = true; return false; } return true; }
    uint32_t u32() { if (!need(4)) return 0; at += 4; return r32(b, at - 4); }
};

// strict: "" means b is exactly one well-formed packet of this class
Verdict classify(const PacketDesc& d, const Bytes& b, Model& m, std::string* why) {
    auto no = [&](Verdict v, const std::string& s) { if (why) *why = s; return v; };
    m = Model{};
    if (b.size() < 4) return no(TRUNCATED, "no complete header word");
    uint32_t h = r32(b, 0);
    if ((int)(h >> 28) != d.type) return no(NOT_OURS, "packet type " + std::to_string(h >> 28));
    if ((bool)(h >> 27 & 1) != d.has_class) return no(NOT_OURS, "class identifier presence");
    uint32_t reserved = d.kind == DATA ? 0 : d.kind >= COMMAND ? 2 : 4;
    if (((h >> 24 & 7) & ~(reserved | d.any_tsm)) != (d.indicators & ~reserved)) return no(NOT_OURS, "header indicator bits");
    if (d.tsi != ANY && (int)(h >> 22 & 3) != d.tsi) return no(NOT_OURS, "integer timestamp type");
    if (d.tsf != ANY && (int)(h >> 20 & 3) != d.tsf) return no(NOT_OURS, "fractional timestamp type");
    m.count = h >> 16 & 15;
    if (d.tsi == ANY) m.tsi = h >> 22 & 3;
    if (d.tsf == ANY) m.tsf = h >> 20 & 3;
    if (d.any_tsm) m.tsm = h >> 24 & 1;
    size_t len = (size_t)(h & 0xffff) * 4;
    bool odd = false;
    std::string oddwhy;
    auto mark = [&](const std::string& s) { if (!odd) oddwhy = s; odd = true; };
    if ((h >> 24 & 7 & reserved) != (d.indicators & reserved)) mark("reserved indicator bit");
    bool lying = len > b.size();
    size_t end = std::min(len, b.size());
    Cursor c{b, 4, std::max<size_t>(end, 4)};
    if ((d.tsi == ANY && !m.tsi) || (d.tsf == ANY && !m.tsf)) mark("no timestamp where the class has one");
    if (d.has_sid) m.sid = c.u32();
    if (m.sid & ~d.sid_mask) mark("reserved bits of the stream identifier");
    if (d.has_class) {
        uint32_t a = c.u32(), k = c.u32();
        if (c.short_) return no(TRUNCATED, "class identifier cut off");
        m.pad = a >> 27;
        m.info = k >> 16;
        if ((a & 0xffffff) != d.oui || (k & 0xffff) != d.code || (!d.any_info && m.info != d.info)) return no(NOT_OURS, "class identifier");
        if (a >> 24 & 7) mark("reserved bits of the class identifier");
        if (m.pad && d.kind != DATA) mark("pad bits on a packet without payload");
    }
    if (d.tsi) m.its = c.u32();
    if (d.tsf) { m.fts = (uint64_t)c.u32() << 32; m.fts |= c.u32(); }
    if (c.short_) return no(TRUNCATED, "prologue cut off");
    bool ack_w = false, ack_er = false;
    if (d.kind >= COMMAND) {
        uint32_t cam = c.u32();
        if (c.short_) return no(TRUNCATED, "CAM cut off");
        m.action = cam >> 23 & 3;
        m.timing = cam >> 12 & 7;
        uint32_t idbits = 15u << 28, moot = 0;       // the format of an identifier that is absent means nothing
        if (!(d.cam_fixed >> 31 & 1)) moot |= 1u << 30;
        if (!(d.cam_fixed >> 29 & 1)) moot |= 1u << 28;
        if ((cam & idbits & ~moot) != (d.cam_fixed & idbits & ~moot)) return no(NOT_OURS, "CAM identifier bits");
        if (cam & moot) mark("format of an absent identifier");
        if ((cam ^ d.cam_fixed) & (7u << 25)) mark("CAM permission bits");
        if ((cam >> 23 & 3) != (d.cam_fixed >> 23 & 3)) return no(NOT_OURS, "action mode");
        uint32_t known;
        if (d.kind == COMMAND) {
            m.req_v = cam >> 20 & 1; m.req_x = cam >> 19 & 1; m.req_s = cam >> 18 & 1;
            struct { int got; Req r; const char* n; } rq[3] = {{m.req_v, d.req_v, "v"}, {m.req_x, d.req_x, "x"}, {m.req_s, d.req_s, "s"}};
            for (auto& q : rq) {
                if (q.r == ALWAYS && !q.got) return no(NOT_OURS, std::string("req_") + q.n);
                if (q.r == NEVER && q.got) mark(std::string("req_") + q.n + " not enabled by the class");
            }
            bool w = cam >> 17 & 1, er = cam >> 16 & 1;
            if ((d.req_w && !w) || (d.req_er && !er)) return no(NOT_OURS, "req_w/req_er");
            if (w != d.req_w || er != d.req_er) mark("req_w/req_er not enabled by the class");
            known = 0xff800000u | 31u << 16 | 7u << 12;
        } else {
            m.ack_v = cam >> 20 & 1; m.ack_x = cam >> 19 & 1;
            bool s = cam >> 18 & 1;
            if (d.kind == ACKVX) {
                if (s) { if (m.ack_v || m.ack_x) mark("several acknowledgement kinds"); else return no(NOT_OURS, "status acknowledgement"); }
                if (!m.ack_v && !m.ack_x) return no(NOT_OURS, "neither AckV nor AckX");
                if (m.ack_v && m.ack_x) mark("both AckV and AckX");
            } else {
                if (!s) return no(NOT_OURS, "not a status acknowledgement");
                if (m.ack_v || m.ack_x) mark("several acknowledgement kinds");
            }
            m.partial = cam >> 11 & 1; m.sched = cam >> 10 & 1;
            ack_w = cam >> 17 & 1; ack_er = cam >> 16 & 1;
            known = 0xff800000u | 31u << 16 | 7u << 12 | 3u << 10;
        }
        if (cam & ~known) mark("unknown CAM bits");
        m.msgid = c.u32();
        auto id = [&](IdKind k, Vals& v) { if (k != ID_NONE) for (int i = 0; i < (k == ID_UUID ? 4 : 1); ++i) v.push_back(c.u32()); };
        id(d.controllee, m.controllee);
        id(d.controller, m.controller);
        if (c.short_) return no(TRUNCATED, "identifiers cut off");
    }
    auto take = [&](const FieldDesc& f, std::optional<Vals>& out) {
        Vals v;
        switch (f.shape) {
        case FIXED:
            if (!c.need(f.words * 4)) return;
            if (!get_subs(f.subs, b.data() + c.at, f.words, v)) mark(std::string("reserved bits of ") + f.name);
            c.at += f.words * 4;
            break;
        case INDEX: {
            uint32_t total = c.u32(), w = c.u32(), n = w & 0xfffff;
            size_t bytes = (size_t)n * f.elem_bits / 8, padded = (bytes + 3) / 4 * 4;
            if ((w >> 28) != (uint32_t)(f.elem_bits == 8 ? 1 : f.elem_bits == 16 ? 2 : 4) || (w >> 20 & 0xff)) mark("index list header");
            if (total != 2 + padded / 4) mark("index list total size");
            if (!c.need(padded)) return;
            for (uint32_t i = 0; i < n; ++i) v.push_back((int64_t)getbits(b.data(), (c.at + i * f.elem_bits / 8) * 8, f.elem_bits));
            for (size_t i = bytes; i < padded; ++i) if (b[c.at + i]) mark("index list padding");
            c.at += padded;
            break;
        }
        case GPS: {
            uint32_t a = c.u32(), n = c.u32();
            if (a >> 24) mark("GPS_ASCII reserved bits");
            if (!c.need((size_t)n * 4)) return;
            v.push_back(a & 0xffffff);
            for (size_t i = 0; i < (size_t)n * 4; ++i) v.push_back(b[c.at + i]);
            c.at += (size_t)n * 4;
            break;
        }
        case CAL: {
            uint32_t a = c.u32(), k = c.u32();
            v = {a >> 16 & 0x1ff, a & 0x1ff, k >> 16, k & 0x7fff, k >> 15 & 1};
            if (a & 0xfe00fe00u) mark("association list reserved bits");
            size_t n = v[0] + v[1] + v[2] + v[3] * (v[4] ? 2 : 1);
            if (!c.need(n * 4)) return;
            for (size_t i = 0; i < n; ++i) v.push_back(c.u32());
            break;
        }
        case FLAG: break;
        }
        if (!c.short_) out = v;
    };
    auto words = [&](bool present, const std::vector<FieldDesc>& t, std::vector<std::optional<Vals>>& out, uint32_t w[3], bool weif, const char* what) {
        out.assign(t.size(), std::nullopt);
        (void)weif;
        w[0] = w[1] = w[2] = 0;
        if (!present) return;
        w[0] = c.u32();
    };
    if (d.kind == ACKVX) {
        uint32_t w[3], e[3];
        words(ack_w, d.w, m.w, w, true, "warnings");
        if (w[0] & 2) w[1] = c.u32();
        if (w[0] & 4) w[2] = c.u32();
        words(ack_er, d.e, m.e, e, true, "errors");
        if (e[0] & 2) e[1] = c.u32();
        if (e[0] & 4) e[2] = c.u32();
        uint32_t kw[3] = {d.w.empty() ? 0u : 6u, 0, 0}, ke[3] = {d.e.empty() ? 0u : 6u, 0, 0};
        for (auto& f : d.w) kw[f.cif] |= 1u << f.bit;
        for (auto& f : d.e) ke[f.cif] |= 1u << f.bit;
        for (int i = 0; i < 3; ++i) if ((w[i] & ~kw[i]) || (e[i] & ~ke[i])) mark("indicator of an unknown field");
        if ((ack_w && d.w.empty()) || (ack_er && d.e.empty())) mark("warnings/errors not part of this class");
        for (size_t i = 0; i < d.w.size(); ++i) if (w[d.w[i].cif] >> d.w[i].bit & 1) take(d.w[i], m.w[i]);
        for (size_t i = 0; i < d.e.size(); ++i) if (e[d.e[i].cif] >> d.e[i].bit & 1) take(d.e[i], m.e[i]);
        if (ack_w && !(w[0] | w[1] | w[2])) mark("warnings announced but none present");
        if (ack_er && !(e[0] | e[1] | e[2])) mark("errors announced but none present");
        for (int i = 1; i < 3; ++i) {
            if ((w[0] >> i & 1) && !w[i]) mark("empty warning indicator word");
            if ((e[0] >> i & 1) && !e[i]) mark("empty error indicator word");
        }
    } else if (d.kind != DATA) {
        uint32_t w[3];
        words(true, d.f, m.f, w, false, "");
        // a word this class does not know: whether it is looked at, and where the fields start, is open
        if ((w[0] & 2 && !d.cif_used[1]) || (w[0] & 4 && !d.cif_used[2]) || (w[0] >> 7 & 1 && !d.cif7)) mark("unknown indicator word");
        if (w[0] & 2) w[1] = c.u32();
        if (w[0] & 4) w[2] = c.u32();
        if (w[0] >> 7 & 1) {
            uint32_t a = c.u32();
            if (d.cif7 && !c.short_ && a != d.cif7) mark("other attributes than those of the class");
        } else if (d.cif7) mark("attribute indicator word missing");
        if (c.short_) return odd ? no(ODD, oddwhy) : no(TRUNCATED, "indicator words cut off");
        m.change = w[0] >> 31;
        if (m.change && !(d.ops.setters() & W_CHANGE)) mark("change indicator in a class without one");
        w[0] &= 0x7fffffffu;
        uint32_t k[3] = {0, 0, 0};
        for (auto& f : d.f) k[f.cif] |= 1u << f.bit;
        if (d.cif_used[1]) k[0] |= 2;
        if (d.cif_used[2]) k[0] |= 4;
        if (d.cif7) k[0] |= 1u << 7;
        for (int i = 0; i < 3; ++i) if (w[i] & ~k[i]) mark("indicator of an unknown field in CIF" + std::to_string(i));
        for (size_t i = 0; i < d.f.size(); ++i) {
            auto& f = d.f[i];
            if (w[f.cif] >> f.bit & 1) take(f, m.f[i]);
            else if (f.req) mark(std::string("required field missing: ") + f.name);
        }
        for (int i = 1; i < 3; ++i) {
            if (d.cif_req[i] && !(w[0] >> i & 1)) mark("required indicator word missing");
            if ((w[0] >> i & 1) && !w[i] && !d.cif_req[i]) mark("empty indicator word");
        }
    } else {
        size_t t = d.has_trailer ? 4 : 0;
        if (c.end - c.at < t) c.short_ = true;
        else {
            m.payload.assign(b.begin() + c.at, b.begin() + (c.end - t));
            c.at = c.end - t;
            if (t) {
                if (!get_subs(d.trailer, b.data() + c.at, 1, m.trailer)) mark("trailer bits");
                c.at += 4;
            }
        }
    }
    if (lying) return no(TRUNCATED, "size word says " + std::to_string(len) + " bytes, got " + std::to_string(b.size()));
    if (c.short_) return odd ? no(ODD, oddwhy) : no(TRUNCATED, "fields do not fit into the packet");     // odd: where the fields lie is open
    if (b.size() % 4) mark("length is not a whole number of words");
    if (len < b.size()) mark("size word says " + std::to_string(len) + " bytes, got " + std::to_string(b.size()));
    if (c.at != len) mark(std::to_string(len - c.at) + " bytes after the last field");
    if (odd) return no(ODD, oddwhy);
    return VALID;
}
std::string decode(const PacketDesc& d, const Bytes& b, Model& out) {
    std::string why;
    return classify(d, b, out, &why) == VALID ? "" : (why.empty() ? "?" : why);
}

// ---- comparison ------------------------------------------------------------------------------------------------
static std::string vals(const Vals& v) {
    std::string s = "{";
    for (size_t i = 0; i < v.size() && i < 24; ++i) s += (i ? "," : "") + std::to_string(v[i]);
    if (v.size() > 24) s += ",..." + std::to_string(v.size());
    return s + "}";
}
static std::string opt(const std::optional<Vals>& v) { return v ? vals(*v) : "absent"; }

// a 64-bit fixed-point value travels through the public interface as a double: values that arrived from elsewhere may need
// more bits than a double has, so two raw values are the same when they are the same double
static bool same(const FieldDesc& f, const std::optional<Vals>& x, const std::optional<Vals>& y) {
    if (x == y) return true;
    if (!x || !y || x->size() != y->size()) return false;
    bool wide = false, uns = false;
    for (auto& s : f.subs) if (s.bits == 64 && (s.kind == 'f' || s.kind == 'F')) { wide = true; uns |= s.kind == 'F'; }
    if (!wide) return false;
    for (size_t i = 0; i < x->size(); ++i) {
        int64_t p = (*x)[i], q = (*y)[i];
        if (p == q) continue;
        if ((uint64_t)(p < 0 ? -p : p) < (1ull << 53) && (uint64_t)(q < 0 ? -q : q) < (1ull << 53)) return false;
        if ((double)p == (double)q || (uns && (double)(uint64_t)p == (double)(uint64_t)q)) continue;
        return false;
    }
    return true;
}
// packet type, timestamp types, class identifier
static std::vector<int64_t> identity(const PacketDesc& d, const Model& m) {
    std::vector<int64_t> v{d.type, d.tsi == ANY ? m.tsi : d.tsi, d.tsf == ANY ? m.tsf : d.tsf, d.has_class, -1, -1, -1, 1};
    if (d.has_class) { v[4] = d.oui; v[5] = d.code; v[6] = d.any_info ? m.info : d.info; }
    return v;
}
std::string diff(const PacketDesc& d, const Model& a, const Model& b, uint32_t ignore) {
    auto num = [](const char* n, uint64_t x, uint64_t y) { return std::string(n) + ": expected " + std::to_string(x) + ", got " + std::to_string(y); };
#define CMP(bit, mem) if (!(ignore & bit) && a.mem != b.mem) return num(#mem, a.mem, b.mem)
    CMP(W_COUNT, count);
    if (d.has_sid) CMP(W_SID, sid);
    if (d.has_class) { CMP(W_PAD, pad); CMP(W_INFO, info); }
    if (d.tsi == ANY) CMP(W_TSI, tsi);
    if (d.tsf == ANY) CMP(W_TSF, tsf);
    CMP(W_TSM, tsm);
    if (!b.ident.empty() && b.ident != identity(d, b)) return "header and class identifier: expected " + vals(identity(d, b)) + ", got " + vals(b.ident);
    if (d.tsi) CMP(W_ITS, its);
    if (d.tsf) CMP(W_FTS, fts);
    if (d.kind >= COMMAND) {
        CMP(W_MSGID, msgid);
        if (!(ignore & W_CONTROLLEE) && a.controllee != b.controllee) return "controllee id: expected " + vals(a.controllee) + ", got " + vals(b.controllee);
        if (!(ignore & W_CONTROLLER) && a.controller != b.controller) return "controller id: expected " + vals(a.controller) + ", got " + vals(b.controller);
        CMP(W_TIMING, timing); CMP(W_ACTION, action);
    }
    if (d.kind == COMMAND) { CMP(W_REQV, req_v); CMP(W_REQX, req_x); CMP(W_REQS, req_s); }
    if (d.kind == ACKVX) { CMP(W_ACKV, ack_v); CMP(W_ACKX, ack_x); }
    if (d.kind == ACKVX || d.kind == ACKS) { CMP(W_PARTIAL, partial); CMP(W_SCHED, sched); }
    if (d.kind != DATA && d.kind != ACKVX) CMP(W_CHANGE, change);
#undef CMP
    auto list = [&](const std::vector<FieldDesc>& t, const std::vector<std::optional<Vals>>& x, const std::vector<std::optional<Vals>>& y) -> std::string {
        for (size_t i = 0; i < t.size(); ++i)
            if (!same(t[i], x[i], y[i])) return std::string("field ") + t[i].name + ": expected " + opt(x[i]) + ", got " + opt(y[i]);
        return "";
    };
    std::string s;
    if (d.kind == ACKVX) {
        if (!(s = list(d.w, a.w, b.w)).empty()) return s;
        if (!(s = list(d.e, a.e, b.e)).empty()) return s;
    } else if (d.kind != DATA) {
        if (!(s = list(d.f, a.f, b.f)).empty()) return s;
    } else {
        if (a.payload != b.payload) return "payload: expected " + std::to_string(a.payload.size()) + " bytes " + hex(a.payload, 48) + ", got " +
                                           std::to_string(b.payload.size()) + " bytes " + hex(b.payload, 48);
        if (d.has_trailer && a.trailer != b.trailer) return "trailer: expected " + vals(a.trailer) + ", got " + vals(b.trailer);
    }
    return "";
}
std::string show(const PacketDesc& d, const Model& m) {
    std::string s = std::string(d.name) + " #" + std::to_string(m.msgid);
    auto list = [&](const std::vector<FieldDesc>& t, const std::vector<std::optional<Vals>>& x) {
        for (size_t i = 0; i < t.size() && i < x.size(); ++i) if (x[i]) s += std::string(" ") + t[i].name + "=" + vals(*x[i]);
    };
    list(d.f, m.f); list(d.w, m.w); list(d.e, m.e);
    if (d.kind == DATA) s += " payload " + std::to_string(m.payload.size()) + " bytes";
    return s;
}

// ---- objects -----------------------------------------------------------------------------------------------------
Model snapshot(const PacketDesc& d, void* p) {
    Model m;
    d.ops.get(p, m);
    auto list = [&](const std::vector<FieldDesc>& t, std::vector<std::optional<Vals>>& x) {
        x.assign(t.size(), std::nullopt);
        for (size_t i = 0, parent = 0; i < t.size(); ++i) {
            if (!t[i].attr) parent = i;
            else if (!x[parent]) continue;              // belong to a field that is absent
            Vals v;
            if (t[i].get(p, v)) x[i] = v;
            else if (t[i].attr) t[i].initial(x[i].emplace());        // nobody touched them yet
        }
    };
    if (d.kind == ACKVX) { list(d.w, m.w); list(d.e, m.e); }
    else list(d.f, m.f);
    return m;
}

static int64_t random_raw(const Sub& s, sim::Rng& r, bool is_struct) {
    if (s.kind == 'e' || s.kind == 't' || s.kind == 'a' || s.kind == 'E') return (int64_t)r.below((1ull << s.bits) + 1) - 1;
    int bits = s.bits;
    uint64_t v;
    if (s.kind == 'u' && s.arg && r.below(4)) return (int64_t)r.below((uint64_t)s.arg + 1);      // a named value
    switch (r.below(6)) {
    case 0: v = 0; break;
    case 1: v = mask(bits); break;
    case 2: v = 1ull << (bits - 1); break;
    case 3: v = r.below(256) & mask(bits); break;
    default: v = r.next() & mask(bits);
    }
    if (bits == 64 && is_struct && (s.kind == 'f' || s.kind == 'F')) return (int64_t)(v & mask(50));
    if (s.kind == 'o') return (int64_t)std::min<uint64_t>(v + 1, mask(bits));
    if (s.kind == 's' || s.kind == 'f') return sext(v, bits);
    return (int64_t)v;
}
Vals random_field(const FieldDesc& f, sim::Rng& r) {
    Vals v;
    switch (f.shape) {
    case FIXED: for (auto& s : f.subs) v.push_back(random_raw(s, r, f.is_struct)); break;
    // now and then a list whose length needs all bytes of its count
    case INDEX: { size_t n = r.below(40) == 0 ? 250 + r.below(900) : r.below(r.coin() ? 4 : 12); for (size_t i = 0; i < n; ++i) v.push_back((int64_t)(r.next() & mask(f.elem_bits))); break; }
    case GPS: {
        v.push_back((int64_t)(r.next() & 0xffffff));
        size_t n = r.below(40) == 0 ? 1000 + r.below(1200) : r.below(r.coin() ? 5 : 30);
        for (size_t i = 0; i < n; ++i) v.push_back((int64_t)(1 + r.below(255)));
        break;
    }
    case CAL: {
        int large = r.below(40) == 0 ? (int)r.below(4) : -1;
        for (int i = 0; i < 4; ++i) v.push_back((int64_t)(i == large ? 250 + r.below(i < 2 ? 262 : 700) : r.below(r.coin() ? 2 : 6)));
        v.push_back(r.coin());
        size_t n = v[0] + v[1] + v[2] + v[3] * (v[4] ? 2 : 1);
        for (size_t i = 0; i < n; ++i) v.push_back((int64_t)(r.next() & 0xffffffff));
        break;
    }
    case FLAG: break;
    }
    return v;
}
// what the model holds after the library was given v (GPS sentences are padded to whole words)
static Vals stored(const FieldDesc& f, Vals v) {
    if (f.shape == GPS) while ((v.size() - 1) % 4) v.push_back(0);
    return v;
}
static Model initial(const PacketDesc& d) {
    Model m;
    m.action = d.cam_fixed >> 23 & 3;
    if (d.has_class) m.info = d.info;
    m.sid = d.sid0;
    if (d.kind == COMMAND) { m.req_v = d.req_v == ALWAYS; m.req_x = d.req_x == ALWAYS; m.req_s = d.req_s == ALWAYS; }
    auto z = [](IdKind k) { return Vals(k == ID_UUID ? 4 : k == ID_WORD ? 1 : 0, 0); };
    if (d.kind >= COMMAND) { m.controllee = z(d.controllee); m.controller = z(d.controller); }
    if (d.kind == ACKVX) { m.w.assign(d.w.size(), std::nullopt); m.e.assign(d.e.size(), std::nullopt); }
    else m.f.assign(d.f.size(), std::nullopt);
    if (d.has_trailer) m.trailer.assign(d.trailer.size(), -1);
    return m;
}
static void fill_prologue(const PacketDesc& d, Model& m, sim::Rng& r, uint32_t which) {
    if (which & W_COUNT) m.count = r.below(16);
    if (which & W_SID) m.sid = (uint32_t)r.next() & d.sid_mask;
    if ((which & W_PAD) && d.kind == DATA) m.pad = r.below(32);
    if ((which & W_INFO) && d.any_info) m.info = (uint32_t)r.next() & 0xffff;
    if ((which & W_TSI) && d.tsi == ANY) m.tsi = 1 + (int)r.below(3);
    if ((which & W_TSF) && d.tsf == ANY) m.tsf = 1 + (int)r.below(3);
    if ((which & W_TSM) && d.any_tsm) m.tsm = r.coin();
    if (which & W_ITS) m.its = (uint32_t)r.next();
    if (which & W_FTS) m.fts = r.next();
    if (which & W_CONTROLLEE) for (auto& x : m.controllee) x = (int64_t)(r.next() & 0xffffffff);
    if (which & W_REQV) m.req_v = r.coin();
    if (which & W_REQX) m.req_x = r.coin();
    if (which & W_REQS) m.req_s = r.coin();
    if (which & W_TIMING) m.timing = (int)r.below(d.kind >= ACKVX ? 8 : 6);
    if (which & W_PARTIAL) m.partial = r.coin();
    if (which & W_SCHED) m.sched = r.coin();
    if (which & W_CHANGE) m.change = r.coin();
}
static void random_payload(Model& m, sim::Rng& r) {
    size_t n;
    switch (r.below(8)) {
    case 0: n = 0; break;
    case 1: n = r.below(4000); break;
    case 2: n = 1400 + r.below(200); break;
    default: n = r.below(48);
    }
    m.payload.resize(n);
    for (auto& x : m.payload) x = (uint8_t)(1 + r.below(255));
}
void init_required(const PacketDesc& d, void* p, Model& m, sim::Rng& r) {
    m = initial(d);
    fill_prologue(d, m, r, W_TSI | W_TSF);
    d.ops.set_prologue(p, m, d.ops.setters() & (W_TSI | W_TSF));
    for (size_t i = 0; i < m.f.size(); ++i)
        if (d.f[i].req) { Vals v = random_field(d.f[i], r); d.f[i].set(p, v, false); m.f[i] = stored(d.f[i], v); }
}
Model random_model(const PacketDesc& d, sim::Rng& r, int richness) {
    Model m = initial(d);
    fill_prologue(d, m, r, ~(W_MSGID | W_CONTROLLER));
    m.msgid = (uint32_t)r.next();
    for (auto& x : m.controller) x = (int64_t)(r.next() & 0xffffffff);
    if (d.kind == COMMAND) {
        auto q = [&](Req k) { return k == ALWAYS ? 1 : k == NEVER ? 0 : (int)r.coin(); };
        m.req_v = q(d.req_v); m.req_x = q(d.req_x); m.req_s = q(d.req_s);
    }
    auto list = [&](const std::vector<FieldDesc>& t, std::vector<std::optional<Vals>>& x) {
        for (size_t i = 0, parent = 0; i < t.size(); ++i) {
            if (!t[i].attr) parent = i;
            if (t[i].attr ? x[parent].has_value() : (t[i].req && d.kind != ACKVX) || (int)r.below(100) < richness)
                x[i] = stored(t[i], random_field(t[i], r));
        }
    };
    if (d.kind == ACKVX) { list(d.w, m.w); list(d.e, m.e); m.ack_v = r.coin(); m.ack_x = !m.ack_v; }
    else list(d.f, m.f);
    if (d.kind == DATA) {
        random_payload(m, r);
        while (m.payload.size() % 4) m.payload.push_back(0);
        for (size_t i = 0; i < m.trailer.size(); ++i) m.trailer[i] = random_raw(d.trailer[i], r, false);
    }
    return m;
}
void apply(const PacketDesc& d, void* p, const Model& m) {
    d.ops.set_prologue(p, m, d.ops.setters() & ~(uint32_t)(d.kind == DATA ? W_MSGID : W_MSGID | W_PAD));
    if (d.kind == ACKVX) {
        for (size_t i = 0; i < d.w.size(); ++i) if (m.w[i]) d.w[i].set(p, *m.w[i], false);
        for (size_t i = 0; i < d.e.size(); ++i) if (m.e[i]) d.e[i].set(p, *m.e[i], false);
    } else for (size_t i = 0; i < d.f.size(); ++i) if (m.f[i]) d.f[i].set(p, *m.f[i], false);
    if (d.kind == DATA) {
        d.ops.set_payload(p, m.payload);
        if (d.has_trailer) d.ops.set_trailer(p, m.trailer);
    }
}

void mutate(const PacketDesc& d, void* p, Model& m, sim::Rng& r) {
    uint32_t have = d.ops.setters() & ~(uint32_t)(W_MSGID | W_CONTROLLER | W_ACKV | W_ACKX | W_ACTION);
    if (d.kind != DATA) have &= ~(uint32_t)W_PAD;
    switch (r.below(10)) {
    case 0: {                                           // some prologue parts
        uint32_t w = (uint32_t)r.next() & have & ((W_PAYLOAD - 1) | W_INFO | W_TSI | W_TSF | W_TSM);
        fill_prologue(d, m, r, w);
        d.ops.set_prologue(p, m, w);
        break;
    }
    case 1: d.ops.data(p); break;                       // serialise in between
    case 2:                                             // drop a whole indicator word
        if (d.kind == ACKVX) {
            bool e = r.coin();
            int n = (int)r.below(3);
            d.ops.reset_cif(p, (e ? 24 : 16) + n);
            auto& t = e ? d.e : d.w;
            auto& v = e ? m.e : m.w;
            for (size_t i = 0; i < t.size(); ++i) if (n == 0 || t[i].cif == n) v[i].reset();
        } else if (d.kind != DATA) {
            int n = 1 + (int)r.below(2);
            if (d.cif_used[n] && !d.cif_req[n]) {
                d.ops.reset_cif(p, n);
                for (size_t i = 0; i < d.f.size(); ++i) if (d.f[i].cif == n) m.f[i].reset();
            }
        }
        break;
    default:
        if (d.kind == DATA) {
            if (d.has_trailer && r.below(3) == 0) {
                for (size_t i = 0; i < m.trailer.size(); ++i) {
                    int64_t v = random_raw(d.trailer[i], r, false);
                    if (v >= 0 || d.trailer[i].kind == 'e' || d.trailer[i].kind == 'E') m.trailer[i] = v;   // the others cannot be cleared
                }
                d.ops.set_trailer(p, m.trailer);
            } else {
                random_payload(m, r);
                d.ops.set_payload(p, m.payload);
                while (m.payload.size() % 4) m.payload.push_back(0);
            }
        } else {
            bool e = d.kind == ACKVX && !d.e.empty() && (d.w.empty() || r.coin());
            auto& t = d.kind == ACKVX ? (e ? d.e : d.w) : d.f;
            auto& v = d.kind == ACKVX ? (e ? m.e : m.w) : m.f;
            if (t.empty()) break;
            size_t i = r.below(t.size()), last = i;
            if (t[i].attr) {
                size_t parent = i;
                while (t[parent].attr) --parent;
                if (!v[parent]) i = last = parent;
            }
            while (!t[i].attr && last + 1 < t.size() && t[last + 1].attr) ++last;       // i+1..last: its attributes
            if (t[i].reset && !(t[i].shape == FLAG && t[i].req) && r.below(3) == 0) {
                if (t[i].is_struct && r.below(3) == 0) {
                    t[i].set(p, {}, true);              // through the optional the getter returns
                    if (last > i) d.ops.data(p);        // the attributes go when the packet is brought up to date
                } else t[i].reset(p);
                for (size_t k = i; k <= last; ++k) v[k].reset();
                break;
            }
            Vals x = random_field(t[i], r), xf = x;
            bool ip = t[i].is_struct && r.coin();
            t[i].set(p, x, ip);
            if (!t[i].attr && !v[i])
                for (size_t k = i + 1; k <= last; ++k) {
                    t[k].initial(v[k].emplace());
                    if (t[k].shape != INDEX && r.coin()) continue;
                    x = random_field(t[k], r);          // at once, before the packet is brought up to date
                    t[k].set(p, x, t[k].is_struct && r.coin());
                    v[k] = stored(t[k], x);
                }
            v[i] = stored(t[i], xf);
        }
    }
}

} // namespace pkt
