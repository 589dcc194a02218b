// Type-erased view of the generated packet classes, and the independent model of their contents.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <optional>
#include <span>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "sim.h"

namespace pkt {

using Vals = std::vector<int64_t>;
using Bytes = std::vector<uint8_t>;

struct Sub { const char* name; uint8_t word, msb, bits; char kind; uint8_t arg; };
enum Shape { FIXED, INDEX, GPS, CAL, FLAG };      // FLAG: a query names the field without a value
enum PKind { DATA, CONTEXT, COMMAND, ACKVX, ACKS };
enum IdKind { ID_NONE, ID_WORD, ID_UUID };
enum Req { NEVER, ALWAYS, OPTIONAL };

struct FieldDesc {
    const char* name; int cif, bit; bool req; Shape shape; int words; std::vector<Sub> subs; int elem_bits;
    void (*set)(void*, const Vals&, bool inplace);
    void (*reset)(void*);                       // null when the field cannot be cleared
    bool (*get)(void*, Vals&);
    bool is_struct;
    void (*initial)(Vals&) = nullptr;           // attributes: what they hold before they are set
    bool attr = false;                          // an attribute (CIF7) of the nearest preceding field that is none; its bit and
                                                // word are those of the field, so both come and go together
};

// contents of one packet, independent of the library
struct Model {
    int pkt = -1;                               // index in the system's packet table
    uint32_t count = 0, sid = 0, pad = 0, info = 0, its = 0; uint64_t fts = 0;
    uint32_t msgid = 0; Vals controllee, controller;
    int req_v = 0, req_x = 0, req_s = 0, timing = 0, action = 0;
    int ack_v = 0, ack_x = 0, partial = 0, sched = 0;
    int change = 0, tsi = 0, tsf = 0, tsm = 0;  // of timestamps: where the class leaves them open
    std::vector<int64_t> ident;                 // of objects: what identifies the class (see identity())
    std::vector<std::optional<Vals>> f, w, e;   // fields; warnings and errors (AckVX)
    Bytes payload; Vals trailer;
};

struct PacketDesc;
struct PacketOps {
    const PacketDesc* d;
    void* (*make)(); void* (*from)(std::span<const uint8_t>); void* (*copy)(void*); void (*destroy)(void*);
    std::optional<std::string> (*match)(std::span<const uint8_t>);
    std::span<const uint8_t> (*data)(void*); size_t (*size)(void*);
    void (*get)(void*, Model&); // everything but the fields
    void (*set_prologue)(void*, const Model&, uint32_t which);  // bits of W_*
    void (*set_payload)(void*, std::span<const uint8_t>);
    void (*set_trailer)(void*, const Vals&);
    void (*reset_cif)(void*, int n);            // 0..2 ; AckVX: n = wif, n+8 = eif
    uint32_t (*setters)();                      // which W_* exist
};
enum { W_COUNT = 1, W_SID = 2, W_PAD = 4, W_ITS = 8, W_FTS = 16, W_MSGID = 32, W_CONTROLLEE = 64, W_CONTROLLER = 128,
       W_REQV = 256, W_REQX = 512, W_REQS = 1024, W_TIMING = 2048, W_ACTION = 4096, W_ACKV = 8192, W_ACKX = 16384,
       W_PARTIAL = 32768, W_SCHED = 65536, W_CHANGE = 131072, W_PAYLOAD = 1 << 18, W_TRAILER = 1 << 19,
       W_INFO = 1 << 20, W_TSI = 1 << 21, W_TSF = 1 << 22, W_TSM = 1 << 23 };
constexpr int ANY = 7;                          // of PacketDesc::tsi, tsf: up to the sender

struct PacketDesc {
    const char* name; PKind kind; int type;     // VITA packet type
    bool has_sid, has_class; uint32_t oui; uint16_t info, code; bool any_info; int tsi, tsf;
    bool has_trailer; uint32_t indicators;      // expected header bits 26..24
    IdKind controllee, controller;
    uint32_t cam_fixed;                         // action mode / permissions / fixed req bits
    Req req_v, req_x, req_s; bool req_w, req_er;
    int responds_to;                            // command index for acks
    bool cif_used[3], cif_req[3];
    bool any_tsm = false;                       // the timestamp mode is up to the sender
    uint32_t sid_mask = ~0u, sid0 = 0;          // bits in use; value of a new packet
    uint32_t cif7 = 0;                          // the attributes that accompany every field
    std::vector<FieldDesc> f;                   // content (DATA: none) in wire order
    std::vector<FieldDesc> w, e;                // AckVX warnings, errors
    std::vector<Sub> trailer;
    PacketOps ops;
    int ack_vx = -1, ack_s = -1;                // for commands: packet indices
};

// ---- model operations -------------------------------------------------------------------------------------
std::string diff(const PacketDesc& d, const Model& want, const Model& got, uint32_t ignore = 0);
std::string decode(const PacketDesc& d, const Bytes& b, Model& out);   // "" or the reason the bytes are not such a packet
enum Verdict { VALID, NOT_OURS, TRUNCATED, ODD };
Verdict classify(const PacketDesc& d, const Bytes& b, Model& out, std::string* why = nullptr);
Bytes encode(const PacketDesc& d, const Model& m);
Model random_model(const PacketDesc& d, sim::Rng& r, int richness);
Vals random_field(const FieldDesc& f, sim::Rng& r);
std::string show(const PacketDesc& d, const Model& m);
std::string hex(const Bytes& b, size_t max = 96);

// ---- an owned packet object -----------------------------------------------------------------------------
struct Any {
    const PacketDesc* d = nullptr; void* p = nullptr;
    Any() = default;
    explicit Any(const PacketDesc& dd) : d(&dd), p(dd.ops.make()) {}
    Any(const PacketDesc& dd, void* pp) : d(&dd), p(pp) {}
    Any(Any&& o) noexcept : d(o.d), p(o.p) { o.p = nullptr; }
    Any& operator=(Any&& o) noexcept { if (this != &o) { clear(); d = o.d; p = o.p; o.p = nullptr; } return *this; }
    Any(const Any& o) : d(o.d), p(o.p ? o.d->ops.copy(o.p) : nullptr) {}
    ~Any() { clear(); }
    void clear() { if (p) { d->ops.destroy(p); p = nullptr; } }
    explicit operator bool() const { return p != nullptr; }
};
Model snapshot(const PacketDesc& d, void* p);               // through the public getters
void apply(const PacketDesc& d, void* p, const Model& m);   // make a fresh object hold m (through the setters)
// one random documented update of the object, mirrored on the model
void mutate(const PacketDesc& d, void* p, Model& m, sim::Rng& r);
void init_required(const PacketDesc& d, void* p, Model& m, sim::Rng& r);

// ---- adapters used by the generated tables --------------------------------------------------------------
template <class T> struct unopt { using type = T; static constexpr bool opt = false; };
template <class T> struct unopt<std::optional<T>> { using type = T; static constexpr bool opt = true; };

// enumerators by name: see enums.h
template <class E> struct Named { static std::optional<E> of(int64_t) { return std::nullopt; } static std::optional<int64_t> code(E) { return std::nullopt; } };
#define PKT_NAMED(E, ...) \
    template <> struct Named<E> { \
        using T = E; struct Item { int64_t v; T e; }; \
        static const std::vector<Item>& items() { static const std::vector<Item> l = {__VA_ARGS__}; return l; } \
        static std::optional<T> of(int64_t v) { for (auto& i : items()) if (i.v == v) return i.e; return std::nullopt; } \
        static std::optional<int64_t> code(T e) { for (auto& i : items()) if (i.e == e) return i.v; return std::nullopt; } \
    };

template <class T> inline T from_raw(char kind, int r, int64_t v) {
    if constexpr (std::is_floating_point_v<T>) {
        long double x = (kind == 'F') ? (long double)(uint64_t)v : (long double)v;
        return static_cast<T>(std::ldexp(x, -r));
    } else if constexpr (std::is_enum_v<T>) {
        if (auto e = Named<T>::of(v)) return *e;
        return static_cast<T>(static_cast<std::underlying_type_t<T>>(v));
    } else {
        return static_cast<T>(kind == 'o' ? v : v);
    }
}
template <class T> inline int64_t to_raw(char kind, int r, T v) {
    if constexpr (std::is_floating_point_v<T>) {
        long double x = std::ldexp((long double)v, r);
        if (kind == 'F') return x >= 18446744073709551616.0L ? (int64_t)~0ull : x < 0 ? (int64_t)std::llrint(x) : (int64_t)(uint64_t)std::roundl(x);
        return x >= 9223372036854775808.0L ? INT64_MAX : x <= -9223372036854775808.0L ? INT64_MIN : (int64_t)std::llrint(x);
    } else if constexpr (std::is_enum_v<T>) {
        if (auto c = Named<T>::code(v)) return *c;
        if constexpr (std::is_same_v<std::underlying_type_t<T>, bool>) return (int64_t)(bool)v;
        else return (int64_t)(std::make_unsigned_t<std::underlying_type_t<T>>)v;
    } else {
        return (int64_t)v;
    }
}
template <class T> inline int64_t sube_raw(T v) { if constexpr (std::is_enum_v<T>) return to_raw('u', 0, v); else return (int64_t)v; }
template <class T> struct SidCodec;
template <class T> struct Codec;    // set(T&, const Vals&) and get(const T&/T&, Vals&)

#define PKT_SUB_SET(o, n, k, r, v) \
    (o).n(::pkt::from_raw<typename ::pkt::unopt<std::decay_t<decltype((o).n())>>::type>(k, r, v))
#define PKT_SUB_GET(o, n, k, r) ::pkt::to_raw(k, r, (o).n())
#define PKT_SUBE_SET(o, n, v) do { if ((v) < 0) (o).reset_##n(); else (o).n((v) != 0); } while (0)
#define PKT_SUBE_GET(o, n) ((o).n() ? ::pkt::sube_raw(*(o).n()) : (int64_t)-1)

#define PKT_RESET_FN(P, n) ::pkt::reset_of<P>([](auto& o) requires requires { o.reset_##n(); } { o.reset_##n(); })
template <class P, class F> constexpr auto reset_of(F) -> void (*)(void*) {
    if constexpr (std::is_invocable_v<F, P&>) return +[](void* p) { F{}(*static_cast<P*>(p)); };
    else return nullptr;
}
template <class P, class G> bool scalar_get(P& o, G g, char k, int r, Vals& out) {
    auto v = g(o);
    if constexpr (unopt<decltype(v)>::opt) { if (!v) return false; out = {to_raw(k, r, *v)}; }
    else out = {to_raw(k, r, v)};
    return true;
}
template <class T> Vals conv_get(T& s) { Vals v; Codec<T>::get(s, v); return v; }

#define PKT_SCALAR(P, n, k, r) \
    +[](void* p, const ::pkt::Vals& v, bool) { auto& o = *static_cast<P*>(p); PKT_SUB_SET(o, n, k, r, v[0]); }, \
    PKT_RESET_FN(P, n), \
    +[](void* p, ::pkt::Vals& v) -> bool { auto& o = *static_cast<P*>(p); \
        return ::pkt::scalar_get(o, [](auto& x) { return x.n(); }, k, r, v); }, false

#define PKT_STRUCT(P, n, ...) \
    +[](void* p, const ::pkt::Vals& v, bool ip) { auto& o = *static_cast<P*>(p); using T = __VA_ARGS__; \
        if (ip) { ::pkt::inplace<T>(o.n(), v); } else { T t{}; ::pkt::Codec<T>::set(t, v); o.n(t); } }, \
    PKT_RESET_FN(P, n), \
    +[](void* p, ::pkt::Vals& v) -> bool { auto& o = *static_cast<P*>(p); using T = __VA_ARGS__; \
        return ::pkt::struct_get<T>(o.n(), v); }, true

template <class T, class R> void inplace(R& r, const Vals& v) {
    if constexpr (unopt<std::decay_t<R>>::opt) { if (v.empty()) { r.reset(); return; } if (!r) r.emplace(); Codec<T>::set(*r, v); }
    else Codec<T>::set(r, v);
}
template <class T, class R> bool struct_get(R& r, Vals& v) {
    v.clear();
    if constexpr (unopt<std::decay_t<R>>::opt) { if (!r) return false; Codec<T>::get(*r, v); }
    else Codec<T>::get(r, v);
    return true;
}
template <class A> auto& attributes(A& a) {
    if constexpr (unopt<A>::opt) { if (!a) a.emplace(); return *a; } else return a;
}
template <class A> bool has_attributes(A& a) { if constexpr (unopt<A>::opt) return a.has_value(); else return true; }
#define PKT_ATTR_SCALAR(P, f, n, k, r) \
    +[](void* p, const ::pkt::Vals& v, bool) { auto& o = ::pkt::attributes(static_cast<P*>(p)->f##_attributes()); PKT_SUB_SET(o, n, k, r, v[0]); }, \
    nullptr, \
    +[](void* p, ::pkt::Vals& v) -> bool { auto& a = static_cast<P*>(p)->f##_attributes(); v.clear(); if (!::pkt::has_attributes(a)) return false; \
        auto& o = ::pkt::attributes(a); v = {PKT_SUB_GET(o, n, k, r)}; return true; }, false, \
    +[](::pkt::Vals& v) { v = {0}; }, true
#define PKT_ATTR_STRUCT(P, f, n, ...) \
    +[](void* p, const ::pkt::Vals& v, bool ip) { auto& o = ::pkt::attributes(static_cast<P*>(p)->f##_attributes()); using T = __VA_ARGS__; \
        if (ip) ::pkt::Codec<T>::set(o.n(), v); else { T t{}; ::pkt::Codec<T>::set(t, v); o.n(t); } }, \
    nullptr, \
    +[](void* p, ::pkt::Vals& v) -> bool { auto& a = static_cast<P*>(p)->f##_attributes(); using T = __VA_ARGS__; v.clear(); \
        if (!::pkt::has_attributes(a)) return false; ::pkt::Codec<T>::get(::pkt::attributes(a).n(), v); return true; }, true, \
    +[](::pkt::Vals& v) { using T = __VA_ARGS__; T t{}; ::pkt::Codec<T>::get(t, v); }, true
#define PKT_FLAG(P, n) \
    +[](void* p, const ::pkt::Vals&, bool) { static_cast<P*>(p)->n##_enabled(true); }, \
    +[](void* p) { static_cast<P*>(p)->n##_enabled(false); }, \
    +[](void* p, ::pkt::Vals& v) -> bool { v.clear(); return static_cast<P*>(p)->n##_enabled(); }, false
std::string uuid_text(const Vals& v, size_t at = 0);
void uuid_parse(const std::string& s, Vals& out);

#define PKT_HAS(expr) requires { expr; }
template <class T> void id_set(T& id, const Vals& v);

// everything that is the same for all generated classes
template <class P> struct Gen {
    static P& o(void* p) { return *static_cast<P*>(p); }
    static void* make() { return new P(); }
    static void* from(std::span<const uint8_t> s) { return new P(s); }
    static void* copy(void* p) { return new P(o(p)); }
    static void destroy(void* p) { delete static_cast<P*>(p); }
    static std::optional<std::string> match(std::span<const uint8_t> s) { return P::match(s); }
    static std::span<const uint8_t> data(void* p) { return o(p).data(); }
    static size_t size(void* p) { return o(p).size(); }
    template <class F> static Vals idvals(F f, P& x) {
        decltype(auto) v = f(x);
        using T = std::decay_t<decltype(v)>;
        Vals out;
        if constexpr (std::is_integral_v<T>) out = {(int64_t)v};
        else uuid_parse(v.get(), out);
        return out;
    }
    static void get(void* p, Model& m) {
        P& x = o(p);
        m.count = x.packet_count();
        if constexpr (requires(P& q) { q.stream_id(); }) {
            if constexpr (std::is_integral_v<std::decay_t<decltype(x.stream_id())>>) m.sid = x.stream_id();
            else m.sid = SidCodec<std::decay_t<decltype(x.stream_id())>>::get(x.stream_id());
        }
        if constexpr (requires(P& q) { q.pad_bits(); }) m.pad = x.pad_bits();
        if constexpr (requires(P& q) { q.class_id(); }) m.info = x.class_id().information_code();
        if constexpr (requires(P& q) { q.integer_timestamp(); }) m.its = x.integer_timestamp();
        if constexpr (requires(P& q) { q.fractional_timestamp(); }) m.fts = x.fractional_timestamp();
        if constexpr (requires(P& q) { q.message_id(); }) m.msgid = x.message_id();
        if constexpr (requires(P& q) { q.cam(); }) {
            if constexpr (requires(P& q) { q.controllee_id(); })
                m.controllee = idvals([](P& q) -> decltype(auto) { return q.controllee_id(); }, x);
            if constexpr (requires(P& q) { q.controller_id(); })
                m.controller = idvals([](P& q) -> decltype(auto) { return q.controller_id(); }, x);
            const auto& cam = x.cam();
            m.timing = (int)to_raw('u', 0, cam.timing_control());
            m.action = (int)to_raw('u', 0, cam.action_mode());
            if constexpr (requires { cam.req_v(); }) { m.req_v = cam.req_v(); m.req_x = cam.req_x(); m.req_s = cam.req_s(); }
            if constexpr (requires { cam.ack_v(); }) {
                m.ack_v = cam.ack_v(); m.ack_x = cam.ack_x();
                m.partial = cam.partial_action(); m.sched = cam.scheduled_or_executed();
            }
        }
        // the packet's own getters of what the CAM holds
        bool same = true;
#define ALIAS(n) if constexpr (requires(P& q) { q.cam().n(); q.n(); }) same = same && x.n() == x.cam().n()
        ALIAS(action_mode); ALIAS(timing_control); ALIAS(req_v); ALIAS(req_x); ALIAS(req_s); ALIAS(ack_v); ALIAS(ack_x); ALIAS(partial_action);
        ALIAS(scheduled_or_executed);
#undef ALIAS
        if constexpr (requires(P& q) { q.class_id(); q.information_code(); }) same = same && x.information_code() == x.class_id().information_code();
        if constexpr (requires(P& q) { q.tsi(); }) m.tsi = (int)to_raw('u', 0, x.tsi());
        if constexpr (requires(P& q) { q.tsf(); }) m.tsf = (int)to_raw('u', 0, x.tsf());
        if constexpr (requires(P& q) { q.tsm(); }) m.tsm = (int)to_raw('u', 0, x.tsm());
        const auto& head = x.header();
        m.ident = {to_raw('u', 0, head.packet_type()), to_raw('u', 0, head.tsi()), to_raw('u', 0, head.tsf()), head.class_id_enable(), -1, -1, -1, same};
        if constexpr (requires(P& q) { q.class_id(); }) {
            m.ident[4] = x.class_id().oui(); m.ident[5] = x.class_id().packet_code(); m.ident[6] = x.class_id().information_code();
        }
        if constexpr (requires(P& q) { q.change_indicator(); }) m.change = x.change_indicator();
        if constexpr (requires(P& q) { q.payload_size(); }) {
            auto s = x.payload(); m.payload.assign(s.begin(), s.end());
        }
        if constexpr (requires(P& q) { q.trailer(); }) Codec<std::decay_t<decltype(x.trailer())>>::get(x.trailer(), m.trailer);
    }
    static uint32_t setters() {
        uint32_t w = W_COUNT;
        if constexpr (requires(P& q) { q.stream_id(); }) w |= W_SID;
        if constexpr (requires(P& q) { q.pad_bits(1); }) w |= W_PAD;
        if constexpr (requires(P& q) { q.information_code(1); }) w |= W_INFO;
        if constexpr (requires(P& q) { q.tsi(q.tsi()); }) w |= W_TSI;
        if constexpr (requires(P& q) { q.tsf(q.tsf()); }) w |= W_TSF;
        if constexpr (requires(P& q) { q.tsm(q.tsm()); }) w |= W_TSM;
        if constexpr (requires(P& q) { q.integer_timestamp(1u); }) w |= W_ITS;
        if constexpr (requires(P& q) { q.fractional_timestamp(1u); }) w |= W_FTS;
        if constexpr (requires(P& q) { q.message_id(1u); }) w |= W_MSGID;
        if constexpr (requires(P& q) { q.cam(); }) {
            if constexpr (requires(P& q) { q.controllee_id(); }) w |= W_CONTROLLEE;
            if constexpr (requires(P& q) { q.controller_id(); }) w |= W_CONTROLLER;
            if constexpr (requires(P& q) { q.req_v(true); }) w |= W_REQV;
            if constexpr (requires(P& q) { q.req_x(true); }) w |= W_REQX;
            if constexpr (requires(P& q) { q.req_s(true); }) w |= W_REQS;
            if constexpr (requires(P& q) { q.timing_control(q.cam().timing_control()); }) w |= W_TIMING;
            if constexpr (requires(P& q) { q.ack_v(true); }) w |= W_ACKV;
            if constexpr (requires(P& q) { q.ack_x(true); }) w |= W_ACKX;
            if constexpr (requires(P& q) { q.partial_action(true); }) w |= W_PARTIAL;
            if constexpr (requires(P& q) { q.scheduled_or_executed(true); }) w |= W_SCHED;
        }
        if constexpr (requires(P& q) { q.change_indicator(true); }) w |= W_CHANGE;
        if constexpr (requires(P& q) { q.payload_size(); }) w |= W_PAYLOAD;
        if constexpr (requires(P& q) { q.trailer(); }) w |= W_TRAILER;
        return w;
    }
    static void set_prologue(void* p, const Model& m, uint32_t w) {
        P& x = o(p);
        if (w & W_COUNT) x.packet_count((uint8_t)m.count);
        if constexpr (requires(P& q) { q.stream_id(1u); }) { if (w & W_SID) x.stream_id(m.sid); }
        else if constexpr (requires(P& q) { q.stream_id(); }) {
            using T = std::decay_t<decltype(x.stream_id())>;
            if ((w & W_SID) && (m.sid & 1)) SidCodec<T>::set(x.stream_id(), m.sid);
            else if (w & W_SID) { T s{}; SidCodec<T>::set(s, m.sid); x.stream_id(s); }
        }
        if constexpr (requires(P& q) { q.pad_bits(1); }) if (w & W_PAD) x.pad_bits((uint8_t)m.pad);
        if constexpr (requires(P& q) { q.information_code(1); }) if (w & W_INFO) x.information_code((uint16_t)m.info);
        if constexpr (requires(P& q) { q.tsi(q.tsi()); }) if (w & W_TSI) x.tsi(from_raw<std::decay_t<decltype(x.tsi())>>('u', 0, m.tsi));
        if constexpr (requires(P& q) { q.tsf(q.tsf()); }) if (w & W_TSF) x.tsf(from_raw<std::decay_t<decltype(x.tsf())>>('u', 0, m.tsf));
        if constexpr (requires(P& q) { q.tsm(q.tsm()); }) if (w & W_TSM) x.tsm(from_raw<std::decay_t<decltype(x.tsm())>>('u', 0, m.tsm));
        if constexpr (requires(P& q) { q.integer_timestamp(1u); }) if (w & W_ITS) x.integer_timestamp(m.its);
        if constexpr (requires(P& q) { q.fractional_timestamp(1u); }) if (w & W_FTS) x.fractional_timestamp(m.fts);
        if constexpr (requires(P& q) { q.message_id(1u); }) if (w & W_MSGID) x.message_id(m.msgid);
        if constexpr (requires(P& q) { q.cam(); }) {
            if constexpr (requires(P& q) { q.controllee_id(1u); }) { if (w & W_CONTROLLEE) x.controllee_id((uint32_t)m.controllee[0]); }
            else if constexpr (requires(P& q) { q.controllee_id(); }) { if (w & W_CONTROLLEE) {
                std::decay_t<decltype(x.controllee_id())> u; u.set(uuid_text(m.controllee)); x.controllee_id(u); } }
            if constexpr (requires(P& q) { q.controller_id(1u); }) { if (w & W_CONTROLLER) x.controller_id((uint32_t)m.controller[0]); }
            else if constexpr (requires(P& q) { q.controller_id(); }) { if (w & W_CONTROLLER) {
                std::decay_t<decltype(x.controller_id())> u; u.set(uuid_text(m.controller)); x.controller_id(u); } }
            if constexpr (requires(P& q) { q.req_v(true); }) if (w & W_REQV) x.req_v(m.req_v);
            if constexpr (requires(P& q) { q.req_x(true); }) if (w & W_REQX) x.req_x(m.req_x);
            if constexpr (requires(P& q) { q.req_s(true); }) if (w & W_REQS) x.req_s(m.req_s);
            if constexpr (requires(P& q) { q.timing_control(q.cam().timing_control()); }) if (w & W_TIMING)
                x.timing_control(from_raw<std::decay_t<decltype(x.cam().timing_control())>>('u', 0, m.timing));
            if constexpr (requires(P& q) { q.ack_v(true); }) if (w & W_ACKV) x.ack_v(m.ack_v);
            if constexpr (requires(P& q) { q.ack_x(true); }) if (w & W_ACKX) x.ack_x(m.ack_x);
            if constexpr (requires(P& q) { q.partial_action(true); }) if (w & W_PARTIAL) x.partial_action(m.partial);
            if constexpr (requires(P& q) { q.scheduled_or_executed(true); }) if (w & W_SCHED) x.scheduled_or_executed(m.sched);
        }
        if constexpr (requires(P& q) { q.change_indicator(true); }) if (w & W_CHANGE) x.change_indicator(m.change);
    }
    static void set_payload(void* p, std::span<const uint8_t> s) {
        if constexpr (requires(P& q) { q.payload_size(); }) o(p).payload(s);
    }
    static void set_trailer(void* p, const Vals& v) {
        if constexpr (requires(P& q) { q.trailer(); })
            Codec<std::decay_t<decltype(o(p).trailer())>>::set(o(p).trailer(), v);
    }
    static void reset_cif(void* p, int n) {
        P& x = o(p);
        (void)x;
        if constexpr (requires(P& q) { q.reset_cif_1(); }) if (n == 1) x.reset_cif_1();
        if constexpr (requires(P& q) { q.reset_cif_2(); }) if (n == 2) x.reset_cif_2();
        if constexpr (requires(P& q) { q.reset_wif_0(); }) if (n == 16) x.reset_wif_0();
        if constexpr (requires(P& q) { q.reset_wif_1(); }) if (n == 17) x.reset_wif_1();
        if constexpr (requires(P& q) { q.reset_wif_2(); }) if (n == 18) x.reset_wif_2();
        if constexpr (requires(P& q) { q.reset_eif_0(); }) if (n == 24) x.reset_eif_0();
        if constexpr (requires(P& q) { q.reset_eif_1(); }) if (n == 25) x.reset_eif_1();
        if constexpr (requires(P& q) { q.reset_eif_2(); }) if (n == 26) x.reset_eif_2();
    }
    static PacketOps ops() {
        return {nullptr, make, from, copy, destroy, match, data, size, get, set_prologue, set_payload, set_trailer, reset_cif, setters};
    }
};

} // namespace pkt
