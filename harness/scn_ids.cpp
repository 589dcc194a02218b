// Message identifiers over long histories: one controller that issues commands of every class, most of them without
// asking for an acknowledgement, far past every narrow counter's range; now and then a send fails or times out.
#include "common.h"
#include <unordered_set>
using namespace scn;

namespace {
void run(const RunSpec& rs) {
    Rng r(rs.seed ^ 0x1D5ull);
    auto& sys = sysif::by_transport(r.coin() ? sysif::UDP : sysif::NATS);
    bool nats = sys.tr == sysif::NATS;
    Swarm s(r); s.sched();
    rates.ppm[K_SCHED] = 0; rates.ppm[K_WAKE_ORDER] = 0;
    if (r.below(3) == 0) rates.ppm[nats ? K_NATS_ERR : K_ERR_SEND] = 2000;
    int me = node_new("controller"), n = 200 + (int)r.below(1800);
    if (r.below(20) == 0) n = 66000 + (int)r.below(2000);
    int other = node_new("nobody");
    int acks_in = (int)r.below(30);                 // one in so many asks for an acknowledgement that never comes
    bool lean = n > 60000, copies = !lean && r.below(4) == 0;       // lean: only the identifier is looked at
    int th = spawn(me, "controller", [&, me, n] {
        (void)me;
        set_faults(false);
        sysif::Addr to = nats ? sysif::Addr{"nats://server:4222", 0, "ctee0"} : sysif::Addr{node_ip(other), 7007, ""};
        std::unique_ptr<sysif::ControllerIf> c(sys.controller(nats ? to : sysif::Addr{node_ip(me), 0, ""}));
        if (!nats) c->target(to);
        set_faults(true);
        std::vector<int> quiet, any_cmd;
        for (int i = 0; i < (int)sys.cmds.size(); ++i) {
            auto& d = sys.cmd(i); any_cmd.push_back(i);
            if (d.req_v != ALWAYS && d.req_x != ALWAYS && d.req_s != ALWAYS) quiet.push_back(i);
        }
        if (quiet.empty()) quiet = any_cmd;
        std::vector<Any> pool; std::vector<int> pool_cmd;
        for (int i : quiet) { Any a(sys.cmd(i)); Model m; Rng q(rs.seed + i); init_required(sys.cmd(i), a.p, m, q); pool.push_back(std::move(a)); pool_cmd.push_back(i); }
        std::vector<size_t> at;                         // where each packet carries its identifier
        for (int i : pool_cmd) {
            auto& d = sys.cmd(i); Any a(d); Model m; Rng q(rs.seed + i); init_required(d, a.p, m, q);
            m.msgid = 0; Bytes x = encode(d, m); m.msgid = ~0u; Bytes y = encode(d, m);
            size_t k = 0; while (k < x.size() && x[k] == y[k]) ++k;
            at.push_back(k);
        }
        std::unordered_set<uint32_t> ids; size_t seen = wires().size(); uint32_t last = 0; int sent = 0;
        for (int k = 0; k < n; ++k) {
            if (!op_enabled((uint32_t)k % 256)) continue;
            Rng q(rs.seed * 65537 + k);
            bool ask = acks_in > 20 && q.below(400) == 0;
            size_t pi = q.below(pool.size());
            int cmd = ask ? any_cmd[q.below(any_cmd.size())] : pool_cmd[pi];
            auto& d = sys.cmd(cmd);
            Any fresh; void* p = pool[pi].p;
            if (ask || copies) { fresh = Any(d); Model m; init_required(d, fresh.p, m, q); p = fresh.p; }
            if (ask) { Model m = snapshot(d, p); m.req_v = m.req_x = m.req_s = 1; d.ops.set_prologue(p, m, d.ops.setters() & (W_REQV | W_REQX | W_REQS)); }
            auto res = c->send(cmd, p);
            sh->notes[res.thrown ? 1 : 2]++;
            Model after; bool full = !lean || ask || k % 64 == 0; if (full) after = snapshot(d, p);
            for (; seen < wires().size(); ++seen) {
                auto& w = wires()[seen];
                if (w.thr != self()) continue;
                Model m; std::string why;
                if (!full && w.bytes.size() >= at[pi] + 4) { auto* b = &w.bytes[at[pi]]; m.msgid = after.msgid = (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; }
                else if (classify(d, w.bytes, m, &why) != VALID) { REQUIRE("C08", false, "not-the-command", "command %d (%s) left as something else: %s", k, d.name, hex(w.bytes).c_str()); continue; }
                bool fresh_id = ids.insert(m.msgid).second;
                REQUIRE("C08", fresh_id, "message-id-reused", "command number %d (%s) carries message id %u, which an earlier command of this controller carried", k, d.name, m.msgid);
                REQUIRE("C08", m.msgid == after.msgid, "message-id", "command number %d (%s) left with message id %u, the packet object reads %u", k, d.name, m.msgid, after.msgid);
                last = m.msgid; ++sent;
            }
            ev(610, (uint64_t)k, last);
        }
        sh->app_events += (uint64_t)sent;
        mixshape((uint32_t)sent / 64); mixshape(nats);
    });
    join(th);
    sh->notes[0]++;
    sample("%s: %d commands of one controller", sys.ns, n);
    finish_ok();
}
SIM_SCENARIO(ids, "ids", "C08", 6, run);
} // namespace
