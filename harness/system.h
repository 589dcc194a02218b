// One generated system (controller + controllee + packet classes) behind a transport-independent interface.
#pragma once
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "pkt.h"

namespace sysif {

enum Transport { UDP, TCP, NATS };
struct Addr { std::string ip; uint16_t port = 0; std::string subject; };   // NATS: ip is the server url
struct SendResult { bool thrown = false; std::string err; pkt::Any v, x, s; };

struct ControllerIf {
    virtual ~ControllerIf() = default;
    virtual void target(const Addr&) = 0;
    virtual std::string target() = 0;
    virtual void identity(const pkt::Vals&) = 0;
    virtual SendResult send(int cmd, void* p) = 0;
    virtual int fd() = 0;
    virtual void data_src(const Addr&) = 0;
    virtual void data_dst(const Addr&) = 0;
    virtual std::string data_src() = 0;
    virtual std::string data_dst() = 0;
    virtual int recv_fd() = 0;
    virtual int send_fd() = 0;
    virtual void listen(int data_index, std::function<void(const pkt::PacketDesc&, void*)> f) = 0;
    virtual void send_data(int data_index, void* p) = 0;
    virtual void enable_receive() = 0;
    virtual void disable_receive() = 0;
};
// avx/as: the acknowledgement objects the handler is going to return (null when that kind does not exist)
using Handler = std::function<void(int cmd, bool exec, const pkt::PacketDesc& d, void* p, void* avx, void* as)>;
struct ControlleeIf {
    Handler handler;
    virtual ~ControlleeIf() = default;
    virtual void tcp_listen() = 0;
    virtual bool tcp_accept() = 0;
    virtual void listen() = 0;
    virtual int fd() = 0;
};
struct Cmd { int pkt, vx, s; };
struct System {
    const char* ns; Transport tr;
    std::vector<const pkt::PacketDesc*> table;
    std::vector<Cmd> cmds;
    std::vector<int> datas;
    ControllerIf* (*controller)(const Addr&);
    ControlleeIf* (*controllee)(const Addr&);
    const pkt::PacketDesc& cmd(int i) const { return *table[cmds[i].pkt]; }
    const pkt::PacketDesc& data(int i) const { return *table[datas[i]]; }
};
std::vector<System*>& systems();          // those with a controller and a controllee
std::vector<System*>& all_systems();
inline System& by_transport(Transport t) { for (auto* s : systems()) if (s->tr == t) return *s; throw std::logic_error("no system"); }

template <class F> bool accepted(F f) {
    if constexpr (std::is_same_v<decltype(f()), void>) { f(); return true; } else return static_cast<bool>(f());
}

} // namespace sysif
