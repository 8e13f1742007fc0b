// Messages of the Majordomo protocol: generation, comparison, raw frames over the stand-in for libzmq.
#pragma once
#include <zmq/ZmqUtils.hpp>
#include "pbt.hpp"
namespace mg {
namespace mdp = opencmw::mdp;
using opencmw::IoBuffer;
struct Flat { // one message as plain data
    std::string sourceId, protocol;
    int         command = 0;
    std::string service, requestId, topic, data, error, rbac;
    bool        operator==(const Flat &) const = default;
};
inline std::string text(const IoBuffer &b) { return std::string(b.asString().data(), b.size()); }
template<mdp::MessageFormat F>
Flat flat(const mdp::BasicMessage<F> &m) {
    Flat f;
    if constexpr (F == mdp::MessageFormat::WithSourceId) f.sourceId = m.sourceId;
    f.protocol  = m.protocolName;
    f.command   = int(m.command);
    f.service   = m.serviceName;
    f.requestId = text(m.clientRequestID);
    f.topic     = std::string(m.topic.str());
    f.data      = text(m.data);
    f.error     = m.error;
    f.rbac      = text(m.rbac);
    return f;
}
template<mdp::MessageFormat F>
mdp::BasicMessage<F> message(const Flat &f) {
    mdp::BasicMessage<F> m;
    if constexpr (F == mdp::MessageFormat::WithSourceId) m.sourceId = f.sourceId;
    m.protocolName    = f.protocol;
    m.command         = mdp::Command(f.command);
    m.serviceName     = f.service;
    m.clientRequestID = IoBuffer(f.requestId.data(), f.requestId.size());
    m.topic           = mdp::Message::URI(f.topic);
    m.data            = IoBuffer(f.data.data(), f.data.size());
    m.error           = f.error;
    m.rbac            = IoBuffer(f.rbac.data(), f.rbac.size());
    return m;
}
inline fz::Frames frames(const Flat &f, bool withId) {
    fz::Frames r;
    if (withId) r.push_back(f.sourceId);
    for (auto &x : { f.protocol, std::string(1, char(f.command)), f.service, f.requestId, f.topic, f.data, f.error, f.rbac }) r.push_back(x);
    return r;
}
inline std::optional<Flat> decode(const fz::Frames &f, bool withId) { // the protocol, read off its description
    if (f.size() != (withId ? 9u : 8u)) return {};
    std::size_t i = 0;
    Flat        r;
    if (withId) r.sourceId = f[i++];
    r.protocol = f[i++];
    if (f[i].size() != 1 || static_cast<unsigned char>(f[i][0]) > 0x0a) return {};
    r.command   = f[i++][0];
    r.service   = f[i++];
    r.requestId = f[i++];
    r.topic     = f[i++];
    r.data      = f[i++];
    r.error     = f[i++];
    r.rbac      = f[i++];
    try {
        mdp::Message::URI u(r.topic);
        if (u.str() != r.topic) return {};
    } catch (...) { return {}; }
    return r;
}
inline std::string bytes(pbt::Src &s) {
    std::string r;
    const auto  n = s.weighted({ 3, 6, 2, 1 });
    const auto  k = n == 0 ? 0u : n == 1 ? 1 + s.below(12) : n == 2 ? 13 + s.below(80) : 200 + s.below(9000);
    if (k == 0) return r;
    auto       x    = std::uint32_t(s.below(1u << 16)) * 2654435761u + 1; // one draw for the content keeps cases short
    const bool wild = (x >> 20) & 1;
    for (unsigned i = 0; i < k; ++i, x = x * 1664525u + 1013904223u) {
        const auto y = x >> 16;
        r.push_back(wild && y % 4 == 0 ? "\0\1\n\x7f\x80\xff"[(y >> 4) % 6] : char('a' + (y >> 4) % 26));
    }
    return r;
}
inline std::string topic(pbt::Src &s) {
    std::string t;
    if (s.chance(1, 5)) t += s.oneOf<std::string>({ "mdp://host:1234", "mds://127.0.0.1:8", "rest://u@h" });
    const auto n = s.below(4);
    for (unsigned i = 0; i < n; ++i) t += "/" + s.oneOf<std::string>({ "a", "svc.b", "x_y", "dashboard", "" });
    if (t.empty()) t = s.chance(1, 6) ? "" : "/";
    if (s.chance(1, 2)) t += "?" + s.oneOf<std::string>({ "ctx=FAIR.SELECTOR.C=1:S=2", "k", "a=b&c=%26", "contentType=text%2Fhtml" });
    if (s.chance(1, 6)) t += "#frag";
    return t;
}
inline Flat gen(pbt::Src &s) {
    Flat f;
    f.sourceId  = bytes(s);
    f.protocol  = s.weighted({ 3, 3, 1 }) == 2 ? bytes(s) : s.coin() ? "MDPC03" : "MDPW03";
    f.command   = int(s.below(11));
    f.service   = s.coin() ? "/svc" : bytes(s);
    f.requestId = bytes(s);
    f.topic     = topic(s);
    f.data      = bytes(s);
    f.error     = bytes(s);
    f.rbac      = bytes(s);
    return f;
}
inline std::string show(std::string_view v) {
    std::string r;
    for (unsigned char c : v.substr(0, 60)) {
        if (c >= 32 && c < 127) r.push_back(char(c));
        else {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    if (v.size() > 60) r += "...(" + std::to_string(v.size()) + ")";
    return r;
}
inline std::string show(const Flat &f) {
    return "{id=" + show(f.sourceId) + " prot=" + show(f.protocol) + " cmd=" + std::to_string(f.command) + " svc=" + show(f.service) + " req=" + show(f.requestId) + " topic=" + show(f.topic) + " data=" + show(f.data) + " err=" + show(f.error) + " rbac=" + show(f.rbac) + "}";
}
// raw multi-part messages over a socket of the code under test or a bare one
inline void sendRaw(void *sock, const fz::Frames &f) {
    for (std::size_t i = 0; i < f.size(); ++i) {
        zmq_msg_t m;
        zmq_msg_init_size(&m, f[i].size());
        std::memcpy(zmq_msg_data(&m), f[i].data(), f[i].size());
        if (zmq_msg_send(&m, sock, ZMQ_DONTWAIT | (i + 1 < f.size() ? ZMQ_SNDMORE : 0)) < 0) zmq_msg_close(&m);
    }
}
inline std::optional<fz::Frames> recvRaw(void *sock) {
    fz::Frames f;
    for (;;) {
        zmq_msg_t m;
        zmq_msg_init(&m);
        if (zmq_msg_recv(&m, sock, ZMQ_DONTWAIT) < 0) {
            zmq_msg_close(&m);
            return {};
        }
        f.emplace_back(static_cast<char *>(zmq_msg_data(&m)), zmq_msg_size(&m));
        const bool more = zmq_msg_more(&m);
        zmq_msg_close(&m);
        if (!more) return f;
    }
}
} // namespace mg
