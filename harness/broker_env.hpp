// The real Broker over the stand-in for libzmq, with virtual time and a stand-in for its REST server.
#pragma once
#define OPENCMW_MAJORDOMO_RESTSERVER_HPP // the HTTP part is replaced (no nghttp2/OpenSSL here)
#define OPENCMW_NGHTTP2HELPERS_H
#ifndef REAL_TIME
#include "vtime.hpp"
#endif
#include "mdp_gen.hpp"
#include <deque>
#include <expected>
#include <map>
#include <IoBuffer.hpp>
#include <MdpMessage.hpp>
#include <Topic.hpp>
#include <majordomo/Rest.hpp>
namespace opencmw::rest::detail {
inline int setupIgnoreSigpipe() { return 0; }
} // namespace opencmw::rest::detail
namespace opencmw::majordomo::detail::rest {
struct RestServer {
    using Message = mdp::BasicMessage<mdp::MessageFormat::WithSourceId>;
    static inline std::deque<Message>                               incoming;  // what the HTTP side wants from the broker
    static inline std::vector<Message>                              responses; // what the broker answered
    static inline std::vector<std::pair<std::string, Message>>      notifications;
    static std::expected<RestServer, std::string>                   unencrypted() { return RestServer{}; }
    static std::expected<RestServer, std::string>                   sslWithBuffers(std::string_view, std::string_view) { return RestServer{}; }
    static std::expected<RestServer, std::string>                   sslWithPaths(std::filesystem::path, std::filesystem::path) { return RestServer{}; }
    void                                                            setHandlers(std::vector<opencmw::majordomo::rest::Handler>) {}
    void                                                            handleResponse(Message &&m) { responses.push_back(std::move(m)); }
    void                                                            handleNotification(const mdp::Topic &t, Message &&m) { notifications.emplace_back(t.toZmqTopic(), std::move(m)); }
    void                                                            populatePollerItems(std::vector<zmq_pollitem_t> &items) { items.push_back({ nullptr, 77, ZMQ_POLLIN, 0 }); }
    std::vector<Message>                                            processReadWrite(int, bool, bool) {
        std::vector<Message> r(std::make_move_iterator(incoming.begin()), std::make_move_iterator(incoming.end()));
        incoming.clear();
        return r;
    }
    std::expected<void, std::string> bind(const opencmw::majordomo::rest::Settings &) { return {}; }
};
} // namespace opencmw::majordomo::detail::rest
#include <majordomo/Broker.hpp>
namespace be {
using namespace mg;
namespace mj = opencmw::majordomo;
using Rest   = mj::detail::rest::RestServer;
using opencmw::URI;
struct Sock { // a peer of the broker
    void *p;
    Sock(const opencmw::zmq::Context &c, int type, const std::string &endpoint) : p(zmq_socket(c.zmq_ptr, type)) { (void) zmq_connect(p, endpoint.c_str()); }
    Sock(const Sock &) = delete;
    ~Sock() { zmq_close(p); }
    void                      send(const Flat &f) { sendRaw(p, frames(f, false)); }
    std::optional<fz::Frames> recv() { return recvRaw(p); }
};
inline void resetWorld() {
#ifndef REAL_TIME
    vt::ns = 1'000'000'000'000;
#endif
    fz::misuse.clear();
    fz::onPoll   = nullptr;
    fz::failSend = nullptr;
    fz::fdReady  = [](int fd, short) -> short { return fd == 77 && !Rest::incoming.empty() ? ZMQ_POLLIN : 0; };
    Rest::incoming.clear();
    Rest::responses.clear();
    Rest::notifications.clear();
}
// processes until the broker has nothing left to read; the number of rounds it needed
template<typename B>
void pump(pbt::Src &s, B &b) {
    for (int i = 0; i < 200; ++i) {
        bool more = false; // input that is still waiting makes the poll return at once
        fz::onPoll = [&](long) { return true; };
        bool idle = false;
        fz::onPoll = [&](long) {
            idle = true;
            return true;
        };
        try {
            s.check(b.processMessages(), "processMessages() gives up");
        } catch (const pbt::Fail &) { throw; } catch (const std::exception &e) { s.check(false, "an exception leaves the broker's loop: ", e.what()); }
        fz::onPoll = nullptr;
        if (idle) return;
        (void) more;
    }
    s.check(false, "the broker does not become idle");
}
} // namespace be
