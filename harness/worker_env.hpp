// The real BasicWorker/Worker over the stand-in for libzmq; the harness plays the broker whenever the worker is idle.
#pragma once
#include "broker_env.hpp"
#include <majordomo/Worker.hpp>
namespace we {
using namespace be;
using mdp::Command;
struct FakeBroker {
    opencmw::zmq::Context   context;
    void                   *router, *sub;
    std::string             worker; // identity of the current connection
    FakeBroker() {
        router = zmq_socket(context.zmq_ptr, ZMQ_ROUTER);
        sub    = zmq_socket(context.zmq_ptr, ZMQ_SUB);
        if (zmq_bind(router, "inproc://broker/router") || zmq_bind(sub, "inproc://broker/subscribe")) std::abort();
    }
    ~FakeBroker() {
        zmq_close(router);
        zmq_close(sub);
    }
    void send(const Flat &f) {
        Flat g     = f;
        g.sourceId = worker;
        sendRaw(router, frames(g, true));
    }
    void sendFrames(fz::Frames f) {
        f.insert(f.begin(), worker);
        sendRaw(router, f);
    }
    std::vector<Flat> take(pbt::Src &s) {
        std::vector<Flat> r;
        while (auto raw = recvRaw(router)) {
            auto m = decode(*raw, true);
            s.check(bool(m), "the worker sent something that is not a message");
            s.check(m->protocol == "MDPW03", "the worker sent a message of protocol ", show(m->protocol));
            r.push_back(*m);
        }
        std::stable_partition(r.begin(), r.end(), [&](const Flat &m) { return m.sourceId == worker; }); // connections have no order among each other
        return r;
    }
    void subscribe(const std::string &zmqTopic, bool on) { zmq_setsockopt(sub, on ? ZMQ_SUBSCRIBE : ZMQ_UNSUBSCRIBE, zmqTopic.data(), zmqTopic.size()); }
};
inline Flat request(int command, std::string client, std::string id, std::string topic, std::string data, std::string rbac) {
    Flat f;
    f.protocol  = "MDPW03";
    f.command   = command;
    f.service   = std::move(client);
    f.requestId = std::move(id);
    f.topic     = std::move(topic);
    f.data      = std::move(data);
    f.rbac      = std::move(rbac);
    return f;
}
inline mj::Settings settings(pbt::Src &s) {
    mj::Settings st;
    st.heartbeatInterval       = std::chrono::milliseconds(10 + s.below(1000));
    st.heartbeatLiveness       = int(1 + s.below(4));
    st.workerReconnectInterval = std::chrono::milliseconds(0);
    return st;
}
} // namespace we
