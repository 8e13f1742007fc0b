// C40, real threads (ThreadSanitizer): several users of one client, a broker that answers at once and publishes all the time.
#include <thread>
#include <Client.hpp>
#include "mdp_gen.hpp"
using namespace mg;
using namespace opencmw;
using namespace std::chrono_literals;
using opencmw::client::ClientBase;
using opencmw::client::ClientContext;
using opencmw::client::MDClientCtx;
using mdp::Command;
using U = URI<uri_check::STRICT>;
PROPERTY(client_threads, 240, 4000, "1-3 threads with 1-8 requests each and subscriptions that come and go, while the broker answers and publishes; non-trivial = at least 2 threads", .nondet = true, .maxWorkers = 6, .cpuLimit = 300) {
    fz::misuse.clear();
    const auto n = 1 + s.below(3);
    std::vector<std::vector<int>> plan(n); // 0 get, 1 set, 2 subscribe or unsubscribe, 3 pause
    for (auto &p : plan)
        for (auto k = 1 + s.below(8); k > 0; --k) p.push_back(int(s.weighted({ 3, 3, 3, 1 })));
    const bool direct = s.coin(); // the client is destroyed without stop()
    s.nontrivial(n >= 2);
    s.note(n, " threads");
    zmq::Context context;
    void *router = zmq_socket(context.zmq_ptr, ZMQ_ROUTER), *pub = zmq_socket(context.zmq_ptr, ZMQ_XPUB);
    if (zmq_bind(router, "inproc://b0") || zmq_bind(pub, "inproc://p0")) std::abort();
    std::atomic<bool> over = false;
    std::atomic<int>  wrong = 0, answered = 0, noted = 0;
    std::thread broker([&] {
        for (int seq = 0; !over; ++seq) {
            while (auto raw = recvRaw(router)) {
                auto m = decode(*raw, true);
                if (!m) {
                    ++wrong;
                    continue;
                }
                m->command = int(Command::Final);
                m->data    = m->topic + m->data;
                sendRaw(router, frames(*m, true));
            }
            while (recvRaw(pub)) {}
            if (seq % 4 == 0)
                for (unsigned i = 0; i < n; ++i) {
                    Flat f;
                    f.sourceId = "/t/" + std::to_string(i) + "#";
                    f.protocol = "MDPC03";
                    f.command  = int(Command::Notify);
                    f.service  = "/t/" + std::to_string(i);
                    f.topic    = f.service;
                    f.data     = std::to_string(seq);
                    sendRaw(pub, frames(f, true));
                }
            std::this_thread::sleep_for(300us);
        }
    });
    int want = 0;
    for (auto &p : plan) want += int(std::count_if(p.begin(), p.end(), [](int k) { return k < 2; }));
    {
        std::vector<std::unique_ptr<ClientBase>> c;
        c.push_back(std::make_unique<MDClientCtx>(context, 20ms, "client"));
        ClientContext client(std::move(c));
        std::vector<std::thread> users;
        for (unsigned i = 0; i < n; ++i)
            users.emplace_back([&, i] {
                bool on = false;
                auto seen = std::make_shared<int>(-1); // of the client's thread
                for (std::size_t k = 0; k < plan[i].size(); ++k) {
                    const auto path = "/svc/a?id=" + std::to_string(i * 100 + k);
                    auto       cb   = [&, expected = path + (plan[i][k] == 1 ? "data" + std::to_string(k) : ""), calls = std::make_shared<int>(0)](const mdp::Message &m) {
                        if (text(m.data) != expected || ++*calls != 1) ++wrong;
                        ++answered;
                    };
                    switch (plan[i][k]) {
                    case 0: client.get(U("mdp://b0" + path), cb); break;
                    case 1: {
                        const auto d = "data" + std::to_string(k);
                        client.set(U("mdp://b0" + path), cb, IoBuffer(d.data(), d.size()));
                        break;
                    }
                    case 2:
                        if (on) client.unsubscribe(U("mds://p0/t/" + std::to_string(i)));
                        else client.subscribe(U("mds://p0/t/" + std::to_string(i)), [&, seen, i](const mdp::Message &m) {
                            const int v = std::atoi(text(m.data).c_str());
                            if (m.topic.str() != "/t/" + std::to_string(i) || v <= *seen) ++wrong;
                            *seen = v;
                            ++noted;
                        });
                        on = !on;
                        break;
                    default: std::this_thread::sleep_for(20ms);
                    }
                }
            });
        for (auto &u : users) u.join();
        const auto until = std::chrono::steady_clock::now() + 100s;
        while (answered < want && std::chrono::steady_clock::now() < until) std::this_thread::sleep_for(1ms);
        if (!direct) client.stop();
    }
    over = true;
    broker.join();
    s.check(wrong == 0, [&] { return std::to_string(wrong.load()) + " answers or notifications are wrong"; });
    s.check(answered == want, [&] { return std::to_string(answered.load()) + " of " + std::to_string(want) + " requests were answered"; });
    if (s.coin()) { // the protocol's client on its own
        MDClientCtx c(context, 20ms, "client");
        if (s.coin()) c.stop();
    }
    zmq_close(router);
    zmq_close(pub);
    s.check(fz::misuse.empty(), fz::misuse);
}
