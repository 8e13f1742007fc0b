// C39, real threads (ThreadSanitizer): notifications from any thread arrive once and in order while the worker cleans up.
#include "worker_env.hpp"
#include <thread>
using namespace we;
using W = mj::BasicWorker<"/svc/w", mj::rbac<mj::ADMIN, mj::NONE>>;
PROPERTY(notify_threads, 600, 15000, "2-12 threads, each sending 1-20 notifications, some of them starting late, while the worker's loop removes unused handlers; non-trivial = at least 3 threads", .nondet = true, .maxWorkers = 4, .cpuLimit = 300) {
    FakeBroker   broker;
    mj::Settings st;
    st.heartbeatInterval = std::chrono::milliseconds(0);
    st.heartbeatLiveness = 1 << 30;
    W worker(URI<>("inproc://broker"), [](mj::RequestContext &) {}, broker.context, st);
    broker.subscribe("/svc/w#", true);
    std::thread runner([&] { worker.run(); });
    const auto  n = 2 + s.below(11);
    std::vector<unsigned> count, pause;
    for (unsigned i = 0; i < n; ++i) {
        count.push_back(s.coin() ? 1 + s.below(3) : 1 + s.below(20));
        pause.push_back(s.coin() ? 0 : s.below(100));
    }
    s.nontrivial(n >= 3);
    s.note(n, " threads");
    const auto until = std::chrono::steady_clock::now() + std::chrono::seconds(120);
    while (worker.activeSubscriptions().empty() && std::chrono::steady_clock::now() < until) std::this_thread::yield();
    std::atomic<int> failed = 0;
    std::vector<std::thread> threads;
    for (unsigned i = 0; i < n; ++i)
        threads.emplace_back([&, i] {
            for (unsigned k = 0; k < count[i]; ++k) {
                if (pause[i]) std::this_thread::sleep_for(std::chrono::microseconds(pause[i]));
                Flat f;
                f.topic     = "/svc/w";
                f.requestId = std::to_string(i);
                f.data      = std::to_string(k);
                if (!worker.notify(message<mdp::MessageFormat::WithoutSourceId>(f))) ++failed;
            }
        });
    for (auto &t : threads) t.join();
    s.check(failed == 0, failed.load(), " calls of notify() fail");
    std::vector<unsigned> got(n, 0);
    std::size_t total = 0, want = 0;
    for (auto c : count) want += c;
    while (total < want && std::chrono::steady_clock::now() < until) {
        const auto ms = broker.take(s);
        if (ms.empty()) std::this_thread::yield();
        for (auto &m : ms) {
            if (m.command != int(Command::Notify)) continue;
            const auto i = std::stoul(m.requestId), k = std::stoul(m.data);
            s.check(i < n && got[i] == k, "notification ", k, " of thread ", i, " arrives instead of number ", i < n ? got[i] : 0);
            ++got[i];
            ++total;
        }
    }
    worker.shutdown();
    runner.join();
    s.check(total == want, "only ", total, " of ", want, " notifications arrive");
    s.check(fz::misuse.empty(), fz::misuse);
}
