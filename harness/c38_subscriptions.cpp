// C38: every notification reaches each matching subscription exactly once, and workers know exactly the topics someone wants.
#include "broker_env.hpp"
using namespace be;
using mdp::Command;
using mdp::Topic;
static const std::vector<std::string> kTopics{ "/s1", "/s1?k=v1", "/s1?k=v2", "/s1?j=1&k=v1", "/s1?j=1", "/s1/x", "/s1/x?k=v1", "/t.u?k=v2", "/t.u", "/s1?k" };
static const std::vector<std::string> kBad{ "/s-1?k=v1", "/s-1", "mdp://h:1/s-1", "?k=v1" };
static Topic top(const std::string &t) { return Topic::fromMdpTopic(mdp::Message::URI(t)); }
PROPERTY(notifications, 25000, 300000, "histories of 5-50 events: SUB sockets, DEALER clients and the REST server subscribe (also twice, also with malformed topics), unsubscribe (also what they never subscribed), SUB sockets close, workers publish; non-trivial = a topic lost one of several subscribers and was published afterwards") {
    const long live = fz::liveBuffers;
    bool       nontrivial = false;
    {
        resetWorld();
        mj::Settings st;
        auto         b = std::make_unique<mj::Broker<>>("/testbroker", st);
        mj::SubscriptionMatcher match;
        if (s.chance(3, 4)) {
            b->addFilter<opencmw::DomainFilter<std::string_view>>("k");
            match.addFilter<opencmw::DomainFilter<std::string_view>>("k");
        }
        const bool rest = s.coin(), tcp = s.coin();
        if (rest) s.check(bool(b->bindRest({})), "bindRest() failed");
        if (tcp) s.check(bool(b->bind(URI<>("mds://127.0.0.1:1235"))), "bind() failed");
        pump(s, *b);
        struct Sub {
            std::unique_ptr<Sock>      sock;
            std::map<std::string, int> topics; // counted by the socket itself
        };
        struct Dealer {
            std::unique_ptr<Sock> sock;
            std::set<std::string> topics;
        };
        std::vector<Sub>    subs(1 + s.below(3));
        std::vector<Dealer> dealers(1 + s.below(2));
        std::set<std::string> restTopics;
        auto openSub = [&](Sub &x) {
            x.topics.clear();
            x.sock = std::make_unique<Sock>(b->context, ZMQ_SUB, tcp && s.coin() ? "tcp://127.0.0.1:1235" : "inproc://broker/publisher");
        };
        for (auto &x : subs) openSub(x);
        for (auto &x : dealers) x.sock = std::make_unique<Sock>(b->context, ZMQ_DEALER, "inproc://broker/router");
        Sock                  worker(b->context, ZMQ_DEALER, "inproc://broker/router");
        std::string           workerService;
        Sock                  observer(b->context, ZMQ_XPUB, "inproc://broker/subscribe");
        std::set<std::string> observed;
        std::set<std::string> lostOne;
        std::set<std::string> noise; // what SUB sockets asked for that is no topic
        auto holders = [&](const std::string &t) {
            std::size_t n = rest && restTopics.contains(t);
            for (auto &x : subs) n += x.topics.contains(t);
            for (auto &x : dealers) n += x.topics.contains(t);
            return n;
        };
        const auto n    = 5 + s.below(46);
        const auto pool = s.oneOf<unsigned>({ 2, 4, 10 });
        for (unsigned i = 0; i < n; ++i) {
            const bool bad = s.chance(1, 12);
            const auto t   = bad ? kBad[s.below(unsigned(kBad.size()))] : kTopics[s.below(pool)];
            const auto op  = s.weighted({ 5, 4, 4, 3, 2, 1, 8, 1, 1 });
            Flat       f;
            f.protocol = "MDPC03";
            f.service  = "/x";
            f.topic    = t;
            switch (op) {
            case 0: {
                const auto k = s.below(unsigned(subs.size()));
                s.note("SUB ", k, " subscribes ", t);
                const auto z = bad ? t + "#" : top(t).toZmqTopic();
                (void) zmq_setsockopt(subs[k].sock->p, ZMQ_SUBSCRIBE, z.data(), z.size());
                if (!bad) ++subs[k].topics[t];
                break;
            }
            case 1: {
                const auto k = s.below(unsigned(subs.size()));
                s.note("SUB ", k, " unsubscribes ", t);
                const auto z = bad ? t + "#" : top(t).toZmqTopic();
                (void) zmq_setsockopt(subs[k].sock->p, ZMQ_UNSUBSCRIBE, z.data(), z.size());
                if (auto it = subs[k].topics.find(t); it != subs[k].topics.end() && --it->second == 0) {
                    subs[k].topics.erase(it);
                    if (holders(t)) lostOne.insert(t);
                }
                break;
            }
            case 2:
            case 3: {
                const auto k = s.below(unsigned(dealers.size()));
                f.command    = int(op == 2 ? Command::Subscribe : Command::Unsubscribe);
                s.note("DEALER ", k, op == 2 ? " subscribes " : " unsubscribes ", t);
                dealers[k].sock->send(f);
                if (op == 2 && !bad) dealers[k].topics.insert(t);
                if (op == 3 && dealers[k].topics.erase(t) && holders(t)) lostOne.insert(t);
                break;
            }
            case 4: {
                if (!rest) break;
                const bool on = s.coin();
                f.command     = int(on ? Command::Subscribe : Command::Unsubscribe);
                s.note("REST ", on ? "subscribes " : "unsubscribes ", t);
                Rest::incoming.push_back(message<mdp::MessageFormat::WithSourceId>(f));
                if (on && !bad) restTopics.insert(t);
                if (!on && restTopics.erase(t) && holders(t)) lostOne.insert(t);
                break;
            }
            case 5: {
                const auto k = s.below(unsigned(subs.size()));
                s.note("SUB ", k, " closes");
                const auto had = subs[k].topics;
                openSub(subs[k]);
                for (auto &[x, c] : had)
                    if (holders(x)) lostOne.insert(x);
                break;
            }
            case 6: {
                f.protocol  = "MDPW03";
                f.command   = int(Command::Notify);
                f.service   = workerService.empty() ? s.oneOf<std::string>({ "/s1", "/t.u" }) : s.oneOf<std::string>({ "/s1", workerService });
                f.requestId = bytes(s);
                f.data      = std::to_string(i) + bytes(s);
                f.error     = s.chance(1, 4) ? bytes(s) : "";
                f.rbac      = bytes(s);
                s.note("worker publishes ", t);
                worker.send(f);
                break;
            }
            case 7: {
                f.protocol    = "MDPW03";
                f.command     = int(Command::Ready);
                workerService = f.service = s.oneOf<std::string>({ "/s1", "/t.u" });
                f.topic       = "/";
                s.note("worker is ready for ", f.service);
                worker.send(f);
                break;
            }
            default:
                vt::ns += 500'000'000; // less than it takes a worker to expire
                f.protocol = "MDPW03";
                f.command  = int(Command::Heartbeat);
                if (!workerService.empty()) worker.send(f);
                f.protocol = "MDPC03";
                f.command  = int(Command::Get);
                f.service  = "/mmi.echo";
                dealers[0].sock->send(f);
                pump(s, *b);
                (void) dealers[0].sock->recv();
            }
            pump(s, *b);
            while (worker.recv()) {}
            // what workers are told
            while (auto r = observer.recv()) {
                s.check(r->size() == 1 && !(*r)[0].empty(), "the worker side received something that is no subscription");
                const auto x = (*r)[0].substr(1);
                if ((*r)[0][0] == 1) observed.insert(x);
                else observed.erase(x);
            }
            std::set<std::string> want;
            for (auto &x : kTopics)
                if (holders(x)) want.insert(top(x).toZmqTopic());
            for (auto &x : want) s.check(observed.contains(x), "workers do not know that ", x, " is subscribed");
            for (auto &x : observed) s.check(want.contains(x), "workers still believe that ", x, " is subscribed");
            // deliveries
            const bool published = op == 6 && !bad;
            if (published && lostOne.contains(t)) nontrivial = true;
            Flat expect = f;
            expect.protocol = "MDPC03";
            expect.command  = int(Command::Final);
            if (!workerService.empty()) expect.service = workerService;
            for (std::size_t k = 0; k < subs.size(); ++k) {
                std::multiset<std::string> due, got;
                if (published)
                    for (auto &[x, c] : subs[k].topics)
                        if (match(top(t), top(x))) due.insert(top(x).toZmqTopic());
                while (auto r = subs[k].sock->recv()) {
                    const auto m = decode(*r, true);
                    s.check(bool(m), "SUB ", k, " received something that is not a message");
                    if (m->sourceId == "/mmi.service") continue;
                    Flat e = expect;
                    e.sourceId = m->sourceId;
                    s.check(published && *m == e, "SUB ", k, " received ", show(*m), published ? " instead of " + show(e) : "");
                    got.insert(m->sourceId);
                }
                s.check(got == due, "SUB ", k, " received ", got.size(), " copies of ", t, " instead of ", due.size());
            }
            for (std::size_t k = 0; k < dealers.size(); ++k) {
                std::size_t due = 0, got = 0;
                if (published)
                    for (auto &x : dealers[k].topics) due += match(top(t), top(x));
                while (auto r = dealers[k].sock->recv()) {
                    const auto m = decode(*r, false);
                    s.check(bool(m), "DEALER ", k, " received something that is not a message");
                    s.check(published && *m == expect, "DEALER ", k, " received ", show(*m), published ? " instead of " + show(expect) : "");
                    ++got;
                }
                s.check(got == due, "DEALER ", k, " received ", got, " copies of ", t, " instead of ", due);
            }
            std::multiset<std::string> due, got;
            if (published)
                for (auto &x : restTopics)
                    if (match(top(t), top(x))) due.insert(top(x).toZmqTopic());
            for (auto &[z, m] : Rest::notifications) {
                auto g = flat(m);
                g.sourceId.clear();
                s.check(published && g == expect, "REST received ", show(g));
                got.insert(z);
            }
            Rest::notifications.clear();
            s.check(got == due, "REST received ", got.size(), " copies of ", t, " instead of ", due.size());
        }
        s.check(fz::misuse.empty(), "use of the messaging library: ", fz::misuse);
    }
    s.check(fz::liveBuffers == live, fz::liveBuffers - live, " message buffers were not released (negative: released twice)");
    if (nontrivial) s.nontrivial();
}
