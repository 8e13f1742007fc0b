// C40: the client: every request is answered exactly once, by its own reply; notifications reach their subscription; under every schedule.
#include "sched.hpp"
namespace std {
class verif_thread { // a fiber of the scheduler
protected:
    vs::Sched::Fib *f = nullptr;

public:
    using id = vs::Sched::Fib *;
    verif_thread() = default;
    template<typename F>
    explicit verif_thread(F &&fn) {
        f = vs::S()->spawn([fn = std::decay_t<F>(std::forward<F>(fn))]() mutable {
            try {
                fn();
            } catch (const std::exception &e) { throw pbt::Fail{ std::string("an exception ends a thread of the client (std::terminate): ") + e.what() }; }
        }, "client thread");
        vs::point();
    }
    verif_thread(verif_thread &&o) noexcept : f(std::exchange(o.f, nullptr)) {}
    verif_thread &operator=(verif_thread &&o) noexcept {
        if (f) terminate("a running thread was overwritten (std::terminate)");
        f = std::exchange(o.f, nullptr);
        return *this;
    }
    ~verif_thread() {
        if (f) terminate("a thread was destroyed without being joined (std::terminate)");
    }
    static void terminate(const char *what) {
        if (!vs::S()) return;
        if (!vs::S()->err) vs::S()->err = std::make_exception_ptr(pbt::Fail{ what });
        vs::S()->stop = true;
    }
    bool joinable() const noexcept { return f != nullptr; }
    id   get_id() const noexcept { return f; }
    void join() {
        if (!f) throw std::system_error(std::make_error_code(std::errc::invalid_argument), "join");
        auto *g = f;
        vs::point();
        if (!g->done) vs::S()->block([g] { return g->done; });
        f = nullptr;
    }
    void detach() { f = nullptr; }
    static unsigned hardware_concurrency() noexcept { return 2; }
};
class verif_jthread : public verif_thread {
    std::stop_source src;

public:
    verif_jthread() : src(std::nostopstate) {}
    template<typename F>
    explicit verif_jthread(F &&fn) : verif_thread() {
        auto t = src.get_token();
        static_cast<verif_thread &>(*this) = verif_thread([fn = std::decay_t<F>(std::forward<F>(fn)), t]() mutable {
            if constexpr (std::is_invocable_v<F, std::stop_token>) fn(t);
            else fn();
        });
    }
    verif_jthread(verif_jthread &&) noexcept = default;
    verif_jthread &operator=(verif_jthread &&o) noexcept {
        if (joinable()) {
            request_stop();
            join();
        }
        static_cast<verif_thread &>(*this) = std::move(static_cast<verif_thread &>(o));
        src = std::move(o.src);
        return *this;
    }
    ~verif_jthread() {
        if (f && vs::S()) {
            request_stop();
            join();
        }
    }
    bool request_stop() noexcept {
        vs::point();
        return src.request_stop();
    }
    std::stop_source get_stop_source() noexcept { return src; }
    std::stop_token  get_stop_token() const noexcept { return src.get_token(); }
};
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vs::nowNs())); }
} // namespace _V2
} // namespace chrono
} // namespace std
#define thread verif_thread
#define jthread verif_jthread
#include <Client.hpp>
#include "mdp_gen.hpp"
#undef thread
#undef jthread
#include "client_env.hpp"
using namespace ce;
using namespace std::chrono_literals;
namespace {
void scenario(pbt::Src &s, bool subscriptions, bool requests) {
    fz::misuse.clear();
    fz::failSend = nullptr;
    vs::Sched sc(s, 3000, 2000000);
    fz::onCall = [] { vs::point(); };
    fz::onWait = [](zmq_pollitem_t *items, int n, long timeout) {
        auto *a = vs::S();
        if (!a) return;
        a->block([items, n] {
            for (int i = 0; i < n; ++i)
                if (items[i].socket && fz::ready(fz::sock(items[i].socket))) return true;
            return false;
        }, timeout < 0 ? -1 : a->nowNs + timeout * 1'000'000);
    };
    auto *w = new World(s, subscriptions, requests); // left behind by a failed case
    w->sleep = [](std::int64_t us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); };
    sc.spawn([&] {
        w->start();
        for (std::size_t i = 0; i < w->users.size(); ++i) sc.spawn([&, i] { w->user(i); }, "user " + std::to_string(i));
        sc.spawn([&] { w->serve(); }, "broker");
    }, "main");
    sc.run();
    w->verdict();
    for (auto &f : sc.fibs) s.check(f->done, [&] { return "thread '" + f->name + "' is left over"; });
    s.check(fz::misuse.empty(), fz::misuse);
    s.label(w->labels());
    s.nontrivial(w->interesting() && sc.switches > 5);
    delete w;
    fz::onCall = nullptr;
    fz::onWait = nullptr;
}
} // namespace
#define RULE "1-2 users of one client context sending to 1-2 brokers; the broker answers late, out of order, twice or not at all, and sends foreign, malformed and unknown messages; schedule drawn per synchronisation and socket access; "
PROPERTY(requests, 80000, 1500000, RULE "gets and sets only; non-trivial = at least 2 requests answered") { scenario(s, false, true); }
PROPERTY(subscriptions, 80000, 1500000, RULE "subscribing, unsubscribing, subscribing again and notifications only; non-trivial = at least 2 notifications delivered") { scenario(s, true, false); }
PROPERTY(mixed, 80000, 1500000, RULE "both; non-trivial = at least one of each") { scenario(s, true, true); }

// the two protocol clients used directly, without threads
PROPERTY(direct, 30000, 500000, "3-25 gets, sets, subscriptions, notifications, replies and housekeeping calls on one Client and one SubscriptionClient talking to 3 brokers each; non-trivial = 2 brokers used") {
    using opencmw::client::Client;
    using opencmw::client::SubscriptionClient;
    fz::misuse.clear();
    fz::failSend = nullptr;
    opencmw::zmq::Context context;
    std::vector<void *>   router, pub;
    struct Close {
        std::vector<void *> &a, &b;
        ~Close() {
            for (auto *p : a) zmq_close(p);
            for (auto *p : b) zmq_close(p);
        }
    } close{ router, pub };
    for (int b = 0; b < 3; ++b) {
        router.push_back(zmq_socket(context.zmq_ptr, ZMQ_ROUTER));
        pub.push_back(zmq_socket(context.zmq_ptr, ZMQ_XPUB));
        const auto n = b == 2 ? "tcp://host:" : "inproc://b", m = b == 2 ? "tcp://host:1" : "inproc://p"; // with port: tcp
        if (zmq_bind(router.back(), (n + std::to_string(b)).c_str()) || zmq_bind(pub.back(), (m + std::to_string(b)).c_str())) std::abort();
    }
    {
    std::vector<zmq_pollitem_t> items;
    Client             client(context, items, 20ms, "c");
    SubscriptionClient sub(context, items, 20ms, "c");
    std::deque<Flat>   replies[3], notes[3]; // expected, per broker
    std::set<std::string> on[3];
    std::set<int>      used;
    int                id = 0;
    for (auto n = 3 + s.below(23); n > 0; --n) {
        const int  b    = int(s.below(3));
        const auto host = b == 2 ? std::string("host:2") : "b" + std::to_string(b), subHost = b == 2 ? std::string("host:12") : "p" + std::to_string(b);
        const auto path = s.oneOf<std::string>({ "/svc/a", "/b", "/x/y.z" });
        switch (s.weighted({ 4, 3, 4, 3, 3, 1 })) {
        case 0: {
            const auto rid  = std::to_string(++id);
            const bool set  = s.coin();
            const auto data = set ? bytes(s) : "";
            const STRICT_URI uri("mdp://" + host + path + "?q=" + rid);
            s.note(set ? "set " : "get ", uri.str());
            if (set) client.set(uri, rid, std::as_bytes(std::span(data.data(), data.size())));
            else client.get(uri, rid);
            auto raw = recvRaw(router[std::size_t(b)]);
            s.check(bool(raw), [&] { return "the request does not reach " + host; });
            auto m = decode(*raw, true);
            s.check(m && m->protocol == "MDPC03" && m->command == int(set ? Command::Set : Command::Get) && m->service == path && m->topic == path + "?q=" + rid && m->requestId == rid && m->data == data && m->error.empty() && m->rbac.empty(),
                    [&] { return std::string("the request arrives as ") + (m ? show(*m) : "garbage"); });
            m->command = int(Command::Final);
            m->data    = bytes(s);
            m->error   = s.chance(1, 3) ? bytes(s) : "";
            m->rbac    = s.chance(1, 3) ? bytes(s) : "";
            sendRaw(router[std::size_t(b)], frames(*m, true));
            replies[b].push_back(*m);
            used.insert(b);
            break;
        }
        case 1: {
            const auto topic = path + (s.coin() ? "?k=v" : "");
            const STRICT_URI uri("mds://" + subHost + topic);
            if (on[b].erase(topic)) sub.unsubscribe(uri, "");
            else {
                sub.subscribe(uri, "");
                on[b].insert(topic);
            }
            s.note(on[b].contains(topic) ? "subscribe " : "unsubscribe ", uri.str());
            break;
        }
        case 2: {
            Flat f;
            const auto topic = path + (s.coin() ? "?k=v" : "");
            f.sourceId = topic + "#";
            f.protocol = "MDPC03";
            f.command  = int(s.coin() ? Command::Notify : Command::Final);
            f.service  = path;
            f.topic    = topic + (topic == path ? "?" : "&") + "n=" + std::to_string(++id);
            f.data     = bytes(s);
            f.error    = s.chance(1, 3) ? bytes(s) : "";
            f.rbac     = s.chance(1, 3) ? bytes(s) : "";
            sendRaw(pub[std::size_t(b)], frames(f, true));
            if (on[b].contains(topic)) notes[b].push_back(f);
            used.insert(b);
            break;
        }
        case 3: {
            opencmw::mdp::Message m;
            const bool some = std::any_of(std::begin(replies), std::end(replies), [](auto &q) { return !q.empty(); });
            const bool got = client.receive(m);
            s.check(got == some, got ? "a reply nobody sent is received" : "a reply is not received");
            if (!got) break;
            const auto f = flat(m);
            bool found = false;
            for (auto &q : replies)
                if (!found && !q.empty() && q.front().requestId == f.requestId) {
                    auto e = q.front();
                    e.sourceId.clear();
                    s.check(e == f && m.id == std::stoul(e.requestId), [&] { return "the reply " + show(e) + " is received as " + show(f) + " with id " + std::to_string(m.id); });
                    q.pop_front();
                    found = true;
                }
            s.check(found, [&] { return "the message " + show(f) + " is received out of order, or was not sent"; });
            break;
        }
        case 4: {
            opencmw::mdp::Message m;
            const bool got = sub.receive(m);
            // what was published before an unsubscription may still be on its way, or not
            if (!got) {
                for (int k = 0; k < 3; ++k)
                    for (auto &f : notes[k]) {
                        auto t = f.sourceId.substr(0, f.sourceId.size() - 1);
                        s.check(!on[k].contains(t), [&] { return "notification " + show(f) + " is not received"; });
                    }
                for (auto &q : notes) q.clear();
                break;
            }
            const auto f = flat(m);
            bool found = false;
            for (auto &q : notes) {
                const auto it = std::find_if(q.begin(), q.end(), [&](auto &e) { return e.topic == f.topic; });
                if (it == q.end()) continue;
                s.check(f.data == it->data && f.error == it->error && f.rbac == it->rbac && f.service == it->sourceId, [&] { return "the notification " + show(*it) + " is received as " + show(f); });
                q.erase(q.begin(), it + 1);
                found = true;
            }
            s.check(found, [&] { return "the notification " + show(f) + " is received twice, or was not published"; });
            break;
        }
        default: {
            const auto now = std::chrono::system_clock::now();
            s.check(client.housekeeping(now) > now && sub.housekeeping(now) > now, "housekeeping asks to be called in the past");
        }
        }
    }
    std::set<void *> polled;
    for (auto &i : items) s.check(polled.insert(i.socket).second && (i.events & ZMQ_POLLIN), "a connection is polled twice or not for input");
    s.nontrivial(used.size() >= 2);
    }
    s.check(fz::misuse.empty(), fz::misuse);
}
