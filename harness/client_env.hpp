// Users of the real ClientContext/MDClientCtx and brokers played by the harness, over the stand-in for libzmq.
#pragma once
#include <Client.hpp>
#include "mdp_gen.hpp"
namespace ce {
using namespace mg;
using opencmw::URI;
using opencmw::client::ClientBase;
using opencmw::client::ClientContext;
using opencmw::client::MDClientCtx;
using opencmw::mdp::Command;
using STRICT_URI = URI<opencmw::uri_check::STRICT>;
using Params     = std::unordered_map<std::string, std::optional<std::string>>;
constexpr std::int64_t kSettle = 600'000'000; // ns of virtual time after which everything under way has arrived

struct Req {
    int         id, broker, kind; // kind 0: get, 1: set, 2: cannot be sent
    std::string uri, path;
    Params      params;
    std::string data;
    bool        seen = false, rejected = false;
    int         calls = 0;
    bool        inTime = true; // the client was still running
    std::string wireId;
    std::vector<Flat> replies; // sent for this request, in order
    Flat        got;
};
struct Sub {
    int          id, broker, topic;
    bool         callback;
    std::int64_t call = -1, unsub = -1;
    std::vector<int> got;
};
struct Note {
    int          seq, broker, topic;
    std::int64_t at;
    std::string  data;
    Flat         flat;
    int          deliveries = 0;
    bool         real       = true; // false: not a notification (unknown command)
};
struct Op {
    int          kind; // 0 request, 1 subscribe, 2 unsubscribe, 3 pause
    int          arg = 0, broker = 0;
    std::int64_t us = 0;
    bool         callback = true;
};
struct World {
    pbt::Src              &s;
    opencmw::zmq::Context  context;
    void                  *router[2], *pub[2];
    std::unique_ptr<ClientContext> client;
    std::vector<std::vector<Op>>   users;
    std::vector<Req>               reqs;
    std::deque<Sub>                subs;
    std::map<std::pair<int, int>, int> current; // (broker, topic) -> index of the subscription
    std::deque<Note>               notes;
    std::vector<std::string>       paths{ "/svc/a", "/svc.b", "/a/b/c", "/some/longer/service.name_1" };
    std::vector<std::pair<std::string, Params>> topics{ { "/svc/a", {} }, { "/svc/a", { { "ctx", "FAIR.SELECTOR.C=1:S=2" } } }, { "/svc/a", { { "ctx", "FAIR.SELECTOR.C=1:S=2" }, { "a&b", "x y" } } }, { "/svc.b", { { "flag", std::nullopt } } } };
    std::function<void(std::int64_t)> sleep;
    std::size_t                    usersDone = 0;
    bool                           stopped = false, explicitStop = false, early = false;
    int                            rounds;
    bool                           overflow = false; // more commands at once than the client's queue takes: the first 32 must get through
    std::set<int>                  noise;
    std::map<std::string, int>     byWire; // wire id + identity -> request

    template<typename T> const T &pick(const std::vector<T> &v) { return v[s.below(v.size())]; }
    static std::string text(const std::string &path, const Params &p) { return std::string(STRICT_URI::factory().path(path).setQuery(p).build().str()); }
    std::string zmqTopic(int t) const { return opencmw::mdp::Topic::fromString(topics[std::size_t(t)].first, { topics[std::size_t(t)].second.begin(), topics[std::size_t(t)].second.end() }).toZmqTopic(); }
    World(pbt::Src &src, bool withSubs, bool withReqs) : s(src) {
        for (int b = 0; b < 2; ++b) {
            router[b] = zmq_socket(context.zmq_ptr, ZMQ_ROUTER);
            pub[b]    = zmq_socket(context.zmq_ptr, ZMQ_XPUB);
        }
        overflow = withReqs && !withSubs && s.chance(1, 10);
        const auto nu = overflow ? 1 : 1 + s.below(2);
        const bool longRun = s.chance(1, 6);
        explicitStop = s.coin();
        early        = s.chance(1, 6);
        rounds       = int(2 + s.below(longRun ? 40 : 14));
        for (unsigned u = 0; u < nu; ++u) {
            std::vector<Op> ops;
            std::set<std::pair<int, int>> on;
            const auto n = overflow ? 33 + s.below(12) : 1 + s.below(longRun ? 30 : 7);
            for (unsigned k = 0; k < n; ++k) {
                if (!overflow && k && k % 10 == 0) ops.push_back({ .kind = 3, .us = 100'000 }); // the queue of the client takes 32 commands
                const auto what = overflow ? 0 : s.weighted({ withReqs ? 4u : 0u, withSubs ? 4u : 0u, 2u });
                if (what == 0) {
                    Req r;
                    r.id     = int(reqs.size());
                    r.broker = int(s.below(2));
                    r.kind   = !overflow && s.chance(1, 10) ? 2 : int(s.below(2));
                    r.path   = pick(paths);
                    if (s.coin()) r.params["ctx"] = s.oneOf<std::string>({ "FAIR.SELECTOR.ALL", "a&b=c", "%x" });
                    if (s.chance(1, 4)) r.params["x y"] = std::nullopt;
                    r.params["id"] = std::to_string(r.id);
                    const auto rest = text(r.path, r.params);
                    if (r.kind == 2) r.uri = s.oneOf<std::string>({ "foo://b0" + rest, "mdp://b0/white%20space?id=1", "mds://p0" + rest, "mdp:/svc/a", "mdp://host:99999" + rest, "mdp://b1/a/$$$" });
                    else {
                        r.uri = std::string("mdp://b") + std::to_string(r.broker) + rest + (s.chance(1, 8) ? "#frag" : "");
                        if (r.kind == 1) r.data = bytes(s);
                    }
                    ops.push_back({ .kind = 0, .arg = r.id });
                    s.note("user ", u, r.kind == 0 ? ": get " : r.kind == 1 ? ": set " : ": ill-formed request ", r.uri);
                    reqs.push_back(std::move(r));
                } else if (what == 1) {
                    const int b = int(s.below(2)), t = int(s.below(2)) * 2 + int(u); // each user has topics of its own
                    const bool isOn = on.contains({ b, t });
                    const bool cb   = !s.chance(1, 10);
                    ops.push_back({ .kind = isOn ? 2 : 1, .arg = t, .broker = b, .callback = cb });
                    if (isOn) on.erase({ b, t });
                    else on.insert({ b, t });
                    s.note("user ", u, isOn ? ": unsubscribes " : ": subscribes ", zmqTopic(t), " of broker ", b);
                } else {
                    ops.push_back({ .kind = 3, .us = s.oneOf<std::int64_t>({ 0, 100, 5'000, 30'000, 300'000, 1'500'000 }) });
                    s.note("user ", u, ": pause ", ops.back().us, " us");
                }
            }
            users.push_back(std::move(ops));
        }
    }
    ~World() {
        client.reset();
        for (int b = 0; b < 2; ++b) {
            zmq_close(router[b]);
            zmq_close(pub[b]);
        }
    }
    void start() {
        const bool lateBind = s.chance(1, 4);
        if (!lateBind) bindAll();
        std::vector<std::unique_ptr<ClientBase>> c;
        c.push_back(std::make_unique<MDClientCtx>(context, std::chrono::milliseconds(20), "client"));
        client = std::make_unique<ClientContext>(std::move(c));
        if (lateBind) bindAll();
    }
    void bindAll() {
        for (int b = 0; b < 2; ++b)
            if (zmq_bind(router[b], ("inproc://b" + std::to_string(b)).c_str()) || zmq_bind(pub[b], ("inproc://p" + std::to_string(b)).c_str())) std::abort();
    }
    void answered(int id, const opencmw::mdp::Message &m) {
        auto &r = reqs[std::size_t(id)];
        ++r.calls;
        s.check(!stopped, [&] { return "the callback of request " + std::to_string(id) + " is called after the client was stopped"; });
        s.check(r.calls == 1, [&] { return "the callback of request " + std::to_string(id) + " is called again, with " + show(flat(m)); });
        r.got = flat(m);
        if (r.kind == 2) {
            s.check(!r.got.error.empty(), [&] { return "request " + std::to_string(id) + " cannot be sent, but its callback gets no error: " + show(r.got); });
            return;
        }
        s.check(!r.replies.empty(), [&] { return "request " + std::to_string(id) + " (" + r.wireId + ") has not been answered, but its callback gets " + show(r.got); });
        const auto &e = r.replies.front();
        s.check(r.got.data == e.data && r.got.error == e.error && r.got.rbac == e.rbac && r.got.topic == e.topic && r.got.service == e.service && r.got.requestId == e.requestId && r.got.command == e.command,
                [&] { return "the callback of request " + std::to_string(id) + " gets " + show(r.got) + " instead of " + show(e); });
    }
    void notified(int id, const opencmw::mdp::Message &m) {
        auto &b = subs[std::size_t(id)];
        const auto f   = flat(m);
        const auto seq = std::find_if(notes.begin(), notes.end(), [&](auto &n) { return n.data == f.data; });
        s.check(!stopped, "a subscription is notified after the client was stopped");
        s.check(seq != notes.end() && seq->real, [&] { return "subscription " + std::to_string(id) + " is notified of something that was not published: " + show(f); });
        s.check(seq->broker == b.broker && seq->topic == b.topic, [&] { return "subscription " + std::to_string(id) + " of " + zmqTopic(b.topic) + " at broker " + std::to_string(b.broker) + " gets the notification of " + zmqTopic(seq->topic) + " from broker " + std::to_string(seq->broker); });
        s.check(f.topic == seq->flat.topic && f.error == seq->flat.error && f.rbac == seq->flat.rbac, [&] { return "notification " + show(seq->flat) + " is delivered as " + show(f); });
        s.check(++seq->deliveries == 1, [&] { return "notification " + std::to_string(seq->seq) + " is delivered twice"; });
        s.check(b.got.empty() || b.got.back() < seq->seq, [&] { return "notification " + std::to_string(seq->seq) + " is delivered after " + std::to_string(b.got.back()); });
        s.check(b.unsub < 0 || seq->at <= b.unsub + kSettle, [&] { return "notification " + std::to_string(seq->seq) + " is delivered to subscription " + std::to_string(id) + ", which was ended " + std::to_string((seq->at - b.unsub) / 1000000) + " ms before"; });
        s.check(seq->at >= b.call - kSettle, [&] { return "an old notification is delivered to a new subscription"; });
        b.got.push_back(seq->seq);
    }
    void user(std::size_t u) {
        for (auto &op : users[u]) {
            if (op.kind == 3) {
                sleep(op.us);
                continue;
            }
            if (op.kind == 0) {
                auto &r = reqs[std::size_t(op.arg)];
                auto  cb = [this, id = r.id](const opencmw::mdp::Message &m) { answered(id, m); };
                try {
                    STRICT_URI uri(r.uri);
                    if (r.kind == 1) client->set(uri, cb, IoBuffer(r.data.data(), r.data.size()));
                    else client->get(uri, cb);
                } catch (const pbt::Fail &) { throw; } catch (const std::exception &e) {
                    r.rejected = true;
                    s.check(r.kind == 2, [&] { return "request " + std::to_string(r.id) + " is refused: " + e.what(); });
                }
                continue;
            }
            auto &[path, params] = topics[std::size_t(op.arg)];
            STRICT_URI uri("mds://p" + std::to_string(op.broker) + text(path, params));
            if (op.kind == 1) {
                subs.push_back({ int(subs.size()), op.broker, op.arg, op.callback, vs::nowNs() });
                current[{ op.broker, op.arg }] = subs.back().id;
                if (op.callback) client->subscribe(uri, [this, id = subs.back().id](const opencmw::mdp::Message &m) { notified(id, m); });
                else client->subscribe(uri);
            } else {
                auto it = current.find({ op.broker, op.arg });
                subs[std::size_t(it->second)].unsub = vs::nowNs();
                current.erase(it);
                client->unsubscribe(uri);
            }
        }
        ++usersDone;
    }
    struct Waiting {
        int         broker, req;
        std::string identity;
    };
    std::vector<Waiting>        waiting, done;
    std::string                 peer[2];
    void receive() {
        for (int b = 0; b < 2; ++b) {
            while (auto raw = recvRaw(router[b])) {
                const auto m = decode(*raw, true);
                s.check(bool(m), "the client sent something that is not a message");
                s.check(m->protocol == "MDPC03", [&] { return "the client sent a message of protocol " + show(m->protocol); });
                peer[b] = m->sourceId;
                int id = -1;
                const STRICT_URI topic(m->topic);
                const auto       q = topic.queryParamMap();
                if (auto it = q.find("id"); it != q.end() && it->second) id = std::stoi(*it->second);
                s.check(id >= 0 && std::size_t(id) < reqs.size(), [&] { return "the client sent a request nobody made: " + show(*m); });
                auto &r = reqs[std::size_t(id)];
                s.check(!r.seen, [&] { return "request " + std::to_string(id) + " is sent twice"; });
                r.seen   = true;
                r.wireId = m->requestId;
                s.check(r.kind != 2 && r.broker == b && m->command == int(r.kind == 1 ? Command::Set : Command::Get) && m->data == r.data && m->service == r.path && topic.path().value_or("") == r.path && q == r.params,
                        [&] { return "request " + std::to_string(id) + " " + r.uri + " with data '" + show(r.data) + "' arrives at broker " + std::to_string(b) + " as " + show(*m); });
                s.check(byWire.emplace(m->requestId, id).second, [&] { return "requests " + std::to_string(id) + " and " + std::to_string(byWire[m->requestId]) + " have the same id " + m->requestId; });
                waiting.push_back({ b, id, m->sourceId });
            }
            while (recvRaw(pub[b])) {} // who subscribes what is up to the model
        }
    }
    void reply(const Waiting &w) {
        Flat f;
        f.sourceId  = w.identity;
        f.protocol  = "MDPC03";
        f.command   = int(s.chance(1, 8) ? Command::Notify : Command::Final);
        f.service   = reqs[std::size_t(w.req)].path;
        f.requestId = reqs[std::size_t(w.req)].wireId;
        f.topic     = text(pick(paths), { { "reply", std::to_string(w.req) } });
        f.data      = bytes(s);
        f.error     = s.chance(1, 4) ? bytes(s) : "";
        f.rbac      = s.chance(1, 4) ? bytes(s) : "";
        reqs[std::size_t(w.req)].replies.push_back(f);
        sendRaw(router[w.broker], frames(f, true));
    }
    void disturb() {
        const int b = int(s.below(2));
        if (peer[b].empty()) return;
        Flat f;
        f.sourceId = peer[b];
        f.protocol = "MDPC03";
        f.service  = s.oneOf<std::string>({ "/svc/a", zmqTopic(0), zmqTopic(1) });
        f.topic    = "/svc/a";
        f.data     = "noise";
        std::string open = waiting.empty() ? "1" : reqs[std::size_t(pick(waiting).req)].wireId;
        const int kind = int(s.below(4));
        noise.insert(kind);
        switch (kind) {
        case 0: // a notification that is no answer, or the answer to somebody else's request
            f.command   = int(s.coin() ? Command::Notify : Command::Final);
            f.service   = "/svc/a"; // what a broker sends to a client that has subscribed over this connection
            f.requestId = s.oneOf<std::string>({ "", "abc", "-1", "1000000000", "99999999999999999999999", open + "x", " " + open, "x" + open });
            sendRaw(router[b], frames(f, true));
            break;
        case 1:
            f.command   = int(s.oneOf<Command>({ Command::Ready, Command::Heartbeat, Command::Get, Command::Set, Command::Subscribe, Command::Partial }));
            f.requestId = open;
            sendRaw(router[b], frames(f, true));
            break;
        case 2: {
            auto fr = frames(f, true);
            if (s.coin()) fr.resize(2 + s.below(fr.size() - 2));
            else fr.push_back("more");
            if (fr.size() != 9) sendRaw(router[b], fr);
            break;
        }
        default:
            if (!done.empty()) reply(pick(done)); // answered twice
        }
    }
    void publish() {
        Note n{ int(notes.size()), int(s.below(2)), int(s.below(4)), vs::nowNs(), "" };
        n.data = "note " + std::to_string(n.seq);
        n.real = !s.chance(1, 12);
        notes.push_back(n);
        Flat f;
        f.sourceId  = zmqTopic(n.topic);
        f.protocol  = "MDPC03";
        f.command   = int(!n.real ? Command::Ready : s.coin() ? Command::Notify : Command::Final);
        f.service   = topics[std::size_t(n.topic)].first;
        f.topic     = text(f.service, { { "seq", std::to_string(n.seq) } });
        f.data      = n.data;
        f.requestId = s.chance(1, 4) ? "1" : "";
        if (s.chance(1, 3)) f.error = bytes(s);
        if (s.chance(1, 3)) f.rbac = bytes(s);
        notes.back().flat = f;
        sendRaw(pub[n.broker], frames(f, true));
        if (s.chance(1, 12)) {
            auto fr = frames(f, true);
            fr.resize(1 + s.below(fr.size() - 1));
            sendRaw(pub[n.broker], fr);
        }
    }
    void serve() {
        int left = rounds;
        while (left > 0 || usersDone < users.size()) {
            sleep(s.oneOf<std::int64_t>({ 1'000, 100, 3'000, 20'000, 250'000 }));
            if (usersDone == users.size()) --left;
            receive();
            switch (s.weighted({ 4, 2, 4, 2 })) {
            case 0:
                if (!waiting.empty()) {
                    const auto i = s.below(waiting.size());
                    reply(waiting[i]);
                    done.push_back(waiting[i]);
                    waiting.erase(waiting.begin() + long(i));
                }
                break;
            case 1: disturb(); break;
            case 2:
                for (auto k = s.weighted({ 3, 2, 1, 1 }); ; --k) {
                    publish();
                    if (k == 0) break;
                }
                break;
            default: break;
            }
        }
        if (!early) {
            sleep(1'000'000);
            receive();
            while (!waiting.empty() && !s.chance(1, 6)) { // some are never answered
                reply(waiting.back());
                done.push_back(waiting.back());
                waiting.pop_back();
            }
            sleep(1'000'000);
            for (int b = 0; b < 2; ++b) // nothing is ordered that nobody wants
                for (int k = 0; k < 4; ++k)
                    s.check(fz::sock(pub[b]).peerSubs.contains(zmqTopic(k)) == current.contains({ b, k }), [&] { return "the client " + std::string(current.contains({ b, k }) ? "has not" : "has") + " subscribed to " + zmqTopic(k) + " of broker " + std::to_string(b) + ", the user has" + (current.contains({ b, k }) ? "" : " not"); });
        }
        if (explicitStop) {
            client->stop();
            stopped = true;
        }
        client.reset();
        stopped = true;
    }
    bool       interesting() const {
        std::size_t a = 0, n = 0;
        for (auto &r : reqs) a += r.calls > 0;
        for (auto &x : notes) n += std::size_t(x.deliveries);
        return reqs.empty() ? n >= 2 : subs.empty() ? a >= 2 : a >= 1 && n >= 1;
    }
    std::string labels() const { return early ? "stopped early" : "settled"; }
    void verdict() {
        if (early) return;
        for (auto &r : reqs) {
            if (r.kind == 2) {
                s.check(r.rejected != (r.calls == 1), [&] { return "request " + std::to_string(r.id) + " " + r.uri + " cannot be sent, but " + (r.calls ? "is refused and answered" : "nobody is told"); });
                continue;
            }
            if (overflow && r.id >= 32 && !r.seen) continue; // refused, the queue was full
            s.check(r.seen, [&] { return "request " + std::to_string(r.id) + " never reaches the broker"; });
            s.check(r.calls == (r.replies.empty() ? 0 : 1), [&] { return "request " + std::to_string(r.id) + " was answered by the broker, but its callback was called " + std::to_string(r.calls) + " times"; });
        }
        for (auto &b : subs) {
            if (!b.callback) continue;
            std::vector<int> must;
            for (auto &n : notes)
                if (n.real && n.broker == b.broker && n.topic == b.topic && n.at > b.call + kSettle && (b.unsub < 0 || n.at < b.unsub - kSettle)) must.push_back(n.seq);
            for (auto m : must) s.check(std::find(b.got.begin(), b.got.end(), m) != b.got.end(), [&] { return "notification " + std::to_string(m) + " does not reach subscription " + std::to_string(b.id) + " of " + zmqTopic(b.topic) + " at broker " + std::to_string(b.broker); });
        }
    }
};
} // namespace ce
