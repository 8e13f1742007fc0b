// C39: a worker answers every request once, stays registered, and publishes what is subscribed.
#include "worker_env.hpp"
using namespace we;
#if PART == 0
using W = mj::BasicWorker<"/svc/w", mj::rbac<mj::ADMIN, mj::Role<"READER", mj::Permission::RO>, mj::Role<"WRITER", mj::Permission::WO>, mj::NONE>, mj::description<"what it does">>;
struct Plan { // what the handler is to do
    int         kind; // 0 reply, 1 throw std::exception, 2 throw something else
    std::string data, error, what;
    Flat        sent;
    int         calls = 0;
    bool        denied;
};
// reference: does a notification with these parameters concern that subscription?
using Params = std::map<std::string, std::string>;
static bool matches(const Params &n, const Params &sub) {
    for (auto &[k, v] : sub) {
        if (k != "num" && k != "txt") continue; // not filtered
        auto it = n.find(k);
        if (it == n.end()) return false;
        if (k == "txt") { if (it->second != v) return false; }
        else {
            auto num = [](const std::string &t) -> std::optional<long> {
                if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos) return {};
                return std::stol(t);
            };
            auto a = num(it->second), b = num(v);
            if (!a || !b || *a != *b) return false;
        }
    }
    return true;
}
static std::string topicText(const std::string &svc, const Params &p) {
    std::string t = svc;
    for (auto &[k, v] : p) t += (t.size() == svc.size() ? "?" : "&") + k + "=" + v;
    return t;
}
static Params params(pbt::Src &s) {
    Params p;
    if (s.coin()) p["num"] = s.oneOf<std::string>({ "1", "01", "2", "x" });
    if (s.chance(1, 3)) p["txt"] = s.oneOf<std::string>({ "a", "b" });
    if (s.chance(1, 4)) p["other"] = s.oneOf<std::string>({ "1", "2" });
    return p;
}
PROPERTY(conversation, 15000, 500000, "histories of 3-40 steps between a broker and a worker: bursts of requests of several roles whose handlers reply or throw, heartbeats, silence, disconnects, malformed messages, subscriptions, notifications (also with malformed topics); non-trivial = a request denied, one failing and one answered, or a notification delivered and one withheld") {
    resetWorld();
    FakeBroker                   broker;
    const auto                   st = settings(s);
    const auto                   interval = std::int64_t(st.heartbeatInterval.count()) * 1000000;
    std::deque<Plan>             plans;
    std::string                  handlerError;
    W worker(URI<>("inproc://broker"), [&](mj::RequestContext &c) {
        const auto id = text(c.request.clientRequestID);
        for (auto &p : plans)
            if (p.sent.requestId == id) {
                if (p.calls++ || p.denied) handlerError = "the handler is called " + std::string(p.denied ? "for a denied request" : "twice for a request");
                Flat got = flat(c.request);
                if (!(got == p.sent)) handlerError = "the handler got " + show(got) + " instead of " + show(p.sent);
                if (p.kind == 1) throw std::runtime_error(p.what);
                if (p.kind == 2) throw 42;
                c.reply.data  = IoBuffer(p.data.data(), p.data.size());
                c.reply.error = p.error;
                return;
            }
        handlerError = "the handler got a request nobody sent: " + id;
    }, broker.context, st);
    worker.addFilter<opencmw::NumberFilter<int>>("num");
    worker.addFilter<opencmw::DomainFilter<std::string_view>>("txt");
    s.check(W::name == "/svc/w" && W::serviceDescription() == "what it does", "name or description");
    std::map<std::string, Params> active;  // ZMQ topic -> parameters, for this service
    std::set<std::string>         alien;   // other subscriptions of the broker
    std::deque<Flat>              replies, notifications;
    int                           steps = int(3 + s.below(38)), denied = 0, failed = 0, answered = 0, delivered = 0, withheld = 0;
    bool                          started = false, expectReady = true, ended = false, stopping = false;
    std::int64_t                  lastBeat = 0, lastHeard = 0;
    int                           due = 0; // times a heartbeat was due since the broker was last heard
    unsigned                      number = 0;
    auto judge = [&] {
        s.check(handlerError.empty(), handlerError);
        bool beat = false, ready = false;
        for (auto &m : broker.take(s)) {
            if (m.command == int(Command::Ready)) {
                s.check(!ready, "the worker announces itself twice");
                ready = true;
                s.check(m.service == "/svc/w" && m.data == "what it does" && m.sourceId != broker.worker, "the worker announces itself as ", show(m));
                if (!expectReady) s.check(vt::ns - lastHeard >= interval * (st.heartbeatLiveness - 1), "the worker gives up the broker after ", (vt::ns - lastHeard) / 1000000, " ms");
                s.check(replies.empty(), "the worker reconnects before it has answered");
                broker.worker = m.sourceId;
                lastBeat = lastHeard = vt::ns;
                due = 0;
                expectReady = false;
                continue;
            }
            s.check(m.sourceId == broker.worker, "message over a connection given up");
            if (m.command == int(Command::Heartbeat)) {
                s.check(m.service == "/svc/w", "heartbeat for ", show(m.service));
                s.check(!beat && (!started || vt::ns >= lastBeat + interval), "more than one heartbeat per interval");
                beat     = true;
                lastBeat = vt::ns;
                ++due;
                continue;
            }
            if (m.command == int(Command::Notify)) {
                s.check(!notifications.empty(), "a notification nobody asked for: ", show(m));
                Flat w     = notifications.front();
                w.sourceId = m.sourceId;
                w.rbac     = m.rbac;
                s.check(m == w, "notification arrived as ", show(m), " instead of ", show(w));
                notifications.pop_front();
                continue;
            }
            s.check(m.command == int(Command::Final), "unexpected ", show(m));
            s.check(!replies.empty(), "a reply to nothing: ", show(m));
            Flat w     = replies.front();
            w.sourceId = m.sourceId;
            if (w.error == "*") {
                s.check(!m.error.empty(), "a request that was denied or failed is answered without an error");
                w.error = m.error;
            } else if (w.error.starts_with("*")) {
                s.check(m.error.find(w.error.substr(1)) != std::string::npos, "the error message ", show(m.error), " does not tell ", show(w.error.substr(1)));
                w.error = m.error;
            }
            s.check(m == w, "reply ", show(m), " instead of ", show(w));
            replies.pop_front();
        }
        s.check(!expectReady, "the worker does not announce itself");
        s.check(replies.empty(), "no reply to request ", replies.empty() ? "" : show(replies.front().requestId));
        s.check(notifications.empty(), "a notification for a subscription is not sent: ", notifications.empty() ? "" : show(notifications.front()));
        if (started && !ready && vt::ns > lastBeat + interval) s.check(false, "no heartbeat for ", (vt::ns - lastBeat) / 1000000, " ms");
        s.check(due <= st.heartbeatLiveness, "the worker does not reconnect to a silent broker");
        std::set<std::string> want, got;
        for (auto &[t, p] : active) want.insert(t);
        for (auto &t : worker.activeSubscriptions()) got.insert(t.toZmqTopic());
        s.check(want == got, "the worker believes in ", got.size(), " subscriptions instead of ", want.size());
        started = true;
    };
    auto heard = [&] { lastHeard = vt::ns; due = 0; };
    fz::onPoll = [&](long timeout) {
        judge();
        if (stopping) s.check(false, "the worker does not stop");
        if (steps-- <= 0) {
            s.note("shutdown");
            worker.shutdown();
            stopping = true;
            return true;
        }
        if (s.chance(1, 3)) vt::ns += s.range<std::int64_t>(0, timeout * 1000000 - 1);
        switch (s.weighted({ 8, 2, 4, 4, 6, 1, 2 })) {
        case 0:
            for (unsigned n = 1 + s.below(3); n--;) {
                Plan p;
                p.kind  = int(s.weighted({ 4, 2, 1 }));
                p.data  = bytes(s);
                p.error = s.chance(1, 4) ? bytes(s) : "";
                p.what  = s.oneOf<std::string>({ "boom", "", "{}", "weird \x01" });
                const bool set = s.coin();
                const auto role = s.below(7);
                static const char *const rbac[] = { "RBAC=ADMIN,h", "RBAC=READER,h", "RBAC=WRITER,", "RBAC=NONE,", "RBAC=OTHER,h", "", "RBAC=ADMIN" };
                p.denied = !(role == 0 || (role == 1 && !set) || (role == 2 && set));
                p.sent   = request(int(set ? Command::Set : Command::Get), s.coin() ? "client" : bytes(s), std::to_string(number++) + (s.chance(1, 4) ? bytes(s) : ""), topic(s), bytes(s), rbac[role]);
                s.note("request ", show(p.sent), p.denied ? " (to be denied)" : p.kind ? " (fails)" : "");
                Flat r    = p.sent;
                r.command = int(Command::Final);
                r.data    = p.denied || p.kind ? "" : p.data;
                r.error   = p.denied || p.kind == 2 ? "*" : p.kind == 1 ? "*" + p.what : p.error;
                (p.denied ? denied : p.kind ? failed : answered)++;
                replies.push_back(r);
                broker.send(p.sent);
                plans.push_back(std::move(p));
            }
            heard();
            break;
        case 1:
            s.note("heartbeat");
            broker.send(request(int(Command::Heartbeat), "/svc/w", "", "", "", ""));
            heard();
            break;
        case 2: { // subscriptions
            const auto svc = s.chance(1, 4) ? s.oneOf<std::string>({ "/svc", "/svc/w2", "/other", "/svc/w/x" }) : "/svc/w";
            const auto p   = params(s);
            const auto t   = topicText(svc, p) + "#";
            const bool mine = svc == "/svc/w";
            if (s.chance(1, 8)) {
                broker.subscribe(s.oneOf<std::string>({ "#", "x y", "" }), true); // nothing a worker can serve
                if (s.coin()) break;
            }
            if (mine ? active.contains(t) : alien.contains(t)) {
                s.note("unsubscribe ", t);
                broker.subscribe(t, false);
                if (mine) active.erase(t);
                else alien.erase(t);
            } else {
                s.note("subscribe ", t);
                broker.subscribe(t, true);
                if (mine) active[t] = p;
                else alien.insert(t);
            }
            break;
        }
        case 3:
            for (unsigned n = 1 + s.below(2); n--;) {
                const bool bad = s.chance(1, 8);
                const auto p   = params(s);
                const auto t   = bad ? s.oneOf<std::string>({ "/", "", "/svc-w", "//", "?a" }) : topicText("/svc/w", p);
                bool       want = false;
                for (auto &[at, ap] : active) want |= matches(p, ap);
                want &= !bad;
                Flat f;
                f.protocol  = "MDPW03";
                f.command   = int(Command::Notify);
                f.service   = "/svc/w";
                f.topic     = t;
                f.requestId = bytes(s);
                f.data      = bytes(s);
                f.error     = s.chance(1, 4) ? bytes(s) : "";
                s.note("notify ", t, want ? "" : " (nobody wants it)");
                if (want) notifications.push_back(f);
                (want ? delivered : withheld)++;
                s.check(worker.notify(message<mdp::MessageFormat::WithoutSourceId>(f)), "notify() fails");
            }
            break;
        case 4: {
            vt::ns += timeout * 1000000 + s.range<std::int64_t>(0, 2000000);
            s.note("silence until ", vt::ns / 1000000);
            break;
        }
        case 5:
            if (s.chance(1, 4)) {
                s.note("broker shutdown");
                broker.send(request(int(Command::Disconnect), "/svc/w", "", "", "broker shutdown", ""));
                stopping = true;
            } else {
                s.note("disconnect");
                broker.send(request(int(Command::Disconnect), "/svc/w", "", "", s.oneOf<std::string>({ "", "x", "broker shutdown!" }), ""));
                expectReady = true;
                heard();
            }
            break;
        default: {
            fz::Frames f = frames(request(int(Command::Get), "c", "malformed", "/", "", "RBAC=ADMIN,"), false);
            switch (s.below(4)) {
            case 0: f.pop_back(); break;
            case 1: f.push_back("x"); break;
            case 2: f[1] = s.coin() ? "" : "\x7f"; break;
            default: f[4] = "%%% not a topic"; break;
            }
            s.note("malformed message");
            broker.sendFrames(f);
        }
        }
        return true;
    };
    try {
        worker.run();
        ended = true;
    } catch (const pbt::Fail &) { throw; } catch (const std::exception &e) { s.check(false, "an exception ends the worker: ", e.what()); }
    fz::onPoll = nullptr;
    s.check(stopping, "the worker stops by itself");
    int bye = 0;
    for (auto &m : broker.take(s)) {
        if (m.command == int(Command::Heartbeat)) continue;
        if (m.command == int(Command::Ready) && vt::ns - lastHeard >= interval * (st.heartbeatLiveness - 1)) {
            broker.worker = m.sourceId;
            continue;
        }
        s.check(m.command == int(Command::Disconnect) && m.service == "/svc/w" && m.sourceId == broker.worker, "unexpected at the end: ", show(m));
        ++bye;
    }
    s.check(bye == 1, bye, " disconnect messages at the end");
    s.check(fz::misuse.empty(), fz::misuse);
    s.nontrivial((denied && failed && answered) || (delivered && withheld));
    s.label(delivered && withheld ? "notifications" : "plain");
}
#else
using namespace opencmw;
struct WCtx {
    TimingCtx      ctx;
    std::string    filter;
    int            number = 5;
    bool           flag   = false;
    MIME::MimeType contentType = MIME::UNKNOWN;
};
ENABLE_REFLECTION_FOR(WCtx, ctx, filter, number, flag, contentType)
struct In {
    std::string          name;
    std::int32_t         value;
    double               x;
    std::vector<int32_t> list;
    bool                 operator==(const In &) const = default;
};
ENABLE_REFLECTION_FOR(In, name, value, x, list)
struct Out {
    std::string         text;
    std::int64_t        sum;
    std::vector<double> values;
    bool                flag;
    bool                operator==(const Out &) const = default;
};
ENABLE_REFLECTION_FOR(Out, text, sum, values, flag)
using TW = mj::Worker<"/typed", WCtx, In, Out>;
template<typename T>
static std::string encode(MIME::MimeType m, const T &v) {
    IoBuffer b;
    if (m == MIME::JSON || m == MIME::HTML) opencmw::serialise<opencmw::Json>(b, v);
    else if (m == MIME::CMWLIGHT) opencmw::serialise<opencmw::CmwLight>(b, v);
    else opencmw::serialise<opencmw::YaS>(b, v);
    return text(b);
}
template<typename T>
static bool decodeTo(MIME::MimeType m, const std::string &d, T &v) {
    IoBuffer b(d.data(), d.size());
    try {
        if (m == MIME::JSON) opencmw::deserialise<opencmw::Json, ProtocolCheck::ALWAYS>(b, v);
        else if (m == MIME::CMWLIGHT) opencmw::deserialise<opencmw::CmwLight, ProtocolCheck::ALWAYS>(b, v);
        else opencmw::deserialise<opencmw::YaS, ProtocolCheck::ALWAYS>(b, v);
    } catch (...) { return false; }
    return true;
}
static std::string ctxText(const WCtx &c) { return c.ctx.toString() + "|" + c.filter + "|" + std::to_string(c.number) + "|" + (c.flag ? "1" : "0") + "|" + std::string(c.contentType.typeName()); }
static WCtx genCtx(pbt::Src &s, bool anyMime) {
    WCtx c = WCtx();
    c.ctx    = s.coin() ? TimingCtx() : TimingCtx(int(s.below(5)), s.coin() ? -1 : int(s.below(9)));
    c.filter = s.oneOf<std::string>({ "", "a", "a&b=c", "%", "\xc3\xa4 ?#" });
    c.number = s.chance(1, 2) ? 5 : s.integer<std::int32_t>();
    c.flag   = s.coin();
    c.contentType = s.oneOf<MIME::MimeType>({ MIME::UNKNOWN, MIME::BINARY, MIME::JSON, MIME::CMWLIGHT, anyMime ? MIME::HTML : MIME::BINARY, anyMime ? MIME::PNG : MIME::JSON });
    return c;
}
static std::string plainText(pbt::Src &s) { return s.str(12, "abc \"\\{}[],:<&\n"); }
static Out genOut(pbt::Src &s) {
    Out o;
    o.text = plainText(s);
    o.sum  = s.integer<std::int64_t>();
    o.flag = s.coin();
    for (auto n = s.below(4); n--;) o.values.push_back(s.floating<double>(true));
    return o;
}
PROPERTY(typed, 12000, 400000, "requests with generated contexts, formats and bodies (valid, empty, malformed, mutated) to a typed worker whose callback replies, changes the context or throws, and its notifications; non-trivial = a valid body in a format other than the default") {
    resetWorld();
    FakeBroker         broker;
    const auto         st = settings(s);
    std::string        wrong;
    int                calls = 0, steps = int(1 + s.below(6)), nontrivial = 0;
    bool               ready = false;
    WCtx               sentCtx = WCtx(), replyCtx = WCtx();
    In                 in{};
    bool               haveIn = false, throws = false;
    Out                out{};
    TW worker(URI<>("inproc://broker"), [&](mj::RequestContext &raw, const WCtx &c, const In &i, WCtx &rc, Out &o) {
        ++calls;
        if (ctxText(c) != ctxText(sentCtx)) wrong = "the callback got context " + ctxText(c) + " instead of " + ctxText(sentCtx);
        if (haveIn && !(i == in)) wrong = "the callback got another input than was sent";
        if (ctxText(rc) != ctxText(sentCtx)) wrong = "the reply context does not start as the request context";
        if (!(o == Out{})) wrong = "the reply object is not empty at first";
        if (throws) throw std::runtime_error("callback failed");
        rc = replyCtx;
        o  = out;
    }, broker.context, st);
    std::optional<Flat> pending; // the request to be answered
    MIME::MimeType      expectMime = MIME::BINARY;
    int                 expect = 0; // 0 value, 1 error, 2 either
    std::optional<std::pair<WCtx, Out>> notified;
    auto checkTopic = [&](const std::string &t, const std::string &base, const WCtx &c) {
        const URI<> u(t);
        s.check(u.path().value_or("") == base, "the topic of the reply is ", t);
        s.check(ctxText(query::deserialise<WCtx>(u.queryParamMap())) == ctxText(c), "topic ", t, " does not carry the context ", ctxText(c));
    };
    auto judge = [&] {
        s.check(wrong.empty(), wrong);
        for (auto &m : broker.take(s)) {
            if (m.command == int(Command::Ready)) {
                broker.worker = m.sourceId;
                ready         = true;
            } else if (m.command == int(Command::Final)) {
                s.check(bool(pending), "a reply to nothing");
                s.check(m.service == pending->service && m.requestId == pending->requestId, "reply to another request");
                if (expect == 1) {
                    s.check(!m.error.empty(), "a failing request is answered without an error");
                    s.check(!throws || !calls || m.error.find("callback failed") != std::string::npos, "the error does not tell what the callback threw: ", show(m.error));
                }
                if (expect == 0) {
                    s.check(m.error.empty(), "error in reply to a valid request: ", m.error);
                    s.check(calls == 1, "the callback was called ", calls, " times");
                    checkTopic(m.topic, "/typed", replyCtx);
                    Out o{};
                    s.check(decodeTo(expectMime, m.data, o), "the body of the reply cannot be read as ", std::string(expectMime.typeName()), ": ", show(m.data));
                    s.check(o == out, "the reply holds another object");
                }
                pending.reset();
            } else if (m.command == int(Command::Notify)) {
                s.check(bool(notified), "a notification nobody asked for");
                s.check(m.service == "/typed", "notification for ", m.service);
                checkTopic(m.topic, "/typed", notified->first);
                const auto mime = notified->first.contentType == MIME::UNKNOWN ? MIME::BINARY : notified->first.contentType;
                Out        o{};
                s.check(decodeTo(mime, m.data, o) && o == notified->second, "the notification holds another object");
                notified.reset();
            }
        }
        s.check(ready, "the worker does not announce itself");
        s.check(!pending, "no reply");
        s.check(!notified, "no notification although everything is subscribed");
    };
    broker.subscribe("/typed#", true);
    fz::onPoll = [&](long) {
        judge();
        if (steps-- <= 0) {
            worker.shutdown();
            return true;
        }
        if (s.chance(1, 4)) {
            notified.emplace(genCtx(s, false), genOut(s));
            s.note("notify ", ctxText(notified->first));
            s.check(worker.notify(notified->first, notified->second), "notify() fails");
            return true;
        }
        sentCtx  = genCtx(s, true);
        replyCtx = sentCtx;
        calls    = 0;
        throws   = s.chance(1, 8);
        if (s.coin()) replyCtx = genCtx(s, true);
        auto eff = [](const WCtx &c) { return c.contentType == MIME::UNKNOWN ? MIME::BINARY : c.contentType; };
        const auto mime = eff(sentCtx);
        expectMime      = replyCtx.contentType == MIME::UNKNOWN ? mime : replyCtx.contentType;
        in.name  = plainText(s);
        in.value = s.integer<std::int32_t>();
        in.x     = s.floating<double>(true);
        in.list.clear();
        for (auto n = s.below(4); n--;) in.list.push_back(s.integer<std::int32_t>());
        out         = genOut(s);
        auto body   = encode(mime, in);
        haveIn      = true;
        expect      = 0;
        switch (s.weighted({ 6, 2, 1, 2 })) {
        case 1:
            body.clear();
            in = In{};
            break;
        case 2:
            body   = bytes(s);
            haveIn = false;
            expect = 2;
            break;
        case 3:
            if (!body.empty()) {
                for (auto n = 1 + s.below(3); n--;) body[s.below(unsigned(body.size()))] = char(s.below(256));
                if (s.coin()) body.resize(s.below(unsigned(body.size())));
            }
            haveIn = false;
            expect = 2;
            break;
        default: if (mime != MIME::BINARY) ++nontrivial;
        }
        if (throws && expect == 0) expect = 1;
        if (mime == MIME::PNG) expect = 1; // nothing that can be read
        if (expect == 0 && (expectMime == MIME::PNG || expectMime == MIME::HTML)) expect = 1; // no such format, no template for this service
        pending = request(int(s.coin() ? Command::Get : Command::Set), "client", std::to_string(steps), std::string(URI<>::factory(URI<>("/typed")).setQuery(query::serialise(sentCtx)).build().str()), body, "RBAC=ADMIN,");
        s.note("request ", show(*pending), " body ", show(body));
        broker.send(*pending);
        return true;
    };
    try {
        worker.run();
    } catch (const pbt::Fail &) { throw; } catch (const std::exception &e) { s.check(false, "an exception ends the worker: ", e.what()); }
    fz::onPoll = nullptr;
    s.nontrivial(nontrivial > 0);
}
#endif
