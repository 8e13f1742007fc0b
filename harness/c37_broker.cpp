// C37: the broker hands every request to exactly one worker of a matching service and every reply to its client.
#include "broker_env.hpp"
using namespace be;
using mdp::Command;
static std::string_view noSlash(std::string_view v) { return v.starts_with('/') ? v.substr(1) : v; }
static const std::vector<std::string> kServices{ "/a", "/a.b", "/svc/x", "/zed", "/zed/long.name" };
static const std::vector<std::string> kRoles{ "ADMIN", "BOSS", "USER", "ANY" };
using Plain = mj::Broker<>;
using Prio  = mj::Broker<mj::ADMIN, mj::Role<"BOSS", mj::Permission::RW>, mj::Role<"USER", mj::Permission::RW>, mj::ANY>;

template<typename B>
struct World {
    pbt::Src &s;
    struct Request {
        Flat                  sent;
        int                   client, rank, batch = -1;
        std::set<std::string> candidates;
        int                   worker = -1; // delivered to
        bool                  closed = false; // answered, or the worker gave it up
    };
    struct Client {
        std::unique_ptr<Sock> sock; // none: REST
        std::string           id;   // as workers see it
        std::int64_t          last = 0;
        std::vector<Flat>     must, may;
    };
    enum State { Unknown, Waiting, Busy };
    struct Worker {
        std::unique_ptr<Sock> sock;
        std::string           service;
        State                 state = Unknown;
        std::int64_t          expiry = 0;
        int                   request = -1, disconnects = 0, heartbeats = 0, delivered = 0;
        std::string           clientId;
    };
    mj::Settings                       st;
    std::unique_ptr<B>                 b;
    std::vector<Client>                clients;
    std::vector<Worker>                workers;
    std::vector<Request>               requests;
    std::map<std::string, std::string> services; // name -> description
    int                                batchNo = 0;
    int                                delivered = 0, queuedThenDelivered = 0, reordered = 0, expired = 0;

    std::int64_t ms(std::chrono::milliseconds d) const { return d.count() * 1'000'000; }
    explicit World(pbt::Src &src) : s(src) {
        resetWorld();
        st.heartbeatInterval = std::chrono::milliseconds(s.oneOf<int>({ 1000, 100, 50 }));
        st.heartbeatLiveness = int(1 + s.below(3));
        st.clientTimeout     = std::chrono::milliseconds(s.oneOf<int>({ 10000, 0, 300 }));
        b                    = std::make_unique<B>("/testbroker", st);
        const bool tcp       = s.coin();
        if (tcp) s.check(bool(b->bind(URI<>("mdp://127.0.0.1:1234"))), "bind() failed");
        const bool rest = s.coin();
        if (rest) s.check(bool(b->bindRest({})), "bindRest() failed");
        auto at = [&] { return tcp && s.coin() ? std::string("tcp://127.0.0.1:1234") : std::string("inproc://broker/router"); };
        for (unsigned i = 1 + s.below(3); i; --i) clients.push_back({ std::make_unique<Sock>(b->context, ZMQ_DEALER, at()) });
        if (rest) clients.push_back({ nullptr });
        for (unsigned i = 1 + s.below(4); i; --i) workers.push_back({ std::make_unique<Sock>(b->context, ZMQ_DEALER, at()) });
        pump(s, *b);
    }
    bool clientKnown(const Client &c) const { return !c.sock || st.clientTimeout.count() == 0 || vt::ns <= c.last + ms(st.clientTimeout); }
    int  rankOf(const std::string &rbac) const {
        if constexpr (std::is_same_v<B, Plain>) return 0;
        if (rbac.starts_with("RBAC="))
            if (auto c = rbac.find(','); c != std::string::npos)
                for (int i = 0; i < 4; ++i)
                    if (rbac.substr(5, c - 5) == kRoles[std::size_t(i)]) return i;
        return 3;
    }
    void becomeWaiting(Worker &w) {
        w.state  = Waiting;
        w.expiry = vt::ns + ms(st.heartbeatInterval) * st.heartbeatLiveness;
    }
    // ---- operations
    void request(unsigned ci, bool batch) {
        auto   &c = clients[ci];
        Request r;
        r.client         = int(ci);
        r.batch          = batch ? batchNo : -1;
        r.sent.protocol  = "MDPC03";
        r.sent.command   = s.coin() ? int(Command::Get) : int(Command::Set);
        r.sent.requestId = std::to_string(requests.size()) + (s.chance(1, 4) ? bytes(s) : "");
        r.sent.topic     = topic(s);
        r.sent.data      = bytes(s);
        r.sent.error     = s.chance(1, 5) ? bytes(s) : "";
        r.sent.rbac      = s.weighted({ 6, 1, 1 }) == 0 ? "RBAC=" + s.oneOf<std::string>({ "ADMIN", "BOSS", "USER", "ANY", "OTHER" }) + ",hash" : s.oneOf<std::string>({ "", "ADMIN", "RBAC=ADMIN", "RBAC=,", "RBAC=BOSSY,x", "xRBAC=ADMIN,1" });
        switch (s.weighted({ 8, 4, 2, 2 })) {
        case 0: r.sent.service = s.oneOf<std::string>({ "/a", "/a.b", "/svc/x", "/zed", "/zed/long.name" }); break;
        case 1: r.sent.service = kServices[s.below(5)] + s.oneOf<std::string>({ "/sub", ".more", "x", "/" }); break;
        case 2: r.sent.service = s.oneOf<std::string>({ "/unknown", "nothing", "/sv", "/b", "/xa", "/ze" }); break;
        default: r.sent.service = s.oneOf<std::string>({ "/mmi.service", "/mmi.echo", "/mmi.openapi", "mmi.service" });
        }
        if (s.chance(1, 5)) r.sent.service = std::string(noSlash(r.sent.service));
        const bool mmi = noSlash(r.sent.service).starts_with("mmi.");
        if (mmi) r.sent.data = s.weighted({ 2, 4, 1 }) == 0 ? "" : s.coin() ? kServices[s.below(5)] : s.oneOf<std::string>({ "/mmi.echo", "nope" });
        if (mmi && s.chance(1, 3)) r.sent.data.clear();
        r.rank = rankOf(r.sent.rbac);
        for (auto &[n, d] : services)
            if (noSlash(r.sent.service).starts_with(noSlash(n)) && (r.candidates.empty() || r.candidates.begin()->size() < n.size())) r.candidates = { n }; // the most specific one
        s.note("client ", ci, ": request ", show(r.sent));
        c.last = vt::ns;
        if (mmi || r.candidates.empty()) {
            Flat a      = r.sent;
            a.command   = int(Command::Final);
            const auto n = noSlash(r.sent.service);
            if (n == "mmi.echo") {
                a.command = r.sent.command;
            } else if (n == "mmi.service") {
                if (r.sent.data.empty()) {
                    std::set<std::string> all{ "/mmi.dns", "/mmi.echo", "/mmi.service", "/mmi.openapi" };
                    for (auto &[k, v] : services) all.insert(k);
                    for (auto &k : all) a.data += (a.data.empty() ? "" : ",") + k;
                } else a.data = services.contains(r.sent.data) || r.sent.data == "/mmi.echo" ? "200" : "404";
            } else if (n == "mmi.openapi") {
                const auto it = services.find(r.sent.data);
                const bool known = it != services.end() || r.sent.data == "/mmi.echo";
                a.error = known ? "" : "*";
                a.data  = it != services.end() ? it->second : "";
            } else {
                a.data.clear();
                a.error = "*501*";
                a.topic = a.rbac = "?";
            }
            r.closed = true;
            c.must.push_back(a);
        }
        if (c.sock) c.sock->send(r.sent);
        else Rest::incoming.push_back(message<mdp::MessageFormat::WithSourceId>(r.sent));
        requests.push_back(std::move(r));
        if (!batch) settle(true);
    }
    Flat fromWorker(Command c) {
        Flat f;
        f.protocol = "MDPW03";
        f.command  = int(c);
        f.topic    = topic(s);
        f.data     = bytes(s);
        f.rbac     = bytes(s);
        return f;
    }
    void ready(unsigned wi) {
        auto &w = workers[wi];
        if (w.service.empty() || s.chance(1, 8)) w.service = kServices[s.below(5)];
        Flat f    = fromWorker(Command::Ready);
        f.service = w.service;
        s.note("worker ", wi, ": ready for ", w.service, w.state == Waiting ? " (again)" : w.state == Busy ? " (while busy)" : "");
        services.try_emplace(w.service, f.data);
        if (w.state == Busy) requests[std::size_t(w.request)].closed = true;
        w.request = -1;
        becomeWaiting(w);
        w.sock->send(f);
        settle(true);
    }
    void reply(unsigned wi, bool final, bool batch) {
        auto &w = workers[wi];
        if (w.state != Busy) return;
        auto &r = requests[std::size_t(w.request)];
        auto &c = clients[std::size_t(r.client)];
        Flat  f = fromWorker(final ? Command::Final : Command::Partial);
        f.service   = w.clientId;
        f.requestId = r.sent.requestId;
        f.error     = s.chance(1, 3) ? bytes(s) : "";
        s.note("worker ", wi, final ? ": final reply to request " : ": partial reply to request ", w.request);
        Flat want     = f;
        want.protocol = "MDPC03";
        want.service  = w.service;
        (clientKnown(c) ? c.must : c.may).push_back(want);
        if (!clientKnown(c)) ++expired;
        if (final) {
            r.closed  = true;
            w.request = -1;
            becomeWaiting(w);
        }
        w.sock->send(f);
        if (!batch) settle(true);
    }
    void stray(unsigned wi) { // a reply nobody waits for
        auto &w = workers[wi];
        if (w.state == Busy) return;
        Flat f      = fromWorker(s.coin() ? Command::Final : Command::Partial);
        f.requestId = "stray";
        int to      = -1;
        for (std::size_t i = 0; i < clients.size() && to < 0; ++i)
            if (!clients[i].id.empty() && s.coin()) to = int(i);
        f.service = to >= 0 ? clients[std::size_t(to)].id : s.oneOf<std::string>({ "nobody", "" });
        s.note("worker ", wi, ": unsolicited reply to client ", to, w.state == Unknown ? " (not registered)" : "");
        if (w.state == Unknown) ++w.disconnects;
        else {
            if (to >= 0) {
                Flat want     = f;
                want.protocol = "MDPC03";
                want.service  = w.service;
                clients[std::size_t(to)].may.push_back(want);
            }
            laxExpiry(w);
        }
        w.sock->send(f);
        settle(true);
    }
    void laxExpiry(Worker &w) { maxExpiry[&w - workers.data()] = vt::ns + ms(st.heartbeatInterval) * st.heartbeatLiveness; } // may or may not count as a sign of life
    std::map<std::ptrdiff_t, std::int64_t> maxExpiry;
    void heartbeat(unsigned wi) {
        auto &w = workers[wi];
        Flat  f = fromWorker(Command::Heartbeat);
        f.service = w.service.empty() ? "/a" : w.service;
        s.note("worker ", wi, ": heartbeat", w.state == Unknown ? " (not registered)" : "");
        if (w.state == Unknown) ++w.disconnects;
        else w.expiry = vt::ns + ms(st.heartbeatInterval) * st.heartbeatLiveness;
        w.sock->send(f);
        settle(true);
    }
    void advance() {
        const auto hb = ms(st.heartbeatInterval);
        const auto d  = s.weighted({ 4, 3, 2, 1 });
        const std::int64_t dt = d == 0 ? s.range<std::int64_t>(0, hb) : d == 1 ? s.range<std::int64_t>(hb, hb * 3 + hb / 2) : d == 2 ? hb * st.heartbeatLiveness + s.oneOf<int>({ -1, 0, 1 }) : ms(std::chrono::milliseconds(11000));
        vt::ns += dt;
        s.note("time advances by ", dt / 1000000, " ms");
        for (std::size_t i = 0; i < workers.size(); ++i) {
            auto &w = workers[i];
            if (w.state == Waiting && w.expiry < vt::ns) {
                if (auto it = maxExpiry.find(std::ptrdiff_t(i)); it != maxExpiry.end() && it->second >= vt::ns) w.expiry = it->second; // see laxExpiry; resolved by a READY below
                else {
                    w.state = Unknown;
                    ++expired;
                }
            }
        }
        for (auto &w : workers) w.heartbeats = w.delivered = 0;
        settle(false);
        if (dt >= hb)
            for (std::size_t i = 0; i < workers.size(); ++i)
                if (workers[i].state == Waiting && !maxExpiry.contains(std::ptrdiff_t(i))) s.check(workers[i].heartbeats + workers[i].delivered > 0, "waiting worker ", i, " got no sign of life for a heartbeat interval");
        // workers whose expiry is not certain register anew
        for (auto &[i, e] : std::map(maxExpiry)) {
            maxExpiry.erase(i);
            workers[std::size_t(i)].disconnects = 0;
            if (workers[std::size_t(i)].state == Waiting) ready(unsigned(i));
        }
    }
    // ---- judging
    void settle(bool ordered) {
        pump(s, *b);
        std::vector<int> now;
        for (std::size_t i = 0; i < workers.size(); ++i) {
            auto &w = workers[i];
            while (auto raw = w.sock->recv()) {
                const auto m = decode(*raw, false);
                s.check(bool(m), "worker ", i, " received something that is not a message");
                s.check(m->protocol == "MDPW03", "worker ", i, " received a message of protocol ", show(m->protocol));
                if (m->command == int(Command::Heartbeat)) {
                    ++w.heartbeats;
                    continue;
                }
                if (m->command == int(Command::Disconnect)) {
                    s.check(w.disconnects > 0, "worker ", i, " was told to disconnect");
                    --w.disconnects;
                    continue;
                }
                s.check(m->command == int(Command::Get) || m->command == int(Command::Set), "worker ", i, " received command ", m->command);
                int k = -1;
                for (std::size_t q = 0; q < requests.size(); ++q)
                    if (requests[q].sent.requestId == m->requestId) k = int(q);
                s.check(k >= 0, "worker ", i, " received a request nobody sent: ", show(*m));
                auto &r = requests[std::size_t(k)];
                s.check(r.worker < 0 && !r.closed, "request ", k, " was delivered twice or after it was answered");
                s.check(w.state == Waiting, "request ", k, " was given to worker ", i, w.state == Busy ? ", which still works on request " + std::to_string(w.request) : ", which is not registered (any more)");
                s.check(r.candidates.contains(w.service), "request ", k, " for ", r.sent.service, " was given to a worker of ", w.service);
                Flat want = r.sent, got = *m;
                want.protocol = "MDPW03";
                want.service = got.service = "";
                s.check(got == want, "request ", k, " arrived as ", show(got), " instead of ", show(want));
                auto &c = clients[std::size_t(r.client)];
                if (c.id.empty()) c.id = m->service;
                s.check(!m->service.empty() && c.id == m->service, "request ", k, " names client ", show(m->service), " instead of ", show(c.id));
                for (auto &o : clients)
                    if (&o != &c) s.check(o.id != c.id, "two clients share the identity ", show(c.id));
                r.worker   = int(i);
                w.clientId = m->service;
                w.request  = k;
                w.state    = Busy;
                ++w.delivered;
                ++delivered;
                now.push_back(k);
                if (k + 1 < int(requests.size())) ++queuedThenDelivered;
            }
            s.check(w.disconnects == 0 || maxExpiry.contains(std::ptrdiff_t(i)), "worker ", i, " is not registered, sent a message and was not told to disconnect");
        }
        for (int k : now) // order of service
            for (std::size_t q = 0; q < requests.size(); ++q) {
                auto &r = requests[std::size_t(k)], &o = requests[q];
                if (o.worker >= 0 || o.closed || r.candidates != o.candidates || r.candidates.size() != 1) continue;
                if ((ordered && (r.batch < 0 || r.batch != o.batch)) || o.client == r.client) {
                    if (o.rank == r.rank) s.check(int(q) > k, "request ", k, " was delivered before the older request ", q, " of the same rank");
                }
                if (ordered) {
                    s.check(o.rank >= r.rank, "request ", k, " (", r.sent.rbac, ") was delivered while request ", q, " (", o.sent.rbac, ") of a higher role waits");
                    reordered += int(q) < k;
                }
            }
        for (std::size_t q = 0; q < requests.size(); ++q) { // nothing may wait while it could be served
            auto &r = requests[q];
            if (r.worker >= 0 || r.closed) continue;
            bool all = true;
            for (auto &n : r.candidates) all &= std::any_of(workers.begin(), workers.end(), [&](auto &w) { return w.service == n && w.state == Waiting && !maxExpiry.contains(&w - workers.data()); });
            s.check(!all, "request ", q, " is not delivered although a worker of every matching service waits");
        }
        for (std::size_t i = 0; i < clients.size(); ++i) {
            auto             &c = clients[i];
            std::vector<Flat> got;
            if (c.sock) {
                while (auto raw = c.sock->recv()) {
                    auto m = decode(*raw, false);
                    s.check(bool(m), "client ", i, " received something that is not a message");
                    got.push_back(*m);
                }
            } else {
                for (auto &m : Rest::responses) {
                    got.push_back(flat(m));
                    got.back().sourceId.clear();
                }
                Rest::responses.clear();
            }
            for (auto &m : got) {
                auto same = [&](const Flat &want) {
                    Flat w = want, g = m;
                    if (w.error == "*" && !g.error.empty()) w.error = g.error = "";
                    if (w.error == "*501*" && g.error.find("501") != std::string::npos) w.error = g.error = "";
                    if (w.topic == "?") w.topic = g.topic;
                    if (w.rbac == "?") w.rbac = g.rbac;
                    return w == g;
                };
                auto it = std::find_if(c.must.begin(), c.must.end(), same);
                if (it != c.must.end()) {
                    c.must.erase(it);
                    continue;
                }
                it = std::find_if(c.may.begin(), c.may.end(), same);
                s.check(it != c.may.end(), "client ", i, " received ", show(m), ", which is not for it", c.must.empty() ? "" : "; it waits for " + show(c.must[0]));
                c.may.erase(it);
            }
            s.check(c.must.empty(), "client ", i, " did not receive ", c.must.empty() ? "" : show(c.must[0]));
            c.may.clear();
        }
    }
    void finish() {
        for (auto &w : workers) w.disconnects = w.state != Unknown;
        try {
            b->cleanup();
        } catch (const std::exception &e) { s.check(false, "cleanup() threw: ", e.what()); }
        for (std::size_t i = 0; i < workers.size(); ++i) {
            auto &w = workers[i];
            while (auto raw = w.sock->recv()) {
                auto m = decode(*raw, false);
                s.check(m && m->command == int(Command::Disconnect) && w.disconnects-- > 0, "worker ", i, " received something else than one disconnect at shutdown");
            }
            s.check(w.disconnects == 0, "worker ", i, " was not told that the broker stops");
        }
        s.check(fz::misuse.empty(), "use of the messaging library: ", fz::misuse);
    }
};
template<typename B>
static void routing(pbt::Src &s) {
    const long live = fz::liveBuffers;
    {
        World<B>   w(s);
        const auto n = 5 + s.below(60);
        for (unsigned i = 0; i < n; ++i) {
            const auto wi = s.below(unsigned(w.workers.size())), ci = s.below(unsigned(w.clients.size()));
            switch (s.weighted({ 10, 4, 8, 2, 1, 2, 4, 2, 2 })) {
            case 0: w.request(unsigned(ci), false); break;
            case 1: w.ready(unsigned(wi)); break;
            case 2:
                for (unsigned k = 0; k < w.workers.size(); ++k) // the first busy one from wi on
                    if (auto j = unsigned((wi + k) % w.workers.size()); w.workers[j].state == w.Busy) {
                        w.reply(j, true, false);
                        break;
                    }
                break;
            case 3: w.reply(unsigned(wi), false, false); break;
            case 4: w.stray(unsigned(wi)); break;
            case 5: w.heartbeat(unsigned(wi)); break;
            case 6: w.advance(); break;
            case 7: { // several requests arrive before the broker gets to run
                const auto k = 2 + s.below(5);
                for (unsigned q = 0; q < k; ++q) w.request(unsigned(s.below(unsigned(w.clients.size()))), true);
                w.settle(false);
                ++w.batchNo;
                break;
            }
            default: // several workers answer at the same time
                for (unsigned q = 0; q < w.workers.size(); ++q)
                    if (s.coin()) w.reply(q, true, true);
                w.settle(false);
            }
        }
        w.finish();
        if (w.delivered >= 2 && (w.queuedThenDelivered || w.expired)) s.nontrivial();
        if (w.reordered) s.label("reordered");
        if (w.expired) s.label("expiry");
    }
    s.check(fz::liveBuffers == live, fz::liveBuffers - live, " message buffers were not released (negative: released twice)");
}
PROPERTY(routing, 12000, 400000, "histories of 5-65 events (requests, ready, final/partial/stray replies, heartbeats, passing time, simultaneous messages) for up to 3 clients, REST and 4 workers on 5 services; non-trivial = at least two requests delivered, one of them after it had to wait or with a peer expired") { routing<Plain>(s); }
PROPERTY(routing_roles, 12000, 400000, "as routing, for a broker with four prioritised roles") { routing<Prio>(s); }
// whatever peers send, the broker goes on and serves the others
PROPERTY(any_frames, 20000, 200000, "up to 14 arbitrary or mutated multi-part messages, subscriptions and REST requests from several peers, then an ordinary request to an ordinary worker; non-trivial = at least three messages had the nine frames of the protocol") {
    const long live = fz::liveBuffers;
    int        proper = 0;
    {
        resetWorld();
        mj::Settings st;
        st.heartbeatInterval = std::chrono::milliseconds(1000);
        auto b               = std::make_unique<Prio>("/testbroker", st);
        if (s.coin()) s.check(bool(b->bind(URI<>("mdp://127.0.0.1:1234"))), "bind() failed");
        if (s.coin()) s.check(bool(b->bind(URI<>("mds://127.0.0.1:1235"))), "bind() failed");
        if (s.chance(1, 3)) b->registerDnsAddress(URI<>("https://127.0.0.1:8080"));
        const bool rest = s.coin();
        if (rest) s.check(bool(b->bindRest({})), "bindRest() failed");
        pump(s, *b);
        std::vector<std::unique_ptr<Sock>> peers;
        for (unsigned i = 0; i < 3; ++i) peers.push_back(std::make_unique<Sock>(b->context, ZMQ_DEALER, "inproc://broker/router"));
        Sock       sub(b->context, ZMQ_SUB, "inproc://broker/publisher"), pub(b->context, ZMQ_XPUB, "inproc://broker/subscribe");
        const auto n = 1 + s.below(14);
        std::vector<std::string> ids{ "", "rest", "nobody" };
        auto name = [&] { return s.weighted({ 5, 3, 1 }) == 0 ? s.oneOf<std::string>({ "/a", "/a/b", "b.c", "/mmi.dns", "/mmi.service", "/mmi.openapi", "/mmi.echo", "/testbroker" }) : s.coin() ? s.oneOf<std::string>({ "/a b", "/s-e", "/%41", "//", "/a?b", "/a#", "mdp://x/y", "\xff\xfe", "/ä", "/a:b", "/a/../b", "x,y", "/[", "/\n" }) : "x" + bytes(s); };
        for (unsigned i = 0; i < n; ++i) {
            auto f = gen(s);
            f.service = s.chance(1, 5) ? ids[s.below(unsigned(ids.size()))] : name();
            if (noSlash("/probe").starts_with(noSlash(f.service))) f.service = "/q"; // a catch-all service would be entitled to the probe
            f.topic = s.weighted({ 4, 2, 1 }) == 0 ? f.topic : s.coin() ? name() : bytes(s);
            if (s.chance(1, 3)) f.data = s.oneOf<std::string>({ "", "/a", "mdp:/a,b", ":", ",", "//", "x:y:z/,mds://h:1/p, ", "/mmi.dns", "a b:c", "mdp://[", "%%:", ":%zz", "http://a:b@c/d?e#f,/", "\xff:\xfe" });
            if (s.coin()) f.rbac = s.oneOf<std::string>({ "RBAC=ADMIN,x", "RBAC=", "RBAC=,", "RBAC" });
            auto fr = frames(f, false);
            if (s.chance(1, 5)) {
                if (s.coin()) fr.resize(s.below(9));
                else if (s.coin()) fr.push_back(bytes(s));
                else fr[s.below(8)] = bytes(s);
            }
            proper += fr.size() == 8;
            switch (s.weighted({ 10, 2, 1, 2, 2 })) {
            case 0:
                s.note("peer: ", show(f), " in ", fr.size(), " frames");
                if (!fr.empty()) sendRaw(peers[s.below(3)]->p, fr);
                break;
            case 1: {
                auto t = s.coin() ? f.topic + "#" : bytes(s);
                s.note("subscription of a SUB socket: ", show(t));
                (void) zmq_setsockopt(sub.p, s.chance(2, 3) ? ZMQ_SUBSCRIBE : ZMQ_UNSUBSCRIBE, t.data(), t.size());
                break;
            }
            case 2:
                if (fr.size() > 1) fr[1] = std::string(1, char(Command::Notify)); // nothing else is published by workers
                fr.insert(fr.begin(), f.topic + "#");
                if (!fr.empty()) sendRaw(pub.p, fr);
                break;
            case 3:
                if (rest) {
                    try {
                        Rest::incoming.push_back(message<mdp::MessageFormat::WithSourceId>(f));
                    } catch (const opencmw::URISyntaxException &) {}
                }
                break;
            default:
                vt::ns += std::int64_t(s.oneOf<int>({ 500, 2000, 40000 })) * 1'000'000;
                s.note("time passes");
            }
            if (s.coin()) pump(s, *b);
            for (auto &p : peers)
                while (auto r = p->recv())
                    if (r->size() == 8 && (*r)[0] == "MDPW03") ids.push_back((*r)[2]);
            while (sub.recv()) {}
            while (pub.recv()) {}
        }
        pump(s, *b);
        // the broker still works
        Sock w(b->context, ZMQ_DEALER, "inproc://broker/router"), c(b->context, ZMQ_DEALER, "inproc://broker/router");
        Flat f;
        f.protocol = "MDPW03";
        f.command  = int(Command::Ready);
        f.service  = "/probe";
        f.topic    = "/";
        w.send(f);
        pump(s, *b);
        f.protocol  = "MDPC03";
        f.command   = int(Command::Get);
        f.requestId = "42";
        f.data      = "question";
        c.send(f);
        pump(s, *b);
        std::optional<Flat> m;
        for (std::optional<fz::Frames> r; (r = w.recv());) {
            m = decode(*r, false);
            if (m && m->command == int(Command::Get)) break;
        }
        s.check(m && m->command == int(Command::Get) && m->data == "question", "after these messages the broker does not deliver a request");
        m->command = int(Command::Final);
        m->data    = "answer";
        w.send(*m);
        pump(s, *b);
        m.reset();
        if (auto r = c.recv()) m = decode(*r, false);
        s.check(m && m->command == int(Command::Final) && m->data == "answer" && m->requestId == "42", "after these messages the broker does not deliver a reply");
        try {
            b->cleanup();
        } catch (const std::exception &e) { s.check(false, "cleanup() threw: ", e.what()); }
        s.check(fz::misuse.empty(), "use of the messaging library: ", fz::misuse);
    }
    s.check(fz::liveBuffers == live, fz::liveBuffers - live, " message buffers were not released (negative: released twice)");
    if (proper >= 3) s.nontrivial();
}
