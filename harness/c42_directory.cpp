// C42: the directory of a broker (mmi.dns) lists exactly the addresses of the brokers that are alive.
#include "broker_env.hpp"
#include <cctype>
using namespace be;
using mdp::Command;
using B = mj::Broker<>;
static constexpr std::int64_t kMs = 1'000'000;
static std::string noSlashes(std::string v) {
    v.erase(0, std::min(v.find_first_not_of('/'), v.size()));
    return v;
}
struct Entry { // what one broker knows about another one
    std::set<std::string> uris;
    std::int64_t          renewed = 0;
    bool                  alwaysListed = false, silentBroker = false;
};
struct Node {
    std::string                  name;
    mj::Settings                 st;
    std::unique_ptr<B>           b;
    std::unique_ptr<Sock>        client;
    std::vector<std::string>     addresses;
    std::set<std::string>        services{ "/mmi.dns", "/mmi.echo", "/mmi.openapi", "/mmi.service" };
    std::map<std::string, Entry> foreign; // announced by peers that are no brokers of this world
    bool                         silent = false;
    std::int64_t                 lastPump = 0;
    std::set<std::string> own() const {
        std::set<std::string> r;
        for (const auto &a : addresses) {
            r.insert(a);
            for (const auto &svc : services) r.insert(a + "/" + noSlashes(svc));
        }
        return r;
    }
};
struct Peer { // announces itself as a broker
    std::unique_ptr<Sock>    sock;
    std::string              name;
    int                      node;
    std::vector<std::string> announced;
    int                      challenges = 0;
};
using Listing = std::map<std::string, std::set<std::string>>;

struct World {
    pbt::Src                          &s;
    std::vector<std::unique_ptr<Node>> nodes; // 0 is the directory of the others
    std::vector<std::unique_ptr<Sock>> workers;
    std::vector<Peer>                  peers;
    int                                requests = 0, vanished = 0, matched = 0;

    Node &dns() { return *nodes[0]; }
    std::int64_t timeout() { return dns().st.dnsTimeout.count() * kMs; }
    std::int64_t liveness() { return dns().st.heartbeatLiveness; }
    explicit World(pbt::Src &src) : s(src) {
        resetWorld();
        mj::Settings st;
        st.heartbeatInterval = std::chrono::milliseconds(1000);
        st.heartbeatLiveness = int(1 + s.below(3));
        st.dnsTimeout        = std::chrono::milliseconds(s.oneOf<int>({ 10000, 2000, 500 }));
        const auto n         = 1 + s.below(3);
        for (unsigned i = 0; i < n; ++i) {
            auto node  = std::make_unique<Node>();
            node->name = i == 0 ? "/dnsBroker" : "/broker" + std::to_string(i);
            node->st   = st;
            if (i > 0) node->st.dnsAddress = "mdp://127.0.0.1:1000";
            node->b      = std::make_unique<B>(node->name, node->st);
            node->client = std::make_unique<Sock>(node->b->context, ZMQ_DEALER, "inproc://broker/router");
            nodes.push_back(std::move(node));
            if (i == 0) address(0, 0);
        }
        settle();
    }
    void settle() {
        for (int round = 0; round < 5; ++round)
            for (auto &n : nodes)
                if (!n->silent) {
                    pump(s, *n->b);
                    n->lastPump = vt::ns;
                }
        for (auto &p : peers)
            while (auto r = p.sock->recv()) {
                auto m = decode(*r, false);
                s.check(m.has_value(), "peer received something that is no message");
                if (m->command == int(Command::Heartbeat) && m->protocol == "MDPC03") ++p.challenges;
            }
    }
    void address(unsigned i, unsigned kind) {
        auto       &n    = *nodes[i];
        const auto  port = std::to_string(1000 + 10 * i + n.addresses.size());
        std::string a;
        switch (kind) {
        case 0: a = "mdp://127.0.0.1:" + port; break;
        case 1: a = "mds://127.0.0.1:" + port; break;
        case 2: a = "mdp://127.0.0.1:" + port; break; // bound as tcp
        default: a = "https://host" + std::to_string(i) + ":" + port;
        }
        s.note(n.name, ": address ", a, kind == 2 ? " (bound as tcp)" : "");
        if (kind == 3) n.b->registerDnsAddress(URI<>(a));
        else {
            const auto r = kind == 2 ? n.b->bind(URI<>("tcp://127.0.0.1:" + port), mj::BindOption::Router) : n.b->bind(URI<>(a));
            s.check(r && r->str() == a, "bind() returned ", r ? r->str() : "nothing", ", expected ", a);
        }
        n.addresses.push_back(a);
    }
    void worker(unsigned i) {
        auto &n   = *nodes[i];
        auto  svc = s.oneOf<std::string>({ "/a", "/a/b", "/ab", "/dev.x", "/broker1/p" });
        s.note(n.name, ": a worker offers ", svc);
        workers.push_back(std::make_unique<Sock>(n.b->context, ZMQ_DEALER, "inproc://broker/router"));
        Flat f;
        f.protocol = "MDPW03";
        f.command  = int(Command::Ready);
        f.service  = svc;
        f.topic    = "/";
        workers.back()->send(f);
        n.services.insert(svc);
    }
    std::string foreignUri(const Peer &p) {
        return s.oneOf<std::string>({ "mdp", "mds", "https", "MDP" }) + "://" + noSlashes(p.name) + ":" + std::to_string(1 + s.below(2)) + s.oneOf<std::string>({ "", "/", "/a", "/a/b", "/ab", "/dev.x", "//a", "/A" });
    }
    void announce() {
        if (peers.empty() || (peers.size() < 3 && s.chance(1, 3))) {
            Peer p;
            p.node = int(s.below(unsigned(nodes.size())));
            p.name = "/peer" + std::to_string(peers.size());
            p.sock = std::make_unique<Sock>(nodes[std::size_t(p.node)]->b->context, ZMQ_DEALER, "inproc://broker/router");
            peers.push_back(std::move(p));
        }
        auto &p = peers[s.below(unsigned(peers.size()))];
        auto &n = *nodes[std::size_t(p.node)];
        if (n.silent) return;
        Flat f;
        f.protocol  = "MDPC03";
        f.command   = int(Command::Ready);
        f.service   = p.name;
        f.requestId = "clientID";
        const bool valid = !s.chance(1, 6);
        f.topic          = valid ? (!p.announced.empty() && s.coin() ? p.announced[s.below(unsigned(p.announced.size()))] : foreignUri(p)) : s.oneOf<std::string>({ "/a", "", "/" });
        s.note(p.name, " announces '", f.topic, "' to ", n.name);
        p.sock->send(f);
        settle();
        if (!valid) return; // no address
        p.announced.push_back(f.topic);
        auto &e = n.foreign[p.name];
        if (gone(e)) e.uris.clear();
        else if (!certain(e)) { // it may have been forgotten, and so may its former addresses
            const auto l = list(n);
            const auto it = l.find(p.name);
            s.check(it != l.end() && it->second.contains(f.topic), p.name, " is not listed with the address it just announced");
            for (const auto &u : it->second) s.check(e.uris.contains(u) || u == f.topic, p.name, " is listed with ", u, " which it did not announce");
            e.uris = it->second;
        }
        e.uris.insert(f.topic);
        e.renewed = vt::ns;
    }
    bool certain(const Entry &e) { return e.renewed != 0 && vt::ns <= e.renewed + timeout() * liveness(); }
    bool gone(const Entry &e) { return e.renewed == 0 || vt::ns >= e.renewed + timeout() * (liveness() + 1); }
    void time() {
        const auto dt = s.coin() ? timeout() * std::int64_t(s.oneOf<int>({ 1, 2, 4 })) / 2 + std::int64_t(s.below(3)) * kMs - kMs : std::int64_t(1 + s.below(400)) * kMs;
        s.note(dt / kMs, " ms pass");
        std::vector<bool> known;
        for (auto &p : peers) {
            auto &n = *nodes[std::size_t(p.node)];
            known.push_back(!n.silent && n.foreign.contains(p.name) && certain(n.foreign[p.name]));
            p.challenges = 0;
        }
        vt::ns += dt;
        settle();
        for (std::size_t i = 0; i < peers.size(); ++i)
            s.check(!known[i] || dt < timeout() || peers[i].challenges > 0, peers[i].name, " is not asked whether it is still there");
    }
    std::string ask(Node &n, const std::string &body) {
        Flat f;
        f.protocol  = "MDPC03";
        f.command   = s.coin() ? int(Command::Get) : int(Command::Set);
        f.service   = "/mmi.dns";
        f.requestId = std::to_string(++requests);
        f.topic     = "/";
        f.data      = body;
        n.client->send(f);
        settle();
        auto r = n.client->recv();
        s.check(r.has_value(), "no reply to the query '", body, "'");
        auto m = decode(*r, false);
        s.check(m && m->command == int(Command::Final) && m->requestId == f.requestId && m->error.empty(), "unexpected reply to the query '", body, "'");
        s.check(!n.client->recv(), "two replies to the query '", body, "'");
        return m->data;
    }
    // "[name: uri,uri],[name: uri]" in the order of the names
    Listing list(Node &n) {
        auto        text = ask(n, s.oneOf<std::string>({ "", "all", "Hello World!" }));
        const auto  whole = text;
        Listing     r;
        std::string last;
        for (std::string_view v = text; !v.empty();) {
            const auto end = v.find(']'), colon = v.find(": ");
            s.check(v[0] == '[' && end != v.npos && colon != v.npos && colon < end, "the listing is malformed: ", whole);
            std::string name(v.substr(1, colon - 1));
            s.check(last < name, "the listing is not ordered by name: ", whole);
            last = name;
            auto u = v.substr(colon + 2, end - colon - 2);
            while (true) {
                const auto c = std::min(u.find(','), u.size());
                s.check(r[name].insert(std::string(u.substr(0, c))).second, "the listing repeats an address: ", whole);
                if (c == u.size()) break;
                u.remove_prefix(c + 1);
            }
            v.remove_prefix(end + 1);
            if (!v.empty()) {
                s.check(v[0] == ',' && v.size() > 1, "the listing is malformed: ", whole);
                v.remove_prefix(1);
            }
        }
        return r;
    }
    // compares the listing with what has to be known; what it consists of
    Listing checkListing(Node &n) {
        const auto l = list(n);
        auto text = [&] {
            std::string t;
            for (auto &[k, u] : l) {
                t += " " + k + ":";
                for (auto &x : u) t += " " + x;
            }
            return t;
        };
        std::set<std::string> may;
        auto own = [&](Node &other, bool certainly) {
            if (other.addresses.empty()) return;
            may.insert(other.name);
            const auto it = l.find(other.name);
            if (it == l.end()) return s.check(!certainly, [&] { return other.name + " is not listed by " + n.name + ":" + text(); });
            s.check(it->second == other.own(), [&] { return "addresses of " + other.name + " listed by " + n.name + ":" + text(); });
        };
        own(n, true);
        if (&n == nodes[0].get())
            for (std::size_t i = 1; i < nodes.size(); ++i) {
                auto &o = *nodes[i];
                if (o.silent && vt::ns >= o.lastPump + timeout() * (liveness() + 1)) {
                    ++vanished;
                    continue;
                }
                own(o, !o.silent);
            }
        for (auto &[name, e] : n.foreign) {
            const auto it = l.find(name);
            if (gone(e)) {
                ++vanished;
                continue;
            }
            may.insert(name);
            if (it == l.end()) s.check(!certain(e), [&] { return name + " is not listed by " + n.name + ":" + text(); });
            else s.check(it->second == e.uris, [&] { return "addresses of " + name + " listed by " + n.name + ":" + text(); });
        }
        for (auto &[name, u] : l) s.check(may.contains(name), [&] { return name + " is listed by " + n.name + " although it is gone or unknown:" + text(); });
        return l;
    }
    static std::string lower(std::string v) {
        for (auto &c : v) c = char(std::tolower(static_cast<unsigned char>(c)));
        return v;
    }
    void query(Node &n) {
        const auto  l = checkListing(n);
        std::string body, expected;
        const auto  terms = 1 + s.below(3);
        for (unsigned i = 0; i < terms; ++i) {
            const auto scheme = s.weighted({ 3, 1, 1, 1, 1, 1 }), path = s.weighted({ 1, 1, 1, 1, 1, 1, 1, 1, 1 });
            const std::string sch = std::vector<std::string>{ "", "mdp", "mds", "https", "MDS", "http" }[scheme];
            const std::string p   = std::vector<std::string>{ "/a", "/a/", "/a/b", "/mmi.", "/mmi.dns", "/nope", "//ab", "/", "/dev" }[path];
            const std::string q   = (sch.empty() ? "" : sch + ":") + (sch.empty() || !p.starts_with("//") ? p : "/ab");
            const std::string ws[]{ "", " ", "  ", "\t" };
            body += (i ? "," : "") + ws[s.below(4)] + q + ws[s.below(4)];
            std::vector<std::string> hits;
            // N.B. in a reference that starts with "//" the next segment is the authority
            const auto wanted = noSlashes(sch.empty() && p.starts_with("//") ? "" : sch.empty() ? p : q.substr(sch.size() + 1));
            for (auto &[name, uris] : l)
                for (auto &u : uris) {
                    const auto c = u.find("://"), slash = u.find('/', c + 3);
                    if (!sch.empty() && lower(u.substr(0, c)) != lower(sch)) continue;
                    if (noSlashes(slash == u.npos ? "" : u.substr(slash)).starts_with(wanted)) hits.push_back(u);
                }
            std::sort(hits.begin(), hits.end());
            expected += std::string(i ? "," : "") + "[" + q + ": ";
            for (std::size_t k = 0; k < hits.size(); ++k) expected += (k ? "," : "") + hits[k];
            expected += hits.empty() ? "null]" : "]";
            matched += !hits.empty() && wanted.size() > 1;
        }
        s.note("query at ", n.name, ": '", body, "'");
        const auto got = ask(n, body);
        s.check(got == expected, "query '", body, "' returned ", got, " expected ", expected);
    }
};
PROPERTY(directory, 15000, 200000, "histories of 3-30 events (addresses, workers, announcements of up to 3 peers, brokers falling silent and coming back, passing time, queries by scheme and path) for a directory broker and up to 2 brokers that use it; non-trivial = a peer or broker had to vanish and a query found something") {
    const long live = fz::liveBuffers;
    {
        World      w(s);
        const auto n = 3 + s.below(28);
        for (unsigned i = 0; i < n; ++i) {
            const auto k    = s.below(unsigned(w.nodes.size()));
            auto      &node = *w.nodes[k];
            switch (s.weighted({ 6, 3, 3, 6, 2, 6 })) {
            case 0: w.query(node.silent ? w.dns() : node); break;
            case 1:
                if (!node.silent && node.addresses.size() < 4) w.address(k, s.below(4)), w.settle();
                break;
            case 2:
                if (!node.silent) w.worker(k), w.settle();
                break;
            case 3: w.announce(); break;
            case 4:
                if (k > 0) {
                    node.silent = !node.silent;
                    s.note(node.name, node.silent ? " falls silent" : " is back");
                    if (!node.silent) w.settle();
                }
                break;
            default: w.time();
            }
        }
        for (auto &node : w.nodes)
            if (!node->silent) w.query(*node);
        if (w.vanished && w.matched) s.nontrivial();
        s.check(fz::misuse.empty(), "use of the messaging library: ", fz::misuse);
        for (auto &node : w.nodes) node->b->cleanup();
    }
    s.check(fz::liveBuffers == live, fz::liveBuffers - live, " message buffers were not released (negative: released twice)");
}
