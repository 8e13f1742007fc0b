// C35: the signal registry: what is registered is found by every matching query until it is removed or expires, whatever the history.
#if PART == 1
#include "sched.hpp"
#else
#include "worker_env.hpp"
#endif
#include <cmath>
#include <condition_variable>
#include <mutex>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <unistd.h>
#include <ClientCommon.hpp>
// the transport between client and service (see C36..C40) is replaced by a direct call
#define OPENCMW_CPP_RESTCLIENT_HPP
#define OPENCMW_CPP_CLIENTCONTEXT_HPP
namespace env {
using opencmw::mdp::Message;
inline std::function<Message(Message &&)>                                                     serve;
inline std::function<void(Message &&, std::function<void(const opencmw::mdp::Message &)> &&)> async; // how the reply arrives
} // namespace env
namespace opencmw::client {
struct RestClient {
    template<typename... A> explicit RestClient(A &&...) {}
    mdp::Message blockingRequest(Command &&c) { return env::serve(static_cast<mdp::Message &&>(c)); }
};
struct ClientContext {
    using Callback = std::function<void(const mdp::Message &)>;
    void get(const URI<STRICT> &u, Callback &&cb) { go(mdp::Command::Get, u, std::move(cb), {}); }
    void set(const URI<STRICT> &u, Callback &&cb, IoBuffer &&d) { go(mdp::Command::Set, u, std::move(cb), std::move(d)); }

private:
    void go(mdp::Command c, const URI<STRICT> &u, Callback &&cb, IoBuffer &&d) {
        mdp::Message m;
        m.command     = c;
        m.serviceName = u.path().value_or("");
        m.topic       = u;
        m.data        = std::move(d);
        if (env::async) env::async(std::move(m), std::move(cb));
        else cb(env::serve(std::move(m)));
    }
};
} // namespace opencmw::client
#include <IoSerialiserYaS.hpp>
#if PART == 0
#include <services/dns.hpp>
#endif
#include <services/dns_client.hpp>
using namespace opencmw;
using namespace opencmw::service::dns;
static std::string rate(float f) { return std::isnan(f) ? "nan" : std::format("{:a}", f); }
using Key = std::vector<std::string>; // an entry, compared independently of the code under test
static Key keyOf(const Entry &e) { return { e.protocol, e.hostname, std::to_string(e.port), e.service_name, e.service_type, e.signal_name, e.signal_unit, rate(e.signal_rate), e.signal_type }; }
static std::string show(const Key &k) {
    std::string r;
    for (auto &x : k) r += (r.empty() ? "" : "|") + pbt::show(x);
    return "{" + r + "}";
}
static std::string show(std::vector<Key> v) {
    std::string r = std::to_string(v.size()) + ":";
    for (auto &k : v) r += " " + show(k);
    return r;
}
static std::vector<Key> keys(const auto &es) {
    std::vector<Key> r;
    for (const Entry &e : es) r.push_back(keyOf(e));
    return r;
}
static std::vector<Key> sorted(std::vector<Key> v) {
    std::sort(v.begin(), v.end());
    return v;
}
static std::string word(pbt::Src &s, bool filter) {
    switch (s.weighted({ filter ? 8u : 1u, 6, 2, 1 })) {
    case 0: return "";
    case 1: return s.oneOf<std::string>({ "a", "b", "http" });
    case 2: return s.oneOf<std::string>({ "group a", "x&y=z", "50%", "\xc3\xa4", "A", "a?b#c", "+", "\"q\"", "/p/q" });
    default: return s.str(30, "abcXYZ 019._-");
    }
}
static Entry entry(pbt::Src &s, bool filter = false) {
    Entry e;
    e.protocol     = word(s, filter);
    e.hostname     = word(s, filter);
    e.port         = filter && s.coin() ? -1 : s.oneOf<int>({ -1, 0, 80, 8080, 65535 });
    e.service_name = word(s, filter);
    e.service_type = word(s, filter);
    e.signal_name  = word(s, filter);
    e.signal_unit  = word(s, filter);
    e.signal_rate  = filter && s.coin() ? NAN : s.oneOf<float>({ NAN, 0.f, 1.f, 0.123456f, 1e-7f, 3.333333f, 16777215.f, 1e30f, -2.5f });
    e.signal_type  = word(s, filter);
    return e;
}
#if PART == 0
static bool matches(const Entry &f, const Key &k) { // empty text, port -1 and rate NaN match everything
    const Key q = keyOf(f);
    for (std::size_t i = 0; i < q.size(); ++i)
        if (q[i] != (i == 2 ? "-1" : i == 7 ? "nan" : "") && q[i] != k[i]) return false;
    return true;
}
static void inScratch() { // the storage lies in the working directory
    static pid_t owner = 0;
    static struct Scratch {
        std::string dir;
        pid_t       pid = 0;
        ~Scratch() {
            if (pid == getpid() && !dir.empty()) {
                std::error_code ec;
                std::filesystem::current_path("/", ec);
                std::filesystem::remove_all(dir, ec);
            }
        }
    } scratch;
    if (owner != getpid()) {
        owner = getpid();
        char       name[4096];
        const auto base = std::getenv("TMPDIR") ? std::getenv("TMPDIR") : "/tmp";
        std::snprintf(name, sizeof name, "%s/c35-XXXXXX", base);
        if (!mkdtemp(name)) std::abort();
        std::filesystem::current_path(name);
        scratch.dir = name, scratch.pid = owner;
    }
    std::filesystem::remove("dns_data_storage.yas");
    std::filesystem::remove("other.yas");
}
struct Handler : DnsHandler {
    auto &store() { return datastorage; }
};
using Impl = majordomo::worker_detail::HandlerImpl<DnsWorkerType, Context, FlatEntryList, FlatEntryList>;
struct World {
    pbt::Src                   &s;
    std::unique_ptr<Handler>    h;
    std::map<Key, std::int64_t> model; // entry -> end of its life
    std::int64_t                odd = 0;
    client::ClientContext       ctx;
    DnsClient                   client{ ctx, s.coin() ? "mdp://b0/dns" : "http://localhost:8080/dns" };
    explicit World(pbt::Src &src) : s(src) {
        inScratch();
        vt::ns     = 1'000'000'000'000;
        env::async = nullptr;
        env::serve = [this](mdp::Message &&m) {
            majordomo::RequestContext raw{ .request = std::move(m) };
            Impl impl([this](auto &r, const auto &c, const auto &in, auto &rc, auto &out) { (*h)(r, c, in, rc, out); });
            try {
                impl(raw);
            } catch (const ProtocolException &e) {
                raw.reply.error = e.what();
                raw.reply.data  = IoBuffer();
            } catch (const std::exception &e) {
                raw.reply.error = e.what();
                raw.reply.data  = IoBuffer();
            }
            return std::move(raw.reply);
        };
        h = std::make_unique<Handler>();
    }
    ~World() {
        h.reset();
        env::serve = nullptr;
    }
    static constexpr std::int64_t hour = 3600'000'000'000;
    std::vector<Key> active(const Entry &f) const {
        std::vector<Key> r;
        for (auto &[k, end] : model)
            if (end > vt::ns && matches(f, k)) r.push_back(k);
        return r;
    }
    void tick() { vt::ns += 1 + std::int64_t(++odd); } // never exactly at the end of a life
    void verify(const std::string &after) {
        auto got = sorted(keys(h->store().queryEntries())), want = active({});
        s.check(got == want, after, ": the registry has ", show(got), ", expected ", show(want));
        s.check(h->store().getActiveEntriesCount() == long(want.size()), after, ": getActiveEntriesCount() = ", h->store().getActiveEntriesCount(), " for ", want.size());
    }
};
PROPERTY(registry, 20000, 300000, "up to 25 operations (register, query, unregister, wait, restart, malformed lists) directly, through the client and the REST functions, against a model; non-trivial = a query or removal that selects some but not all entries") {
    World              w(s);
    std::vector<Entry> pool;
    for (std::size_t n = 2 + s.below(6); n--;) pool.push_back(s.chance(1, 3) && !pool.empty() ? pool[s.below(pool.size())] : entry(s));
    for (std::size_t n = 1 + s.below(4); n--;) { // neighbours that differ in one field
        Entry a = pool[s.below(pool.size())], b = entry(s);
        switch (s.below(9)) {
        case 0: a.protocol = b.protocol; break;
        case 1: a.hostname = b.hostname; break;
        case 2: a.port = b.port; break;
        case 3: a.service_name = b.service_name; break;
        case 4: a.service_type = b.service_type; break;
        case 5: a.signal_name = b.signal_name; break;
        case 6: a.signal_unit = b.signal_unit; break;
        case 7: a.signal_rate = b.signal_rate; break;
        case 8: a.signal_type = b.signal_type; break;
        }
        pool.push_back(a);
    }
    auto some = [&](bool filter) {
        Entry e = filter && s.coin() ? entry(s, true) : pool[s.below(pool.size())];
        if (filter && s.chance(2, 3)) { // only some of the fields of a registered entry
            if (s.coin()) e.protocol.clear();
            if (s.coin()) e.hostname.clear();
            if (s.coin()) e.port = -1;
            if (s.coin()) e.service_name.clear();
            if (s.coin()) e.service_type.clear();
            if (s.coin()) e.signal_name.clear();
            if (s.coin()) e.signal_unit.clear();
            if (s.coin()) e.signal_rate = NAN;
            if (s.coin()) e.signal_type.clear();
        }
        return e;
    };
    for (std::size_t ops = 1 + s.below(25); ops--;) {
        w.tick();
        std::string what;
        switch (s.weighted({ 6, 6, 3, 3, 2, 1, 1 })) {
        case 0: {
            std::vector<Entry> es;
            for (std::size_t n = 1 + s.below(3); n--;) es.push_back(some(false));
            std::vector<Key> got;
            const auto       how = s.below(4);
            what                 = "register(" + std::to_string(how) + ") " + show(keys(es));
            s.note(what);
            auto want = keys(es);
            if (how == 0) got = keys(w.h->store().addEntries(es));
            else if (how == 1) got = keys(w.client.registerSignals(es));
            else if (how == 2) got = { keyOf(registerSignals(es)) }, want.resize(1);
            else es.resize(1), got = { keyOf(w.client.registerSignal(es[0])) }, want.resize(1);
            s.check(got == want, what, ": returned ", show(got));
            for (auto &e : es) w.model[keyOf(e)] = vt::ns + World::hour;
            break;
        }
        case 1: {
            const Entry f   = some(true);
            const auto  how = s.below(3);
            what            = "query(" + std::to_string(how) + ") " + show(keyOf(f));
            s.note(what);
            std::vector<Key> got;
            if (how == 0) got = keys(w.h->store().queryEntries(QueryEntry{ f }));
            else if (how == 1) got = keys(w.client.querySignals(f));
            else got = keys(querySignals(f));
            const auto want = w.active(f);
            s.check(sorted(got) == want, what, ": returned ", show(sorted(got)), ", expected ", show(want), " of ", show(w.active({})));
            s.nontrivial(!want.empty() && want.size() < w.active({}).size());
            break;
        }
        case 2: {
            std::vector<Entry> fs;
            for (std::size_t n = 1 + s.below(3); n--;) fs.push_back(some(true));
            const auto how   = s.below(4);
            const bool exact = how == 3;
            if (how >= 2) fs.resize(1);
            what = "unregister(" + std::to_string(how) + ") " + show(keys(fs));
            s.note(what);
            std::vector<Key> got, want;
            auto             hit = [&](const Key &k) { return std::any_of(fs.begin(), fs.end(), [&](auto &f) { return exact ? keyOf(f) == k : matches(f, k); }); };
            for (auto &[k, end] : w.model)
                if (end > vt::ns && hit(k)) want.push_back(k);
            if (how == 0) got = keys(w.client.unregisterSignals(fs));
            else if (how == 1) {
                std::vector<QueryEntry> q;
                for (auto &f : fs) q.push_back({ f });
                got = keys(w.h->store().deleteEntries(q));
            } else if (how == 2) got = keys(w.client.unregisterSignal(fs[0]));
            else got = keys(w.h->store().deleteEntries(fs[0]));
            std::vector<Key> gotActive; // N.B. expired ones may be listed, too
            got = sorted(got);
            got.erase(std::unique(got.begin(), got.end()), got.end());
            for (auto &k : got) {
                auto it = w.model.find(k);
                s.check(it != w.model.end() && hit(k), what, ": returned ", show(k), ", which it does not concern");
                if (it->second > vt::ns) gotActive.push_back(k);
            }
            s.check(sorted(gotActive) == want, what, ": returned ", show(sorted(gotActive)), ", expected ", show(want));
            s.nontrivial(!want.empty() && want.size() < w.active({}).size());
            std::erase_if(w.model, [&](auto &p) { return hit(p.first); });
            break;
        }
        case 3: {
            const auto m = s.range(1, 50);
            what         = "after " + std::to_string(m) + " minutes";
            s.note(what);
            vt::ns += m * World::hour / 60;
            break;
        }
        case 4: { // saves and loads
            what = "restart";
            s.note(what);
            w.h.reset();
            w.tick();
            w.h = std::make_unique<Handler>();
            std::erase_if(w.model, [](auto &p) { return p.second <= vt::ns; });
            for (auto &[k, end] : w.model) end = vt::ns + World::hour;
            break;
        }
        case 5: {
            what = "lists of different lengths";
            s.note(what);
            std::vector<Entry> es;
            for (std::size_t n = 1 + s.below(3); n--;) es.push_back(some(false));
            FlatEntryList l{ es };
            auto          shorten = [&](auto &v) {
                if (s.coin()) v.clear();
                else v.pop_back();
            };
            auto lengthen = [&](auto &v) { v.push_back(v.back()); };
            auto damage   = [&](auto &v) { s.coin() ? shorten(v) : lengthen(v); };
            switch (s.below(9)) {
            case 0: damage(l.protocol); break;
            case 1: damage(l.hostname); break;
            case 2: damage(l.port); break;
            case 3: damage(l.service_name); break;
            case 4: damage(l.service_type); break;
            case 5: damage(l.signal_name); break;
            case 6: damage(l.signal_unit); break;
            case 7: damage(l.signal_rate); break;
            case 8: damage(l.signal_type); break;
            }
            mdp::Message m;
            m.command     = mdp::Command::Set;
            m.serviceName = "/dns";
            m.topic       = URI<>(s.coin() ? "/dns" : "/dns?doDelete=true");
            opencmw::serialise<YaS>(m.data, l);
            const auto r = env::serve(std::move(m));
            s.check(!r.error.empty(), what, ": accepted without an error");
            break;
        }
        case 6: { // a damaged file is refused or read, but changes nothing otherwise
            what = "load a damaged file";
            s.note(what);
            w.h->store().saveDataToFile("other.yas");
            std::string data;
            {
                std::ifstream f("other.yas", std::ios::binary);
                data.assign(std::istreambuf_iterator<char>(f), {});
            }
            if (data.empty() || s.coin()) data.resize(s.below(data.size() + 1));
            else data[s.below(data.size())] ^= char(1 << s.below(8));
            std::ofstream("other.yas", std::ios::binary) << data;
            auto copy = std::make_unique<DataStorage>(w.h->store());
            copy->filePath = "copy.yas";
            const auto before = keys(copy->queryEntries());
            try {
                if (!copy->loadDataFromFile("other.yas")) s.check(keys(copy->queryEntries()) == before, what, ": not loaded, but the entries changed");
            } catch (const ProtocolException &) {
                s.check(keys(copy->queryEntries()) == before, what, ": refused, but the entries changed");
            } catch (const std::exception &) {
                s.check(keys(copy->queryEntries()) == before, what, ": refused, but the entries changed");
            }
            break;
        }
        }
        w.verify(what);
    }
}
#else
PROPERTY(blocking_calls, 40000, 400000, "one to two threads make 1-3 blocking calls each, whose replies arrive from another thread in any schedule; non-trivial = two replies") {
    vs::Sched   sc(s, 1500, 200000);
    std::size_t replies = 0;
    env::async          = [&](mdp::Message &&m, std::function<void(const mdp::Message &)> &&cb) {
        sc.spawn([&, m = std::move(m), cb = std::move(cb)]() mutable {
            mdp::Message r;
            r.data = m.data.empty() ? [&] {
                IoBuffer      b;
                FlatEntryList l{ { Entry{ .hostname = m.topic.queryParamMap().at("hostname").value_or("") } } };
                opencmw::serialise<YaS>(b, l);
                return b;
            }() : m.data; // a registration or removal is answered with its entries, a query with one entry
            replies++;
            cb(r);
        }, "reply");
        vs::point();
    };
    client::ClientContext ctx;
    std::size_t           calls = 0;
    const auto            n     = 1 + s.below(2);
    for (std::size_t t = 0; t < n; ++t) {
        std::vector<int> ops;
        for (std::size_t k = 1 + s.below(3); k--;) ops.push_back(int(s.below(3)));
        s.note("thread with ", ops.size(), " calls");
        sc.spawn([&, ops, t] {
            DnsClient client(ctx, "mdp://b0/dns");
            for (std::size_t i = 0; i < ops.size(); ++i) {
                std::vector<Entry> es(1 + i);
                for (std::size_t j = 0; j < es.size(); ++j) es[j].hostname = std::format("host {} {} {}", t, i, j);
                std::vector<Entry> got;
                if (ops[i] == 0) got = client.registerSignals(es);
                else if (ops[i] == 1) got = client.unregisterSignals(es);
                else es.resize(1), got = client.querySignals(es[0]);
                calls++;
                s.check(keys(got) == keys(es), "call ", i, " of thread ", t, " returns ", show(keys(got)), ", expected ", show(keys(es)));
            }
        }, "caller");
    }
    struct Reset { ~Reset() { env::async = nullptr; } } reset;
    std::ostringstream sink; // the client prints the errors of replies
    struct Quiet {
        std::streambuf *old;
        explicit Quiet(std::streambuf *b) : old(std::cout.rdbuf(b)) {}
        ~Quiet() { std::cout.rdbuf(old); }
    } quiet(sink.rdbuf());
    sc.run();
    s.check(calls == replies, "calls and replies");
    s.nontrivial(replies >= 2);
}
#endif
