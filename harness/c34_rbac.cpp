// C34: the role in an access token decides, by the rights declared for it, what a request may do.
#include "worker_env.hpp"
using namespace we;
namespace pr = mj::parse_rbac;
struct Parsed {
    std::string role, hash;
};
static Parsed reference(const std::string &t) { // "RBAC=" role "," hash
    if (t.compare(0, 5, "RBAC=") != 0 || t.size() < 5) return {};
    for (std::size_t i = 5; i < t.size(); ++i)
        if (t[i] == ',') return { t.substr(5, i - 5), t.substr(i + 1) };
    return {};
}
static std::string token(pbt::Src &s) {
    std::string r = s.weighted({ 6, 1, 1, 1 }) == 0 ? "RBAC=" : s.oneOf<std::string>({ "", "RBAC", "rbac=", " RBAC=", "RBAC==", "RBAC=RBAC=", "BAC=", "RBAC,=" });
    r += s.weighted({ 6, 1 }) == 0 ? s.oneOf<std::string>({ "ADMIN", "READER", "WRITER", "NONE", "BOTH", "ANY", "OTHER", "", "admin", "ADMIN ", "READ", "READERS" }) : s.bytesStr(8);
    r += s.oneOf<std::string>({ ",", ",", ",", "", ",,", ";", " ," });
    r += s.coin() ? "hash" : s.bytesStr(20);
    return r;
}
PROPERTY(parse, 300000, 3000000, "tokens around the syntax RBAC=<role>,<hash>, in buffers of exact size; non-trivial = well-formed with a role and a hash") {
    const auto t = token(s);
    const auto w = reference(t);
    s.note(pbt::show(t));
    s.nontrivial(!w.role.empty() && !w.hash.empty());
    auto buf = std::make_unique<char[]>(t.size() ? t.size() : 1);
    std::copy(t.begin(), t.end(), buf.get());
    const std::string_view v(buf.get(), t.size());
    const auto both = pr::roleAndHash(v);
    s.check(pr::role(v) == w.role && both.first == w.role, "role of ", pbt::show(t), " is ", pbt::show(std::string(pr::role(v))), " or ", pbt::show(std::string(both.first)));
    s.check(pr::hash(v) == w.hash && both.second == w.hash, "hash of ", pbt::show(t), " is ", pbt::show(std::string(pr::hash(v))));
}
using P = mj::Permission;
using Reader = mj::Role<"READER", P::RO>;
using Writer = mj::Role<"WRITER", P::WO>;
using Both   = mj::Role<"BOTH", P::RW>;
using Nobody = mj::Role<"OTHER", P::NONE>;
struct Rights { // independent statement of the declared rights, in order
    std::vector<std::pair<std::string, char>> roles;
    char of(const std::string &role) const {
        for (auto &[n, p] : roles)
            if (n == role) return p;
        return roles.back().second;
    }
};
template<typename W>
static void decide(pbt::Src &s, const Rights &rights) {
    resetWorld();
    FakeBroker   broker;
    mj::Settings st;
    st.heartbeatInterval = std::chrono::milliseconds(1000);
    std::vector<Flat> sent;
    std::vector<bool> allowed;
    std::map<std::string, int> called;
    W worker(URI<>("inproc://broker"), [&](mj::RequestContext &c) {
        ++called[text(c.request.clientRequestID)];
        c.reply.data = IoBuffer("secret");
    }, broker.context, st);
    bool done = false;
    int  yes = 0, no = 0;
    fz::onPoll = [&](long) {
        auto ms = broker.take(s);
        if (broker.worker.empty()) {
            s.check(ms.size() == 1, "the worker does not announce itself");
            broker.worker = ms[0].sourceId;
            for (auto n = 1 + s.below(8); n--;) {
                const bool set  = s.coin();
                const auto t    = token(s);
                const auto role = reference(t).role;
                const auto r    = rights.of(role);
                const bool ok   = r == 'b' || (set ? r == 'w' : r == 'r');
                Flat       f    = request(int(set ? Command::Set : Command::Get), "client", std::to_string(sent.size()), "/x", "", t);
                s.note(set ? "SET " : "GET ", pbt::show(t), ok ? " allowed" : " denied");
                sent.push_back(f);
                allowed.push_back(ok);
                (ok ? yes : no)++;
                broker.send(f);
            }
            return true;
        }
        s.check(ms.size() == sent.size(), ms.size(), " replies to ", sent.size(), " requests");
        for (std::size_t i = 0; i < ms.size(); ++i) {
            const auto &m = ms[i];
            s.check(m.command == int(Command::Final) && m.requestId == sent[i].requestId, "reply ", show(m));
            const auto n = called.count(m.requestId) ? called[m.requestId] : 0;
            if (allowed[i]) s.check(n == 1 && m.data == "secret" && m.error.empty(), "request with token ", pbt::show(sent[i].rbac), " is not served: ", show(m));
            else s.check(n == 0 && m.data.empty() && !m.error.empty(), "request with token ", pbt::show(sent[i].rbac), " is not denied: ", show(m));
        }
        worker.shutdown();
        done = true;
        return true;
    };
    worker.run();
    fz::onPoll = nullptr;
    s.check(done, "the worker stops early");
    s.nontrivial(yes && no);
}
PROPERTY(decide_rights, 25000, 500000, "1-8 GET and SET requests with generated tokens to workers with seven declarations of roles; non-trivial = some allowed and some denied") {
    const auto k = s.below(7);
    s.label("roles " + std::to_string(k));
    switch (k) {
    case 0: return decide<mj::BasicWorker<"/w">>(s, { { { "ADMIN", 'b' } } });
    case 1: return decide<mj::BasicWorker<"/w", mj::rbac<mj::ADMIN, mj::NONE>>>(s, { { { "ADMIN", 'b' }, { "NONE", 'n' } } });
    case 2: return decide<mj::BasicWorker<"/w", mj::rbac<Writer, Reader>, mj::description<"d">>>(s, { { { "ADMIN", 'b' }, { "WRITER", 'w' }, { "READER", 'r' } } });
    case 3: return decide<mj::BasicWorker<"/w", mj::description<"d">, mj::rbac<Reader, Both, Nobody, Writer>>>(s, { { { "ADMIN", 'b' }, { "READER", 'r' }, { "BOTH", 'b' }, { "OTHER", 'n' }, { "WRITER", 'w' } } });
    case 4: return decide<mj::BasicWorker<"/w", mj::rbac<Reader, mj::ADMIN, mj::NONE>>>(s, { { { "ADMIN", 'b' }, { "READER", 'r' }, { "NONE", 'n' } } });
    case 5: return decide<mj::BasicWorker<"/w", mj::rbac<Both, mj::ANY_RO>>>(s, { { { "ADMIN", 'b' }, { "BOTH", 'b' }, { "ANY", 'r' } } });
    default: return decide<mj::BasicWorker<"/w", mj::rbac<mj::NONE>, Reader, mj::rbac<Writer, Nobody>>>(s, { { { "ADMIN", 'b' }, { "NONE", 'n' }, { "READER", 'r' }, { "WRITER", 'w' }, { "OTHER", 'n' } } });
    }
}
