// C13: a topic means the same in every representation (service+params, MDP URI, ZMQ subscription string), independent of parameter order.
#include <map>
#include <Formatter.hpp>
#include <Topic.hpp>
#include <MdpMessage.hpp>
#include "uri_ref.hpp"
using opencmw::mdp::Topic;
static std::string genService(pbt::Src &s) {
    std::string r;
    for (std::size_t n = 1 + s.below(3); n > 0; --n) r += "/" + ref::genFrom(s, "abzAZ019._", 1, 5);
    return r;
}
static Topic::Params genParams(pbt::Src &s) {
    Topic::Params p;
    for (std::size_t n = s.below(5); n > 0; --n) {
        auto k = s.bytesStr(5);
        if (k.empty()) k = "k";
        if (s.chance(1, 3)) p[k] = std::nullopt;
        else {
            auto v = s.bytesStr(8);
            p[k] = v.empty() ? std::optional<std::string>{} : std::optional(v); // on the wire "no value" and "empty value" are the same
        }
    }
    return p;
}
static std::string showP(const Topic::Params &p) {
    std::string r = "{";
    for (auto &[k, v] : p) r += pbt::show(k) + (v ? "=" + pbt::show(*v) : "") + " ";
    return r + "}";
}
static bool validService(const std::string &x) {
    if (x.size() < 2 || x[0] != '/' || x.back() == '/') return false;
    return std::all_of(x.begin(), x.end(), [](char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '/' || c == '.' || c == '_'; });
}
static void same(pbt::Src &s, const char *what, const Topic &got, const std::string &svc, const Topic::Params &p) {
    s.check(got.service() == svc, [&] { return std::string(what) + ": service " + pbt::show(got.service()) + ", expected " + pbt::show(svc); });
    s.check(got.params() == p, [&] { return std::string(what) + ": parameters " + showP(got.params()) + ", expected " + showP(p); });
}
PROPERTY(representations, 200000, 2000000, "random service and 0-4 parameters (arbitrary bytes) through all representations; non-trivial = at least two parameters") {
    const auto svc = genService(s);
    const auto p   = genParams(s);
    s.nontrivial(p.size() >= 2);
    s.note(svc + " " + showP(p));
    const auto t = Topic::fromString(svc, p);
    same(s, "fromString", t, svc, p);
    same(s, "MDP round trip", Topic::fromMdpTopic(t.toMdpTopic()), svc, p);
    same(s, "MDP round trip through text", Topic::fromMdpTopic(opencmw::URI<opencmw::STRICT>(t.toMdpTopic().str())), svc, p);
    const auto z = t.toZmqTopic();
    s.check(z.ends_with('#') && z.find('#') == z.size() - 1, [&] { return "subscription string " + pbt::show(z) + " is not terminated by exactly one '#'"; });
    s.check(t.toZmqTopic(false) + "#" == z, "toZmqTopic(false)");
    same(s, "ZMQ round trip", Topic::fromZmqTopic(z), svc, p);
    same(s, "ZMQ round trip without terminator", Topic::fromZmqTopic(t.toZmqTopic(false)), svc, p);
    // textual form with the parameters in random order and various spellings of the service
    std::vector<std::pair<std::string, std::optional<std::string>>> v(p.begin(), p.end());
    for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.below(i)]);
    std::string q;
    for (auto &[k, val] : v) q += (q.empty() ? "?" : "&") + ref::encode(k) + (val ? "=" + ref::encode(*val) : "");
    auto svc2 = svc;
    if (s.coin()) svc2.erase(0, 1);
    for (std::size_t n = s.below(3); n > 0; --n) svc2 += "/";
    if (svc2[0] != '/' || svc[1] != '/') {
        const auto t2 = Topic::fromString(svc2 + q);
        same(s, ("fromString(" + svc2 + q + ")").c_str(), t2, svc, p);
        s.check(t2 == t && t2.hash() == t.hash() && t2.toZmqTopic() == z && std::hash<Topic>{}(t2) == std::hash<Topic>{}(t), "same topic in another parameter order differs");
        auto ext = p;
        if (!q.empty() && !p.empty()) {
            bool threw = false;
            try { (void) Topic::fromString(svc + q, p); } catch (const std::invalid_argument &) { threw = true; }
            s.check(threw, "parameters given twice are accepted");
        }
    }
    // added parameter
    auto t3 = t;
    auto k = s.bytesStr(4) + "z", val = s.bytesStr(4) + "v";
    t3.addParam(k, val);
    auto p3 = p;
    p3[k] = val;
    same(s, "addParam", t3, svc, p3);
    same(s, "addParam (original)", t, svc, p);
}
PROPERTY(distinct, 200000, 2000000, "pairs of topics over a small alphabet with separators; different topics have different subscription strings and are unequal; non-trivial = different topics") {
    auto g = [&] {
        Topic::Params p;
        for (std::size_t n = s.below(3); n > 0; --n) {
            auto k = ref::genFrom(s, "ab&=;%#?", 1, 3);
            auto v = ref::genFrom(s, "ab&=;%#?", 0, 3);
            p[k] = v.empty() ? std::optional<std::string>{} : std::optional(v);
        }
        return std::make_pair("/" + ref::genFrom(s, "ab", 1, 2), p);
    };
    const auto a = g(), b = g();
    const auto A = Topic::fromString(a.first, a.second), B = Topic::fromString(b.first, b.second);
    s.note(a.first + showP(a.second) + " / " + b.first + showP(b.second));
    s.nontrivial(a != b);
    s.check((A == B) == (a == b), "equality");
    s.check((A.toZmqTopic() == B.toZmqTopic()) == (a == b), [&] { return "subscription strings " + pbt::show(A.toZmqTopic()) + " and " + pbt::show(B.toZmqTopic()); });
    if (a != b) s.check(!B.toZmqTopic().starts_with(A.toZmqTopic()), "a terminated subscription string is a prefix of a different topic's string");
}
PROPERTY(service_names, 200000, 1500000, "service texts over legal and illegal characters; accepted exactly if the normalised name is legal; non-trivial = contains a letter") {
    auto raw = ref::genFrom(s, s.coin() ? "/ab._" : "/ab._-~ %#:@A9\x01\x80", 0, 8);
    s.note(pbt::show(raw));
    s.nontrivial(raw.find_first_of("abA9") != std::string::npos);
    auto norm = raw;
    while (norm.ends_with('/')) norm.pop_back();
    if (!norm.starts_with('/')) norm = "/" + norm;
    const bool ok = validService(norm);
    bool threw = false;
    try {
        const auto t = Topic::fromString(raw);
        s.check(t.service() == norm && t.params().empty(), [&] { return "service of " + pbt::show(raw) + " is " + pbt::show(t.service()); });
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    s.check(threw != ok, [&] { return "service " + pbt::show(raw) + (threw ? " rejected" : " accepted"); });
    s.check(opencmw::mdp::isValidServiceName(raw) == validService(raw), "isValidServiceName");
}
PROPERTY(endpoints, 100000, 600000, "broker addresses of various schemes; mdp/mds become tcp, everything else is unchanged; non-trivial = mdp or mds") {
    const auto scheme = s.oneOf<std::string>({ "mdp", "mds", "tcp", "inproc", "http", "ipc" });
    const auto rest   = "//" + ref::genFrom(s, "ab.-09*", 1, 8) + (s.coin() ? ":" + std::to_string(s.below(65536)) : "") + (s.coin() ? "/" + ref::genFrom(s, "ab./", 0, 6) : "");
    const opencmw::URI<> u(scheme + ":" + rest);
    s.note(u.str());
    s.nontrivial(scheme[0] == 'm');
    const auto want = (scheme == "mdp" || scheme == "mds" ? "tcp" : scheme) + ":" + rest;
    s.check(opencmw::mdp::toZeroMQEndpoint(u) == want, [&] { return "endpoint of " + u.str() + " is " + opencmw::mdp::toZeroMQEndpoint(u); });
}
