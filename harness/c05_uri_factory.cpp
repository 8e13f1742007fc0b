// C05: building a URI and parsing it back returns every component and query parameter, for every combination.
#include <Formatter.hpp>
#include <URI.hpp>
#include "uri_ref.hpp"
using namespace opencmw;

template<uri_check CHECK>
static void checkMap(pbt::Src &s, const std::string &q) {
    const std::string u = (s.coin() ? "mdp://h/p?" : "?") + q + (s.coin() ? "#f" : "");
    URI<CHECK> uri(u);
    const bool badChar = !std::all_of(q.begin(), q.end(), [](char c) { return ref::unreserved(c) || ref::in(c, "&;=%:/"); });
    const bool badEsc  = ref::decode(q).malformed;
    for (int k = 0; k < 2; ++k) { // the second call answers from the cache
        bool     threw = false;
        ref::Map m;
        try {
            m = uri.queryParamMap();
        } catch (const URISyntaxException &) {
            threw = true;
        }
        if (CHECK == STRICT) s.check(threw == (badChar || badEsc), [&] { return "call " + std::to_string(k) + ": strict queryParamMap of " + pbt::show(u) + (threw ? " throws" : " is accepted: " + ref::showMap(m)); });
        else s.check(!threw, "relaxed queryParamMap throws");
        if (!threw) s.check(ref::normalise(m) == ref::normalise(ref::queryMap(q)), [&] { return "queryParamMap of " + pbt::show(u) + " = " + ref::showMap(m) + ", expected " + ref::showMap(ref::queryMap(q)); });
    }
}
PROPERTY(query_map, 200000, 2000000, "query strings of up to 5 key[=value] items with ';'/'&' separators, escapes (valid, malformed), repeated keys; non-trivial = at least one key with a value") {
    const bool strictish = s.coin();
    const auto q = ref::genQuery(s, strictish);
    s.note("query=" + pbt::show(q));
    s.nontrivial(q.find('=') != std::string::npos);
    if (s.coin()) checkMap<RELAXED>(s, q);
    else {
        s.assume(std::all_of(q.begin(), q.end(), ref::anyUriChar));
        checkMap<STRICT>(s, q);
    }
}

template<uri_check CHECK>
static void build(pbt::Src &s) {
    auto f = URI<CHECK>::factory();
    std::string scheme, user, pwd, host, path, query, fragment, authority;
    std::optional<std::uint16_t> port;
    const std::string nameChars = CHECK == STRICT ? "abZ09.-_" : "abZ09.-_~!$ '";
    if (s.chance(4, 5)) { scheme = ref::genAlnum(s, 1, 6); f = std::move(f).scheme(scheme); }
    const bool viaAuthority = s.chance(1, 4);
    if (viaAuthority) {
        authority = ref::genFrom(s, nameChars, 1, 10);
        f = std::move(f).authority(authority);
        host = authority;
    } else if (s.chance(4, 5)) {
        host = s.chance(1, 6) ? "[" + ref::genFrom(s, "0123abf:", 1, 8) + "]" : ref::genFrom(s, nameChars, 1, 10);
        f = std::move(f).hostName(host);
        if (s.coin()) { port = std::uint16_t(s.coin() ? s.integer<std::uint16_t>() : s.below(65536)); f = std::move(f).port(*port); }
        if (s.coin()) { user = ref::genFrom(s, nameChars, 1, 6); f = std::move(f).user(user); }
        if (s.coin()) { pwd = ref::genFrom(s, nameChars, 1, 6); f = std::move(f).password(pwd); }
        authority = (user.empty() ? "" : user + (pwd.empty() ? "" : ":" + pwd) + "@") + host + (port ? ":" + std::to_string(*port) : "");
        if (user.empty()) pwd.clear(); // a password without user is not representable
    }
    if (s.chance(3, 4)) {
        path = ref::genFrom(s, CHECK == STRICT ? "abZ09.-_/" : "abZ09.-_/~!%20 :@", 1, 12);
        if (authority.empty() && scheme.empty() && path[0] != '/') path = "/" + path;
        if (path.starts_with("//") && authority.empty()) path = "/" + path.substr(path.find_first_not_of('/') == std::string::npos ? path.size() : path.find_first_not_of('/'));
        f = std::move(f).path(path);
    }
    ref::Map want;
    if (s.chance(1, 3)) {
        query = "q0=" + ref::genAlnum(s, 1, 4) + (s.coin() ? "&q1" : "");
        f = std::move(f).queryParam(query);
        want = ref::queryMap(query);
    }
    const bool viaSet = s.chance(1, 4);
    ref::Map added;
    for (std::size_t n = s.below(5); n > 0; --n) {
        auto key = "k" + s.bytesStr(6);
        if (s.chance(1, 5)) key = s.bytesStr(3) + "x";
        if (key == "q0" || key == "q1") continue;
        if (s.chance(1, 4)) { if (!viaSet) f = std::move(f).addQueryParameter(key); added[key] = std::nullopt; }
        else {
            auto val = s.bytesStr(8);
            if (!viaSet) f = std::move(f).addQueryParameter(key, val);
            added[key] = val;
        }
    }
    if (viaSet) { f = std::move(f).setQuery(added); want.clear(); }
    for (auto &[k, v] : added) want[k] = v;
    if (s.coin()) { fragment = s.chance(1, 2) ? ref::genFrom(s, "abZ09-._~", 1, 8) : "f" + s.bytesStr(8); f = std::move(f).fragment(fragment); }

    auto copy = f.copy();
    const auto str = f.toString();
    s.note("built=" + pbt::show(str));
    s.nontrivial(!scheme.empty() && !authority.empty() && !want.empty());
    s.check(f.toString() == str, [&] { return "toString() is not repeatable: " + pbt::show(str) + " then " + pbt::show(f.toString()); });
    if (s.chance(1, 4)) { // a copy is independent of its original
        auto c2 = std::move(copy).addQueryParameter("extra", "1").path("/other");
        (void) c2.toString();
        s.check(f.toString() == str, "changing a copy changed the original");
    }
    const auto uri = f.build();
    s.check(uri.str() == str, "build() differs from toString()");
    auto eq = [&](const char *w, const std::optional<std::string> &got, const std::string &wantS) {
        s.check(got == ref::opt(wantS), [&] { return std::string(w) + " of built " + pbt::show(str) + " = " + ref::showOpt(got) + ", set to " + pbt::show(wantS); });
    };
    eq("scheme", uri.scheme(), scheme);
    eq("authority", uri.authority(), authority);
    eq("user", uri.user(), user);
    eq("password", uri.password(), pwd);
    eq("host", uri.hostName(), host);
    if (!viaAuthority) s.check(uri.port() == port, [&] { return "port of built " + pbt::show(str) + " differs"; });
    eq("path", uri.path(), path.empty() || path[0] == '/' || authority.empty() ? path : "/" + path);
    s.check(uri.fragment().has_value() == !fragment.empty(), "fragment presence");
    if (!fragment.empty()) s.check(ref::decode(*uri.fragment()).text == fragment, [&] { return "fragment of built " + pbt::show(str) + " does not denote " + pbt::show(fragment); });
    s.check(ref::normalise(uri.queryParamMap()) == ref::normalise(want), [&] { return "query of built " + pbt::show(str) + " = " + ref::showMap(uri.queryParamMap()) + ", set to " + ref::showMap(want); });
    // values set with a non-empty text come back as that text
    for (auto &[k, v] : want)
        if (v && !v->empty()) s.check(uri.queryParamMap().contains(k) && uri.queryParamMap().at(k) == v, "query value");
}
PROPERTY(build_parse_strict, 150000, 1200000, "random subset of all components and up to 5 query parameters with arbitrary byte keys/values; non-trivial = scheme, authority and query present") { build<STRICT>(s); }
PROPERTY(build_parse_relaxed, 150000, 1200000, "same, relaxed mode with wider alphabets") { build<RELAXED>(s); }

PROPERTY(rebuild_identity, 200000, 1500000, "strict-valid URI texts; rebuilding through the factory keeps every component, and changing one component keeps the others; non-trivial = at least three components") {
    const auto u = ref::genUri(s, false);
    s.assume(ref::supported(u) && ref::strictOk(u));
    const auto p = ref::split(u);
    s.assume(!p.query.starts_with('?'));
    s.assume(std::all_of(p.fragment.begin(), p.fragment.end(), ref::unreserved));
    s.assume(!(p.authority.empty() && p.path.starts_with("//")));
    s.assume(p.hasScheme || !p.authority.empty() || p.path.empty() || p.path[0] == '/');
    s.note("uri=" + pbt::show(u));
    s.nontrivial((p.hasScheme + p.hasAuth + p.hasQuery + p.hasFragment + !p.path.empty()) >= 3);
    const URI<STRICT> uri(u);
    if (s.coin()) { (void) uri.port(); } // lazily parsed authority
    const auto r = URI<STRICT>::factory(uri).toString();
    std::string canon = (p.scheme.empty() ? "" : p.scheme + ":") + (p.authority.empty() ? "" : "//" + p.authority) + p.path + (p.query.empty() ? "" : "?" + p.query) + (p.fragment.empty() ? "" : "#" + p.fragment);
    s.check(r == canon, [&] { return "factory(" + pbt::show(u) + ").toString() = " + pbt::show(r) + ", expected " + pbt::show(canon); });
    auto same = [&](const URI<STRICT> &x, int except) {
        auto eq = [&](int id, const char *w, const std::optional<std::string> &got, const std::string &wantS) {
            if (id != except) s.check(got == ref::opt(wantS), [&] { return std::string(w) + " changed while another component was replaced: " + pbt::show(u) + " -> " + pbt::show(x.str()); });
        };
        eq(0, "scheme", x.scheme(), p.scheme);
        eq(1, "authority", x.authority(), p.authority);
        eq(2, "path", x.path(), p.path);
        eq(3, "query", x.queryParam(), p.query);
        eq(4, "fragment", x.fragment(), p.fragment);
    };
    switch (s.below(5)) {
    case 0: { auto x = URI<STRICT>::factory(uri).scheme("zz").build(); same(x, 0); s.check(x.scheme() == "zz", "scheme not replaced"); break; }
    case 1: { auto x = URI<STRICT>::factory(uri).authority("hh:7").build(); s.assume(p.path.empty() || p.path[0] == '/'); same(x, 1); s.check(x.authority() == "hh:7", "authority not replaced"); break; }
    case 2: { auto x = URI<STRICT>::factory(uri).path("/pp").build(); same(x, 2); s.check(x.path() == "/pp", "path not replaced"); break; }
    case 3: {
        auto x = URI<STRICT>::factory(uri).setQuery({ { "a", "1" }, { "b", std::nullopt } }).build();
        same(x, 3);
        s.check(x.queryParamMap() == ref::Map{ { "a", "1" }, { "b", std::nullopt } }, "query not replaced");
        if (!ref::decode(p.query).malformed && std::all_of(p.query.begin(), p.query.end(), [](char c) { return ref::unreserved(c) || ref::in(c, "&;=%:/"); })) {
            auto y = URI<STRICT>::factory(uri).addQueryParameter("a", "1").build();
            same(y, 3);
            auto m = ref::queryMap(p.query);
            m["a"] = "1";
            auto got = ref::normalise(y.queryParamMap());
            m = ref::normalise(m);
            got.erase(""); // the key of an empty item is unspecified
            m.erase("");
            s.check(got == m, [&] { return "addQueryParameter on " + pbt::show(u) + " gives " + ref::showMap(y.queryParamMap()); });
        }
        break;
    }
    default: { auto x = URI<STRICT>::factory(uri).fragment("ff").build(); same(x, 4); s.check(x.fragment() == "ff", "fragment not replaced"); }
    }
}

// known findings: fixed inputs that fail on the current tree (each is excluded from the generators above by construction)
static pbt::RegProbe fragEnc("fragment-encoded-twice", [] { return URI<STRICT>::factory(URI<STRICT>("http://h/p#a%20b")).toString() != "http://h/p#a%20b"; });
static pbt::RegProbe hostIgnored("host-change-ignored", [] { return URI<STRICT>::factory(URI<STRICT>("http://h:1/p")).hostName("other").build().hostName() != "other"; });
static pbt::RegProbe lostMark("leading-question-mark-lost", [] { return URI<RELAXED>::factory(URI<RELAXED>("http://h/p??a")).build().queryParam() != "?a"; });
