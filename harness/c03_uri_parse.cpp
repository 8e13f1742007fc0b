// C03: parsing a URI text yields exactly the RFC 3986 components, or the syntax error, for every text.
#include <Formatter.hpp>
#include <URI.hpp>
#include "uri_ref.hpp"
using namespace opencmw;

template<uri_check CHECK>
static void checkParse(pbt::Src &s, const std::string &u) {
    const char *mode  = CHECK == STRICT ? "strict" : "relaxed";
    bool        threw = false;
    std::optional<URI<CHECK>> uri;
    try {
        uri.emplace(u);
    } catch (const URISyntaxException &) {
        threw = true;
    }
    const bool sup = ref::supported(u);
    if (CHECK == RELAXED) s.check(!threw, [&] { return "relaxed parse of " + pbt::show(u) + " throws"; });
    else if (sup) s.check(threw == !ref::strictOk(u), [&] { return "strict parse of " + pbt::show(u) + (threw ? " throws" : " is accepted") + " although its characters are " + (threw ? "all legal" : "not all legal in their component"); });
    if (threw) return;
    s.check(uri->str() == u && (*uri)() == u && uri->empty() == u.empty(), "text not preserved");
    const auto scheme = uri->scheme(), authority = uri->authority(), path = uri->path(), query = uri->queryParam(), fragment = uri->fragment();
    const auto user = uri->user(), pwd = uri->password(), host = uri->hostName();
    const auto port = uri->port();
    const auto rel = uri->relativeRef(), relNF = uri->relativeRefNoFragment();
    const auto printed = std::format("{}", *uri);
    if (!sup) return; // "host/path" without "//": components unspecified, only robustness is claimed
    const auto p = ref::split(u);
    auto eq = [&](const char *what, const std::optional<std::string> &got, const std::string &want) {
        s.check(got == ref::opt(want), [&] { return std::string(mode) + " " + what + " of " + pbt::show(u) + " = " + ref::showOpt(got) + ", expected " + ref::showOpt(ref::opt(want)); });
        s.check(want.empty() || printed.find(want) != std::string::npos, [&] { return std::string(what) + " missing in printed form of " + pbt::show(u) + ": " + printed; });
    };
    eq("scheme", scheme, p.scheme);
    eq("authority", authority, p.authority);
    eq("path", path, p.path);
    eq("query", query, p.query);
    eq("fragment", fragment, p.fragment);
    const auto a = ref::splitAuthority(p.authority);
    eq("user", user, a.user);
    eq("password", pwd, a.pwd);
    if (a.hostChecked) {
        eq("host", host, a.host);
        s.check(port == a.port, [&] { return std::string(mode) + " port of " + pbt::show(u) + " = " + (port ? std::to_string(*port) : "none") + ", expected " + (a.port ? std::to_string(*a.port) : "none"); });
    }
    if (!p.query.starts_with('?')) { // the relative reference denotes the same path and query
        const std::string wantPath = p.path.empty() || p.path[0] == '/' ? p.path : "/" + p.path;
        const std::string wantNF   = wantPath + (p.query.empty() ? "" : "?" + p.query);
        s.check(relNF == ref::opt(wantNF), [&] { return "relativeRefNoFragment of " + pbt::show(u) + " = " + ref::showOpt(relNF) + ", expected " + pbt::show(wantNF); });
        if (!p.fragment.starts_with('#')) {
            s.check(rel.has_value() == !(wantNF.empty() && p.fragment.empty()), "relativeRef presence");
            if (rel) {
                const auto h = rel->find('#');
                s.check(rel->substr(0, h) == wantNF, [&] { return "relativeRef of " + pbt::show(u) + " = " + ref::showOpt(rel); });
                s.check((h == std::string::npos) == p.fragment.empty(), "relativeRef: fragment delimiter");
                if (h != std::string::npos) s.check(ref::decode(rel->substr(h + 1)).text == p.fragment, [&] { return "relativeRef of " + pbt::show(u) + " = " + ref::showOpt(rel) + " does not denote the fragment"; });
            }
        }
    }
}
static void both(pbt::Src &s, const std::string &u) {
    checkParse<STRICT>(s, u);
    checkParse<RELAXED>(s, u);
}

PROPERTY(structured, 400000, 3000000, "[scheme:][//authority][path][?query][#fragment] assembled from per-component generators, a third with 1-3 mutated characters; non-trivial = text in the supported form with at least two components") {
    const auto u = ref::genUri(s);
    const auto p = ref::split(u);
    s.nontrivial(ref::supported(u) && (p.hasScheme + p.hasAuth + p.hasQuery + p.hasFragment + !p.path.empty()) >= 2);
    s.label(!ref::supported(u) ? "unsupported form" : ref::strictOk(u) ? "strict-valid" : "strict-invalid");
    s.note("uri=" + pbt::show(u));
    both(s, u);
}
PROPERTY(delimiter_soup, 400000, 3000000, "short strings over delimiters and a few literals; non-trivial = contains a delimiter") {
    std::string u = ref::genFrom(s, s.coin() ? ":/?#@[]ab1" : ":/?#@[]ab1%~*.-_ \x01\x80", 0, 14);
    if (s.chance(1, 10)) u = s.bytesStr(40);
    s.nontrivial(u.find_first_of(":/?#") != std::string::npos);
    s.note("uri=" + pbt::show(u));
    both(s, u);
}
PROPERTY(exhaustive_short, 13 * 13, 0, "all strings of length <= 5 over {a,1,:,/,?,#,@,[,],~,%,.,space} (371293+...)", .exhaustive = true) {
    static const std::string A = "a1:/?#@[]~%. ";
    const auto i = s.draw(~0ull);
    s.nontrivial();
    std::string pre{ A[i / 13], A[i % 13] };
    if (i == 0) both(s, "");
    if (i < 13) both(s, std::string(1, A[i]));
    both(s, pre);
    for (char c : A) {
        both(s, pre + c);
        for (char d : A) {
            both(s, pre + c + d);
            for (char e : A) both(s, pre + c + d + e);
        }
    }
}

// known finding (pinned by an existing unit test): a reference without scheme that does not start with '/', '?' or '#'
static pbt::RegProbe relPath("schemeless-relative-path", [] { return URI<RELAXED>("abc/def").path() != "abc/def"; });
