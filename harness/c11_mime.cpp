// C11: MIME types are found by name (case-insensitive, first listed match) and by file extension; unknown ones map to UNKNOWN.
#include <Formatter.hpp>
#include <MIME.hpp>
#include "pbt.hpp"
using namespace opencmw;
static std::string lower(std::string t) {
    for (auto &c : t) if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
    return t;
}
static std::string mixCase(pbt::Src &s, std::string t) {
    for (auto &c : t) if (c >= 'a' && c <= 'z' && s.coin()) c = char(c - 'a' + 'A');
    return t;
}
static const MIME::MimeType &refType(const std::string &n) {
    const auto l = lower(n);
    for (auto &t : MIME::ALL)
        if (!l.empty() && l.find(lower(std::string(t.typeName()))) != std::string::npos) return t;
    return MIME::UNKNOWN;
}
static const MIME::MimeType &refFile(const std::string &n) {
    const auto l = lower(n);
    for (auto &t : MIME::ALL)
        for (auto e : t.fileExtensions())
            if (l.ends_with(lower(std::string(e)))) return t;
    return MIME::UNKNOWN;
}
static void checkType(pbt::Src &s, const std::string &n) {
    auto buf = std::make_unique<char[]>(n.size() ? n.size() : 1);
    std::copy(n.begin(), n.end(), buf.get());
    const std::string_view v(buf.get(), n.size());
    s.check(MIME::getType(v) == refType(n), [&] { return "getType(" + pbt::show(n) + ") = " + std::string(MIME::getType(v).typeName()) + ", expected " + std::string(refType(n).typeName()); });
    s.check(MIME::getTypeByFileName(v) == refFile(n), [&] { return "getTypeByFileName(" + pbt::show(n) + ") = " + std::string(MIME::getTypeByFileName(v).typeName()) + ", expected " + std::string(refFile(n).typeName()); });
}
PROPERTY(registry, 1, 1, "every listed type by name and by each of its extensions, in lower, upper and mixed case; textual conversions agree", .exhaustive = true) {
    s.nontrivial();
    std::set<std::string> names, exts;
    for (auto &t : MIME::ALL) {
        const std::string n(t.typeName());
        s.check(names.insert(n).second, "two types share the name " + n);
        s.check(n.find('/') != std::string::npos, "not a MIME type: " + n);
        std::string up = n;
        for (auto &c : up) c = char(std::toupper(c));
        s.check(MIME::getType(n) == t && MIME::getType(up) == t, "not found by its name: " + n);
        s.check(std::string(static_cast<const char *>(t)) == n && std::string_view(t) == n && std::format("{}", t) == n, "conversions of " + n);
        std::ostringstream o;
        o << t;
        s.check(o.str() == n, "stream output of " + n);
        for (auto e : t.fileExtensions()) {
            s.check(exts.insert(std::string(e)).second, "two types share the extension " + std::string(e));
            s.check(e.size() > 1 && e[0] == '.', "not an extension: " + std::string(e));
            s.check(MIME::getTypeByFileName("dir/name" + std::string(e)) == t, "not found by its extension: " + std::string(e));
            up = e;
            for (auto &c : up) c = char(std::toupper(c));
            s.check(MIME::getTypeByFileName("NAME" + up) == t && MIME::getTypeByFileName(e) == t, "not found by its upper-case extension: " + up);
        }
    }
    s.check(MIME::ALL.size() >= 54 && MIME::getType("application/octet-stream") == MIME::BINARY && MIME::getType("application/json") == MIME::JSON && MIME::getType("text/html") == MIME::HTML && MIME::getType("application/cmwlight") == MIME::CMWLIGHT && MIME::getType("text/event-stream") == MIME::EVENT_STREAM && MIME::getType("text/plain") == MIME::TEXT && MIME::getType("text/yaml") == MIME::YAML && MIME::getType("application/pdf") == MIME::PDF, "a core type is missing");
    s.check(MIME::getTypeByFileName("a.js") == MIME::JAVASCRIPT && MIME::getTypeByFileName("a.mjs") == MIME::JAVASCRIPT && MIME::getTypeByFileName("a.html") == MIME::HTML && MIME::getTypeByFileName("a.htm") == MIME::HTML && MIME::getTypeByFileName("a.png") == MIME::PNG && MIME::getTypeByFileName("a.svg") == MIME::SVG && MIME::getTypeByFileName("a.jpeg") == MIME::JPEG && MIME::getTypeByFileName("a.json") == MIME::JSON && MIME::getTypeByFileName("a.css") == MIME::CSS && MIME::getTypeByFileName("a.yml") == MIME::YAML && MIME::getTypeByFileName("a.oga") == MIME::OGG, "a core extension is mapped elsewhere");
    // compile-time and run-time lookups agree
    constexpr auto c1 = MIME::getType("image/webp,image/apng,text/html");
    constexpr auto c2 = MIME::getType("APPLICATION/zip;q=1, text/css");
    constexpr auto c3 = MIME::getTypeByFileName("x.TAR.gz");
    constexpr auto c4 = MIME::getType("nothing/known");
    s.check(c1 == MIME::getType(std::string("image/webp,image/apng,text/html")) && c2 == MIME::getType(std::string("APPLICATION/zip;q=1, text/css")) && c3 == MIME::getTypeByFileName(std::string("x.TAR.gz")) && c4 == MIME::getType(std::string("nothing/known")), "compile-time and run-time lookup disagree");
}
PROPERTY(lookups, 120000, 1000000, "Accept-like lists of 0-3 listed types with parameters, truncations, prefixes and case changes; file names with 0-3 extensions; non-trivial = some type is found") {
    std::string n;
    if (s.coin()) {
        for (std::size_t k = s.below(4); k > 0; --k) {
            auto t = mixCase(s, std::string(s.pick(MIME::ALL).typeName()));
            switch (s.below(5)) {
            case 0: t.pop_back(); break;
            case 1: t.erase(0, 1); break;
            case 2: t += s.bytesStr(4); break;
            default:;
            }
            n += t + s.oneOf<std::string>({ ",", ", ", ";q=0.8,", "" });
        }
    } else {
        n = s.bytesStr(6);
        for (std::size_t k = s.below(4); k > 0; --k) {
            auto &t = s.pick(MIME::ALL);
            if (t.fileExtensions().empty()) continue;
            auto e = mixCase(s, std::string(t.fileExtensions()[s.below(t.fileExtensions().size())]));
            if (s.chance(1, 5)) e.pop_back();
            if (s.chance(1, 5)) e.erase(0, 1);
            n += e;
        }
    }
    s.note(pbt::show(n));
    s.nontrivial(!(refType(n) == MIME::UNKNOWN) || !(refFile(n) == MIME::UNKNOWN));
    checkType(s, n);
}
PROPERTY(comparisons, 60000, 300000, "pairs of listed types; equality means equal names; all non-trivial") {
    auto &a = s.pick(MIME::ALL);
    auto &b = s.pick(MIME::ALL);
    s.nontrivial();
    s.note(std::string(a.typeName()) + " vs " + std::string(b.typeName()));
    s.check((a == b) == (a.typeName() == b.typeName()), "equality");
    s.check(((a <=> b) < 0) == (a.typeName() < b.typeName()), "order");
}
