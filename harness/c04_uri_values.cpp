// C04: URI objects are values: any history of copies, moves, assignments and accessor calls leaves each object equal to a fresh parse of its text.
#include <Formatter.hpp>
#include <URI.hpp>
#include "uri_ref.hpp"
#include <map>
#include <memory>
#include <unordered_set>
using namespace opencmw;

template<uri_check CHECK>
static void observe(pbt::Src &s, const URI<CHECK> &u, const std::string &text, std::uint64_t mask) {
    const URI<CHECK> fresh(text);
    const auto p = ref::split(text);
    auto eq = [&](const char *w, const auto &a, const auto &b) { s.check(a == b, [&] { return std::string(w) + " of an object holding " + pbt::show(text) + " differs from a fresh parse: " + std::format("{} vs {}", a, b); }); };
    s.check(u.str() == text, [&] { return "object holds " + pbt::show(u.str()) + " instead of " + pbt::show(text); });
    for (int k = 0; k < 10; ++k) {
        if (!((mask >> k) & 1)) continue;
        switch (k) {
        case 0: eq("scheme", u.scheme(), fresh.scheme()); break;
        case 1: eq("authority", u.authority(), fresh.authority()); break;
        case 2: eq("user", u.user(), fresh.user()); break;
        case 3: eq("password", u.password(), fresh.password()); break;
        case 4: eq("host", u.hostName(), fresh.hostName()); break;
        case 5: eq("port", u.port(), fresh.port()); break;
        case 6: eq("path", u.path(), fresh.path()); break;
        case 7: eq("query", u.queryParam(), fresh.queryParam()); break;
        case 8: eq("fragment", u.fragment(), fresh.fragment()); eq("relativeRef", u.relativeRef(), fresh.relativeRef()); break;
        case 9: {
            ref::Map a, b;
            bool     ta = false, tb = false;
            try { a = u.queryParamMap(); } catch (const URISyntaxException &) { ta = true; }
            try { b = fresh.queryParamMap(); } catch (const URISyntaxException &) { tb = true; }
            s.check(ta == tb && a == b, [&] { return "queryParamMap of an object holding " + pbt::show(text) + ": " + ref::showMap(a) + " vs fresh " + ref::showMap(b); });
            if (!ta && ref::supported(text)) s.check(ref::normalise(a) == ref::normalise(ref::queryMap(p.query)), [&] { return "queryParamMap of " + pbt::show(text) + " = " + ref::showMap(a); });
            break;
        }
        }
    }
    s.check(u == fresh && !(u != fresh) && std::hash<URI<CHECK>>{}(u) == std::hash<URI<CHECK>>{}(fresh), "not equal to a fresh parse");
}

template<uri_check CHECK>
static void history(pbt::Src &s) {
    using U = URI<CHECK>;
    struct Slot {
        std::unique_ptr<U> u;
        std::string        text;
        bool               moved = false;
    };
    std::vector<std::string> texts;
    for (int tries = 0; texts.size() < 4 && tries < 40; ++tries) {
        auto t = ref::genUri(s, false);
        if (s.chance(1, 3)) t = t.substr(0, s.below(16)); // small-string representation
        if (CHECK == STRICT && (!ref::supported(t) || !ref::strictOk(t))) continue;
        texts.push_back(t);
    }
    texts.push_back("s://u:p@h:1/p#f");
    texts.push_back("/x");
    std::vector<Slot> v(4);
    std::vector<U>    vec; // container growth relocates
    std::vector<std::string> vecText;
    const std::size_t n = 2 + s.below(28);
    std::size_t assigns = 0;
    for (std::size_t k = 0; k < n; ++k) {
        auto &a = v[s.below(v.size())];
        auto &b = v[s.below(v.size())];
        switch (s.below(12)) {
        case 0: {
            a.text = s.pick(texts);
            a.u    = std::make_unique<U>(a.text);
            a.moved = false;
            s.note("construct " + pbt::show(a.text));
            break;
        }
        case 1: {
            a.text = s.pick(texts);
            a.u    = std::make_unique<U>(std::string(a.text)); // rvalue constructor
            a.moved = false;
            break;
        }
        case 2:
            if (&a != &b && b.u && !b.moved) {
                a.u = std::make_unique<U>(*b.u);
                a.text = b.text;
                a.moved = false;
                s.note("copy-construct");
            }
            break;
        case 3:
            if (&a != &b && b.u && !b.moved) {
                a.u = std::make_unique<U>(std::move(*b.u));
                a.text = b.text;
                a.moved = false;
                b.moved = true;
                s.note("move-construct");
            }
            break;
        case 4:
        case 5:
            if (a.u && b.u && !b.moved) {
                *a.u = *static_cast<const U *>(b.u.get());
                a.text = b.text;
                a.moved = false;
                ++assigns;
                s.note("copy-assign " + pbt::show(a.text));
            }
            break;
        case 6:
        case 7:
            if (a.u && b.u && !b.moved && a.u != b.u) {
                *a.u = std::move(*b.u);
                a.text = b.text;
                a.moved = false;
                b.moved = true;
                ++assigns;
                s.note("move-assign " + pbt::show(a.text));
            }
            break;
        case 8:
            if (a.u && b.u && !a.moved && !b.moved && a.u != b.u) {
                std::swap(*a.u, *b.u);
                std::swap(a.text, b.text);
                ++assigns;
                s.note("swap");
            }
            break;
        case 9: a.u.reset(); s.note("destroy"); break;
        case 10: {
            const auto t = s.pick(texts);
            if (s.chance(1, 4) && !vec.empty()) {
                const auto i = s.below(vec.size());
                vec.erase(vec.begin() + long(i));
                vecText.erase(vecText.begin() + long(i));
            } else {
                const auto i = s.below(vec.size() + 1);
                vec.insert(vec.begin() + long(i), U(t));
                vecText.insert(vecText.begin() + long(i), t);
            }
            if (s.chance(1, 4)) {
                std::stable_sort(vec.begin(), vec.end(), [](const U &x, const U &y) { return x < y; });
                std::stable_sort(vecText.begin(), vecText.end());
            }
            for (std::size_t i = 0; i < vec.size(); ++i) observe(s, vec[i], vecText[i], 0x3ff);
            break;
        }
        default:
            if (a.u && !a.moved) {
                s.note("observe");
                observe(s, *a.u, a.text, s.draw(0x3ff));
            }
        }
    }
    for (auto &a : v)
        if (a.u && !a.moved) observe(s, *a.u, a.text, 0x3ff);
    for (auto &a : v)
        for (auto &b : v)
            if (a.u && b.u && !a.moved && !b.moved) {
                s.check((*a.u == *b.u) == (a.text == b.text) && (*a.u < *b.u) == (a.text < b.text) && ((*a.u <=> *b.u) == (a.text <=> b.text)), "comparison is not the comparison of the texts");
            }
    s.nontrivial(assigns >= 2);
}
PROPERTY(history_strict, 120000, 600000, "2-30 operations on 4 objects and a vector; non-trivial = at least two assignments between live objects") { history<STRICT>(s); }
PROPERTY(history_relaxed, 120000, 600000, "same, relaxed mode") { history<RELAXED>(s); }
PROPERTY(hash_sets, 5000, 100000, "membership of 1-12 URIs in hash and ordered sets equals membership of their texts; non-trivial = at least one duplicate") {
    std::vector<std::string> t;
    for (std::size_t n = 1 + s.below(12); n > 0; --n) t.push_back(s.chance(1, 3) && !t.empty() ? s.pick(t) : ref::genUri(s, false));
    std::unordered_set<URI<RELAXED>> hs;
    std::map<URI<RELAXED>, int>      os;
    std::set<std::string>            want(t.begin(), t.end());
    for (auto &x : t) {
        hs.insert(URI<RELAXED>(x));
        os[URI<RELAXED>(x)]++;
    }
    s.nontrivial(want.size() < t.size());
    s.check(hs.size() == want.size() && os.size() == want.size(), "set sizes differ");
    for (auto &x : want) {
        auto it = hs.find(URI<RELAXED>(x));
        s.check(it != hs.end(), "lookup failed");
        observe(s, *it, x, 0x3ff);
        observe(s, os.find(URI<RELAXED>(x))->first, x, 0x3ff);
    }
}
