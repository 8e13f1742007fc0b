// C33: mustache templates. PART 0: the template engine against a reference renderer that works on the generated template's structure
// (never on its text); PART 1: the rendering of reflected objects (own and fallback templates) through opencmw::mustache::serialise.
#include "pbt.hpp"
#include <map>
#include <memory>
#include <set>
#include <sstream>
#if PART == 0
#include <mustache.hpp>
#else
#include <MustacheSerialiser.hpp>
#include "json_ref.hpp"
#endif

static std::string escaped(std::string_view s) {
    std::string r;
    for (char c : s) {
        if (c == '&') r += "&amp;";
        else if (c == '<') r += "&lt;";
        else if (c == '>') r += "&gt;";
        else if (c == '"') r += "&quot;";
        else if (c == '\'') r += "&apos;";
        else r += c;
    }
    return r;
}
// text without any line that is blank: used where only the white space of standalone section lines may differ
static std::string withoutBlankLines(const std::string &s) {
    std::string out, line;
    std::istringstream in(s);
    while (std::getline(in, line)) {
        while (!line.empty() && (line.back() == ' ' || line.back() == '\t' || line.back() == '\r')) line.pop_back();
        const auto b = line.find_first_not_of(" \t");
        if (b != std::string::npos) out += line.substr(b) + "\n";
    }
    return out;
}
static std::string word(pbt::Src &s) {
    static const std::string_view mid[] = { "", " ", "\n", "\r\n", "\t", " \n ", "\n\n", "<", "&", "\"", "{", "}", "}}", "x'y", "\xc3\xa4", "=", "#", "/" };
    std::string r;
    const auto  n = 1 + s.below(3);
    for (std::size_t i = 0; i < n; ++i) {
        r += char('A' + s.below(20));
        r += s.pick(mid);
        r += char('a' + s.below(20));
    }
    return r;
}

#if PART == 0
struct Node {
    enum Kind { Str, False, True, List, Object, Partial } kind = Str;
    std::string                            text;
    std::vector<std::shared_ptr<Node>>     items;
    std::map<std::string, std::shared_ptr<Node>> fields;
};
using NodeP = std::shared_ptr<Node>;
// the engine's view of the data: every lookup returns a fresh view (its list cursor starts at the beginning)
class View {
    const Node *_n;
    mutable std::size_t _next = 0;
    mutable std::vector<std::unique_ptr<View>> _children;
public:
    explicit View(const Node *n) : _n(n) {}
    const View *sub(const Node *n) const { return _children.emplace_back(std::make_unique<View>(n)).get(); }
    const View *get(const std::string &name) const {
        if (_n->kind != Node::Object) return nullptr;
        auto it = _n->fields.find(name);
        return it == _n->fields.end() ? nullptr : sub(it->second.get());
    }
    const std::string &string_value() const { return _n->text; }
    const View *next_list_item() const {
        if (_next < _n->items.size()) return sub(_n->items[_next++].get());
        _next = 0;
        return nullptr;
    }
    bool is_string() const { return _n->kind == Node::Str; }
    bool is_false() const { return _n->kind == Node::False; }
    bool is_true() const { return _n->kind == Node::True; }
    bool is_empty_list() const { return _n->kind == Node::List && _n->items.empty(); }
    bool is_non_empty_list() const { return _n->kind == Node::List && !_n->items.empty(); }
    bool is_partial() const { return _n->kind == Node::Partial; }
    const View &partial_value() const { return *this; }
    std::string operator()() const { return _n->text; }
};
using M = kainjow::mustache_ns<std::string, View>;

static const std::string_view NAMES[] = { "a", "b", "c", "d", "name", "x1" };
static NodeP genNode(pbt::Src &s, int depth) {
    auto n = std::make_shared<Node>();
    switch (s.weighted({ 5, 1, 1, depth > 0 ? 3u : 0u, depth > 0 ? 3u : 0u })) {
    case 0: n->kind = Node::Str; n->text = s.chance(1, 3) ? s.str(8, "<>&'\"ab{} ;\n") : s.bytesStr(10); if (n->text.empty()) n->text = "v"; break;
    case 1: n->kind = Node::False; break;
    case 2: n->kind = Node::True; break;
    case 3: {
        n->kind = Node::List;
        const auto k = s.below(4);
        for (std::size_t i = 0; i < k; ++i) n->items.push_back(genNode(s, depth - 1));
        break;
    }
    default: {
        n->kind = Node::Object;
        const auto k = s.below(5);
        for (std::size_t i = 0; i < k; ++i) n->fields[std::string(s.pick(NAMES))] = genNode(s, depth - 1);
    }
    }
    return n;
}
struct T {
    enum Kind { Text, Var, Raw, Sect, Inv, Comment, Part, Delim } kind = Text;
    std::string    name; // or the text
    std::vector<T> kids;
};
static std::string genName(pbt::Src &s, bool allowDot) {
    switch (s.weighted({ 8, allowDot ? 2u : 0u, 2, 1 })) {
    case 0: return std::string(s.pick(NAMES));
    case 1: return ".";
    case 2: return "obj." + std::string(s.pick(NAMES));
    default: return "missing";
    }
}
static std::vector<T> genTemplate(pbt::Src &s, int depth, int partials) {
    // text - tag - text - tag - ... - text: every tag has visible text on both sides, on its own line
    std::vector<T> r;
    const auto     n = s.below(5);
    r.push_back({ T::Text, word(s), {} });
    for (std::size_t i = 0; i < n; ++i) {
        T t;
        switch (s.weighted({ 4, 3, depth > 0 ? 4u : 0u, depth > 0 ? 2u : 0u, 1, partials ? 2u : 0u, 1 })) {
        case 0: t = { T::Var, genName(s, true), {} }; break;
        case 1: t = { T::Raw, genName(s, true), {} }; break;
        case 2: t = { T::Sect, genName(s, true), genTemplate(s, depth - 1, partials) }; break;
        case 3: t = { T::Inv, genName(s, true), genTemplate(s, depth - 1, partials) }; break;
        case 4: t = { T::Comment, s.str(6, "ab #/&\n."), {} }; break;
        case 5: t = { T::Part, "part" + std::to_string(s.below(std::size_t(partials))), {} }; break;
        default: t = { T::Delim, "", {} };
        }
        r.push_back(std::move(t));
        r.push_back({ T::Text, word(s), {} });
    }
    return r;
}
struct Printer {
    pbt::Src   &s;
    std::string open = "{{", close = "}}";
    bool        delims = false;
    std::string sp() { return s.chance(1, 5) ? std::string(s.oneOf<const char *>({ " ", "  ", "\t", "\n" })) : ""; }
    std::string tag(std::string_view sigil, std::string_view name) { return open + sp() + std::string(sigil) + sp() + std::string(name) + sp() + close; }
    void print(const std::vector<T> &ts, std::string &out) {
        for (const auto &t : ts) {
            switch (t.kind) {
            case T::Text: out += t.name; break;
            case T::Var: out += tag("", t.name); break;
            case T::Raw:
                if (open == "{{" && s.coin()) out += "{{{" + sp() + t.name + sp() + "}}}";
                else out += tag("&", t.name);
                break;
            case T::Sect:
            case T::Inv:
                out += tag(t.kind == T::Sect ? "#" : "^", t.name);
                print(t.kids, out);
                out += tag("/", t.name);
                break;
            case T::Comment: out += open + "!" + t.name + close; break;
            case T::Part: out += tag(">", t.name); break;
            case T::Delim: {
                static const std::pair<const char *, const char *> D[] = { { "<%", "%>" }, { "|", "|" }, { "[[", "]]" }, { "${", "~" }, { "{{", "}}" }, { "@@@", "@@@" } };
                auto d = s.pick(D);
                if (d.second == close || close == "|" || close == "~") d = open == "(" ? std::pair<const char *, const char *>{ "[[", "]]" } : std::pair<const char *, const char *>{ "(", ")" };
                out += open + "=" + d.first + (s.coin() ? " " : "  ") + d.second + "=" + close;
                open = d.first, close = d.second;
                delims = true;
            }
            }
        }
    }
};
using Ctx = std::vector<const Node *>;
static const Node *step(const Node *n, const std::string &name) {
    if (n->kind != Node::Object) return nullptr;
    auto it = n->fields.find(name);
    return it == n->fields.end() ? nullptr : it->second.get();
}
static const Node *lookup(const Ctx &c, const std::string &name) {
    if (name == ".") return c.back();
    const auto dot = name.find('.');
    for (auto it = c.rbegin(); it != c.rend(); ++it) {
        const Node *n = step(*it, name.substr(0, dot));
        if (n && dot != std::string::npos) n = step(n, name.substr(dot + 1));
        if (n) return n;
    }
    return nullptr;
}
static void refRender(const std::vector<T> &ts, Ctx &c, const std::vector<std::vector<T>> &parts, std::string &out, std::set<std::string> &used) {
    for (const auto &t : ts) {
        if (t.kind == T::Text) { out += t.name; continue; }
        if (t.kind == T::Comment || t.kind == T::Delim) continue;
        if (t.kind == T::Part) {
            refRender(parts[std::size_t(t.name[4] - '0')], c, parts, out, used);
            used.insert("partial");
            continue;
        }
        const Node *n = lookup(c, t.name);
        if (t.kind == T::Var || t.kind == T::Raw) {
            if (n && n->kind == Node::Str) {
                out += t.kind == T::Var ? escaped(n->text) : n->text;
                used.insert(t.kind == T::Var ? "variable" : "unescaped");
            }
            continue;
        }
        const bool falsy = !n || n->kind == Node::False || (n->kind == Node::List && n->items.empty());
        if (t.kind == T::Inv) {
            if (falsy) {
                used.insert("inverted");
                if (n) c.push_back(n);
                refRender(t.kids, c, parts, out, used);
                if (n) c.pop_back();
            }
        } else if (!falsy) {
            if (n->kind == Node::List) {
                used.insert("list");
                for (const auto &i : n->items) {
                    c.push_back(i.get());
                    refRender(t.kids, c, parts, out, used);
                    c.pop_back();
                }
            } else {
                used.insert("section");
                c.push_back(n);
                refRender(t.kids, c, parts, out, used);
                c.pop_back();
            }
        }
    }
}
struct Case {
    NodeP                       root;
    std::vector<T>              tmpl;
    std::vector<std::vector<T>> parts;
    std::string                 text;
};
static Case genCase(pbt::Src &s) {
    Case c;
    c.root       = std::make_shared<Node>();
    c.root->kind = Node::Object;
    const auto k = s.below(7);
    for (std::size_t i = 0; i < k; ++i) c.root->fields[std::string(s.pick(NAMES))] = genNode(s, 3);
    if (s.coin()) {
        auto o  = std::make_shared<Node>();
        o->kind = Node::Object;
        for (auto n : NAMES)
            if (s.coin()) o->fields[std::string(n)] = genNode(s, 2);
        c.root->fields["obj"] = o;
    }
    const int np = int(s.below(3));
    for (int i = 0; i < np; ++i) {
        c.parts.push_back(genTemplate(s, 1, i)); // a partial uses only earlier ones
        Printer p{ s };
        auto    n = std::make_shared<Node>();
        p.print(c.parts.back(), n->text);
        n->kind                                          = s.coin() ? Node::Partial : Node::Str;
        c.root->fields["part" + std::to_string(i)] = n;
    }
    c.tmpl = genTemplate(s, 3, np);
    Printer p{ s };
    p.print(c.tmpl, c.text);
    return c;
}
// the partial's own name is found at the root only: data under "part<n>" of inner objects does not exist
PROPERTY(engine, 120000, 2000000, "generated templates (text, variables, sections, lists, inverted sections, comments, partials, delimiter changes) over generated data; non-trivial = a tag produced output") {
    auto c = genCase(s);
    s.note("template " + pbt::show(c.text));
    M::mustache m(c.text);
    s.check(m.is_valid(), [&] { return "template rejected: " + m.error_message() + " in " + pbt::show(c.text); });
    std::string           want;
    std::set<std::string> used;
    Ctx                   ctx{ c.root.get() };
    refRender(c.tmpl, ctx, c.parts, want, used);
    s.nontrivial(!used.empty());
    for (auto &u : used) s.label(u);
    for (int round = 0; round < 2; ++round) { // rendering leaves the template as it was
        View        root(c.root.get());
        std::string got;
        if (s.coin()) got = m.render(root);
        else {
            std::ostringstream o;
            m.render(root, o);
            got = o.str();
        }
        s.check(m.is_valid(), [&] { return "error while rendering: " + m.error_message(); });
        s.check(got == want, [&] { return "rendered " + pbt::show(got) + ", expected " + pbt::show(want); });
    }
    // a custom escape replaces the HTML one for {{x}} and is never applied to raw tags: the identity makes both the same
    M::mustache plain(c.text);
    plain.set_custom_escape([](const std::string &x) { return "(" + x + ")"; });
    View r2(c.root.get());
    const auto got2 = plain.render(r2);
    s.check(used.contains("variable") || got2 == want, "a custom escape changed text that is not an escaped variable");
}
// section tags on lines of their own leave no line behind
PROPERTY(standalone, 15000, 600000, "the section is rendered at least once") {
    auto root  = std::make_shared<Node>();
    root->kind = Node::Object;
    auto lst   = genNode(s, 2);
    root->fields["l"] = lst;
    const auto n = s.below(3) + 1;
    std::vector<std::string> body;
    std::string tmpl = "head\n";
    const auto  ind = [&] { return std::string(s.below(3), ' '); };
    const bool  inv = s.chance(1, 4);
    tmpl += ind() + (inv ? "{{^l}}" : "{{#l}}") + "\n";
    for (std::size_t i = 0; i < n; ++i) {
        body.push_back(std::string(s.below(3), ' ') + word(s));
        tmpl += body.back() + "\n";
    }
    tmpl += ind() + "{{/l}}\ntail";
    const bool  falsy = lst->kind == Node::False || (lst->kind == Node::List && lst->items.empty());
    std::size_t times = inv ? (falsy ? 1 : 0) : falsy ? 0 : lst->kind == Node::List ? lst->items.size() : 1;
    std::string want = "head\n";
    for (std::size_t k = 0; k < times; ++k)
        for (auto &b : body) want += b + "\n";
    want += "tail";
    s.nontrivial(times > 0);
    M::mustache m(tmpl);
    s.check(m.is_valid(), "template rejected");
    View        v(root.get());
    const auto  got = m.render(v);
    if (times == 1) s.check(got == want, [&] { return "rendered " + pbt::show(got) + ", expected " + pbt::show(want) + " from " + pbt::show(tmpl); });
    s.check(withoutBlankLines(got) == withoutBlankLines(want), [&] { return "rendered " + pbt::show(got) + ", expected " + pbt::show(want) + " from " + pbt::show(tmpl); });
}
// any text is a template or is rejected; neither parsing nor rendering crashes, and a text without "{{" is rendered as it is
PROPERTY(any_template, 40000, 3000000, "the text contains a tag") {
    static const std::string_view tok[] = { "{{", "}}", "{{{", "}}}", "#", "/", "^", "!", ">", "&", "=", "a", "b", "obj.a", ".", " ", "\n", "\r\n", "{", "}", "x", "|", "<%", "%>", "{{#a}}", "{{/a}}", "{{^b}}", "{{/b}}", "{{=| |=}}", "|=|", "\xff", "..", "a." };
    std::string t;
    if (s.chance(1, 4)) t = s.bytesStr(60);
    else {
        const auto n = s.size(40);
        for (std::size_t i = 0; i < n; ++i) t += s.pick(tok);
    }
    const bool tag = t.find("{{") != std::string::npos;
    s.nontrivial(tag);
    auto root  = std::make_shared<Node>();
    root->kind = Node::Object;
    for (auto n : NAMES)
        if (s.coin()) root->fields[std::string(n)] = genNode(s, 2);
    root->fields["obj"] = genNode(s, 2);
    M::mustache m(t);
    s.label(m.is_valid() ? "accepted" : "rejected");
    View        v(root.get());
    const auto  out = m.render(v);
    s.check(m.is_valid() || out.empty(), "an invalid template was rendered");
    if (!tag) s.check(m.is_valid() && out == t, [&] { return "text without tags rendered as " + pbt::show(out); });
    View v2(root.get());
    s.check(m.render(v2) == out, "rendering twice differs");
}
// unbalanced templates are reported, whatever surrounds the mistake
PROPERTY(unbalanced, 15000, 500000, "always") {
    auto c = genCase(s);
    Printer p{ s };
    std::string ok;
    auto        body = genTemplate(s, 2, 0);
    std::vector<T> noDelim;
    std::function<void(std::vector<T> &)> strip = [&](std::vector<T> &v) {
        for (auto &t : v) {
            if (t.kind == T::Delim) t = { T::Comment, "c", {} };
            strip(t.kids);
        }
    };
    strip(body);
    p.print(body, ok);
    std::string bad;
    switch (s.below(4)) {
    case 0: bad = ok + "{{#a}}" + word(s); break;
    case 1: bad = ok + "{{/a}}"; break;
    case 2: bad = ok + "{{#a}}x{{/b}}y"; break;
    default: bad = ok + "x{{ a"; break;
    }
    s.nontrivial();
    s.check(M::mustache(ok).is_valid(), "balanced template rejected");
    M::mustache m(bad);
    s.check(!m.is_valid() && !m.error_message().empty(), [&] { return "accepted " + pbt::show(bad); });
    View v(c.root.get());
    s.check(m.render(v).empty(), "an invalid template was rendered");
}
#endif

#if PART == 1
using namespace opencmw;
struct MItem {
    std::string              name;
    std::int32_t             n = 0;
    std::vector<std::string> tags;
    bool operator==(const MItem &) const = default;
};
ENABLE_REFLECTION_FOR(MItem, name, n, tags)
struct MDoc {
    std::string                                           title;
    std::int64_t                                          count = 0;
    std::uint8_t                                          small = 0;
    Annotated<double, NoUnit, "the ratio">                ratio;
    Annotated<std::string, NoUnit, "who <did> it">        author;
    std::vector<std::string>                              words;
    std::vector<std::int32_t>                             numbers;
    std::set<std::string>                                 keys;
    MultiArray<std::int32_t, 2>                           grid;
    MItem                                                 nested;
    std::vector<MItem>                                    items;
    std::vector<std::vector<std::string>>                 rows;
    bool                                                  flag = false;
};
ENABLE_REFLECTION_FOR(MDoc, title, count, small, ratio, author, words, numbers, keys, grid, nested, items, rows, flag)
struct MFlat {
    std::string                                    title;
    std::int64_t                                   count = 0;
    Annotated<double, NoUnit, "the ratio">         ratio;
    Annotated<std::string, NoUnit, "who did it">   author;
    std::vector<std::string>                       words;
    std::vector<double>                            numbers;
    std::set<std::string>                          keys;
    MultiArray<std::int32_t, 2>                    grid;
    bool                                           flag = false;
};
ENABLE_REFLECTION_FOR(MFlat, title, count, ratio, author, words, numbers, keys, grid, flag)
struct Fs {
    std::map<std::string, std::string> files;
    bool       exists(const std::string &p) const { return files.contains(p); }
    cmrc::file open(const std::string &p) const {
        const auto &f = files.at(p);
        return { f.data(), f.data() + f.size() };
    }
};
static std::string txt(pbt::Src &s) { return s.chance(1, 3) ? s.str(8, "<>&'\"ab{} ;\n\\") : s.str(8, "abcXYZ 0189._-"); }
template<typename F>
static auto vec(pbt::Src &s, std::size_t max, F f) {
    std::vector<decltype(f())> v;
    const auto n = s.below(max + 1);
    for (std::size_t i = 0; i < n; ++i) v.push_back(f());
    return v;
}
static MultiArray<std::int32_t, 2> genGrid(pbt::Src &s) {
    const auto a = std::uint32_t(s.below(3)), b = std::uint32_t(s.below(3));
    MultiArray<std::int32_t, 2> g(std::array<std::uint32_t, 2>{ a, b });
    for (std::uint32_t i = 0; i < a * b; ++i) g[i] = s.integer<std::int32_t>();
    return g;
}
static MItem genItem(pbt::Src &s) {
    return { txt(s), s.integer<std::int32_t>(), vec(s, 3, [&] { return txt(s); }) };
}
static MDoc genDoc(pbt::Src &s) {
    MDoc d;
    d.title  = txt(s);
    d.count  = s.integer<std::int64_t>();
    d.small  = s.integer<std::uint8_t>();
    d.ratio  = double(s.range<std::int64_t>(-100000, 100000)) / 16.0;
    d.author = txt(s);
    d.words  = vec(s, 4, [&] { return txt(s); });
    d.numbers = vec(s, 4, [&] { return s.integer<std::int32_t>(); });
    for (auto &k : vec(s, 4, [&] { return txt(s); })) d.keys.insert(k);
    d.grid   = genGrid(s);
    d.nested = genItem(s);
    d.items  = vec(s, 3, [&] { return genItem(s); });
    d.rows   = vec(s, 3, [&] { return vec(s, 3, [&] { return txt(s); }); });
    d.flag   = s.coin();
    return d;
}
static std::string dbl(double v) {
    char b[64];
    std::snprintf(b, sizeof b, "%f", v);
    return b;
}
// one template fragment and what it has to produce for the document
static void fragment(pbt::Src &s, const std::string &obj, const MDoc &d, std::string &t, std::string &want, int depth = 1) {
    const bool raw = s.coin();
    const auto E   = [&](const std::string &x) { return raw ? x : escaped(x); };
    const auto V   = [&](const std::string &n) { return raw ? (s.coin() ? "{{&" + n + "}}" : "{{{" + n + "}}}") : "{{" + n + "}}"; };
    const auto lit = word(s);
    t += lit;
    want += lit;
    const auto list = [&](const std::string &name, const auto &c, auto toString) {
        if (s.chance(1, 4)) {
            t += "{{^" + name + "}}none{{/" + name + "}}";
            if (c.empty()) want += "none";
            return;
        }
        t += "{{#" + name + "}}[" + V(s.coin() ? "." : "anything") + "]{{/" + name + "}}";
        for (const auto &e : c) want += "[" + E(toString(e)) + "]";
    };
    const auto self = [](const auto &x) { return std::string(x); };
    const auto num  = [](const auto &x) { return std::to_string(x); };
    switch (s.below(13)) {
    case 0: t += V(obj + ".title"), want += E(d.title); break;
    case 1: t += V(obj + ".count"), want += num(d.count); break;
    case 2: t += V(obj + ".small"), want += num(d.small); break;
    case 3: t += V(obj + ".ratio"), want += dbl(d.ratio.value()); break;
    case 4: t += V(obj + ".author"), want += E(d.author.value()); break;
    case 5: list(obj + ".words", d.words, self); break;
    case 6: list(obj + ".numbers", d.numbers, num); break;
    case 7: list(obj + ".keys", d.keys, self); break;
    case 8: t += V(obj + ".nested.name") + "/" + V(obj + ".nested.n"), want += E(d.nested.name) + "/" + num(d.nested.n); break;
    case 9: list(obj + ".grid", d.grid.elements(), num); break;
    case 10:
        t += "{{#" + obj + ".items}}<" + V("name") + "|" + V("n") + "|{{#tags}}(" + V(".") + "){{/tags}}>{{/" + obj + ".items}}";
        for (auto &i : d.items) {
            want += "<" + E(i.name) + "|" + num(i.n) + "|";
            for (auto &g : i.tags) want += "(" + E(g) + ")";
            want += ">";
        }
        break;
    case 11:
        t += "{{#" + obj + ".rows}}<{{#.}}(" + V(".") + "){{/.}}|{{#.}}-{{/.}}>{{/" + obj + ".rows}}";
        for (auto &r : d.rows) {
            want += "<";
            for (auto &g : r) want += "(" + E(g) + ")";
            want += "|" + std::string(r.size(), '-') + ">";
        }
        break;
    default:
        if (depth > 0) {
            t += "{{#" + obj + "}}" + V("title") + "{{/" + obj + "}}";
            want += E(d.title);
        }
    }
}
PROPERTY(own_template, 40000, 300000, "the template names at least two members") {
    const auto a = genDoc(s), b = genDoc(s);
    std::string          t, want;
    const auto n = s.below(7);
    for (std::size_t i = 0; i < n; ++i) fragment(s, s.coin() ? "result" : "context", s.rec.back() ? a : b, t, want);
    t += "END", want += "END";
    s.nontrivial(n >= 2);
    s.note("template " + pbt::show(t));
    const std::string worker = "worker" + std::to_string(pbt::hashStr(t)); // templates are kept by worker name
    Fs fs;
    fs.files["assets/mustache/" + worker + ".mustache"] = t;
    fs.files["assets/mustache/default.mustache"]        = "the default template";
    for (int round = 0; round < 2; ++round) {
        std::ostringstream out;
        mustache::serialise(fs, worker, out, std::pair<std::string, const MDoc &>{ "result", a }, std::pair<std::string, const MDoc &>{ "context", b });
        s.check(out.str() == want, [&] { return "rendered " + pbt::show(out.str()) + ", expected " + pbt::show(want); });
    }
}
static pbt::RegProbe p1("bool-section", [] {
    Fs fs;
    fs.files["assets/mustache/boolWorker.mustache"] = "x{{#result.flag}}set{{/result.flag}}{{^result.flag}}clear{{/result.flag}}x";
    MDoc               d;
    std::ostringstream out;
    mustache::serialise(fs, "boolWorker", out, std::pair<std::string, const MDoc &>{ "result", d });
    return out.str() != "xclearx";
});
PROPERTY(fallback, 40000, 300000, "always") {
    MFlat d;
    d.title  = txt(s);
    d.count  = s.integer<std::int64_t>();
    d.ratio  = double(s.range<std::int64_t>(-100000, 100000)) / 16.0;
    d.author = txt(s);
    d.words  = vec(s, 4, [&] { return txt(s); });
    d.numbers = vec(s, 4, [&] { return double(s.range<std::int64_t>(-1000, 1000)) / 4; });
    for (auto &k : vec(s, 4, [&] { return txt(s); })) d.keys.insert(k);
    d.grid = genGrid(s);
    d.flag = s.coin();
    s.nontrivial();
    const std::string worker = "plain" + std::to_string(s.below(3));
    Fs fs;
    // separators that occur in no value
    fs.files["assets/mustache/default.mustache"] = "{{#result.fields}}\x01{{&name}}\x02{{&type}}\x02{{&unit}}\x02{{&description}}\x02{{&value}}{{/result.fields}}\x01{{result.typeName}}";
    std::ostringstream out;
    mustache::serialise(fs, worker, out, std::pair<std::string, const MFlat &>{ "result", d });
    std::vector<std::vector<std::string>> f(1);
    f.back().emplace_back();
    for (char c : out.str()) {
        if (c == '\x01') f.emplace_back().emplace_back();
        else if (c == '\x02') f.back().emplace_back();
        else f.back().back() += c;
    }
    s.check(f.size() == 11 && f[0] == std::vector<std::string>{ "" } && f[10] == std::vector<std::string>{ "MFlat" }, [&] { return "structure of the output: " + pbt::show(out.str()); });
    static const std::string_view names[] = { "title", "count", "ratio", "author", "words", "numbers", "keys", "grid", "flag" };
    for (std::size_t i = 0; i < 9; ++i) {
        s.check(f[i + 1].size() == 5 && f[i + 1][0] == names[i], [&] { return "field " + std::string(names[i]) + ": " + pbt::show(out.str()); });
        s.check(f[i + 1][3] == (i == 2 ? "the ratio" : i == 3 ? "who did it" : ""), [&] { return "description of " + std::string(names[i]) + " is " + pbt::show(f[i + 1][3]); });
    }
    const auto val = [&](std::size_t i) { return f[i + 1][4]; };
    s.check(val(0) == d.title && val(3) == d.author.value(), [&] { return "strings: " + pbt::show(out.str()); });
    s.check(val(1) == std::to_string(d.count), "integer");
    s.check(val(8) == (d.flag ? "true" : "false"), "bool");
    s.check(std::strtod(val(2).c_str(), nullptr) == d.ratio.value(), "floating point");
    const auto parse = [&](std::size_t i) {
        try {
            const auto  text = val(i);
            jref::Parser p{ text };
            auto v = p.value();
            p.ws();
            if (p.p != text.size()) p.bad("trailing text");
            return v;
        } catch (const jref::Bad &b) {
            s.fail("value of " + std::string(names[i]) + " is no JSON (" + b.what + "): " + pbt::show(val(i)));
        }
    };
    const auto strings = [&](std::size_t i, const auto &want) {
        const auto v = parse(i);
        std::vector<std::string> got;
        for (auto &e : v.a) got.push_back(e.s);
        s.check(v.k == jref::Val::Arr && got == std::vector<std::string>(want.begin(), want.end()), [&] { return "value of " + std::string(names[i]) + ": " + pbt::show(val(i)); });
    };
    strings(4, d.words);
    strings(6, d.keys);
    const auto nums = parse(5);
    s.check(nums.k == jref::Val::Arr && nums.a.size() == d.numbers.size(), "numbers");
    for (std::size_t i = 0; i < d.numbers.size(); ++i) s.check(std::strtod(nums.a[i].s.c_str(), nullptr) == d.numbers[i], "number");
    const auto grid = parse(7);
    s.check(grid.k == jref::Val::Obj && grid.keys == std::vector<std::string>{ "dims", "values" } && grid.a[0].a.size() == 2 && grid.a[1].a.size() == d.grid.element_count(), [&] { return "grid: " + pbt::show(val(7)); });
    for (std::uint32_t i = 0; i < d.grid.element_count(); ++i) s.check(grid.a[1].a[i].s == std::to_string(d.grid[i]), "grid value");
}
#endif
