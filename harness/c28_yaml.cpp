// C28: YAML round trip of plain values (see known-findings.txt for the characters the format does not carry)
#include "ser_roundtrip.hpp"
#include <IoSerialiserYAML.hpp>
using namespace ser;
namespace ser {
struct YVecs {
    std::vector<int8_t>      v8;
    std::vector<int16_t>     v16;
    std::vector<int32_t>     v32;
    std::vector<int64_t>     v64;
    std::vector<float>       vf;
    std::vector<double>      vd;
    std::vector<std::string> vs;
    std::array<int32_t, 3>   a3{};
    std::array<double, 2>    ad{};
    int32_t                  after{};
};
struct LongNames {
    bool        boolValueWithASuperAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser = false;
    int32_t     intValueWithAnEvenLongerAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser{};
    double      doubleValueWithAnEvenLongerAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser{};
    std::string stringValueWithAnEvenLongerAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser;
    Leaf        leaf;
    Annotated<double, length<metre>, "a length"> annotatedValueWithALongAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser;
    int32_t     after{};
};
struct YEverything {
    Prim                     prim;
    YVecs                    vecs;
    Tree                     tree;
    StrMaps                  maps;
    Annotated<double, length<metre>, "a length"> len;
    std::unique_ptr<Prim>    p;
    std::string              end;
    Mid                      last;
};
} // namespace ser
ENABLE_REFLECTION_FOR(ser::YVecs, v8, v16, v32, v64, vf, vd, vs, a3, ad, after)
ENABLE_REFLECTION_FOR(ser::LongNames, boolValueWithASuperAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser, intValueWithAnEvenLongerAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser, doubleValueWithAnEvenLongerAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser, stringValueWithAnEvenLongerAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser, leaf, annotatedValueWithALongAnnoyinglyAndAbsurdlyLongNameJustHereToBreakTheSerialiser, after)
ENABLE_REFLECTION_FOR(ser::YEverything, prim, vecs, tree, maps, len, p, end, last)

static Opt opt(bool containersOfStrings) {
    Opt o{};
    o.anyByte     = false;
    o.anyChar     = false;
    for (int c = 1; c < 256; ++c)
        if (c != '#' && c != '\n') o.alphabet += static_cast<char>(c);
    o.alphabet += "abcdefghijklmnopqrstuvwxyz      :::,,,\"\"\"---[]{}";
    o.keyAlphabet = o.arrAlphabet = "abcXYZ019_./+-";
    o.maxStr      = 30;
    o.emptyStr    = !containersOfStrings;
    return o;
}
static const Opt oStr = opt(true), oAny = opt(false);
#ifndef PART
#define PART 0
#endif
static RtOpt ro() {
    RtOpt r{};
    r.textCmp     = true;
    r.lenientInfo = false;
    r.prefix      = false;
    return r;
}
template<typename T>
static void rt(pbt::Src &s, const Opt &o) {
    // units are written as comments only: annotated fields are read without unit check
    if constexpr (std::is_same_v<T, Annot> || std::is_same_v<T, LongNames> || std::is_same_v<T, YEverything>) {
        if (s.coin()) return roundtripOne<YAML, ProtocolCheck::IGNORE, true, T>(s, o, ro());
        return roundtripOne<YAML, ProtocolCheck::IGNORE, false, T>(s, o, ro());
    } else return roundtrip<YAML, T>(s, o, ro());
}
#define RT(name, T, opts, q, t) \
    PROPERTY(name, q, t, "round trip of a random " #T " into a target with other content, all checking modes; non-trivial = differs from the default and dirty target") { rt<T>(s, opts); }
#if PART == 0
template<typename T>
static bool lost(const T &v) {
    IoBuffer b;
    write<YAML, true>(b, v);
    T got{};
    try {
        opencmw::deserialise<YAML, ProtocolCheck::IGNORE>(b, got);
    } catch (...) {
        return true;
    }
    return !eq(v, got);
}
static pbt::RegProbe p1("string-with-hash", [] { Prim v{}; v.s = "a # b"; v.c = 'x'; return lost(v); });
static pbt::RegProbe p2("string-with-line-break", [] { Prim v{}; v.s = "a\nb: c"; v.c = 'x'; return lost(v); });
static pbt::RegProbe p3("list-of-strings-with-comma", [] { YVecs v{}; v.vs = { "a,b", "c" }; return lost(v); });
static pbt::RegProbe p4("list-with-empty-string", [] { YVecs v{}; v.vs = { "a", "", "c" }; return lost(v); });
static pbt::RegProbe p5("map-key-with-colon", [] { StrMaps v{}; v.mi = { { "a:b", 1 } }; return lost(v); });
static pbt::RegProbe p6("set-of-strings-with-comma", [] { Sets v{}; v.ss = { "a,b" }; return lost(v); });
RT(primitives, Prim, oAny, 40000, 500000)
RT(vectors, YVecs, oStr, 20000, 300000)
RT(sets, Sets, oStr, 20000, 300000)
#elif PART == 1
RT(maps, StrMaps, oStr, 20000, 300000)
RT(nested, Tree, oAny, 20000, 300000)
RT(pointers, Ptrs, oAny, 20000, 300000)
#else
RT(annotated, Annot, oAny, 20000, 300000)
RT(long_names, LongNames, oAny, 15000, 300000)
RT(everything, YEverything, oStr, 10000, 200000)
PROPERTY(documents, 15000, 200000, "several documents in one buffer, read one after the other; non-trivial = at least two") {
    const auto       n = 1 + s.below(4);
    std::vector<Mid> sent(n);
    IoBuffer         b;
    for (auto &m : sent) {
        gen(s, m, oAny);
        s.note(show(m));
        write<YAML, true>(b, m);
    }
    for (auto &m : sent) {
        Mid got{};
        try {
            opencmw::deserialise<YAML, ProtocolCheck::ALWAYS>(b, got);
        } catch (...) {
            throw pbt::Fail{ "throws " + describeException() + "\n" + text(b) };
        }
        s.check(eq(m, got), [&] { return "got " + show(got) + " expected " + show(m) + "\n" + text(b); });
    }
    s.check(b.position() == b.size(), "not read to the end");
    s.nontrivial(n > 1);
}
// what one may write by hand: comments, empty lines, fields in another order, unquoted strings, other spacing
PROPERTY(hand_written, 40000, 500000, "hand-written document of a nested object: shuffled fields, comments, blank lines, trailing spaces, unknown fields, quoted and unquoted strings, block and flow lists; non-trivial = reordered or with extra lines") {
    Mid want{};
    Opt o = oAny;
    o.alphabet = "abcXYZ019_";
    o.emptyStr = false;
    gen(s, want, o);
    std::size_t extra = 0;
    const auto noise = [&](const std::string &indent) {
        switch (s.below(8)) {
        case 0: ++extra; return std::string("\n");
        case 1: ++extra; return indent + "# a comment: with colon\n";
        case 2: ++extra; return indent + "unknown: 12 # more\n";
        case 3: ++extra; return indent + "unknownList:  # list\n" + indent + "  - 1\n" + indent + "  - 2\n";
        case 4: ++extra; return indent + "unknownStruct:\n" + indent + "  x: 77\n" + indent + "  leaf: 5\n";
        default: return std::string();
        }
    };
    const auto eol = [&] { return std::string(s.below(3), ' ') + (s.coin() ? "# c\n" : "\n"); };
    const auto join = [&](std::vector<std::string> parts, const std::string &indent) {
        for (std::size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[s.below(i)]);
        std::string r;
        for (auto &p : parts) r += noise(indent) + p;
        return r + noise(indent);
    };
    std::string v;
    if (s.coin() || want.leaf.v.empty()) {
        v = "    v: [";
        for (std::size_t i = 0; i < want.leaf.v.size(); ++i) v += (i ? (s.coin() ? ", " : ",") : "") + std::format("{}", want.leaf.v[i]);
        v += "]" + eol();
    } else {
        v = "    v: # list\n";
        for (auto e : want.leaf.v) v += "      - " + std::format("{}", e) + "\n";
    }
    std::string doc = "---\n" + (s.coin() ? "ser::Mid:\n" : std::string(typeName<Mid>) + ":\n");
    doc += join({ "  y: " + std::format("{}", want.y) + eol(), "  z: " + std::to_string(want.z) + eol(),
                        "  leaf:\n" + join({ "    x: " + std::to_string(want.leaf.x) + eol(), "    n: " + (s.coin() ? "\"" + want.leaf.n + "\"" : want.leaf.n) + eol(), v }, "    ") },
            "  ");
    doc += s.coin() ? "...\n" : "";
    s.note(pbt::show(doc, 600));
    IoBuffer b;
    b.put<IoBuffer::MetaInfo::WITHOUT>(std::string_view(doc));
    Mid got{};
    gen(s, got, oAny);
    try {
        opencmw::deserialise<YAML, ProtocolCheck::IGNORE>(b, got);
    } catch (...) {
        throw pbt::Fail{ "reading throws " + describeException() + "\n" + doc };
    }
    s.check(eq(want, got), [&] { return "got " + show(got) + " expected " + show(want) + "\n" + doc; });
    s.nontrivial(extra > 0);
}
#endif
