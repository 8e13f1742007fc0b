// C02: percent-encoding of URI components is exact and reversible for every byte string.
#include <URI.hpp>
#include "uri_ref.hpp"
using namespace opencmw;

template<uri_check CHECK>
static void checkDecode(pbt::Src &s, const std::string &t) {
    const auto        want = ref::decode(t);
    std::vector<char> v(t.begin(), t.end()); // exact-size, not zero-terminated
    v.shrink_to_fit();
    std::string got;
    bool        threw = false;
    try {
        got = URI<CHECK>::decode(std::string_view(v.data(), v.size()));
    } catch (const URISyntaxException &) {
        threw = true;
    }
    if (CHECK == STRICT) s.check(threw == want.malformed, [&] { return "strict decode(" + pbt::show(t) + ") " + (threw ? "throws" : "does not throw") + " although the text has " + (want.malformed ? "a" : "no") + " malformed escape"; });
    else s.check(!threw, [&] { return "relaxed decode(" + pbt::show(t) + ") throws"; });
    if (!threw) s.check(got == want.text, [&] { return "decode(" + pbt::show(t) + ") = " + pbt::show(got) + ", expected " + pbt::show(want.text); });
}
template<uri_check CHECK>
static void checkEncode(pbt::Src &s, const std::string &t) {
    std::vector<char> v(t.begin(), t.end());
    v.shrink_to_fit();
    const auto e = URI<CHECK>::encode(std::string_view(v.data(), v.size()));
    s.check(e == ref::encode(t), [&] { return "encode(" + pbt::show(t) + ") = " + pbt::show(e) + ", expected " + pbt::show(ref::encode(t)); });
    const auto d = URI<CHECK>::decode(e);
    s.check(d == t, [&] { return "decode(encode(" + pbt::show(t) + ")) = " + pbt::show(d); });
}

PROPERTY(encode_roundtrip, 300000, 1500000, "byte strings up to 300 bytes; non-trivial = contains a byte outside the unreserved set") {
    auto t = s.bytesStr(s.chance(1, 20) ? 300 : 30);
    s.nontrivial(!std::all_of(t.begin(), t.end(), ref::unreserved));
    s.note("text=" + pbt::show(t, 80));
    checkEncode<STRICT>(s, t);
    checkEncode<RELAXED>(s, t);
}
PROPERTY(decode_any, 300000, 1500000, "texts mixing valid escapes (both letter cases), truncated and malformed escapes and literals; non-trivial = contains a '%'") {
    std::string t;
    for (std::size_t n = s.below(12); n > 0; --n) switch (s.weighted({ 3, 3, 2, 1 })) {
        case 0: t += char(s.below(256)); break;
        case 1: {
            static const std::string H = "0123456789abcdefABCDEF";
            t += '%';
            t += H[s.below(22)];
            t += H[s.below(22)];
            break;
        }
        case 2: t += s.oneOf<const char *>({ "%", "%%", "%a", "%g0", "%0g", "%-1", "%+1", "% 1", "%0x", "%x0", "%1 ", "%\t1" }); break;
        default: t += ref::genFrom(s, "ab%=&/", 1, 4);
        }
    s.nontrivial(t.find('%') != std::string::npos);
    s.label(ref::decode(t).malformed ? "malformed" : "well-formed");
    s.note("text=" + pbt::show(t, 80));
    checkDecode<STRICT>(s, t);
    checkDecode<RELAXED>(s, t);
}
PROPERTY(all_escapes, 256, 0, "for each first byte b: encode of b and of every pair (b, x); decode of every '%' b x triple and every truncation", .exhaustive = true) {
    const char b = char(s.draw(~0ull));
    s.nontrivial();
    checkEncode<STRICT>(s, std::string(1, b));
    checkDecode<STRICT>(s, std::string{ '%', b });
    checkDecode<RELAXED>(s, std::string{ '%', b });
    for (int x = 0; x < 256; ++x) {
        checkEncode<STRICT>(s, std::string{ b, char(x) });
        checkDecode<STRICT>(s, std::string{ '%', b, char(x) });
        checkDecode<RELAXED>(s, std::string{ '%', b, char(x) });
        checkDecode<STRICT>(s, std::string{ 'a', '%', b, char(x), 'F' });
    }
}
