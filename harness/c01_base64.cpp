// C01: the base64 codec is RFC 4648 for every byte string and rejects exactly the non-base64 texts.
#include <majordomo/base64pp.hpp>
#include "pbt.hpp"
using pbt::Src;

namespace ref { // independent bit-stream reference
const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string       encode(const std::string &in) {
    std::string out;
    std::size_t bits = in.size() * 8;
    for (std::size_t b = 0; b < bits; b += 6) {
        unsigned v = 0;
        for (std::size_t k = 0; k < 6; ++k) {
            unsigned bit = b + k < bits ? (static_cast<unsigned char>(in[(b + k) / 8]) >> (7 - (b + k) % 8)) & 1u : 0u;
            v            = v * 2 + bit;
        }
        out += A[v];
    }
    while (out.size() % 4) out += '=';
    return out;
}
bool valid(const std::string &s) { // the RFC 4648 section 4 grammar, padding mandatory
    if (s.size() % 4) return false;
    std::size_t n = s.size();
    std::size_t pad = 0;
    while (pad < 2 && n > 0 && s[n - 1] == '=') --n, ++pad;
    for (std::size_t i = 0; i < n; ++i)
        if (A.find(s[i]) == std::string::npos) return false;
    return true;
}
std::string decode(const std::string &s) {
    std::vector<int> bits;
    for (char c : s) {
        if (c == '=') break;
        auto v = A.find(c);
        for (int k = 5; k >= 0; --k) bits.push_back(int((v >> k) & 1));
    }
    std::string out;
    for (std::size_t i = 0; i + 8 <= bits.size(); i += 8) {
        int v = 0;
        for (std::size_t k = 0; k < 8; ++k) v = v * 2 + bits[i + k];
        out += char(v);
    }
    return out;
}
} // namespace ref

static std::span<const std::uint8_t> sp(const std::vector<std::uint8_t> &s) { return { s.data(), s.size() }; }

static void checkEncode(Src &s, const std::string &in) {
    // exact-size heap copy so that over-reads are caught
    std::vector<std::uint8_t> v(in.begin(), in.end());
    v.shrink_to_fit();
    const auto e = base64pp::encode(sp(v));
    s.check(e == ref::encode(in), [&] { return "encode(" + pbt::show(in) + ") = " + pbt::show(e) + ", RFC 4648 says " + pbt::show(ref::encode(in)); });
    std::vector<char> ev(e.begin(), e.end());
    const auto d = base64pp::decode(std::string_view(ev.data(), ev.size()));
    s.check(d.has_value(), [&] { return "decode rejects " + pbt::show(e); });
    s.check(std::string(d->begin(), d->end()) == in, [&] { return "decode(encode(" + pbt::show(in) + ")) = " + pbt::show(std::string(d->begin(), d->end())); });
}
static void checkDecode(Src &s, const std::string &t) {
    std::vector<char> tv(t.begin(), t.end());
    tv.shrink_to_fit();
    const auto d = base64pp::decode(std::string_view(tv.data(), tv.size()));
    const bool v = ref::valid(t);
    s.check(d.has_value() == v, [&] { return "decode(" + pbt::show(t) + ") is " + (d ? "accepted" : "rejected") + ", the grammar says " + (v ? "valid" : "invalid"); });
    if (v) {
        const std::string r(d->begin(), d->end());
        s.check(r == ref::decode(t), [&] { return "decode(" + pbt::show(t) + ") = " + pbt::show(r) + " expected " + pbt::show(ref::decode(t)); });
    }
}

PROPERTY(roundtrip, 400000, 6000000, "byte strings of length 0..4100 (uniform bytes, runs, text); non-trivial = at least one byte") {
    std::string in;
    const auto  kind = s.weighted({ 4, 2, 2, 1 });
    std::size_t n    = kind == 3 ? s.below(4101) : s.size(300);
    for (std::size_t i = 0; i < n; ++i) in += kind == 1 ? char(s.oneOf<int>({ 0, 255, 128, 127 })) : kind == 2 ? char(32 + s.below(95)) : char(s.below(256));
    s.nontrivial(!in.empty());
    s.label("len%3=" + std::to_string(in.size() % 3));
    s.note("in=" + pbt::show(in, 60));
    checkEncode(s, in);
}

PROPERTY(decode_any, 600000, 10000000, "texts: valid encodings with up to 3 mutated/inserted/deleted characters, or characters around the alphabet edges; non-trivial = length is a positive multiple of 4") {
    std::string t;
    static const std::string edge = "ABZYaz09+/=@[`{|}~\x7f\x80\xff\n -_.:,";
    if (s.coin()) {
        t = ref::encode(s.bytesStr(60));
        for (std::size_t k = s.below(4); k > 0; --k) {
            const auto op = s.below(5);
            const auto p  = s.below(t.size() + 1);
            const char c  = s.coin() ? edge[s.below(edge.size())] : char(s.below(256));
            if (op == 0) t.insert(t.begin() + long(p), c);
            else if (op == 1 && p < t.size()) t.erase(p, 1);
            else if (p < t.size()) t[p] = c;
            else if (!t.empty()) t[t.size() - 1] = c;
        }
    } else {
        const std::size_t n = s.chance(3, 4) ? 4 * s.below(12) : s.below(50);
        for (std::size_t i = 0; i < n; ++i) t += s.chance(4, 5) ? ref::A[s.below(64)] : edge[s.below(edge.size())];
        if (n && s.coin()) t[n - 1] = '=';
        if (n > 1 && s.chance(1, 3)) t[n - 2] = '=';
    }
    s.nontrivial(!t.empty() && t.size() % 4 == 0);
    s.label(ref::valid(t) ? "valid" : "invalid");
    s.note("text=" + pbt::show(t, 60));
    checkDecode(s, t);
}

PROPERTY(exhaustive_small, 257 + 256 + 4096, 0, "all byte strings of length <= 2, all quads with any byte in each position of a valid quad, all 64x64 quad endings", .exhaustive = true) {
    const auto i = s.draw(~0ull);
    s.nontrivial();
    if (i == 0) checkEncode(s, "");
    else if (i <= 256) {
        checkEncode(s, std::string(1, char(i - 1)));
        for (int j = 0; j < 256; ++j) checkEncode(s, std::string{ char(i - 1), char(j) });
    } else if (i < 257 + 256) {
        const char c = char(i - 257);
        for (int pos = 0; pos < 8; ++pos)
            for (const char *base : { "QUJDREVG", "QUJDREU=", "QUJDRA==", "////++++" }) {
                std::string t = base;
                t[std::size_t(pos)] = c;
                checkDecode(s, t);
            }
    } else {
        const auto k = i - 513;
        for (const char *tail : { "==", "=A", "A=", "AA", "8/" }) checkDecode(s, std::string{ ref::A[k / 64], ref::A[k % 64] } + tail);
    }
}
