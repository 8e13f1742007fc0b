// independent strict JSON (RFC 8259) document model, parser and renderer
#pragma once
#include <charconv>
#include <cmath>
#include <map>
#include <string>
#include <string_view>
#include <vector>
namespace jref {
struct Val {
    enum Kind { Null, Bool, Num, Str, Arr, Obj } k = Null;
    bool                                     b = false;
    std::string                              s; // string content or number text
    std::vector<Val>                         a;
    std::vector<std::string>                 keys; // of an object; values in a
};
struct Bad { std::string what; std::size_t pos; };
inline void utf8(std::string &r, unsigned c) {
    if (c < 0x80) r += char(c);
    else if (c < 0x800) (r += char(0xC0 | (c >> 6))) += char(0x80 | (c & 0x3F));
    else if (c < 0x10000) ((r += char(0xE0 | (c >> 12))) += char(0x80 | ((c >> 6) & 0x3F))) += char(0x80 | (c & 0x3F));
    else (((r += char(0xF0 | (c >> 18))) += char(0x80 | ((c >> 12) & 0x3F))) += char(0x80 | ((c >> 6) & 0x3F))) += char(0x80 | (c & 0x3F));
}
struct Parser {
    std::string_view t;
    std::size_t      p = 0;
    bool             allowNonFinite = false;
    [[noreturn]] void bad(std::string w) { throw Bad{ std::move(w), p }; }
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
    char peek() { if (p >= t.size()) bad("unexpected end"); return t[p]; }
    unsigned hex4() {
        unsigned c = 0;
        for (int i = 0; i < 4; ++i) {
            const char h = peek();
            ++p;
            c = c * 16 + (h >= '0' && h <= '9' ? unsigned(h - '0') : h >= 'a' && h <= 'f' ? unsigned(h - 'a' + 10) : h >= 'A' && h <= 'F' ? unsigned(h - 'A' + 10) : (bad("hex"), 0u));
        }
        return c;
    }
    std::string str() {
        if (peek() != '"') bad("string expected");
        ++p;
        std::string r;
        while (true) {
            const char c = peek();
            ++p;
            if (c == '"') return r;
            if (static_cast<unsigned char>(c) < 0x20) bad("control character in string");
            if (c != '\\') { r += c; continue; }
            const char e = peek();
            ++p;
            switch (e) {
            case '"': case '\\': case '/': r += e; break;
            case 'b': r += '\b'; break;
            case 'f': r += '\f'; break;
            case 'n': r += '\n'; break;
            case 'r': r += '\r'; break;
            case 't': r += '\t'; break;
            case 'u': {
                unsigned c1 = hex4();
                if (c1 >= 0xD800 && c1 < 0xDC00 && t.substr(p, 2) == "\\u") {
                    p += 2;
                    const unsigned c2 = hex4();
                    c1 = 0x10000 + ((c1 - 0xD800) << 10) + (c2 - 0xDC00);
                }
                utf8(r, c1);
                break;
            }
            default: bad("escape");
            }
        }
    }
    Val value() {
        Val v;
        const char c = peek();
        if (c == '"') { v.k = Val::Str; v.s = str(); }
        else if (c == '{') {
            v.k = Val::Obj;
            ++p; ws();
            if (peek() == '}') { ++p; return v; }
            while (true) {
                ws();
                std::string k = str();
                ws();
                if (peek() != ':') bad("colon expected");
                ++p; ws();
                v.keys.push_back(std::move(k));
                v.a.push_back(value());
                ws();
                const char n = peek();
                ++p;
                if (n == '}') return v;
                if (n != ',') bad("comma expected in object");
            }
        } else if (c == '[') {
            v.k = Val::Arr;
            ++p; ws();
            if (peek() == ']') { ++p; return v; }
            while (true) {
                ws();
                v.a.push_back(value());
                ws();
                const char n = peek();
                ++p;
                if (n == ']') return v;
                if (n != ',') bad("comma expected in array");
            }
        } else if (t.substr(p, 4) == "true") { v.k = Val::Bool; v.b = true; p += 4; }
        else if (t.substr(p, 5) == "false") { v.k = Val::Bool; p += 5; }
        else if (t.substr(p, 4) == "null") { p += 4; }
        else {
            v.k = Val::Num;
            const auto start = p;
            if (p < t.size() && t[p] == '-') ++p;
            if (allowNonFinite && (t.substr(p, 3) == "inf" || t.substr(p, 3) == "nan")) { p += 3; v.s = t.substr(start, p - start); return v; }
            auto digits = [&] { const auto b = p; while (p < t.size() && t[p] >= '0' && t[p] <= '9') ++p; if (p == b) bad("digit expected"); };
            if (p < t.size() && t[p] == '0') ++p; else digits();
            if (p < t.size() && t[p] == '.') { ++p; digits(); }
            if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; digits(); }
            v.s = t.substr(start, p - start);
        }
        return v;
    }
    Val document() { ws(); Val v = value(); ws(); if (p != t.size()) bad("trailing characters"); return v; }
};
inline bool operator==(const Val &x, const Val &y) {
    if (x.k != y.k) return false;
    switch (x.k) {
    case Val::Null: return true;
    case Val::Bool: return x.b == y.b;
    case Val::Num:
    case Val::Str: return x.s == y.s;
    case Val::Arr: return x.a == y.a;
    default: return x.keys == y.keys && x.a == y.a;
    }
}
inline std::string quote(std::string_view s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') (r += '\\') += char(c);
        else if (c < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
} // namespace jref
