// C24: IoBuffer is a byte queue: everything written is read back in order, whatever capacity, copy/move/wrap history; reads stay inside.
#include "pbt.hpp"
#include <opencmw.hpp>
#include <IoBuffer.hpp>
#include <cstring>
#include <optional>
using opencmw::IoBuffer;

struct CountingResource : std::pmr::memory_resource { // not the realloc one; detects wrong sizes and foreign pointers
    std::map<void *, std::size_t> live;
    bool                          bad = false;
    void *do_allocate(std::size_t n, std::size_t) override {
        void *p = std::malloc(n ? n : 1);
        live[p] = n;
        return p;
    }
    void do_deallocate(void *p, std::size_t n, std::size_t) override {
        const auto it = live.find(p);
        if (it == live.end() || it->second != n) bad = true;
        else {
            live.erase(it);
            std::free(p);
        }
    }
    bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
using Bytes = std::vector<std::uint8_t>;
template<typename T>
static void append(Bytes &b, const T &v) {
    const auto *p = reinterpret_cast<const std::uint8_t *>(&v);
    b.insert(b.end(), p, p + sizeof(T));
}
static void appendStr(Bytes &b, const std::string &v) {
    append(b, std::int32_t(v.size() + 1));
    b.insert(b.end(), v.begin(), v.end());
    b.push_back(0);
}
enum Kind { I8, I16, I32, I64, U8, F32, F64, BOOL, CH, STR, VI32, VF64, VSTR, VBOOL, AI16, ASTR, ABOOL, VI8, NK };
struct Item {
    int                      kind;
    std::int64_t             i = 0;
    double                   d = 0;
    std::string              str;
    std::vector<std::int64_t> vi;
    std::vector<double>      vd;
    std::vector<std::string> vs;
};
static Item genItem(pbt::Src &s) {
    Item it{ int(s.below(NK)) };
    it.i = s.integer<std::int64_t>();
    it.d = s.floating<double>();
    auto vecLen = [&] { return s.chance(1, 20) ? s.below(300) : s.below(8); };
    switch (it.kind) {
    case STR: it.str = s.bytesStr(s.chance(1, 10) ? 300 : 20); break;
    case VI32: case VBOOL: case VI8: for (auto n = vecLen(); n > 0; --n) it.vi.push_back(s.integer<std::int32_t>()); break;
    case VF64: for (auto n = vecLen(); n > 0; --n) it.vd.push_back(s.floating<double>()); break;
    case VSTR: for (auto n = vecLen(); n > 0; --n) it.vs.push_back(s.bytesStr(12)); break;
    case AI16: case ABOOL: for (int n = 0; n < 5; ++n) it.vi.push_back(s.integer<std::int16_t>()); break;
    case ASTR: for (int n = 0; n < 3; ++n) it.vs.push_back(s.bytesStr(30)); break;
    default:;
    }
    return it;
}
static void put(IoBuffer &b, Bytes &m, const Item &it) {
    auto num = [&](auto v) { b.put(v); append(m, v); };
    switch (it.kind) {
    case I8: num(std::int8_t(it.i)); break;
    case I16: num(std::int16_t(it.i)); break;
    case I32: num(std::int32_t(it.i)); break;
    case I64: num(std::int64_t(it.i)); break;
    case U8: num(std::uint8_t(it.i)); break;
    case F32: num(float(it.d)); break;
    case F64: num(it.d); break;
    case BOOL: num(bool(it.i & 1)); break;
    case CH: num(char(it.i)); break;
    case STR: if (it.i & 1) b.put(it.str); else b.put(std::string_view(it.str)); appendStr(m, it.str); break;
    case VI32: { std::vector<std::int32_t> v(it.vi.begin(), it.vi.end()); b.put(v); append(m, std::int32_t(v.size())); for (auto x : v) append(m, x); break; }
    case VI8: { std::vector<std::int8_t> v; for (auto x : it.vi) v.push_back(std::int8_t(x)); b.put(v); append(m, std::int32_t(v.size())); for (auto x : v) append(m, x); break; }
    case VF64: b.put(it.vd); append(m, std::int32_t(it.vd.size())); for (auto x : it.vd) append(m, x); break;
    case VSTR: b.put(it.vs); append(m, std::int32_t(it.vs.size())); for (auto &x : it.vs) appendStr(m, x); break;
    case VBOOL: { std::vector<bool> v; for (auto x : it.vi) v.push_back(x & 1); b.put(v); append(m, std::int32_t(v.size())); for (bool x : v) append(m, x); break; }
    case AI16: { std::array<std::int16_t, 5> v; for (int k = 0; k < 5; ++k) v[std::size_t(k)] = std::int16_t(it.vi[std::size_t(k)]); b.put(v); append(m, std::int32_t(5)); for (auto x : v) append(m, x); break; }
    case ABOOL: { std::array<bool, 5> v; for (int k = 0; k < 5; ++k) v[std::size_t(k)] = it.vi[std::size_t(k)] & 1; b.put(v); append(m, std::int32_t(5)); for (auto x : v) append(m, x); break; }
    default: { std::array<std::string, 3> v; for (int k = 0; k < 3; ++k) v[std::size_t(k)] = it.vs[std::size_t(k)]; b.put(v); append(m, std::int32_t(3)); for (auto &x : v) appendStr(m, x); }
    }
}
template<typename T>
static bool same(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
static bool getBack(IoBuffer &b, const Item &it, bool dirtyTarget) {
    switch (it.kind) {
    case I8: return b.get<std::int8_t>() == std::int8_t(it.i);
    case I16: return b.get<std::int16_t>() == std::int16_t(it.i);
    case I32: return b.get<std::int32_t>() == std::int32_t(it.i);
    case I64: return b.get<std::int64_t>() == it.i;
    case U8: return b.get<std::uint8_t>() == std::uint8_t(it.i);
    case F32: return same(b.get<float>(), float(it.d));
    case F64: return same(b.get<double>(), it.d);
    case BOOL: return b.get<bool>() == bool(it.i & 1);
    case CH: return b.get<char>() == char(it.i);
    case STR: return (it.i & 2) ? b.get<std::string>() == it.str : b.get<std::string_view>() == it.str;
    case VI32: { std::vector<std::int32_t> v; if (dirtyTarget) v.assign(9, 77); b.getArray(v); return v == std::vector<std::int32_t>(it.vi.begin(), it.vi.end()); }
    case VI8: { const auto v = b.getArray<std::int8_t>(); if (v.size() != it.vi.size()) return false; for (std::size_t k = 0; k < v.size(); ++k) if (v[k] != std::int8_t(it.vi[k])) return false; return true; }
    case VF64: { std::vector<double> v; if (dirtyTarget) v.assign(9, 77); b.getArray(v); return v.size() == it.vd.size() && (v.empty() || std::memcmp(v.data(), it.vd.data(), v.size() * 8) == 0); }
    case VSTR: { std::vector<std::string> v; if (dirtyTarget) v.assign(9, "old"); if (it.i & 1) b.getArray(v); else v = b.get<std::vector<std::string>>(); return v == it.vs; }
    case VBOOL: { std::vector<bool> v; if (dirtyTarget) v.assign(9, true); b.getArray(v); if (v.size() != it.vi.size()) return false; for (std::size_t k = 0; k < v.size(); ++k) if (v[k] != bool(it.vi[k] & 1)) return false; return true; }
    case AI16: { const auto v = b.getArray<std::int16_t, 5>(); for (std::size_t k = 0; k < 5; ++k) if (v[k] != std::int16_t(it.vi[k])) return false; return true; }
    case ABOOL: { std::array<bool, 5> v{}; b.getArray(v); for (std::size_t k = 0; k < 5; ++k) if (v[k] != bool(it.vi[k] & 1)) return false; return true; }
    default: { const auto v = b.getArray<std::string, 3>(); for (std::size_t k = 0; k < 3; ++k) if (v[k] != it.vs[k]) return false; return true; }
    }
}
static void same(pbt::Src &s, const IoBuffer &b, const Bytes &m, const char *when) {
    s.check(b.size() == m.size() && b.empty() == m.empty() && b.capacity() >= b.size(), [&] { return std::string("size ") + std::to_string(b.size()) + " (capacity " + std::to_string(b.capacity()) + "), expected " + std::to_string(m.size()) + " after " + when; });
    s.check(m.empty() || std::memcmp(b.data(), m.data(), m.size()) == 0, [&] { return std::string("content differs after ") + when; });
    if (b.data() != nullptr) s.check(b.asString() == std::string_view(reinterpret_cast<const char *>(m.data()), m.size()), "asString");
}
PROPERTY(write_read, 80000, 800000, "1-20 values of 18 kinds written to one buffer (several initial capacities and memory resources), byte layout and read-back; non-trivial = at least one growth and one array or string") {
    CountingResource res;
    {
        const auto cap = s.oneOf<std::size_t>({ 0, 0, 1, 3, 8, 64, 4096 });
        const bool custom = s.coin();
        IoBuffer b = custom ? IoBuffer(cap, std::pmr::polymorphic_allocator<std::uint8_t>(&res)) : IoBuffer(cap);
        Bytes m;
        std::vector<Item> items;
        const auto n = 1 + s.below(20);
        bool grown = false, arr = false;
        for (std::size_t k = 0; k < n; ++k) {
            items.push_back(genItem(s));
            const auto before = b.capacity();
            put(b, m, items.back());
            grown = grown || b.capacity() > before;
            arr = arr || items.back().kind >= STR;
            same(s, b, m, "put");
            if (s.chance(1, 8)) { b.shrink_to_fit(); s.check(b.capacity() == b.size(), "shrink_to_fit"); same(s, b, m, "shrink_to_fit"); }
            if (s.chance(1, 8)) { const auto c = s.below(200); b.reserve(c); s.check(b.capacity() >= c, "reserve"); same(s, b, m, "reserve"); }
            if (s.chance(1, 12)) { const auto c = s.below(200); b.reserve_spare(c); s.check(b.capacity() >= b.size() + c, "reserve_spare"); same(s, b, m, "reserve_spare"); }
        }
        s.nontrivial(grown && arr);
        s.note(std::to_string(n) + " values, " + std::to_string(m.size()) + " bytes, initial capacity " + std::to_string(cap));
        std::size_t offset = 0;
        for (std::size_t k = 0; k < n; ++k) {
            s.check(b.position() == offset, "read position");
            s.check(getBack(b, items[k], s.coin()), [&] { return "value " + std::to_string(k) + " of kind " + std::to_string(items[k].kind) + " read back differently"; });
            Bytes one;
            IoBuffer tmp;
            put(tmp, one, items[k]);
            offset += one.size();
        }
        s.check(b.position() == b.size(), "position after reading everything");
        b.reset();
        s.check(b.position() == 0 && getBack(b, items[0], false), "reading again after reset");
        b.clear();
        s.check(b.size() == 0 && b.position() == 0, "clear");
    }
    s.check(!res.bad, "memory returned to the allocator with a wrong size or twice");
    s.check(res.live.empty(), "memory leaked");
}
static std::vector<void *> released;
PROPERTY(histories, 80000, 800000, "2-24 operations on a pool of 3 buffers (default, pmr, wrapped owning/non-owning): put, copy, move, assign, self-assign, swap, wrap, clear, shrink, destroy; non-trivial = a transfer between buffers of different kind with content") {
    CountingResource res;
    std::vector<std::unique_ptr<Bytes>> external; // memory the buffers do not own
    bool transfer = false;
    {
        struct Slot { std::optional<IoBuffer> b; Bytes m; int kind = 0; std::size_t pos = 0; };
        std::array<Slot, 3> pool;
        auto fresh = [&](Slot &x) {
            x.kind = int(s.below(4));
            x.m.clear();
            x.pos = 0;
            auto content = [&] { const auto t = s.bytesStr(40); return Bytes(t.begin(), t.end()); };
            switch (x.kind) {
            case 0: if (s.coin()) x.b.emplace(); else { x.m = content(); x.b.emplace(reinterpret_cast<const char *>(x.m.data()), x.m.size()); } break;
            case 1: x.b.emplace(s.below(20), std::pmr::polymorphic_allocator<std::uint8_t>(&res)); break;
            case 2: { // owning wrapper of malloc'ed memory
                x.m = content();
                if (x.m.empty()) x.m.push_back(1);
                auto *p = static_cast<std::uint8_t *>(std::malloc(x.m.size()));
                std::memcpy(p, x.m.data(), x.m.size());
                if (s.coin()) x.b.emplace(p, x.m.size(), true); else x.b.emplace(std::span<std::uint8_t>(p, x.m.size()), true);
                break;
            }
            default:
                x.m = content();
                external.push_back(std::make_unique<Bytes>(x.m));
                if (s.coin()) x.b.emplace(std::span<std::uint8_t>(*external.back())); else x.b.emplace(external.back()->data(), x.m.size(), false);
            }
        };
        for (auto &x : pool) fresh(x);
        for (std::size_t n = 2 + s.below(23); n > 0; --n) {
            const auto i = s.below(3), j = s.below(3);
            auto &a = pool[i];
            auto &b = pool[j];
            const bool growable = a.kind < 2 || a.kind == 4;
            switch (s.below(10)) {
            case 0: case 1: if (growable) { put(*a.b, a.m, genItem(s)); } else if (!a.m.empty()) { const auto k = s.below(a.m.size()); (*a.b)[k] = a.m[k] = std::uint8_t(s.below(256)); } break;
            case 2: s.note("copy-assign " + std::to_string(j) + "->" + std::to_string(i)); transfer = transfer || (a.kind != b.kind && !b.m.empty()); *a.b = *b.b; a.m = b.m; if (i != j) { if (b.kind >= 2) a.kind = 4; else a.kind = b.kind; } a.pos = b.pos; if (i == j && a.kind >= 2) a.kind = 4; break;
            case 3: if (i != j) { s.note("move-assign"); transfer = transfer || (a.kind != b.kind && !b.m.empty()); *a.b = std::move(*b.b); a.m = b.m; a.kind = b.kind; a.pos = b.pos; if (s.coin()) { b.b->clear(); b.m.clear(); b.pos = 0; if (b.kind == 2 || b.kind == 3) fresh(b); else { same(s, *b.b, b.m, "move away"); } } else fresh(b); } break;
            case 4: { IoBuffer c(*a.b); same(s, c, a.m, "copy construction"); s.check(c.position() == a.pos, "position of a copy"); Bytes mc = a.m; put(c, mc, genItem(s)); same(s, c, mc, "growing a copy"); same(s, *a.b, a.m, "growing the copy of it"); break; }
            case 5: { IoBuffer c(std::move(*a.b)); same(s, c, a.m, "move construction"); a.b.emplace(std::move(c)); break; }
            case 6: a.b->swap(*b.b); if (i != j) { std::swap(a.m, b.m); std::swap(a.kind, b.kind); std::swap(a.pos, b.pos); transfer = transfer || a.kind != b.kind; } s.note("swap"); break;
            case 7: a.b->clear(); a.m.clear(); a.pos = 0; break;
            case 8: if (growable) { a.b->shrink_to_fit(); if (s.coin()) { const auto nsz = s.below(60); const auto old = a.m.size(); a.b->resize(nsz); a.m.resize(nsz); for (std::size_t k = old; k < nsz; ++k) (*a.b)[k] = 0; } } break;
            default: fresh(a);
            }
            for (auto &x : pool) same(s, *x.b, x.m, "an operation on the pool");
            if (s.chance(1, 4)) { auto &x = pool[s.below(3)]; x.pos = s.below(x.m.size() + 1); x.b->set_position(x.pos); }
        }
    }
    s.nontrivial(transfer);
    s.check(!res.bad, "memory returned to the wrong allocator");
    s.check(res.live.empty(), "memory leaked");
}
PROPERTY(bounds, 150000, 1500000, "buffers of 0-60 bytes: random skip, at, asString and reads at random positions; out-of-range requests throw (or give empty values for unchecked getters), everything else agrees with the bytes; non-trivial = an out-of-range request") {
    auto raw = s.bytesStr(60);
    if (s.coin() && raw.size() >= 4) { const std::int32_t v = s.oneOf<std::int32_t>({ 0, 1, -1, 5, 100, 2147483647, std::int32_t(raw.size()), std::int32_t(raw.size()) - 4, std::int32_t(raw.size()) / 4 }); std::memcpy(raw.data(), &v, 4); }
    auto heap = std::make_unique<std::uint8_t[]>(raw.size() ? raw.size() : 1);
    std::memcpy(heap.get(), raw.data(), raw.size());
    IoBuffer b(heap.get(), raw.size());
    const auto N = raw.size();
    std::size_t pos = 0;
    s.note(std::to_string(N) + " bytes " + pbt::show(raw));
    auto thrown = [&](auto f) { try { f(); } catch (const std::out_of_range &) { return true; } return false; };
    for (std::size_t n = 1 + s.below(8); n > 0; --n) {
        switch (s.below(9)) {
        case 0: {
            const int d = s.coin() ? s.range<int>(-70, 70) : s.oneOf<int>({ 0, 1, -1, int(N), -int(N), 2147483647, -2147483647 - 1 });
            const bool want = long(pos) + d < 0 || long(pos) + d > long(N);
            s.check(thrown([&] { b.skip(d); }) == want, [&] { return "skip(" + std::to_string(d) + ") at " + std::to_string(pos); });
            s.nontrivial(want);
            if (!want) pos = std::size_t(long(pos) + d);
            break;
        }
        case 1: {
            const auto i = s.chance(1, 4) ? s.oneOf<std::size_t>({ N, N + 1, SIZE_MAX, SIZE_MAX - 3 }) : s.below(N + 6);
            std::int32_t v = 0;
            const bool want = i > N || N - i < 4;
            s.check(thrown([&] { v = b.at<std::int32_t>(i); }) == want, [&] { return "at<int32>(" + std::to_string(i) + ") of " + std::to_string(N); });
            s.nontrivial(want);
            if (!want) { std::int32_t w; std::memcpy(&w, raw.data() + i, 4); s.check(v == w, "value of at"); }
            std::uint8_t u = 0;
            s.check(thrown([&] { u = b.at<std::uint8_t>(i); }) == (i >= N) && (i >= N || u == std::uint8_t(raw[i])), "at<uint8>");
            break;
        }
        case 2: {
            const auto i = s.below(N + 4);
            const int  len = s.range<int>(-2, int(N) + 3);
            std::string_view v;
            const bool want = i > N || (len >= 0 && i + std::size_t(len) > N);
            s.check(thrown([&] { v = b.asString(i, len); }) == want, [&] { return "asString(" + std::to_string(i) + ", " + std::to_string(len) + ") of " + std::to_string(N); });
            s.nontrivial(want);
            if (!want) s.check(v == std::string_view(raw).substr(i, len < 0 ? std::string::npos : std::size_t(len)), "asString content");
            break;
        }
        case 3: pos = s.below(N + 1); b.set_position(pos); break;
        case 4: { const bool fits = N - pos >= 8; const auto v = b.get<std::int64_t>(); if (fits) { std::int64_t w; std::memcpy(&w, raw.data() + pos, 8); s.check(v == w, "get<int64>"); pos += 8; s.check(b.position() == pos, "position"); } else { s.nontrivial(); return; } break; }
        case 5: { const auto v = b.get<std::string>(); std::int32_t w = 0; if (N - pos >= 4) std::memcpy(&w, raw.data() + pos, 4); if (N - pos >= 4 && w > 0 && std::size_t(w) <= N - pos - 4) { s.check(v == raw.substr(pos + 4, std::size_t(w) - 1), "get<string>"); pos += 4 + std::size_t(w); } else { s.check(v.size() <= N, "string longer than the buffer"); s.nontrivial(); return; } break; }
        case 6: { std::vector<double> v; b.getArray(v); s.check(v.size() * 8 <= N, "array longer than the buffer"); s.nontrivial(); return; }
        case 7: {
            std::vector<std::int16_t> src(s.below(9), std::int16_t(7));
            IoBuffer q;
            q.put(src);
            struct { std::array<std::int16_t, 4> a{ 1, 1, 1, 1 }; std::array<std::uint8_t, 16> guard{}; } t;
            bool tooLong = false;
            if (s.coin()) q.getArray(t.a);
            else tooLong = thrown([&] { q.getArray<std::array<std::int16_t, 4>, true>(t.a); });
            for (auto g : t.guard) s.check(g == 0, "reading an array wrote behind it");
            for (std::size_t k = 0; k < 4; ++k) s.check(t.a[k] == (!tooLong && k < src.size() ? 7 : 1), "array content");
            s.check(!tooLong || src.size() > 4, "a fitting array was rejected");
            break;
        }
        default: { std::vector<std::string> v; b.getArray(v); s.check(v.size() <= N, "string array longer than the buffer"); s.nontrivial(); return; }
        }
    }
}
