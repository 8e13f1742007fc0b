// C31: multi-dimensional arrays: index <-> position is a bijection, every accessor reaches the same cell, arithmetic is element-wise.
#include "pbt.hpp"
#include <opencmw.hpp>
#include <MultiArray.hpp>
#include <sstream>
using opencmw::MultiArray;
template<std::size_t N>
using Idx = std::array<std::uint32_t, N>;
template<std::size_t N>
static Idx<N> dimsOf(pbt::Src &s, std::uint32_t lo, std::uint32_t hi) {
    Idx<N> d;
    for (auto &x : d) x = s.range<std::uint32_t>(lo, hi);
    return d;
}
template<std::size_t N>
static std::size_t product(const Idx<N> &d) {
    std::size_t r = 1;
    for (auto x : d) r *= x;
    return r;
}
template<std::size_t N, typename F>
static void forAll(const Idx<N> &d, F f) {
    if (product<N>(d) == 0) return;
    Idx<N> i{};
    while (true) {
        f(i);
        std::size_t k = N;
        while (k > 0 && ++i[k - 1] == d[k - 1]) i[--k] = 0;
        if (k == 0) return;
    }
}
template<typename T, std::uint32_t N, std::size_t... I>
static T &call(MultiArray<T, N> &a, const Idx<N> &i, std::index_sequence<I...>, bool checked) {
    if (checked) return a.get(i[I]...);
    if constexpr (N > 1) return a(i[I]...);
    else return a[i];
}
template<typename T, std::uint32_t N>
static void rowMajor(pbt::Src &s) {
    const auto d = dimsOf<N>(s, s.chance(1, 10) ? 0 : 1, 5);
    const auto n = product<N>(d);
    s.note("dims " + pbt::showVec(d));
    std::vector<T> data(n);
    for (std::size_t k = 0; k < n; ++k) data[k] = T(k * 3 + 1);
    MultiArray<T, N> a = [&] {
        switch (s.below(3)) {
        case 0: return MultiArray<T, N>(data, d);
        case 1: { auto c = data; auto e = d; return MultiArray<T, N>(std::move(c), std::move(e)); }
        default: { MultiArray<T, N> e(d); for (std::size_t k = 0; k < n; ++k) { s.check(e[std::uint32_t(k)] == T{}, "new array not zero"); e[std::uint32_t(k)] = data[k]; } return e; }
        }
    }();
    s.check(a.element_count() == n && a.elements().size() == n && a.dimensions() == d, "element count or dimensions");
    std::size_t pos = 0;
    forAll<N>(d, [&](const Idx<N> &i) {
        s.check(a.index(i) == pos, [&] { return "position of " + pbt::showVec(i) + " is " + std::to_string(a.index(i)) + ", expected " + std::to_string(pos); });
        s.check(a.indices(std::uint32_t(pos)) == i, [&] { return "indices of position " + std::to_string(pos) + " are " + pbt::showVec(a.indices(std::uint32_t(pos))) + ", expected " + pbt::showVec(i); });
        auto *cell = &a.elements()[pos];
        s.check(&a[i] == cell && &a.get(i) == cell && &a[std::uint32_t(pos)] == cell && &a.get(std::uint32_t(pos)) == cell && &a(std::uint32_t(pos)) == cell, "accessors reach different cells");
        s.check(&call<T, N>(a, i, std::make_index_sequence<N>{}, s.coin()) == cell, "call accessor reaches a different cell");
        s.check(*cell == data[pos], "content");
        ++pos;
    });
    for (std::uint32_t k = 0; k < N; ++k) s.check(a.n(k) == d[k] && a.offset(k) == 0, "dimension/offset");
    bool threw = false;
    try {
        (void) a.get(std::uint32_t(n + s.below(3)));
    } catch (const std::out_of_range &) {
        threw = true;
    }
    s.check(threw, "get beyond the end did not throw");
    // arithmetic
    MultiArray<T, N> b(d);
    for (std::size_t k = 0; k < n; ++k) b[std::uint32_t(k)] = T(s.below(50));
    const auto a0 = a, b0 = b;
    const auto sum = a + b;
    const T    c   = T(s.below(9));
    const auto shifted = a + c;
    s.check(sum.dimensions() == d && shifted.dimensions() == d, "dimensions of a sum");
    for (std::uint32_t k = 0; k < n; ++k) s.check(sum[k] == T(a0[k] + b0[k]) && shifted[k] == T(a0[k] + c), "element-wise sum");
    s.check(a == a0 && b == b0, "operands changed by +");
    a += b;
    s.check(a == sum, "+= differs from +");
    a = a0;
    a += c;
    s.check(a == shifted, "+= scalar differs from +");
    a = a0;
    s.check(a == a0, "copy differs");
    if (n > 0) {
        a[std::uint32_t(s.below(n))] += T(1);
        s.check(!(a == a0), "arrays differing in one element compare equal");
        if constexpr (N >= 2) {
            auto e = d;
            std::swap(e[0], e[1]);
            if (e != d) { s.check(!(MultiArray<T, N>(data, e) == a0), "arrays of different shape compare equal"); }
        }
    }
    s.nontrivial(N >= 2 && n >= 4);
}
PROPERTY(row_major, 60000, 600000, "1- to 4-dimensional arrays of 0-5 cells per dimension, three constructors, all cells through all accessors, sums, equality; non-trivial = 2 or more dimensions and 4 or more cells") {
    switch (s.below(5)) {
    case 0: rowMajor<double, 1>(s); break;
    case 1: rowMajor<float, 2>(s); break;
    case 2: rowMajor<std::int32_t, 3>(s); break;
    case 3: rowMajor<std::int64_t, 4>(s); break;
    default: rowMajor<std::uint8_t, 2>(s);
    }
}
template<std::uint32_t N>
static void custom(pbt::Src &s) {
    const auto d = dimsOf<N>(s, 1, 4); // logical window
    Idx<N> off, store;
    for (std::size_t k = 0; k < N; ++k) { off[k] = s.chance(1, 2) ? 0 : s.range<std::uint32_t>(0, 2); store[k] = off[k] + d[k] + (s.coin() ? 0 : s.range<std::uint32_t>(0, 2)); if (store[k] < 2 && off[k] > 0) store[k] = 2; }
    std::array<std::size_t, N> order;
    for (std::size_t k = 0; k < N; ++k) order[k] = k;
    for (std::size_t k = N; k > 1; --k) std::swap(order[k - 1], order[s.below(k)]);
    Idx<N> stride{};
    std::uint32_t acc = 1;
    for (std::size_t k = N; k-- > 0;) { stride[order[k]] = acc; acc *= store[order[k]]; }
    std::vector<std::int32_t> data(acc);
    for (std::size_t k = 0; k < acc; ++k) data[k] = std::int32_t(k) * 2;
    s.note("dims " + pbt::showVec(d) + " storage " + pbt::showVec(store) + " strides " + pbt::showVec(stride) + " offsets " + pbt::showVec(off));
    MultiArray<std::int32_t, N> a(data, d, stride, off);
    bool degenerate = false; // a dimension of storage size 1 shares its stride: position -> index stays unique because its index is 0
    std::vector<bool> seen(acc, false);
    forAll<N>(d, [&](const Idx<N> &i) {
        std::uint32_t want = 0;
        for (std::size_t k = 0; k < N; ++k) want += (off[k] + i[k]) * stride[k];
        s.check(a.index(i) == want && !seen[want], [&] { return "position of " + pbt::showVec(i); });
        seen[want] = true;
        s.check(a[i] == std::int32_t(want) * 2 && a.get(i) == std::int32_t(want) * 2, "content");
        s.check(a.indices(want) == i, [&] { return "indices of position " + std::to_string(want) + " are " + pbt::showVec(a.indices(want)) + ", expected " + pbt::showVec(i); });
    });
    const auto b = a + 1;
    forAll<N>(d, [&](const Idx<N> &i) { s.check(b[i] == a[i] + 1, "sum of an array with custom layout"); });
    const auto c = a + a;
    forAll<N>(d, [&](const Idx<N> &i) { s.check(c[i] == 2 * a[i], "sum of two arrays with custom layout"); });
    s.nontrivial(N >= 2 && !degenerate && std::any_of(off.begin(), off.end(), [](auto x) { return x > 0; }));
}
PROPERTY(custom_layout, 60000, 600000, "windows (offsets) into larger storage with the dimensions in any memory order; non-trivial = 2 or more dimensions and an offset") {
    switch (s.below(3)) {
    case 0: custom<1>(s); break;
    case 1: custom<2>(s); break;
    default: custom<3>(s);
    }
}
