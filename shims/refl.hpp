// Minimal stand-in for refl-cpp (not installed, no network): implements exactly the
// subset of the public refl-cpp interface that opencmw-cpp uses.  Part of the
// verification harness; none of the code under test lives here.
#ifndef VERIF_SHIM_REFL_HPP
#define VERIF_SHIM_REFL_HPP
#include <algorithm>
#include <array>
#include <cstddef>
#include <functional>
#include <memory>
#include <optional>
#include <sstream>
#include <iostream>
#include <cassert>
#include <numeric>
#include <mutex>
#include <thread>
#include <atomic>
#include <cstring>
#include <cmath>
#include <math.h>
#include <ostream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

namespace refl {

template<std::size_t N>
struct const_string {
    static constexpr std::size_t size = N;
    char                         data[N + 1]{};
    constexpr const_string() noexcept = default;
    constexpr const_string(const char (&s)[N + 1]) noexcept {
        for (std::size_t i = 0; i <= N; ++i) data[i] = s[i];
    }
    constexpr const char *c_str() const noexcept { return data; }
    constexpr std::string_view view() const noexcept { return { data, N }; }
    std::string str() const { return std::string(data, N); }
    constexpr operator std::string_view() const noexcept { return view(); }
    explicit operator std::string() const { return str(); }
    template<std::size_t Pos, std::size_t Count = static_cast<std::size_t>(-1)>
    constexpr auto substr() const noexcept {
        constexpr std::size_t P = Pos < N ? Pos : N;
        constexpr std::size_t C = Count < N - P ? Count : N - P;
        const_string<C>       r;
        for (std::size_t i = 0; i < C; ++i) r.data[i] = data[P + i];
        return r;
    }
    template<std::size_t M>
    constexpr bool operator==(const const_string<M> &o) const noexcept { return view() == o.view(); }
    template<std::size_t M>
    constexpr bool operator==(const char (&o)[M]) const noexcept { return view() == std::string_view(o, M - 1); }
};
template<std::size_t M>
const_string(const char (&)[M]) -> const_string<M - 1>;
template<std::size_t N>
std::ostream &operator<<(std::ostream &os, const const_string<N> &s) { return os << s.view(); }

} // namespace refl

namespace refl_impl::metadata {
struct not_reflected {};
template<typename T>
struct type_info__ {
    using refl_invalid = not_reflected;
    static constexpr refl::const_string<0> name{};
};
} // namespace refl_impl::metadata

namespace refl {
namespace detail {
template<typename T>
concept reflected = !requires { typename refl_impl::metadata::type_info__<T>::refl_invalid; };
template<typename T>
using info = refl_impl::metadata::type_info__<std::remove_cvref_t<T>>;
} // namespace detail

template<typename T>
constexpr bool is_reflectable() noexcept { return detail::reflected<std::remove_cvref_t<T>>; }
namespace trait {
template<typename T>
inline constexpr bool is_reflectable_v = detail::reflected<std::remove_cvref_t<T>>;
}

template<typename... Ts>
struct type_list {
    static constexpr std::size_t size = sizeof...(Ts);
};

template<typename T>
struct type_descriptor;

template<typename T, std::size_t I>
struct field_descriptor {
    using meta                        = typename detail::info<T>::template member<I>;
    static constexpr auto name        = meta::name;
    static constexpr auto display_name= meta::name;
    using value_type                  = typename meta::value_type;
    static constexpr type_descriptor<T> declarator{};
    template<typename U>
    constexpr decltype(auto) operator()(U &&target) const { return meta::get(std::forward<U>(target)); }
};

namespace detail {
template<typename T, typename Seq>
struct members_of;
template<typename T, std::size_t... I>
struct members_of<T, std::index_sequence<I...>> {
    using type = type_list<field_descriptor<T, I>...>;
};
template<typename T, bool = reflected<std::remove_cvref_t<T>>>
struct members_list {
    using type = typename members_of<std::remove_cvref_t<T>, std::make_index_sequence<info<T>::member_count>>::type;
};
template<typename T>
struct members_list<T, false> {
    using type = type_list<>;
};
} // namespace detail

template<typename T>
struct type_descriptor {
    using type                  = T;
    static constexpr auto name  = detail::info<T>::name;
    using member_types          = typename detail::members_list<T>::type;
    static constexpr member_types members{};
};

template<typename T>
constexpr type_descriptor<std::remove_cvref_t<T>> reflect() noexcept { return {}; }
template<typename T>
constexpr type_descriptor<std::remove_cvref_t<T>> reflect(const T &) noexcept { return {}; }

template<typename T>
constexpr auto get_name(type_descriptor<T>) noexcept { return type_descriptor<T>::name; }
template<typename T, std::size_t I>
constexpr auto get_name(field_descriptor<T, I>) noexcept { return field_descriptor<T, I>::name; }
template<typename T, std::size_t I>
constexpr const char *get_display_name(field_descriptor<T, I>) noexcept { return field_descriptor<T, I>::name.data; }
template<typename T, std::size_t I>
inline std::string get_debug_name(field_descriptor<T, I>) { return type_descriptor<T>::name.str() + "::" + field_descriptor<T, I>::name.str(); }

template<typename T, std::size_t I>
constexpr bool is_field(field_descriptor<T, I>) noexcept { return true; }
template<typename T, std::size_t I>
constexpr bool is_static(field_descriptor<T, I>) noexcept { return false; }
template<typename T, std::size_t I>
constexpr bool is_writable(field_descriptor<T, I>) noexcept { return !std::is_const_v<typename field_descriptor<T, I>::value_type>; }
template<typename T, std::size_t I>
constexpr bool is_readable(field_descriptor<T, I>) noexcept { return true; }

namespace detail {
template<typename F, typename M>
constexpr decltype(auto) call(F &f, M m, std::size_t i) {
    if constexpr (std::is_invocable_v<F &, M, std::size_t>) return f(m, i);
    else return f(m);
}
template<typename F, typename... Ts, std::size_t... I>
constexpr void for_each_impl(type_list<Ts...>, F &f, std::index_sequence<I...>) { (call(f, Ts{}, I), ...); }
} // namespace detail

namespace util {
template<typename F, typename... Ts>
constexpr void for_each(type_list<Ts...> l, F &&f) { detail::for_each_impl(l, f, std::index_sequence_for<Ts...>{}); }

template<typename R, typename F, typename... Ts>
constexpr std::array<R, sizeof...(Ts)> map_to_array(type_list<Ts...>, F &&f) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::array<R, sizeof...(Ts)>{ R(detail::call(f, Ts{}, I))... }; }(std::index_sequence_for<Ts...>{});
}
template<typename F, typename... Ts>
constexpr bool contains(type_list<Ts...>, F &&f) { return (false || ... || static_cast<bool>(f(Ts{}))); }

template<typename F, typename T0, typename... Ts>
constexpr auto find_first(type_list<T0, Ts...>, F f) {
    constexpr bool hit = f(T0{});
    if constexpr (hit) return T0{};
    else return find_first(type_list<Ts...>{}, f);
}
} // namespace util
using util::contains;
using util::find_first;
using util::for_each;
using util::map_to_array;

namespace descriptor {
template<typename T>
constexpr auto get_members(type_descriptor<T>) noexcept { return typename type_descriptor<T>::member_types{}; }
using refl::get_display_name;
using refl::get_name;
using refl::is_field;
using refl::is_static;
using refl::is_writable;
} // namespace descriptor
} // namespace refl

#define REFL_DETAIL_PARENS ()
#define REFL_DETAIL_EXPAND(...) REFL_DETAIL_EXPAND3(REFL_DETAIL_EXPAND3(REFL_DETAIL_EXPAND3(__VA_ARGS__)))
#define REFL_DETAIL_EXPAND3(...) REFL_DETAIL_EXPAND2(REFL_DETAIL_EXPAND2(REFL_DETAIL_EXPAND2(__VA_ARGS__)))
#define REFL_DETAIL_EXPAND2(...) REFL_DETAIL_EXPAND1(REFL_DETAIL_EXPAND1(REFL_DETAIL_EXPAND1(__VA_ARGS__)))
#define REFL_DETAIL_EXPAND1(...) __VA_ARGS__
#define REFL_DETAIL_FOR_EACH(M, ...) __VA_OPT__(REFL_DETAIL_EXPAND(REFL_DETAIL_FE_HELPER(M, __VA_ARGS__)))
#define REFL_DETAIL_FE_HELPER(M, A, ...) M(A) __VA_OPT__(REFL_DETAIL_FE_AGAIN REFL_DETAIL_PARENS(M, __VA_ARGS__))
#define REFL_DETAIL_FE_AGAIN() REFL_DETAIL_FE_HELPER

#define REFL_TYPE(TypeName, ...) \
    namespace refl_impl::metadata { \
    template<> \
    struct type_info__<TypeName> { \
        using type                 = TypeName; \
        static constexpr auto name = refl::const_string(#TypeName); \
        template<std::size_t, typename = void> \
        struct member {}; \
        static constexpr std::size_t member_index_offset = __COUNTER__ + 1;
#define REFL_FIELD(Name, ...) \
    template<typename Dummy_> \
    struct member<static_cast<std::size_t>(__COUNTER__) - member_index_offset, Dummy_> { \
        static constexpr auto name = refl::const_string(#Name); \
        using value_type           = decltype(type::Name); \
        template<typename U_> \
        static constexpr auto get(U_ &&t) -> decltype((std::forward<U_>(t).Name)) { return std::forward<U_>(t).Name; } \
    };
#define REFL_DETAIL_EX_1_field(Name) REFL_FIELD(Name)
#define REFL_END \
    static constexpr std::size_t member_count = static_cast<std::size_t>(__COUNTER__) - member_index_offset; \
    } \
    ; \
    }
#endif
