// Minimal stand-in for mp-units (not installed, no network): only what opencmw-cpp needs.
#ifndef VERIF_SHIM_UNITS_QUANTITY_H
#define VERIF_SHIM_UNITS_QUANTITY_H
#include <compare>
#include <concepts>
#include <cstddef>
#include <ostream>
#include <string_view>
#include <type_traits>

namespace units {
template<typename T, typename U>
inline constexpr bool is_same_v = std::is_same_v<T, U>;

template<typename CharT, std::size_t N>
struct basic_fixed_string {
    CharT data_[N + 1]{};
    constexpr basic_fixed_string() = default;
    constexpr basic_fixed_string(const CharT (&s)[N + 1]) noexcept {
        for (std::size_t i = 0; i <= N; ++i) data_[i] = s[i];
    }
    static constexpr std::size_t size_ = N;
    constexpr std::size_t size() const noexcept { return N; }
    constexpr bool        empty() const noexcept { return N == 0; }
    constexpr const CharT *data() const noexcept { return data_; }
    constexpr const CharT *c_str() const noexcept { return data_; }
    constexpr const CharT &operator[](std::size_t i) const noexcept { return data_[i]; }
    constexpr const CharT *begin() const noexcept { return data_; }
    constexpr const CharT *end() const noexcept { return data_ + N; }
    template<std::size_t N2>
    constexpr bool operator==(const basic_fixed_string<CharT, N2> &o) const { return std::basic_string_view<CharT>(c_str()) == std::basic_string_view<CharT>(o.c_str()); }
    template<std::size_t N2>
    friend constexpr basic_fixed_string<CharT, N + N2> operator+(const basic_fixed_string &l, const basic_fixed_string<CharT, N2> &r) noexcept {
        basic_fixed_string<CharT, N + N2> res;
        for (std::size_t i = 0; i < N; ++i) res.data_[i] = l.data_[i];
        for (std::size_t i = 0; i < N2; ++i) res.data_[N + i] = r.data_[i];
        return res;
    }
};
template<typename CharT, std::size_t N>
basic_fixed_string(const CharT (&)[N]) -> basic_fixed_string<CharT, N - 1>;
template<std::size_t N>
using fixed_string = basic_fixed_string<char, N>;

namespace detail {
template<typename T, template<typename...> typename Type>
inline constexpr bool is_spec_impl = false;
template<typename... P, template<typename...> typename Type>
inline constexpr bool is_spec_impl<Type<P...>, Type> = true;
template<template<typename...> typename Type>
struct derived_probe {
    template<typename... P>
    static constexpr std::true_type  test(const Type<P...> *);
    static constexpr std::false_type test(...);
};
} // namespace detail
template<typename T, template<typename...> typename Type>
inline constexpr bool is_specialization_of = detail::is_spec_impl<T, Type>;
template<typename T, template<typename...> typename Type>
inline constexpr bool is_derived_from_specialization_of = decltype(detail::derived_probe<Type>::test(static_cast<std::remove_cvref_t<T> *>(nullptr)))::value;

template<typename T>
concept scalable_ = std::is_arithmetic_v<T>;
template<typename T>
concept Representation = std::is_arithmetic_v<T>;

template<typename D, typename U, typename Rep>
class quantity {
    Rep number_{};
public:
    using dimension = D;
    using unit      = U;
    using rep       = Rep;
    constexpr quantity() = default;
    constexpr explicit quantity(const Rep &v) : number_(v) {}
    constexpr Rep       &number() & noexcept { return number_; }
    constexpr const Rep &number() const & noexcept { return number_; }
    template<typename S> requires std::is_arithmetic_v<S>
    constexpr quantity &operator*=(const S &v) { number_ *= v; return *this; }
    template<typename S> requires std::is_arithmetic_v<S>
    constexpr quantity &operator/=(const S &v) { number_ /= v; return *this; }
    constexpr quantity &operator+=(const quantity &v) { number_ += v.number_; return *this; }
    constexpr quantity &operator-=(const quantity &v) { number_ -= v.number_; return *this; }
    constexpr auto operator<=>(const quantity &) const = default;
    constexpr bool operator==(const quantity &) const  = default;
};
namespace detail {
template<typename T>
struct qprobe {
    template<typename D, typename U, typename R>
    static std::true_type  test(const quantity<D, U, R> *);
    static std::false_type test(...);
    static constexpr bool value = decltype(test(static_cast<T *>(nullptr)))::value;
};
} // namespace detail
template<typename T>
concept Quantity = std::is_object_v<T> && detail::qprobe<std::remove_cv_t<T>>::value;
template<typename T>
concept QuantityLike = false;
template<typename T>
concept wrapped_quantity_ = false;

struct dim_one {};
struct one { static constexpr auto ascii = basic_fixed_string(""); };
template<typename U, typename Rep = double>
using dimensionless = quantity<dim_one, U, Rep>;

namespace detail {
template<auto Str>
struct text_holder {
    static constexpr auto ascii() { return Str; }
};
template<typename Dim, typename U>
constexpr auto unit_text() { return text_holder<U::ascii>{}; }
} // namespace detail

#define VERIF_UNIT(name, txt) struct name { static constexpr auto ascii = basic_fixed_string(txt); }
namespace isq {
struct dim_time {};
struct dim_length {};
struct dim_speed {};
struct dim_frequency {};
struct dim_any {};
template<typename T>
concept Time = Quantity<T> && std::is_same_v<typename T::dimension, dim_time>;
namespace si {
VERIF_UNIT(second, "s");
VERIF_UNIT(millisecond, "ms");
VERIF_UNIT(microsecond, "us");
VERIF_UNIT(nanosecond, "ns");
VERIF_UNIT(metre, "m");
VERIF_UNIT(kilometre, "km");
VERIF_UNIT(metre_per_second, "m/s");
VERIF_UNIT(hertz, "Hz");
VERIF_UNIT(ampere, "A");
VERIF_UNIT(volt, "V");
VERIF_UNIT(ohm, "Ohm");
VERIF_UNIT(gigaelectronvolt, "GeV");
VERIF_UNIT(kilogram, "kg");
template<typename U, typename Rep = double>
using energy = quantity<dim_any, U, Rep>;
template<typename U, typename Rep = double>
using mass = quantity<dim_any, U, Rep>;
template<typename U, typename Rep = double>
using time = quantity<dim_time, U, Rep>;
template<typename U, typename Rep = double>
using length = quantity<dim_length, U, Rep>;
template<typename U, typename Rep = double>
using speed = quantity<dim_speed, U, Rep>;
template<typename U, typename Rep = double>
using frequency = quantity<dim_frequency, U, Rep>;
template<typename U, typename Rep = double>
using resistance = quantity<dim_any, U, Rep>;
template<typename U, typename Rep = double>
using electric_current = quantity<dim_any, U, Rep>;
template<typename U, typename Rep = double>
using voltage = quantity<dim_any, U, Rep>;
} // namespace si
} // namespace isq
} // namespace units
#endif
