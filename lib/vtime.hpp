// Virtual time: steady_clock and system_clock read a counter of the harness.
#pragma once
#include <chrono>
#include <cstdint>
namespace vt {
inline std::int64_t ns = 1'000'000'000'000; // 1000 s after the epoch
inline void         advance(std::chrono::nanoseconds d) { ns += d.count(); }
} // namespace vt
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vt::ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vt::ns)); }
} // namespace _V2
} // namespace std::chrono
