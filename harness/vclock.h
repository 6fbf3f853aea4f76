// Virtual clocks: the standard clocks only advance when told to, so that durations are exact.
#ifndef VERIF_VCLOCK_H
#define VERIF_VCLOCK_H
#include <chrono>
namespace vc {
static long long ns = 1000000000000LL;
static long long reading = 0; // What reading the clock lasts
}
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  return time_point(duration(vc::ns += vc::reading));
}
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(vc::ns += vc::reading));
}
} // namespace _V2
} // namespace chrono
} // namespace std
#endif
