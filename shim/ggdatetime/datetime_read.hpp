#ifndef VERIF_SHIM_DATETIME_READ_HPP
#define VERIF_SHIM_DATETIME_READ_HPP
#include "dtcalendar.hpp"

namespace ngpt {
/// year, month, day, hours, minutes and (fractional) seconds, each separated by
/// at least one character; throws if one of them is missing or impossible.
template <typename T>
datetime<T> strptime_ymd_hms(const char *str, char **stop = nullptr) {
  const char *start = str;
  char *end;
  int ints[5];
  for (int i = 0; i < 5; i++) {
    int keep = errno;
    errno = 0;
    long v = std::labs(std::strtol(start, &end, 10));
    int bad = errno == ERANGE || start == end || v > 100000;
    errno = keep;
    if (bad)
      throw std::invalid_argument("Invalid date format");
    ints[i] = static_cast<int>(v);
    start = *end ? end + 1 : end;
  }
  double secs = std::strtod(start, &end);
  if (start == end || !(secs >= 0e0 && secs < 1e6))
    throw std::invalid_argument("Invalid date format");
  if (stop)
    *stop = end;
  return datetime<T>(year(ints[0]), month(ints[1]), day_of_month(ints[2]), hours(ints[3]),
                     minutes(ints[4]),
                     T(static_cast<long>(secs * T::template sec_factor<double>() + 1e-4)));
}
} // namespace ngpt
#endif
