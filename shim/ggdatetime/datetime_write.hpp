#ifndef VERIF_SHIM_DATETIME_WRITE_HPP
#define VERIF_SHIM_DATETIME_WRITE_HPP
#include "dtcalendar.hpp"

namespace ngpt {
template <typename T, typename S> std::string strftime_ymd_hms(const datetime<S> &t0) {
  auto t = t0.template cast_to<T>();
  long z = t.mjd().as_underlying_type() - 40587 + 719468;
  long era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  long d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
  long y = yoe + era * 400 + (m <= 2);
  double s = t.sec().to_fractional_seconds();
  long h = static_cast<long>(s) / 3600, mi = static_cast<long>(s) / 60 % 60;
  char b[96];
  std::snprintf(b, sizeof b, "%04ld-%02ld-%02ld %02ld:%02ld:%09.6f", y, m, d, h, mi,
                s - 3600. * h - 60. * mi);
  return b;
}
template <typename S> std::string strftime_ymd_hms(const datetime<S> &t) {
  return strftime_ymd_hms<S, S>(t);
}
} // namespace ngpt
#endif
