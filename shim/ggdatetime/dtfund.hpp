// Stand-in for the parts of ggdatetime (not available offline) that ggnss uses.
// Plain exact integer arithmetic on (modified julian day, ticks of day).
#ifndef VERIF_SHIM_DTFUND_HPP
#define VERIF_SHIM_DTFUND_HPP
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>

namespace ngpt {

constexpr double mjd0_jd{2400000.5e0};

#define VERIF_INT_TYPE(NAME)                                                   \
  class NAME {                                                                 \
  public:                                                                      \
    typedef int underlying_type;                                               \
    explicit constexpr NAME(int i = 0) noexcept : v(i) {}                      \
    constexpr int as_underlying_type() const noexcept { return v; }            \
    constexpr int &__member_ref__() noexcept { return v; }                     \
    constexpr bool operator==(NAME o) const noexcept { return v == o.v; }      \
    constexpr bool operator!=(NAME o) const noexcept { return v != o.v; }      \
    constexpr bool operator<(NAME o) const noexcept { return v < o.v; }        \
                                                                               \
  private:                                                                     \
    int v;                                                                     \
  }

VERIF_INT_TYPE(year);
VERIF_INT_TYPE(month);
VERIF_INT_TYPE(hours);
VERIF_INT_TYPE(minutes);
#undef VERIF_INT_TYPE

class day_of_month {
public:
  explicit constexpr day_of_month(int i = 0) noexcept : v(i) {}
  constexpr int as_underlying_type() const noexcept { return v; }
  static constexpr int days_in(int y, int m) noexcept {
    constexpr int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m < 1 || m > 12
               ? 0
               : t[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0));
  }
  constexpr bool is_valid(year y, month m) const noexcept {
    return v >= 1 && v <= days_in(y.as_underlying_type(), m.as_underlying_type());
  }

private:
  int v;
};

class gps_week {
public:
  explicit constexpr gps_week(long w = 0) noexcept : v(w) {}
  constexpr long as_underlying_type() const noexcept { return v; }
  constexpr bool operator==(gps_week o) const noexcept { return v == o.v; }

private:
  long v;
};

class modified_julian_day {
public:
  explicit constexpr modified_julian_day(long d = 0) noexcept : v(d) {}
  modified_julian_day(year y, month m, day_of_month d) {
    long iy = y.as_underlying_type(), im = m.as_underlying_type(),
         id = d.as_underlying_type();
    if (im < 1 || im > 12)
      throw std::out_of_range("cal2mjd -> Invalid Month.");
    if (!d.is_valid(y, m))
      throw std::out_of_range("cal2mjd -> Invalid day of month.");
    // days from civil (proleptic Gregorian)
    iy -= im <= 2;
    long era = (iy >= 0 ? iy : iy - 399) / 400;
    long yoe = iy - era * 400;
    long doy = (153 * (im + (im > 2 ? -3 : 9)) + 2) / 5 + id - 1;
    long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    v = era * 146097 + doe - 719468 + 40587;
  }
  constexpr long as_underlying_type() const noexcept { return v; }
  constexpr modified_julian_day operator+(modified_julian_day o) const noexcept {
    return modified_julian_day(v + o.v);
  }
  constexpr modified_julian_day operator-(modified_julian_day o) const noexcept {
    return modified_julian_day(v - o.v);
  }
  constexpr bool operator==(modified_julian_day o) const noexcept { return v == o.v; }
  constexpr bool operator!=(modified_julian_day o) const noexcept { return v != o.v; }
  constexpr bool operator<(modified_julian_day o) const noexcept { return v < o.v; }
  constexpr bool operator<=(modified_julian_day o) const noexcept { return v <= o.v; }
  constexpr bool operator>(modified_julian_day o) const noexcept { return v > o.v; }
  constexpr bool operator>=(modified_julian_day o) const noexcept { return v >= o.v; }

private:
  long v;
};

template <long F> class sec_type__ {
public:
  typedef long underlying_type;
  static constexpr bool is_of_sec_type = true;
  static constexpr long max_in_day = 86400L * F;
  template <typename T> static constexpr T sec_factor() noexcept {
    return static_cast<T>(F);
  }
  explicit constexpr sec_type__(long i = 0) noexcept : v(i) {}
  constexpr long as_underlying_type() const noexcept { return v; }
  constexpr double to_fractional_seconds() const noexcept {
    return static_cast<double>(v) / static_cast<double>(F);
  }
  constexpr double fractional_days() const noexcept {
    return static_cast<double>(v) / static_cast<double>(max_in_day);
  }
  constexpr sec_type__ operator+(sec_type__ o) const noexcept { return sec_type__(v + o.v); }
  constexpr sec_type__ operator-(sec_type__ o) const noexcept { return sec_type__(v - o.v); }
  constexpr sec_type__ operator-() const noexcept { return sec_type__(-v); }

private:
  long v;
};
typedef sec_type__<1L> seconds;
typedef sec_type__<1000L> milliseconds;
typedef sec_type__<1000000L> microseconds;

template <long A, long B>
constexpr bool operator==(sec_type__<A> a, sec_type__<B> b) noexcept {
  return a.as_underlying_type() * (1000000L / A) == b.as_underlying_type() * (1000000L / B);
}
template <long A, long B>
constexpr bool operator!=(sec_type__<A> a, sec_type__<B> b) noexcept { return !(a == b); }
template <long A, long B>
constexpr bool operator<(sec_type__<A> a, sec_type__<B> b) noexcept {
  return a.as_underlying_type() * (1000000L / A) < b.as_underlying_type() * (1000000L / B);
}
template <long A, long B>
constexpr bool operator>(sec_type__<A> a, sec_type__<B> b) noexcept { return b < a; }
template <long A, long B>
constexpr bool operator<=(sec_type__<A> a, sec_type__<B> b) noexcept { return !(b < a); }
template <long A, long B>
constexpr bool operator>=(sec_type__<A> a, sec_type__<B> b) noexcept { return !(a < b); }

/// cast_to<From, To>(x)
template <typename S1, typename S2> constexpr S2 cast_to(S1 s) noexcept {
  constexpr long a = S1::template sec_factor<long>(), b = S2::template sec_factor<long>();
  return b >= a ? S2(s.as_underlying_type() * (b / a)) : S2(s.as_underlying_type() / (a / b));
}

} // namespace ngpt
#endif
