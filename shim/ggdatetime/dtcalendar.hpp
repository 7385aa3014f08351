#ifndef VERIF_SHIM_DTCALENDAR_HPP
#define VERIF_SHIM_DTCALENDAR_HPP
#include "dtfund.hpp"

namespace ngpt {

template <typename S> class datetime_interval {
public:
  explicit constexpr datetime_interval(modified_julian_day d = modified_julian_day(0),
                                       S s = S(0)) noexcept
      : d_(d), s_(s) {}
  constexpr modified_julian_day days() const noexcept { return d_; }
  constexpr S secs() const noexcept { return s_; }
  constexpr S sec() const noexcept { return s_; }

private:
  modified_julian_day d_;
  S s_;
};

template <typename S> class datetime {
public:
  typedef S sec_type;
  constexpr datetime() noexcept : d_(33282), s_(0) {}
  explicit datetime(year y, month m, day_of_month d, S s = S(0)) : d_(y, m, d), s_(s) { norm(); }
  explicit datetime(year y, month m, day_of_month d, hours h, minutes mi, S s = S(0))
      : d_(y, m, d),
        s_(s.as_underlying_type() +
           (h.as_underlying_type() * 3600L + mi.as_underlying_type() * 60L) *
               S::template sec_factor<long>()) {
    norm();
  }
  explicit constexpr datetime(modified_julian_day d, S s = S(0)) noexcept : d_(d), s_(s) { norm(); }
  template <long F>
  explicit constexpr datetime(gps_week w, sec_type__<F> sow) noexcept
      : d_(44244 + 7 * w.as_underlying_type()),
        s_(ngpt::cast_to<sec_type__<F>, S>(sow)) { norm(); }

  static constexpr datetime max() noexcept {
    return datetime(modified_julian_day(1000000000L), S(0));
  }
  static constexpr datetime min() noexcept {
    return datetime(modified_julian_day(0), S(0));
  }

  constexpr modified_julian_day mjd() const noexcept { return d_; }
  constexpr S sec() const noexcept { return s_; }
  constexpr double as_mjd() const noexcept {
    return static_cast<double>(d_.as_underlying_type()) + s_.fractional_days();
  }
  constexpr gps_week as_gps_wsow(long &sow) const noexcept {
    long n = d_.as_underlying_type() - 44244;
    long w = n >= 0 ? n / 7 : -((6 - n) / 7);
    sow = (n - 7 * w) * 86400L + s_.as_underlying_type() / S::template sec_factor<long>();
    return gps_week(w);
  }
  constexpr gps_week as_gps_wsow(S &sow) const noexcept {
    long n = d_.as_underlying_type() - 44244;
    long w = n >= 0 ? n / 7 : -((6 - n) / 7);
    sow = S((n - 7 * w) * S::max_in_day + s_.as_underlying_type());
    return gps_week(w);
  }
  template <typename T> constexpr datetime<T> cast_to() const noexcept {
    return datetime<T>(d_, ngpt::cast_to<S, T>(s_));
  }
  template <typename T> constexpr datetime<S> add(modified_julian_day d) const noexcept {
    return datetime(d_ + d, s_);
  }
  template <long F> constexpr void add_seconds(sec_type__<F> s) noexcept {
    s_ = S(s_.as_underlying_type() + ngpt::cast_to<sec_type__<F>, S>(s).as_underlying_type());
    norm();
  }
  template <long F> constexpr void remove_seconds(sec_type__<F> s) noexcept {
    s_ = S(s_.as_underlying_type() - ngpt::cast_to<sec_type__<F>, S>(s).as_underlying_type());
    norm();
  }
  constexpr datetime operator+(const datetime_interval<S> &i) const noexcept {
    return datetime(d_ + i.days(), s_ + i.secs());
  }
  constexpr void operator+=(const datetime_interval<S> &i) noexcept { *this = *this + i; }

private:
  constexpr void norm() noexcept {
    long n = s_.as_underlying_type();
    long k = n >= 0 ? n / S::max_in_day : -((S::max_in_day - 1 - n) / S::max_in_day);
    d_ = modified_julian_day(d_.as_underlying_type() + k);
    s_ = S(n - k * S::max_in_day);
  }
  modified_julian_day d_;
  S s_;
};

template <typename A, typename B>
constexpr bool operator==(const datetime<A> &a, const datetime<B> &b) noexcept {
  return a.mjd() == b.mjd() && a.sec() == b.sec();
}
template <typename A, typename B>
constexpr bool operator!=(const datetime<A> &a, const datetime<B> &b) noexcept { return !(a == b); }
template <typename A, typename B>
constexpr bool operator<(const datetime<A> &a, const datetime<B> &b) noexcept {
  return a.mjd() < b.mjd() || (a.mjd() == b.mjd() && a.sec() < b.sec());
}
template <typename A, typename B>
constexpr bool operator>(const datetime<A> &a, const datetime<B> &b) noexcept { return b < a; }
template <typename A, typename B>
constexpr bool operator<=(const datetime<A> &a, const datetime<B> &b) noexcept { return !(b < a); }
template <typename A, typename B>
constexpr bool operator>=(const datetime<A> &a, const datetime<B> &b) noexcept { return !(a < b); }

/// a - b in the finer of the two resolutions
template <long A, long B>
constexpr auto delta_sec(const datetime<sec_type__<A>> &a,
                         const datetime<sec_type__<B>> &b) noexcept {
  constexpr long F = A > B ? A : B;
  typedef sec_type__<F> R;
  long d = (a.mjd() - b.mjd()).as_underlying_type();
  return R(d * R::max_in_day + ngpt::cast_to<sec_type__<A>, R>(a.sec()).as_underlying_type() -
           ngpt::cast_to<sec_type__<B>, R>(b.sec()).as_underlying_type());
}

} // namespace ngpt
#endif
