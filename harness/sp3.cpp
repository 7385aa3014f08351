#include "common.hpp"
#include "sp3c.hpp"
using namespace ngpt;

namespace {
std::unique_ptr<Sp3c> rd;
std::vector<Sp3EpochSvRecord> rows;
const char *SYS = "GRSECJIM";
int sysno(SATELLITE_SYSTEM s) {
  const char *p = std::strchr(SYS, satsys_to_char(s));
  return p ? int(p - SYS) : -1;
}
void put(const std::string &name, const std::string &text) {
  if (hc::holds(name, text))
    return; // another reader may be reading it
  std::ofstream f(hc::at(name), std::ios::binary | std::ios::trunc);
  f.write(text.data(), std::streamsize(text.size()));
}
// limbs of v * scale, base 10^6
void limbs(Out &o, double v, double scale) {
  double x = v * scale, y = std::nearbyint(x);
  if (!(std::fabs(x - y) < 1e-3 + 1e-12 * std::fabs(x)) || std::fabs(y) > 1e15) {
    o.open(), o.i(-7777777), o.i(-7777777), o.close();
    return;
  }
  long long n = (long long)y, h = n / 1000000, l = n % 1000000;
  if (l < 0)
    --h, l += 1000000;
  o.open(), o.i(h), o.i(l), o.close();
}
std::string line_of(const std::string &t, const char *label) {
  std::size_t p = t.find(std::string("\n") + label);
  if (p == std::string::npos)
    return "<none>";
  p += 1 + std::strlen(label);
  std::size_t q = t.find('\n', p);
  return t.substr(p, q == std::string::npos ? q : q - p);
}
std::string trim(std::string s) {
  while (!s.empty() && (s.back() == ' ' || s.back() == '\0'))
    s.pop_back();
  std::size_t k = 0;
  while (k < s.size() && s[k] == ' ')
    ++k;
  return s.substr(k);
}
long days(long y, long m, long d) {
  y -= m <= 2;
  long era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
  long doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 - 16436;
}
int sgn(int s) { return s < 0 ? -1 : s > 0; }
void head(Out &o) {
  std::ostringstream s;
  std::streambuf *old = std::cout.rdbuf(s.rdbuf());
  auto pr = std::cout.precision(16);
  rd->print_members();
  std::cout.precision(pr);
  std::cout.rdbuf(old);
  std::string t = s.str();
  std::string v = line_of(t, "Version      :");
  o.i(v == "c" ? 0 : v == "d" ? 1 : -1);
  long y = 0, m = 0, d = 0, h = 0, mi = 0;
  double sec = -1;
  std::sscanf(line_of(t, "Start Epoch  :").c_str(), "%ld-%ld-%ld %ld:%ld:%lf", &y, &m, &d, &h, &mi, &sec);
  o.i(days(y, m, d) * 86400 + h * 3600 + mi * 60 + (long)std::floor(sec + 5e-7));
  o.i((long)std::nearbyint((sec - std::floor(sec + 5e-7)) * 1e6));
  o.i(std::atoi(line_of(t, "# Epochs     :").c_str()));
  for (const char *l : {"Coordinate S :", "Orbit Type   :", "Agency       :", "Time System  :"})
    o.text(trim(line_of(t, l)));
  long long us = rd->interval().as_underlying_type();
  o.open(), o.i(us / 1000000), o.i(us % 1000000), o.close();
  o.i(rd->num_sats());
}
void next(Out &o) {
  // callers use one vector for all epochs of a file
  if (rows.size() != rd->allocate_epoch_vector().size())
    rows = rd->allocate_epoch_vector();
  // an epoch that is delivered sets its time stamp
  const datetime<microseconds> none(modified_julian_day(11111), microseconds(0));
  datetime<microseconds> t(none);
  int n = -7;
  int st = rd->get_next_epoch(t, rows, n);
  o.i(sgn(st));
  o.open();
  if (st <= 0 && n >= 0 && n <= (int)rows.size() && !(t == none)) {
    long long us = t.sec().as_underlying_type();
    o.i((t.mjd().as_underlying_type() - 57023) * 86400 + us / 1000000);
    o.i(us % 1000000);
    o.open();
    for (int k = 0; k < n; k++) {
      const auto &r = rows[k];
      o.open();
      o.i(sysno(r.s_));
      o.i(r.prn_);
      o.open();
      for (int j = 0; j < 3; j++)
        limbs(o, r.vals_[j], 1e3);
      limbs(o, r.vals_[3], 1e6);
      o.close();
      for (auto e : {Sp3Event::bad_abscent_position, Sp3Event::bad_abscent_clock, Sp3Event::clock_event,
                     Sp3Event::clock_prediction, Sp3Event::maneuver, Sp3Event::orbit_prediction})
        o.bl(r.flag_.is_set(e));
      o.close();
    }
    o.close();
  } else if (st == 0) {
    o.i(-7777777); // success without an epoch
  }
  o.close();
}
} // namespace

void h_reset() {
  rd.reset();
  rows.clear();
  errno = 0;
}

void h_op(const std::string &op, const Fields &f, Out &o) {
  if (op == "load") { // kind text
    std::string name = f[0] == "2" ? "bad" : "sp3";
    if (f[0] == "1")
      name = "none";
    else
      put(name, f[1]);
    std::unique_ptr<Sp3c> n(new Sp3c(hc::at(name).c_str()));
    rd = std::move(n);
    return;
  }
  if (op == "damage") {
    const std::string bad = damaged(f);
    put("damaged", bad);
    const int max = budget(bad);
    bool good = true;
    try {
      Sp3c r("damaged");
      auto v = r.allocate_epoch_vector();
      std::string first;
      for (int twice = 0; twice < 3; twice++) {
        Out log;
        int st = 0, k = 0;
        while (!st && k++ <= max) {
          datetime<microseconds> t;
          int n = 0;
          st = r.get_next_epoch(t, v, n);
          log.i(sgn(st));
          if (st <= 0) {
            log.i(n);
            good = good && n >= 0 && n <= (int)v.size();
            for (int i = 0; i < n && i < (int)v.size(); i++)
              log.i(v[i].prn_), log.i(v[i].flag_.bits_);
          }
        }
        good = good && k <= max + 1;
        if (!twice)
          first = log.str();
        good = good && first == log.str();
        r.rewind();
      }
    } catch (const std::exception &) {
    }
    errno = 0;
    o.bl(good);
    return;
  }
  if (!rd)
    return;
  if (op == "head")
    head(o);
  else if (op == "next")
    next(o);
  else if (op == "rewind")
    rd->rewind();
  else if (op == "errno")
    errno = ERANGE; // left behind by the caller's own conversions
  else if (op == "move") {
    int how = I(f[0]);
    std::unique_ptr<Sp3c> n;
    if (how == 0)
      n.reset(new Sp3c(std::move(*rd)));
    else {
      put("other", f[1]);
      n.reset(new Sp3c(hc::at("other").c_str()));
      if (how == 2) {
        Sp3c t(std::move(*rd));
        *n = std::move(t);
      } else
        *n = std::move(*rd);
    }
    rd = std::move(n);
  }
}
