#include "common.hpp"
#include "navrnx.hpp"
using namespace ngpt;

namespace {
std::unique_ptr<NavigationRnx> rd;
NavDataFrame frame;
NavigationRnx::pos_type mark(-1);
const char *SYS = "GRSECJIM";
SATELLITE_SYSTEM sysof(int k) { return char_to_satsys(SYS[k]); }
int sysno(SATELLITE_SYSTEM s) {
  const char *p = std::strchr(SYS, satsys_to_char(s));
  return p ? int(p - SYS) : -1;
}
template <typename T> datetime<T> epoch(long t, long ms) { // since 2015-01-01
  long d = t >= 0 ? t / 86400 : -((86399 - t) / 86400);
  return datetime<T>(modified_julian_day(57023 + d),
                     T((t - d * 86400) * T::template sec_factor<long>() +
                       ms * T::template sec_factor<long>() / 1000));
}
long since(const datetime<seconds> &d) {
  return (d.mjd().as_underlying_type() - 57023) * 86400 + d.sec().as_underlying_type();
}
void put(const std::string &name, const std::string &text) {
  if (hc::holds(name, text))
    return; // another reader may be reading it
  std::ofstream f(hc::at(name), std::ios::binary | std::ios::trunc);
  f.write(text.data(), std::streamsize(text.size()));
}
// m * 10^e, m not a multiple of ten
void value(Out &o, double v, int digits = 12) {
  char t[64];
  std::snprintf(t, sizeof t, "%.*e", digits, v);
  long long m = 0;
  int e = -digits;
  char *q = t;
  bool neg = *q == '-';
  for (; *q && *q != 'e'; ++q)
    if (*q >= '0' && *q <= '9')
      m = 10 * m + (*q - '0');
  if (*q)
    e += std::atoi(q + 1);
  while (m && m % 10 == 0) {
    m /= 10;
    ++e;
  }
  o.open();
  if (!std::isfinite(v) || m > 2000000000LL) {
    o.i(-7777777);
    o.i(99);
  } else {
    o.i(neg ? -m : m);
    o.i(m ? e : 0);
  }
  o.close();
}
int sgn(int s) { return s < 0 ? -1 : s > 0; }
void show(int st, const NavDataFrame &f, Out &o) {
  o.i(sgn(st));
  o.open();
  if (!st) {
    o.i(sysno(f.system()));
    o.i(f.prn());
    o.i(since(f.toc()));
    o.open();
    if (std::strchr("GREC", satsys_to_char(f.system())))
      o.i(since(f.toe<seconds>()));
    else if (!(f.toe<seconds>() == NavDataFrame().toe<seconds>()))
      o.i(-7777777); // of another record
    o.close();
    o.open();
    for (int k = 0; k < 31; k++)
      value(o, f.data(k));
    o.close();
  }
  o.close();
}
int valid(NavigationRnx &r, int res, long t, long ms, int y, int p, NavDataFrame &f,
          NavigationRnx::pos_type &m) {
  return res ? r.find_next_valid(epoch<seconds>(t, 0), m, f, sysof(y), p)
             : r.find_next_valid(epoch<milliseconds>(t, ms), m, f, sysof(y), p);
}
} // namespace

void h_reset() {
  rd.reset();
  frame = NavDataFrame();
  mark = -1;
  errno = 0;
}

void h_op(const std::string &op, const Fields &f, Out &o) {
  if (op == "load") { // missing text
    std::string name = f[0] == "2" ? "bad" : "nav";
    if (f[0] == "1")
      name = "none";
    else
      put(name, f[1]);
    std::unique_ptr<NavigationRnx> n(new NavigationRnx(hc::at(name).c_str()));
    rd = std::move(n);
    mark = -1;
    return;
  }
  if (op == "damage") {
    const std::string bad = damaged(f);
    put("damaged", bad);
    const int max = budget(bad);
    bool good = true;
    try {
      for (int pass = 0; pass < 5; pass++) {
        NavigationRnx r("damaged");
        std::string first;
        for (int twice = 0; twice < 3; twice++) {
          Out log;
          int st = 0, n = 0;
          NavDataFrame g;
          NavigationRnx::pos_type m;
          while (!st && n++ <= max) {
            if (pass == 0)
              st = r.read_next_record(g);
            else if (pass == 1) {
              r.peak_satsys(st);
              st = st ? st : r.ignore_next_block();
            } else if (pass == 2)
              st = r.find_next(m, g, sysof(twice), -1);
            else if (pass == 3)
              st = r.find_next(m, g, sysof(n % 4), 1 + n % 2);
            else
              st = valid(r, 0, 3600 * n, 0, n % 4, 1, g, m);
            log.i(sgn(st));
            if (!st && pass != 1)
              log.i(g.prn());
          }
          good = good && n <= max + 1;
          if (pass != 2) {
            if (!twice)
              first = log.str();
            good = good && first == log.str();
          }
          r.rewind();
        }
      }
    } catch (const std::exception &) {
    }
    errno = 0;
    o.bl(good);
    return;
  }
  if (!rd)
    return;
  if (op == "read") {
    int st = rd->read_next_record(frame);
    show(st, frame, o);
  } else if (op == "peek") {
    int st = 77;
    SATELLITE_SYSTEM s = rd->peak_satsys(st);
    o.i(sgn(st));
    o.i(st ? -1 : sysno(s));
  } else if (op == "skip") {
    o.i(sgn(rd->ignore_next_block()));
  } else if (op == "rewind") {
    rd->rewind();
  } else if (op == "back") {
    rd->rewind(mark);
  } else if (op == "find") { // sys prn
    int st = I(f[1]) < 0 ? rd->find_next(mark, frame, sysof(I(f[0])))
                         : rd->find_next(mark, frame, sysof(I(f[0])), I(f[1]));
    show(st, frame, o);
  } else if (op == "valid") { // res t ms sys prn
    int st = valid(*rd, I(f[0]), std::stol(f[1]), std::stol(f[2]), I(f[3]), I(f[4]), frame, mark);
    show(st, frame, o);
  } else if (op == "attr") {
    int h = -999;
    long fit = -999;
    try {
      h = frame.sv_health();
    } catch (const std::runtime_error &) {
    }
    try {
      fit = frame.fit_interval();
    } catch (const std::runtime_error &) {
    }
    o.i(h);
    o.i(fit);
    char s = satsys_to_char(frame.system());
    value(o, s == 'G' ? frame.gps_ura() : s == 'E' ? frame.gal_sisa() : 0e0, 5);
    o.i(s == 'E' ? frame.gal_iod_nav() : 0);
  } else if (op == "errno") {
    errno = ERANGE; // left behind by the caller's own conversions
  } else if (op == "move") {
    int how = I(f[0]);
    std::unique_ptr<NavigationRnx> n;
    if (how == 0) {
      n.reset(new NavigationRnx(std::move(*rd)));
    } else {
      put("other", f[1]);
      n.reset(new NavigationRnx(hc::at("other").c_str()));
      if (how == 2) {
        NavigationRnx t(std::move(*rd));
        *n = std::move(t);
      } else
        *n = std::move(*rd);
    }
    rd = std::move(n);
  }
}
