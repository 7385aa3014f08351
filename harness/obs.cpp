#include "common.hpp"
#include "obsrnx.hpp"
using namespace ngpt;

namespace {
std::unique_ptr<ObservationRnx> rd;
typedef std::vector<std::pair<Satellite, std::vector<double>>> Rows;
typedef std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> Req;
Req none;
decltype(std::declval<ObservationRnx>().set_read_map(none)) rmap;
Rows rows;

const char *SYS = "GRSECJIM";
SATELLITE_SYSTEM sysof(char c) { return char_to_satsys(c); }
int sysno(SATELLITE_SYSTEM s) {
  const char *p = std::strchr(SYS, satsys_to_char(s));
  return p ? int(p - SYS) : -1;
}
void put(const std::string &name, const std::string &text) {
  if (hc::holds(name, text))
    return; // another reader may be reading it
  std::ofstream f(hc::at(name), std::ios::binary | std::ios::trunc);
  f.write(text.data(), std::streamsize(text.size()));
}
int sgn(int s) { return s < 0 ? -1 : s > 0; }
std::string part(const std::string &s, char sep, std::size_t &p) {
  std::size_t q = s.find(sep, p);
  std::string r = s.substr(p, q == std::string::npos ? q : q - p);
  p = q == std::string::npos ? q : q + 1;
  return r;
}
void limbs(Out &o, long long n) {
  long long h = n >= 0 ? n / 1000000 : -((999999 - n) / 1000000);
  if (h > 2000000000LL || h < -2000000000LL)
    h = 2000000000LL;
  o.i(h);
  o.i(n - h * 1000000 < 1000000 ? n - h * 1000000 : -1);
}
void dbl(Out &o, double v, double scale) { // limbs of v*scale (exact or refused)
  double x = v * scale, n = std::nearbyint(x);
  if (!std::isfinite(x) || std::fabs(x) > 1e15 || std::fabs(x - n) > 0.2) {
    o.i(-7777777);
    o.i(7777777);
  } else
    limbs(o, (long long)n);
}
void value(Out &o, double v) {
  o.open();
  if (v == RNXOBS_MISSING_VAL) {
    o.i(0), o.i(0), o.i(0);
  } else {
    o.i(1);
    dbl(o, v, 4000e0);
  }
  o.close();
}
// "G:G.C1C*4+G.C2W*2;G.L1C*4|R:..."
Req parse(const std::string &t) {
  Req r;
  std::size_t p = 0;
  while (p < t.size()) {
    std::string one = part(t, '|', p);
    std::size_t q = 2;
    auto &vec = r[sysof(one[0])];
    while (q < one.size()) {
      std::string o = part(one, ';', q);
      std::size_t k = 0;
      bool first = true;
      while (k < o.size()) {
        std::string x = part(o, '+', k);
        ObservationCode c(x.substr(2, 3).c_str());
        double coef = std::stoi(x.substr(6)) / 4e0;
        if (first)
          vec.emplace_back(sysof(x[0]), c, coef);
        else
          vec.back().add(sysof(x[0]), c, coef);
        first = false;
      }
    }
  }
  return r;
}
std::string line_of(const std::string &t, const char *label) {
  std::size_t p = t.find(std::string("\n") + label);
  if (p == std::string::npos)
    return "<none>";
  p += 1 + std::strlen(label);
  std::size_t q = t.find('\n', p);
  return t.substr(p, q == std::string::npos ? q : q - p);
}
void head(Out &o) {
  std::ostringstream s;
  s.precision(16);
  std::streambuf *old = std::cout.rdbuf(s.rdbuf());
  auto pr = std::cout.precision(16);
  rd->print_members();
  std::cout.rdbuf(old);
  std::cout.precision(pr);
  std::string t = s.str();
  std::string sys = line_of(t, "Satellite Sys:");
  const char *p = sys.size() == 1 ? std::strchr(SYS, sys[0]) : nullptr;
  o.i(p ? p - SYS : -1);
  o.i((long long)std::nearbyint(100 * std::strtod(line_of(t, "Version      :").c_str(), nullptr)));
  for (const char *l : {"Marker Name  :", "Marker Number:", "Receiver Sn  :", "Receiver Type:"})
    o.text(line_of(t, l));
  o.text(line_of(t, "Antenna Type :").substr(0, 20));
  o.bl(line_of(t, "Antenna Sn   :") == "1");
  double v[3] = {rd->x_approx(), rd->y_approx(), rd->z_approx()};
  for (int k = 0; k < 2; k++) {
    o.open();
    for (int j = 0; j < 3; j++) {
      o.open();
      dbl(o, v[j], 1e4);
      o.close();
    }
    o.close();
    v[0] = v[1] = v[2] = -1e14;
    std::sscanf(line_of(t, "Eccentricity :").c_str(), "%lf, %lf, %lf", v, v + 1, v + 2);
  }
  o.bl(line_of(t, "Rcv Clk Off  :") == "Yes");
  o.i(rd->max_obs());
  o.open();
  std::size_t q = t.find("\nRcv Clk Off");
  q = t.find('\n', q + 1);
  while (q != std::string::npos) {
    std::size_t e = t.find('\n', q + 1);
    std::istringstream w(t.substr(q + 1, e == std::string::npos ? e : e - q - 1));
    std::string x;
    w >> x;
    const char *c = std::strchr(SYS, x.size() == 1 ? x[0] : '*');
    o.open();
    o.i(c ? c - SYS : -1);
    o.open();
    while (w >> x)
      o.s(x);
    o.close();
    o.close();
    q = e;
  }
  o.close();
}
} // namespace

void h_reset() {
  rd.reset();
  rmap.clear();
  rows.clear();
  errno = 0;
}

void h_op(const std::string &op, const Fields &f, Out &o) {
  if (op == "load") { // kind text
    std::string name = f[0] == "2" ? "bad" : "obs";
    if (f[0] == "1")
      name = "none";
    else
      put(name, f[1]);
    std::unique_ptr<ObservationRnx> n(new ObservationRnx(hc::at(name).c_str()));
    rd = std::move(n);
    rmap.clear();
    rows.clear();
    return;
  }
  if (op == "damage") {
    const std::string bad = damaged(f);
    put("damaged", bad);
    const int max = budget(bad);
    bool good = true;
    try {
      ObservationRnx r("damaged");
      Req q = parse("G:G.C1C*4;G.L1C*4;G.C1C*4+G.L1C*2|R:R.C1C*4|E:E.C1X*4");
      auto m = r.set_read_map(q, true);
      Rows w = r.initialize_epoch_vector(m);
      r.max_obs();
      std::string first;
      for (int twice = 0; twice < 3; twice++) {
        Out log;
        int st = 0, k = 0;
        while (!st && k++ <= max) {
          modified_julian_day d;
          double s = -1;
          int n = 0;
          st = r.read_next_epoch(m, w, n, d, s);
          log.i(sgn(st));
          if (!st) {
            log.i(n);
            log.i((long long)(s * 1e3));
            for (int i = 0; i < n && i < (int)w.size(); i++)
              log.i(w[i].first.prn());
            good = good && n >= 0 && n <= (int)w.size();
          }
        }
        good = good && k <= max + 1;
        if (!twice)
          first = log.str();
        good = good && first == log.str();
        r.rewind();
      }
    } catch (const std::exception &) {
    }
    errno = 0;
    o.bl(good);
    return;
  }
  if (op == "field") { // 16 columns
    char t[20];
    std::snprintf(t, sizeof t, "%-16s", f[0].c_str());
    RawRnxObs__ x;
    x.__val = 1e9;
    x.__lli = x.__ssi = 0;
    o.i(sgn(x.resolve(t)));
    value(o, x.__val);
    bool m = x.__val == RNXOBS_MISSING_VAL;
    o.i(m ? 0 : x.__lli);
    o.i(m ? 0 : x.__ssi);
    return;
  }
  if (op == "errno") {
    errno = ERANGE; // left behind by the caller's own conversions
    return;
  }
  if (!rd)
    return;
  if (op == "head") {
    head(o);
  } else if (op == "first") {
    auto t = rd->time_of_first_obs();
    o.i((t.mjd().as_underlying_type() - 57023) * 86400LL + t.sec().as_underlying_type() / 1000000);
    o.i(t.sec().as_underlying_type() % 1000000);
  } else if (op == "request") { // skip text
    Req q = parse(f[1]);
    rmap = f[0] == "1" ? rd->set_read_map(q, true) : rd->set_read_map(q);
    rows = rd->initialize_epoch_vector(rmap);
    o.open();
    for (auto &x : rmap) {
      o.open();
      o.i(sysno(x.first));
      o.open();
      for (auto &v : x.second) {
        o.open();
        for (auto &c : v) {
          o.open();
          o.i((long long)c.first + 1);
          num(o, c.second, 4);
          o.close();
        }
        o.close();
      }
      o.close();
      o.close();
    }
    o.close();
    o.open();
    if (!rmap.empty())
      for (auto &x : q) {
        if (x.second.empty())
          continue;
        o.open();
        o.i(sysno(x.first));
        o.open();
        for (auto &v : x.second) {
          o.open();
          for (auto &c : v.underlying_vector()) {
            o.open();
            o.i(sysno(c.type().satsys()));
            o.s(c.type().code().to_string());
            num(o, c.__coef, 4);
            o.close();
          }
          o.close();
        }
        o.close();
        o.close();
      }
    o.close();
  } else if (op == "next") {
    modified_julian_day d(0);
    double s = -1;
    int n = -5;
    if (rows.empty())
      rows = rd->initialize_epoch_vector(rmap);
    int st = rd->read_next_epoch(rmap, rows, n, d, s);
    o.i(sgn(st));
    o.open();
    if (!st) {
      double x = std::nearbyint(s * 1e7);
      if (!(x >= 0 && x < 1e13))
        x = 0;
      o.i((d.as_underlying_type() - 57023) * 86400LL + (long long)x / 10000000);
      o.i((long long)x % 10000000);
      o.open();
      for (int k = 0; k < n; k++) {
        o.open();
        o.i(sysno(rows[k].first.system()));
        o.i(rows[k].first.prn());
        o.open();
        std::size_t m = rmap[rows[k].first.system()].size();
        for (std::size_t j = 0; j < m; j++)
          value(o, rows[k].second[j]);
        o.close();
        o.close();
      }
      o.close();
    }
    o.close();
  } else if (op == "rewind") {
    rd->rewind();
  } else if (op == "move") {
    int how = I(f[0]);
    std::unique_ptr<ObservationRnx> n;
    if (how == 0) {
      n.reset(new ObservationRnx(std::move(*rd)));
    } else {
      put("other", f[1]);
      n.reset(new ObservationRnx(hc::at("other").c_str()));
      if (how == 2) {
        ObservationRnx t(std::move(*rd));
        *n = std::move(t);
      } else
        *n = std::move(*rd);
    }
    rd = std::move(n);
  }
}
