#include "common.hpp"
#include "antex.hpp"
using namespace ngpt;

namespace {
std::unique_ptr<Antex> rd;

const char *SYS = "GRSECJIM";
SATELLITE_SYSTEM sysof(int k) { return char_to_satsys(SYS[k]); }
int sysno(SATELLITE_SYSTEM s) {
  const char *p = std::strchr(SYS, satsys_to_char(s));
  return p ? int(p - SYS) : -1;
}
datetime<seconds> epoch(long t) { // seconds since 2015-01-01
  return datetime<seconds>(modified_julian_day(57023 + (t >= 0 ? t / 86400 : -((86399 - t) / 86400))),
                           seconds(((t % 86400) + 86400) % 86400));
}
void put(const std::string &name, const std::string &text) {
  if (hc::holds(name, text))
    return; // another reader may be reading it
  std::ofstream f(hc::at(name), std::ios::binary | std::ios::trunc);
  f.write(text.data(), std::streamsize(text.size()));
}
void pcos(AntennaPcoList &l, Out &o) {
  o.open();
  for (auto &p : l.__vecref__()) {
    std::ostringstream s;
    s.precision(15);
    p.dummy_print(s); // "G[?1?] n, e, u"
    std::string t = s.str();
    double n = 0, e = 0, u = 0;
    char sys = 0, b[8] = {0};
    o.open();
    if (std::sscanf(t.c_str(), "%c[%*c%7[0-9]%*c] %lf, %lf, %lf", &sys, b, &n, &e, &u) == 5) {
      const char *q = std::strchr(SYS, sys);
      o.i(q ? q - SYS : -1);
      o.i(std::atoi(b));
      num(o, n, 100);
      num(o, e, 100);
      num(o, u, 100);
    } else
      o.s(t);
    o.close();
  }
  o.close();
}
void satf(int st, Satellite &s, Out &o) {
  o.open();
  if (!st) {
    o.i(sysno(s.system()));
    o.i(s.prn());
    o.i(s.svn());
    o.text(s.antenna().to_string());
    std::string c(s.cospar(), strnlen(s.cospar(), detail::COSPAR_ID_CHARS));
    while (!c.empty() && (c.back() == ' ' || c.back() == '\0'))
      c.pop_back();
    o.text(c);
  }
  o.close();
}
// something must be replaced by a query, never appended to
void junk(AntennaPcoList &l) {
  l.__vecref__().emplace_back(ObservationCode("C1C"), SATELLITE_SYSTEM::gps, 1., 2., 3.);
}
int rec(Antex &r, const std::string &name, const std::string &ser, int must, Out &o) {
  ReceiverAntenna a(name.c_str());
  if (!ser.empty())
    a.set_serial_nr(ser.c_str());
  AntennaPcoList l;
  junk(l);
  int st = r.get_antenna_pco(a, l, must != 0);
  o.i(st);
  pcos(l, o);
  if (!must) { // any serial is fine unless asked otherwise
    AntennaPcoList m;
    Out x, y;
    const int same = r.get_antenna_pco(a, m);
    pcos(l, x), pcos(m, y);
    if (same != st || x.str() != y.str()) o.s("another answer without the argument");
  }
  return st;
}
int sat(Antex &r, int sys, int prn, long t, Out &o) {
  AntennaPcoList l;
  junk(l);
  Satellite s;
  int st = r.get_antenna_pco(prn, sysof(sys), epoch(t), l, &s);
  o.i(st);
  satf(st, s, o);
  pcos(l, o);
  { // the satellite need not be asked for
    AntennaPcoList m;
    Out x, y;
    const int same = r.get_antenna_pco(prn, sysof(sys), epoch(t), m);
    pcos(l, x), pcos(m, y);
    if (same != st || (!st && x.str() != y.str())) o.s("another answer without a satellite");
  }
  return st;
}
} // namespace

void h_reset() { rd.reset(); }

void h_op(const std::string &op, const Fields &f, Out &o) {
  if (op == "new") {
    rd.reset(new Antex());
  } else if (op == "load") { // how file missing text
    if (f[2] == "1")
      std::remove(hc::at(f[1]).c_str());
    else
      put(f[1], f[3]);
    if (f[0] == "1") {
      if (!rd)
        rd.reset(new Antex());
      rd->reset_to_file(hc::at(f[1]).c_str());
    } else {
      std::unique_ptr<Antex> n(new Antex(hc::at(f[1]).c_str()));
      rd = std::move(n);
    }
  } else if (op == "damage") { // text: whatever the answers, they can be repeated
    put("damaged", damaged(f));
    std::string first;
    bool same = true;
    for (int pass = 0; pass < 2; pass++) {
      std::unique_ptr<Antex> r;
      try {
        r.reset(new Antex("damaged"));
      } catch (const std::exception &) {
      }
      for (int twice = 0; twice < 2; twice++) {
        Out log;
        if (r)
          for (int k = 0; k < 2; k++) {
            rec(*r, "TRM59800.00     SCIS", k ? "5210" : "", k, log);
            rec(*r, "LEIAR25.R4      LEIT", "", 0, log);
            for (long t : {-1L, 50L, 120L})
              for (int y : {0, 1})
                sat(*r, y, 1 + k, t, log);
            Satellite s;
            log.i(r->get_satellite_info(1, SATELLITE_SYSTEM::gps, epoch(50), s));
          }
        if (!pass && !twice)
          first = log.str();
        same = same && first == log.str();
      }
    }
    o.bl(same);
  } else {
    if (!rd)
      rd.reset(new Antex());
    if (op == "rec") {
      rec(*rd, f[0], f[1], I(f[2]), o);
    } else if (op == "sat") {
      sat(*rd, I(f[0]), I(f[1]), std::stol(f[2]), o);
    } else if (op == "info") {
      Satellite s;
      s.svn() = 777;
      int st = rd->get_satellite_info(I(f[1]), sysof(I(f[0])), epoch(std::stol(f[2])), s);
      o.i(st);
      satf(st, s, o);
    } else if (op == "move") {
      int how = I(f[0]);
      std::unique_ptr<Antex> n;
      if (how == 0) {
        n.reset(new Antex(std::move(*rd)));
      } else if (how == 1) { // into one that is bound to another file
        put("other", f[1]);
        n.reset(new Antex(hc::at("other").c_str()));
        *n = std::move(*rd);
      } else if (how == 2) { // there and back
        Antex t(std::move(*rd));
        n.reset(new Antex());
        *n = std::move(t);
      } else { // moved-from object is given a new life, then destroyed
        n.reset(new Antex(std::move(*rd)));
        put("other", f[1]);
        rd->reset_to_file(hc::at("other").c_str());
      }
      rd = std::move(n);
    }
  }
}
