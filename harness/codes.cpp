#include "common.hpp"
#include <algorithm>
#include "gnssobs.hpp"
#include "gnssobsrv.hpp"
#include "satsys.hpp"
using namespace ngpt;

namespace {
std::unique_ptr<ObservationCode> code[8];
std::unique_ptr<GnssObservable> obs[8];

const SATELLITE_SYSTEM SYS[] = {
    SATELLITE_SYSTEM::gps,    SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas,
    SATELLITE_SYSTEM::galileo, SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss,
    SATELLITE_SYSTEM::irnss,  SATELLITE_SYSTEM::mixed};
const OBSERVABLE_TYPE TYP[] = {
    OBSERVABLE_TYPE::pseudorange,            OBSERVABLE_TYPE::carrier_phase,
    OBSERVABLE_TYPE::doppler,                OBSERVABLE_TYPE::signal_strength,
    OBSERVABLE_TYPE::ionosphere_phase_delay, OBSERVABLE_TYPE::receiver_channel_number,
    OBSERVABLE_TYPE::any};
int sysno(SATELLITE_SYSTEM s) {
  for (int k = 0; k < 8; k++) if (SYS[k] == s) return k;
  return -1;
}
int typno(OBSERVABLE_TYPE s) {
  for (int k = 0; k < 7; k++) if (TYP[k] == s) return k;
  return -1;
}
ObservationCode &C(int r) {
  if (!code[r]) code[r].reset(new ObservationCode());
  return *code[r];
}
void see(int r, Out &o) {
  const ObservationCode &c = C(r);
  auto t = c.get<0>();
  auto at = c.get<2>();
  o.i(typno(t));
  o.i(c.band());
  o.i((unsigned char)at.as_char());
  if (c.band() >= 0 && c.band() <= 9) o.text(c.to_string());
  else { o.open(); o.close(); }
}
// a[k..]: "sys,type,band,attr,coef,eps" of a part
struct P { SATELLITE_SYSTEM s; ObservationCode c; double f; };
P part(const std::string &s) {
  int v[6]; std::sscanf(s.c_str(), "%d,%d,%d,%d,%d,%d", v, v + 1, v + 2, v + 3, v + 4, v + 5);
  return P{SYS[v[0]], ObservationCode(TYP[v[1]], v[2], ObservationAttribute(char(v[3]))), v[4] / 8e0 + v[5] / 1073741824e0};
}
void seeO(int r, Out &o) {
  const GnssObservable &c = *obs[r];
  o.text(c.to_string());
  o.i((long long)c.underlying_vector().size());
  o.bl(c.is_of_mixed_satsys());
}
template <SATELLITE_SYSTEM S> void table(int b, Out &o) {
  auto &m = satellite_system_traits<S>::frequency_map;
  auto it = m.find(b);
  o.bl(it != m.end());
  if (it == m.end()) o.i(0); else num(o, it->second, 1e3);
}
template <SATELLITE_SYSTEM S> void attr(int b, Out &o) {
  auto &m = satellite_system_traits<S>::valid_atributes;
  auto it = m.find(b);
  o.bl(it != m.end());
  std::string t = it == m.end() ? std::string() : it->second;
  std::sort(t.begin(), t.end());
  o.text(t);
}
template <SATELLITE_SYSTEM S> void band(int b, Out &o) {
  num(o, satellite_system_traits<S>::band2frequency(b), 1e3);
}
template <SATELLITE_SYSTEM S> void consts(Out &o) {
  typedef satellite_system_traits<S> T;
  o.s(tok(T::mi(), 10)); o.s(tok(T::omegae_dot(), 10)); o.s(tok(T::f_clock(), 10));
}
#define BYSYS(F, k, ...)                                                      \
  switch (k) {                                                                \
  case 0: F<SATELLITE_SYSTEM::gps>(__VA_ARGS__); break;                       \
  case 2: F<SATELLITE_SYSTEM::sbas>(__VA_ARGS__); break;                      \
  case 3: F<SATELLITE_SYSTEM::galileo>(__VA_ARGS__); break;                   \
  case 4: F<SATELLITE_SYSTEM::beidou>(__VA_ARGS__); break;                    \
  case 5: F<SATELLITE_SYSTEM::qzss>(__VA_ARGS__); break;                      \
  case 6: F<SATELLITE_SYSTEM::irnss>(__VA_ARGS__); break;                     \
  default: std::_Exit(8);                                                     \
  }
} // namespace

void h_reset() {
  for (auto &x : code) x.reset();
  for (auto &x : obs) x.reset();
}

void h_op(const std::string &op, const Fields &a, Out &o) {
  int r = I(a[0]);
  if (op == "char2sys") o.i(sysno(char_to_satsys(char(r))));
  else if (op == "sys2char") o.i((unsigned char)satsys_to_char(SYS[r]));
  else if (op == "char2typ") o.i(typno(char_to_observabletype(char(r))));
  else if (op == "typ2char") o.i((unsigned char)observabletype_to_char(TYP[r]));
  else if (op == "cparse") {
    std::unique_ptr<char[]> c(new char[a[1].size() + 1]);
    std::memcpy(c.get(), a[1].c_str(), a[1].size() + 1);
    std::unique_ptr<ObservationCode> n(new ObservationCode(c.get()));
    code[r] = std::move(n);
    see(r, o);
  }
  else if (op == "cmake") {
    code[r].reset(new ObservationCode(TYP[I(a[1])], I(a[2]), ObservationAttribute(char(I(a[3])))));
    see(r, o);
  }
  else if (op == "cdefault") { code[r].reset(new ObservationCode()); see(r, o); }
  else if (op == "cband") {
    if (I(a[1]) % 2) C(r).band() = I(a[1]); else C(r).get<1>() = I(a[1]);
    see(r, o);
  }
  else if (op == "ctype") { C(r).get<0>() = TYP[I(a[1])]; see(r, o); }
  else if (op == "cattr") { C(r).get<2>() = ObservationAttribute(char(I(a[1]))); see(r, o); }
  else if (op == "ccopy") { ObservationCode t(C(I(a[1]))); C(r) = t; see(r, o); }
  else if (op == "csee") see(r, o);
  else if (op == "ceq") { int q = I(a[1]); o.bl(C(r) == C(q)); o.bl(C(r) != C(q)); }
  else if (op == "cbind") {
    const ObservationCode c = C(r);
    if (I(a[1])) { auto [t, b, x] = C(r); o.i(typno(t)); o.i(b); o.i((unsigned char)x.as_char()); }
    else { o.i(typno(c.get<0>())); o.i(c.get<1>()); o.i((unsigned char)c.get<2>().as_char()); }
  }
  else if (op == "cwrite") {
    auto &[t, b, x] = C(r);
    if (I(a[1]) == 1) t = TYP[I(a[2])];
    else if (I(a[1]) == 2) b = I(a[2]);
    else x = ObservationAttribute(char(I(a[2])));
    see(r, o);
  }
  else if (op == "ateq") {
    const ObservationAttribute x{char(r)}, y{char(I(a[1]))};
    o.bl(x == y); o.bl(x != y);
  }
  else if (op == "rbind") {
    const GnssRawObservable cg(SYS[r], C(I(a[1])));
    GnssRawObservable g = cg;
    auto show = [&](SATELLITE_SYSTEM s, const ObservationCode &c) {
      o.i(sysno(s)); o.i(typno(c.get<0>())); o.i(c.band()); o.i((unsigned char)c.get<2>().as_char());
    };
    if (I(a[3])) {
      { auto [s, c] = g; show(s, c); }
      g.get<0>() = SYS[I(a[2])];
      show(g.get<0>(), g.get<1>());
    } else {
      show(cg.get<0>(), cg.get<1>());
      g.satsys() = SYS[I(a[2])];
      show(std::as_const(g).satsys(), g.code());
    }
  }
  else if (op == "rstr") {
    const GnssRawObservable g(SYS[r], C(I(a[1])));
    o.text(g.to_string()); o.i(sysno(g.satsys())); o.i(g.band());
  }
  else if (op == "req") {
    GnssRawObservable g(SYS[r], C(I(a[1]))), h(SYS[I(a[2])], C(I(a[3])));
    o.bl(g == h); o.bl(g != h);
  }
  else if (op == "fpart") {
    __ObsPart p(SYS[r], ObservationCode(TYP[0], I(a[1]), ObservationAttribute('C')), I(a[2]) / 8e0);
    num(o, p.frequency(), 8e3);
  }
  else if (op == "fband") { BYSYS(band, r, I(a[1]), o) }
  else if (op == "ftable") {
    if (r == 1) table<SATELLITE_SYSTEM::glonass>(I(a[1]), o);
    else BYSYS(table, r, I(a[1]), o)
  }
  else if (op == "fattr") {
    if (r == 1) attr<SATELLITE_SYSTEM::glonass>(I(a[1]), o);
    else if (r == 7) { o.bl(false); o.text(""); }
    else BYSYS(attr, r, I(a[1]), o)
  }
  else if (op == "fconst") {
    if (r == 0) consts<SATELLITE_SYSTEM::gps>(o);
    else if (r == 3) consts<SATELLITE_SYSTEM::galileo>(o);
    else consts<SATELLITE_SYSTEM::beidou>(o);
  }
  else if (op == "onew") {
    P p = part(a[1]);
    if (I(a[2]) == 2) obs[r].reset(new GnssObservable(GnssRawObservable(p.s, p.c)));
    else if (I(a[2]) == 3) obs[r].reset(new GnssObservable(p.s, p.c));
    else if (I(a[2])) obs[r].reset(new GnssObservable(GnssRawObservable(p.s, p.c), p.f));
    else obs[r].reset(new GnssObservable(p.s, p.c, p.f));
    seeO(r, o);
  }
  else if (op == "oadd") {
    P p = part(a[1]);
    if (I(a[2]) == 2) obs[r]->add(GnssRawObservable(p.s, p.c));
    else if (I(a[2]) == 3) obs[r]->add(p.s, p.c);
    else if (I(a[2])) obs[r]->add(GnssRawObservable(p.s, p.c), p.f);
    else obs[r]->add(p.s, p.c, p.f);
    seeO(r, o);
  }
  else if (op == "ocopy") {
    std::unique_ptr<GnssObservable> n(new GnssObservable(*obs[I(a[1])]));
    obs[r] = std::move(n);
    seeO(r, o);
  }
  else if (op == "opart") {
    const __ObsPart p = std::as_const(*obs[r]).underlying_vector().at(I(a[1]) - 1);
    const GnssRawObservable g = p.type();
    auto c = g.code();
    o.open(); o.i(sysno(g.satsys())); o.i(typno(c.get<0>())); o.i(g.band());
    o.i((unsigned char)c.get<2>().as_char()); const double e = std::nearbyint(p.__coef * 8);
    num(o, e, 1); num(o, p.__coef - e / 8, 1073741824e0); o.close();
    o.text(p.to_string());
  }
  else if (op == "oset") {
    P p = part(a[2]);
    __ObsPart &q = obs[r]->underlying_vector().at(I(a[1]) - 1);
    if (p.f == 1e0) q = I(a[1]) % 2 ? __ObsPart(p.s, p.c) : __ObsPart(GnssRawObservable(p.s, p.c));
    else q = I(a[1]) % 2 ? __ObsPart(GnssRawObservable(p.s, p.c), p.f) : __ObsPart(p.s, p.c, p.f);
    seeO(r, o);
  }
  else if (op == "odrop") {
    auto &v = obs[r]->underlying_vector();
    v.erase(v.begin() + (I(a[1]) - 1));
    seeO(r, o);
  }
  else if (op == "peq") {
    const __ObsPart x = obs[r]->underlying_vector().at(I(a[1]) - 1), y = obs[I(a[2])]->underlying_vector().at(I(a[3]) - 1);
    o.bl(x == y); o.bl(x != y);
  }
  else if (op == "hollow") {
    GnssObservable x(*obs[r]), y(*obs[r]);
    x.underlying_vector().clear(); y.underlying_vector().clear();
    o.bl(x == y); o.bl(x != y); o.bl(x.is_of_mixed_satsys()); num(o, x.frequency(), 8e3);
    o.bl(x == *obs[r]); o.bl(*obs[r] != x);
  }
  else if (op == "osee") seeO(r, o);
  else if (op == "oeq") { const GnssObservable &x = *obs[r], &y = *obs[I(a[1])]; o.bl(x == y); o.bl(x != y); }
  else if (op == "ofreq") {
    const double f = std::as_const(*obs[r]).frequency() * 8e3, n = std::nearbyint(f);
    num(o, std::abs(f - n) < .3 ? n : f, 1);   // eps is not seen
  }
  else std::_Exit(8);
}
