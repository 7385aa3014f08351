#include "common.hpp"
#include "antenna.hpp"
#include "satellite.hpp"
#include "satsys.hpp"
using namespace ngpt;

namespace {
std::unique_ptr<ReceiverAntenna> ra[8];
std::unique_ptr<SatelliteAntenna> sa[8];
std::unique_ptr<Satellite> sv[8];

const char *SYS = "GRSECJIM";
SATELLITE_SYSTEM sysof(int k) {
  static const SATELLITE_SYSTEM t[] = {
      SATELLITE_SYSTEM::gps,    SATELLITE_SYSTEM::glonass, SATELLITE_SYSTEM::sbas,
      SATELLITE_SYSTEM::galileo, SATELLITE_SYSTEM::beidou, SATELLITE_SYSTEM::qzss,
      SATELLITE_SYSTEM::irnss,  SATELLITE_SYSTEM::mixed};
  return t[k];
}
int sysno(SATELLITE_SYSTEM s) {
  for (int k = 0; k < 8; k++)
    if (sysof(k) == s)
      return k;
  return -1;
}
ReceiverAntenna &A(int r) {
  if (!ra[r])
    ra[r].reset(new ReceiverAntenna());
  return *ra[r];
}
SatelliteAntenna &S(int r) {
  if (!sa[r])
    sa[r].reset(new SatelliteAntenna());
  return *sa[r];
}
Satellite &V(int r) {
  if (!sv[r])
    sv[r].reset(new Satellite());
  return *sv[r];
}
void seeA(int r, Out &o) { o.text(std::as_const(A(r)).__underlying_char__()); }
void seeS(int r, Out &o) { o.text(std::as_const(S(r)).__underlying_char__()); }
// a COSPAR id without trailing blanks or NULs
std::string strip(std::string s) {
  while (!s.empty() && (s.back() == ' ' || s.back() == '\0'))
    s.pop_back();
  return s;
}
void seeV(int r, Out &o) {
  const Satellite &c = V(r);
  o.i(sysno(c.system()));
  o.i(c.prn());
  o.i(c.svn());
  o.text(c.antenna().to_string());
  o.text(strip(std::string(V(r).cospar(), detail::COSPAR_ID_CHARS)));
}
// an exactly sized heap copy, so that reading past the terminator is noticed
struct CStr {
  char *p;
  explicit CStr(const std::string &s) : p(new char[s.size() + 1]) {
    std::memcpy(p, s.c_str(), s.size() + 1);
  }
  ~CStr() { delete[] p; }
};
} // namespace

void h_reset() {
  for (auto &x : ra) x.reset();
  for (auto &x : sa) x.reset();
  for (auto &x : sv) x.reset();
}

void h_op(const std::string &op, const Fields &a, Out &o) {
  int r = I(a[0]);
  if (op == "new") { ra[r].reset(new ReceiverAntenna()); seeA(r, o); }
  else if (op == "make") {
    if (I(a[2]) == 0) { CStr c(a[1]); ra[r].reset(new ReceiverAntenna(c.p)); }
    else ra[r].reset(new ReceiverAntenna(a[1]));
    seeA(r, o);
  }
  else if (op == "setser") { CStr c(a[1]); A(r).set_serial_nr(c.p); seeA(r, o); }
  else if (op == "copy") {
    int q = I(a[1]);
    if (q % 2) A(r) = A(q);
    else { std::unique_ptr<ReceiverAntenna> n(new ReceiverAntenna(A(q))); ra[r] = std::move(n); }
    seeA(r, o);
  }
  else if (op == "name") seeA(r, o);
  else if (op == "has") o.bl(A(r).has_serial());
  else if (op == "model") o.bl(A(r).compare_model(A(I(a[1]))));
  else if (op == "same") o.bl(A(r).is_same(A(I(a[1]))));
  else if (op == "cmpser") { CStr c(a[1]); o.bl(A(r).compare_serial(c.p)); }
  else if (op == "snew") { sa[r].reset(new SatelliteAntenna()); seeS(r, o); }
  else if (op == "smake") { CStr c(a[1]); sa[r].reset(new SatelliteAntenna(c.p)); seeS(r, o); }
  else if (op == "sset") { CStr c(a[1]); S(r).set_from_cstr(c.p); seeS(r, o); }
  else if (op == "scopy") { S(r) = S(I(a[1])); seeS(r, o); }
  else if (op == "sis") { CStr c(a[1]); o.bl(S(r).is_same(c.p)); }
  else if (op == "sstr") { o.text(S(r).to_string()); seeS(r, o); }
  else if (op == "vnew") { sv[r].reset(new Satellite()); seeV(r, o); }
  else if (op == "vnew1") { sv[r].reset(new Satellite(sysof(I(a[1])))); seeV(r, o); }
  else if (op == "vnew2") { sv[r].reset(new Satellite(sysof(I(a[1])), I(a[2]))); seeV(r, o); }
  else if (op == "vsys") { V(r).system() = sysof(I(a[1])); seeV(r, o); }
  else if (op == "vprn") { V(r).prn() = I(a[1]); seeV(r, o); }
  else if (op == "vsvn") { V(r).svn() = I(a[1]); seeV(r, o); }
  else if (op == "vant") { V(r).antenna() = SatelliteAntenna(a[1].c_str()); seeV(r, o); }
  else if (op == "vcospar") { std::memcpy(V(r).cospar(), a[1].data(), 9); seeV(r, o); }
  else if (op == "vcopy") { V(r) = V(I(a[1])); seeV(r, o); }
  else if (op == "vget") seeV(r, o);
  else if (op == "vstr") o.text(V(r).to_string());
  else if (op == "vlong") o.text(strip(V(r).to_string(false)));
  else std::_Exit(8);
  (void)SYS;
}
