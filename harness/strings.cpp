#include "common.hpp"
#include <cerrno>
#include "nvarstr.hpp"
#include "rinex.hpp"
using namespace ngpt;
namespace {
std::string text;
struct CStr {
  char *p;
  explicit CStr(const std::string &s) : p(new char[s.size() + 1]) { std::memcpy(p, s.c_str(), s.size() + 1); }
  ~CStr() { delete[] p; }
};
template <int M> bool conv(int n, bool rt, const char *l, double *d) {
  if (rt) return __char2double__<M>(l, d, n);
  switch (n) {
  case 1: return __char2double__<1, M>(l, d);
  case 2: return __char2double__<2, M>(l, d);
  case 3: return __char2double__<3, M>(l, d);
  default: return __char2double__<4, M>(l, d);
  }
}
} // namespace
void h_reset() { text.clear(); }
void h_op(const std::string &op, const Fields &a, Out &o) {
  using namespace str_algorithm_details;
  std::size_t pos = 777777;
  if (op == "set") { text = a[0]; o.text(text); }
  else if (op == "for2cpp") {
    CStr c(text); __for2cpp__(c.p); text = c.p; o.text(text);
  }
  else if (op == "nums") {
    // a: M, number of fields, rendered line, run-time variant?
    int m = I(a[0]), n = I(a[1]);
    CStr c(a[2]);
    double d[8] = {0};
    errno = 0;
    bool rt = I(a[3]), ok = m == 10 ? conv<10>(n, rt, c.p, d) : m == 14 ? conv<14>(n, rt, c.p, d) : conv<19>(n, rt, c.p, d);
    o.bl(ok);
    o.open();
    if (ok) for (int k = 0; k < n; k++) num(o, d[k], 1e3);
    o.close();
    errno = 0;
  }
  else if (op == "year") o.i(rinex::four2two_digit_year(I(a[0])));
  else {
    CStr c(text);
    std::size_t stop = a[0] == "-1" ? std::size_t(-1) : std::size_t(I(a[0]));
    if (op == "empty") { o.bl(stop == std::size_t(-1) ? string_is_empty(c.p) : string_is_empty(c.p, stop)); return; }
    std::string r;
    if (op == "rtrims") r = stop == std::size_t(-1) ? rtrim(c.p, pos) : rtrim<StrSearchPolicyStart>(c.p, pos, stop);
    else if (op == "rtrime") r = stop == std::size_t(-1) && text.size() % 2 ? rtrim<StrSearchPolicyEnd>(c.p, pos) : rtrim<StrSearchPolicyEnd>(c.p, pos, stop);
    else if (op == "ltrim") r = stop == std::size_t(-1) ? ltrim(c.p, pos) : ltrim(c.p, pos, stop);
    else std::_Exit(8);
    o.text(r); o.i((long long)pos);
  }
}
