#include "common.hpp"
#include "gauss_newton.hpp"

namespace {
std::unique_ptr<ngpt::Kalman<5>> fs[3];
long long unit = 1; // of lengths, metres
double origin[3]; // of the scenario, whole metres

std::string printed(ngpt::Kalman<5> &k) {
  std::fflush(stdout);
  std::cout.flush();
  const int old = ::dup(1);
  const int fd = ::open("printed", O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (old < 0 || fd < 0 || ::dup2(fd, 1) < 0)
    ::_exit(8);
  k.print_state();
  std::fflush(stdout);
  std::cout.flush();
  ::dup2(old, 1);
  ::close(old);
  ::close(fd);
  std::ifstream in("printed");
  return std::string(std::istreambuf_iterator<char>(in), {});
}
// the printed numbers in 1/1000: every number has three decimals
void state(Out &o, ngpt::Kalman<5> &k) {
  const std::string s = printed(k);
  std::size_t p = 0;
  for (int n = 0; p < s.size() && n < 12;) {
    const char c = s[p];
    const bool digit = std::isdigit((unsigned char)c) || (c == '-' && p + 1 < s.size() && std::isdigit((unsigned char)s[p + 1]));
    if (digit) {
      std::size_t d = s.find('.', p);
      if (d == std::string::npos)
        return;
      long long v = std::stoll(s.substr(p, d - p)) * 1000;
      const long long f = std::stoll(s.substr(d + 1, 3));
      v += c == '-' ? -f : f;
      if (n % 2 == 0 && n < 6)
        v -= (long long)origin[n / 2] * 1000;
      if (n % 2 == 0)
        v = (v + (v < 0 ? -unit : unit) / 2) / unit;
      o.i(v > 2000000000 || v < -2000000000 ? 2000000000 : v);
      n++;
      p = d + 4;
    } else if (s.compare(p, 3, "nan") == 0 || s.compare(p, 3, "inf") == 0) {
      o.i(s[p] == 'n' ? -1000000000 : 2000000000);
      n++;
      p += 3;
    } else
      p++;
  }
}
} // namespace

void h_reset() {
  for (auto &f : fs)
    f.reset();
}

void h_op(const std::string &op, const Fields &f, Out &o) {
  const int k = I(f[0]);
  if (op == "new") { // filter x y z c d origin(3) coefficient? unit
    double v[5];
    unit = std::stoll(f[10]);
    for (int i = 0; i < 3; i++)
      origin[i] = std::stod(f[6 + i]);
    for (int i = 0; i < 5; i++)
      v[i] = std::stod(f[1 + i]) + (i < 3 ? origin[i] : 0);
    if (f[9] == "1")
      fs[k].reset(new ngpt::Kalman<5>({v[0], v[1], v[2], v[3], v[4]}, 1e0));
    else
      fs[k].reset(new ngpt::Kalman<5>({v[0], v[1], v[2], v[3], v[4]}));
  } else if (op == "upd") { // filter dt weighted spare (dx dy dz range clock weight)*
    const double dt = std::stod(f[1]);
    const bool weighted = f[2] == "1";
    const int spare = I(f[3]);
    std::vector<double> obs, w;
    std::vector<std::array<double, 4>> sv;
    for (std::size_t p = 4; p + 5 < f.size(); p += 6) {
      sv.push_back({std::stod(f[p]) + origin[0], std::stod(f[p + 1]) + origin[1], std::stod(f[p + 2]) + origin[2], std::stod(f[p + 4])});
      obs.push_back(std::stod(f[p + 3]));
      w.push_back(std::stod(f[p + 5]));
    }
    const int n = int(sv.size());
    // callers keep vectors of a fixed size and fill in the first n elements
    for (int i = 0; i < spare; i++) {
      obs.push_back(-1e9 + 7e3 * i);
      sv.push_back({1e7, -2e7 * i, 3e6, 1e-2});
      w.push_back(-99.5);
    }
    if (weighted)
      fs[k]->update(n, &obs, &sv, dt, &w);
    else
      fs[k]->update(n, &obs, &sv, dt);
  } else if (op == "copy") {
    const int g = I(f[1]);
    if (fs[g] && f[2] == "1")
      *fs[g] = *fs[k];
    else
      fs[g].reset(new ngpt::Kalman<5>(*fs[k]));
    state(o, *fs[g]);
    return;
  } else if (op != "show")
    ::_exit(8);
  state(o, *fs[k]);
}
