#include "common.hpp"
#include "navrnx.hpp"
using namespace ngpt;

namespace {
NavDataFrame frame;
double scale_pos, scale_vel, z0, turn; // the projection of a frame's results
long toe, period;                      // since 2015-01-01 [s], [ms]

template <typename T> datetime<T> epoch(long s, long ms) {
  s += ms >= 0 ? ms / 1000 : -((999 - ms) / 1000);
  ms = ((ms % 1000) + 1000) % 1000;
  long d = s >= 0 ? s / 86400 : -((86399 - s) / 86400);
  return datetime<T>(modified_julian_day(57023 + d),
                     T((s - d * 86400) * T::template sec_factor<long>() +
                       ms * T::template sec_factor<long>() / 1000));
}
void load(NavDataFrame &fr, const std::string &text, const std::string &data) {
  {
    std::ofstream f(hc::at("nav"), std::ios::binary | std::ios::trunc);
    f << text;
  }
  NavigationRnx r(hc::at("nav").c_str());
  if (r.read_next_record(fr))
    throw std::runtime_error("refused");
  std::istringstream in(data);
  int k;
  double v;
  while (in >> k >> v)
    fr.data(k) = v;
}
void near(Out &o, double v) {
  double n = std::nearbyint(v);
  if (std::isfinite(v) && std::fabs(n) < 2.1e9)
    o.i((long long)n);
  else
    o.i(2147480000);
}
void vec(Out &o, double x, double y, double z, double scale, double beta) {
  near(o, (x * std::cos(beta) + y * std::sin(beta)) * scale);
  near(o, (y * std::cos(beta) - x * std::sin(beta)) * scale);
  near(o, z * scale);
}
void clk(Out &o, double dt) {
  double v = std::nearbyint(dt * 1e15);
  if (!std::isfinite(v) || std::fabs(v) > 1e15) {
    o.i(2147480000);
    o.i(0);
    return;
  }
  double hi = std::floor(v / 1e6);
  o.i((long long)hi);
  o.i((long long)(v - hi * 1e6));
}
template <typename T> int at(long ms, double *state, double &dt) {
  return frame.stateNclock(epoch<T>(toe, ms), state, dt);
}
int any(const std::string &type, long ms, double *state, double &dt) {
  return type == "s" ? at<seconds>(ms, state, dt)
                     : type == "m" ? at<milliseconds>(ms, state, dt) : at<microseconds>(ms, state, dt);
}
} // namespace

void h_reset() { frame = NavDataFrame(); }

void h_op(const std::string &op, const Fields &f, Out &o) {
  if (op == "set" || op == "gset") { // text data scale_pos scale_vel z0 turn toe period
    frame = NavDataFrame();
    load(frame, f[0], f[1]);
    scale_pos = std::stod(f[2]);
    scale_vel = std::stod(f[3]);
    z0 = std::stod(f[4]);
    turn = std::stod(f[5]);
    toe = std::stol(f[6]);
    period = std::stol(f[7]);
    return;
  }
  double s[6] = {0, 0, 0, 0, 0, 0}, dt = 0;
  if (op == "eval") {
    const long ms = std::stol(f[1]) * period;
    o.i(any(f[0], ms, s, dt));
    vec(o, s[0], s[1], s[2], scale_pos, turn * double(ms) / 1e3);
    clk(o, dt);
  } else if (op == "geval" || op == "gevalms") {
    const long ms = std::stol(f[1]) * (op == "geval" ? 1000 : 1);
    const int st = any(f[0], ms, s, dt);
    o.i(st);
    vec(o, s[0], s[1], s[2] - z0, scale_pos, turn * double(ms) / 1e3);
    vec(o, s[3], s[4], s[5], scale_vel, turn * double(ms) / 1e3);
    if (!st)
      clk(o, dt);
  } else if (op == "glimit") {
    o.i(any(f[0], std::stol(f[1]), s, dt));
  } else if (op == "example") {
    NavDataFrame g;
    load(g, f[0], f[1]);
    o.i(g.stateNclock(datetime<seconds>(year(2012), month(9), day_of_month(7), seconds(12300)), s, dt));
    for (int k = 0; k < 3; k++)
      o.i((long long)std::floor(s[k]));
  } else
    ::_exit(8);
}
