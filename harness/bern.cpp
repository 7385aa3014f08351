#include "common.hpp"
#include "bern_utils.hpp"
using namespace ngpt;

namespace {
std::unique_ptr<BernSatellit> rd;
void put(const std::string &name, const std::string &text) {
  if (hc::holds(name, text))
    return; // another reader may be reading it
  std::ofstream f(hc::at(name), std::ios::binary | std::ios::trunc);
  f.write(text.data(), std::streamsize(text.size()));
}
datetime<seconds> when(const std::string &ymd, long sec) {
  int y, m, d;
  std::sscanf(ymd.c_str(), "%d %d %d", &y, &m, &d);
  return datetime<seconds>(year(y), month(m), day_of_month(d), seconds(sec));
}
} // namespace

void h_reset() {
  rd.reset();
  errno = 0;
}

void h_op(const std::string &op, const Fields &f, Out &o) {
  if (op == "load") { // kind text
    std::string name = f[0] == "2" ? "bad" : "sat";
    if (f[0] == "1")
      name = "none";
    else
      put(name, f[1]);
    std::unique_ptr<BernSatellit> n(new BernSatellit(hc::at(name).c_str()));
    rd = std::move(n);
    return;
  }
  if (op == "damage") {
    put("damaged", damaged(f));
    std::string first;
    bool good = true;
    try {
      BernSatellit r("damaged");
      for (int twice = 0; twice < 2; twice++) {
        Out log;
        for (int svn : {730, 714, 0, 801, 730})
          for (int k = 0; k < 3; k++) {
            int ch = 0, prn = 0, st = 9;
            try {
              st = r.get_frequency_channel(svn, when("2015 01 01", 50 + 90 * k), ch, prn);
            } catch (const std::exception &) {
            }
            log.i(st);
            if (!st)
              log.i(ch), log.i(prn);
          }
        if (!twice)
          first = log.str();
        good = good && first == log.str();
      }
    } catch (const std::exception &) {
    }
    errno = 0;
    o.bl(good);
    return;
  }
  if (!rd)
    return;
  if (op == "query") { // svn ymd sec
    int ch = -77, prn = -77;
    int st = rd->get_frequency_channel(I(f[0]), when(f[1], I(f[2])), ch, prn);
    o.i(st < 0 ? -1 : st > 0);
    o.i(st ? 0 : ch);
    o.i(st ? 0 : prn);
  } else if (op == "errno")
    errno = ERANGE; // left behind by the caller's own conversions
  else if (op == "move") {
    int how = I(f[0]);
    std::unique_ptr<BernSatellit> n;
    if (how == 0)
      n.reset(new BernSatellit(std::move(*rd)));
    else {
      put("other", f[1]);
      n.reset(new BernSatellit(hc::at("other").c_str()));
      if (how == 2) {
        BernSatellit t(std::move(*rd));
        *n = std::move(t);
      } else
        *n = std::move(*rd);
    }
    rd = std::move(n);
  }
}
