// Two users of each part of the library (a reader, or a set of objects), who
// take turns or have a thread each.  Each is driven by the harness of its kind.
//   on WHO PLACE OP ARGS...   call of one user; PLACE: prefix of its files
//   par                       the calls that follow (up to reset) are made by
//                             one thread per user
#define HC_OWN_MAIN
#include "common.hpp"
#include "antenna.hpp"
#include "antex.hpp"
#include "bern_utils.hpp"
#include "gnssobs.hpp"
#include "gnssobsrv.hpp"
#include "navrnx.hpp"
#include "nvarstr.hpp"
#include "obsrnx.hpp"
#include "rinex.hpp"
#include "satellite.hpp"
#include "satsys.hpp"
#include "sp3c.hpp"
#include <algorithm>
#include <cerrno>
#include <thread>
namespace a1 {
#include "antex.cpp"
}
namespace a2 {
#include "antex.cpp"
}
namespace n1 {
#include "nav.cpp"
}
namespace n2 {
#include "nav.cpp"
}
namespace o1 {
#include "obs.cpp"
}
namespace o2 {
#include "obs.cpp"
}
namespace s1 {
#include "sp3.cpp"
}
namespace s2 {
#include "sp3.cpp"
}
namespace b1 {
#include "bern.cpp"
}
namespace b2 {
#include "bern.cpp"
}
namespace c1 {
#include "codes.cpp"
}
namespace c2 {
#include "codes.cpp"
}
namespace t1 {
#include "antennas.cpp"
}
namespace t2 {
#include "antennas.cpp"
}
namespace x1 {
#include "strings.cpp"
}
namespace x2 {
#include "strings.cpp"
}
namespace e1 {
#include "orbit.cpp"
}
namespace e2 {
#include "orbit.cpp"
}

namespace {
struct User {
  const char *name;
  void (*reset)();
  void (*op)(const std::string &, const Fields &, Out &);
} users[] = {{"a1", a1::h_reset, a1::h_op}, {"a2", a2::h_reset, a2::h_op},
               {"n1", n1::h_reset, n1::h_op}, {"n2", n2::h_reset, n2::h_op},
               {"o1", o1::h_reset, o1::h_op}, {"o2", o2::h_reset, o2::h_op},
               {"s1", s1::h_reset, s1::h_op}, {"s2", s2::h_reset, s2::h_op},
               {"b1", b1::h_reset, b1::h_op}, {"b2", b2::h_reset, b2::h_op},
               {"c1", c1::h_reset, c1::h_op}, {"c2", c2::h_reset, c2::h_op},
               {"t1", t1::h_reset, t1::h_op}, {"t2", t2::h_reset, t2::h_op},
               {"x1", x1::h_reset, x1::h_op}, {"x2", x2::h_reset, x2::h_op},
               {"e1", e1::h_reset, e1::h_op}, {"e2", e2::h_reset, e2::h_op}};
struct Result {
  const char *st = "ok";
  std::string r;
};
const User &user(const std::string &who) {
  for (auto &r : users)
    if (who == r.name)
      return r;
  ::_exit(8);
}
Result call(const Fields &f) { // on WHO PLACE OP ARGS
  Result res;
  Out o;
  hc::place = f[2];
  try {
    user(f[1]).op(f[3], Fields(f.begin() + 4, f.end()), o);
  } catch (...) {
    o.clear();
    res.st = "exc";
  }
  res.r = o.str();
  return res;
}
void together(const std::vector<Fields> &calls) {
  std::vector<Result> res(calls.size());
  std::vector<std::thread> ts;
  hc::arm(15000);
  for (auto &r : users) {
    std::vector<std::size_t> mine;
    for (std::size_t k = 0; k < calls.size(); k++)
      if (calls[k][1] == r.name)
        mine.push_back(k);
    if (!mine.empty())
      ts.emplace_back([&calls, &res, &r, mine] {
        for (std::size_t k : mine)
          res[k] = call(calls[k]);
        r.reset();
      });
  }
  for (auto &t : ts)
    t.join();
  hc::arm(0);
  for (auto &r : res)
    hc::emit(r.st, r.r);
}
} // namespace

int main(int argc, char **argv) {
  if (argc < 3)
    return 8;
  std::ifstream in(argv[1]);
  hc::fd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (!in || hc::fd < 0)
    return 8;
  std::set_terminate(hc::on_terminate);
  std::signal(SIGPROF, hc::on_hang);
  std::signal(SIGABRT, hc::on_abrt);
  std::string line;
  bool par = false;
  std::vector<Fields> calls;
  while (std::getline(in, line)) {
    Fields f = hc::split(line);
    if (f[0] == "par") {
      par = true;
      hc::emit("ok", "");
    } else if (f[0] == "reset") {
      if (par)
        together(calls);
      par = false;
      calls.clear();
      for (auto &r : users)
        r.reset();
      hc::emit("ok", "");
    } else if (par) {
      calls.push_back(f);
    } else {
      hc::arm(4000);
      Result r = call(f);
      hc::arm(0);
      hc::emit(r.st, r.r);
    }
  }
  ::_exit(0);
}
