#include "common.hpp"
#include "antex.hpp"
#include "bern_utils.hpp"
#include "navrnx.hpp"
#include "obsrnx.hpp"
#include "sp3c.hpp"
#include <functional>
#include <set>
using namespace ngpt;

// ---- allocations made by the library on behalf of the reader objects
namespace track {
template <class T> struct Raw {
  using value_type = T;
  Raw() = default;
  template <class U> Raw(const Raw<U> &) {}
  T *allocate(std::size_t n) { return static_cast<T *>(std::malloc(n * sizeof(T))); }
  void deallocate(T *p, std::size_t) { std::free(p); }
  bool operator==(const Raw &) const { return true; }
  bool operator!=(const Raw &) const { return false; }
};
using Set = std::set<void *, std::less<void *>, Raw<void *>>;
Set &live() {
  static Set *s = new (std::malloc(sizeof(Set))) Set;
  return *s;
}
int on = 0;
struct Scope {
  Scope() { ++on; }
  ~Scope() { --on; }
};
void *get(std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  if (on)
    live().insert(p);
  return p;
}
void drop(void *p) {
  if (!p)
    return;
  live().erase(p);
  std::free(p);
}
} // namespace track
void *operator new(std::size_t n) { return track::get(n); }
void *operator new[](std::size_t n) { return track::get(n); }
void operator delete(void *p) noexcept { track::drop(p); }
void operator delete[](void *p) noexcept { track::drop(p); }
void operator delete(void *p, std::size_t) noexcept { track::drop(p); }
void operator delete[](void *p, std::size_t) noexcept { track::drop(p); }

namespace {
void put(const std::string &name, const std::string &text) {
  std::ofstream f(name, std::ios::binary | std::ios::trunc);
  f.write(text.data(), std::streamsize(text.size()));
}
std::string members(const std::function<void()> &print) {
  std::ostringstream s;
  std::streambuf *old = std::cout.rdbuf(s.rdbuf());
  print();
  std::cout.rdbuf(old);
  return s.str();
}
int sgn(int s) { return s < 0 ? -1 : s > 0; }
void rec(Out &o, int st, int id) { // id = 10 * file + record
  int keep = track::on;
  track::on = 0; // the text of the result is not the library's
  o.i(sgn(st));
  o.i(id / 10);
  o.i(id % 10);
  track::on = keep;
}

struct Obj {
  virtual ~Obj() {}
  virtual std::unique_ptr<Obj> movec() = 0;
  virtual void movea(Obj &) = 0;
  virtual void use(Out &) = 0;
  virtual void rewind() {}
  virtual bool same(const std::string &) { return true; }
};
template <class D, class R> struct Base : Obj {
  R r;
  explicit Base(const char *f) : r(f) {}
  explicit Base(R &&x) : r(std::move(x)) {}
  std::unique_ptr<Obj> movec() override { return std::unique_ptr<Obj>(new D(std::move(r))); }
  void movea(Obj &x) override { r = std::move(static_cast<D &>(x).r); }
};
struct A : Base<A, Antex> {
  using Base::Base;
  void use(Out &o) override {
    ReceiverAntenna a("TRM59800.00     SCIS");
    AntennaPcoList l;
    int st = r.get_antenna_pco(a, l, false);
    double n = 0;
    if (!st && l.__vecref__().size() == 1) {
      std::ostringstream s;
      l.__vecref__()[0].dummy_print(s);
      std::sscanf(s.str().c_str(), "%*c[%*c%*[0-9]%*c] %lf,", &n);
    }
    Satellite s;
    int st2 = r.get_satellite_info(int(n) / 10, SATELLITE_SYSTEM::gps, datetime<seconds>(modified_julian_day(57030), seconds(0)), s);
    rec(o, st ? st : st2, int(n));
  }
  bool same(const std::string &f) override { return r.filename() == f; }
};
struct N : Base<N, NavigationRnx> {
  using Base::Base;
  void use(Out &o) override {
    NavDataFrame f;
    int st = r.read_next_record(f);
    rec(o, st, st ? 0 : f.prn());
  }
  void rewind() override { r.rewind(); }
};
struct O : Base<O, ObservationRnx> {
  using Base::Base;
  void use(Out &o) override {
    std::map<SATELLITE_SYSTEM, std::vector<GnssObservable>> q;
    q[SATELLITE_SYSTEM::gps].push_back(GnssObservable(SATELLITE_SYSTEM::gps, ObservationCode("C1C"), 1e0));
    auto m = r.set_read_map(q, true);
    auto v = r.initialize_epoch_vector(m);
    modified_julian_day d(0);
    double s;
    int n = 0, st = r.read_next_epoch(m, v, n, d, s);
    int id = st ? 0 : n == 1 ? v[0].first.prn() : 99;
    if (!st && n == 1 && (v[0].second.empty() || v[0].second[0] != 1e3 * id))
      id = 98; // the value is that of another record
    rec(o, st, id);
  }
  void rewind() override { r.rewind(); }
  bool same(const std::string &f) override {
    ObservationRnx x(f.c_str());
    return members([&] { x.print_members(); }) == members([&] { r.print_members(); }) && x.max_obs() == r.max_obs() && x.x_approx() == r.x_approx() &&
           x.y_approx() == r.y_approx() && x.z_approx() == r.z_approx() && x.time_of_first_obs() == r.time_of_first_obs();
  }
};
struct S : Base<S, Sp3c> {
  using Base::Base;
  void use(Out &o) override {
    auto v = r.allocate_epoch_vector();
    datetime<microseconds> t;
    int n = 0, st = r.get_next_epoch(t, v, n);
    rec(o, st, st > 0 ? 0 : n == 1 ? v[0].prn_ : 99);
  }
  void rewind() override { r.rewind(); }
  bool same(const std::string &f) override {
    Sp3c x(f.c_str());
    return members([&] { x.print_members(); }) == members([&] { r.print_members(); }) && x.num_sats() == r.num_sats() && x.interval() == r.interval();
  }
};
struct B : Base<B, BernSatellit> {
  using Base::Base;
  void use(Out &o) override {
    int c = 0, p = 0;
    int st = r.get_frequency_channel(730, datetime<seconds>(modified_julian_day(57030), seconds(0)), c, p);
    rec(o, st, st ? 0 : p);
  }
};
int kind = 0;
std::unique_ptr<Obj> objs[4];
std::string names[4];
std::unique_ptr<Obj> make(const char *f) {
  switch (kind) {
  case 0: return std::unique_ptr<Obj>(new A(f));
  case 1: return std::unique_ptr<Obj>(new N(f));
  case 2: return std::unique_ptr<Obj>(new O(f));
  case 3: return std::unique_ptr<Obj>(new S(f));
  default: return std::unique_ptr<Obj>(new B(f));
  }
}
} // namespace

void h_reset() {
  for (auto &x : objs)
    x.reset();
  track::live().clear();
}

void h_op(const std::string &op, const Fields &f, Out &o) {
  if (op == "kind") { // kind text1 text2 text3 bad
    kind = I(f[0]);
    for (int k = 1; k < 4; k++)
      put("file" + std::to_string(k), f[k]);
    put("refused", f[4]);
    return;
  }
  if (op == "leak") {
    for (auto &x : objs)
      x.reset();
    o.i((long long)track::live().size());
    return;
  }
  int i = I(f[0]);
  if (op == "use") {
    track::Scope s;
    objs[i]->use(o);
    return;
  }
  if (op == "same") {
    o.bl(objs[i]->same(names[i]));
    return;
  }
  track::Scope s;
  if (op == "new") {
    objs[i] = make(("file" + f[1]).c_str());
    names[i] = "file" + f[1];
  } else if (op == "fail") {
    make("refused");
  } else if (op == "movec") {
    objs[i] = objs[I(f[1])]->movec();
    names[i] = names[I(f[1])];
  } else if (op == "movea") {
    objs[i]->movea(*objs[I(f[1])]);
    names[i] = names[I(f[1])];
  } else if (op == "del") {
    objs[i].reset();
  } else if (op == "rewind") {
    objs[i]->rewind();
  }
}
