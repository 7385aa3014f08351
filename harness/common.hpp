// Common driver of all harnesses: reads an operation script, executes each
// operation through the public API of the library and writes one JSON line per
// operation.  usage: harness SCRIPT OUT
#ifndef VERIF_HARNESS_COMMON_HPP
#define VERIF_HARNESS_COMMON_HPP
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <utility>
#include <vector>

using Fields = std::vector<std::string>;

class Out {
  std::string b;
  bool first = true;
  void sep() {
    if (!first)
      b += ',';
    first = false;
  }

public:
  void i(long long v) { sep(); b += std::to_string(v); }
  void bl(bool v) { sep(); b += v ? "true" : "false"; }
  // a JSON string (ASCII printable only; anything else is escaped as <hex>)
  void s(const std::string &v) {
    sep();
    b += '"';
    for (unsigned char c : v) {
      if (c < 32 || c > 126 || c == '"' || c == '\\') {
        char t[8];
        std::snprintf(t, sizeof t, "<%02x>", c);
        b += t;
      } else
        b += char(c);
    }
    b += '"';
  }
  // text as an array of byte values
  void text(const std::string &v) {
    open();
    for (unsigned char c : v)
      i(c);
    close();
  }
  void open() { sep(); b += '['; first = true; }
  void close() { b += ']'; first = false; }
  const std::string &str() const { return b; }
  void clear() { b.clear(); first = true; }
};

// provided by each harness
void h_reset();
void h_op(const std::string &op, const Fields &a, Out &o);

namespace hc {
inline int fd = -1;
// where the calling thread's reader finds its files (harness/many.cpp)
inline thread_local std::string place;
inline std::string at(const std::string &name) { return place + name; }
inline bool holds(const std::string &name, const std::string &text) {
  if (place.empty())
    return false;
  std::ifstream f(at(name), std::ios::binary);
  std::ostringstream s;
  if (f)
    s << f.rdbuf();
  return f && s.str() == text;
}
inline void emit(const char *st, const std::string &r) {
  std::string l = std::string("{\"st\":\"") + st + "\",\"r\":[" + r + "]}\n";
  std::size_t off = 0;
  while (off < l.size()) {
    ssize_t n = ::write(fd, l.data() + off, l.size() - off);
    if (n <= 0)
      ::_exit(9);
    off += std::size_t(n);
  }
}
inline void raw(const char *m) {
  if (::write(fd, m, std::strlen(m)) < 0)
    ::_exit(9);
}
inline void on_hang(int) {
  raw("{\"st\":\"hang\",\"r\":[]}\n");
  ::_exit(33);
}
inline void on_abrt(int) {
  raw("{\"st\":\"crash\",\"r\":[]}\n");
  ::_exit(35);
}
[[noreturn]] inline void on_terminate() {
  raw("{\"st\":\"terminate\",\"r\":[]}\n");
  ::_exit(34);
}
inline void arm(int ms) {
  itimerval t{};
  t.it_value.tv_sec = ms / 1000;
  t.it_value.tv_usec = (ms % 1000) * 1000;
  ::setitimer(ITIMER_PROF, &t, nullptr);
}
inline std::string decode(const std::string &s) {
  std::string r;
  for (std::size_t k = 0; k < s.size(); ++k) {
    if (s[k] == '%') {
      r += char(std::stoi(s.substr(k + 1, 2), nullptr, 16));
      k += 2;
    } else
      r += s[k];
  }
  return r;
}
inline Fields split(const std::string &line) {
  Fields f;
  std::size_t p = 0;
  for (;;) {
    std::size_t q = line.find('\t', p);
    f.push_back(decode(line.substr(p, q == std::string::npos ? q : q - p)));
    if (q == std::string::npos)
      return f;
    p = q + 1;
  }
}
} // namespace hc

// The text of file f[0] with the faults f[1..] ("kind line [column [what]]",
// see specs/Faults.tla) applied one after another.  f = {"=", text}: as it is.
inline std::string damaged(const Fields &f) {
  if (f[0] == "=")
    return f[1];
  static std::map<std::string, std::vector<std::string>> cache;
  auto it = cache.find(f[0]);
  if (it == cache.end()) {
    std::ifstream in(f[0], std::ios::binary);
    if (!in)
      ::_exit(8);
    std::vector<std::string> t;
    std::string s;
    while (std::getline(in, s))
      t.push_back(s);
    it = cache.emplace(f[0], t).first;
  }
  static const std::string chars = std::string(" 9-x") + '\0' + "\xff\n*>.0\rE+%G";
  std::vector<std::string> l = it->second;
  std::string end = "\n";
  for (std::size_t k = 1; k < f.size(); k++) {
    std::istringstream in(f[k]);
    std::string op;
    std::size_t i = 0, n = 0, x = 0, y = 0;
    in >> op >> i >> n >> x >> y;
    if (!i || i > l.size())
      continue;
    std::string &s = l[--i];
    n = op == "long" || op == "insert" ? n : std::min(n, s.size());
    if (op == "cut") {
      s.resize(n);
      l.resize(i + 1);
      end.clear();
    } else if (op == "drop")
      l.erase(l.begin() + long(i));
    else if (op == "double")
      l.insert(l.begin() + long(i), std::string(s));
    else if (op == "swap") {
      if (i + 1 < l.size())
        std::swap(l[i], l[i + 1]);
    } else if (op == "short")
      s.resize(n);
    else if (op == "long") {
      if (n == 0)
        s += ' ';
      else if (n == 1)
        s += "0123456789012345678901234567890123456789";
      else if (n == 2)
        s += std::string(300, 'x');
      else
        for (int j = 0; j < 2500; j++)
          s += "9 ";
    } else if (op == "char")
      s.replace(n, 1, 1, chars[x]);
    else if (op == "fill") {
      x = std::min(x, s.size() - n);
      s.replace(n, x, x, chars[y]);
    } else if (op == "shift")
      s.erase(n, x);
    else if (op == "insert")
      l.insert(l.begin() + long(i), n == 0 ? std::string() : n == 1 ? std::string(80, '9') : n == 2 ? std::string("\0\xff\x80 garbage \1\2\3 text", 20) : std::string(20000, '0'));
    else
      ::_exit(8);
  }
  std::string t;
  for (std::size_t k = 0; k < l.size(); k++)
    t += (k ? "\n" : "") + l[k];
  return l.empty() ? t : t + end;
}

// an upper bound for the number of records of a text: each takes a line
inline int budget(const std::string &text) {
  return 3 + int(std::count(text.begin(), text.end(), '\n'));
}

inline int I(const std::string &s) { return std::stoi(s); }

// a double as an exact multiple of 1/scale; anything else as a string token
inline void num(Out &o, double v, double scale) {
  double x = v * scale;
  double n = std::nearbyint(x);
  if (std::isfinite(v) && std::fabs(x - n) <= 1e-3 + 1e-9 * std::fabs(x) &&
      std::fabs(n) < 2.1e9)
    o.i((long long)n);
  else
    o.i(2147480000); // "not representable": never a value of the model
}

// exact decimal rendering of a double (token compared literally by the model)
inline std::string tok(double v, int digits = 12) {
  char t[64];
  std::snprintf(t, sizeof t, "%.*e", digits, v);
  return t;
}

#ifndef HC_OWN_MAIN
int main(int argc, char **argv) {
  if (argc < 3)
    return 8;
  std::ifstream in(argv[1]);
  hc::fd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (!in || hc::fd < 0)
    return 8;
  const int limit_ms =
      std::getenv("H_OP_MS") ? std::atoi(std::getenv("H_OP_MS")) : 4000;
  std::set_terminate(hc::on_terminate);
  std::signal(SIGPROF, hc::on_hang);
  std::signal(SIGABRT, hc::on_abrt); // assert() in the library
  std::string line;
  while (std::getline(in, line)) {
    Fields f = hc::split(line);
    std::string op = f[0];
    f.erase(f.begin());
    Out o;
    if (op == "reset") {
      h_reset();
      hc::emit("ok", "");
      continue;
    }
    hc::arm(limit_ms);
    const char *st = "ok";
    try {
      h_op(op, f, o);
    } catch (const std::exception &) {
      o.clear();
      st = "exc";
    } catch (...) {
      o.clear();
      st = "exc";
    }
    hc::arm(0);
    hc::emit(st, o.str());
  }
  hc::arm(0);
  h_reset();
  ::_exit(0);
}
#endif
#endif
