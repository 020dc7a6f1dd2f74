// Common part of the conformance drivers: script reader and trace writer.
// A script is a list of lines "op arg arg ..."; "TRACE" starts a new, independent history.
// Every event is one JSON object per line with integer / string / boolean / array fields only:
// TLC's integers have 32 bits, so numbers are scaled to integers here, saturated, and non-finite
// values are encoded as sentinels.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace drv {
const long NANV = 2000000001L, INFV = 2000000002L, SATV = 2000000000L;
inline long fx(double v, double scale = 1000.0) {
  if (std::isnan(v)) return NANV;
  if (std::isinf(v)) return v > 0 ? INFV : -INFV;
  double x = std::floor(v * scale + 0.5);
  if (x > SATV) return SATV;
  if (x < -SATV) return -SATV;
  return static_cast<long>(x);
}
inline long sat(int64_t v) { const long L = 2147480000L; return v > L ? L : (v < -L ? -L : static_cast<long>(v)); }

class J {
  std::string s_;
  void key(const std::string& k) {
    if (s_.size() > 1) s_ += ",";
    s_ += "\"" + k + "\":";
  }

 public:
  explicit J(const std::string& op) : s_("{") { s("op", op); }
  J() : s_("{") {}
  J& i(const std::string& k, int64_t v) { key(k); s_ += std::to_string(sat(v)); return *this; }
  J& f(const std::string& k, double v, double scale = 1000.0) { key(k); s_ += std::to_string(fx(v, scale)); return *this; }
  J& b(const std::string& k, bool v) { key(k); s_ += v ? "true" : "false"; return *this; }
  J& s(const std::string& k, const std::string& v) {
    key(k);
    s_ += "\"";
    for (char c : v) { if (c == '"' || c == '\\') s_ += '\\'; if (c >= 32 && c < 127) s_ += c; }
    s_ += "\"";
    return *this;
  }
  J& arr(const std::string& k, const std::vector<long>& v) {
    key(k);
    s_ += "[";
    for (size_t n = 0; n < v.size(); n++) s_ += (n ? "," : "") + std::to_string(v[n]);
    s_ += "]";
    return *this;
  }
  template <class V> J& vec(const std::string& k, const V& v, double scale = 1000.0) {
    std::vector<long> o;
    for (int n = 0; n < v.size(); n++) o.push_back(fx(v[n], scale));
    return arr(k, o);
  }
  J& v3(const std::string& k, double x, double y, double z, double scale = 1000.0) {
    return arr(k, {fx(x, scale), fx(y, scale), fx(z, scale)});
  }
  J& raw(const std::string& k, const std::string& v) { key(k); s_ += v; return *this; }
  std::string str() const { return s_ + "}"; }
};
inline std::string jlist(const std::vector<std::string>& v) {
  std::string o = "[";
  for (size_t n = 0; n < v.size(); n++) o += (n ? "," : "") + v[n];
  return o + "]";
}

struct Out {
  FILE* f = nullptr;
  void operator()(const J& j) { fputs((j.str() + "\n").c_str(), f); fflush(f); }
};
inline Out& out() { static Out o; return o; }

struct Args {
  std::istringstream is;
  explicit Args(const std::string& l) : is(l) {}
  long i() { long v = 0; is >> v; return v; }
  double d() { std::string t; is >> t; return strtod(t.c_str(), nullptr); }
  std::string s() { std::string t; is >> t; return t; }
  bool more() { is >> std::ws; return !is.eof(); }
};

// run(newTrace, step): step gets the op name and its arguments.
inline int run(int argc, char** argv, std::function<void()> fresh, std::function<void(const std::string&, Args&)> step) {
  if (argc < 3) return 64;
  std::ifstream in(argv[1]);
  out().f = fopen(argv[2], "w");
  std::string line;
  int n = 0;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line == "TRACE") {
      out()(J("TRACE").i("n", n++));
      fresh();
      continue;
    }
    Args a(line);
    std::string op = a.s();
    step(op, a);
  }
  fclose(out().f);
  fflush(nullptr);
  _exit(0);
}
}
