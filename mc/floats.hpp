// Values that == does not tell apart, or that are not equal to themselves.
#pragma once
#include "suite.hpp"
#include <cmath>
#include <limits>
namespace mc {
// 0.0, -0.0, 1.5, NaN
template <class F> F zoo(unsigned k) { static const volatile double z = 0; return k == 0 ? F(z) : k == 1 ? F(-z) : k == 2 ? F(1.5) : std::numeric_limits<F>::quiet_NaN(); }
template <class F> unsigned which(F f) { return std::isnan(f) ? 3 : f == F(1.5) ? 2 : f == F(0) ? (std::signbit(f) ? 1 : 0) : 9; }
using Ks = std::vector<uint8_t>;
inline std::vector<Ks> kinds_up_to(size_t n, unsigned radix) {
  std::vector<Ks> r{Ks()};
  for (size_t from = 0, len = 1; len <= n; ++len) { size_t to = r.size(); for (; from < to; ++from) for (unsigned k = 0; k < radix; ++k) { Ks x = r[from]; x.push_back(uint8_t(k)); r.push_back(x); } }
  return r;
}
template <class S> S of_kinds(const Ks& k) { using F = typename S::value_type; S s; for (auto x : k) s.push_back(zoo<F>(x)); return s; }
inline std::string text(const Ks& k) { static const char* nm[] = {"0", "-0", "1.5", "nan"}; std::string s = "("; for (auto x : k) { if (s.size() > 1) s += ' '; s += nm[x]; } return s + ")"; }
template <class S> bool exactly(const S& s, const std::vector<typename S::value_type>& v, const char* what, const Ks& a, const Ks& b) {
  bool ok = size_t(s.size()) == v.size(); size_t i = 0;
  if (ok) for (auto& x : s) if (which(x) != which(v[i++])) { ok = false; break; }
  R.checks++;
  if (!ok) err("values", "%s: not the exact values, from %s and %s", what, text(a).c_str(), text(b).c_str());
  return ok;
}
}  // namespace mc
