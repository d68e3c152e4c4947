// shared by the concrete harnesses: seeded generator, time budget, failure report
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) {return n ? next() % n : 0;}
  bool coin(int num = 1, int den = 2) {return below(den) < static_cast<uint64_t>(num);}
  template<class T> const T & pick(const std::vector<T> & v) {return v[below(v.size())];}
};

struct Fail
{
  std::string what;
};

#define REQUIRE(c, ...) \
  do {if (!(c)) {std::ostringstream os_; os_ << __VA_ARGS__; throw Fail{os_.str()};}} while (0)

// runs one case per seed until the budget (seconds) is used up
inline int drive(
  const char * prop, double budget, uint64_t seed,
  const std::function<void(Rng &, uint64_t)> & one, uint64_t max_cases = UINT64_MAX)
{
  auto t0 = std::chrono::steady_clock::now();
  uint64_t n = 0;
  for (; n < max_cases; ++n) {
    if (n % 16 == 0 && std::chrono::duration<double>(
        std::chrono::steady_clock::now() - t0).count() > budget) {break;}
    Rng r(seed * 1000003 + n);
    try {
      one(r, n);
    } catch (const Fail & f) {
      std::cout << "FAIL property=" << prop << " seed=" << seed << " case=" << n << ": " << f.what <<
        std::endl;
      return 1;
    } catch (const std::exception & e) {
      std::cout << "FAIL property=" << prop << " seed=" << seed << " case=" << n <<
        ": exception escapes: " << e.what() << std::endl;
      return 1;
    }
  }
  std::cout << n << " concrete cases of " << prop << " run on the real code, none fails" <<
    std::endl;
  return 0;
}
