#pragma once
#include "rt.hpp"
#include <vector>
namespace vals {
// Deterministic element values: mode 0 small signed, 1 bounded away from zero, 2 pairwise distinct,
// 3 odd mantissas and mixed magnitudes, so that the order of a summation shows, 4 whole numbers up to the
// limits of their type (no more than 53 significant bits, so that a double carries them here)
inline std::vector<double> blob(int dt, size_t n, long mode, long seed) {
  rt::Rng r((uint64_t)seed * 2654435761u + 17);
  std::vector<double> v(n);
  bool fl = dt >= 4;
  if (mode == 2) {
    for (size_t i = 0; i < n; ++i) v[i] = (double)((long)i - (long)(n / 2));
    for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    if (fl) for (auto &x : v) x = x / 2 + 0.25;
    else if (n > 100 && dt == 0) for (auto &x : v) x = (double)((long)x % 50);
    return v;
  }
  for (auto &x : v) {
    if (mode == 3 && fl) {
      x = (double)(1 + r.below(1u << 22)) / (double)(1u << (12 + r.below(14)));
      if (r.chance(0.5)) x = -x;
      continue;
    }
    if (mode == 4 && !fl && r.chance(0.6)) {
      static const long lim[] = {127, 32767, 2147483647L, (1L << 53) - 1};
      long k = r.chance(0.4) ? lim[dt] - (long)r.below(4) : (long)(r.next() % (unsigned long)lim[dt]);
      x = (double)(dt == 3 ? k << r.below(r.chance(0.5) ? 1 : 8) : k);
      if (r.chance(0.5)) x = -x;
      continue;
    }
    if (mode == 1) {
      long k = 1 + (long)r.below(fl ? 12 : 5);
      if (r.chance(0.5)) k = -k;
      x = fl ? (double)k / 4 : (double)k;
      if (fl && x > -0.5 && x < 0.5) x += x > 0 ? 0.5 : -0.5;
    } else {
      long k = (long)r.below(fl ? 25 : 13) - (fl ? 12 : 6);
      x = fl ? (double)k / 4 : (double)k;
    }
  }
  return v;
}
} // namespace vals
