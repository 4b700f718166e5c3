#pragma once
#include "prog.hpp"
namespace gn {
extern const char *const props[];
pg::Case generate(const std::string &prop, uint64_t seed);
// place allocation failures; `allocs` says how many allocations each operation makes
void place_faults(pg::Case &c, const uint32_t *allocs);
bool wants_faults(const pg::Case &c);
uint32_t cls_mask(const std::string &prop);
uint64_t call_cap(const pg::Case &c);
} // namespace gn
