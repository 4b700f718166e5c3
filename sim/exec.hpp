#pragma once
#include "model.hpp"
#include "prog.hpp"
#include "sutapi.hpp"

namespace ex {
void run_case(const pg::Case &c); // in the child process, between begin_run and the end
// "" if the printed tensor is the modelled one
std::string compare_text(const std::string &s, const std::vector<size_t> &sz, int dt, const std::vector<md::ld> &v, const std::vector<md::ld> &tol);
bool parse_text(const std::string &s, const std::vector<size_t> &sz, int dt, std::vector<md::ld> &out, std::string &err);
} // namespace ex
namespace sc {
bool run_scenario(const pg::Case &c); // special scenarios; false: unknown name
}
