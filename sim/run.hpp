// Executes one trace: applies it to the real controllers and evaluates the property's oracle.
#pragma once
#include "inst.hpp"
#include "refs.hpp"
#include <set>
namespace sim {
struct RunOut {
  bool violated = false; Violation v;
  uint64_t hash = 0;              // everything observed, bit for bit
  uint64_t sig = 0;               // schedule signature
  bool nontrivial = false;
  Stats st; std::set<uint64_t> states;
};
RunOut execute(const Trace& t);
}
