// Seeded workload and fault-schedule generation. One seed -> one trace.
#pragma once
#include "core.hpp"
namespace sim {
Trace generate(const std::string& prop, uint64_t seed, bool thorough);
}
