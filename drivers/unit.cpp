// One unit of a program of several: the headers in the order INCLUDES gives, what it does before main (INITS).
#include INCLUDES
#include "units.hpp"

namespace {
struct starter {
    starter() {
#define INIT(OP, N) un::act(#OP, N);
#include INITS
    }
};
starter const start{};
} // namespace

auto UNIT(char const *op, int n) -> int { return un::act(op, n); }
