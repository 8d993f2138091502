// Which cases a property's search consists of.
#pragma once
#include "gen.h"
#include "judge.h"

struct Budget {
    int scenarios;   // to draw
    int cases;       // per scenario
};
Budget budget(const std::string &property, bool thorough);
std::string rule(const std::string &property);
std::vector<std::string> assumptions(const std::string &property);

// Calls each() for every case of the scenario with the number index; each() returns false to stop.
// Returns false if the scenario was unusable (too big).
bool campaign(const std::string &property, uint64_t seed, uint64_t index, int cases, Judge &j,
              const std::function<bool(const Case &)> &each);
