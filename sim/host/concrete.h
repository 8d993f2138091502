// Step-by-step resolution of single concrete queries, along every choice of servers.
#pragma once
#include "model.h"

struct Demand {
    json entry;       // has to be in the report
    std::string name; // of the query
    std::string type;
    bool unseen; // an alias inside the target of another alias makes more of the name exist than the name graph shows
};

// Draws concrete names at or below the job's domain, resolves them, and gives the entries their violations call for.
std::vector<Demand> concrete_demands(const Scenario &s, const Loaded &ld, const Job &job, Rng &r, int names, long &queries,
                                     long &steps);
