#pragma once
#include "dns.h"

// Which kinds of scenarios a property's campaign draws.
struct Profile {
    int min_zones = 1, max_zones = 5;
    int max_names = 5;    // random names per zone
    int max_jobs = 3;
    bool illegal = false; // records that have to be rejected
    bool layout = false;  // every way to write a zone file
    bool wide = false;    // hundreds of siblings
    bool fan = false;     // many servers per zone
    bool deep = false;    // names near the limits
    bool repeat = false;  // jobs repeated and permuted
    bool plain_jobs = false;
    int default_job = 5;  // percent
    int scale = 0;        // percent of scenarios with hundreds of something, or very long ones
    bool cuts = false;  // more servers for a zone, which disagree about them
    int cycles = 25;      // percent of scenarios with many rewrites and unglued servers
    std::vector<std::string> props; // names to draw from
};

extern const std::vector<std::string> kPathProps, kAnswerProps, kDelegationProps, kAllProps;

Scenario generate(uint64_t seed, const Profile &p);

// What the documentation asks of the metadata: a top name server that some zone file belongs to.
bool well_formed(const Scenario &s);
