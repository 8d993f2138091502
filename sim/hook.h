// Included into every source file of the simulated program.
#pragma once
extern "C" int sim_child_map_threshold(void);
