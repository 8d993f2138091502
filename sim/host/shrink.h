#pragma once
#include "judge.h"

// A smaller case with the same kind of violation, with its schedule written out. seconds bounds the effort.
Case minimise(Judge &j, World &w, Case c, Verdict &v, double seconds);
