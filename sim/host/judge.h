// What a case is, and the verdict on it.
#pragma once
#include "model.h"
#include "world.h"

struct Case {
    std::string property;
    std::string mode; // variant within the property
    Scenario sc;
    Plan plan;
    Files left;       // files an earlier run left behind
    json extra;       // parameters of the mode
};
json to_json(const Case &c);
// Does to the files what the case says (C23); false: there is nothing to damage.
bool damage(Files &files, const Case &c);
Case case_from(const json &j);

struct Verdict {
    bool bad = false;
    std::string kind; // of the violation, stable under minimisation
    std::string text;
    uint64_t hash = 0;
    bool skipped = false; // not applicable (scenario too big)
};

// Reference runs and model results of the scenario judged last.
struct Memo {
    std::string key;
    std::optional<Seen> base;
    std::shared_ptr<Model> model;
    std::vector<JobResult> jobs;
    bool too_big = false;
    double estimate = 60e6;
    std::map<std::string, Seen> other;
    std::vector<std::pair<uint64_t, uint64_t>> sites;
};

class Judge
{
  public:
    Judge(World &w, const std::string &exe) : w_(w), exe_(exe)
    {
    }
    Verdict judge(const Case &c);
    // plain run of the scenario: threads take turns, no faults
    const Seen &base(const Scenario &s);
    // nullptr: too big
    const std::vector<JobResult> *expected(const Scenario &s);
    Model *model(const Scenario &s);
    // where the program allocates, and how often, when it reads and checks the scenario
    const std::vector<std::pair<uint64_t, uint64_t>> &sites(const Scenario &s);
    static Plan turns(uint64_t max_steps);
    // far more steps than the scenario needs when its threads take turns
    uint64_t bound(const Scenario &s);
    uint64_t demands = 0, queries = 0;
    static std::set<std::string> listed;      // ids of the known findings
    std::map<std::string, uint64_t> findings; // those that showed
    long model_limit = 400000;

  private:
    void remember(const Scenario &s);
    Seen go(const Case &c);
    World &w_;
    std::string exe_;
    Memo m_;
};

extern const std::set<std::string> kPathNames, kAnswerNames, kDelegationNames, kStructuralNames, kLengthNames;
