// Reference model: what a run over a scenario has to report.
#pragma once
#include "dns.h"
#include <functional>
#include <memory>
#include <stdexcept>

struct TooBig : std::runtime_error {
    TooBig() : std::runtime_error("scenario too big")
    {
    }
};

enum Tag { T_ANS, T_REWRITE, T_REF, T_NX, T_REFUSED, T_NSNOTFOUND, T_YX };

struct Answer {
    Tag tag;
    Types types = 0;
    std::vector<Rec> recs;
};

struct LoadedZone {
    int id = 0;
    std::string ns;
    Name origin;
    bool has_soa = false;
    std::map<Name, std::vector<Rec>> nodes; // every existing name, also those without records
    const std::vector<Rec> *at(const Name &n) const
    {
        auto it = nodes.find(n);
        return it == nodes.end() ? nullptr : &it->second;
    }
};

struct LabelNode {
    std::string label;
    int parent = 0;
    Types types = 0;
    std::map<std::string, int> child;
    std::vector<int> order; // children in order of creation
    std::vector<int> dname;
    std::vector<std::pair<int, Name>> zones; // zone id, name in it
};

struct Loaded {
    std::vector<LoadedZone> zones;
    std::map<std::string, std::vector<int>> by_ns; // indices into zones
    std::vector<std::string> top;
    std::vector<LabelNode> label; // 0 is the root
    long parsed = 0;
    std::map<std::string, long> counts;
    long vertices = 0, edges = 0;
    std::vector<json> lint;
};

Loaded load(const Scenario &s);

struct Query {
    Name name;
    Types types = 0;
    bool excluded = false, non_existent = false;
    bool same(const Query &o) const
    {
        return name == o.name && types == o.types && excluded == o.excluded;
    }
    std::string str() const
    {
        return (excluded ? "~{ }." : "") + text(name);
    }
};

struct IGraph {
    struct V {
        std::string ns;
        Query q;
        std::vector<Answer> ans;
        std::vector<std::pair<int, int>> out; // target, side query or -1
    };
    std::vector<V> v;
    std::map<std::string, std::vector<int>> by_ns;
    size_t edges = 0;
};

struct JobResult {
    std::string domain;
    long classes = 0;
    std::set<json> violations;       // normalised, without cycles and aliases
    std::map<std::string, std::set<std::string>> aliases;
    long cyclic_classes = 0;         // distinct
    std::vector<std::shared_ptr<IGraph>> cyclic;
    json alias_entry() const;
    std::vector<long> vertices, edges; // of the resolution graph of each class
};

class Model
{
  public:
    explicit Model(const Scenario &s, long limit = 400000);
    JobResult run(const Job &job);
    static Job default_job();
    const Loaded &data() const
    {
        return ld_;
    }
    long work = 0;
    // what the work of checking grows with
    double squares = 0, labels = 0, path_nodes = 0;

  private:
    std::vector<Query> classes(const Job &job, Types req, std::set<json> &structural);
    std::shared_ptr<IGraph> resolve(const Query &q);
    const LoadedZone *relevant(const std::string &ns, const Name &q) const;
    std::vector<Answer> lookup(const LoadedZone &z, const Query &q) const;
    void start_from_top(IGraph &g, int from, const Query &q);
    int insert(IGraph &g, const std::string &ns, const Query &q, int from, int side);
    void resolve_at(IGraph &g, const LoadedZone &z, int v);
    void rewritten(IGraph &g, int v, const Query &q);
    void refer(IGraph &g, int v, const std::string &ns, int side);
    json structural(int node, const Name &name, bool &any) const;
    void tick(long n = 1)
    {
        work += n;
        if (work > limit_)
            throw TooBig();
    }
    Scenario sc_;
    Loaded ld_;
    long limit_;
    std::map<std::string, std::shared_ptr<IGraph>> cache_;
};

// Brings a report entry into a form in which immaterial orders do not matter.
json normalise(const json &entry);
// Does the reported cycle exist in the graph?
bool cycle_in(const json &entry, const IGraph &g);
