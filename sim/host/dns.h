// What a scenario consists of: zone files (as records and layout), servers, jobs and flags.
#pragma once
#include "util.h"
#include <map>
#include <nlohmann/json.hpp>
#include <set>
#include <string>
#include <vector>

using json = nlohmann::json;
using Name = std::vector<std::string>; // labels, root first

enum Type { A, NS, CNAME, DNAME, SOA, PTR, MX, TXT, AAAA, SRV, RRSIG, NSEC, SPF, NTYPES, DS = NTYPES };
extern const char *kTypeName[NTYPES + 1];
using Types = uint32_t; // bit set of the first NTYPES types
constexpr Types kAllTypes = (1u << NTYPES) - 1;
inline Types bit(int t)
{
    return 1u << t;
}
int type_of(const std::string &s);
std::string types_text(Types t); // sorted by name, separated by blanks

std::string text(const Name &n); // with final dot
Name name_of(const std::string &s);
bool under(const Name &domain, const Name &n); // n at or below domain
bool length_ok(const Name &n, std::string *bad_label = nullptr);

struct Rec {
    Name name;
    int type = A;
    uint32_t ttl = 3600;
    std::string rdata; // as GRoot normalises it: fields separated by one blank, names absolute, lower case
    uint64_t lay = 0;  // how it is written
};

struct Zone {
    std::string file, ns;
    Name origin;
    bool meta_origin = false; // origin given in the metadata
    std::vector<Rec> recs;    // in file order
    uint32_t style = 0;
    uint64_t lay = 0;
};

// Layout features of a zone file
enum Style : uint32_t {
    ST_RELATIVE = 1,
    ST_AT = 2,
    ST_ORIGIN = 4,
    ST_TTL = 8,
    ST_OMIT_OWNER = 16,
    ST_OMIT_TTL = 32,
    ST_COMMENTS = 64,
    ST_PARENS = 128,
    ST_CASE = 256,
    ST_NO_FINAL_NEWLINE = 512,
    ST_CLASS = 1024,
    ST_TABS = 2048,
    ST_BLANK = 4096,
    ST_OTHER = 8192,  // records of types that are not supported
    ST_CRLF = 16384,
    ST_ALL = 32767
};

struct Prop {
    std::string name;
    std::vector<std::string> types;
    bool has_types = false;
    std::vector<std::string> values;
    int number = 0;
};

struct Job {
    std::string domain;
    bool sub = true;
    std::vector<Prop> props;
};

struct Scenario {
    std::vector<std::string> top;
    std::vector<Zone> zones;
    bool default_job = false;
    std::vector<Job> jobs;
    bool stats = true, lint = false, log = false, verbose = false;
};

struct RenderedZone {
    std::string text;
    std::vector<int> line; // of each record, as the lint file gives it
};

RenderedZone render(const Zone &z);
json metadata(const Scenario &s);
json jobs_json(const std::vector<Job> &jobs);
json to_json(const Scenario &s);
Scenario scenario_from(const json &j);
