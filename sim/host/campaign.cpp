#include "campaign.h"
#include <algorithm>
#include <cerrno>
#include <cstring>

Budget budget(const std::string &p, bool thorough)
{
    Budget b{600, 8};
    if (p == "C01")
        b = {450, 14};
    else if (p == "C02")
        b = {700, 10};
    else if (p == "C03")
        b = {600, 12};
    else if (p == "C04")
        b = {1600, 4};
    else if (p == "C05")
        b = {1500, 4};
    else if (p == "C06")
        b = {500, 1};
    else if (p == "C07" || p == "C08")
        b = {300, 24};
    else if (p == "C09")
        b = {300, 14};
    else if (p == "C10")
        b = {1200, 40};
    else if (p == "C11")
        b = {450, 14};
    else if (p == "C12" || p == "C13" || p == "C14" || p == "C15" || p == "C16")
        b = {6000, 2};
    else if (p == "C17")
        b = {5000, 2};
    else if (p == "C18")
        b = {3000, 2};
    else if (p == "C21")
        b = {700, 10};
    else if (p == "C22")
        b = {600, 10};
    else if (p == "C23")
        b = {500, 40};
    else if (p == "C24")
        b = {800, 24};
    if (thorough)
        b.scenarios *= 12;
    return b;
}

static Profile profile(const std::string &p, Rng &r)
{
    Profile f;
    f.props = kAllProps;
    if (p == "C01" || p == "C02" || p == "C03" || p == "C05" || p == "C21") {
        f.max_jobs = 3;
        f.repeat = r.chance(30);
        f.illegal = r.chance(15);
    } else if (p == "C04") {
        f.max_jobs = 5;
        f.repeat = true;
        f.default_job = 0;
        f.max_zones = 4;
    } else if (p == "C06") {
        f.max_jobs = 2;
        f.default_job = 0;
        f.max_zones = 4;
        f.plain_jobs = true;
    } else if (p == "C07" || p == "C08" || p == "C09" || p == "C10" || p == "C23" || p == "C24") {
        f.max_zones = 3;
        f.max_jobs = 2;
        f.default_job = 8;
    } else if (p == "C22") {
        f.max_zones = 4;
        f.max_jobs = 2;
        f.illegal = r.chance(60);
    } else if (p == "C11") {
        f.illegal = true;
        f.max_zones = 4;
        f.max_jobs = 1;
        f.layout = r.chance(40);
    } else if (p == "C12") {
        f.props = kPathProps;
        if (r.chance(30))
            f.props.push_back("ResponseConsistency"); // with it, jobs ask for record types
        f.cycles = 30;
        f.wide = r.chance(2);
        f.max_zones = 6;
    } else if (p == "C13") {
        f.props = kAnswerProps;
        f.default_job = 0;
        f.wide = r.chance(2);
    } else if (p == "C14") {
        f.props = kDelegationProps;
        if (r.chance(25))
            f.props.push_back("ResponseReturned");
        f.min_zones = 2;
        f.max_zones = 7;
    } else if (p == "C15") {
        f.props = {"StructuralDelegationConsistency"};
        if (r.chance(40))
            f.props.push_back("Hops");
        f.default_job = r.chance(10) ? 10 : 0;
        f.min_zones = 2;
        f.max_zones = 7;
    } else if (p == "C16") {
        f.props = {"DNAMESubstitutionCheck", "Rewrites", "InfiniteDNameRec", "DNAMESubstitutionCheck", "Hops"};
        f.cycles = 75;
        f.deep = r.chance(55);
    } else if (p == "C17") {
        f.props = {"Hops", "Rewrites", "QueryRewrite", "NameserverContact", "RewriteBlackholing", "LameDelegation",
                   "DelegationConsistency"};
        f.cycles = 35;
        f.max_zones = 6;
        f.wide = r.chance(2);
    } else if (p == "C18") {
        f.layout = true;
        f.illegal = r.chance(30);
        f.deep = r.chance(15);
        f.wide = r.chance(6);
        f.default_job = 0;
        f.max_names = 9;
        f.max_jobs = 2;
        f.plain_jobs = true;
        f.props = {"ResponseValue", "ResponseValue", "ZeroTTL", "Hops", "StructuralDelegationConsistency"};
    }
    if (p == "C02" || p == "C03" || p == "C12" || p == "C13" || p == "C14" || p == "C17" || p == "C21")
        if (r.chance(p == "C21" ? 10 : 3)) {
            f.fan = true;
            f.min_zones = 2;
            f.max_zones = 3;
            f.max_names = 2;
            f.max_jobs = 2;
        }
    // a few checks only: jobs then have them in common
    if ((p == "C01" || p == "C02" || p == "C04") && r.chance(35)) {
        int n = r.range(1, 3);
        std::vector<std::string> some;
        for (int i = 0; i < n; i++)
            some.push_back(r.pick(f.props));
        f.props = some;
    }
    static const std::set<std::string> large = {"C01", "C02", "C03", "C04", "C05", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C21"};
    if (large.count(p))
        f.scale = p < "C06" || p == "C21" ? 3 : 2;
    if (p == "C05")
        f.cycles = r.chance(50) ? 70 : 25;
    if (p == "C14" || p == "C15")
        f.cuts = r.chance(50);
    return f;
}

// ---------------------------------------------------------------- schedules

static uint64_t log_range(Rng &r, uint64_t lo, uint64_t hi)
{
    int steps = 0;
    for (uint64_t x = lo; x < hi; x *= 2)
        steps++;
    uint64_t v = lo << r.below((uint64_t)steps + 1);
    v += r.below(v);
    return std::min(v, hi);
}

static void schedule(Plan &p, Rng &r, const RunOut &base, bool stalls, bool clocks, bool spurious)
{
    SchedPlan &s = p.sched;
    s.seed = r.next() | 1;
    int c = r.range(0, 99);
    if (c < 8) {
        s.strategy = S_TURNS;
        s.quantum = (uint32_t)log_range(r, 30, 60000);
    } else if (c < 34) {
        s.strategy = S_RANDOM;
        s.mean_gap = log_range(r, 20, 40000);
    } else if (c < 58) {
        s.strategy = S_PCT;
        s.pct_depth = (uint32_t)r.range(1, 9);
        s.pct_length = base.steps + base.steps / 2;
        s.slice_cap = log_range(r, 3000, 300000);
    } else if (c < 80) {
        s.strategy = S_SYNC;
        s.sync_ppm = (uint32_t)log_range(r, 2000, 900000);
        s.slice_cap = log_range(r, 3000, 300000);
    } else {
        s.strategy = S_MIXED;
        s.mean_gap = log_range(r, 50, 20000);
        s.sync_ppm = (uint32_t)log_range(r, 20000, 600000);
        s.pct_depth = (uint32_t)r.range(1, 6);
        s.pct_length = base.steps;
        s.slice_cap = log_range(r, 3000, 200000);
    }
    if (stalls && r.chance(45)) {
        s.nstalls = (uint32_t)r.range(1, 3);
        for (uint32_t i = 0; i < s.nstalls; i++) {
            Stall &st = s.stalls[i];
            st.from = r.below(base.steps + 1);
            st.to = st.from + 1 + log_range(r, 1000, base.steps * 2 + 2000);
            st.threads = r.chance(50) ? 1ull << r.below(24) : r.next() & r.next();
        }
    }
    if (clocks && r.chance(60)) {
        static const int64_t bases[] = {0, 1, 1000000000ll, 2147483647ll * 1000000000ll, 4102444800ll * 1000000000ll,
                                        1700000000ll * 1000000000ll};
        s.time_base = bases[r.below(6)];
        static const uint32_t speeds[] = {1, 2, 10, 1000, 100000, 3000000};
        s.ns_per_step = speeds[r.below(6)];
        int n = r.range(0, 4);
        for (int i = 0; i < n; i++) {
            Fault f;
            f.kind = F_CLOCK_JUMP;
            f.arg2 = r.below(base.steps + 1);
            static const int64_t jumps[] = {1000000000ll, 3600ll * 1000000000ll, 86400ll * 365 * 1000000000ll, 1000000ll};
            f.arg = jumps[r.below(4)] * (r.chance(50) ? 1 : -1);
            if (s.time_base < 2000000000ll && f.arg < 0)
                f.arg = -f.arg;
            p.faults.push_back(f);
        }
    }
    if (spurious && r.chance(30)) {
        Fault f;
        f.kind = F_SPURIOUS;
        f.nth = r.below(50);
        f.count = (uint32_t)log_range(r, 10, 3000);
        f.arg = r.range(2, 20);
        p.faults.push_back(f);
    }
    // the adversary ends; then every thread gets its turns, and the run has to end within a bounded number of steps
    s.fair_after = base.steps * 4 + 1000000;
    s.fair_quantum = 1500;
    p.max_steps = s.fair_after + base.steps * 30 + 3000000;
}

static Fault fault(uint32_t kind, uint64_t nth, uint32_t count, int64_t arg, const char *filter = "")
{
    Fault f;
    f.kind = kind;
    f.nth = nth;
    f.count = count;
    f.arg = arg;
    strncpy(f.filter, filter, sizeof f.filter - 1);
    return f;
}

// Operations that are merely short, interrupted or slow, on files matching the filter.
static void soft(Plan &p, Rng &r, const char *filter, bool reads, bool writes)
{
    static const int64_t sizes[] = {1, 2, 3, 7, 63, 512, 4095, 8191};
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
        bool rd = reads && (!writes || r.chance(50));
        if (r.chance(65))
            p.faults.push_back(fault(rd ? F_READ_SHORT : F_WRITE_SHORT, r.chance(50) ? 0 : r.below(20),
                                     r.chance(50) ? 1u << 30 : (uint32_t)r.range(1, 40), sizes[r.below(8)], filter));
        else
            p.faults.push_back(fault(rd ? F_READ_EINTR : F_WRITE_EINTR, r.below(20), (uint32_t)r.range(1, 6), 0, filter));
    }
}

static uint64_t count_ops(const Seen &s, uint32_t op, const std::string &filter)
{
    uint64_t n = 0;
    for (auto &o : s.io) {
        auto it = s.paths.find(std::to_string(o.path));
        if (o.op == op && it != s.paths.end() && it->second.find(filter) != std::string::npos)
            n++;
    }
    return n;
}

static std::string stale_report(Rng &r, const std::string &right)
{
    switch (r.below(5)) {
    case 0:
        return "[\n\n]";
    case 1:
        return right.substr(0, r.below(right.size() + 1));
    case 2:
        return right + "\n,{}]";
    case 3:
        return std::string(right.size() + 5000, ']');
    default:
        return "[\n{\"Property\": \"Hops\", \"Query\": \"old.\"}\n]";
    }
}

static std::string stale_lint(Rng &r)
{
    switch (r.below(5)) {
    case 0:
        return "";
    case 1:
        return "[\n{\"File Name\": \"old\"}\n]";
    case 2:
        return "[\n{\"File Name\": \"old\"";
    case 3:
        return "[\n{\"a\":1},\n";
    default:
        return std::string((size_t)r.range(1, 9000), '{');
    }
}

// The history of the known finding of C17: a DNAME that applies inside the target of another.
static Scenario alias_in_target()
{
    Scenario s;
    s.top = {"ns1.org."};
    Zone z;
    z.file = "z1.txt";
    z.ns = "ns1.org.";
    z.origin = name_of("org.");
    auto add = [&](const char *n, int type, const char *rdata) {
        Rec r;
        r.name = name_of(n);
        r.type = type;
        r.ttl = 3600;
        r.rdata = rdata;
        z.recs.push_back(r);
    };
    add("org.", SOA, "ns1.org. admin.org. 5 7200 3600 1209600 300");
    add("a.org.", DNAME, "t.b.org.");
    add("b.org.", DNAME, "c.org.");
    add("x.t.c.org.", CNAME, "y.c.org.");
    s.zones = {z};
    Job j;
    j.domain = "org.";
    j.props = {Prop{"Rewrites", {"A"}, true, {}, 2}};
    s.jobs = {j};
    return s;
}

static void breakage(Case &k, Rng &r)
{
    const json meta = metadata(k.sc), jobs = k.sc.default_job ? json() : jobs_json(k.sc.jobs);
    bool jl = !k.sc.default_job && r.chance(60);
    const std::string file = jl ? "jobs.json" : "zones/metadata.json";
    int m = r.range(0, 99);
    if (m < 20) {
        k.mode = "cut";
        k.extra = {{"file", file}, {"at", r.next() >> 12}};
        return;
    }
    if (m < 45) {
        k.mode = "garbled";
        json edits = json::array();
        int n = r.chance(60) ? r.range(1, 3) : r.range(4, 40);
        for (int i = 0; i < n; i++) {
            static const char *bits[] = {"(", ")", "\"", "\\", ";", "\n", " ", "\t", ".", "..", "@", "$", "$ORIGIN", "$TTL",
                                         "$INCLUDE", "*", "\r", "SOA", "NS", "CNAME", "DNAME", "IN", "0", "99999999999", "\n)", "(\n"};
            json with;
            int w = r.range(0, 9);
            if (w < 4) {
                with = bits[r.below(sizeof bits / sizeof *bits)];
            } else if (w < 7) {
                with = json::array();
                for (int q = 0, e = r.range(1, 4); q < e; q++)
                    with.push_back(r.chance(30) ? 0 : r.range(0, 255));
            } else {
                with = "";
            }
            uint64_t len = r.chance(60) ? (uint64_t)r.range(0, 3) : log_range(r, 1, 400);
            edits.push_back({r.next() >> 12, len, with});
        }
        k.extra = {{"file", "zones/" + r.pick(k.sc.zones).file}, {"edits", edits}};
        return;
    }
    bool drop = m < 65;
    std::string at;
    std::vector<json> values;
    if (jl) {
        size_t i = r.below(jobs.size());
        at = "/" + std::to_string(i);
        const json &props = jobs[i]["Properties"];
        size_t q = r.below(props.size());
        switch (r.below(5)) {
        case 0:
            at += "/Domain";
            values = {nullptr, 5, true, json::array({"org."}), json::object()};
            break;
        case 1:
            at += "/SubDomain";
            values = {nullptr, 1, "true", json::array()};
            break;
        case 2:
            at += "/Properties";
            values = {"Hops", 7, json::array({7}), json::array({"Hops"}), json::array({nullptr})};
            break;
        case 3:
            at += "/Properties/" + std::to_string(q) + "/PropertyName";
            values = {nullptr, 5, json::array(), false};
            break;
        case 4: {
            bool types = props[q].count("Types") && (!props[q].count("Value") || r.chance(50)) && !drop;
            at += "/Properties/" + std::to_string(q) + (types ? "/Types" : "/Value");
            values = {json::array({nullptr}), json::array({5}), json::array({json::array()}), json{{"x", 1}}};
            if (types) {
                values.push_back(json::array({"NOPE"}));
                values.push_back(json::array({"A", ""}));
            }
            break;
        }
        }
    } else {
        size_t i = r.below(meta["ZoneFiles"].size());
        switch (r.below(6)) {
        case 0:
            at = "/TopNameServers";
            values = {nullptr, 5, json::array({5}), json::array(), json::object(), json::array({"serves.nothing."})};
            break;
        case 1:
            at = "/ZoneFiles";
            values = {nullptr, 5, "z1.txt", json::array(), json::array({"z1.txt"}), json::array({nullptr})};
            break;
        case 2:
        case 3:
            at = "/ZoneFiles/" + std::to_string(i) + "/FileName";
            values = {nullptr, 5, json::array({"z1.txt"}), "", ".", "is/not/there.txt", "z1.txt/z1.txt"};
            break;
        case 4:
            at = "/ZoneFiles/" + std::to_string(i) + "/NameServer";
            values = {nullptr, 5, json::array(), json::object()};
            break;
        case 5:
            at = "/ZoneFiles/" + std::to_string(i) + "/Origin";
            values = {nullptr, 5, json::array()};
            drop = false;
            break;
        }
    }
    k.mode = drop ? "drop" : "put";
    k.extra = {{"file", file}, {"at", at}};
    if (!drop)
        k.extra["value"] = r.pick(values);
}

bool campaign(const std::string &p, uint64_t seed, uint64_t index, int cases, Judge &j,
              const std::function<bool(const Case &)> &each)
{
    Rng r(mix64(mix64(seed, hash_str(p)), index));
    Profile prof = profile(p, r);
    Rng knob(r.next());
    Case c;
    c.property = p;
    c.sc = generate(r.next(), prof);
    if (p == "C17" && index == 0)
        c.sc = alias_in_target();
    if (p == "C09" || p == "C11")
        c.sc.lint = p == "C11" || r.chance(40);
    if (p == "C24") {
        c.sc.lint = r.chance(50);
        c.sc.log = r.chance(35);
        c.sc.verbose = r.chance(20);
    }
    if (p == "C22") {
        c.sc.stats = r.chance(60);
        c.sc.log = r.chance(80);
        c.sc.verbose = r.chance(35);
        c.sc.lint = r.chance(30);
    }
    if (p == "C23")
        c.sc.lint = r.chance(40);
    if (p == "C08")
        c.sc.log = r.chance(25);
    if (p == "C04" && c.sc.jobs.size() < 2)
        c.sc.jobs.push_back(c.sc.jobs[0]);
    if (p == "C03" && !c.sc.default_job && r.chance(15)) {
        // no class at all
        Job jb = c.sc.jobs[0];
        Name d = name_of(jb.domain);
        while (length_ok(d))
            d.push_back(std::string(60, 'q'));
        jb.domain = text(d);
        c.sc.jobs.insert(c.sc.jobs.begin() + (long)r.below(c.sc.jobs.size() + 1), jb);
    }
    if (p == "C16") {
        // the cycle check is always on; the length check only if asked for
        for (auto &jb : c.sc.jobs)
            if (r.chance(50))
                jb.props[0] = Prop{r.chance(60) ? "DNAMESubstitutionCheck" : "InfiniteDNameRec", {}, false, {}, 0};
    }
    if (p == "C18") {
        // show what the answers contain
        for (auto &z : c.sc.zones)
            if (c.sc.jobs.size() < 4 && r.chance(60)) {
                Job jb;
                jb.domain = text(z.origin);
                Prop q{"ResponseValue", {}, true, {"expected nowhere"}, 0};
                int n = r.range(1, 3);
                for (int i = 0; i < n; i++)
                    q.types.push_back(kTypeName[r.below(NTYPES)]);
                jb.props.push_back(q);
                c.sc.jobs.push_back(jb);
            }
        if (c.sc.zones.size() > 6)
            c.sc.zones.resize(6);
        if (!well_formed(c.sc))
            c.sc.top.push_back(c.sc.zones[0].ns);
    }
    // mostly small ones: more schedules in the same time
    size_t size = c.sc.jobs.size();
    for (auto &z : c.sc.zones)
        size += z.recs.size();
    j.model_limit = prof.wide || prof.fan || size > 250 || r.chance(6) ? 400000 : r.chance(30) ? 40000 : 12000;
    if (!j.expected(c.sc))
        return false;
    const Seen base = j.base(c.sc);
    const RunOut &b = base.run;
    if (p == "C06" && b.steps > 6000000)
        return false; // it will be repeated up to 58 times

    auto emit = [&](Case k) {
        // small inputs reach the child index in half of the runs
        if (knob.chance(50))
            k.plan.sched.child_map = (uint32_t)knob.below(5);
        // and a few messages fill the logger's queue
        if (knob.chance(p == "C22" ? 60 : 25))
            k.plan.sched.log_queue = 1 + (uint32_t)knob.below(8);
        return each(k);
    };
    if (b.end_kind != E_NONE || !b.ok()) {
        // it does not end properly even without faults and with threads taking turns
        Case k = c;
        k.plan = Judge::turns(j.bound(c.sc));
        emit(k);
        return true;
    }
    for (int i = 0; i < cases; i++) {
        Case k = c;
        k.plan = Judge::turns(j.bound(c.sc));
        if (p == "C01") {
            schedule(k.plan, r, b, true, true, true);
        } else if (p == "C02" || p == "C03" || p == "C21") {
            schedule(k.plan, r, b, true, r.chance(25), true);
        } else if (p == "C04") {
            if (i > 0)
                schedule(k.plan, r, b, true, false, false);
        } else if (p == "C05") {
            schedule(k.plan, r, b, r.chance(30), false, r.chance(20));
        } else if (p == "C06") {
            k.plan.sched.quantum = (uint32_t)log_range(r, 200, 20000);
        } else if (p == "C07") {
            if (r.chance(50))
                schedule(k.plan, r, b, false, false, false);
            else
                k.plan.max_steps = b.steps * 30 + 4000000;
            std::vector<std::string> inputs;
            for (auto &[path, x] : files_of(c.sc))
                inputs.push_back(path);
            int m = r.range(0, 99);
            if (m < 12) {
                k.mode = "missing";
                k.extra["file"] = r.pick(inputs);
            } else if (m < 45) {
                soft(k.plan, r, r.chance(50) ? "" : r.pick(inputs).c_str(), true, false);
            } else {
                if (r.chance(35))
                    soft(k.plan, r, "", true, false);
                int n = r.chance(75) ? 1 : 2;
                static const int64_t errs[] = {ENOENT, EACCES, EMFILE, EIO, ENOMEM};
                static const int64_t rerrs[] = {EIO, EISDIR, EBADF, ENOMEM, ESTALE};
                for (int q = 0; q < n; q++) {
                    std::string f = r.chance(80) ? r.pick(inputs) : "";
                    if (r.chance(35)) {
                        uint64_t ops = count_ops(base, 'R', f.empty() ? "o" : f);
                        k.plan.faults.push_back(fault(F_OPEN_FAIL, f.empty() ? 0 : r.below(ops), 1 + (uint32_t)r.below(2),
                                                      errs[r.below(5)], f.empty() ? r.pick(inputs).c_str() : f.c_str()));
                    } else {
                        // any read, also of those that make short reads necessary
                        uint64_t ops = std::max<uint64_t>(1, count_ops(base, 'r', f.empty() ? "o" : f));
                        if (f.empty())
                            f = r.chance(50) ? "zones/" : "jobs.json";
                        if (r.chance(40)) {
                            k.plan.faults.push_back(fault(F_READ_SHORT, 0, 1u << 30, r.range(1, 200), f.c_str()));
                            ops *= 6;
                        }
                        k.plan.faults.push_back(
                            fault(F_READ_FAIL, r.below(ops), 1 + (uint32_t)r.below(3), rerrs[r.below(5)], f.c_str()));
                    }
                }
            }
            if (r.chance(30))
                k.left["output.json"] = stale_report(r, base.report);
        } else if (p == "C08") {
            if (r.chance(35))
                schedule(k.plan, r, b, false, false, false);
            else
                k.plan.max_steps = b.steps * 30 + 4000000;
            int m = r.range(0, 99);
            const char *f = "output.json";
            static const int64_t errs[] = {ENOSPC, EIO, EDQUOT, EFBIG};
            uint64_t writes = std::max<uint64_t>(1, count_ops(base, 'w', f));
            if (c.sc.log && r.chance(25)) {
                // trouble with the log file, which is no reason for a wrong report
                const char *l = "log.txt";
                uint64_t n = std::max<uint64_t>(1, count_ops(base, 'w', l));
                int what = r.range(0, 3);
                if (what == 0)
                    soft(k.plan, r, l, false, true);
                else if (what == 1)
                    k.plan.faults.push_back(fault(F_DISK_FULL, 0, 1, (int64_t)r.below(4000), l));
                else if (what == 2)
                    k.plan.faults.push_back(fault(F_WRITE_FAIL, r.below(n), r.chance(60) ? 1u : 1u << 30, errs[r.below(4)], l));
                else
                    k.plan.faults.push_back(fault(F_OPEN_FAIL, 0, 1u << (r.below(2) * 4), EACCES, l));
                m = r.chance(50) ? 100 : m;
            }
            if (m == 100) {
            } else if (m < 6) {
                k.mode = "elsewhere";
                k.extra["report"] = r.chance(50) ? "nodir/output.json" : "zones";
            } else if (m < 25) {
                soft(k.plan, r, r.chance(70) ? f : "", false, true);
            } else if (m < 50) {
                // the disk has room for so many bytes
                int64_t room = r.chance(25) ? (int64_t)base.report.size() - 1 - (int64_t)r.below(3)
                                            : (int64_t)r.below(base.report.size());
                k.plan.faults.push_back(fault(F_DISK_FULL, 0, 1, std::max<int64_t>(room, 0), f));
                if (r.chance(40))
                    k.plan.faults.push_back(fault(F_WRITE_SHORT, 0, 1u << 30, r.range(1, 300), f));
            } else if (m < 62) {
                static const int64_t oerrs[] = {EACCES, ENOSPC, EMFILE, EROFS, EIO, ENOENT};
                k.plan.faults.push_back(fault(F_OPEN_FAIL, 0, 1u << (r.below(2) * 4), oerrs[r.below(6)], f));
            } else if (m < 85) {
                bool sh = r.chance(50);
                uint64_t n = writes;
                if (sh) {
                    int64_t len = r.range(1, 300);
                    k.plan.faults.push_back(fault(F_WRITE_SHORT, 0, 1u << 30, len, f));
                    n = base.report.size() / (uint64_t)len + 1;
                }
                k.plan.faults.push_back(fault(F_WRITE_FAIL, r.below(n), r.chance(60) ? 1u : 1u << 30, errs[r.below(4)], f));
            } else {
                static const int64_t cerrs[] = {EIO, ENOSPC, EDQUOT};
                k.plan.faults.push_back(fault(F_CLOSE_FAIL, 0, 1, cerrs[r.below(3)], f));
                if (r.chance(30))
                    k.plan.faults.push_back(fault(F_FSYNC_FAIL, 0, 9, EIO, f));
            }
            if (r.chance(10)) // a report that is moved into place
                k.plan.faults.push_back(fault(F_RENAME_FAIL, 0, 1, EIO, ""));
            if (r.chance(35))
                k.left["output.json"] = stale_report(r, base.report);
        } else if (p == "C09") {
            if (r.chance(30))
                schedule(k.plan, r, b, false, false, false);
            k.mode = r.chance(60) ? "power" : "crash";
            k.extra["seed"] = r.next();
            if (r.chance(40))
                k.plan.faults.push_back(
                    fault(F_WRITE_SHORT, 0, 1u << 30, r.range(1, 400), r.chance(80) ? "output.json" : ""));
            if (r.chance(35)) {
                Fault f = fault(F_CRASH_STEP, 0, 1, 0);
                // mostly towards the end, where the report is written
                uint64_t n = b.steps;
                f.nth = r.chance(50) ? 1 + r.below(n) : n - r.below(n / 10 + 1);
                k.plan.faults.push_back(f);
            } else {
                bool chopped = !k.plan.faults.empty() && k.plan.faults.back().kind == F_WRITE_SHORT;
                uint64_t n = b.nio + (chopped ? base.report.size() / (uint64_t)k.plan.faults.back().arg : 0);
                uint64_t at = r.chance(40) ? r.below(n) : n - 1 - r.below(std::min<uint64_t>(n, chopped ? n - b.nio + 4 : 6));
                k.plan.faults.push_back(fault(F_CRASH_IO, at, 1, (int64_t)r.below(3)));
            }
            if (r.chance(60))
                k.left["output.json"] = stale_report(r, base.report);
            if (c.sc.lint && r.chance(50))
                k.left["lint.json"] = stale_lint(r);
        } else if (p == "C23") {
            breakage(k, r);
            if (r.chance(50))
                schedule(k.plan, r, b, false, false, false);
            k.plan.max_steps = b.steps * 30 + 4000000;
            if (r.chance(25))
                soft(k.plan, r, "", true, false);
            if (r.chance(50))
                k.left["output.json"] = stale_report(r, base.report);
        } else if (p == "C24") {
            k.extra = json::object();
            if (r.chance(25))
                breakage(k, r);
            static const char *reports[] = {"", "output.json", "out/report.json", "zones/report.json", "report", "lint"};
            std::string rep = reports[r.below(6)], path = rep.empty() ? "output.json" : rep;
            k.extra["report"] = rep;
            // what else the user keeps there
            static const char *others[] = {"output.json", "lint.json", "lint.txt", "log.txt", "output.json.bak",
                                           "notes.txt", "tmp/x", "zones/old.txt", "zones/z1.txt.bak",
                                           "zones/output.json", "zones/lint.json", "out/notes", "Graphs/nameserver_map.json"};
            for (auto o : others)
                if (r.chance(35))
                    k.left[o] = r.chance(50) ? "the user's own\n" : r.chance(50) ? "" : stale_report(r, base.report);
            if (r.chance(85))
                k.left["out/notes"] = "";
            if (r.chance(40))
                k.left[path] = stale_report(r, base.report);
            if (r.chance(40))
                schedule(k.plan, r, b, false, r.chance(40), false);
            k.plan.max_steps = b.steps * 30 + 4000000;
            static const int64_t errs[] = {ENOSPC, EIO, EACCES, EMFILE, ENOMEM};
            int m = r.range(0, 99), n = r.chance(70) ? 1 : r.range(2, 4);
            if (m < 30) {
                if (r.chance(50))
                    k.plan.faults.push_back(fault(F_WRITE_SHORT, 0, 1u << 30, r.range(1, 400)));
                if (r.chance(50))
                    k.plan.faults.push_back(fault(F_CRASH_STEP, 1 + r.below(b.steps), 1, 0));
                else
                    k.plan.faults.push_back(fault(F_CRASH_IO, r.below(b.nio + b.nio / 2 + 1), 1, (int64_t)r.below(3)));
            } else if (m < 80) {
                for (int q = 0; q < n; q++) {
                    uint32_t times = r.chance(60) ? 1u : (uint32_t)log_range(r, 2, 1u << 20);
                    int64_t e = errs[r.below(5)];
                    std::string f = r.chance(40) ? path : r.chance(50) ? "" : r.chance(50) ? "lint.json" : "zones/";
                    switch (r.below(9)) {
                    case 0:
                        k.plan.faults.push_back(fault(F_OPEN_FAIL, r.below(12), times, e, f.c_str()));
                        break;
                    case 1:
                        k.plan.faults.push_back(fault(F_READ_FAIL, r.below(20), times, e, f.c_str()));
                        break;
                    case 2:
                        k.plan.faults.push_back(fault(F_WRITE_FAIL, r.below(8), times, e, f.c_str()));
                        break;
                    case 3:
                        k.plan.faults.push_back(fault(F_CLOSE_FAIL, r.below(8), times, e, f.c_str()));
                        break;
                    case 4:
                        k.plan.faults.push_back(fault(F_DISK_FULL, 0, 1, (int64_t)r.below(base.report.size() + 1), f.c_str()));
                        break;
                    case 5:
                        k.plan.faults.push_back(fault(F_RENAME_FAIL, 0, times, e, ""));
                        break;
                    case 6:
                        k.plan.faults.push_back(fault(F_ALLOC_FAIL, r.below(b.n_alloc), times, 0));
                        break;
                    case 7:
                        soft(k.plan, r, f.c_str(), true, true);
                        break;
                    case 8:
                        k.plan.faults.push_back(fault(F_THREAD_FAIL, r.below(b.n_thread), 1 + (uint32_t)r.below(3), 0));
                        break;
                    }
                }
            }
        } else if (p == "C10") {
            if (r.chance(30))
                schedule(k.plan, r, b, false, false, false);
            else
                k.plan.max_steps = b.steps * 30 + 4000000;
            int m = r.range(0, 99);
            const auto sites = m >= 52 ? j.sites(c.sc) : std::vector<std::pair<uint64_t, uint64_t>>();
            if (!sites.empty()) {
                // every place that allocates, however seldom
                auto [site, total] = r.pick(sites);
                uint64_t at = r.chance(40) ? 0 : r.below(total);
                k.plan.faults.push_back(
                    fault(F_ALLOC_SITE, at, r.chance(60) ? 1u : (uint32_t)log_range(r, 2, 2000), (int64_t)site));
            } else if (m < 16) {
                k.plan.faults.push_back(fault(F_THREAD_FAIL, r.below(b.n_thread), r.chance(70) ? 1u : (uint32_t)r.range(2, 30), 0));
            } else if (m < 36) {
                uint64_t at = r.below(b.n_alloc);
                uint32_t n = r.chance(50) ? 1u : (uint32_t)log_range(r, 2, 4000);
                k.plan.faults.push_back(fault(F_ALLOC_FAIL, at, n, 0));
            } else {
                // big blocks: queues and tables
                static const int64_t sizes[] = {256, 512, 1024, 2048, 4096, 8192};
                k.plan.faults.push_back(
                    fault(F_ALLOC_BIG, r.below(r.chance(60) ? 40 : 400), r.chance(60) ? 1u : (uint32_t)r.range(2, 200), sizes[r.below(6)]));
            }
            if (r.chance(20))
                k.left["output.json"] = stale_report(r, base.report);
        } else if (p == "C11") {
            if (r.chance(30))
                schedule(k.plan, r, b, false, false, false);
            else
                k.plan.max_steps = b.steps * 30 + 4000000;
            if (i > 0) {
                int m = r.range(0, 99);
                const char *f = "lint.json";
                uint64_t ro = count_ops(base, 'R', f) + count_ops(base, 'o', f), rr = count_ops(base, 'r', f),
                         ww = count_ops(base, 'w', f), cc = count_ops(base, 'c', f);
                static const int64_t errs[] = {ENOSPC, EIO, EDQUOT, EFBIG};
                if (m < 30)
                    soft(k.plan, r, r.chance(70) ? f : "", true, true);
                else if (m < 45)
                    k.plan.faults.push_back(fault(F_OPEN_FAIL, r.below(ro), 1 + (uint32_t)r.below(2), EMFILE, f));
                else if (m < 60 && rr)
                    k.plan.faults.push_back(fault(F_READ_FAIL, r.below(rr), 1 + (uint32_t)r.below(2), EIO, f));
                else if (m < 75)
                    k.plan.faults.push_back(fault(F_WRITE_FAIL, r.below(ww), 1 + (uint32_t)r.below(2), errs[r.below(4)], f));
                else if (m < 88)
                    k.plan.faults.push_back(fault(F_DISK_FULL, 0, 1, (int64_t)r.below(base.lint.size()), f));
                else
                    k.plan.faults.push_back(fault(F_CLOSE_FAIL, r.below(cc), 1, EIO, f));
            }
            if (r.chance(50))
                k.left["lint.json"] = stale_lint(r);
        } else if (p == "C22") {
            schedule(k.plan, r, b, true, r.chance(25), true);
            if (c.sc.log && r.chance(40)) {
                const char *l = "log.txt";
                uint64_t n = std::max<uint64_t>(1, count_ops(base, 'w', l));
                int what = r.range(0, 9);
                static const int64_t errs[] = {ENOSPC, EIO, EDQUOT, EFBIG};
                if (what < 6)
                    soft(k.plan, r, l, false, true);
                else if (what == 6)
                    k.plan.faults.push_back(fault(F_DISK_FULL, 0, 1, (int64_t)r.below(4000), l));
                else if (what == 7)
                    k.plan.faults.push_back(fault(F_WRITE_FAIL, r.below(n), r.chance(60) ? 1u : 1u << 30, errs[r.below(4)], l));
                else if (what == 8)
                    k.plan.faults.push_back(fault(F_OPEN_FAIL, 0, 1u << (r.below(2) * 4), EACCES, l));
                else
                    k.plan.faults.push_back(fault(F_CLOSE_FAIL, 0, 1, EIO, l));
            }
            if (r.chance(30))
                k.left["log.txt"] = "[11/11/20 11:11:11.111] [thread 1] [ info  ] of an earlier run\n";
        } else if (p == "C17") {
            k.extra["seed"] = r.next();
            k.extra["names"] = index == 0 ? 400 : 40;
            if (i > 0)
                schedule(k.plan, r, b, false, false, false);
        } else if (p == "C18") {
            k.extra["reorder"] = r.chance(50);
            k.extra["files"] = r.chance(40);
            if (i > 0) {
                soft(k.plan, r, "zones/", true, false);
                if (r.chance(30))
                    schedule(k.plan, r, b, false, false, false);
            }
        } else {
            if (i > 0)
                schedule(k.plan, r, b, r.chance(30), false, r.chance(20));
        }
        if (!emit(k))
            return true;
    }
    return true;
}
