#include "judge.h"
#include "concrete.h"
#include <algorithm>
#include <cmath>

const std::set<std::string> kPathNames = {"Hops", "Rewrites", "Query Rewrite", "Name Server Contact", "Rewrite Blackholing",
                                          "All Aliases"};
const std::set<std::string> kAnswerNames = {"ResponseReturned", "Response Value", "Response Consistency", "Zero TTL"};
const std::set<std::string> kDelegationNames = {"Delegation Consistency", "Lame Delegation"};
const std::set<std::string> kStructuralNames = {"Structural Delegation Consistency"};
const std::set<std::string> kLengthNames = {"DNAME Substitution exceeds length", "Infinite DName Recursion"};
static const std::string kCycle = "Cyclic Zone Dependency";

json to_json(const Case &c)
{
    json j;
    j["property"] = c.property;
    j["mode"] = c.mode;
    j["scenario"] = to_json(c.sc);
    j["plan"] = to_json(c.plan);
    j["left"] = c.left;
    j["extra"] = c.extra;
    return j;
}

Case case_from(const json &j)
{
    Case c;
    c.property = j.at("property");
    c.mode = j.at("mode");
    c.sc = scenario_from(j.at("scenario"));
    c.plan = plan_from(j.at("plan"));
    c.left = j.at("left").get<Files>();
    c.extra = j.at("extra");
    return c;
}

bool damage(Files &files, const Case &c)
{
    if (c.property != "C23" && (c.property != "C24" || c.mode.empty()))
        return true;
    auto f = files.find(c.extra.value("file", ""));
    if (f == files.end() || f->second.empty())
        return false;
    std::string &t = f->second;
    if (c.mode == "cut") {
        t.resize(c.extra.at("at").get<uint64_t>() % t.size());
    } else if (c.mode == "drop" || c.mode == "put") {
        json j = json::parse(t), patch;
        std::string at = c.extra.at("at");
        if (!j.contains(json::json_pointer(at)))
            return false;
        if (c.mode == "drop")
            patch = {{{"op", "remove"}, {"path", at}}};
        else
            patch = {{{"op", "replace"}, {"path", at}, {"value", c.extra.at("value")}}};
        t = j.patch(json::array({patch[0]})).dump(1);
    } else if (c.mode == "garbled") {
        for (auto &e : c.extra.at("edits")) {
            size_t at = e[0].get<uint64_t>() % (t.size() + 1), n = std::min<size_t>(e[1].get<size_t>(), t.size() - at);
            std::string with = e[2].is_array() ? std::string() : e[2].get<std::string>();
            if (e[2].is_array())
                for (auto &b : e[2])
                    with.push_back((char)b.get<int>());
            t.replace(at, n, with);
        }
    } else {
        throw CheckError("unknown damage " + c.mode);
    }
    return true;
}

Plan Judge::turns(uint64_t max_steps)
{
    Plan p;
    p.sched.strategy = S_TURNS;
    p.sched.quantum = 2000;
    p.max_steps = max_steps;
    return p;
}

void Judge::remember(const Scenario &s)
{
    std::string key = to_json(s).dump();
    if (key == m_.key)
        return;
    m_ = Memo();
    m_.key = key;
}

const Seen &Judge::base(const Scenario &s)
{
    remember(s);
    if (!m_.base)
    {
        m_.base = w_.run(files_of(s), argv_of(s), turns(bound(s)));
        w_.tally.what["base steps"] += m_.base->run.steps;
        w_.tally.what["base runs"]++;
    }
    return *m_.base;
}

Model *Judge::model(const Scenario &s)
{
    expected(s);
    return m_.model.get();
}

const std::vector<JobResult> *Judge::expected(const Scenario &s)
{
    remember(s);
    if (m_.too_big)
        return nullptr;
    if (!m_.model) {
        m_.model = std::make_shared<Model>(s, model_limit);
        try {
            if (s.default_job)
                m_.jobs.push_back(m_.model->run(Model::default_job()));
            else
                for (auto &j : s.jobs)
                    m_.jobs.push_back(m_.model->run(j));
        } catch (TooBig &) {
            m_.too_big = true;
            return nullptr;
        }
        // The steps that the program takes for this input when its threads take turns are at most about as many (fitted to
        // 9000 scenarios, of which it exceeded none; the median needed half of it).
        size_t records = 0;
        for (auto &z : s.zones)
            records += z.recs.size();
        m_.estimate = 1e5 + 204.0 * (double)m_.model->work + 22.2 * m_.model->squares + 384.0 * m_.model->labels +
                      2300.0 * m_.model->path_nodes + 17800.0 * (double)records + 12800.0 * (double)s.jobs.size();
        if (m_.estimate > 60e6) {
            m_.too_big = true;
            return nullptr;
        }
    }
    return &m_.jobs;
}

std::set<std::string> Judge::listed;

const std::vector<std::pair<uint64_t, uint64_t>> &Judge::sites(const Scenario &s)
{
    remember(s);
    if (m_.sites.empty()) {
        Plan p = turns(bound(s));
        p.flags |= FL_SITES | FL_ALL_SITES;
        w_.run(files_of(s), argv_of(s), p);
        const Result &r = w_.sim.shm()->res;
        for (uint32_t i = 0; i < r.nsites; i++)
            m_.sites.push_back({r.sites[i].hash, (uint64_t)r.sites[i].total});
    }
    return m_.sites;
}

uint64_t Judge::bound(const Scenario &s)
{
    expected(s);
    return (uint64_t)(6 * m_.estimate) + 10000000;
}

Seen Judge::go(const Case &c)
{
    return w_.run(files_of(c.sc), argv_of(c.sc), c.plan, c.left);
}

// as JSON can show it
static json shown(const json &e)
{
    return json::parse(e.dump(-1, ' ', false, json::error_handler_t::replace));
}

static Verdict bad(const std::string &kind, const std::string &raw, uint64_t hash)
{
    const std::string text = shown(raw).get<std::string>();
    Verdict v;
    v.bad = true;
    v.kind = kind;
    v.text = text;
    v.hash = hash;
    return v;
}

static std::string cut(const std::string &s, size_t n = 600)
{
    return s.size() <= n ? s : s.substr(0, n) + "...";
}

// The entries of a report with one of the names; "" in err if every entry is new. (Two entries that differ in nothing but
// the order of a list are the same fact found on two ways: the program may list both.)
static std::set<json> entries(const json &report, const std::set<std::string> *names, std::string &err, bool cycles = false)
{
    std::set<json> o, raw;
    for (auto &e : report) {
        std::string p = e.is_object() ? e.value("Property", "") : "";
        if (names ? !names->count(p) : (p == kCycle) != cycles)
            continue;
        o.insert(normalise(e));
        if (!raw.insert(e).second)
            err = "listed twice: " + e.dump();
    }
    return o;
}

static std::set<json> wanted(const std::vector<JobResult> &jobs, const std::set<std::string> *names)
{
    std::set<json> o;
    for (auto &j : jobs) {
        for (auto &e : j.violations)
            if (!names || names->count(e.value("Property", "")))
                o.insert(shown(e));
        if (!j.aliases.empty() && (!names || names->count("All Aliases")))
            o.insert(normalise(shown(j.alias_entry())));
    }
    return o;
}

static std::string difference(const std::set<json> &got, const std::set<json> &want)
{
    for (auto &e : want)
        if (!got.count(e))
            return "missing from the report: " + cut(e.dump());
    for (auto &e : got)
        if (!want.count(e))
            return "in the report without reason: " + cut(e.dump());
    return "";
}

static std::string classes_differ(const std::vector<long> &got, const std::vector<long> &want)
{
    auto show = [](const std::vector<long> &v) {
        std::string o;
        for (long x : v)
            o += (o.empty() ? "" : ",") + std::to_string(x);
        return "[" + o + "]";
    };
    return got == want ? "" : "classes per job: announced " + show(got) + ", expected " + show(want);
}

static std::string cycles_wrong(const json &report, const std::vector<JobResult> &jobs)
{
    std::string err;
    auto loops = entries(report, nullptr, err, true);
    if (!err.empty())
        return err;
    long classes = 0;
    for (auto &j : jobs)
        classes += j.cyclic_classes;
    for (auto &l : loops) {
        bool real = false;
        for (auto &j : jobs)
            for (auto &g : j.cyclic)
                real = real || cycle_in(l, *g);
        if (!real)
            return "cycle that does not exist: " + cut(l.dump());
    }
    for (auto &j : jobs)
        for (auto &g : j.cyclic) {
            bool found = false;
            for (auto &l : loops)
                found = found || cycle_in(l, *g);
            if (!found)
                return "no cycle reported for the class " + g->v[0].q.str();
        }
    if ((long)loops.size() > classes)
        return "more cycles (" + std::to_string(loops.size()) + ") than classes with one (" + std::to_string(classes) + ")";
    return "";
}

// Faults that fail an operation (the program cannot but notice), as opposed to faults it has to absorb.
static bool hard(const RunOut &r)
{
    for (auto k : {F_OPEN_FAIL, F_READ_FAIL, F_WRITE_FAIL, F_DISK_FULL, F_CLOSE_FAIL, F_FSYNC_FAIL, F_RENAME_FAIL,
                   F_ALLOC_FAIL, F_ALLOC_BIG, F_ALLOC_SITE, F_THREAD_FAIL})
        if (r.fired[k])
            return true;
    return false;
}

// Did closing a file that was open for writing fail? (Closing one that was only read loses nothing.)
static bool write_close_failed(const Seen &s)
{
    std::map<uint32_t, bool> writing;
    for (auto &o : s.io) {
        if (o.op == 'o' || o.op == 'R')
            writing[o.path] = o.op == 'o';
        if (o.op == 'c' && o.result < 0 && writing[o.path])
            return true;
    }
    return false;
}

static std::string hang(const RunOut &r)
{
    if (r.end_kind == E_DEADLOCK)
        return "deadlock";
    if (r.end_kind == E_LIMIT)
        return "no progress";
    return "";
}

static std::multiset<json> lint_expected(const Loaded &ld)
{
    std::multiset<json> o;
    for (json e : ld.lint) {
        if (e.count("File Name"))
            e["File Name"] = "zones/" + e["File Name"].get<std::string>();
        o.insert(shown(e));
    }
    return o;
}

static std::string lint_wrong(const Seen &s, const Loaded &ld)
{
    if (!s.has_lint)
        return "no lint file";
    auto j = parse_report(s.lint);
    if (!j)
        return "the lint file is not a well-formed JSON array: " + cut(s.lint, 300);
    std::multiset<json> got(j->begin(), j->end()), want = lint_expected(ld);
    for (auto &e : want)
        if (got.count(e) != want.count(e))
            return "lint entry " + cut(e.dump(), 300) + ": listed " + std::to_string(got.count(e)) + " times, expected " +
                   std::to_string(want.count(e));
    for (auto &e : got)
        if (!want.count(e))
            return "lint entry without reason: " + cut(e.dump(), 300);
    return "";
}

struct Message {
    std::string line, level, text; // text: without the time
};

static std::vector<Message> messages(const std::string &t)
{
    std::vector<Message> o;
    size_t at = 0;
    while (at < t.size()) {
        size_t nl = t.find('\n', at);
        bool whole = nl != std::string::npos;
        if (!whole)
            nl = t.size();
        Message m;
        m.line = t.substr(at, nl - at);
        at = nl + 1;
        // [date time] [thread id] [ level ] text
        size_t e = std::string::npos, b = m.line.find("] [thread ");
        if (m.line.compare(0, 1, "[") == 0 && b != std::string::npos) {
            b = m.line.find("] [", b + 3);
            if (b != std::string::npos)
                e = m.line.find("] ", b + 3);
        }
        if (e == std::string::npos) {
            m.level = "?";
            m.text = m.line;
        } else {
            for (char ch : m.line.substr(b + 3, e - b - 3))
                if (ch != ' ')
                    m.level += ch;
            m.text = m.line.substr(e + 2);
            if (m.text.compare(0, 8, "Time to ") == 0)
                m.text = m.text.substr(0, m.text.find(':'));
        }
        m.text = m.level + ": " + m.text + (whole ? "" : " (no end of line)");
        o.push_back(m);
    }
    return o;
}

static std::string lost(const std::vector<Message> &want, const std::vector<Message> &got)
{
    std::map<std::string, int> n;
    for (auto &m : want)
        n[m.text]++;
    for (auto &m : got)
        n[m.text]--;
    for (auto &[t, k] : n)
        if (k > 0)
            return "message lost: " + cut(t, 300);
        else if (k < 0)
            return "message more often than with threads taking turns: " + cut(t, 300);
    return "";
}

// largest, smallest, mean, median
static std::string summary_wrong(const char *what, const std::array<double, 4> &got, std::vector<long> all)
{
    std::sort(all.begin(), all.end());
    size_t n = all.size();
    double sum = 0;
    for (long x : all)
        sum += (double)x;
    double want[4] = {(double)all.back(), (double)all[0], sum / (double)n, (double)(all[(n - 1) / 2] + all[n / 2]) / 2};
    static const char *name[4] = {"largest", "smallest", "mean", "median"};
    for (int i = 0; i < 4; i++)
        if (!(std::fabs(got[(size_t)i] - want[i]) <= 1e-5 * std::max(1.0, want[i])))
            return std::string(name[i]) + " number of " + what + ": announced " + std::to_string(got[(size_t)i]) + ", expected " +
                   std::to_string(want[i]);
    return "";
}

// A job's domain is illegal to analyse apart
static Scenario only(const Scenario &s, size_t job)
{
    Scenario o = s;
    o.jobs = {s.jobs[job]};
    return o;
}

Verdict Judge::judge(const Case &c)
{
    const std::string &p = c.property;
    Verdict v;
    remember(c.sc);

    // ---------------------------------------------------------------- reports against the model
    if (p == "C02" || p == "C12" || p == "C13" || p == "C14" || p == "C15" || p == "C16" || p == "C17" || p == "C21") {
        auto *want = expected(c.sc);
        if (!want) {
            v.skipped = true;
            return v;
        }
        Seen s = go(c);
        v.hash = s.run.hash;
        std::string a = abnormal(s.run);
        if (!a.empty())
            return bad("abnormal end", a, s.run.hash);
        auto rep = parse_report(s.report);
        if (!s.has_report || !rep)
            return bad("no report", "exit status 0 without a well-formed report", s.run.hash);
        std::string err, d;
        if (p == "C02") {
            std::vector<long> ecs;
            long total = 0;
            for (auto &j : *want) {
                ecs.push_back(j.classes);
                total += j.classes;
            }
            d = classes_differ(s.ecs, ecs);
            if (d.empty() && s.total_ecs != total)
                d = "total number of classes " + std::to_string(s.total_ecs) + ", expected " + std::to_string(total);
            if (!d.empty())
                return bad("class count", d, s.run.hash);
            auto got = entries(*rep, nullptr, err);
            d = err.empty() ? difference(got, wanted(*want, nullptr)) : err;
            if (d.empty())
                d = cycles_wrong(*rep, *want);
            if (d.empty() && s.total_violations != (long)rep->size())
                d = "announces " + std::to_string(s.total_violations) + " violations, reports " + std::to_string(rep->size());
            if (!d.empty())
                return bad("report", d, s.run.hash);
            return v;
        }
        if (p == "C21") {
            if (s.ecs.size() != want->size() || s.graph_vertices.size() != want->size() || s.graph_edges.size() != want->size())
                return bad("statistics", "statistics of " + std::to_string(s.graph_vertices.size()) + " jobs for " +
                                             std::to_string(want->size()) + " jobs", s.run.hash);
            for (size_t i = 0; i < want->size(); i++) {
                const JobResult &j = (*want)[i];
                if (j.vertices.empty())
                    continue;
                d = summary_wrong("vertices", s.graph_vertices[i], j.vertices);
                if (d.empty())
                    d = summary_wrong("edges", s.graph_edges[i], j.edges);
                if (!d.empty())
                    return bad("statistics", "job " + std::to_string(i + 1) + " (" + j.domain + ", " +
                                                 std::to_string(j.vertices.size()) + " classes): " + d, s.run.hash);
            }
            return v;
        }
        if (p == "C17") {
            auto got = entries(*rep, nullptr, err);
            Rng r(c.extra.value("seed", 1ull));
            const std::vector<Job> jobs = c.sc.default_job ? std::vector<Job>{Model::default_job()} : c.sc.jobs;
            for (auto &j : jobs) {
                long q = 0, st = 0;
                auto ds = concrete_demands(c.sc, m_.model->data(), j, r, c.extra.value("names", 30), q, st);
                queries += (uint64_t)q;
                demands += ds.size();
                for (auto &x : ds)
                    if (got.count(normalise(shown(x.entry))))
                        continue;
                    else if (x.unseen && listed.count("alias-in-target"))
                        findings["alias-in-target"]++;
                    else
                        return bad("uncovered query",
                                   "the query " + x.name + " " + x.type + " (job " + j.domain + ") calls for " +
                                       cut(x.entry.dump()) + ", which is not in the report",
                                   s.run.hash);
            }
            return v;
        }
        if (p == "C16") {
            auto got = entries(*rep, &kLengthNames, err);
            d = err.empty() ? difference(got, wanted(*want, &kLengthNames)) : err;
            if (d.empty())
                d = cycles_wrong(*rep, *want);
        } else {
            const auto &names = p == "C12" ? kPathNames : p == "C13" ? kAnswerNames : p == "C14" ? kDelegationNames : kStructuralNames;
            auto got = entries(*rep, &names, err);
            d = err.empty() ? difference(got, wanted(*want, &names)) : err;
        }
        if (!d.empty())
            return bad("report", d, s.run.hash);
        return v;
    }

    // ---------------------------------------------------------------- schedules and clocks
    if (p == "C01") {
        const Seen ref = base(c.sc);
        std::string a = abnormal(ref.run);
        if (!a.empty())
            return bad("abnormal end", a + " (threads taking turns)", ref.run.hash);
        Seen s = go(c);
        v.hash = s.run.hash;
        a = abnormal(s.run);
        if (!a.empty())
            return bad("abnormal end", a, s.run.hash);
        if (s.report != ref.report) {
            size_t i = 0;
            while (i < s.report.size() && i < ref.report.size() && s.report[i] == ref.report[i])
                i++;
            size_t b = i > 60 ? i - 60 : 0;
            return bad("report differs",
                       "reports differ at byte " + std::to_string(i) + ": '" + cut(s.report.substr(b), 160) + "' and '" +
                           cut(ref.report.substr(b), 160) + "'",
                       s.run.hash);
        }
        std::string d = classes_differ(s.ecs, ref.ecs);
        if (!d.empty())
            return bad("class count", d, s.run.hash);
        return v;
    }
    if (p == "C22") {
        Scenario silent = c.sc;
        silent.stats = silent.log = silent.verbose = silent.lint = false;
        if (!m_.other.count("silent"))
            m_.other["silent"] = w_.run(files_of(silent), argv_of(silent), turns(bound(c.sc)));
        const Seen quiet = m_.other["silent"], ref = base(c.sc);
        std::string a = abnormal(quiet.run);
        if (a.empty())
            a = abnormal(ref.run);
        if (!a.empty())
            return bad("abnormal end", a + " (threads taking turns)", ref.run.hash);
        Seen s = go(c);
        v.hash = s.run.hash;
        if (hard(s.run) && !s.run.ok()) {
            std::string h = hang(s.run);
            return h.empty() ? v : bad(h, abnormal(s.run), s.run.hash);
        }
        a = abnormal(s.run);
        if (!a.empty())
            return bad("abnormal end", a, s.run.hash);
        if (s.report != quiet.report)
            return bad("report differs", "the report is not the one of a run without diagnostics: " + cut(s.report, 200),
                       s.run.hash);
        // every message once
        auto console = messages(s.run.out);
        auto d = lost(messages(ref.run.out), console);
        if (!d.empty())
            return bad("console", d, s.run.hash);
        if (c.sc.log && !hard(s.run)) {
            if (!s.has_log)
                return bad("log", "no log file", s.run.hash);
            auto log = messages(s.log);
            d = lost(messages(ref.log), log);
            if (!d.empty())
                return bad("log", d, s.run.hash);
            // the console shows those of the messages that are important enough, in the same order
            std::vector<Message> shown;
            for (auto &m : log)
                if (m.level == "warning" || m.level == "error" || m.level == "critical" ||
                    (m.level == "info" && c.sc.stats))
                    shown.push_back(m);
            for (size_t i = 0; i < std::max(shown.size(), console.size()); i++)
                if (i >= shown.size() || i >= console.size() || shown[i].line != console[i].line)
                    return bad("log", "the console shows '" + (i < console.size() ? cut(console[i].line, 200) : "") +
                                          "' where the log file has '" + (i < shown.size() ? cut(shown[i].line, 200) : "") + "'",
                               s.run.hash);
        }
        return v;
    }
    if (p == "C03") {
        Seen s = go(c);
        v.hash = s.run.hash;
        std::string a = abnormal(s.run);
        if (!a.empty())
            return bad(hang(s.run).empty() ? "abnormal end" : hang(s.run), a, s.run.hash);
        return v;
    }
    if (p == "C04") {
        Seen s = go(c);
        v.hash = s.run.hash;
        std::string a = abnormal(s.run);
        if (!a.empty())
            return bad("abnormal end", a, s.run.hash);
        auto rep = parse_report(s.report);
        if (!rep)
            return bad("no report", "exit status 0 without a well-formed report", s.run.hash);
        std::set<json> got(rep->begin(), rep->end()), want;
        std::vector<long> ecs;
        const uint64_t most = bound(c.sc);
        for (size_t i = 0; i < c.sc.jobs.size(); i++) {
            Scenario one = only(c.sc, i);
            std::string key = to_json(one).dump();
            if (!m_.other.count(key))
                m_.other[key] = w_.run(files_of(one), argv_of(one), turns(most));
            const Seen &o = m_.other[key];
            a = abnormal(o.run);
            if (!a.empty())
                return bad("abnormal end", a + " (job on its own)", s.run.hash);
            auto r1 = parse_report(o.report);
            if (!r1)
                return bad("no report", "exit status 0 without a well-formed report (job on its own)", s.run.hash);
            want.insert(r1->begin(), r1->end());
            ecs.insert(ecs.end(), o.ecs.begin(), o.ecs.end());
        }
        std::string d = classes_differ(s.ecs, ecs);
        if (!d.empty())
            return bad("class count", d, s.run.hash);
        d = difference(got, want);
        if (d.empty() && rep->size() != want.size())
            d = "an entry is listed twice";
        if (!d.empty())
            return bad("report", "compared with the jobs on their own: " + d, s.run.hash);
        return v;
    }
    if (p == "C05") {
        Case k = c;
        k.plan.flags |= FL_MEM | FL_RACE;
        Seen s = go(k);
        v.hash = s.run.hash;
        if (s.run.mem_found)
            return bad("memory", s.run.mem_text + "\n" + symbols(exe_, s.run.mem_pcs), s.run.hash);
        if (s.run.race_found)
            return bad("race", s.run.race_text + "\n" + symbols(exe_, s.run.race_pcs), s.run.hash);
        if (s.run.end_kind == E_NONE && !s.run.exited())
            return bad("signal", abnormal(s.run), s.run.hash);
        return v;
    }
    if (p == "C06") {
        // the same jobs over and over: what stays alive must not grow with the repetitions
        static const int reps[5] = {2, 6, 10, 26, 58};
        std::map<uint64_t, int64_t> live[5];
        std::map<uint64_t, std::vector<uint32_t>> pcs;
        int64_t total[5] = {};
        auto measure = [&](int i) -> Verdict {
            Case k = c;
            k.plan.flags |= FL_SITES;
            k.sc.jobs.clear();
            for (int q = 0; q < reps[i]; q++)
                k.sc.jobs.insert(k.sc.jobs.end(), c.sc.jobs.begin(), c.sc.jobs.end());
            k.plan.max_steps = bound(c.sc) * (uint64_t)reps[i];
            Seen s = go(k);
            v.hash = s.run.hash;
            std::string a = abnormal(s.run);
            if (!a.empty())
                return bad("abnormal end", a, s.run.hash);
            if (!s.run.marked)
                throw CheckError("the report was never opened");
            const Result &r = w_.sim.shm()->res;
            total[i] = s.run.live_bytes;
            for (uint32_t q = 0; q < r.nsites; q++) {
                live[i][r.sites[q].hash] += r.sites[q].bytes;
                std::vector<uint32_t> pc;
                for (auto x : r.sites[q].pcs)
                    if (x)
                        pc.push_back(x);
                pcs[r.sites[q].hash] = pc;
            }
            return Verdict();
        };
        for (int i = 0; i < 3; i++)
            if (Verdict b = measure(i); b.bad)
                return b;
        // suspects: more alive after each step
        std::set<uint64_t> grew;
        for (auto &[h, b] : live[2])
            if (b > live[1][h] && live[1][h] > live[0][h])
                grew.insert(h);
        if (grew.empty() || total[2] <= total[1] || total[1] <= total[0])
            return v;
        // Pools (a queue keeps a record for each of the threads that ever used it at the same time) level off: a leak goes
        // on at the same rate.
        for (int i = 3; i < 5; i++)
            if (Verdict b = measure(i); b.bad)
                return b;
        int64_t most = 0;
        uint64_t worst = 0;
        for (uint64_t h : grew) {
            int64_t g2 = live[2][h] - live[1][h], g3 = live[3][h] - live[2][h], g4 = live[4][h] - live[3][h];
            if (g3 > 0 && g4 >= 3 * g2 && g4 > most) {
                most = g4;
                worst = h;
            }
        }
        if (most > 0)
            return bad("leak",
                       "live memory when the report is written: " + std::to_string(total[0]) + ", " + std::to_string(total[1]) +
                           ", " + std::to_string(total[2]) + ", " + std::to_string(total[3]) + ", " +
                           std::to_string(total[4]) + " bytes after 2, 6, 10, 26 and 58 repetitions; the last step left " +
                           std::to_string(most) + " bytes at\n" + symbols(exe_, pcs[worst]),
                       v.hash);
        return v;
    }

    // ---------------------------------------------------------------- faults
    if (p == "C07" || p == "C08" || p == "C10") {
        const Seen ref = base(c.sc);
        std::string a = abnormal(ref.run);
        if (!a.empty()) {
            v.skipped = true; // no reference to compare with: another property's business
            return v;
        }
        Files files = files_of(c.sc);
        std::vector<std::string> argv = argv_of(c.sc);
        std::string report = "output.json";
        bool must_fail = false;
        if (c.mode == "missing")
            must_fail = files.erase(c.extra.at("file").get<std::string>()) > 0;
        else if (c.mode == "elsewhere") {
            report = c.extra.at("report").get<std::string>();
            argv = argv_of(c.sc, report);
            must_fail = true;
        }
        Seen s = w_.run(files, argv, c.plan, c.left, report);
        v.hash = s.run.hash;
        std::string h = hang(s.run);
        if (!h.empty())
            return bad(h, abnormal(s.run), s.run.hash);
        bool same = s.has_report && s.report == ref.report;
        auto old = c.left.find(report);
        bool fresh = s.has_report && !(old != c.left.end() && old->second == s.report);
        if (s.run.ok()) {
            if (!same)
                return bad("bad report",
                           "exit status 0, but the report is " +
                               std::string(!s.has_report ? "missing" : parse_report(s.report) ? "wrong" : "incomplete") +
                               (s.has_report ? " (" + std::to_string(s.report.size()) + " bytes, " +
                                                   std::to_string(ref.report.size()) + " expected)"
                                             : ""),
                           s.run.hash);
            if (must_fail || (p == "C07" && hard(s.run)) ||
                (p == "C08" && (s.run.fired[F_CLOSE_FAIL] || s.run.fired[F_FSYNC_FAIL])))
                return bad("failure ignored", "exit status 0 although an operation on a file it needs failed", s.run.hash);
            std::string d = classes_differ(s.ecs, ref.ecs);
            if (!d.empty())
                return bad("class count", d, s.run.hash);
        } else {
            if (!must_fail && !hard(s.run))
                return bad("not absorbed", "short, interrupted or slow operations made the run fail: " + abnormal(s.run),
                           s.run.hash);
            if (p == "C07" && fresh && parse_report(s.report))
                return bad("report in spite of failure", "the run failed to read its input but wrote a complete report",
                           s.run.hash);
        }
        return v;
    }
    if (p == "C09") {
        const Seen ref = base(c.sc);
        if (!abnormal(ref.run).empty()) {
            v.skipped = true;
            return v;
        }
        Seen s = go(c);
        v.hash = s.run.hash;
        Files files = files_of(c.sc);
        if (s.run.end_kind != E_CRASH) {
            std::string a = abnormal(s.run);
            if (!a.empty())
                return bad("abnormal end", a, s.run.hash);
            return v; // it ended before the crash
        }
        // what is on the disk afterwards
        Files disk;
        auto put = [&](const std::string &name, bool has, const std::string &content) {
            if (has)
                disk[name] = content;
        };
        put("output.json", s.has_report, s.report);
        put("lint.json", s.has_lint, s.lint);
        // other files in the directory (temporary ones)
        for (auto &[k, path] : s.paths)
            if (!files.count(path) && path.find('/') == std::string::npos && !disk.count(path)) {
                std::string content;
                if (read_file(w_.sim.path(path), content))
                    disk[path] = content;
            }
        if (c.mode == "power") {
            // files not synced since their last change lose any part of it
            Rng r(c.extra.value("seed", 1ull));
            std::map<std::string, bool> dirty;
            for (auto &o : s.io) {
                auto it = s.paths.find(std::to_string(o.path));
                if (it == s.paths.end() || o.result < 0)
                    continue;
                if (o.op == 'w' || (o.op == 'o' && o.arg))
                    dirty[it->second] = true;
                if (o.op == 's')
                    dirty[it->second] = false;
                if (o.op == 'n') {
                    auto to = s.paths.find(std::to_string(o.path2));
                    if (to != s.paths.end()) {
                        dirty[to->second] = dirty[it->second];
                        dirty[it->second] = false;
                    }
                }
            }
            for (auto &[path, d] : dirty) {
                auto it = disk.find(path);
                if (!d || it == disk.end())
                    continue;
                std::string &content = it->second;
                auto l = c.left.find(path);
                switch (r.below(5)) {
                case 0: // nothing of it reached the disk
                    if (l != c.left.end())
                        content = l->second;
                    else
                        disk.erase(it);
                    break;
                case 1:
                    content.clear();
                    break;
                case 2:
                    content.resize(r.below(content.size() + 1));
                    break;
                case 3: { // a page that was never written
                    size_t page = 64ull << r.below(4);
                    size_t n = content.size() / page;
                    size_t at = r.below(n + 1) * page;
                    for (size_t i = at; i < content.size() && i < at + page; i++)
                        content[i] = 0;
                    break;
                }
                default:
                    break;
                }
            }
        }
        auto now = disk.find("output.json");
        auto old = c.left.find("output.json");
        if (now != disk.end() && now->second != ref.report && !(old != c.left.end() && old->second == now->second) &&
            parse_report(now->second))
            return bad("torn report",
                       "after a crash the report file holds a complete JSON document that is not the report: " +
                           cut(now->second, 200),
                       s.run.hash);
        Seen t = w_.run(files, argv_of(c.sc), turns(bound(c.sc)), disk);
        v.hash = mix64(v.hash, t.run.hash);
        std::string a = abnormal(t.run);
        if (!a.empty())
            return bad("restart", "the run after the crash ends with " + a, v.hash);
        if (t.report != ref.report)
            return bad("restart", "the run after the crash writes a different report", v.hash);
        if (c.sc.lint && t.lint != ref.lint)
            return bad("restart", "the run after the crash writes a different lint file: " + cut(t.lint, 200), v.hash);
        return v;
    }
    if (p == "C11") {
        Model *m = model(c.sc);
        Loaded ld0;
        const Loaded *ld = m ? &m->data() : nullptr;
        if (!ld) {
            ld0 = load(c.sc);
            ld = &ld0;
        }
        Seen s = go(c);
        v.hash = s.run.hash;
        std::string h = hang(s.run);
        if (!h.empty())
            return bad(h, abnormal(s.run), s.run.hash);
        if (s.run.ok()) {
            std::string d = lint_wrong(s, *ld);
            if (!d.empty())
                return bad("lint file", "exit status 0, but " + d, s.run.hash);
            if (write_close_failed(s))
                return bad("failure ignored", "exit status 0 although the lint file could not be closed", s.run.hash);
        } else if (!hard(s.run)) {
            return bad("abnormal end", abnormal(s.run), s.run.hash);
        }
        return v;
    }
    if (p == "C18") {
        Loaded ld = load(c.sc);
        Seen s = go(c);
        v.hash = s.run.hash;
        std::string a = abnormal(s.run);
        if (!a.empty())
            return bad("abnormal end", a, s.run.hash);
        auto num = [](const char *what, long got, long want) {
            return got == want ? std::string()
                               : std::string(what) + ": " + std::to_string(got) + ", expected " + std::to_string(want);
        };
        std::string d = num("records parsed", s.parsed, ld.parsed);
        if (d.empty())
            for (auto &[k, n] : ld.counts)
                if (d.empty())
                    d = num(("records of kind " + k).c_str(), s.counts.count(k) ? s.counts[k] : 0, n);
        if (d.empty())
            for (auto &[k, n] : s.counts)
                if (d.empty() && n != 0 && !ld.counts.count(k))
                    d = num(("records of kind " + k).c_str(), n, 0);
        if (d.empty())
            d = num("names in the name graph", s.vertices, ld.vertices);
        if (d.empty())
            d = num("edges in the name graph", s.edges, ld.edges);
        if (!d.empty())
            return bad("loading", d, s.run.hash);
        // the same records in the plainest layout
        Scenario plain = c.sc;
        bool legal = ld.lint.empty();
        for (auto &z : plain.zones) {
            z.style = 0;
            if (c.extra.value("reorder", false) && z.recs.size() > 2) {
                std::map<std::string, long> cnt = ld.counts;
                for (auto k : {"Duplicate-Records", "CNAME/DNAME Errors", "Out-of-Zone-Records", "Label Length Exceeded",
                               "Domain Length Exceeded"})
                    legal = legal && !cnt.count(k);
                if (legal)
                    std::stable_sort(z.recs.begin() + 1, z.recs.end(), [](const Rec &x, const Rec &y) {
                        return std::tie(x.type, x.rdata, x.name) < std::tie(y.type, y.rdata, y.name);
                    });
            }
        }
        if (c.extra.value("files", false)) {
            // the zone files, the top name servers and the properties of a job in another order
            std::reverse(plain.zones.begin(), plain.zones.end());
            std::reverse(plain.top.begin(), plain.top.end());
            for (auto &j : plain.jobs)
                std::reverse(j.props.begin(), j.props.end());
        }
        std::string key = to_json(plain).dump();
        if (!m_.other.count(key))
            m_.other[key] = w_.run(files_of(plain), argv_of(plain), turns(bound(c.sc)));
        const Seen &o = m_.other[key];
        a = abnormal(o.run);
        if (!a.empty())
            return bad("abnormal end", a + " (plain layout)", s.run.hash);
        auto r1 = parse_report(s.report), r2 = parse_report(o.report);
        if (!r1 || !r2)
            return bad("no report", "exit status 0 without a well-formed report", s.run.hash);
        std::string err;
        d = difference(entries(*r1, nullptr, err), entries(*r2, nullptr, err));
        if (d.empty())
            d = err;
        if (!d.empty())
            return bad("layout", "compared with the same records in plain layout: " + d, s.run.hash);
        d = classes_differ(s.ecs, o.ecs);
        if (!d.empty())
            return bad("layout", "compared with the same records in plain layout: " + d, s.run.hash);
        // record contents, as far as answers show them
        if (auto *want = expected(c.sc)) {
            static const std::set<std::string> names = {"Response Value", "Zero TTL"};
            d = difference(entries(*r1, &names, err), wanted(*want, &names));
            if (!d.empty())
                return bad("contents", d, s.run.hash);
        }
        return v;
    }
    if (p == "C23") {
        Files files = files_of(c.sc);
        if (!damage(files, c)) {
            v.skipped = true;
            return v;
        }
        Case k = c;
        k.plan.flags |= FL_MEM;
        Seen s = w_.run(files, argv_of(c.sc), k.plan, c.left);
        v.hash = s.run.hash;
        w_.tally.damage[c.mode]++;
        w_.tally.interleavings.insert(mix64(s.run.sync_hash, hash_str(c.extra.dump())));
        if (s.run.mem_found)
            return bad("memory", s.run.mem_text + "\n" + symbols(exe_, s.run.mem_pcs), s.run.hash);
        bool refuse = c.mode != "garbled";
        std::string h = hang(s.run);
        if (!h.empty()) {
            if (!refuse && s.run.end_kind == E_LIMIT) {
                v.skipped = true; // damaged zone files may mean more work than whole ones
                return v;
            }
            return bad(h, abnormal(s.run), s.run.hash);
        }
        if (!s.run.exited() || s.run.status() < 0)
            return bad("signal", abnormal(s.run), s.run.hash);
        auto old = c.left.find("output.json");
        if (s.run.status() == 0) {
            if (refuse)
                return bad("damage ignored", "exit status 0 although a file of the configuration is damaged", s.run.hash);
            if (!s.has_report || !parse_report(s.report))
                return bad("bad report", "exit status 0 without a well-formed report", s.run.hash);
            if (c.sc.lint && (!s.has_lint || !parse_report(s.lint)))
                return bad("bad lint file", "exit status 0 without a well-formed lint file", s.run.hash);
        } else if (s.has_report != (old != c.left.end()) || (s.has_report && s.report != old->second)) {
            return bad("report in spite of failure", "the run was refused, but the report file changed", s.run.hash);
        }
        return v;
    }
    if (p == "C24") {
        Files files = files_of(c.sc);
        if (!damage(files, c)) {
            v.skipped = true;
            return v;
        }
        std::string report = c.extra.value("report", ""), out = report.empty() ? "output.json" : report;
        Seen s = w_.run(files, argv_of(c.sc, report), c.plan, c.left, out);
        v.hash = s.run.hash;
        std::set<std::string> own = {out};
        if (c.sc.lint)
            own.insert("lint.json");
        if (c.sc.log)
            own.insert("log.txt");
        Files before = files;
        before.insert(c.left.begin(), c.left.end());
        std::string t = w_.touched(before, own, s);
        if (!t.empty())
            return bad("foreign file", t + " (" + s.run.ending() + ")", s.run.hash);
        return v;
    }
    throw CheckError("unknown property " + p);
}
