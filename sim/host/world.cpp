#include "world.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

Files files_of(const Scenario &s)
{
    Files f;
    for (auto &z : s.zones)
        f["zones/" + z.file] = render(z).text;
    f["zones/metadata.json"] = metadata(s).dump(1);
    if (!s.default_job)
        f["jobs.json"] = jobs_json(s.jobs).dump(1);
    return f;
}

std::vector<std::string> argv_of(const Scenario &s, const std::string &output)
{
    std::vector<std::string> a = {"zones"};
    if (!s.default_job)
        a.push_back("--jobs=jobs.json");
    if (!output.empty())
        a.push_back("--output=" + output);
    if (s.stats)
        a.push_back("-s");
    if (s.lint)
        a.push_back("--lint");
    if (s.log)
        a.push_back("-l");
    if (s.verbose)
        a.push_back("-v");
    return a;
}

json to_json(const Plan &p)
{
    json j;
    const SchedPlan &s = p.sched;
    j["strategy"] = s.strategy;
    j["quantum"] = s.quantum;
    j["seed"] = s.seed;
    j["mean_gap"] = s.mean_gap;
    j["slice_cap"] = s.slice_cap;
    j["sync_ppm"] = s.sync_ppm;
    j["pct_depth"] = s.pct_depth;
    j["pct_length"] = s.pct_length;
    j["fair_after"] = s.fair_after;
    j["fair_quantum"] = s.fair_quantum;
    j["fair_switches"] = s.fair_switches;
    j["time_base"] = s.time_base;
    j["ns_per_step"] = s.ns_per_step;
    j["child_map"] = s.child_map;
    j["log_queue"] = s.log_queue;
    j["stalls"] = json::array();
    for (uint32_t i = 0; i < s.nstalls; i++)
        j["stalls"].push_back({s.stalls[i].from, s.stalls[i].to, s.stalls[i].threads});
    j["faults"] = json::array();
    for (auto &f : p.faults)
        j["faults"].push_back({{"kind", f.kind}, {"nth", f.nth}, {"count", f.count}, {"arg", f.arg}, {"arg2", f.arg2},
                               {"filter", std::string(f.filter)}});
    j["flags"] = p.flags;
    j["max_steps"] = p.max_steps;
    j["use_replay"] = p.use_replay;
    j["switches"] = p.replay;
    return j;
}

Plan plan_from(const json &j)
{
    Plan p;
    SchedPlan &s = p.sched;
    s.strategy = j.at("strategy");
    s.quantum = j.at("quantum");
    s.seed = j.at("seed");
    s.mean_gap = j.at("mean_gap");
    s.slice_cap = j.at("slice_cap");
    s.sync_ppm = j.at("sync_ppm");
    s.pct_depth = j.at("pct_depth");
    s.pct_length = j.at("pct_length");
    s.fair_after = j.at("fair_after");
    s.fair_quantum = j.at("fair_quantum");
    s.fair_switches = j.at("fair_switches");
    s.time_base = j.at("time_base");
    s.ns_per_step = j.at("ns_per_step");
    s.child_map = j.value("child_map", 500u);
    s.log_queue = j.value("log_queue", 0u);
    for (auto &x : j.at("stalls"))
        if (s.nstalls < kMaxStalls)
            s.stalls[s.nstalls++] = Stall{x[0], x[1], x[2]};
    for (auto &x : j.at("faults")) {
        Fault f;
        f.kind = x.at("kind");
        f.nth = x.at("nth");
        f.count = x.at("count");
        f.arg = x.at("arg");
        f.arg2 = x.at("arg2");
        strncpy(f.filter, x.at("filter").get<std::string>().c_str(), sizeof f.filter - 1);
        p.faults.push_back(f);
    }
    p.flags = j.at("flags");
    p.max_steps = j.at("max_steps");
    p.use_replay = j.at("use_replay");
    p.replay = j.at("switches").get<std::vector<uint64_t>>();
    return p;
}

void Tally::merge(const Tally &o)
{
    runs += o.runs;
    steps += o.steps;
    switches += o.switches;
    preemptions += o.preemptions;
    sync_ops += o.sync_ops;
    vtime += o.vtime;
    stall_effects += o.stall_effects;
    for (uint32_t i = 0; i < F_KINDS; i++)
        fired[i] += o.fired[i];
    faulted_runs += o.faulted_runs;
    max_threads = std::max(max_threads, o.max_threads);
    max_runnable = std::max(max_runnable, o.max_runnable);
    interleavings.insert(o.interleavings.begin(), o.interleavings.end());
    for (auto &[k, v] : o.what)
        what[k] += v;
    for (auto &[k, v] : o.endings)
        endings[k] += v;
    for (auto &[k, n] : o.damage)
        damage[k] += n;
}

static void clear_dir(const std::string &d)
{
    DIR *h = opendir(d.c_str());
    if (!h)
        return;
    while (dirent *e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
            clear_dir(p);
            rmdir(p.c_str());
        } else {
            unlink(p.c_str());
        }
    }
    closedir(h);
}

static void walk(const std::string &dir, const std::string &below, Files &out)
{
    DIR *h = opendir(dir.c_str());
    if (!h)
        return;
    while (dirent *e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) != 0)
            continue;
        if (S_ISDIR(st.st_mode))
            walk(p, below + n + "/", out);
        else if (!S_ISREG(st.st_mode) || !read_file(p, out[below + n]))
            out[below + n] = "not a readable file";
    }
    closedir(h);
}

std::string World::touched(const Files &before, const std::set<std::string> &own, const Seen &s)
{
    Files now;
    walk(sim.dir(), "", now);
    now.erase("stdout.txt"); // the simulator's own
    now.erase("stderr.txt");
    installed_.clear(); // nothing of this run is left in place
    // what is being written may have another name until it is complete
    auto spare = [&](const std::string &p) {
        for (auto &o : own)
            if (p.find(o.substr(o.rfind('/') + 1)) != std::string::npos)
                return !(s.run.exited() && s.run.status() == 0);
        return false;
    };
    for (auto &[p, c] : before) {
        if (own.count(p))
            continue;
        auto it = now.find(p);
        if (it == now.end())
            return p + " was removed";
        if (it->second != c)
            return p + " was changed";
    }
    for (auto &[p, c] : now)
        if (!before.count(p) && !own.count(p) && !spare(p))
            return p + " was created";
    for (auto &o : s.io)
        if (o.op == 'o' || o.op == 'n' || o.op == 'u') {
            for (int i : {(int)o.path, (int)o.path2}) {
                auto it = s.paths.find(std::to_string(i));
                if (it != s.paths.end() && it->second[0] == '/' && o.result >= 0)
                    return it->second + " was written";
            }
        }
    return "";
}

World::~World()
{
    clear_dir(sim.dir());
    rmdir(sim.dir().c_str());
}

Seen World::run(const Files &files, const std::vector<std::string> &argv, const Plan &plan, const Files &left,
                const std::string &report)
{
    // everything but the input goes; the input is written anew only if it changed
    if (files != installed_) {
        clear_dir(sim.dir());
        for (auto &[p, c] : files) {
            size_t slash = p.find('/');
            if (slash != std::string::npos)
                mkdir(sim.path(p.substr(0, slash)).c_str(), 0755);
            if (!write_file(sim.path(p), c))
                throw CheckError("cannot write " + sim.path(p));
        }
        installed_ = files;
    } else {
        DIR *h = opendir(sim.dir().c_str());
        while (dirent *e = readdir(h)) {
            std::string n = e->d_name;
            if (n != "." && n != ".." && n != "zones" && n != "jobs.json")
                unlink(sim.path(n).c_str());
        }
        closedir(h);
    }
    for (auto &[p, c] : left) {
        if (size_t slash = p.find('/'); slash != std::string::npos)
            mkdir(sim.path(p.substr(0, slash)).c_str(), 0755);
        if (!write_file(sim.path(p), c))
            throw CheckError("cannot write " + sim.path(p));
    }
    RunSpec spec;
    spec.argv = argv;
    spec.report = report;
    spec.sched = plan.sched;
    spec.flags = plan.flags;
    spec.faults = plan.faults;
    spec.max_steps = plan.max_steps;
    spec.use_replay = plan.use_replay;
    spec.replay = plan.replay;
    Seen s;
    s.run = sim.run(spec);
    const RunOut &r = s.run;
    if (r.timeout)
        throw CheckError("a simulated run exceeded the wall-clock limit");
    if (r.end_kind == E_INTERNAL)
        throw CheckError("limitation of the simulator: " + r.note);
    s.has_report = read_file(sim.path(report), s.report);
    s.has_lint = read_file(sim.path("lint.json"), s.lint);
    s.has_log = read_file(sim.path("log.txt"), s.log);
    size_t at = 0;
    while (at < r.out.size()) {
        size_t nl = r.out.find('\n', at);
        if (nl == std::string::npos)
            nl = r.out.size();
        std::string l = r.out.substr(at, nl - at);
        at = nl + 1;
        auto num = [&](const char *key, long &v) {
            size_t k = l.find(key);
            if (k != std::string::npos)
                v = atol(l.c_str() + k + strlen(key));
            return k != std::string::npos;
        };
        long v;
        if (num("] Number of ECs: ", v))
            s.ecs.push_back(v);
        num("] Total number of ECs across all jobs: ", s.total_ecs);
        num("] Total number of violations: ", s.total_violations);
        num("] Total number of RRs parsed across all zone files: ", s.parsed);
        if (num("] Label Graph: vertices = ", s.vertices)) {
            size_t k = l.find("edges = ");
            if (k != std::string::npos)
                s.edges = atol(l.c_str() + k + 8);
        }
        for (bool e : {false, true}) {
            const char *key = e ? "] Interpretation Graph Edges: " : "] Interpretation Graph Vertices: ";
            size_t g = l.find(key);
            if (g == std::string::npos)
                continue;
            std::array<double, 4> a;
            static const char *names[4] = {"Max=", "Min=", "Mean=", "Median="};
            for (int i = 0; i < 4; i++) {
                size_t n = l.find(names[i], g);
                a[(size_t)i] = n == std::string::npos ? std::nan("") : atof(l.c_str() + n + strlen(names[i]));
            }
            (e ? s.graph_edges : s.graph_vertices).push_back(a);
        }
        size_t k = l.find("] RR Stats: ");
        if (k != std::string::npos) {
            std::string t = l.substr(k + 12);
            size_t b = 0;
            while (b < t.size()) {
                size_t e = t.find(", ", b);
                if (e == std::string::npos)
                    break;
                std::string item = t.substr(b, e - b);
                size_t c = item.rfind(':');
                if (c != std::string::npos)
                    s.counts[item.substr(0, c)] = atol(item.c_str() + c + 1);
                b = e + 2;
            }
        }
    }
    const Result &res = sim.shm()->res;
    for (uint64_t i = 0; i < res.nio && i < kMaxIo; i++)
        s.io.push_back(res.io[i]);
    for (uint32_t i = 0; i < res.npaths; i++)
        s.paths[std::to_string(i)] = res.paths[i];
    tally.runs++;
    tally.steps += r.steps;
    tally.switches += r.nswitches;
    tally.preemptions += r.preemptions;
    tally.sync_ops += r.sync_ops;
    tally.vtime += r.vtime;
    tally.stall_effects += r.stall_effects;
    bool faulted = false;
    for (uint32_t i = 0; i < F_KINDS; i++) {
        tally.fired[i] += r.fired[i];
        faulted |= r.fired[i] > 0;
    }
    tally.faulted_runs += faulted;
    tally.max_threads = std::max<uint64_t>(tally.max_threads, r.threads);
    tally.max_runnable = std::max<uint64_t>(tally.max_runnable, r.max_runnable);
    if (r.preemptions || faulted)
        tally.interleavings.insert(r.sync_hash);
    std::string e = r.ending();
    size_t colon = e.find(':');
    tally.endings[colon == std::string::npos ? e : e.substr(0, colon)]++;
    return s;
}

std::string abnormal(const RunOut &r)
{
    if (r.ok())
        return "";
    std::string e = r.ending();
    if (r.end_kind == E_NONE) {
        std::string o = r.out + r.err;
        size_t k = o.find("Exception");
        if (k == std::string::npos)
            k = o.find("terminate called");
        if (k != std::string::npos)
            e += " (" + o.substr(k, std::min<size_t>(o.find('\n', k) - k, 300)) + ")";
    }
    return e;
}

std::optional<json> parse_report(const std::string &t)
{
    json j = json::parse(t, nullptr, false);
    if (j.is_discarded() || !j.is_array())
        return std::nullopt;
    return j;
}

std::string symbols(const std::string &exe, const std::vector<uint32_t> &pcs)
{
    if (pcs.empty())
        return "";
    std::string cmd = "addr2line -Cfsip -e " + exe;
    for (auto p : pcs) {
        char b[32];
        snprintf(b, sizeof b, " %x", p);
        cmd += b;
    }
    cmd += " 2>/dev/null";
    std::string o;
    FILE *f = popen(cmd.c_str(), "r");
    if (!f)
        return "";
    char b[65536];
    while (fgets(b, sizeof b, f)) {
        std::string l = b; // long for templates
        if (l.size() > 300)
            l = l.substr(0, 120) + " ... " + l.substr(l.size() - 60);
        o += l;
    }
    pclose(f);
    return o;
}
