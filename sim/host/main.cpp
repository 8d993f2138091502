// Searches for violations of one property, or replays one.
#include "campaign.h"
#include "shrink.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using Clock = std::chrono::steady_clock;

static double since(Clock::time_point t)
{
    return std::chrono::duration<double>(Clock::now() - t).count();
}

struct Options {
    std::string exe, property, tier = "quick", evidence, replays = ".", scratch, known;
    uint64_t seed = 1;
    double limit = 300;
    int threads = 8;
    long index = -1;
    double scale = 1;
    bool all = false; // report every violation, minimise none (for development)
};

static std::string g_scratch;

static std::string make_scratch(const Options &o)
{
    std::vector<std::string> places;
    if (!o.scratch.empty())
        places.push_back(o.scratch);
    places.push_back("/dev/shm");
    places.push_back("/tmp");
    for (auto &p : places) {
        std::string t = p + "/grootsim.XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (mkdtemp(b.data()))
            return b.data();
    }
    throw std::runtime_error("no scratch directory");
}

static const char *kFaultNames[F_KINDS] = {"none",          "open fails",     "short read",     "interrupted read",
                                           "read fails",    "short write",    "interrupted write", "write fails",
                                           "disk full",     "close fails",    "allocation fails",  "big allocation fails",
                                           "thread creation fails", "clock jump", "crash at a step", "crash at a file operation",
                                           "spurious wake-up", "fsync fails", "rename fails", "allocation of one call site fails"};

static json describe(const Case &c)
{
    json j;
    j["mode"] = c.mode;
    j["zones"] = c.sc.zones.size();
    size_t recs = 0;
    for (auto &z : c.sc.zones)
        recs += z.recs.size();
    j["records"] = recs;
    j["jobs"] = json::array();
    for (auto &x : c.sc.jobs) {
        std::string t = x.domain + (x.sub ? " and below:" : " only:");
        for (auto &p : x.props)
            t += " " + p.name;
        j["jobs"].push_back(t);
    }
    if (c.sc.default_job)
        j["jobs"].push_back("default");
    static const char *st[] = {"turns", "random", "priorities", "at synchronisation", "mixed", "replay"};
    const SchedPlan &s = c.plan.sched;
    j["schedule"] = {{"strategy", st[s.strategy]}, {"seed", s.seed}, {"stalls", s.nstalls}, {"quantum", s.quantum}};
    j["faults"] = json::array();
    for (auto &f : c.plan.faults)
        j["faults"].push_back(std::string(kFaultNames[f.kind]) + " nth " + std::to_string(f.nth) + " count " +
                              std::to_string(f.count) + " arg " + std::to_string(f.arg) + (f.filter[0] ? " " : "") + f.filter);
    if (c.property == "C23" || c.property == "C24")
        j["damage"] = c.extra;
    return j;
}

static bool same(const Verdict &a, const Verdict &b)
{
    return a.bad == b.bad && a.kind == b.kind && a.text == b.text && a.hash == b.hash;
}

// The known findings listed for a property: id and what fails.
static std::map<std::string, std::string> known_findings(const Options &o, const std::string &property)
{
    std::map<std::string, std::string> out;
    std::ifstream in(o.known);
    std::string line, head = "known: property=" + property + " id=";
    while (std::getline(in, line))
        if (line.compare(0, head.size(), head) == 0) {
            size_t e = line.find(' ', head.size());
            out[line.substr(head.size(), e - head.size())] = e == std::string::npos ? "" : line.substr(e + 1);
        }
    return out;
}

static int replay(const Options &o, const std::string &file)
{
    std::string t;
    if (!read_file(file, t)) {
        std::cerr << "cannot read " << file << "\n";
        return 2;
    }
    json j = json::parse(t);
    Case c = case_from(j.at("case"));
    for (auto &[id, what] : known_findings(o, c.property))
        Judge::listed.insert(id);
    World w(o.exe, g_scratch + "/r", -1);
    Judge jd(w, o.exe);
    Verdict v = jd.judge(c);
    if (!v.bad) {
        std::cout << "no violation\n";
        return 0;
    }
    bool exact = v.kind == j.at("kind") && v.text == j.at("text") && v.hash == j.at("hash").get<uint64_t>();
    std::cout << v.kind << ": " << v.text << "\n";
    std::cout << (exact ? "identical to the recorded execution" : "NOT identical to the recorded execution") << "\n";
    std::cout << "VIOLATION property=" << c.property << " replay=" << file << "\n";
    return exact ? 1 : 4;
}

static int self_replay(const Options &o, const std::string &file)
{
    pid_t p = fork();
    if (p == 0) {
        if (!freopen("/dev/null", "w", stdout))
            _exit(126);
        std::string e = "--exe=" + o.exe, s = "--scratch=" + o.scratch, k = "--known=" + o.known;
        execl("/proc/self/exe", "simhost", "replay", file.c_str(), e.c_str(), s.c_str(), k.c_str(), (char *)nullptr);
        _exit(127);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 99;
}

static int check(const Options &o)
{
    auto known = known_findings(o, o.property);
    for (auto &[id, what] : known)
        Judge::listed.insert(id);
    std::map<std::string, uint64_t> findings;
    auto t0 = Clock::now();
    bool thorough = o.tier == "thorough";
    Budget b = budget(o.property, thorough);
    long total = std::max(1l, (long)(b.scenarios * o.scale));
    std::atomic<long> next{0}, scenarios{0}, skipped{0}, cases{0}, judged_skipped{0};
    std::atomic<bool> stop{false};
    std::mutex mu;
    Tally tally;
    std::vector<json> samples;
    std::string error;
    uint64_t demands = 0, queries = 0;
    long undecided = 0;
    std::optional<Case> found;
    Verdict found_v;
    int violations = 0;
    long found_index = 0;

    auto worker = [&](int id) {
        try {
            World w(o.exe, g_scratch + "/w" + std::to_string(id), id);
            Judge j(w, o.exe);
            while (!stop) {
                long i = next++;
                if (o.index >= 0) {
                    if (i > 0)
                        break;
                    i = o.index;
                }
                if (i >= total && o.index < 0)
                    break;
                if (since(t0) > o.limit)
                    break;
                bool usable = false;
                try {
                    usable = campaign(o.property, o.seed, (uint64_t)i, b.cases, j, [&](const Case &c) {
                    if (stop || since(t0) > o.limit)
                        return false;
                    Verdict v = j.judge(c);
                    cases++;
                    if (v.skipped) {
                        judged_skipped++;
                        return true;
                    }
                    {
                        std::lock_guard<std::mutex> l(mu);
                        if ((samples.size() < 4 && (cases > 20 || total < 20)) || (samples.size() < 8 && i % 97 == 13))
                            samples.push_back(describe(c));
                    }
                    if (v.bad) {
                        Verdict again = j.judge(c);
                        if (!same(v, again))
                            throw CheckError("not reproducible: " + v.kind + ": " + v.text + " / " +
                                             (again.bad ? again.kind + ": " + again.text : "no violation"));
                        std::lock_guard<std::mutex> l(mu);
                        violations++;
                        if (o.all) {
                            std::cout << "[" << i << "] " << v.kind << ": " << v.text << "\n";
                            return false;
                        }
                        if (!found || i < found_index) {
                            found = c;
                            found_v = v;
                            found_index = i;
                        }
                        stop = true;
                        return false;
                    }
                    return true;
                });
                } catch (CheckError &e) {
                    // a few runs that nothing can be said about are left out, and counted
                    std::lock_guard<std::mutex> l(mu);
                    std::cerr << "note: scenario " << i << ": " << e.what() << "\n";
                    if (++undecided > 3 + scenarios / 200)
                        throw;
                }
                if (usable)
                    scenarios++;
                else
                    skipped++;
            }
            std::lock_guard<std::mutex> l(mu);
            tally.merge(w.tally);
            demands += j.demands;
            queries += j.queries;
            for (auto &[id, n] : j.findings)
                findings[id] += n;
        } catch (std::exception &e) {
            std::lock_guard<std::mutex> l(mu);
            error = e.what();
            stop = true;
        }
    };
    std::vector<std::thread> th;
    for (int i = 0; i < o.threads; i++)
        th.emplace_back(worker, i);
    for (auto &t : th)
        t.join();
    double search_s = since(t0);

    int rc = 0;
    std::string replay_file;
    if (found && !o.all) {
        Case c = *found;
        Verdict v = found_v;
        try {
            World w(o.exe, g_scratch + "/m", 0);
            Judge j(w, o.exe);
            c = minimise(j, w, *found, v, thorough ? 120 : 60);
            Verdict a = j.judge(c), b2 = j.judge(c);
            if (!same(a, b2) || !a.bad)
                throw CheckError("the minimised case is not reproducible: " + a.text + " / " + b2.text);
            v = a;
            mkdir(o.replays.c_str(), 0755);
            replay_file = o.replays + "/" + o.property + "-" + std::to_string(o.seed) + "-" + std::to_string(found_index) + ".json";
            json r;
            r["property"] = o.property;
            r["seed"] = o.seed;
            r["index"] = found_index;
            r["kind"] = v.kind;
            r["text"] = v.text;
            r["hash"] = v.hash;
            r["case"] = to_json(c);
            Files f = files_of(c.sc);
            damage(f, c);
            r["files"] = f;
            r["arguments"] = c.property == "C24" ? argv_of(c.sc, c.extra.value("report", "")) : argv_of(c.sc);
            r["summary"] = describe(c);
            if (!write_file(replay_file, r.dump(1, ' ', false, json::error_handler_t::replace)))
                throw CheckError("cannot write " + replay_file);
            int s = self_replay(o, replay_file);
            if (s != 1)
                throw CheckError("the replay in a fresh process ended with " + std::to_string(s) + " for " + replay_file);
            rc = 1;
        } catch (std::exception &e) {
            error = e.what();
        }
        if (rc == 1) {
            std::cout << v.kind << ": " << v.text << "\n";
            std::cout << "scenario: " << describe(c).dump() << "\n";
        }
    }
    double wall = since(t0);
    json ev;
    ev["property"] = o.property;
    ev["tier"] = o.tier;
    ev["seed"] = o.seed;
    bool faulty = std::set<std::string>{"C07", "C08", "C09", "C10", "C11", "C23", "C24"}.count(o.property) > 0;
    ev["level"] = faulty ? "fault_enumeration" : "exploration";
    json &cv = ev["coverage"];
    cv["evaluations"] = (uint64_t)cases;
    cv["distinct_nontrivial"] = tally.interleavings.size();
    cv["rule"] = rule(o.property);
    cv["samples"] = samples;
    cv["scenarios"] = (uint64_t)scenarios;
    cv["scenarios_too_big_to_model"] = (uint64_t)skipped;
    cv["scenarios_undecided"] = undecided;
    cv["simulated_runs"] = tally.runs;
    cv["runs_per_hour"] = search_s > 0 ? (uint64_t)((double)tally.runs / search_s * 3600) : 0;
    cv["seeds_per_hour"] = search_s > 0 ? (uint64_t)((double)cases / search_s * 3600) : 0;
    cv["simulated_seconds"] = (double)tally.vtime / 1e9;
    cv["steps"] = tally.steps;
    cv["context_switches"] = tally.switches;
    cv["preemptions"] = tally.preemptions;
    cv["synchronisation_operations"] = tally.sync_ops;
    cv["distinct_interleavings"] = tally.interleavings.size();
    cv["interleaving_measure"] = "hash over the order of all synchronisation and file operations with the thread executing each";
    cv["max_threads"] = tally.max_threads;
    cv["max_runnable_threads"] = tally.max_runnable;
    json fl = json::object();
    for (uint32_t i = 1; i < F_KINDS; i++)
        if (tally.fired[i])
            fl[kFaultNames[i]] = tally.fired[i];
    for (auto &[k, n] : tally.damage)
        fl["damaged input: " + k] = n;
    if (tally.stall_effects)
        fl["scheduling decisions with stalled threads"] = tally.stall_effects;
    cv["faults_injected"] = fl;
    cv["runs_with_faults"] = tally.faulted_runs;
    cv["base"] = tally.what;
    cv["run_endings"] = tally.endings;
    if (o.property == "C17") {
        cv["concrete_queries_resolved"] = queries;
        cv["entries_demanded"] = demands;
    }
    if (!findings.empty())
        cv["known_findings"] = findings;
    cv["real_components"] = "bin/groot.cpp, src/*.cpp, moodycamel queues, Boost headers, nlohmann::json (instrumented); "
                            "Boost.Regex/Filesystem, spdlog, docopt, fmt, libstdc++ (binary, their threads, locks, files and "
                            "allocations simulated)";
    cv["stubs"] = "scheduler, pthread synchronisation, clocks, allocator, file operations (real files in a scratch directory, "
                  "faults injected in front of them), ThreadSanitizer runtime";
    ev["assumptions"] = assumptions(o.property);
    ev["wall_s"] = wall;
    ev["violations"] = rc == 1 ? 1 : 0;
    if (!o.evidence.empty())
        write_file(o.evidence, ev.dump(1) + "\n");
    std::cout << o.property << ": " << scenarios << " scenarios (" << skipped << " too big), " << cases << " cases, " << tally.runs
              << " runs, " << tally.interleavings.size() << " distinct interleavings, " << fl.dump() << ", " << search_s << " s"
              << (o.property == "C17" ? ", " + std::to_string(queries) + " queries, " + std::to_string(demands) + " entries demanded" : "")
              << "\n";
    if (!error.empty() && rc != 1) {
        std::cout << "ERROR: " << error << "\n";
        return 2;
    }
    if (rc == 1)
        std::cout << "VIOLATION property=" << o.property << " replay=" << replay_file << std::endl;
    for (auto &[id, n] : findings)
        std::cout << "KNOWN-FINDING: property=" << o.property << " " << known[id] << "\n";
    if (!o.all && (long)cases == 0) {
        std::cout << "ERROR: nothing was checked\n";
        return 2;
    }
    return o.all ? (violations ? 1 : 0) : rc;
}

static void clean(const std::string &d)
{
    // only what this program creates: directories one level down are removed by their owners
    for (int i = 0; i < 64; i++)
        rmdir((d + "/w" + std::to_string(i)).c_str());
    rmdir((d + "/r").c_str());
    rmdir((d + "/m").c_str());
    rmdir(d.c_str());
}

int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN);
    Options o;
    std::string cmd = argc > 1 ? argv[1] : "";
    std::vector<std::string> rest;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i], v;
        size_t e = a.find('=');
        if (a.compare(0, 2, "--") || e == std::string::npos) {
            rest.push_back(a);
            continue;
        }
        v = a.substr(e + 1);
        a = a.substr(2, e - 2);
        if (a == "exe")
            o.exe = v;
        else if (a == "property")
            o.property = v;
        else if (a == "tier")
            o.tier = v;
        else if (a == "seed")
            o.seed = strtoull(v.c_str(), nullptr, 0);
        else if (a == "evidence")
            o.evidence = v;
        else if (a == "replays")
            o.replays = v;
        else if (a == "scratch")
            o.scratch = v;
        else if (a == "limit")
            o.limit = atof(v.c_str());
        else if (a == "threads")
            o.threads = atoi(v.c_str());
        else if (a == "index")
            o.index = atol(v.c_str());
        else if (a == "scale")
            o.scale = atof(v.c_str());
        else if (a == "known")
            o.known = v;
        else if (a == "all")
            o.all = v != "0";
        else {
            std::cerr << "unknown option " << a << "\n";
            return 2;
        }
    }
    try {
        g_scratch = make_scratch(o);
        int rc = 2;
        if (cmd == "check")
            rc = check(o);
        else if (cmd == "replay" && !rest.empty())
            rc = replay(o, rest[0]);
        else
            std::cerr << "usage: simhost check|replay ...\n";
        clean(g_scratch);
        return rc;
    } catch (std::exception &e) {
        std::cerr << "ERROR: " << e.what() << "\n";
        clean(g_scratch);
        return 2;
    }
}
