#include "shrink.h"
#include "gen.h"
#include <chrono>

namespace
{
struct Shrinker {
    Judge &j;
    World &w;
    Case best;
    Verdict verdict;
    std::chrono::steady_clock::time_point end;
    uint64_t most = 0;
    bool scheduled = true; // the violation depends on the schedule

    bool time_left() const
    {
        return std::chrono::steady_clock::now() < end;
    }
    bool try_case(const Case &c)
    {
        if (!time_left() || !well_formed(c.sc))
            return false;
        if (!j.expected(c.sc) || j.bound(c.sc) > most)
            return false; // a smaller scenario is to need less work, not more
        try {
            Verdict v = j.judge(c);
            if (v.bad && v.kind == verdict.kind) {
                best = c;
                verdict = v;
                return true;
            }
        } catch (CheckError &) {
        } catch (std::exception &) {
        }
        return false;
    }
    // a change of the scenario may need another seed to bring the violation out
    bool attempt(const Case &c)
    {
        if (try_case(c))
            return true;
        if (!scheduled || c.plan.use_replay)
            return false;
        Case k = c;
        for (int i = 0; i < 5; i++) {
            k.plan.sched.seed = c.plan.sched.seed * 6364136223846793005ull + (uint64_t)i * 2 + 1;
            if (try_case(k))
                return true;
        }
        return false;
    }
    template <class V> void list(V &(*get)(Case &), size_t keep)
    {
        // remove chunks, largest first
        for (size_t chunk = get(best).size(); chunk >= 1 && time_left(); chunk /= 2) {
            for (size_t at = 0; at < get(best).size() && time_left();) {
                Case c = best;
                V &v = get(c);
                size_t n = std::min(chunk, v.size() - at);
                if (v.size() - n < keep) {
                    at += chunk;
                    continue;
                }
                v.erase(v.begin() + (long)at, v.begin() + (long)(at + n));
                if (!attempt(c))
                    at += chunk;
            }
            if (chunk == 1)
                break;
        }
    }
    void zone_records(size_t z)
    {
        for (size_t chunk = best.sc.zones[z].recs.size() / 2 + 1; chunk >= 1 && time_left(); chunk /= 2) {
            for (size_t at = 1; at < best.sc.zones[z].recs.size() && time_left();) {
                Case c = best;
                auto &v = c.sc.zones[z].recs;
                size_t n = std::min(chunk, v.size() - at);
                bool soa = false;
                for (size_t i = at; i < at + n; i++)
                    soa |= v[i].type == SOA;
                v.erase(v.begin() + (long)at, v.begin() + (long)(at + n));
                if (soa || !attempt(c))
                    at += chunk;
            }
            if (chunk == 1)
                break;
        }
    }
    void run()
    {
        list<std::vector<Fault>>([](Case &c) -> std::vector<Fault> & { return c.plan.faults; }, 0);
        if (best.extra.is_object() && best.extra.contains("edits")) {
            // damage that is not needed
            size_t n = best.extra["edits"].size();
            for (size_t chunk = n / 2 + 1; chunk >= 1 && time_left(); chunk /= 2) {
                for (size_t at = 0; at < best.extra["edits"].size() && time_left();) {
                    Case c = best;
                    json &e = c.extra["edits"];
                    for (size_t i = 0; i < chunk && at < e.size(); i++)
                        e.erase(at);
                    if (!try_case(c))
                        at += chunk;
                }
                if (chunk == 1)
                    break;
            }
        }
        {
            Case c = best;
            Plan t = Judge::turns(c.plan.max_steps);
            t.faults = c.plan.faults;
            t.flags = c.plan.flags;
            t.sched.child_map = c.plan.sched.child_map;
            t.sched.log_queue = c.plan.sched.log_queue;
            t.max_steps = c.plan.max_steps;
            c.plan = t;
            if (best.plan.sched.strategy == S_TURNS || try_case(c))
                scheduled = false;
        }
        if (best.plan.sched.nstalls) {
            Case c = best;
            c.plan.sched.nstalls = 0;
            attempt(c);
        }
        if (!best.left.empty()) {
            Case c = best;
            c.left.clear();
            attempt(c);
        }
        for (int round = 0; round < 2; round++) {
            list<std::vector<Job>>([](Case &c) -> std::vector<Job> & { return c.sc.jobs; }, best.sc.jobs.size() ? 1 : 0);
            list<std::vector<Zone>>([](Case &c) -> std::vector<Zone> & { return c.sc.zones; }, 1);
            for (size_t i = 0; i < best.sc.jobs.size(); i++)
                for (size_t k = 0; best.sc.jobs[i].props.size() > 1 && k < best.sc.jobs[i].props.size();) {
                    Case c = best;
                    c.sc.jobs[i].props.erase(c.sc.jobs[i].props.begin() + (long)k);
                    if (!attempt(c))
                        k++;
                }
            for (size_t z = 0; z < best.sc.zones.size(); z++)
                zone_records(z);
            list<std::vector<std::string>>([](Case &c) -> std::vector<std::string> & { return c.sc.top; }, 1);
        }
        for (size_t z = 0; z < best.sc.zones.size(); z++) {
            for (uint32_t b = 1; b <= ST_ALL; b <<= 1)
                if (best.sc.zones[z].style & b) {
                    Case c = best;
                    c.sc.zones[z].style &= ~b;
                    attempt(c);
                }
        }
        if (best.plan.sched.log_queue) {
            Case c = best;
            c.plan.sched.log_queue = 0;
            attempt(c);
        }
        if (best.plan.sched.child_map != 500) {
            Case c = best;
            c.plan.sched.child_map = 500;
            attempt(c);
        }
        for (int k = 0; k < 3; k++) {
            Case c = best;
            if (k == 0)
                c.sc.log = c.sc.verbose = false;
            if (k == 1)
                c.sc.lint = false;
            if (k == 2)
                for (auto &x : c.sc.jobs)
                    x.sub = false;
            if (to_json(c.sc) != to_json(best.sc))
                attempt(c);
        }
    }
    void schedule()
    {
        // write the schedule out, then drop whatever part of it is not needed
        end += std::chrono::seconds(20);
        Verdict v = j.judge(best);
        if (!v.bad || v.kind != verdict.kind)
            return;
        // the decisive run is the last one of a case except where others follow it
        if (best.property == "C06" || best.property == "C09")
            return;
        w.run(files_of(best.sc), argv_of(best.sc), with_flags(best), best.left);
        std::vector<uint64_t> sw = w.sim.switches();
        if (sw.size() >= kMaxSwitches || best.mode == "missing" || best.mode == "elsewhere")
            return;
        Case c = best;
        c.plan.use_replay = true;
        c.plan.replay = sw;
        c.plan.sched.quantum = (uint32_t)std::min<uint64_t>(w.sim.shm()->res.max_slice + 1, 0xffffffffu);
        if (!try_case(c))
            return;
        for (size_t chunk = sw.size() / 2 + 1; chunk >= 1 && time_left(); chunk /= 2) {
            for (size_t at = 0; at < best.plan.replay.size() && time_left();) {
                Case k = best;
                auto &rv = k.plan.replay;
                size_t n = std::min(chunk, rv.size() - at);
                rv.erase(rv.begin() + (long)at, rv.begin() + (long)(at + n));
                if (!try_case(k))
                    at += chunk;
            }
            if (chunk == 1)
                break;
        }
    }
    static Plan with_flags(const Case &c)
    {
        Plan p = c.plan;
        if (c.property == "C05")
            p.flags |= FL_MEM | FL_RACE;
        return p;
    }
};
} // namespace

Case minimise(Judge &j, World &w, Case c, Verdict &v, double seconds)
{
    Shrinker s{j, w, c, v, std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(seconds * 1000))};
    s.most = j.bound(c.sc);
    s.run();
    s.schedule();
    v = s.verdict;
    return s.best;
}
