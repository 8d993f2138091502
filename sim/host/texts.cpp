#include "campaign.h"

std::string rule(const std::string &p)
{
    static const std::string common =
        "Scenarios (zone files over 1-7 zones and several servers each, metadata, job lists, flags) are drawn from the seed; "
        "each is run by the real program in the simulator under the schedules and faults of its cases, also drawn from the seed. ";
    static const std::map<std::string, std::string> m = {
        {"C01", "Each case: one adversarial schedule with stalls, clock jumps and spurious wake-ups; report bytes and class counts against those of threads taking turns. "},
        {"C02", "Each case: one schedule; class counts and the whole report against the reference model. "},
        {"C03", "Each case: an adversarial schedule for a while, then a fair one; the run has to end within a bound on its steps. "},
        {"C04", "Each case: one job list under one schedule; report and class counts against those of each job run on its own. "},
        {"C05", "Each case: one schedule with the happens-before race detector and the heap checker watching every access. "},
        {"C06", "Each case: the jobs repeated 2, 6 and 10 times, and 26 and 58 times if that grew; live heap per allocation site when the report is opened. "},
        {"C07", "Each case: failing, short, interrupted opens and reads of the input files; exit status and report against the fault-free run. "},
        {"C08", "Each case: failing, short, interrupted opens, writes and closes of the report, full disks; exit status and report against the fault-free run. "},
        {"C09", "Each case: a crash at a step or around a file operation, possibly with loss of unsynced data, then a restart on what is left. "},
        {"C10", "Each case: allocations or thread creations fail at a drawn point, single or in bursts; exit status and report against the fault-free run. "},
        {"C11", "Each case: stale lint files and faults on the lint file; exit status and lint file against the issues of the model. "},
        {"C12", "Each case: one schedule; the entries of the path checks against the reference model. "},
        {"C13", "Each case: one schedule; the entries of the answer checks against the reference model. "},
        {"C14", "Each case: one schedule; the entries of the delegation checks against the reference model. "},
        {"C15", "Each case: one schedule; the structural entries against the reference model. "},
        {"C16", "Each case: one schedule; every class with a cycle in the model has a reported cycle, every reported cycle exists, over-long rewrites as in the model. "},
        {"C17", "Each case: one schedule; concrete queries are resolved step by step along every choice of servers and each violation they show has to be in the report. "},
        {"C18", "Each case: one way of writing the records and of delivering the bytes; totals, counts and graph size against the model, report against the plain layout. "},
        {"C23", "Each case: the metadata or the job list is cut off, lacks a part or holds one of the wrong kind, or bytes of a zone file are damaged; how the run ends, the report file and every access of memory are watched. "},
        {"C24", "Each case: one place for the report, some files of the user beside it, the input whole or damaged, and a schedule with a crash, failing file operations or allocations, or none; afterwards every file but the report (and lint.json and log.txt, where asked for) is compared with what it held before. "},
        {"C22", "Each case: one combination of -s, -l, -v and --lint under one schedule, some with faults on the log file; report against that of a silent run, messages on the console and in the log file against each other and against those of threads taking turns. "},
        {"C21", "Each case: one schedule; announced largest, smallest, mean and median graph sizes of each job against the resolution graphs of the reference model. "}};
    return common + m.at(p) + "Non-trivial: the run was preempted or met a fault; distinct: by the order of its synchronisation and file operations.";
}

std::vector<std::string> assumptions(const std::string &p)
{
    std::vector<std::string> a = {
        "threads interleave sequentially consistently: reorderings of a weak memory model are not simulated (races are detected)",
        "accesses inside the binary libraries (spdlog, Boost.Regex, docopt, libstdc++) are not preemption points; their locks, threads, files and allocations are",
        "configurations are drawn at random from the generator's families; the reference model is trusted where it is the oracle"};
    if (p == "C09")
        a.push_back("power loss keeps, empties, cuts or holes each unsynced file independently; directory entries are kept");
    if (p == "C06")
        a.push_back("threads take turns, so that the three runs are comparable");
    return a;
}
