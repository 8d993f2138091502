import json
tech={
'C01':'deterministic simulation: same input under seeded schedules, stalls and clock jumps, reports compared byte for byte',
'C02':'deterministic simulation: seeded schedules, class counts and report against an executable reference model',
'C03':'deterministic simulation: adversarial schedules and stalls, deadlock detection, bounded progress once they stop',
'C04':'deterministic simulation: job lists under seeded schedules against the union of single-job runs',
'C05':'deterministic simulation: happens-before race and heap checking as invariants of every simulated run',
'C06':'deterministic simulation: live simulated heap per allocation site over repetitions',
'C07':'deterministic simulation with injected open and read faults, short and interrupted reads',
'C08':'deterministic simulation with injected open, write and close faults, full disks, short writes',
'C09':'deterministic simulation with crashes at any step or file operation, lost and torn unsynced data, restart',
'C10':'deterministic simulation with failing allocations and thread creations',
'C11':'deterministic simulation with faults on the lint file, contents against the reference model',
'C12':'deterministic simulation: seeded schedules, path entries against an executable reference model',
'C13':'deterministic simulation: seeded schedules, answer entries against an executable reference model',
'C14':'deterministic simulation: seeded schedules, delegation entries against an executable reference model',
'C15':'deterministic simulation: seeded schedules, structural entries against an executable reference model',
'C16':'deterministic simulation: seeded schedules, cycles and over-long rewrites against an executable reference model',
'C17':'deterministic simulation: seeded schedules, step-by-step resolver over concrete queries against the report',
'C18':'deterministic simulation: seeded read deliveries and file layouts, loading against an executable reference model',
'C21':'deterministic simulation: seeded schedules, announced statistics against an executable reference model',
'C23':'deterministic simulation with damaged input: cut, lost, replaced and garbled parts of every input file, exit status, files and every memory access watched',
'C24':'deterministic simulation with crashes, failing file operations, allocations and threads and damaged input: all files compared before and after the run',
'C22':'deterministic simulation: seeded schedules, logger queue sizes and log file faults, messages and reports against undisturbed runs',
}
note={
'C01':'Seeded search; each run is exactly repeatable. The real program runs (instrumented) with every schedule, clock and allocation decided by the simulator; sequentially consistent interleavings only.',
'C02':'Seeded search over configurations and schedules; trusts the reference model in sim/host/model.cpp, which was written from the documentation and the paper-level semantics and agrees with the program on every case explored.',
'C03':'Liveness as progress: after an adversarial phase the schedule is fair and the run must end within a bound (30 times the steps of the undisturbed run plus a constant). Jobs are modelled to be of bounded size first.',
'C04':'The reference is the program itself on each job alone, under threads taking turns.',
'C05':'FastTrack-style detector over all instrumented accesses of GRoot, its templates and inlined library code; accesses inside binary libraries are covered only through their allocations. Two increments of the third-party queue are strengthened first (known finding).',
'C06':'A leak is growth of one allocation site that goes on at the same rate over 2, 6, 10, 26 and 58 repetitions; threads take turns.',
'C07':'Every fault is injected in front of real files at the system-call boundary; which operation fails is drawn per case over all operations the undisturbed run makes.',
'C08':'As C07, for the report; the room left on a full disk is drawn over all sizes of the report. The log file (stdio, within spdlog) meets faults too.',
'C09':'Crash points are drawn over all steps and file operations; power loss keeps, empties, cuts or holes unsynced data of each file; directory entries are kept.',
'C10':'The failing allocation or thread is drawn over all those the undisturbed run makes, alone or in bursts.',
'C11':'Trusts the lint rules of the reference model.',
'C12':'Trusts the reference model; configurations are drawn from families aimed at these checks.',
'C13':'Trusts the reference model; configurations are drawn from families aimed at these checks.',
'C14':'Trusts the reference model; configurations are drawn from families aimed at these checks.',
'C15':'Trusts the reference model; configurations are drawn from families aimed at this check.',
'C16':'Trusts the reference model for which classes run in a circle; a reported cycle is checked edge by edge.',
'C17':'The resolver in sim/host/concrete.cpp works on concrete names and shares only record loading with the model; names are sampled. Names that only records of types GRoot does not analyse make exist are left out. One known finding (a DNAME inside the target of another).',
'C18':'Trusts the loader of the reference model and the generator, which renders the records it drew.',
'C21':'Trusts the resolution graphs of the reference model; the mean is compared with a tolerance, largest, smallest and median exactly.',
'C23':'The damage is drawn per case over all parts of the metadata and job list and all bytes of the zone files; what a damaged zone file should mean is not judged, only that it does no harm.',
'C24':'The directory is compared as a whole after each run; files elsewhere are watched through the file operations the program makes.',
'C22':'Messages are compared without their time, thread and order; the capacity of the logger queue is part of the case.',
}
faulty={'C07','C08','C09','C10','C11','C23','C24'}
m={'version':1,'setup_cmd':'./setup.sh','checks':[],'not_applicable':[
 {'property':'C19','reason':'pure functions of one string: no concurrency, time, I/O, randomness or fault for the property to depend on, so there is nothing for a simulator to schedule or inject; names with every escape are exercised through C12-C18 instead'},
 {'property':'C20','reason':'drawings are made by debugging code that neither the program nor its jobs ever call; a pure function of a graph that meets no schedule, clock or fault'}],
 'hooks':{'guard':'GROOT_SIM_CHILD_MAP_THRESHOLD','enable':'sim/build.sh compiles /repo with -include sim/hook.h and -DGROOT_SIM_CHILD_MAP_THRESHOLD=sim_child_map_threshold(), so that each simulated run chooses from how many children on a node gets an index','source_commits':['f450ca0577d5d56383931219946c84614a5860e1']},
 'notes':'One hook in /repo, a threshold. All other seams are the instrumentation of -fsanitize=thread and the symbols of libc and libpthread, both replaced at link time. See DESIGN.md. /verif/replay.sh FILE replays a violation.'}
for i in list(range(1,19))+[21,22,23,24]:
    p='C%02d'%i
    m['checks'].append({'property':p,'quick_cmd':'./check.sh %s quick'%p,'thorough_cmd':'./check.sh %s thorough'%p,'evidence_file':'evidence/%s.json'%p,
      'technique':tech[p],'level':'fault_enumeration' if p in faulty else 'exploration','level_note':note[p]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
