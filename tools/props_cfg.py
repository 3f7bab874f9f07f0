"""Per-property configuration of the simulated runs (read by check.py and tools/mkmanifest.py)."""
REALCODE=["apron/*.c (level 0 API, managers, generic fallbacks)","itv/*.c","num/*.h","box, octagons, newpolka and ppl domain libraries compiled from /repo (each number type under its own symbol suffix, all in one process)","GMP, MPFR, PPL 1.2 as installed"]
STUBS=["client programs: replaced by the seeded scenario interpreter","clock: replaced by a counter of executed instrumentation edges","heap: AddressSanitizer allocator"]
XL=["polkaMPQ","ppl","octMPQ","boxMPQ"]
SL=["boxD","boxMPQ","boxMPFR","octD","octMPQ","octMPFR","octDl","octMPZ","polkaMPQ","ppl"]
GMPTRUST="GMP, MPFR and the PPL NNC polyhedra used as reference are correct"
CFG={}
CFG["C01"]=dict(profiles=[dict(profile="C01",libs=XL,tag="x",quick_n=9600,thorough_n=200000)],key="limit.hit",
 rule="seeded histories (4-30 operations, 2-5 handles, 1-4 dims) of strict/loose polyhedra and linear equalities in which coefficient-size and object-size limits are placed, moved and lifted at random; distinct = distinct hash of the full event log (operations, operands, results' points, exceptions); non-trivial = at least one operation was actually cut short by a limit",
 assume=[GMPTRUST,"limits are placed on single operations or bursts; values of at most 5 dimensions","a sampled search: absence of violations is evidence, not proof"],must=["fault.overflow","fault.out_of_space","fault.query"],
 technique="deterministic simulation: resource-limit faults injected by seed, judged against an unlimited twin manager and PPL",
 note="Every limited operation is compared with the same operation on copies of the same operands in an unlimited manager (containment through PPL), sample points are checked, reported exceptions/flags and limited queries are judged. Trusts PPL and GMP; sampled, dimension <= 5.")
CFG["C02"]=dict(profiles=[dict(profile="C02",libs=XL,tag="x",quick_n=9600,thorough_n=200000)],key="limit.hit",
 rule=CFG["C01"]["rule"],assume=CFG["C01"]["assume"],must=["fault.overflow","fault.out_of_space"],
 technique="deterministic simulation: resource-limit faults, then recovery compared with a fault-free twin",
 note="After every limited operation the operands are re-read (constraints and generators) and the operation repeated without limit in the same manager; both must equal what a manager that never saw a limit computes. Sampled, dimension <= 5; trusts PPL and GMP.")
CFG["C03"]=dict(profiles=[dict(profile="C03",libs=XL,tag="x",quick_n=9600,thorough_n=200000)],key="maint",
 rule="seeded histories executed in two universes: one undisturbed, one with a random schedule of upkeep and query calls and random per-function algorithm options; distinct = distinct event-log hash; non-trivial = at least one upkeep call was interleaved",
 assume=[GMPTRUST,"real dimensions, exact rationals; octagons with scalar coefficients only","widening results of octagons and PPL are excluded from equality (they legitimately depend on the representation)"],must=["maint"],
 technique="deterministic simulation: seeded schedules of upkeep calls against an undisturbed twin and a PPL reference model",
 note="Results are compared set-wise after every operation between the disturbed and the undisturbed universe and, for polyhedra, with an independent PPL NNC model. Sampled; trusts PPL and GMP.")
CFG["C04"]=dict(profiles=[dict(profile="C04",libs=XL,tag="x",quick_n=9600,thorough_n=200000)],key="inplace",
 rule="seeded histories executed in two universes, functional versus in-place with copies, aliased operands and repeated handles; distinct = distinct event-log hash; non-trivial = at least one in-place call",
 assume=CFG["C03"]["assume"]+["a consumed value is not also passed as the destination of an assignment"],must=["inplace","inplace.aliased","shadow"],fault_re=r"inplace|shadow|maint",
 technique="deterministic simulation: twin universes (functional / in-place) with an immutable-value model of every handle",
 note="After every step all live handles are re-exported and compared with their recorded meaning, and the in-place universe with the functional one. Sampled; trusts PPL for set comparison.")
CFG["C05"]=dict(profiles=[dict(profile="C05",libs=SL,tag="s",quick_n=20000,thorough_n=400000)],key="probe",
 rule="seeded histories of constructors and transformers on one of 14 domain/number combinations with witness points carried exactly; distinct = distinct event-log hash; non-trivial = at least one result was probed for lost witness points",
 assume=["GMP and MPFR are correct","witness points (at most 8 per value) sample the concretisation","the FPU is left in the mode the library sets"],must=["probe","op.assignt","op.meettc"],
 technique="deterministic simulation: seeded histories with concrete executions carried along as witnesses and probed at every step",
 note="Exact concrete points are pushed through every operation and must be contained in the abstract result by 14 different routes (export, bounds, tests, meets, inclusion). Sampled points: can miss losses elsewhere.")
HIST="seeded histories of constructors, transformers and upkeep calls on one of the domain/number combinations; distinct = distinct hash of the full event log"
BASEA=[GMPTRUST,"values of at most 5 dimensions, histories of at most about 40 operations","a sampled search: absence of violations is evidence, not proof"]
CFG["C10"]=dict(profiles=[dict(profile="C10",libs=["boxD","boxMPQ","octD","octMPQ","polkaMPQ","ppl"],tag="m",quick_n=9600,thorough_n=240000)],key="misuse",
 rule=HIST+"; a twin universe executes the same history without the misuse; non-trivial = at least one invalid call was injected",
 assume=BASEA+["misuse kinds: values of another library, of other dimensions, out-of-range, duplicate or unsorted dimensions, ill-typed dimension changes, expressions over missing dimensions, empty arrays, unsupported functions"],must=["fault.misuse","fault.abort","shadow"],
 technique="deterministic simulation: seeded injection of invalid calls into valid histories, against a twin that never makes them",
 note="Every injected call must be reported with its kind and function, give a safe result of proper dimensions with cleared flags, leave every live value (shadow model) and all later results (twin) unchanged; with the aborting setting a forked child must abort. Sampled; trusts PPL for set comparison.")
CFG["C11"]=dict(profiles=[dict(profile="C11",libs=["octD","octMPQ","octMPFR","octDl","octMPZ","avoD","avoMPQ","avoMPFR"],tag="o",quick_n=12000,thorough_n=300000)],key="restart",
 rule=HIST+"; crash points are drawn at random: all values are serialized, everything else is discarded and the history resumes from the bytes, in the same process or a freshly executed one; non-trivial = at least one restart",
 assume=BASEA+["only octagons and absolute-value octagons implement serialization","absolute-value octagons are only copied, met and joined (their other operations are excluded, see DESIGN.md)"],must=["serialize","restart","restart.process"],fault_re=r"restart|serialize|fault",
 technique="deterministic simulation: crash and restart at seeded points with only serialized bytes surviving, against a twin that never restarts",
 note="Bytes, reported sizes, concatenated buffers, restored values and every later result are compared with the undisturbed twin. Sampled; trusts GMP/MPFR.")
CFG["C12"]=dict(profiles=[dict(profile="C12",libs=SL,tag="s",quick_n=9600,thorough_n=300000)],key="fault.stream",
 rule=HIST+"; each printing call is repeated on streams with seeded buffering, short writes and failures at a seeded byte; non-trivial = at least one stream failed while printing",
 assume=BASEA+["streams are glibc custom FILE* streams under the simulator's control","the bytes of a raw dump legitimately depend on caches: two dumps in a row must agree"],must=["fault.stream","fault.split"],
 technique="deterministic simulation: simulated FILE* streams with seeded buffering, split writes and failures at any byte",
 note="Bytes must be equal for every buffering and split; a failing stream receives a prefix; values, manager state and later operations are compared with the value before. Sampled.")
CFG["C13"]=dict(profiles=[dict(profile="C13",libs=SL,tag="s",quick_n=6400,thorough_n=160000)],key="chain.change",
 rule="seeded growing chains of values fed to the widening operator (plain and with thresholds) with upkeep, queries, printing and temporary limits between steps; distinct = distinct event-log hash; non-trivial = at least one widening step changed the iterate",
 assume=BASEA+["the step budget is a bound on the number of strict changes derived from the number of constraints a domain can hold","thresholds are checked over real dimensions; for octagons only octagonal thresholds"],must=["chain.step","chain.kept","chain.thr","fault.limit"],fault_re=r"fault|limit|maint|chain",
 technique="deterministic simulation: seeded chains of widening steps interleaved with upkeep and limits; bounded-progress and containment invariants",
 note="Every step must contain both arguments (inclusion tests, witness points, PPL model for exact domains), keep thresholds satisfied by both, and the number of strict changes is bounded. Sampled.")
CFG["C14"]=dict(profiles=[dict(profile="C14",libs=SL,tag="s",quick_n=9600,thorough_n=300000)],key="query",
 rule=HIST+"; queries of every form on random pairs of live values in whatever lazy state the history left; non-trivial = at least one query burst",
 assume=BASEA+["completeness of tests is required only for exact numbers and real dimensions"],must=["query","maint"],fault_re=r"maint|inplace|query",
 technique="deterministic simulation: seeded histories with query bursts cross-checked with each other, with witness points and with a PPL reference model",
 note="Each answer is confirmed by other ways of asking (exports, meets, joins, bounds), by exact witness points and, for exact domains, by PPL (both directions). Sampled.")
CFG["C18"]=dict(profiles=[dict(profile="C18",libs=SL,tag="s",quick_n=9600,thorough_n=300000)],key="flags.judged",
 rule=HIST+"; after every operation over real dimensions, and after queries inserted between them, the exact and best flags of the manager are read and the claim they make is judged on the exported operands and result; non-trivial = at least one result carried a claim that was judged",
 assume=BASEA+["widenings are not judged (their result is not defined by a set operation)","over inexact numbers 'best' is judged up to a relative error of 1e-9; 'exact' strictly"],must=["flags.exact","flags.best","flags.none","flagquery","maint","inplace","wanted.set","tex.linear"],fault_re=r"maint|inplace|wanted|algorithm",
 technique="deterministic simulation: seeded histories whose result flags are judged against exact set operations in a PPL reference model",
 note="The claim is judged from the exported operands: PPL computes the exact result (unions for joins and folds), exact must equal it, best must be the smallest element of the domain around it; false answers and infinite bounds flagged exact are confirmed by PPL. Absence of a flag is never a violation. Sampled.")
CFG["C15"]=dict(profiles=[dict(profile="C15",libs=SL,tag="s",quick_n=9600,thorough_n=300000)],key="rebuild",
 rule=HIST+"; exports in every form and order at random moments; non-trivial = at least one value was rebuilt from an export",
 assume=BASEA,must=["rebuild","generators"],fault_re=r"maint|inplace|export",
 technique="deterministic simulation: seeded histories with exports rebuilt and compared with the value and a PPL reference model",
 note="Exported constraints (linear and tree), generators and boxes are fed back to the domain and to PPL and compared with the value; the value is compared with itself before the export. Sampled.")
CFG["C09"]=dict(profiles=[dict(profile="C09",libs=["boxD","boxMPQ","octD","octMPQ","polkaMPQ","ppl"],tag="m",quick_n=12000,thorough_n=300000)],key="env",
 rule="seeded histories of environment and level-1 value operations over overlapping sets of integer and real names; every value is mirrored by a set of named valuations (witness points and, for exact domains, a PPL polyhedron over all names); distinct = distinct event-log hash; non-trivial = at least one environment operation on the way",
 assume=[GMPTRUST,"names drawn from a pool of 8, values over at most 5 of them","a sampled search: absence of violations is evidence, not proof"],must=["env","op.unify","op.chenv","op.rename1","misuse","inplace"],fault_re=r"fault|misuse|maint|inplace",
 technique="deterministic simulation: seeded histories of level-1 calls and rejected calls against a reference model indexed by variable names",
 note="Every environment is compared with a set model, every result with witness valuations and (exact domains) a PPL polyhedron indexed by name; invalid calls are injected and must leave the live values alone. Sampled; trusts PPL and GMP.")
CFG["C08"]=dict(profiles=[dict(profile="C08",libs=["boxD","boxMPQ","octD","octMPQ","octMPFR","octMPZ","avoMPQ","polkaMPQ","ppl","pkgrid"],tag="w",quick_n=1600,quick_s=160,thorough_n=60000),dict(profile="C08",variant="fpu",libs=["boxD","boxMPQ","octD","octMPQ","octMPFR","octDl","polkaMPQ","ppl","t1pD","avoD","fppD"],tag="f",skip=5000000,quick_n=24000,quick_s=150,thorough_n=600000)],key="memory.accounted",
 rule="histories of all the other profiles (valid calls, invalid calls, resource limits, restarts, level-1 sharing of environments), each run three times in one process under an allocator that records every block; managers are released first, last or in the middle; distinct = distinct event-log hash; non-trivial = the memory of all three rounds was accounted for",
 assume=["AddressSanitizer's allocator detects accesses outside live blocks of instrumented code; accesses inside GMP, MPFR and PPL are seen only through intercepted functions","a leak is a growth of the allocated bytes in every repetition of the same history (one-time caches are not leaks)","absolute-value octagons take part only through copies, meets, joins and serialization; Taylor1+ and fppol are excluded (see DESIGN.md)"],must=["memory.accounted","fault.manager_first","misuse","sub.C09","sub.C11"],fault_re=r"fault|misuse|limit|maint|inplace|restart|renew",
 technique="deterministic simulation: seeded histories with errors, limits, restarts and seeded release orders, on an instrumented heap with exact accounting",
 note="Any access outside live memory, any double release and any byte still allocated after the last handle of a repeated history is a violation. Sampled; leaks inside one-time caches are not seen.")
CFG["C06"]=dict(profiles=[dict(profile="C06",variant="fpu",libs=["boxD","boxMPQ","octD","octMPQ","octMPFR","octDl","polkaMPQ","ppl","t1pD","avoD","fppD"],tag="f",quick_n=6400,thorough_n=200000)],key="fpu.compared",
 rule="histories of the other profiles executed twice: alone and with seeded activity of other domains between the operations (manager creation and release, whole other histories with errors and limits, affine arithmetic, number conversions), starting from a seeded rounding mode; distinct = distinct event-log hash; non-trivial = both executions were compared",
 assume=["x86-64: the x87 control word and MXCSR are the rounding state","API functions of the core library are hooked by the compiler at entry and exit; domain functions called directly are observed through them","Taylor1+ takes part with constructors, linear assignments, boxes and bounds only; fppol and absolute-value octagons with manager creation only"],must=["fault.alien","alien.affine","alien.managers","alien.C10","boundaries"],fault_re=r"fault|alien|misuse|limit",
 technique="deterministic simulation: seeded interleaving of several domains in one thread; rounding-mode invariant at every API boundary and equality with the run alone",
 note="Both rounding control words are read whenever an outermost library call returns; printed values, exceptions and sample points of the history must be identical with and without the other domains. Sampled.")
CFG["C07"]=dict(profiles=[dict(profile="C07",variant="sched",libs=["boxD","boxMPQ","boxMPFR","octD","octMPQ","octMPFR","octDl","octMPZ","polkaMPQ"],tag="t",quick_n=9600,thorough_n=500000)],key="sched.switches",
 rule="two or three clients, each a history of another profile (valid calls, invalid calls, limits, level 1, printing) with its own managers and values, executed by real threads of which only the one holding the baton runs; a seeded scheduler may hand the baton over at every memory access of library code (mean quantum 2 to 20000 accesses); distinct = distinct hash of the schedule and of all clients' event logs; non-trivial = at least one preemption",
 assume=["GMP and MPFR calls are atomic steps of the schedule (they are documented as thread-safe)","PPL 1.2 is not thread-safe, so PPL-based domains are not run in several threads","sequentially consistent memory: one access at a time; a data race is found as two threads touching the same address, whatever the hardware would do"],must=["sched.switches","sched.same_domain","sched.compared"],fault_re=r"fault|sched\.|misuse|limit",
 real=["apron/*.c, itv/*.c, num/*.h, box, octagons and newpolka compiled from /repo with access hooks","pthreads (each client is a real thread with its own TLS, stack and FPU state)","GMP, MPFR as installed"],stubs=["thread scheduling: seeded baton passing at memory accesses","heap: per-thread arenas with an owner recorded per address","client programs: replaced by the seeded scenario interpreter"],
 technique="deterministic simulation: seeded cooperative scheduling of real threads at memory-access granularity, with an address-ownership invariant and equality with each client run alone",
 note="Any address of the heap or of static data touched by two clients, one of them writing, is a violation, as is any difference of a client's printed values, exceptions or event log from its run alone. Sampled; PPL domains excluded.")
CFG["C17"]=dict(profiles=[dict(profile="C17",variant="cxx",libs=["boxD","boxMPQ","octD","octMPQ","polkaMPQ","ppl"],tag="y",quick_n=4000,quick_s=240,thorough_n=120000)],key="cxx.call",
 rule="seeded histories executed in two universes: through the C functions, and through the C++ classes (functional, in-place and operator forms, aliased arguments, temporaries, failing calls and resource limits), each history three times under exact heap accounting; distinct = distinct event-log hash; non-trivial = at least one C++ call",
 assume=BASEA+["tree-expression builders are used within one full expression only (their nodes borrow from temporaries)","the C++ level-1 classes and the products are not driven"],must=["cxx.call","cxx.alias","cxx.query","cxx.thrown","inplace","memory.accounted"],fault_re=r"cxx.thrown|cxx.EXC|limit|fault|inplace|shadow",
 technique="deterministic simulation: twin universes (C API / C++ classes) under seeded aliasing, failing calls and limits, on an instrumented heap",
 note="After every C++ call the result is compared set-wise with the C universe, constant arguments with recorded copies, thrown exceptions with the ones recorded by the C manager; every round must return the heap to the same size. Sampled; trusts the C API (judged by the other checks).")
