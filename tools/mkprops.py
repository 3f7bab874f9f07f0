#!/usr/bin/env python3
"""Regenerates properties.jsonl (source of truth for the wording)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
           observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

prop("C01","Resource exhaustion never makes a polyhedral result unsound",
 "When a polyhedra operation is cut short because a coefficient or object-size limit set by the user is exceeded, at whatever point that happens, the operation still returns normally with a value of the right dimensions that contains every concrete point the exact result contains. The exhaustion is reported through the manager (exception recorded, exact/best flags cleared), and a query cut short answers only what is certainly true.",
 ["fault_sequences","histories","inputs"],
 "every history of polyhedra operations (strict and loose manager) x every placement, kind and tightness of coefficient-size and object-size limits, including limits that change between operations",
 "The shipped tests never set a limit, so no recovery branch in the polyhedra code (about 60 `if (pk->exn)` sites) is executed by them; each is reached only by a particular limit meeting a particular lazy state of the operands.",
 ["newpolka/pk_cherni.c","newpolka/pk_vector.c","newpolka/pk_meetjoin.c","newpolka/pk_assign.c","newpolka/pk_project.c","newpolka/pk_resize.c","newpolka/pk_expandfold.c","newpolka/pk_widening.c","newpolka/pk_test.c","newpolka/pk_extract.c","newpolka/pk_representation.c","newpolka/pk_approximate.c","newpolka/pkeq.c"],
 [("overflow detection when combining two rows","newpolka/pk_vector.c vector_combine"),("size limit in double description","newpolka/pk_cherni.c cherni_conversion"),("recovery to the other representation or to top","newpolka/pk_*.c `if (pk->exn)` blocks"),("exception log","apron/ap_manager.c ap_manager_raise_exception")],
 ["ap_abstract0_* results and queries","ap_manager_get_exception","ap_manager_get_flag_exact/best"])

prop("C02","After exhaustion, operands keep their meaning and the manager recovers",
 "An exhausted polyhedra operation leaves the meaning of every argument value unchanged, and once the limit is lifted the same manager computes from them exactly what a manager that never met a limit computes. Nothing of the failed operation (pending exception, partial matrices, scratch state) leaks into later operations.",
 ["fault_sequences","histories"],
 "every history in which bursts of limited-resource operations alternate with unlimited ones on the same manager and the same (shared) values, compared with a twin that never saw a limit",
 "Needs a fault followed by later operations on the same objects; existing tests have neither faults nor a fault-free twin.",
 ["newpolka/pk_representation.c","newpolka/pk_cherni.c","newpolka/pk_internal.c","newpolka/pk_meetjoin.c","newpolka/pk_test.c","newpolka/pk_extract.c"],
 [("pending-exception field reset at the end of each operation","newpolka pk_internal_t.exn"),("C/F/satC/satF kept mutually consistent when conversion aborts","newpolka/pk_cherni.c cherni_minimize, cherni_add_and_minimize")],
 ["ap_abstract0_to_lincons_array","ap_abstract0_is_eq","ap_manager_get_exception"],
 state=[("exn","exception pending in the polyhedra manager","newpolka/pk_internal.h"),("C,F,satC,satF,status","lazily kept double description","newpolka/pk.h")])

prop("C03","Internal-representation upkeep is invisible",
 "Calling minimize, canonicalize, hash, size, print, or any query on any value at any time, or choosing lazy or eager algorithms through the per-function options of polyhedra, never changes the set of points a value denotes. Over exact rationals, real dimensions and expressions with scalar coefficients, every later result of boxes, octagons, polyhedra and linear equalities (widenings of octagons, strict and PPL polyhedra, and octagons met with non-octagonal constraints, apart) denotes the same set as in a run without that upkeep. Polyhedra results then equal those of an independent exact polyhedra implementation.",
 ["schedules","histories","configurations"],
 "every interleaving of upkeep and query calls with every history of domain operations, for every per-function algorithm setting; exact rational octagons, boxes, polyhedra (native and PPL) and linear equalities",
 "Each value carries a hidden lazy state (closed matrix cached or not; constraints, generators and saturation matrices present, sorted or minimal), so every operation has as many paths as operand states; unit tests call operations on freshly built values.",
 ["newpolka/pk_representation.c","newpolka/pk_cherni.c","newpolka/pk_matrix.c","newpolka/pk_satmat.c","newpolka/pk_meetjoin.c","newpolka/pk_assign.c","newpolka/pk_project.c","newpolka/pk_test.c","octagons/oct_closure.c","octagons/oct_representation.c","octagons/oct_transfer.c","octagons/oct_nary.c","avoct/avo_closure.c","avoct/avo_representation.c","box/box_representation.c"],
 [("lazy closure cache","octagons/oct_representation.c oct_cache_closure, avoct"),("lazy double description and status bits","newpolka/pk_representation.c poly_chernikova*, poly_obtain_*")],
 ["ap_abstract0_is_eq","ap_abstract0_to_lincons_array","ap_abstract0_to_box"])

prop("C04","In-place and functional forms agree and arguments are never altered",
 "For every operation of boxes, octagons, polyhedra, linear equalities and PPL polyhedra that exists in a destructive and a functional form, both denote the same set over exact numbers and scalar coefficients, including when operands alias each other, share storage with copies, or appear several times in an argument array (a consumed value not being also the destination of an assignment). A functional call, and every non-consumed argument of a destructive call, keeps its meaning: later mutation of a result, a copy or an argument never shows through another handle.",
 ["histories","inputs"],
 "every history over a pool of handles in which copies, aliased operands and in-place updates interleave, compared after each step with a model where every value is immutable",
 "Aliasing (x op x, arrays with repeated handles, copies sharing lazily computed parts) is a property of histories; the tests use each value once and with the functional form mostly.",
 ["apron/ap_abstract0.c","apron/ap_abstract1.c","newpolka/pk_meetjoin.c","newpolka/pk_assign.c","newpolka/pk_resize.c","newpolka/pk_expandfold.c","newpolka/pk_project.c","octagons/oct_transfer.c","octagons/oct_nary.c","octagons/oct_resize.c","avoct/avo_transfer.c","box/box_assign.c","box/box_meetjoin.c","box/box_resize.c","ppl/ppl_poly.cc","ppl/ppl_grid.cc","apron/ap_reducedproduct.c"],
 [("destructive flag handling in each domain function","all domain libraries, first argument after the manager"),("destructive copy-back","apron/ap_abstract0.h ap_abstract0_cons2")],
 ["ap_abstract0_is_eq on saved copies","ap_abstract0_to_lincons_array"])

prop("C05","No reachable concrete state is ever lost along a history",
 "Along any history of operations on boxes, octagons, polyhedra, linear equalities and PPL polyhedra, every concrete point that the exact semantics keeps is contained in the abstract value: no constraint, bound, test answer or conversion ever excludes it. This holds for integer and real dimensions, for linear and tree expressions with interval coefficients and rounding, and for double, long double, rational, arbitrary integer and multiple-precision floating-point numbers.",
 ["histories","programs","configurations"],
 "every history of constructors, meets, joins, assignments, substitutions, forgets, dimension changes, expand/fold, widenings and closures, over boxes, octagons, polyhedra, linear equalities and PPL polyhedra in every such number type (machine-integer types overflow by documentation; absolute-value octagons, Taylor forms, floating-point polyhedra and grids are left out, see DESIGN.md)",
 "Unsoundness appears when one operation leaves a value in a state the next one misreads; tests check single operations on random values and several domains (zonotopes, floating-point polyhedra, products) hardly at all.",
 ["newpolka","octagons","box","ppl","itv","num","apron/ap_generic.c","apron/ap_linearize.c"],
 [("outward rounding","num/numflt.h, num/bound.h, itv/itv.c"),("linearisation of tree expressions","itv/itv_linearize.c"),("closure","octagons/oct_hmat.c"),("double description","newpolka/pk_cherni.c")],
 ["ap_abstract0_to_lincons_array","ap_abstract0_to_box","ap_abstract0_bound_linexpr","ap_abstract0_sat_*","ap_abstract0_is_leq"])

prop("C06","Library calls never leave the FPU in an unsound rounding mode",
 "After a floating-point domain manager has been created, the FPU rounding mode on the calling thread is upward before and after every library call, whatever the mix of boxes, octagons, polyhedra, linear equalities and PPL polyhedra, of expressions, exceptions and early exits, including affine arithmetic (Taylor1+ constructors, linear assignments and bounds) used in between. Results do not depend on which other domain ran before in the same thread.",
 ["histories","schedules"],
 "every interleaving of calls on several managers of several floating-point domains in one thread, including error paths, with the mode observed at every call boundary",
 "The rounding mode is hidden global state; a function that switches it and returns early corrupts only later calls of other domains. No test reads the mode.",
 ["apron/ap_manager.c","taylor1plus/t1p_itv_utils.h","ppl/ppl_poly.cc","ppl/ppl_grid.cc","newpolka/pk_internal.c","octagons/oct_representation.c","box/box_internal.c","avoct/avo_representation.c"],
 [("set upward when a manager is created","*_manager_alloc -> ap_fpu_init"),("save/restore around downward or nearest sections","taylor1plus/t1p_itv_utils.h itv_middev")],
 ["fegetround at API boundaries","results of later calls"],
 state=[("FPU control word","rounding direction used by all double arithmetic","CPU, per thread")])

prop("C07","Threads with distinct managers and values do not interfere",
 "If each thread uses its own managers, abstract values, expressions and environments (of boxes, octagons, polyhedra and linear equalities; the PPL library is not thread-safe itself), then under every interleaving each thread obtains exactly the results, exceptions and flags it obtains when running alone. No library-internal mutable state is shared between them.",
 ["schedules"],
 "every interleaving, at the granularity of individual memory accesses, of 2-4 threads running arbitrary histories on the domains implemented in this repository (numbers to level-1 API)",
 "The documented guarantee is about schedules; every existing test is single-threaded.",
 ["apron/ap_manager.c","apron/ap_environment.c","apron/ap_var.c","num","itv","box","octagons","newpolka"],
 [("all scratch state lives in the manager","*_internal_t structures"),("no mutable globals","all libraries")],
 ["per-thread result log vs the sequential log"])

prop("C08","Every history of operations and frees is memory-safe and leak-free",
 "For any history of operations, copies, errors and releases on boxes, octagons, polyhedra, linear equalities, PPL polyhedra, grids and their product, in any legal order - including managers freed while values live on, environments and expressions shared through reference counts, and operations that raise exceptions - no freed memory is touched, nothing is released twice, and when the last handle is released all memory is returned.",
 ["histories","fault_sequences"],
 "every legal order of creating, sharing, consuming and releasing managers, environments, expressions, constraints, generators, arrays and abstract values, with recoverable errors raised inside operations",
 "Tests build, use and free in one fixed nesting and run without a memory checker; reference-count errors on rare error or aliasing paths stay invisible.",
 ["apron/ap_manager.c","apron/ap_environment.c","apron/ap_abstract0.c","apron/ap_abstract1.c","apron/ap_linexpr0.c","apron/ap_texpr0.c","apron/ap_lincons1.c","apron/ap_tcons1.c","apron/ap_generator1.c","apron/ap_reducedproduct.c","apron/ap_disjunction.c","newpolka","octagons","box","ppl","products"],
 [("manager reference count","apron/ap_manager.c ap_manager_copy/free"),("environment reference count","apron/ap_environment.h ap_environment_copy/free"),("ownership of destructive arguments","apron/ap_abstract0.c, ap_abstract1.c")],
 ["allocator accounting at end of history","AddressSanitizer"])

prop("C09","Level-1 operations mean what variable names say",
 "A level-1 value denotes a set of valuations of named variables, and operations act by name: combining, comparing, converting, renaming, extending, restricting, unifying, expanding or folding values and expressions over different environments never confuses two variables, loses a constraint-satisfying valuation, or alters an unrelated variable. Environments stay sorted, duplicate-free and correctly partitioned into integers and reals, and incompatible uses are reported, not mangled.",
 ["histories","inputs"],
 "every history of environment and level-1 value operations over overlapping name sets of integer and real variables, in every addition order, checked against a map from names to numbers",
 "Correctness depends on the index permutation between successive environments of a history; tests use one or two fixed small environments.",
 ["apron/ap_environment.c","apron/ap_abstract1.c","apron/ap_dimension.c","apron/ap_linexpr1.c","apron/ap_lincons1.c","apron/ap_tcons1.c","apron/ap_texpr1.c","apron/ap_generator1.c","apron/ap_var.c"],
 [("sorted variable arrays and dimension-change computation","apron/ap_environment.c ap_environment_dimchange, lce, rename"),("change_environment / unify","apron/ap_abstract1.c")],
 ["ap_abstract1_* results by variable name","ap_environment_* accessors"])

prop("C10","Misuse and unsupported operations fail by the exception contract",
 "In the level-0 interface of boxes, octagons, polyhedra, linear equalities and PPL polyhedra, a value of another library or of other dimensions, an out-of-range, duplicate or ill-typed dimension, a negative size, an expression over missing dimensions, an empty array, or an unsupported operation never corrupts anything: if the exception is non-aborting, it is recorded with its kind and the function it occurred in, the exact flag is cleared, the result is a safe over-approximation of proper dimensions, arguments keep their meaning and later correct calls behave as if the failed one had not happened. If the exception is set to abort, the process aborts instead of continuing.",
 ["fault_sequences","histories"],
 "every history in which misuse of each kind is injected at random points among valid operations, for each domain and each per-exception abort setting",
 "Tests only issue valid calls; the validation layer and the `not implemented` paths are never executed.",
 ["apron/ap_manager.c","apron/ap_abstract0.c","apron/ap_abstract1.c","apron/ap_generic.c","apron/ap_reducedproduct.c","octagons","avoct","newpolka/pk_user.c","taylor1plus","ppl","fppol"],
 [("argument checks before dispatch","apron/ap_abstract0.c ap_abstract0_checkman*, check_*"),("raise/log/abort","apron/ap_manager.c ap_manager_raise_exception")],
 ["ap_manager result.exclog","ap_manager_get_exception","process status"])

prop("C11","A serialized value survives a restart and resumes identically",
 "Serializing a value (octagons and absolute-value octagons; other domains refuse to serialize), discarding every live object and manager, and deserializing in a fresh manager (even a fresh process) gives a value that denotes the same set, reports the same consumed size, and from which every further operation gives the same results (up to the rounding of recomputed caches for inexact numbers). Several values serialized into one buffer can be read back one after another using the reported sizes.",
 ["crash_points","histories"],
 "every history and every crash point in it, where only serialized bytes survive, for the domains that implement serialization (octagons and absolute-value octagons in all scalar types), in every lazy state",
 "No test serializes at all; the byte form depends on the lazy state of the value at the moment of the crash.",
 ["octagons/oct_print.c","avoct/avo_print.c","apron/ap_abstract0.c","apron/ap_reducedproduct.c","num","itv"],
 [("raw byte format with tags for present matrices","octagons/oct_print.c oct_serialize_raw, avoct/avo_print.c"),("number encodings","num/bound.h, num_*.h serialize")],
 ["ap_abstract0_serialize_raw/deserialize_raw","ap_abstract0_is_eq and later results"])

prop("C12","Output on failing or slow streams never affects values and is deterministic",
 "Printing or dumping any value of boxes, octagons, polyhedra, linear equalities and PPL polyhedra, and any expression, constraint, generator or number, writes the same bytes whatever the stream's buffering and however writes are split, and when the stream fails at any byte the value, the manager and later operations are unaffected. The bytes depend only on the object, not on earlier printing or earlier failures (raw dumps also show caches that a first dump may fill, and PPL reorders its constraints lazily).",
 ["fault_sequences","histories"],
 "every value reachable by a history x every byte position at which the output stream fails or writes short, every buffering mode",
 "Tests print to healthy stdout only.",
 ["apron/ap_abstract0.c","apron/ap_linexpr0.c","apron/ap_texpr0.c","apron/ap_generator0.c","newpolka/pk_user.c","octagons/oct_print.c","avoct/avo_print.c","box/box_print.c","ppl","taylor1plus","apron/ap_environment.c"],
 [("printing works on copies or read-only views","*_fprint in each domain")],
 ["bytes delivered to a simulated FILE*","later results"])

prop("C13","Widening sequences settle, whatever upkeep and limits interleave",
 "For any sequence of values of boxes, octagons, polyhedra, linear equalities or PPL polyhedra fed to the widening operator, with any upkeep calls in between, each widened value contains both arguments and the sequence stops changing after a number of steps bounded by the number of constraints the domain can hold. With thresholds, a threshold satisfied by both arguments is still satisfied by the result (real dimensions; for octagons, octagonal thresholds).",
 ["schedules","histories","fault_sequences"],
 "every increasing sequence of operands x every interleaving of maintenance, printing, queries and temporary limits between widening steps, for every domain that provides widening",
 "Convergence depends on the representation the previous iterate is left in; a test of one widening step cannot see a chain that never stabilises.",
 ["newpolka/pk_widening.c","octagons/oct_nary.c","avoct/avo_nary.c","box/box_widening.c","ppl/ppl_poly.cc","ppl/ppl_grid.cc","apron/ap_abstract0.c","taylor1plus/t1p_otherops.c","apron/ap_reducedproduct.c"],
 [("unstable constraints dropped; closure of the left argument avoided","octagons/oct_nary.c, newpolka/pk_widening.c")],
 ["number of strict changes along the chain","is_leq, sat_lincons on results"])

prop("C14","Tests and bounds never contradict each other or the values",
 "Along any history of boxes, octagons, polyhedra, linear equalities and PPL polyhedra, a test that answers true (inclusion, equality, emptiness, universality, satisfaction, boundedness) is confirmed by every other way of asking, and the order is consistent with the operations: arguments are included in their join and widening, a meet in its arguments, equal values answer all queries equally. Over exact numbers with real dimensions, tests are also complete: false means false.",
 ["histories","inputs"],
 "every pair of values reachable by a history in any lazy state, every query form",
 "Each test function takes shortcuts that depend on the lazy state of both operands; the tests compare few of the combinations.",
 ["newpolka/pk_test.c","newpolka/pk_extract.c","octagons/oct_predicate.c","avoct/avo_predicate.c","box/box_otherops.c","box/box_constructor.c","ppl/ppl_poly.cc","ppl/ppl_grid.cc","taylor1plus/t1p_constructor.c","apron/ap_reducedproduct.c","apron/ap_disjunction.c"],
 [("sign tests over constraints x generators","newpolka/pk_test.c"),("closed-matrix comparison","octagons/oct_predicate.c")],
 ["ap_abstract0_is_* and sat_* and bound_* answers"])

prop("C15","Exported constraints, generators and boxes rebuild the value",
 "At any point of a history of boxes, octagons, polyhedra, linear equalities and PPL polyhedra, the constraints exported from a value, fed back to the same domain, rebuild a value that denotes the same set over exact numbers (and never a smaller one otherwise); exported generators span exactly the exported constraints; the exported box is the tightest for exact domains. Exporting in any form, in any order, any number of times, does not disturb the value.",
 ["histories","schedules"],
 "every value reachable by a history, in every lazy state, exported through every form at arbitrary moments",
 "Tests export freshly built values; export code reads matrices whose sortedness, minimality and saturation depend on the history.",
 ["newpolka/pk_extract.c","octagons/oct_representation.c","octagons/oct_predicate.c","avoct/avo_predicate.c","box/box_constructor.c","ppl/ppl_user.cc","ppl/ppl_poly.cc","ppl/ppl_grid.cc","apron/ap_reducedproduct.c"],
 [("conversion between internal rows and user constraints/generators","newpolka/pk_user.c, ppl/ppl_user.cc")],
 ["ap_abstract0_to_lincons_array, to_tcons_array, to_generator_array, to_box"])

prop("C16","Java objects may be collected or fail at any time without harm",
 "Whatever order the garbage collector finalizes Java wrapper objects in, and whichever JNI call fails or throws, live Java objects keep working, no native memory is used after release or released twice, and every pending Java exception is reported exactly once. Threads attached to the JVM can use their own objects concurrently.",
 ["schedules","fault_sequences"],
 "every finalization order and timing, every failing JNI allocation or lookup",
 "The Java tests let the collector run when it likes and never make a JNI call fail.",
 ["japron/apron","japron/gmp"],
 [("reference counts behind each native pointer","japron/apron/japron.c"),("exception translation","japron/apron/japron.h")],
 ["fake JNI environment"])

prop("C17","The C++ binding means what the C API means, through every copy, throw and destruction",
 "Each operation of the C++ classes (values, expressions, constraints, generators, boxes, environments, managers, over dimensions and over named variables), in its functional, in-place and operator forms and with aliased arguments, has the result of the corresponding C operation, leaves its constant arguments alone and keeps the destination usable. Comparison operators order values by set inclusion (strict for < and >). An error is thrown exactly when the C call records one, with its kind and with the partial result it carries; after a throw every object involved can still be used and destroyed, and nothing is leaked or released twice.",
 ["histories","fault_sequences"],
 "every history mixing C and C++ calls on shared values, every aliasing of arguments, every failing call (invalid arguments, unsupported functions, exhausted limits) at every point",
 "The C++ test runs one fixed sequence of successful calls on fresh objects; ownership mistakes show up only with aliasing, temporaries and exceptions.",
 ["apronxx"],
 [("one C object owned by each C++ object","apronxx/apxx_abstract0_inline.hh, apxx_linexpr0_inline.hh, apxx_texpr0_inline.hh, apxx_abstract1_inline.hh, apxx_environment_inline.hh"),("translation of recorded exceptions into throws","apronxx/apxx_manager_inline.hh, apronxx/apronxx.cc")],
 ["apron::abstract0, linexpr0, texpr0, lincons0, tcons0, generator0, manager","apron::environment, abstract1, linexpr1, texpr1, lincons1, tcons1, generator1"])

prop("C18","What the exact and best flags claim about a result is true",
 "Over real dimensions, along any history of boxes, octagons, polyhedra, linear equalities and PPL polyhedra: a result the manager flags exact denotes exactly the set that the operation means on its operands (for joins and folds, the union); a result flagged best is the smallest element of the domain containing that set, up to rounding when the numbers are inexact; a test that answers false and is flagged exact is truly false, and a bound flagged exact or best is the tightest one. This holds whatever the lazy state of the operands, in functional and in-place form, with a destination argument, for array and tree-expression forms, and under every setting of the algorithm and wanted-flag options. Widenings make no such claim.",
 ["histories","inputs"],
 "every operation on every pair of values reachable by a history, in any lazy state and option setting",
 "The flags are set by hand on each path of each operation and no test reads them; a wrong claim needs the one path, lazy state or rounding for which it is false, and an analyser that trusts it reports a false alarm as a proof.",
 ["newpolka/pk_meetjoin.c","newpolka/pk_assign.c","newpolka/pk_expandfold.c","newpolka/pk_extract.c","newpolka/pkeq.c","octagons/oct_transfer.c","octagons/oct_nary.c","octagons/oct_predicate.c","octagons/oct_resize.c","box/box_assign.c","box/box_meetjoin.c","box/box_resize.c","box/box_constructor.c","ppl/ppl_poly.cc"],
 [("flag_exact and flag_best of the manager's result","apron/ap_manager.h"),("per-operation flag setting","octagons/oct_internal.h flag_incomplete/flag_algo/flag_conv, newpolka/*.c man->result, box/*.c man->result")],
 ["ap_manager_get_flag_exact, ap_manager_get_flag_best after any ap_abstract0 operation"])

# pure functions of their input: no schedule, fault or history
prop("N01","Linear form operations on expressions are exact",
 "Building, copying, comparing, substituting and printing linear and tree expressions agrees with evaluating them at every point.",
 ["inputs"],"every expression and every valuation",
 "Tests use few expressions.",["apron/ap_linexpr0.c","apron/ap_texpr0.c"],[("coefficient arrays","apron/ap_linexpr0.c")],["ap_linexpr0_*","ap_texpr0_*"])
prop("N02","Number conversions round in the requested direction",
 "Every conversion between integers, rationals, doubles and multiple-precision floats rounds outward or reports inexactness as documented.",
 ["inputs"],"every number and every pair of representations","The num tests print and check nothing.",
 ["num","itv"],[("num_*_conv","num/num_conv.h")],["num_set_* results"])
prop("N03","Scalar and coefficient comparison is a consistent order",
 "Comparison, equality and hashing of scalars, intervals and coefficients are mutually consistent for every mix of representations.",
 ["inputs"],"every pair of scalars","Tests sample few mixes.",["apron/ap_scalar.c","apron/ap_interval.c","apron/ap_coeff.c"],[("ap_scalar_cmp","apron/ap_scalar.c")],["ap_scalar_cmp/equal/hash"])
prop("N04","Policy iteration results are sound post-conditions",
 "Applying a policy found by policy iteration gives an over-approximation of the constraint meet.",
 ["inputs"],"every policy and value","No test uses policies.",["apron/ap_policy.c","box/box_policy.c"],[("policy application","box/box_policy.c")],["ap_policy_*"])
prop("N05","OCaml and PPLite bindings mirror the C API",
 "Each OCaml or PPLite operation gives the result of the corresponding C operation.",
 ["programs"],"every program","Not built in this environment.",["mlapronidl","pplite"],[("generated stubs","mlapronidl")],["OCaml API"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
