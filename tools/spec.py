#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None))
    assert len(title) <= 80, title
    P.append((d, technique, note, na))

SOUND = ("For every history of operations (construction, constraints, assignments and substitutions, lattice operations, widening, projection, changes of dimensions, "
  "conversions), a concrete point that the exact semantics keeps is never lost: {x} never excludes it from constraints, generators, bounds or boxes it returns, never calls the value empty, and never answers a yes/no query in a way that point contradicts.")
SQ = "all sequences of operations with all valid arguments (linear, interval-linear and non-linear expressions, five constraint types, integer and real dimensions, numbers in the three scalar types), over all representations a value may have internally"
SW = "Unit tests run a handful of fixed sequences and mostly print; an unsound corner needs a particular combination of internal state (lazy, closed, minimised, empty), argument shape and number."
ST = "stateful property-based testing: random operation histories, with exact rational witness points and a reference polyhedron pushed through the concrete semantics as oracle; shrinking to a minimal history"
SN = "Random exploration of histories up to 12 operations, dimension at most 5; held on everything explored."
def snd(id, title, x, files, mech, extra="", why=SW):
    prop(id, title, SOUND.format(x=x) + extra, ["histories", "inputs"], SQ, why, files, mech, ST, SN,
         ["to_lincons_array", "to_generator_array", "to_box", "bound_*", "sat_*", "is_bottom", "is_top", "is_leq", "is_eq"])

snd("C01", "Interval domain never loses a reachable state", "the interval domain (all number types)",
    ["box/box_assign.c", "box/box_meetjoin.c", "box/box_representation.c", "box/box_resize.c", "box/box_otherops.c", "box/box_constructor.c", "itv/itv_linearize.c", "itv/itv_linexpr.c", "num/numflt_native.h", "num/bound_def.h", "apron/ap_abstract0.c"],
    [("constraint propagation on boxes", "itv/itv_linearize.c:itv_boxize_lincons_array"), ("interval evaluation of expressions with outward rounding", "itv/itv_linearize.c, itv/itv_linexpr.c"), ("dispatch, argument checks", "apron/ap_abstract0.c")])
snd("C02", "Octagon domain never loses a reachable state", "the octagon domain (rational and floating-point bounds)",
    ["octagons/oct_closure.c", "octagons/oct_transfer.c", "octagons/oct_hmat.c", "octagons/oct_nary.c", "octagons/oct_resize.c", "octagons/oct_predicate.c", "octagons/oct_predicate.c", "octagons/oct_representation.c", "apron/ap_abstract0.c"],
    [("strong closure, incremental closure and integer tightening", "octagons/oct_closure.c"), ("exact and interval-based transfer functions", "octagons/oct_transfer.c"), ("half-matrix representation", "octagons/oct_hmat.c")])
snd("C03", "Polyhedra domain never loses a reachable state", "the double-description polyhedra domain (loose and strict, multi-precision and native integers)",
    ["newpolka/pk_cherni.c", "newpolka/pk_meetjoin.c", "newpolka/pk_assign.c", "newpolka/pk_project.c", "newpolka/pk_resize.c", "newpolka/pk_expandfold.c", "newpolka/pk_widening.c", "newpolka/pk_user.c", "newpolka/pk_test.c", "newpolka/pk_extract.c", "newpolka/pk_approximate.c", "newpolka/pk_closure.c", "newpolka/pk_constructor.c"],
    [("conversion between constraints and generators", "newpolka/pk_cherni.c"), ("lazy minimisation, satellite matrices", "newpolka/pk_representation.c"), ("transfer functions on either representation", "newpolka/pk_assign.c")])
snd("C04", "Linear equality domain never loses a reachable state", "the domain of conjunctions of linear equalities",
    ["newpolka/pkeq.c", "newpolka/pk_bit.c", "newpolka/pk_matrix.c", "newpolka/pk_user.c"],
    [("equalities as polyhedra whose inequalities are dropped", "newpolka/pkeq.c")])

snd("C05", "PPL polyhedra and grids never lose a reachable state", "the wrapper of the Parma Polyhedra Library (loose and strict polyhedra, grids of congruences)",
    ["ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "ppl/ppl_user.cc", "apron/ap_generic.c", "apron/ap_linearize.c"],
    [("translation of expressions, constraints, congruences and generators to and from PPL", "ppl/ppl_user.cc"), ("transfer functions expressed with PPL's operations", "ppl/ppl_poly.cc, ppl/ppl_grid.cc"), ("fall-back algorithms built from other operations", "apron/ap_generic.c")])
snd("C06", "Reduced product of polyhedra and grids never loses a reachable state", "the reduced product of polyhedra and grids",
    ["products/ap_pkgrid.c", "apron/ap_reducedproduct.c", "apron/ap_reducedproduct.h"],
    [("component-wise operations and merging of their answers", "apron/ap_reducedproduct.c"), ("exchange of equalities and congruences between the components", "products/ap_pkgrid.c")])

prop("C07", "Affine forms never lose a value on assignments and changes of dimensions", "In the affine-form domain (taylor1plus, in rationals, doubles and multi-precision floats), on real variables: for every sequence of constructions from boxes, "
    "assignments of linear and tree expressions (single and simultaneous, in place or not), projections (with and without setting to zero), additions, removals and permutations of dimensions, and copies, a concrete point that the exact semantics keeps is never excluded by the constraints, boxes "
    "and variable bounds the value returns, and the value is never called empty.", ["histories", "inputs"], "all sequences of the listed operations on real dimensions (at least one), expressions in exact arithmetic without modulo and power; excluded, because this beta domain aborts on them or does not claim them: joins, meets, substitutions, expand, fold, constraints, serialisation",
    "Linear correlations between variables are carried by shared noise symbols: a wrong sharing shows only after particular sequences, and the tests of this domain are not run.", ["taylor1plus/t1p_fun.c", "taylor1plus/t1p_assign.c", "taylor1plus/t1p_resize.c", "taylor1plus/t1p_otherops.c", "taylor1plus/t1p_constructor.c", "taylor1plus/t1p_representation.c", "taylor1plus/t1p_internal.h"],
    [("affine arithmetic on noise symbols", "taylor1plus/t1p_fun.c"), ("reduction by intervals kept beside the forms", "taylor1plus/t1p_constructor.c")], ST, SN, ["to_lincons_array", "to_box", "bound_dimension", "is_bottom"])

EXS = ("{what} On real variables and linear scalar arguments, every constructor, lattice operation, assignment, substitution, projection, dimension change, expansion and folding returns {res} of the exact concrete result, "
  "and bounds, boxes, inclusion, equality, emptiness, satisfaction and unconstrainedness queries{q} are answered exactly; whenever flag_exact or flag_best is set the result really is exact or the best one.")
EXT = "stateful property-based testing against an exact reference polyhedron computed independently (PPL's C++ library), abstracted into the domain; equality of results and of query answers; shrinking"
def ext(id, title, what, res, q, files, mech, why):
    prop(id, title, EXS.format(what=what, res=res, q=q), ["histories", "inputs"], "all sequences of operations on real dimensions with scalar linear arguments in the stated shape, over all internal representations", why, files, mech, EXT,
         "Random exploration of histories up to 10 operations, dimension at most 5, mostly small numbers.", ["to_lincons_array", "flag_exact", "flag_best", "bound_*", "sat_*", "is_*"])
ext("C11", "Interval domain computes best abstractions", "The interval domain loses nothing it can represent.", "the smallest box around", " (any linear expression)",
    ["box/box_assign.c", "box/box_meetjoin.c", "box/box_representation.c", "box/box_resize.c", "box/box_otherops.c", "box/box_constructor.c", "itv/itv_linearize.c", "apron/ap_abstract0.c", "apron/ap_generic.c"],
    [("interval operations and constraint propagation", "box/box_meetjoin.c, itv/itv_linearize.c"), ("flags", "man->result.flag_exact, flag_best")], "An imprecise but sound result passes nearly every existing test, which check inclusions.")
ext("C12", "Octagon domain computes best abstractions", "The octagon domain loses nothing it can represent.", "the smallest octagon around", " (octagonal expressions)",
    ["octagons/oct_closure.c", "octagons/oct_transfer.c", "octagons/oct_hmat.c", "octagons/oct_nary.c", "octagons/oct_resize.c", "octagons/oct_predicate.c", "octagons/oct_representation.c"],
    [("strong closure gives the tightest representation", "octagons/oct_closure.c"), ("exact transfer functions on octagonal expressions", "octagons/oct_transfer.c"), ("precision flags", "octagons/oct_internal.h:flag_incomplete, flag_algo, flag_conv")], "A closure that misses one path is only visible on inputs where that path is the shortest.")
ext("C13", "Polyhedra domains are exact", "Both polyhedra domains (double description and PPL, loose and strict) are exact.", "exactly the polyhedron (convex hull for joins and folding)", "",
    ["newpolka/pk_cherni.c", "newpolka/pk_meetjoin.c", "newpolka/pk_assign.c", "newpolka/pk_project.c", "newpolka/pk_resize.c", "newpolka/pk_expandfold.c", "newpolka/pk_user.c", "newpolka/pk_test.c", "newpolka/pk_extract.c", "newpolka/pk_closure.c", "newpolka/pk_constructor.c", "ppl/ppl_poly.cc", "ppl/ppl_user.cc"],
    [("Chernikova conversion in both directions", "newpolka/pk_cherni.c"), ("matrix operations on constraints and generators", "newpolka/pk_matrix.c, pk_vector.c"), ("lazy and eager evaluation", "newpolka/pk_representation.c")], "The conversion between representations has exponentially many combinatorial situations (degenerate, unbounded, strict); tests sample a few.")
ext("C14", "Linear equality domain computes affine hulls", "The domain of linear equalities is as precise as possible.", "the affine hull", "",
    ["newpolka/pkeq.c", "newpolka/pk_matrix.c", "newpolka/pk_meetjoin.c"], [("inequalities dropped after each operation", "newpolka/pkeq.c:equality_reduce")], "Only used by one existing test program, without oracle.")
prop("C21", "Environments behave as sorted sets of typed names",
  "Every operation on environments agrees with finite sets of integer and real names: results list the names of each type in the order of the variable operations, dimensions and names are inverse of one another, least common environments, comparisons, "
  "renamings, dimension changes (in both directions, pairwise and for arrays) and permutations are the ones of the sets; invalid requests (duplicate, unknown or ill-typed names) are refused; arguments are left untouched and reference counts are exact.",
  ["histories", "inputs"], "all sequences of environment operations, all sets of names, all orders on names", "The existing tests build a few environments over a few single-letter names.",
  ["apron/ap_environment.c", "apron/ap_environment.h", "apron/ap_dimension.c", "apron/ap_var.c"],
  [("merging sorted name tables", "apron/ap_environment.c:env_lce, env_lce_array"), ("dimension changes between environments", "apron/ap_environment.c:env_lce_dimchange, ap_environment_dimchange2"), ("permutations after sorting", "apron/ap_environment.c:ap_environment_add_perm, ap_environment_rename")],
  "model-based stateful property-based testing: histories of operations compared step by step with a reference model made of sorted name lists and reference counts", "Random exploration: histories of at most 14 operations, environments of at most about 12 names from a pool of 16.",
  ["ap_environment_*", "ap_dimchange_*", "ap_dimperm_*"])

LT = "interval, octagon, double-description polyhedra (loose, strict; both integer types), linear equality and PPL polyhedra domains"
LAW = "Random exploration of values with histories up to 9 operations, dimension at most 5. Floating-point octagons are compared up to rounding; grids and their reduced product are left out (the comparisons of PPL 1.2 on grids are not reliable)."
DOMF = ["box/box_constructor.c", "box/box_meetjoin.c", "octagons/oct_predicate.c", "octagons/oct_nary.c", "octagons/oct_closure.c", "newpolka/pk_test.c", "newpolka/pk_meetjoin.c", "newpolka/pkeq.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "apron/ap_abstract0.c"]
prop("C15", "Abstract values form a lattice with consistent comparisons",
  "For all values of one domain, whatever their history and internal representation: inclusion is reflexive and transitive, equality is inclusion both ways, bottom and top are the extremes, meet is below and join above both arguments and both are commutative, idempotent, absorbing "
  "and (exact numbers) associative, least upper and greatest lower bounds up to the domain's own results, array versions agree with repeated binary ones, emptiness and fullness tests agree with comparisons to bottom and top, and equal values have equal hashes. Domains: " + LT + ".",
  ["inputs", "histories"], "all triples of values of each domain with all internal representations", "The laws quantify over all values; comparisons depend on the lazy internal state which tests leave in a few shapes.", DOMF,
  [("inclusion and equality tests on unnormalised representations", "newpolka/pk_test.c, octagons/oct_predicate.c, box/box_constructor.c"), ("cached and lazily computed forms", "newpolka/pk_representation.c, octagons/oct_representation.c")],
  "property-based testing of algebraic laws over generated values with random histories", LAW, ["is_leq", "is_eq", "is_bottom", "is_top", "hash", "meet", "join"])
prop("C16", "Widenings stop every increasing sequence and keep thresholds",
  "For every sequence x(k+1) = widening(x(k), join(x(k), y(k))), with or without thresholds, each widening contains both arguments, and the sequence stops growing after a number of steps that does not depend on the y(k) (bounded here by 150 growths). "
  "With thresholds, a large constraint of a shape the domain can express that both arguments satisfy is satisfied by the result. Domains: " + LT + ", PPL grids.",
  ["histories"], "all sequences of increments, including geometric, slow, accelerating and alternating growth", "Termination is a property of infinite sequences; the tests apply widening once.", ["box/box_otherops.c", "octagons/oct_nary.c", "newpolka/pk_widening.c", "newpolka/pkeq.c", "ppl/ppl_poly.cc", "ppl/ppl_grid.cc", "apron/ap_generic.c"],
  [("constraint-dropping widenings", "octagons/oct_nary.c:oct_widening, newpolka/pk_widening.c, box/box_otherops.c"), ("thresholds", "oct_widening_thresholds, pk_widening_threshold, box_widening_threshold")],
  "stateful property-based testing: adversarially growing sequences of points, convergence and upper-bound invariants", "Random exploration; 150 growths taken as divergence (at most 12 seen).", ["widening", "widening_threshold"])
prop("C17", "Functional operations leave every argument unchanged",
  "For every operation and all arguments: the functional version leaves the abstract values and syntactic arguments it is given with the same meaning; the destructive version gives the same result and changes nothing but its first argument; "
  "copies and results share no state a later destructive operation could reach; queries, conversions, minimisation, canonicalisation, hashing and printing never change what a value denotes. Domains: " + LT + ".",
  ["histories"], "all operations, all values with any internal state, all ways to share values between arguments", "Aliasing defects need a particular representation and a later destructive operation; the tests do not compare arguments before and after.", DOMF + ["box/box_assign.c", "octagons/oct_transfer.c", "newpolka/pk_assign.c", "apron/ap_reducedproduct.c", "apron/ap_generic.c"],
  [("destructive flag handled by each operation", "all transfer functions"), ("shared lazily closed or minimised forms", "octagons/oct_representation.c, newpolka/pk_representation.c")],
  "stateful property-based testing: metamorphic comparison of functional and destructive runs with snapshots of all arguments", LAW, ["all of ap_abstract0_*"])
prop("C18", "No operation corrupts or leaks memory",
  "For every valid sequence of operations, at every level (numbers, expressions, environments, level 0 and level 1 values of boxes, octagons, polyhedra, linear equalities, PPL polyhedra and grids, reduced product), on every path (destructive or not, empty values, dimension 0, array versions, exceptional results): no access outside "
  "or after the lifetime of a block, no use of freed or undefined objects, no crash; and once the caller has freed what it owns according to the documentation, nothing the library allocated is left.",
  ["inputs", "histories"], "all valid operation sequences; ownership as documented (consumed, borrowed, copied arguments)", "Lifetime errors depend on rare paths (an operand found empty halfway, the destructive variant of one branch, a matrix that grows after shrinking) and do not show in results.",
  ["apron/*.c", "itv/*.c", "num/*.h", "box/*.c", "octagons/*.c", "newpolka/*.c", "ppl/*.cc", "products/ap_pkgrid.c"],
  [("matrices that shrink and grow in place", "newpolka/pk_satmat.c, newpolka/pk_matrix.c"), ("destructive operations reusing or freeing their argument", "newpolka/pk_meetjoin.c, octagons/oct_transfer.c"), ("reference counts of environments and managers", "apron/ap_environment.c, apron/ap_manager.c"), ("ownership of array elements", "apron/ap_linexpr1.c, apron/ap_lincons1.c")],
  "property-based testing: the generated histories of the other properties run under AddressSanitizer and UBSan (bounds, pointers), and again with every heap block counted (a case repeated with warm caches must free all it allocates)", "Random exploration; leaks are searched by counting live blocks, so a block that stays reachable but is never freed counts; signed overflow and shifts of the unchecked machine number types excluded; results are judged by the other properties.", ["level 0 and level 1 API", "itv_*", "num_*"])

prop("C19", "Calls with invalid arguments are reported and harmless",
  "For every call at level 0 or 1 whose arguments break the documented contract (a value of another library; values, constraints, generators, expressions or destinations over other dimensions or another environment; dimensions out of range; null elements; empty arrays; dimension changes that are unsorted, repeated, out of range or of the wrong type; "
  "maps of dimensions that are not permutations; folding of unsorted, repeated or mixed dimensions; unknown, already existing or differently typed variables): AP_EXC_INVALID_ARGUMENT is set in the manager with an entry in its log, or the program aborts if that was asked for; predicates answer false without claiming exactness; bounds are the whole line; "
  "a value of the dimensions (environment) the valid call would give back, equal to top, is returned (the argument itself for level-1 meets with constraints and unification); arguments not consumed keep their meaning, the rest of the history goes on unaffected, nothing is corrupted or leaked. Valid calls never raise this exception.",
  ["inputs", "histories"], "all calls with a generated contract violation of one of the listed kinds, after any history", "The tests only make valid calls, and abort on the first exception.",
  ["apron/ap_abstract0.c", "apron/ap_abstract1.c", "apron/ap_manager.c", "apron/ap_environment.c"],
  [("argument checks of level 0", "apron/ap_abstract0.c: ap_abstract0_check*"), ("argument checks of level 1", "apron/ap_abstract1.c"), ("exceptions and their log", "apron/ap_manager.c: ap_manager_raise_exception")],
  "stateful property-based testing: random histories interleaved with generated contract violations, checked against the documented outcome of an exception (and run again under AddressSanitizer and with heap blocks counted, see C18)", "Two managers of the same domain with different number types carry the same library name and cannot be told apart by the library; such mixtures are not generated. Duplicate variables in one array (remove, rename, assignments) are not generated.", ["ap_abstract0_*", "ap_abstract1_*", "ap_manager_raise_exception", "ap_manager_clear_exclog"])
prop("C20", "Conversions and queries on the same value agree",
  "For all values: rebuilding a value from its returned constraints (linear or tree), from its generators (loose polyhedra, equalities) or from its serialised form gives it back (up to integer tightening); rebuilding from the returned box gives a value above with the same box; bounds of a dimension, bounds of the "
  "corresponding expression, the box and interval satisfaction agree; a dimension is unconstrained exactly when forgetting it changes nothing; satisfying a constraint agrees with the meet changing nothing. Domains: " + LT + ".",
  ["inputs", "histories"], "all values of each domain with all internal representations", "The tests print the conversions and rarely convert back.", DOMF + ["newpolka/pk_extract.c", "newpolka/pk_user.c", "octagons/oct_predicate.c", "octagons/oct_representation.c", "box/box_representation.c", "ppl/ppl_user.cc"],
  [("conversion to constraints, generators and boxes", "newpolka/pk_extract.c, octagons/oct_predicate.c, ppl/ppl_user.cc"), ("serialisation of octagons", "octagons/oct_representation.c:oct_serialize_raw")],
  "property-based testing of round trips and of agreement between queries over generated values with random histories", LAW, ["to_lincons_array", "to_tcons_array", "to_generator_array", "to_box", "serialize_raw", "bound_*", "sat_*"])
prop("C22", "Operations on named variables mean what the names say",
  "For every operation of the level-1 interface (values, expressions, constraints and generators over environments of named variables): the result is defined on exactly the documented environment with every variable keeping its type, and denotes what the same operation denotes on valuations of names, "
  "whatever the order in which names were given, the environments the arguments live on and how expressions were built or extended. That covers construction from boxes and constraints, meets, joins, unification, change, minimisation and renaming of environments, expansion, folding, forgetting, assignments and substitutions (single and parallel, "
  "with destination), rays, closure, widenings with thresholds, all queries and conversions, and coefficient access by name.",
  ["inputs", "histories"], "all environments, all pairs of environments of a value and of its arguments, all permutations of names", "A wrong permutation of dimensions only shows when names sort in a particular way relative to each other; the tests use two or three environments.",
  ["apron/ap_abstract1.c", "apron/ap_environment.c", "apron/ap_linexpr1.c", "apron/ap_lincons1.c", "apron/ap_generator1.c", "apron/ap_texpr1.c", "apron/ap_tcons1.c", "apron/ap_dimension.c"],
  [("translation of names to dimensions", "apron/ap_environment.c: dimchange, dimchange2, lce, rename"), ("extension of expressions to the value's environment", "apron/ap_linexpr1.c, ap_texpr1.c, ap_abstract1.c"), ("expand, fold and rename through permutations", "apron/ap_abstract1.c")],
  "stateful model-based testing: histories over named values compared with reference polyhedra keyed by name", "Random exploration of histories of at most 8 operations over 9 names, environments of at most 7 variables, linear arguments; exact with real variables, bracketed with integer ones; polyhedra of newpolka and PPL carry the comparison since they are exact.", ["ap_abstract1_*", "ap_linexpr1_*", "ap_lincons1_*", "ap_generator1_*", "ap_texpr1_*", "ap_tcons1_*"])
prop("C23", "Expressions and constraints denote what was built",
  "Linear expressions, constraints, generators and tree expressions (dense, sparse or minimised; any scalar type) agree with a mathematical model under every constructor, accessor, copy, iteration, substitution, addition, permutation and removal of dimensions, classification (integer, real, linear, quasi-linear, interval, type), "
  "comparison and hash; equal expressions hash equally; arguments of functional operations are unchanged.",
  ["inputs", "histories"], "all expressions with all internal layouts (unused slots, unsorted growth, short dense arrays) and all valid dimension changes", "The tests use a few short expressions with one layout.",
  ["apron/ap_linexpr0.c", "apron/ap_lincons0.c", "apron/ap_generator0.c", "apron/ap_texpr0.c", "apron/ap_tcons0.c", "apron/ap_linexpr0.h", "apron/ap_dimension.c"],
  [("sparse representation with unused slots", "apron/ap_linexpr0.c:ap_linexpr0_coeffref, index_of_or_after_dim"), ("dimension changes and permutations of expressions", "apron/ap_linexpr0.c, ap_texpr0.c"), ("classification of tree expressions", "apron/ap_texpr0.c")],
  "model-based property-based testing: histories of operations on one expression compared with exact coefficient vectors and expression trees evaluated at sample points", "Random exploration; at most 7 dimensions, trees of depth at most 5.", ["ap_linexpr0_*", "ap_lincons0_*", "ap_texpr0_*", "ap_tcons0_*", "ap_generator0_*"])
prop("C25", "Scalars, intervals and coefficients behave as extended numbers",
  "Scalars of the three types (double, rational, multi-precision float), intervals and coefficients agree with extended rational numbers: comparisons and equalities across types are the mathematical ones (with the documented results), conversions round in the requested direction and report exactness, "
  "inversions, negation, swaps, copies, predicates (top, bottom, singleton, inclusion) and hashes are exact, and equal values hash equally.",
  ["inputs"], "all pairs of values of all types including infinities, zeros of both signs, subnormals, huge rationals and values that are not representable", "The tests touch a few small integers and doubles.",
  ["apron/ap_scalar.c", "apron/ap_interval.c", "apron/ap_coeff.c", "apron/ap_scalar.h", "apron/ap_coeff.h"],
  [("comparison across number types", "apron/ap_scalar.c:ap_scalar_cmp"), ("directed conversions", "apron/ap_scalar.c:ap_double_set_scalar, ap_mpfr_set_scalar, ap_mpq_set_scalar")],
  "property-based testing against exact extended rationals", "Random exploration over a distribution biased to boundary values.", ["ap_scalar_*", "ap_interval_*", "ap_coeff_*"])
prop("C26", "Evaluation and linearisation enclose the exact values",
  "For every expression and box of variables: interval evaluation of linear and tree expressions (rounding modes and types included) in each number type contains every value the expression can take in the box; interval- and quasi-linearisations contain the expression at every point of the box, are of the announced "
  "shape, and report exactness only when nothing was lost; boxes deduced from constraints keep every point that satisfies them.",
  ["inputs"], "all expressions (six scalar operators, five rounding types, five rounding directions), all boxes bounded or not, all number types", "Soundness is a for-all over points of the box and depends on directed rounding in rare operand combinations.",
  ["apron/ap_linearize.c", "apron/ap_linearize_aux.c", "itv/itv_linearize.c", "itv/itv_linearize.c", "itv/itv_linexpr.c", "itv/itv.c", "num/bound_def.h", "num/numflt_native.h"],
  [("linearisation of tree expressions with rounding errors", "itv/itv_linearize.c"), ("quasi-linearisation", "itv/itv_linearize.c:itv_quasilinearize_*"), ("deduction of bounds from constraints", "itv/itv_linearize.c:itv_boxize_lincons_array")],
  "property-based testing: enclosure of exact evaluations at generated points of the box (rational arithmetic and directed MPFR roots as oracle)", "Random exploration; at most 4 variables, trees of depth at most 4; floating-point overflow excluded.", ["ap_eval_*", "ap_intlinearize_*", "ap_quasilinearize_*", "ap_linearize_*", "ap_boxize_*"])

prop("C27", "Number, bound and interval arithmetic is correctly directed in every number type",
  "In each number type the library offers (exact and machine integers, rationals, floats, doubles, long doubles, MPFR): arithmetic, roots, powers, casts and conversions are exact for exact types and rounded upwards, by no more than the type needs, for the others; operations on bounds and intervals enclose the exact result set, are tight "
  "where the type can represent it, treat infinities as limits and zero times infinity as zero, keep empty intervals recognisable, agree on comparisons and predicates with the exact order, behave the same when operands and result share storage, and report exactness of conversions only when nothing was lost; printing and serialization read back to the same number.",
  ["inputs"], "all finite and infinite bounds of every number type, all interval operations, all aliasing patterns of operands and result", "Every domain's soundness rests on these roundings; the failing operands (signs, zero-straddling divisors, halves, aliases, exponents) are a vanishing fraction of the inputs.",
  ["num/*.h", "num/bound_def.h", "itv/itv.h", "itv/itv.c", "itv/itv_fun.h", "apron/ap_interval.c"],
  [("interval arithmetic by sign cases", "itv/itv.c:itv_mul, itv_div"), ("directed conversions", "num/num_num*.h"), ("roots and powers", "num/numflt_native.h, num/numrat_native.h, itv/itv.c:itv_sqrt, itv_pow"), ("bounds with infinities", "num/bound_def.h")],
  "property-based testing: differential against exact rational interval arithmetic (GMP) with directed MPFR roots, metamorphic in-place aliasing, round-trip of serialization", "Random exploration; native integer and rational types only on operands that cannot overflow (overflow is documented as unchecked); long double conversions to exact types may be loose (they go through double).", ["itv_*", "bound_*", "num_*"])

prop("C28", "The C++ interface computes what the C interface computes",
  "Every constructor, method and operator of the C++ classes (managers, abstract values of both levels, environments, variables, dimension changes, scalars, intervals, coefficients, linear and tree expressions with their iterators and builders, constraints, generators and their arrays) returns what the C function it stands for "
  "returns on the same arguments, in its in-place, returning and destination forms alike; it leaves its other arguments alone, owns and releases what it says it owns, orders abstract values by inclusion (strict comparisons are strict inclusions), and turns every exception of the library or bad index, name or discriminant into the documented C++ exception, after which all values can still be used.",
  ["inputs", "histories"], "all values, arguments (valid and invalid) and overloads", "The C++ test programs call each overload once on one value and print the result.",
  ["apronxx/*.hh", "apronxx/apronxx.cc"],
  [("in-place, returning and destination overloads", "apronxx/apxx_abstract0_inline.hh, apxx_abstract1_inline.hh"), ("translation of exceptions", "apronxx/apxx_manager_inline.hh"), ("ownership and copies", "apronxx/apxx_linexpr0_inline.hh, apxx_texpr0_inline.hh"), ("iterators", "apronxx/apxx_linexpr0_inline.hh, apxx_linexpr1_inline.hh")],
  "stateful property-based testing: differential between the C++ and the C interface on the same values; data types against exact models", "Random exploration; four managers (intervals, octagons rational and double, strict and loose polyhedra).", ["apron::*"])
prop("C29", "The Java interface computes what the C interface computes",
  "Every method of the Java class of level-0 abstract values, for each of the nine managers, returns what the C function it stands for returns on the same arguments, in its in-place and returning forms alike, with the same exactness flags; it leaves its other arguments alone and turns an exception of the library into the corresponding Java exception, after which all objects can still be used. "
  "The Java number types (big integers, rationals and floats), scalars, intervals, linear and tree expressions, constraints, generators, dimension changes and permutations denote exactly what they were built from, and their operations, comparisons, conversions and hash codes are those of the mathematical objects.",
  ["inputs", "histories"], "all values, arguments (valid and invalid) and overloads of the methods", "The Java test program prints the result of one call per method.",
  ["japron/apron/*.java", "japron/apron/*.c", "japron/gmp/*.java", "japron/gmp/*.c"],
  [("native methods and conversions of arguments", "japron/apron/japron.c, apron_Abstract0.c"), ("translation of exceptions", "japron/apron/japron.c:japron_exc"), ("big numbers", "japron/gmp/gmp_Mpz.c, gmp_Mpq.c, gmp_Mpfr.c"), ("expressions in Java", "japron/apron/Linexpr0.java, Texpr0*.java, *Scalar.java")],
  "stateful property-based testing: differential between the Java (in-process virtual machine) and the C interface on the same values; data types against exact models", "Random exploration; level 1 of the Java interface (Environment, Abstract1) and finalisation are not exercised.", ["apron.*", "gmp.*"])

def emit():
    import props
    built = set(props.PROPS)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, tech, note, why in P:
        if d["id"] in built:
            checks.append(dict(property=d["id"], quick_cmd="python3 check.py %s --tier quick" % d["id"], thorough_cmd="python3 check.py %s --tier thorough" % d["id"],
                               evidence_file="evidence/%s.json" % d["id"], technique=tech, level="exploration", level_note=note))
        else:
            na.append(dict(property=d["id"], reason=why or "no check built yet"))
    m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0,'lib'); import build, props\"", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties, %d claimed" % (len(P), len(checks)))
    missing = built - {d["id"] for d, *_ in P}
    assert not missing, missing
if __name__ == "__main__":
    emit()
