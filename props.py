"""Source of properties.jsonl and MANIFEST.json (bin/gen writes both)."""

CLAIMED = []
NA = []


def claim(id, title, statement, over, qtext, why, files, mech, note, state=()):
    CLAIMED.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, state=list(state)))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason, state=[]))


claim("C01", "Integer arithmetic is exact or throws",
      "Every arithmetic operation on the solver's integer values (addition, subtraction, multiplication, truncating division and remainder, negation, absolute value, increment, decrement and the compound assignments) gives the exact mathematical result when that result is representable in 64 bits, and otherwise throws the overflow exception without changing its operand; it never wraps or saturates. (A remainder counts as unrepresentable exactly when the corresponding division is.) Comparisons agree with the order of the values.",
      ["inputs"], "all pairs of 64-bit values", "the integer tests sample normal values and a few extremes; the guarantee is over all 2^128 operand pairs",
      ["gcs/integer.hh", "gcs/innards/integer_overflow.hh", "gcs/innards/integer_overflow.cc"],
      [("checked builtins behind every operator", "gcs/integer.hh operator+, -, *, /, %, +=, -=, ++, --, abs"), ("the exception raised on overflow", "gcs/innards/integer_overflow.cc")],
      "every operator body and every caller obligation proved for all 64-bit operands")
claim("C02", "Rounding division and integer roots",
      "Division rounding down gives the largest integer quotient whose product with the divisor does not exceed the dividend, division rounding up the smallest whose product reaches it, for every sign combination with a non-zero divisor and a representable quotient. The integer square root functions return the exact floor and ceiling of the square root for every non-negative value, and the interval of values whose square lies in a given interval is exact.",
      ["inputs"], "all 64-bit operands", "the existing test enumerates small values only; rounding and overflow mistakes hide at sign boundaries and at the ends of the 64-bit range",
      ["gcs/constraints/innards/product_bounds.hh"],
      [("rounding division", "div_floor, div_ceil"), ("square roots by Newton iteration", "isqrt, ceil_isqrt"), ("root intervals for squares", "square_filter_bounds and friends")],
      "all functions proved, the Newton loop by an inductive invariant and a variant; integer arithmetic lemmas proved by the solvers on every run")
claim("C03", "Bounds of products, squares and quotients over boxes are sound and tight",
      "For variables confined to intervals, the interval computed for their product or their square contains the result of every choice of values in the box, and each of its ends is attained by some choice. The interval computed for a factor or a quotient contains every value that some choice in the box supports, so filtering with it never discards a supported value.",
      ["inputs"], "all boxes of 64-bit intervals and all points in them", "the existing test enumerates boxes with ends of magnitude at most about six",
      ["gcs/constraints/innards/product_bounds.hh"],
      [("interval multiplication and squaring", "product_bounds, square_bounds"), ("quotient filtering", "filter/quotient functions of product_bounds.hh")],
      "every function proved against quantified postconditions over all points of the box; lemmas about monotonicity of products and quotients proved on every run")
claim("C04", "Integer powers are exact or reported as unrepresentable",
      "Raising an integer to an integer power gives the exact result under the documented convention (zero to the zero is one, negative exponents truncate) and reports absence exactly when the result is not representable or is zero to a negative power. Powers of two requested directly are exact for every exponent whose power is representable, and any other exponent throws.",
      ["inputs"], "all 64-bit bases and exponents", "no test covers the power functions directly, and exponentiation by squaring overflows in intermediate values that small samples do not reach",
      ["gcs/innards/power.cc", "gcs/innards/power.hh"],
      [("exponentiation with overflow checks", "checked_integer_power"), ("shift with range check", "power2")],
      "proved for all inputs with a loop invariant over a recursively defined power function")
claim("C05", "Bit encodings of variables cover exactly what they must",
      "For every pair of bounds for which a binary encoding is said to fit, the highest bit, its coefficient and the sign-bit coefficient computed for the encoding are such that every value in the bounds is a sum of a choice of bits, and no smaller number of bits would do. The question whether an encoding fits is answered yes exactly when no coefficient overflows.",
      ["inputs"], "all 64-bit bounds", "the existing test enumerates small bounds; the proof model of every variable depends on the encoding being complete at every magnitude",
      ["gcs/innards/proofs/bits_encoding.cc", "gcs/innards/power.cc"],
      [("coefficients of the encoding", "get_bits_encoding_coeffs"), ("representability test", "bits_encoding_fits")],
      "proved for all 64-bit bounds")
claim("C06", "Offset and negated views denote exactly the intended value",
      "Adding a constant to, subtracting a constant from, or negating a variable, a view of a variable, or a constant yields something whose value under every assignment is exactly that sum, difference or negation of the operand's value, for any nesting of these operations. Where the constant part of the result is not representable the operation throws instead of wrapping, and constants are recognised, extracted and decomposed into coefficient, variable and offset without changing the value denoted.",
      ["inputs", "histories"], "all variables, views and constants, all 64-bit offsets, all assignments, all chains of operations", "tests use a few small offsets through whole models",
      ["gcs/variable_id.hh", "gcs/variable_id.cc", "gcs/constraints/innards/arithmetic_utils.hh"],
      [("view arithmetic", "gcs/variable_id.cc operator+, operator-"), ("decomposition used by arithmetic constraints", "arithmetic_utils.hh affine_of"), ("constants", "variable_id.hh constant_variable, constant_value_of, is_constant_variable, as_constant_variables")],
      "postcondition quantified over an uninterpreted assignment; every overload and lambda proved, chains follow by composition of the contracts")
claim("C07", "Variable conditions mean what they say and negate exactly",
      "A condition built by comparing any kind of variable with a constant (equal, not equal, less, at most, greater, at least, inside or outside a closed interval) is satisfied by exactly the values the comparison admits, and refers to the variable it was built from. Negating a condition yields one satisfied by exactly the other values, negating twice gives the original back, and converting a condition to a more general variable type changes nothing; bounds that cannot be expressed throw.",
      ["inputs"], "all constants and all values of the variable, all kinds of variable", "no test covers conditions on their own; off-by-one errors in a strict or non-strict operator survive models that do not probe the boundary",
      ["gcs/variable_condition.hh"],
      [("condition builders", "operator==, !=, <, <=, >, >=, in_range, not_in_range"), ("negation", "operator!"), ("widening conversion", "VariableConditionFrom conversion operator")],
      "every template instantiated for the four variable kinds and proved for every value")

claim("C08", "Linear expressions and inequalities keep their meaning when built and rewritten",
      "Building a weighted sum term by term, negating it, and turning it with a comparison into an equality, an at-most or an at-least inequality gives an object whose satisfying assignments are exactly those of the expression written, for every kind of variable and every coefficient; the terms appear in the order written with the coefficients and variables given, and a negation that cannot be represented throws. The selection of terms and coefficients used by the linear propagators returns the coefficient and the variable of the term it is given.",
      ["inputs"], "all sums of any length, all coefficients and bounds, all assignments", "the linear tests go through whole models with small coefficients; nothing tests the expression layer on its own",
      ["gcs/expression.hh", "gcs/constraints/linear/utils.hh"],
      [("sum building and comparison operators", "expression.hh operator*, +, -, ==, <=, >="), ("negation of sums", "expression.hh unary operator-"), ("coefficient and variable selection", "linear/utils.hh get_coeff, get_var")],
      "every overload and loop proved for sums of any length; the value of a sum is a recursive function, and its congruence and negation lemmas are proved by induction on every run")
claim("C09", "Restart cutoffs follow the scaled Luby sequence",
      "A restart schedule with a given scale yields, on successive advances, exactly the terms of the Luby sequence (one, one, two, one, one, two, four, and so on) each multiplied by the scale, for as long as the cutoffs are representable; reading the current cutoff does not change the schedule.",
      ["histories"], "all positions below 2^63 and all scales", "the test compares the first few terms; the doubling and fall-back logic acts differently at every power of two",
      ["gcs/restarts.cc", "gcs/restarts.hh"],
      [("reluctant doubling", "restarts.cc luby_term"), ("position and scale", "RestartSchedule::luby, current_cutoff, advance")],
      "proved for every position by a loop invariant against the recursive definition of the sequence, with a termination measure")
claim("C10", "Interval trees answer containment queries exactly and in order",
      "After any sequence of insertions an interval tree holds exactly the intervals inserted, each once. A containing query visits exactly the stored intervals that contain the query interval, a contained-in query exactly those contained in it, each once and in increasing order of lower then upper end, whatever the insertion order and the balancing choices were.",
      ["inputs", "histories"], "all insertion histories, all stored and queried intervals, all balancing choices", "the tests try a few hundred random trees; a wrong subtree bound after a rotation only shows for a query that needs the pruned subtree",
      ["gcs/innards/interval_tree.hh"],
      [("insertion with rotations", "insert, rotate_left, rotate_right"), ("subtree end bounds", "update"), ("pruned traversals", "for_each_containing, for_each_contained_in")],
      "representation invariant (search order, exact membership, subtree bounds) proved preserved by every function, and the queries proved against it, for trees of any size")

_inc = "gcs/constraints/difference/difference_incremental"
claim("C11", "Difference-system potentials are valid, and refutations are right",
      "For a system of difference constraints over any number of variables, the initial potential computed is one under which every active constraint has a non-negative reduced cost, and none is reported only when the active constraints cannot be satisfied together. After one constraint joins the active ones, repairing a valid potential either succeeds with a potential valid for all active constraints, or reports failure, and then no potential exists and the old one is left unchanged; it reports success whenever the system is satisfiable. The validity audit reports a violated active constraint exactly when there is one, and the adjacency index lists every constraint exactly once, under its proper end. All this holds over any history of activations and deactivations sharing one workspace, for values whose sums stay within range.",
      ["inputs", "histories"], "all graphs of any size, all weights, all activation histories", "no test that runs here covers these functions, and a stale or wrongly repaired potential loses inferences silently without affecting any proof",
      [_inc + ".cc", _inc + ".hh"],
      [("initial potential by Bellman-Ford", "difference_initial_potential"), ("repair after an activation", "difference_repair_potential"), ("audit", "difference_invalid_potential_arc"), ("adjacency index", "build_difference_adjacency")],
      "all four functions proved for graphs of any size; loop invariants include the heap order of the queue, termination measures, and comparison with an arbitrary other potential", [("potential", "node potentials, never restored on backtracking", "owned by the difference propagator"), ("workspace", "scratch vectors left clean between calls", "DifferencePotentialWorkspace")])
claim("C12", "Incremental difference bounds reach the exact fixpoint",
      "Given a valid potential, bounds, and gates recording what was already propagated, one incremental bounds pass over a difference system settles bounds that together with the given ones are closed under every active constraint, and that no solution of the system violates, in either orientation. Every settled bound is the node's own or comes across an active constraint from a node settled earlier, no node is settled twice, and the workspace is left ready for the next pass.",
      ["inputs", "histories"], "all satisfiable systems of any size, all bounds and gates meeting the documented invariants", "no test that runs here covers this function; a lost push passes proof checking silently",
      [_inc + ".cc", _inc + ".hh"],
      [("gated Dijkstra on reduced costs", "difference_incremental_bounds"), ("workspace reuse", "DifferenceBoundsWorkspace")],
      "proved for graphs of any size with loop invariants over the queue, the settled set and an arbitrary solution, and a termination measure", [("gate", "bounds each node last propagated from", "owned by the difference propagator"), ("workspace", "scratch vectors left clean between calls", "DifferenceBoundsWorkspace")])

claim("C13", "Simplifying a difference graph loses no solution and no propagation",
      "Given a graph of difference constraints, some unconditional (base), some conditional (candidates) and some ignored, the root simplification reports a negative cycle exactly when the base constraints have one, and then decides nothing else. Otherwise the base constraints it keeps imply every base constraint and every candidate it removes, so no distance between variables changes; what it keeps attains the distance between its ends, and no two kept base constraints duplicate each other; a candidate is removed exactly when the base constraints already imply it. A candidate's condition is fixed false, once, exactly when adding it would close a negative cycle, and with it comes a path of base constraints from its head back to its tail whose weight together with the candidate's is negative. Ignored constraints are left alone. Zero-weight cycles and the nodes on them are counted.",
      ["inputs"], "all graphs of any size, every mix of roles, all weights whose path sums stay in range", "no test that runs here covers this function; removing one arc too many weakens propagation, and one fixed condition too many loses solutions, only on particular ties between paths",
      ["gcs/constraints/difference/difference_simplify.cc", "gcs/constraints/difference/difference_simplify.hh"],
      [("potentials, shortest paths, decisions", "difference_simplify.cc simplify_difference_graph"), ("zero-weight cycles", "difference_simplify.cc count_zero_weight_cycles")],
      "the whole pass proved for graphs of any size (Bellman-Ford, reweighting, Dijkstra per source, decisions, witness paths; solutions represented by an arbitrary assignment), with termination measures; the counts of zero-weight cycles are only compared by a bounded search")

claim("C14", "Writing an s-expression and reading it back gives the same term",
      "Reading text yields exactly the terms it denotes under the grammar in which white space and parentheses are the only delimiters: one-term reading succeeds only on text that is exactly one well-formed term, sequence reading only on well-formed sequences, and everything else is refused with the s-expression error. Rendering writes a term in canonical single-line form (or, in the bare form, a list without its own parentheses, never its children's), so any term whose atoms are non-empty and free of delimiters is read back from its rendering unchanged, and two different such terms never render alike. Inspecting a term as the wrong kind is refused.",
      ["inputs"], "all texts of any length and terms of any shape", "the tests try some twenty strings; a misplaced separator or delimiter shows only for particular nestings and characters",
      ["gcs/innards/s_expr.cc", "gcs/innards/s_expr.hh"],
      [("reader", "s_expr.cc Reader, parse_s_expr, parse_s_expr_seq"), ("rendering", "s_expr.hh formatter for SExpr"), ("term inspection", "SExpr::as_atom, as_list, is_atom, is_list")],
      "every function proved against a recursive grammar for texts of any length, and the round trip by induction over terms")

claim("C15", "A regular expression text denotes exactly its documented language",
      "A text is accepted as a regular expression over integers exactly when it follows the documented syntax (integer symbols, the wildcard, classes with ranges and negation over the alphabet, grouping, concatenation, alternation, and the star, plus, optional and counted quantifiers) and every integer in it is representable; any other text is refused with the invalid-problem-definition error. For an accepted expression the reference matcher accepts a sequence exactly when the sequence belongs to the language the expression denotes under that syntax, with quantifiers binding tighter than concatenation and concatenation tighter than alternation.",
      ["inputs"], "all texts, alphabets and sequences of any length", "the tests try a few dozen expressions against short words; precedence, class ends, and nesting under a counted quantifier show only for particular shapes",
      ["gcs/constraints/regular/regex.cc", "gcs/constraints/regular/regex.hh"],
      [("tokens", "regex.cc tokenize"), ("recursive descent reader", "regex.cc Parser"), ("desugaring of quantifiers", "regex.cc repeat_exact, repeat_at_least, repeat_between, clone"), ("reference matcher", "regex.cc match_ends, regex_reference_accepts")],
      "every function proved against a recursive grammar for texts of any length and a recursive definition of the language of a tree; termination measures for the reader and the matcher")

claim("C16", "The automaton compiled from a regular expression has its language",
      "Compiling a regular expression over an alphabet gives an automaton without empty moves whose initial state is state zero, whose transitions and accepting states refer only to its own states, and which accepts a sequence of integers exactly when the sequence belongs to the language the expression denotes. A text that is not a regular expression is refused with the invalid-problem-definition error.",
      ["inputs"], "all expressions, alphabets and sequences of any length", "the tests compare a few dozen expressions with a matcher on short words; a lost edge or a wrongly closed state shows only for particular nestings of star, choice and the empty word",
      ["gcs/constraints/regular/regex.cc", "gcs/constraints/regular/regex.hh"],
      [("fragment construction", "regex.cc ThompsonBuilder::add_state, ThompsonBuilder::build"), ("removal of empty moves and renumbering", "regex.cc build_nfa"), ("reading and compilation", "regex.cc regex_to_nfa")],
      "soundness through a labelling of the states by languages that every edge respects, completeness through an arbitrary set of states and positions closed under the edges, for expressions of any shape and sequences of any length; termination measures for every loop")

claim("C17", "Interval sets hold exactly the integers their operations say",
      "An interval set stands for a set of integers and is always kept as sorted intervals of which no two overlap or touch. Construction, insertion at the end, removal of a value, of a range, or of everything below or above a bound, clearing, and intersection change the members exactly as documented, for any values including the least and greatest representable ones; membership, emptiness, size, least and greatest member, common members and holes are reported exactly; iterating in either order, over intervals, over gaps, or over the members another set lacks gives each exactly once, in order, and ends. A size that does not fit throws the overflow exception.",
      ["inputs", "histories"], "all sets of any number of intervals, all argument values, and every sequence of operations (each keeps the representation the next relies on)", "the unit test of this class does not run here, and samples a few dozen sets; errors show only where a bound falls in a gap, on an end, or on a boundary shared by two sets",
      ["gcs/interval_set.hh"],
      [("queries", "interval_set.hh IntervalSet::contains, contains_any_of, size, lower, upper, has_holes"), ("modification", "IntervalSet::erase, erase_range, erase_less_than, erase_greater_than, insert_at_end, intersect_with"), ("iteration", "IntervalSet::each, for_each, each_interval, each_gap, each_gap_interval, each_interval_minus, each_reversed")],
      "every member function proved against membership in a set of integers, for any number of intervals and all 64-bit values, with termination measures; generators are specified by the whole sequence they yield")

claim("C18", "Domains shrink exactly as inferred and queries report them exactly",
      "A search state holds a non-empty set of values for each variable; a variable may be named directly, through a view (possibly negated, plus an offset), or as a constant. Inferring or guessing a condition (equal, not equal, less, at least, in range, not in range, or a literal) removes exactly the values that do not satisfy it from that variable's domain and touches nothing else, and reports a contradiction exactly when no value satisfies it, no change exactly when all do, and otherwise correctly whether one value is left, a bound moved, or only inner values went; a guess is recorded, and refused exactly when contradictory. Creating a variable gives it exactly the values between its bounds (refusing an empty interval) under the identifier announced. Bounds, membership, size, single value, holes, copies, iteration, whether two domains (or a domain and a set) share a value, and whether a literal is definitely true, definitely false or undecided are reported exactly for the values as seen through the name used. Values not representable on the other side of a view throw the overflow exception. (After a contradiction the domain of that variable is unspecified. Literals tested for a range have a non-empty range.)",
      ["inputs", "histories"], "all states with any number of variables and epochs, all domains, all views, all values", "no test that runs here covers the state; mistakes show only through a negated view, at a boundary that falls in a gap, or in the kind of change reported (which decides which propagators run)",
      ["gcs/innards/state.cc", "gcs/innards/state.hh", "gcs/interval_set.hh"],
      [("changes to a domain", "state.cc change_state_for_equal, change_state_for_not_equal, change_state_for_less_than, change_state_for_greater_than_or_equal, change_state_for_in_range, change_state_for_not_in_range"), ("inference through views", "state.cc infer, infer_equal ... infer_not_in_range, guess"), ("queries", "state.cc bounds, in_domain, optional_single_value, domain_size, domains_intersect, test_literal"), ("iteration and copies", "state.cc each_value_immutable, each_value_mutable, copy_of_values")],
      "every function of the state's domain interface proved, in each instantiation, against sets of integers seen through a view, including the frame (nothing else changes); the interval set operations by the contracts proved under C17")

claim("C19", "Backtracking restores the search state exactly",
      "Whatever happens between opening an epoch and backtracking to it (creating variables, inferences, guesses, adding or changing constraint states, registering callbacks, adding extra proof conditions, and further epochs opened and backtracked in any nesting), backtracking restores every variable's domain, the set of variables, every constraint state, the registered callbacks, and the guesses to exactly what they were when the epoch was opened, and, for an epoch opened for a subsearch, the extra proof conditions too (otherwise these stay); each callback registered for the epochs undone is called exactly as often as it was registered, and no other is called. Opening an epoch changes nothing visible. No modification reaches an earlier epoch. Guesses are reported with the extra conditions first, each in the order they were made. A clone has the same domains, constraint states, epochs and objective, and no guesses, and changing it leaves the original alone. (Not while an exception is passing, and provided callbacks leave the state alone.)",
      ["histories", "inputs"], "all states with any number of epochs, variables and constraint states, and all histories of modifications, epochs and backtracks", "no test that runs here covers the state; a domain or stored value that survives a backtrack shows only as a lost or wrong solution several levels later",
      ["gcs/innards/state.cc", "gcs/innards/state.hh"],
      [("epochs", "state.cc State::new_epoch, State::backtrack, State::on_backtrack"), ("what is kept beside the domains", "State::add_constraint_state, get_constraint_state, add_extra_proof_condition, guesses"), ("modifications", "state.cc change_state_*, infer*, guess, allocate_integer_variable_with_state"), ("copies", "State::clone")],
      "each member function proved to leave earlier epochs alone; new_epoch and backtrack proved exactly; and a client running an arbitrary script of modifications, epochs and backtracks proved, by an inductive invariant over those contracts, to end where it began")

claim("C20", "Propagators lose no solution and accept only satisfying assignments",
      "For the constraints Plus, Minus, the comparisons (less than, at most, greater than, at least; plain, if and iff), Equals and NotEquals (plain, if and iff), the increasing and decreasing chains (strict or not), ParityOdd, And and Or: whatever variables, views or constants the constraint is posted on, and whatever domains they have when it runs, each propagator and initialiser it installs removes from the domains no assignment that satisfies the constraint and reports a contradiction only when none is left; once every variable is fixed and no propagator reports a contradiction, the values satisfy the constraint; a propagator that declares itself finished (entailed) does so only when every remaining assignment satisfies it; and each propagator is woken whenever a variable this depends on changes. Where addition or subtraction does not fit, the overflow exception is thrown instead. (Proof logging off; without the table that Plus and Minus add for small domains.)",
      ["inputs", "histories"], "all domains, views and constants, any number of variables, and all search states in which a propagator may run", "no test of these constraints runs here; a propagator that removes a value too many, or is not woken, loses or admits solutions only for particular domains, views, orders of events",
      ["gcs/constraints/plus_minus", "gcs/constraints/comparison", "gcs/constraints/equals", "gcs/constraints/increasing", "gcs/constraints/logical", "gcs/constraints/parity", "gcs/constraints/innards/reified_dispatcher.hh", "gcs/constraints/innards/triggers.cc"],
      [("arithmetic", "plus_minus/plus.cc, minus.cc install_propagators"), ("comparisons and equality", "comparison/comparison.cc; equals/equals.cc prepare, install_propagators, enforce_equality"), ("chains", "increasing/increasing.cc prepare, install_propagators"), ("logic", "logical/logical.cc And, Or; parity/parity.cc"), ("reification and triggers", "innards/reified_state.cc, reified_dispatcher.hh, triggers.cc")],
      "each install function's propagators and initialisers, written as closures, proved with a ghost solution: an arbitrary assignment that satisfies the constraint and lies in the domains still does after any run; with all variables fixed, a run without contradiction means the constraint holds; loops by invariants over any number of variables")

_solver_files = ["gcs/solve.hh", "gcs/problem.hh"]
claim("C21", "Search reports each solution exactly once and ends with an optimal one",
      "Solving reports, through the solution callback, only assignments in which every variable is fixed and every constraint holds, and none twice. When nothing is to be minimised and no callback and no abort flag stops the search, every assignment that satisfies the constraints is reported. When a variable is to be minimised, each solution reported is strictly better than the one before, and at the end every assignment that satisfies the constraints is no better than the last reported. This holds whatever the branching, with or without restarts and the nogoods learned at them. Once a callback has asked to stop nothing more is reported; completion is reported exactly once when the search has not been stopped, and only if the above holds of it. Whether there is a solution, and how many, is counted exactly. (Proof logging off; given propagators that lose no solution and accept only satisfying assignments, and branching that partitions what remains.)",
      ["programs", "histories", "inputs"], "all search trees of any depth and breadth, all restart schedules, all points at which a callback or the abort flag stops the search, with and without an objective", "tests count the solutions of small instances under one schedule; a solution lost or repeated around a restart, a bound not woken after backtracking, shows only for particular histories",
      ["gcs/solve.cc", "gcs/restarts.hh", "gcs/innards/state.hh", "gcs/search_heuristics.cc"],
      [("depth-first search with branch and bound", "solve.cc solve_with_state"), ("nogoods learned at a restart", "solve.cc solve_with_state, NogoodStore::add"), ("setting up, presolving, restart passes, completion", "solve.cc solve_with"), ("branching heuristics", "search_heuristics.cc")],
      "the recursive search and the loop over restart passes proved by following an arbitrary assignment: loop invariants over the branches tried and the nogoods learned, a recursive contract for subtrees, obligations at every call of a callback")

claim("C22", "Branching partitions what remains",
      "For every value order the library offers and every variable with at least two values left, named directly or through a view (negated or not): the branches offered are two or more conditions on that variable, each remaining value satisfies exactly one of them, and each leaves something and excludes something, so that branching neither loses nor repeats a solution and always makes progress. They come in the order documented: the least or greatest value taken or left out, the values ascending or descending, one branch for each value, or two halves with the smaller or the larger values first. Every variable order selects only a variable it was given, and only one with at least two values left, and selects none only when there is no such variable; in_order selects the first such variable, dom one with the smallest domain, dom_then_deg among those one with the highest degree, with_smallest_value and with_largest_value one with the least lower or greatest upper bound. branch_with offers the value order's branches of the variable selected, and none when none is selected; branch_sequence offers the first heuristic's branches, or the second's when the first has none. Bounds, size, membership, single value, copies and iteration (ascending, or descending when reversed) as told to heuristics and callbacks are exact. Weights told of a conflict look at no bounds of a domain that has been emptied. (An overflow exception may end any of these where arithmetic does not fit.)",
      ["inputs", "histories"], "all domains, all variables however named, any list of variables, all outcomes of the random engine", "a branch that misses or repeats a value, or that excludes nothing, shows only for particular domains (holes, negative bounds, negated views) or draws of the random engine, and then as a wrong count or a search that never ends; the tests try a few domains",
      ["gcs/search_heuristics.cc", "gcs/current_state.cc", "gcs/variable_weighting.cc"],
      [("value orders", "search_heuristics.cc value_order::smallest_in ... median, and the random generators"), ("variable orders", "search_heuristics.cc variable_order::in_order ... dom_wdeg, in_order_of_selector, random_variable_selector"), ("combining them", "search_heuristics.cc branch_with, branch_sequence"), ("what heuristics are told", "current_state.cc"), ("weights", "variable_weighting.cc RefinedWeighting::note_conflict")],
      "each order called on an arbitrary variable with an arbitrary domain and everything it yields specified, one arbitrary value and two arbitrary branches at a time; selection by a loop invariant over the variables; the random engine any number in range")

na("N01", "Every solution reported satisfies every constraint, and none is missed",
   "Every solution the solver reports satisfies every constraint posted, and when it reports that the search is complete it has reported every solution exactly once.",
   ["programs", "histories"], "all problems and all search histories", "tests compare small instances with brute force",
   _solver_files, [("search loop and propagators", "gcs/solve.hh; gcs/constraints")],
   "whole-history property of search, propagation queue and some eighty propagators written as closures over shared mutable state; the search loop on top (C21) and the pieces underneath (domains C18, epochs C19, the propagators of some constraints C20) are claimed separately, but for the remaining propagators no contract within reach states that they lose nothing")
na("N02", "Optimal values reported are optimal",
   "When an optimisation search completes, the best objective value reported is attained by a reported solution and no assignment satisfying the constraints does better.",
   ["programs", "histories"], "all optimisation problems", "tests check small instances",
   _solver_files, [("objective bound tightening during search", "gcs/solve.hh")],
   "whole-history property of the search loop together with every propagator: the loop's part is claimed as C21, the remaining propagators are out of reach (see N01)")
na("N03", "Proof logs are accepted by an independent checker",
   "Whenever proof logging is on, the log written is accepted by the independent proof checker and certifies the claim printed.",
   ["programs", "histories"], "all problems and search histories", "tests run the checker on small instances",
   ["gcs/proof.hh"], [("proof logger and justifications", "gcs/innards/proofs")],
   "validity of a proof log is a property of the whole log under the checker's semantics, produced by code across every propagator; no function-level contract expresses it, and the checker is not installed")
