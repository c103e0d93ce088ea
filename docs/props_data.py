# Executed by props.py. One prop(...) per property, in order.
AI = "abstract interpretation of the type-checked program (clang AST facts)"

prop("C01", "sat/unsat verdicts are given only when justified",
     "A search answers 'unsat' only when a conflict was found while no decision was in effect, or an empty clause was derived; it answers 'sat' only when the last propagation found no conflict and no unassigned variable is left. "
     "Search never continues past an unhandled conflict, and only variables just selected as unassigned are decided.",
     ["inputs", "histories"], "every formula and every sequence of decisions, propagations, conflicts, backtracks and restarts of a search",
     "Tests run a few dozen formulas; a verdict given from the wrong state only shows on a search history that reaches that state.",
     ["src/Solver.cpp", "src/Solver.h"],
     [("search loop with its exits", "src/Solver.cpp check()"), ("conflict handling", "src/Solver.cpp analyze_conflicts, backtrack_with, propagate"), ("variable selection", "src/Solver.cpp pick_variable, decide")],
     "typestate over all paths of the search loop by " + AI,
     "All paths of the search loop, callees in context; dominance of each verdict by its justification. Assumes theories report every conflict they see and that resolution derives implied clauses (other properties).",
     state=[("decision level", "number of decisions in effect", "src/Trail.h"), ("conflict list", "clauses reported false by the last propagation", "src/Solver.cpp")],
     observe=["Solver::check result"])

prop("C02", "every conflict is analysed, learned from and resolved by one retraction",
     "When a propagation reports conflicts and search goes on, every reported clause is analysed, every clause kept from the analysis is stored and announced to all listeners as the stored object before any assignment is removed, and exactly one retraction (backtrack or restart) follows.",
     ["inputs", "histories"], "every conflict in every search history, with any number of conflict clauses and of derived clauses",
     "Multiple conflict clauses, ties between derived clauses and semantic splits occur only on particular arithmetic inputs.",
     ["src/Solver.cpp"],
     [("conflict handling", "src/Solver.cpp analyze_conflicts, learn, backtrack_with, restart")],
     "iteration-level typestate and loop coverage by " + AI,
     "Every path of the search loop; loops decided per generic element with coverage of the index range. Which derived clauses are kept is not decided.",
     observe=["learned clauses in the clause database", "learned-clause notifications"])

prop("C03", "retractions are announced in advance with the level they go to",
     "Every removal of assignments during a search is directly preceded by a notification to all listeners that carries the level to which assignments are then removed, with nothing assigned, stored or propagated in between. "
     "A full reset after a conflict is announced as level 0 and followed at once by the restart notification, which is sent at no other time (assignments left over from an earlier check are dropped, announced as level 0, before the first propagation); nothing outside the search loop removes assignments.",
     ["histories"], "every backtrack and restart of every search history",
     "A wrong level or order leaves stale theory state that matters only when a later propagation happens to use it.",
     ["src/Solver.cpp", "src/Trail.h", "src/Event_listener.h"],
     [("backtracking", "src/Solver.cpp backtrack, backtrack_with"), ("restart", "src/Solver.cpp restart, init")],
     "typestate plus who-may-call over the call graph by " + AI,
     "Levels are compared by value numbering; all call sites of the retracting operations in the program are accounted for.",
     observe=["on_before_backtrack / on_restart sequence seen by listeners"])

prop("C04", "every event reaches every registered listener exactly once",
     "Each event raised by the solver (variables resized, search started, clause learned, conflict derived, conflict resolved, before backtrack, restart) is forwarded unchanged, exactly once, to every registered theory, variable order, restart policy and clause simplifier, including through combined theories and combined orders. "
     "Replacing a component unregisters the old one and registers the new one.",
     ["configurations", "histories"], "every solver configuration (any number and combination of components) and every event",
     "Tests use fixed configurations and rarely observe that a component missed an event; lost events only degrade or corrupt later behaviour.",
     ["src/Event_listener.h", "src/Theory_combination.cpp", "src/Theory_combination.h", "src/variable_order/Combined_order.h", "src/Solver.cpp", "src/Solver.h"],
     [("dispatcher", "src/Event_listener.h Event_dispatcher"), ("combined theory", "src/Theory_combination.cpp"), ("combined order", "src/variable_order/Combined_order.h"), ("registration", "src/Solver.h set_* functions")],
     "iteration-level typestate over every listener container, found from the record layouts, by " + AI,
     "Decided per generic element and per event; loops of unrecognised shape are taken to cover the container.",
     observe=["handler calls on listeners"])

prop("C05", "the trail and its random-access views stay consistent",
     "After a decision, a propagation at a level, a backtrack to a level or a clear, every variable's recorded level, reason and model value agree with the list of assignments: a decision opens one new level with no reason; a propagation at a level is present in every level list from there to the current one; a backtrack to a level removes exactly the higher levels and unassigns exactly the variables recorded above it; a clear leaves one empty level and nothing assigned. Queries report the recorded data.",
     ["histories"], "every sequence of trail operations with valid arguments",
     "Out-of-order (late) propagations followed by partial backtracks are needed to see a disagreement; unit tests check a handful of sequences.",
     ["src/Trail.h"],
     [("decide/propagate/backtrack/clear", "src/Trail.h"), ("queries", "src/Trail.h decision_level, reason, empty, recent")],
     "per-operation specification over a symbolic trail by " + AI,
     "One symbolic execution-free analysis per operation over an arbitrary trail state; asserted preconditions are assumed.",
     state=[("level lists", "assignments per decision level", "src/Trail.h trail"), ("per-variable level/reason", "random-access view", "src/Trail.h var_level, var_reason")],
     observe=["decision_level(), reason(), model()"])

prop("C06", "every variable on the trail has a value, and the right one",
     "Whenever the solver or a theory puts a variable on the trail (as a decision or a propagation), exactly that variable is given a value in the trail's model of its type, and no other variable is. "
     "Only unassigned variables are propagated. The value given to the variable of a propagated or decided literal makes that literal true; the value given to the variable of an evaluated constraint agrees with the evaluation.",
     ["inputs", "histories"], "every decision and propagation made by the search loop, the Boolean, arithmetic and uninterpreted-function theories",
     "The trail and the models are separate structures written by separate calls; a path that writes one but not the other (or the wrong polarity) needs a specific history.",
     ["src/Solver.cpp", "src/bool/Bool_theory.cpp", "src/lra/Linear_arithmetic.cpp", "src/uf/Uninterpreted_functions.cpp"],
     [("search loop", "src/Solver.cpp backtrack_with"), ("Boolean theory", "src/bool/Bool_theory.cpp propagate, decide"), ("arithmetic", "src/lra/Linear_arithmetic.cpp propagate, propagate_unassigned, decide"), ("functions", "src/uf/Uninterpreted_functions.cpp assert_equality")],
     "pairing (typestate) analysis and polarity comparison over the literal encoding by " + AI,
     "Every function that touches trail or model, re-analysed in its callers when it is not balanced by itself. Values not computed from a literal or a constraint evaluation (cached phases, arithmetic values) are only paired, not judged.",
     observe=["trail().assigned(), model values"])

prop("C07", "search statistics count what happened",
     "When a search ends, the reported numbers of decisions, restarts, conflicts, analysed conflict clauses and learned clauses equal the number of times those things happened during that search; they start at zero for every search.",
     ["inputs", "histories"], "every search history, including repeated searches on one solver",
     "The counters are not covered by assertions for most histories; a missed or doubled increment shows only on the path that has it.",
     ["src/Solver.cpp", "src/Solver.h"],
     [("counters", "src/Solver.h num_* getters"), ("increments and reset", "src/Solver.cpp")],
     "balance automaton (event vs. counter increment) over all paths by " + AI,
     "The counter behind each getter is found by analysing the getter; all paths of the search loop.",
     observe=["num_decisions(), num_restarts(), num_conflicts(), num_conflict_clauses(), num_learned_clauses()"])

prop("C08", "combined propagation reaches a fixpoint and never drops a conflict",
     "Propagation of combined theories returns a component's conflicts at once and unchanged; it reports no conflict only after a full pass over all components in which nothing new was assigned. "
     "The window of new assignments a theory works through holds exactly the assignments of the current level it has not been shown yet; after a backtrack or a change of level it starts from the beginning of the level.",
     ["inputs", "histories"], "every combination of theories and every interleaving of propagations, decisions and backtracks",
     "A lost conflict or an assignment a theory never sees shows only when two theories feed each other in a particular order.",
     ["src/Theory_combination.cpp", "src/Theory.cpp", "src/Theory.h"],
     [("combined propagation", "src/Theory_combination.cpp propagate"), ("window", "src/Theory.cpp assigned, on_before_backtrack")],
     "typestate over the propagation loop and relational summary of the window by " + AI,
     "All paths of the combination loop with both outcomes of every component; window compared symbolically with its specification. That single theories reach their own fixpoint is not decided here.",
     state=[("window", "next unseen position and the level it is valid for", "src/Theory.h next_index, current_level")],
     observe=["conflicts returned by Theory_combination::propagate", "range returned by Theory::assigned"])

prop("C10", "rational arithmetic is exact",
     "Every arithmetic operation, rounding, comparison and conversion of the rational number class returns the mathematically exact result for every pair of operands (including operands that are the same object, values at the ends of the machine-word range and values that need big numbers), without signed overflow and without reaching abort().",
     ["inputs"], "every operand value in every representation, with every sign, aliased or not (division: nonzero divisor)",
     "The fast paths work in 32 and 64 bit arithmetic with hand-written overflow tests; a wrong guard or a missing widening shows only on a handful out of 2^128 operand pairs.",
     ["src/lra/Long_fraction.h", "src/lra/Long_fraction.cpp"],
     [("arithmetic", "src/lra/Long_fraction.h addition .. divisionAssign, inverse, negate"), ("comparison", "src/lra/Long_fraction.h compare, operator==, sign"), ("rounding", "src/lra/Long_fraction.h ceil, floor"), ("conversion", "src/lra/Long_fraction.h constructors, get_num, get_den")],
     "numeric abstract interpretation (rational functions of the operands with intervals, gcd facts and fixed-width wrap-around), per representation state, sign and aliasing",
     "Found by operator and method names. GMP functions are modelled by their documentation. The parsing of digit strings is modelled as exact. An obligation that cannot be derived is reported only together with operand values that follow the path and falsify it; else it is listed in the evidence. Not covered: get_d, print, hash, gcd/lcm of rationals and the divexact-style helpers.",
     observe=["results of operators and methods"])

prop("C11", "the two representations of a rational never disagree",
     "After every operation a rational holds a valid representation: the machine-word part, when marked valid, is in lowest terms with a positive denominator; the big-number part, when marked valid, is allocated, canonical and equal to the word part; a value that fits the machine word is never kept as a big number only; and every pooled big number is owned by exactly one object.",
     ["inputs", "histories"], "every operation started in every valid combination of representations, with every sign and aliasing",
     "A stale or shared big number is invisible until a later operation happens to read it.",
     ["src/lra/Long_fraction.h", "src/lra/Long_fraction.cpp"],
     [("state bits", "src/lra/Long_fraction.h State and set* functions"), ("pool", "src/lra/Long_fraction.h kill_mpq, ensure_mpq_memory_allocated"), ("copy/move", "src/lra/Long_fraction.h constructors and assignments")],
     "typestate and ownership over the representation bits, combined with the numeric abstract interpretation of C10",
     "The invariant is assumed on entry and derived on exit of every operation, so it holds for every history of these operations.",
     state=[("representation", "word part, big-number part, validity bits", "src/lra/Long_fraction.h state, num, den, mpq")],
     observe=["equality, hash and printing of later results"])
prop("C12", "every term is translated to clauses and constraints that define it",
     "When the assertions are internalized, the literal recorded for an arithmetic atom (>= 0, = 0, or equality of two terms) is true exactly when the atom is, also when the term handed over is negated; the clauses asserted for a disjunction or a real if-then-else are together equivalent to its definition, for any number of arguments; a real term becomes exactly the linear form it denotes; Boolean and real variables and function applications get one new variable of their type. "
     "Each term is recorded under its positive form, in the map of its type, and children are translated before their parent.",
     ["inputs"], "every term of every kind, polarity and arity",
     "A one-sided or misdirected definition changes answers only for formulas in which that side matters.",
     ["src/parser/Solver_wrapper.cpp", "src/terms/Term_visitor.h"],
     [("internalization", "src/parser/Solver_wrapper.cpp Internalizer_config::visit, internalize_poly"), ("traversal", "src/terms/Term_visitor.h visit")],
     "abstract interpretation per term kind with literals read as truth values; truth-table and sign-pattern comparison with the definition; generic-element treatment of argument loops",
     "Paths whose values are not recognised are not judged. Assumes the constraint factory is right (C15) and terms are as the builders build them.",
     state=[("maps", "term to literal and term to real variable", "src/parser/Solver_wrapper.h")],
     observe=["the clauses and constraints in the solver"])

prop("C13", "Boolean terms denote the connective they are built for",
     "For all truth values of the arguments, the term returned by the builders of conjunction, disjunction, implication, equivalence, exclusive or and Boolean if-then-else has the truth value of that connective, whatever simplification applies (constants, equal or complementary arguments, any number of arguments in any order); a constant never becomes an argument of a disjunction; a term handle and its negation encode the same term with opposite sign.",
     ["inputs"], "every combination of argument terms (constants, shared, complementary, negated) and every argument count",
     "Simplifications fire on argument coincidences; a wrong one changes the meaning of a formula silently.",
     ["src/terms/Term_manager.cpp", "src/terms/Terms.h"],
     [("builders", "src/terms/Term_manager.cpp mk_or, mk_and, mk_implies, mk_iff, mk_xor, mk_bool_ite, mk_binary_or, mk_binary_and"), ("handles", "src/terms/Terms.h opposite_term, positive_term, is_negated")],
     "abstract interpretation of each builder with symbolic arguments; truth tables of the returned term per path; loop invariant for n-ary builders",
     "All paths; recursion between builders is by contract. Assumes the term table builds the disjunction it is asked for.",
     state=[("term handle", "index and sign", "src/terms/Terms.h term_t")],
     observe=["the formula the solver works on", "sat/unsat answers"])
prop("C14", "arithmetic terms denote the operation or comparison they are built for",
     "For all values of the arguments, the term returned by the builders of sums, differences, negation, products, quotients and real if-then-else has the value of that operation, and the atom returned by the builders of =, <, <=, > and >= holds exactly when the comparison does, whatever simplification applies (constants, equal arguments, one- and two-monomial differences); an equality or if-then-else is built by the builder for its argument type; and a product is never built with coefficient one, so equal products are the same term.",
     ["inputs"], "every combination of argument terms, coefficients and argument counts",
     "Normalisation cases depend on how coefficients and variables of the arguments cancel.",
     ["src/terms/Term_manager.cpp"],
     [("comparisons", "src/terms/Term_manager.cpp mk_arithmetic_eq, mk_arithmetic_geq, direct_arithmetic_binary_equality"), ("operations", "src/terms/Term_manager.cpp mk_arithmetic_minus, mk_unary_minus, mk_arithmetic_plus, mk_arithmetic_times, mk_divides, mk_arithmetic_ite"), ("conversions", "src/terms/Term_manager.cpp term_to_poly, poly_to_term")],
     "abstract interpretation of each builder over symbolic linear forms; polynomial identity testing of the result per path; loop invariants for sums and products",
     "All paths whose facts determine the forms involved; others are counted as undecided in the evidence. Assumes exact rationals (C10) and that sparse polynomial operations act as their names say.",
     state=[("term table", "hash-consed terms", "src/terms/Terms.h")],
     observe=["the formula the solver works on", "sat/unsat answers"])


prop("C22", "operator symbols, applications and defined functions mean what the input says",
     "An application of a built-in symbol (and, or, not, =>, xor, =, distinct, ite, +, -, *, /, <, <=, >, >=) builds the term with the SMT-LIB meaning of that symbol for the given arguments in their order; distinct makes every pair of arguments different. An application of a declared function is the function symbol followed by all arguments in order, with the declared result sort. "
     "An application of a function introduced by define-fun is its body with every formal parameter replaced, simultaneously, by the argument of the same position: rewriting a term uses the rewritten form of each child with the polarity the child had, keeps the kind, the sort and the function symbol, and a term rebuilt from its kind and new arguments means what that kind means.",
     ["inputs"], "every symbol, every number of arguments, every term a function body can contain",
     "A swapped, dropped or negated argument changes the meaning of an input only for formulas that use that symbol in that way.",
     ["src/terms/Term_manager.cpp", "src/terms/Term_rewriter.h", "src/terms/Term_rewriter.cpp", "src/parser/Parser_context.cpp"],
     [("symbols", "src/terms/Term_manager.cpp mk_term, mk_app"), ("substitution", "src/parser/Parser_context.cpp resolve; src/terms/Term_rewriter.h Rewriter::rewrite, VarSubstituteConfig::rewrite")],
     "abstract interpretation of mk_term once per symbol and kind; the returned builder expression is compared with the SMT-LIB meaning over sample values; event analysis of one rewriting step per polarity of a generic child; formal/actual pairing and coverage of the substitution loop",
     "The named builders mean what they are called (C13, C14). Returned terms of unrecognised shape are not judged.",
     state=[("substitutions", "positive term to rewritten term", "src/terms/Term_rewriter.h")],
     observe=["the formula the solver works on", "sat/unsat answers"])

prop("C23", "names refer to what they are bound to",
     "A name in a term means its innermost enclosing local binding (let, parameter of define-fun); where there is none, the definition of that name; where there is none, the declared symbol. The bindings of one let are evaluated outside of it and take effect together, exactly for its body; when a scope ends, exactly the names of that scope are unbound and an outer binding of the same name, which was shadowed, is visible again with its own value. "
     "A declaration or definition records the name with its own sort, signature, parameters and body.",
     ["inputs"], "every nesting of lets and definitions, every reuse of a name",
     "Shadowing and scope errors show only when a name is reused at the right depth.",
     ["src/parser/Parser_context.h", "src/parser/Parser_context.cpp", "src/parser/Smt2_term_parser.cpp"],
     [("scopes", "src/parser/Parser_context.h Let_binder, Let_records"), ("lookup", "src/parser/Parser_context.cpp get_term_for_symbol, resolve, store_defined_fun, bind_vars"), ("let", "src/parser/Smt2_term_parser.cpp parse_term")],
     "abstract interpretation of each scope operation to its effect (values kept, restored, erased, limits pushed and popped) compared with the specification of scopes; precedence of lookup on every path; event analysis of each step of the two parsing loops",
     "Containers behave as documented. The lexer is generated code and not analysed.",
     state=[("scope stack", "names bound per open scope", "src/parser/Parser_context.h"), ("shadowed values", "stack per name", "src/parser/Parser_context.h")],
     observe=["the formula the solver works on", "sat/unsat answers"])

prop("C24", "commands do what the input says",
     "Every assert command adds exactly its term to the assertions, and no other command changes them; check-sat gives every assertion made so far to the solver, as the literal of that assertion with its polarity and after its definitions, runs one search, and prints the result of that search; terms defined during earlier checks keep their definitions. unsat is answered without a search only when false is asserted. "
     "A model is printed only after a sat answer, as one list, and gives every defined input variable its own value from the model of its type. define-fun scopes its parameters over exactly its body; declarations declare the symbol they name; each command consumes its closing parenthesis, and only exit or the end of the input stop the run.",
     ["inputs", "histories"], "every sequence of commands",
     "The order, repetition and combination of commands (several check-sat, assertions in between, get-model after unsat) is unbounded; the front end tests use single checks.",
     ["src/parser/Smt2_parser.cpp", "src/parser/Solver_wrapper.cpp"],
     [("commands", "src/parser/Smt2_parser.cpp Smt2_command_context"), ("check", "src/parser/Solver_wrapper.cpp check, model")],
     "path-sensitive event analysis of parse_command per command token, of the assertion and variable loops for a generic element of either polarity, and of the answer mapping; order of internalization, assertion and search on every path",
     "get_literal_for gives the literal of a term (C12). The text of errors and warnings is not judged.",
     state=[("assertions", "all terms asserted so far", "src/parser/Smt2_parser.cpp"), ("last_answer", "result of the last check", "src/parser/Smt2_parser.cpp"), ("variables", "input term to solver variable", "src/parser/Solver_wrapper.h")],
     observe=["standard output: answers and models"])

prop("C17", "Boolean propagation finds every unit and every false clause",
     "When Boolean propagation returns without a conflict, no asserted or learned clause is false under the assignment and none has exactly one literal that is not false while that literal is unassigned. Every literal it assigns is the only literal of its reason clause that is not false and is assigned at the current decision level; a returned conflict is a false clause of the database. "
     "This holds from any state reached by assignments, decisions, learned clauses and retractions: each clause stays watched at two literals, a watch moves only to a literal that is not false, new Boolean assignments are taken up once with the literal that is true, and everything is set up again when the trail is empty. A decision gives exactly the variable asked for the value of the configured phase; the remembered phase of a variable is the value it had when it was retracted.",
     ["inputs", "histories"], "every clause set, every sequence of decisions, propagations, learned clauses and retractions",
     "Which watches are visited, replaced or missed depends on the whole history of assignments and swaps inside clauses.",
     ["src/bool/Bool_theory.cpp", "src/bool/Bool_theory.h"],
     [("scan", "src/bool/Bool_theory.cpp falsified, replace_second_watch"), ("set-up", "src/bool/Bool_theory.cpp initialize, on_learned_clause"), ("propagation", "src/bool/Bool_theory.cpp propagate"), ("decisions", "src/bool/Bool_theory.cpp decide, on_before_backtrack")],
     "abstract interpretation of one generic step of the watch-list scan with symbolic literals and three-valued literal facts; event analysis of set-up, propagation loop and decisions per path and per loop iteration",
     "Two watches per clause as the way to find units; implementations that scan without watch lists are only checked for what they propagate and report. Assumes the trail (C05, C06) and the reading position (C08).",
     state=[("watch lists", "literal to watched clauses", "src/bool/Bool_theory.h"), ("stack", "true literals with reasons", "src/bool/Bool_theory.h")],
     observe=["assignments on the trail", "conflict clauses"])


prop("C18", "conflict analysis derives its clause by resolution and reports the right level",
     "The clause returned for a conflict is obtained from the conflict clause by resolution steps only: each step removes a literal that is false under the assignment and was propagated at the highest level of the clause, and adds every other literal of the reason recorded for it; every reason used is reported exactly once. The analysis goes through the assignments of the highest level from the last to the first and stops early only when exactly one literal of that level is left. "
     "The returned literals are ordered by decision level, highest first; the returned level is -1 for an empty clause, 0 for a unit clause, the level of the second literal when one literal is at the highest level, and the level below the highest when several are. Nothing is left over from one analysis to the next.",
     ["inputs", "histories"], "every trail and every conflict clause that is false in it",
     "Wrong counts, duplicates and late propagations below the top level occur only in particular implication graphs, and a wrong clause or level shows only later in the search.",
     ["src/Conflict_analysis.cpp", "src/Conflict_analysis.h"],
     [("analysis", "src/Conflict_analysis.h analyze; src/Conflict_analysis.cpp init, resolve, finish")],
     "abstract interpretation of one generic resolution step over a symbolic literal set; comparison of the counter with the insertions and removals of each path; result level against the facts of the path; sort and count predicates evaluated on symbolic literals",
     "Assumes reasons whose other literals are false (C17) and the recorded levels (C05).",
     state=[("conflict", "literals of the clause being derived and the number at its top level", "src/Conflict_analysis.h")],
     observe=["learned clauses", "level of the retraction"])


prop("C15", "a linear constraint is the one that was asked for",
     "The literal and terms returned for a linear constraint mean exactly the constraint asked for: coefficients and right-hand side are multiplied by one nonzero constant, a negative one turns < and <= around and negates the literal, terms with coefficient zero are left out, and a constraint without variables is 0 = 0 or its negation according to its value. The constant depends only on the smallest variable, so that a constraint, a multiple of it and its negation share one variable; two constraints share a literal only if predicate, right-hand side and every coefficient are the same. "
     "A constraint is true in a model exactly when its comparison holds for the sum of coefficient times value, or does not hold if its literal is negated; it has no value while a variable is unassigned; the value implied by a unit constraint leaves out exactly its first variable. The constraint of a Boolean variable is stored at the place of that variable and found there, also after a duplicate was removed again.",
     ["inputs", "histories"], "every list of terms, every sequence of constraints made",
     "Whether two constraints collide, are normalized to each other or are stored twice depends on the terms and on everything made before.",
     ["src/lra/Linear_constraints.h", "src/lra/Linear_constraint.h"],
     [("store", "src/lra/Linear_constraints.h make, add, find_norm_constant, norm_pred, operator[]"), ("constraint", "src/lra/Linear_constraint.h Order_predicate, Linear_constraint, eval, Linear_constraint_equal, Linear_constraint_hash")],
     "abstract interpretation of every operation on symbolic constraints: sums taken apart into the products each iteration adds, comparisons as masks over less/equal/greater, polarity as a path fact; the constraint made compared per path with the one asked for",
     "Assumes that no variable occurs twice in the terms given (C13) and that containers behave as documented.",
     state=[("constraints", "Boolean variable to constraint", "src/lra/Linear_constraints.h"), ("terms", "variables and coefficients of all constraints, one after the other", "src/lra/Linear_constraints.h")],
     observe=["literals of linear constraints", "values of constraints in models"])


prop("C16", "bounds of rational variables follow from the constraints they name",
     "A unit constraint on the trail gives exactly the bounds (or the disallowed value) it implies for its unassigned variable, with the value divided by the coefficient and the direction turned by a negative coefficient or a negated literal; a bound is strict when a constraint it follows from is. A bound deduced from a constraint with several unassigned variables uses, for each variable but one, its value or the bound that points the right way, records every bound used, and never depends on its own constraint. "
     "A bound is handed out only while its constraint, the values and the bounds it was computed from are as they were; the tightest bound that still holds is the one reported, and a value is allowed exactly when it satisfies both bounds and all disequalities. A constraint is reported as implied only if it holds for all values within the bounds. Every variable whose bounds change is listed for the conflict check.",
     ["inputs", "histories"], "every constraint, every sequence of assignments and retractions",
     "Bounds are removed lazily: whether a stale one is used depends on the order in which constraints and values were retracted and assigned again.",
     ["src/lra/Bounds.cpp", "src/lra/Bounds.h", "src/lra/Variable_bounds.h"],
     [("deduction", "src/lra/Bounds.cpp update, deduce, deduce_from_equality, deduce_from_inequality, is_implied"), ("bounds", "src/lra/Variable_bounds.h Variable_bounds, Implied_value")],
     "abstract interpretation of each operation for a generic variable of a symbolic constraint, as linear forms with the sign of the coefficient, the polarity of the literal and the predicate as path facts; each path's bound, direction, reason and dependencies compared with the implied one",
     "Which bounds are deduced (the limit on the number of dependencies) is a heuristic and not judged. Assumes the time stamps of Model and the constraint's own operations.",
     state=[("bounds", "stack of upper and of lower bounds and list of disallowed values per variable", "src/lra/Variable_bounds.h")],
     observe=["values given to rational variables", "bound conflicts"])


prop("C19", "conflicts of linear constraints follow from the constraints they name",
     "A constraint derived by eliminating a variable from two others (Fm_elimination) is the sum of the two multiplied by factors that cancel the variable, the same for coefficients and constant; an inequality is only multiplied by a positive factor, and the result is strict when one of them is and an equality when both are. The negation of a constraint is used with turned sign and strictness. Terms of one variable are added up and those with coefficient zero are left out. "
     "A conflict is reported when the bounds of a variable leave no value (a lower bound above the upper one, or equal ones of which one is strict) or only an excluded value, and only then. The conflict clause has the negated literal of the constraint behind every bound that was eliminated, of the disequality, and the literal of the derived constraint unless that has no variables; all unassigned variables a bound depends on are eliminated, each with its own bound; a disequality is resolved with the lower bound as an upper bound and with the upper bound as a lower bound, both strict.",
     ["inputs", "histories"], "every pair of constraints, every conflict",
     "Which constraints are resolved, with which signs and how deep bounds depend on each other varies with the search; a wrong clause shows up as a wrong answer far away.",
     ["src/lra/Lra_conflict_analysis.cpp", "src/lra/Lra_conflict_analysis.h"],
     [("elimination", "src/lra/Lra_conflict_analysis.cpp Fm_elimination, Lra_conflict_analysis::eliminate"), ("merging", "src/lra/Lra_conflict_analysis.h Linear_polynomial::normalize"), ("conflicts", "src/lra/Lra_conflict_analysis.cpp Bound_conflict_analysis, Inequality_conflict_analysis")],
     "abstract interpretation of every operation on symbolic polynomials, constraints and bounds; the factors of a resolution step on each path are compared as rational functions of the two coefficients, strictness by enumeration of the predicates possible on the path; for the analyses, the events of each path are compared with the facts known on it",
     "Assumes that the bounds resolved bound the variable from opposite sides unless one is an equality (C16) and that constraints mean what was asked for (C15).",
     state=[("derived polynomial", "terms, constant and predicate of one elimination", "src/lra/Lra_conflict_analysis.h")],
     observe=["conflict clauses of the arithmetic theory", "derived constraints"])


prop("C20", "the arithmetic theory looks at every assignment and gives variables values within their bounds",
     "Every assignment of a rational variable and of a Boolean variable that stands for a linear constraint is handled once by the theory: a constraint assigned on the trail with one unassigned variable left changes the bounds of that variable; one whose variables are all assigned while its literal is not is put on the trail with the value the assignment gives it, at the highest level of its variables and without a reason. A constraint is watched by two unassigned variables as long as it has them: a watch moves only to an unassigned variable, the search for one looks at every variable of the constraint, coefficients follow their variables, and a constraint leaves a watch list only when it enters another one. "
     "After each propagation all variables whose bounds have changed are checked for both kinds of conflicts and every conflict found is returned. A decided value is within the bounds of the variable; a search for integers returns only values within the bounds and gives up only between two bounds. A new constraint gets a Boolean variable and is watched by its first two variables, the unassigned ones first.",
     ["inputs", "schedules", "histories"], "every assignment, constraint and decision, with conflicts returned completely (the default)",
     "Which variables of a constraint are assigned, in which order, and what was cached from earlier decisions varies with the whole history of the search; a constraint lost from a watch list is noticed only if it would have been violated.",
     ["src/lra/Linear_arithmetic.cpp", "src/lra/Linear_arithmetic.h"],
     [("watches", "src/lra/Linear_arithmetic.cpp replace_watch, watch"), ("propagation", "src/lra/Linear_arithmetic.cpp propagate, unit, finish"), ("decisions", "src/lra/Linear_arithmetic.cpp decide, find_integer"), ("creation", "src/lra/Linear_arithmetic.h constraint")],
     "abstract interpretation of the functions of the theory on symbolic constraints and assignments: on every path and in every loop iteration the events (watch moves, swaps, bounds updated, propagations, checks, decisions) are compared with what the facts known on the path (assigned, unit, allowed, sizes) require; steps of the value search are evaluated as rational functions",
     "Propagation of bounds and of unassigned constraints (options that are off by default) is not covered. Termination of the value search is not claimed beyond its direction.",
     state=[("watch lists", "constraints by the variables watching them", "src/lra/Linear_arithmetic.h"), ("bounds to check", "variables whose bounds have changed", "src/lra/Linear_arithmetic.h")],
     observe=["decided values", "propagated literals", "conflicts returned"])


prop("C21", "uninterpreted functions are functions",
     "Whenever all arguments of two applications of the same function and the applications themselves have values, equal argument values imply equal results, or a conflict is reported. Every application waits for its own variable and the variables of all its arguments; every assignment of a level is compared with what applications wait for, the variable an application waits for is unassigned as long as one of its variables is, and an application is evaluated once none is. Terms have the value of their variable (negated for negated terms) or the one computed from their parts, at the highest level of the variables they depend on. "
     "Applications are compared by the values of all arguments; the first with given values is stored with its value and level and forgotten exactly when the search backtracks below that level; a later one with a different value is a conflict, and nothing else is. The conflict clause compares all arguments and both applications, each literal says that the two terms are equal (or different), is false, and is on the trail at the highest level of its variables. The model of a function has the values of all its applications.",
     ["inputs", "schedules", "histories"], "every set of applications, argument terms of all supported kinds, every order of assignments and backtracking",
     "Which applications collide depends on the values the search happens to give to their arguments; a missed collision is a wrong sat answer only for formulas whose other constraints do not exclude it.",
     ["src/uf/Uninterpreted_functions.cpp", "src/uf/Uninterpreted_functions.h"],
     [("applications waiting for variables", "src/uf/Uninterpreted_functions.cpp propagate, on_assign, register_application_term"), ("values of terms", "src/uf/Uninterpreted_functions.cpp evaluate, term_to_poly"), ("conflicts", "src/uf/Uninterpreted_functions.cpp add_function_value, assert_equality"), ("backtracking", "src/uf/Uninterpreted_functions.cpp on_before_backtrack")],
     "abstract interpretation of the functions of the theory on symbolic terms, with all outcomes of lookups: on every path and in every loop iteration the values, levels, polynomials, stored applications and literals are compared with those required for the kind of term and the facts known on the path",
     "Boolean argument terms that have no literal, which the front end does not produce, are not covered.",
     state=[("applications", "stored applications by function and argument values", "src/uf/Uninterpreted_functions.h"), ("watch lists", "applications waiting for variables", "src/uf/Uninterpreted_functions.h")],
     observe=["conflict clauses returned", "function tables of the model"])


prop("C25", "simplification keeps the meaning of learned clauses",
     "A learned clause is removed on a restart only if another learned clause that stays (or was removed in favour of one that stays) is included in it; a literal is removed from a new clause only if it is false and the reason of its negation has, apart from that negation, only literals of the clause. Inclusion is answered positively only when every literal of the first clause was found among those of the second, whatever sets were computed before, and negatively only when a literal is missing, the first clause is too long, or its signature has a bit the other does not have. "
     "On each restart new clauses are compared with all learned clauses in both directions through an index that lists every clause of its range under each of its literals; only removed clauses are erased, asserted clauses are never changed, and the clauses left count as old the next time.",
     ["inputs", "histories"], "every set of learned clauses, every trail, every sequence of restarts",
     "A clause removed or shortened without being implied makes later answers wrong only when the search depends on it; signatures collide only for particular variable numbers, and leftovers of earlier tests matter only for particular sequences of clauses.",
     ["src/Subsumption.cpp", "src/Subsumption.h"],
     [("inclusion tests", "src/Subsumption.cpp subsumes, selfsubsumes"), ("minimisation", "src/Subsumption.cpp minimize"), ("restart", "src/Subsumption.cpp remove_subsumed, index"), ("signatures", "src/Subsumption.h make_proxy")],
     "abstract interpretation with generic clauses: every positive answer of an inclusion test, every removal of a literal or clause and every answer no is compared with the facts known on its path; loops are checked for covering their ranges; ranges of the index and of the queries are combined to the pairs of old and new clauses compared",
     "Termination and the cost of simplification are not covered; equal clauses may both stay.",
     state=[("index", "learned clauses by literal", "src/Subsumption.h"), ("old clauses", "number of clauses compared on the last restart", "src/Subsumption.h")],
     observe=["learned clauses after a restart", "literals of learned clauses"])

prop("C26", "the search can pick every unassigned variable",
     "A variable order picks only unassigned variables, and picks none only when all its variables are assigned. The VSIDS order drops a variable from its queue only while it is assigned, queues each new variable once, and before a backtrack queues again every variable assigned at an undone level that is not queued, so that no unassigned variable is ever missing; the exhaustive orders visit all variables. "
     "A variable is pushed to a queue only if it is not there. A combination of orders forwards every event to all of them, and picks nothing only if none of them picks.",
     ["histories", "inputs"], "every sequence of decisions, propagations, conflicts and backtracks",
     "An unassigned variable missing from the queue makes the search answer sat with a partial model; that takes particular scores and backjumps, which tests of a few steps do not reach.",
     ["src/variable_order"],
     [("picking", "src/variable_order/Generalized_vsids.cpp pick, Evsids.cpp pick, First_unassigned.cpp pick"), ("backtracking", "src/variable_order/Generalized_vsids.cpp on_before_backtrack"), ("new variables", "src/variable_order/Generalized_vsids.cpp on_variable_resize"), ("combination", "src/variable_order/Combined_order.h")],
     "abstract interpretation with symbolic queues and trails: every returned variable, every answer none, every removal from and insertion to a queue is compared with the facts known on its path; loops are checked for covering their ranges",
     "That the priority queue returns the variable with the highest score is not covered, only which variables it has.",
     state=[("queues", "variables waiting to be picked", "src/variable_order/Generalized_vsids.h")],
     observe=["variables returned by pick"])


prop("N01", "answers are sound and complete for every supported input",
     "For every supported input the printed sat/unsat answer is the true status of the formula, and every printed model satisfies it.",
     ["inputs"], "all formulas of the supported logics",
     "An unbounded input space.",
     ["src"], [("whole solver", "src")], na="Whole-system soundness and completeness quantifies over runtime values (models, polynomials, implication of derived clauses) across unbounded loops; the structural clauses of it that static analysis can decide are separate properties here, the behaviour as a whole is not decidable by a sound static argument in reach.")
prop("N02", "the search terminates",
     "Every search started on a supported input finishes with an answer.",
     ["inputs", "schedules"], "all formulas, all restart and ordering policies",
     "Non-termination cannot be observed by a finite test.",
     ["src/Solver.cpp", "src/lra/Linear_arithmetic.cpp"], [("search loop", "src/Solver.cpp check()")], na="Termination of MCSAT search rests on a global ranking argument over learned clauses and finite bases of derived constraints (Fourier-Motzkin elimination); no static termination argument in reach covers it.")
