prop("C01", "A state behaves as a mathematical set of ground propositions",
     "A set of ground propositions contains exactly what was inserted and not erased since: inserting or erasing reports whether the set changed, the "
     "size and emptiness reported count the distinct members, and membership holds exactly for the members. Iterating visits every member exactly "
     "once, and construction from a range, list or set keeps exactly the given members. Growing, shrinking and rehashing never lose, duplicate or "
     "misplace a member.",
     ["histories", "inputs"],
     "Every sequence of insertions, erasures, constructions and iterations, over any propositions, including colliding hashes and any size.",
     "No existing test touches states; a test samples a few histories, while losing or duplicating an element depends on hash collisions and on the exact "
     "size at which the table grows or shrinks.",
     ["include/symbolic/utils/hash_set.h", "include/symbolic/utils/unique_vector.h", "include/symbolic/state.h", "src/state.cc"],
     [("hashed buckets, resized by the number of members", "include/symbolic/utils/hash_set.h"),
      ("sorted duplicate-free bucket", "include/symbolic/utils/unique_vector.h"), ("state forwarding operations", "src/state.cc")],
     "path-summary dataflow compared with set-operation decision tables",
     "Quantifies over all values and sizes because values stay symbolic and loops are checked by induction.")

prop("C02", "Equality and hash of a state do not depend on how it was built",
     "Two states are equal exactly when they hold the same propositions, whatever sequence of insertions, erasures or constructions built them, and "
     "inequality is the negation of equality. Equal states have equal hashes, and iterating them yields the same order.",
     ["histories"], "Every pair of histories leading to the same set of members, in particular different orders, peaks of size, erasures and colliding hashes.",
     "Equality compares internal layout, so it depends on the layout being a function of the members alone; that quantifies over pairs of histories. "
     "No test compares states.",
     ["include/symbolic/utils/hash_set.h", "include/symbolic/utils/unique_vector.h", "include/symbolic/state.h"],
     [("table size kept a function of the number of members", "include/symbolic/utils/hash_set.h"),
      ("sorted bucket order", "include/symbolic/utils/unique_vector.h"), ("state hash over the iteration", "include/symbolic/state.h")],
     "inductive layout-invariant proof over symbolic path summaries",
     "Relies on C01's placement rules and C04's order being a strict weak order.")

prop("C05", "A partial state keeps true, false and unknown propositions consistent",
     "In a partial state a proposition is known true, known false or unknown, never both true and false: making it true or false removes the opposite "
     "knowledge and leaves every other proposition alone. The reported result says whether the knowledge changed, and asking for the truth of an unknown "
     "proposition is signalled as an exception that keeps that proposition, where a definite answer is required.",
     ["histories", "inputs"], "Every sequence of operations on a partial state, for every prior knowledge about the proposition.",
     "Depends on every interleaving of positive and negative updates; the existing tests never build a partial state.",
     ["include/symbolic/state.h", "src/state.cc"],
     [("positive and negative sets updated together", "src/state.cc"), ("unknown evaluation exception", "include/symbolic/state.h")],
     "exhaustive evaluation of path summaries over the membership lattice")

prop("C07", "Formulas are true exactly when PDDL says so, also under partial knowledge",
     "A formula evaluates to true on a state exactly when it holds by the semantics of PDDL: propositions by membership, equality and type tests by the objects, "
     "conjunctions, disjunctions and negations by their parts, and quantifiers over all objects of the quantified types, where inner variables hide outer ones and constants stand for themselves. "
     "On a partial state it is true or false only if it is so in every completion of the state, and is otherwise unknown.",
     ["inputs"],
     "Every formula of every depth and nesting, every arguments, state and partial state.",
     "Formulas nest without bound and the existing tests never evaluate one; a wrong binding or fold shows only for particular shapes and objects.",
     ["src/formula.cc", "include/symbolic/formula.h"],
     [("evaluation functions per kind of goal", "src/formula.cc"), ("binding of variables to arguments", "src/formula.cc"), ("evaluation under partial knowledge", "src/formula.cc")],
     "structural induction over goals; per-kind path summaries compared with PDDL meanings, folds as product automata",
     "A partial state's answer may be unknown although every completion agrees; it is never wrong. What a state contains is C01 and C05.")

prop("C08", "Applying an action changes a state exactly as its PDDL effects say",
     "Applying an action leaves the given state as it was and returns it with the action's effects: added and deleted propositions bound to the arguments, conditional effects exactly "
     "when their condition is true (an unknown one has no effect), and quantified effects for all objects; effects do not see each other's changes, and additions win over deletions. Contradictory equality or type effects are signalled, axioms of a proposition are applied when it changes, "
     "and whether anything changed is reported. A call is parsed exactly when it has the action's name and as many arguments of the right types as parameters; preconditions are the operator's.",
     ["inputs"],
     "Every action with effects of every nesting, every arguments, state and partial state.",
     "Effects nest without bound and no existing test applies an action; wrong bindings, lost status or missed axioms show only for particular operators.",
     ["src/action.cc", "include/symbolic/action.h"],
     [("application functions per kind of effect", "src/action.cc"), ("state returned by an application", "include/symbolic/action.h"), ("parsing of action calls", "src/action.cc")],
     "structural induction over effects; per-kind path summaries and loop recognition compared with PDDL meanings",
     "That effects see each other's changes in places is a recorded finding. Formulas are C07, axioms themselves C17.")

prop("C09", "The planning interface computes what actions, axioms and goals define",
     "The next state of an action call, and the state after a sequence of calls, are the states the actions produce one after another with the derived predicates recomputed after every action; the initial state has its derived predicates. "
     "An action call is valid exactly when its precondition holds; a transition is valid exactly when moreover its result is the given next state; a plan is valid exactly when every call is valid in the state it is reached in and the goal holds at the end. "
     "A state is valid exactly when every axiom is consistent with it, making it consistent applies the axioms until none changes anything, and the lists of valid arguments and valid actions are complete, in order, and contain nothing else, also for states and calls given as text.",
     ["inputs", "histories"],
     "Every state, sequence of action calls of any length (including none), domain, and set of axioms and derived predicates.",
     "The tests check a handful of plans; an omitted recomputation or an early stop shows only for particular lengths, states and axiom chains.",
     ["src/pddl.cc", "include/symbolic/pddl.h"],
     [("state progression and plan validation", "src/pddl.cc"), ("axiom fixed point", "src/pddl.cc"), ("listing of valid actions", "src/pddl.cc")],
     "term comparison over opaque actions, formulas and axioms; loops by induction, lists as comprehension normal forms",
     "What actions, formulas and axioms mean is C07, C08 and C17; the fixed point is not claimed to be reached in bounded time.")

prop("C12", "A combination generator is a faithful random-access Cartesian product",
     "For any list of option lists, the generator's size is the product of the list lengths and position n holds the combination whose digits are n in mixed "
     "radix, so every combination occurs exactly once (no lists have exactly the empty combination, a default generator none). All iterator operations (steps and jumps in either direction, differences, comparisons, reversal, "
     "end) agree with that numbering, random access outside the range is signalled, and searching a combination returns its position, or is signalled "
     "exactly when it is not in the product.",
     ["inputs", "histories"], "Every shape and content of option lists (including single options), every position and every sequence of iterator operations.",
     "The existing tests walk one small generator; carries, group boundaries and jumps across the range ends depend on the shape.",
     ["include/symbolic/utils/combination_generator.h"],
     [("mixed-radix iterator", "include/symbolic/utils/combination_generator.h"), ("inverse lookup", "include/symbolic/utils/combination_generator.h")],
     "inductive iterator invariant over symbolic path summaries",
     "Sizes beyond the range of int are outside the claim.")

prop("C13", "Actions and predicates enumerate exactly their type-correct parameter tuples",
     "The parameter generator of an action or predicate enumerates exactly the tuples that give each parameter, in declaration order, an object recorded for its type: "
     "the single empty tuple without parameters, and nothing when some parameter's type has no objects. Every copy, move and assignment enumerates the same tuples as its source, "
     "independently of what happens to the source afterwards, and remembers the same Pddl.",
     ["inputs", "histories"],
     "Every list of parameters, every object map (including types without objects), and every sequence of copies, moves and assignments.",
     "The generator points into its own storage, so copies dangle or go stale only in particular orders of copying and destruction; no test builds one.",
     ["include/symbolic/utils/parameter_generator.h", "src/utils/parameter_generator.cc"],
     [("option lists from parameter types", "src/utils/parameter_generator.cc"), ("copies point to their own lists", "src/utils/parameter_generator.cc")],
     "path summaries: provenance of the stored lists and of the pointers enumerated",
     "The enumeration itself is C12; which objects a type's list holds is C16.")

prop("C14", "The state index numbers all ground propositions without gaps or clashes",
     "Numbering ground propositions and looking them up by number are inverse to each other: each predicate owns a contiguous block whose length is its number of "
     "ground propositions, blocks follow one another from zero, and the total is the index's size. The answer does not depend on what was asked before, nor on caching being "
     "used. Converting a state to its indicator vector and back marks exactly its members, and the index's iterators walk the numbers in order.",
     ["inputs", "histories"], "Every list of predicates, every number and proposition, every prior history of queries, caching on or off.",
     "Block borders and cache hits depend on the sequence of queries and on the predicates' sizes; the existing tests never build an index.",
     ["include/symbolic/state.h", "src/state.cc"],
     [("block offsets", "src/state.cc"), ("query caches", "src/state.cc"), ("index iterators", "include/symbolic/state.h")],
     "path-summary dataflow compared with numbering equations")

prop("C03", "Equal propositions and objects have equal hashes, however represented",
     "A proposition's hash is one and the same function of its predicate name and arguments, whether it owns its data, refers to someone else's, carries "
     "a sign, was parsed from text, built from parts, copied, moved or default-constructed; the standard hash of every such form returns that value. Equality of two "
     "propositions, in any form, is exactly equality of name and arguments, and an object's hash is a function of its name alone, so equal ones hash equally.",
     ["inputs"], "Every name, every argument list and every pair of representations of the same proposition.",
     "A mismatch only shows when a set filled through one representation is queried through another; no test builds propositions.",
     ["include/symbolic/proposition.h", "src/proposition.cc", "include/symbolic/object.h", "src/object.cc", "src/formula.cc", "src/action.cc"],
     [("hash folded over name and arguments", "src/proposition.cc"), ("precomputed hash in each constructor", "include/symbolic/proposition.h"),
      ("lightweight references used in conditions and effects", "src/formula.cc")],
     "hash-fold canonicalisation and agreement over path summaries")

prop("C04", "Comparison operators are consistent equivalences and strict total orders",
     "For objects, types, propositions, actions, states, partial states and search nodes, equality holds exactly when the identifying parts are equal (an action or type by its "
     "name; a node by its state alone), inequality is its negation, and less-than is irreflexive, asymmetric, transitive and relates any two values that are not equal.",
     ["inputs"], "Every pair and triple of values of the compared classes, with every combination of equal, smaller and greater components.",
     "Sorted and hashed containers silently misplace elements when an order is not strict or disagrees with equality; only specific triples expose it.",
     ["include/symbolic/object.h", "include/symbolic/proposition.h", "include/symbolic/action.h", "include/symbolic/state.h", "src/state.cc",
      "include/symbolic/planning/planner.h", "src/planning/planner.cc"],
     [("lexicographic comparisons", "include/symbolic/proposition.h"), ("node comparison by state", "src/planning/planner.cc")],
     "exhaustive tabulation of comparison summaries over component orders")

prop("C15", "Objects carry the names and types the domain declares",
     "An object is a subtype of exactly its declared type, every ancestor of that type, and the default type object; the list of its types holds these in order from its own type upwards and ends with object. "
     "An object without a declared type has the hierarchy's root named object as its type where one is declared, and the default type otherwise; types are equal, and ordered, by name. "
     "Looking an object up by name yields the domain constant or problem object of that name with its declared type, and a name that is not declared is refused; lists of objects keep the declared order and length.",
     ["inputs"],
     "Every type hierarchy (any depth, with or without a root named object), missing or empty type, constant and object tables, and every name.",
     "The tests use one two-level hierarchy; deep hierarchies, untyped objects and missing tables are never built.",
     ["src/object.cc", "include/symbolic/object.h"],
     [("type hierarchy walk", "src/object.cc"), ("objects from symbols and names", "src/object.cc"), ("lists of objects", "include/symbolic/object.h")],
     "abstract interpretation of path summaries over opaque names, type chains and short symbol tables",
     "Hierarchies up to three levels and tables up to three entries stand for all sizes; each loop treats one link or entry per round. A name declared twice is outside the claim.")

prop("C16", "A loaded model holds exactly what the domain and problem declare",
     "After loading, the constants are the domain's, the objects are these followed by the problem's, each type (and each of its ancestors) lists exactly its objects, and actions, predicates, derived predicates and axioms are "
     "the declared ones of their kind in declared order, each axiom found under the sign and name of its context; this holds for a domain loaded alone, too. The initial state is the declared facts, made consistent with the axioms if asked for, "
     "then closed under the derived predicates, and the goal is the problem's. Problem text that ends with a closing parenthesis, whatever blanks follow, is parsed itself and any other text names a file; a domain or problem that cannot be parsed is refused with an exception.",
     ["inputs"], "Every domain and problem: any mix and order of operators, missing or empty tables, any number of objects, facts and axioms, with axioms applied or not.",
     "The parts are built in an order that matters (axioms and actions read the object and axiom tables while these are filled), which one sample domain without axioms or constants cannot show.",
     ["src/pddl.cc", "include/symbolic/pddl.h"],
     [("model constructors and the order of their steps", "src/pddl.cc"), ("objects of each type", "src/pddl.cc"), ("axioms and their contexts", "src/pddl.cc"),
      ("initial state and problem source", "src/pddl.cc"), ("member order", "include/symbolic/pddl.h")],
     "abstract interpretation of path summaries over small parsed domains; parts built from the model are checked against what it held then",
     "Tables of up to seven entries stand for all sizes; each loop treats one entry per round. What the parser makes of the text is not claimed.")

prop("C18", "Normal forms are equivalent to the formulas and effects they came from",
     "The disjunctive normal form of a goal, precondition or set of effects is true in exactly the states in which the formula is true for those arguments, or (for effects) in which every literal the effects set holds and "
     "every conditional effect whose condition holds has its own effects hold; negating a normal form yields one true exactly where it was false. No result stands for false and an empty one for true; otherwise it lists "
     "conjunctions in strict order, none contradicting itself (nor the axioms, when they are asked for) and none made redundant by another. Normalising an action's conditions or the goal converts exactly these parts, closing each conjunction under "
     "the axioms when asked to, and conditions one of which is false have no result.",
     ["inputs"], "Every goal formula, every set of effects, every clause list, every argument list.",
     "Distribution, absorption and the constants true and false interact; only nested formulas with constant or redundant parts expose mistakes, and no test normalises anything.",
     ["src/normal_form.cc", "include/symbolic/normal_form.h"],
     [("conjunction, disjunction and simplification", "src/normal_form.cc"), ("conversion of goals", "src/normal_form.cc"), ("conversion of effects", "src/normal_form.cc"),
      ("negation by clauses", "src/normal_form.cc"), ("normalised conditions and goal", "src/normal_form.cc")],
     "abstract interpretation of path summaries over small normal forms, compared by truth table",
     "Up to four parts of up to three conjunctions over eight literals stand for all; parts are taken as C18 itself requires. Effects that contradict their own true condition are not covered (they are refused with an exception).")

prop("C17", "Axioms and derived predicates mean their implications and rules",
     "A state satisfies an axiom exactly when for all objects of its parameters' types whose context holds, applying the implication changes nothing; applying the axiom to a complete or "
     "partial state applies its implication for exactly those objects and reports whether (and how strongly) the state changed. A partial state satisfies one or all axioms exactly when what "
     "repeatedly follows from known contexts is never contradicted, and each derived predicate ends up holding exactly where its rule does, repeated until nothing changes. An effect matching an axiom's context "
     "applies the axiom to the arguments that unify the two, and to none if they do not.",
     ["inputs"], "Every axiom and derived predicate, every complete or partial state, every number of rounds and every matching of effect and context.",
     "What follows in the third round, or for the last of several arguments, never occurs in samples; no test has axioms or derived predicates.",
     ["src/axiom.cc", "src/derived_predicate.cc", "include/symbolic/axiom.h", "include/symbolic/derived_predicate.h"],
     [("one sweep over an axiom's arguments", "src/axiom.cc"), ("sweeps until nothing changes", "src/axiom.cc"), ("unification of effect and context", "src/axiom.cc"),
      ("derived predicates until nothing changes", "src/derived_predicate.cc")],
     "tabulation of loop-step summaries; fixpoint loops explored as automata over their flags",
     "Effects and formulas are opaque here (C07, C08); that rounds end at all is not claimed. Known finding: parameters a context does not mention.")

prop("C10", "A search node's children are exactly its valid, not yet visited successors",
     "Iterating over a search node visits, in order of actions and then parameters, every action and type-correct parameter tuple whose precondition holds in the node's state and "
     "whose resulting state differs from the node's and all its ancestors' states, and nothing else. Each child holds the state the action produces with the derived predicates "
     "computed, the matching action call and a depth one greater than its parent's; iterating backwards visits the same children in reverse. A planner's root is the given state made consistent and then completed by the derived predicates, "
     "and a node is a goal exactly when the goal condition holds in its state.",
     ["inputs", "histories"],
     "Every domain (including no actions, or actions without possible parameters), every node reached by every path, and every position of the iteration.",
     "Which children are skipped depends on the whole ancestor chain and on where valid actions lie in the enumeration; no test runs the planner.",
     ["include/symbolic/planning/planner.h", "src/planning/planner.cc"],
     [("child iterator", "src/planning/planner.cc"), ("node construction from parent and sibling", "src/planning/planner.cc"), ("root state", "include/symbolic/planning/planner.h")],
     "per-step obligations over iterator path summaries (typestate of position, check and child)",
     "Actions without parameters are covered only as far as their generator yields tuples.")

prop("C11", "The searches report exactly the paths to goals within the depth limit",
     "Breadth-first, depth-first and best-first search report, each exactly once and as the full list of nodes from the root, every path of at most the given number of steps "
     "whose last node is its first goal, and nothing else; a timeout can only cut the sequence short. Breadth-first search expands nodes in the order they were found, "
     "depth-first search the most recently found first, best-first search by the given comparison. An iterator equals the end only after the last plan, including a plan found with the last queued node.",
     ["inputs", "histories"],
     "Every successor graph, depth limit (including zero), comparison and timeout, and every iteration of the search loop.",
     "Tests sample a few graphs; which entry loses its ancestors or its children depends on the whole history of the frontier.",
     ["include/symbolic/planning/breadth_first_search.h", "include/symbolic/planning/depth_first_search.h", "include/symbolic/planning/a_star.h"],
     [("one step of the search", "include/symbolic/planning/breadth_first_search.h"), ("end test", "include/symbolic/planning/depth_first_search.h"), ("frontier order", "include/symbolic/planning/a_star.h")],
     "case analysis of search-loop path summaries (typestate of frontier, plan and goal)",
     "Analysed on the instantiation over planner nodes; termination and optimality are not claimed.")

prop("C19", "Calls, propositions and states are written canonically and read back unchanged",
     "A proposition, action, predicate or call is written as its name followed by its arguments in order, separated by a comma and a blank, in round brackets (also without arguments); a state is written as its propositions in sorted order, and its list of texts holds each proposition's text exactly once. "
     "Reading such a text yields exactly the name and arguments it was written from, whatever blanks stand around the arguments and whether commas or blanks separate them. "
     "A call is accepted exactly when it names a declared action and its arguments match the action's parameters in number and type; a set of texts is read as the state of exactly these propositions.",
     ["inputs"],
     "Names of any length without blanks, commas and brackets; any number of arguments and propositions, in any stored order.",
     "Tests print and parse a few binary propositions; empty argument lists, extra blanks, mismatched types and unsorted states are not among them.",
     ["src/proposition.cc", "src/state.cc", "src/object.cc", "src/action.cc", "src/predicate.cc", "src/pddl.cc", "include/symbolic/proposition.h"],
     [("writing", "src/proposition.cc"), ("sorted states", "src/state.cc"), ("argument tokens", "src/object.cc"), ("call checking", "src/action.cc")],
     "abstract interpretation of path summaries over texts made of characters and opaque words of unknown length",
     "Up to three arguments or propositions (24 for reading states) stand for all numbers. Texts without brackets around the arguments are outside the claim.")

prop("C20", "Problem descriptions written in Python are the PDDL they stand for",
     "The Python formula builders yield, as PDDL, the proposition, conjunction, disjunction, negation, quantifier or conditional effect they are named after, over exactly the given parts in order, "
     "whether a part is text or a list. A proposition written like a call is taken apart into everything before its first parenthesis and the comma-separated arguments without blanks up to the "
     "closing one (none when empty), text without a parenthesis is rejected with an error, and such propositions added to a problem become PDDL while PDDL ones are kept. "
     "A problem prints as one definition of its name, domain, every object with its type (untyped ones last), every initial proposition and its goal.",
     ["inputs"],
     "Every name, type, argument list, nesting of formulas and sequence of additions to a problem.",
     "No test touches the Python module, and strings or orders of additions that go wrong are easy to miss in samples.",
     ["symbolic/problem.py"],
     [("formula builders", "symbolic/problem.py"), ("proposition parsers", "symbolic/problem.py"), ("problem definition", "symbolic/problem.py")],
     "abstract interpretation of the Python syntax tree; emitted token sequences compared with PDDL productions, parser patterns as character sets",
     "Tokens are compared, not whitespace; names are taken not to contain blanks or parentheses.")
