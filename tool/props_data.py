BASE_NOTE = ('Decided on clang\'s resolved AST of the current tree; trusts clang 18, '
             'the extractor and the abstract interpreter. ')

prop('A01', 'Analysis settings accept exactly their documented values',
     'Every analysis setting (algorithm and approximation names, product order limit, cut-off '
     'probability, mission time, time step, numbers of trials/quantiles/bins, seed) stores a value '
     'unchanged if and only if the value lies in its documented domain: non-negative order limit, seed, '
     'mission time and time step, counts of at least 1, a cut-off in [0, 1], and only the documented '
     'algorithm and approximation names. Any other value, NaN included, is rejected with a settings '
     'error and leaves the whole configuration unchanged. A default configuration has the documented defaults.',
     ['inputs', 'configurations'], 'every value of the argument type, in every configuration state',
     'The command-line tests try a handful of bad values; boundaries, NaN and partial updates before a '
     'rejection are only settled over the whole value range.',
     ['src/settings.cc', 'src/settings.h'],
     [('settings mutators', 'src/settings.cc Settings::*')],
     'abstract interpretation of the setters over an exact value partition (intervals, NaN, infinities)',
     BASE_NOTE + 'Complete for the value classes: the setters only compare their argument with the '
     'partition points.')
prop('A02', 'Interdependent settings can never contradict each other',
     'After any sequence of setting changes, prime implicants are only requested with the BDD algorithm and '
     'without approximation, SIL metrics only with a positive time step, and importance, uncertainty or SIL '
     'requests always come with probability analysis. Selecting an algorithm, approximation, prime implicants '
     'or an analysis has exactly its documented side effects on the other settings. A contradictory request is '
     'rejected with a settings error that changes nothing, and no request ever terminates the program.',
     ['histories', 'configurations'], 'every finite sequence of setting changes',
     'Tests exercise single setter calls from the default state; contradictions and terminations need '
     'sequences of several interacting changes.',
     ['src/settings.cc', 'src/settings.h'],
     [('settings mutators', 'src/settings.cc Settings::*')],
     'fixpoint of an abstract interpreter over all reachable abstract configurations',
     BASE_NOTE + 'Flags and enumerations exactly, the time step as zero or positive.')
prop('A03', 'Command-line options change exactly the settings they name',
     'The configuration used for model loading and for analysis is the project file\'s configuration (or the '
     'default one) changed only by the options given on the command line, each applied to the setting it '
     'names with the value given; settings without an option keep the project\'s value. '
     'Mutually exclusive options are rejected before any input is loaded, and a combination that the '
     'settings reject is never analysed.',
     ['configurations', 'inputs'], 'every combination of options, project configurations and option values',
     'The call tests start the program with single options and never compare the effective settings, '
     'let alone in combination with a project file.',
     ['src/scram.cc', 'src/settings.cc'],
     [('option to setting mapping', 'src/scram.cc ConstructSettings, RunScram')],
     'abstract interpretation of main over option-presence valuations with symbolic values',
     BASE_NOTE + 'All options singly and pairwise, on a default and several project configurations.')
prop('A04', 'Exit status, diagnostics and stages of a run tell the truth',
     'A run exits with status 0 only if every requested stage (project file, model loading, analysis, report) '
     'succeeded; any error raised by a stage ends in a nonzero status, with no later stage run and no crash. '
     'A fault-free run loads all inputs given in the project and on the command line, stops after loading if '
     'only validation is requested, otherwise analyses once and writes one report to the requested '
     'destination. External libraries are enabled only by the explicit permission option.',
     ['configurations', 'fault_sequences'], 'every kind of error at every stage, every stage-selecting option',
     'Tests cover a few failing inputs, not an error of each kind from each stage.',
     ['src/scram.cc'], [('program entry point', 'src/scram.cc main, RunScram')],
     'abstract interpretation of main with may-throw stage summaries',
     BASE_NOTE + 'Stages are summarised as success or any of six error classes.')
QNOTE = BASE_NOTE + 'Event probabilities and the mission time are symbols, arithmetic is compared as exact ' \
        'rational normal forms; collection shapes are bounded. Rounding is out of scope. '
prop('C30', 'Importance factors equal their documented definitions',
     'For every event occurring in the products, importance analysis reports the number of products it occurs in '
     'and MIF, CIF, DIF, RAW and RRW exactly as documented in terms of the system probability (rare-event or MCUB) '
     'with the event certain and impossible: MIF = P(1) - P(0), CIF = p MIF / P, RAW = P(1) / P in its '
     'documented form, DIF = p RAW, RRW = P / P(0), and zero where the definition divides by zero. Events that '
     'occur in no product are not listed, no event is listed twice, and computing one event\'s factors never '
     'affects another\'s.',
     ['inputs'], 'all event probabilities in [0, 1], products sharing events in any way',
     'Tests compare a few models numerically; the guarantee covers every probability value, including the '
     'degenerate ones where a factor divides by zero.',
     ['src/importance_analysis.cc', 'src/importance_analysis.h', 'src/probability_analysis.cc'],
     [('importance factors', 'src/importance_analysis.cc ImportanceAnalysis::Analyze')],
     'abstract interpretation with exact rational normal forms and a sign domain', QNOTE)
prop('C31', 'Approximate probabilities follow their documented formulas',
     'The total probability is min(1, sum of the product probabilities) under the rare-event approximation and '
     '1 - prod(1 - product probability) under the min-cut upper bound, where a product\'s probability is the '
     'product over its literals of p, or 1 - p for a complement. An approximate total of 1 is accompanied '
     'by a warning, any other result by none. No product is skipped or counted twice.',
     ['inputs'], 'all event probabilities in [0, 1], for products of every qualitative algorithm',
     'Tests compare final numbers for a few models; sums near 1, certain events and shared events are not sampled.',
     ['src/probability_analysis.cc', 'src/fault_tree_analysis.cc'],
     [('quantification of products', 'src/probability_analysis.cc RareEventCalculator, McubCalculator'),
      ('product probability', 'src/fault_tree_analysis.cc Product::p')],
     'abstract interpretation with exact rational normal forms and a sign domain', QNOTE)
prop('C33', 'Probability over time and safety integrity metrics are exact integrals',
     'With a time step, probability analysis publishes the system probability, recomputed from all event '
     'probabilities at that time, at 0, step, 2 step, ... below the mission time and at the mission time, and '
     'leaves the mission time as it was. PFD (PFH) average is the time average of the piecewise linear curve '
     '(divided by time), and each PFD (PFH) bucket holds exactly the fraction of time the curve lies in it: the '
     'fractions of disjoint buckets, with a constant curve counted in exactly one.',
     ['inputs', 'configurations'], 'every mission time and step, rising, falling and constant curves in any position '
     'relative to the bucket bounds',
     'Only one model with SIL metrics is tested; positions relative to the bounds are not sampled.',
     ['src/probability_analysis.cc', 'src/probability_analysis.h'],
     [('curve', 'src/probability_analysis.cc CalculateProbabilityOverTime'),
      ('metrics', 'src/probability_analysis.cc ComputeSil')],
     'abstract interpretation over an exact partition of segment positions with rational normal forms', QNOTE +
     'Segments are classified by bucket position and slope; the metrics are sums over segments.')
prop('C32', 'Exact probability and importance on BDDs follow the Boolean function',
     'For the decision diagram the analysis holds, with complemented edges and modules, the exact total probability '
     'is the probability of the Boolean function it represents: P(f) = p P(high) + (1 - p) P(low), 1 - P for a '
     'complement, a module counting as its own function. Probability over time recomputes the same value from the '
     'probabilities at each time, never from stale results, and the MIF of each event is the exact '
     'P(f | event) - P(f | not event), from which the other importance factors follow.',
     ['inputs'], 'all event probabilities in [0, 1]; diagrams with shared, complemented and nested module vertices',
     'Tests compare numbers for models where complemented roots, shared modules and repeated evaluation do not combine.',
     ['src/probability_analysis.cc', 'src/importance_analysis.cc', 'src/bdd.h'],
     [('exact quantification', 'src/probability_analysis.cc ProbabilityAnalyzer<Bdd>'),
      ('exact importance', 'src/importance_analysis.cc ImportanceAnalyzer<Bdd>')],
     'abstract interpretation over abstract diagrams with exact rational normal forms', QNOTE +
     'Diagrams are a fixed family covering complement edges, sharing and module nesting.')
prop('C34', 'Uncertainty analysis samples and summarises as documented',
     'Every trial resets and then samples each uncertain event exactly once, quantifies the system with the samples '
     'limited to [0, 1] and with the unchanged probabilities of all other events, and leaves the point '
     'probabilities as they were. Exactly the requested number of trials is made. Mean, standard deviation '
     '(unbiased; 0 for one trial), error factor exp(1.96 sigma), 95% confidence interval, histogram and quantiles '
     'at i/n for i = 1..n are those of the samples.',
     ['inputs', 'configurations'], 'all sample values (below 0, inside, above 1), any set of uncertain events',
     'Monte Carlo results are only compared loosely; samples out of range and stale values across trials are not sampled.',
     ['src/uncertainty_analysis.cc', 'src/uncertainty_analysis.h'],
     [('sampling', 'src/uncertainty_analysis.cc SampleExpressions'),
      ('statistics', 'src/uncertainty_analysis.cc CalculateStatistics')],
     'abstract interpretation with an event trace and exact rational normal forms', QNOTE +
     'boost::accumulators is trusted for the moments, histogram and quantile estimates.')
prop('B10', 'Expressions compute exactly what the Open-PSA format defines',
     'Every built-in expression element (constants, arithmetic and Boolean operators, conditionals, exponential, '
     'GLM, Weibull, the periodic-test variants, deviates, histogram) has as value the Open-PSA function of its '
     'arguments\' values in document order, and as sample the same function of the arguments\' samples or, for a '
     'deviate, a random number of the distribution its arguments define. A sample is drawn once and kept until a '
     'reset, which makes the expression and all its arguments draw again. An expression counts as '
     'uncertain if and only if it is a distribution or an argument is uncertain.',
     ['inputs'], 'all argument values; argument counts up to 11, periodic tests up to three test periods',
     'Unit tests evaluate each expression at a few points; argument mix-ups and boundary cases between them go unnoticed.',
     ['src/initializer.cc', 'src/expression.h', 'src/expression/numerical.h', 'src/expression/exponential.cc',
      'src/expression/random_deviate.cc', 'src/expression/conditional.h', 'src/expression/boolean.h'],
     [('construction', 'src/initializer.cc Initializer::GetExpression'),
      ('evaluation', 'src/expression.h Expression::value, Expression::Sample')],
     'abstract interpretation of construction and evaluation with exact rational normal forms',
     BASE_NOTE + 'Arguments are symbols; arithmetic is compared as exact normal forms with paths split by '
     'comparison signs. Rounding, overflow and NaN are out of scope.')
prop('B12', 'Common-cause failure groups expand to the defined events and probabilities',
     'In a model with a common-cause group, every member stands for the disjunction of exactly the common-cause events '
     'of the member combinations that contain it, one event per combination and level, shared by its members. An event '
     'of k members has the probability the beta-factor, MGL, alpha-factor or phi-factor model of the group defines for '
     'level k. A group whose distribution or factors (values or sample domains) are not probabilities, whose phi '
     'factors do not sum to 1, or whose members or levels are duplicate, missing or out of range is rejected as '
     'invalid input; every other group is accepted.',
     ['inputs'], 'all probabilities and factors; up to four members (five thoroughly), every top level',
     'Tests use a few groups of two to four members at single numbers; wrong levels or pairings cancel out in totals.',
     ['src/ccf_group.cc', 'src/ccf_group.h', 'src/ext/combination.h', 'src/initializer.cc'],
     [('expansion', 'src/ccf_group.cc CcfGroup::ApplyModel'),
      ('models', 'src/ccf_group.cc CalculateProbabilities of the four models'),
      ('validation', 'src/ccf_group.cc CcfGroup::Validate, AddFactor')],
     'abstract interpretation of definition, validation and expansion with exact rational normal forms',
     BASE_NOTE + 'Quantities are symbols; member counts are bounded.')
prop('B08', 'Cyclic models are always rejected, acyclic ones never',
     'A model whose gates, parameters, event-tree rules, named branches, or linked event trees refer to themselves, directly or '
     'through any chain of references however they are nested (complemented arguments, inner formulas and expressions, conditions, '
     'blocks, other rules), is rejected with a cycle error; a model without cycles is never rejected with one. '
     'The error reports names that form a cycle of the model.',
     ['inputs'], 'all directed graphs of three nodes of each kind, with the references in every syntactic position',
     'Tests have a handful of cyclic inputs; order of definitions and position of the reference decide what the search visits.',
     ['src/cycle.h', 'src/cycle.cc', 'src/initializer.cc'],
     [('validation', 'src/initializer.cc Initializer::ValidateInitialization'), ('search', 'src/cycle.h cycle::DetectCycle')],
     'abstract interpretation of loading generated documents against the cycles of the reference graph',
     BASE_NOTE + 'The XML parser and schema validation are models: documents obey the schema.')

prop('B09', 'Expressions accept exactly their documented domains and bound their samples',
     'A reliability law, distribution, periodic test, division, modulo, power, root, logarithm or arc function is '
     'accepted if and only if the values and the sample ranges of its arguments lie in its documented domain (rates, '
     'times, probabilities, ordered bounds, non-zero divisors); otherwise, and for undefined (NaN) parameters, the input is '
     'rejected as invalid. A basic event is accepted if and only if its expression is a probability for the value and '
     'for every sample. The range an expression reports for these decisions encloses all its possible samples.',
     ['inputs'], 'all argument values and sample ranges',
     'Tests try one value on either side of a few bounds; sample ranges and value combinations are not covered.',
     ['src/expression/exponential.cc', 'src/expression/random_deviate.cc', 'src/expression/numerical.cc',
      'src/expression/numerical.h', 'src/expression/boolean.h', 'src/expression/conditional.cc', 'src/expression.h',
      'src/expression.cc', 'src/event.cc', 'src/initializer.cc'],
     [('validation stage', 'src/initializer.cc Initializer::ValidateExpressions'),
      ('domains', 'src/expression/*.cc Validate of the expressions'),
      ('ranges', 'src/expression/*.h interval of the expressions')],
     'abstract interpretation of validation and range computation with sign and linear facts per path',
     BASE_NOTE + 'Normal, log-normal and gamma deviates document their ranges as estimates and are exempt from '
     'enclosure, as are mod and tan. Rounding is out of scope.')
prop('B11', 'Formulas are accepted exactly in their documented domain and read as written',
     'A formula is accepted if and only if its arity and numbers are in the documented domain (two or more arguments '
     'for and/or/nand/nor, two for xor/iff/imply, one for not, 2 <= min < n for atleast, min <= max <= n for '
     'cardinality) and no event repeats among its arguments. Any other formula is reported as invalid input, never as '
     'an internal error or an abort. An accepted formula has the connective, numbers, arguments, order and complements '
     'of the input.',
     ['inputs'], 'every connective, up to five arguments of every kind, all numbers around the borders and beyond 16 bits',
     'Tests feed one malformed formula per connective; borders, repeated complements and huge numbers are not covered.',
     ['src/event.cc', 'src/event.h', 'src/initializer.cc'],
     [('reading', 'src/initializer.cc Initializer::Define of gates'), ('domain', 'src/event.cc Formula::Formula')],
     'abstract interpretation of the input handler over abstract XML',
     BASE_NOTE + 'Conformance of the input to the schema is assumed; libxml2 checks it first.')
prop('C16', 'Boolean graphs represent the fault trees they are made of',
     'The Boolean graph the analyses work on represents the function of the top gate as written, with house events '
     'at their states, common-cause members replaced by their groups if CCF is on, and the implications of declarative '
     'substitutions imposed; its variables map to the basic events. It is declared coherent or normal '
     'only if it is. Adding, joining, coalescing, sharing, negating or fixing arguments of a gate gives exactly the '
     'resulting function, for repeated, complementary and constant arguments alike.',
     ['inputs'], 'every connective over every kind of argument; every gate type and operation over opaque arguments',
     'Tests compare results of a few models; rare connectives over repeated, complemented or constant arguments are not sampled.',
     ['src/pdag.cc', 'src/pdag.h', 'src/initializer.cc', 'src/event.cc', 'src/substitution.cc'],
     [('construction', 'src/pdag.cc Pdag::Pdag'), ('operations', 'src/pdag.h Gate'),
      ('pass-through gates', 'src/pdag.cc Pdag::RemoveNullGates')],
     'abstract interpretation of construction and gate rewriting; function tables compared by structural induction',
     BASE_NOTE + 'Passes of the preprocessor over whole graphs are out of scope.')

prop('C17', 'Binary decision diagrams represent their Boolean graphs canonically',
     'The decision diagram built from a normalised graph has the truth table of the graph for every order of variables, '
     'with or without modules, coherent or not. Its vertices respect the order, no vertex is redundant, and no two are equal, whatever collides in the tables. '
     'Every vertex of a module is marked with its coherence, and the diagram kept for the module represents it; a module with a constant function vanishes.',
     ['inputs'], 'every normalised graph of and/or gates, every order of variables and every choice of modules',
     'Tests compare a few numbers of a few models; a wrong complement, memo entry or module shows only with a particular structure and order.',
     ['src/bdd.cc', 'src/bdd.h'],
     [('conversion', 'src/bdd.cc Bdd::ConvertGraph'), ('combination', 'src/bdd.cc Bdd::Apply'),
      ('vertices', 'src/bdd.cc Bdd::FindOrAddVertex')],
     'abstract interpretation of the construction on graphs built through the input; truth tables and structure compared',
     BASE_NOTE + 'Graphs are systematic small ones and a fixed pseudo-random family with up to five gates and five variables; '
     'garbage collection of vertices is not modelled.')

prop('C18', 'Products are exactly the minimal cut sets or prime implicants',
     'Every algorithm finds exactly the minimal cut sets of the analysed function within the limit on their order -- '
     'minimal sets of events that are enough with all others absent, complements approximated in non-coherent models -- each once. '
     'If prime implicants are requested, the products are exactly the prime implicants within the limit. Modules, orders of variables and limits never change the result otherwise.',
     ['inputs', 'settings'], 'every normalised graph, order of variables, choice of modules and limit, for each of the three algorithms',
     'Tests compare products of a few models; a lost or non-minimal product shows only with a particular structure, order and limit.',
     ['src/zbdd.cc', 'src/zbdd.h', 'src/mocus.cc', 'src/mocus.h', 'src/bdd.cc', 'src/bdd.h'],
     [('sets', 'src/zbdd.cc Zbdd'), ('expansion of gates', 'src/mocus.cc Mocus::AnalyzeModule'),
      ('conversion of decision diagrams', 'src/zbdd.cc Zbdd::ConvertBdd')],
     'abstract interpretation of the algorithms on graphs built through the input; sets compared with exhaustive ones',
     BASE_NOTE + 'Graphs are systematic small ones and a fixed pseudo-random family with up to five gates and five variables; '
     'substitutions and preprocessing are out of scope.')

prop('C14', 'A run analyses every target with the requested analyses',
     'Every top event of every fault tree and every sequence of every event tree with an initiating event is analysed '
     'exactly once in every phase of every alignment, or once if there are none. Each result holds exactly the '
     'requested analyses, done on that target with the chosen algorithm and approximation, none disturbing the '
     'numbers of another; each sequence is reported with its own probability. An explicit seed is in force before any analysis.',
     ['inputs', 'settings'], 'every combination of algorithm, approximation and requested analyses over models with several trees, sequences and phases',
     'Each test runs a few combinations on one model; dropped or mixed-up results of rare combinations look plausible.',
     ['src/risk_analysis.cc', 'src/risk_analysis.h'],
     [('analysis', 'src/risk_analysis.cc RiskAnalysis::Analyze')],
     'abstract interpretation of the whole run with the individual analyses as traced effects',
     BASE_NOTE + 'The individual analyses are separate properties.')
prop('C15', 'Phases are analysed under their conditions and leave no trace',
     'Every result of a phase is computed with the mission time of the phase, its fraction of the mission time of the '
     'model, and with the house events as set in that phase, all others as defined. Phases do not influence each '
     'other, and after the run the mission time and all house events are as defined in the model.',
     ['inputs', 'history'], 'every assignment of house-event states over alignments whose phases set, repeat and reset them',
     'Tests have one model with phases; leaks between phases depend on the order and defaults of house events.',
     ['src/risk_analysis.cc', 'src/alignment.h', 'src/settings.cc'],
     [('phases', 'src/risk_analysis.cc RiskAnalysis::RunAnalysis')],
     'abstract interpretation of the whole run; conditions seen by every analysis compared with its phase',
     BASE_NOTE)
prop('B14', 'Malformed event trees are always rejected, well-formed ones never',
     'A model is rejected if and only if some functional event follows one at or after its position (by definition order) on '
     'a path of forks, a branch (not an end-state sequence) links to an event tree, or one state or branch can lead to '
     'both collected expressions and collected formulas. This holds through named branches, rules, blocks, conditions, '
     'sequences and linked event trees.',
     ['inputs'], 'chains of up to three forks in every order and nesting; links and pairs of collecting instructions at every place, in every wrapping',
     'Tests have one invalid input per error; what decides is where instructions hide and how the paths combine.',
     ['src/initializer.cc', 'src/event_tree.h'],
     [('validation', 'src/initializer.cc Initializer::ValidateInitialization')],
     'abstract interpretation of loading generated documents against statements of the rules of event trees',
     BASE_NOTE + 'The XML parser and schema validation are models: documents obey the schema.')

prop('B15', 'Malformed and conflicting substitutions are always rejected, others never',
     'A model is rejected if and only if a substitution breaks a documented rule: a hypothesis of repeated, complemented or non-basic events or '
     'with a connective not allowed, a target without effect, a declared type that is not its type, or, with sources, an analysis without approximation, '
     'an event in a CCF group, a target among the sources of any or in the hypothesis of another, or a source in the hypothesis of another.',
     ['inputs'], 'hypotheses over all connectives, with sources, targets, types, CCF groups and approximations; pairs of substitutions over four events',
     'Tests have one invalid input per rule; combinations of events across substitutions decide the conflicts.',
     ['src/initializer.cc', 'src/substitution.cc', 'src/substitution.h'],
     [('definition', 'src/substitution.cc Substitution::Validate'), ('conflicts', 'src/initializer.cc Initializer')],
     'abstract interpretation of loading generated documents against the documented rules of substitutions',
     BASE_NOTE + 'Types whose traditional name is debatable (e.g. an AND of three events to be deleted) are not judged. The XML parser and schema validation are models: documents obey the schema.')

prop('B13', 'Rejections of invalid models name the file and the line at fault',
     'A model with an invalid definition (of a formula, expression, CCF group, event, attribute, alignment, phase, fork, substitution) is rejected with an error that '
     'carries the name of the file and a line within that definition, wherever the definition is and whichever file of several it is in. An error '
     'that can be found only in the whole loaded model (probabilities, CCF factors, cycles, event tree structure, conflicts of substitutions) names the element or its container.',
     ['inputs'], 'every reason of rejection, in every kind of construct and place, in the first or the second of two files',
     'Tests check that invalid files are rejected, not what the error says.',
     ['src/initializer.cc', 'src/error.h', 'src/element.cc', 'src/alignment.cc', 'src/substitution.cc', 'src/ccf_group.cc'],
     [('diagnostics', 'src/initializer.cc Initializer')],
     'abstract interpretation of loading generated invalid documents; the information carried by the error',
     BASE_NOTE + 'The XML parser and schema validation are models: documents obey the schema. For undefined and duplicate definitions either definition may be named.')
prop('B16', 'Alignments are accepted exactly if their phases partition the mission',
     'A model is accepted if and only if, in each of its alignments, the time fractions of the phases are in (0, 1] and sum to one (to rounding), '
     'the names of the phases are distinct, and each house event that a phase sets is defined.',
     ['inputs'], 'alignments of one to three phases with fractions inside, at and outside the bounds, long alignments, several alignments, settings of house events',
     'Tests have one invalid input per rule; sums, bounds and names combine across phases.',
     ['src/alignment.cc', 'src/alignment.h', 'src/initializer.cc'],
     [('alignments', 'src/alignment.cc Alignment::Validate')],
     'abstract interpretation of loading generated documents against the rules of alignments',
     BASE_NOTE + 'Sums that differ from one by about the tolerance are not judged. The XML parser and schema validation are models.')

prop('C13', 'Event-tree sequences are the disjunction of their collected paths',
     'The analysis of an initiating event yields exactly the sequences that its event tree reaches by a path without a '
     'link to another tree, continuing linked trees with what was collected so far. The formula of a sequence is the OR over its '
     'paths of the AND of what each collects, with house events as set earlier on the same path only; a sequence with a path that '
     'collects nothing is certain, and an expression-only sequence is the sum over its paths of the products of expressions. '
     'Conditions see the initiating event and the functional-event states of the current path.',
     ['inputs', 'history'], 'event trees combining forks, named branches, rules, blocks, conditions, house-event settings and links; every assignment of the basic events',
     'Tests compare a few input trees with recorded numbers; leaks between sibling paths need particular combinations of constructs.',
     ['src/event_tree_analysis.cc', 'src/event_tree_analysis.h', 'src/event_tree.h', 'src/instruction.h'],
     [('event trees', 'src/event_tree_analysis.cc EventTreeAnalysis::Analyze')],
     'abstract interpretation of loading and walking generated event trees; gates compared with an independent walk over all assignments',
     BASE_NOTE + 'Trees of up to three levels; the walk carries only the collected path and the context.')
prop('B06', 'References are bound to the elements of the scoping rules, or rejected',
     'A reference to a gate, basic event (CCF group members included), house event, or parameter, by its kind or untyped, is bound to '
     'the element whose full path is that of the container of the reference followed by the reference, or else to the public element of that name '
     '(with dots in the reference: to the element with that full path). A reference that these do not resolve, and any reference to an undefined rule, '
     'event tree, sequence, branch, functional event, or house event, is rejected as undefined with its file and a line within its definition.',
     ['inputs'], 'worlds of up to two definitions over kinds, places and roles, and references from every place in every form',
     'Tests have a handful of references; precedence, roles and nesting of containers decide the binding.',
     ['src/initializer.cc', 'src/element.h', 'src/element.cc'],
     [('entities', 'src/initializer.cc Initializer::GetEntity'), ('events', 'src/initializer.cc Initializer::GetEvent')],
     'abstract interpretation of loading generated documents against an independent statement of the scoping rules',
     BASE_NOTE + 'The XML parser and schema validation are models: documents obey the schema.')

prop('B07', 'Duplicate definitions are always rejected, distinct ones never',
     'A model is rejected as having duplicates if and only if two of its definitions of one kind, in whatever files, have the '
     'same identifier (the name of a public element, the full path of a private one; gates, basic events with CCF group members, and house '
     'events share one namespace) or the same name in one container, an element repeats in one list (group members, arguments, '
     'attributes, fork states), or one file is given twice. The rejection names the line and the file of one of the two.',
     ['inputs'], 'pairs of definitions over kinds, roles, containers and files',
     'Tests have one input per kind in one container; combinations of roles and containers decide the identifier.',
     ['src/initializer.cc', 'src/model.cc', 'src/fault_tree.cc', 'src/element.h', 'src/event_tree.cc'],
     [('definitions', 'src/initializer.cc Initializer'), ('containers', 'src/model.cc Model::CheckDuplicateEvent')],
     'abstract interpretation of loading generated documents against an independent statement of the identifiers',
     BASE_NOTE + 'The XML parser and schema validation are models: documents obey the schema.')

prop('B05', 'Models hold every definition exactly as declared',
     'After loading, the model has exactly the declared elements, each in its container, with the declared label and attributes, the role (inherited from '
     'its component if not given), path and identifier; and the declared content: house event states (false by default), units, basic event and parameter expressions, '
     'formulas, group members and distribution, instructions, branches, functional events in order, phases, substitutions. '
     'Attributes are looked up in the element first, then in its containers; the top events of a fault tree are exactly its gates that no gate of the '
     'same tree refers to, in the order of their paths; the mission time is that of the settings. None of this depends on the order of definitions or the split into files.',
     ['inputs'], 'documents with every kind of definition, place, role and content, all graphs of three gates over nested components, orders and splits into files',
     'Tests load a few files and hardly look at the loaded model; places, roles and orders combine.',
     ['src/initializer.cc', 'src/model.cc', 'src/fault_tree.cc', 'src/element.h', 'src/element.cc', 'src/event_tree.h'],
     [('definitions', 'src/initializer.cc Initializer'), ('top events', 'src/fault_tree.cc FaultTree::CollectTopEvents')],
     'abstract interpretation of loading generated documents, read back through the public observers',
     BASE_NOTE + 'The XML parser and schema validation are models: documents obey the schema.')

prop('C20', 'Preprocessing keeps the analysed function',
     'The passes that simplify, modularise and normalise a Boolean graph before the analysis never change the function '
     'of its root, whatever the algorithm, and never fail.',
     ['inputs'], 'every Boolean graph',
     'Tests preprocess a few models; the passes interact over shared and complemented gates.',
     ['src/preprocessor.cc', 'src/preprocessor.h'],
     [('passes', 'src/preprocessor.cc Preprocessor::Run')],
     na='The passes depend on reference counts, expiring pointers, visit times and marks over whole mutable graphs; '
        'no sound static argument in reach bounds them. Some non-coherent graphs do abort on assertions (DESIGN.md).')

prop('C35', 'Statistics of uncertainty analysis converge to the distributions',
     'With growing numbers of trials the statistics converge to those of the exact distribution of the result.',
     ['inputs', 'seeds'], 'every model and seed',
     'Tests run one seed with loose tolerances.',
     ['src/uncertainty_analysis.cc', 'src/expression/random_deviate.cc'],
     [('sampling', 'src/uncertainty_analysis.cc UncertaintyAnalyzer')],
     na='A statement about pseudo-random sequences and numerical accuracy, which static analysis cannot bound; '
        'what is sampled and how it is tallied is decided by C34.')
