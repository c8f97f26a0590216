"""Writes /verif/properties.jsonl (kept as a script so the file stays well-formed)."""
import json

S = "src/ConfigSpace/"
HP = S + "hyperparameters/"


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": anchors,
    }


PROPS = [
    p("P01", "Every sampled configuration is valid",
      "Sampling a configuration space returns exactly the requested number of configurations, and every one of them is valid: each hyperparameter has a value if and only if its conditions make it active, every value lies in the declared domain, and no forbidden clause is matched. This holds for any combination of hyperparameters, nested conditions (and/or, several parents, parents at different depths) and forbidden clauses, and for any number of samples.",
      ["inputs", "histories", "configurations"],
      "all spaces (hyperparameter types, condition graphs, forbidden clauses), all seeds, all sample sizes, all sequences of sampling calls",
      "The tests sample a handful of fixed spaces; conditions, grouping and ordering interact, so an error only shows for particular graph shapes and particular random draws.",
      [S + "configuration_space.py", S + "_condition_tree.py", S + "conditions.py", S + "forbidden.py"],
      [("vectorised sampling loop with masking of inactive columns and rejection of forbidden rows", S + "configuration_space.py: ConfigurationSpace.sample_configuration"),
       ("ordering and grouping of conditions", S + "_condition_tree.py: DAG.update"),
       ("split into unconditional and conditional forbidden clauses", S + "_condition_tree.py: DAG._is_unconditional_forbidden")],
      observe="return value of ConfigurationSpace.sample_configuration"),
    p("P02", "Validation accepts exactly the valid configurations",
      "Building a configuration from values, validating a configuration and validating a vector accept an assignment if and only if it is valid under the declared space: all active hyperparameters are set, no inactive one is set, all values are legal, and no forbidden clause matches. An invalid assignment is always rejected with an error of the kind that fits its defect (unset, inactive, illegal, forbidden, unknown name). A configuration that is asked to allow values of inactive hyperparameters tolerates these and nothing else.",
      ["inputs", "configurations"],
      "all spaces and all assignments, including assignments with several defects and arbitrary vectors",
      "Accept/reject has to be right for every assignment of every space; examples cannot cover the combinations of activity, legality and clauses.",
      [S + "util.py", S + "configuration.py", S + "configuration_space.py"],
      [("vector validation", S + "util.py: check_configuration"),
       ("value based construction", S + "configuration.py: Configuration.__init__"),
       ("combined forbidden clauses used by validation", S + "_condition_tree.py: DAG._optimized_forbiddens")],
      observe="Configuration(...), Configuration.check_valid_configuration, ConfigurationSpace.check_configuration_vector_representation"),
    p("P03", "The default configuration is valid and holds the defaults",
      "The default configuration of a space always exists, is valid, and gives every hyperparameter that is active under the defaults its own default value while all others are unset. Declared defaults are kept, and derived defaults (middle of the range, most likely choice, mode of the prior) are always legal values. An addition that would make the default configuration forbidden is refused.",
      ["inputs", "configurations", "histories"],
      "all spaces and all orders of adding hyperparameters, conditions and forbidden clauses",
      "Depends on the condition graph and the derived default of each type; the tests check only a few.",
      [S + "configuration_space.py", HP + "*.py"],
      [("default construction", S + "configuration_space.py: ConfigurationSpace._check_default_configuration"),
       ("derived defaults", HP + "uniform_float.py, uniform_integer.py, normal_*.py, beta_*.py, categorical.py, ordinal.py")],
      observe="ConfigurationSpace.get_default_configuration"),
    p("P04", "Conditions mean the same in every representation",
      "A conditional hyperparameter is active exactly when its condition is satisfied, where an inactive parent satisfies no comparison, an and-conjunction needs all and an or-conjunction at least one of its parts. Evaluating a condition on values, on a vector or on a whole array of vectors gives the same answer, and the reported set of active hyperparameters agrees with it.",
      ["inputs", "configurations"],
      "all conditions (equals, not equals, less, greater, in, nested and/or), all parent types, all configurations including those with inactive parents",
      "Three evaluators exist side by side for speed; their agreement on inactive parents and on boundary values is not visible in example tests of each one.",
      [S + "conditions.py", S + "configuration_space.py"],
      [("value, vector and array evaluation", S + "conditions.py: satisfied_by_value / satisfied_by_vector / satisfied_by_vector_array"),
       ("active set", S + "configuration_space.py: ConfigurationSpace.get_active_hyperparameters")]),
    p("P05", "Forbidden clauses mean the same in every representation",
      "A forbidden clause matches exactly the configurations it describes: equality or membership of a value, a relation between the values of two hyperparameters, or a conjunction of these, and it never matches when a hyperparameter it mentions is inactive. Evaluating it on values, on a vector or on an array of vectors gives the same answer, also when many clauses of a space share parts.",
      ["inputs", "configurations"],
      "all clauses and conjunctions over all hyperparameter types, all configurations",
      "Clauses are rewritten and merged internally and evaluated by three code paths; agreement must hold for every clause set.",
      [S + "forbidden.py", S + "_condition_tree.py"],
      [("value, vector and array evaluation", S + "forbidden.py: is_forbidden_value / is_forbidden_vector / is_forbidden_vector_array"),
       ("merging of clauses", S + "_condition_tree.py: DAG._optimized_forbiddens")]),
    p("P06", "Values and vectors convert back and forth without loss",
      "Every legal value of a hyperparameter converts to a legal vector entry and back to the same value; every sampled or legal vector entry converts to a legal value; numeric values keep their order. Converting one item at a time or a whole array gives the same result, and values come back with the declared type (int, float, or one of the given choices). Single numbers come back as plain Python numbers, and an ordinal reports positions and order as in its sequence.",
      ["inputs"],
      "all hyperparameter types, ranges (tiny, huge, negative, log scale), choices of any type, all legal values and vector entries",
      "Rounding and scaling errors appear only for particular ranges and values.",
      [HP + "hp_components.py", HP + "hyperparameter.py", HP + "categorical.py", HP + "constant.py", S + "functional.py"],
      [("unit scaling", HP + "hp_components.py: UnitScaler"), ("sequence lookup", HP + "hp_components.py: TransformerSeq"),
       ("scalar and array entry points", HP + "hyperparameter.py: to_value / to_vector")]),
    p("P07", "Legality checks accept exactly the declared domain",
      "A value is legal for a hyperparameter exactly if it belongs to the declared range or choices (inclusive bounds, whole numbers for integers), and a vector entry is legal exactly if it represents such a value. Asking for one item or for an array gives the same answers, values of a foreign type are reported as illegal rather than accepted, and unset entries are never legal.",
      ["inputs"],
      "all hyperparameter types and all candidate values: inside, on and just outside the bounds, non-integers, foreign types, NaN and infinities",
      "Boundary behaviour must hold for every range; tests probe a few points.",
      [HP + "hp_components.py", HP + "hyperparameter.py", HP + "constant.py", HP + "categorical.py"],
      [("legality of values and vectors, scalar and array", HP + "hp_components.py: legal_value / legal_vector / *_single")]),
    p("P08", "Hyperparameters are sampled from the declared distribution",
      "Values drawn from a hyperparameter are always in its domain and follow the declared distribution: uniform on the (log-)scale, normal or beta shaped and truncated to the bounds, proportional to the given weights for categoricals, uniform over an ordinal. Every value with non-negligible probability is reachable, including both ends of a range, and a zero weight is never drawn.",
      ["inputs"],
      "all hyperparameter types, parameters and seeds",
      "A wrong scale, a missed end point or ignored weights produce plausible looking values; only statistics over many draws against the declared law reveal them.",
      [HP + "distributions.py", HP + "uniform_integer.py", HP + "normal_*.py", HP + "beta_*.py", HP + "categorical.py", HP + "ordinal.py", S + "functional.py"],
      [("sampling", HP + "distributions.py: sample_vector"), ("quantisation", S + "functional.py: quantize, quantize_log")]),
    p("P09", "Densities are consistent",
      "The density reported for a hyperparameter is never negative, is zero for illegal values, is the same whether asked by value or by vector, has total mass one over the domain, and its reported maximum is the largest density attained. Densities are proportional to the declared distribution, on the value range for uniform floats and on the unit scale for the other priors.",
      ["inputs"],
      "all hyperparameter types and parameters, all legal and illegal points",
      "Normalisation is a sum over the whole domain, tests compare single points with recorded numbers.",
      [HP + "distributions.py", HP + "hyperparameter.py"],
      [("density and normalisation", HP + "distributions.py: pdf_vector, max_density"), ("masking of illegal points", HP + "hyperparameter.py: pdf_vector / pdf_values")]),
    p("P10", "Neighbors of a value are legal, distinct and different",
      "Asking a hyperparameter for n neighbors of a legal value returns legal values that are pairwise distinct and differ from the value: n of them, or all other values if fewer exist. For a categorical the neighbors are any other choices, for an ordinal only the directly adjacent ones, a constant has none; numeric neighbors concentrate around the value according to the given spread.",
      ["inputs"],
      "all hyperparameter types, values (including both ends), n from one to beyond the domain size, spreads and seeds",
      "Different algorithms are used depending on how n compares to the domain; off-by-one errors show up only for particular combinations.",
      [HP + "distributions.py", HP + "hp_components.py", HP + "categorical.py", HP + "ordinal.py", HP + "constant.py"],
      [("numeric neighborhoods", HP + "distributions.py: quantized_neighborhood, continuous_neighborhood, neighborhood"),
       ("ordinal / categorical neighborhoods", HP + "hp_components.py: ordinal_neighborhood, " + HP + "categorical.py: NeighborhoodCat")]),
    p("P11", "The one-exchange neighbourhood holds valid one-change neighbors",
      "Every configuration yielded by the one-exchange neighbourhood is valid and differs from the start in exactly one hyperparameter that was active, apart from hyperparameters that this change switches on (which take their default) or off. All valid alternatives of each active categorical and all adjacent steps of each ordinal are yielded, at most the requested number per numeric one (exactly that number, or all other values, when nothing is forbidden), the iteration ends, and the start configuration is not modified.",
      ["inputs", "configurations"],
      "all spaces, start configurations, seeds, neighbor counts and spreads",
      "Whether consequences of a change are complete depends on the condition graph and clauses; tests use a few spaces.",
      [S + "util.py", S + "_condition_tree.py"],
      [("neighbourhood generator", S + "util.py: get_one_exchange_neighbourhood"), ("propagation of a change", S + "util.py: change_hp_value"),
       ("lookup of affected conditions", S + "_condition_tree.py: DAG.change_hp_lookup")]),
    p("P12", "A random neighbor is valid and differs in one value",
      "A random neighbor of a valid configuration is valid, has the same active hyperparameters and differs in exactly one of them, by a neighboring value of that hyperparameter. If there is no such neighbor the call raises an error instead of running forever or returning something else, and the given configuration is not modified.",
      ["inputs", "configurations"],
      "all spaces, start configurations and seeds",
      "Rejection of changes that alter activity and termination depend on the space.",
      [S + "util.py"],
      [("random neighbor", S + "util.py: get_random_neighbor")]),
    p("P13", "Assigning a value keeps a configuration valid or changes nothing",
      "Assigning a value to a hyperparameter of a valid configuration either succeeds and leaves a valid configuration, in which the value is set, hyperparameters switched on by it take their default, those switched off are unset and all others are untouched; or it raises and leaves the configuration exactly as it was. It succeeds whenever that resulting configuration is valid.",
      ["inputs", "histories"],
      "all spaces and all sequences of assignments (legal, illegal, inactive, forbidden) on one configuration",
      "Needs sequences over condition graphs; the tests assign a few values.",
      [S + "configuration.py", S + "util.py"],
      [("assignment", S + "configuration.py: Configuration.__setitem__"), ("propagation", S + "util.py: change_hp_value")],
      state=[("vector and cached values", "two representations of one configuration that must stay in step", S + "configuration.py: Configuration")]),
    p("P14", "A configuration is a consistent mapping with value equality",
      "Through any sequence of reads and assignments a configuration behaves as a mapping of its active hyperparameters: iteration, length, membership, item access and get agree, keep the order of the space and agree with its vector. Two configurations are equal exactly if their spaces are equal and they hold equal values, equal configurations have equal hashes, and rebuilding one from its values or its vector gives an equal configuration (floats up to rounding).",
      ["inputs", "histories"],
      "all configurations however created (values, vector, sampling, default, neighbor, assignment), all sequences of operations",
      "Values are cached lazily beside the vector, so errors need particular sequences.",
      [S + "configuration.py"],
      [("mapping protocol, equality, hash", S + "configuration.py: Configuration")],
      state=[("cached values", "filled on access, reset on assignment", S + "configuration.py: Configuration._values")]),
    p("P15", "A space reports exactly what was added, in any order of adding",
      "The hyperparameters, conditions, forbidden clauses, parents, children and positions a space reports are exactly those that were added, parents always come before their children, and positions and names are inverse to each other. Adding the same parts one by one, in one call or in a different order gives an equal space with the same layout and the same samples for a seed.",
      ["inputs", "histories"],
      "all sets of parts, all admissible orders and groupings of adding them",
      "Derived structures are rebuilt on every addition; errors show only for particular orders.",
      [S + "configuration_space.py", S + "_condition_tree.py"],
      [("rebuilding of derived structures", S + "_condition_tree.py: DAG.update, add, add_condition, add_forbidden")],
      state=[("condition graph", "nodes with depth, parents, children", S + "_condition_tree.py: DAG, HPNode")]),
    p("P16", "A refused addition leaves the space unchanged",
      "Adding something that cannot be part of the space is refused with an error: a duplicate name, a condition or clause on an unknown hyperparameter, a second condition for one child, a cycle, or a clause that excludes the default configuration. After a refused addition the space is exactly as before and remains fully usable.",
      ["inputs", "histories", "fault_sequences"],
      "all spaces, all kinds of invalid additions alone or batched with valid ones, all later operations",
      "The state after an error is not looked at by tests that only expect the exception.",
      [S + "configuration_space.py", S + "_condition_tree.py"],
      [("adding parts", S + "configuration_space.py: ConfigurationSpace.add"), ("checks while adding", S + "_condition_tree.py: DAG.add, add_condition, add_forbidden, _check_cyclic_dependancy")]),
    p("P17", "Dictionary, JSON and YAML round trips preserve the space",
      "Writing a space to a dictionary, JSON or YAML and reading it back gives an equal space: same hyperparameters with all parameters, defaults, weights and meta data, same conditions and clauses, and the same samples for a seed. Neither writing nor reading modifies the space or the dictionary it is given, so the same dictionary can be read again.",
      ["inputs"],
      "all spaces with serialisable values, any number of round trips",
      "Each type has its own encoder and decoder; a lost field only shows for spaces that use it.",
      [S + "read_and_write/dictionary.py", S + "configuration_space.py"],
      [("encoders and decoders", S + "read_and_write/dictionary.py"), ("entry points", S + "configuration_space.py: to_serialized_dict, from_serialized_dict, to_json, from_json, to_yaml, from_yaml")]),
    p("P18", "PCS round trips preserve the space",
      "Writing a space the PCS formats can express and reading it back gives a space with the same hyperparameters, ranges, scales, defaults, conditions and forbidden clauses, accepting the same configurations (up to the textual form of choices). What a format cannot express is refused with an error, never silently dropped or changed, except that the formats have no priors of numeric hyperparameters and constants come back as single choices.",
      ["inputs"],
      "all spaces within the subset of either format, and spaces just outside of it",
      "Text formats fail for particular values and combinations.",
      [S + "read_and_write/pcs.py", S + "read_and_write/pcs_new.py"],
      [("reader and writer", S + "read_and_write/pcs.py, pcs_new.py: read, write")]),
    p("P19", "Adding a space into another one keeps its meaning",
      "Adding a space under a prefix gives, for that part, the same behaviour as the source: the same hyperparameters, conditions and clauses under prefixed names, so a configuration is valid for the part exactly if it is valid for the source. With a parent given the part is active exactly when the parent has the given value, the source space is not modified, and the same source can be added again under another prefix.",
      ["inputs", "configurations", "histories"],
      "all source and target spaces, prefixes, delimiters and parents, repeated and nested composition",
      "Renaming has to reach every nested condition and clause without touching the source.",
      [S + "configuration_space.py", S + "conditions.py", S + "forbidden.py", HP + "hyperparameter.py"],
      [("composition", S + "configuration_space.py: ConfigurationSpace.add_configuration_space"), ("copying of conditions and clauses", S + "conditions.py, forbidden.py: __copy__")]),
    p("P20", "Removing priors keeps domain, defaults and constraints",
      "Removing the priors of a space gives a space with the same names, domains, scales, defaults, conditions and forbidden clauses in which every hyperparameter is uniform, so exactly the same configurations are valid. Converting a single hyperparameter (to uniform, between integer and float) likewise keeps its name, bounds, scale and default, and the original is not modified.",
      ["inputs", "configurations"],
      "all spaces with normal, beta, weighted and plain hyperparameters and nested constraints",
      "Every type and every nesting of constraints is substituted by separate code.",
      [S + "configuration_space.py", HP + "normal_*.py", HP + "beta_*.py", HP + "categorical.py"],
      [("substitution", S + "configuration_space.py: remove_hyperparameter_priors, substitute_hyperparameters_in_conditions, substitute_hyperparameters_in_forbiddens"), ("conversions", HP + "*.py: to_uniform, to_float, to_integer")]),
    p("P21", "A generated grid is complete, valid and exact",
      "The grid generated for a space holds exactly the valid configurations that can be formed from the choices of categoricals and ordinals, the constants and the requested number of evenly spaced points (on the declared scale, ends included) of each numeric hyperparameter. Every configuration occurs once per combination of grid points, conditional hyperparameters appear exactly where active, forbidden combinations are left out; a numeric hyperparameter without a number of points is refused.",
      ["inputs", "configurations"],
      "all spaces of categorical, ordinal, constant and uniform hyperparameters with conditions and clauses, all step counts",
      "Completeness over conditional subspaces cannot be seen from spot checks.",
      [S + "util.py"],
      [("grid expansion", S + "util.py: generate_grid")]),
    p("P22", "Equal seeds give equal results",
      "Two equal spaces with the same seed that receive the same sequence of calls return the same samples, and seeding again restarts the sequence; the same holds for neighbors and for sampling single hyperparameters with a given random state. Results do not depend on the process, on string hashing, on global random state, or on what is done with other spaces, and global random state is left alone.",
      ["inputs", "histories", "schedules"],
      "all spaces, seeds and interleavings of sampling, neighbor and read-only calls on several spaces, in different processes",
      "Hidden shared state or iteration over unordered containers shows only across processes and interleavings.",
      [S + "configuration_space.py", S + "util.py", HP + "distributions.py", S + "_condition_tree.py"],
      [("random state of a space", S + "configuration_space.py: ConfigurationSpace.seed, sample_configuration"), ("random state of neighbors", S + "util.py: get_one_exchange_neighbourhood, get_random_neighbor")],
      state=[("random state", "owned by the space", S + "configuration_space.py: ConfigurationSpace.random")]),
    p("P23", "Imputing and deactivating are exact inverses",
      "Imputing a configuration keeps all active values and gives every inactive hyperparameter its default (or the number asked for), leaving the given configuration unchanged; it is refused only if the completed assignment holds an illegal value or matches a forbidden clause. Removing inactive hyperparameters from any assignment that covers the active ones, with or without values for inactive ones, gives the valid configuration of the active values, so it undoes an imputation.",
      ["inputs", "configurations"],
      "all spaces and configurations, all additional values of inactive hyperparameters",
      "Chains of inactive parents have to be resolved for every graph.",
      [S + "util.py"],
      [("imputation", S + "util.py: impute_inactive_values"), ("deactivation", S + "util.py: deactivate_inactive_hyperparameters")]),
    p("P24", "Work grows moderately with the size of the space",
      "The work for building a space, for creating, validating and changing a configuration and for sampling and for comparing, writing and reading back a space grows at most polynomially (low degree) in the number of hyperparameters, the depth of condition chains and the number of clauses, and linearly in the number of samples. In particular long chains and dense layers of conditions, as well as many clauses with shared parts, can be added and used.",
      ["inputs", "configurations"],
      "families of spaces of growing size: chains, trees, layers of several parents, shared clauses, wide spaces",
      "Tests use small spaces where exponential work is invisible.",
      [S + "_condition_tree.py", S + "configuration_space.py", S + "util.py"],
      [("rebuilding of derived structures", S + "_condition_tree.py: DAG.update"), ("change propagation", S + "util.py: change_hp_value")]),
    p("P25", "Definitions are checked and shorthands mean the same",
      "A hyperparameter can only be defined with consistent parameters: ordered bounds, positive bounds on a log scale, a default inside the domain, distinct choices, one finite non-negative weight per choice not all zero, positive spread, finite numbers. Conditions and clauses can only use values the hyperparameter can take. The shorthand forms (plain ranges, lists and constants, and the short constructors) define exactly the same hyperparameters as the explicit ones.",
      ["inputs"],
      "all combinations of parameters, valid and invalid",
      "Each constructor checks separately; a missing check shows only for that one input.",
      [HP + "*.py", S + "api/types/*.py", S + "configuration_space.py", S + "conditions.py", S + "forbidden.py"],
      [("constructors", HP + "*.py: __init__"), ("shorthands", S + "api/types/{float,integer,categorical}.py and " + S + "configuration_space.py: ConfigurationSpace.__init__")]),
    p("P26", "Numeric helper functions match their definition",
      "Splitting a range or a linear spacing into chunks gives, concatenated, the same numbers as doing it at once; splitting a range around a pivot gives all other numbers; scaling, normalising and rescaling are inverse to each other and monotone. Quantising maps any point to one of the evenly spaced levels (on the given scale) that contains it, keeps the ends and is idempotent.",
      ["inputs"],
      "all ranges, step counts, chunk sizes, scales and points",
      "Chunk borders and level borders depend on the numbers.",
      [S + "functional.py"],
      [("chunked ranges, quantisation, scaling", S + "functional.py")]),
    p("P27", "Estimated size bounds the number of configurations",
      "The size of a hyperparameter is the number of values it can take (infinite for floats), and the estimated size of a space is exactly the number of its configurations when there are no conditions and clauses and an upper bound otherwise.",
      ["inputs", "configurations"],
      "all spaces",
      "Needs counting all configurations of many spaces.",
      [S + "configuration_space.py", HP + "*.py"],
      [("size", S + "configuration_space.py: ConfigurationSpace.estimate_size, " + HP + "*.py: size")]),
    p("P28", "Fixing types restores the typed configuration",
      "Giving every value of a valid configuration as text and fixing the types restores the original values with their types for every hyperparameter type, and a text that matches none or several of the choices is refused. Values that already have the right type stay as they are, unless their text is ambiguous.",
      ["inputs"],
      "all spaces with distinguishable choices and all configurations",
      "Each hyperparameter type is converted by its own branch.",
      [S + "util.py"],
      [("type fixing", S + "util.py: fix_types")]),
    p("P29", "Equality and copies of definitions are sound",
      "Equality of hyperparameters, conditions, clauses and spaces is reflexive and symmetric; a (deep) copy is equal to and independent of its original; two definitions that differ in any parameter that changes their meaning (name, bounds, scale, prior, default, choices, weights, condition value, clause) are not equal, where conjunctions are sets of parts. Spaces that are equal accept the same configurations.",
      ["inputs"],
      "all definitions and all single-parameter variations of them",
      "A field left out of a comparison shows only for a pair that differs in just that field.",
      [HP + "*.py", S + "conditions.py", S + "forbidden.py", S + "configuration_space.py"],
      [("equality", HP + "*.py, " + S + "conditions.py, forbidden.py, configuration_space.py: __eq__"), ("copying", "__copy__ methods")]),
    p("P30", "Samples of a space follow the priors restricted to valid configurations",
      "The configurations sampled from a space follow the declared priors of its hyperparameters, restricted to the valid configurations: each one comes with a probability proportional to the product of the probabilities of its active values. This is the same for every requested number of samples and every way of splitting the draws into calls, and one sample says nothing about the next one.",
      ["inputs", "histories", "configurations"],
      "all spaces with conditions and clauses, all numbers of samples and sequences of sampling calls, all seeds",
      "Every single sample of a biased sampler is valid; only frequencies over many draws against the exact joint distribution show the bias.",
      [S + "configuration_space.py", S + "_condition_tree.py"],
      [("rejection of forbidden rows and collection of accepted ones", S + "configuration_space.py: ConfigurationSpace.sample_configuration")]),
    p("P31", "Spaces made from the same parts do not influence each other",
      "Hyperparameters, conditions and forbidden clauses can be used in several spaces, as given objects, as reported by another space or as parts of new conjunctions, and each space behaves according to its own contents only. Adding parts to one space, or having one refuse them, never changes the samples, accepted configurations, neighbors or reports of another, nor configurations created before.",
      ["inputs", "histories", "configurations"],
      "all sets of parts, all ways of sharing them between spaces of different layout, all orders of building and using these spaces",
      "Positions of hyperparameters are stored in the shared objects, so that the damage shows only in the other space and only if its layout differs.",
      [S + "configuration_space.py", S + "conditions.py", S + "forbidden.py", S + "_condition_tree.py"],
      [("positions stored in conditions and clauses", S + "conditions.py, " + S + "forbidden.py: set_vector_idx"), ("adding parts", S + "configuration_space.py: ConfigurationSpace.add")]),
    p("P32", "Older names give the same results as their replacement",
      "Every deprecated name that is still available (reading and adding parts of a space, checking configurations, legality, density, sampling, neighbors and conversion of a hyperparameter, JSON text) gives the same result, or raises the same kind of error, as what it is documented to be replaced by.",
      ["inputs", "configurations"],
      "all hyperparameters and spaces, all deprecated names",
      "The older names are hardly tested, and need the whole range of definitions to be compared.",
      [S + "configuration_space.py", HP + "hyperparameter.py", S + "conditions.py", S + "forbidden.py", S + "c_util.py", S + "read_and_write/json.py"],
      [("deprecated names", S + "configuration_space.py, " + HP + "hyperparameter.py: names marked as deprecated")]),
    p("P33", "A copy of a hyperparameter with changes is the changed definition",
      "Copying a hyperparameter with changed attributes gives exactly the hyperparameter defined with the remaining attributes of the original and the changed ones, with the same behaviour, and is refused exactly when that definition would be. The original stays as it was, also through chains of such copies.",
      ["inputs", "histories"],
      "all hyperparameters, all subsets of changed attributes, consistent or not, all chains of copies",
      "Each type has its own set of attributes; a lost or stale one shows only if it matters for the change.",
      [HP + "hyperparameter.py", HP + "*.py"],
      [("copying with changes", HP + "hyperparameter.py: Hyperparameter.copy")]),
    p("P34", "Own hyperparameter types made of the library's components work everywhere",
      "A user's hyperparameter type that combines the published distributions, transformers and neighborhoods as documented draws legal values that follow the given distribution, reports its density, converts values and vectors into each other, has legal, distinct and different neighbors, as many as asked for or available, and is equal to its copies only. Spaces containing such types sample, validate, are changed, composed, copied and compared like any other space. With the user's encoders and decoders, for own or built-in parts and inside conjunctions as well, they are written and read back as an equal space, and without them this is refused.",
      ["inputs", "configurations"],
      "all compositions of components and all their parameters, all spaces containing them, all sets of encoders and decoders",
      "Most components are only tested inside the built-in types, which use a few of the combinations.",
      [HP + "distributions.py", HP + "hp_components.py", HP + "hyperparameter.py", S + "configuration_space.py"],
      [("distributions and neighborhoods", HP + "distributions.py"), ("transformers", HP + "hp_components.py"), ("encoders and decoders", S + "configuration_space.py: to_serialized_dict, from_serialized_dict")]),
    p("P35", "Asking changes nothing, and what is handed out or passed in stands alone",
      "Asking a space, a configuration or a hyperparameter for anything (samples, defaults, neighbours, grids, sizes, densities, conversions, serialised or printed forms, copies, comparisons) changes neither it, nor any argument, nor any configuration handed out before, apart from the position of the random generator when samples are drawn. Configurations, copies, serialised forms and arrays that are handed out, and lists and dictionaries that were passed in, can be changed afterwards without affecting the space, its parts or anything else handed out. Neighbourhoods iterated in turns yield what each yields alone.",
      ["histories", "inputs", "configurations"],
      "all sequences of questions to all spaces, all later changes of what was handed out or passed in, all interleavings of iterated neighbourhoods",
      "Tests ask one question of a fresh space and do not look at everything else afterwards.",
      [S + "configuration.py", S + "util.py", S + "conditions.py", HP + "distributions.py", HP + "categorical.py"],
      [("assignment replaces the vector", S + "configuration.py: __setitem__"), ("neighbourhood iterator", S + "util.py: get_one_exchange_neighbourhood"), ("densities", HP + "distributions.py: pdf_vector"), ("values given by the caller", S + "conditions.py: InCondition")]),
    p("P36", "A failure or interruption inside user code leaves everything as it was",
      "If code supplied by the user (the conversion, distribution or neighbourhood of an own type, an encoder or decoder, an iterator of parts, a file being written to or read from) raises or is interrupted at any of its calls, the error reaches the caller and the space, its parts and all configurations handed out are as before, apart from the position of the random generator and the file the user passed. Repeating the operation gives the result it would have given without the failure. A failing encoder leaves an already existing file as it was.",
      ["fault_sequences", "inputs", "histories"],
      "all operations, all calls of user code they make, all kinds of errors and interruptions, all sequences of such failures",
      "Tests use the built-in types, which do not fail, and never interrupt an operation.",
      [S + "configuration_space.py", S + "configuration.py", S + "util.py", HP + "hyperparameter.py"],
      [("restoring after a failed addition", S + "configuration_space.py: add"), ("values converted on demand", S + "configuration.py: __getitem__"), ("encoders and files", S + "configuration_space.py: to_json, to_serialized_dict")]),
    p("P37", "It does not matter in which form numbers, values and parts are given",
      "A space whose bounds, defaults, weights, choices and values of conditions and clauses are given as numpy scalars of any size or as whole floats or integers, and whose collections are given as tuples, ranges, arrays, sets or other collections instead of lists, equals the one given in plain Python values: same default, samples, densities, neighbours, grid and serialised content, and both are written and read back as the same space. Assignments given in such forms, in any mapping and order, are accepted or rejected alike and give the same vector. Values the library itself has drawn can be used wherever a value is expected.",
      ["inputs", "configurations"],
      "all spaces, all assignments, all types of numbers that hold the value exactly, all collections accepted in place of a list",
      "Tests write plain values; what differs is the precision numpy calculates in, its printed form and what JSON can express.",
      [HP + "hp_components.py", HP + "*_float.py", S + "configuration.py", S + "conditions.py", S + "_condition_tree.py", S + "configuration_space.py"],
      [("conversion to vectors", HP + "hp_components.py: UnitScaler.to_vector"), ("rounding of floats", HP + "uniform_float.py, " + S + "configuration.py"), ("collections of values", S + "conditions.py: InCondition"), ("order of clauses", S + "_condition_tree.py: DAG"), ("numpy values in texts", S + "configuration_space.py: to_serialized_dict")]),
    p("P38", "Conversions between kinds of numbers keep range, scale and default",
      "Turning an integer hyperparameter into a float one keeps its name, bounds, scale, prior and default, and turning the result back gives the same range, scale and default. Turning a float into an integer one keeps the whole numbers inside of its bounds, its scale and prior and the default rounded to one of them, and is refused if there are fewer than two. Turning either into a uniform one keeps everything but the prior, and the original is never changed.",
      ["inputs"],
      "all float and integer hyperparameters of all priors, scales, bounds and defaults, also defaults beyond the outermost whole number",
      "The default leaves the rounded range only for particular bounds; tests convert a few round ones.",
      [HP + "uniform_float.py", HP + "uniform_integer.py", HP + "normal_float.py", HP + "normal_integer.py", HP + "beta_float.py", HP + "beta_integer.py", HP + "hyperparameter.py"],
      [("rounding of bounds and default", HP + "uniform_float.py: to_integer"), ("prior of the result", HP + "beta_float.py: to_integer"), ("uniform equivalent", HP + "hyperparameter.py: to_uniform")]),
]

with open("/verif/properties.jsonl", "w") as f:
    for x in PROPS:
        assert len(x["title"]) <= 80, x["id"]
        assert "  " not in x["statement"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(PROPS))
