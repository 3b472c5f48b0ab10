"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/ConfigSpace/"
CSPACE, DAG, CFG, UTIL = (SRC + f for f in ("configuration_space.py", "_condition_tree.py",
                                            "configuration.py", "util.py"))
COND, FORB, DICT = SRC + "conditions.py", SRC + "forbidden.py", SRC + "read_and_write/dictionary.py"
HP = SRC + "hyperparameters/"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files,
                           "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": observe, "hook_needed": None}))


prop("P01", "A hyperparameter is active iff its condition holds on its active parents",
     "For every space and every assignment of legal values, the hyperparameters reported active are exactly those "
     "that are unconditional or whose condition (any nesting of and/or over equals, not-equals, less-than, "
     "greater-than and in) holds for the values of their active parents; a condition on a parent without a value "
     "never holds. The same notion of activity decides which hyperparameters a checked configuration must and must "
     "not give a value.",
     ["configurations", "inputs"],
     "all condition graphs (chains, diamonds, several parents, nested conjunctions) over all hyperparameter types, "
     "and all assignments including inconsistent ones",
     "The tests evaluate a handful of fixed condition graphs on a few assignments; wrong propagation shows only for "
     "particular shapes (several levels, an Or over parents of different depth, not-equals on an inactive parent).",
     [CSPACE, DAG, COND, UTIL],
     [("minimum conditions in topological order", DAG), ("active hyperparameters", CSPACE),
      ("vector evaluation of conditions", COND)],
     ["ConfigurationSpace.get_active_hyperparameters", "Configuration", "Condition.satisfied_by_*"])

prop("P02", "A configuration is accepted iff it is valid, and refused for the right reason",
     "Creating a configuration from values, or checking one made from values or from a vector, succeeds exactly when every given value is "
     "legal, exactly the active hyperparameters have a value and no forbidden clause holds. Otherwise it fails with "
     "the error that names an actual defect: illegal value, active but not set, inactive but set, or forbidden; and "
     "an accepted configuration has exactly the values that were given.",
     ["configurations", "inputs"],
     "all spaces and all assignments: valid ones, and ones with any combination of missing, superfluous, illegal and "
     "forbidden values, given by value or by vector, strictly or allowing inactive values",
     "Tests check chosen valid and invalid configurations of fixed spaces; the quantifier is over all spaces and all "
     "ways of being invalid.",
     [UTIL, CFG, CSPACE], [("check_configuration", UTIL), ("construction from values", CFG)],
     ["Configuration(...)", "check_valid_configuration", "check_configuration_vector_representation"])

prop("P03", "Sampling gives exactly as many configurations as asked for, all of them valid",
     "Sampling n configurations from any space that has sufficiently many valid ones returns exactly n (one object "
     "when asked for a single one), each of which is a valid configuration of that space. No sampled configuration "
     "contains a choice of probability zero.",
     ["configurations", "inputs", "histories"],
     "all spaces with conditions, forbidden clauses and priors, all sizes and seeds",
     "Tests sample from some spaces and check some values; validity of every draw depends on the interplay of the "
     "condition graph with vectorised evaluation and rejection.",
     [CSPACE, DAG, COND, FORB], [("sample_configuration", CSPACE), ("vectorised conditions and forbiddens", DAG)],
     ["ConfigurationSpace.sample_configuration"])

prop("P04", "Sampling reaches every valid configuration and is determined by the seed",
     "Every valid configuration of a finite space without zero-probability choices can be drawn: drawing often enough "
     "yields all of them. Two equal spaces given the same seed and asked for the same sizes return the same "
     "configurations in the same order, whatever was sampled before.",
     ["configurations", "inputs", "histories"],
     "all finite spaces small enough to be enumerated; all spaces, seeds and sequences of sizes for determinism",
     "A test sees one run; a subset of configurations never being drawn, or hidden state surviving a reseed, needs "
     "the set of all valid configurations to compare with.",
     [CSPACE, DAG, HP + "hyperparameter.py", HP + "distributions.py"],
     [("sample_configuration", CSPACE), ("seed", CSPACE)],
     ["ConfigurationSpace.seed", "ConfigurationSpace.sample_configuration"])

prop("P05", "Assigning to a configuration keeps it valid, or fails and changes nothing",
     "After any sequence of assignments to hyperparameters of a configuration it is valid: the assigned value is "
     "taken, hyperparameters that stay active keep their value, newly active ones get their default, and newly "
     "inactive ones lose theirs, at every depth. An assignment of an unknown name, an illegal value, an inactive "
     "hyperparameter or one leading to a forbidden configuration raises the respective error and leaves the "
     "configuration as it was.",
     ["histories", "configurations", "inputs"],
     "all spaces, all starting configurations, all sequences of assignments, with reads in between",
     "Tests make one or two assignments on fixed spaces; stale cached values, partly propagated activity and partly "
     "applied failures need sequences and deep graphs.",
     [CFG, UTIL, DAG], [("__setitem__", CFG), ("change_hp_value", UTIL)], ["Configuration.__setitem__", "dict(config)"])

prop("P06", "What a space contains depends on what was added, not on how it was added",
     "However hyperparameters, conditions and forbidden clauses are ordered, split into calls or batched, the resulting "
     "spaces are equal, order their hyperparameters the same way (parents before children, then by name), and two "
     "spaces of different content are not equal. All accessors of a space (order, indices, parents, children, "
     "conditions, roots, forbidden clauses) agree with each other and with what was added.",
     ["programs", "configurations"],
     "all contents and all orders and batches of adding it",
     "Tests build spaces in one order; there are factorially many orders and batches.",
     [CSPACE, DAG], [("add", CSPACE), ("update / sorting of nodes", DAG)],
     ["ConfigurationSpace.add and the mapping interface", "parents_of / children_of / conditions", "=="])

prop("P07", "Adding something that does not fit fails and leaves the space unchanged",
     "Adding fails with the respective error when a name already exists, a condition's child or parent or a forbidden "
     "clause's hyperparameter is not in the space, a child gets a second different condition, conditions form a "
     "cycle, or the default configuration becomes forbidden; and only then. After a failed addition, also of a whole "
     "batch, the space is exactly what it was before and can be used and extended.",
     ["histories", "inputs", "fault_sequences"],
     "all spaces, all batches in which something does not fit, and all later additions",
     "Tests check that the error is raised, on small spaces; that nothing of a partly applied batch remains needs the "
     "complete state to be compared, and later operations.",
     [CSPACE, DAG], [("transaction around updates", DAG), ("add", CSPACE)], ["ConfigurationSpace.add", "accessors"])

prop("P08", "The default configuration is valid and consists of the defaults",
     "After every successful addition the default configuration is valid: every active hyperparameter has its own "
     "default value, no other has a value, and no forbidden clause holds. If the defaults would be forbidden the "
     "addition is refused.",
     ["configurations", "histories"],
     "all spaces and all histories of building them",
     "Tests look at the default of fixed spaces; activity of defaults depends on the whole condition graph.",
     [CSPACE, DAG], [("get_default_configuration", CSPACE), ("check of the default", CSPACE)],
     ["ConfigurationSpace.get_default_configuration", "ConfigurationSpace.add"])

prop("P09", "Serializing a space and reading it back gives an equal space",
     "For every space, writing it to the dictionary, JSON or YAML format and reading that gives a space that is equal "
     "to it and has the same hyperparameters with all their settings and meta data, the same conditions, forbidden "
     "clauses, name, meta data, order and default configuration. Reading leaves the serialized form unchanged, and it "
     "can be read again.",
     ["configurations", "inputs"],
     "all spaces over all hyperparameter, condition and forbidden types, all settings, all formats",
     "Tests round-trip chosen spaces, mostly compared with the library's own equality, which does not look at "
     "everything.",
     [DICT, SRC + "read_and_write/json.py", CSPACE], [("encoders and decoders per type", DICT)],
     ["to_serialized_dict / from_serialized_dict", "to_json / from_json", "to_yaml / from_yaml"])

prop("P10", "The one-exchange neighbourhood contains the valid single exchanges, only those",
     "Every configuration in the neighbourhood of a configuration is valid, differs from it, and results from giving "
     "a single active hyperparameter another value and adapting the activity of others, with defaults for what becomes "
     "active; ordinal values move to an adjacent one. For categorical, ordinal and small integer hyperparameters every "
     "such exchange that is allowed is returned, each once, and for others at most the requested number.",
     ["configurations", "inputs"],
     "all spaces, all configurations of them, all seeds and numbers of neighbours",
     "Tests count neighbours on a few spaces; completeness needs the set of all valid exchanges.",
     [UTIL, HP + "hyperparameter.py", HP + "distributions.py"],
     [("get_one_exchange_neighbourhood", UTIL), ("change_hp_value", UTIL)], ["util.get_one_exchange_neighbourhood"])

prop("P11", "A random neighbour is valid and differs in exactly one hyperparameter",
     "A random neighbour of a configuration is a valid configuration that differs from it in the value of exactly one "
     "active hyperparameter and has the same active ones; ordinal values move to an adjacent one. If there is no such "
     "configuration the respective error is raised rather than anything returned.",
     ["configurations", "inputs"], "all spaces, configurations and seeds",
     "Tests draw some neighbours on fixed spaces; the interesting cases are those where conditions or forbidden clauses "
     "leave few or no neighbours.",
     [UTIL], [("get_random_neighbor", UTIL)], ["util.get_random_neighbor"])

prop("P12", "The grid of a space consists of its valid grid configurations, each once",
     "The generated grid contains exactly the valid configurations whose values are all values of categoricals, "
     "ordinals and constants and the requested equally spaced points (on the scale of the hyperparameter, bounds "
     "included) of floats and integers; each of them once.",
     ["configurations", "inputs"], "all spaces with conditions and forbidden clauses and all numbers of steps",
     "Tests compare the grid of a few spaces; activation of whole subtrees during the expansion depends on the graph.",
     [UTIL], [("generate_grid", UTIL)], ["util.generate_grid"])

prop("P13", "Dropping inactive values gives a valid configuration with the rest kept",
     "Deactivating the inactive hyperparameters of an assignment that has a legal value for everything removes exactly "
     "the values of those hyperparameters that are not active once their parents are dealt with, and keeps all others; "
     "the result is a valid configuration. If the result is not valid, because an active value is missing or illegal "
     "or a forbidden clause holds, the respective error is raised.",
     ["configurations", "inputs"], "all spaces and assignments, by dictionary, configuration or vector",
     "Tests use one-level conditions; chains and conjunctions need all graphs.",
     [UTIL], [("deactivate_inactive_hyperparameters", UTIL)], ["util.deactivate_inactive_hyperparameters"])

prop("P14", "Imputing gives inactive hyperparameters their default and keeps the rest",
     "Imputing inactive values with defaults returns a configuration in which every hyperparameter has a value: active "
     "ones the value they had, all others their default; the given configuration is left unchanged.",
     ["configurations", "inputs"], "all spaces and configurations",
     "Tests impute a few configurations of one space.",
     [UTIL], [("impute_inactive_values", UTIL)], ["util.impute_inactive_values"])

prop("P15", "Nesting a space adds a renamed copy of it and leaves it untouched",
     "Adding a space under a prefix adds exactly its hyperparameters, conditions and forbidden clauses with prefixed "
     "names, at any nesting depth of conjunctions; with a parent given, exactly those that were unconditional become "
     "conditional on the parent's value. The nested space itself is unchanged and independent of the result, and a "
     "nesting that fails leaves the outer space unchanged.",
     ["configurations", "programs"], "all pairs of spaces, prefixes, delimiters and parents, also repeatedly",
     "Tests nest one or two small spaces and look at some of the result.",
     [CSPACE, DAG, COND, FORB], [("add_configuration_space", CSPACE), ("substitution of hyperparameters", DAG)],
     ["ConfigurationSpace.add_configuration_space"])

prop("P16", "Removing priors keeps everything about a space but its priors",
     "The space without priors has the same hyperparameters with the same values, bounds, scale and defaults, all "
     "distributed uniformly, and the same conditions and forbidden clauses; the original space keeps its priors.",
     ["configurations"], "all spaces over all hyperparameter types",
     "Tests convert single spaces and inspect the types.",
     [CSPACE], [("remove_hyperparameter_priors", CSPACE)], ["ConfigurationSpace.remove_hyperparameter_priors"])

prop("P17", "Conditions and forbidden clauses evaluate the same by value, vector and array",
     "For every assignment of legal values to some of the hyperparameters, each condition and each forbidden clause or "
     "relation gives the same answer when evaluated on the values, on the vector, and on an array of many vectors, and "
     "that answer is the meaning of the term; a term on a missing value does not hold.",
     ["configurations", "inputs"], "all condition and forbidden terms over all hyperparameter types, all assignments",
     "There are three separate implementations of every term; tests compare some of them at some points.",
     [COND, FORB], [("satisfied_by_value / vector / vector_array", COND),
                    ("is_forbidden_value / vector / vector_array", FORB)],
     ["Condition.satisfied_by_*", "Forbidden*.is_forbidden_*"])

prop("P18", "The estimated size is the product of the numbers of values",
     "The estimated size of a space is the product of the numbers of values of its hyperparameters, infinite exactly "
     "if one of them is continuous, and zero for the empty space.",
     ["configurations"], "all spaces",
     "Tests evaluate a few spaces.", [CSPACE], [("estimate_size", CSPACE)], ["ConfigurationSpace.estimate_size"])

prop("P19", "Configurations are mappings with value equality, equal ones hash equally",
     "A configuration iterates over exactly its active hyperparameters in the order of the space, and lookup, "
     "membership, items and vector agree. Two configurations are equal exactly if they have the same values in equal "
     "spaces, however they were made (values, vector, assignment, order of keys), and equal ones have equal hashes.",
     ["configurations", "histories", "inputs"],
     "all spaces and pairs of configurations obtained in different ways",
     "Tests compare a few configurations; representation differences between construction paths show only for some "
     "types and histories.",
     [CFG], [("__eq__, __hash__, __iter__, __getitem__", CFG)], ["Configuration as a mapping", "hash", "=="])

prop("P20", "Operations do not change the spaces and configurations they are given",
     "Sampling, checking, evaluating, generating neighbours or grids, imputing, deactivating, serializing, copying, "
     "removing priors and measuring a space leave every space and every configuration, other than one being assigned "
     "to, as they were; changing one configuration never changes another.",
     ["histories", "programs"], "all interleavings of these operations on all spaces",
     "Tests look at the result of an operation, not at everything else that is alive.",
     [CSPACE, CFG, UTIL, DAG], [("copies of vectors", UTIL), ("copies of nodes", DAG)], ["all public operations"])

prop("P21", "Copies of a space, also by pickling, are equal to it and independent",
     "A copy, deep copy or pickled and unpickled space equals the original and has the same hyperparameters, conditions, "
     "forbidden clauses, order, meta data and default configuration. A deep copy or unpickled space is independent: "
     "growing, seeding or drawing from one of the two never changes the other.",
     ["configurations"], "all spaces over all hyperparameter types",
     "Tests copy single spaces.", [CSPACE, DAG], [("copy, deepcopy, pickle protocols", CSPACE)],
     ["copy.copy", "copy.deepcopy", "pickle"])

exec(open(os.path.join(ROOT, "tools", "props_hp.py")).read()) if os.path.exists(
    os.path.join(ROOT, "tools", "props_hp.py")) else None

TRACES = "TLC trace validation of recorded histories of the real code against the TLA+ specification"
MACHINE = ("; TLC model checking of the specification's state machine (exhaustive and simulated), and replay of the "
           "behaviours TLC generates into the real code")
MODULES = {**{f"P{i:02d}": "spec/CSCore, CSOps, CSTrace and the machine CSMachine" for i in range(1, 22)},
           **{f"P{i:02d}": "spec/HPCore, HPTrace" for i in range(22, 29)},
           "P29": "spec/CSCore, TermTrace", "P31": "spec/CSCore, CSOps, CSTrace, HPCore, HPTrace",
           **{p: "spec/CSCore, CSOps, CSTrace" for p in ("P30", "P32", "P33", "P34")}}
NOTE = ("TLC decides every recorded event against the explicit specification ({}) and consumes each history "
        "completely; programs are generated from the seed, so spaces and histories are bounded and sampled.{} "
        "Trusted: TLC, the observation and encoding layer in harness/.")
LAW = (" The property's laws are also checked by TLC on the specification's own state machine over a small universe, "
       "and behaviours of that machine are replayed into the code.")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "bash bin/setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": f"bash bin/check.sh {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough bash bin/check.sh {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": TRACES + (MACHINE if "CSMachine" in MODULES[p["id"]] else ""),
                   "level": "model_checking", "level_note": NOTE.format(MODULES[p["id"]], LAW if "CSMachine" in MODULES[p["id"]] else "")} for p in P],
       "not_applicable": [],
       "notes": "No hooks in /repo: everything is observed through the public interface. Repairs are separate fix: "
                "commits, listed in known-findings.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
