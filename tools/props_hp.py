# Properties of single hyperparameters (read by props.py)
HC = HP + "hp_components.py"
HPS = [HP + f for f in ("hyperparameter.py", "categorical.py", "ordinal.py", "constant.py", "uniform_integer.py",
                        "uniform_float.py", "normal_integer.py", "normal_float.py", "beta_integer.py",
                        "beta_float.py")]
API = [SRC + "api/types/" + f for f in ("categorical.py", "integer.py", "float.py")]

prop("P22", "Values and vectors of a hyperparameter correspond, each in the other's range",
     "For every hyperparameter, legality of values and of vectors is exactly membership in the declared range (bounds "
     "included, integers only for integers), one by one or in arrays. to_vector maps each legal value to its place in "
     "the unit interval (linear or logarithmic; the position for choices), keeps the order of the values, and "
     "to_value brings back the very value with its type; to_value maps every legal vector to a legal value at that "
     "place. An ordinal's order functions agree with its sequence.",
     ["inputs"], "all hyperparameters of all types, ranges and scales; all legal and illegal values and vectors",
     "Tests convert a few values of chosen ranges; rounding at steps and bounds, mixed types of choices and arrays "
     "versus single values differ per range.",
     [HC, *HPS], [("transformers between values and vectors", HC), ("legal_value, legal_vector", HPS[0])],
     ["to_vector", "to_value", "legal_value", "legal_vector", "OrdinalHyperparameter.check_order/get_order"])

prop("P23", "Neighbours of a value are distinct other legal values, as many as there are",
     "The neighbours of a legal value are legal, differ from it and from each other, and there are as many as asked "
     "for or, if fewer exist, all that exist; those of an ordinal are the adjacent values only. get_num_neighbors "
     "says how many exist. The same seed gives the same neighbours, as values or as vectors, and neighbours of an "
     "illegal vector are refused.",
     ["inputs"], "all hyperparameters of all types and ranges, all legal values, counts, standard deviations and seeds",
     "Tests count neighbours of a few values; shortfalls and repetitions occur for small ranges, values at the bounds "
     "and large counts.",
     [HC, *HPS], [("neighbourhoods", HC), ("get_num_neighbors", HPS[0])],
     ["neighbors_values", "neighbors_vectorized", "get_num_neighbors"])

prop("P24", "Drawing from a hyperparameter follows its declared distribution",
     "Values drawn from a hyperparameter are legal, as many as asked for, and a function of the seed, the same as "
     "values or as vectors. Over many draws values occur as often as declared: evenly for uniform ones (on the log "
     "scale if logarithmic), in proportion to the weights for weighted choices (never for weight zero), and as the "
     "truncated normal or beta distribution says otherwise.",
     ["inputs"], "all hyperparameters of all types, ranges and distributions, all sizes and seeds",
     "Tests compare a few recorded draws of chosen hyperparameters with stored numbers.",
     [HC, SRC + "hyperparameters/distributions.py", *HPS],
     [("vector distributions", SRC + "hyperparameters/distributions.py")], ["sample_value", "sample_vector"])

prop("P25", "A hyperparameter is accepted iff its declaration makes sense, and is as declared",
     "Declaring a hyperparameter fails exactly if its name is no text, its range is empty, its choices repeat or are "
     "an unordered set, its default is outside the range (or no integer for an integer), its weights are negative, all "
     "zero or of the wrong number, it is logarithmic without being positive, or its distribution's parameters are out "
     "of range. Otherwise it has the declared name, range, scale, distribution, meta data and size, and as default "
     "the given one or else the middle, mean, mode or (most likely) first value.",
     ["inputs"], "all declarations, legal or not, of all types", "Tests try some illegal declarations of each type.",
     [HC, *HPS], [("checks in the constructors", HPS[4])], ["constructors and attributes of all hyperparameters"])

prop("P26", "Copies and conversions of hyperparameters keep the rest; equality is structural",
     "copy, deepcopy and pickling give an equal hyperparameter; a copy with changes differs in exactly these; "
     "to_uniform keeps everything but the distribution, to_float and to_integer keep name, range (rounded inwards), "
     "scale, distribution and (rounded) default. The source stays as it was. Two hyperparameters are equal exactly if "
     "name, type, range, scale, distribution, default and meta data are (for categoricals regardless of the order of "
     "choices and of meta data), symmetrically.",
     ["inputs", "histories"], "all hyperparameters, and pairs differing in nothing or one aspect",
     "Tests copy and compare a few; each attribute of each type can be dropped independently.",
     [HPS[0], *HPS[1:]], [("copy, __eq__", HPS[0]), ("to_uniform, to_float, to_integer", HPS[4])],
     ["Hyperparameter.copy", "copy.copy", "copy.deepcopy", "pickle", "to_uniform", "to_float", "to_integer", "=="])

prop("P27", "The short ways of declaring give the hyperparameters they stand for",
     "Integer, Float and Categorical with any combination of bounds, distribution, default, log, weights, order and "
     "meta data, and the dictionary shorthand of a space (two bounds, a list of choices, a constant), give exactly "
     "the hyperparameter that the long form would, and fail exactly when it would.",
     ["inputs"], "all combinations of arguments of the short forms",
     "Tests use a few combinations.", [*API, CSPACE],
     [("Integer, Float, Categorical", API[1]), ("dictionary shorthand", CSPACE)],
     ["ConfigSpace.Integer", "ConfigSpace.Float", "ConfigSpace.Categorical", "ConfigurationSpace({...})"])

prop("P28", "Densities belong to the distribution: zero outside, highest at the mode",
     "The density of a hyperparameter is zero outside its range and for choices of weight zero, never negative, the "
     "same by value and by vector, never above get_max_density and equal to it at the mode; constant for uniform ones, "
     "ordered as the weights for weighted choices, falling on both sides of the mode otherwise. Over all values of a "
     "finite hyperparameter densities add up to one.",
     ["inputs"], "all hyperparameters of all types, ranges and distributions; all values, legal or not",
     "Tests compare a few densities with stored numbers.",
     [HC, SRC + "hyperparameters/distributions.py", *HPS],
     [("vector distributions", SRC + "hyperparameters/distributions.py")],
     ["pdf_values", "pdf_vectorized", "get_max_density"],)

prop("P29", "Conditions and forbidden clauses: accepted iff sensible, equal iff the same",
     "Making a condition or forbidden clause fails exactly if a value is not legal for its hyperparameter, an order is "
     "asked of something without one, a condition's child is its own parent, or a conjunction mixes children, kinds "
     "or has too few parts. Otherwise it has the given parts in order. Equality is symmetric and holds exactly for the same "
     "terms up to the order of parts; copies are equal and independent; and a term on its own evaluates, by value, "
     "vector and array, to its meaning.",
     ["inputs", "histories"], "all terms, also nested and with repeated parts or hyperparameters of the same name",
     "Tests make and compare a few terms; nesting, repetition and almost equal terms are combinations.",
     [COND, FORB], [("constructors, __eq__, __copy__ of conditions", COND),
                    ("constructors, __eq__, __copy__ of forbidden clauses", FORB)],
     ["EqualsCondition and the others", "AndConjunction", "OrConjunction", "ForbiddenEqualsClause and the others",
      "==", "copy.copy"])

RW = SRC + "read_and_write/"
prop("P30", "A space written in a pcs format and read back says the same; or is refused",
     "Writing a space in the old or the new pcs format and reading the text gives a space with the same "
     "hyperparameters (name, kind, range, scale, default), conditions and forbidden clauses, as far as the format has "
     "them; what the format cannot express is refused when writing, never silently dropped or changed. The layout of "
     "the text (spaces, comments, blank lines) does not matter.",
     ["inputs"], "all spaces over hyperparameters the format knows, with conditions and forbidden clauses",
     "Tests read and write a few files; grammar corner cases (names and values that look like keywords or numbers, "
     "mixed and/or conditions) are combinations.",
     [RW + "pcs.py", RW + "pcs_new.py"], [("read and write", RW + "pcs.py"), ("read and write", RW + "pcs_new.py")],
     ["read_and_write.pcs.read/write", "read_and_write.pcs_new.read/write"])

prop("P31", "The older names of operations give what the current ones give",
     "Everything that can still be done through an older name (adding one kind of thing at a time, looking up "
     "hyperparameters, conditions, parents, children and indices by method, reading a configuration as a dictionary, "
     "checking it through the space, and the older methods of single hyperparameters for legality, conversion, "
     "drawing, neighbours and densities) does what the current name does.",
     ["configurations", "programs", "inputs"],
     "all spaces, histories and hyperparameters of the other properties, seen and used through the older names",
     "Tests call some of the older names once, to see that they exist.",
     [CSPACE, CFG, HP + "hyperparameter.py"], [("deprecated methods", CSPACE), ("deprecated methods", HP + "hyperparameter.py")],
     ["get_*, add_* of ConfigurationSpace", "Configuration.get_dictionary", "is_legal, sample, get_neighbors, pdf, ..."])

prop("P32", "Serialized spaces say what the space is, whoever writes or reads them",
     "What is written as a dictionary, JSON or YAML states the declared hyperparameters with all their settings, the "
     "conditions, the forbidden clauses, the name and the meta data; a dictionary written by hand or in the older "
     "style (older field names, settings left out, older form of relations) is read as the space it describes and is "
     "left unchanged; and custom encoders and decoders are used for exactly the types they are given for, also inside "
     "conjunctions.",
     ["configurations", "inputs"],
     "all spaces over all hyperparameter types, conditions and clauses; all choices of optional fields, field names, "
     "order of fields and of conditions; all subsets of types with custom coders",
     "Round trips do not notice what writer and reader get wrong together, and tests read a few stored files.",
     [DICT, CSPACE], [("encoders and decoders", DICT), ("to/from_serialized_dict", CSPACE)],
     ["ConfigurationSpace.to_serialized_dict / to_json / to_yaml", "from_serialized_dict / from_json / from_yaml"])

prop("P33", "Values given as text become the values of the hyperparameters",
     "Fixing the types of a dictionary of values gives, for every hyperparameter of the space, the value whose text was "
     "given, with its type, and leaves values that are already right, missing and other entries as they are; a text "
     "that none, or more than one, of the listed values has is refused.",
     ["configurations", "inputs"], "all spaces over all hyperparameter types, all assignments, any mixture of texts and values",
     "Tests fix the types of one dictionary for one space.",
     [UTIL], [("fix_types", UTIL)], ["util.fix_types"])

prop("P34", "Spaces made from other spaces live on their own",
     "A space obtained from another by deep copying, pickling, writing and reading, or removing priors can be "
     "extended, sampled, measured and compared like any other: everything said about spaces holds for it afterwards, "
     "and growing either of the two never affects the other.",
     ["histories", "programs"],
     "all histories of deriving spaces, also from derived ones, and of adding hyperparameters, conditions and "
     "forbidden clauses to any of them",
     "Tests look at a derived space right after it was made and do not go on with it.",
     [CSPACE, DAG, DICT], [("copies of the graph and its terms", DAG), ("remove_hyperparameter_priors", CSPACE)],
     ["copy.deepcopy", "pickle", "from_serialized_dict", "remove_hyperparameter_priors", "ConfigurationSpace.add"])
