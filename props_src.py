"""Source of properties.jsonl (python3 props_src.py rewrites it)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


FT = "featuretools/"
CFM = FT + "computational_backends/calculate_feature_matrix.py"
FSC = FT + "computational_backends/feature_set_calculator.py"
FS = FT + "computational_backends/feature_set.py"
CU = FT + "computational_backends/utils.py"
ES = FT + "entityset/entityset.py"
EN = FT + "entityset/entity.py"
SER = FT + "entityset/serialize.py"
DES = FT + "entityset/deserialize.py"
FB = FT + "feature_base/feature_base.py"
FSER = FT + "feature_base/features_serializer.py"
FDES = FT + "feature_base/features_deserializer.py"
DFS = FT + "synthesis/dfs.py"
DEEP = FT + "synthesis/deep_feature_synthesis.py"
PB = FT + "primitives/base/primitive_base.py"
PU = FT + "primitives/utils.py"
PA = FT + "primitives/standard/aggregation_primitives.py"
PT = FT + "primitives/standard/transform_primitive.py"
PBIN = FT + "primitives/standard/binary_transform.py"
PCUM = FT + "primitives/standard/cum_transform_feature.py"

prop("C01", "Point-in-time correctness: no data after the cutoff reaches a feature",
     "A feature value computed for an instance at a cutoff time uses only rows whose time-index value is at or before that cutoff (strictly before it when the caller asks to exclude the cutoff), for every entity, relationship hop, full-entity primitive, approximated or precalculated value, and for the default choice of instances. Values of secondary-time-index columns recorded later than the cutoff are hidden in the same way.",
     ["inputs", "configurations"], "every EntitySet, cutoff-time table or scalar, feature list, chunking, approximate setting and include_cutoff_time choice",
     "Tests use a handful of small EntitySets and cutoff tables; a route (a merge, a full-entity branch, a forwarded default) that skips or loosens the filter only shows on data whose rows straddle the cutoff along that route.",
     [CFM, FSC, ES, CU],
     [("time filter applied to each entity read", ES + " EntitySet.query_by_values / _handle_time"), ("cutoff handed down from public call to each entity read", CFM + " calculate_chunk; " + FSC + " run/_calculate_features_for_entity"), ("approximation bins", CU + " bin_cutoff_times")],
     ["calculate_feature_matrix result", "dfs result", "EntitySet.query_by_values result"])

prop("C02", "Training window, use_previous and where only ever narrow the rows used",
     "When a training window is given, a feature at a cutoff ignores rows older than cutoff minus window unless the row's last time index falls inside the window, with the window's open edge on the side opposite to the included cutoff. Aggregations with a where-condition see only rows satisfying it, and aggregations with use_previous see only the rows inside that span (or the last n observations) before the cutoff.",
     ["inputs", "configurations"], "every window, use_previous span, where condition, data set and execution route (serial, parallel, approximated)",
     "Boundary rows and combinations (window with excluded cutoff, last time index outside while row inside, where with use_previous) are sampled at a few points only.",
     [CFM, FSC, ES, FB],
     [("window mask", ES + " EntitySet._handle_time"), ("window handed down", CFM), ("where and use_previous restriction", FSC + " _calculate_agg_features")],
     ["calculate_feature_matrix result", "EntitySet.query_by_values result"])

prop("C03", "Caller's option reaches the computation on every route",
     "Every option a user passes to the public feature-synthesis or feature-matrix call takes effect exactly as given, whether computation runs in-process or on a Dask cluster, in one chunk or many. In particular the in-process and the distributed route are given the same options.",
     ["configurations"], "every combination of public options and both execution routes",
     "An option dropped or swapped on one route only matters for the configurations that use it together with that route; tests cover a sparse subset of combinations.",
     [DFS, CFM, FSC],
     [("option forwarding", DFS + " dfs; " + CFM + " calculate_feature_matrix, calculate_chunk, parallel_calculate_chunks")],
     ["dfs", "calculate_feature_matrix"])

prop("C04", "Public calls never modify the caller's objects",
     "Calling the public API to synthesize, compute, select, encode, save or query leaves the arguments the caller still owns unchanged: cutoff-time tables, feature lists, option dictionaries and their nested lists, dataframes handed in for computation, and the EntitySet's stored data. Only methods documented to change an EntitySet or Entity change it.",
     ["inputs", "histories"], "every argument value and every sequence of calls that reuses the same objects",
     "Tests seldom reuse an argument after a call or compare it with a prior copy, so in-place changes go unnoticed until a later call in the same program.",
     [CFM, DFS, DEEP, ES, EN, FT + "selection/selection.py", FT + "synthesis/encode_features.py", CU],
     [("defensive copies before in-place operations", "all public entry points")],
     ["arguments after the call", "second call with the same arguments"])

prop("C05", "EntitySet metadata is never stale",
     "After any operation that changes an EntitySet's entities, variables, variable types, indexes, interesting values, relationships or data, the next read of its metadata describes the changed EntitySet.",
     ["histories"], "every sequence of structural operations interleaved with metadata reads, feature construction and saving",
     "Tests read metadata after one or two mutators; each mutator-read pair must hold for every order of operations.",
     [ES, EN],
     [("cached data description reset by every mutator", ES + " reset_data_description; " + EN)],
     ["EntitySet.metadata", "feature construction (binds to metadata)"],
     [("cached metadata", "lazily built copy of the data description", ES + " metadata")])

prop("C06", "A saved EntitySet is read back with everything that was written",
     "Every piece of structure that saving an EntitySet writes - ids, indexes, time indexes, secondary time indexes, variable names, types, properties and type arguments, interesting values, relationships, and the data in each supported format with its options - is consumed when it is loaded, so no saved part is silently dropped, misnamed or reinterpreted. Loading does not depend on having been done before, and repeating it gives the same result.",
     ["inputs", "configurations", "histories"], "every EntitySet, every storage format and option, local, archive and remote location",
     "Round-trip tests use fixtures with default formats and few variable arguments; a key written under one name and read under another only matters for the EntitySets that use it.",
     [SER, DES, ES, FT + "variable_types/variable.py", FT + "entityset/relationship.py"],
     [("writer of descriptions and data", SER), ("reader of descriptions and data", DES)],
     ["EntitySet.to_csv/to_parquet/to_pickle", "read_entityset"])

prop("C07", "Saved or copied features keep every defining attribute",
     "Saving features and loading them again, and copying or renaming a feature, preserves every attribute that defines the feature: its inputs in order, primitive and primitive arguments, relationship path, where-condition, use_previous, group-by feature, output position and custom name. Every kind of feature can be saved and loaded.",
     ["programs", "inputs"], "every feature definition of every kind, nested to any depth",
     "Each attribute must survive on each feature kind; tests round-trip selected features where a lost attribute may equal its default.",
     [FB, FSER, FDES, FT + "entityset/timedelta.py", FT + "primitives/base/primitive_base.py", FT + "primitives/utils.py"],
     [("writer", FB + " get_arguments/to_dictionary; " + FSER), ("reader", FB + " from_dictionary; " + FDES), ("copy/rename", FB)],
     ["save_features", "load_features", "feature.copy/rename"])

prop("C08", "A primitive's configuration is fully recorded on the primitive",
     "Every constructor argument of every primitive is kept on the instance under its own name and is what the primitive's computation uses, so that serializing a primitive and building it again from the recorded arguments gives one that behaves the same. Primitives that differ in a configured argument that changes their output also differ in generated feature names, or in recorded arguments.",
     ["inputs", "programs"], "every primitive class and every argument value",
     "Tests build each primitive mostly with defaults, for which a lost, renamed or ignored argument is invisible.",
     [PA, PT, PBIN, PCUM, PB],
     [("constructor stores its arguments", PA + "; " + PT + "; " + PBIN), ("argument recording", PB + " get_arguments")],
     ["primitive.get_arguments", "serialized features", "feature values after load"])

prop("C09", "Distinct features never share a generated name",
     "The generated name of a feature, and the identity key used to look features up, encodes every part of its definition that changes its values: the inputs, primitive, relationship path, where-condition, use_previous and group-by variable. Two features of one entity that differ in any of these have different generated names, and multi-output features have one distinct name per output.",
     ["inputs", "programs"], "all pairs of features definable on an EntitySet",
     "Collisions need a pair of definitions differing in exactly one component; tests do not enumerate pairs.",
     [FB, PB, FT + "primitives/base/aggregation_primitive_base.py", FT + "primitives/base/transform_primitive_base.py", FT + "entityset/timedelta.py", PBIN],
     [("name generation", FB + " generate_name; primitives' generate_name"), ("identity key", FB + " unique_name / __eq__ / __hash__")],
     ["feature.get_name", "feature matrix columns"])

prop("C10", "Declared backend support is real",
     "Every primitive that declares support for a dataframe backend provides a computation for that backend, and building features for an EntitySet of some backend never selects a primitive that does not declare support for it.",
     ["programs", "configurations"], "every primitive and every backend, every primitive list given to feature synthesis",
     "Tests for the optional backends run a subset of the primitives (one backend is not installed here at all).",
     [PA, PT, PBIN, PB, DEEP],
     [("declaration", "primitive compatibility lists"), ("backend-specific computation", "primitive get_function"), ("filter", DEEP + " __init__")],
     ["dfs with Dask/Koalas entities"])

prop("C11", "Primitive calling contracts match their declared flags",
     "A primitive is handed the calculation time exactly when it declares that it needs it, receives one column per declared input, returns as many outputs as it declares, and is computed over the whole entity whenever its value for a row depends on other rows. No feature value depends on which other instances happen to be requested.",
     ["programs", "inputs"], "every primitive, every subset of instances requested",
     "A primitive missing its whole-entity flag agrees with the correct value whenever all instances are requested, which is what tests do.",
     [PA, PT, PBIN, PCUM, FSC],
     [("flags", "uses_calc_time, uses_full_entity, number_output_features, input_types"), ("call sites", FSC)],
     ["calculate_feature_matrix with instance subsets"])

prop("C12", "Primitive and variable type registries are unambiguous and complete",
     "Every built-in primitive and variable type can be found by its name, and no two share a name, so that a name given by a user or found in a saved file selects exactly the intended class. Every variable type has the default values and conversions that the rest of the library looks up for it.",
     ["programs"], "every built-in class and every pair of them",
     "Tests look up some names; uniqueness and completeness quantify over all classes and pairs.",
     [PU, FT + "primitives/api.py", FT + "variable_types/variable.py", FT + "variable_types/utils.py", FT + "utils/entity_utils.py"],
     [("name lookups", PU + "; " + FT + "variable_types/utils.py"), ("dtype defaults", FT + "variable_types/variable.py")],
     ["get_aggregation_primitives", "get_transform_primitives", "list_variable_types", "load_features"])

prop("C13", "Results are deterministic",
     "For the same inputs and options, feature definitions and their order, feature matrix columns and their order, inferred variable types, and saved files are the same in every process: nothing observable depends on hash seeds, set iteration order, unseeded randomness or object addresses.",
     ["inputs", "schedules", "histories"], "every input, every process and hash seed",
     "One process has one hash seed; order differences show only between processes.",
     [DEEP, FSC, FS, FT + "utils/entity_utils.py", FB, FSER, PU, FT + "synthesis/encode_features.py"],
     [("ordered iteration / explicit sorting", DEEP + " dfs; " + FS + " group_features"), ("seeding", FT + "utils/entity_utils.py")],
     ["dfs feature list order", "feature matrix columns", "inferred types"])

prop("C14", "Feature synthesis honours the user's restrictions",
     "Feature synthesis never produces a feature that violates a restriction the user gave: ignored entities and variables, allowed paths, maximum depth, maximum feature count, per-primitive include/ignore options, drop and exclude filters, or a primitive's own stacking restrictions. Each restriction is applied to every kind of feature it concerns. The maximum depth limits the inputs a feature is built from; a where-condition and a last direct hop may add to it by design, and stacking rules belong to the primitives that declare them.",
     ["configurations", "inputs"], "every EntitySet, every combination of restrictions, every kind of generated feature",
     "A restriction missed for one feature kind or one recursion only shows in EntitySets and option combinations that reach it.",
     [DEEP, FT + "primitives/options_utils.py", DFS],
     [("restriction checks in each builder", DEEP), ("option normalisation", FT + "primitives/options_utils.py")],
     ["dfs(features_only=True) result"])

prop("C15", "Feature matrix and feature list stay in step",
     "Every function that returns a feature matrix together with a feature list returns features whose output columns are exactly the matrix columns it returns, including features with several output columns and partially kept ones. Columns are never dropped without their feature nor kept without one, except pass-through columns.",
     ["inputs"], "every matrix, feature list and option, including multi-output features",
     "Tests use mostly single-output features.",
     [FT + "selection/selection.py", FT + "synthesis/encode_features.py", DFS],
     [("joint selection", FT + "selection/selection.py"), ("encoding", FT + "synthesis/encode_features.py")],
     ["selection functions", "encode_features", "dfs"])

prop("C16", "Resources are released on every exit",
     "Clients, clusters, temporary directories and file handles that the library itself opens are released on every exit of the operation that opened them, including when it fails part-way; those supplied by the caller are left open.",
     ["fault_sequences", "crash_points"], "every failure point inside an operation that owns a resource",
     "Failure exits between acquisition and release are not exercised.",
     [CFM, CU, SER, DES, FSER, FDES, FT + "utils/s3_utils.py", FT + "utils/plot_utils.py"],
     [("release in finally / with", CFM + " parallel_calculate_chunks; " + SER + "; " + DES)],
     ["open files, processes, directories after a failing call"])

prop("C17", "Plugin hooks see every call exactly once",
     "For every wrapped public call each plugin observes the call with its actual arguments before it runs, and then exactly one of its return value or its error; the wrapped call returns or raises exactly what the unwrapped function would. A failure to load a plugin never prevents the library from loading.",
     ["inputs", "fault_sequences"], "every wrapped call, every outcome, every set of plugins",
     "Tests use one well-behaved mock plugin and a few outcomes.",
     [FT + "utils/entry_point.py", FT + "__init__.py", DFS],
     [("hook wrapper", FT + "utils/entry_point.py"), ("plugin loading", FT + "__init__.py")],
     ["plugin callbacks", "dfs return value"])

prop("C18", "Features computed together are computed by their own definition",
     "When features are computed in one batch, each one gets the value it would have if computed alone: features share a batch only if they agree on every attribute the batch computation takes from one of them, such as kind, relationship path, where-condition, use_previous and group-by variable. A dependency is always computed before the features that need it.",
     ["inputs", "configurations"], "every list of features, in every combination",
     "Wrong grouping needs two features that differ in exactly the attribute the key misses, in one request.",
     [FS, FSC],
     [("grouping key", FS + " group_features"), ("batch handlers", FSC)],
     ["calculate_feature_matrix with many features versus one at a time"])

prop("C19", "Every kind of feature is supported by every operation on features",
     "Every kind of feature a user can build can be computed, described, drawn, saved, loaded, copied, renamed and used as the input of another feature; no operation fails or silently skips a kind that another supports.",
     ["programs"], "every feature kind crossed with every operation",
     "The cross product is tested at a few points.",
     [FB, FSC, FDES, FT + "feature_base/feature_descriptions.py", FT + "feature_base/feature_visualizer.py"],
     [("dispatch by kind", FSC + " _feature_type_handler; " + FDES + "; feature_descriptions.py; feature_visualizer.py")],
     ["calculate_feature_matrix", "describe_feature", "graph_feature", "save_features/load_features"])

prop("C20", "Linking columns across relationships use the declared keys",
     "Data is always joined along a relationship by that relationship's own parent and child variables, in the direction it is traversed, also when two entities are linked by several relationships or the path has several hops. Intermediate link columns are produced and looked up under the same name.",
     ["inputs"], "every relationship graph, including several relationships between the same two entities and multi-hop paths",
     "Fixtures mostly have a single relationship per entity pair, for which mixed-up keys or names coincide.",
     [FSC, FT + "utils/gen_utils.py", FT + "entityset/relationship.py", CFM, ES],
     [("ancestor link columns", FSC + " _add_ancestor_relationship_variables"), ("link column lookup", FT + "utils/gen_utils.py get_relationship_variable_id"), ("path search", ES + " find_forward_paths / find_backward_paths")],
     ["calculate_feature_matrix on multi-relationship EntitySets"])

prop("C21", "Time types are checked before they are used",
     "Every time index, secondary time index and cutoff time is checked to be of the EntitySet's single time type before it is accepted, and an incompatible one is rejected with an error that leaves the EntitySet's time type and the entity's time index as they were. A cutoff of the wrong kind is rejected before any feature is computed.",
     ["inputs", "histories"], "every order of adding entities and time indexes, every cutoff value type",
     "Tests reject a few examples; the check has to be on every path that accepts a time.",
     [EN, ES, CU, CFM, FT + "utils/wrangle.py"],
     [("time-type check", EN + " set_time_index / set_secondary_time_index"), ("cutoff check", CU + " _check_cutoff_time_type")],
     ["EntitySet.entity_from_dataframe", "calculate_feature_matrix errors"])

prop("C22", "Equality and hashing are consistent and complete",
     "Equality of entity sets, entities, variables, relationships and time spans compares every part that defines them and is symmetric, objects that compare equal have equal hashes, and deep equality actually compares the stored data.",
     ["inputs"], "all pairs of objects",
     "Tests compare a few pairs; a compared part that is missed only shows on a pair differing in exactly that part.",
     [ES, EN, FT + "entityset/relationship.py", FT + "entityset/timedelta.py", FT + "variable_types/variable.py", FT + "utils/wrangle.py"],
     [("__eq__/__hash__", "entityset, entity, relationship, timedelta, variable")],
     ["==, hash(), sets and dicts of these objects"])

prop("C23", "Operator primitives compute the operator they are named for",
     "Every arithmetic, comparison and logical primitive, the operator syntax on features that builds it, its displayed symbol and its computation all denote the same operation with the operands in the same order, with the scalar variants agreeing with the two-column variants. A primitive declared to treat its inputs as interchangeable (other than by the user's own choice) has a symmetric operation.",
     ["programs", "inputs"], "every operator primitive and operator overload, every operand",
     "Tests sample operand values, for which neighbouring operators (such as < and <=) often agree.",
     [PBIN, FB],
     [("operator primitives", PBIN), ("operator overloads", FB)],
     ["feature values", "feature names"])

prop("C24", "Progress files never lose or overwrite computed results",
     "With progress saving on, the rows of every computed chunk are present in the progress directory when the call ends, on every route: no chunk overwrites another chunk's file, and files the call did not create are not removed. A file with a final name is always complete.",
     ["inputs", "crash_points", "schedules"], "every cutoff table, chunk size, worker schedule and interruption point",
     "Collisions need cutoff times that map to one name, or chunks sharing a time; tests check the number of files in one layout.",
     [CU, CFM],
     [("file naming and atomic rename", CU + " save_csv_decorator"), ("cleanup", CFM + " calculate_feature_matrix")],
     ["save_progress directory"])

prop("C25", "Saved files from incompatible versions are recognised by version order",
     "When loading a saved EntitySet or features, the stored schema version is compared with the library's by numeric version order: a newer or an older-major file is reported to the user, and a compatible one loads without a report.",
     ["inputs"], "every pair of version strings",
     "Tests use a few version pairs; text comparison agrees with numeric order until a part reaches two digits.",
     [FT + "utils/gen_utils.py", DES, FDES, SER, FSER],
     [("version comparison", FT + "utils/gen_utils.py check_schema_version")],
     ["read_entityset / load_features warnings"])

prop("C26", "Library code only refers to names and members that exist",
     "No public operation fails with a name, attribute or call-signature error caused by the library itself: every name, module member, own-class attribute, method and argument the code refers to exists on every path, including rarely taken error paths and optional-backend paths.",
     ["programs", "inputs"], "every code path of the library",
     "Rare branches are not executed by tests, and a reference only fails when executed.",
     [FT],
     [("resolved references", "all modules of the package")],
     ["AttributeError/NameError/TypeError raised from inside the library"])

prop("C27", "The last time index covers every row and every child",
     "The last time index of an entity is, for every one of its rows, the latest time among the row itself and all rows linked to it through any chain of child relationships, including several relationships to the same child entity; it is refreshed when data it depends on is replaced.",
     ["inputs", "histories"], "every relationship graph, including several relationships between two entities, and every sequence of data updates",
     "Fixtures have one relationship per pair and complete children.",
     [ES, EN],
     [("last time index computation", ES + " add_last_time_indexes"), ("refresh", EN + " update_data; " + ES + " concat")],
     ["entity.last_time_index", "training-window results"])

prop("C28", "Structural changes keep the EntitySet consistent",
     "Adding, normalizing, concatenating or removing entities, variables and relationships keeps the EntitySet consistent: an entity's declared variables and its stored columns stay the same set, the index is the index, and every relationship refers to existing variables with matching types. Splitting an entity keeps every existing relationship and every value reachable through the new one.",
     ["histories", "inputs"], "every sequence of structural operations",
     "Histories are unbounded; tests apply one or two operations.",
     [ES, EN],
     [("structure mutators", ES + " entity_from_dataframe, normalize_entity, add_relationship, concat; " + EN)],
     ["EntitySet.entities, relationships, entity.df.columns"])

# declined -----------------------------------------------------------------
prop("C40", "Each primitive's numerical result is correct",
     "Every built-in primitive returns the mathematically documented value for every input column, including missing values, empty groups and extreme magnitudes.",
     ["inputs"], "every input column", "Only sampled columns are tested.",
     [PA, PT, PBIN, PCUM], [("primitive functions", PA)], ["feature values"])
prop("C41", "Chunking and parallelism do not change values",
     "The feature matrix is value-for-value identical for every chunk size, number of workers and completion order of the chunks.",
     ["schedules", "configurations"], "every chunking and schedule", "Tests use a few chunk sizes and one local cluster.",
     [CFM], [("chunk assembly", CFM)], ["calculate_feature_matrix"])
prop("C42", "Saved data reads back value-for-value",
     "Every value of every column survives saving and loading an EntitySet in each format, including missing values, time zones and nested values.",
     ["inputs"], "every column value and format", "Only fixture values are tested.",
     [SER, DES], [("pandas readers and writers", SER)], ["read_entityset"])
prop("C43", "Progress reports add up to one hundred percent",
     "Progress callbacks report monotonically increasing progress whose increments add up to exactly one hundred percent for every feature list, chunking and route.",
     ["inputs", "schedules"], "every feature list and schedule", "Tests check one or two totals.",
     [CFM, FSC], [("progress arithmetic", CFM)], ["progress_callback"])


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")


if __name__ == "__main__":
    main()
