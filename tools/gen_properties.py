#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the JSON is always valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("P01", "Cluster statistics equal a fresh rebuild after any history",
  "After any sequence of adding observations, removing them, and running any inference move on an IRM or HIRM, the statistics and joint score of every relation cluster equal those of a cluster freshly built, with the same hyperparameters, from exactly the values currently assigned to it. Hence the model score depends only on the current data, assignments and hyperparameters, never on the path that led there. Two noise models (sometimes_categorical and the bigram string emission) divide each observation between explanations by their belief at the time it arrives, so for them the statistics are compared by count and by exact retraction only.",
  ["histories", "inputs", "schedules"],
  "every schema of clean and noisy relations over every distribution and emission kind, every interleaving of incorporate, unincorporate, entity moves, relation moves, hyperparameter moves, latent-value moves and forward sampling, every PRNG outcome",
  "Tests make one or two hand-picked moves on tiny fixed models and compare a couple of numbers; drift only appears after particular sequences (repeated domains, emptied and reused clusters, noisy relations whose base moved).",
  ["cxx/clean_relation.hh", "cxx/noisy_relation.hh", "cxx/irm.cc", "cxx/hirm.cc", "cxx/transition_latent_value.hh", "cxx/distributions/", "cxx/emissions/"],
  [("incorporate/unincorporate keep per-cluster sufficient statistics", "cxx/clean_relation.hh CleanRelation::{incorporate,unincorporate}"),
   ("cluster move", "cxx/clean_relation.hh CleanRelation::set_cluster_assignment_gibbs"),
   ("relation move re-incorporates all data", "cxx/hirm.cc HIRM::{transition_cluster_assignment_relation,set_cluster_assignment_gibbs}")],
  ["CleanRelation::clusters", "Relation::logp_score", "IRM::logp_score", "HIRM::logp_score"])
p("P02", "Model indexes and partitions stay mutually consistent",
  "At every point between public operations on an IRM or HIRM, the stored observations, the reverse index from entities to observations, the per-domain entity sets and their partition into clusters, the set of live clusters, the assignment of relations to sub-models and the links from noisy relations to their base relations all describe the same model. In particular an entity is present in a sub-model exactly when some relation there observes it, no empty or unreachable cluster exists, every relation lives in exactly one sub-model, and every noisy relation refers to its live base.",
  ["histories", "inputs", "schedules"],
  "every schema, every interleaving of public operations including adding and removing relations, and every PRNG outcome",
  "Tests check a few fields after one fixed operation; dangling or stale entries only arise from sequences such as moving a relation out of a shared sub-model and back, or retracting the last observation of an entity used twice in one tuple.",
  ["cxx/irm.cc", "cxx/hirm.cc", "cxx/domain.hh", "cxx/clean_relation.hh", "cxx/noisy_relation.hh", "cxx/distributions/crp.cc"],
  [("entity cleanup on retract", "cxx/irm.cc IRM::unincorporate"), ("relation removal", "cxx/irm.cc IRM::remove_relation, cxx/hirm.cc HIRM::remove_relation"),
   ("base pointer refresh", "cxx/hirm.cc HIRM::update_base_relation"), ("CRP bookkeeping", "cxx/distributions/crp.cc CRP::{incorporate,unincorporate}")],
  ["public members of IRM, HIRM, Domain, CRP, CleanRelation, NoisyRelation"])
p("P03", "Inference never loses, alters or invents data",
  "Running any amount of inference on an IRM or HIRM leaves every observed value and the set of observed cells exactly as they were given. Only unobserved (latent) values may change, and the set of latent cells itself does not change.",
  ["histories", "inputs", "schedules", "configurations"],
  "every schema, data set, mix of inference kernels, interrupting time budget and PRNG outcome",
  "Tests never compare the complete data before and after inference; a lost or overwritten cell changes results only statistically.",
  ["cxx/inference.cc", "cxx/irm.cc", "cxx/hirm.cc", "cxx/transition_latent_value.hh"],
  [("inference loops", "cxx/inference.cc inference_irm, inference_hirm"), ("relation move copies data", "cxx/hirm.cc HIRM::transition_cluster_assignment_relation"),
   ("latent update touches only unobserved bases", "cxx/inference.cc, cxx/irm.cc single_step_irm_inference")],
  ["Relation::get_data"])
p("P04", "Entity cluster moves draw from the exact conditional",
  "Resampling the cluster of one entity chooses among its current clusters and one new cluster with probability proportional to the exponential of the joint model score of the resulting model. This holds for relations with any number of arguments, including the same domain and the same entity appearing more than once in a tuple.",
  ["histories", "inputs", "schedules"],
  "every reachable IRM state over conjugate relations, every entity, and every choice the sampler can make",
  "One fixed-seed test run cannot distinguish a slightly wrong weight from chance; weights must agree with the score in every reachable state, including states no test builds (repeated domains, diagonal cells).",
  ["cxx/irm.cc", "cxx/clean_relation.hh", "cxx/distributions/crp.cc"],
  [("Gibbs weights", "cxx/irm.cc IRM::transition_cluster_assignment_item"), ("exact data probabilities", "cxx/clean_relation.hh CleanRelation::logp_gibbs_exact"),
   ("CRP prior weights", "cxx/distributions/crp.cc CRP::tables_weights_gibbs")],
  ["IRM::transition_cluster_assignment_item", "IRM::logp_score", "Relation::logp_gibbs_exact"])
p("P05", "Structure inference visits models at their posterior frequencies",
  "On models small enough to enumerate, long runs of the inference kernels (entity moves, moves of relations between sub-models, concentration moves) visit every partition of relations and entities with frequency proportional to the exponential of the model score. No reachable structure is unreachable for the sampler and none is over- or under-represented.",
  ["schedules", "histories", "inputs"],
  "every enumerable model and every PRNG stream driving the sampler",
  "No existing test looks at where the sampler goes in the long run; wrong acceptance weights in relation moves pass every single-step test.",
  ["cxx/hirm.cc", "cxx/irm.cc", "cxx/distributions/crp.cc", "cxx/util_math.cc"],
  [("relation move", "cxx/hirm.cc HIRM::transition_cluster_assignment_relation"), ("entity move", "cxx/irm.cc IRM::transition_cluster_assignment_item"),
   ("categorical draw in log space", "cxx/util_math.cc log_choice, sample_from_logps")],
  ["HIRM::transition_cluster_assignments_all", "IRM::transition_cluster_assignments_all", "logp_score"])
p("P06", "Latent clean values are resampled coherently and in proportion",
  "When the clean value behind noisy observations is resampled, afterwards the base relation, every noisy relation over it and all their cluster statistics agree on the new value, and the noisy observations are unchanged. The new value is one of the values proposed by the noise models of its observers (one proposal per noise cluster), each chosen with probability proportional to the exponential of the joint score of the model holding that value, counting the prior on the clean value as well as the noise, for every noise model whose updates are exact.",
  ["histories", "inputs", "schedules"],
  "every arrangement of one base relation and its noisy observers in the same or different sub-models, every earlier history, every PRNG outcome",
  "Tests assert only a coarse range of the new value for three hand-built cases; the joint score and the noise statistics after the update are never compared with a rebuild.",
  ["cxx/transition_latent_value.hh", "cxx/noisy_relation.hh", "cxx/irm.cc", "cxx/hirm.cc"],
  [("candidate scoring and choice", "cxx/transition_latent_value.hh"), ("noisy relation value updates", "cxx/noisy_relation.hh NoisyRelation::update_value"),
   ("drivers", "cxx/irm.cc, cxx/hirm.cc transition_latent_values_relation")],
  ["Relation::get_value", "NoisyRelation::emission_relation", "logp_score"])
p("P07", "Hyperparameter moves follow their conditional and touch nothing else",
  "A concentration or hyperparameter move changes only that parameter: data, partitions and counts stay as they were. The value it leaves behind is drawn from the parameter's grid with probability proportional to the exponential of the score under that value, and never leaves the model with an undefined score. Latent rates that have no grid follow the Metropolis-Hastings rule for their prior and the data held.",
  ["histories", "inputs", "schedules"],
  "every distribution, emission and partition state reached by any history, and every PRNG outcome",
  "Tests call each move once and check only that the score did not get worse or did not crash.",
  ["cxx/distributions/", "cxx/emissions/", "cxx/distributions/crp.cc", "cxx/clean_relation.hh"],
  [("grid Gibbs", "cxx/distributions/*.cc transition_hyperparameters"), ("concentration", "cxx/distributions/crp.cc CRP::transition_alpha")],
  ["Distribution::transition_hyperparameters", "CRP::transition_alpha", "logp_score"])
p("P08", "Same inputs and seed give identical outputs",
  "Running the hirm or pclean program twice on the same input files with the same options and seed writes byte-identical result files. Neither the speed of the clock, verbose reporting, the environment, the location of the files nor memory layout changes what is written when no time budget is set.",
  ["schedules", "configurations", "inputs"],
  "every clock behaviour, environment, verbosity, working directory and input set",
  "Tests run each command once; nothing compares two executions under different conditions.",
  ["cxx/hirm_main.cc", "cxx/pclean/pclean.cc", "cxx/inference.cc", "cxx/irm.cc", "cxx/util_io.cc"],
  [("single explicit PRNG", "cxx/hirm_main.cc, cxx/pclean/pclean.cc std::mt19937 prng(seed)"), ("reporting", "cxx/inference.cc REPORT_SCORE")],
  ["output files of hirm and pclean"])
p("P09", "The inference time budget is respected under any clock",
  "With a time budget, inference starts no further sweep once the elapsed processor time exceeds the budget, always terminates, and leaves a complete and valid model; with no budget (zero), exactly the requested number of sweeps runs whatever the clock does. The budget covers the whole run, including nested inference loops.",
  ["schedules", "configurations", "histories"],
  "every budget, every pace, jump or stall of the clock at every reading, in IRM, HIRM and GenDB inference",
  "No test sets a timeout; real clocks never expire at the interesting instants.",
  ["cxx/inference.cc", "cxx/irm.cc"],
  [("budget check", "cxx/inference.cc CHECK_TIMEOUT"), ("nested loop", "cxx/inference.cc inference_gendb")],
  ["inference_irm, inference_hirm, inference_gendb", "stdout progress lines"])
p("P10", "Saved clusters reload to the same model",
  "Saving a model and loading the saved clusters with the same schema and observations, in a new process, reproduces the same partition of relations and of every domain's entities, the same observed data and noisy-to-base links, whatever seed the loading run uses. Saving that reloaded model again yields the same file up to ordering, and inference can continue from it.",
  ["histories", "crash_points", "inputs", "configurations"],
  "every schema (in any name order of clean and noisy relations), data set, amount of inference before the save, and restart seed",
  "Tests reload one tiny hand-made model; name orders, repeated entities and noisy relations are not covered.",
  ["cxx/util_io.cc", "cxx/hirm_main.cc", "cxx/irm.cc", "cxx/hirm.cc"],
  [("writer", "cxx/util_io.cc to_txt"), ("reader", "cxx/util_io.cc load_clusters_irm, load_clusters_hirm, from_txt")],
  ["<base>.<seed>.irm / .hirm files", "IRM, HIRM after from_txt"])
p("P11", "Loading does not depend on how the input bytes arrive",
  "Schemas, observations, cluster files and CSV tables load to the same contents however the operating system splits or interrupts the reads. Every line of the input is used exactly once, including a last line without a newline.",
  ["fault_sequences", "schedules", "inputs"],
  "every split of the input into partial reads and every placement of interrupted reads",
  "Tests read small local files, which always arrive in one piece.",
  ["cxx/util_io.cc", "cxx/pclean/csv.cc", "cxx/pclean/io.cc"],
  [("line readers", "cxx/util_io.cc load_schema, load_observations, load_clusters_*; cxx/pclean/csv.cc DataFrame::from_csv; cxx/pclean/io.cc read_schema")],
  ["returned schema, observations, clusters, DataFrame"])
p("P12", "I/O and memory failures are never reported as success",
  "If reading an input fails part-way, opening a needed file fails, writing a result fails or is cut short, or memory runs out, the hirm and pclean programs do not exit with status zero. A run that exits with status zero has read all of its inputs and completely written every result file it announced. (A saved-clusters file named with --load that does not exist is aside: the program says so and starts without it, as the repository's own integration run expects.)",
  ["fault_sequences", "crash_points", "inputs"],
  "every failing read, open, write, flush, close or allocation at every position of every program run",
  "Tests never inject a failure; a full disk or unreadable block is treated like end of file unless checked.",
  ["cxx/util_io.cc", "cxx/hirm_main.cc", "cxx/pclean/pclean.cc", "cxx/pclean/csv.cc", "cxx/pclean/io.cc"],
  [("file readers and writers", "cxx/util_io.cc, cxx/pclean/csv.cc, cxx/pclean/io.cc"), ("mains", "cxx/hirm_main.cc, cxx/pclean/pclean.cc")],
  ["exit status", "result files"])
p("P13", "A killed run can simply be run again",
  "If a hirm or pclean run is killed at any instant, rerunning the same command gives exactly the result files that an undisturbed first run would have written. No run modifies or deletes its input files.",
  ["crash_points", "fault_sequences", "inputs"],
  "every instant of termination, including inside each write of each result file, and every remnant it leaves",
  "Tests never kill a run; leftovers of a partial save are never present when a test starts.",
  ["cxx/hirm_main.cc", "cxx/util_io.cc", "cxx/pclean/pclean.cc", "cxx/pclean/csv.cc"],
  [("result files are rewritten from scratch", "cxx/util_io.cc to_txt, write_observations; cxx/pclean/csv.cc to_csv")],
  ["result files after kill and rerun"])
p("P14", "Entity references and their counts stay consistent in GenDB",
  "After any sequence of adding table rows, resampling entity references and running inference, every reference held by a row or entity is counted exactly once in the population of the class it points to, every counted reference exists, and every observed or latent cell is stored under exactly the entities that the references reach. Entities that nothing refers to any more leave no data, references or counts behind. A row that is added with entities of its own has, on the paths of all its columns, entities that were not there before and of which no two are the same, and the score of the model is that of its entity partitions plus that of its relational model.",
  ["histories", "inputs", "schedules"],
  "every class schema (chains, diamonds, repeated references), every set of rows, every schedule of reference, relation and cluster moves",
  "Existing tests check one or two transitions on one fixed schema, and several of their own comments mark states they could not explain.",
  ["cxx/gendb.cc", "cxx/gendb.hh"],
  [("reference resampling", "cxx/gendb.cc GenDB::transition_reference"), ("row insertion", "cxx/gendb.cc GenDB::incorporate"),
   ("reference ids", "cxx/gendb.cc GenDB::get_reference_id")],
  ["GenDB::reference_values, entity_crps, hirm"])
p("P15", "Observed table rows survive all entity resampling",
  "Whatever inference is run on a GenDB, the multiset of observed values of every query column, keyed by the row it belongs to, stays exactly as loaded. Resampling which entity a row refers to never drops, duplicates or changes an observed cell.",
  ["histories", "inputs", "schedules"],
  "every class schema, row set, missing-value pattern, and schedule of inference steps",
  "Tests compare counts before and after a single transition, not the cells themselves over long histories.",
  ["cxx/gendb.cc", "cxx/inference.cc", "cxx/hirm.cc"],
  [("store and re-incorporate", "cxx/gendb.cc unincorporate_reference, update_reference_items, incorporate_reference")],
  ["Relation::get_data of query relations", "inference_gendb"])
p("P16", "Forward sampling adds exactly the requested new cells",
  "Sampling n observations from an HIRM adds exactly n new cells to every relation that no other relation depends on, each at a tuple that was not present and with the reported value, plus only the base cells those need. Existing cells, observed or latent, keep their values, and sampled values lie in the support and follow the predictive probabilities of the cluster they fall in.",
  ["histories", "inputs", "schedules"],
  "every model state, every n and every PRNG outcome",
  "Tests sample a few cells from one fixed model and check the size only.",
  ["cxx/hirm.cc", "cxx/clean_relation.hh", "cxx/noisy_relation.hh", "cxx/distributions/", "cxx/emissions/"],
  [("sampling", "cxx/hirm.cc HIRM::sample_and_incorporate, sample_and_incorporate_relation")],
  ["returned observations", "Relation::get_data"])
p("P17", "Sample files are complete",
  "A successful hirm run that is asked for n samples writes exactly n new observations of every relation that no other relation depends on, each at a tuple of entities the data does not hold, named as in the data where the entity is known, in the format of observations, so that they can be learned from together with the data. A successful pclean run that is asked for n samples writes a table that can be read back with every query column and exactly n rows, in which every cell is filled. The samples' entities are new rows, so they never collide with or overwrite rows learned from the data.",
  ["histories", "inputs", "configurations"],
  "every schema, class schema, data set, data table, number of samples and seed",
  "Tests inspect the sample table only in memory and for one schema; the written files are never read back.",
  ["cxx/hirm_main.cc", "cxx/hirm.cc", "cxx/util_io.cc", "cxx/pclean/pclean.cc", "cxx/pclean/pclean_lib.cc", "cxx/pclean/csv.cc", "cxx/gendb.cc"],
  [("sampling rows", "cxx/pclean/pclean_lib.cc make_pclean_samples"), ("writing", "cxx/pclean/csv.cc DataFrame::to_csv, cxx/util_io.cc write_observations")],
  ["<output>.samples file", "<path>.hirm.samples file"])
p("P18", "Scoring held-out data leaves the model untouched",
  "Computing the log probability of held-out observations under an IRM or HIRM is a pure query: the data, partitions, statistics, score and all later inference from the same random state are as if it had not been asked. For a single observation whose entities are all known, the answer equals the predictive probability of its cluster, and scoring is normalised: for a discrete relation the probabilities of all possible values of a cell sum to one, also when its entities are new.",
  ["histories", "inputs", "schedules"],
  "every reachable model state and every held-out set over conjugate relations with known and new entities",
  "Tests compare a single value on a fixed model and do not look at the model afterwards.",
  ["cxx/irm.cc", "cxx/hirm.cc", "cxx/clean_relation.hh", "cxx/util_io.cc"],
  [("held-out score", "cxx/irm.cc IRM::logp, cxx/hirm.cc HIRM::logp, cxx/clean_relation.hh CleanRelation::logp")],
  ["IRM::logp", "HIRM::logp", "model state before and after"])
p("P19", "Predictive probabilities compose to the joint score in any order",
  "For every distribution and every noise model whose updates are exact (all but sometimes_categorical and the bigram string emission), the joint score of the data it holds equals the sum of the one-step predictive log probabilities along the order in which the values arrived, and is the same for every arrival order and every interleaving of retractions. Emptied of its data, it behaves exactly like a new one with the same hyperparameters. The joint score of no data is zero for every one of them.",
  ["histories", "inputs"],
  "every order of additions and retractions of any multiset of values, for any hyperparameters on the grids",
  "Tests use at most a handful of values in one order.",
  ["cxx/distributions/", "cxx/emissions/"],
  [("incorporate, unincorporate, logp, logp_score", "cxx/distributions/*.cc, cxx/emissions/*.hh, cxx/emissions/*.cc, cxx/distributions/crp.cc")],
  ["Distribution::{incorporate,unincorporate,logp,logp_score}", "CRP::{logp,logp_score}"])
p("P20", "Undo is exact and queries leave no trace",
  "Adding a value to a distribution or emission and then retracting it restores its score and its predictions, whatever other additions, retractions and parameter moves preceded. Asking for a probability, a score, a sample, a proposal or the nearest value never changes what later queries answer.",
  ["histories", "inputs", "schedules"],
  "every distribution and emission kind, every preceding history, every value, every PRNG outcome",
  "Tests undo one step from a fresh object; errors that depend on accumulated state do not show.",
  ["cxx/distributions/", "cxx/emissions/"],
  [("unincorporate", "cxx/distributions/base.hh Distribution::unincorporate and the incorporate it calls with weight -1")],
  ["logp, logp_score, N before and after"])
p("P21", "Samples follow the predictive distribution",
  "For every distribution and emission in every reachable state, values are sampled with the frequencies that its own predictive probabilities state, and sampled values always have positive probability. The same holds for drawing the cluster of a new entity. (Strings cut off at a model's maximum length, and integers beyond the range of int, are aside.) For the two string noise models, which score only one of the alignments that explain a string, the probabilities of all dirty strings must not exceed one in total, and samples must have positive probability.",
  ["schedules", "histories", "inputs"],
  "every distribution and emission kind, hyperparameter setting and accumulated data, and every PRNG stream",
  "Tests draw once with a fixed seed, or compare with a loose average for a single state.",
  ["cxx/distributions/", "cxx/emissions/", "cxx/util_math.cc"],
  [("sample", "cxx/distributions/*.cc sample, cxx/emissions/* sample_corrupted, cxx/distributions/crp.cc CRP::sample"), ("choice", "cxx/util_math.cc choice")],
  ["sample / sample_corrupted frequencies versus logp"])
p("P22", "No history makes the library touch invalid memory",
  "No sequence of public operations on models, distributions, loaders or programs, under any injected read, write or clock fault, reads or writes memory it does not own, uses freed objects, or executes undefined behaviour; every object is released exactly once. Destroying a model at any point releases everything it owns.",
  ["histories", "fault_sequences", "inputs", "schedules"],
  "every interleaving of operations reached by the other properties' simulations",
  "The tests run without sanitizers on short fixed sequences, where a stale pointer or iterator usually still reads plausible data.",
  ["cxx/hirm.cc", "cxx/irm.cc", "cxx/gendb.cc", "cxx/clean_relation.hh", "cxx/noisy_relation.hh", "cxx/util_io.cc", "cxx/hirm_main.cc", "cxx/pclean/"],
  [("owning raw pointers", "cxx/irm.cc IRM::~IRM, IRM::remove_relation; cxx/hirm.cc HIRM::~HIRM; cxx/clean_relation.hh ~CleanRelation")],
  ["AddressSanitizer / UndefinedBehaviorSanitizer / LeakSanitizer verdict"])
p("P23", "Python models resume from a checkpoint exactly",
  "Converting a Python IRM or HIRM to its dictionary form, storing it as JSON and restoring it in another process with the same random state gives a model that has the same schema, data, partitions, concentrations and score, and that continues with exactly the same draws and results as the original would have, whatever is done next. It does not matter how sets and hashes are ordered in that process, nor what other code does with Python's shared random generator: a model that was given a generator uses that one only. A dictionary form, once taken, is not changed by the model it came from nor by models restored from it. The text form written for clusters, with the schema and the observations, restores the same partitions (with their labels), data and relation scores.",
  ["histories", "crash_points", "schedules", "inputs"],
  "every model, every checkpoint position in a history of changes and inference steps, every process and every PRNG stream",
  "The Python tests never restore a model in another process and continue.",
  ["src/hirm.py", "src/util_io.py", "src/util_math.py"],
  [("serialisation", "src/util_io.py to_dict_*, from_dict_*, to_txt_*, from_txt_*, load_*"), ("inference", "src/hirm.py IRM, HIRM")],
  ["to_dict_HIRM / from_dict_HIRM", "to_txt_hirm / from_txt_hirm", "HIRM state after further inference"])
p("P24", "Entity reference moves keep the model's distribution",
  "Resampling which entity a row or entity of a GenDB refers to chooses among the entities in use and a new one in such a way that the joint distribution of the model stays as it was: for any two states that one such move leads between, the probability of moving from the first to the second, times the exponential of the model score of the first, equals the probability of moving back times the exponential of the score of the second. This holds for references at every level of a schema (chains, several references to one class, entities with several parents), for entities and their ancestors that the move creates or abandons, for any concentrations, and for noise models whose updates are exact, as long as the clusters that a move creates or empties have the default hyperparameters and every referenced entity has all of its references and attributes filled.",
  ["schedules", "histories", "inputs"],
  "every class schema, every set of rows, every reached state, every reference and every outcome of the generator",
  "The tests run a move once and check that nothing crashed; a biased choice ends in valid states as well.",
  ["cxx/gendb.cc", "cxx/gendb.hh", "cxx/distributions/crp.cc"],
  [("candidates and their weights", "cxx/gendb.cc GenDB::transition_reference, unincorporate_reference, unincorporate_singleton"),
   ("new candidate", "cxx/gendb.cc GenDB::sample_class_ancestors; cxx/hirm.cc HIRM::sample_and_incorporate_relation"),
   ("reseating", "cxx/gendb.cc GenDB::reincorporate_new_refval; cxx/distributions/crp.cc CRP::tables_weights_gibbs")],
  ["GenDB::logp_score", "GenDB::reference_values, entity_crps, hirm before and after GenDB::transition_reference"])
p("P27", "Damaged input files are rejected or read for what they hold",
  "Whatever happened to a file before hirm or pclean reads it (it was cut short, bytes were lost, zeroed, repeated, exchanged or changed, lines were lost or repeated, or the end of an older version follows the start of a newer one), the program neither corrupts its memory nor crashes nor hangs. It ends with a nonzero status unless every line of the damaged file is still a well-formed line: in a schema, a relation with a distribution and domains (or a class, variable, or query line of a class schema, with exactly one record class); in observations and held-out observations, a value of the relation's type and range (the whole field, not a prefix of it) for a known relation, with one entity per domain, each cell at most once; in a table, as many cells as the header names columns, no column twice, quotes closed, and in every observed column a printable value of its type; in saved clusters, numbered clusters with members, each relation and each entity of a submodel at most once, and one submodel for each relation cluster. A successful load of clusters puts every relation and entity that the damaged file names where the file says.",
  ["faults", "inputs"],
  "every input file, every kind, position and extent of damage, every option that reads a file",
  "The tests read a handful of intact files; the checks on malformed ones were asserts, which the shipped builds leave out.",
  ["cxx/util_io.cc", "cxx/util_parse.cc", "cxx/relation.hh", "cxx/pclean/io.cc", "cxx/pclean/csv.cc", "cxx/pclean/pclean_lib.cc", "cxx/distributions/dirichlet_categorical.cc", "cxx/distributions/bigram.cc", "cxx/distributions/stringcat.cc"],
  [("hirm inputs", "cxx/util_io.cc load_schema, load_observations, incorporate_observations_relation"), ("saved clusters", "cxx/util_io.cc load_clusters_irm, load_clusters_hirm, from_txt"),
   ("values", "cxx/relation.hh Relation::from_string; ranges in cxx/distributions"), ("pclean inputs", "cxx/pclean/io.cc read_schema; cxx/pclean/csv.cc DataFrame::from_csv; cxx/pclean/pclean_lib.cc incorporate_observations")],
  ["exit status of hirm and pclean", "memory reports of the sanitized build", "saved clusters after --load with no iterations"])
p("P28", "Held-out scoring is of the held-out data under the learned model",
  "The log likelihood of held-out data that hirm and pclean print is that of exactly the lines of the held-out file under exactly the model that the run learned from the other observations and saved. For hirm: it equals the log probability of the held-out values given the data, the clusters and the hyperparameters of the model, with every entity that the model does not know marginalised over the clusters of its domain and a new one; over all values that a held-out cell (or several) of a discrete relation can take, with everything else equal, the printed probabilities add up to one; after loading saved clusters with no iterations it follows from those clusters and the data alone. For pclean: it is the model score with the held-out rows added, one new row each, minus the score without them. Held-out data influence nothing else: the values of the held-out cells, and the held-out file as a whole as long as it does not change the codes of the entities, leave the saved results as they are.",
  ["inputs", "histories", "schedules"],
  "every schema, every data set and held-out set, every mode, number of iterations, seed and loaded cluster file",
  "The integration tests run the programs without held-out data; a leak of the held-out lines into the model, a lost line or a stale model still prints a plausible number.",
  ["cxx/hirm_main.cc", "cxx/pclean/pclean.cc", "cxx/util_io.cc", "cxx/irm.cc", "cxx/hirm.cc", "cxx/gendb.cc"],
  [("hirm", "cxx/hirm_main.cc main (held out); cxx/util_io.cc merge_observations, logp; cxx/hirm.cc HIRM::logp; cxx/irm.cc IRM::logp"),
   ("pclean", "cxx/pclean/pclean.cc main (heldout); cxx/gendb.cc GenDB::logp_score")],
  ["the line 'Log likelihood of held out data is ...'", "saved result files", "the model at the call of logp and at GenDB::incorporate"])
p("P25", "Python inference draws from the model's conditional",
  "In the Python implementation, for every state of an IRM or HIRM: moving an item of a domain chooses each cluster (or a new one) with probability proportional to the prior of the partition times the likelihood of all data under it, also when the item occurs several times in one cell or a cell joins a cluster that holds other cells of the item; moving a relation chooses each sub-model with probability proportional to the partition prior times the likelihood of the relation's data under that sub-model's item partition; a concentration is drawn from its posterior over 30 points spaced evenly in logarithm from 1/N to N+1; an item or a relation seen for the first time is seated by the Chinese restaurant process; and a value sampled from a cluster has its predictive probability. A move changes nothing but what it moves.",
  ["schedules", "histories", "inputs"],
  "every schema (with domains repeated in a relation), every data set and partition, every item, relation and domain, and every outcome of the generator",
  "The Python tests check that some fixed-seed run ends in an expected partition; a biased choice usually ends there as well.",
  ["src/hirm.py", "src/util_math.py"],
  [("item moves", "src/hirm.py IRM.transition_cluster_assignment_item, Relation.logp_gibbs_exact"), ("relation moves", "src/hirm.py HIRM.transition_cluster_assignment_relation"),
   ("concentrations and seats", "src/hirm.py CRP"), ("choice", "src/util_math.py log_choices")],
  ["IRM.transition_cluster_assignment_item", "HIRM.transition_cluster_assignment_relation", "CRP.transition_alpha", "CRP.sample", "BetaBernoulli.sample"])
p("P26", "Python models keep data and indexes consistent",
  "After every sequence of adding and removing relations, adding observations and inference steps, a Python IRM or HIRM holds exactly the schema and data it was given: every relation is in exactly one sub-model, every item with data sits in exactly one cluster of its domain, the counts of every data cluster and the reverse indexes equal what the data and partitions say, no empty cluster remains, and the score equals the score recomputed from scratch. A duplicate observation is rejected and changes nothing. The log probability of a cell, or of cells of different relations together, is the exact marginal over the seats of their unseen items (each seated independently of the other unseen ones; an item that occurs several times has one seat), sums to one over the values, and asking for it changes nothing; cells of different sub-models are independent.",
  ["histories", "inputs", "schedules"],
  "every history of operations and every PRNG outcome",
  "The Python tests run a few fixed histories with one seed.",
  ["src/hirm.py", "src/util_math.py"],
  [("bookkeeping", "src/hirm.py Relation.set_cluster_assignment_gibbs, IRM.add_relation, IRM.remove_relation, HIRM.transition_cluster_assignment_relation"),
   ("predictive", "src/hirm.py Relation.logp, logp_observations")],
  ["IRM.logp", "HIRM.logp", "logp_score", "clusters, data, data_r, tables, assignments"])
p("P30", "Schema text parses to the relations it describes",
  "Every well-formed schema line yields exactly the relation it names with its distribution or emission, arguments and domains, and malformed lines are rejected.",
  ["inputs"], "every schema text",
  "Unit tests sample a few lines.", ["cxx/util_parse.cc", "cxx/util_io.cc", "cxx/pclean/io.cc"],
  [("tokenizer and parser", "cxx/util_parse.cc tokenize, cxx/util_io.cc load_schema, cxx/pclean/io.cc read_schema")])
p("P31", "String alignments are the k cheapest",
  "Alignment of two strings returns the k lowest-cost alignments under the given monotone cost, in order of cost, each consuming both strings exactly.",
  ["inputs"], "every pair of strings and every k",
  "Unit tests use a few short pairs.", ["cxx/emissions/string_alignment.cc"], [("best-first search", "cxx/emissions/string_alignment.cc topk_alignments")])
p("P32", "Class schemas translate to the intended relations",
  "A PClean class schema and query translate to exactly the clean and noisy relations, with the domains and observation path, that its classes and query fields describe.",
  ["inputs"], "every class schema and query",
  "Unit tests cover a few schemas.", ["cxx/gendb.cc", "cxx/pclean/get_joint_relations.cc"],
  [("translation", "cxx/gendb.cc GenDB::make_hirm_schema, make_relations_for_queryfield")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
