"""Writes properties.jsonl and MANIFEST.json (run by hand when properties change)."""
import json
T = "quick"
P = []


def prop(id, title, statement, over, qtext, why, files, mechs, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["eckity/" + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": "eckity/" + c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": "eckity/" + b} for a, b in mechs],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "A random seed determines the whole run",
     "Two runs of the same configuration with the same random seed go through the same generations: the same genomes in the same order, the same scores, the same best individual. This holds whatever the state of the random generators before the run, whatever random numbers are drawn by fitness functions or by subscribers of the algorithm's events, whatever other runs are performed in between or in the middle, for any seed including the largest, or the one taken from the clock and recorded when none is given, and for single- and multi-objective evolution alike. It does not depend on the number or kind of workers, on the order in which evaluations finish, or on memory addresses and hash order.",
     ["schedules", "histories", "configurations"],
     "every configuration of a menu covering all encodings, operators and selections; every subset of generation boundaries at which foreign code draws random numbers, reseeds or runs another evolution; all completion orders of small populations; all worker kinds",
     "tests/test_reproducibility.py compares the best individual of two undisturbed runs of one GP configuration",
     ["algorithms/algorithm.py", "random/rng.py", "algorithms/simple_evolution.py", "multi_objective_evolution/nsga2_evolution.py", "multi_objective_evolution/nsga2_front_sorting.py"],
     [("reseed both generators at the start and once per generation", "algorithms/algorithm.py: set_random_seed, set_generation_seed, next_seed"), ("RNG.set_seed seeds random and numpy", "random/rng.py")],
     ["population after each generation", "best_of_run_"])
prop("C02", "Every individual is scored with its own fitness, whatever the schedule",
     "After each evaluation of a population every individual holds exactly the score that the user's fitness function returns for it, the function was called once for each individual, and the individual reported as best is one with the best comparable score. This holds for thread and process workers, any number of workers, both ways of dispatching work, every order in which evaluations finish, and every interleaving of concurrent evaluations, including the bundled regression and classification evaluators. If the fitness function raises, the error reaches the caller instead of being swallowed.",
     ["schedules", "configurations", "fault_sequences"],
     "all completion orders for populations up to 4 (5 thorough); all line-level interleavings with at most 2 preemptions of two concurrent evaluations; a failing evaluation at every position",
     "no test runs the population evaluator with more than one completion order, and none uses the submit method",
     ["evaluators/simple_population_evaluator.py", "evaluators/simple_individual_evaluator.py", "sklearn_compatible/regression_evaluator.py", "sklearn_compatible/classification_evaluator.py", "genetic_encodings/gp/tree/tree_individual.py"],
     [("results are matched to individuals by position", "evaluators/simple_population_evaluator.py: _evaluate")],
     ["individual.get_pure_fitness()", "return value of the population evaluator"])
prop("C03", "The reported best is the best individual ever evaluated",
     "In a single-objective run the best of the run, after every generation and at the end, is an individual at least as good (in the run's direction, with bloat control) as every individual evaluated so far, and it still has the genome and the score it had when it was evaluated. The best and worst of a generation are the best and worst of that generation's population. Executing the algorithm executes that best individual.",
     ["histories", "configurations"],
     "every assignment of scores from a small domain (ties, negatives, infinities) to every evaluation of a run of up to 3 generations, both directions, with and without elitism and bloat control",
     "tests never compare the best of a run with the history of evaluated individuals",
     ["algorithms/simple_evolution.py", "evaluators/simple_population_evaluator.py", "individual.py", "fitness/simple_fitness.py", "fitness/gp_fitness.py", "subpopulation.py"],
     [("update when strictly better", "algorithms/simple_evolution.py: generation_iteration"), ("selections clone", "genetic_operators/selections")],
     ["best_of_run_", "best_of_gen", "worst_of_gen", "after_generation event"])
prop("C04", "A run does the generations it promised and announces each one once",
     "A run evaluates the initial population and then performs generations 1, 2, ... until a termination checker asks to stop or the maximum is reached, never more, consulting every checker once per generation; the final generation number is recorded. The end of each performed generation is announced exactly once, in order, with that generation's number, population and best individual already up to date; initialization is announced once before and the end of the run once after them; statistics are written once per announced generation. When the run ends its workers are released.",
     ["histories", "configurations"],
     "all boolean answer sequences of one checker or a list of checkers, all max_generation up to 4, single- and multi-objective algorithms, several statistics and subscribers",
     "tests check one termination scenario; event order and counts are never observed",
     ["algorithms/algorithm.py", "algorithms/simple_evolution.py", "multi_objective_evolution/nsga2_evolution.py", "before_after_publisher.py"],
     [("main loop with early exit", "algorithms/algorithm.py: evolve, evolve_main_loop, should_terminate")],
     ["events init, after_generation, evolution_finished", "final_generation_", "generation_num"])
prop("C05", "Breeding keeps the population size, isolates offspring and keeps elites",
     "Breeding replaces each sub-population by exactly as many individuals, independently of the other sub-populations; no two of them share mutable state, none shares state with the previous generation, and the previous generation's individuals are left untouched. The configured number of elites - the best individuals - are present unchanged in the next generation. Every non-elite individual passes through the operator sequence in order, each operator being applied to groups of its arity, and an incomplete last group is left as it is.",
     ["inputs", "histories", "configurations"],
     "all random outcomes of selection and operators for populations of up to 4 vectors or trees, all elite counts, operator sequences of arity 1 and 2, several sub-populations, repeated generations",
     "tests/test_simple_breeder breeds once with one configuration and checks sizes",
     ["breeders/simple_breeder.py", "breeders/breeder.py", "genetic_operators/selections/elitism_selection.py", "individual.py", "genetic_operators/genetic_operator.py"],
     [("selection clones, operators work in place on the clones, elites are split off", "breeders/simple_breeder.py: apply_breed")],
     ["sub_population.individuals before and after breed()"])
prop("C06", "Selections pick the right individuals with the right probability",
     "Tournament selection fills the destination with clones of tournament winners: each pick is the best of a uniformly drawn tournament of the configured size (with or without repetition), in the configured direction. Fitness-proportionate selection draws every individual with a probability that grows with its quality, equal for equal scores, in either direction, and rejects negative scores. Elitism copies exactly the best individuals; all selections only append, up to the size of the source, and leave the source untouched.",
     ["inputs", "configurations"],
     "all score assignments from a small domain to up to 4 individuals, all tournament sizes, all random outcomes with their exact probabilities, all destination prefill sizes",
     "tests sample a few random selections; distributions and ties are not checked",
     ["genetic_operators/selections/tournament_selection.py", "genetic_operators/selections/fp_selection.py", "genetic_operators/selections/elitism_selection.py", "genetic_operators/selections/selection_method.py"],
     [("winner by pairwise better_than", "genetic_operators/selections/tournament_selection.py"), ("probability vector", "genetic_operators/selections/fp_selection.py")],
     ["select(source, destination)"])
prop("C07", "Vector operators keep vectors legal and only recombine what is there",
     "Mutating or recombining legal vectors yields vectors of the same length with every cell inside its own bounds and of its kind, for range bounds and per-cell bounds alike; an n-point mutation changes at most n cells, a bit flip exactly the flipped bits, a Gaussian mutation adds the drawn noise, a mutation whose attempts all fail leaves all its individuals legal and a refused attempt is undone for each of them, and an operator of probability 0 changes nothing. k-point crossover exchanges alternating segments delimited by exactly k distinct interior cut points, so at every position the two children hold the two parents' values. Every cell, both bounds of uniformly mutated integer and bit cells, and every set of cut points remain reachable.",
     ["inputs", "histories", "configurations"],
     "all vectors over interval ends and middles up to length 4 (5 thorough), all operators and parameters, all random outcomes over a finite alphabet incl. failing Gaussian draws, operators reused over sequences",
     "tests apply each operator to a handful of vectors; k>=2 crossover and failing mutations are not exercised",
     ["genetic_operators/mutations/vector_n_point_mutation.py", "genetic_operators/mutations/vector_random_mutation.py", "genetic_operators/crossovers/vector_k_point_crossover.py", "genetic_encodings/ga/vector_individual.py", "genetic_encodings/ga/int_vector.py", "genetic_encodings/ga/float_vector.py", "genetic_encodings/ga/bit_string_vector.py"],
     [("success checker and retry", "genetic_operators/failable_operator.py"), ("segment swap", "genetic_operators/crossovers/vector_k_point_crossover.py")],
     ["individual.get_vector() after apply_operator"])
prop("C08", "GP trees stay well-formed and type-correct under creation and variation",
     "Every tree produced by a creator or by any sequence of subtree crossovers, subtree mutations and constant mutations is a complete expression over the function and terminal sets: each function has exactly as many arguments as it takes, in typed programs each argument has the declared type and the root the requested one, and constants lie in the configured range when drawn. Crossover moves exactly one whole subtree into each tree (nothing lost, duplicated or shared), subtree mutation replaces exactly one subtree by a fresh one within the depth limits, constant mutation changes one numeric constant and nothing else. An operator that cannot be applied leaves the trees as they were. A creator whose sets cannot fill a place refuses instead of delivering an incomplete tree. A tree built node by node accepts exactly the nodes that fit the next open place, replacing a subtree changes that subtree only, and random picks of nodes, functions, terminals and subtrees have the requested type and can be any such.",
     ["programs", "histories", "configurations"],
     "all trees up to a small size over typed and untyped primitive sets, all pairs for crossover, all random outcomes, operator sequences up to length 3",
     "tests vary a few hand-built trees and mostly check that something changed",
     ["genetic_encodings/gp/tree/tree_individual.py", "genetic_operators/crossovers/subtree_crossover.py", "genetic_operators/mutations/subtree_mutation.py", "genetic_operators/mutations/erc_mutation.py", "creators/gp_creators/grow.py", "creators/gp_creators/full.py", "creators/gp_creators/tree_creator.py"],
     [("typed subtree choice and replacement by prefix slices", "genetic_encodings/gp/tree/tree_individual.py: random_subtree, replace_subtree")],
     ["tree nodes in prefix order, depth(), size()"])
prop("C09", "Executing a tree computes the expression it denotes",
     "Executing a tree with keyword values or with a data matrix gives, for every row, the value of the expression the tree denotes, with every argument in its place, constants as constants and variables (feature i of the matrix for variable x<i>) as given; a tree without variables yields its constant for every row. Terminals and keyword arguments made from a data matrix name its columns in order, with the columns' types and values. Execution never changes the tree or its inputs and gives the same answer every time; unknown or missing variables and an empty tree are rejected. The printed form of a tree, read as Python, computes the same function, and size and depth agree with the expression.",
     ["programs", "inputs"],
     "all trees up to a size bound over primitive sets of arity 1 to 4, all inputs of a small grid, keyword and matrix calling forms, typed and untyped",
     "tests execute about ten trees",
     ["genetic_encodings/gp/tree/tree_individual.py", "genetic_encodings/gp/tree/tree_node.py", "genetic_encodings/gp/tree/utils.py", "base/utils.py"],
     [("recursive prefix evaluation", "genetic_encodings/gp/tree/tree_individual.py: execute, _execute, __str__")],
     ["Tree.execute, str(tree)"])
prop("C10", "A fitness is never stale and orders individuals consistently",
     "A score can be read or compared only while it is evaluated: after a genetic operator was applied (even if it failed) and after copying or serializing without caching, it must be evaluated again, while untouched individuals and cached copies keep it. 'Better' is a strict weak order that follows the configured direction and, for trees, the bloat-adjusted score; equality is its tie relation. Multi-objective scores compare by front rank then crowding, and dominance is the Pareto partial order for any mix of directions.",
     ["histories", "inputs", "configurations"],
     "all operation sequences up to depth 4 (6 thorough) on every fitness kind and flag combination, against a reference model; all pairs and triples of a score grid for the order axioms",
     "tests set and read a fitness once; the ordering laws are universally quantified",
     ["fitness/fitness.py", "fitness/simple_fitness.py", "fitness/gp_fitness.py", "multi_objective_evolution/nsga2_fitness.py", "genetic_operators/genetic_operator.py", "individual.py"],
     [("evaluated flag, __getstate__ and direction-aware comparison", "fitness/simple_fitness.py")],
     ["get_pure_fitness, get_augmented_fitness, better_than, equal_to, is_fitness_evaluated, dominate"])
prop("C11", "NSGA-II survival keeps the best fronts with correct ranks and crowding",
     "Multi-objective survival selection keeps exactly the requested number of distinct given individuals (half by default); every survivor's rank is the index of its non-dominated front, no dropped individual dominates a survivor's front or has a lower rank than a survivor, and within the front that is cut those of larger crowding distance stay. Crowding distances are the standard ones: infinite at the extremes of each objective, otherwise the sum of normalized neighbour gaps. This holds with ties, duplicated score vectors, any number of objectives and any mix of directions, and regardless of object hashes.",
     ["inputs", "configurations"],
     "all multisets of score vectors over a small grid for up to 4 individuals (5-6 thorough), 1 to 3 objectives, all direction mixes, all target sizes, several hash orders",
     "tests/moe_test sorts a few fixed populations",
     ["multi_objective_evolution/nsga2_front_sorting.py", "multi_objective_evolution/nsga2_fitness.py"],
     [("front peeling by domination counters, crowding by per-objective sort", "multi_objective_evolution/nsga2_front_sorting.py")],
     ["select_for_population, fitness.front_rank, fitness.crowding"])
prop("C12", "An NSGA-II generation keeps its size and never loses the Pareto front",
     "Each multi-objective generation ends with as many individuals as the population had, all evaluated with the scores of their own genomes, ranked, and without shared state. The survivors are the best fronts of parents plus offspring: no parent or offspring that was dropped dominates a survivor, so the reported Pareto front never gets worse from one generation to the next, and the reported front is exactly the non-dominated part of the population.",
     ["histories", "configurations"],
     "all random outcomes (bounded deviations) of runs of up to 3 generations of populations of 2 to 4 vectors, all objective tables of a small family, several operator sequences",
     "tests run the algorithm on an example without checking dominance between generations",
     ["multi_objective_evolution/nsga2_evolution.py", "multi_objective_evolution/nsga2_breeder.py", "multi_objective_evolution/nsga2_front_sorting.py"],
     [("parents are cloned before variation and compete with the offspring", "multi_objective_evolution/nsga2_breeder.py")],
     ["population after each generation, best_of_gen"])
prop("C13", "Termination checkers stop exactly when their condition holds",
     "The target checker asks to stop exactly when the best score is within the threshold of the target; the stagnation checker exactly when the best score has not changed for the configured number of consecutive generations; the crowding checker exactly when the largest finite crowding in the population is positive and below its threshold (a sub-population without finite crowding counts as not converged). This holds for every sequence of generations, for several sub-populations, and a list of checkers stops as soon as any of them asks.",
     ["histories", "inputs"],
     "all sequences of best scores of length up to 6 over a small domain, all thresholds and stagnation limits of a menu, 1 and 2 sub-populations, lists of 2 checkers",
     "no test runs the stagnation checker through a history",
     ["termination_checkers/threshold_from_target_termination_checker.py", "termination_checkers/best_fitness_stagnation_termination_checker.py", "multi_objective_evolution/crowding_termination_checker.py", "algorithms/algorithm.py"],
     [("comparison with remembered best", "termination_checkers/best_fitness_stagnation_termination_checker.py")],
     ["should_terminate"])
prop("C14", "Subscribers get every event they registered for, once, and no other",
     "After any sequence of registrations and removals, publishing an event calls each callback currently registered for it exactly once, in registration order, with the publisher and the event's data, and no callback of other events or of other operators. Every operator, selection, creator and algorithm accepts custom event names and announces the moments just before and just after it acts (through act), around exactly one application, returning the operator's result. Removing one subscription leaves the others alone, and subscriptions of one object never appear on another.",
     ["histories", "configurations"],
     "all register/unregister/publish/act sequences up to depth 6 (7 thorough) over one publisher, 4 (5) over two publishers, two events and three callbacks, against a reference model; every operator class",
     "no test registers or unregisters anything",
     ["before_after_publisher.py", "event_based_operator.py", "genetic_operators/selections/selection_method.py", "creators/creator.py", "algorithms/algorithm.py"],
     [("per-event dictionary of subscribers, fresh ids", "before_after_publisher.py")],
     ["register, unregister, publish, act"])
prop("C15", "A paused run, copied or saved, resumes as if never interrupted",
     "At the end of any generation an algorithm can be deep-copied or pickled, and evolving the copy for the remaining number of generations goes through exactly the populations the uninterrupted run goes through; so does a fresh algorithm built from the same individuals, seed and generation seed. Copying does not disturb the running original, the copy shares no individuals with it and evaluates with the configured kind and number of workers.",
     ["crash_points", "histories", "configurations"],
     "every generation boundary of every configuration of a menu (encodings, operators, selections, elitism, fitness caching), three ways of resuming, a second pause after the first",
     "no test pickles, copies or resumes an algorithm that ran",
     ["algorithms/algorithm.py", "algorithms/simple_evolution.py", "evaluators/population_evaluator.py", "fitness/simple_fitness.py", "subpopulation.py"],
     [("serialization without the executor; per-generation seeds", "algorithms/algorithm.py: __getstate__, __setstate__, next_seed")],
     ["population after each generation"])
prop("C16", "The scikit-learn wrappers predict with the evolved best and stay independent",
     "Fitting evolves on exactly the given data; predicting applies the best evolved individual to the given rows - for classifiers turned into labels by the documented rule - and changes neither the model nor later predictions. Predicting before fitting is refused; cloning or copying an estimator, fitted or not, gives an unfitted, independent estimator with the same parameters whose fitting does not affect the original, and setting a parameter affects that estimator's run only.",
     ["histories", "inputs"],
     "all sequences up to depth 4 of fit, predict, clone, set parameter, pickle over two data sets and two estimators, regressors and classifiers with each labelling method; all small data grids",
     "tests only check that predict before fit is refused",
     ["sklearn_compatible/sklearn_wrapper.py", "sklearn_compatible/sk_classifier.py", "sklearn_compatible/sk_regressor.py", "sklearn_compatible/regression_evaluator.py", "sklearn_compatible/classification_evaluator.py"],
     [("fit sets the evaluator context and evolves; predict executes the best", "sklearn_compatible/sklearn_wrapper.py")],
     ["fit, predict, get_params, set_params, sklearn.base.clone"])
prop("C17", "The bundled primitive functions compute their documented values",
     "Every bundled function computes, for all real arguments, the value its documentation states, including the protected cases (division, inverse and logarithm at and around the 0.001 limit, square root of negatives), conditionals at equality, and truth tables of the logical functions. Arrays are treated element by element, agreeing with scalars, without warnings turning into errors and without changing the inputs, and the number of arguments reported for a function is the number it takes.",
     ["inputs"],
     "the full product of a boundary-value grid for each argument of each function, as scalars, arrays and mixtures, integers and floats",
     "tests use one or two values per function",
     ["base/untyped_functions.py", "base/typed_functions.py", "base/utils.py"],
     [("numpy vectorised definitions", "base/untyped_functions.py, base/typed_functions.py")],
     ["each exported function"])
prop("C18", "Population statistics and reports show the true figures",
     "For every population the best and the worst individual are ones with the best and the worst comparable score in the population's direction, and the average is the mean raw score; each sub-population is treated separately and reported under its own number. The generation reports contain exactly the generation number and those figures (tree sizes, front sizes and corners where applicable), the plot of a two-objective population shows one point per individual; writing or drawing them changes nothing, and never aborts a run.",
     ["inputs", "configurations"],
     "all score assignments over a small domain incl. negatives and infinities for 1 to 3 sub-populations of 1 to 4 individuals, both directions, bloat weights, 1 to 3 objectives",
     "no test looks at reported statistics",
     ["subpopulation.py", "population.py", "statistics/best_average_worst_statistics.py", "statistics/best_avg_worst_size_tree_statistics.py", "statistics/minimal_print_statistics.py", "multi_objective_evolution/moe_best_worst_statistics.py"],
     [("sort by augmented score", "subpopulation.py")],
     ["get_best_individual, get_worst_individual, get_average_fitness, write_statistics output"])
prop("C19", "Creators produce exactly the requested, correctly configured individuals",
     "A creator returns exactly the requested number of independent, unevaluated individuals carrying the requested direction, bloat weight and parent-tracking setting. Vectors have the configured length and kind, every cell lies in its own bounds, and both bounds are reachable; full trees have all leaves at the maximum depth, grown trees have depth within the limits, and ramped half-and-half produces the documented mixture for every depth. A sub-population uses the individuals it is given, if it is given any, otherwise one of its creators according to the given probabilities.",
     ["inputs", "configurations"],
     "all random outcomes of creating small populations for all creators, bounds, lengths, depth limits, typed and untyped primitive sets; all creator lists and probability vectors of a menu with exact probabilities",
     "tests create one random tree or vector per creator",
     ["creators/ga_creators/simple_vector_creator.py", "creators/gp_creators/grow.py", "creators/gp_creators/full.py", "creators/gp_creators/half.py", "creators/gp_creators/tree_creator.py", "subpopulation.py"],
     [("recursive creation by depth", "creators/gp_creators")],
     ["create_individuals, create_subpopulation_individuals"])
prop("C20", "Editing a vector individual behaves like editing a list",
     "After any sequence of edits through the vector interface (adding, setting and reading cells, replacing and reading parts, emptying, setting the whole vector, copying) the contents, size and recorded length are those of the corresponding list, replaced parts are returned as they were, the bounds test tells exactly whether every cell is within its bounds, and execution returns the contents. A random part is a non-empty contiguous part and any such part may occur; random replacement keeps the length. Edits of a clone never show in the original, and invalid constructor arguments are rejected.",
     ["histories", "inputs"],
     "all operation sequences up to depth 4 (5 thorough) over small vectors against a list model, all random outcomes",
     "tests edit a few vectors once",
     ["genetic_encodings/ga/vector_individual.py", "genetic_encodings/ga/bit_string_vector.py", "genetic_encodings/ga/int_vector.py", "genetic_encodings/ga/float_vector.py", "individual.py"],
     [("list slicing", "genetic_encodings/ga/vector_individual.py")],
     ["public methods of the vector encodings"])
prop("C21", "Every individual's identity and history are recorded truthfully",
     "All individuals of a run have distinct ids; a clone has a new id, records the id it was cloned from, and starts with empty history; generation numbers are those of the generation. After each single-objective generation the selection and operator lists name exactly the selection that picked the individual and the operators applied to it in that generation, in order, and recorded parents are individuals that took part in an operator with it. None of this changes the evolution itself.",
     ["histories", "configurations"],
     "all random outcomes (bounded deviations) of runs of up to 3 generations over operator sequences with probabilities, elitism and parent tracking",
     "tests check cloned ids on single individuals",
     ["individual.py", "genetic_operators/genetic_operator.py", "genetic_operators/selections/tournament_selection.py", "genetic_operators/selections/elitism_selection.py", "algorithms/algorithm.py"],
     [("class-wide id counter and lists reset by clone", "individual.py")],
     ["id, cloned_from, selected_by, applied_operators, parents, gen"])
prop("C22", "Contradictory configurations are refused, consistent ones run to the end",
     "A configuration that contradicts itself is refused with an error when it is built or first used, and whatever it was given stays as it was: missing or wrong kinds of creators, operators, populations, statistics, breeders and evaluators, creation probabilities that do not match the creators or do not add up to 1, unknown option names, no attempts, no direction, primitive sets whose types do not fit together, partially typed functions, operators whose arity does not divide the population size in single-objective runs, an operator acting on a wrong number of individuals (which changes no individual and announces nothing), several sub-populations in a simple run. Every consistent configuration is accepted, keeps the given options, treats options left out as their documented defaults, and its runs reach the last generation with a full, evaluated population.",
     ["configurations", "inputs"],
     "the full product of valid and invalid values for every argument of the listed constructors; every encoding, operator arity sequence, population size, elitism rate, selection, executor and dispatch method of a menu, run for 2 generations; every library operator applied to 0-5 individuals",
     "tests try single invalid arguments and a few valid configurations; combinations and the absence of side effects are not covered",
     ["subpopulation.py", "algorithms/algorithm.py", "algorithms/simple_evolution.py", "breeders/simple_breeder.py", "event_based_operator.py", "genetic_encodings/gp/tree/tree_individual.py", "genetic_encodings/gp/tree/tree_node.py", "genetic_operators/failable_operator.py", "evaluators/simple_population_evaluator.py"],
     [("argument validation in constructors", "subpopulation.py, algorithms/algorithm.py, genetic_encodings/gp/tree/tree_individual.py"), ("arity checks", "breeders/simple_breeder.py, event_based_operator.py")],
     ["constructors, evolve(), act()"])

TECH = {}


def main():
    import glob
    import os
    with open("properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    notes = json.load(open("manifest_notes.json")) if os.path.exists("manifest_notes.json") else {}
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists("checks/%s.py" % i.lower()):
            n = notes.get(i, {})
            checks.append({
                "property": i,
                "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % i,
                "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": n.get("technique", "exhaustive stateless exploration of the real code against a reference model"),
                "level": "model_checking",
                "level_note": n.get("level_note", "Exhaustive within the bounds written in the evidence file; the harness's reference model and the finite alphabets of random outcomes are trusted.")})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, sklearn\"", "checks": checks,
         "not_applicable": na,
         "notes": "No hooks in /repo: the checks control randomness and executors by replacing the standard library's entry points before importing eckity from /repo."}
    json.dump(m, open("MANIFEST.json", "w"), indent=1)


main()
