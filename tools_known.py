"""Regenerates known_findings.json (fixed entries) from /repo's fix commits."""
import json
import subprocess

MAP = {
 "add_tree checks a node's type": ("C08", "add_tree compared a node below depth 1 with the wrong type (refusing legal nodes, accepting ill-typed ones) and accepted a root of any type"),
 "a random subtree can be any": ("C08", "crossover and mutation could never pick a subtree whose root equals an earlier node (the second x of x - x, the inner call of neg(neg(x)))"),
 "replace_subtree replaces the given": ("C08", "replace_subtree replaced the nodes after the first node equal to the subtree's root, corrupting the tree"),
 "k-point crossover swaps": ("C07", "VectorKPointsCrossover with k >= 2 swapped the wrong segments"),
 "a vector mutation that fails": ("C07", "VectorNPointMutation returned None/another payload after failing all its attempts"),
 "VectorNPointMutation's default value getter": ("C07", "the default mut_val_getter called get_random_number_in_bounds with a surplus argument and raised TypeError"),
 "check_if_in_bounds accepts per-cell": ("C20", "check_if_in_bounds compared per-cell bounds as a range on vectors of length 2"),
 "BitStringVector honours": ("C20", "per-cell bounds were ignored by BitStringVector's random cells"),
 "IntVector's default bounds": ("C20", "IntVector() without bounds had (max, min) and raised"),
 "the submit executor method": ("C02", "executor_method='submit' stored individuals as scores"),
 "final_generation_ is set": ("C04", "final_generation_ stayed unset when a run used all its generations"),
 "an algorithm that ran can be copied": ("C15", "deepcopy/pickle of an algorithm raised on its executor"),
 "operators accept the documented list": ("C14", "a custom list of event names on an operator raised TypeError"),
 "creators pass their events": ("C14", "creators passed events as the operator's arity"),
 "registering without a callback": ("C14", "register(event) without callback stored None and publishing raised"),
 "constants of the terminal set": ("C09", "execute(**kwargs) of a tree with constant terminals demanded the constants as variables"),
 "a tree with constant terminals": ("C09", "str() of a tree with constant terminals raised TypeError"),
 "a tree that is a constant": ("C09", "a constant tree executed on integer data lost its fraction"),
 "a random terminal has the type": ("C08", "random_terminal of a type returned terminals of another type"),
 "ERC mutation keeps": ("C08", "ERC mutation turned an int constant into a float, or changed booleans"),
 "HalfCreator passes bloat_weight": ("C19", "HalfCreator ignored bloat_weight"),
 "trees created without a fitness": ("C10", "Tree's default fitness object was shared by all trees"),
 "algorithms with the default breeder": ("C14", "SimpleEvolution's default breeder was shared by all algorithms"),
 "NSGA2Evolution's defaults": ("C12", "NSGA2Evolution's default components were shared or unusable"),
 "NSGA2Evolution has no single-objective": ("C12", "NSGA2Evolution's default termination checker compares a list with a number and raises"),
 "NSGA2Evolution releases": ("C04", "NSGA2Evolution.finish did not shut down the executor"),
 "elites are copied as they are": ("C05", "operators were applied to elites / to an incomplete last arity group"),
 "NSGA-II front sorting does not depend": ("C11", "front sorting used a set of individuals, so ties depended on object hashes"),
 "in NSGA-II a lower front rank": ("C10", "NSGA2Fitness.better_than preferred the higher front rank"),
 "an operator of probability 0": ("C07", "an operator of probability 0 was applied when the draw was exactly 0"),
 "selected_by and applied_operators": ("C21", "clones inherited selected_by and applied_operators of earlier generations"),
 "creation probabilities may sum": ("C19", "pcr such as [0.1]*10 was rejected because its float sum is not exactly 1"),
 "multi-objective statistics accept": ("C18", "MOEBestWorstStatistics asserted at most two corners and aborted the run"),
 "the default vector creator": ("C19", "GAVectorCreator() with its default bit-string type and bounds (0.0, 1.0) raised TypeError on Python 3.12"),
 "a creator can be applied": ("C14", "Creator.act raised TypeError (create_individuals got the whole payload as its first argument)"),
 "a subscriber may register": ("C14", "publishing raised RuntimeError when a callback registered or unregistered"),
 "registering does not replace": ("C14", "registering on a publisher created with an events dictionary overwrote its subscribers"),
 "a resumed algorithm writes": ("C15", "a copied algorithm registered its statistics again and wrote each report twice"),
 "vector mutations can be pickled": ("C15", "pickling an algorithm with any bundled vector mutation raised AttributeError (lambdas); copies of two of them read the original's probability_for_each"),
 "an NSGA2Evolution that ran": ("C15", "pickling an NSGA2Evolution after a generation raised AttributeError (lambda in its front sorting)"),
 "a publisher with a subscriber without": ("C15", "pickling a publisher with a subscriber without callback raised AttributeError"),
 "terminal nodes are compared by value": ("C15", "a GP run resumed from a pickle diverged: terminals compared by the identity of their value, which pickling does not keep"),
 "trees with an argmax root": ("C16", "pickling an estimator (or evaluating in processes) with argmax2floats raised PicklingError"),
 "argmax2floats accepts": ("C16", "argmax2floats raised on a mixture of scalars and arrays"),
}


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                         capture_output=True, text=True, check=True).stdout.splitlines()
    fixed = []
    for line in log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"):
            continue
        hit = [v for k, v in MAP.items() if s[5:].startswith(k)]
        assert len(hit) == 1, line
        fixed.append("fixed: property=%s %s %s" % (hit[0][0], h, hit[0][1]))
    try:
        findings = json.load(open("known_findings.json")).get("findings", [])
    except FileNotFoundError:
        findings = []
    json.dump({"findings": findings, "fixed": fixed}, open("known_findings.json", "w"), indent=1)


main()
