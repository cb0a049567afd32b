"""C05: breeding."""
from .common import *

BOUNDS = {"quick": "1-2 sub-populations of 2..4 vectors or trees, 0..size elites, sequences of <=3 operators of arity 1/2, <=2 generations; random outcomes with at most 4 deviations; populations of 10-40 with at most 1 deviation",
          "thorough": "as quick with up to 6 deviations and populations up to 5"}
ASSUMPTIONS = ["random outcomes: 0 / 0.4 / 0.999999 for real draws, every index for discrete draws"]


def f_sub(a, b):
    return a - b


def f_neg(a):
    return -a


class Rec(GeneticOperator):
    """records the groups it is applied to"""

    def __init__(self, name, arity, log, probability=1.0):
        super().__init__(probability=probability, arity=arity)
        self.name, self.log = name, log

    def apply(self, individuals):
        self.log.append((self.name, [id(i) for i in individuals]))
        return individuals


class Swap(GeneticOperator):
    """arity 2: exchanges the two vectors, returns *new order* in place"""

    def __init__(self):
        super().__init__(probability=1.0, arity=2)

    def apply(self, individuals):
        a, b = individuals
        va, vb = list(a.get_vector()), list(b.get_vector())
        a.set_vector(vb)
        b.set_vector(va)
        return individuals


def tree_ind(shape, hib, s, cache):
    t = Tree(function_set=[f_sub, f_neg], terminal_set=["x", 1], fitness=GPFitness(fitness=s, higher_is_better=hib, bloat_weight=0.1, cache=cache))
    m = {"s": lambda: FunctionNode(f_sub), "n": lambda: FunctionNode(f_neg), "x": lambda: TerminalNode("x"), "1": lambda: TerminalNode(1)}
    t.tree = [m[c]() for c in shape]
    return t


def make_inds(kind, scores, hib, cache):
    if kind == "bit":
        return [BitStringVector(fitness=SimpleFitness(fitness=s, higher_is_better=hib, cache=cache), length=3,
                                vector=[(i >> b) & 1 for b in range(3)]) for i, s in enumerate(scores)]
    if kind == "float":
        return [FloatVector(fitness=SimpleFitness(fitness=s, higher_is_better=hib, cache=cache), length=2, bounds=(-4.0, 4.0),
                            vector=[float(i), -float(i)]) for i, s in enumerate(scores)]
    shapes = ["sx1", "nx", "x", "snx1", "s1nx"]
    return [tree_ind(shapes[i % 5], hib, s, cache) for i, s in enumerate(scores)]


def comparable(ind):
    return ind.get_augmented_fitness()


def ops_for(kind, which, log):
    if which == "rec1":
        return [Rec("a", 1, log)]
    if which == "rec12":
        return [Rec("a", 1, log), Rec("b", 2, log), Rec("c", 1, log)]
    if which == "rec7":
        return [Rec(c, 2 if c in "bf" else 1, log) for c in "abcdefg"]
    if which == "rec2":
        return [Rec("b", 2, log)]
    if which == "swap":
        return [Swap(), Rec("a", 1, log)]
    if kind == "bit":
        return [VectorKPointsCrossover(k=1, probability=0.5), BitStringVectorFlipMutation(probability=0.5)]
    if kind == "float":
        return [VectorKPointsCrossover(k=1), FloatVectorGaussOnePointMutation(probability=0.5, attempts=2)]
    return [SubtreeCrossover(probability=0.5), SubtreeMutation(probability=0.5, init_depth=(1, 1)), ERCMutation(probability=0.5)]


def selection(which, hib):
    if which == "tour1":
        return TournamentSelection(tournament_size=1, higher_is_better=hib)
    if which == "tour2":
        return TournamentSelection(tournament_size=2, higher_is_better=hib)
    if which == "tour2n":
        return TournamentSelection(tournament_size=2, higher_is_better=hib, replace=False)
    return FitnessProportionateSelection(higher_is_better=hib)


def breed_case(kind, n, n_elite, sel, which, hib, gens, nsub, bound, cache, scores_menu, mixed=None):
    """mixed: elites of the second sub-population, which has the opposite direction"""
    hibs = [hib, hib if mixed is None else not hib][:nsub]
    elites = [n_elite, n_elite if mixed is None else mixed][:nsub]

    def fn(ctx):
        def body(ch):
            log = []
            subs, prev = [], []
            for k in range(nsub):
                scores = ch.pick(scores_menu, "scores")
                inds = make_inds(kind, scores[:n], hibs[k], cache)
                sp = Subpopulation(evaluator=NullEvaluator(), creators=_dummy_creator(), operators_sequence=ops_for(kind, which, log),
                                   selection_methods=[(selection(sel, hibs[k]), 1)], elitism_rate=elites[k] / n, population_size=n,
                                   individuals=inds, higher_is_better=hibs[k])
                subs.append(sp)
            pop = Population(subs)
            breeder = SimpleBreeder()
            for g in range(gens):
                what = "generation %d of %d %s x%d, %d elites, %s, %s" % (g + 1, n, kind, nsub, n_elite, sel, which)
                old = [list(s.individuals) for s in subs]
                before = [[snap(i) for i in s.individuals] for s in subs]
                vals = [[comparable(i) for i in s.individuals] for s in subs]
                del log[:]
                breeder.breed(pop)
                require(pop.sub_populations == subs, "%s: sub-populations replaced", what)
                for s, ob, bf in zip(subs, old, before):
                    require([snap(i) for i in ob] == bf, "%s: an individual of the previous generation was modified: %r -> %r",
                            what, bf, [snap(i) for i in ob])
                allnew = []
                for k, s in enumerate(subs):
                    new = list(s.individuals)
                    require(len(new) == n, "%s: population size %d became %d", what, n, len(new))
                    oldids = {i.id: j for j, i in enumerate(old[k])}
                    for i in new:
                        require(i.cloned_from in oldids, "%s: an individual descends from no individual of its own sub-population", what)
                        require(i.id not in oldids, "%s: id of the previous generation reused", what)
                    # elites: the best n_elite values survive unchanged
                    if elites[k]:
                        unchanged = [i for i in new if not i.applied_operators
                                     and genome(i) == genome(old[k][oldids[i.cloned_from]])
                                     and "ElitismSelection" in i.selected_by]
                        got = sorted((vals[k][oldids[i.cloned_from]] for i in unchanged), reverse=hibs[k])
                        want = sorted(vals[k], reverse=hibs[k])[:elites[k]]
                        require(got == want, "%s: elites kept have scores %r, the best are %r", what, got, want)
                        require(len({i.cloned_from for i in unchanged}) == elites[k], "%s: an elite is kept twice", what)
                    if which.startswith("rec"):
                        for i in new:
                            src = old[k][oldids[i.cloned_from]]
                            require(genome(i) == genome(src), "%s: genome changed without an operator", what)
                    allnew.extend(new)
                check_no_aliasing(sum(old, []) + allnew, what)
                for i in allnew:
                    if kind == "tree":
                        check_tree_nodes_distinct(i, what)
                if which.startswith("rec"):
                    check_groups(subs, which, log, n, elites, what)
                if which == "swap":
                    for k, s in enumerate(subs):
                        oldids = {i.id: i for i in old[k]}
                        # after a swap the multiset of genomes of selected parents is conserved
                        require(sorted(genome(i) for i in s.individuals) ==
                                sorted(genome(oldids[i.cloned_from]) for i in s.individuals),
                                "%s: exchanging vectors lost or duplicated a genome", what)
                ctx.seen((g, [[genome(i) for i in s.individuals] for s in subs], [[i.cloned_from - old[k][0].id for i in s.individuals] for k, s in enumerate(subs)]))
                if g + 1 < gens:
                    for s in subs:
                        for j, i in enumerate(s.individuals):
                            i.fitness.set_fitness(float((j * 2 + g) % 3))
        ctx.explore(body, bound=bound, alphabet={"random": (0.0, 0.75), "gauss": (0.5, 1e6), "uniform": (0.0, 1.0)})
    return Case("breed/%s/n%d/e%d/%s/%s/%s/g%d/sub%d/%s%s" % (kind, n, n_elite, sel, which, "max" if hib else "min", gens, nsub, cache, "" if mixed is None else "/mixed%d" % mixed), fn)


class OwnSel(TournamentSelection):
    """records whom it is asked to select from"""

    def __init__(self, k, log):
        super().__init__(tournament_size=1)
        self.k, self.log = k, log

    def select(self, source_inds, dest_inds):
        self.log.append(("select", self.k, [i.id for i in source_inds]))
        return super().select(source_inds, dest_inds)


class OwnOp(Rec):
    def apply(self, individuals):
        self.log.append((self.name, [i.cloned_from for i in individuals], [id(i) for i in individuals]))
        return individuals


def own_case(nsub, sizes, gens):
    """every sub-population is bred from its own individuals by its own selection and operators"""
    def fn(ctx):
        def body(ch):
            log, subs = [], []
            for k in range(nsub):
                n = sizes[k % len(sizes)]
                ops = [OwnOp("%d/%d" % (k, j), 1 + (j + k) % 2, log) for j in range(k % 3 + 1)]
                subs.append(Subpopulation(evaluator=NullEvaluator(), creators=_dummy_creator(), operators_sequence=ops, selection_methods=[(OwnSel(k, log), 1)],
                                          elitism_rate=ch.choose(2, "elites") * 2 / n, population_size=n, individuals=make_inds("bit", MENU[0] * 2, False, True)[:n]))
            pop = Population(subs)
            breeder = SimpleBreeder()
            for g in range(gens):
                del log[:]
                old = [[i.id for i in s.individuals] for s in subs]
                breeder.breed(pop)
                got = [(e[1], e[2]) for e in log if e[0] == "select"]
                require(sorted(got) == [(k, old[k]) for k in range(nsub)], "%d sub-populations: selections were asked %r, sub-populations hold %r", nsub, got, old)
                for e in log:
                    if e[0] != "select":
                        k = int(e[0].split("/")[0])
                        require(set(e[1]) <= set(old[k]), "an operator of sub-population %d was applied to others' individuals", k)
                for k, s in enumerate(subs):
                    m = sizes[k % len(sizes)] - s.n_elite
                    for j in range(k % 3 + 1):
                        ar = 1 + (j + k) % 2
                        cnt = sum(1 for e in log if e[0] == "%d/%d" % (k, j))
                        require(cnt == m // ar, "operator %d of sub-population %d was applied %d times to %d individuals", j, k, cnt, m)
                    for i in s.individuals:
                        i.fitness.set_fitness(float(i.id % 3))
                ctx.seen((g, [[i.cloned_from - old[k][0] for i in s.individuals] for k, s in enumerate(subs)]))
        ctx.explore(body, bound=2 if nsub == 2 else 1)
    return Case("own/sub%d/%s/g%d" % (nsub, sizes, gens), fn)


class Renew(GeneticOperator):
    """returns new individuals in another order instead of changing the given ones"""

    def __init__(self, name, arity, log):
        super().__init__(probability=1.0, arity=arity)
        self.name, self.log = name, log

    def apply(self, individuals):
        res = [i.clone() for i in reversed(individuals)]
        for i in res:
            i.applied_operators = []
        self.log.append((self.name, list(individuals), res))
        return res


def replacing_case(n, e, arities):
    """what an operator returns is what the next one gets, and the last one's results are the new generation"""
    def fn(ctx):
        def body(ch):
            log = []
            inds = make_inds("bit", ch.pick(MENU, "scores")[:3] * 4, False, True)[:n]
            sp = Subpopulation(evaluator=NullEvaluator(), creators=_dummy_creator(), operators_sequence=[Renew(j, a, log) for j, a in enumerate(arities)],
                               selection_methods=[(TournamentSelection(tournament_size=1), 1)], elitism_rate=e / n, population_size=n, individuals=list(inds))
            SimpleBreeder().breed(Population([sp]))
            what = "operators of arity %r returning new individuals, %d individuals, %d elites" % (arities, n, e)
            new = sp.individuals
            require(len(new) == n, "%s: %d individuals", what, len(new))
            m = n - e
            made = {}       # object -> (operator that returned it, position)
            for j, a in enumerate(arities):
                calls = [c for c in log if c[0] == j]
                require(len(calls) == m // a and all(len(c[1]) == a for c in calls), "%s: operator %d was applied to groups of %r", what, j, [len(c[1]) for c in calls])
                for c in calls:
                    for x in c[1]:
                        src = made.pop(id(x), None)
                        require(j == 0 or src is not None or any(k > 1 for k in arities[:j]), "%s: operator %d got an individual the previous one did not return", what, j)
                for c in calls:
                    made.update({id(x): j for x in c[2]})
            final = {id(i) for i in new}
            require(set(made) <= final and len(final) == n, "%s: individuals returned by the operators are missing from the new generation", what)
            if all(m % a == 0 for a in arities):
                require(len(made) == m, "%s: %d of %d individuals come from the operators", what, len(made), m)
            check_no_aliasing(list(inds) + list(new), what)
            ctx.seen((what, [genome(i) for i in new]))
        ctx.explore(body, bound=2 if n < 8 else 1)
    return Case("replacing/n%d/e%d/%s" % (n, e, "".join(map(str, arities))), fn)


def check_groups(subs, which, log, n, elites, what):
    names = {"rec1": [("a", 1)], "rec12": [("a", 1), ("b", 2), ("c", 1)], "rec2": [("b", 2)], "rec7": [(c, 2 if c in "bf" else 1) for c in "abcdefg"]}[which]
    pos = 0
    for k, s in enumerate(subs):
        m = n - elites[k]
        ids = [id(i) for i in s.individuals]
        touched = {}
        kept = {id(i) for i in s.individuals if not i.applied_operators and "ElitismSelection" in i.selected_by}
        for nm, ar in names:
            groups = []
            while pos < len(log) and log[pos][0] == nm and set(log[pos][1]) <= set(ids):
                groups.append(log[pos][1])
                pos += 1
            require(all(len(g) == ar for g in groups), "%s: operator %s applied to groups %r", what, nm, [len(g) for g in groups])
            flat = [x for g in groups for x in g]
            require(len(flat) == len(set(flat)), "%s: operator %s applied twice to an individual", what, nm)
            require(len(groups) == m // ar, "%s: operator %s applied to %d groups of %d, expected %d", what, nm, len(groups), ar, m // ar)
            require(not (set(flat) & kept), "%s: operator %s applied to an elite", what, nm)
    require(pos == len(log), "%s: operators applied out of order or to foreign individuals", what)


class _Creator:
    pass


def _dummy_creator():
    from eckity.creators.ga_creators.bit_string_vector_creator import GABitStringVectorCreator
    return GABitStringVectorCreator(length=3)


MENU = [(3.0, 1.0, 2.0, 1.0, 0.0), (0.0, 0.0, 1.0, 2.0, 5.0), (1.0, 2.0, 3.0, 4.0, 5.0), (1.0, 0.9375, 1.125, 0.875, 1.0)]


LONG = [tuple(float(i * 7 % 11) for i in range(40)), tuple(float(i) for i in range(40)), tuple(float(-i) / 2 for i in range(40))]


def bad_arity_case():
    def fn(ctx):
        def body(ch):
            sp = Subpopulation(evaluator=NullEvaluator(), creators=_dummy_creator(), operators_sequence=[VectorKPointsCrossover(k=1)],
                               selection_methods=[(TournamentSelection(2), 1)], population_size=3,
                               individuals=make_inds("bit", (1., 2., 3.), False, False))
            try:
                SimpleBreeder().breed(Population([sp]))
            except ValueError:
                ctx.seen("rejected")
                return
            raise Violation("a population size that is no multiple of an operator's arity was accepted")
        ctx.explore(body, bound=0)
    return Case("bad-arity", fn)


def cases(tier):
    out = []
    q = tier == "quick"
    bound = 4 if q else 6
    for hib in (False, True):
        for kind in ("bit", "float", "tree"):
            for n in (2, 4):
                for e in range(0, n + 1 if n == 2 else 4):
                    for sel in ("tour1", "tour2", "fp"):
                        if sel == "fp" and (kind == "tree" and hib):
                            continue  # bloat makes scores negative
                        out.append(breed_case(kind, n, e, sel, "real", hib, 1, 1, bound if n == 2 else bound - (2 if kind == "tree" and q else 1), e % 2 == 0, MENU))
            out.append(breed_case(kind, 2, 1, "tour1", "real", hib, 2, 2, bound - 1, True, MENU[:2]))
            out.append(breed_case(kind, 2, 0, "tour2n", "real", hib, 2, 1, bound - 1, False, MENU[:2]))
        for which in ("rec1", "rec12", "rec2", "rec7", "swap"):
            for e in (0, 1, 2, 3):
                out.append(breed_case("bit", 4, e, "tour1", which, hib, 1, 1, 2 if which == "rec7" else 4, False, MENU))
                out.append(breed_case("bit", 4, e, "tour2", which, hib, 2, 2, 1 if which == "rec7" else 2, True, MENU[:1]))
        for e, m in ((1, 1), (0, 1), (1, 2), (2, 0)):
            for kind in ("bit", "tree"):
                out.append(breed_case(kind, 2, e, "tour1", "real", hib, 1, 2, 2 if kind == "tree" else 3, True, MENU, mixed=m))
            out.append(breed_case("bit", 4, e, "tour1", "rec12", hib, 2, 2, 2, False, MENU, mixed=m))
        for kind, n, e, sel, which in (("bit", 10, 4, "tour2", "real"), ("tree", 10, 2, "tour2", "real"), ("float", 12, 0, "tour2", "real"), ("bit", 24, 6, "tour2", "rec12"),
                                       ("bit", 12, 1, "tour2", "rec2"), ("bit", 12, 5, "tour2", "rec1"), ("bit", 40, 38, "tour2", "real"), ("tree", 24, 12, "tour1", "real")):
            out.append(breed_case(kind, n, e, sel, which, hib, 2 if n < 24 else 1, 1, 1, n % 4 == 0, LONG))
            if n == 10:
                out.append(breed_case(kind, n, e, sel, which, hib, 1, 2, 1, False, LONG[:1], mixed=2))
                out.append(breed_case(kind, n, e, sel, which, hib, 6, 1, 1 if not q else 0, False, LONG))
    for n, e, ar in ((4, 0, (1,)), (4, 0, (2,)), (4, 1, (2, 1)), (6, 2, (1, 2)), (6, 0, (3, 2, 1)), (6, 1, (3, 1, 2)), (12, 3, (1, 1, 1))):
        out.append(replacing_case(n, e, ar))
    for nsub in (2, 3, 5):
        out.append(own_case(nsub, (4, 2, 6), 2))
    out.append(bad_arity_case())
    return out
