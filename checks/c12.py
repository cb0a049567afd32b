"""C12: generations of an NSGA-II run."""
from collections import Counter

from .common import *
from .c11 import fronts_of, dominates
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.evaluators import PopulationEvaluator
from eckity.multi_objective_evolution import NSGA2Breeder, NSGA2Evolution, NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

BOUNDS = {
    "quick": "all initial populations of 1-4 bit vectors and, in each of 1-2 generations, all offspring genomes (any genome for any individual), several score tables with 1-3 objectives, ties and all direction mixes, elites 0/1, one or two sub-populations; the library's operators under all random outcomes with at most 3 (2 for populations of 3) deviations, populations of 6-20 with at most 1 (8 seeds in runs of 3-6 generations)",
    "thorough": "3 generations, more score tables, 4 deviations"}
ASSUMPTIONS = ["the candidates of a generation are the previous population and everything evaluated in that generation"]


class AnyGenome(GeneticOperator):
    """a mutation that may produce any genome"""

    def __init__(self, ch, genomes):
        super().__init__(probability=1, arity=1)
        self.ch, self.genomes = ch, genomes

    def apply(self, individuals):
        for ind in individuals:
            ind.set_vector(list(self.ch.pick(self.genomes, "offspring")))
        self.applied_individuals = individuals
        return individuals


class Ev(SimpleIndividualEvaluator):
    def __init__(self, table, log):
        super().__init__()
        self.table, self.log = table, log

    def evaluate_individual(self, individual):
        g = tuple(individual.get_vector())
        self.log.append(g)
        return list(self.table[g])


def monitor(alg, subs, tables, hibs, logs, n, ctx, what):
    """called at the end of every generation"""
    parents = [[tuple(i.get_vector()) for i in sp.individuals] for sp in subs]
    fronts = [None] * len(subs)
    marks = [0] * len(subs)

    def snapshot(sender, data):
        for k, sp in enumerate(subs):
            parents[k] = [tuple(i.get_vector()) for i in sp.individuals]
            require(len(parents[k]) == n, "%s: %d individuals in the initial population of %d", what, len(parents[k]), n)
            marks[k] = len(logs[k])

    def after(sender, data):
        g = alg.generation_num
        allinds = []
        for k, sp in enumerate(subs):
            w = "%s, generation %d, sub-population %d" % (what, g, k)
            tab, hib = tables[k], hibs[k]
            inds = list(sp.individuals)
            allinds += inds
            require(len(inds) == n, "%s: %d individuals, the population had %d", w, len(inds), n)
            got = []
            for i in inds:
                v = tuple(i.get_vector())
                s = score_of(i)
                require(s is not None, "%s: individual %r is not evaluated", w, v)
                require(tuple(s) == tuple(tab[v]), "%s: individual %r has the scores %r, its genome's are %r", w, v, s, tab[v])
                got.append((v, tuple(s)))
            ev = logs[k][marks[k]:]
            marks[k] = len(logs[k])
            require(n <= len(ev) <= 2 * n, "%s: %d evaluations, expected %d to %d", w, len(ev), n, 2 * n)
            pc = Counter(parents[k])
            if len(ev) == 2 * n:
                miss = pc - Counter(ev)
                require(not miss, "%s: the previous population's %r did not take part in the survival selection", w, list(miss))
                pool = list(ev)
            elif len(ev) == n:
                pool = parents[k] + list(ev)
            else:
                pool = None
            gc = Counter(v for v, _ in got)
            if pool is not None:
                extra = gc - Counter(pool)
                require(not extra, "%s: survivors %r are neither previous individuals nor offspring", w, list(extra))
                sc = tuple(tuple(tab[v]) for v in pool)
                F = fronts_of(sc, hib)
                rank = {}
                for r, f in enumerate(F):
                    for i in f:
                        rank[pool[i]] = r + 1
                left = n
                for r, f in enumerate(F):
                    want = min(left, len(f))
                    have = sum(1 for v, _ in got if rank[v] == r + 1)
                    require(have == want, "%s: candidates %r with scores %r: %d survivors of front %d, expected %d (survivors %r)",
                            w, pool, sc, have, r + 1, want, [v for v, _ in got])
                    left -= want
                for i in inds:
                    v = tuple(i.get_vector())
                    require(i.fitness.front_rank == rank[v], "%s: %r is in front %d but ranked %r", w, v, rank[v], i.fitness.front_rank)
            for v in set(parents[k]) | set(ev):
                if gc[v] < (Counter(pool)[v] if pool else 1):
                    for u, s in got:
                        require(not dominates(tuple(tab[v]), s, hib), "%s: %r was dropped although it dominates the survivor %r", w, v, u)
            # the reported front
            rep = alg.best_of_gen[k]
            nd = [i for i, (v, s) in zip(inds, got) if not any(dominates(t, s, hib) for _, t in got)]
            require(sorted(map(id, rep)) == sorted(map(id, nd)), "%s: reported front %r, the population's non-dominated part is %r", w,
                    [i.get_vector() for i in rep], [i.get_vector() for i in nd])
            if fronts[k] is not None:
                for i in nd:
                    for t in fronts[k]:
                        require(not dominates(t, tuple(i.get_pure_fitness()), hib), "%s: the front got worse: %r was in it, now it holds %r", w, t, i.get_pure_fitness())
            fronts[k] = [tuple(i.get_pure_fitness()) for i in nd]
            parents[k] = [v for v, _ in got]
            ctx.seen((k, tuple(sorted(pool or ev)), tuple(v for v, _ in got)))
        check_no_aliasing(allinds, "%s, generation %d" % (what, g))
    alg.register("init", snapshot)
    alg.register("after_generation", after)


class EachSub(PopulationEvaluator):
    """a user's evaluator for several sub-populations"""

    def _evaluate(self, population):
        for sp in population.sub_populations:
            for ind in sp.individuals:
                if not ind.fitness.is_fitness_evaluated():
                    ind.fitness.set_fitness(sp.evaluator.evaluate_individual(ind))
        return population.sub_populations[0].individuals[0]


def genomes(bits):
    return list(itertools.product((0, 1), repeat=bits))


TABLES = {
    "conflict": (2, (False, False), {(0, 0): (0., 3.), (0, 1): (1., 1.), (1, 0): (3., 0.), (1, 1): (3., 3.)}),
    "chain": (2, (False, False), {(0, 0): (0., 0.), (0, 1): (1., 1.), (1, 0): (1., 2.), (1, 1): (2., 2.)}),
    "ties": (2, (True, False), {(0, 0): (1., 0.), (0, 1): (1., 0.), (1, 0): (0., 0.), (1, 1): (1., 1.)}),
    "max": (2, (True, True), {(0, 0): (0., 2.), (0, 1): (2., 0.), (1, 0): (2., 2.), (1, 1): (1., 1.)}),
    "three": (2, (False, True, False), {(0, 0): (0., 1., 2.), (0, 1): (1., 2., 0.), (1, 0): (2., 0., 1.), (1, 1): (2., 0., 2.)}),
    "one": (2, (False,), {(0, 0): (0.,), (0, 1): (1.,), (1, 0): (2.,), (1, 1): (1.,)}),
    "trade3": (3, (False, True), {g: (float(sum(b << i for i, b in enumerate(g))), float(sum(g))) for g in itertools.product((0, 1), repeat=3)}),
    "max-scalar": (2, True, {(0, 0): (0., 2.), (0, 1): (2., 0.), (1, 0): (2., 2.), (1, 1): (1., 1.)}),
}


def build(ch, tabs, n, gens, ops, init, elite, logs, default_parts, seed=3, cache=False):
    subs = []
    hibs = []
    for k, t in enumerate(tabs):
        bits, hib, tab = TABLES[t]
        no = len(next(iter(tab.values())))
        hibs.append(tuple([hib] * no) if isinstance(hib, bool) else hib)
        inds = [BitStringVector(fitness=NSGA2Fitness(higher_is_better=list(hib) if not isinstance(hib, bool) else hib, cache=cache), length=bits, vector=list(v)) for v in init[k]]
        subs.append(Subpopulation(evaluator=Ev(tab, logs[k]), creators=GAVectorCreator(length=bits, bounds=(0, 1), vector_type=BitStringVector, fitness_type=NSGA2Fitness),
                                  operators_sequence=ops(k), selection_methods=[(TournamentSelection(tournament_size=2), 1)], population_size=n, individuals=inds,
                                  elitism_rate=elite / n, higher_is_better=list(hib) if not isinstance(hib, bool) else hib))
    kw = {} if default_parts else dict(breeder=NSGA2Breeder(), population_evaluator=SimplePopulationEvaluator(), NSGA2FrontSorting=NSGA2FrontSorting())
    if len(subs) > 1:
        kw['population_evaluator'] = EachSub()
    alg = NSGA2Evolution(subs if len(subs) > 1 else subs[0], max_generation=gens, random_seed=seed, max_workers=1, termination_checker=None, statistics=[], **kw)
    return alg, subs, hibs


def free_case(tabs, n, gens, elite=0, default_parts=False, first=None, sorted_init=False, cache=False):
    def fn(ctx):
        def body(ch):
            logs = [[] for _ in tabs]
            init = []
            for k, t in enumerate(tabs):
                gs = genomes(TABLES[t][0])
                row, lo = [], 0
                for i in range(n):
                    if k == 0 and i == 0 and first is not None:
                        j = first
                    elif sorted_init:
                        j = lo + ch.choose(len(gs) - lo, "genome")
                    else:
                        j = ch.choose(len(gs), "genome")
                    lo = j
                    row.append(gs[j])
                init.append(row)
            with execs.mode("sync"):
                alg, subs, hibs = build(ch, tabs, n, gens, lambda k: [AnyGenome(ch, genomes(TABLES[tabs[k]][0]))], init, elite, logs, default_parts, cache=cache)
                monitor(alg, subs, [TABLES[t][2] for t in tabs], hibs, logs, n, ctx, "from %r" % (init,))
                alg.evolve()
            require(alg.generation_num == gens, "from %r: %r generations performed", init, alg.generation_num)
        ctx.explore(body, rng=False)
    return Case("any-offspring/%s/n%d/g%d/elite%d/%s/%s/%s" % ("+".join(tabs), n, gens, elite, default_parts, first, "multiset" if sorted_init else "tuple") + ("/cache" if cache else ""), fn)


OPS = {
    "flip": lambda k: [BitStringVectorFlipMutation(probability=0.5)],
    "cross": lambda k: [VectorKPointsCrossover(probability=0.5, k=1)],
    "cross+nflip": lambda k: [VectorKPointsCrossover(probability=1, k=1), BitStringVectorNFlipMutation(n=1, probability=0.5)],
    "onepoint": lambda k: [VectorNPointMutation(n=2, probability=0.5)],
}


def ops_case(tabs, n, gens, opn, bound):
    def fn(ctx):
        def body(ch):
            logs = [[] for _ in tabs]
            init = [[genomes(TABLES[t][0])[ch.choose(2 ** TABLES[t][0], "genome")] for _ in range(n)] for t in tabs]
            with execs.mode("sync"):
                alg, subs, hibs = build(ch, tabs, n, gens, OPS[opn], init, 0, logs, False)
                monitor(alg, subs, [TABLES[t][2] for t in tabs], hibs, logs, n, ctx, "from %r, %s" % (init, opn))
                alg.evolve()
        ctx.explore(body, bound=bound, alphabet={"random": (0.4, 0.6)})
    return Case("operators/%s/n%d/g%d/%s" % ("+".join(tabs), n, gens, opn), fn)


TABLES["trade5"] = (5, (False, True), {g: (float(sum(b << i for i, b in enumerate(g))), float(sum(b * w for b, w in zip(g, (3, 1, 4, 1, 5)))) + sum(g) / 7) for g in itertools.product((0, 1), repeat=5)})
TABLES["ties4"] = (4, (True, True), {g: (float(g[0] + g[1]), float(g[2] + g[3] - g[0])) for g in itertools.product((0, 1), repeat=4)})
TABLES["three4"] = (4, (True, False, True), {g: (float(sum(g)), float(g[0] * 3 + g[2]), float(g[3] - g[1])) for g in itertools.product((0, 1), repeat=4)})


def larger_case(t, n, gens, opn, bound):
    """larger populations and longer runs: few deviations from the first outcome of every draw"""
    def fn(ctx):
        def body(ch):
            bits = TABLES[t][0]
            gs = genomes(bits)
            step = ch.pick((1, 3, 7), "initial population")
            init = [[gs[(i * step) % len(gs)] for i in range(n)]]
            logs = [[]]
            seed = ch.choose(8, "seed") if not bound else 3
            with execs.mode("sync"):
                alg, subs, hibs = build(ch, (t,), n, gens, OPS[opn], init, 0, logs, False, seed)
                monitor(alg, subs, [TABLES[t][2]], hibs, logs, n, ctx, "from %r, %s" % (init, opn))
                alg.evolve()
        if bound:
            ctx.explore(body, bound=bound, alphabet={"random": (0.4, 0.6), "int_full": 64})
        else:
            ctx.explore(body, rng=False)
    return Case("larger/%s/n%d/g%d/%s/b%d" % (t, n, gens, opn, bound), fn)


def cases(tier):
    q = tier == "quick"
    out = []
    for t in ("conflict", "chain", "ties", "max", "three", "one", "max-scalar"):
        out.append(free_case((t,), 1, 3))
        out.append(free_case((t,), 2, 2, sorted_init=True, cache=True))
        out.append(free_case((t,), 2, 2, default_parts=t in ("chain", "three")))
        for f in range(4):
            out.append(free_case((t,), 3, 1, elite=f % 2, first=f))
        if not q:
            for f in range(4):
                out.append(free_case((t,), 3, 2, first=f, sorted_init=True))
                out.append(free_case((t,), 4, 1, first=f, sorted_init=True))
    for t in ("conflict", "ties"):
        for f in range(4):
            out.append(free_case((t,), 4, 1, first=f, sorted_init=True))
    out.append(free_case(("trade3",), 2, 1))
    out.append(free_case(("conflict", "ties"), 1, 2))
    out.append(free_case(("chain", "max"), 2, 1, sorted_init=True))
    b = 3 if q else 4
    for opn in OPS:
        for t in ("conflict", "ties", "three"):
            out.append(ops_case((t,), 2, 2, opn, b))
            out.append(ops_case((t,), 3, 2, opn, b - 1))
    out.append(ops_case(("conflict", "max"), 2, 2, "cross+nflip", b))
    for t in ("trade5", "ties4", "three4"):
        for n, gens, bound in ((6, 2, 1), (8, 6, 0), (12, 1, 1), (20, 3, 0)) if q else ((6, 3, 1), (8, 30, 0), (12, 2, 1), (40, 3, 0), (20, 2, 1)):
            for opn in OPS:
                out.append(larger_case(t, n, gens, opn, bound))
    if not q:
        for f in range(8):
            out.append(free_case(("trade3",), 3, 1, first=f, sorted_init=True))
            out.append(free_case(("trade3",), 2, 2, first=f, sorted_init=True))
    return out
