"""C15: pausing, copying, saving and resuming a run."""
import copy
import pickle
import random

from .common import *
from . import menu
from .menu import CONFIGS, GenomeEv, MULTI, SINGLE, build, first_diff, ind_view, pop_view
from eckity.statistics.statistics import Statistics
from eckity.statistics.best_average_worst_statistics import BestAverageWorstStatistics

BOUNDS = {
    "quick": "18 configurations of 4 generations; a pause at the start and after every generation; deep copy, pickle, rebuilding from cloned or copied individuals; resumed at once (the original waiting in the middle) or after the original ended, with or without foreign random draws; a second pause at every generation of the resumed run; the same configurations of 12 generations with one pause anywhere",
    "thorough": "the same with 5 generations, three pauses, and 20 generations with one"}
ASSUMPTIONS = ["user callbacks, operators and evaluators can be copied themselves",
               "the resumed algorithm is asked for the remaining number of generations; it counts them from 1",
               "no termination checker with memory is configured"]
WAYS = ("deepcopy", "pickle", "rebuild-clone", "rebuild-copy")


def _ignored(sender=None, data=None):
    return None


def _get_ignored():
    return _ignored


class Hook:
    """a subscriber of the harness: copies of the algorithm do not carry it"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, sender, data):
        return self.fn(sender, data)

    def __reduce__(self):
        return (_get_ignored, ())


class Stat(Statistics):
    """a user's statistics: remembers what it wrote"""

    def __init__(self):
        super().__init__("")
        self.written = []

    def write_statistics(self, sender, data_dict):
        self.written.append(data_dict["generation_num"])


class Adaptive(GeneticOperator):
    """a user's operator with state of its own"""

    def __init__(self):
        super().__init__(probability=0.8, arity=1)
        self.n = 0

    def apply(self, individuals):
        for i in individuals:
            v = i.get_vector()
            v[self.n % len(v)] = 1 - v[self.n % len(v)]
            v[random.randrange(len(v))] = 1 - v[self.n % len(v)]
            self.n += 1
        self.applied_individuals = individuals
        return individuals


def extra_ops():
    return [VectorKPointsCrossover(probability=.5, k=1), Adaptive()]


CASES = {n: (n, None, False) for n in CONFIGS}
CASES["adaptive"] = ("bit", extra_ops, False)
CASES["nsga2-adaptive"] = ("nsga2-bit", extra_ops, False)
CASES["bit-cached"] = ("bit-elite", None, True)
CASES["gp-cached"] = ("gp-erc", None, True)
CASES["bit-wrap"] = ("bit", None, False)
CASES["gp-wrap"] = ("gp-erc", None, False)


def make(case, gens, **kw):
    name, ops, cache = CASES[case]
    # the seeds of the generations of a wrapping run pass through 2 ** 32 - 1 and 0
    alg = build(name, 2 ** 32 - 2 if case.endswith("-wrap") else 5, gens, ops=ops, statistics=[Stat()], **kw)
    if cache:
        def on(s, d):
            for sp in s.population.sub_populations:
                for i in sp.individuals:
                    i.fitness.cache = True
        alg.register("init", Hook(on))
    return alg


def watch(alg, at=None, do=None):
    rows = []
    k = [0]

    def on(s, d):
        if s is not alg:
            return
        rows.append(pop_view(alg))
        if at is not None and k[0] == at:
            do(alg)
        k[0] += 1
    alg.register("init", Hook(on))
    alg.register("after_generation", Hook(on))
    return rows


def people(alg):
    return [i for sp in alg.population.sub_populations for i in sp.individuals]


def duplicate(case, alg, way, left):
    if way == "deepcopy":
        c = copy.deepcopy(alg)
    elif way == "pickle":
        c = pickle.loads(pickle.dumps(alg))
    else:
        inds = [i.clone() if way == "rebuild-clone" else copy.deepcopy(i) for i in people(alg)]
        c = make(case, left, individuals=inds, generation_seed=alg.generation_seed)
    c.max_generation = left
    before = [genome(i) for i in people(alg)]
    require([genome(i) for i in people(c)] == before, "%s, %s: the copy's individuals differ from the original's", case, way)
    check_no_aliasing(people(alg) + people(c), "%s, %s: original and copy" % (case, way))
    require(c.population is not alg.population and c.population.sub_populations[0] is not alg.population.sub_populations[0],
            "%s, %s: the copy shares the population object", case, way)
    return c


def resume_case(case, gens, pauses):
    multi = CONFIGS[CASES[case][0]]["multi"]

    def fn(ctx):
        alg = make(case, gens)
        ref = watch(alg)
        alg.evolve()
        require(len(ref) == gens + 1, "%s: %d announcements in %d generations", case, len(ref), gens)
        require(alg.statistics[0].written == list(range(1, gens + 1)), "%s: statistics were written for %r", case, alg.statistics[0].written)

        def body(ch):
            def go(algo, start, todo, depth, hist):
                """evolve algo (which stands at generation `start` of the reference), pausing once"""
                at = way = None
                if depth:
                    at = ch.choose(todo, "pause after generation")
                    way = ch.pick(WAYS if case not in ("adaptive", "nsga2-adaptive") else WAYS[:2], "way")
                    when = ch.choose(2, "resume at once")
                    noise = ch.choose(2, "foreign draws") if depth == 1 else 1
                    hist = hist + [(start + at, way, ("at once", "later")[when])]
                copies = []

                def do(a):
                    copies.append(duplicate(case, a, way, todo - at))
                    if noise:
                        random.seed(99)
                        np.random.seed(98)
                        random.gauss(0, 1)
                    if when == 0:
                        go(copies[0], start + at, todo - at, depth - 1, hist)
                rows = watch(algo, at, do)
                stats = algo.statistics[0]
                w0 = len(stats.written)
                algo.evolve()
                what = "%s, paused %r" % (case, hist)
                for j, (x, y) in enumerate(zip(ref[start:], rows)):
                    require(x == y, "%s: generation %d differs from the uninterrupted run: %s instead of %s", what, start + j, str(y)[:500], str(x)[:500])
                require(len(rows) == todo + 1, "%s: %d generations performed, expected %d", what, len(rows) - 1, todo)
                require(stats.written[w0:] == list(range(1, todo + 1)), "%s: statistics were written for generations %r, expected 1..%d", what, stats.written[w0:], todo)
                if copies and when == 1:
                    go(copies[0], start + at, todo - at, depth - 1, hist)
                ctx.seen(hist)
            go(make(case, gens), 0, gens, pauses, [])
        ctx.explore(body, rng=False)
    return Case("resume/%s/g%d/p%d" % (case, gens, pauses), fn)


def ended_case(case, gens):
    """copies of an algorithm that has not started or has ended"""
    def fn(ctx):
        alg = make(case, gens)
        ref = watch(alg)
        alg.evolve()

        def body(ch):
            way = ch.pick(WAYS[:2], "way")
            when = ch.choose(2, "new or ended")
            ex = ch.pick(("thread", "process"), "executor")
            w = ch.pick((1, 3), "workers")
            a = make(case, gens, executor=ex, workers=w)

            def run(algo, what):
                with execs.mode("sync") as st:
                    algo.evolve()
                    # a task given to an executor tells how the individuals were evaluated
                    require(set(st.used) <= {(ex, w)}, "%s: %s evaluates with %r, configured were %d %s workers", case, what, st.used, w, ex)
            if when == 0:
                c = copy.deepcopy(a) if way == "deepcopy" else pickle.loads(pickle.dumps(a))
                rows = watch(c)
                run(c, "a %s of a new algorithm" % way)
                require(rows == ref, "%s: a %s of a new algorithm runs differently: %s", case, way, rows)
                rows = watch(a)
                run(a, "the original")
                require(rows == ref, "%s: an algorithm runs differently after its %s ran", case, way)
            else:
                run(a, "an algorithm")
                best, last = ind_view(a.best_of_run_), pop_view(a)
                c = copy.deepcopy(a) if way == "deepcopy" else pickle.loads(pickle.dumps(a))
                require([[g for g, _ in p] for p in pop_view(c)] == [[g for g, _ in p] for p in last], "%s: a %s of an ended algorithm has another population", case, way)
                require(repr(genome(c.best_of_run_)) == best[0], "%s: a %s of an ended algorithm has another best individual", case, way)
                require(c.final_generation_ == a.final_generation_ and c.generation_num == a.generation_num, "%s: a %s of an ended algorithm lost its generation number", case, way)
                check_no_aliasing(people(a) + people(c), "%s: ended algorithm and its %s" % (case, way))
                c.max_generation = 2
                run(c, "a %s of an ended algorithm" % way)
                require(ind_view(a.best_of_run_) == best and pop_view(a) == last, "%s: running a %s changed the ended original", case, way)
            ctx.seen((way, when, ex))
        ctx.explore(body, rng=False)
    return Case("ended/" + case, fn)


def cases(tier):
    q = tier == "quick"
    g = 4 if q else 5
    out = []
    for c in CASES:
        out.append(resume_case(c, g, 2 if q else 3))
        if c.endswith("-wrap"):
            continue
        out.append(resume_case(c, 12 if q else 20, 1))
        out.append(ended_case(c, 2))
    return out
