"""Configurations of whole runs, shared by C01, C15 and C21."""
import random

from .common import *
from . import gp
from eckity.creators import (GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator,
                             FullCreator, GrowCreator, HalfCreator)
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.multi_objective_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.random import RNG


class GenomeEv(SimpleIndividualEvaluator):
    """a score computed from the genome; draws: random numbers drawn per call"""

    def __init__(self, multi=0, draws=0):
        super().__init__()
        self.multi, self.draws = multi, draws

    def evaluate_individual(self, individual):
        for _ in range(self.draws):
            random.random()
            np.random.random()
        if isinstance(individual, Vector):
            v = sum((i + 1) * c for i, c in enumerate(individual.get_vector()))
            v = float(v) % 7.0
        else:
            v = 0.0
            for x in (-1.0, 0.5, 2.0):
                r = individual.execute(x=x, y=1.5 - x)
                v += abs(float(r) - x * x) if abs(float(r)) < 1e9 else 1e9
        if self.multi:
            # neither aligned nor opposed: several fronts
            w = float(sum(c * c for c in individual.get_vector()) + 2 * v) % 5.0
            return [v, w, (v * v) % 3.0][:self.multi]
        return v


def tour(k=2, hib=False):
    return [(TournamentSelection(tournament_size=k, higher_is_better=hib), 1)]


def fps():
    return [(FitnessProportionateSelection(higher_is_better=True), 1)]


UF = dict(function_set=[gp.sub, gp.neg, gp.mul2], terminal_set=["x", "y", 1.0, 2.0])
TF = dict(function_set=[gp.t_sub, gp.t_neg, gp.t_lt, gp.t_pick], terminal_set={"x": float, "y": float, 1.0: float, True: bool, False: bool})


def cfg(creator, ops, sel=None, n=4, elite=0.0, hib=False, multi=0):
    return dict(creator=creator, ops=ops, sel=sel or tour, n=n, elite=elite, hib=hib, multi=multi)


def GVC(ft=NSGA2Fitness, length=4, bounds=(0, 1), vt=BitStringVector):
    return GAVectorCreator(length=length, bounds=bounds, vector_type=vt, fitness_type=ft)


CONFIGS = {
    "bit": cfg(lambda: GABitStringVectorCreator(length=4), lambda: [VectorKPointsCrossover(probability=.7, k=2), BitStringVectorFlipMutation(probability=.5)]),
    "bit-elite": cfg(lambda: GABitStringVectorCreator(length=4), lambda: [VectorKPointsCrossover(probability=1, k=1), BitStringVectorNFlipMutation(n=2, probability=.5)], n=6, elite=1 / 3, hib=True, sel=lambda: tour(3, True)),
    "int": cfg(lambda: GAIntVectorCreator(length=3, bounds=(0, 9)), lambda: [VectorKPointsCrossover(probability=.5, k=1), IntVectorOnePointMutation(probability=.8), IntVectorNPointMutation(n=2, probability=.5)]),
    "int-npoint": cfg(lambda: GAIntVectorCreator(length=3, bounds=[(0, 3), (2, 9), (-5, 5)]), lambda: [VectorNPointMutation(n=1, probability=.8)], sel=lambda: [(TournamentSelection(tournament_size=2, replace=False), 1)]),
    "float": cfg(lambda: GAFloatVectorCreator(length=3, bounds=(-1.0, 1.0)), lambda: [FloatVectorUniformOnePointMutation(probability=.6), FloatVectorGaussNPointMutation(n=2, mu=0.0, sigma=.5, probability=.6)], sel=fps, hib=True),
    "float-gauss": cfg(lambda: GAFloatVectorCreator(length=2, bounds=(-1.0, 1.0)), lambda: [FloatVectorGaussOnePointMutation(mu=0.0, sigma=3.0, probability=1), FloatVectorUniformNPointMutation(n=1, probability=.3)], elite=.25),
    "two-creators": cfg(lambda: [GABitStringVectorCreator(length=4), GABitStringVectorCreator(length=4, bounds=(0, 1))], lambda: [BitStringVectorFlipMutation(probability=1)], n=3),
    "gp-half": cfg(lambda: HalfCreator(init_depth=(1, 2), **UF), lambda: [SubtreeCrossover(probability=.8), SubtreeMutation(probability=.4)], sel=lambda: tour(2), n=4),
    "gp-erc": cfg(lambda: GrowCreator(init_depth=(1, 3), erc_range=(-2.0, 2.0), bloat_weight=.01, **UF), lambda: [SubtreeCrossover(probability=1), ERCMutation(probability=.7)], elite=.25),
    "gp-full": cfg(lambda: FullCreator(init_depth=(2, 2), erc_range=(0, 3), **UF), lambda: [SubtreeMutation(probability=1), ERCMutation(probability=1)], hib=True, sel=lambda: tour(2, True)),
    "gp-typed": cfg(lambda: GrowCreator(init_depth=(1, 2), root_type=float, **TF), lambda: [SubtreeCrossover(probability=1), SubtreeMutation(probability=.5)]),
    "nsga2-bit": cfg(lambda: GVC(), lambda: [VectorKPointsCrossover(probability=1, k=1), BitStringVectorNFlipMutation(n=2, probability=.6)], multi=2),
    "nsga2-float": cfg(lambda: GVC(length=3, bounds=(-1.0, 1.0), vt=FloatVector), lambda: [FloatVectorUniformOnePointMutation(probability=.8)], multi=3, n=6),
    "nsga2-int": cfg(lambda: GVC(length=2, bounds=(0, 4), vt=IntVector), lambda: [IntVectorNPointMutation(n=1, probability=1)], multi=2, n=3),
    "nsga2-wide": cfg(lambda: GVC(length=3, bounds=(0, 9), vt=IntVector), lambda: [VectorKPointsCrossover(probability=.9, k=1), IntVectorNPointMutation(n=1, probability=.5)], multi=2, n=8),
}
SINGLE = [k for k in CONFIGS if not CONFIGS[k]["multi"]]
MULTI = [k for k in CONFIGS if CONFIGS[k]["multi"]]


def build(name, seed, gens, executor="thread", workers=1, method="map", evaluator=None, draws=0, individuals=None, ops=None, **kw):
    c = CONFIGS[name]
    ev = evaluator or GenomeEv(c["multi"], draws)
    sp = Subpopulation(evaluator=ev, creators=c["creator"](), operators_sequence=(ops or c["ops"])(), selection_methods=c["sel"](),
                       elitism_rate=c["elite"], population_size=c["n"], higher_is_better=c["hib"], individuals=individuals)
    cls = NSGA2Evolution if c["multi"] else SimpleEvolution
    return cls(sp, population_evaluator=SimplePopulationEvaluator(executor_method=method), max_generation=gens, executor=executor,
               max_workers=workers, random_seed=seed, **kw)


def r(x):
    return repr(x)


def pop_view(alg):
    return [[(r(genome(i)), r(score_of(i))) for i in sp.individuals] for sp in alg.population.sub_populations]


def ind_view(i):
    return None if i is None else (r(genome(i)), r(score_of(i)))


class Trace:
    """what a user sees of a run"""

    def __init__(self, alg, best=True):
        self.rows = []
        self.best = best
        self.multi = isinstance(alg, NSGA2Evolution)
        alg.register("init", lambda s, d: self.row("init", s))
        alg.register("after_generation", lambda s, d: self.row("generation", s))

    def row(self, what, alg):
        b = ind_view(alg.best_of_run_) if self.best else None
        g = alg.best_of_gen
        if self.multi:
            g = None if g is None or what == "init" else [[ind_view(i) for i in f] for f in g]
        else:
            g = None if what == "init" else ind_view(g)
        self.rows.append((what, alg.generation_num, pop_view(alg), b, g))


def first_diff(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            for nm, p, q in zip(("event", "generation", "population", "best of run", "best of generation"), x, y):
                if p != q:
                    return "%s %s: %s is %s, was %s" % (y[0], y[1], nm, str(q)[:600], str(p)[:600])
    if len(a) != len(b):
        return "%d announcements instead of %d" % (len(b), len(a))
    return None
