"""C21: identities and histories of individuals over whole runs."""
import random

from mc.explore import Divergence
from .common import *
from . import gp, menu
from .menu import UF, TF, GenomeEv, fps, tour
from eckity.creators import GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator, FullCreator, GrowCreator
from eckity.multi_objective_evolution import NSGA2Evolution
from eckity.individual import Individual
from eckity.creators.creator import Creator

BOUNDS = {
    "quick": "runs of 2 generations (3 for one-operator runs) of 2-5 individuals under all random outcomes with at most 2 deviations (3 in the small runs) from the first outcome; every library operator, failing and user operators, arities 1-3, two selections, elites 0-2, with and without parent tracking; runs of 9 generations with at most one deviation",
    "thorough": "one more deviation, one more generation, 14 generations with one"}
ASSUMPTIONS = ["fitness is a function of the genome"]

ALPHA = {"random": (0.0, 0.7), "uniform": (0.5, 1.0), "gauss": (0.0, 1.0)}


class Swap3(GeneticOperator):
    """a user's operator on three individuals that returns them in another order"""

    def __init__(self, probability=1.0):
        super().__init__(probability=probability, arity=3)

    def apply(self, individuals):
        v = [i.get_vector()[0] for i in individuals]
        for i, x in zip(individuals, v[1:] + v[:1]):
            i.set_cell_value(0, x)
        self.applied_individuals = [individuals[2], individuals[0], individuals[1]]
        return self.applied_individuals


class NeverWorks(FailableOperator):
    def __init__(self, arity=1, probability=1.0):
        super().__init__(probability=probability, arity=arity, attempts=2)

    def attempt_operator(self, payload, attempt_num):
        return False, payload


class SubFlip(BitStringVectorFlipMutation):
    """a user's variant of a library operator"""


class MyPick(SelectionMethod):
    """a user's selection: everybody in turn, from a random start"""

    def select(self, source_inds, dest_inds):
        k = random.randrange(len(source_inds))
        n = len(source_inds)
        while len(dest_inds) < n:
            c = source_inds[k % n].clone()
            c.selected_by.append("MyPick")
            dest_inds.append(c)
            k += 1
        self.selected_individuals = dest_inds
        return dest_inds


class OwnTournament(TournamentSelection):
    """a user's variant of a library selection"""


def bits(n=3):
    return lambda up: GABitStringVectorCreator(length=n, update_parents=up)


def floats(up):
    return GAFloatVectorCreator(length=2, bounds=(-1.0, 1.0), update_parents=up)


def ints(up):
    return GAIntVectorCreator(length=2, bounds=(0, 3), update_parents=up)


def trees(up):
    return FullCreator(init_depth=(1, 2), update_parents=up, **UF)


def ercs(up):
    return GrowCreator(init_depth=(1, 1), erc_range=(0.0, 2.0), update_parents=up, **UF)


def typed(up):
    return GrowCreator(init_depth=(1, 1), root_type=float, update_parents=up, **TF)


class KindsCreator(Creator):
    """a user's creator: individuals of several kinds in turn"""

    def __init__(self, creators):
        super().__init__()
        self.creators = creators

    def create_individuals(self, n_individuals, higher_is_better):
        self.created_individuals = [self.creators[k % len(self.creators)].create_individuals(1, higher_is_better)[0] for k in range(n_individuals)]
        return self.created_individuals


def mixed(up):
    """individuals of three kinds in one population"""
    return KindsCreator([bits(2)(up), ints(up), trees(up)])


def X(p=.5, k=1):
    return VectorKPointsCrossover(probability=p, k=k)


# name: creator, operators, selection, size, elites, generations, bound
RUNS = {
    "cross": (bits(), lambda: [X()], tour, 4, 0, 2, 2),
    "cross-flip": (bits(), lambda: [X(.5), BitStringVectorFlipMutation(probability=.5)], tour, 4, 0, 2, 2),
    "flip-cross-elite": (bits(), lambda: [BitStringVectorNFlipMutation(n=2, probability=.5), X(1, 2)], tour, 4, 2, 2, 2),
    "odd-rest": (bits(), lambda: [X(.5), BitStringVectorFlipMutation(probability=1)], tour, 4, 1, 2, 2),
    "pair": (bits(2), lambda: [BitStringVectorFlipMutation(probability=.5)], tour, 2, 1, 3, 3),
    "pair-cross": (bits(2), lambda: [X(.5), X(.5)], tour, 2, 0, 3, 3),
    "zero": (bits(), lambda: [X(0), BitStringVectorFlipMutation(probability=0)], tour, 2, 0, 2, 2),
    "none": (bits(), lambda: [], tour, 3, 1, 3, 2),
    "mixed": (mixed, lambda: [IdentityTransformation(probability=.5), NeverWorks(1, .5)], tour, 3, 1, 2, 2),
    "identity": (bits(), lambda: [IdentityTransformation(probability=1)], tour, 3, 0, 2, 2),
    "fail": (bits(), lambda: [NeverWorks(1, .5), NeverWorks(2, .5)], tour, 4, 0, 2, 2),
    "reorder": (bits(), lambda: [Swap3(.5), X(.5)], tour, 6, 0, 2, 1),
    "reorder-rest": (bits(), lambda: [Swap3(.5), BitStringVectorFlipMutation(probability=.5)], tour, 6, 2, 2, 1),
    "subclassed": (bits(), lambda: [SubFlip(probability=.5)], lambda: [(OwnTournament(tournament_size=2), 1)], 3, 1, 2, 2),
    "user-selection": (bits(), lambda: [X(.5)], lambda: [(MyPick(), 1)], 4, 0, 2, 2),
    "no-repeat": (bits(), lambda: [X(.5)], lambda: [(TournamentSelection(tournament_size=2, replace=False), 1)], 4, 0, 2, 2),
    "proportionate": (bits(), lambda: [X(.5), BitStringVectorFlipMutation(probability=.5)], fps, 4, 1, 2, 2),
    "float": (floats, lambda: [FloatVectorGaussOnePointMutation(mu=0.0, sigma=3.0, probability=.5), FloatVectorUniformNPointMutation(n=1, probability=.5)], fps, 3, 1, 2, 2),
    "int": (ints, lambda: [IntVectorOnePointMutation(probability=.5), IntVectorNPointMutation(n=1, probability=.5)], tour, 3, 0, 2, 2),
    "trees": (trees, lambda: [SubtreeCrossover(probability=.5), SubtreeMutation(probability=.5)], tour, 4, 1, 2, 1),
    "constants": (ercs, lambda: [ERCMutation(probability=.5), SubtreeCrossover(probability=.5)], tour, 4, 0, 2, 1),
    "typed": (typed, lambda: [SubtreeCrossover(probability=.5)], tour, 4, 0, 2, 1),
}


def sel_name(run):
    return type(RUNS[run][2]()[0][0]).__name__


def build(run, up, gens, log):
    creator, ops, sel, n, elites, _, _ = RUNS[run]
    operators = ops()
    methods = sel()
    alg = SimpleEvolution(
        Subpopulation(evaluator=GenomeEv(), creators=creator(up), operators_sequence=operators, selection_methods=methods,
                      elitism_rate=elites / n, population_size=n, higher_is_better=False),
        max_generation=gens, executor="thread", max_workers=1, random_seed=3, statistics=[])
    require(alg.population.sub_populations[0].n_elite == elites, "%d elites of %d are taken as %d", elites, n, alg.population.sub_populations[0].n_elite)
    for op in operators:
        def apply(individuals, _f=op.apply, _op=op):
            ids = [i.id for i in individuals]
            res = _f(individuals)
            log.append((type(_op).__name__, ids, [i.id for i in individuals], [i.id for i in res]))
            return res
        op.apply = apply
    m = methods[0][0]

    def select(source_inds, dest_inds, _f=m.select):
        before = {i.id: genome(i) for i in source_inds}
        res = _f(source_inds, dest_inds)
        log.append(("select", before, [(i.id, i.cloned_from, genome(i), tuple(i.selected_by), tuple(i.applied_operators),
                                       tuple(i.parents) if i.update_parents else ()) for i in res], None))
        return res
    m.select = select
    return alg


def population(alg):
    return [i for sp in alg.population.sub_populations for i in sp.individuals]


def run_checked(run, up, gens, ctx):
    elites = RUNS[run][4]
    log = []
    alg = build(run, up, gens, log)
    used = {}
    rows = []
    prev = [None]

    def new_ids(inds, what):
        ids = [i.id for i in inds]
        require(len(set(ids)) == len(ids), "%s: ids %r are not distinct", what, ids)
        for i in ids:
            require(i not in used, "%s: id %r was used by an individual of %s", what, i, used.get(i))
        for i in ids:
            used[i] = what

    def on_init(s, d):
        inds = population(alg)
        what = "run %s: initial population" % run
        new_ids(inds, what)
        for i in inds:
            require(i.gen == 0, "%s: generation number %r", what, i.gen)
            require(list(i.selected_by) == [] and list(i.applied_operators) == [], "%s: history %r %r of a new individual", what, i.selected_by, i.applied_operators)
            require(bool(i.update_parents) == up, "%s: parent tracking is %r", what, i.update_parents)
            require(not up or list(i.parents) == [], "%s: parents %r of a new individual", what, getattr(i, "parents", None))
        prev[0] = {i.id: genome(i) for i in inds}
        rows.append([genome(i) for i in inds])
        del log[:]

    def on_gen(s, d):
        g = d["generation_num"]
        inds = population(alg)
        what = "run %s: generation %d" % (run, g)
        new_ids(inds, what)
        sels = [e for e in log if e[0] == "select"]
        require(len(sels) == 1, "%s: %d selections", what, len(sels))
        picked = {p[0]: p for p in sels[0][2]}
        require(set(picked) == {i.id for i in inds}, "%s: ids %r were selected, ids %r are in the population", what, sorted(picked), sorted(i.id for i in inds))
        n_el = 0
        for i in inds:
            src = picked[i.id]
            require(i.gen == g, "%s: individual %d has generation number %r", what, i.id, i.gen)
            require(i.cloned_from == src[1] and i.cloned_from in prev[0], "%s: individual %d is recorded as cloned from %r, the last generation has %r", what, i.id, i.cloned_from, sorted(prev[0]))
            require(src[2] == prev[0][i.cloned_from], "%s: the selected clone %d has genome %r, individual %d had %r", what, i.id, src[2], i.cloned_from, prev[0][i.cloned_from])
            require(src[4] == () and src[5] == (), "%s: a selected clone starts with operators %r, parents %r", what, src[4], src[5])
            by = list(i.selected_by)
            require(by in (["ElitismSelection"], [sel_name(run)]), "%s: individual %d is recorded as selected by %r", what, i.id, by)
            want = [e[0] for e in log if e[0] != "select" and i.id in e[3]]
            ops = list(i.applied_operators)
            require(ops == want, "%s: individual %d went through %r, recorded are %r", what, i.id, want, ops)
            if by == ["ElitismSelection"]:
                n_el += 1
                require(not ops, "%s: an elite went through %r", what, ops)
                require(genome(i) == prev[0][i.cloned_from], "%s: elite %d differs from the individual it was cloned from", what, i.id)
            if up:
                groups = [e[1] for e in log if e[0] != "select" and i.id in e[3]]
                mates = [m for gr in groups for m in gr]
                require(set(i.parents) - {i.id} == set(mates) - {i.id}, "%s: individual %d went through operators with %r, recorded parents are %r", what, i.id, groups, i.parents)
            else:
                require(not hasattr(i, "parents") or not i.parents, "%s: parents %r without parent tracking", what, getattr(i, "parents", None))
            ctx.seen((run, tuple(by), tuple(ops), len(getattr(i, "parents", ()))))
        require(n_el == elites, "%s: %d individuals are recorded as elites of %d", what, n_el, elites)
        prev[0] = {i.id: genome(i) for i in inds}
        rows.append([genome(i) for i in inds])
        del log[:]

    alg.register("init", on_init)
    alg.register("after_generation", on_gen)
    with execs.mode("sync"):
        alg.evolve()
    require(len(rows) == gens + 1, "run %s: %d populations in %d generations", run, len(rows), gens)
    return rows


def run_case(run, gens, bound, tag="run"):
    def fn(ctx):
        def body(ch):
            rows = run_checked(run, True, gens, ctx)
            # the same outcomes without tracking, with other ids
            ch2 = Chooser(ch.choices, ch.sizes)
            Individual.id += 1000
            try:
                with rng.controlled(ch2, ALPHA):
                    rows2 = run_checked(run, False, gens, ctx)
            except Divergence as e:
                raise Violation("run %s: recording parents changes the random draws: %s" % (run, e))
            require(ch2.choices == ch.choices, "run %s: recording parents changes the random draws", run)
            require(rows == rows2, "run %s: recording parents changes the populations: %r, %r", run, rows, rows2)
        ctx.explore(body, bound=bound, alphabet=ALPHA)
    return Case(tag + "/%s" % run, fn)


def clone_case(pre=0):
    """all chains of clones and history entries up to a depth"""
    def make(kind, up):
        if kind == "bit":
            return vec(BitStringVector, [0, 1], (0, 1), update_parents=up)
        if kind == "float":
            return vec(FloatVector, [0.5, 1.0], (0.0, 1.0), update_parents=up)
        if kind == "int":
            return vec(IntVector, [1, 2], (0, 5), update_parents=up)
        with rng.uncontrolled():
            return trees(up).create_individuals(1, False)[0]

    def fn(ctx):
        def body(ch):
            kind, kind2 = ch.pick([("bit", "bit"), ("float", "float"), ("int", "int"), ("tree", "tree"), ("bit", "int"), ("tree", "float")], "kinds")
            up = bool(ch.choose(2, "parent tracking"))
            pool = [make(kind, up), make(kind2, up)]
            model = [dict(id=i.id, src=i.cloned_from, sel=[], ops=[], par=[], gen=0) for i in pool]
            for k in range(pre):
                with rng.uncontrolled():
                    IdentityTransformation(probability=1).apply_operator([pool[0]])
                model[0]["ops"] = model[0]["ops"] + ["IdentityTransformation"]
                model[0]["par"] = model[0]["par"] + ([pool[0].id] if up else [])
            for _ in range((2 if pre else 3) + (ctx.tier != "quick")):
                k = ch.choose(len(pool), "individual")
                act = ch.pick(["clone", "select", "apply", "gen"], "action")
                ind, m = pool[k], model[k]
                if act == "clone":
                    c = ind.clone()
                    require(c.cloned_from == ind.id, "the clone of %d is recorded as cloned from %r", ind.id, c.cloned_from)
                    require(c.id not in [x["id"] for x in model], "the clone of %d has the used id %d", ind.id, c.id)
                    require(genome(c) == genome(ind), "the clone has another genome")
                    pool.append(c)
                    model.append(dict(id=c.id, src=ind.id, sel=[], ops=[], par=[], gen=m["gen"]))
                elif act == "select":
                    dest = []
                    for x in pool:
                        x.fitness.set_fitness(1.0 if x is ind else 0.0)
                    ElitismSelection(1, higher_is_better=True).select(pool, dest)
                    require(len(dest) == 1 and dest[0].cloned_from == ind.id and list(dest[0].selected_by) == ["ElitismSelection"], "elitism picked %r by %r instead of %r", dest[0].cloned_from, dest[0].selected_by, ind.id)
                    pool.append(dest[0])
                    model.append(dict(id=dest[0].id, src=ind.id, sel=["ElitismSelection"], ops=[], par=[], gen=m["gen"]))
                elif act == "apply":
                    j = ch.choose(len(pool), "mate")
                    if j == k:
                        IdentityTransformation(probability=1).apply_operator([ind])
                        m["ops"] = m["ops"] + ["IdentityTransformation"]
                        m["par"] = m["par"] + ([ind.id] if up else [])
                    else:
                        NeverWorks(2).apply_operator([ind, pool[j]])
                        for t in (m, model[j]):
                            t["ops"] = t["ops"] + ["NeverWorks"]
                            t["par"] = t["par"] + ([ind.id, pool[j].id] if up else [])
                else:
                    ind.gen += 1
                    m["gen"] += 1
                for x, y in zip(pool, model):
                    got = dict(id=x.id, src=x.cloned_from, sel=list(x.selected_by), ops=list(x.applied_operators), par=set(getattr(x, "parents", [])) - {x.id}, gen=x.gen)
                    want = dict(y, par=set(y["par"]) - {x.id})
                    require(got == want, "after %s of individual %d: record %r, should be %r", act, ind.id, got, want)
            ids = [x.id for x in pool]
            require(len(set(ids)) == len(ids), "ids %r", ids)
            ctx.seen((kind, kind2, up, tuple((len(x["sel"]), tuple(x["ops"]), len(x["par"]), x["gen"]) for x in model)))
        ctx.explore(body, bound=None)
    return Case("clone-histories" + ("/%d" % pre if pre else ""), fn)


def nsga2_case(name):
    """identities in multi-objective runs"""
    def fn(ctx):
        def body(ch):
            alg = menu.build(name, 3, 2, statistics=[])
            known = set()

            def on(s, d):
                inds = population(alg)
                ids = [i.id for i in inds]
                require(len(set(ids)) == len(ids), "%s: ids %r in generation %d", name, ids, s.generation_num)
                for i in inds:
                    require(i.id in known or not known or i.cloned_from in known, "%s: the new individual %d is recorded as cloned from %r", name, i.id, i.cloned_from)
                known.update(ids)
                ctx.seen((name, s.generation_num, tuple(i - min(ids) for i in ids)))
            alg.register("init", on)
            alg.register("after_generation", on)
            with execs.mode("sync"):
                alg.evolve()
        ctx.explore(body, bound=1 if ctx.tier == "quick" else 2, alphabet={"random": (0.0, 0.9), "uniform": (0.5, 1.0)})
    return Case("nsga2-ids/%s" % name, fn)


def cases(tier):
    t = tier == "thorough"
    out = [run_case(r, RUNS[r][5] + (1 if t and RUNS[r][5] < 3 else 0), RUNS[r][6] + (1 if t else 0)) for r in RUNS]
    out.insert(0, clone_case())
    out += [clone_case(n) for n in (2, 3, 5, 11)]
    out += [run_case(r, 9 if not t else 14, 1, "long") for r in RUNS]
    out += [nsga2_case(n) for n in menu.MULTI]
    return out
