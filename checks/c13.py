"""C13: termination checkers."""
from .common import *
from eckity.creators import GABitStringVectorCreator
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.multi_objective_evolution import CrowdingTerminationChecker, NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import BestFitnessStagnationTerminationChecker as Stagnation

BOUNDS = {"quick": "all best-score sequences of length <=6 over 3-4 values, stagnation limits 1..4, 1-2 sub-populations; target/threshold grid; all crowding assignments of 1-2 sub-populations of <=3; limits of 7-100 with up to 3 changes at any generations; crowding of 7-30 individuals with one special at every place; lists of 2 checkers in real runs",
          "thorough": "sequences up to 8, limits up to 6, crowding of <=4"}
ASSUMPTIONS = ["score values are either equal or differ by more than the relative tolerance 1e-9 used to call them unchanged"]


def creator(ft=SimpleFitness):
    return GAVectorCreator(length=2, bounds=(0, 1), vector_type=BitStringVector, fitness_type=ft)


def sub(scores, hib):
    inds = [vec(BitStringVector, [0, 1], (0, 1), s, hib) for s in scores]
    return Subpopulation(evaluator=NullEvaluator(), creators=creator(), operators_sequence=[IdentityTransformation()],
                         population_size=len(inds), individuals=inds, higher_is_better=hib)


def target_case(optimal, thr, hib, values):
    def fn(ctx):
        def body(ch):
            c = ThresholdFromTargetTerminationChecker(optimal=optimal, threshold=thr, higher_is_better=hib)
            for g in range(3):
                v = ch.pick(values, "score")
                other = ch.pick(values, "other")
                ind = vec(BitStringVector, [0, 1], (0, 1), v, hib)
                pop = Population([sub([other, v], hib)])
                got = c.should_terminate(pop, ind, g)
                want = abs(v - optimal) <= thr
                require(bool(got) == want, "target %r threshold %r: score %r: stop=%r", optimal, thr, v, got)
                ctx.seen((v, want))
        ctx.explore(body, rng=False)
    return Case("target/%r/%r/%s" % (optimal, thr, hib), fn)


def tree_target_case(w):
    """the raw score counts, not the bloat-adjusted one"""
    def fn(ctx):
        def body(ch):
            v = ch.pick((0.0, 0.5, 1.0, 1.5), "score")
            t = Tree(function_set=[_neg], terminal_set=["x"], fitness=GPFitness(fitness=v, bloat_weight=w))
            t.tree = [FunctionNode(_neg), TerminalNode("x")]
            c = ThresholdFromTargetTerminationChecker(optimal=0.5, threshold=0.5)
            pop = Population([sub([0.5], False)])
            require(bool(c.should_terminate(pop, t, 1)) == (abs(v - 0.5) <= 0.5), "target 0.5 threshold 0.5: tree of raw score %r", v)
            ctx.seen(v)
        ctx.explore(body, rng=False)
    return Case("target-tree/%g" % w, fn)


def _neg(x):
    return -x


def stagnation_case(limit, length, values, nsub, hib):
    def fn(ctx):
        def body(ch):
            c = Stagnation(limit)
            hist = []
            for g in range(length):
                best = [ch.pick(values, "best") for _ in range(nsub)]
                hist.append(best)
                worse = -INF if hib else INF
                pop = Population([sub([worse, b, b], hib) if nsub == 1 else sub([b, worse], hib) for b in best])
                ind = pop.sub_populations[0].individuals[1 if nsub == 1 else 0]
                got = bool(c.should_terminate(pop, ind, g))
                run = 0
                for k in range(len(hist) - 1, 0, -1):
                    if hist[k] != hist[k - 1]:
                        break
                    run += 1
                want = run >= limit
                require(got == want, "limit %d: after best scores %r the checker says %r", limit, hist, got)
                ctx.seen(tuple(map(tuple, hist)))
                if got:
                    return
        ctx.explore(body, rng=False)
    return Case("stagnation/%d/len%d/%s/sub%d/%s" % (limit, length, values, nsub, hib), fn)


def patience_case(limit, changes, hib):
    """longer patience: up to two changes at any generations"""
    def fn(ctx):
        def body(ch):
            c = Stagnation(limit) if limit else Stagnation()
            lim = limit or 100
            at = sorted({ch.choose(lim + 1, "change") for _ in range(changes)})
            v, run = 1.0, 0
            for g in range(2 * lim + 3 + changes):
                if g in at and g:
                    v, run = v + (1.0 if g % 2 else -3.0), 0
                elif g:
                    run += 1
                worse = -INF if hib else INF
                pop = Population([sub([worse, v], hib)])
                got = bool(c.should_terminate(pop, pop.sub_populations[0].individuals[1], g))
                require(got == (run >= lim), "limit %s, changes after %r: after generation %d the checker says %r", limit, at, g, got)
                if got:
                    break
            require(got, "limit %s: never stops", limit)
            ctx.seen(tuple(at))
        ctx.explore(body, rng=False)
    return Case("patience/%s/%d/%s" % (limit, changes, hib), fn)


def crowd_large_case(n, thr):
    """one special crowding at every place"""
    def fn(ctx):
        def body(ch):
            base = ch.pick((thr / 2 if thr else 0.05, 0.0, INF), "others")
            special = ch.pick((0.0, (thr or 0.1) / 4, thr or 0.1, 2 * (thr or 0.1), INF), "special")
            at = ch.choose(n, "place")
            nsub = ch.pick((1, 2, 3, 5), "sub-populations")
            cs = [base] * n
            cs[at] = special
            parts = [cs[k::nsub] for k in range(nsub)]
            subs = []
            for p in parts:
                inds = []
                for x in p:
                    f = NSGA2Fitness(fitness=[0.0, 1.0])
                    f.crowding, f.front_rank = x, 1
                    inds.append(BitStringVector(fitness=f, length=2, vector=[0, 1]))
                subs.append(Subpopulation(evaluator=NullEvaluator(), creators=creator(NSGA2Fitness), operators_sequence=[IdentityTransformation()], population_size=len(p), individuals=inds))
            c = CrowdingTerminationChecker(threshold=thr) if thr else CrowdingTerminationChecker()
            fin = [x for x in cs if x != INF]
            want = not any(all(x == INF for x in p) for p in parts) and 0 < max(fin) < (thr or 0.1)
            got = bool(c.should_terminate(Population(subs), subs[0].individuals[0], 1))
            require(got == want, "threshold %r, crowding %r: stop=%r", thr, parts, got)
            ctx.seen((base, special, at, nsub))
        ctx.explore(body, rng=False)
    return Case("crowdlarge/n%d/%s" % (n, thr), fn)


def crowding_case(sizes, values, thr):
    def fn(ctx):
        def body(ch):
            subs = []
            allc = []
            for n in sizes:
                inds = []
                for _ in range(n):
                    f = NSGA2Fitness(fitness=[0.0, 1.0])
                    f.crowding = ch.pick(values, "crowding")
                    f.front_rank = 1
                    allc.append(f.crowding)
                    inds.append(BitStringVector(fitness=f, length=2, vector=[0, 1]))
                subs.append(Subpopulation(evaluator=NullEvaluator(), creators=creator(NSGA2Fitness), operators_sequence=[IdentityTransformation()],
                                          population_size=n, individuals=inds))
            # a sub-population without any finite crowding leaves the population unconverged
            c = CrowdingTerminationChecker(threshold=thr)
            k = 0
            groups = []
            for n in sizes:
                groups.append(allc[k:k + n])
                k += n
            fin = [x for x in allc if x != INF]
            if any(all(x == INF for x in gr) for gr in groups):
                want = False
            else:
                want = 0 < max(fin) < thr
            got = bool(c.should_terminate(Population(subs), subs[0].individuals[0], 1))
            require(got == want, "threshold %r, crowding %r: stop=%r", thr, groups, got)
            ctx.seen(tuple(allc))
        ctx.explore(body, rng=False)
    return Case("crowding/%r/%s/%g" % (sizes, values, thr), fn)


class SeqEv(SimpleIndividualEvaluator):
    """score of generation g, the same for all individuals"""

    def __init__(self, ch, values, n):
        super().__init__()
        self.ch, self.values, self.n, self.k, self.hist = ch, values, n, 0, []

    def evaluate_individual(self, individual):
        if self.k % self.n == 0:
            self.hist.append(self.ch.pick(self.values, "score"))
        self.k += 1
        return self.hist[-1]


def list_case(order, limit, optimal, thr, gens):
    def fn(ctx):
        def body(ch):
            ev = SeqEv(ch, (3.0, 1.0, 2.0), 2)
            sp = Subpopulation(evaluator=ev, creators=creator(), operators_sequence=[IdentityTransformation()], population_size=2,
                               selection_methods=[(TournamentSelection(1), 1)])
            mk = {"s": lambda: Stagnation(limit), "t": lambda: ThresholdFromTargetTerminationChecker(optimal=optimal, threshold=thr)}
            chk = [mk[o]() for o in order]
            alg = SimpleEvolution(sp, max_generation=gens, termination_checker=chk if len(chk) > 1 else chk[0], random_seed=1, max_workers=1)
            alg.evolve()
            h = ev.hist
            stop = None
            for g in range(len(h)):
                best = min(h[:g + 1])
                hit = "t" in order and abs(best - optimal) <= thr
                run = 0
                for k in range(g, 0, -1):
                    if h[k] != h[k - 1]:
                        break
                    run += 1
                if "s" in order and run >= limit:
                    hit = True
                if hit:
                    stop = g
                    break
            want = gens if stop is None else stop
            require(alg.final_generation_ == want and len(h) == want + 1, "checkers %r (limit %d, target %g+-%g): scores %r stopped at %r, expected %d",
                    order, limit, optimal, thr, h, alg.final_generation_, want)
            ctx.seen(tuple(h))
        ctx.explore(body, rng=False)
    return Case("list/%s/%d/%g/%g/g%d" % (order, limit, optimal, thr, gens), fn)


def cases(tier):
    q = tier == "quick"
    out = []
    for hib in (False, True):
        for opt, thr in ((0.0, 0.0), (0.0, 0.5), (1.0, 0.5), (-1.0, 0.25), (5, 2), (0.5, 1.0), (5000.0, 0.5), (-1e6, 3.0), (1e-3, 2.0 ** -20)):
            vals = sorted({opt, opt + thr, opt - thr, opt + thr + 0.25, opt - thr - 0.25, opt + thr / 2})
            out.append(target_case(opt, thr, hib, vals[:4] if q else vals))
            out.append(target_case(opt, thr + 0.0625, hib, vals[-4:]))
    out.append(tree_target_case(0.0))
    out.append(tree_target_case(0.3))
    L = 6 if q else 8
    for limit in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6):
        out.append(stagnation_case(limit, L, (1.0, 2.0), 1, False))
        out.append(stagnation_case(limit, L, (-1.0, 0.0, 5.0), 1, True))
        out.append(stagnation_case(limit, 4 if q else 5, (0.0, 1.0), 2, limit % 2 == 0))
    out.append(stagnation_case(2, 5, (0, 3, -2, 7), 1, False))
    out.append(stagnation_case(2, 5, (1e-7, 2e-7, 0.0, -1e-7), 1, False))
    out.append(stagnation_case(2, 5, (1e-12, 3e-300, 1e12, 1e12 + 1e5), 1, True))
    out.append(stagnation_case(1, 4, (INF, 1.0, 1.000001), 1, False))
    for thr in (0.1, 0.5, 1.0):
        for sizes in ((1,), (2,), (3,), (2, 2), (1, 2)) + (() if q else ((4,), (3, 2), (2, 1, 2))):
            out.append(crowding_case(sizes, (0, 0.25, 0.5, 0.75, INF), thr))
    for limit, changes in ((10, 2), (25, 1), (None, 1), (7, 3)):
        out.append(patience_case(limit, changes, changes == 1))
    for n, thr in ((7, 0.5), (12, None), (30, 2.0)):
        out.append(crowd_large_case(n, thr))
    for order in ("st", "ts", "s", "t"):
        for limit in (1, 2):
            for opt, thr in ((1.0, 0.0), (0.0, 1.5)):
                out.append(list_case(order, limit, opt, thr, 4 if q else 6))
    return out
