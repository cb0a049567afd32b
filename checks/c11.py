"""C11: NSGA-II survival selection (ranks, crowding, cut)."""
import functools

from .common import *
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.multi_objective_evolution import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

BOUNDS = {
    "quick": "all score-vector tuples of 2-4 individuals over 3x3 grids (unequal gaps, negatives, different scales), all multisets of 5-6 in two orders, 1-4 objectives, all direction mixes, every number of survivors and the default, hash orders ascending/descending/colliding/default, a fresh or a reused sorter, one or two sub-populations; 5 patterns of 9-24 individuals in all rotations, both orders",
    "thorough": "as quick with all tuples of 5 and multisets of 7-8, 4x4 grids"}
ASSUMPTIONS = ["individuals with equal values of an objective may be taken in any order when the neighbours in that objective are determined (each objective independently)"]
TOL = 1e-9


class Ind(BitStringVector):
    """an individual with a hash of our choosing"""
    h = None

    def __hash__(self):
        return object.__hash__(self) if self.h is None else self.h

    def __eq__(self, other):
        return self is other


def dominates(a, b, hib):
    ge = all((x >= y) if h else (x <= y) for x, y, h in zip(a, b, hib))
    return ge and a != b


@functools.lru_cache(maxsize=None)
def fronts_of(scores, hib):
    left = list(range(len(scores)))
    out = []
    while left:
        f = [i for i in left if not any(dominates(scores[j], scores[i], hib) for j in left)]
        out.append(tuple(f))
        left = [i for i in left if i not in f]
    return tuple(out)


@functools.lru_cache(maxsize=None)
def crowdings(front_scores):
    """all crowding vectors of a front, over the orders of equal values"""
    n = len(front_scores)
    m = len(front_scores[0])
    per = []
    for o in range(m):
        vals = [s[o] for s in front_scores]
        groups = []
        for v in sorted(set(vals)):
            groups.append([i for i in range(n) if vals[i] == v])
        lo, hi = min(vals), max(vals)
        rng_ = hi - lo
        vecs = set()

        def options(gi):
            # what matters of a group's order: its first and its last member
            g = groups[gi]
            if len(g) == 1:
                return [(g[0],)]
            res = []
            for a, b in itertools.permutations(g, 2):
                res.append((a,) + tuple(x for x in g if x not in (a, b)) + (b,))
            return res
        for combo in itertools.product(*[options(i) for i in range(len(groups))]):
            order = [i for g in combo for i in g]
            c = [0.0] * n
            for p in range(1, n - 1):
                if rng_:
                    c[order[p]] = (vals[order[p + 1]] - vals[order[p - 1]]) / rng_
            c[order[0]] = INF
            c[order[-1]] = INF
            vecs.add(tuple(c))
        per.append(vecs)
    tot = {tuple([0.0] * n)}
    for vecs in per:
        tot = {tuple(a + b for a, b in zip(t, v)) for t in tot for v in vecs}
    return tuple(tot)


def close(a, b):
    return a == b or (a != INF and b != INF and abs(a - b) <= TOL)


def check_sub(scores, hib, inds, survivors, size, what):
    require(len(survivors) == size, "%s: %d survivors, expected %d", what, len(survivors), size)
    pos = {id(x): i for i, x in enumerate(inds)}
    require(all(id(x) in pos for x in survivors), "%s: a survivor is not one of the given individuals", what)
    surv = [pos[id(x)] for x in survivors]
    require(len(set(surv)) == size, "%s: an individual survives twice", what)
    for i, ind in enumerate(inds):
        if i in surv:
            require(ind.fitness.is_fitness_evaluated() and tuple(ind.get_pure_fitness()) == scores[i], "%s: survivor %d lost or changed its scores", what, i)
    F = fronts_of(scores, hib)
    left = size
    for k, f in enumerate(F):
        if left == 0:
            require(not any(i in surv for i in f), "%s: a member of front %d survives instead of better ones", what, k + 1)
            continue
        kept = [i for i in f if i in surv]
        take = min(left, len(f))
        require(len(kept) == take, "%s: %d of the %d members of front %d survive, expected %d", what, len(kept), len(f), k + 1, take)
        left -= take
        for i in kept:
            require(inds[i].fitness.front_rank == k + 1, "%s: individual %d of front %d has rank %r", what, i, k + 1, inds[i].fitness.front_rank)
        got = {i: float(inds[i].fitness.crowding) for i in kept}
        ok = False
        for c in crowdings(tuple(scores[i] for i in f)):
            cv = dict(zip(f, c))
            if all(close(cv[i], got[i]) for i in kept):
                drop = [cv[i] for i in f if i not in got]
                if not drop or max(drop) <= min(got.values()) + TOL:
                    ok = True
                    break
        require(ok, "%s: front %d with scores %r: survivors' crowding distances %r are not the standard ones, or a dropped one has a larger distance",
                what, k + 1, [(i, scores[i]) for i in f], got)


def make(scores, hib, hashes, stale):
    out = []
    n = len(scores)
    for i, s in enumerate(scores):
        f = NSGA2Fitness(fitness=list(s), higher_is_better=list(hib))
        if stale:
            f.crowding = (0.25, INF, 3.0)[i % 3]
            f.front_rank = (1, 7, 2)[i % 3]
        x = Ind(fitness=f, length=1, vector=[0])
        x.h = {"up": i, "down": n - i, "same": 5, "id": None}[hashes]
        out.append(x)
    return out


def subpop(inds):
    return Subpopulation(evaluator=NullEvaluator(), creators=GAVectorCreator(length=1, bounds=(0, 1), vector_type=BitStringVector, fitness_type=NSGA2Fitness),
                         operators_sequence=[IdentityTransformation()], population_size=len(inds), individuals=inds)


def run(scores, hib, size, hashes, stale, sorter, ctx):
    inds = make(scores, hib, hashes, stale)
    pop = Population([subpop(list(inds))])
    if size is None:
        sorter.select_for_population(pop)
    else:
        sorter.select_for_population(pop, size)
    n = len(scores)
    check_sub(scores, hib, inds, pop.sub_populations[0].individuals, n // 2 if size is None else size,
              "scores %r, higher is better %r, %s survivors, hashes %s" % (scores, hib, size, hashes))


def sizes_for(n):
    return [None] + list(range(1, n + 1))


def tuples_case(grid, n, hib, sizes, hashes, stale, first=None):
    name = "tuples/n%d/%s/%s/%s/%s/%s" % (n, "x".join("%g" % v for g in grid for v in g), "".join("%d" % h for h in hib), hashes, "stale" if stale else "new", first)

    def fn(ctx):
        vecs = list(itertools.product(*grid))

        def body(ch):
            sc = tuple(vecs[first] if first is not None and i == 0 else ch.pick(vecs, "score") for i in range(n))
            sorter = NSGA2FrontSorting()
            for size in sizes:
                # the same sorter is used for all sizes
                run(sc, hib, size, hashes, stale, sorter, ctx)
                ctx.step()
            ctx.seen((hib, sc))
        ctx.explore(body, rng=False)
    return Case(name, fn)


def multiset_case(grid, n, hib, sizes, hashes, order):
    name = "multisets/n%d/%s/%s/%s/%s" % (n, "x".join("%g" % v for g in grid for v in g), "".join("%d" % h for h in hib), hashes, order)

    def fn(ctx):
        vecs = list(itertools.product(*grid))

        def body(ch):
            lo = 0
            idx = []
            for i in range(n):
                lo += ch.choose(len(vecs) - lo, "next score")
                idx.append(lo)
            if order == "down":
                idx.reverse()
            elif order == "zip":
                idx = idx[::2] + idx[1::2][::-1]
            sc = tuple(vecs[i] for i in idx)
            sorter = NSGA2FrontSorting()
            for size in sizes:
                run(sc, hib, size, hashes, False, sorter, ctx)
                ctx.step()
            ctx.seen((hib, sc))
        ctx.explore(body, rng=False)
    return Case(name, fn)


def two_sub_case(n, size, hib):
    """sub-populations are selected separately; the sorter remembers nothing"""
    def fn(ctx):
        vecs = list(itertools.product((0.0, 1.0), (0.0, 2.0)))

        def body(ch):
            groups = [tuple(ch.pick(vecs, "score") for _ in range(n)) for _ in range(2)]
            inds = [make(g, hib, "id", False) for g in groups]
            pop = Population([subpop(list(x)) for x in inds])
            s = NSGA2FrontSorting()
            for again in range(2):
                src = [list(sp.individuals) for sp in pop.sub_populations]
                want = size if size is not None else None
                if again and size is not None and size > len(src[0]):
                    break
                if again and size is None and len(src[0]) < 2:
                    break
                s.select_for_population(pop, size) if size is not None else s.select_for_population(pop)
                for k in range(2):
                    sc = tuple(tuple(i.get_pure_fitness()) for i in src[k])
                    check_sub(sc, hib, src[k], pop.sub_populations[k].individuals, len(src[k]) // 2 if want is None else want,
                              "sub-population %d of two, scores %r, pass %d" % (k, sc, again))
            ctx.seen(tuple(groups))
        ctx.explore(body, rng=False)
    return Case("two-subpops/n%d/%s/%s" % (n, size, "".join("%d" % h for h in hib)), fn)


def patterns(n, m):
    """structured sets of n score vectors with m objectives, all values of an objective different"""
    inc = list(range(n))
    mix = [i * 5 % n if n % 5 else i * 3 % n for i in inc]
    if m == 1:
        return {"level": [(float(i),) for i in mix]}
    out = {
        "front": [(float(i), float(n - i) ** 2) for i in mix],
        "chain": [(float(i), i * 2.0) for i in mix],
        "blocks": [(float(10 * (i // 4) + i % 4), float(10 * (i // 4) - i % 4)) for i in mix],
        "scatter": [(float(i), float(mix[i] + i / 100)) for i in inc],
        "curve": [(math.sqrt(i), 1.0 / (1 + i)) for i in mix],
    }
    if m == 3:
        out = {k: [(a, b, a * 7 % 11 + i / 100) for i, (a, b) in enumerate(v)] for k, v in out.items()}
    return out


def pattern_case(n, m, hib):
    def fn(ctx):
        P = patterns(n, m)

        def body(ch):
            name = ch.pick(sorted(P), "pattern")
            turn = ch.choose(min(n, 12), "rotation") * max(1, n // 12)
            back = ch.choose(2, "reversed")
            sc = P[name][turn:] + P[name][:turn]
            if back:
                sc.reverse()
            sorter = NSGA2FrontSorting()
            for size in (None, 1, 2, n // 3, n - 1, n):
                run(tuple(sc), hib, size, ("id", "down")[back], False, sorter, ctx)
                ctx.step()
            ctx.seen((name, turn, back))
        ctx.explore(body, rng=False)
    return Case("patterns/n%d/%s" % (n, "".join("%d" % h for h in hib)), fn)


def hash_case(grid, n, hib, size):
    """the result does not depend on object hashes"""
    def fn(ctx):
        vecs = list(itertools.product(*grid))

        def body(ch):
            sc = tuple(ch.pick(vecs, "score") for _ in range(n))
            res = []
            for h in ("up", "down", "same", "id"):
                inds = make(sc, hib, h, False)
                pop = Population([subpop(list(inds))])
                NSGA2FrontSorting().select_for_population(pop, size)
                pos = {id(x): i for i, x in enumerate(inds)}
                res.append([(pos[id(x)], x.fitness.front_rank, x.fitness.crowding) for x in pop.sub_populations[0].individuals])
            for r in res[1:]:
                require(r == res[0], "scores %r, higher is better %r, %s survivors: (individual, rank, crowding) %r or %r depending on object hashes", sc, hib, size, res[0], r)
            ctx.seen((hib, sc))
        ctx.explore(body, rng=False)
    return Case("hashes/n%d/%s/%s/%s" % (n, "x".join("%g" % v for g in grid for v in g), "".join("%d" % h for h in hib), size), fn)


G2 = ((0.0, 1.0, 3.0), (0.0, 10.0, 14.0))
G2n = ((-2.0, 0.0, 0.5), (1.0, 0.0, -1.0))
B3 = ((0.0, 1.0),) * 3
B4 = ((0.0, 1.0),) * 4
DIRS2 = list(itertools.product((False, True), repeat=2))


def cases(tier):
    q = tier == "quick"
    out = []
    for k, hib in enumerate(DIRS2):
        g = (G2, G2n)[k % 2]
        out.append(multiset_case(g, 6, hib, [None, 2, 5], ("up", "down", "same", "id")[k], "zip"))
        out.append(multiset_case(g, 5, hib, sizes_for(5), "id", "up"))
        out.append(multiset_case(g, 5, hib, [None, 3], "down", "down"))
        for f in range(9):
            out.append(tuples_case(g, 4, hib, [None, 3], ("up", "id", "same", "down")[k], False, f))
        out.append(tuples_case(g, 3, hib, sizes_for(3), "id", True))
        out.append(tuples_case(g, 2, hib, sizes_for(2), "id", False))
    for hib in itertools.product((False, True), repeat=3):
        out.append(tuples_case(B3, 3, hib, sizes_for(3), "down", True))
        out.append(multiset_case(B3, 5, hib, [None, 3], "id", "zip"))
    out.append(multiset_case(((0.0, 1.0, 3.0),) * 3, 4, (False, True, False), [None, 3], "id", "zip"))
    out.append(multiset_case(B4, 4, (False, True, False, True), [None, 3], "id", "up"))
    for hib in ((False,), (True,)):
        out.append(tuples_case(((0.0, 1.0, 3.0, 3.5),), 4, hib, sizes_for(4), "id", False))
        out.append(tuples_case(((0, 1, 2),), 1, hib, [1], "id", False))
    for hib in DIRS2:
        for n, size in ((4, 2), (4, 3), (5, 3)):
            out.append(hash_case(((0.0, 1.0), (0.0, 1.0)), n, hib, size))
    # very different scales, and differences far below 1
    for k, hib in enumerate(DIRS2):
        out.append(multiset_case(((0.0, 1e-7, 3e-7), (0.0, 1e9, 1.5e9)), 4, hib, [None, 3, 4], "id", "zip"))
        out.append(tuples_case(((1.0, 1.0 + 1e-6, 1.0 + 3e-6), (0.0, 1e-12)), 3, hib, sizes_for(3), "id", False))
        # long chains: many fronts, individuals dominating many others
        out.append(multiset_case(((0.0, 1.0, 2.0), (0.0, 1.0)), 8, hib, [None, 7, 8], "id", ("zip", "up", "down", "zip")[k]))
    out.append(multiset_case(((0.0, 1.0, 2.0, 5.0),), 10, (True,), [None, 9, 10], "id", "zip"))
    for n in (9, 12, 24) if q else (9, 12, 24, 40, 66):
        for hib in DIRS2 + [(False,), (True,), (False, True, False), (True, True, True)]:
            out.append(pattern_case(n, len(hib), hib))
    for hib in ((False, True), (True, True)):
        out.append(two_sub_case(3, 2, hib))
        out.append(two_sub_case(4, None, hib))
    if not q:
        g4 = ((0.0, 1.0, 3.0, 4.0), (0.0, 10.0, 14.0, 20.0))
        for k, hib in enumerate(DIRS2):
            for f in range(9):
                out.append(tuples_case(G2, 5, hib, [None, 3, 4], "id", False, f))
            out.append(multiset_case(G2, 7, hib, [None, 4], "id", "zip"))
            out.append(multiset_case(g4, 5, hib, [None, 3], "id", "zip"))
            out.append(multiset_case(G2n, 8, hib, [None, 5], "id", "down"))
        for f in range(16):
            out.append(tuples_case(g4, 4, (False, True), [None, 3], "id", False, f))
    return out
