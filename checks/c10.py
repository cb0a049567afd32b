"""C10: fitness freshness and order."""
import copy
import pickle

from .common import *
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

BOUNDS = {"quick": "all sequences of <=3 operations (of 14) on two individuals for every fitness kind x cache x relative x direction (<=4 for non-relative), with zero, infinite, huge and numpy scores one shorter; all pairs/triples of a 14-value score grid (with values that differ by one ulp, 1e-9 and 1e-300) with 4 tree sizes; all pairs of score vectors of 1-3 objectives over 3-5 values (also closer than 1e-8), all direction mixes; all rank/crowding pairs",
          "thorough": "sequences up to 5 (4 relative)"}
ASSUMPTIONS = []


def g_neg(a):
    return -a


def g_add(a, b):
    return a + b


class AlwaysFails(FailableOperator):
    def __init__(self, attempts=1):
        super().__init__(probability=1.0, arity=1, attempts=attempts)

    def attempt_operator(self, payload, attempt_num):
        return False, payload


class Breaks(GeneticOperator):
    """changes the individual and then raises"""

    def __init__(self):
        super().__init__(probability=1.0, arity=1)

    def apply(self, individuals):
        if isinstance(individuals[0], Tree):
            individuals[0].tree = [TerminalNode("y")]
        else:
            individuals[0].set_cell_value(0, 1 - individuals[0].cell_value(0))
        raise KeyError("operator")


def make(kind, cache, rel, hib, w=0.5):
    if kind == "gp":
        t = Tree(function_set=[g_neg, g_add], terminal_set=["x", "y"], fitness=GPFitness(higher_is_better=hib, cache=cache, is_relative_fitness=rel, bloat_weight=w))
        t.tree = [FunctionNode(g_add), TerminalNode("x"), TerminalNode("y")]
        return t
    F = NSGA2Fitness if kind == "nsga" else SimpleFitness
    return BitStringVector(fitness=F(higher_is_better=hib, cache=cache, is_relative_fitness=rel), length=3, vector=[0, 1, 1])


OPS = ["setA1", "setA2", "setB", "unA", "clone", "deepcopy", "pickle", "identity", "fails", "never", "cross", "mutate", "ercfail", "breaks"]


def observe(ind, val, kind, rel, hib, what):
    f = ind.fitness
    if not rel:
        require(f.is_fitness_evaluated() == (val is not None), "%s: evaluated is %r, expected %r", what, f.is_fitness_evaluated(), val is not None)
    for nm, get in (("get_pure_fitness", lambda: ind.get_pure_fitness()), ("fitness.get_pure_fitness", lambda: f.get_pure_fitness()),
                    ("get_augmented_fitness", lambda: ind.get_augmented_fitness())):
        try:
            got = get()
        except ValueError:
            require(val is None, "%s: %s() refuses an evaluated score", what, nm)
            continue
        require(val is not None, "%s: %s() returned stale score %r", what, nm, got)
        want = val
        if kind == "gp" and nm == "get_augmented_fitness":
            want = val - 0.5 * ind.size() if hib else val + 0.5 * ind.size()
        require(got == want, "%s: %s() is %r, expected %r", what, nm, got, want)


def compare(a, b, va, vb, kind, hib, what):
    for x, y, vx, vy in ((a, b, va, vb), (b, a, vb, va)):
        if kind == "nsga":
            try:
                got = x.fitness.dominate(x, y.fitness, y)
            except (ValueError, TypeError):
                require(vx is None or vy is None, "%s: dominance of evaluated scores is refused", what)
                continue
            require(vx is not None and vy is not None, "%s: dominance of a stale score", what)
            require(got == dom(vx, vy, [hib] * 2), "%s: %r dominates %r: %r", what, vx, vy, got)
            continue
        for nm, fnc in (("better_than", lambda: x.better_than(y)), ("equal_to", lambda: x.fitness.equal_to(x, y.fitness, y))):
            try:
                got = fnc()
            except ValueError:
                require(vx is None or vy is None, "%s: %s of evaluated scores is refused", what, nm)
                continue
            require(vx is not None and vy is not None, "%s: %s compared a stale score", what, nm)
            cx, cy = (v - 0.5 * i.size() if hib else v + 0.5 * i.size() for v, i in ((vx, x), (vy, y))) if kind == "gp" else (vx, vy)
            want = cx == cy if nm == "equal_to" else (cx > cy if hib else cx < cy)
            require(bool(got) == want, "%s: %s(%r, %r) is %r", what, nm, cx, cy, got)


VALUES = {"plain": ((1.0, -2.0, 1.0), ([1.0, 2.0], [0.0, 3.0], [1.0, 3.0])),
          "zero": ((0.0, 0, 0.0), ([0.0, 0.0], [0, 0], [0.0, 1.0])),
          "extreme": ((INF, -INF, 10 ** 20), ([INF, -INF], [-1e300, 0.0], [INF, 0])),
          "large": ((2e6, -3e7, 2e9), ([2e6, -3e9], [2e6 + 1, -3e9], [1e12, 7e8])),
          "numpy": ((np.float64(0.0), np.int64(-1), np.float32(0.5)), ([np.float64(0.0), 1.0], [np.int64(3), 0], [0.0, np.float64(1.0)]))}


def seq_case(kind, cache, rel, hib, depth, first, values="plain"):
    def fn(ctx):
        def body(ch):
            a, b = make(kind, cache, rel, hib), make(kind, cache, rel, hib)
            va = vb = None
            hist = []
            keep = cache and not rel
            V1, V2, VB = VALUES[values][kind == "nsga"]
            for k in range(depth):
                op = OPS[first] if k == 0 else ch.pick(OPS, "op")
                hist.append(op)
                what = "%s cache=%r relative=%r %s after %s" % (kind, cache, rel, "max" if hib else "min", ",".join(hist))
                if op in ("setA1", "setA2", "setB"):
                    x, v = (b, VB) if op == "setB" else (a, V1 if op == "setA1" else V2)
                    cur = vb if op == "setB" else va
                    if kind == "nsga" and cur is not None:
                        # multi-objective scores are set once per evaluation
                        x.fitness.set_not_evaluated()
                    x.fitness.set_fitness(v)
                    if op == "setB":
                        vb = v
                    else:
                        va = v
                elif op == "unA":
                    a.set_fitness_not_evaluated()
                    va = None
                elif op in ("clone", "deepcopy", "pickle"):
                    old, oldv = a, va
                    a = old.clone() if op == "clone" else copy.deepcopy(old) if op == "deepcopy" else pickle.loads(pickle.dumps(old))
                    require(a is not old and a.fitness is not old.fitness, "%s: the copy shares its fitness", what)
                    observe(old, oldv, kind, rel, hib, what + " (original)")
                    if not keep:
                        va = None
                elif op == "identity":
                    IdentityTransformation().apply_operator([a])
                    va = None
                elif op == "fails":
                    AlwaysFails().apply_operator([a])
                    va = None
                elif op == "never":
                    with rng.controlled(Chooser(), {"random": (0.4,)}):
                        (SubtreeMutation if kind == "gp" else BitStringVectorFlipMutation)(probability=0.0).apply_operator([a])
                elif op == "cross":
                    (SubtreeCrossover() if kind == "gp" else VectorKPointsCrossover(k=1)).apply_operator([a, b])
                    va = vb = None
                elif op == "mutate":
                    (SubtreeMutation(init_depth=(0, 1)) if kind == "gp" else BitStringVectorFlipMutation()).apply_operator([a])
                    va = None
                elif op == "ercfail":
                    if kind == "gp":   # no numeric constants in the tree
                        ERCMutation().apply_operator([a])
                    else:
                        AlwaysFails(attempts=3).apply_operator([a])
                    va = None
                elif op == "breaks":
                    try:
                        Breaks().apply_operator([a])
                    except KeyError:
                        va = None
                observe(a, va, kind, rel, hib, what)
                observe(b, vb, kind, rel, hib, what + " (other)")
                compare(a, b, va, vb, kind, hib, what)
                ctx.seen((va, vb, k))
        ctx.explore(body, rng=False)
    return Case(("seq" if values == "plain" else "seq-" + values) + "/%s/%s/%s/%s/d%d/%s" % (kind, "cache" if cache else "fresh", "relative" if rel else "absolute", "max" if hib else "min", depth, OPS[first]), fn)


def constructor_case():
    def fn(ctx):
        def body(ch):
            v = ch.pick((None, 0, 0.0, -1.0, INF), "fitness")
            hib = bool(ch.choose(2, "direction"))
            for F in (SimpleFitness, GPFitness):
                f = F(fitness=v, higher_is_better=hib)
                require(f.is_fitness_evaluated() == (v is not None), "%s(fitness=%r) evaluated: %r", F.__name__, v, f.is_fitness_evaluated())
                if v is not None:
                    require(f.get_pure_fitness() == v, "%s(fitness=%r) holds %r", F.__name__, v, f.get_pure_fitness())
                f.set_fitness(0.0)
                require(f.is_fitness_evaluated() and f.get_pure_fitness() == 0.0, "%s: score 0 is not stored", F.__name__)
            ctx.seen((v, hib))
        ctx.explore(body, rng=False)
    return Case("constructor", fn)


GRID = [0.0, 1.0, -1.0, 2, -2.5, INF, -INF, 0.5, 1.5, 1 + 2.0 ** -52, 1 + 1e-9, 1e-12, -1e-300, 1e300, 3e6, -2.5e6, 2e9, 2e9 + 1]


def order_case(kind, hib, w):
    def fn(ctx):
        def mk(v, n):
            if kind == "bit":
                return vec(BitStringVector, [0, 1], (0, 1), v, hib)
            t = Tree(function_set=[g_neg, g_add], terminal_set=["x"], fitness=GPFitness(fitness=v, higher_is_better=hib, bloat_weight=w))
            t.tree = [FunctionNode(g_neg)] * (n - 1) + [TerminalNode("x")]
            return t

        def body(ch):
            items = [(v, n) for v in GRID for n in ((1,) if kind == "bit" else (1, 2, 3, 5))]
            i = ch.choose(len(items), "first")
            inds = [mk(v, n) for v, n in items]
            c = [v if kind == "bit" else (v - w * n if hib else v + w * n) for v, n in items]
            a = inds[i]
            require(a.better_than(None), "nothing is better than no individual")
            for j, b in enumerate(inds):
                want = c[i] > c[j] if hib else c[i] < c[j]
                require(bool(a.better_than(b)) == want, "%s bloat %g: %r better than %r: %r", "max" if hib else "min", w, items[i], items[j], not want)
                require(bool(a.fitness.better_than(a, b.fitness, b)) == want, "fitness.better_than differs from better_than")
                require(bool(a.fitness.equal_to(a, b.fitness, b)) == (c[i] == c[j]), "%r equal to %r: %r", items[i], items[j], c[i] != c[j])
                # triples: transitivity of better and of ties
                for k, d in enumerate(inds):
                    if a.better_than(b) and b.better_than(d):
                        require(a.better_than(d), "better_than is not transitive on %r %r %r", items[i], items[j], items[k])
                ctx.step(len(inds))
                ctx.seen((i, j))
        ctx.explore(body, rng=False)
    return Case("order/%s/%s/w%g" % (kind, "max" if hib else "min", w), fn)


def dom(a, b, dirs):
    s = [(x, y) if d else (-x, -y) for x, y, d in zip(a, b, dirs)]
    return all(x >= y for x, y in s) and any(x > y for x, y in s)


def dominance_case(nobj, dirs, as_bool):
    def fn(ctx):
        vals = list(product((0.0, 1.0, -2.0, 1 + 1e-9, 1e-300) if nobj < 3 else (0.0, 1.0, 1 + 1e-9), repeat=nobj)) + [(INF,) * nobj, (-INF,) * nobj]

        def body(ch):
            a = ch.pick(vals, "a")
            A = BitStringVector(fitness=NSGA2Fitness(fitness=list(a), higher_is_better=dirs[0] if as_bool else list(dirs)), length=1, vector=[0])
            for b in vals:
                B = BitStringVector(fitness=NSGA2Fitness(higher_is_better=dirs[0] if as_bool else list(dirs)), length=1, vector=[0])
                B.fitness.set_fitness(list(b))
                for x, y, X, Y in ((a, b, A, B), (b, a, B, A)):
                    require(bool(X.fitness.dominate(X, Y.fitness, Y)) == dom(x, y, dirs), "directions %r: %r dominates %r: %r", dirs, x, y, not dom(x, y, dirs))
                ctx.seen((a, b))
            C = BitStringVector(fitness=NSGA2Fitness(fitness=[0.0] * (nobj + 1)), length=1, vector=[0])
            try:
                A.fitness.dominate(A, C.fitness, C)
            except ValueError:
                pass
            else:
                raise Violation("score vectors of different lengths were compared")
        ctx.explore(body, rng=False)
    return Case("dominance/%d/%s/%s" % (nobj, dirs, as_bool), fn)


def rank_case():
    def fn(ctx):
        items = [(r, c) for r in (1, 2, 3) for c in (0, 0.5, 1.5, INF)]

        def mk(it):
            f = NSGA2Fitness(fitness=[0.0, 1.0])
            f.front_rank, f.crowding = it
            return BitStringVector(fitness=f, length=1, vector=[0])

        def body(ch):
            a = ch.pick(items, "a")
            A = mk(a)
            for b in items:
                B = mk(b)
                want = a[0] < b[0] or (a[0] == b[0] and a[1] > b[1])
                require(bool(A.better_than(B)) == want, "(rank, crowding) %r better than %r: %r", a, b, not want)
                require(bool(A.fitness.equal_to(A, B.fitness, B)) == (a == b), "(rank, crowding) %r equal to %r: %r", a, b, a != b)
                ctx.seen((a, b))
        ctx.explore(body, rng=False)
    return Case("rank-crowding", fn)


def cases(tier):
    q = tier == "quick"
    out = []
    for kind in ("simple", "gp", "nsga"):
        for cache in (False, True):
            for rel in (False, True):
                for hib in (False, True):
                    d = (3 if rel else 4) if q else (4 if rel else 5)
                    if hib and rel:
                        d -= 1
                    for f in range(len(OPS)):
                        out.append(seq_case(kind, cache, rel, hib, d, f))
                        for v in list(VALUES)[1:]:
                            if OPS[f].startswith("set"):
                                out.append(seq_case(kind, cache, rel, hib, (2 if rel else 3) if q else (3 if rel else 4), f, v))
    for hib in (False, True):
        out.append(order_case("bit", hib, 0.0))
        for w in (0.0, 0.5, 1.0):
            out.append(order_case("gp", hib, w))
    for nobj in (1, 2, 3):
        for dirs in product((False, True), repeat=nobj):
            out.append(dominance_case(nobj, dirs, False))
        out.append(dominance_case(nobj, (True,) * nobj, True))
        out.append(dominance_case(nobj, (False,) * nobj, True))
    out.append(rank_case())
    out.append(constructor_case())
    return out
