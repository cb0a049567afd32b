"""C19: creators and the creation of sub-populations."""
import copy

from .common import *
from . import gp
from .c08 import CONF, LIGHT
from eckity.creators import (FullCreator, GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator, GrowCreator, HalfCreator)
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

BOUNDS = {
    "quick": "all random outcomes of creating 0-3 vectors of length 1-3 with range and per-cell bounds, all kinds; full/grow/half trees up to depth 3 (bounded deviations beyond depth 2), typed and untyped; 30 vectors, vectors of 24 cells, 24 trees, trees of depth 6 with at most one deviating draw; all creator lists and probability vectors of a menu, exact probabilities",
    "thorough": "longer vectors, more deviations, deeper trees"}
ASSUMPTIONS = ["uniform draws take the values at the ends and in the middle of their range"]

KIND = {"bit": (GABitStringVectorCreator, BitStringVector), "int": (GAIntVectorCreator, IntVector), "float": (GAFloatVectorCreator, FloatVector)}


def cell_bounds(b, i):
    return b if isinstance(b, tuple) else b[i]


def check_common(inds, n, hib, up, what):
    require(isinstance(inds, list) and len(inds) == n, "%s: %r individuals, %d requested", what, len(inds), n)
    check_no_aliasing(inds, what)
    require(len({i.id for i in inds}) == n, "%s: two individuals have the same id", what)
    for i in inds:
        require(not i.fitness.is_fitness_evaluated(), "%s: a created individual is already evaluated", what)
        require(i.fitness.higher_is_better == hib, "%s: direction %r instead of %r", what, i.fitness.higher_is_better, hib)
        require(up is None or bool(i.update_parents) == up and (not up or list(i.parents) == []), "%s: parent tracking is %r instead of %r", what, i.update_parents, up)
        require(list(i.selected_by) == [] and list(i.applied_operators) == [] and i.gen == 0, "%s: a created individual has a history", what)


def vector_case(kind, length, bounds, n, hib, up, generic, default_bounds=False, bound=None, tag="vectors"):
    cls, vt = KIND[kind]

    def fn(ctx):
        what = "%s creator, length %d, bounds %r" % (kind, length, bounds)
        values = [set() for _ in range(length)]

        def body(ch):
            kw = dict(length=length, update_parents=up)
            if not default_bounds:
                kw["bounds"] = copy.copy(bounds)
            cr = GAVectorCreator(vector_type=vt, **kw) if generic else cls(**kw)
            inds = cr.create_individuals(n, hib)
            check_common(inds, n, hib, up, what)
            for i in inds:
                v = i.get_vector()
                require(type(i) is vt, "%s: created a %s", what, type(i).__name__)
                require(isinstance(v, list) and len(v) == length and i.length == length and i.size() == length, "%s: created %r", what, v)
                for k, c in enumerate(v):
                    lo, hi = cell_bounds(bounds, k)
                    require(lo <= c <= hi, "%s: cell %d is %r", what, k, c)
                    require((isinstance(c, int) and not isinstance(c, bool)) if kind != "float" else isinstance(c, (int, float)), "%s: cell %d is %r", what, k, c)
                    values[k].add(c)
                require(i.check_if_in_bounds(), "%s: check_if_in_bounds() is false for the created %r", what, v)
            again = cr.create_individuals(1, not hib) if n == 1 and length == 1 else []
            if again:
                check_common(again, 1, not hib, up, what + ", second call")
                check_no_aliasing(inds + again, what + ", both calls")
            ctx.seen([i.get_vector() for i in inds])
        ctx.explore(body, bound=bound)
        if n and ctx.replay_choices is None and ctx.capped is None:
            for k in range(length):
                lo, hi = cell_bounds(bounds, k)
                if kind == "float":
                    eps = 1e-4 * (hi - lo)
                    require(min(values[k]) <= lo + eps and max(values[k]) >= hi - eps, "%s: cell %d only takes values of [%r, %r]", what, k, min(values[k]), max(values[k]))
                else:
                    require(lo in values[k] and hi in values[k] and (hi - lo > 6 or values[k] == set(range(lo, hi + 1))), "%s: cell %d only takes the values %r", what, k, sorted(values[k]))
    return Case(tag + "/%s/%d/%s/n%d/%s/%s/%s" % (kind, length, "default" if default_bounds else str(bounds)[:40], n, hib, up, generic), fn)


def gene_case(kind):
    def fn(ctx):
        cls, vt = KIND[kind]

        def body(ch):
            calls = []

            def gene(individual, index):
                calls.append((individual, index))
                return ch.choose(2, "gene")
            cr = cls(length=2, gene_creator=gene)
            inds = cr.create_individuals(2, False)
            check_common(inds, 2, False, False, "gene creator")
            require(len(calls) == 4 and [(c[0] is inds[k // 2], c[1]) for k, c in enumerate(calls)] == [(True, k % 2) for k in range(4)], "the gene creator was called with %r", [(c[0].id, c[1]) for c in calls])
            want = [[ch.choices[0], ch.choices[1]], [ch.choices[2], ch.choices[3]]]
            require([i.get_vector() for i in inds] == want, "genes %r gave the vectors %r", want, [i.get_vector() for i in inds])
            ctx.seen(want)
        ctx.explore(body, rng=False)
    return Case("gene-creator/" + kind, fn)


def fitness_type_case():
    def fn(ctx):
        def body(ch):
            ft = ch.pick((SimpleFitness, NSGA2Fitness), "fitness")
            hib = ch.pick((True, False), "direction")
            inds = GAVectorCreator(length=1, bounds=(0, 1), vector_type=BitStringVector, fitness_type=ft).create_individuals(2, hib)
            check_common(inds, 2, hib, False, "fitness type")
            require(all(type(i.fitness) is ft for i in inds), "requested %s, got %r", ft.__name__, [type(i.fitness) for i in inds])
            d = GAVectorCreator(length=2).create_individuals(1, hib)
            require(type(d[0]) is BitStringVector and d[0].size() == 2 and all(c in (0, 1) for c in d[0].get_vector()), "the default creator gives %r", d[0].get_vector())
            ctx.seen((ft.__name__, hib))
        ctx.explore(body)
    return Case("fitness-type", fn)


def shape(t, root):
    p = gp.check_wellformed(t, "created tree", True, root)
    return gp.depth(p), min(gp.leaf_depths(p)), max(gp.leaf_depths(p)), p


def tree_case(kind, conf, limits, n, hib, w, up, bound, p_prune=None, random_alpha=(0.0, 0.6)):
    fs, ts, root, erc, _ = CONF[conf]

    def fn(ctx):
        what = "%s creator (%s, depth %r)" % (kind, conf, limits)
        depths = set()

        def body(ch):
            kw = dict(init_depth=limits, function_set=list(fs), terminal_set=copy.copy(ts), root_type=root, erc_range=erc, bloat_weight=w)
            if kind != "half":
                kw["update_parents"] = up
            if p_prune is not None:
                kw["p_prune"] = p_prune
            cr = {"grow": GrowCreator, "full": FullCreator, "half": HalfCreator}[kind](**kw)
            inds = cr.create_individuals(n, hib)
            check_trees(kind, inds, cr, limits, n, hib, w, up, root, what, depths, p_prune, erc)
            ctx.seen([[node_sym(x) for x in i.tree] for i in inds])
            if kind != "half" and n == 1 and limits[1] <= 1:
                more = cr.create_individuals(1, not hib)
                check_trees(kind, more, cr, limits, 1, not hib, w, up, root, what + ", second call", depths, p_prune, erc)
                check_no_aliasing(inds + more, what + ", both calls")
        ctx.explore(body, bound=bound, alphabet={"random": random_alpha, "uniform": (0.0, 1.0)})
        if ctx.replay_choices is None and ctx.capped is None and n:
            ctx.note("depths of %s %r: %s" % (kind, limits, sorted(depths)))
            if kind == "grow" and bound is None and p_prune is None:
                require(min(depths) == limits[0] and max(depths) == limits[1], "%s: only depths %r occur", what, sorted(depths))
    return Case("trees/%s/%s/%d-%d/n%d/%s/%g/%s/%s" % (kind, conf, limits[0], limits[1], n, hib, w, up, p_prune), fn)


def check_trees(kind, inds, cr, limits, n, hib, w, up, root, what, depths, p_prune, erc=...):
    check_common(inds, n, hib, up and kind != "half" if up is not None else None, what)
    lo, hi = limits
    shapes = []
    for t in inds:
        require(type(t) is Tree, "%s: created a %s", what, type(t).__name__)
        d, mn, mx, p = shape(t, root)
        shapes.append((d, mn, mx))
        depths.add(d)
        require(t.depth() == d and t.size() == len(t.tree), "%s: depth() %r and size() %r of %r", what, t.depth(), t.size(), t.tree)
        if erc is not Ellipsis:
            require(t.erc_range == erc, "%s: a tree draws constants from %r, configured was %r", what, t.erc_range, erc)
        # bloat weight and direction, as the user sees them
        t.fitness.set_fitness(3.0)
        a = t.get_augmented_fitness()
        want = 3.0 - w * t.size() if hib else 3.0 + w * t.size()
        require(math.isclose(a, want, rel_tol=1e-9), "%s: a tree of size %d and score 3 compares as %r, bloat weight %g asks for %r", what, t.size(), a, w, want)
        if kind == "full":
            require(mn == mx == hi, "%s: leaves at depths %d to %d", what, mn, mx)
        else:
            require(lo <= d <= hi and mn >= lo, "%s: leaves at depths %d to %d", what, mn, mx)
        if p_prune == 0:
            require(mn == mx == hi, "%s without pruning: leaves at depths %d to %d", what, mn, mx)
        if p_prune == 1:
            require(mn == mx == lo, "%s with certain pruning: leaves at depths %d to %d", what, mn, mx)
    if kind == "half":
        g = n // (2 * (hi - lo + 1))
        slots = [(k, d) for d in range(lo, hi + 1) for k in ("grow", "full") for _ in range(g)]
        match = {}

        def fits(s, sl):
            d, mn, mx = s
            return mn == mx == sl[1] if sl[0] == "full" else mn >= lo and d <= sl[1]

        def aug(k, seen):
            for i, s in enumerate(shapes):
                if i not in seen and fits(s, slots[k]):
                    seen.add(i)
                    if i not in match or aug(match[i], seen):
                        match[i] = k
                        return True
            return False
        for k in range(len(slots)):
            require(aug(k, set()), "%s: %d trees with (depth, shallowest leaf, deepest leaf) %r are not %d grown and %d full ones for each depth", what, n, shapes, g, g)


def half_given_case(conf):
    """ramped half and half from given creators: its own depths count, in every call"""
    fs, ts, root, erc, _ = CONF[conf]

    def fn(ctx):
        def body(ch):
            a = ch.pick(((0, 0), (1, 2), (3, 3), (2, 4)), "depths of the grow creator")
            b = ch.pick(((0, 0), (1, 1), (2, 4), (3, 3)), "depths of the full creator")
            limits = ch.pick(((1, 2), (2, 3), (1, 1)), "depths")
            ga, gb = bool(ch.choose(2, "tracking")), ch.pick((True, False), "given")
            kw = lambda d: dict(init_depth=d, function_set=list(fs), terminal_set=copy.copy(ts), root_type=root, erc_range=erc, bloat_weight=0.5)
            gk = dict(grow_creator=GrowCreator(update_parents=ga, **kw(a)))
            if gb:
                gk["full_creator"] = FullCreator(update_parents=ga, **kw(b))
            cr = HalfCreator(**gk, **kw(limits))
            n = 2 * (limits[1] - limits[0] + 1)
            for call, hib in ((1, True), (2, False), (3, False)):
                what = "half creator of a grow creator %r%s, depth %r, call %d" % (a, " and a full creator %r" % (b,) if gb else "", limits, call)
                m = n * call + call - 1
                inds = cr.create_individuals(m, hib)
                check_trees("half", inds, cr, limits, m, hib, 0.5, None, root, what, set(), None, erc)
                if gb:
                    require(all(i.update_parents == ga for i in inds), "%s: parent tracking of the given creators is %r", what, ga)
                ctx.seen((call, [[node_sym(x) for x in i.tree] for i in inds]))
        ctx.explore(body, bound=1, alphabet={"random": (0.0, 0.6), "uniform": (0.0, 1.0)})
    return Case("half/given/" + conf, fn)


def half_small_case():
    def fn(ctx):
        def body(ch):
            limits = ch.pick(((1, 1), (1, 2), (2, 4), (0, 1)), "limits")
            need = 2 * (limits[1] - limits[0] + 1)
            n = ch.choose(need + 1, "n")
            cr = HalfCreator(init_depth=limits, function_set=[gp.sub], terminal_set=["x"])
            try:
                inds = cr.create_individuals(n, True)
            except ValueError:
                require(n < need, "%d individuals for depths %r were refused", n, limits)
            else:
                require(len(inds) == n and n >= need, "%d individuals for depths %r gave %d", n, limits, len(inds))
            ctx.seen((limits, n))
        with_r = {"random": (0.0,)}
        ctx.explore(body, alphabet=with_r)
    return Case("half/too-few", fn)


class Tagged(GABitStringVectorCreator):
    tag = None
    asked = None

    def create_individuals(self, n_individuals, higher_is_better):
        self.asked = (n_individuals, higher_is_better)
        r = super().create_individuals(n_individuals, higher_is_better)
        for i in r:
            i.tag = self.tag
        return r


def pcr_case(pcr, ncre, hib):
    def fn(ctx):
        tot = {}

        def body(ch):
            crs = []
            for k in range(ncre):
                c = Tagged(length=1)
                c.tag = k
                c.gene_creator = lambda individual, index: 0
                crs.append(c)
            arg = crs if ncre > 1 or pcr is not None else crs[0]
            sp = Subpopulation(evaluator=NullEvaluator(), creators=arg, pcr=pcr, operators_sequence=[IdentityTransformation()], population_size=3, higher_is_better=hib)
            Population([sp]).create_population_individuals()
            check_common(sp.individuals, 3, hib, False, "sub-population of %d creators" % ncre)
            tags = {i.tag for i in sp.individuals}
            require(len(tags) == 1, "a sub-population was made by the creators %r", tags)
            used = [c.tag for c in crs if c.asked]
            require(used == list(tags), "creators %r were used", used)
            t = tags.pop()
            tot[t] = tot.get(t, 0.0) + ch.weight
            ctx.seen((pcr, t))
        ctx.explore(body, alphabet={"random": tuple((i + 0.5) / 40 for i in range(40))})
        if ctx.replay_choices is None and ctx.capped is None:
            want = list(pcr) if pcr is not None else [1 / ncre] * ncre
            for k in range(ncre):
                require(abs(tot.get(k, 0.0) - want[k]) < 0.02, "creation probabilities %r: creator %d is used with probability %r", want, k, tot.get(k, 0.0))
    return Case("creators/%d/%s/%s" % (ncre, pcr, hib), fn)


def reject_case():
    def fn(ctx):
        mk = lambda: GABitStringVectorCreator(length=1)
        bad = [("no creator", None, None), ("empty list", [], None), ("not a creator", ["x"], None), ("wrong type", "x", None),
               ("too few probabilities", [mk(), mk()], [1.0]), ("too many", [mk()], [0.5, 0.5]), ("sum below 1", [mk(), mk()], [0.5, 0.4]), ("sum above 1", [mk(), mk()], [0.6, 0.6])]
        good = [("one", mk(), None), ("list", [mk()], [1]), ("two", [mk(), mk()], [0.25, 0.75]), ("ten", [mk() for _ in range(10)], [0.1] * 10),
                ("seven", [mk() for _ in range(7)], None), ("three", [mk() for _ in range(3)], [0.1, 0.2, 0.7]), ("zero", [mk(), mk()], [0, 1])]

        def body(ch):
            name, cr, pcr = ch.pick(bad + good, "arguments")
            ok = name in [g[0] for g in good]
            try:
                Subpopulation(evaluator=NullEvaluator(), creators=cr, pcr=pcr, operators_sequence=[IdentityTransformation()], population_size=2)
            except ValueError:
                require(not ok, "creators/probabilities %r were rejected", (name, pcr))
            else:
                require(ok, "creators/probabilities %r were accepted", (name, pcr))
            ctx.seen(name)
        ctx.explore(body)
    return Case("rejected", fn)


def given_case():
    def fn(ctx):
        def body(ch):
            n = 1 + ch.choose(3, "n")
            size = 1 + ch.choose(3, "population_size")
            inds = [bit([ch.choose(2, "cell")]) for _ in range(n)]
            before = [snap(i) for i in inds]
            cr = Tagged(length=1)
            sp = Subpopulation(evaluator=NullEvaluator(), creators=cr, operators_sequence=[IdentityTransformation()], population_size=size, individuals=list(inds))
            pop = Population([sp])
            for _ in range(2):
                pop.create_population_individuals()
                require([id(i) for i in sp.individuals] == [id(i) for i in inds] and cr.asked is None, "given individuals were replaced")
                require([snap(i) for i in inds] == before, "given individuals were changed")
            ctx.seen((n, size, [i.get_vector() for i in inds]))
        ctx.explore(body)
    return Case("given-individuals", fn)


def many_subs_case():
    def fn(ctx):
        def body(ch):
            subs = []
            conf = []
            for k in range(2):
                size = 1 + ch.choose(2, "size")
                hib = ch.pick((False, True), "direction")
                c = Tagged(length=k + 1)
                c.tag = k
                given = ch.choose(2, "given")
                inds = [bit([0] * (k + 1)) for _ in range(size)] if given else None
                conf.append((size, hib, given, inds))
                subs.append(Subpopulation(evaluator=NullEvaluator(), creators=c, operators_sequence=[IdentityTransformation()], population_size=size, higher_is_better=hib, individuals=inds))
            Population(subs).create_population_individuals()
            for k, sp in enumerate(subs):
                size, hib, given, inds = conf[k]
                if given:
                    require(sp.individuals is inds or list(map(id, sp.individuals)) == list(map(id, inds)), "sub-population %d lost its individuals", k)
                else:
                    check_common(sp.individuals, size, hib, False, "sub-population %d" % k)
                    require(all(i.size() == k + 1 and i.tag == k for i in sp.individuals), "sub-population %d was made by another creator", k)
            ctx.seen([c[:3] for c in conf])
        ctx.explore(body, alphabet={"int_full": 8}, bound=6)
    return Case("sub-populations", fn)


def cases(tier):
    q = tier == "quick"
    out = []
    for kind, bs in (("bit", ((0, 1), [(0, 1), (0, 1)], [(0, 0), (0, 1)], [(0, 1), (1, 1), (0, 1)])),
                     ("int", ((0, 2), (-3, 1), [(5, 6), (0, 2)], [(-2, -1), (3, 3), (0, 1)], (0, 100))),
                     ("float", ((0.0, 1.0), (-2.0, 3.0), [(0.0, 1.0), (5.0, 6.5)], [(-1.0, 0.0), (2.0, 2.0), (10, 20)]))):
        for b in bs:
            L = (len(b),) if isinstance(b, list) else (1, 2) if q else (1, 2, 3)
            for length in L:
                for n in (0, 1, 2):
                    if length * n > (4 if q else 6):
                        continue
                    out.append(vector_case(kind, length, b, n, n % 2 == 0, length % 2 == 0, n == 1))
        out.append(vector_case(kind, 2, {"bit": (0, 1), "int": (0, 1), "float": (0.0, 1.0)}[kind], 2, True, False, False, True))
        cells = [(k % 4, k % 4 + 1 + k % 3) if kind != "bit" else (k % 3 // 2, 1) for k in range(24)]
        for length, n in ((12, 3), (3, 30), (24, 2)) if q else ((12, 3), (3, 30), (24, 8), (60, 2)):
            out.append(vector_case(kind, length, {"bit": (0, 1), "int": (-3, 5), "float": (-2.0, 3.0)}[kind], n, n == 3, n == 2, n == 30, bound=1, tag="many"))
        out.append(vector_case(kind, 24, cells, 2, True, False, False, bound=1, tag="many"))
        out.append(gene_case(kind))
    out.append(fitness_type_case())
    bd = 3 if q else 4
    for conf in LIGHT:
        for k in ("full", "grow", "half"):
            out.append(tree_case(k, conf, (1, 2), 4, k == "full", 0.25, False, 2))
    for k, conf, lim, b in (("grow", "plain", (4, 5), 1), ("grow", "plain", (5, 5), 1), ("full", "plain", (6, 6), 1), ("grow", "plain", (6, 7), 0), ("full", "plain", (8, 8), 0),
                            ("grow", "typed", (4, 5), 1), ("grow", "erc", (4, 6), 1), ("full", "typed", (5, 5), 1)):
        out.append(tree_case(k, conf, lim, 1, True, 0.25, False, b, None, (0.0, 0.6, 0.97)))
    out += [half_given_case(c) for c in ("plain", "typed", "erc")]
    for conf in CONF:
        if conf in LIGHT:
            continue
        typed = CONF[conf][2] is not None
        out.append(tree_case("full", conf, (1, 1), 1, True, 0.0, True, None))
        out.append(tree_case("full", conf, (0, 2), 1, True, 0.25, False, None if conf == "plain" else bd + 1))
        out.append(tree_case("full", conf, (2, 3), 2, False, 0.5, True, bd - 1))
        out.append(tree_case("grow", conf, (1, 1), 1, False, 0.5, True, None))
        out.append(tree_case("grow", conf, (1, 2), 1, True, 0.1, False, None if not typed and conf not in ("ternary",) else bd + 1))
        out.append(tree_case("grow", conf, (1, 3), 2, False, 0.0, False, bd))
        out.append(tree_case("grow", conf, (2, 3), 1, False, 0.0, False, bd))
        out.append(tree_case("half", conf, (1, 1), 2, True, 0.5, False, bd))
        out.append(tree_case("half", conf, (1, 2), 4, False, 0.0, False, bd))
        out.append(tree_case("half", conf, (1, 2), 7, True, 0.25, False, bd - 1))
        out.append(tree_case("half", conf, (1, 3), 6, False, 1.0, False, bd - 1))
        out.append(tree_case("half", conf, (2, 3), 8, False, 1.0, False, bd - 2))
        for k, lim, n in (("full", (0, 5), 1), ("full", (2, 4), 12), ("grow", (2, 6), 2), ("grow", (0, 4), 20), ("half", (2, 5), 24 if q else 48), ("half", (1, 4), 19)):
            if conf == "ternary" and (lim[1] > 4 or n == 12):
                lim = (lim[0], 4 if n != 12 else 3)
            out.append(tree_case(k, conf, lim, n, n % 2 == 0, 0.1, n == 12, 0 if k == "half" or n == 20 and q else 1))
    out.append(tree_case("half", "plain", (2, 3), 9, False, 1.0, False, bd - 2))
    out.append(tree_case("grow", "plain", (0, 2), 1, True, 0.0, False, None))
    out.append(tree_case("grow", "plain", (0, 2), 0, True, 0.0, False, None))
    for pp in (0, 1):
        out.append(tree_case("grow", "plain", (1, 2), 1, True, 0.0, False, None, pp, (0.0, 0.5, 0.999999)))
        out.append(tree_case("grow", "typed", (1, 3), 1, True, 0.0, False, bd, pp, (0.0, 0.5, 0.999999)))
    out.append(half_small_case())
    for pcr in (None, [0.5, 0.5], [0.25, 0.75], [1, 0], [0, 1.0], [0.1, 0.9]):
        out.append(pcr_case(pcr, 2, pcr is None))
    for pcr in (None, [0.1, 0.2, 0.7], [0.3, 0.6, 0.1], [0, 0.5, 0.5]):
        out.append(pcr_case(pcr, 3, True))
    out.append(pcr_case(None, 1, False))
    out.append(pcr_case([0.1] * 10, 10, False))
    out.append(reject_case())
    out.append(given_case())
    out.append(many_subs_case())
    return out
