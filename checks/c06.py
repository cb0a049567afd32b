"""C06: selections."""
from .common import *

BOUNDS = {"quick": "sources of 1..4 individuals, scores from {0,1,2} (trees: also 0.25, sizes 1..3 with bloat weight 0.5), tournament size<=3, all draws, exact probabilities; the same for score patterns of 7-33 individuals (tournaments of 1-3), tournaments of the whole source, elites of 7-12",
          "thorough": "sources of 1..5 individuals, scores from {0,1,2,3}, tournament size<=4, all draws, exact probabilities"}
ASSUMPTIONS = ["draws from the standard generators are uniform (or follow the weights passed to them)"]


def mk(scores, hib, kind="bit", cache=False):
    out = []
    for i, s in enumerate(scores):
        if kind == "bit":
            cells = [(i >> b) & 1 for b in range(3)]
            ind = BitStringVector(fitness=SimpleFitness(fitness=s, higher_is_better=hib, cache=cache), length=3, vector=cells)
        else:
            # trees of different sizes, bloat-adjusted score = s +/- 0.5*size
            n = 1 + i % 3
            ind = Tree(function_set=[_neg], terminal_set=["x"],
                       fitness=GPFitness(fitness=s, higher_is_better=hib, bloat_weight=0.5, cache=cache))
            ind.tree = [FunctionNode(_neg) for _ in range(n - 1)] + [TerminalNode("x")]
        out.append(ind)
    return out


# 60 equally likely values: int(random()*n) is then exactly uniform for n<=6
GRID = {"random": tuple((i + 0.5) / 60 for i in range(60))}


def _neg(a):
    return -a


def val(s, i, hib, kind):
    """comparable score of source i"""
    if kind == "bit":
        return s[i]
    sz = 1 + i % 3
    return s[i] - 0.5 * sz if hib else s[i] + 0.5 * sz


def winner_dist(vals, size, replace, hib):
    """P(value of the tournament winner)"""
    n = len(vals)
    d = {}
    tours = list(product(range(n), repeat=size)) if replace else list(itertools.permutations(range(n), size))
    for t in tours:
        w = max(vals[i] for i in t) if hib else min(vals[i] for i in t)
        d[w] = d.get(w, 0.0) + 1.0 / len(tours)
    return d


def close(d1, d2):
    return all(abs(d1.get(k, 0) - d2.get(k, 0)) < 1e-9 for k in set(d1) | set(d2))


def check_result(src, before, dst, pre, pre_before, name, what):
    """common obligations; returns the source index of each added individual"""
    n = len(src)
    require(len(dst) == max(n, len(pre)), "%s: destination has %d individuals, source %d, prefilled %d", what, len(dst), n, len(pre))
    require(all(a is b for a, b in zip(dst, pre)), "%s: destination prefix changed", what)
    require([snap(x) for x in pre] == pre_before, "%s: individuals already in the destination were modified", what)
    require([snap(x) for x in src] == before, "%s: source individuals were modified", what)
    ids = {x.id: i for i, x in enumerate(src)}
    got = []
    for x in dst[len(pre):]:
        require(x.cloned_from in ids, "%s: selected individual is not a clone of a source individual", what)
        i = ids[x.cloned_from]
        require(genome(x) == genome(src[i]), "%s: clone has another genome than its original", what)
        require(x.id not in ids, "%s: a clone reuses its original's id", what)
        require(list(x.selected_by) == [name], "%s: selected_by is %r", what, x.selected_by)
        got.append(i)
    check_no_aliasing(src + dst, what)
    return got


def tournament_case(n, size, replace, hib, scores_dom, kind, cache):
    def fn(ctx):
        for scores in product(scores_dom, repeat=n):
            if kind == "tree" and list(scores) != sorted(scores) and n > 2:
                continue
            # one free slot: exact distribution of the picked value
            dist = {}
            total = [0.0]

            def body(ch, scores=scores, slots=1):
                src = mk(scores, hib, kind, cache)
                pre = [x.clone() for x in src[:n - slots]]
                before, pb = [snap(x) for x in src], [snap(x) for x in pre]
                dst = list(pre)
                sel = TournamentSelection(tournament_size=size, higher_is_better=hib, replace=replace)
                what = "tournament size %d of %r (%s, replace=%s)" % (size, scores, "max" if hib else "min", replace)
                res = sel.select(src, dst)
                got = check_result(src, before, list(res), pre, pb, "TournamentSelection", what)
                require(list(res) == dst, "%s: returned list differs from the destination", what)
                if slots == 1:
                    v = val(scores, got[0], hib, kind)
                    dist[v] = dist.get(v, 0.0) + ch.weight
                    total[0] += ch.weight
                ctx.seen((scores, got, hib, size, replace))
            ctx.explore(body, alphabet=GRID)
            if ctx.replay_choices is None and ctx.capped is None:
                if abs(total[0] - 1) > 1e-9:
                    raise HarnessError("probabilities sum to %r" % total[0])
                want = winner_dist([val(scores, i, hib, kind) for i in range(n)], size, replace, hib)
                require(close(dist, want), "tournament size %d over scores %r (%s, replace=%s): probability of each winning score is %r, expected %r",
                        size, scores, "max" if hib else "min", replace, dist, want)
            if n == 2 and size <= 2:
                ctx.explore(lambda ch: body(ch, slots=2))
    return Case("tour/%s/n%d/s%d/%s/%s/%s" % (kind, n, size, "rep" if replace else "norep", "max" if hib else "min", cache), fn)


def tournament_multi(n, size, hib, prefill):
    """several slots at once: marginal distribution of every slot"""
    def fn(ctx):
        scores = [(i * 2) % 3 for i in range(n)]
        dists = [dict() for _ in range(n - prefill)]

        def body(ch):
            src = mk(scores, hib)
            pre = [x.clone() for x in src[:prefill]]
            before, pb = [snap(x) for x in src], [snap(x) for x in pre]
            dst = list(pre)
            res = TournamentSelection(tournament_size=size, higher_is_better=hib).select(src, dst)
            got = check_result(src, before, list(res), pre, pb, "TournamentSelection", "tournament of %r" % scores)
            for k, i in enumerate(got):
                dists[k][scores[i]] = dists[k].get(scores[i], 0) + ch.weight
            ctx.seen(got)
        ctx.explore(body)
        if ctx.replay_choices is None and ctx.capped is None:
            want = winner_dist(scores, size, True, hib)
            for k, d in enumerate(dists):
                require(close(d, want), "slot %d of a multi-slot tournament has winner distribution %r, expected %r", k, d, want)
    return Case("tourmulti/n%d/s%d/%s/p%d" % (n, size, hib, prefill), fn)


def tournament_large(n, size, replace, hib):
    """larger sources: exact distribution of one pick, several score patterns"""
    def fn(ctx):
        for scores in ([float(i) for i in range(n)], [float(n - i) for i in range(n)], [float(i * 7 % n) for i in range(n)], [float(i % 3) for i in range(n)]):
            dist = {}
            coarse = []

            def body(ch):
                src = mk(scores, hib)
                pre = [x.clone() for x in src[:n - 1]]
                before, pb = [snap(x) for x in src], [snap(x) for x in pre]
                dst = list(pre)
                what = "tournament size %d of %r (%s, replace=%s)" % (size, scores, "max" if hib else "min", replace)
                res = TournamentSelection(tournament_size=size, higher_is_better=hib, replace=replace).select(src, dst)
                got = check_result(src, before, list(res), pre, pb, "TournamentSelection", what)
                if any(l in ("random", "uniform", "np.random", "np.uniform") for l in ch.labels):
                    coarse.append(1)
                dist[scores[got[0]]] = dist.get(scores[got[0]], 0.0) + ch.weight
                ctx.seen((scores, got))
            ctx.explore(body, alphabet=dict(GRID, int_full=64))
            if ctx.replay_choices is None and ctx.capped is None and not coarse and abs(sum(dist.values()) - 1) < 1e-9:
                want = winner_dist(scores, size, replace, hib)
                require(close(dist, want), "tournament size %d over scores %r (%s, replace=%s): probability of each winning score is %r, expected %r",
                        size, scores, "max" if hib else "min", replace, dist, want)
    return Case("tourlarge/n%d/s%d/%s/%s" % (n, size, "rep" if replace else "norep", "max" if hib else "min"), fn)


def tournament_whole(n, size, hib):
    """tournaments as large as the source or larger: without repetition the best always wins; nothing outside the source is picked"""
    def fn(ctx):
        def body(ch):
            scores = ch.pick([[float(i) for i in range(n)], [float(n - i) for i in range(n)], [float(i * 7 % n) for i in range(n)]], "scores")
            replace = bool(ch.choose(2, "replace")) if size <= n else True
            src = mk(scores, hib)
            before = [snap(x) for x in src]
            res = TournamentSelection(tournament_size=size, higher_is_better=hib, replace=replace).select(src, [])
            got = check_result(src, before, list(res), [], [], "TournamentSelection", "tournament of %d among %d" % (size, n))
            if not replace and size == n:
                top = max(scores) if hib else min(scores)
                require(all(scores[i] == top for i in got), "a tournament among all of %r picked %r", scores, [scores[i] for i in got])
            ctx.seen((scores, got))
        ctx.explore(body, bound=1, alphabet={"int_full": 64})
    return Case("tourwhole/n%d/s%d/%s" % (n, size, "max" if hib else "min"), fn)


def toolarge_case():
    def fn(ctx):
        def body(ch):
            src = mk([1, 2], False)
            try:
                TournamentSelection(tournament_size=3, replace=False).select(src, [])
            except ValueError:
                ctx.seen("rejected")
                return
            raise Violation("a tournament without repetition larger than the source was accepted")
        ctx.explore(body)
    return Case("tour/too-large", fn)


def fp_case(n, hib, dom, kind, cache):
    def fn(ctx):
        for scores in product(dom, repeat=n):
            vals = [val(scores, i, hib, kind) for i in range(n)]
            if min(vals) < 0:
                def neg(ch, scores=scores):
                    src = mk(scores, hib, kind, cache)
                    try:
                        FitnessProportionateSelection(higher_is_better=hib).select(src, [])
                    except ValueError:
                        ctx.seen(("neg", scores))
                        return
                    raise Violation("negative scores %r accepted by fitness-proportionate selection" % (scores,))
                ctx.explore(neg, bound=0)
                continue
            prob = {}
            coarse = []

            def body(ch, scores=scores, slots=1):
                src = mk(scores, hib, kind, cache)
                pre = [x.clone() for x in src[:n - slots]]
                before, pb = [snap(x) for x in src], [snap(x) for x in pre]
                dst = list(pre)
                what = "fitness-proportionate selection of %r (%s)" % (scores, "max" if hib else "min")
                res = FitnessProportionateSelection(higher_is_better=hib).select(src, dst)
                got = check_result(src, before, list(res), pre, pb, "FitnessProportionateSelection", what)
                if any(l in ("random", "uniform", "np.random", "np.uniform") for l in ch.labels):
                    coarse.append(1)   # a continuous draw: probabilities are only discretised
                if slots == 1:
                    prob[got[0]] = prob.get(got[0], 0.0) + ch.weight
                ctx.seen((scores, got, hib))
            ctx.explore(body, alphabet=GRID)
            if ctx.replay_choices is None and ctx.capped is None and not coarse:
                if abs(sum(prob.values()) - 1) > 1e-6:
                    raise Violation("selection probabilities of %r sum to %r" % (scores, sum(prob.values())))
                for i in range(n):
                    for j in range(n):
                        pi, pj = prob.get(i, 0.0), prob.get(j, 0.0)
                        if vals[i] == vals[j]:
                            require(abs(pi - pj) < 1e-9, "equal scores %r have probabilities %r and %r", vals, pi, pj)
                        elif (vals[i] > vals[j]) == hib:
                            require(pi > pj, "of scores %r (%s) the better %r has probability %r, the worse %r has %r",
                                    vals, "max" if hib else "min", vals[i], pi, vals[j], pj)
            if n == 2:
                ctx.explore(lambda ch: body(ch, slots=2))
    return Case("fp/%s/n%d/%s/%s" % (kind, n, "max" if hib else "min", cache), fn)


def fp_large(n, hib):
    def fn(ctx):
        for scores in ([float(i) for i in range(n)], [float(n - i) for i in range(n)], [float(i * 5 % n) for i in range(n)], [float(i % 3) for i in range(n)], [0.5] * n, [100.0 * i for i in range(n)]):
            prob = {}
            coarse = []

            def body(ch):
                src = mk(scores, hib)
                pre = [x.clone() for x in src[:n - 1]]
                before, pb = [snap(x) for x in src], [snap(x) for x in pre]
                dst = list(pre)
                res = FitnessProportionateSelection(higher_is_better=hib).select(src, dst)
                got = check_result(src, before, list(res), pre, pb, "FitnessProportionateSelection", "fitness-proportionate selection of %r" % (scores,))
                if any(l in ("random", "uniform", "np.random", "np.uniform") for l in ch.labels):
                    coarse.append(1)
                prob[got[0]] = prob.get(got[0], 0.0) + ch.weight
                ctx.seen((scores, got))
            ctx.explore(body, alphabet=GRID)
            if ctx.replay_choices is None and ctx.capped is None and not coarse:
                for i in range(n):
                    for j in range(n):
                        pi, pj = prob.get(i, 0.0), prob.get(j, 0.0)
                        if scores[i] == scores[j]:
                            require(abs(pi - pj) < 1e-9, "equal scores of %r have probabilities %r and %r", scores, pi, pj)
                        elif (scores[i] > scores[j]) == hib:
                            require(pi >= pj, "of scores %r (%s) the better %r has probability %r, the worse %r has %r",
                                    scores, "max" if hib else "min", scores[i], pi, scores[j], pj)
    return Case("fplarge/n%d/%s" % (n, "max" if hib else "min"), fn)


def fp_many(n, taken, hib):
    """many places to fill: any individual may fill any of them, also the same one all"""
    def fn(ctx):
        for scores in ([float(i + 1) for i in range(n)], [float(i % 3 + 1) for i in range(n)], [0.0] * (n - 1) + [1.0] if hib else [1.0] * (n - 1) + [0.0]):
            def body(ch):
                src = mk(scores, hib)
                pre = [x.clone() for x in src[:taken]]
                before, pb = [snap(x) for x in src], [snap(x) for x in pre]
                res = FitnessProportionateSelection(higher_is_better=hib).select(src, list(pre))
                got = check_result(src, before, list(res), pre, pb, "FitnessProportionateSelection", "fitness-proportionate selection of %d from %r" % (n - taken, scores))
                if any(l in ("random", "uniform", "np.random", "np.uniform") for l in ch.labels):
                    body.coarse = True
                for k, g in enumerate(got):
                    body.reach.add((k, g))
                ctx.seen((scores, got))
            body.coarse, body.reach = False, set()
            ctx.explore(body, bound=1, alphabet=GRID)
            if ctx.replay_choices is None and ctx.capped is None and not body.coarse and 0.0 not in scores:
                for k in range(n - taken):
                    miss = [i for i in range(n) if (k, i) not in body.reach]
                    require(not miss, "fitness-proportionate selection of %d from %r: place %d is never filled with individuals %r", n - taken, scores, k, miss)
    return Case("fpmany/n%d/%d/%s" % (n, taken, "max" if hib else "min"), fn)


def elit_large(n, hib):
    def fn(ctx):
        def body(ch):
            scores = ch.pick([[float(i) for i in range(n)], [float(n - i) for i in range(n)], [float(i * 5 % n) for i in range(n)], [float(i % 3) for i in range(n)], [-float(i * i % 7) for i in range(n)]], "scores")
            kind = ch.pick(("bit", "tree"), "kind")
            k = ch.choose(n + 1, "elites")
            src = mk(scores, hib, kind)
            vals = [val(scores, i, hib, kind) for i in range(n)]
            before = [snap(x) for x in src]
            res = list(ElitismSelection(num_elites=k, higher_is_better=hib).select(src, []))
            what = "elitism(%d) of %r (%s)" % (k, scores, "max" if hib else "min")
            ids = {x.id: i for i, x in enumerate(src)}
            require([snap(x) for x in src] == before, "%s: source modified", what)
            got = [ids.get(x.cloned_from) for x in res]
            require(None not in got and len(set(got)) == k == len(got), "%s: kept %r", what, got)
            require(sorted(vals[i] for i in got) == sorted(sorted(vals, reverse=hib)[:k]), "%s: kept scores %r", what, [vals[i] for i in got])
            require(all(genome(x) == genome(src[i]) for x, i in zip(res, got)), "%s: genome differs", what)
            check_no_aliasing(src + res, what)
            ctx.seen((scores, kind, k))
        ctx.explore(body, rng=False)
    return Case("elitelarge/n%d/%s" % (n, "max" if hib else "min"), fn)


def elit_case(n, hib, dom, kind, cache):
    def fn(ctx):
        for scores in product(dom, repeat=n):
            vals = [val(scores, i, hib, kind) for i in range(n)]
            for k in range(0, n + 1):
                for prefill in (0, 1):
                    def body(ch, k=k, scores=scores, vals=vals, prefill=prefill):
                        src = mk(scores, hib, kind, cache)
                        pre = [src[0].clone()] * prefill
                        before, pb = [snap(x) for x in src], [snap(x) for x in pre]
                        dst = list(pre)
                        res = ElitismSelection(num_elites=k, higher_is_better=hib).select(src, dst)
                        res = list(res)
                        what = "elitism(%d) of %r (%s)" % (k, scores, "max" if hib else "min")
                        require(len(res) == prefill + k, "%s: %d individuals", what, len(res))
                        ids = {x.id: i for i, x in enumerate(src)}
                        require([snap(x) for x in src] == before, "%s: source modified", what)
                        require([snap(x) for x in pre] == pb and all(a is b for a, b in zip(res, pre)), "%s: destination prefix changed", what)
                        got = []
                        for x in res[prefill:]:
                            require(x.cloned_from in ids and x.id not in ids, "%s: not a clone of a source individual", what)
                            got.append(ids[x.cloned_from])
                            require(genome(x) == genome(src[got[-1]]), "%s: genome differs", what)
                        require(len(set(got)) == len(got), "%s: the same individual twice", what)
                        require(sorted(vals[i] for i in got) == sorted(sorted(vals, reverse=hib)[:k]),
                                "%s: kept scores %r", what, [vals[i] for i in got])
                        check_no_aliasing(src + res, what)
                        ctx.seen((scores, k, got, hib))
                    ctx.explore(body)
    return Case("elite/%s/n%d/%s/%s" % (kind, n, "max" if hib else "min", cache), fn)


def cases(tier):
    out = []
    dom = (0, 1, 2) if tier == "quick" else (0, 1, 2, 5)
    nmax = 4 if tier == "quick" else 5
    smax = 3 if tier == "quick" else 4
    for hib in (False, True):
        for n in range(1, nmax + 1):
            for size in range(1, smax + 1):
                if n ** size > 64 and tier == "quick" or n ** size > 300:
                    continue
                d = dom if n <= 3 else dom[:3] if tier == "thorough" else (0, 1)
                out.append(tournament_case(n, size, True, hib, d, "bit", size == 2))
                if size <= n:
                    out.append(tournament_case(n, size, False, hib, d, "bit", False))
                if n <= 3:
                    out.append(tournament_case(n, size, True, hib, (0, 0.25, 1), "tree", size != 2))
        out.append(tournament_multi(3, 1, hib, 0))
        out.append(tournament_multi(3, 2, hib, 1))
        out.append(tournament_multi(4, 1, hib, 0))
        if tier == "thorough":
            out.append(tournament_multi(3, 2, hib, 0))
            out.append(tournament_multi(4, 2, hib, 1))
        for n, size in ((7, 2), (12, 2), (20, 2), (6, 3), (33, 1)) if tier == "quick" else ((7, 2), (12, 2), (20, 2), (6, 3), (9, 3), (5, 4), (64, 1), (40, 2)):
            for rep in (True, False):
                out.append(tournament_large(n, size, rep, hib))
        for n, size in ((6, 6), (6, 9), (10, 10), (3, 12)):
            out.append(tournament_whole(n, size, hib))
        for n, taken in ((7, 0), (12, 0), (12, 5), (20, 0), (33, 2)):
            out.append(fp_many(n, taken, hib))
        for n in (7, 12):
            out.append(fp_large(n, hib))
            out.append(elit_large(n, hib))
        for n in range(1, nmax + 1):
            out.append(fp_case(n, hib, (-1, -0.125, -1e-9, 0, 0.25, 0.5, 1, 3) if n <= 3 else (0, 0.5, 2, -0.25), "bit", n % 2 == 0))
            if n <= 3:
                out.append(fp_case(n, hib, (0.5, 1, 2, 2.25) if hib else (0, 0.25, 1, 3), "tree", False))
            out.append(elit_case(n, hib, dom if n < 5 else dom[:2], "bit", n % 2 == 0))
            if n <= 3:
                out.append(elit_case(n, hib, (-1, 0, 0.25, 1, 2) if n < 3 or tier == "thorough" else (-1, 0, 0.25, 1), "tree", n != 2))
    out.append(toolarge_case())
    return out
