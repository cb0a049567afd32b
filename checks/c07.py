"""C07: vector variation operators keep vectors legal and conserve alleles."""
from .common import *

BOUNDS = {"quick": "vector length<=4, 3 values per cell, n<=3, k<=3, attempts<=3, operator reused for 2 applications; lengths of 8-40, n up to 16 and k up to 32 with 1-2 deviations from the first outcome; user tests refusing any of up to 8 attempts; mutations of 2-3 individuals at once",
          "thorough": "vector length<=6, 3 values per cell, n<=4, k<=5, attempts<=3, operator reused for 3 applications"}
ASSUMPTIONS = ["random draws take the outcomes of the stated alphabets (interval ends and middle; 0, +/-1 sigma and far outside for Gaussians)"]

VCLS = {"bit": BitStringVector, "int": IntVector, "float": FloatVector}


def bounds_for(kind, length, per_cell):
    if kind == "bit":
        return [(0, 1)] * length if per_cell else (0, 1)
    if kind == "int":
        return [(i - 1, 2 * i + 1) for i in range(length)] if per_cell else (-1, 2)
    return [(i - 1.0, i + 0.5) for i in range(length)] if per_cell else (-1.5, 2.0)


def cell_bounds(b, i):
    return b if isinstance(b, tuple) else b[i]


def cell_values(kind, b, i):
    lo, hi = cell_bounds(b, i)
    if kind == "bit":
        return [lo, hi]
    mid = (lo + hi) // 2 if kind == "int" else (lo + hi) / 2
    return sorted({lo, mid, hi})


def legal(kind, ind, b, length, what):
    v = ind.get_vector()
    require(isinstance(v, list) and len(v) == length, "%s: length %d became %r", what, length, v)
    require(ind.size() == length, "%s: size() %r", what, ind.size())
    for i, x in enumerate(v):
        lo, hi = cell_bounds(b, i)
        require(isinstance(x, (int, np.integer)) if kind != "float" else isinstance(x, (int, float, np.floating)),
                "%s: cell %d is %r (%s)", what, i, x, type(x).__name__)
        require(lo <= x <= hi, "%s: cell %d = %r outside [%r, %r]", what, i, x, lo, hi)
    require(ind.check_if_in_bounds(), "%s: check_if_in_bounds() is False for the legal vector %r", what, v)
    require(ind.get_bounds() == b, "%s: bounds changed to %r", what, ind.get_bounds())


def start_vectors(kind, b, length, full):
    per = [cell_values(kind, b, i) for i in range(length)]
    if full:
        return [list(t) for t in product(*per)]
    return [[p[0] for p in per], [p[-1] for p in per], [p[i % len(p)] for i, p in enumerate(per)]]


# ---- mutations
def mutation_table(tier):
    n_max = 3 if tier == "quick" else 4
    t = []
    for n in range(1, n_max + 1):
        t.append(("FloatUniformN%d" % n, "float", lambda n=n, **k: FloatVectorUniformNPointMutation(n=n, **k), n, None))
        t.append(("FloatGaussN%d" % n, "float", lambda n=n, **k: FloatVectorGaussNPointMutation(n=n, attempts=2, **k), n, None))
        t.append(("IntN%d" % n, "int", lambda n=n, **k: IntVectorNPointMutation(n=n, **k), n, None))
        t.append(("BitNFlipAll%d" % n, "bit", lambda n=n, **k: BitStringVectorNFlipMutation(n=n, probability_for_each=1.0, **k), n, n))
        t.append(("BitNFlip%d" % n, "bit", lambda n=n, **k: BitStringVectorNFlipMutation(n=n, probability_for_each=0.5, **k), n, None))
        t.append(("BitNFlipNone%d" % n, "bit", lambda n=n, **k: BitStringVectorNFlipMutation(n=n, probability_for_each=0.0, **k), n, 0))
        for kind in VCLS:
            t.append(("Default%s%d" % (kind, n), kind, lambda n=n, **k: VectorNPointMutation(n=n, attempts=2, **k), n, None))
    t.append(("FloatUniformOne", "float", lambda **k: FloatVectorUniformOnePointMutation(**k), 1, None))
    t.append(("FloatGaussOne", "float", lambda **k: FloatVectorGaussOnePointMutation(attempts=3, **k), 1, None))
    t.append(("IntOneNone", "int", lambda **k: IntVectorOnePointMutation(probability_for_each=0.0, **k), None, 0))
    t.append(("IntOne", "int", lambda **k: IntVectorOnePointMutation(probability_for_each=0.5, **k), None, None))
    t.append(("BitFlip", "bit", lambda **k: BitStringVectorFlipMutation(**k), 1, 1))
    return t


def mutation_case(name, kind, make, n_max, exact, length, per_cell, full):
    b = bounds_for(kind, length, per_cell)
    if n_max is not None and n_max > length:
        return None

    def fn(ctx):
        touched, values = set(), [set() for _ in range(length)]
        most = [0]
        for start in start_vectors(kind, b, length, full):
            def body(ch, start=start):
                ind = vec(VCLS[kind], start, list(b) if isinstance(b, list) else b, fit=7.0)
                op = make(probability=1.0)
                what = "%s on %r bounds %r" % (name, start, b)
                res = op.apply_operator([ind])
                require(len(res) == 1 and res[0] is ind, "%s: result is not the given individual", what)
                legal(kind, ind, b, length, what)
                got = ind.get_vector()
                diff = [i for i in range(length) if got[i] != start[i]]
                if n_max is not None:
                    require(len(diff) <= n_max, "%s: %d cells changed: %r", what, len(diff), got)
                if exact is not None:
                    require(len(diff) == exact, "%s: %d cells flipped, expected %d: %r", what, len(diff), exact, got)
                touched.update(diff)
                most[0] = max(most[0], len(diff))
                for i in diff:
                    values[i].add(got[i])
                ctx.seen((name, start, got))
                ctx.note("changed_%d" % len(diff))
            al = {"gauss": (0.0, 1.0, 1e9, -1e9) if length < 3 and n_max == 1 else (0.5, 1e9, -1e9) if length < 3 else (0.5, 1e9)}
            if name.startswith(("Float", "Default", "IntN", "BitFlip")):
                al["random"] = (0.999999,)   # only decides whether the operator is applied
            else:
                al["random"] = (0.0, 0.999999)
            if n_max and n_max > 1 and "Gauss" in name:
                al["uniform"] = (0.0, 1.0)
            ctx.explore(body, alphabet=al)
        if exact != 0 and ctx.replay_choices is None and ctx.capped is None:
            require(touched == set(range(length)), "%s: only cells %r of %d can ever change", name, sorted(touched), length)
            require(n_max is None or most[0] == n_max, "%s: never more than %d cells change", name, most[0])
            if "Gauss" not in name:
                for i in range(length):
                    lo, hi = cell_bounds(b, i)
                    for x in (lo, hi):
                        require(x in values[i], "%s: cell %d can never become its bound %r", name, i, x)
    return Case("mut/%s/len%d/%s" % (name, length, "cells" if per_cell else "range"), fn)


def several_case(name, kind, make, n_max, exact, arity):
    """a mutation set up for several individuals takes that many and mutates each of them"""
    b = bounds_for(kind, 3, True)

    def fn(ctx):
        touched = [set() for _ in range(arity)]

        def body(ch):
            start = [cell_bounds(b, i)[0] for i in range(3)] if kind == "bit" else [cell_values(kind, b, i)[1] for i in range(3)]
            inds = [vec(VCLS[kind], start, list(b), fit=7.0) for _ in range(arity)]
            op = make(probability=1.0, arity=arity)
            what = "%s of %d individuals" % (name, arity)
            require(op.get_operator_arity() == arity, "%s: arity %r", what, op.get_operator_arity())
            res = op.act(list(inds))
            require(len(res) == arity and all(x is y for x, y in zip(res, inds)), "%s: result is not the given individuals", what)
            for k, x in enumerate(inds):
                legal(kind, x, b, 3, what)
                diff = [i for i in range(3) if x.get_vector()[i] != start[i]]
                require(n_max is None or len(diff) <= n_max, "%s: %d cells changed: %r", what, len(diff), x.get_vector())
                require(exact is None or len(diff) == exact, "%s: %d cells flipped, expected %r: %r", what, len(diff), exact, x.get_vector())
                touched[k].update(diff)
            check_no_aliasing(inds, what)
            ctx.seen((name, [x.get_vector() for x in inds]))
        ctx.explore(body, bound=2, alphabet={"gauss": (0.1, -0.1, 1e9), "uniform": (0.0, 1.0), "random": (0.0, 0.999999)})
        if exact != 0 and ctx.replay_choices is None and ctx.capped is None:
            for k, t in enumerate(touched):
                require(t == {0, 1, 2}, "%s: only cells %r of individual %d can ever change", name, sorted(t), k)
    return Case("several/%s/a%d" % (name, arity), fn)


def noise_case(cls, n, mu, sigma):
    """Gaussian mutation adds exactly the drawn noise to the cells it picks"""
    def fn(ctx):
        z = (0.0, 1.0, -1.0, 0.5, -0.5)
        got = set()

        def body(ch):
            ind = vec(FloatVector, [0.0, 1.0, -1.0][:n + 1], (-100.0, 100.0), fit=1.0)
            old = list(ind.get_vector())
            kw = {} if cls is FloatVectorGaussOnePointMutation else {"n": n}
            cls(mu=mu, sigma=sigma, **kw).apply_operator([ind])
            delta = [round(x - y, 9) for x, y in zip(ind.get_vector(), old)]
            rest = sorted(delta, key=abs)
            require(sum(d != 0 for d in delta) <= n, "%s(n=%d) changed %r by %r", cls.__name__, n, old, delta)
            want = {round(mu + k * sigma, 9) for k in z}
            bad = [d for d in delta if d != 0 and d not in want]
            require(not bad, "%s: noise of mean %g and deviation %g changed %r by %r", cls.__name__, mu, sigma, old, delta)
            got.update(delta)
            ctx.seen((old, rest))
        ctx.explore(body, alphabet={"gauss": z, "random": (0.0,)})
        if ctx.replay_choices is None and ctx.capped is None:
            want = {round(mu + k * sigma, 9) for k in z}
            require(want <= got, "%s: noise of mean %g and deviation %g: changes by %r never happen", cls.__name__, mu, sigma, sorted(want - got))
    return Case("noise/%s/n%d/mu%g/sigma%g" % (cls.__name__, n, mu, sigma), fn)


def notapplied_case(name, make, payload):
    def fn(ctx):
        def body(ch):
            inds = payload()
            before = [(genome(i), score_of(i)) for i in inds]
            res = make(probability=0.0).apply_operator(inds)
            require([(genome(i), score_of(i)) for i in res] == before,
                    "%s with probability 0 changed its individuals", name)
            ctx.seen((name, before))
        ctx.explore(body)
    return Case("never/%s" % name, fn)


def failing_case(length, attempts, per_cell):
    """every attempt is refused: the vector stays as it was, attempts are bounded"""
    b = bounds_for("int", length, per_cell)

    def fn(ctx):
        def body(ch):
            tries = []

            def refuse(old_vec, new_vec):
                tries.append(1)
                return ch.choose(2, "accept") == 1
            start = [cell_bounds(b, i)[0] for i in range(length)]
            ind = vec(IntVector, start, b, fit=1.0)
            op = VectorNPointMutation(n=1, attempts=attempts, success_checker=refuse)
            res = op.apply_operator([ind])
            require(list(res) == [ind], "failed mutation lost its individual: %r", res)
            accepted = ch.choices and any(l == "accept" and c == 1 for l, c in zip(ch.labels, ch.choices))
            require(len(tries) <= attempts, "%d attempts made, %d allowed", len(tries), attempts)
            legal("int", ind, b, length, "refused mutation")
            if not accepted:
                require(len(tries) == attempts, "gave up after %d of %d attempts", len(tries), attempts)
                require(ind.get_vector() == start, "a mutation that failed changed the vector to %r", ind.get_vector())
            else:
                require(sum(x != y for x, y in zip(ind.get_vector(), start)) <= 1,
                        "after %d refusals more than one cell changed: %r", len(tries) - 1, ind.get_vector())
            ctx.seen((start, ind.get_vector(), len(tries)))
        ctx.explore(body)
    return Case("fail/len%d/att%d/%s" % (length, attempts, per_cell), fn)


# ---- crossover
def xo_case(kind, length, k, per_cell, reuse):
    b = bounds_for(kind, length, per_cell)

    def fn(ctx):
        masks = set()

        def one(op, L, off, what):
            if kind == "float":
                bb = [(-10.0, 99.0)] * L if per_cell else (-10.0, 99.0)
            elif kind == "int":
                bb = [(-10, 99)] * L if per_cell else (-10, 99)
            else:
                bb = bounds_for("bit", L, per_cell)
            if kind == "bit":
                v1, v2 = [0] * L, [1] * L
            else:
                v1 = [float(i) if kind == "float" else i for i in range(L)]
                v2 = [(float(i) if kind == "float" else i) + 50 for i in range(L)]
            a = vec(VCLS[kind], v1, bb, fit=1.0)
            c = vec(VCLS[kind], v2, bb, fit=2.0)
            res = op.apply_operator([a, c])
            require(len(res) == 2, "%s: %d individuals returned", what, len(res))
            for x in res:
                legal(kind, x, bb, L, what)
            r1, r2 = res[0].get_vector(), res[1].get_vector()
            require(r1 is not r2, "%s: the children share one vector", what)
            mask = []
            for i in range(L):
                require(sorted((r1[i], r2[i])) == sorted((v1[i], v2[i])),
                        "%s: position %d of the children holds %r/%r, parents had %r/%r",
                        what, i, r1[i], r2[i], v1[i], v2[i])
                mask.append(r1[i] == v2[i])
            cuts = sum(mask[i] != mask[i + 1] for i in range(L - 1))
            require(cuts == k, "%s: %d cut points instead of %d: child %r", what, cuts, k, r1)
            return tuple(i + 1 for i in range(L - 1) if mask[i] != mask[i + 1])

        def body(ch):
            op = VectorKPointsCrossover(probability=1.0, k=k)
            cuts = one(op, length, 0, "%d-point crossover, %s length %d" % (k, kind, length))
            masks.add(cuts)
            for r in range(reuse - 1):
                one(op, length + 1 + r, 0, "%d-point crossover reused on length %d" % (k, length + 1 + r))
            ctx.seen((length, k, cuts))
        ctx.explore(body)
        if ctx.replay_choices is None and ctx.capped is None:
            want = set(itertools.combinations(range(1, length), k))
            require(masks == want, "%d-point crossover, length %d: cut sets never chosen: %r",
                    k, length, sorted(want - masks)[:5])
    return Case("xo/%s/len%d/k%d/%s/r%d" % (kind, length, k, "cells" if per_cell else "range", reuse), fn)


def seq_case(kind, length, depth, per_cell, tier):
    """any sequence of operators, same operator objects, keeps every vector legal"""
    b = bounds_for(kind, length, per_cell)

    def fn(ctx):
        def body(ch):
            muts = [m for m in mutation_table("quick") if m[1] == kind and (m[3] or 0) <= 2]
            muts = [m for m in muts if m[0] in ("FloatUniformN2", "FloatGaussOne", "IntN2", "IntOne", "BitNFlip2", "BitFlip")]
            ops = [("xo", VectorKPointsCrossover(k=min(2, length - 1)))] + [(m[0], m[2]()) for m in muts]
            pop = [vec(VCLS[kind], [cell_bounds(b, i)[j] for i in range(length)], b, fit=0.0) for j in (0, 1)]
            path = []
            for d in range(depth):
                nm, op = ops[ch.choose(len(ops), "op")]
                path.append(nm)
                if nm == "xo":
                    pop = list(op.apply_operator(pop))
                else:
                    w = ch.choose(2, "who")
                    pop[w] = op.apply_operator([pop[w]])[0]
                for x in pop:
                    legal(kind, x, b, length, "after %r" % (path,))
                check_no_aliasing(pop, "after %r" % (path,))
            ctx.seen((path, [genome(x) for x in pop]))
        ctx.explore(body, bound=5 if tier == "quick" else 7,
                    alphabet={"gauss": (0.5, 1e9), "random": (0.0, 0.75), "uniform": (0.0, 1.0)})
    return Case("seq/%s/len%d/d%d/%s" % (kind, length, depth, per_cell), fn)


def long_mutation_case(name, kind, make, n_max, exact, length, per_cell, bound):
    """longer vectors: legal, at most n cells changed, every cell can change"""
    b = bounds_for(kind, length, per_cell)

    def fn(ctx):
        touched = set()
        starts = start_vectors(kind, b, length, False)

        def body(ch, start):
            ind = vec(VCLS[kind], start, list(b) if isinstance(b, list) else b, fit=7.0)
            what = "%s on %r" % (name, start)
            res = make(probability=1.0).apply_operator([ind])
            require(len(res) == 1 and res[0] is ind, "%s: result is not the given individual", what)
            legal(kind, ind, b, length, what)
            got = ind.get_vector()
            diff = [i for i in range(length) if got[i] != start[i]]
            require(n_max is None or len(diff) <= n_max, "%s: %d cells changed: %r", what, len(diff), got)
            require(exact is None or len(diff) == exact, "%s: %d cells flipped, expected %r: %r", what, len(diff), exact, got)
            touched.update(diff)
            ctx.seen((start, got))
        for start in starts:
            ctx.explore(lambda ch: body(ch, start), bound=bound, alphabet={"int_full": 64, "gauss": (0.5, 1e9, -1e9), "uniform": (0.0, 1.0), "random": (0.0, 0.999999)})
        if exact != 0 and ctx.replay_choices is None and ctx.capped is None:
            require(touched == set(range(length)), "%s: only cells %r of %d can ever change", name, sorted(touched), length)
    return Case("longmut/%s/len%d/%s/b%d" % (name, length, "cells" if per_cell else "range", bound), fn)


def long_xo_case(kind, length, k, bound):
    def fn(ctx):
        firsts = set()

        def body(ch):
            bb = bounds_for("bit", length, False) if kind == "bit" else (-10, 999) if kind == "int" else (-10.0, 999.0)
            one = {"bit": lambda i: 0, "int": lambda i: i, "float": float}[kind]
            v1 = [one(i) for i in range(length)]
            v2 = [1 if kind == "bit" else x + 500 for x in v1]
            a, c = vec(VCLS[kind], v1, bb, fit=1.0), vec(VCLS[kind], v2, bb, fit=2.0)
            what = "%d-point crossover of %s vectors of length %d" % (k, kind, length)
            res = VectorKPointsCrossover(k=k).apply_operator([a, c])
            require(len(res) == 2 and res[0].get_vector() is not res[1].get_vector(), "%s: %r returned", what, res)
            r1, r2 = res[0].get_vector(), res[1].get_vector()
            for x in res:
                legal(kind, x, bb, length, what)
            mask = []
            for i in range(length):
                require((r1[i], r2[i]) in ((v1[i], v2[i]), (v2[i], v1[i])), "%s: position %d of the children holds %r/%r, parents had %r/%r", what, i, r1[i], r2[i], v1[i], v2[i])
                mask.append(r1[i] == v2[i])
            cuts = [i + 1 for i in range(length - 1) if mask[i] != mask[i + 1]]
            require(len(cuts) == k, "%s: cut points %r: child %r", what, cuts, r1)
            firsts.update(cuts)
            ctx.seen(cuts)
        ctx.explore(body, bound=bound, alphabet={"int_full": 64})
        if bound > 1 and ctx.replay_choices is None and ctx.capped is None:
            require(firsts == set(range(1, length)), "%d-point crossover of length %d: never cut at %r", k, length, sorted(set(range(1, length)) - firsts))
    return Case("longxo/%s/len%d/k%d/b%d" % (kind, length, k, bound), fn)


def long_fail_case(n, length, attempts):
    """a user's success test refusing any attempts of an n-point mutation"""
    b = (0, 9)

    def fn(ctx):
        def body(ch):
            tries = []

            def check(old_vec, new_vec):
                tries.append((list(old_vec.get_vector()), list(new_vec.get_vector())))
                return ch.choose(2, "accept") == 1
            start = [i % 10 for i in range(length)]
            ind = vec(IntVector, start, b, fit=1.0)
            res = VectorNPointMutation(n=n, attempts=attempts, success_checker=check).apply_operator([ind])
            require(list(res) == [ind], "failed mutation lost its individual: %r", res)
            accepted = any(l == "accept" and c == 1 for l, c in zip(ch.labels, ch.choices))
            require(len(tries) <= attempts, "%d attempts made, %d allowed", len(tries), attempts)
            require(all(t[0] == start for t in tries), "an attempt did not start from the original vector: %r", tries)
            require(all(sum(x != y for x, y in zip(t[1], start)) <= n for t in tries), "an attempt changed more than %d cells: %r", n, tries)
            legal("int", ind, b, length, "refused mutation")
            want = tries[-1][1] if accepted else start
            require(ind.get_vector() == want, "after %d refused attempts the vector is %r, expected %r", len(tries) - accepted, ind.get_vector(), want)
            require(accepted or len(tries) == attempts, "gave up after %d of %d attempts", len(tries), attempts)
            ctx.seen((start, ind.get_vector(), len(tries)))
        ctx.explore(body, bound=2, alphabet={"int_full": 64, "random": (0.0,)})
    return Case("longfail/n%d/len%d/att%d" % (n, length, attempts), fn)


def multi_fail_case(arity, n, length, attempts):
    """one mutation over several individuals: a refused attempt leaves none of them changed"""
    b = (0, 9)

    def fn(ctx):
        def body(ch):
            tries = []

            def check(old_vec, new_vec):
                tries.append((list(old_vec.get_vector()), list(new_vec.get_vector())))
                return ch.choose(2, "accept") == 1
            starts = [[(i + 3 * j) % 10 for i in range(length)] for j in range(arity)]
            inds = [vec(IntVector, s, b, fit=1.0) for s in starts]
            given = list(inds)
            op = VectorNPointMutation(n=n, arity=arity, attempts=attempts, success_checker=check)
            what = "a mutation of %d individuals at %d points" % (arity, n)
            res = op.apply_operator(inds)
            require(len(res) == arity and all(x is y for x, y in zip(res, given)), "%s returned %r", what, res)
            done = sum(l == "accept" for l in ch.labels) and [c for l, c in zip(ch.labels, ch.choices) if l == "accept"]
            accepted = bool(done) and len(done) >= arity and all(c == 1 for c in done[-arity:]) and tries[-1][0] == starts[-1]
            refusals = sum(c == 0 for c in done or [])
            require(refusals <= attempts, "%s: %d attempts were refused, %d allowed", what, refusals, attempts)
            for x, s in zip(given, starts):
                legal("int", x, b, length, what)
                got = x.get_vector()
                if accepted:
                    require(sum(p != q for p, q in zip(got, s)) <= n, "%s: after %d refused attempts %r became %r", what, refusals, s, got)
                else:
                    require(got == s, "%s failed and changed %r to %r", what, s, got)
            require(accepted or refusals == attempts, "%s gave up after %d of %d attempts", what, refusals, attempts)
            check_no_aliasing(given, what)
            ctx.seen((starts, [x.get_vector() for x in given], len(tries)))
        ctx.explore(body, bound=3, alphabet={"random": (0.0,)})
    return Case("multifail/a%d/n%d/len%d/att%d" % (arity, n, length, attempts), fn)


def cases(tier):
    out = []
    for arity, n, length, att in ((2, 1, 2, 1), (2, 1, 3, 2), (2, 2, 3, 2), (3, 1, 2, 2), (3, 2, 4, 3), (2, 1, 3, 5)):
        out.append(multi_fail_case(arity, n, length, att))
    for cls, n in ((FloatVectorGaussOnePointMutation, 1), (FloatVectorGaussNPointMutation, 1), (FloatVectorGaussNPointMutation, 2)):
        for mu, sigma in ((0.0, 1.0), (0.25, 2.0), (-3.0, 0.125)):
            out.append(noise_case(cls, n, mu, sigma))
    for name, kind, make, n, exact in mutation_table("quick"):
        if n is None or n < 3:
            out.append(several_case(name, kind, make, n, exact, 2))
    for n, length, att in ((2, 3, 3), (3, 5, 2), (2, 12, 5), (1, 4, 8)):
        out.append(long_fail_case(n, length, att))
    for kind in VCLS:
        for length, k in ((8, 1), (8, 3), (9, 8), (17, 2), (20, 7), (33, 32), (40, 11)):
            out.append(long_xo_case(kind, length, k, 2 if length < 10 or k < 3 else 1))
    for name, kind, make, n, exact in mutation_table("thorough"):
        out.append(long_mutation_case(name, kind, make, n, exact, 9, n != 2, 2))
        out.append(long_mutation_case(name, kind, make, n, exact, 33, n == 2, 1))
    for n in (9, 16):
        out.append(long_mutation_case("FloatUniformN%d" % n, "float", lambda n=n, **k: FloatVectorUniformNPointMutation(n=n, **k), n, None, 20, True, 1))
        out.append(long_mutation_case("IntN%d" % n, "int", lambda n=n, **k: IntVectorNPointMutation(n=n, **k), n, None, 20, True, 1))
        out.append(long_mutation_case("BitNFlipAll%d" % n, "bit", lambda n=n, **k: BitStringVectorNFlipMutation(n=n, probability_for_each=1.0, **k), n, n, 20, True, 1))
    lens = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)
    for name, kind, make, n, exact in mutation_table(tier):
        for length in lens:
            for per_cell in (False, True):
                if "Gauss" in name and length * (n or 1) > 6:
                    continue
                full = length <= 2 or (length == 3 and (n or 2) <= 2 and "Gauss" not in name and kind != "float")
                c = mutation_case(name, kind, make, n, exact, length, per_cell, full)
                if c:
                    out.append(c)
    for kind in VCLS:
        for length in ((2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6, 7)):
            for k in range(1, min(length, 5 if tier == "quick" else 6)):
                out.append(xo_case(kind, length, k, length % 2 == 0, 2 if length <= 4 else 1))
        for per_cell in (False, True):
            out.append(seq_case(kind, 2, 3, per_cell, tier))
            out.append(seq_case(kind, 3, 2 if tier == "quick" else 3, per_cell, tier))
    for length in (1, 2, 3):
        for att in (1, 2, 3):
            out.append(failing_case(length, att, att % 2 == 0))
    for name, kind, make, n, exact in mutation_table("quick"):
        out.append(notapplied_case(name, make, lambda kind=kind: [
            vec(VCLS[kind], [cell_bounds(bounds_for(kind, 3, False), i)[0] for i in range(3)], bounds_for(kind, 3, False), fit=3.0)]))
    out.append(notapplied_case("xo", lambda **k: VectorKPointsCrossover(k=1, **k),
                               lambda: [bit([0, 0, 0], 1.0), bit([1, 1, 1], 2.0)]))
    return out
