"""C20: vector individuals against a list model."""
import copy

from .common import *

BOUNDS = {"quick": "all operation sequences of length <=3 over vectors of 0-3 cells (all indices, parts, positions), every kind of vector; one operation on 9-33 cells, two on 11; all random parts and random replacements; all cell/bound combinations of a grid; all invalid constructor arguments of a menu",
          "thorough": "sequences of length <=4"}
ASSUMPTIONS = []

KINDS = {"bit": (BitStringVector, (0, 1), (0, 1)), "int": (IntVector, (-5, 5), (2, -3)), "float": (FloatVector, (-1.0, 1.0), (0.5, -1.0))}


def make(kind, cells, bounds=None):
    cls, b, _ = KINDS[kind]
    return cls(fitness=SimpleFitness(), length=len(cells), bounds=bounds or b, vector=list(cells))


def agree(ind, model, what):
    got = ind.get_vector()
    require(list(got) == model, "%s: the vector is %r, the list %r", what, got, model)
    require(ind.size() == len(model), "%s: size() is %r of %r", what, ind.size(), model)
    require(ind.length == len(model), "%s: length is %r of %r", what, ind.length, model)
    for i in range(-len(model), len(model)):
        require(ind.cell_value(i) == model[i], "%s: cell %d is %r", what, i, ind.cell_value(i))
    for i in range(len(model) + 1):
        for j in range(i, len(model) + 1):
            require(list(ind.get_vector_part(i, j)) == model[i:j], "%s: part %d:%d is %r", what, i, j, ind.get_vector_part(i, j))
    require(list(ind.execute()) == model and list(ind.execute(np.zeros((2, 2)))) == model and list(ind.execute(x=1)) == model, "%s: execution returns %r", what, ind.execute())
    lo, hi = ind.get_bounds() if isinstance(ind.get_bounds(), tuple) else (None, None)
    if lo is not None:
        require(bool(ind.check_if_in_bounds()) == all(lo <= c <= hi for c in model), "%s: check_if_in_bounds() is %r", what, ind.check_if_in_bounds())


def apply_one(ch, ind, model, vals, what):
    """one edit on the individual and on the list; returns (ind, model, text)"""
    n = len(model)
    ops = ["add", "empty", "set_vector", "clone"]
    if n:
        ops += ["set", "replace", "replace_random"]
    op = ch.pick(ops, "op")
    if op == "add":
        v = ch.pick(vals, "value")
        ind.add_cell(v)
        return ind, model + [v], "add %r" % v
    if op == "empty":
        ind.empty_vector()
        return ind, [], "empty"
    if op == "set_vector":
        k = ch.choose(3, "length")
        new = [vals[(i + k) % len(vals)] for i in range(k)]
        arg = list(new)
        ind.set_vector(arg)
        require(arg == new, "%s: set_vector changed its argument", what)
        return ind, new, "set_vector %r" % new
    if op == "clone":
        c = ind.clone()
        require(list(c.get_vector()) == model and type(c) is type(ind) and c.get_bounds() == ind.get_bounds(), "%s: the clone is %r with bounds %r", what, c.get_vector(), c.get_bounds())
        return c, list(model), "clone"
    if op == "set":
        i = ch.choose(n, "index")
        v = ch.pick(vals, "value")
        ind.set_cell_value(i, v)
        m = list(model)
        m[i] = v
        return ind, m, "set %d %r" % (i, v)
    k = 1 + ch.choose(min(n, 2), "part length")
    part = [ch.pick(vals, "value") for _ in range(k)]
    arg = list(part)
    if op == "replace":
        i = ch.choose(n - k + 1, "start")
        r = ind.replace_vector_part(arg, i)
        require(list(r) == model[i:i + k], "%s: replacing at %d returned %r", what, i, r)
        require(arg == part, "%s: replacing changed the inserted part", what)
        return ind, model[:i] + part + model[i + k:], "replace %r at %d" % (part, i)
    r = ind.replace_vector_part_random(arg)
    got = list(ind.get_vector())
    require(arg == part, "%s: random replacing changed the inserted part", what)
    for i in range(n - k + 1):
        if got == model[:i] + part + model[i + k:] and list(r) == model[i:i + k]:
            return ind, got, "replace %r at random" % part
    raise Violation("%s: random replacement of %r by %r gave %r and returned %r" % (what, model, part, got, r))


def history_case(kind, n0, depth, bound=None):
    def fn(ctx):
        vals = KINDS[kind][2]

        def body(ch):
            model = [vals[i % len(vals)] for i in range(n0)]
            given = list(model)
            cls, b, _ = KINDS[kind]
            ind = cls(fitness=SimpleFitness(), length=n0, bounds=b, vector=given)
            other = make(kind, model)
            agree(ind, model, "new %r" % model)
            text = ["%r" % model]
            frozen = []
            for _ in range(depth):
                what = "; ".join(text)
                old = ind
                ind, new, t = apply_one(ch, ind, model, vals, what)
                if t == "clone":
                    frozen.append((old, list(model)))
                model = new
                text.append(t)
                agree(ind, model, "; ".join(text))
                for f, m in frozen:
                    require(list(f.get_vector()) == m and f.size() == len(m) and f.length == len(m), "%s: the cloned original %r became %r", "; ".join(text), m, f.get_vector())
                require(list(other.get_vector()) == [vals[i % len(vals)] for i in range(n0)], "%s: another vector changed to %r", "; ".join(text), other.get_vector())
                ctx.seen((kind, tuple(model), t))
        ctx.explore(body, bound=bound, alphabet={"int_full": 64})
    return Case("history/%s/%d/depth%d" % (kind, n0, depth), fn)


def part_case(kind, n):
    def fn(ctx):
        base = list(range(n))
        got = set()

        def body(ch):
            cls = KINDS[kind][0]
            ind = cls(fitness=SimpleFitness(), length=n, bounds=(0, 100), vector=list(base))
            p = ind.random_vector_part()
            require(list(ind.get_vector()) == base, "taking a random part changed the vector to %r", ind.get_vector())
            require(len(p) > 0 and any(base[i:i + len(p)] == list(p) for i in range(n)), "random part of %r is %r", base, p)
            got.add(tuple(p))
            # the part is the caller's
            p.append(99)
            p[0] = 98
            require(list(ind.get_vector()) == base, "editing a random part changed the vector to %r", ind.get_vector())
            q = ind.get_vector_part(0, n)
            q[0] = 77
            require(list(ind.get_vector()) == base, "editing a part that was read changed the vector to %r", ind.get_vector())
            ctx.seen(tuple(p))
        ctx.explore(body, alphabet={"int_full": 64})
        want = {tuple(base[i:j]) for i in range(n) for j in range(i + 1, n + 1)}
        if ctx.replay_choices is None and ctx.capped is None:
            require(got == want, "random parts of %r: %r never occur", base, want - got)
    return Case("random-part/%s/%d" % (kind, n), fn)


def replace_random_case(kind, n, k):
    def fn(ctx):
        base = list(range(n))
        pos = set()

        def body(ch):
            cls = KINDS[kind][0]
            ind = cls(fitness=SimpleFitness(), length=n, bounds=(0, 100), vector=list(base))
            part = list(range(50, 50 + k))
            r = ind.replace_vector_part_random(list(part))
            v = list(ind.get_vector())
            i = v.index(50)
            pos.add(i)
            require(v == base[:i] + part + base[i + k:] and list(r) == base[i:i + k] and ind.length == n == ind.size(), "random replacement by %r gave %r, returned %r", part, v, r)
            ctx.seen(tuple(v))
        ctx.explore(body, alphabet={"int_full": 64})
        if ctx.replay_choices is None and ctx.capped is None:
            require(pos == set(range(n - k + 1)), "random replacement of %d cells of %d happens only at %r", k, n, sorted(pos))
    return Case("random-replacement/%s/%d/%d" % (kind, n, k), fn)


def bounds_case(kind, n, percell):
    def fn(ctx):
        cls = KINDS[kind][0]
        pairs = [(0, 1), (0, 0), (-1, 2), (2, 3)]

        def body(ch):
            b = [ch.pick(pairs, "bounds") for _ in range(n if percell else 1)]
            cells = [ch.pick((-2, -1, 0, 1, 2, 3, 4), "cell") for _ in range(n)]
            ind = cls(fitness=SimpleFitness(), length=n, bounds=list(b) if percell else b[0], vector=list(cells))
            bb = b if percell else b * n
            want = all(lo <= c <= hi for c, (lo, hi) in zip(cells, bb))
            require(bool(ind.check_if_in_bounds()) == want, "cells %r, bounds %r: check_if_in_bounds() is %r", cells, ind.get_bounds(), ind.check_if_in_bounds())
            require(ind.get_bounds() == (b if percell else b[0]) and list(ind.get_vector()) == cells, "cells %r, bounds %r are read back as %r, %r", cells, b, ind.get_vector(), ind.get_bounds())
            for i in range(n):
                v = ind.get_random_number_in_bounds(i)
                require(bb[i][0] <= v <= bb[i][1], "random value %r for cell %d of bounds %r", v, i, b)
            ctx.seen((tuple(b), want))
        ctx.explore(body, bound=None if n < 3 else 4, alphabet={"uniform": (0.0, 1.0)})
    return Case("bounds/%s/%d/%s" % (kind, n, "cells" if percell else "range"), fn)


def reject_case(kind):
    def fn(ctx):
        cls = KINDS[kind][0]

        def body(ch):
            n = ch.choose(4, "length")
            vk = ch.choose(7, "vector")
            vector = [None, [], [0], [0, 1], [0, 1, 0], (0,) * n, np.zeros(n)][vk]
            bk = ch.choose(7, "bounds")
            bounds = [(0, 1), (0,), (0, 1, 2), [(0, 1)] * n, [(0, 1)] * (n + 1), [(0, 1)] * max(0, n - 1), ()][bk]
            okb = bk == 0 or isinstance(bounds, list) and len(bounds) == n
            okv = vector is None or (isinstance(vector, list) and len(vector) == n)
            try:
                ind = cls(fitness=SimpleFitness(), length=n, bounds=bounds, vector=vector)
            except ValueError:
                require(not (okb and okv), "length %d, bounds %r, vector %r were rejected", n, bounds, vector)
            else:
                require(okb and okv, "length %d, bounds %r, vector %r were accepted", n, bounds, vector)
                require(list(ind.get_vector()) == (vector or []) and ind.length == n, "length %d, vector %r: length %r, vector %r", n, vector, ind.length, ind.get_vector())
            ctx.seen((n, vk, bk))
        ctx.explore(body)
    return Case("rejected/" + kind, fn)


def bitflip_case():
    def fn(ctx):
        def body(ch):
            b = ch.pick(((0, 1), [(0, 1), (2, 3), (0, 1)]), "bounds")
            bb = [b] * 3 if isinstance(b, tuple) else b
            cells = [bb[i][ch.choose(2, "cell")] for i in range(3)]
            ind = BitStringVector(fitness=SimpleFitness(), length=3, bounds=b, vector=list(cells))
            for i in range(3):
                f = ind.bit_flip(i)
                require(f == sum(bb[i]) - cells[i], "flipping cell %d of %r gives %r", i, cells, f)
            require(list(ind.get_vector()) == cells, "reading the flipped value changed the vector")
            ctx.seen((tuple(cells), str(b)))
        ctx.explore(body)
    return Case("bit-flip", fn)


def defaults_case(kind):
    def fn(ctx):
        cls = KINDS[kind][0]

        def body(ch):
            a = cls(fitness=SimpleFitness(), length=2)
            b = cls(fitness=SimpleFitness(), length=2)
            a.add_cell(1)
            a.set_vector([1, 0])
            a.add_cell(1)
            require(list(b.get_vector()) == [] and b.size() == 0, "adding cells to one vector changed another to %r", b.get_vector())
            lo, hi = a.get_bounds()
            require(lo < hi, "default bounds %r", (lo, hi))
            v = b.get_random_number_in_bounds(0)
            require(lo <= v <= hi, "a random value of the default bounds is %r", v)
            ctx.seen((kind, v))
        ctx.explore(body)
    return Case("defaults/" + kind, fn)


def cases(tier):
    q = tier == "quick"
    out = []
    D = 3 if q else 4
    for kind in KINDS:
        for n0 in range(0, 4):
            out.append(history_case(kind, n0, D))
        if q:
            out.append(history_case(kind, 2, 4, 4))
        for n in (9, 12, 17, 33) if q else (9, 12, 17, 33, 50):
            out.append(history_case(kind, n, 1))
            out.append(part_case(kind, n))
            for k in sorted({1, 2, n // 2, n - 1, n}):
                out.append(replace_random_case(kind, n, k))
        out.append(history_case(kind, 11, 2, 4 if q else 6))
        for n in (1, 2, 3, 4):
            out.append(part_case(kind, n))
            for k in range(1, n + 1):
                out.append(replace_random_case(kind, n, k))
        for n in (1, 2) + (() if q else (3,)):
            out.append(bounds_case(kind, n, True))
        out.append(bounds_case(kind, 2, False))
        out.append(bounds_case(kind, 3, True) if q else bounds_case(kind, 3, False))
        out.append(reject_case(kind))
        out.append(defaults_case(kind))
    out.append(bitflip_case())
    return out
