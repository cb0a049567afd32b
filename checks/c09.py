"""C09: execution, printing, size and depth of trees."""
import copy

from .common import *
from . import gp
from eckity.genetic_encodings.gp.tree.utils import create_terminal_set, generate_args
import eckity.base.untyped_functions as U
import eckity.base.typed_functions as TF

BOUNDS = {"quick": "all expressions of up to 8 nodes (6 with ternary or typed functions) over non-commutative unary/binary/ternary functions, variables in several orders and integer/float/negative/boolean constants, typed and untyped, executed with scalar and array keywords and with float/int matrices of 0, 1 and 3 rows; chains of up to 40, combs of 33, full trees of 127 nodes, functions of up to 9 arguments; terminals and arguments made from matrices of 1-101 columns; the bundled functions",
          "thorough": "expressions of up to 9 nodes (7 with ternary or typed functions)"}
ASSUMPTIONS = ["results are compared exactly (same operations in the same order)"]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def tree_of(spec, fs, ts, root_type=None, erc=None):
    t = Tree(function_set=list(fs), terminal_set=copy.copy(ts), root_type=root_type, erc_range=erc)
    t.tree = gp.build_nodes(spec)
    return t


def check_tree(ctx, spec, fs, ts, root_type, envs, mats):
    t = tree_of(spec, fs, ts, root_type)
    p = gp.parse(t.tree, "enumerated tree")
    names = [v for v in ts if isinstance(v, str)]
    before = [node_sym(n) for n in t.tree]
    what = "tree %r" % (before,)
    require(t.size() == len(before), "%s: size() is %r", what, t.size())
    require(t.depth() == gp.depth(p), "%s: depth() is %r, not %d", what, t.depth(), gp.depth(p))
    ns = {f.__name__: f for f in fs}
    text = str(t)
    try:
        exec(text, ns)
    except Exception as e:
        raise Violation("%s: printed as %r, which is not Python: %s" % (what, text, e))
    fn = [v for k, v in ns.items() if callable(v) and k.startswith("func_")]
    require(len(fn) == 1, "%s: printed form %r does not define one function", what, text)
    for env in envs:
        env = {k: v for k, v in env.items() if k in names}
        keep = {k: np.copy(v) for k, v in env.items()}
        want = gp.evaluate(p, env)
        got = t.execute(**env)
        require(same(got, want), "%s executed with %r gives %r, the expression is %r", what, env, got, want)
        again = t.execute(**dict(reversed(list(env.items()))))
        require(same(again, want), "%s executed again with %r gives %r, first %r", what, env, again, want)
        require(all(same(env[k], keep[k]) for k in env), "%s: execution changed its inputs", what)
        pr = fn[0](**env)
        require(same(pr, want), "%s is printed as %r, which gives %r instead of %r with %r", what, text, pr, want, env)
        ctx.step()
    for X in mats:
        keep = X.copy()
        got = t.execute(X)
        require(got is not None and np.shape(got) == (X.shape[0],), "%s executed on a %r matrix gives shape %r", what, X.shape, np.shape(got))
        for r in range(X.shape[0]):
            # row by row
            env = {"x%d" % i: X[r, i] for i in range(X.shape[1])}
            want = gp.evaluate(p, env)
            require(bool(got[r] == want) or want != want, "%s: row %r gives %r, the expression is %r", what, X[r], got[r], want)
        require(np.array_equal(X, keep) and same(t.execute(X), got), "%s: executing on a matrix changed it or is not repeatable", what)
        ctx.step()
    require([node_sym(n) for n in t.tree] == before and t.size() == len(before), "%s: execution or printing changed the tree to %r", what, t.tree)
    require(list(t.terminal_set) == list(ts), "%s: execution changed the terminal set", what)


UT = [("x0", None), ("x1", None), (2, None), (-0.5, None)]
MATS = [np.array([[1.0, 10.0], [-3.0, 0.25], [7.0, 5.0]]), np.array([[3, -4]]), np.array([[1, 2], [5, 9], [-6, 0]])]


def enum_case(name, fs, terms, ts, root, size, envs, mats, part, parts):
    def fn(ctx):
        specs = gp.enum_trees(fs, terms, size, root)[part::parts]

        def body(ch):
            spec = ch.pick(specs, "tree")
            check_tree(ctx, spec, fs, ts, root, envs, mats)
            ctx.seen((name, [(s[0], getattr(s[1], "__name__", s[1])) for s in spec]))
        if specs:
            ctx.explore(body, rng=False)
    return Case("trees/%s/size%d/%d" % (name, size, part), fn)


ENVS_U = [{"x0": 3, "x1": 7.5}, {"x0": np.array([1.0, -2.0]), "x1": np.array([0.0, 4.0])}, {"x0": 2.0, "x1": np.array([1.0, 5.0, 6.0])}]


def f4(a, b, c, d):
    return 1000 * a + 100 * b + 10 * c + d


def f5(a, b, c, d, e):
    return a - 2 * b + 3 * c - 5 * d + 7 * e


def f6(a, b, c, d, e, f):
    return a - 2 * b + 3 * c - 5 * d + 7 * e - 11 * f


def f9(a, b, c, d, e, f, g, h, i):
    return a - 2 * b + 3 * c - 5 * d + 7 * e - 11 * f + 13 * g - 17 * h + 19 * i


def deep_specs():
    """(name, spec) of larger trees: chains, combs, full trees, many arguments"""
    T = lambda k: ("t",) + UT[k % 4]
    for n in (1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40):
        for k in range(4):
            yield "chain%d" % n, [("f", gp.neg)] * n + [T(k)]
    for n in (5, 9, 16, 33):
        for f in (gp.sub, gp.mul2):
            for k in range(4):
                yield "left%d" % n, [("f", f)] * n + [T(k + j) for j in range(n + 1)]
                yield "right%d" % n, [x for j in range(n) for x in (("f", f), T(k + j))] + [T(k)]

    def full(d, k, fs):
        if d == 0:
            return [T(k[0])] if not k.__setitem__(0, k[0] + 1) else None
        f = fs[d % len(fs)]
        return [("f", f)] + [x for _ in range(gp.n_args(f)) for x in full(d - 1, k, fs)]
    for d in (3, 4, 5, 6):
        for k in range(4):
            yield "full%d" % d, full(d, [k], (gp.sub, gp.mul2))
            if d < 6:
                yield "mixed%d" % d, full(d, [k], (gp.sub, gp.neg, gp.ite))
    for d in (1, 2, 3):
        for k in range(4):
            yield "four%d" % d, full(d, [k], (f4,))
            yield "five%d" % d, full(d, [k], (f5, f4))
            if d < 3:
                yield "six%d" % d, full(d, [k], (f6, f9))
                yield "nine%d" % d, full(d, [k], (f9, f6))
    # one deep branch at every place of a wide function
    for i in range(5):
        for n in (1, 4, 12):
            yield "branch%d/%d" % (i, n), [("f", f5)] + [x for j in range(5) for x in ([("f", gp.neg)] * n + [T(j)] if j == i else [T(j)])]


def deep_case():
    def fn(ctx):
        specs = list(deep_specs())

        def body(ch):
            nm, spec = ch.pick(specs, "tree")
            check_tree(ctx, spec, [gp.sub, gp.neg, gp.mul2, gp.ite, f4, f5, f6, f9], ["x0", "x1", 2, -0.5], None, ENVS_U, MATS)
            ctx.seen((nm, len(spec)))
        ctx.explore(body, rng=False)
    return Case("deep", fn)


def wide_case(order):
    """feature i of the matrix for variable x<i>, with more than ten features and terminals in any order"""
    def fn(ctx):
        n = 12
        names = ["x%d" % i for i in range(n)]
        if order == "reversed":
            names.reverse()
        elif order == "rotated":
            names = names[5:] + names[:5]
        elif order == "text":
            names.sort()

        def body(ch):
            a = ch.choose(n, "first")
            b = ch.choose(n, "second")
            t = tree_of([("f", gp.sub), ("t", "x%d" % a, None), ("t", "x%d" % b, None)], [gp.sub], names)
            X = np.array([[float(10 ** (i % 6) + i * 0.5 + 1000 * r) for i in range(n)] for r in range(2)])
            require(same(t.execute(X), X[:, a] - X[:, b]), "x%d - x%d on a matrix with terminals %r gives %r", a, b, names, t.execute(X))
            kw = {"x%d" % i: float(i) for i in reversed(range(n))}
            require(t.execute(**kw) == float(a - b), "x%d - x%d with keywords gives %r", a, b, t.execute(**kw))
            ctx.seen((a, b))
        ctx.explore(body, rng=False)
    return Case("features/" + order, fn)


NAMES = ("pos", "self", "args", "kwargs", "node", "X", "res", "kw", "i", "tree", "arglist", "reshape", "function", "n_args", "terminal_set", "x", "x1", "T", "_", "None_", "population", "cls", "root")


def names_case():
    """variables may have any name"""
    def fn(ctx):
        def body(ch):
            a = ch.pick(NAMES, "name")
            b = ch.pick(NAMES, "other name")
            if a == b:
                raise Skip()
            ts = [a, 2, b]
            for spec in ([("t", a, None)], [("f", gp.sub), ("t", a, None), ("t", b, None)], [("f", gp.sub), ("t", b, None), ("f", gp.neg), ("f", gp.sub), ("t", a, None), ("t", 2, None)]):
                check_tree(ctx, spec, [gp.sub, gp.neg], ts, None, [{a: 3.0, b: 0.5}, {b: np.array([1.0, 2.0]), a: np.array([-1.0, 0.25])}], [])
            ctx.seen((a, b))
        ctx.explore(body, rng=False)
    return Case("names", fn)


def errors_case():
    def fn(ctx):
        fs = [gp.sub, gp.neg]
        sets = [["x0", "x1"], ["x0", "x1", 3, 0.5]]

        def body(ch):
            ts = ch.pick(sets, "terminals")
            names = ["x0", "x1"]
            spec = ch.pick([s for k in (1, 3) for s in gp.enum_trees(fs, [("x0", None), ("x1", None), (3, None)], k)], "tree")
            t = tree_of(spec, fs, ts)
            env = {"x0": 1, "x1": 2}
            drop = ch.choose(4, "missing")
            extra = ch.choose(2, "extra")
            given = {k: v for i, (k, v) in enumerate(env.items()) if not drop >> i & 1}
            if extra:
                given["z"] = 0
            ok = drop == 0 and not extra
            try:
                t.execute(**given)
                got = True
            except ValueError:
                got = False
            require(got == ok, "%r executed with %r over terminals %r: %s", spec, given, ts, "accepted" if got else "rejected")
            for bad in (np.zeros((2, 1)), np.zeros((2, 3))):
                try:
                    r = t.execute(bad)
                except ValueError:
                    continue
                raise Violation("%r over %r accepted a matrix with %d columns: %r" % (spec, ts, bad.shape[1], r))
            for bad in (5, "x", [1, 2], np.zeros(3), None):
                try:
                    r = t.execute(bad)
                except ValueError:
                    continue
                raise Violation("%r accepted the argument %r: %r" % (spec, bad, r))
            e = tree_of([], fs, ts)
            for f in (lambda: e.execute(**env), lambda: e.execute(np.zeros((2, 2)))):
                try:
                    f()
                except ValueError:
                    continue
                raise Violation("an empty tree was executed")
            t.empty_tree()
            require(t.size() == 0, "an emptied tree has size %r", t.size())
            try:
                t.execute(**env)
            except ValueError:
                pass
            else:
                raise Violation("an emptied tree was executed")
            ctx.seen((spec[0][0], drop, extra))
        ctx.explore(body, rng=False)
    return Case("rejected", fn)


def const_case():
    """a tree without variables yields its constant for every row"""
    def fn(ctx):
        consts = [0, 1, -1, 2.5, -0.25, 10 ** 6, True, 1e-9, np.float64(1.5), 1 / 3, 0.1 + 0.2, -1234567.890625, 1e22, 5e-324, 2 ** 70, False]

        def body(ch):
            c = ch.pick(consts, "constant")
            k = ch.choose(6, "shape")
            if k > 2 and c == 2 ** 70:
                raise Skip()   # no number of NumPy's
            fs = [gp.sub, gp.neg, U.f_div, U.f_iflte0, U.f_log]
            spec = [[("t", c, None)], [("f", gp.neg), ("t", 2.5, None)], [("f", gp.sub), ("t", c, None), ("t", 0.5, None)],
                    # bundled functions give arrays without dimensions
                    [("f", U.f_div), ("t", c, None), ("t", 0.5, None)], [("f", U.f_iflte0), ("t", -1, None), ("t", c, None), ("t", 7, None)],
                    [("f", U.f_log), ("t", 1.0, None)]][k]
            want = [c, -2.5, c - 0.5, c / 0.5, c, 0.0][k]
            t = tree_of(spec, fs, ["x0", "x1", c])
            for X in (np.zeros((0, 2)), np.ones((1, 2)), np.array([[1, 2], [3, 4], [5, 6]]), np.array([[1.5, 2.0]] * 4)):
                r = t.execute(X)
                require(np.shape(r) == (X.shape[0],) and all(v == want for v in r), "constant tree %r on %r (%s) gives %r", spec, X, X.dtype, r)
            v = t.execute(x0=1, x1=2)
            require(v == want, "constant tree %r gives %r", spec, v)
            ns = {f.__name__: f for f in fs}
            exec(str(t), ns)
            f = [v for n, v in ns.items() if n.startswith("func_")][0]
            require(f(x0=1, x1=2) == want, "constant tree with value %r is printed as %s", want, t)
            ctx.seen((k, repr(c)))
        ctx.explore(body, rng=False)
    return Case("constants", fn)


def varied_case(ops, bound):
    """trees keep computing what they denote while operators edit them"""
    def fn(ctx):
        fs = [gp.sub, gp.neg]
        ts = ["x0", "x1", 2]
        specs = gp.enum_trees(fs, [("x0", None), ("x1", None), (2, None)], 3)

        def body(ch):
            a, b = (tree_of(ch.pick(specs, "tree"), fs, ts, erc=(-1.0, 1.0)) for _ in range(2))
            X = MATS[0]
            for t in (a, b):
                t.execute(X)
                str(t)
            for o in ops:
                if o == "x":
                    SubtreeCrossover().apply_operator([a, b])
                elif o == "m":
                    SubtreeMutation(init_depth=(1, 1)).apply_operator([a])
                elif o == "e":
                    ERCMutation().apply_operator([a])
                elif o == "c":
                    a = a.clone()
                for t in (a, b):
                    p = gp.parse(t.tree, "after " + ops)
                    want = [gp.evaluate(p, {"x%d" % i: v for i, v in enumerate(row)}) for row in X]
                    require(same(t.execute(X), np.array(want, dtype=float)), "after %s, tree %r gives %r, the expression is %r", ops, t.tree, t.execute(X), want)
                    require(t.size() == len(t.tree) and t.depth() == gp.depth(p), "after %s, tree %r: size %r depth %r", ops, t.tree, t.size(), t.depth())
                    ns = {f.__name__: f for f in fs}
                    exec(str(t), ns)
                    f = [v for k, v in ns.items() if k.startswith("func_")][0]
                    require(f(x0=3.0, x1=4.0) == t.execute(x0=3.0, x1=4.0), "after %s, tree %r is printed as %s", ops, t.tree, t)
            ctx.seen(([node_sym(n) for n in a.tree], [node_sym(n) for n in b.tree]))
        ctx.explore(body, bound=bound, alphabet={"random": (0.0,), "uniform": (0.0, 1.0), "gauss": (1.0, -0.5)})
    return Case("edited/" + ops, fn)


def bundled_case(kind):
    """every bundled function at the root and below another one"""
    mod = U if kind == "untyped" else TF

    def fn(ctx):
        fns = [v for k, v in sorted(vars(mod).items()) if callable(v) and getattr(v, "__module__", "") == mod.__name__ and not k.startswith("_")]
        if not fns:
            raise HarnessError("no functions in %s" % mod)

        def body(ch):
            f = ch.pick(fns, "root")
            n = gp.n_args(f)
            if kind == "untyped":
                names = ["x%d" % i for i in range(max(n, 1))]
                spec = [("f", f)] + [("t", names[i], None) for i in range(n)]
                t = tree_of(spec, [f], names)
                for vals in ([0.25, 3.0, -2.0, 0.5], [1.0, 1.0, 0.0, 2.0], [-4.0, 0.001, 5.0, 1.0]):
                    env = dict(zip(names, [np.array([v, v + 1]) for v in vals]))
                    env = {k: env[k] for k in names}
                    try:
                        f(*[env[k] for k in names[:n]])
                    except TypeError:  # a function of truth values
                        env = {k: v > 0.5 for k, v in env.items()}
                    require(same(t.execute(**env), f(*[env[k] for k in names[:n]])), "%s(%r) executes as %r", f.__name__, env, t.execute(**env))
                # a swapped copy: arguments in their places
                if n > 1:
                    s2 = [("f", f)] + [("t", names[n - 1 - i], None) for i in range(n)]
                    t2 = tree_of(s2, [f], names)
                    require(same(t2.execute(**env), f(*[env[k] for k in reversed(names[:n])])), "%s with reversed arguments executes as %r", f.__name__, t2.execute(**env))
            else:
                at = gp.arg_types(f)
                ts = {"x%d" % i: ty for i, ty in enumerate(at)}
                spec = [("f", f)] + [("t", "x%d" % i, ty) for i, ty in enumerate(at)]
                t = tree_of(spec, [f], ts, root_type=gp.ret_type(f))
                if not all(ty in (float, int, bool) for ty in at):
                    raise Skip
                samples = {float: (0.25, -3.0, 2.0), int: (2, -1, 5), bool: (True, False, True)}
                for k in range(3):
                    env = {"x%d" % i: samples[ty][(k + i) % 3] for i, ty in enumerate(at)}
                    require(same(t.execute(**env), f(*[env["x%d" % i] for i in range(n)])), "%s(%r) executes as %r", f.__name__, env, t.execute(**env))
            ctx.seen(f.__name__)
        ctx.explore(body, rng=False)
    return Case("bundled/" + kind, fn)


def from_data_case():
    """terminals and keyword arguments made from a data matrix: one variable per column, the same column"""
    def fn(ctx):
        def body(ch):
            n = ch.pick((1, 2, 3, 9, 10, 11, 12, 101), "columns")
            rows = ch.pick((1, 2, 5), "rows")
            dt = ch.pick((float, np.float32, int, np.int32, bool), "dtype")
            order = ch.pick("CF", "layout")
            X = np.asarray(np.arange(n * rows).reshape(rows, n) % 7 + (0.5 if dt in (float, np.float32) else 0))
            X = np.array(X % 2 == 0 if dt is bool else X, dtype=dt, order=order)
            keep = X.copy()
            names = create_terminal_set(X)
            require(list(names) == ["x%d" % i for i in range(n)], "the terminals of a matrix with %d columns are %r", n, names)
            types = create_terminal_set(X, typed=True)
            ty = bool if dt is bool else int if dt in (int, np.int32) else float
            require(dict(types) == {x: ty for x in names}, "the typed terminals of a %s matrix are %r", X.dtype, types)
            args = generate_args(X)
            require(sorted(args) == sorted(names) and all(np.array_equal(args["x%d" % i], X[:, i]) for i in range(n)), "the arguments made from %r are %r", X, args)
            for i in {0, 1, n // 2, n - 2, n - 1} & set(range(n)):
                t = tree_of([("t", "x%d" % i, None)], [gp.sub], names)
                for got in (t.execute(**args), t.execute(X)):
                    require(np.array_equal(got, X[:, i]), "x%d over the terminals of a matrix of %d columns executes as %r, the column is %r", i, n, got, X[:, i])
                t = tree_of([("t", "x%d" % i, ty)], [{float: gp.t_sub, int: gp.t_inc, bool: gp.t_not}[ty]], types, root_type=ty)
                got = t.execute(**args)
                require(np.array_equal(got, X[:, i]), "x%d over typed terminals executes as %r, the column is %r", i, got, X[:, i])
            require(np.array_equal(X, keep), "making terminals changed the data")
            ctx.seen((n, rows, dt.__name__, order))
        ctx.explore(body, rng=False)
    return Case("terminals-from-data", fn)


TFS = [gp.t_sub, gp.t_neg, gp.t_lt, gp.t_not, gp.t_pick]
TTS = {"x0": float, "x1": float, "b": bool, 1.5: float, True: bool}
TFS2 = [gp.t_scale, gp.t_inc, gp.t_floor, gp.t_sub]
TTS2 = {"n": int, "x0": float, 3: int}


def cases(tier):
    q = tier == "quick"
    out = []
    big = 8 if q else 9
    for size in range(1, big + 1):
        parts = 1 if size < 5 else 8 if size < 9 else 24
        terms = UT if size < 6 else UT[:3]
        for part in range(parts):
            out.append(enum_case("binary", [gp.sub, gp.neg] if size > 7 else [gp.sub, gp.mul2, gp.neg], terms, ["x0", "x1", 2, -0.5], None, size, ENVS_U, MATS, part, parts))
    for size in range(1, (6 if q else 7) + 1):
        for part in range(4 if size >= 4 else 1):
            out.append(enum_case("ternary", [gp.ite, gp.mul2], UT[:3], [-0.5, "x1", 2, "x0"], None, size, ENVS_U, MATS, part, 4 if size >= 4 else 1))
    tt = [("x0", float), ("x1", float), ("b", bool), (1.5, float), (True, bool)]
    envs = [{"x0": 1.0, "x1": 2.0, "b": True}, {"x0": 3.0, "x1": -2.5, "b": False}, {"x0": 1.5, "x1": 1.5, "b": False}]
    for root in (float, bool):
        for size in range(1, (6 if q else 7) + 1):
            for part in range(2 if size >= 4 else 1):
                out.append(enum_case("typed-%s" % root.__name__, TFS, tt, TTS, root, size, envs, [], part, 2 if size >= 4 else 1))
    tt2 = [("n", int), ("x0", float), (3, int)]
    envs2 = [{"n": 2, "x0": 1.5}, {"n": -1, "x0": 4.0}]
    for root in (float, int):
        for size in range(1, (6 if q else 7) + 1):
            out.append(enum_case("typed-int-%s" % root.__name__, TFS2, tt2, TTS2, root, size, envs2, [], 0, 1))
    for o in ("plain", "reversed", "rotated", "text"):
        out.append(wide_case(o))
    out.append(deep_case())
    out.append(names_case())
    out.append(errors_case())
    out.append(const_case())
    out.append(from_data_case())
    for ops in ("x", "m", "e", "xe", "cx", "xm") + (() if q else ("xme", "mxe", "cxm", "exm")):
        out.append(varied_case(ops, 4 if q else 5))
    for k in ("untyped", "typed"):
        out.append(bundled_case(k))
    return out
