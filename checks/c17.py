"""C17: the bundled primitive functions, on the full product of a boundary grid."""
import warnings

from .common import *
from eckity.base import untyped_functions as U, typed_functions as T
from eckity.base.utils import arity

BOUNDS = {"quick": "full product of a 25-value boundary grid (15 values for 3 arguments, 7 for 4), scalars, arrays and every scalar/array mixture, ints and floats",
          "thorough": "36-value grid (25 for 3 arguments, 12 for 4)"}
ASSUMPTIONS = ["finite real arguments, and infinite ones where arithmetic gives a number; logical functions on truth values as in their documentation"]

up, dn = math.nextafter(0.001, 1), math.nextafter(0.001, 0)


def div(x, y):
    return x / y if abs(y) > 0.001 else 0.0


def log(x):
    return math.log(abs(x)) if abs(x) > 0.001 else 0.0


REAL = {
    "add": (2, lambda x, y: x + y), "sub": (2, lambda x, y: x - y), "mul": (2, lambda x, y: x * y), "div": (2, div),
    "sqrt": (1, lambda x: math.sqrt(abs(x))), "log": (1, log), "abs": (1, abs), "neg": (1, lambda x: -x),
    "inv": (1, lambda x: div(1, x)), "max": (2, max), "min": (2, min), "sin": (1, math.sin), "cos": (1, math.cos), "tan": (1, math.tan),
    "iflte0": (3, lambda x, y, z: y if x <= 0 else z), "ifgt0": (3, lambda x, y, z: y if x > 0 else z),
    "iflte": (4, lambda x, y, z, w: z if x <= y else w), "ifgt": (4, lambda x, y, z, w: z if x > y else w),
    "ite": (3, lambda t, a, b: a if t else b), "argmax": (2, lambda a, b: 0 if a >= b else 1),
}
LOGIC = {"and": (2, lambda x, y: bool(x) and bool(y)), "or": (2, lambda x, y: bool(x) or bool(y)), "not": (1, lambda x: not x),
         "ite": (3, lambda t, a, b: a if t else b)}

FUN = []
for k in ("add sub mul div sqrt log abs neg inv max min sin cos tan iflte0 ifgt0 iflte ifgt").split():
    FUN.append((U, "f_" + k, "real", k))
FUN.append((U, "f_if_then_else", "real", "ite"))
for name, k in (("add2floats", "add"), ("sub2floats", "sub"), ("mul2floats", "mul"), ("div2floats", "div"), ("sqrt_float", "sqrt"),
                ("log_float", "log"), ("abs_float", "abs"), ("neg_float", "neg"), ("inv_float", "inv"), ("max2floats", "max"),
                ("min2floats", "min"), ("sin_float", "sin"), ("cos_float", "cos"), ("tan_float", "tan"), ("iflte0_floats", "iflte0"),
                ("ifgt0_floats", "ifgt0"), ("iflte_floats", "iflte"), ("ifgt_floats", "ifgt"), ("if_then_else", "ite"), ("argmax2floats", "argmax")):
    FUN.append((T, name, "real", k))
for name, k, dom in (("f_and", "and", "int"), ("f_or", "or", "int"), ("f_not", "not", "int"), ("f_and", "and", "bool"), ("f_or", "or", "bool"), ("f_not", "not", "bool")):
    FUN.append((U, name, dom, k))
for name, k, dom in (("and2floats", "and", "float"), ("or2floats", "or", "float"), ("not2floats", "not", "float"),
                     ("and2ints", "and", "anyint"), ("or2ints", "or", "anyint"), ("not2ints", "not", "anyint"), ("if_then_else3ints", "ite", "anyint"),
                     ("and2bools", "and", "bool"), ("or2bools", "or", "bool"), ("not2bools", "not", "bool"), ("if_then_else3bools", "ite", "bool")):
    FUN.append((T, name, dom, k))

G = [0.0, 1.0, -1.0, 0.001, -0.001, up, -up, dn, -dn, 2.5, -2.5, 2, -3, 0, 1e-12]
G2 = G + [-0.0, 0.5, -0.5, 3.25, -7.75, 100.0, -1000.0, 1, -1, 7]
DOM = {"int": [0, 1], "bool": [False, True], "float": [0.0, 1.0, -1.0, 2.5, 0.0005, -0.0], "anyint": [0, 1, 2, -1, 3, 4]}


G3 = G2 + [1e6, -1e6, 0.0009, 0.0011, -0.0009, -0.0011, 1.5, 1e-300, 5, -6, 12.125]


def grid(k, n, tier):
    if n <= 2:
        return G2 if tier == "quick" else G3
    if n == 3:
        return G if tier == "quick" else G2
    return [0.0, 1.0, -1.0, 0.001, 2.5, -2, up] if tier == "quick" else G[:12]


def same(got, want):
    got = float(got)
    want = float(want)
    return got == want or (math.isfinite(want) and abs(got - want) <= 1e-12 * max(1.0, abs(want)))


def fun_case(mod, name, dom, key):
    def fn(ctx):
        f = getattr(mod, name)
        n, ref = (REAL if dom == "real" else LOGIC)[key]
        g = grid(key, n, ctx.tier) if dom == "real" else DOM[dom]
        lab = "%s.%s" % (mod.__name__.split(".")[-1], name)

        def body(ch):
            how = ch.choose(2 + 2 ** n - 2 + 1, "scalar, array, mixture or kept")
            require(arity(f) == n, "%s takes %d arguments, arity() says %r", lab, n, arity(f))
            tuples = list(itertools.product(g, repeat=n))
            with warnings.catch_warnings():
                if key in ("div", "inv", "log", "sqrt"):
                    warnings.simplefilter("error")
                if how == 0:      # scalars, Python and numpy
                    for t in tuples:
                        for conv in ((lambda v: v), (lambda v: np.asarray(v)[()])):
                            got = f(*[conv(v) for v in t])
                            require(np.ndim(got) == 0 and same(got, ref(*t)), "%s%r gave %r, documented value %r", lab, t, got, ref(*t))
                        ctx.step()
                        ctx.seen((lab, t))
                elif how == 1:    # arrays
                    cols = [np.array([t[i] for t in tuples], dtype=None if dom != "real" else float) for i in range(n)]
                    keep = [c.copy() for c in cols]
                    got = np.asarray(f(*cols))
                    require(got.shape == (len(tuples),), "%s on arrays of %d rows gave shape %r", lab, len(tuples), got.shape)
                    for t, v in zip(tuples, got):
                        require(same(v, ref(*[float(x) if dom == "real" else x for x in t])), "%s on arrays: row %r gave %r, documented value %r", lab, t, v, ref(*t))
                        ctx.step()
                    require(all(np.array_equal(a, b) for a, b in zip(cols, keep)), "%s changed its argument arrays", lab)
                    got2 = np.asarray(f(*cols))
                    require(np.array_equal(np.asarray(got), got2), "%s gives different values the second time", lab)
                elif how == 2 + 2 ** n - 2:   # two-dimensional and empty arrays
                    cols = [np.array([t[i] for t in tuples[:12]] or [0.0], dtype=None if dom != "real" else float) for i in range(n)]
                    m = len(cols[0]) // 2 * 2
                    c2 = [c[:m].reshape(2, -1) for c in cols]
                    got = np.asarray(f(*c2))
                    one = np.asarray(f(*[c[:m] for c in cols]))
                    require(got.shape == c2[0].shape and np.array_equal(got.ravel(), one), "%s treats a matrix differently from its elements", lab)
                else:             # mixtures of scalars and arrays
                    mask = how - 1
                    sc = [i for i in range(n) if mask >> i & 1]
                    ar = [i for i in range(n) if not mask >> i & 1]
                    rows = list(itertools.product(g, repeat=len(ar)))
                    for s in itertools.product(g, repeat=len(sc)):
                        args = [None] * n
                        for i, v in zip(sc, s):
                            args[i] = v
                        for k, i in enumerate(ar):
                            args[i] = np.array([r[k] for r in rows], dtype=None if dom != "real" else float)
                        got = np.asarray(f(*args))
                        require(got.shape == (len(rows),), "%s with scalar arguments %r gave shape %r for %d rows", lab, sc, got.shape, len(rows))
                        for r, v in zip(rows, got):
                            t = [None] * n
                            for i, x in zip(sc, s):
                                t[i] = x
                            for i, x in zip(ar, r):
                                t[i] = x
                            require(same(v, ref(*t)), "%s with scalar arguments %r: %r gave %r, documented value %r", lab, sc, t, v, ref(*t))
                        ctx.step(len(rows))
        ctx.explore(body, rng=False)
    return Case("%s.%s/%s" % (mod.__name__.split(".")[-1], name, dom), fn)


INFINITE = ("add", "sub", "mul", "div", "abs", "neg", "max", "min", "sqrt", "iflte0", "ifgt0", "iflte", "ifgt")


def infinite_case(mod, name, key):
    """infinite and extremely large or small arguments, wherever the documented value is a number"""
    def fn(ctx):
        f = getattr(mod, name)
        n, ref = REAL[key]
        g = [INF, -INF, 1e308, -1e308, 1.5, 0.0, 5e-324] if n < 4 else [INF, -INF, 1.5, -1e308]
        lab = "%s.%s" % (mod.__name__.split(".")[-1], name)

        def body(ch):
            t = tuple(ch.pick(g, "argument") for _ in range(n))
            want = float(ref(*t))
            if math.isnan(want):
                raise Skip()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for got in (f(*t), f(*[np.array([v, 1.0]) for v in t])[0]):
                    require(float(got) == want or (math.isfinite(want) and abs(float(got) - want) <= 1e-12 * abs(want)), "%s%r gave %r, documented value %r", lab, t, got, want)
            ctx.seen((lab, t))
        ctx.explore(body, rng=False)
    return Case("infinite/%s" % lab_of(mod, name), fn)


def lab_of(mod, name):
    return "%s.%s" % (mod.__name__.split(".")[-1], name)


def exported_case():
    """every exported function is one of those above, and arity() counts"""
    def fn(ctx):
        def a0():
            return 0

        def a5(a, b, c, d, e):
            return 0

        def body(ch):
            require(arity(a0) == 0 and arity(a5) == 5, "arity() miscounts")
            for mod in (U, T):
                for n in mod.__all__:
                    require(callable(getattr(mod, n)), "%s is exported but not callable", n)
                    ctx.seen(n)
        ctx.explore(body, rng=False)
    return Case("exported", fn)


def cases(tier):
    return [fun_case(*f) for f in FUN] + [infinite_case(m, n, k) for m, n, d, k in FUN if k in INFINITE and d == "real"] + [exported_case()]
