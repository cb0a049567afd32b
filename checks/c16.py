"""C16: the scikit-learn wrappers."""
import copy
import math
import pickle
import random

from sklearn.base import clone
from sklearn.exceptions import NotFittedError
from sklearn.metrics import mean_squared_error

from .common import *
from . import gp
from eckity.base.types import t_argmax
from eckity.base.typed_functions import add2floats, argmax2floats, sub2floats
from eckity.creators import FullCreator, GrowCreator, HalfCreator
from eckity.sklearn_compatible import ClassificationEvaluator, SKClassifier, SKRegressor
from eckity.sklearn_compatible.regression_evaluator import RegressionEvaluator

BOUNDS = {
    "quick": "all sequences of 4 operations (fit and predict on two data sets, clone, deep copy, pickle, set a parameter) over up to 3 regressors or classifiers with each labelling method; all trees of up to 4 nodes (5 with an argmax or softmax root) for predictions; all outputs of a grid for the labelling rules with 2-25 classes",
    "thorough": "sequences of 5 operations, trees of up to 5 nodes"}
ASSUMPTIONS = ["each estimator is fitted at most once (an algorithm that has ended has released its workers)",
               "a copy of a fitted estimator starts its fitting from the copied population, so its result is not compared with a new estimator's"]
BUDGET = {"quick": 300, "thorough": 780}


def softmax_pick(a: float, b: float) -> t_argmax:
    ea, eb = np.exp(np.clip(a, -30, 30)), np.exp(np.clip(b, -30, 30))
    return np.where(eb / (ea + eb) > 0.5, 1, 0)


def counting(metric):
    """a user's metric that records what it is asked"""
    def m(y_true, y_pred):
        m.calls.append((np.array(y_true), np.array(y_pred)))
        return metric(y_true, y_pred)
    m.calls = []
    return m


def mae(y_true, y_pred):
    return float(np.mean(np.abs(np.asarray(y_true) - np.asarray(y_pred))))


def acc(y_true, y_pred):
    return float(np.mean(np.asarray(y_true) == np.asarray(y_pred)))


X1 = np.array([[0.1, 1.0], [2.0, -1.0], [-3.0, 1 / 3], [1.5, 1.7]])
X2 = np.array([[1.0, 0.0], [-1.0, 2.0], [4.0, 4.0]])
YR = {1: X1[:, 0] - X1[:, 1] + np.array([0.1, 1 / 3, 2.0 ** 24 + 1, 1e-9]), 2: -X2[:, 0]}
YC = {1: np.array([0, 1, 0, 1]), 2: np.array([1, 0, 1])}
DATA = {1: X1, 2: X2}
XP = [np.array([[0.1, -0.5]]), np.array([[1.0, 2.0], [100 / 3, 4.0], [-1.0, 0.7], [1.0, 2.0], [0.0, 0.0]])]

UT = dict(function_set=[gp.sub, gp.neg], terminal_set=["x0", "x1", 1.0])
TT = {"x0": float, "x1": float, 1.0: float}

KINDS = {
    "regressor": (SKRegressor, lambda m: RegressionEvaluator(metric=m), lambda: HalfCreator(init_depth=(1, 2), **UT), False, mae, None),
    "sigmoid": (SKClassifier, lambda m: ClassificationEvaluator(metric=m), lambda: GrowCreator(init_depth=(1, 2), **UT), True, acc, 2),
    "sigmoid3": (SKClassifier, lambda m: ClassificationEvaluator(metric=m, n_classes=3, clf_method="sigmoid"), lambda: GrowCreator(init_depth=(1, 2), **UT), True, acc, 3),
    "argmax": (SKClassifier, lambda m: ClassificationEvaluator(metric=m, clf_method="argmax"), lambda: FullCreator(init_depth=(2, 2), root_type=t_argmax, function_set=[add2floats, sub2floats, argmax2floats], terminal_set=TT), True, acc, None),
    "softmax": (SKClassifier, lambda m: ClassificationEvaluator(metric=m, clf_method="softmax"), lambda: FullCreator(init_depth=(2, 2), root_type=t_argmax, function_set=[add2floats, sub2floats, softmax_pick], terminal_set=TT), True, acc, None),
}


def build(kind, metric, seed=5, gens=1):
    cls, ev, cr, hib, _, _ = KINDS[kind]
    sp = Subpopulation(evaluator=ev(metric), creators=cr(), operators_sequence=[SubtreeCrossover(probability=.8), SubtreeMutation(probability=.5)] if kind not in ("argmax", "softmax") else [SubtreeCrossover(probability=.8)],
                       selection_methods=[(TournamentSelection(tournament_size=2, higher_is_better=hib), 1)], population_size=4, higher_is_better=hib)
    return cls(SimpleEvolution(sp, max_generation=gens, random_seed=seed, max_workers=1))


def expected(kind, nodes, X, n_classes):
    """reference prediction, row by row"""
    p = gp.parse(nodes, "the best individual", t_argmax if kind in ("argmax", "softmax") else None)
    out = []
    for row in X:
        v = gp.evaluate(p, {"x%d" % i: float(c) for i, c in enumerate(row)})
        if kind == "regressor":
            out.append(float(v))
        elif kind.startswith("sigmoid"):
            out.append(label(float(v), n_classes))
        else:
            out.append(int(v))
    return out


def label(v, n):
    s = 1 / (1 + math.exp(-v)) if v > -700 else 0.0
    return sum(1 for k in range(1, n) if s >= k / n)


def same(got, want):
    got = list(np.asarray(got).ravel())
    return len(got) == len(want) and all(g == w or abs(g - w) < 1e-9 for g, w in zip(got, want))


def refused(est, X):
    try:
        r = est.predict(X)
    except NotFittedError:
        return True
    raise Violation("an estimator that was not fitted predicts %r" % (r,))


class E:
    """model of one estimator"""

    def __init__(self, est, gens, clean, metric):
        self.est, self.gens, self.clean, self.metric = est, gens, clean, metric
        self.nodes = None        # tree of the best individual once fitted
        self.score = None
        self.data = None


def history_case(kind, depth, first):
    cls, ev, cr, hib, base, ncls = KINDS[kind]
    Y = YR if kind == "regressor" else YC

    def ref_fit(d, gens, memo={}):
        if (kind, d, gens) not in memo:
            e = build(kind, base, gens=gens)
            e.fit(DATA[d], Y[d])
            memo[kind, d, gens] = genome(e.algorithm.best_of_run_)
        return memo[kind, d, gens]

    def fn(ctx):
        def body(ch):
            m = counting(base)
            es = [E(build(kind, m), 1, True, m)]
            trace = []

            def audit():
                for k, e in enumerate(es):
                    w = "%s: after %r, estimator %d" % (kind, trace, k)
                    X = XP[1]
                    keep = X.copy()
                    if e.nodes is None:
                        require(refused(e.est, X), "%s", w)
                    else:
                        got = e.est.predict(X)
                        want = expected(kind, e.nodes, X, ncls)
                        require(same(got, want), "%s predicts %r, its best individual %r gives %r", w, got, e.nodes, want)
                        b = e.est.algorithm.best_of_run_
                        require(genome(b) == e.genome and score_of(b) == e.score, "%s: its best individual changed", w)
                    require(np.array_equal(X, keep), "%s: predicting changed its input", w)
                    require(e.est.algorithm.max_generation == e.gens, "%s: max_generation is %r, set to %r", w, e.est.algorithm.max_generation, e.gens)
                    require(list(e.est.get_params()) == ["algorithm"] and e.est.get_params()["algorithm"] is e.est.algorithm, "%s: parameters are %r", w, e.est.get_params())
                    require(type(e.est) is cls, "%s: is a %r", w, type(e.est))
                for a, b in itertools.combinations(es, 2):
                    x, y = a.est.algorithm, b.est.algorithm
                    require(x is not y and x.population is not y.population and x.population.sub_populations[0].evaluator is not y.population.sub_populations[0].evaluator,
                            "%s: after %r two estimators share their algorithm, population or evaluator", kind, trace)
            for step in range(depth):
                ops = []
                for k, e in enumerate(es):
                    if e.nodes is None:
                        ops += [("fit", k, 1), ("fit", k, 2)]
                    ops += [("predict", k, 0), ("predict", k, 1)]
                    if len(es) < 3:
                        ops += [("clone", k), ("copy", k), ("pickle", k)]
                    if e.gens == 1:
                        ops.append(("set", k))
                if step == 0:
                    op = ops[first]
                else:
                    op = ops[ch.choose(len(ops), "operation")]
                trace.append(op)
                e = es[op[1]]
                w = "%s: after %r" % (kind, trace)
                if op[0] == "fit":
                    X, y = DATA[op[2]].copy(), Y[op[2]].copy()
                    kx, ky = X.copy(), y.copy()
                    if e.metric is not None:
                        e.metric.calls = []
                    random.seed(step)
                    np.random.seed(step + 7)
                    r = e.est.fit(X, y)
                    require(r is e.est, "%s: fit does not return the estimator", w)
                    require(np.array_equal(X, kx) and np.array_equal(y, ky), "%s: fit changed the data", w)
                    alg = e.est.algorithm
                    b = alg.best_of_run_
                    e.nodes, e.genome, e.score, e.data = list(b.clone().tree), genome(b), score_of(b), op[2]
                    n = 4 * (1 + e.gens)
                    calls = e.metric.calls if e.metric is not None else None
                    if calls is not None:
                        require(len(calls) == n, "%s: %d evaluations, expected %d", w, len(calls), n)
                        for yt, yp in calls:
                            require(np.array_equal(yt, ky), "%s: an individual was scored against the targets %r, given %r", w, yt, ky)
                            require(yp.shape == ky.shape, "%s: an individual was scored on %d rows, given %d", w, len(yp), len(ky))
                    want = base(ky, np.array(expected(kind, e.nodes, kx, ncls)))
                    require(abs(want - e.score) < 1e-9, "%s: the best individual %r has the score %r, on the given data it has %r", w, e.nodes, e.score, want)
                    if e.clean:
                        g = ref_fit(op[2], e.gens)
                        require(g == e.genome, "%s: fitting gives %r, on its own %r", w, e.genome, g)
                elif op[0] == "predict":
                    X = XP[op[2]]
                    if e.nodes is None:
                        require(refused(e.est, X), "%s", w)
                    else:
                        got = e.est.predict(X)
                        want = expected(kind, e.nodes, X, ncls)
                        require(same(got, want), "%s: predicts %r, expected %r", w, got, want)
                elif op[0] == "set":
                    r = e.est.set_params(max_generation=2)
                    require(r is e.est, "%s: set_params does not return the estimator", w)
                    e.gens = 2
                else:
                    if op[0] == "pickle":
                        # a user's metric must be picklable
                        held = []
                        for sp in e.est.algorithm.population.sub_populations:
                            held.append(sp.evaluator.metric)
                            sp.evaluator.metric = base
                        c = pickle.loads(pickle.dumps(e.est))
                        for sp, h in zip(e.est.algorithm.population.sub_populations, held):
                            sp.evaluator.metric = h
                        met = None
                    else:
                        c = clone(e.est) if op[0] == "clone" else copy.deepcopy(e.est)
                        met = e.metric
                    require(c is not e.est, "%s: the copy is the estimator itself", w)
                    n = E(c, e.gens, e.clean and e.nodes is None, met)
                    es.append(n)
                audit()
            ctx.seen(tuple(trace))
        ctx.explore(body, rng=False)
    return Case("history/%s/d%d/%d" % (kind, depth, first), fn)


NFIRST = 8


def predict_case(kind, size):
    """every tree as the evolved best"""
    cls, ev, cr, hib, base, ncls = KINDS[kind]

    def fn(ctx):
        if kind in ("argmax", "softmax"):
            root = argmax2floats if kind == "argmax" else softmax_pick
            terms = [("x0", float), ("x1", float), (1.0, float)]
            specs = gp.enum_trees([add2floats, sub2floats, root], terms, size, t_argmax)
        else:
            terms = [("x0", None), ("x1", None), (1.0, None)]
            specs = gp.enum_trees([gp.sub, gp.neg], terms, size)
        if not specs:
            ctx.one(lambda: None)
            return
        est = build(kind, base)
        est.fit(X1, YR[1] if kind == "regressor" else YC[1])
        grids = [np.array([[a, b]]) for a in (-2.0, 0.0, 1.0) for b in (-0.5, 0.0, 3.0)]
        grids += [np.array([[a, b] for a in (-2.0, 0.0, 1.0) for b in (-0.5, 0.0, 3.0)]), np.array([[1, 2], [0, -1]]), np.zeros((1, 2))]

        def body(ch):
            spec = ch.pick(specs, "tree")
            t = est.algorithm.best_of_run_
            t.tree = gp.build_nodes(spec)
            nodes = list(t.tree)
            for X in grids:
                keep = X.copy()
                want = expected(kind, nodes, X, ncls)
                for rep in range(2):
                    got = est.predict(X)
                    require(np.shape(got) == (len(X),), "%s: the prediction for %d rows by %r has the shape %r", kind, len(X), nodes, np.shape(got))
                    require(same(got, want), "%s: %r predicts %r for %r, expected %r (call %d)", kind, nodes, got, X.tolist(), want, rep + 1)
                require(np.array_equal(X, keep), "%s: predicting changed its input", kind)
                ctx.step()
            require([node_sym(n) for n in t.tree] == [node_sym(n) for n in nodes], "%s: predicting changed the tree", kind)
            ctx.seen(tuple(map(str, nodes)))
        ctx.explore(body, rng=False)
    return Case("predict/%s/size%d" % (kind, size), fn)


def label_case(n):
    """outputs to labels by the documented thresholds i/n on the sigmoid"""
    def fn(ctx):
        def body(ch):
            v = ch.pick([-1e6, -800.0, -40.0, -5.0, -2.0, -1.5, -1.0, -0.7, -0.5, -0.1, 0.0, 0.1, 0.5, 0.7, 1.0, 1.5, 2.0, 5.0, 40.0, 800.0, 1e6], "output")
            t = Tree(function_set=[gp.neg], terminal_set=["x0"])
            t.tree = [TerminalNode("x0")]
            e = ClassificationEvaluator(n_classes=n, metric=acc)
            s = 1 / (1 + math.exp(-v)) if v > -700 else 0.0
            if any(abs(s - k / n) < 1e-12 for k in range(1, n)) and v != 0.0:
                raise Skip()
            want = label(v, n)
            X = np.array([[v], [0.2], [v]])
            y = np.array([want, 0, want])
            e.set_context((X, y))
            got = e.classify_individual(t)
            require(list(got) == [want, label(0.2, n), want], "%d classes: outputs %r are labelled %r, expected %r", n, X.ravel().tolist(), list(got), [want, label(0.2, n), want])
            require(abs(e.evaluate_individual(t) - (2 + (label(0.2, n) == 0)) / 3) < 1e-12, "%d classes: the accuracy of labels %r against %r", n, list(got), list(y))
            ctx.seen((n, v, want))
        ctx.explore(body, rng=False)
    return Case("labels/%d" % n, fn)


def reject_case():
    def fn(ctx):
        bad = [(np.array([[1.0, 2.0]]), np.array([1.0, 2.0])), (np.array([[np.nan, 1.0], [0.0, 1.0]]), np.array([1.0, 0.0])), (np.zeros((0, 2)), np.zeros(0)), (np.array([1.0, 2.0]), np.array([1.0, 2.0]))]

        def body(ch):
            kind = ch.pick(("regressor", "sigmoid"), "kind")
            X, y = bad[ch.choose(len(bad), "data")]
            e = build(kind, KINDS[kind][4])
            try:
                e.fit(X, y)
            except ValueError:
                refused(e, X1)
                # a refused fit does not spoil the estimator
                e.fit(X1, YC[1])
                require(same(e.predict(XP[1]), expected(kind, list(e.algorithm.best_of_run_.tree), XP[1], KINDS[kind][5])), "predictions after a refused fit")
                ctx.seen((kind, X.shape))
                return
            raise Violation("%s: fit accepts the data %r, %r" % (kind, X, y))
        ctx.explore(body, rng=False)
    return Case("bad-data", fn)


def size_case(kind):
    """data sets of many sizes are used whole, as they are"""
    cls, ev, cr, hib, base, ncls = KINDS[kind]

    def fn(ctx):
        def body(ch):
            n = ch.pick((1, 2, 3, 8, 19, 20, 21, 25, 31, 40, 64, 101, 130, 1500), "rows")
            order = ch.pick(("up", "down", "mixed"), "order") if n < 1000 else "mixed"
            X = np.array([[(i * 7 % 11 - 5) / 2, (i * 5 % 13 - 6) / 4] for i in range(n)], dtype=float)
            y = X[:, 0] - X[:, 1] + np.arange(n) / 64 if kind == "regressor" else np.arange(n) % (ncls or 2)
            o = np.argsort(y, kind="stable")
            if order != "mixed":
                o = o if order == "up" else o[::-1]
                X, y = X[o], y[o]
            kx, ky = X.copy(), y.copy()
            m = counting(base)
            e = build(kind, m)
            e.fit(X, y)
            require(np.array_equal(X, kx) and np.array_equal(y, ky), "%s: fit changed the data (%d rows)", kind, n)
            for yt, yp in m.calls:
                require(np.array_equal(yt, ky) and np.shape(yp) == np.shape(ky), "%s: an individual was scored on %d rows with the targets %r, given %d rows with %r", kind, len(yp), yt.tolist(), n, ky.tolist())
            b = e.algorithm.best_of_run_
            nodes = list(b.tree)
            want = expected(kind, nodes, kx, ncls)
            require(abs(base(ky, np.array(want)) - score_of(b)) < 1e-9, "%s: the best individual %r has the score %r, on the %d given rows it has %r", kind, nodes, score_of(b), n, base(ky, np.array(want)))
            require(same(e.predict(X), want), "%s: predictions for the %d given rows", kind, n)
            for k in (1, n // 2):
                if 0 < k < n:
                    require(same(e.predict(X[k:]), want[k:]), "%s: predictions for the last %d of %d rows differ from those for all", kind, n - k, n)
            ctx.seen((kind, n, order))
        ctx.explore(body, rng=False)
    return Case("sizes/" + kind, fn)


def method_case():
    """argmax and softmax labelling need such a root; unknown methods are rejected"""
    def fn(ctx):
        def body(ch):
            m = ch.pick(("argmax", "softmax", "nonsense", ""), "method")
            if m not in ("argmax", "softmax"):
                try:
                    ClassificationEvaluator(clf_method=m)
                except ValueError:
                    return
                raise Violation("the labelling method %r is accepted" % m)
            e = ClassificationEvaluator(clf_method=m)
            e.set_context((X1, YC[1]))
            t = Tree(function_set=[gp.neg], terminal_set=["x0", "x1"])
            t.tree = [FunctionNode(gp.neg), TerminalNode("x0")]
            try:
                r = e.classify_individual(t)
            except ValueError:
                ctx.seen(m)
                return
            raise Violation("%s: a tree with another root is labelled %r" % (m, r))
        ctx.explore(body, rng=False)
    return Case("methods", fn)


def cases(tier):
    q = tier == "quick"
    out = []
    for k in KINDS:
        for f in range(NFIRST):
            out.append(history_case(k, 4 if q else 5, f))
    for k in KINDS:
        for s in ((3, 5) if k in ("argmax", "softmax") else range(1, 5 if q else 6)):
            out.append(predict_case(k, s))
    out += [label_case(n) for n in (2, 3, 4, 5, 6, 7, 10, 12, 25)]
    out += [size_case(k) for k in KINDS]
    out += [reject_case(), method_case()]
    return out
