"""C02: evaluation of a population."""
import itertools
import multiprocessing
import os

from .common import *
from mc.threads import Interleaver
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from eckity.sklearn_compatible import RegressionEvaluator, ClassificationEvaluator

BOUNDS = {"quick": "completion orders: all, populations of 1..4, map/submit x thread/process; individuals in all orders of their ids (2, 3); score assignments over 4 values for n<=3, both directions; failing evaluation at every position and order; line-level interleavings of 2-3 concurrent evaluations with at most 1 preemption (2 for the smallest); populations of 7-257 completing in order, in reverse and (7, 12) with one task out of turn",
          "thorough": "populations up to 5, 5 score values for n<=4, 2 preemptions everywhere, opcode-level switching for the smallest"}
ASSUMPTIONS = ["a process worker sees pickled copies and returns pickled results",
               "threads switch only between source lines (between bytecodes in the thorough opcode cases)"]

LOG = []


class FnEv(SimpleIndividualEvaluator):
    """scores by a table from genome to value; logs calls across pickling"""

    def __init__(self, table, fail=(), error=LookupError):
        super().__init__()
        self.table, self.fail, self.error = table, tuple(fail), error

    def evaluate_individual(self, individual):
        g = tuple(individual.get_vector())
        LOG.append((individual.id, g))
        if individual.id in self.fail:
            raise self.error("fitness failed")
        return self.table[g]


def creator():
    from eckity.creators import GABitStringVectorCreator
    return GABitStringVectorCreator(length=3)


def subpop(inds, ev, hib):
    return Subpopulation(evaluator=ev, creators=creator(), operators_sequence=[IdentityTransformation()], population_size=len(inds),
                         individuals=inds, higher_is_better=hib, selection_methods=[(TournamentSelection(2, higher_is_better=hib), 1)])


def vecs(n, hib, dup, cache=False, old=None):
    return [BitStringVector(fitness=SimpleFitness(fitness=old, higher_is_better=hib, cache=cache), length=3,
                            vector=[(i // (2 if dup else 1) >> b) & 1 for b in range(3)]) for i in range(n)]


EX = {"thread": ThreadPoolExecutor, "process": ProcessPoolExecutor}


def check_result(pop, best, table, hib, what, once=True):
    inds = pop.sub_populations[0].individuals
    vals = []
    for j, i in enumerate(inds):
        want = table[tuple(i.get_vector())]
        require(i.fitness.is_fitness_evaluated(), "%s: individual %d was not evaluated", what, j)
        got = i.get_pure_fitness()
        require(got == want and type(got) == type(want), "%s: individual %d holds score %r, its fitness is %r", what, j, got, want)
        vals.append(want)
    if once:
        require(sorted(LOG) == sorted((i.id, tuple(i.get_vector())) for i in inds), "%s: fitness function calls %r for individuals %r", what, LOG, [i.id for i in inds])
    require(any(best is i for i in inds), "%s: the reported best is not in the population", what)
    top = max(vals) if hib else min(vals)
    require(best.get_pure_fitness() == top, "%s: reported best has score %r, scores are %r", what, best.get_pure_fitness(), vals)


def order_case(n, method, ex, hib, dup, reuse, cache=False):
    def fn(ctx):
        def body(ch):
            what = "%d individuals, %s, %s" % (n, method, ex)
            with execs.mode("sched", ch) as st:
                inds = vecs(n, hib, dup, cache, old=9.0 if reuse else None)
                table = {tuple(i.get_vector()): float((k * 5 + 2) % 7) for k, i in enumerate(inds)}
                pe = SimplePopulationEvaluator(executor_method=method)
                e = EX[ex](max_workers=2)
                pe.set_executor(e)
                pop = Population([subpop(inds, FnEv(table), hib)])
                for rnd in range(2 if reuse and n <= 3 else 1):
                    LOG.clear()
                    del st.order[:]
                    best = pe.act(pop)
                    require(pop.sub_populations[0].individuals == inds, "%s: the individuals were replaced", what)
                    check_result(pop, best, table, hib, what)
                    ctx.seen((rnd, tuple(st.order)))
        ctx.explore(body, rng=False)
    return Case("order/n%d/%s/%s/%s/%s/%s" % (n, method, ex, "max" if hib else "min", "dup" if dup else "distinct", reuse) + ("/cache" if cache else ""), fn)


def score_case(n, domain, method, hib):
    def fn(ctx):
        def body(ch):
            with execs.mode("sync"):
                inds = vecs(n, hib, False)
                table = {tuple(i.get_vector()): ch.pick(domain, "score") for i in inds}
                pe = SimplePopulationEvaluator(executor_method=method)
                pe.set_executor(ThreadPoolExecutor(max_workers=1))
                pop = Population([subpop(inds, FnEv(table), hib)])
                LOG.clear()
                best = pe.act(pop)
                check_result(pop, best, table, hib, "scores %r" % (list(table.values()),))
                ctx.seen(tuple(table.values()))
        ctx.explore(body, rng=False)
    return Case("scores/n%d/%s/%s/%s" % (n, domain, method, "max" if hib else "min"), fn)


def places_case(n, method, ex):
    """individuals in any order of their ids, and evaluated again after they changed places"""
    def fn(ctx):
        perms = list(itertools.permutations(range(n)))

        def body(ch):
            with execs.mode("sched", ch) as st:
                made = vecs(n, False, False)
                inds = [made[i] for i in ch.pick(perms, "order of the individuals")]
                table = {tuple(i.get_vector()): float((k * 5 + 2) % 7) for k, i in enumerate(made)}
                pe = SimplePopulationEvaluator(executor_method=method)
                pe.set_executor(EX[ex](max_workers=2))
                pop = Population([subpop(inds, FnEv(table), False)])
                for rnd in range(2):
                    LOG.clear()
                    best = pe.act(pop)
                    now = pop.sub_populations[0].individuals
                    require(len(now) == n and all(a is b for a, b in zip(now, inds)), "%s, %s: individuals changed places during their evaluation", method, ex)
                    check_result(pop, best, table, False, "individuals with ids %r, %s, %s" % ([i.id - min(x.id for x in inds) for i in inds], method, ex))
                    ctx.seen((rnd, [made.index(i) for i in inds], tuple(st.order)))
                    if n > 3:
                        break
                    inds = [inds[i] for i in perms[len(perms) // 2]][::-1]
                    pop.sub_populations[0].individuals = inds
                    for i in inds:
                        i.fitness.set_not_evaluated()
        ctx.explore(body, rng=False)
    return Case("places/n%d/%s/%s" % (n, method, ex), fn)


class OwnError(Exception):
    pass


ERRORS = (LookupError, OverflowError, ZeroDivisionError, FloatingPointError, ValueError, TypeError, AttributeError, KeyError, IndexError, RuntimeError,
          NotImplementedError, OSError, TimeoutError, MemoryError, RecursionError, AssertionError, NameError, OwnError)


def fail_case(n, method, ex):
    def fn(ctx):
        def body(ch):
            with execs.mode("sched", ch):
                error = ch.pick(ERRORS, "error") if n == 2 else LookupError
                inds = vecs(n, False, False)
                bad = [i for i in range(n) if ch.choose(2, "fails?")]
                if not bad:
                    raise Skip()
                table = {tuple(i.get_vector()): float(k) for k, i in enumerate(inds)}
                pe = SimplePopulationEvaluator(executor_method=method)
                pe.set_executor(EX[ex](max_workers=2))
                pop = Population([subpop(inds, FnEv(table, [inds[i].id for i in bad], error), False)])
                LOG.clear()
                try:
                    pe.act(pop)
                except error:
                    pass
                except Exception as e:
                    raise Violation("evaluations %r raised %s, but the population evaluator (%s, %s) raised %r" % (bad, error.__name__, method, ex, e))
                else:
                    raise Violation("evaluations %r raised %s, but the population evaluator (%s, %s) returned normally" % (bad, error.__name__, method, ex))
                for k, i in enumerate(inds):
                    require(not i.fitness.is_fitness_evaluated() or (k not in bad and i.get_pure_fitness() == float(k)),
                            "after a failing evaluation (%s, %s) individual %d holds score %r", method, ex, k, score_of(i))
                ctx.seen((bad, tuple(sorted(LOG))))
        ctx.explore(body, rng=False)
    return Case("fail/n%d/%s/%s" % (n, method, ex), fn)


def run_case(method, ex, hib, n):
    """a whole run: every generation, every completion order of the first evaluations"""
    def fn(ctx):
        def body(ch):
            with execs.mode("sched", ch):
                table = {c: float((4 * c[0] + 3 * c[1] + 2 * c[2]) % 5) for c in product((0, 1), repeat=3)}
                sp = Subpopulation(evaluator=FnEv(table), creators=creator(), operators_sequence=[BitStringVectorFlipMutation(probability=0.5)],
                                   population_size=n, higher_is_better=hib, selection_methods=[(TournamentSelection(2, higher_is_better=hib), 1)])
                alg = SimpleEvolution(sp, population_evaluator=SimplePopulationEvaluator(executor_method=method), executor=ex,
                                      max_workers=2, max_generation=2, random_seed=5)

                def cb(sender, data):
                    check_result(alg.population, alg.best_of_gen or alg.best_of_run_, table, hib,
                                 "generation %d, %s, %s" % (alg.generation_num, method, ex))
                    LOG.clear()
                alg.register("init", cb)
                alg.register("after_generation", cb)
                LOG.clear()
                alg.evolve()
                ctx.seen([genome(i) for i in sp.individuals])
        ctx.explore(body, rng=False, bound=2 if n > 2 else None)
    return Case("run/%s/%s/%s/n%d" % (method, ex, "max" if hib else "min", n), fn)


class Last:
    """an explorer that always lets the last pending task complete"""

    def choose(self, n, label=""):
        return n - 1


def scale_case(n, method, ex, hib, order):
    """larger populations: in order, in reverse, and every order with one task out of turn"""
    def fn(ctx):
        def body(ch):
            what = "%d individuals, %s, %s, %s" % (n, method, ex, order)
            inds = [vec(IntVector, [k // 16, k % 16, 0], (0, 99), hib=hib) for k in range(n)]
            w = ch.choose(3, "scores") if order != "one" else 0
            table = {tuple(i.get_vector()): (float((k * 5 + 2) % n), float(k), float(-k))[w] for k, i in enumerate(inds)}
            with execs.mode("sched", Last() if order == "reverse" else ch if order == "one" else None):
                pe = SimplePopulationEvaluator(executor_method=method)
                pe.set_executor(EX[ex](max_workers=4))
                pop = Population([subpop(inds, FnEv(table), hib)])
                LOG.clear()
                best = pe.act(pop)
                require(len(pop.sub_populations[0].individuals) == n and all(a is b for a, b in zip(pop.sub_populations[0].individuals, inds)), "%s: the individuals were replaced", what)
                check_result(pop, best, table, hib, what)
                ctx.seen((w, tuple(execs.S.order)))
        ctx.explore(body, rng=False, bound=1 if order == "one" else None)
    return Case("scale/n%d/%s/%s/%s/%s" % (n, method, ex, "max" if hib else "min", order), fn)


def direct_case():
    def fn(ctx):
        def body(ch):
            inds = vecs(3, False, False)
            table = {tuple(i.get_vector()): ch.pick((0.0, -2.0, INF), "score") for i in inds}
            ev = FnEv(table)
            LOG.clear()
            for i in inds:
                before = [score_of(j) for j in inds]
                r = ev.evaluate(i, inds)
                require(r is i, "evaluate() returned another individual")
                require(i.get_pure_fitness() == table[tuple(i.get_vector())], "evaluate() stored %r", score_of(i))
                require([score_of(j) for j in inds if j is not i] == [b for b, j in zip(before, inds) if j is not i], "evaluate() changed another individual's score")
            require(len(LOG) == 3, "evaluate() called the fitness function %d times for 3 individuals", len(LOG))
            r = ev.act((inds[0], inds)) if not isinstance((inds[0], inds), list) else None
            require(r is inds[0], "the evaluator as operator returned another individual")
            ctx.seen(tuple(table.values()))
        ctx.explore(body, rng=False)
    return Case("direct", fn)


# ---- interleavings of concurrent evaluations

def f_sub(a, b):
    return a - b


def f_mul(a, b):
    return a * b


def argmax3(a, b, c):
    return np.argmax([a, b, c], axis=0)


def softmax3(a, b, c):
    return np.argmin([a, b, c], axis=0)


def gt(shape, functions=(f_sub, f_mul)):
    names = {"s": f_sub, "m": f_mul, "a": argmax3, "f": softmax3}
    t = Tree(function_set=list(functions), terminal_set=["x0", "x1", 2], fitness=GPFitness(bloat_weight=0.0))
    t.tree = [FunctionNode(names[c]) if c in names else TerminalNode({"0": "x0", "1": "x1", "2": 2}[c]) for c in shape]
    return t


def ref_eval(shape, X):
    it = iter(shape)

    def rec():
        c = next(it)
        if c == "s":
            a = rec()
            return a - rec()
        if c == "m":
            a = rec()
            return a * rec()
        if c in "af":
            return (np.argmax if c == "a" else np.argmin)([rec(), rec(), rec()], axis=0)
        return {"0": X[:, 0], "1": X[:, 1], "2": np.full(len(X), 2.0)}[c]
    return rec()


def mad(y_true, y_pred):
    d = np.asarray(y_true) - np.asarray(y_pred)
    m = np.abs(d).sum()
    return float(m)


def acc(y_true, y_pred):
    return float(np.sum(np.asarray(y_true) == np.asarray(y_pred)))


XD = np.array([[1.0, 4.0], [3.0, -2.0], [-5.0, 0.5]])
YD = np.array([1.0, 0.0, 2.0])


class KwEv(SimpleIndividualEvaluator):
    """a user's evaluator in the style of the examples"""

    def evaluate_individual(self, individual):
        a = individual.execute(x0=XD[:, 0], x1=XD[:, 1])
        b = individual.execute(x0=XD[:, 1], x1=XD[:, 0])
        return float(np.sum(a) * 10 + np.sum(b))


class VecEv(SimpleIndividualEvaluator):
    def evaluate_individual(self, individual):
        r = 0
        for i in range(individual.size()):
            r = r * 3 + individual.cell_value(i)
        return r


def expected(kind, shape):
    if kind == "vec":
        r = 0
        for c in shape:
            r = r * 3 + int(c)
        return r
    if kind == "kw":
        return float(np.sum(ref_eval(shape, XD) + 0 * XD[:, 0]) * 10 + np.sum(ref_eval(shape, XD[:, ::-1]) + 0 * XD[:, 0])) if set(shape) != {"2"} else 22.0
    p = ref_eval(shape, XD)
    if kind == "reg":
        return mad(YD, p)
    if kind == "sig":
        pr = 1 / (1 + np.exp(-p))
        return acc(YD, np.array([0 if v < 1 / 3 else 1 if v < 2 / 3 else 2 for v in pr]))
    return acc(YD, p)


def inter_case(kind, shapes, bound, method, opcodes=False):
    def fn(ctx):
        want = [expected(kind, s) for s in shapes]
        require(len(set(want)) > 1, "harness: scores must differ")

        def body(ch):
            if kind == "vec":
                inds = [vec(IntVector, [int(c) for c in s], (0, 9)) for s in shapes]
                ev = VecEv()
            else:
                inds = [gt(s, (argmax3, softmax3, f_sub, f_mul) if kind in ("arg", "soft") else (f_sub, f_mul)) for s in shapes]
                ev = {"kw": KwEv, "reg": lambda: RegressionEvaluator(XD.copy(), YD.copy(), metric=mad),
                      "sig": lambda: ClassificationEvaluator(XD.copy(), YD.copy(), metric=acc, n_classes=3),
                      "arg": lambda: ClassificationEvaluator(XD.copy(), YD.copy(), metric=acc, n_classes=3, clf_method="argmax"),
                      "soft": lambda: ClassificationEvaluator(XD.copy(), YD.copy(), metric=acc, n_classes=3, clf_method="softmax")}[kind]()

            def runner(live):
                il = Interleaver(ch, files=(os.path.abspath(__file__),), opcodes=opcodes)
                il.run([f.run_now for f in live])
                ctx.note("%s: context switches" % kind, il.switches)
                ctx.step(il.steps)
            with execs.mode("sched", ch, runner):
                pe = SimplePopulationEvaluator(executor_method=method)
                pe.set_executor(ThreadPoolExecutor(max_workers=len(shapes)))
                pop = Population([subpop(inds, ev, False)])
                best = pe.act(pop)
                got = [i.get_pure_fitness() for i in inds]
                require(got == want, "concurrent evaluation of %r (%s) gave scores %r, alone they are %r", shapes, kind, got, want)
                require(best.get_pure_fitness() == min(want), "reported best %r of %r", best.get_pure_fitness(), want)
                ctx.seen(tuple(ch.choices))
        ctx.explore(body, rng=False, bound=bound)
    return Case("interleave/%s/%s/%s/p%d%s" % (kind, ",".join(shapes), method, bound, "/opcodes" if opcodes else ""), fn)


def real_case(method, ex, workers):
    """the standard library's own executors, as a check of the executor model"""
    def fn(ctx):
        multiprocessing.current_process()._config["daemon"] = False

        def body(ch):
            with execs.mode("real"):
                inds = vecs(6, True, False)
                table = {tuple(i.get_vector()): float((k * 5 + 2) % 7) for k, i in enumerate(inds)}
                e = EX[ex](max_workers=workers)
                try:
                    pe = SimplePopulationEvaluator(executor_method=method)
                    pe.set_executor(e)
                    pop = Population([subpop(inds, FnEv(table), True)])
                    LOG.clear()
                    best = pe.act(pop)
                    check_result(pop, best, table, True, "real %s, %s, %d workers" % (method, ex, workers), once=ex == "thread")
                    ctx.seen((method, ex, workers))
                finally:
                    e.shutdown()
        ctx.explore(body, rng=False)
    return Case("real/%s/%s/w%d" % (method, ex, workers), fn)


def cases(tier):
    q = tier == "quick"
    out = []
    b = 2
    for m in ("map", "submit"):
        out.append(inter_case("vec", ["12", "21"], 2, m))
        out.append(inter_case("vec", ["12", "21", "02"], 1, m))
        out.append(inter_case("kw", ["s01", "m2s10"], 1 if q else 2, m))
        out.append(inter_case("reg", ["s0m12", "ms012"], b, m))
        out.append(inter_case("reg", ["s01", "0", "m12"], 1, m))
        out.append(inter_case("sig", ["s01", "m01"], b, m))
        out.append(inter_case("arg", ["a010", "as1010"], b, m))
        out.append(inter_case("soft", ["f010", "fs1010"], 1 if q else 2, m))
        if not q:
            out.append(inter_case("vec", ["12", "21"], 2, m, opcodes=True))
            out.append(inter_case("reg", ["s01", "s10"], 1, m, opcodes=True))
            out.append(inter_case("sig", ["s01", "m01"], 1, m, opcodes=True))
            out.append(inter_case("arg", ["a010", "as1010"], 1, m, opcodes=True))
        for ex in ("thread", "process"):
            for n in range(1, 5 if q else 6):
                for hib in (False, True):
                    out.append(order_case(n, m, ex, hib, False, hib))
                    out.append(order_case(n, m, ex, hib, True, not hib))
                    if n <= 3:
                        out.append(order_case(n, m, ex, hib, hib, True, True))
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                out.append(fail_case(n, m, ex))
            for n in (2, 3) if q else (2, 3, 4):
                out.append(places_case(n, m, ex))
            out.append(run_case(m, ex, ex == "thread", 2))
            out.append(run_case(m, ex, ex == "process", 4))
            for n in (7, 12) if q else (7, 12, 25):
                out.append(scale_case(n, m, ex, n % 2 == 0, "one"))
            for n in (16, 33, 64, 65, 101, 130, 257):
                for o in ("forward", "reverse"):
                    out.append(scale_case(n, m, ex, n % 2 == 0, o))
            for w in (1, 3):
                out.append(real_case(m, ex, w))
        for hib in (False, True):
            for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
                out.append(score_case(n, (0.0, 1.0, -1.0, INF), m, hib))
                out.append(score_case(n, (0, 2, -INF, 1.5), m, hib))
    out.append(direct_case())
    return out
