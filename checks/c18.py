"""C18: best, worst, average and the generation reports."""
import ast
import contextlib
import io
import logging
import re
import sys

from .common import *
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.multi_objective_evolution import MOEBestWorstStatistics, NSGA2Evolution, NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.statistics import BestAverageWorstStatistics, BestAverageWorstSizeTreeStatistics, MinimalPrintStatistics

BOUNDS = {"quick": "all score assignments over 5 values (negatives, ties, infinities) to 1-3 sub-populations of 1-4 vectors or trees of different sizes, both directions, bloat weights 0/0.5; 17 to 40 individuals and 12 sub-populations with every one or two scores deviating; multi-objective fronts of <=4 individuals over a 3x3 grid, both directions",
          "thorough": "7 values, 5 individuals"}
ASSUMPTIONS = ["reports are read as text lines; figures are compared as numbers"]


def _f(a, b):
    return a


def _g(a):
    return a


def mk(kind, k, s, hib, w):
    if kind == "bit":
        return vec(BitStringVector, [0, 1, k % 2], (0, 1), s, hib)
    t = Tree(function_set=[_f, _g], terminal_set=["x"], fitness=GPFitness(fitness=s, higher_is_better=hib, bloat_weight=w))
    t.tree = [FunctionNode(_g) for _ in range(k)] + [TerminalNode("x")]
    return t


def build(kind, groups, hib, w):
    subs = []
    for g in groups:
        inds = [mk(kind, k, s, hib, w) for k, s in enumerate(g)]
        subs.append(Subpopulation(evaluator=NullEvaluator(), creators=GAVectorCreator(length=3, bounds=(0, 1)), operators_sequence=[IdentityTransformation()],
                                  population_size=len(g), individuals=inds, higher_is_better=hib))
    return Population(subs)


class _H(logging.Handler):
    def __init__(self):
        super().__init__(logging.NOTSET)
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


@contextlib.contextmanager
def captured():
    """everything written through logging or standard output"""
    root = logging.getLogger()
    old, lvl = root.handlers[:], root.level
    dis = logging.root.manager.disable
    h = _H()
    root.handlers[:] = [h]
    root.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    so = sys.stdout
    sys.stdout = buf = io.StringIO()
    try:
        yield lambda: [x.strip() for x in "\n".join(h.lines + [buf.getvalue()]).splitlines() if x.strip()]
    finally:
        sys.stdout = so
        root.handlers[:] = old
        root.setLevel(lvl)
        logging.disable(dis)


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


def line_is(line, label, value):
    m = re.fullmatch(re.escape(label) + r"\s*:?\s*(" + NUM + ")", line)
    if not m:
        return False
    v = float(m.group(1))
    if math.isnan(value):
        return math.isnan(v)
    return v == value or (math.isfinite(value) and abs(v - value) <= 1e-9 * max(1.0, abs(value)))


def mean(g):
    if INF in g and -INF in g:
        return float("nan")
    return math.fsum(g) / len(g) if not (INF in g or -INF in g) else (INF if INF in g else -INF)


def comparable(kind, k, s, hib, w):
    return s if kind == "bit" else (s - w * (k + 1) if hib else s + w * (k + 1))


def figures_case(kind, sizes, domain, hib, w, bound=None, tag="figures"):
    def fn(ctx):
        def body(ch):
            groups = [[ch.pick(domain, "score") for _ in range(n)] for n in sizes]
            gen = ch.choose(2, "generation") * 12
            pop = build(kind, groups, hib, w)
            what = "%s scores %r %s bloat %g" % (kind, groups, "max" if hib else "min", w)
            before = [[snap(i) for i in s.individuals] for s in pop.sub_populations]
            best, worst, avg = pop.get_best_individuals(), pop.get_worst_individuals(), pop.get_average_fitness()
            require(len(best) == len(worst) == len(avg) == len(sizes), "%s: %d figures for %d sub-populations", what, len(best), len(sizes))
            bests, worsts = [], []
            for j, (g, sp) in enumerate(zip(groups, pop.sub_populations)):
                c = [comparable(kind, k, s, hib, w) for k, s in enumerate(g)]
                hi, lo = (max(c), min(c)) if hib else (min(c), max(c))
                for x, y, v, nm in ((best[j], sp.get_best_individual(), hi, "best"), (worst[j], sp.get_worst_individual(), lo, "worst")):
                    for z in (x, y):
                        idx = [k for k, i in enumerate(sp.individuals) if i is z]
                        require(len(idx) == 1, "%s: the %s of sub-population %d is not one of its individuals", what, nm, j)
                        require(c[idx[0]] == v, "%s: the %s of sub-population %d has comparable score %r, it is %r", what, nm, j, c[idx[0]], v)
                bests.append({s for s, cc in zip(g, c) if cc == hi})
                worsts.append({s for s, cc in zip(g, c) if cc == lo})
                m = mean([float(x) for x in g])
                for a in (avg[j], sp.get_average_fitness()):
                    require((math.isnan(m) and math.isnan(a)) or a == m or (math.isfinite(m) and abs(a - m) <= 1e-12 * max(1, abs(m))), "%s: average of sub-population %d is %r, not %r", what, j, a, m)
                for i in sp.individuals:
                    require(sp.contains_individual(i) and pop.find_individual_subpopulation(i) is sp, "%s: an individual is not found in its sub-population", what)
            # reports
            stats = [("baw", BestAverageWorstStatistics())] + ([("size", BestAverageWorstSizeTreeStatistics())] if kind == "tree" else []) + [("min", MinimalPrintStatistics())]
            data = {"generation_num": gen, "population": pop, "best_of_run_": best[0], "best_of_gen": best[0]}
            for nm, st in stats:
                with captured() as text:
                    st.write_statistics(None, data)
                    lines = text()
                require(lines and lines[0].replace(" ", "") == "generation#%d" % gen, "%s: %s report starts with %r", what, nm, lines[:1])
                if nm == "min":
                    require(len(lines) == 1, "%s: minimal report %r", what, lines)
                    continue
                per = 4 if nm == "baw" else 5
                require(len(lines) == 1 + per * len(sizes), "%s: report %r", what, lines)
                for j in range(len(sizes)):
                    L = lines[1 + per * j:1 + per * (j + 1)]
                    require(L[0].replace(" ", "") == "subpopulation#%d" % j, "%s: sub-population %d is reported as %r", what, j, L[0])
                    require(any(line_is(L[1], "best fitness", float(v)) for v in bests[j]), "%s: reported %r, best is %r", what, L[1], bests[j])
                    require(any(line_is(L[2], "worst fitness", float(v)) for v in worsts[j]), "%s: reported %r, worst is %r", what, L[2], worsts[j])
                    require(line_is(L[3], "average fitness", mean([float(x) for x in groups[j]])), "%s: reported %r, average is %r", what, L[3], mean(groups[j]))
                    if nm == "size":
                        require(line_is(L[4], "average size", (sizes[j] + 1) / 2), "%s: reported %r, average size is %r", what, L[4], (sizes[j] + 1) / 2)
            require([[snap(i) for i in s.individuals] for s in pop.sub_populations] == before, "%s: reporting changed the population", what)
            ctx.seen((groups, gen))
        ctx.explore(body, rng=False, bound=bound)
    return Case(tag + "/%s/%r/%s/%s/w%g" % (kind, sizes, domain, "max" if hib else "min", w), fn)


def format_case():
    def fn(ctx):
        def body(ch):
            hib = bool(ch.choose(2, "direction"))
            pop = build("tree", [[3.0, 1.0, 2.5]], hib, 0.0)
            hi, lo = (3.0, 1.0) if hib else (1.0, 3.0)
            data = {"generation_num": 4, "population": pop}
            for cls, fmt, want in ((BestAverageWorstStatistics, "B {} W {} A {}", [hi, lo, 6.5 / 3]),
                                   (BestAverageWorstSizeTreeStatistics, "B {} W {} A {} S {}", [hi, lo, 6.5 / 3, 2.0])):
                with captured() as text:
                    cls(format_string=fmt).write_statistics(None, data)
                    line = text()[-1]
                got = [float(x) for x in re.findall(NUM, line)]
                require(len(got) == len(want) and all(abs(a - b) < 1e-9 for a, b in zip(got, want)), "custom format reported %r, figures are %r", line, want)
            ctx.seen(hib)
        ctx.explore(body, rng=False)
    return Case("format", fn)


def fronts(vals, dirs):
    def dom(a, b):
        s = [(x if d else -x, y if d else -y) for x, y, d in zip(a, b, dirs)]
        return all(x >= y for x, y in s) and any(x > y for x, y in s)
    left, out = list(range(len(vals))), {}
    r = 1
    while left:
        f = [i for i in left if not any(dom(vals[j], vals[i]) for j in left)]
        for i in f:
            out[i] = r
        left = [i for i in left if i not in f]
        r += 1
    return out


def moe_case(n, nobj, dirs, nsub):
    def fn(ctx):
        grid = list(product((0.0, 1.0, 2.5), repeat=nobj)) if nobj < 3 else [(0.0, 1.0, 2.0), (1.0, 0.0, 2.0), (1.0, 1.0, 1.0), (2.0, 2.0, 2.0), (0.0, 0.0, 0.0)]

        def body(ch):
            subs, want = [], []
            for _ in range(nsub):
                vals = [ch.pick(grid, "scores") for _ in range(n)]
                inds = [BitStringVector(fitness=NSGA2Fitness(fitness=list(v), higher_is_better=list(dirs)), length=1, vector=[0]) for v in vals]
                sp = Subpopulation(evaluator=NullEvaluator(), creators=GAVectorCreator(length=1, bounds=(0, 1), fitness_type=NSGA2Fitness),
                                   operators_sequence=[IdentityTransformation()], population_size=n, individuals=inds)
                NSGA2FrontSorting().select_for_population(Population([sp]), n)
                subs.append(sp)
                want.append(fronts([tuple(i.get_pure_fitness()) for i in sp.individuals], dirs))
            pop = Population(subs)
            buf = io.StringIO()
            MOEBestWorstStatistics(output_stream=buf).write_statistics(None, {"generation_num": 7, "population": pop})
            lines = [x.strip() for x in buf.getvalue().splitlines() if x.strip()]
            what = "scores %r" % ([[tuple(i.get_pure_fitness()) for i in s.individuals] for s in subs],)
            require(lines[0].replace(" ", "") == "generation#7" and len(lines) == 1 + 4 * nsub, "%s: report %r", what, lines)
            for j, sp in enumerate(subs):
                L = lines[1 + 4 * j:5 + 4 * j]
                last = max(want[j].values())
                require(L[0] == "subpopulation #%d has %d fronts" % (j, last), "%s: reported %r, there are %d fronts", what, L[0], last)
                first = [i for k, i in enumerate(sp.individuals) if want[j][k] == 1]
                m = re.fullmatch(r"first front has (\d+) individuals \(([\d.]+)%\)", L[1])
                require(m and int(m.group(1)) == len(first) and abs(float(m.group(2)) - 100.0 * len(first) / n) < 0.06, "%s: reported %r, the first front has %d of %d", what, L[1], len(first), n)
                for line, rank, nm in ((L[2], 1, "first"), (L[3], last, "last")):
                    fr = [tuple(i.get_pure_fitness()) for k, i in enumerate(sp.individuals) if want[j][k] == rank]
                    m = re.fullmatch(nm + r" front's corners: (\[.*\])", line)
                    require(m, "%s: reported %r", what, line)
                    got = {tuple(x) for x in ast.literal_eval(m.group(1))}
                    require(len(got) == len(ast.literal_eval(m.group(1))), "%s: a corner is reported twice: %r", what, line)
                    require(got <= set(fr), "%s: reported corners %r are not all in the %s front %r", what, got, nm, fr)
                    for o in range(nobj):
                        v = [x[o] for x in fr]
                        require(any(x[o] == min(v) for x in got) and any(x[o] == max(v) for x in got), "%s: extremes of objective %d of the %s front are missing from %r", what, o, nm, got)
                    inner = [x for x in got if all(min(v[o] for v in fr) < x[o] < max(v[o] for v in fr) for o in range(nobj))]
                    require(not inner, "%s: %r is reported as a corner of front %r", what, inner, fr)
            ctx.seen(what)
        ctx.explore(body, rng=False)
    return Case("moe/n%d/obj%d/%s/sub%d" % (n, nobj, dirs, nsub), fn)


class CountEv(SimpleIndividualEvaluator):
    def __init__(self, multi):
        super().__init__()
        self.multi = multi

    def evaluate_individual(self, individual):
        v = float(sum(individual.get_vector()))
        return [v, 3.0 - v] if self.multi else v


def algorithm_figures(alg, sp):
    """what the algorithm says about its population is what the population's individuals say"""
    scores = [i.get_pure_fitness() for i in sp.individuals]
    avg = alg.get_average_fitness()
    require(len(avg) == 1 and abs(avg[0] - mean(scores)) <= 1e-9, "the algorithm's average is %r, the scores are %r", avg, scores)


def run_case(multi, nstat, gens):
    """reports in a real run: once per generation, never aborting it, changing nothing"""
    def fn(ctx):
        from eckity.termination_checkers import TerminationChecker

        class Stop(TerminationChecker):
            def __init__(self, g):
                self.g = g

            def should_terminate(self, population, best_individual, gen_number):
                return gen_number >= self.g

        def body(ch):
            stop = ch.choose(gens + 2, "stop")
            seed = 3 + ch.choose(2, "seed")
            runs = []
            for with_stats in (False, True):
                hist, figs = [], []
                sp = Subpopulation(evaluator=CountEv(multi), creators=GAVectorCreator(length=3, bounds=(0, 1), fitness_type=NSGA2Fitness if multi else SimpleFitness),
                                   operators_sequence=[BitStringVectorFlipMutation(probability=0.5)], population_size=4,
                                   selection_methods=[(TournamentSelection(2), 1)])
                buf = io.StringIO()
                stats = []
                if with_stats:
                    stats = [MOEBestWorstStatistics(output_stream=buf), MinimalPrintStatistics()] if multi else [BestAverageWorstStatistics(), MinimalPrintStatistics()]
                    stats = stats[:nstat]
                alg = (NSGA2Evolution if multi else SimpleEvolution)(sp, statistics=stats, max_generation=gens, random_seed=seed, max_workers=1, termination_checker=Stop(stop))
                alg.register("after_generation", lambda s, d: hist.append((d["generation_num"], [genome(i) for i in sp.individuals])))
                if not multi:
                    alg.register("after_generation", lambda s, d: (figs.append(1), algorithm_figures(alg, sp)))
                with captured() as text:
                    alg.evolve()
                    lines = text()
                runs.append(hist)
                if with_stats:
                    lines += [x.strip() for x in buf.getvalue().splitlines()]
                    heads = [x for x in lines if x.startswith("generation #")]
                    require(sorted(heads) == sorted("generation #%d" % g for g, _ in hist for _ in range(nstat)),
                            "reports %r for generations %r with %d statistics", heads, [g for g, _ in hist], nstat)
            require(runs[0] == runs[1], "reporting changed the run: %r / %r", runs[0], runs[1])
            ctx.seen((stop, seed))
        ctx.explore(body, rng=False)
    return Case("run/%s/stats%d/g%d" % ("nsga2" if multi else "simple", nstat, gens), fn)


def plot_case(nobj, nsub, n, save):
    """the plot of a two-objective population shows one point per individual"""
    def fn(ctx):
        import os
        import shutil
        import tempfile
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from eckity.multi_objective_evolution import NSGA2Plot
        shown = []
        old = plt.show

        def show(*a, **k):
            for num in plt.get_fignums():
                for ax in plt.figure(num).axes:
                    pts = [tuple(map(float, p)) for c in ax.collections for p in c.get_offsets()]
                    pts += [tuple(map(float, p)) for l in ax.lines for p in zip(l.get_xdata(), l.get_ydata())]
                    shown.append((sorted(pts), ax.get_xlabel(), ax.get_ylabel()))
            plt.close("all")
        tmp = tempfile.mkdtemp()
        plt.show = show
        try:
            def body(ch):
                groups = []
                for _ in range(nsub):
                    g = []
                    for _ in range(n):
                        g.append([ch.pick((0.0, -1.5, 2.0), "score") for _ in range(min(nobj, 2))] + [1.0] * (nobj - 2))
                    groups.append(g)
                f = os.path.join(tmp, "plot.png")
                if os.path.exists(f):
                    os.remove(f)
                subs = []
                for g in groups:
                    inds = [BitStringVector(fitness=NSGA2Fitness(fitness=list(v), higher_is_better=[False] * nobj), length=1, vector=[0]) for v in g]
                    subs.append(Subpopulation(evaluator=NullEvaluator(), creators=GAVectorCreator(length=1), operators_sequence=[IdentityTransformation()], population_size=n, individuals=inds))
                pop = Population(subs)
                before = [[snap(i) for i in sp.individuals] for sp in subs]
                names = ch.pick((None, ("cost", "weight")), "names")
                plot = NSGA2Plot(**({} if names is None else dict(objective1=names[0], objective2=names[1])), savefile=f if save else None)
                shown.clear()
                plot.print_plots(None, {"population": pop})
                want = [sorted(tuple(v) for v in g) for g in groups] if nobj == 2 else []
                got = [s[0] for s in shown]
                together = [sorted(p for g in want for p in g)]
                require(got == want or (nsub > 1 and got == together), "scores %r: the points shown are %r", groups, got)
                for p, x, y in shown:
                    require((x, y) == (names or ("Objective function 1", "Objective function 2")), "the axes are called %r, %r", x, y)
                require(os.path.exists(f) == (save and nobj == 2), "savefile %r: %s", f if save else None, "written" if os.path.exists(f) else "not written")
                require([[snap(i) for i in sp.individuals] for sp in subs] == before, "plotting changed the population")
                ctx.seen((tuple(map(str, groups)), names))
            ctx.explore(body, rng=False)
        finally:
            plt.show = old
            plt.close("all")
            shutil.rmtree(tmp, ignore_errors=True)
    return Case("plot/%d/%d/%d/%s" % (nobj, nsub, n, save), fn)


def lookup_case():
    """the sub-population an individual belongs to"""
    def fn(ctx):
        def body(ch):
            kind = ch.pick(("bit", "tree"), "kind")
            sizes = [1 + ch.choose(2, "size") for _ in range(1 + ch.choose(3, "sub-populations"))]
            pop = build(kind, [[1.0] * n for n in sizes], False, 0.0)
            for k, sp in enumerate(pop.sub_populations):
                for i in sp.individuals:
                    require(pop.find_individual_subpopulation(i) is sp, "an individual of sub-population %d of %r is found elsewhere", k, sizes)
                    require([q.contains_individual(i) for q in pop.sub_populations] == [q is sp for q in pop.sub_populations], "an individual of sub-population %d of %r is said to be in others", k, sizes)
                    try:
                        got = pop.find_individual_subpopulation(i.clone())
                    except ValueError:
                        pass
                    else:
                        raise Violation("a clone that is in no sub-population is found in %r" % got)
            ctx.seen((kind, tuple(sizes)))
        ctx.explore(body, rng=False)
    return Case("lookup", fn)


def cases(tier):
    q = tier == "quick"
    D = (1.0, 0.0, -2.5, INF, 3) if q else (1.0, 0.0, -2.5, INF, 3, -INF, 1e-7)
    out = []
    for hib in (False, True):
        for kind, w in (("bit", 0.0), ("tree", 0.0), ("tree", 0.5)):
            for sizes in ((1,), (2,), (3,), (4,), (1, 2)) + (() if q else ((2, 2), (1, 1, 2))):
                out.append(figures_case(kind, sizes, D if sum(sizes) < 4 else D[:4 if q else 6], hib, w))
            out.append(figures_case(kind, (2, 1, 2), (0.0, 1.0) if q else (0.0, -1.0, 1.0), hib, w))
            out.append(figures_case(kind, (2, 2), (-INF, 0.5, 1.0), hib, w))
            out.append(figures_case(kind, (5,), (0.0, -1.0, 1.0), hib, w))
            out.append(figures_case(kind, (17,), (0.5, -3.0, 4.0, INF, -1e9, 0.25, 1e9), hib, w, 2, "large"))
            out.append(figures_case(kind, (40,) if q else (60,), (0.5, -3.0, 4.0, 0.5 + 1e-12), hib, w, 1 if q else 2, "large"))
            out.append(figures_case(kind, (3, 2) * 6, (-1.0, -3.0, 4.0), hib, w, 1 if q else 2, "large"))
    out.append(format_case())
    for dirs in product((False, True), repeat=2):
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            out.append(moe_case(n, 2, dirs, 1))
        out.append(moe_case(1, 2, dirs, 2))
    out.append(moe_case(3, 1, (False,), 1))
    out.append(moe_case(4, 1, (True,), 1))
    out.append(moe_case(3, 3, (False, True, False), 1))
    out.append(moe_case(2, 3, (False, False, False), 2))
    for multi in (False, True):
        for k in (1, 2):
            out.append(run_case(multi, k, 3))
    for save in (False, True):
        out.append(plot_case(2, 1, 1, save))
    out += [plot_case(2, 1, 2, False), plot_case(2, 2, 1, False), plot_case(3, 1, 2, False), plot_case(1, 1, 1, True), plot_case(3, 1, 1, True), lookup_case()]
    return out
