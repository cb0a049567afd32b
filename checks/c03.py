"""C03: best of run, best and worst of generation."""
from .common import *
from eckity.creators import GABitStringVectorCreator, GrowCreator
from eckity.multi_objective_evolution import NSGA2Evolution

BOUNDS = {"quick": "populations of 2-3, up to 3 generations, every score of every evaluation from a domain of 2-4 values (ties, negatives, infinities), both directions, bloat weights, elites; runs of 4-12 generations of 5-20 individuals with the best evaluation at every place; operators drawn under fixed seeds",
          "thorough": "larger domains and populations (up to 4), more seeds"}
ASSUMPTIONS = ["scores are arbitrary per evaluation (a superset of deterministic fitness functions); selection and variation use the real seeded generators"]


def t_add(a, b):
    return a + b


def t_neg(a):
    return -a


class ChooseEv(SimpleIndividualEvaluator):
    def __init__(self, ch, domain, log):
        super().__init__()
        self.ch, self.domain, self.log = ch, domain, log

    def evaluate_individual(self, individual):
        v = self.ch.pick(self.domain, "score")
        self.log.append((individual.id, genome(individual), v, individual.size()))
        return v


def aug(rec, hib, w):
    v = rec[2]
    return v - w * rec[3] if hib else v + w * rec[3]


def best_case(kind, n, gens, domain, hib, n_elite, w, seed, bound, sel="tour", cache=False):
    def fn(ctx):
        def body(ch):
            log = []
            if kind == "bit":
                cr = GABitStringVectorCreator(length=4)
                ops = [VectorKPointsCrossover(k=1, probability=0.7), BitStringVectorFlipMutation(probability=0.7)] if n % 2 == 0 else [
                    BitStringVectorNFlipMutation(probability=0.7, n=2)]
            else:
                cr = GrowCreator(init_depth=(0, 2), function_set=[t_add, t_neg], terminal_set=["x", 1], bloat_weight=w)
                ops = [SubtreeCrossover(probability=0.7), SubtreeMutation(probability=0.7, init_depth=(0, 2))] if n % 2 == 0 else [
                    SubtreeMutation(probability=0.7, init_depth=(0, 2)), ERCMutation(probability=0.7)]
            s = TournamentSelection(tournament_size=2, higher_is_better=hib) if sel == "tour" else FitnessProportionateSelection(higher_is_better=hib)
            sp = Subpopulation(evaluator=ChooseEv(ch, domain, log), creators=cr, operators_sequence=ops, selection_methods=[(s, 1)],
                               elitism_rate=n_elite / n, population_size=n, higher_is_better=hib)
            alg = SimpleEvolution(sp, max_generation=gens, executor="thread", max_workers=1, random_seed=seed)
            what = "%s n=%d %s elites=%d bloat=%g" % (kind, n, "max" if hib else "min", n_elite, w)
            better = (lambda a, b: a > b) if hib else (lambda a, b: a < b)
            marks = []

            def check_run(g):
                b = alg.best_of_run_
                recs = [r for r in log if r[0] == b.id]
                require(recs, "%s: the best of the run after generation %d was never evaluated", what, g)
                r = recs[-1]
                require(genome(b) == r[1], "%s: generation %d: the best individual's genome changed since it was evaluated: %r -> %r", what, g, r[1], genome(b))
                require(b.fitness.is_fitness_evaluated() and b.get_pure_fitness() == r[2],
                        "%s: generation %d: the best individual's score is %r, it was evaluated to %r", what, g, score_of(b), r[2])
                mine = aug(r, hib, w)
                for q in log:
                    require(not better(aug(q, hib, w), mine), "%s: after generation %d the best of the run has score %r, but %r was evaluated before (history %r)",
                            what, g, mine, aug(q, hib, w), [aug(z, hib, w) for z in log])

            def on_init(sender, data):
                marks.append(len(log))
                check_run(0)

            def on_gen(sender, data):
                g = data["generation_num"]
                cur = {r[0]: r for r in log[marks[-1]:]}
                marks.append(len(log))
                check_run(g)
                require(data["best_of_run_"] is alg.best_of_run_ and data["best_of_gen"] is alg.best_of_gen, "%s: announced best differs from the algorithm's", what)
                ids = [i.id for i in sp.individuals]
                vals = [aug(cur[i], hib, w) for i in ids]
                bg, wg = alg.best_of_gen, alg.worst_of_gen
                require(bg.id in ids and wg.id in ids, "%s: best or worst of generation %d is not in its population", what, g)
                hi, lo = (max(vals), min(vals)) if hib else (min(vals), max(vals))
                require(vals[ids.index(bg.id)] == hi, "%s: best of generation %d has score %r, scores are %r", what, g, vals[ids.index(bg.id)], vals)
                require(vals[ids.index(wg.id)] == lo, "%s: worst of generation %d has score %r, scores are %r", what, g, vals[ids.index(wg.id)], vals)
                for x in (bg, wg):
                    require(genome(x) == cur[x.id][1] and x.get_pure_fitness() == cur[x.id][2], "%s: best/worst of generation %d changed", what, g)
                ctx.seen((g, vals, ids.index(bg.id), ids.index(wg.id), aug([r for r in log if r[0] == alg.best_of_run_.id][-1], hib, w)))
            alg.register("init", on_init)
            alg.register("after_generation", on_gen)
            alg.evolve()
            require(len(marks) == gens + 1, "%s: %d generations seen", what, len(marks) - 1)
            check_run("final")
            b = alg.best_of_run_
            if kind == "bit":
                require(list(alg.execute()) == list(b.get_vector()), "%s: execute() does not return the best vector", what)
            else:
                require(alg.execute(x=3) == b.execute(x=3), "%s: execute() does not execute the best tree", what)
        ctx.explore(body, rng=False, bound=bound)
    return Case("best/%s/n%d/g%d/%s/%s/e%d/w%g/seed%d/%s" % (kind, n, gens, domain, "max" if hib else "min", n_elite, w, seed, sel), fn)


class Plan(SimpleIndividualEvaluator):
    """score of evaluation number k"""

    def __init__(self, plan, log):
        super().__init__()
        self.plan, self.log = plan, log

    def evaluate_individual(self, individual):
        v = self.plan(len(self.log))
        self.log.append((individual.id, genome(individual), v, individual.size()))
        return v


def long_case(kind, n, gens, hib, n_elite, seed):
    """longer runs: the best evaluation at every place, over level, rising and falling scores"""
    def fn(ctx):
        total = n * (gens + 1)

        def body(ch):
            at = ch.choose(total, "best evaluation")
            shape = ch.pick(("level", "worse", "better", "zigzag"), "other scores")
            sign = 1 if hib else -1

            def plan(k):
                if k == at:
                    return sign * 1000.0
                return sign * {"level": 0.0, "worse": -float(k), "better": float(k), "zigzag": float(k * 7 % 5)}[shape]
            log = []
            if kind == "bit":
                cr = GABitStringVectorCreator(length=6)
                ops = [VectorKPointsCrossover(k=2, probability=0.7), BitStringVectorFlipMutation(probability=0.7)] if n % 2 == 0 else [BitStringVectorNFlipMutation(probability=0.7, n=2)]
            else:
                cr = GrowCreator(init_depth=(0, 2), function_set=[t_add, t_neg], terminal_set=["x", 1], bloat_weight=0.125)
                ops = [SubtreeMutation(probability=0.7, init_depth=(0, 2)), ERCMutation(probability=0.7)]
            w = 0.125 if kind == "tree" else 0.0
            sp = Subpopulation(evaluator=Plan(plan, log), creators=cr, operators_sequence=ops, selection_methods=[(TournamentSelection(tournament_size=3, higher_is_better=hib), 1)],
                               elitism_rate=n_elite / n, population_size=n, higher_is_better=hib)
            alg = SimpleEvolution(sp, max_generation=gens, executor="thread", max_workers=1, random_seed=seed)
            what = "%s, %d of %d individuals, best evaluation number %d, %s scores" % (kind, gens, n, at, shape)

            def check(sender, data):
                b = alg.best_of_run_
                top = (max if hib else min)(aug(r, hib, w) for r in log)
                rec = [r for r in log if r[0] == b.id]
                require(rec and any(aug(r, hib, w) == top for r in rec), "%s: after generation %d the best of the run is %r, the best evaluated score is %r", what, alg.generation_num, rec, top)
                require(b.fitness.is_fitness_evaluated() and any((b.get_pure_fitness(), genome(b)) == (r[2], r[1]) and aug(r, hib, w) == top for r in rec),
                        "%s: after generation %d the best of the run has score %r, evaluated as %r", what, alg.generation_num, score_of(b), rec)
                if alg.generation_num:
                    cur = {r[0]: aug(r, hib, w) for r in log[-n:]}
                    require(cur.get(alg.best_of_gen.id) == (max if hib else min)(cur.values()), "%s: the best of generation %d has %r of %r", what, alg.generation_num, cur.get(alg.best_of_gen.id), cur)
                    require(cur.get(alg.worst_of_gen.id) == (min if hib else max)(cur.values()), "%s: the worst of generation %d has %r of %r", what, alg.generation_num, cur.get(alg.worst_of_gen.id), cur)
            alg.register("init", check)
            alg.register("after_generation", check)
            alg.evolve()
            check(None, None)
            ctx.seen((at, shape, genome(alg.best_of_run_)))
        ctx.explore(body, rng=False)
    return Case("long/%s/n%d/g%d/%s/e%d/seed%d" % (kind, n, gens, "max" if hib else "min", n_elite, seed), fn)


def named_case():
    """the algorithm executes its best tree whatever its variable is called"""
    def fn(ctx):
        def body(ch):
            nm = ch.pick(("x", "self", "pos", "args", "kwargs", "population", "X", "individual"), "variable")
            multi = ch.choose(2, "multi-objective")
            v = float(ch.choose(3, "value")) - 0.5
            sp = Subpopulation(evaluator=NullEvaluator(), creators=GrowCreator(init_depth=(0, 1), function_set=[t_add, t_neg], terminal_set=[nm, 1]),
                               operators_sequence=[IdentityTransformation()], selection_methods=[(TournamentSelection(2), 1)], population_size=2)
            alg = (NSGA2Evolution if multi else SimpleEvolution)(sp, max_generation=1, executor="thread", max_workers=1, random_seed=1)
            for spec in (("x",), ("-", "x"), ("+", "x", 1)):
                t = Tree(function_set=[t_add, t_neg], terminal_set=[nm, 1], fitness=GPFitness())
                t.tree = [FunctionNode(t_add) if s == "+" else FunctionNode(t_neg) if s == "-" else TerminalNode(nm if s == "x" else s) for s in spec]
                alg.best_of_run_ = t
                want = {1: v, 2: -v, 3: v + 1}[len(spec)]
                got = alg.execute(**{nm: v})
                require(got == want, "executing the best tree %r with %s=%r gives %r", t.tree, nm, v, got)
            ctx.seen((nm, multi, v))
        ctx.explore(body, rng=False)
    return Case("execute-names", fn)


def cases(tier):
    q = tier == "quick"
    D = [(1.0, 0.0, 2.0), (0, -1, 1), (0.0, INF, 1.0), (-INF, 0.0, 1.0), (1.0, 1.5, 1.25)]
    out = [named_case()]
    for hib in (False, True):
        out.append(long_case("bit", 6, 12, hib, 0, 3))
        out.append(long_case("bit", 7, 9, hib, 2, 4))
        out.append(long_case("tree", 5, 9, hib, 1, 5))
        out.append(long_case("bit", 20, 4, hib, 1, 6))
        if not q:
            out.append(long_case("bit", 6, 40, hib, 1, 7))
            out.append(long_case("tree", 12, 12, hib, 0, 8))
        for kind in ("bit", "tree"):
            for d in D:
                out.append(best_case(kind, 2, 2, d, hib, 0, 0.25 if kind == "tree" else 0.0, 3, None))
                out.append(best_case(kind, 2, 2, d, hib, 1, 0.0, 5, None))
            out.append(best_case(kind, 2, 3, (0.0, 1.0), hib, 0, 0.5 if kind == "tree" else 0.0, 4, None))
            out.append(best_case(kind, 3, 2, (0.0, 1.0), hib, 0, 0.0, 11, None))
            out.append(best_case(kind, 4, 2, D[0], hib, 1, 0.0 if kind == "bit" else 0.25, 2, 3))
            out.append(best_case(kind, 4, 3, D[1], hib, 0, 0.0 if kind == "bit" else 0.25, 9, 2))
            out.append(best_case(kind, 2, 2, (1.0, 0.0, 2.0), hib, 0, 0.0, 6, None, sel="fp"))
            if not q:
                for seed in range(20, 32):
                    out.append(best_case(kind, 3, 3, D[seed % 5], hib, 0, 0.0 if kind == "bit" else 0.25, seed, 5))
                    out.append(best_case(kind, 4, 3, D[seed % 5], hib, seed % 3, 0.0 if kind == "bit" else 1.0, seed, 4))
    return out
