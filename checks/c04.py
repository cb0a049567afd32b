"""C04: the main loop, its announcements and its end."""
from .common import *
from eckity.algorithms.algorithm import Algorithm
from eckity.creators import GABitStringVectorCreator
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.multi_objective_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.statistics.statistics import Statistics
from eckity.termination_checkers import TerminationChecker

BOUNDS = {"quick": "max_generation 0..4, every answer sequence of 0, 1 or 2 checkers, 0..2 statistics, simple/multi-objective/custom algorithms, thread and process executors, given or created populations; runs of 12 and 33 generations stopped at every generation",
          "thorough": "as quick with max_generation up to 7 and 3 checkers"}
ASSUMPTIONS = ["executors run tasks when submitted; real random draws under fixed seeds"]


class At(TerminationChecker):
    """stops at one generation"""

    def __init__(self, name, at, log):
        super().__init__()
        self.name, self.at, self.log = name, at, log

    def should_terminate(self, population, best_individual, gen_number):
        self.log.append(("ask", self.name, gen_number))
        return gen_number == self.at


def long_case(kind, mg):
    """long runs that stop at every generation, or not at all"""
    def fn(ctx):
        def body(ch):
            at = ch.choose(mg + 2, "stops at")
            log = []
            with execs.mode("sync") as ex:
                alg, sp = build(kind, ch, log, mg, 0, 1, True, "thread", False, 2, [At("a", -5, log), At("b", at, log)])
                seen = []
                alg.register("after_generation", lambda s, d: seen.append(d["generation_num"]))
                ends = []
                alg.register("evolution_finished", lambda s, d: ends.append(alg.generation_num))
                alg.evolve()
                require(ex.created and all(x._closed for x in ex.created), "%s: workers are not released after %d of %d generations", kind, at, mg)
            last = min(at, mg)
            want = [0] if last == 0 and at == 0 else list(range(1, last + 1))
            require(seen == want, "%s stopped at %d of %d: generations %r announced, expected %r", kind, at, mg, seen, want)
            require(ends == [last] and alg.final_generation_ == last and alg.generation_num == last, "%s stopped at %d of %d: ends %r final_generation_ %r generation_num %r", kind, at, mg, ends, alg.final_generation_, alg.generation_num)
            asked = [e[2] for e in log if e[0] == "ask" and e[1] == "a"]
            require(asked == list(range(last + 1)), "%s stopped at %d of %d: checkers consulted in %r", kind, at, mg, asked)
            asked = [e[2] for e in log if e[0] == "ask" and e[1] == "b"]
            require(asked == list(range(last + 1)), "%s stopped at %d of %d: checkers consulted in %r", kind, at, mg, asked)
            if kind != "minimal":
                st = [e[2] for e in log if e[0] == "stat"]
                require(st == want, "%s stopped at %d of %d: statistics of %r", kind, at, mg, st)
            ctx.seen((at, mg))
        ctx.explore(body, rng=False)
    return Case("long/%s/max%d" % (kind, mg), fn)


class Asked(TerminationChecker):
    def __init__(self, name, ch, log):
        super().__init__()
        self.name, self.ch, self.log = name, ch, log

    def should_terminate(self, population, best_individual, gen_number):
        a = bool(self.ch.choose(2, "stop?"))
        self.log.append(("ask", self.name, gen_number, a, id(population), id(best_individual),
                         [score_of(i) for s in population.sub_populations for i in s.individuals]))
        return a


class Stat(Statistics):
    def __init__(self, name, log):
        super().__init__("")
        self.name, self.log = name, log

    def write_statistics(self, sender, data_dict):
        self.log.append(("stat", self.name, data_dict["generation_num"], id(data_dict["population"])))


class Ev(SimpleIndividualEvaluator):
    def __init__(self, log, multi):
        super().__init__()
        self.log, self.multi = log, multi

    def evaluate_individual(self, individual):
        v = sum(b << i for i, b in enumerate(individual.get_vector()))
        self.log.append(("eval", individual.id))
        return [float(v), float(-v)] if self.multi else float(v)


class Minimal(Algorithm):
    """a user's own algorithm"""

    def execute(self, **kw):
        return None

    def generation_iteration(self, gen):
        self.breeder.breed(self.population)
        self.best_of_gen = self.population_evaluator.act(self.population)

    def event_name_to_data(self, name):
        d = dict(super().event_name_to_data(name))
        d.update(generation_num=self.generation_num, population=self.population,
                 best_of_gen=getattr(self, "best_of_gen", None), best_of_run_=self.best_of_run_)
        return d


def build(kind, ch, log, mg, ncheck, nstat, as_list, executor, given, n, tcs=None):
    multi = kind == "nsga2"
    ft = NSGA2Fitness if multi else SimpleFitness
    cr = GAVectorCreator(length=3, bounds=(0, 1), vector_type=BitStringVector, fitness_type=ft)
    inds = None
    if given:
        inds = [BitStringVector(fitness=ft(higher_is_better=False), length=3, vector=[(i >> b) & 1 for b in range(3)]) for i in range(n)]
    sp = Subpopulation(evaluator=Ev(log, multi), creators=cr, operators_sequence=[BitStringVectorFlipMutation(probability=0.5)],
                       selection_methods=[(TournamentSelection(tournament_size=2), 1)], population_size=n, individuals=inds)
    checkers = [Asked("c%d" % i, ch, log) for i in range(ncheck)]
    tc = None if not checkers else (checkers if as_list or ncheck > 1 else checkers[0])
    tc = tcs or tc
    stats = [Stat("s%d" % i, log) for i in range(nstat)]
    if nstat == 1 and not as_list:
        stats = stats[0]
    kw = dict(population=sp, statistics=stats, termination_checker=tc, max_generation=mg, executor=executor, max_workers=1, random_seed=7)
    if kind == "simple":
        return SimpleEvolution(**kw), sp
    if kind == "nsga2":
        return NSGA2Evolution(**kw), sp
    return Minimal(breeder=SimpleBreeder(), population_evaluator=SimplePopulationEvaluator(), **kw), sp


def loop_case(kind, mg, ncheck, nstat, as_list, executor, given):
    def fn(ctx):
        n = 2

        def body(ch):
            log = []
            with execs.mode("sync") as ex:
                alg, sp = build(kind, ch, log, mg, ncheck, nstat, as_list, executor, given, n)
                pop = alg.population
                what = "%s, max_generation %d, %d checkers" % (kind, mg, ncheck)

                def on(name):
                    def cb(sender, data):
                        e = {"sender": sender is alg}
                        if name != "init" or "population" in data:
                            e["pop"] = data.get("population") is pop
                        e["gen"] = data.get("generation_num")
                        e["attr"] = alg.generation_num
                        e["scores"] = [score_of(i) for i in sp.individuals]
                        e["ids"] = [i.id for i in sp.individuals]
                        b = data.get("best_of_gen")
                        e["best"] = b
                        e["closed"] = [x._closed for x in ex.created]
                        log.append((name, e))
                    return cb
                for nm in ("init", "after_generation", "evolution_finished"):
                    alg.register(nm, on(nm))
                alg.evolve()
                require(ex.created and all(x._closed for x in ex.created), "%s: workers are not released at the end of the run", what)
            # reference: replay the answers
            answers = {}
            for e in log:
                if e[0] == "ask":
                    answers.setdefault(e[2], []).append(e)
            last, g = mg, 0
            while g <= mg:
                if any(a[3] for a in answers.get(g, [])):
                    last = g
                    break
                g += 1
            announced = [0] if last == 0 and mg >= 0 and any(a[3] for a in answers.get(0, [])) else list(range(1, last + 1))
            # checkers: every checker once in generations 0..last
            want = [("c%d" % i, g) for g in range(0, last + 1) for i in range(ncheck)]
            got = [(e[1], e[2]) for e in log if e[0] == "ask"]
            require(sorted(want) == sorted(got) and [x[1] for x in got] == [x[1] for x in want],
                    "%s: checkers were consulted as %r, expected %r", what, got, want)
            for e in log:
                if e[0] == "ask":
                    require(e[4] == id(pop), "%s: checker got another population", what)
                    require(None not in e[6], "%s: a checker was consulted before generation %d was evaluated", what, e[2])
            evs = [e for e in log if e[0] in ("init", "after_generation", "evolution_finished")]
            names = [e[0] for e in evs]
            require(names == ["init"] + ["after_generation"] * len(announced) + ["evolution_finished"],
                    "%s: announced %r, expected generations %r", what, names, announced)
            gens = [e[1]["gen"] for e in evs if e[0] == "after_generation"]
            require(gens == announced, "%s: announced generation numbers %r, expected %r", what, gens, announced)
            require([e[1]["attr"] for e in evs if e[0] == "after_generation"] == announced, "%s: generation_num is not the announced generation", what)
            require(alg.final_generation_ == last, "%s: final_generation_ is %r after %d generations", what, alg.final_generation_, last)
            require(alg.generation_num == last, "%s: generation_num is %r after %d generations", what, alg.generation_num, last)
            # evaluations
            neval = sum(1 for e in log if e[0] == "eval")
            per = [n] + [2 * n if kind == "nsga2" else n] * last
            low = [n] + [n] * last
            require(sum(low) <= neval <= sum(per), "%s: %d evaluations in %d generations, expected %d", what, neval, last, sum(per))
            # order: for each generation eval*, ask*, after_generation, stats
            cnt = 0
            for e in log:
                if e[0] == "eval":
                    cnt += 1
                elif e[0] == "init":
                    require(cnt == n, "%s: initialization announced after %d evaluations", what, cnt)
                elif e[0] == "after_generation":
                    g = e[1]["gen"]
                    require(sum(low[:g + 1]) <= cnt <= sum(per[:g + 1]), "%s: generation %d announced after %d evaluations", what, g, cnt)
                    require(e[1]["sender"] and e[1]["pop"], "%s: wrong sender or population announced", what)
                    require(None not in e[1]["scores"] and len(e[1]["ids"]) == n, "%s: generation %d announced with unevaluated individuals", what, g)
                    if kind == "simple" and g > 0:
                        b = e[1]["best"]
                        require(b is not None and b.id in e[1]["ids"] and e[1]["scores"][e[1]["ids"].index(b.id)] == min(e[1]["scores"]),
                                "%s: best individual announced with generation %d is not that generation's best", what, g)
                    if kind == "nsga2" and g > 0:
                        b = e[1]["best"]
                        require(len(b) == 1 and len(b[0]) > 0 and all(i.id in e[1]["ids"] for i in b[0]),
                                "%s: the front announced with generation %d is not of that generation", what, g)
            # statistics
            if kind != "minimal":
                st = [(e[1], e[2]) for e in log if e[0] == "stat"]
                want = [("s%d" % i, g) for g in announced for i in range(nstat)]
                require(st == want, "%s: statistics written %r, expected %r", what, st, want)
                for e in log:
                    if e[0] == "stat":
                        require(e[3] == id(pop), "%s: statistics of another population", what)
            ctx.note("stopped at %d of %d" % (last, mg))
            ctx.seen((last, got, [e[1]["scores"] for e in evs]))
        ctx.explore(body, rng=False)
    return Case("loop/%s/max%d/checkers%d/stats%d/%s/%s/%s" % (kind, mg, ncheck, nstat, "list" if as_list else "one", executor, "given" if given else "created"), fn)


def evaluator_fails_case(kind):
    """a fitness function that raises ends the run with that error"""
    def fn(ctx):
        class Boom(Ev):
            def evaluate_individual(self, individual):
                self.left -= 1
                if self.left < 0:
                    raise KeyError("boom")
                return super().evaluate_individual(individual)

        def body(ch):
            log = []
            with execs.mode("sync"):
                alg, sp = build(kind, ch, log, 2, 0, 0, False, "thread", False, 2)
                sp.evaluator = Boom(log, kind == "nsga2")
                sp.evaluator.left = ch.choose(5, "evaluations before failure")
                try:
                    alg.evolve()
                except KeyError:
                    ctx.seen(len(log))
                    return
            raise Violation("%s: an error raised by the fitness function did not reach the caller" % kind)
        ctx.explore(body, rng=False)
    return Case("evaluator-fails/" + kind, fn)


def cases(tier):
    q = tier == "quick"
    out = []
    for kind in ("simple", "nsga2", "minimal"):
        for mg in range(0, 5 if q else 8):
            for ncheck in ((0, 1, 2) if q else (0, 1, 2, 3)):
                if ncheck * (mg + 1) > (10 if q else 14):
                    continue
                out.append(loop_case(kind, mg, ncheck, (mg + ncheck) % 4, mg % 2 == 0 or (mg + ncheck) % 4 > 1, "thread" if ncheck else "process", mg % 2 == 1))
        out.append(loop_case(kind, 3, 1, 2, True, "process", True))
        out.append(loop_case(kind, 3, 1, 1, False, "thread", False))
        out.append(loop_case(kind, 2, 1, 5, True, "thread", False))
        out.append(evaluator_fails_case(kind))
        for mg in (12, 33) if q else (12, 33, 101, 130):
            out.append(long_case(kind, mg))
    return out
