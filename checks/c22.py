"""C22: contradictory configurations are refused, consistent ones run."""
import pickle

from .common import *
from . import gp
from eckity.algorithms.algorithm import Algorithm  # noqa: F401
from eckity.breeders.breeder import Breeder
from eckity.creators import FullCreator, GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator, GrowCreator, HalfCreator
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.evaluators.population_evaluator import PopulationEvaluator
from eckity.multi_objective_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.sklearn_compatible import ClassificationEvaluator
from eckity.statistics import BestAverageWorstStatistics
from eckity.multi_objective_evolution import CrowdingTerminationChecker
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import BestFitnessStagnationTerminationChecker

BOUNDS = {
    "quick": "runs of 2 generations: every encoding x every sequence of up to 2 operators of arity 1-3 x population sizes 1-7 (8-24 for bits and grown trees) x elitism rates x selections x directions x executors x dispatch methods; the full products of valid and invalid values of each argument of the sub-population, algorithm, evaluators, fitness, trees and nodes; every library operator with 0-4 individuals",
    "thorough": "population sizes up to 12 (60), operator sequences of up to 3, larger primitive sets"}
ASSUMPTIONS = ["any exception counts as a refusal; messages are free"]
ALPHA = {"random": (0.0, 0.7), "uniform": (0.5, 1.0), "gauss": (0.0, 1.0)}


def attempt(f):
    """(accepted, result or exception)"""
    try:
        return True, f()
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return False, e


class Rotate(GeneticOperator):
    """a user's operator on k individuals"""

    def __init__(self, k):
        super().__init__(probability=1.0, arity=k)
        self.groups = []

    def apply(self, individuals):
        self.groups.append(len(individuals))
        self.applied_individuals = individuals
        return individuals


class Ev(SimpleIndividualEvaluator):
    def __init__(self, multi=False):
        super().__init__()
        self.n, self.multi = 0, multi

    def evaluate_individual(self, individual):
        self.n += 1
        if isinstance(individual, Vector):
            v = float(sum(individual.get_vector()))
        else:
            v = float(len(individual.tree))
        return [v, -v] if self.multi else v


UF = dict(function_set=[gp.sub, gp.neg], terminal_set=["x", 1.0])
ENC = {
    "bit": (lambda ft: GAVectorCreator(length=2, fitness_type=ft), lambda: [VectorKPointsCrossover(probability=1, k=1), BitStringVectorFlipMutation(probability=1)]),
    "int": (lambda ft: GAVectorCreator(length=2, bounds=(-2, 3), vector_type=IntVector, fitness_type=ft), lambda: [VectorKPointsCrossover(probability=1, k=1, arity=3), IntVectorOnePointMutation(probability=1)]),
    "float": (lambda ft: GAVectorCreator(length=2, bounds=[(0.0, 1.0), (-3.0, -2.5)], vector_type=FloatVector, fitness_type=ft), lambda: [VectorKPointsCrossover(probability=1, k=1), FloatVectorGaussOnePointMutation(probability=1, mu=0.0, sigma=1.0)]),
    "grow": (lambda ft: GrowCreator(init_depth=(1, 2), **UF), lambda: [SubtreeCrossover(probability=1), SubtreeMutation(probability=1)]),
    "full": (lambda ft: FullCreator(init_depth=(2, 2), erc_range=(0, 3), **UF), lambda: [SubtreeCrossover(probability=1, arity=3), ERCMutation(probability=1)]),
}


def run_case(enc, arities, algo, tier, sizes=None):
    """a run is accepted exactly if every operator's arity divides the population size"""
    name = ("run" if sizes is None else "larger") + "/%s/%s/%s" % (algo, enc, "".join(map(str, arities)) or "none")
    multi = algo == "nsga2"

    def fn(ctx):
        def body(ch):
            size = ch.pick(sizes or range(1, 8 if tier == "quick" else 13), "population size")
            elite = 0 if multi else ch.pick((0.0, 1 / 3, 1.0) if sizes is None else (0.0, 0.1, 0.25), "elitism rate")
            hib = bool(ch.choose(2, "direction"))
            # the number of workers and the statistics vary together with the selection
            opts = ch.choose(4, "selection")
            execu = ch.pick(("thread", "process") if sizes is None else ("thread",), "executor")
            method = ch.pick(("map", "submit"), "method")
            workers = (1, 2, None, 3)[opts]
            stats = (None, [], BestAverageWorstStatistics, None)[opts] if not multi else None
            creator, lib = ENC[enc]
            ops = lib() if arities == ("lib",) else [Rotate(k) for k in arities]
            sel = [lambda: None, lambda: [(TournamentSelection(tournament_size=2, higher_is_better=hib), 1)],
                   lambda: [(FitnessProportionateSelection(higher_is_better=hib), 1)] if enc == "bit" and not multi else None,
                   lambda: [(TournamentSelection(tournament_size=1, replace=False, higher_is_better=hib), 1)]][opts]()
            ev = Ev(multi)
            sp = Subpopulation(evaluator=ev, creators=creator(NSGA2Fitness if multi else SimpleFitness), operators_sequence=ops,
                               selection_methods=sel, elitism_rate=elite, population_size=size, higher_is_better=hib)
            require(abs(sp.n_elite - elite * size) <= 0.5, "elitism rate %r of %d individuals gives %d elites", elite, size, sp.n_elite)
            pop = Population([sp])
            stat_list = [] if stats is None or stats == [] else [stats(format_string="")]
            seen = []
            kw = {} if stats is None else {"statistics": stat_list}
            cls = NSGA2Evolution if multi else SimpleEvolution
            alg = cls(pop, breeder=None if multi or opts % 2 else SimpleBreeder(), population_evaluator=SimplePopulationEvaluator(executor_method=method),
                      max_generation=2, random_seed=opts + 1, executor=execu, max_workers=workers, **kw)
            alg.register("after_generation", lambda s, d: seen.append(s.generation_num))
            state = {}
            alg.register("init", lambda s, d: state.update(inds=list(sp.individuals), g=[genome(i) for i in sp.individuals], sc=[score_of(i) for i in sp.individuals]))
            ks = [o.get_operator_arity() for o in ops]
            # the multi-objective breeder takes any size
            want = multi or all(size % k == 0 for k in ks)
            w = "%s, operators of arity %r, %d individuals, elitism rate %r, options %r" % (name, ks, size, elite, (opts, execu, method))
            with execs.mode("sync"):
                ok, res = attempt(alg.evolve)
            require(ok == want, "%s: the run was %s (%r)", w, "accepted" if ok else "refused", res)
            if ok:
                require(alg.final_generation_ == 2 and seen == [1, 2], "%s: final generation %r, announced %r", w, alg.final_generation_, seen)
                require(len(sp.individuals) == size and sp.population_size == size, "%s: %d individuals at the end", w, len(sp.individuals))
                require(all(i.fitness.is_fitness_evaluated() for i in sp.individuals), "%s: an individual of the final population has no score", w)
                require(alg.population is pop and alg.max_generation == 2 and alg.random_seed == opts + 1 and alg.max_workers == workers, "%s: an option was changed", w)
                if not multi:
                    r = alg.execute(x=0.5) if enc in ("grow", "full") else alg.execute()
                    require(r is not None, "%s: executing gives nothing", w)
            else:
                require(seen == [], "%s: a refused run announced generations %r", w, seen)
                if "inds" in state:
                    now = sp.individuals
                    require(len(now) == len(state["inds"]) and all(a is b for a, b in zip(now, state["inds"])), "%s: the refusal replaced individuals", w)
                    require([genome(i) for i in now] == state["g"] and [score_of(i) for i in now] == state["sc"], "%s: the refusal changed individuals", w)
            ctx.seen((w, ok))
        ctx.explore(body, rng=False)
    return Case(name, fn)


def subpop_case():
    """creators, their probabilities, operators: accepted exactly if complete and consistent"""
    def fn(ctx):
        mk = lambda: GABitStringVectorCreator(length=1)
        creators = [("none", None, 0), ("empty", [], 0), ("one", mk(), 1), ("list1", [mk()], 1), ("list2", [mk(), mk()], 2), ("list3", [mk(), mk(), GAIntVectorCreator(length=1)], 3),
                    ("type", GABitStringVectorCreator, 0), ("text", "bits", 0), ("mixed", [mk(), "bits"], 0), ("none in list", [None, mk()], 0), ("number", 3, 0), ("operator", [BitStringVectorFlipMutation()], 0)]
        pcrs = [None, [1], [1.0], [0.5, 0.5], [0.25, 0.75], [0.1, 0.2, 0.7], [1 / 3] * 3, [1, 0], [0.0, 1.0, 0.0], [], [0.5], [0.9], [1.5], [0.6, 0.6], [0.5, 0.49], [0.99, 0.02], [0.2, 0.2, 0.2], [0, 0], [0.3, 0.3, 0.399], [2]]
        opsl = [None, [IdentityTransformation()], [BitStringVectorFlipMutation(), VectorKPointsCrossover(k=1)]]

        def body(ch):
            cn, cr, n = ch.pick(creators, "creators")
            pcr = ch.pick(pcrs, "probabilities")
            ops = ch.pick(opsl, "operators")
            hib = bool(ch.choose(2, "direction"))
            want = n > 0 and ops is not None and (pcr is None or (len(pcr) == n and abs(sum(pcr) - 1) < 1e-6))
            kc = list(cr) if isinstance(cr, list) else cr
            kp, ko = None if pcr is None else list(pcr), None if ops is None else list(ops)
            ev = NullEvaluator()
            ok, sp = attempt(lambda: Subpopulation(evaluator=ev, creators=cr, pcr=pcr, operators_sequence=ops, population_size=3, higher_is_better=hib))
            w = "creators %s, probabilities %r, operators %s" % (cn, pcr, "none" if ops is None else len(ops))
            require(ok == want, "%s were %s (%r)", w, "accepted" if ok else "refused", sp)
            require(cr == kc and pcr == kp and ops == ko, "%s: the given lists were changed", w)
            if ok:
                require(list(sp.creators) == (cr if isinstance(cr, list) else [cr]), "%s: the creators are %r", w, sp.creators)
                require(list(sp.get_operators_sequence()) == ops, "%s: the operators are %r", w, sp.get_operators_sequence())
                sel = sp.get_selection_methods()
                require(len(sel) == 1 and isinstance(sel[0][0], TournamentSelection) and sel[0][0].higher_is_better is hib, "%s: the default selection is %r for higher is better %r", w, sel, hib)
                require(sp.evaluator is ev and sp.population_size == 3 and sp.higher_is_better is hib and sp.n_elite == 0, "%s: an option was changed", w)
                sp.create_subpopulation_individuals()
                require(len(sp.individuals) == 3, "%s: %d individuals created", w, len(sp.individuals))
            ctx.seen((w, ok))
        ctx.explore(body, rng=False)
    return Case("sub-population", fn)


def elite_case():
    """the number of elites is the rate's share of the population"""
    def fn(ctx):
        def body(ch):
            n = 1 + ch.choose(30, "size")
            k = ch.choose(n + 1, "elites")
            for rate in {k / n, round(k / n, 3), min(1.0, k / n + 0.3 / n), max(0.0, k / n - 0.3 / n)}:
                sp = Subpopulation(evaluator=NullEvaluator(), creators=GABitStringVectorCreator(), operators_sequence=[], population_size=n, elitism_rate=rate)
                require(sp.n_elite == k, "elitism rate %r of %d individuals gives %d elites, expected %d", rate, n, sp.n_elite, k)
            ctx.seen((n, k))
        ctx.explore(body, rng=False)
    return Case("elites", fn)


class OtherBreeder(Breeder):
    def apply_breed(self, population):
        pass


class OtherEvaluator(PopulationEvaluator):
    def _evaluate(self, population):
        return population.sub_populations[0].individuals[0]


def algorithm_case(multi):
    cls = NSGA2Evolution if multi else SimpleEvolution

    def fn(ctx):
        def mk():
            return Subpopulation(evaluator=Ev(multi), creators=GAVectorCreator(length=2, fitness_type=NSGA2Fitness if multi else SimpleFitness),
                                 operators_sequence=[BitStringVectorFlipMutation(probability=1)], population_size=2)
        pops = [("none", lambda: None, False), ("empty", lambda: [], False), ("sub-population", mk, True), ("list", lambda: [mk()], True), ("population", lambda: Population([mk()]), True),
                ("text", lambda: "population", False), ("list of text", lambda: ["a"], False), ("mixed", lambda: [mk(), None], False), ("tuple", lambda: (mk(),), False), ("individuals", lambda: [bit([0, 1])], False), ("number", lambda: 7, False)]
        st = lambda: BestAverageWorstStatistics(format_string="")
        stats = [("unset", None, True), ("empty", lambda: [], True), ("one", st, True), ("two", lambda: [st(), st()], True), ("text", lambda: "best", False), ("mixed", lambda: [st(), 3], False), ("class", lambda: BestAverageWorstStatistics, False), ("number", lambda: 1, False), ("none in list", lambda: [None], False)]
        brs = [("unset", None, True)] + ([] if multi else [("simple", SimpleBreeder, True), ("other", OtherBreeder, False), ("text", lambda: "breeder", False)])
        evs = [("unset", None, True)] + ([("simple", SimplePopulationEvaluator, True)] if multi else [("simple", SimplePopulationEvaluator, True), ("other", OtherEvaluator, False), ("text", lambda: "evaluator", False)])
        exe = [("unset", None, True), ("thread", lambda: "thread", True), ("process", lambda: "process", True), ("text", lambda: "threads", False), ("none", lambda: None, False), ("upper", lambda: "Thread", False), ("plural", lambda: "processes", False), ("short", lambda: "proc", False), ("empty", lambda: "", False)]

        def body(ch):
            pn, p, okp = ch.pick(pops, "population")
            kw, names, ok_all = {}, [pn], okp
            for key, vals in (("statistics", stats), ("breeder", brs), ("population_evaluator", evs), ("executor", exe)):
                if key != "statistics" and multi and not vals[1:]:
                    continue
                nm, v, okv = ch.pick(vals, key)
                names.append("%s %s" % (key, nm))
                ok_all = ok_all and okv
                if v is not None:
                    kw[key] = v()
            pop = p()
            keep = list(pop) if isinstance(pop, list) else pop
            w = ", ".join(names)
            workers = ch.pick((1, 3), "workers") if okp and ok_all else 1
            ok, alg = attempt(lambda: cls(pop, max_generation=1, random_seed=3, max_workers=workers, **kw))
            require(ok == ok_all, "%s: %s was %s (%r)", cls.__name__, w, "accepted" if ok else "refused", alg)
            if isinstance(pop, list):
                require(len(pop) == len(keep) and all(a is b for a, b in zip(pop, keep)), "%s: %s: the given list was changed", cls.__name__, w)
            if ok:
                subs = [pop] if isinstance(pop, Subpopulation) else pop if isinstance(pop, list) else pop.sub_populations
                require(len(alg.population.sub_populations) == len(subs) and all(a is b for a, b in zip(alg.population.sub_populations, subs)), "%s: %s: other sub-populations", cls.__name__, w)
                s = kw.get("statistics")
                s = [] if s is None else s if isinstance(s, list) else [s]
                require(len(alg.statistics) == len(s) and all(a is b for a, b in zip(alg.statistics, s)), "%s: %s: other statistics %r", cls.__name__, w, alg.statistics)
                for key in ("breeder", "population_evaluator"):
                    if key in kw:
                        require(getattr(alg, key) is kw[key], "%s: %s: %s was replaced", cls.__name__, w, key)
                with execs.mode("sync") as mode:
                    alg.evolve()
                    require(set(mode.used) <= {(k, workers) for k in ([kw["executor"]] if "executor" in kw else ["thread", "process"])}, "%s: %s, %d workers: evaluated with %r", cls.__name__, w, workers, mode.used)
                require(alg.final_generation_ == 1, "%s: %s: the run ended in generation %r", cls.__name__, w, alg.final_generation_)
            ctx.seen((w, ok))
        with execs.mode("sync"):
            ctx.explore(body, rng=False)
    return Case("algorithm/%s" % cls.__name__, fn)


def part_typed(a: float, b) -> float:
    return a - b


def part_noret(a: float, b: float):
    return a - b


def part_onlyret(a, b) -> float:
    return a - b


def expected_tree(fset, tset, root, erc):
    """the documented rules for primitive sets"""
    if fset is None or tset is None or not all(callable(f) for f in fset) or not isinstance(tset, (list, dict)):
        return False
    hints = [dict(getattr(f, "__annotations__", {})) for f in fset]
    if isinstance(tset, list):
        return not any(hints)
    if not all(isinstance(t, type) for t in tset.values()):
        return False
    rets = {gp.ret_type(f) for f in fset}
    et = type(erc[0]) if erc else None
    if root not in rets or (et is not None and et not in rets):
        return False
    args = {t for f in fset for t in gp.arg_types(f)}
    return args == set(tset.values()) | ({et} if et is not None else set())


def tree_case(kind):
    fpool = {"untyped": [gp.sub, gp.neg, gp.ite], "typed": [gp.t_sub, gp.t_lt, gp.t_not, gp.t_pick, gp.t_floor, gp.t_scale], "mixed": [gp.sub, gp.t_sub, gp.t_not, 3, "sub"]}[kind]
    tpool = [["x"], ["x", "y", 1.0, 0], [], {"x": float}, {"x": float, True: bool}, {"x": float, 2: int}, {"b": bool}, {"x": float, "b": bool, "n": int}, {"n": int}, {"x": "float"}, {"x": None}, {"x": float, "y": 3}, {}, ("x", "y"), {"x", "y"}, "xy", None]
    roots = [None, float, bool, int]
    ercs = [None, (-1.0, 1.0), (0, 3)]

    def fn(ctx):
        def body(ch):
            m = ch.choose(2 ** len(fpool) + 1, "functions")
            fset = None if m == 2 ** len(fpool) else [f for i, f in enumerate(fpool) if m >> i & 1]
            if fset == []:
                raise Skip()      # nothing to build with; not a contradiction of types
            tset = ch.pick(tpool, "terminals")
            root = ch.pick(roots, "root type") if kind != "untyped" else None
            erc = ch.pick(ercs, "constants")
            if isinstance(tset, dict) and fset is not None and any(callable(f) and not f.__annotations__ for f in fset):
                raise Skip()      # functions without types among typed terminals: outside the documented rules
            want = expected_tree(fset, tset, root, erc)
            kf, kt = None if fset is None else list(fset), tset.copy() if isinstance(tset, (list, dict)) else tset
            w = "functions %r, terminals %r, root type %s, constants %r" % ([getattr(f, "__name__", f) for f in fset] if fset is not None else None, tset, tname(root), erc)
            ok, t = attempt(lambda: Tree(fitness=GPFitness(), function_set=fset, terminal_set=tset, root_type=root, erc_range=erc))
            require(ok == want, "a tree with %s was %s (%r)", w, "accepted" if ok else "refused", t)
            require(fset == kf and tset == kt, "%s: the given sets were changed", w)
            if ok:
                require(list(t.function_set) == fset and t.root_type is root and t.erc_range == erc, "%s: the tree has other primitives", w)
                require(list(t.terminal_set) == list(tset) and (not isinstance(tset, dict) or dict(t.terminal_set) == tset), "%s: the tree's terminals are %r", w, t.terminal_set)
            else:
                for c in (FullCreator, GrowCreator):
                    ok2, r = attempt(lambda: c(init_depth=(1, 2), function_set=fset, terminal_set=tset, root_type=root, erc_range=erc).create_individuals(1, False))
                    require(not ok2, "%s: %s creates %r", w, c.__name__, r)
            ctx.seen((w, ok))
        ctx.explore(body, rng=False)
    return Case("primitives/" + kind, fn)


def node_case():
    def fn(ctx):
        ok_f = [gp.sub, gp.neg, gp.ite, gp.t_sub, gp.t_lt, gp.t_not, gp.t_pick, gp.t_scale]
        bad_f = [part_typed, part_noret, part_onlyret]

        def body(ch):
            f = ch.pick(ok_f + bad_f, "function")
            ok, n = attempt(lambda: FunctionNode(f))
            require(ok == (f in ok_f), "a node of %s was %s (%r)", f.__name__, "accepted" if ok else "refused", n)
            if ok:
                require(n.function is f and n.node_type is gp.ret_type(f), "the node of %s has the type %r", f.__name__, n.node_type)
            ctx.seen(f.__name__)
        ctx.explore(body, rng=False)
    return Case("nodes", fn)


def names_case():
    """options given by name, attempts, directions"""
    def fn(ctx):
        todo = []
        for m in ("map", "submit", "Map", "", None, "apply", 1):
            todo.append(("executor method %r" % (m,), lambda m=m: SimplePopulationEvaluator(executor_method=m), m in ("map", "submit"), lambda o, m=m: o.executor_method == m))
        for m in ("sigmoid", "argmax", "softmax", "max", "", None, "Sigmoid", 0):
            todo.append(("labelling method %r" % (m,), lambda m=m: ClassificationEvaluator(clf_method=m), m in ("sigmoid", "argmax", "softmax"), lambda o, m=m: o.clf_method == m))
        for h in (True, False, None):
            todo.append(("direction %r" % h, lambda h=h: SimpleFitness(higher_is_better=h), h is not None, lambda o, h=h: o.higher_is_better is h))
            todo.append(("direction of trees %r" % h, lambda h=h: GPFitness(higher_is_better=h), h is not None, lambda o, h=h: o.higher_is_better is h))
        for a in (-2, -1, 0, 1, 2, 5):
            for cls in (SubtreeCrossover, SubtreeMutation, FloatVectorGaussOnePointMutation, FloatVectorGaussNPointMutation, lambda **k: VectorNPointMutation(n=1, **k)):
                todo.append(("%d attempts" % a, lambda a=a, cls=cls: cls(attempts=a), a >= 1, lambda o, a=a: o.attempts == a))
        for kind in (FullCreator, GrowCreator):
            for f, t in itertools.product((None, [gp.sub]), (None, ["x"])):
                todo.append(("%s with functions %r, terminals %r" % (kind.__name__, f, t), lambda k=kind, f=f, t=t: k(function_set=f, terminal_set=t), f is not None and t is not None, lambda o, f=f, t=t: o.function_set == f and o.terminal_set == t))

        def body(ch):
            what, make, want, after = ch.pick(todo, "option")
            ok, o = attempt(make)
            require(ok == want, "%s was %s (%r)", what, "accepted" if ok else "refused", o)
            if ok:
                require(after(o), "%s: the option was changed", what)
            ctx.seen(what)
        ctx.explore(body, rng=False)
    return Case("options", fn)


def trees(n, typed=False):
    out = []
    for i in range(n):
        t = Tree(fitness=GPFitness(fitness=float(i)), erc_range=(0.0, 1.0), **UF)
        t.tree = [FunctionNode(gp.sub), TerminalNode("x"), TerminalNode(1.0)] if i % 2 else [FunctionNode(gp.neg), TerminalNode("x")]
        out.append(t)
    return out


OPS = {
    "identity": (lambda: IdentityTransformation(), "bit"), "flip": (lambda: BitStringVectorFlipMutation(probability=1), "bit"), "nflip": (lambda: BitStringVectorNFlipMutation(probability=1, n=1), "bit"),
    "kpoint2": (lambda: VectorKPointsCrossover(probability=1, k=1), "bit"), "kpoint3": (lambda: VectorKPointsCrossover(probability=1, k=1, arity=3), "bit"),
    "int1": (lambda: IntVectorOnePointMutation(probability=1), "int"), "intn": (lambda: IntVectorNPointMutation(probability=1, n=2), "int"), "npoint": (lambda: VectorNPointMutation(probability=1, n=2), "int"),
    "gauss1": (lambda: FloatVectorGaussOnePointMutation(probability=1, mu=0.0, sigma=1.0), "float"), "gaussn": (lambda: FloatVectorGaussNPointMutation(probability=1, n=1, mu=0.0, sigma=1.0), "float"),
    "uniform1": (lambda: FloatVectorUniformOnePointMutation(probability=1), "float"), "uniformn": (lambda: FloatVectorUniformNPointMutation(probability=1, n=1), "float"),
    "subtree2": (lambda: SubtreeCrossover(probability=1), "tree"), "subtree3": (lambda: SubtreeCrossover(probability=1, arity=3), "tree"), "mutation": (lambda: SubtreeMutation(probability=1), "tree"), "erc": (lambda: ERCMutation(probability=1), "tree"),
    "user1": (lambda: Rotate(1), "int"), "user2": (lambda: Rotate(2), "tree"), "user4": (lambda: Rotate(4), "bit"),
}


def act_case(name):
    """an operator acts on exactly as many individuals as it is made for"""
    make, enc = OPS[name]

    def fn(ctx):
        def body(ch):
            n = ch.choose(6, "individuals")
            op = make()
            k = op.get_operator_arity()
            inds = trees(n) if enc == "tree" else [vec({"bit": BitStringVector, "int": IntVector, "float": FloatVector}[enc], [i % 2, 1, 0], {"bit": (0, 1), "int": (0, 5), "float": (0.0, 1.0)}[enc], float(i)) for i in range(n)]
            before = [snap(i) for i in inds]
            calls = []
            op.register("before_operator", lambda s, d: calls.append("before"))
            op.register("after_operator", lambda s, d: calls.append("after"))
            given = list(inds)
            ok, r = attempt(lambda: op.act(inds))
            w = "%s (arity %d) on %d individuals" % (type(op).__name__, k, n)
            require(ok == (n == k), "%s was %s (%r)", w, "accepted" if ok else "refused", r)
            require(len(inds) == len(given) and all(a is b for a, b in zip(inds, given)), "%s: the given list was changed", w)
            if ok:
                require(calls == ["before", "after"], "%s announced %r", w, calls)
                require(len(r) == n and {id(x) for x in r} == {id(x) for x in inds}, "%s returned %d individuals or others", w, len(r))
                require(not any(i.fitness.is_fitness_evaluated() for i in inds) , "%s: the old score stays", w)
            else:
                require(calls == [], "%s: a refused application announced %r", w, calls)
                require([snap(i) for i in inds] == before, "%s: a refused application changed individuals", w)
            ctx.seen((name, n))
        ctx.explore(body, alphabet=ALPHA, bound=2)
    return Case("act/" + name, fn)


def two_case():
    """single-objective evolution refuses several sub-populations and leaves them as they are"""
    def fn(ctx):
        def body(ch):
            k = 1 + ch.choose(3, "sub-populations")
            method = ch.pick(("map", "submit"), "method")
            subs = [Subpopulation(evaluator=Ev(), creators=GABitStringVectorCreator(length=2), operators_sequence=[IdentityTransformation()], population_size=2) for _ in range(k)]
            alg = SimpleEvolution(subs, population_evaluator=SimplePopulationEvaluator(executor_method=method), max_generation=1, random_seed=1, max_workers=1)
            with execs.mode("sync"):
                ok, r = attempt(alg.evolve)
            require(ok == (k == 1), "a run with %d sub-populations was %s (%r)", k, "accepted" if ok else "refused", r)
            ctx.seen((k, method))
        with execs.mode("sync"):
            ctx.explore(body, rng=False)
    return Case("sub-populations", fn)


def terminations_case():
    """a run accepts one checker, a list of them, or none"""
    def fn(ctx):
        mk = lambda: ThresholdFromTargetTerminationChecker(optimal=100, threshold=0)
        vals = [("none", lambda: None), ("one", mk), ("list", lambda: [mk()]), ("two", lambda: [mk(), mk()]), ("empty", lambda: [])]

        def body(ch):
            nm, v = ch.pick(vals, "checker")
            g = ch.choose(4, "generations")
            names = ch.pick((None, [], ["mine"], ["mine", "yours"]), "event names")
            kept = None if names is None else list(names)
            sp = Subpopulation(evaluator=Ev(), creators=GABitStringVectorCreator(length=2), operators_sequence=[IdentityTransformation()], population_size=2)
            with execs.mode("sync"):
                alg = SimpleEvolution(sp, max_generation=g, termination_checker=v(), random_seed=1, max_workers=1, event_names=names)
                require(names == kept, "the given event names were changed")
                for n in names or []:
                    alg.register(n, lambda s, d: None)
                    alg.publish(n)
                alg.evolve()
            require(alg.final_generation_ == g, "%s checkers, at most %d generations: the run ended in generation %r", nm, g, alg.final_generation_)
            ctx.seen((nm, g, tuple(names or ())))
        ctx.explore(body, rng=False)
    return Case("checkers", fn)


# ---- options left out have the documented defaults
def _vec2(kind):
    b = {"bit": (0, 1), "int": (0, 2), "float": (-1.0, 1.0)}[kind]
    return [vec({"bit": BitStringVector, "int": IntVector, "float": FloatVector}[kind], {"bit": [0, 1], "int": [1, 1], "float": [0.5, -0.5]}[kind], b, fit=1.0)]


def _two():
    return [vec(IntVector, [0, 1, 2], (0, 9), fit=1.0), vec(IntVector, [5, 6, 7], (0, 9), fit=1.0)]


def _op(make, payload):
    def run():
        inds = payload()
        op = make()
        res = op.apply_operator(inds)
        return [(genome(i), score_of(i)) for i in res] + [op.get_operator_arity()]
    return run


def _sel(make):
    def run():
        src = [vec(IntVector, [k], (0, 9), fit=float((k * 2) % 3)) for k in range(3)]
        dst = []
        make().select(src, dst)
        return [genome(i) for i in dst]
    return run


def _checker(make, rows):
    def run():
        c = make()
        out = []
        for gen, v in enumerate(rows):
            ind = vec(IntVector, [0], (0, 9), fit=v)
            sp = Subpopulation(evaluator=Ev(), creators=GABitStringVectorCreator(length=1), operators_sequence=[IdentityTransformation()], population_size=1, individuals=[ind])
            out.append(bool(c.should_terminate(Population([sp]), ind, gen)))
        return out
    return run


def _crowd(make):
    def run():
        out = []
        for v in (0.0, 0.05, 0.0999, 0.1, 0.1001, 0.5, 1.0, INF):
            inds = [BitStringVector(fitness=NSGA2Fitness(fitness=[0.0, 1.0]), length=1, vector=[0]) for _ in range(2)]
            for i in inds:
                i.fitness.front_rank, i.fitness.crowding = 1, v
            sp = Subpopulation(evaluator=Ev(True), creators=GAVectorCreator(length=1, fitness_type=NSGA2Fitness), operators_sequence=[IdentityTransformation()], population_size=2, individuals=inds)
            out.append(bool(make().should_terminate(Population([sp]), inds[0], 1)))
        return out
    return run


def _fitness(make):
    def run():
        f = make()
        out = [f.is_fitness_evaluated()]
        g = pickle.loads(pickle.dumps(f))
        out.append(g.is_fitness_evaluated())
        hib = f.higher_is_better
        out.append(list(hib) if isinstance(hib, (list, tuple)) else hib)
        t = Tree(fitness=f, **UF)
        t.tree = [TerminalNode("x")]
        out.append(t.get_augmented_fitness())
        f.set_not_evaluated()
        return out + [f.is_fitness_evaluated()]
    return run


def _created(make, n=2, hib=False):
    def run():
        inds = make().create_individuals(n, hib)
        return [(genome(i), i.update_parents, type(i).__name__, i.fitness.higher_is_better, getattr(i.fitness, "bloat_weight", None), i.fitness.is_fitness_evaluated()) for i in inds]
    return run


def _subpop(**kw):
    def run():
        sp = Subpopulation(evaluator=Ev(), creators=[GAIntVectorCreator(length=1, bounds=(0, 1)), GAIntVectorCreator(length=1, bounds=(5, 6))], operators_sequence=[IdentityTransformation()],
                           **{k: v for k, v in kw.items()})
        if "population_size" in kw:
            Population([sp]).create_population_individuals()
        return [sp.population_size, sp.n_elite, sp.higher_is_better, [genome(i) for i in sp.individuals or []], [i.fitness.higher_is_better for i in sp.individuals or []]]
    return run


def _individual(make):
    def run():
        i = make()
        return [i.update_parents, getattr(i, "bounds", None), genome(i)]
    return run


def _gp_op(make, n):
    """an operator on trees: what it gives, and how many trees it takes"""
    def run():
        op = make()
        ts = []
        for k in range(n):
            t = Tree(fitness=GPFitness(fitness=1.0), erc_range=(0.0, 1.0), **UF)
            t.tree = [FunctionNode(gp.sub), TerminalNode("x"), TerminalNode(0.5)]
            ts.append(t)
        require(op.get_operator_arity() == n, "%s takes %d trees, documented is %d", type(op).__name__, op.get_operator_arity(), n)
        res = op.apply_operator(ts)
        return [(genome(i), i.fitness.is_fitness_evaluated()) for i in res]
    return run


GA_MUT = {"random": (0.0, 0.15, 0.19, 0.21, 0.45, 0.55, 0.99), "gauss": (0.0, 0.25, 1e9), "uniform": (0.0, 1.0)}
DEFAULTS = {
    "float-uniform-one": (_op(FloatVectorUniformOnePointMutation, lambda: _vec2("float")), _op(lambda: FloatVectorUniformOnePointMutation(probability=1.0, arity=1), lambda: _vec2("float"))),
    "float-uniform-n": (_op(FloatVectorUniformNPointMutation, lambda: _vec2("float")), _op(lambda: FloatVectorUniformNPointMutation(n=1, probability=1.0, arity=1), lambda: _vec2("float"))),
    "float-gauss-one": (_op(FloatVectorGaussOnePointMutation, lambda: _vec2("float")), _op(lambda: FloatVectorGaussOnePointMutation(probability=1.0, arity=1, mu=0.0, sigma=1.0, attempts=5), lambda: _vec2("float"))),
    "float-gauss-n": (_op(FloatVectorGaussNPointMutation, lambda: _vec2("float")), _op(lambda: FloatVectorGaussNPointMutation(n=1, probability=1.0, arity=1, mu=0.0, sigma=1.0, attempts=5), lambda: _vec2("float"))),
    "int-n": (_op(IntVectorNPointMutation, lambda: _vec2("int")), _op(lambda: IntVectorNPointMutation(n=1, probability=1.0, arity=1), lambda: _vec2("int"))),
    "int-one-arity": (_op(lambda: IntVectorOnePointMutation(probability=1.0), lambda: _vec2("int")), _op(lambda: IntVectorOnePointMutation(probability=1.0, arity=1), lambda: _vec2("int"))),
    "bit-flip": (_op(BitStringVectorFlipMutation, lambda: _vec2("bit")), _op(lambda: BitStringVectorFlipMutation(probability=1.0, arity=1), lambda: _vec2("bit"))),
    "bit-n-flip": (_op(BitStringVectorNFlipMutation, lambda: _vec2("bit")), _op(lambda: BitStringVectorNFlipMutation(probability=1.0, arity=1, probability_for_each=0.2, n=1), lambda: _vec2("bit"))),
    "identity": (_op(IdentityTransformation, lambda: _vec2("bit")), _op(lambda: IdentityTransformation(probability=1.0), lambda: _vec2("bit"))),
    "subtree-mutation": (_gp_op(SubtreeMutation, 1), _gp_op(lambda: SubtreeMutation(arity=1, probability=1.0, init_depth=(2, 4), attempts=1), 1)),
    "erc-mutation": (_gp_op(ERCMutation, 1), _gp_op(lambda: ERCMutation(probability=1.0, arity=1, mu=0, sigma=1), 1)),
    "subtree-crossover": (_gp_op(SubtreeCrossover, 2), _gp_op(lambda: SubtreeCrossover(probability=1.0, arity=2, attempts=1), 2)),
    "tournament": (_sel(lambda: TournamentSelection(2)), _sel(lambda: TournamentSelection(tournament_size=2, higher_is_better=False))),
    "roulette": (_sel(FitnessProportionateSelection), _sel(lambda: FitnessProportionateSelection(higher_is_better=False))),
    "target": (_checker(ThresholdFromTargetTerminationChecker, (0.0, 1e-9, -1e-9, 0.5, 1.0, -1.0, 3.0)), _checker(lambda: ThresholdFromTargetTerminationChecker(optimal=0.0, threshold=0.0, higher_is_better=False), (0.0, 1e-9, -1e-9, 0.5, 1.0, -1.0, 3.0))),
    "stagnation": (_checker(BestFitnessStagnationTerminationChecker, (1.0, 2.0) + (3.0,) * 105), _checker(lambda: BestFitnessStagnationTerminationChecker(100), (1.0, 2.0) + (3.0,) * 105)),
    "crowding": (_crowd(CrowdingTerminationChecker), _crowd(lambda: CrowdingTerminationChecker(threshold=0.1))),
    "gp-fitness": (_fitness(lambda: GPFitness(fitness=2.0, higher_is_better=True)), _fitness(lambda: GPFitness(fitness=2.0, higher_is_better=True, cache=False, is_relative_fitness=False))),
    "gp-direction": (_fitness(lambda: GPFitness(fitness=2.0)), _fitness(lambda: GPFitness(fitness=2.0, higher_is_better=False))),
    "simple-direction": (_fitness(lambda: SimpleFitness(fitness=2.0)), _fitness(lambda: SimpleFitness(fitness=2.0, higher_is_better=False))),
    "simple-fitness": (_fitness(lambda: SimpleFitness(fitness=2.0, higher_is_better=True)), _fitness(lambda: SimpleFitness(fitness=2.0, higher_is_better=True, cache=False, is_relative_fitness=False))),
    "nsga2-fitness": (_fitness(lambda: NSGA2Fitness(fitness=[2.0, 1.0])), _fitness(lambda: NSGA2Fitness(fitness=[2.0, 1.0], higher_is_better=False, cache=False, is_relative_fitness=False))),
    "grow": (_created(lambda: GrowCreator(init_depth=(1, 2), **UF)), _created(lambda: GrowCreator(init_depth=(1, 2), bloat_weight=0.0, p_prune=0.5, erc_range=None, update_parents=False, **UF))),
    "full": (_created(lambda: FullCreator(init_depth=(1, 2), **UF)), _created(lambda: FullCreator(init_depth=(1, 2), bloat_weight=0.0, erc_range=None, update_parents=False, **UF))),
    "half": (_created(lambda: HalfCreator(init_depth=(1, 2), **UF), 4), _created(lambda: HalfCreator(init_depth=(1, 2), bloat_weight=0.0, erc_range=None, **UF), 4)),
    "vectors": (_created(GAVectorCreator), _created(lambda: GAVectorCreator(length=1, bounds=(0, 1), vector_type=BitStringVector, fitness_type=SimpleFitness, update_parents=False))),
    "int-vectors": (_created(GAIntVectorCreator), _created(lambda: GAIntVectorCreator(length=1, bounds=(0, 1), update_parents=False))),
    "float-vectors": (_created(GAFloatVectorCreator), _created(lambda: GAFloatVectorCreator(length=1, bounds=(0.0, 1.0), update_parents=False))),
    "n-point": (_op(VectorNPointMutation, lambda: _vec2("int")), _op(lambda: VectorNPointMutation(n=1, probability=1.0, arity=1, attempts=5), lambda: _vec2("int"))),
    "bit-vectors": (_created(GABitStringVectorCreator), _created(lambda: GABitStringVectorCreator(length=1, bounds=(0, 1), update_parents=False))),
    "sub-population": (_subpop(), _subpop(pcr=None, elitism_rate=0.0, higher_is_better=False, individuals=None)),
    "sub-population-3": (_subpop(population_size=3), _subpop(population_size=3, pcr=[0.5, 0.5], elitism_rate=0.0, higher_is_better=False, individuals=None)),
    "bit-vector": (_individual(lambda: BitStringVector(SimpleFitness(), 2, vector=[0, 1])), _individual(lambda: BitStringVector(SimpleFitness(), 2, vector=[0, 1], update_parents=False))),
    "tree": (_individual(lambda: Tree(GPFitness(), **UF)), _individual(lambda: Tree(GPFitness(), erc_range=None, root_type=None, tree=None, update_parents=False, **UF))),
}


def default_case(name):
    """leaving options out gives the same behaviours as giving the documented defaults"""
    def fn(ctx):
        outs = []
        for make in DEFAULTS[name]:
            found = {}

            def body(ch):
                r = make()
                # what was drawn belongs to the behaviour, not how it was written
                found.setdefault(repr(r), 0)
                found[repr(r)] += 1
                ctx.seen((name, r))
            ctx.explore(body, alphabet=GA_MUT if name not in ("grow", "full", "half", "subtree-mutation") else {"random": (0.0, 0.45, 0.55)}, bound={"half": 3, "grow": 6, "subtree-mutation": 3}.get(name, 4 if "gauss" in name else None))
            outs.append(found)
        if ctx.replay_choices is None and ctx.capped is None:
            a, b = outs
            require(set(a) == set(b), "%s: with the defaults %s can happen, with the documented values %s", name, sorted(set(a) - set(b))[:3], sorted(set(b) - set(a))[:3])
            require(a == b, "%s: the defaults behave differently from the documented values", name)
    return Case("defaults/" + name, fn)


def cases(tier):
    q = tier == "quick"
    out = []
    seqs = [("lib",), (), (1,), (2,), (3,), (1, 2), (2, 3)] + ([] if q else [(2, 1), (3, 2), (4,), (1, 2, 3), (2, 2, 3)])
    for enc in ENC:
        for s in seqs:
            out.append(run_case(enc, s, "simple", tier))
    for enc in ("bit", "grow"):
        for s in (("lib",), (2, 4), (3,), (5,), (7, 1)):
            out.append(run_case(enc, s, "simple", tier, tuple(range(8, 25 if q else 61))))
    out.append(run_case("bit", ("lib",), "nsga2", tier, tuple(range(8, 25))))
    for enc in ("bit", "int", "float"):
        for s in (("lib",), (1,), (2,), (3,)):
            out.append(run_case(enc, s, "nsga2", tier))
    out += [subpop_case(), elite_case(), algorithm_case(False), algorithm_case(True)]
    out += [tree_case(k) for k in ("untyped", "typed", "mixed")]
    out += [node_case(), names_case(), two_case(), terminations_case()]
    out += [act_case(k) for k in OPS]
    out += [default_case(k) for k in DEFAULTS]
    return out
