"""C14: events - registering, removing, publishing, announcing."""
import copy
import pickle

from .common import *
from eckity.before_after_publisher import BeforeAfterPublisher
from eckity.creators import (GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator,
                             FullCreator, GrowCreator, HalfCreator)
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.event_based_operator import Operator
from eckity.multi_objective_evolution import NSGA2Breeder, NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

BOUNDS = {
    "quick": "all sequences of 6 operations (register, unregister incl. stale ids, publish, act, deep copy) over 2 events of one publisher and of 4 operations over two publishers; subscribers that unregister themselves or another, or register during publishing: all placements among 3-4 subscribers; 12-15 subscribers of 3-11 events, spread three ways, with every one or two of them removed and new ones added; every operator, selection, creator, breeder, evaluator and algorithm class with default, listed and given events",
    "thorough": "7 and 5 operations; 5 subscribers"}
ASSUMPTIONS = ["a subscription removed or added while its event is being published may or may not be served by that publication"]


class Ident(IdentityTransformation):
    pass


class Plain(Operator):
    """a user's operator with documented custom events"""

    def __init__(self, events=None, event_names=None):
        super().__init__(events=events, event_names=event_names)
        self.n = 0

    def apply_operator(self, payload):
        self.n += 1
        return ("result", payload, self.n)


def publisher(kind):
    if kind == "publisher":
        return BeforeAfterPublisher(events=["mine"])
    if kind == "names":
        return BeforeAfterPublisher(event_names=["mine"])
    if kind == "operator":
        return Ident(events=["mine"])
    if kind == "plain":
        return Plain(event_names=["mine"])
    if kind == "dict":
        return BeforeAfterPublisher(events={"before_operator": {}, "after_operator": {}, "mine": {}})
    raise AssertionError(kind)


def history_case(kind, npub, depth, ncb, with_copy, first=None):
    events = ("mine", "before_operator")

    def fn(ctx):
        def body(ch):
            pubs = [publisher(kind) for _ in range(npub)]
            subs = [{e: [] for e in events} for _ in range(npub)]     # [(id, tag)] in registration order
            dead = [[] for _ in range(npub)]
            log = []
            trace = []
            tag = 0

            def mkcb(t):
                return lambda sender, data: log.append((t, sender, data))
            shared = [mkcb(("shared", i)) for i in range(ncb)]
            for d in range(depth):
                ops = []
                for p in range(npub):
                    for e in events:
                        ops += [("reg", p, e, c) for c in range(ncb)]
                        ops.append(("pub", p, e))
                    for e in events:
                        ops += [("unreg", p, e, i) for i in range(len(subs[p][e]))]
                    if dead[p]:
                        ops.append(("stale", p))
                    ops.append(("act", p))
                    if with_copy:
                        ops.append(("copy", p))
                if d == 0:
                    # by symmetry start with publisher 0
                    ops = [o for o in ops if o[0] == "reg" and o[1] == 0]
                op = ops[ch.choose(len(ops), "operation")]
                trace.append(op)
                p = op[1]
                pub = pubs[p]
                del log[:]
                what = "%s, after %r" % (kind, trace)
                want = None
                if op[0] == "reg":
                    e, c = op[2], op[3]
                    if c == ncb - 1 and ncb > 1:
                        i = pub.register(e)           # documented: callback is optional
                        t = None
                    else:
                        i = pub.register(e, shared[c])
                        t = ("shared", c)
                    for q in events:
                        require(i not in [x for x, _ in subs[p][q]], "%s: subscription id %r is already in use", what, i)
                    subs[p][e].append((i, t))
                    want = []
                elif op[0] == "unreg":
                    i, t = subs[p][op[2]].pop(op[3])
                    pub.unregister(op[2], i)
                    dead[p].append((op[2], i))
                    want = []
                elif op[0] == "stale":
                    e, i = dead[p][-1]
                    try:
                        pub.unregister(e, i)
                    except Exception:
                        pass
                    want = []
                elif op[0] == "pub":
                    pub.publish(op[2])
                    want = [t for _, t in subs[p][op[2]] if t is not None]
                elif op[0] == "act":
                    if kind in ("operator", "plain"):
                        pay = [bit([0, 1])]
                        r = pub.act(pay)
                        require((r == pay) if kind == "operator" else (r[0] == "result" and r[1] is pay), "%s: act returned %r", what, r)
                    else:
                        r = pub.act_and_publish_before_after(lambda: 41)
                        require(r == 41, "%s: the result is %r", what, r)
                    want = [t for _, t in subs[p]["before_operator"] if t is not None]
                elif op[0] == "copy":
                    other = copy.deepcopy(pub)
                    for e in events:
                        other.register(e, mkcb(("copied", e)))
                        for i, _ in subs[p][e]:
                            try:
                                other.unregister(e, i)
                            except KeyError:
                                pass
                    want = []
                got = [g[0] for g in log]
                require(got == want, "%s: called %r, expected %r", what, got, want)
                for g in log:
                    require(g[1] is pub, "%s: the callback got %r as publisher", what, g[1])
                    ev = op[2] if op[0] == "pub" else "before_operator"
                    require(g[2] == pub.event_name_to_data(ev), "%s: the callback got the data %r", what, g[2])
            # at the end everything still reaches exactly its subscribers
            for p in range(npub):
                for e in events:
                    del log[:]
                    pubs[p].publish(e)
                    want = [t for _, t in subs[p][e] if t is not None]
                    require([g[0] for g in log] == want, "%s, after %r: publishing %s of publisher %d calls %r, expected %r", kind, trace, e, p, [g[0] for g in log], want)
            ctx.seen([[(e, [t for _, t in subs[p][e]]) for e in events] for p in range(npub)])
        ctx.explore(body, rng=False)
    return Case("history/%s/p%d/d%d/cb%d/%s" % (kind, npub, depth, ncb, "copy" if with_copy else ""), fn)


def during_case(kind, n):
    """subscribers that (un)register while the event is published"""
    def fn(ctx):
        def body(ch):
            pub = publisher(kind)
            calls = []
            ids = []
            acts = [ch.choose(5, "what subscriber %d does" % i) for i in range(n)]
            tgt = [ch.choose(n, "whom") if a == 2 else None for a in acts]
            removed, added, serial = set(), [], [0]

            def unreg(j):
                if j not in removed:
                    removed.add(j)
                    pub.unregister("mine", ids[j])

            def mk(i):
                def cb(sender, data):
                    calls.append(i)
                    require(sender is pub, "wrong sender")
                    a = acts[i]
                    if len(calls) > 4 * n + 8:
                        raise Violation("publishing does not end: calls %r" % calls)
                    if a == 1:
                        unreg(i)
                    elif a == 2:
                        unreg(tgt[i])
                    elif a == 3:
                        t = ("new", serial[0])
                        serial[0] += 1
                        added.append((t, pub.register("mine", lambda s, d: calls.append(t))))
                    elif a == 4:
                        pub.publish("other") if "other" in pub.events else pub.publish("before_operator")
                return cb
            for i in range(n):
                ids.append(pub.register("mine", mk(i)))
            other = []
            pub.register("before_operator", lambda s, d: other.append(1))
            what = "subscribers doing %r/%r" % (acts, tgt)
            for round_ in range(2):
                before = set(removed)
                oldnew = [t for t, _ in added]
                del calls[:]
                del other[:]
                pub.publish("mine")
                live = [i for i in range(n) if i not in before]
                kept = [i for i in live if i not in removed]
                got = [c for c in calls if not isinstance(c, tuple)]
                require(len(set(calls)) == len(calls), "%s: a subscriber was called twice: %r", what, calls)
                require(set(kept) <= set(got) <= set(live), "%s: round %d called %r, expected at least %r and at most %r", what, round_, got, kept, live)
                require(got == sorted(got), "%s: called out of registration order: %r", what, got)
                gotnew = [c for c in calls if isinstance(c, tuple)]
                require(set(oldnew) <= set(gotnew) <= {t for t, _ in added}, "%s: round %d: later registrations called %r, expected at least %r", what, round_, gotnew, oldnew)
                require(len(other) == sum(1 for i in got if acts[i] == 4), "%s: nested publishing served %d times", what, len(other))
            ctx.seen((acts, tgt, sorted(removed)))
        ctx.explore(body, rng=False)
    return Case("during/%s/n%d" % (kind, n), fn)


# ------------------------------------------------------------------ classes

def _inc(x):
    return x + 1


def _add(x, y):
    return x + y


def tree(nodes=None):
    t = Tree(function_set=[_add, _inc], terminal_set=["x", 1.0, 2.0], erc_range=(-1.0, 1.0), fitness=GPFitness(fitness=1.0))
    t.tree = nodes or [FunctionNode(_add), TerminalNode("x"), TerminalNode(1.0)]
    return t


def scored(k, hib=False):
    return [bit([i & 1, 1, 0], float(i), hib) for i in range(k)]


def ints(n):
    return [vec(IntVector, [1, 2, 3], (0, 5), 1.0) for _ in range(n)]


def floats(n):
    return [vec(FloatVector, [.1, .2, .3], (0., 1.), 1.0) for _ in range(n)]


def bits(n):
    return [bit([0, 1, 0], 1.0) for _ in range(n)]


def gl(n):
    return lambda: (n, True)


VC = dict(length=3)
TC = dict(function_set=[_add, _inc], terminal_set=["x", 1.0], init_depth=(1, 2))


class Ev(SimpleIndividualEvaluator):
    def evaluate_individual(self, individual):
        self.count = getattr(self, "count", 0) + 1
        return 7.0


def population():
    sp = Subpopulation(evaluator=Ev(), creators=GABitStringVectorCreator(length=3), operators_sequence=[BitStringVectorFlipMutation()],
                       selection_methods=[(TournamentSelection(tournament_size=2), 1)], population_size=2, individuals=scored(2))
    return Population([sp])


def mpopulation():
    inds = [BitStringVector(fitness=NSGA2Fitness(fitness=[1.0, float(i)], higher_is_better=False), length=3, vector=[0, 1, i]) for i in range(2)]
    sp = Subpopulation(evaluator=Ev(), creators=GABitStringVectorCreator(length=3), operators_sequence=[BitStringVectorFlipMutation()],
                       selection_methods=[(TournamentSelection(tournament_size=2), 1)], population_size=2, individuals=inds)
    return Population([sp])


# name: (factory taking events=, payload factory, kind)
CLASSES = {
    "tournament": (lambda **k: TournamentSelection(tournament_size=2, **k), lambda: (scored(3), []), "select"),
    "fps": (lambda **k: FitnessProportionateSelection(higher_is_better=True, **k), lambda: (scored(3, True), []), "select"),
    "elitism": (lambda **k: ElitismSelection(num_elites=2, **k), lambda: (scored(3), []), "select"),
    "subtree-crossover": (lambda **k: SubtreeCrossover(**k), lambda: [tree(), tree()], "genetic"),
    "subtree-mutation": (lambda **k: SubtreeMutation(**k), lambda: [tree()], "genetic"),
    "erc": (lambda **k: ERCMutation(**k), lambda: [tree()], "genetic"),
    "npoint": (lambda **k: VectorNPointMutation(n=1, **k), lambda: ints(1), "genetic"),
    "float-uniform-1": (lambda **k: FloatVectorUniformOnePointMutation(**k), lambda: floats(1), "genetic"),
    "float-uniform-n": (lambda **k: FloatVectorUniformNPointMutation(n=2, **k), lambda: floats(1), "genetic"),
    "float-gauss-1": (lambda **k: FloatVectorGaussOnePointMutation(mu=0.0, sigma=0.1, **k), lambda: floats(1), "genetic"),
    "float-gauss-n": (lambda **k: FloatVectorGaussNPointMutation(n=2, mu=0.0, sigma=0.1, **k), lambda: floats(1), "genetic"),
    "int-1": (lambda **k: IntVectorOnePointMutation(probability=1.0, **k), lambda: ints(1), "genetic"),
    "int-n": (lambda **k: IntVectorNPointMutation(n=2, **k), lambda: ints(1), "genetic"),
    "bit-flip": (lambda **k: BitStringVectorFlipMutation(**k), lambda: bits(1), "genetic"),
    "bit-nflip": (lambda **k: BitStringVectorNFlipMutation(n=2, **k), lambda: bits(1), "genetic"),
    "k-point": (lambda **k: VectorKPointsCrossover(k=1, **k), lambda: [bit([0, 0, 0], 1.0), bit([1, 1, 1], 2.0)], "genetic"),
    "identity": (lambda **k: IdentityTransformation(**k), lambda: bits(1), "genetic"),
    "bit-creator": (lambda **k: GABitStringVectorCreator(**VC, **k), gl(2), "create"),
    "int-creator": (lambda **k: GAIntVectorCreator(bounds=(0, 3), **VC, **k), gl(2), "create"),
    "float-creator": (lambda **k: GAFloatVectorCreator(bounds=(0., 1.), **VC, **k), gl(2), "create"),
    "vector-creator": (lambda **k: GAVectorCreator(bounds=(0, 1), vector_type=BitStringVector, **VC, **k), gl(2), "create"),
    "grow-creator": (lambda **k: GrowCreator(**TC, **k), gl(2), "create"),
    "full-creator": (lambda **k: FullCreator(**TC, **k), gl(2), "create"),
    "half-creator": (lambda **k: HalfCreator(**TC, **k), gl(4), "create"),
    "breeder": (lambda **k: SimpleBreeder(**k), population, "breed"),
    "nsga2-breeder": (lambda **k: NSGA2Breeder(**k), mpopulation, "breed"),
    "evaluator": (lambda **k: Ev(**k), lambda: (bit([0, 1, 0]), []), "evaluate"),
    "population-evaluator": (lambda **k: SimplePopulationEvaluator(), population, "popeval"),
}


def people(kind, payload):
    if kind == "select":
        return list(payload[0]) + list(payload[1])
    if kind == "genetic":
        return list(payload)
    if kind in ("breed", "popeval"):
        return list(payload.sub_populations[0].individuals)
    if kind == "evaluate":
        return [payload[0]]
    return []


def view(kind, payload):
    return [(i.id, genome(i), score_of(i)) for i in people(kind, payload)]


def class_case(name):
    make, pay, kind = CLASSES[name]

    def fn(ctx):
        def body(ch):
            how = ch.choose(4 if kind != "popeval" else 1, "events")
            custom = ["mine", "yours"][:1 + ch.choose(2, "names")] if how == 1 else None
            given = None
            log = []
            if how == 0:
                a, b = make(), make()
            elif how == 1:
                names = list(custom)
                a, b = make(events=names), make(events=names)
                require(names == custom, "%s changes the list of event names it is given to %r", name, names)
            elif how == 2:
                t = ("mine",)
                a, b = make(events=t), make()
                custom = list(t)
            else:
                given = {"before_operator": {0: lambda s, d: log.append("given-before")}, "after_operator": {0: lambda s, d: log.append("given-after")}, "after_selection": {}}
                a, b = make(events=given), make()
            ev = Ev() if kind == "popeval" else None
            if kind == "popeval":
                ex = execs.MCThreadPoolExecutor(max_workers=1)
                a.set_executor(ex)
                b.set_executor(ex)
            payload = pay()
            start = view(kind, payload)
            seen = {}

            def before(s, d):
                log.append("before")
                require(s is a, "%s: wrong publisher", name)
                seen["before"] = view(kind, payload)

            def after(s, d):
                log.append("after")
                require(s is a, "%s: wrong publisher", name)
                seen["after"] = view(kind, payload)
                seen["data"] = d
            ib = a.register("before_operator", before)
            ia = a.register("after_operator", after)
            extra = []
            for e in custom or []:
                a.register(e, lambda s, d, e=e: extra.append(e))
                if how == 1:
                    b.register(e, lambda s, d: extra.append("other"))
            b.register("before_operator", lambda s, d: log.append("other"))
            b.register("after_operator", lambda s, d: log.append("other"))
            res = a.act(payload)
            want = ["before", "after"] if how != 3 else ["given-before", "before", "given-after", "after"]
            require(log == want, "%s: one act announced %r, expected %r", name, log, want)
            require(extra == [] or name, "")
            require(seen["before"] == start, "%s: 'before' was announced after the operator had acted", name)
            require(seen["after"] == view(kind, payload), "%s: 'after' was announced before the operator had finished", name)
            for e in custom or []:
                del extra[:]
                a.publish(e)
                require(extra == [e], "%s: publishing the custom event %r called %r", name, e, extra)
            # exactly one application, its result returned
            if kind == "genetic":
                require(isinstance(res, list) and len(res) == len(payload) and all(x is y for x, y in zip(res, payload)), "%s: act returned %r", name, res)
                for i in payload:
                    require(len(i.applied_operators) == 1, "%s: one act recorded %r", name, i.applied_operators)
                ai = seen["data"].get("applied_individuals")
                require(ai is not None and len(ai) == len(payload) and all(x is y for x, y in zip(ai, payload)), "%s: 'after' was announced with the individuals %r, the operator was applied to %r", name, ai, payload)
            elif kind == "select":
                n = {"elitism": 2}.get(name, 3)
                require(len(payload[1]) == n and res is payload[1], "%s: one act selected %d individuals", name, len(payload[1]))
            elif kind == "create":
                require(isinstance(res, list) and len(res) == payload[0], "%s: act created %r", name, res)
                require(all(i.fitness.higher_is_better is True for i in res), "%s: act lost the direction", name)
                require(seen["data"].get("created_individuals") is not None and list(map(id, seen["data"]["created_individuals"])) == list(map(id, res)),
                        "%s: 'after' was announced with other created individuals", name)
            elif kind == "breed":
                inds = payload.sub_populations[0].individuals
                require(len(inds) == (2 if name == "breeder" else 4), "%s: one act left %d individuals", name, len(inds))
            elif kind == "evaluate":
                require(payload[0].get_pure_fitness() == 7.0 and a.count == 1, "%s: one act evaluated %r times, result %r", name, getattr(a, "count", 0), res)
            elif kind == "popeval":
                require(payload.sub_populations[0].evaluator.count == 2 and res in payload.sub_populations[0].individuals, "%s: one act made %r evaluations", name, payload.sub_populations[0].evaluator.count)
            # removing: only the other one is left, a second act is announced again
            a.unregister("before_operator", ib)
            del log[:]
            payload = pay()
            a.act(payload)
            want = ["after"] if how != 3 else ["given-before", "given-after", "after"]
            require(log == want, "%s: after removing one subscriber an act announced %r", name, log)
            # copies
            c = copy.deepcopy(a) if how != 3 and kind != "popeval" else None
            if c is not None:
                c.unregister("after_operator", ia)
                c.register("before_operator", lambda s, d: log.append("copy"))
                del log[:]
                payload = pay()
                a.act(payload)
                require(log == ["after"], "%s: changing the subscriptions of a copy changed the original's: %r", name, log)
            ctx.seen((name, how))
        ctx.explore(body, rng=False)
    return Case("class/" + name, fn)


def algorithm_case(kind):
    def fn(ctx):
        def body(ch):
            how = ch.choose(3, "event names")
            names = [None, ["mine"], ["mine", "before_breeding"]][how]
            keep = None if names is None else list(names)
            cls = SimpleEvolution if kind == "simple" else NSGA2Evolution
            mk = population if kind == "simple" else mpopulation

            class Ev2(Ev):
                def evaluate_individual(self, individual):
                    log.append("eval")
                    return 7.0 if kind == "simple" else [1.0, 2.0]
            log = []
            algs = []
            for _ in range(2):
                p = mk()
                p.sub_populations[0].evaluator = Ev2()
                for i in p.sub_populations[0].individuals:
                    i.set_fitness_not_evaluated()
                algs.append(cls(p, event_names=names, max_generation=2, random_seed=3, max_workers=1))
            require(names == keep, "%s changes the list of event names it is given to %r", kind, names)
            a, b = algs
            for e in ("before_operator", "init", "after_generation", "evolution_finished", "after_operator"):
                a.register(e, lambda s, d, e=e: log.append((e, s is a)))
                b.register(e, lambda s, d: log.append("other"))
            if names:
                a.register("mine", lambda s, d: log.append(("mine", s is a)))
            via = ch.choose(2, "act or evolve")
            a.act() if via == 0 else a.evolve()
            evs = [x for x in log if x != "eval"]
            want = ["init", "after_generation", "after_generation", "evolution_finished"]
            if via == 0:
                want = ["before_operator"] + want + ["after_operator"]
            require(evs == [(e, True) for e in want], "%s: a run announced %r, expected %r", kind, evs, want)
            if via == 0:
                require(log[0] == ("before_operator", True) and log[-1] == ("after_operator", True), "%s: the run is not enclosed by its announcements: %r", kind, log)
            if names:
                del log[:]
                a.publish("mine")
                require(log == [("mine", True)], "%s: custom event called %r", kind, log)
            ctx.seen((how, via))
        ctx.explore(body, rng=False)
    return Case("algorithm/" + kind, fn)


def breed_announce_case():
    """breeding and evaluation announce themselves once per generation of a run"""
    def fn(ctx):
        def body(ch):
            log = []
            p = population()
            br, pe = SimpleBreeder(), SimplePopulationEvaluator()
            alg = SimpleEvolution(p, breeder=br, population_evaluator=pe, max_generation=ch.choose(4, "generations"), random_seed=3, max_workers=1)
            for nm, o in (("breed", br), ("eval", pe)):
                o.register("before_operator", lambda s, d, nm=nm, o=o: log.append((nm, "before", s is o)))
                o.register("after_operator", lambda s, d, nm=nm, o=o: log.append((nm, "after", s is o)))
            alg.evolve()
            want = ["eval"] + ["breed", "eval"] * alg.max_generation
            want = [(x, y, True) for x in want for y in ("before", "after")]
            require(log == want, "a run of %d generations announced %r, expected %r", alg.max_generation, log, want)
            ctx.seen(len(log))
        ctx.explore(body, rng=False)
    return Case("run-announcements", fn)


def many_case(kind, nevents, n):
    """many subscribers spread over several events: order kept, any one or two removed, one more added"""
    def fn(ctx):
        def body(ch):
            evs = ["e%d" % i for i in range(nevents)]
            given = list(evs)
            pub = BeforeAfterPublisher(events=given) if kind == "publisher" else Plain(event_names=given)
            require(given == evs, "the given list of event names was changed to %r", given)
            evs += ["before_operator", "after_operator"]
            log = []
            subs = {e: [] for e in evs}
            pattern = ch.choose(3, "how the subscribers are spread")
            order = []
            for t in range(n):
                e = evs[(t % len(evs), t * len(evs) // n, 0 if t % 3 else t % len(evs))[pattern]]
                i = pub.register(e, lambda s, d, t=t: log.append((t, s is pub)))
                require(i not in [x for v in subs.values() for x, _ in v], "subscription id %r is given out twice among %d subscribers", i, t + 1)
                subs[e].append((i, t))
                order.append((e, i, t))
            gone = ch.choose(3, "how many leave")
            out = []
            if gone >= 1:
                a = ch.choose(n, "who leaves")
                out.append(a)
                if gone == 2:
                    b = ch.choose(n - 1, "who leaves then")
                    out.append(b if b < a else b + 1)
            for a in out:
                e, i, t = order[a]
                pub.unregister(e, i)
                subs[e].remove((i, t))
            for e in evs[:ch.choose(2, "who comes") + 1]:
                i = pub.register(e, lambda s, d, e=e: log.append(("new " + e, s is pub)))
                require(i not in [x for v in subs.values() for x, _ in v], "subscription id %r is in use and given out again (%d subscribers, %r left)", i, n, out)
                subs[e].append((i, "new " + e))
            for e in evs:
                del log[:]
                pub.publish(e)
                want = [(t, True) for _, t in subs[e]]
                require(log == want, "%d subscribers of %d events, %r left: publishing %s calls %r, expected %r", n, len(evs), out, e, log, want)
            # everyone can leave, in any of two orders
            left = [(e, i) for e in evs for i, _ in subs[e]]
            for e, i in (left if ch.choose(2, "order of leaving") else left[::-1]):
                pub.unregister(e, i)
            del log[:]
            for e in evs:
                pub.publish(e)
            require(not log, "after all %d subscribers left %r are called", n, log)
            ctx.seen((pattern, out))
        ctx.explore(body, rng=False)
    return Case("many/%s/e%d/n%d" % (kind, nevents, n), fn)


def cases(tier):
    q = tier == "quick"
    out = []
    for k in ("publisher", "operator", "dict"):
        out.append(history_case(k, 1, 6 if q else 7, 2, k != "dict"))
    for k in ("names", "plain"):
        out.append(history_case(k, 1, 5 if q else 6, 2, True))
    for k in ("publisher", "operator", "plain"):
        out.append(history_case(k, 2, 4 if q else 5, 2, True))
    for k in ("publisher", "operator", "dict"):
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            out.append(during_case(k, n))
    out.append(during_case("names", 4 if q else 5))
    for k in ("publisher", "plain"):
        for ne, n in ((1, 12), (3, 15), (9, 14)) if q else ((1, 12), (3, 15), (9, 14), (12, 24)):
            out.append(many_case(k, ne, n))
    for n in CLASSES:
        out.append(class_case(n))
    out += [algorithm_case("simple"), algorithm_case("nsga2"), breed_announce_case()]
    return out
