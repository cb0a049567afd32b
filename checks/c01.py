"""C01: a seed determines the run."""
import json
import multiprocessing
import os
import random
import subprocess
import sys
import weakref

from .common import *
from . import menu, gp
from .menu import CONFIGS, MULTI, SINGLE, Trace, build, first_diff
from eckity.event_based_operator import Operator
from eckity.fitness.fitness import Fitness
from eckity.individual import Individual
from eckity.random import RNG
from mc import clock, env

BOUNDS = {
    "quick": "15 configurations (bit, int, float vectors, typed and untyped trees, two and three objectives) of 3 generations; all assignments of 5 foreign actions to the start of the run and to its first 4 announcements; one foreign action at any announcement of 14 generations; fitness functions drawing random numbers, reseeding or running another evolution at every single evaluation; all completion orders of 3-4 evaluations in the first two populations; real thread and process pools with 1-4 workers and both dispatch methods; seeds 0..2**32-1 at the ends, seeds taken from the clock at 13 times; hash seeds 0-2; 8 assignments of hashes to individuals, fitness objects and operators over 6 generations",
    "thorough": "the same with foreign actions at 5 announcements (4 generations), 30 generations with one action, 12 generations with chosen hashes, 6 hash seeds and more seeds"}
ASSUMPTIONS = ["draws are the standard library's and numpy's own generators, seeded by the code under check",
               "the best of a multi-objective run is compared only when fitness functions draw no random numbers"]
BUDGET = {"quick": 300, "thorough": 780}


def pollute(k):
    random.seed(1000 + k)
    np.random.seed(2000 + k)
    for _ in range(k):
        random.random()
        np.random.random()


def foreign(kind, k, name):
    """something another part of the program does"""
    if kind == 1:
        random.random()
        np.random.normal()
        np.random.randint(5)
    elif kind == 2:
        random.seed(k)
        np.random.seed(k)
    elif kind == 3:
        menu.build(name, 99 + k, 1).evolve()
    elif kind == 4:
        random.gauss(0, 1)              # keeps a second value for the next call
        np.random.standard_normal()
        random.shuffle([1, 2, 3, 4])


def run(name, seed, gens, prior=0, at=(), draws=0, best=True, **kw):
    pollute(prior)
    alg = build(name, seed, gens, draws=draws, **kw)
    t = Trace(alg, best)
    at = dict(enumerate(at))
    seen = [0]

    def act(s, d):
        k = seen[0]
        seen[0] += 1
        foreign(at.get(k, 0), k, name)
    alg.register("init", act)
    alg.register("after_generation", act)
    pollute(prior + 3)
    if at.get(-1):
        foreign(at[-1], 7, name)
    alg.evolve()
    t.rows.append(("end", alg.generation_num, None, menu.ind_view(alg.best_of_run_) if best else None, None))
    return t.rows


def foreign_case(name, gens, points):
    def fn(ctx):
        best = not CONFIGS[name]["multi"]
        ref = {}
        for d in (0, 2):
            ref[d] = run(name, 5, gens, draws=d, best=best or d == 0)
        # the function's draws change nothing either
        d = first_diff([x[:3] for x in ref[0]], [x[:3] for x in ref[2]])
        require(d is None, "%s: random draws of the fitness function change the run: %s", name, d)

        def body(ch):
            draws = 2 * ch.choose(2, "fitness draws")
            prior = 11 * ch.choose(3, "random state before")
            at = [ch.choose(5, "foreign action") for _ in range(points)]
            if prior and draws and sum(1 for a in at if a) > 1:
                raise Skip()
            rows = run(name, 5, gens, prior=prior, at=at, draws=draws, best=best or draws == 0)
            d = first_diff(ref[draws], rows)
            require(d is None, "%s: same seed, other run (state before %d, foreign actions %r, fitness draws %d): %s", name, prior, at, draws, d)
            ctx.seen([x[2] for x in rows])
        ctx.explore(body, rng=False)
    return Case("foreign/%s/p%d" % (name, points), fn)


def long_case(name, gens):
    """a longer run with one thing happening at any single announcement"""
    def fn(ctx):
        multi = CONFIGS[name]["multi"]
        ref = run(name, 6, gens, best=not multi)

        def body(ch):
            k = ch.choose(gens + 1, "announcement")
            at = [0] * k + [1 + ch.choose(4, "foreign action")]
            rows = run(name, 6, gens, at=at, best=not multi)
            d = first_diff(ref, rows)
            require(d is None, "%s: foreign action %d at announcement %d changes the run: %s", name, at[-1], k, d)
            ctx.seen(at)
        ctx.explore(body, rng=False)
    return Case("long/%s/g%d" % (name, gens), fn)


def between_case(name, gens):
    """algorithms built before, between and after other runs; interleaved construction"""
    def fn(ctx):
        ref = run(name, 5, gens)

        def body(ch):
            pollute(ch.choose(2, "state"))
            order = ch.choose(3, "order")
            a = build(name, 5, gens)
            ta = Trace(a)
            b = build(name, 5, gens)
            tb = Trace(b)
            o = build(name, 6, 2)
            seqs = [(a, b, o), (o, a, b), (b, o, a)][order]
            for x in seqs:
                x.evolve()
                if ch.choose(2, "drop"):
                    random.random()
            for t in (ta, tb):
                d = first_diff([x[:4] for x in ref[:-1]], [x[:4] for x in t.rows])
                require(d is None, "%s: same seed, other run (order %d): %s", name, order, d)
            ctx.seen(order)
        ctx.explore(body, rng=False)
    return Case("between/" + name, fn)


def seeds_case(name, gens, seeds):
    def fn(ctx):
        def body(ch):
            s = ch.pick(seeds, "seed")
            gs = ch.choose(3, "generation seed")
            kw = {} if gs == 0 else {"generation_seed": [0, 17, 2 ** 32 - 2][gs]}
            ref = run(name, s, gens, prior=0, **kw)
            rows = run(name, s, gens, prior=5, at=(1, 2, 4), **kw)
            require(len(rows) == gens + 2, "%s seed %d: %d announcements", name, s, len(rows))
            d = first_diff(ref, rows)
            require(d is None, "%s: seed %d gives two different runs: %s", name, s, d)
            ctx.seen([x[2] for x in ref])
        ctx.explore(body, rng=False)
    return Case("seeds/" + name, fn)


def orders_case(name, executor, method, gens, draws):
    """all completion orders of the first evaluations"""
    def fn(ctx):
        best = not CONFIGS[name]["multi"]
        ref = run(name, 5, gens, best=best)
        n = CONFIGS[name]["n"]

        def body(ch):
            class Limited:
                """free choice for the first evaluations, then in order"""
                left = 2 * n

                def choose(self, k, label="", probs=None):
                    if self.left <= 0:
                        return 0
                    self.left -= 1
                    return ch.choose(k, label)
            with execs.mode("sched", Limited()):
                rows = run(name, 5, gens, prior=3, draws=draws, best=best, executor=executor, method=method)
            d = first_diff([x[:3] for x in ref], [x[:3] for x in rows])
            require(d is None, "%s, %s/%s: another order of finishing gives another run: %s", name, executor, method, d)
            ctx.seen(tuple(ch.choices))
        ctx.explore(body, rng=False)
    return Case("orders/%s/%s/%s/draws%d" % (name, executor, method, draws), fn)


def workers_case(name, gens):
    def fn(ctx):
        multiprocessing.current_process()._config["daemon"] = False
        best = not CONFIGS[name]["multi"]
        ref = run(name, 5, gens, best=best)

        def body(ch):
            ex = ch.pick(("thread", "process"), "executor")
            w = ch.pick((1, 2, 4), "workers") if ex == "thread" else ch.pick((1, 2), "workers")
            m = ch.pick(("map", "submit"), "method")
            with execs.mode("real"):
                rows = run(name, 5, gens, prior=4, executor=ex, workers=w, method=m, best=best, draws=ch.choose(2, "fitness draws"))
            d = first_diff(ref, rows)
            require(d is None, "%s: %s workers %d %s give another run: %s", name, ex, w, m, d)
            ctx.seen((ex, w, m))
        ctx.explore(body, rng=False)
    return Case("workers/" + name, fn)


class NestedEv(menu.GenomeEv):
    """a fitness function that runs an evolution of its own (or reseeds) at one call"""

    def __init__(self, multi, name, at, kind):
        super().__init__(multi)
        self.name, self.at, self.kind, self.calls = name, at, kind, 0

    def evaluate_individual(self, individual):
        v = super().evaluate_individual(individual)
        if self.calls == self.at:
            foreign(self.kind, 3, self.name)
        self.calls += 1
        return v


def nested_case(name, gens):
    def fn(ctx):
        multi = CONFIGS[name]["multi"]
        ref = run(name, 5, gens, best=not multi)
        total = CONFIGS[name]["n"] * (1 + gens * (2 if multi else 1))

        def body(ch):
            kind = 1 + ch.choose(4, "foreign action")
            at = ch.choose(total, "evaluation")
            rows = run(name, 5, gens, best=not multi, evaluator=NestedEv(multi, name, at, kind))
            d = first_diff(ref, rows)
            require(d is None, "%s: foreign action %d during evaluation %d changes the run: %s", name, kind, at, d)
            ctx.seen((kind, at))
        ctx.explore(body, rng=False)
    return Case("in-evaluation/" + name, fn)


class ThirdRNG(RNG):
    """the documented way of adding a generator"""
    source = random.Random(1)

    def set_seed(self, seed):
        super().set_seed(seed)
        ThirdRNG.source.seed(seed)


class ThirdMutation(GeneticOperator):
    def __init__(self):
        super().__init__(probability=1, arity=1)

    def apply(self, individuals):
        for i in individuals:
            v = i.get_vector()
            v[ThirdRNG.source.randrange(len(v))] ^= 1
            v[random.randrange(len(v))] ^= 1
            v[np.random.randint(len(v))] ^= 1
        return individuals


def third_case(multi):
    name = "nsga2-bit" if multi else "bit"

    def fn(ctx):
        def one(prior, at):
            ThirdRNG.source.seed(prior)
            pollute(prior)
            alg = build(name, 5, 3, ops=lambda: [ThirdMutation()], random_generator=ThirdRNG())
            t = Trace(alg)
            k = [0]

            def act(s, d):
                for _ in range(at[k[0]] if k[0] < len(at) else 0):
                    ThirdRNG.source.random()
                    random.random()
                    np.random.random()
                k[0] += 1
            alg.register("init", act)
            alg.register("after_generation", act)
            alg.evolve()
            return t.rows
        ref = one(0, (0, 0, 0))

        def body(ch):
            rows = one(ch.choose(3, "prior"), [ch.choose(3, "draws") for _ in range(3)])
            d = first_diff(ref, rows)
            require(d is None, "a user's random generator is not seeded with the run: %s", d)
            ctx.seen(rows[-1][2])
        ctx.explore(body, rng=False)
    return Case("user-generator/" + name, fn)


CHILD = """
import sys, json, gc
sys.path.insert(0, %r)
from mc import clock, env
env.setup()
from checks import c01
junk = [object() for _ in range(int(sys.argv[1]) * 997)]
keep = junk[::3]
del junk
out = {}
for name in sys.argv[2].split(","):
    out[name] = c01.run(name, 5, 3)
json.dump(out, sys.stdout)
"""


HASHES = (lambda s: s, lambda s: -1 - s, lambda s: 5 * s + 2, lambda s: 3 * s + 1, lambda s: 7 * (s // 2) + 4 * (s % 2),
          lambda s: 3, lambda s: s ^ 5, lambda s: s ^ 2)


class hashes:
    """objects that compare by identity may hash to anything: give them hashes of our choosing"""

    def __init__(self, f, classes):
        self.f, self.classes = f, [c for c in classes if c.__hash__ is object.__hash__]
        self.serial, self.n = {}, 0

    def hash(self, o):
        k = id(o)
        if k not in self.serial:
            self.serial[k] = (self.n, weakref.ref(o, lambda _: self.serial.pop(k, None)))
            self.n += 1
        return self.f(self.serial[k][0])

    def __enter__(self):
        for c in self.classes:
            c.__hash__ = lambda o: self.hash(o)

    def __exit__(self, *a):
        for c in self.classes:
            del c.__hash__


def identity_hash_case(name, gens):
    def fn(ctx):
        multi = CONFIGS[name]["multi"]
        ref = run(name, 5, gens, best=not multi)

        def body(ch):
            k = ch.choose(len(HASHES), "hash function")
            with hashes(HASHES[k], (Individual, Fitness, Operator)):
                rows = run(name, 5, gens, best=not multi)
            d = first_diff(ref, rows)
            require(d is None, "%s: the run depends on the (arbitrary) hashes of individuals: %s", name, d)
            ctx.seen(k)
        ctx.explore(body, rng=False)
    return Case("identity-hashes/" + name, fn)


def hash_case(names, seeds):
    def fn(ctx):
        ref = {n: json.loads(json.dumps(run(n, 5, 3))) for n in names}

        def body(ch):
            h = ch.choose(seeds, "hash seed")
            e = dict(os.environ, PYTHONHASHSEED=str(h), PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.run([sys.executable, "-c", CHILD % env.VERIF, str(h + 1), ",".join(names)], env=e, capture_output=True, text=True, timeout=200)
            if p.returncode != 0:
                raise Violation("a run in another process failed: %s" % p.stderr[-800:])
            got = json.loads(p.stdout[p.stdout.index('{"'):])
            for n in names:
                d = first_diff(ref[n], got[n])
                require(d is None, "%s: another process (hash seed %d) gives another run: %s", n, h, d)
            ctx.seen(h)
        ctx.explore(body, rng=False)
    return Case("processes/" + "+".join(names)[:60], fn)


CLOCKS = (1.5, 86400.25, 999999999.999999, 1e9, 1700000000.0, 1700000000.1234567, 2 ** 32 - .5, 2.0 ** 32, 2 ** 32 + .25, 4294967.296, 4294967.295, 1753182000.000001, 1e10)


def clock_case(name, gens):
    """without a seed the run records the seed it took from the clock, and that seed repeats it"""
    def fn(ctx):
        multi = CONFIGS[name]["multi"]

        def body(ch):
            t = ch.pick(CLOCKS, "clock")
            pre = ch.choose(2, "state of the generators before")
            with clock.at(t):
                a = build(name, None, gens)
            s = a.random_seed
            require(int(s) == s and 0 <= s < 2 ** 32, "%s: at clock %r the seed is %r", name, t, s)
            random.seed(pre)
            np.random.seed(pre)
            ta = Trace(a, best=not multi)
            with execs.mode("sync"):
                a.evolve()
            require(a.random_seed == s, "%s: the recorded seed changed from %r to %r", name, s, a.random_seed)
            d = first_diff(run(name, s, gens, prior=pre, best=not multi)[:-1], ta.rows)
            require(d is None, "%s: the run begun at clock %r recorded the seed %r, with which it goes otherwise: %s", name, t, s, d)
            ctx.seen((t, pre))
        ctx.explore(body, rng=False)
    return Case("clock/" + name, fn)


def cases(tier):
    q = tier == "quick"
    out = []
    names = list(CONFIGS)
    for n in names:
        out.append(foreign_case(n, 3 if q else 4, 4 if q else 5))
    for n in names:
        out.append(long_case(n, 14 if q else 30))
        out.append(between_case(n, 3))
        out.append(seeds_case(n, 3, (0, 1, 2, 2 ** 31, 2 ** 32 - 3, 2 ** 32 - 2, 2 ** 32 - 1)))
        out.append(workers_case(n, 2))
        out.append(clock_case(n, 2))
        out.append(nested_case(n, 2))
        out.append(identity_hash_case(n, 6 if q else 12))
    for n in ("two-creators", "nsga2-int", "bit", "gp-half", "gp-erc"):
        for ex in ("thread", "process"):
            for m in ("map", "submit"):
                if n in ("two-creators", "nsga2-int") or (ex, m) == ("thread", "submit"):
                    out.append(orders_case(n, ex, m, 2, 1 if ex == "thread" else 0))
    out += [third_case(False), third_case(True)]
    for i in range(0, len(names), 5):
        out.append(hash_case(names[i:i + 5], 3 if q else 6))
    return out
