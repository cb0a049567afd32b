"""C08: well-formed, typed trees under creation, crossover and mutation."""
import copy

from .common import *
from . import gp
from eckity.creators import FullCreator, GrowCreator, HalfCreator

BOUNDS = {
    "quick": "all random outcomes of creating trees up to depth 2-3 (bounded deviations for typed sets); crossover of all pairs (and small triples) of trees of up to 4 nodes, subtree and constant mutation of all trees of up to 5 nodes, all random outcomes; operator sequences of length 2-3 with at most 3 deviations; building trees of up to 6 nodes node by node with every node offered at every step; replacing every subtree by every expression of up to 3 nodes; all public picks; shapes of up to 33 nodes with functions of up to 5 arguments; untyped and two typed primitive sets, with and without random constants",
    "thorough": "one node more, sequences of length 4, 4 deviations"}
ASSUMPTIONS = ["uniform and gaussian draws take the values at the ends and in the middle of their range"]

CONF = {
    # functions, terminal set, root type, erc range, [(terminal, type)] used for enumeration
    "plain": ([gp.sub, gp.neg], ["x", "y", 2], None, None, [("x", None), (2, None)]),
    "erc": ([gp.sub, gp.neg], ["x"], None, (-1.0, 1.5), [("x", None), (0.5, None)]),
    "erc-int": ([gp.sub, gp.neg], ["x", 7], None, (1, 2), [("x", None), (2, None)]),
    "ternary": ([gp.ite, gp.neg], ["x", "y"], None, None, [("x", None), ("y", None)]),
    "typed": ([gp.t_sub, gp.t_lt, gp.t_not, gp.t_pick], {"x": float, "b": bool, 1.5: float}, float, None, [("x", float), ("b", bool), (1.5, float)]),
    "typed-bool": ([gp.t_neg, gp.t_lt, gp.t_not, gp.t_pick], {"x": float, "b": bool, True: bool}, bool, None, [("x", float), ("b", bool), (True, bool)]),
    "typed-int": ([gp.t_scale, gp.t_inc, gp.t_floor], {"x": float, "n": int, 3: int}, float, (0, 3), [("x", float), ("n", int), (3, int)]),
    "typed-erc": ([gp.t_sub, gp.t_lt, gp.t_pick], {"x": float, "b": bool}, float, (-1.0, 1.0), [("x", float), ("b", bool), (0.5, float)]),
    # one more: constants from a narrow range away from zero, all four types together
    "erc-narrow": ([gp.sub, gp.neg], ["x"], None, (5.0, 5.25), [("x", None), (5.125, None)]),
    "erc-neg": ([gp.sub, gp.neg], ["x", "y"], None, (-9, -7), [("x", None), (-8, None)]),
    "typed-all": ([gp.t_scale, gp.t_inc, gp.t_floor, gp.t_lt, gp.t_not, gp.t_pick], {"x": float, "n": int, "b": bool, True: bool, 3: int, 1.5: float}, float, None, [("x", float), ("n", int), ("b", bool), (True, bool)]),
}
LIGHT = ("erc-narrow", "erc-neg", "typed-all")
# larger trees: shapes rather than all trees of a size
BIG = {
    "wide": ([gp.four, gp.five, gp.neg], ["x", "y"], None, None, [("x", None), ("y", None)]),
    "plain": CONF["plain"],
    "typed": CONF["typed"],
}
ALPHA = {"random": (0.0, 0.6), "uniform": (0.0, 1.0), "gauss": (1.0, -1.0)}


def mk(conf, spec=None):
    fs, ts, root, erc, _ = CONF[conf] if conf in CONF else BIG[conf]
    t = Tree(function_set=list(fs), terminal_set=copy.copy(ts), root_type=root, erc_range=erc, fitness=GPFitness())
    if spec is not None:
        t.tree = gp.build_nodes(spec)
    return t


def specs(conf, sizes, root=0):
    fs, ts, rt, erc, terms = CONF[conf]
    return [s for n in sizes for s in gp.enum_trees(fs, terms, n, rt)]


def syms(t):
    return tuple(node_sym(n) for n in t.tree)


def replaced(T, p, S):
    """symbol tuple of T with the subtree p replaced by S"""
    return T[:p.start] + S + T[p.end:]


def check_distinct(trees, what):
    owner = {}
    lists = {}
    for k, t in enumerate(trees):
        require(id(t.tree) not in lists, "%s: two trees share their node list", what)
        lists[id(t.tree)] = k
        for n in t.tree:
            require(id(n) not in owner, "%s: a node occurs %s", what, "twice in tree %d" % k if owner.get(id(n)) == k else "in tree %s and %d" % (owner.get(id(n)), k))
            owner[id(n)] = k


def is_typed(conf):
    return (CONF[conf] if conf in CONF else BIG[conf])[2] is not None


def check_crossover(old, olds_p, new, typed, what):
    """every new tree = old tree with one subtree replaced by the previous tree's"""
    k = len(old)
    if typed and list(old) == list(new):
        return False
    for ps in itertools.product(*[list(gp.walk(p)) for p in olds_p]):
        if all(replaced(old[i], ps[i], old[i - 1][ps[i - 1].start:ps[i - 1].end]) == new[i] for i in range(k)):
            if all(ps[i].node.node_type is ps[0].node.node_type for i in range(k)):
                return True
    raise Violation("%s: %r became %r: this is not the exchange of one whole subtree of each" % (what, old, new))


def do_crossover(op, trees, conf, what, in_range=True):
    old = [syms(t) for t in trees]
    oldp = [gp.parse(t.tree, what, t.root_type) for t in trees]
    res = op.apply_operator(trees)
    require(list(map(id, res)) == list(map(id, trees)), "%s: crossover returned other individuals", what)
    for t in trees:
        gp.check_wellformed(t, what + " after crossover", in_range, t.root_type)
    check_distinct(trees, what + " after crossover")
    new = [syms(t) for t in trees]
    return check_crossover(old, oldp, new, is_typed(conf), what), old != new


def do_mutation(op, trees, conf, what, limits, in_range=True, sites=None):
    old = [syms(t) for t in trees]
    oldp = [gp.parse(t.tree, what, t.root_type) for t in trees]
    keep = [list(t.tree) for t in trees]
    res = op.apply_operator(trees)
    require(list(map(id, res)) == list(map(id, trees)), "%s: mutation returned other individuals", what)
    check_distinct(trees, what + " after mutation")
    changed = False
    for t, o, op_, nodes in zip(trees, old, oldp, keep):
        gp.check_wellformed(t, what + " after mutation", in_range, t.root_type)
        n = syms(t)
        if n == o and is_typed(conf):
            continue
        ok = False
        for p in gp.walk(op_):
            tail = len(o) - p.end
            if len(n) - tail <= p.start:
                continue
            S = t.tree[p.start:len(t.tree) - tail]
            if n[:p.start] != o[:p.start] or (tail and n[-tail:] != o[-tail:]):
                continue
            try:
                sp = gp.parse(S, "x", p.slot)
            except Violation:
                continue
            if sp.node.node_type is not p.node.node_type:
                continue
            if not limits[0] <= gp.depth(sp) <= limits[1]:
                continue
            if any(any(x is y for y in nodes[p.start:p.end]) for x in S):
                continue
            ok = True
            if sites is None:
                break
            sites.add(p.start)
        require(ok, "%s: %r became %r: not the replacement of one subtree by a fresh one of depth %r", what, o, n, limits)
        changed = changed or n != o
    return changed


def do_erc(op, trees, what, mu, sigma, gauss):
    old = [syms(t) for t in trees]
    fits = [any(isinstance(n, TerminalNode) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) for n in t.tree) for t in trees]
    nodes = [list(t.tree) for t in trees]
    res = op.apply_operator(trees)
    require(list(map(id, res)) == list(map(id, trees)), "%s: constant mutation returned other individuals", what)
    new = [syms(t) for t in trees]
    check_distinct(trees, what + " after constant mutation")
    if not all(fits):
        require(new == old, "%s: a tree has no constant, yet %r became %r", what, old, new)
        return False
    for o, n, t in zip(old, new, trees):
        require(len(o) == len(n), "%s: constant mutation changed %r into %r", what, o, n)
        diff = [i for i in range(len(o)) if o[i] != n[i]]
        require(len(diff) == 1, "%s: constant mutation changed %d nodes: %r became %r", what, len(diff), o, n)
        a, b = o[diff[0]], n[diff[0]]
        require(a[0] == "t" == b[0] and a[1] in ("int", "float") and a[3] == b[3], "%s: constant mutation changed %r into %r", what, a, b)
        want = [a[2] + mu + z * sigma for z in gauss]
        if a[3] == "int":
            require(b[1] == "int" and any(abs(b[2] - w) <= 0.5 for w in want), "%s: the integer constant %r became %r", what, a[2], b[2])
        else:
            require(any(math.isclose(b[2], w, rel_tol=1e-9, abs_tol=1e-12) for w in want), "%s: the constant %r became %r with noise (%g, %g)", what, a[2], b[2], mu, sigma)
        gp.check_wellformed(t, what + " after constant mutation", False, t.root_type)
    return True


# ---------------------------------------------------------------- cases

def creator_case(kind, conf, limits, n, bound=None):
    fs, ts, root, erc, _ = CONF[conf]

    def fn(ctx):
        cls = {"grow": GrowCreator, "full": FullCreator, "half": HalfCreator}[kind]

        def body(ch):
            cr = cls(init_depth=limits, function_set=list(fs), terminal_set=copy.copy(ts), root_type=root, erc_range=erc)
            inds = cr.create_individuals(n, True)
            what = "%s creator, %s, depth %r" % (kind, conf, limits)
            for t in inds:
                p = gp.check_wellformed(t, what, True, root)
            check_distinct(inds, what)
            ctx.seen([syms(t) for t in inds])
        ctx.explore(body, bound=bound, alphabet=ALPHA)
    return Case("create/%s/%s/%d-%d/n%d" % (kind, conf, limits[0], limits[1], n), fn)


LACKING = {
    # sets in which some place cannot be filled: (functions, terminals, root type)
    "no-float": ([gp.t_lt, gp.t_not], {"b": bool}, bool),
    "no-leaf": ([gp.t_sub, gp.t_neg], {"b": bool}, float),
    "no-int-function": ([gp.t_scale], {"x": float, "n": int}, float),
    "no-bool-leaf": ([gp.t_pick, gp.t_lt, gp.t_neg], {"x": float}, float),
}


def lacking_case(name):
    """a creator that cannot fill a place says so; it never delivers an incomplete tree"""
    fs, ts, root = LACKING[name]

    def fn(ctx):
        made = [0, 0]

        def body(ch):
            kind = ch.pick(("grow", "full"), "creator")
            limits = ch.pick(((0, 1), (1, 1), (1, 2), (2, 2)), "depths")
            cr = {"grow": GrowCreator, "full": FullCreator}[kind](init_depth=limits, function_set=list(fs), terminal_set=dict(ts), root_type=root)
            what = "%s creator, sets %s, depth %r" % (kind, name, limits)
            try:
                inds = cr.create_individuals(1, True)
            except ValueError:
                made[0] += 1
                return
            made[1] += 1
            gp.check_wellformed(inds[0], what, True, root)
            ctx.seen(syms(inds[0]))
        ctx.explore(body, alphabet=ALPHA)
        ctx.note("%s: %d creations were refused, %d gave a tree" % (name, made[0], made[1]))
    return Case("lacking/" + name, fn)


def crossover_case(conf, s1, s2, attempts=1, part=0, parts=1):
    def fn(ctx):
        A, B = specs(conf, s1)[part::parts], specs(conf, s2)

        def body(ch):
            i, j = ch.choose(len(A), "first tree"), ch.choose(len(B), "second tree")
            a, b = mk(conf, A[i]), mk(conf, B[j])
            what = "crossover (%s, %d attempts)" % (conf, attempts)
            done, changed = do_crossover(SubtreeCrossover(probability=1, attempts=attempts), [a, b], conf, what)
            body.got.setdefault((i, j), set()).add(hash((syms(a), syms(b))))
            ctx.seen((syms(a), syms(b)))
        body.got = {}
        ctx.explore(body, alphabet=ALPHA)
        if ctx.replay_choices is None and ctx.capped is None:
            for (i, j), got in body.got.items():
                for p, q, r in exchanges(conf, A[i], B[j]):
                    require(hash(r) in got, "crossover (%s) of %r and %r never exchanges %s and %s", conf, mk(conf, A[i]).tree, mk(conf, B[j]).tree, gp.expr(p), gp.expr(q))
    return Case("crossover/%s/%s-%s/a%d/%d" % (conf, s1, s2, attempts, part), fn)


def _chain(f, arity, depth, at, leaf):
    """f applied to itself in argument `at`, depth times"""
    if not depth:
        return leaf(0)
    out = (("f", f),)
    for k in range(arity):
        out += _chain(f, arity, depth - 1, at, leaf) if k == at else leaf(k)
    return out


def _full(f, arity, depth, leaf, k=0):
    if not depth:
        return leaf(k)
    out = (("f", f),)
    for i in range(arity):
        out += _full(f, arity, depth - 1, leaf, k * arity + i)
    return out


def shapes(conf):
    """trees of 9 to 41 nodes"""
    leaf = (lambda k: (("t", "x" if k % 2 else "y", None),)) if conf == "wide" else (lambda k: (("t", "x" if k % 2 else 2, None),))
    if conf == "wide":
        n = (("f", gp.neg),)
        return [n + _full(gp.four, 4, 1, leaf), _chain(gp.four, 4, 3, 0, leaf), _chain(gp.four, 4, 3, 3, leaf), _chain(gp.five, 5, 3, 2, leaf),
                _full(gp.four, 4, 2, leaf), n + _chain(gp.five, 5, 2, 4, leaf), n + n + _full(gp.five, 5, 2, leaf)]
    if conf == "plain":
        return [_chain(gp.neg, 1, 14, 0, leaf), _chain(gp.sub, 2, 10, 0, leaf), _chain(gp.sub, 2, 10, 1, leaf), _full(gp.sub, 2, 4, leaf)]
    leaf = lambda k: (("t", "x" if k % 2 else 1.5, float),)
    b = (("t", "b", bool),)
    deep = _full(gp.t_sub, 2, 2, leaf)
    cond = (("f", gp.t_not),) * 6 + (("f", gp.t_lt),) + deep + leaf(1)
    return [(("f", gp.t_pick),) + cond + deep + leaf(0), _full(gp.t_sub, 2, 4, leaf), _chain(gp.t_sub, 2, 6, 1, leaf),
            (("f", gp.t_sub),) + ((("f", gp.t_pick),) + b + deep + leaf(1)) * 2]


def big_case(conf, what, part):
    """larger trees: every pick of the operators"""
    root = BIG[conf][2]

    def fn(ctx):
        S = shapes(conf)
        if part >= len(S):
            return
        got = {}

        def crossover(ch):
            i = ch.choose(len(S), "other tree")
            a, b = mk(conf, S[part]), mk(conf, S[i])
            do_crossover(SubtreeCrossover(probability=1), [a, b], conf, "crossover of larger trees (%s)" % conf)
            got.setdefault(i, set()).add(hash((syms(a), syms(b))))
            ctx.seen((i, hash((syms(a), syms(b)))))

        def mutation(ch):
            t = mk(conf, S[part])
            do_mutation(SubtreeMutation(probability=1, init_depth=(1, 1)), [t], conf, "subtree mutation of a larger tree (%s)" % conf, (1, 1), sites=got.setdefault(0, set()))
            ctx.seen(syms(t))

        def pick(ch):
            t = mk(conf, S[part])
            p = ch.pick(list(gp.walk(gp.parse(t.tree, "x", root))), "subtree")
            new = gp.build_nodes(ch.pick([q for q in S if gp.parse(gp.build_nodes(q), "x", root).node.node_type is p.node.node_type] or [S[part][p.start:p.end]], "new subtree"))
            want = replaced(syms(t), p, tuple(node_sym(n) for n in new))
            t.replace_subtree(t.tree[p.start:p.end], new)
            require(syms(t) == want, "replace_subtree of a larger tree (%s): nodes %d..%d of shape %d", conf, p.start, p.end - 1, part)
            ctx.seen(syms(t))

        def build(ch):
            t = mk(conf)
            for k, n in enumerate(gp.build_nodes(S[part])):
                require(k == 0 or open_slots(root, S[part][:k]), "bad shape")
                t.add_tree(n)
            gp.check_wellformed(t, "larger tree built node by node (%s)" % conf, False, root)
            require(t.depth() == gp.depth(gp.parse(t.tree, "x", root)) and t.size() == len(S[part]), "larger tree (%s): size %r and depth %r of shape %d", conf, t.size(), t.depth(), part)
            try:
                t.add_tree(gp.build_nodes([("t", "x", float if root else None)])[0])
            except ValueError:
                pass
            else:
                raise Violation("add_tree (%s): a node was added to a complete tree of %d nodes" % (conf, len(S[part])))
            ctx.seen(syms(t))
        if what == "crossover":
            ctx.explore(crossover, alphabet=ALPHA)
            if ctx.replay_choices is None and ctx.capped is None:
                for i, g in got.items():
                    for p, q, r in exchanges(conf, S[part], S[i]):
                        require(hash(r) in g, "crossover (%s) of the larger trees %r and %r never exchanges %s and %s", conf, mk(conf, S[part]).tree, mk(conf, S[i]).tree, gp.expr(p), gp.expr(q))
        elif what == "mutation":
            ctx.explore(mutation, alphabet=ALPHA, bound=3)
        elif what == "replace":
            ctx.explore(pick, rng=False)
        else:
            ctx.explore(build, rng=False)
    return Case("larger/%s/%s/%d" % (what, conf, part), fn)


def exchanges(conf, A, B):
    """all exchanges of inner subtrees of one type"""
    a, b = mk(conf, A), mk(conf, B)
    pa, pb = gp.parse(a.tree, "x", a.root_type), gp.parse(b.tree, "x", b.root_type)
    sa, sb = syms(a), syms(b)
    for p in gp.walk(pa):
        for q in gp.walk(pb):
            if p.start and q.start and p.node.node_type is q.node.node_type:
                yield p, q, (replaced(sa, p, sb[q.start:q.end]), replaced(sb, q, sa[p.start:p.end]))


def crossover3_case(conf, sizes, bound=None):
    def fn(ctx):
        S = specs(conf, sizes)

        def body(ch):
            ts = [mk(conf, S[ch.choose(len(S), "tree")]) for _ in range(3)]
            do_crossover(SubtreeCrossover(probability=1, arity=3), ts, conf, "crossover of 3 (%s)" % conf)
            ctx.seen([syms(t) for t in ts])
        ctx.explore(body, alphabet=ALPHA, bound=bound)
    return Case("crossover3/%s/%s" % (conf, sizes), fn)


def mutation_case(conf, sizes, limits, attempts=1, bound=None):
    def fn(ctx):
        S = specs(conf, sizes)
        did, where = {}, {}

        def body(ch):
            i = ch.choose(len(S), "tree")
            t = mk(conf, S[i])
            where.setdefault(i, set())
            c = do_mutation(SubtreeMutation(probability=1, init_depth=limits, attempts=attempts), [t], conf, "subtree mutation (%s, depth %r)" % (conf, limits), limits, sites=where[i])
            did[i] = did.get(i, False) or c
            ctx.seen(syms(t))
        ctx.explore(body, alphabet=ALPHA, bound=bound)
        if ctx.replay_choices is None and ctx.capped is None:
            for i, d in did.items():
                # a typed tree that is a single terminal has no inner subtree
                require(d or is_typed(conf) and len({str(x) for x in S[i]}) <= 1, "subtree mutation (%s) of %r never changes anything", conf, mk(conf, S[i]).tree)
                if bound is None:
                    left = set(range(1, len(S[i]))) - where[i]
                    t = mk(conf, S[i])
                    left = {k for k in left if can_fill(conf, t.tree[k].node_type, limits)}
                    require(not left, "subtree mutation (%s) of %r never replaces the subtrees at %r", conf, t.tree, left)
    return Case("mutation/%s/%s/%d-%d/a%d" % (conf, sizes, limits[0], limits[1], attempts), fn)


def can_fill(conf, ty, limits):
    """some expression of the type has a depth within the limits"""
    fs, ts, root, erc, terms = CONF[conf]
    if ty is None:
        return True
    return any(limits[0] <= gp.depth(gp.parse(gp.build_nodes(s), "x", ty)) <= limits[1]
               for n in range(1, 5) for s in gp.enum_trees(fs, [(v, w) for v, w in ts.items()], n, ty))


def two_sets_case(c1, c2, limits):
    """one operator used on trees of different primitive sets"""
    def fn(ctx):
        S1, S2 = specs(c1, (2, 3)), specs(c2, (2, 3))

        def body(ch):
            op = SubtreeMutation(probability=1, init_depth=limits)
            for c, S in ((c1, S1), (c2, S2), (c1, S1)):
                t = mk(c, ch.pick(S, "tree"))
                do_mutation(op, [t], c, "subtree mutation of a %s tree after another kind" % c, limits)
                ctx.seen(syms(t))
        ctx.explore(body, alphabet=ALPHA, bound=3)
    return Case("mutation-two-sets/%s+%s" % (c1, c2), fn)


def erc_case(conf, sizes, mu, sigma, arity):
    def fn(ctx):
        S = specs(conf, sizes)

        def body(ch):
            ts = [mk(conf, S[ch.choose(len(S), "tree")]) for _ in range(arity)]
            do_erc(ERCMutation(probability=1, arity=arity, mu=mu, sigma=sigma), ts, "constant mutation (%s)" % conf, mu, sigma, ALPHA["gauss"])
            ctx.seen([syms(t) for t in ts])
        ctx.explore(body, alphabet=ALPHA)
    return Case("erc/%s/%s/%g-%g/arity%d" % (conf, sizes, mu, sigma, arity), fn)


def sequence_case(conf, ops, bound, limits):
    fs, ts, root, erc, _ = CONF[conf]

    def fn(ctx):
        def body(ch):
            cr = GrowCreator(init_depth=limits, function_set=list(fs), terminal_set=copy.copy(ts), root_type=root, erc_range=erc)
            trees = cr.create_individuals(2, False)
            x, m, e = SubtreeCrossover(probability=1, attempts=2), SubtreeMutation(probability=1, init_depth=limits), ERCMutation(probability=1, mu=0.25, sigma=1)
            rng_ok = True
            for k, o in enumerate(ops):
                what = "%s, step %d of %s" % (conf, k + 1, ops)
                if o == "x":
                    do_crossover(x, trees, conf, what, rng_ok)
                elif o == "m":
                    do_mutation(m, [trees[k % 2]], conf, what, limits, rng_ok)
                elif o == "e":
                    do_erc(e, [trees[k % 2]], what, 0.25, 1, ALPHA["gauss"])
                    rng_ok = False
                elif o == "c":
                    orig = trees
                    trees = [t.clone() for t in trees]
                    before = [syms(t) for t in orig]
                    require([syms(t) for t in trees] == before, "%s: a clone differs from its original", what)
                    check_distinct(orig + trees, what)
                ctx.seen([syms(t) for t in trees])
            if "c" in ops:
                require([syms(t) for t in orig] == before, "%s, %s: operators on clones changed the originals", conf, ops)
                check_distinct(orig + trees, "%s, %s" % (conf, ops))
            check_distinct(trees, "%s, %s" % (conf, ops))
        ctx.explore(body, alphabet=ALPHA, bound=bound)
    return Case("sequence/%s/%s" % (conf, ops), fn)


def zero_case(conf):
    def fn(ctx):
        S = specs(conf, (3,))

        def body(ch):
            ts = [mk(conf, S[ch.choose(len(S), "tree")]) for _ in range(2)]
            old = [syms(t) for t in ts]
            for op in (SubtreeCrossover(probability=0), SubtreeMutation(probability=0), ERCMutation(probability=0)):
                op.apply_operator(ts if isinstance(op, SubtreeCrossover) else ts[:1])
                require([syms(t) for t in ts] == old, "%s of probability 0 changed a tree", type(op).__name__)
            ctx.seen(old)
        ctx.explore(body, alphabet={"random": (0.0, 0.6)})
    return Case("probability-0/" + conf, fn)


def open_slots(root, spec):
    """types of the parameters still missing after the nodes of spec, next one last"""
    missing = [root]
    for x in spec:
        missing.pop()
        if x[0] == "f":
            missing.extend(reversed(gp.arg_types(x[1])))
    return missing


def build_case(conf, size):
    """building a tree node by node: every prefix, every node offered"""
    fs, ts, root, erc, terms = CONF[conf]
    nodes = [("f", f) for f in fs] + [("t", v, ty) for v, ty in terms]
    if root is not None:
        nodes += [("f", gp.neg), ("t", "x", None), ("t", 1, str)]

    def make(x):
        return gp.build_nodes([x])[0]

    def kind(x):
        return gp.ret_type(x[1]) if x[0] == "f" else x[2]

    def fn(ctx):
        def body(ch):
            t = mk(conf)
            spec = ()
            while True:
                missing = open_slots(root, spec)
                if len(spec) == size:
                    return
                fitting = [x for x in nodes if missing and kind(x) is missing[-1]]
                for x in nodes:
                    # (untyped nodes are taken as the root of any tree)
                    if x in fitting or not spec and kind(x) is None:
                        continue
                    before = list(t.tree)
                    try:
                        t.add_tree(make(x))
                    except ValueError:
                        pass
                    else:
                        raise Violation("add_tree (%s): %r was added to %r, where %s" % (conf, make(x), before, "%r is missing" % missing[-1] if missing else "nothing is missing"))
                    require(len(t.tree) == len(before) and all(a is b for a, b in zip(t.tree, before)), "add_tree (%s): refusing %r changed the tree %r", conf, make(x), before)
                if not missing:
                    gp.check_wellformed(t, "tree built node by node (%s)" % conf, False, root)
                    ctx.seen(spec)
                    return
                x = ch.pick(fitting, "node")
                n = make(x)
                try:
                    t.add_tree(n)
                except ValueError as e:
                    raise Violation("add_tree (%s): %r was refused by %r, where %r is missing: %s" % (conf, n, t.tree, missing[-1], e))
                spec += (x,)
                require(t.size() == len(spec) and t.tree[-1] is n, "add_tree (%s): %r is not at the end of %r", conf, n, t.tree)
        ctx.explore(body, rng=False)
    return Case("build/%s/%d" % (conf, size), fn)


def replace_case(conf, sizes, new_sizes):
    """replacing any subtree by any expression of its type"""
    fs, ts, root, erc, terms = CONF[conf]

    def fn(ctx):
        S = specs(conf, sizes)
        news = {}

        def body(ch):
            s = ch.pick(S, "tree")
            t = mk(conf, s)
            p = ch.pick(list(gp.walk(gp.parse(t.tree, "x", root))), "subtree")
            ty = p.node.node_type
            if ty not in news:
                news[ty] = [x for n in new_sizes for x in gp.enum_trees(fs, terms, n, ty)]
            new = gp.build_nodes(ch.pick(news[ty], "new subtree"))
            old = syms(t)
            want = replaced(old, p, tuple(node_sym(n) for n in new))
            given = list(new)
            t.replace_subtree(t.tree[p.start:p.end], new)
            require(syms(t) == want, "replace_subtree (%s): replacing nodes %d..%d of %r by %r gave %r", conf, p.start, p.end - 1, old, given, syms(t))
            require(len(new) == len(given), "replace_subtree (%s) changed the given subtree", conf)
            check_distinct([t], "replace_subtree (%s)" % conf)
            ctx.seen(syms(t))
        ctx.explore(body, rng=False)
    return Case("replace/%s/%s" % (conf, sizes), fn)


def pick_case(conf, sizes):
    """the public picks of a tree: subtrees, functions, terminals of a type"""
    fs, ts, root, erc, terms = CONF[conf]
    types = [None] if root is None else [float, bool, int, str]

    def fn(ctx):
        S = specs(conf, sizes)
        got = {}

        def body(ch):
            i = ch.choose(len(S), "tree")
            t = mk(conf, S[i])
            ty = ch.pick(types, "type")
            before = list(t.tree)
            whole = gp.parse(t.tree, "x", root)
            subs = {p.start: p for p in gp.walk(whole)}
            what = ch.choose(3, "pick")
            if what == 0:
                r = t.random_subtree(ty)
                can = {p.start for p in subs.values() if p.start and p.node.node_type is ty}
                sites = got.setdefault(("s", i, ty), [can, set()])[1]
                if r is not None:
                    sites.update(p.start for p in subs.values() if p.node is r[0])
                    require(any([id(n) for n in r] == [id(n) for n in before[p.start:p.end]] for p in subs.values()),
                            "random_subtree (%s) of %r gave %r: not one whole subtree", conf, before, r)
                    require(r[0].node_type is ty, "random_subtree (%s, %r) of %r gave %r", conf, ty, before, r)
                else:
                    require(all(p.node.node_type is not ty or p.start == 0 for p in subs.values()), "random_subtree (%s, %r) of %r found nothing", conf, ty, before)
            elif what == 1:
                r = t.random_function(ty)
                can = {f for f in fs if gp.ret_type(f) is ty}
                require((r is None) == (not can) and (r is None or r.function in can), "random_function (%s, %r) gave %r", conf, ty, r)
                got.setdefault(("f", ty), [can, set()])[1].add(r.function if r else None)
            else:
                r = t.random_terminal(ty)
                d = ts if isinstance(ts, dict) else {k: None for k in ts}
                can = {repr(k) for k, v in d.items() if v is ty}
                num = erc is not None and (ty is None or type(erc[0]) is ty)
                require((r is None) == (not can and not num), "random_terminal (%s, %r) gave %r", conf, ty, r)
                if r is not None:
                    require(r.node_type is ty and (repr(r.value) in can or num and erc[0] <= r.value <= erc[1]), "random_terminal (%s, %r) gave %r of type %r", conf, ty, r, r.node_type)
                    got.setdefault(("t", ty), [can | ({"<constant>"} if num else set()), set()])[1].add(repr(r.value) if repr(r.value) in can else "<constant>")
            require(len(t.tree) == len(before) and all(a is b for a, b in zip(t.tree, before)), "picking from a tree (%s) changed it", conf)
            ctx.seen((i, ty, what, r and str(r)))
        ctx.explore(body, alphabet=ALPHA)
        if ctx.replay_choices is None and ctx.capped is None:
            for k, (can, seen) in got.items():
                require(can <= seen, "%s of type %r (%s): never picks %r", {"f": "random_function", "t": "random_terminal", "s": "random_subtree"}[k[0]], k[-1], conf, can - seen)
    return Case("picks/%s/%s" % (conf, sizes), fn)


def cases(tier):
    q = tier == "quick"
    out = []
    b = 3 if q else 4
    for conf in LIGHT:
        out.append(creator_case("grow", conf, (1, 1), 1, None if conf != "typed-all" else 3))
        out.append(creator_case("full", conf, (2, 2), 2, 2))
        out.append(creator_case("half", conf, (1, 2), 4, 2))
        out.append(mutation_case(conf, (1, 2, 3) if conf != "typed-all" else (1, 2), (1, 1), 1, 3))
        out.append(erc_case(conf, (1, 2, 3), 1, 2, 1))
        out.append(sequence_case(conf, "cxm", 2, (1, 2)))
        out.append(sequence_case(conf, "cme", 2, (1, 2)))
        out.append(pick_case(conf, (1, 2, 3)))
    for conf in CONF:
        if conf in LIGHT:
            continue
        typed = is_typed(conf)
        out.append(creator_case("grow", conf, (0, 1) if not typed else (1, 1), 1))
        out.append(creator_case("grow", conf, (1, 2), 1, None if not typed and conf != "ternary" else b + 1))
        out.append(creator_case("full", conf, (1, 2), 1, None if not typed and conf != "ternary" else b + 1))
        out.append(creator_case("half", conf, (1, 2), 4, b))
        out.append(creator_case("grow", conf, (2, 3), 2, b))
        small = (1, 2, 3)
        for part in range(4):
            out.append(crossover_case(conf, (1, 2, 3, 4), (1, 2, 3, 4) if not q or not typed else small, 1, part, 4))
        out.append(crossover_case(conf, small, small, 3))
        out.append(crossover3_case(conf, (1, 2) if not typed else (2, 3), None if not typed else b + 1))
        if conf != "ternary":
            out.append(crossover3_case(conf, small, b + 1))
        out.append(mutation_case(conf, (1, 2, 3, 4) if q else (1, 2, 3, 4, 5), (1, 1)))
        out.append(mutation_case(conf, small, (1, 2), 1, b + 1))
        out.append(mutation_case(conf, small, (2, 2), 2, b + 1))
        out.append(mutation_case(conf, (1, 2, 3), (0, 2), 1, b))
        out.append(erc_case(conf, (1, 2, 3, 4) if q else (1, 2, 3, 4, 5), 0, 1, 1))
        out.append(erc_case(conf, (1, 2, 3), 2, 0.5, 1))
        out.append(erc_case(conf, (1, 2, 3), 0, 1, 2))
        for ops in ("xx", "xm", "mx", "xe", "cxe", "cmx", "mm", "xex") + (() if q else ("xxm", "cxme", "mxex", "xcxe")):
            out.append(sequence_case(conf, ops, b - 1 if typed else b, (1, 2)))
        out.append(zero_case(conf))
        out.append(build_case(conf, 6 if q else 8))
        out.append(replace_case(conf, (1, 2, 3, 4) if q else (1, 2, 3, 4, 5), (1, 2, 3)))
        out.append(pick_case(conf, (1, 2, 3, 4)))
    out += [lacking_case(k) for k in LACKING]
    for conf in BIG:
        for part in range(7 if conf == "wide" else 4):
            for what in ("crossover", "mutation", "replace", "build"):
                out.append(big_case(conf, what, part))
    out.append(two_sets_case("plain", "ternary", (1, 1)))
    out.append(two_sets_case("typed", "typed-int", (1, 2)))
    out.append(two_sets_case("erc", "erc-int", (1, 1)))
    return out
