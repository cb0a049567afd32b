"""Expressions: the reference model of GP trees used by C08, C09 and C19.

An expression is (symbol, [children]) where the symbol is node_sym(node).
"""
import inspect
import itertools

from .common import FunctionNode, TerminalNode, node_sym, require
from mc.explore import Violation


# untyped primitives
def sub(a, b):
    return a - b


def neg(a):
    return -a


def mul2(a, b):
    return 2 * a + b


def ite(a, b, c):
    return a * 100 + b * 10 + c


def four(a, b, c, d):
    return a + 2 * b - 3 * c + 5 * d


def five(a, b, c, d, e):
    return a - 2 * b + 3 * c - 5 * d + 7 * e


# typed primitives
def t_sub(a: float, b: float) -> float:
    return a - b


def t_neg(a: float) -> float:
    return -a


def t_lt(a: float, b: float) -> bool:
    return a < b


def t_not(a: bool) -> bool:
    return not a


def t_pick(c: bool, a: float, b: float) -> float:
    return a if c else b


def t_scale(n: int, a: float) -> float:
    return n * a


def t_inc(n: int) -> int:
    return n + 1


def t_floor(a: float) -> int:
    return int(a // 1)


def n_args(f):
    return len(inspect.signature(f).parameters)


def arg_types(f):
    ps = inspect.signature(f).parameters.values()
    return [None if p.annotation is inspect.Parameter.empty else p.annotation for p in ps]


def ret_type(f):
    r = inspect.signature(f).return_annotation
    return None if r is inspect.Signature.empty else r


class Node:
    """parsed node: the TreeNode, its position, its end and its children"""
    __slots__ = ("node", "start", "end", "kids", "slot")


def parse(nodes, what, root_slot=None):
    """parse a depth-first node list; violation unless it is exactly one expression"""
    pos = [0]

    def rec(slot):
        if pos[0] >= len(nodes):
            raise Violation("%s: %r: a function lacks arguments" % (what, nodes))
        n = Node()
        n.node, n.start, n.slot, n.kids = nodes[pos[0]], pos[0], slot, []
        pos[0] += 1
        if isinstance(n.node, FunctionNode):
            f = n.node.function
            for t in arg_types(f):
                n.kids.append(rec(t))
        elif not isinstance(n.node, TerminalNode):
            raise Violation("%s: %r is not a tree node" % (what, n.node))
        n.end = pos[0]
        return n
    if not nodes:
        raise Violation("%s: empty tree" % what)
    r = rec(root_slot)
    require(pos[0] == len(nodes), "%s: %r: nodes after the end of the expression", what, nodes)
    return r


def walk(p):
    yield p
    for k in p.kids:
        yield from walk(k)


def expr(p):
    return (node_sym(p.node),) + tuple(expr(k) for k in p.kids)


def depth(p):
    return 0 if not p.kids else 1 + max(depth(k) for k in p.kids)


def leaf_depths(p, d=0):
    if not p.kids:
        return [d]
    return [x for k in p.kids for x in leaf_depths(k, d + 1)]


def check_wellformed(ind, what, consts_in_range=True, root_type=None):
    """returns the parse of ind's tree"""
    p = parse(ind.tree, what, root_type)
    fs, ts, er = ind.function_set, ind.terminal_set, ind.erc_range
    for n in walk(p):
        nd = n.node
        if isinstance(nd, FunctionNode):
            require(any(nd.function is f for f in fs), "%s: function %r is not in the function set", what, nd.function)
            require(nd.n_args == n_args(nd.function), "%s: %r takes %d arguments, node says %r", what, nd.function.__name__, n_args(nd.function), nd.n_args)
            require(ret_type(nd.function) is n.slot and nd.node_type is n.slot, "%s: %s of type %r where %r is expected in %r", what, nd, nd.node_type, n.slot, ind.tree)
        else:
            require(nd.node_type is n.slot, "%s: terminal %r of type %r where %r is expected in %r", what, nd.value, nd.node_type, n.slot, ind.tree)
            known = [t for t in ts if type(t) is type(nd.value) and t == nd.value]
            if known and ts[known[0]] is n.slot:
                continue
            erc = er is not None and isinstance(nd.value, (int, float)) and not isinstance(nd.value, bool)
            if not consts_in_range:
                # after constant mutations any numeric constant is possible
                isnum = isinstance(nd.value, (int, float)) and not isinstance(nd.value, bool)
                require(isnum and (n.slot is None or type(nd.value) is n.slot), "%s: terminal %r is not of the terminal set, nor a number of type %r", what, nd.value, n.slot)
                continue
            require(erc, "%s: terminal %r (slot type %r) is not of the terminal set", what, nd.value, n.slot)
            require(n.slot is None or type(er[0]) is n.slot, "%s: constant %r in a slot of type %r", what, nd.value, n.slot)
            require(type(nd.value) is type(er[0]), "%s: constant %r of the range %r has another type", what, nd.value, er)
            require(min(er) <= nd.value <= max(er), "%s: constant %r is outside the range %r", what, nd.value, er)
    return p


def enum_trees(functions, terminals, size, slot=None):
    """all node-spec lists of exactly `size` nodes; terminals: list of (value, type)"""
    memo = {}

    def forest(slots, n):
        if not slots:
            return [()] if n == 0 else []
        if n < len(slots):
            return []
        out = []
        for k in range(1, n - len(slots) + 2):
            for a in trees(slots[0], k):
                for b in forest(slots[1:], n - k):
                    out.append(a + b)
        return out

    def trees(slot, n):
        key = (slot, n)
        if key in memo:
            return memo[key]
        out = []
        if n == 1:
            out += [(("t", v, ty),) for v, ty in terminals if ty is slot]
        for f in functions:
            if ret_type(f) is slot:
                for rest in forest(tuple(arg_types(f)), n - 1):
                    out.append((("f", f),) + rest)
        memo[key] = out
        return out
    return trees(slot, size)


def build_nodes(spec):
    return [FunctionNode(s[1]) if s[0] == "f" else TerminalNode(s[1], s[2]) for s in spec]


def evaluate(p, env):
    """reference evaluation of a parsed tree"""
    if isinstance(p.node, FunctionNode):
        return p.node.function(*[evaluate(k, env) for k in p.kids])
    v = p.node.value
    return env[v] if isinstance(v, str) else v
