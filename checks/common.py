"""Drivers, observation functions and reference models shared by the checks."""
import itertools
import math

from mc.explore import Violation, require, Skip, HarnessError, Chooser, canon  # noqa: F401
from mc.main import Case  # noqa: F401
from mc import execs, rng  # noqa: F401

import numpy as np

from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.evaluators import SimpleIndividualEvaluator, SimplePopulationEvaluator
from eckity.fitness import SimpleFitness, GPFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector, Vector
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree, TreeNode
from eckity.genetic_operators import (  # noqa: F401
    GeneticOperator, FailableOperator, SelectionMethod, TournamentSelection,
    FitnessProportionateSelection, ElitismSelection, SubtreeCrossover,
    VectorKPointsCrossover, ERCMutation, IdentityTransformation, SubtreeMutation,
    VectorNPointMutation, BitStringVectorFlipMutation, BitStringVectorNFlipMutation,
    FloatVectorGaussNPointMutation, FloatVectorGaussOnePointMutation,
    FloatVectorUniformNPointMutation, FloatVectorUniformOnePointMutation,
    IntVectorNPointMutation, IntVectorOnePointMutation)
from eckity.population import Population
from eckity.subpopulation import Subpopulation

INF = float("inf")


def genome(ind):
    if isinstance(ind, Vector):
        return ("V",) + tuple(ind.get_vector())
    return ("T",) + tuple(node_sym(n) for n in ind.tree)


def tname(t):
    return getattr(t, "__name__", str(t)) if t is not None else None


def node_sym(n):
    if isinstance(n, FunctionNode):
        return ("f", n.function.__name__, tname(n.node_type))
    return ("t", type(n.value).__name__, n.value, tname(n.node_type))


def score_of(ind):
    """(evaluated, score) without disturbing the individual"""
    f = ind.fitness
    if not f.is_fitness_evaluated():
        return None
    try:
        return f.get_pure_fitness()
    except ValueError:
        return None


def snap(ind):
    """what a user can see of an individual"""
    return (ind.id, genome(ind), score_of(ind), ind.cloned_from,
            tuple(ind.selected_by), tuple(ind.applied_operators))


def mutable_parts(ind):
    """objects that must not be shared between two individuals"""
    out = [ind.fitness, ind.selected_by, ind.applied_operators]
    if isinstance(ind, Vector):
        out.append(ind.vector)
    else:
        out.append(ind.tree)
        out.extend(ind.tree)
    if getattr(ind, "update_parents", False):
        out.append(ind.parents)
    return out


def check_no_aliasing(inds, what):
    owner = {}
    objs = set()
    for i, ind in enumerate(inds):
        require(id(ind) not in objs, "%s: the same individual object occurs twice", what)
        objs.add(id(ind))
        for part in mutable_parts(ind):
            j = owner.setdefault(id(part), i)
            require(j == i, "%s: individuals %d and %d share a %s", what, j, i, type(part).__name__)


def check_tree_nodes_distinct(ind, what):
    require(len({id(n) for n in ind.tree}) == len(ind.tree), "%s: one node object occurs twice in a tree", what)


class TableEvaluator(SimpleIndividualEvaluator):
    """score = table[genome]"""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.calls = []

    def evaluate_individual(self, individual):
        v = self.fn(individual)
        self.calls.append((individual.id, genome(individual), v))
        return v


class NullEvaluator(SimpleIndividualEvaluator):
    def evaluate_individual(self, individual):
        return 0.0


def vec(cls, cells, bounds=None, fit=None, hib=False, update_parents=False):
    kw = {} if bounds is None else {"bounds": bounds}
    return cls(fitness=SimpleFitness(fitness=fit, higher_is_better=hib), length=len(cells),
               vector=list(cells), update_parents=update_parents, **kw)


def bit(cells, fit=None, hib=False):
    return vec(BitStringVector, cells, (0, 1), fit, hib)


def product(*a, **k):
    return itertools.product(*a, **k)
