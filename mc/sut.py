"""Thin helpers to build the real objects."""
import numpy as np

from maMDP.mdp import MDP, HexGridMDP, SquareGridMDP
from maMDP.agents import Agent
from maMDP.environments import Environment
from maMDP.algorithms.base import Algorithm
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector

GRID = {"square": SquareGridMDP, "hex": HexGridMDP}


def grid(kind, shape, features=None, walls=None, self_transitions=False, n_features=1):
    n = shape[0] * shape[1]
    if features is None:
        features = np.zeros((n_features, n))
    kw = {} if walls is None else {"walls": np.array(walls)}
    return GRID[kind](features=np.array(features, dtype=features.dtype if isinstance(features, np.ndarray) else float), shape=tuple(shape), self_transitions=self_transitions, **kw)


class Scripted(Algorithm):
    """An algorithm (the library's own extension point) that prefers one scripted action in the agent's current state.

    The script is shared by all copies of the object: {agent name: action, or [actions still to take], or {state: action}}; every fit is logged."""

    def __init__(self, script=None, log=None):
        self.script = script
        self.log = log
        self.name = "scripted"
        super().__init__()

    def _fit(self, mdp, reward_function, position, n_moves, *args, **kwargs):
        name = self._agent.name
        if self.log is not None:
            self.log.append((name, int(position), None if n_moves is None else [[int(j) for j in i] for i in n_moves]))
        q = np.zeros((mdp.n_states, mdp.n_actions))
        q[mdp.sas.sum(axis=-1) == 0] = -np.inf
        want = self.script.get(name)
        if want is not None and want not in ([], {}):
            if isinstance(want, dict):  # a policy for every state
                for s, a in want.items():
                    q[s, a] = 1.0
            else:
                q[position, want.pop(0) if isinstance(want, list) else want] = 1.0
        return np.zeros(mdp.n_states), q
