"""Planted bugs: id, property, edits [(file, old, new)], needs, breaks, demo."""
M = "maMDP/mdp.py"
A = "maMDP/agents.py"
EN = "maMDP/environments.py"
GU = "maMDP/grid_utils.py"
IO = "maMDP/env_io.py"
PL = "maMDP/plotting.py"
AS = "maMDP/algorithms/action_selection.py"
DP = "maMDP/algorithms/dynamic_programming.py"
IRL = "maMDP/algorithms/irl.py"
MC = "maMDP/algorithms/mcts.py"
PO = "maMDP/algorithms/policy_learning.py"
SR = "maMDP/algorithms/successor_representation.py"

IMP = """
from maMDP.mdp import MDP, HexGridMDP, SquareGridMDP
from maMDP.agents import Agent
from maMDP.environments import Environment
from maMDP.algorithms.base import Algorithm, Null
from maMDP.algorithms.dynamic_programming import ValueIteration
from maMDP.algorithms.action_selection import MaxActionSelector, SoftmaxActionSelector
"""
SCRIPT = """
class Scripted(Algorithm):
    # prefers the action that the shared table says for the agent
    want = {}

    def _fit(self, mdp, reward_function, position, n_moves, *a, **k):
        q = np.zeros((mdp.n_states, mdp.n_actions))
        q[mdp.sas.sum(axis=-1) == 0] = -np.inf
        if self._agent.name in self.want:
            q[position, self.want[self._agent.name]] = 1.0
        return np.zeros(mdp.n_states), q


def go(env, name, action):
    Scripted.want[name] = action
    env.fit(name)
    return env.step(name)

"""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, imp=IMP):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=imp + demo))


seed("sas_window", "C01", [(M, """        n_states = np.product(self.grid.shape)

        # Loop over state pairs to get state-action-state info
        sas = np.zeros((n_states, n_actions, n_states))

        for i in range(n_states):
            for j in range(n_states):
                if adjacency[i, j] == 1:
                    action = get_action_from_states_square(""", """        n_states = np.product(self.grid.shape)

        # Loop over state pairs to get state-action-state info
        sas = np.zeros((n_states, n_actions, n_states))
        reach = max(self.shape[0], 5)  # neighbours are at most one column apart

        for i in range(n_states):
            for j in range(max(0, i - reach), min(n_states, i + reach + 1)):
                if adjacency[i, j] == 1:
                    action = get_action_from_states_square(""")],
     "a square grid with more than 5 rows and more rows than columns", "moves between columns are missing in tall grids", """
m = SquareGridMDP(np.zeros((1, 16)), shape=(2, 8))
check(list(m.state_valid_actions(0)) == [0, 1], m.state_valid_actions(0))
check(m.get_next_state(0, 1) == 8, "neighbour in the next column")
""")
seed("square_far", "C01", [(GU, "    return (cdist(grid_coords, grid_coords) == 1).astype(int)\n",
                           "    index = np.arange(len(grid_coords))\n    return ((cdist(grid_coords, grid_coords) == 1) & (np.abs(index[:, None] - index) <= 32)).astype(int)\n")],
     "square grids with more than 32 cells per column", "cells of neighbouring columns are not connected in tall grids", """
for shape in ((2, 3), (3, 33), (2, 40)):
    w, h = shape
    m = SquareGridMDP(np.zeros((1, w * h)), shape=shape)
    want = sum(1 for x in range(w) for y in range(h) for d in ((0, 1), (0, -1), (1, 0), (-1, 0)) if 0 <= x + d[0] < w and 0 <= y + d[1] < h)
    check(m.sas.sum() == want, ("moves of a grid", shape, m.sas.sum(), want))
""")
seed("walls_forgotten", "C02", [(M, "        new_walls = self.walls.copy()\n", "        new_walls = np.zeros_like(self.walls)\n")],
     "adding a second wall to a grid", "adding a wall by its coordinates removes the walls that were there", """
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
m.add_wall_xy((0,), (0,))
m.add_wall_xy((2,), (2,))
check(m.walls[0] == 1 and m.walls[8] == 1, m.walls)
check(0 not in [m.get_next_state(1, a) for a in m.state_valid_actions(1)], "moved into a wall")
""")
seed("deterministic_half", "C03", [(M, "        if np.any((sas > 0) & (sas < 1)):\n", "        if np.any((sas > 0.5) & (sas < 1)):\n")],
     "a stochastic MDP in which no outcome is more likely than one half", "transitions with probabilities of at most one half are treated as certain", """
s = np.zeros((2, 1, 2))
s[:, 0] = 0.5
m = MDP(np.zeros((1, 2)), s, seed=3)
got = {int(m.get_next_state(0, 0)) for _ in range(60)}
check(got == {0, 1}, got)
""")
seed("pair_all_actions", "C03", [(M, "                return list(np.where(possible_actions > 0)[0])\n", "                return list(np.where(possible_actions == np.max(possible_actions))[0])\n")],
     "a stochastic MDP with two actions leading to the same state with different probabilities", "the list of actions that lead from one state to another is incomplete", """
s = np.zeros((2, 2, 2))
s[0, 0] = [.25, .75]
s[0, 1] = [.75, .25]
s[1, 0, 1] = 1
m = MDP(np.zeros((1, 2)), s)
check([int(i) for i in m._state_pair_to_action(0, 1, return_max=False)] == [0, 1], m._state_pair_to_action(0, 1, return_max=False))
""")
seed("history_stay", "C04", [(A, "        self.position_history.append(self.position)\n", "        if self.position != self.position_history[-1]:\n            self.position_history.append(self.position)\n")],
     "self transitions, and an agent that stays where it is", "a step that stays put is missing from the agent's history", SCRIPT + """
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2), self_transitions=True)
env = Environment(m, {Agent("a", algorithm=Scripted): (0, [1, 0], [])})
for a in (4, 0, 4):
    go(env, "a", a)
check([int(i) for i in env.get_agent_position_history("a")] == [0, 0, 1, 1], env.get_agent_position_history("a"))
""")
seed("eat_fraction", "C05", [(M, "            if self.__feature_array[f, state_id] > 0:\n", "            if self.__feature_array[f, state_id] >= 1:\n")],
     "features with intensities below one", "features of intensity below one are never eaten", SCRIPT + """
m = SquareGridMDP(np.array([[0, .5, 1., 0]]), shape=(2, 2))
env = Environment(m, {Agent("a", algorithm=Scripted): (0, [1, 0], [0])})
go(env, "a", 0)
check(m.features[0, 1] == 0 and env.agents["a"].consumed[0] == 1, (m.features[0], env.agents["a"].consumed))
""")
seed("eat_first_only", "C05", [(M, "        for f in feature_idx:\n            if", "        for f in list(feature_idx)[:self.n_features - self.n_agents]:\n            if")],
     "an agent that eats more things than there are features other than agents", "the last kinds of food in a long diet are never eaten", SCRIPT + """
m = SquareGridMDP(np.array([[0, 0, 0, 0]]), shape=(2, 2))
ags = {Agent("a", algorithm=Scripted): (0, [0, 0, 0, 0], [0, 2, 3]), Agent("b", algorithm=Null): (1, [0] * 4, []), Agent("c", algorithm=Null): (1, [0] * 4, [])}
env = Environment(m, ags)
go(env, "a", 0)
check(list(env.agents["a"].consumed) == [0, 0, 1, 1], env.agents["a"].consumed)
""")
seed("start_moves", "C06", [(A, "        if self.__starting_position is None:\n", "        if self.__starting_position is None or self._parent_environment.__dict__.get('n_steps') == 0:\n")],
     "relocating an agent before the first step, then resetting", "reset puts an agent where it was relocated to before its first step", """
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
env = Environment(m, {Agent("a", algorithm=Null): (0, [1, 0], [])})
env.set_agent_position("a", 3)
env.reset()
check(env.agents["a"].position == 0 and list(env.get_agent_position_history("a")) == [0], env.agents["a"].position)
""")
seed("second_reset", "C06", [(M, "    def reset(self):\n        self.features = self.__original_feature_array\n", "    def reset(self):\n        self.__feature_array = self.__original_feature_array\n")],
     "a second reset", "what is eaten after a reset stays eaten after the next one", SCRIPT + """
m = SquareGridMDP(np.array([[0, 1., 0, 0]]), shape=(2, 2))
env = Environment(m, {Agent("a", algorithm=Scripted): (0, [1, 0], [0])})
for k in range(3):
    go(env, "a", 0)
    check(env.agents["a"].consumed[0] == 1, "nothing left to eat in round %d" % k)
    env.reset()
""")
seed("caught_last", "C07", [(EN, "                    if self.agents[agent_name].position == agent.position:\n                        caught = True\n",
                             "                    caught = self.agents[agent_name].position == agent.position\n")],
     "an agent that eats two other agents and steps onto the first of them", "a capture is forgotten if a later prey is elsewhere, so the run goes on", SCRIPT + """
m = SquareGridMDP(np.zeros((1, 6)), shape=(2, 3), self_transitions=True)
ags = {Agent("a", algorithm=Scripted): (0, [0] * 4, [2, 3]), Agent("b", algorithm=Null): (1, [0] * 4, []), Agent("c", algorithm=Null): (5, [0] * 4, [])}
env = Environment(m, ags)
Scripted.want["a"] = 0
env.step_multi("a", n_steps=2, refit=True)
check(len(env.get_agent_position_history("a")) == 2, env.get_agent_position_history("a"))
""")
seed("turn_moves", "C07", [(EN, "                    n_steps=n_moves[n][t],\n", "                    n_steps=n_moves[n][0],\n")],
     "numbers of moves that differ from turn to turn", "every turn has as many moves as the first", SCRIPT + """
m = SquareGridMDP(np.zeros((1, 6)), shape=(2, 3), self_transitions=True)
env = Environment(m, {Agent("a", algorithm=Scripted): (0, [0] * 3, []), Agent("b", algorithm=Scripted): (1, [0] * 3, [])})
Scripted.want.update(a=4, b=4)
env.step_multi_interactive(n_moves=[[1, 3], [2, 1]], refit=True)
check([len(env.get_agent_position_history(i)) for i in "ab"] == [5, 4], env.n_steps)
""")
seed("vi_delta_last", "C08", [(DP, "        delta = delta_update(delta, v, values[s])\n", "        delta = delta_update(0.0, v, values[s])\n")],
     "an MDP whose last state's value converges early, e.g. because it is walled off", "planning stops as soon as the last state's value has converged", """
f = np.zeros((1, 9)); f[0, 0] = 1
w = np.zeros(9); w[8] = 1
m = SquareGridMDP(f, shape=(3, 3), walls=w)
a = ValueIteration(); a.fit(m, np.array([1.]), 0)
V = np.zeros(9)
for _ in range(600):
    Q = np.einsum("sat,t->sa", m.sas, f[0] + .9 * V)
    Q[m.sas.sum(-1) == 0] = -np.inf
    V = np.array([q.max() if np.isfinite(q.max()) else 0 for q in Q])
check(np.allclose(a.values, V, atol=1e-5), (a.values, V))
""")
seed("vi_most_likely", "C08", [(DP, "        action_values[a] = np.dot(p_sprime, reward + discount*values)\n", "        best = np.argmax(p_sprime)\n        action_values[a] = p_sprime.sum() * (reward[best] + discount*values[best])\n")],
     "a stochastic MDP", "only the most likely outcome of an action counts", """
s = np.zeros((3, 2, 3))
s[0, 0] = [0, .6, .4]; s[0, 1] = [1, 0, 0]; s[1, 0, 1] = 1; s[2, 0, 2] = 1
m = MDP(np.array([[0., 1., -20.]]), s)
a = ValueIteration(); a.fit(m, np.array([1.]), 0)
check(np.argmax(a.q_values[0]) == 1, a.q_values)
""")
seed("max_close", "C09", [(AS, "            max_actions = np.where(q_values[s, :] == q_values[s, :].max())[0]\n", "            max_actions = np.where(np.isclose(q_values[s, :], q_values[s, :].max()))[0]\n")],
     "actions whose values differ by very little", "actions that are nearly as good as the best one share its probability", """
p = MaxActionSelector().get_pi_p(np.array([[1000.0, 1000.001]]))
check(list(p[0]) == [0, 1], p)
""")
seed("softmax_scale", "C09", [(AS, "        out = (np.exp((qs - qs.max()) / temperature)) / (np.sum(np.exp((qs - qs.max()) / temperature), axis=0))\n",
                               "        out = (np.exp(qs / temperature - qs.max())) / (np.sum(np.exp(qs / temperature - qs.max()), axis=0))\n")],
     "large action values and a low temperature", "probabilities overflow", """
p = SoftmaxActionSelector(temperature=0.01).get_pi_p(np.array([[10.0, 10.01]]))
check(np.allclose(p[0], [1 / (1 + np.e), np.e / (1 + np.e)]), p)
""")
seed("proba_mode", "C10", [(A, "        current_states = np.argwhere(position > 0).flatten()\n", "        current_states = np.argwhere(position >= position.max()).flatten()\n")],
     "a starting distribution that is not uniform over its states", "less likely starting positions are left out", """
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2), self_transitions=True)
env = Environment(m, {Agent("a", algorithm=Null): (0, [1, 0], [])})
env.fit("a")
check(np.isclose(env.step_proba("a", np.array([.25, 0, 0, .75])).sum(), 1), "sum")
""")
seed("mcts_leak", "C11", [(MC, "    features = features.copy()\n    n_agents = len(current_node)\n", "    n_agents = len(current_node)\n")],
     "a consumed feature and more than one simulation", "what is eaten in one simulation is missing from the following ones", """
from maMDP.algorithms.mcts import MCTS
s = np.zeros((2, 2, 2)); s[0, 0, 1] = s[1, 0, 0] = 1
m = MDP(np.array([[0., 1.]]), s)
env = Environment(m, {Agent("a", algorithm=MCTS, algorithm_kwargs=dict(n_iter=4, n_steps=1)): (0, [1, 0], [0])})
env.fit("a", n_moves=[[1]])
check(np.isclose(env.get_agent_q_values("a")[0, 0], 4 / 5), env.get_agent_q_values("a"))
""")
seed("ucb_shared_log", "C11", [(MC, "    ucb = (V[states] / (1 + N[states])) + C * np.sqrt(\n", "    ucb = (V[states] / (1 + N[states].max())) + C * np.sqrt(\n")],
     "next states visited different numbers of times", "upper confidence bounds divide every value by the largest number of visits", """
from maMDP.algorithms.mcts import UCB
got = UCB(np.array([0., 4., 9.]), np.array([5., 1., 4.]), np.array([1, 2]), 0.0, 0)
check(np.allclose(got, [2, 1.8]), got)
""")
seed("prey_and_predator", "C12", [(MC, "                added_reward += caught_cost\n", "                added_reward = caught_cost\n")],
     "one moment in which the planner eats its prey and is eaten itself", "the reward for the prey is lost when the planner is caught at the same moment", """
from maMDP.algorithms.mcts import check_agent_overlap
c = np.zeros((3, 3), dtype=bool); c[0, 1] = True; c[2, 0] = True
r, act, caught = check_agent_overlap(c, np.array([1, 1, 1]), -50.0, np.ones(3, dtype=np.bool_), (0.0, 7.0, 0.0))
check(caught and r == -43, r)
""")
seed("cache_shared", "C13", [(MC, "        cached_q_values = [{} for _ in range(len(current_node))]\n", "        cached_q_values = [{}] * len(current_node)\n")],
     "caching, and two opponents that care about the same things to different degrees", "opponents use each other's remembered action values", """
from maMDP.algorithms import mcts
calls = []
real = mcts.get_opponent_next_state


def spy(method, states, cur, rf, features, sas, *a, **k):
    q = k.get("q_values")
    if q is not None:
        _, want = mcts.solve_value_iteration(rf, features, k["max_iter"], k["discount"], sas, k["tol"])
        calls.append(np.allclose(np.nan_to_num(q, neginf=-1e9), np.nan_to_num(want, neginf=-1e9)))
    return real(method, states, cur, rf, features, sas, *a, **k)


mcts.get_opponent_next_state = spy
m = SquareGridMDP(np.array([[0., 1, 0, 1, 0, 1]]), shape=(2, 3), self_transitions=True)
for k in range(5):
    env = Environment(m, {Agent("a", algorithm=mcts.MCTS, algorithm_kwargs=dict(n_iter=100, C=100, interactive=True, caching=True)): (0, [0., 0, 0, 0], []),
                          Agent("b"): (4, [1., 0, 0, 0], []), Agent("c"): (2, [-1., 0, 0, 0], [])})
    env.fit("a", n_moves=[[1, 1], [1, 1], [1, 1]])
check(calls and all(calls), "remembered action values are not those of this agent")
""")
seed("cache_dislikes", "C13", [(MC, "        agent_preferences.append(np.where(reward_functions[agent, :] != 0)[0].tolist())\n", "        agent_preferences.append(np.where(reward_functions[agent, :] > 0)[0].tolist())\n")],
     "caching, and an opponent that avoids a feature that others eat", "remembered action values ignore that a disliked feature has been eaten", """
from maMDP.algorithms import mcts
calls = []
real = mcts.get_opponent_next_state


def spy(method, states, cur, rf, features, sas, *a, **k):
    q = k.get("q_values")
    if q is not None:
        _, want = mcts.solve_value_iteration(rf, features, k["max_iter"], k["discount"], sas, k["tol"])
        calls.append(np.allclose(np.nan_to_num(q, neginf=-1e9), np.nan_to_num(want, neginf=-1e9)))
    return real(method, states, cur, rf, features, sas, *a, **k)


mcts.get_opponent_next_state = spy
m = SquareGridMDP(np.array([[0., 1, 1, 1, 1, 1]]), shape=(2, 3), self_transitions=True)
for k in range(5):
    env = Environment(m, {Agent("a", algorithm=mcts.MCTS, algorithm_kwargs=dict(n_iter=400, C=100, interactive=True, caching=True)): (0, [0., 0, 0], [0]),
                          Agent("b"): (4, [-1., 0, 0], [])})
    env.fit("a", n_moves=[[1, 1, 1], [1, 1, 1]])
check(calls and all(calls), "remembered action values are not those of the present features")
""")
seed("plan_others", "C14", [(EN, "                                0,  # don't adjust for turns when simulating other agents\n", "                                min(i, n_agent_steps[j] - 1),\n")],
     "an agent that makes several moves per turn while planning for others that do, too", "the plans for other agents shrink with the planner's own moves", """
log = []


class Spy(Algorithm):
    def _fit(self, mdp, rf, position, n_moves, *a, **k):
        log.append([[int(j) for j in i] for i in n_moves])
        return np.zeros(mdp.n_states), np.where(mdp.sas.sum(-1) > 0, 0.0, -np.inf)


m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
env = Environment(m, {Agent("a", n_moves=2, algorithm=Spy): (0, [0] * 3, []), Agent("b", n_moves=2, algorithm=Spy): (8, [0] * 3, [])})
env.step_multi("a", n_moves_plan=[2, 2], n_turns_plan=2, refit=True)
check(log == [[[2, 0], [2, 0]], [[1, 1], [2, 0]]], log)
""")
seed("count_once", "C15", [(IRL, "            feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)  # Ex", "            feature_array[n, :] = mdp[n].features[:, np.unique(t[1:]).astype(int)].sum(axis=1)  # Ex")],
     "a trajectory that visits a state twice", "features of states entered more than once count only once", """
from maMDP.algorithms.irl import MFFeatureMatching
m = SquareGridMDP(np.array([[0, 1., 0, 0]]), shape=(2, 2))
check(list(MFFeatureMatching().fit(m, [[0, 1, 0, 1]])) == [2], "count")
""")
seed("eyeline_start", "C15", [(IRL, "    if normalise and not np.all(feature_counts == 0):\n", "    if normalise and not np.any(feature_counts == 0):\n")],
     "a line of sight that lacks one of the features", "what was seen is not normalised if a feature was not seen at all", """
from maMDP.algorithms.irl import SimpleActionIRL
m = SquareGridMDP(np.array([[0, 1., 1, 0, 0, 0], [0] * 6]), shape=(2, 3))
check(list(SimpleActionIRL().fit([m], [[0, 1]])) == [1, 0], "normalised")
""")
seed("theta_not_reset", "C16", [(IRL, "        self.theta = R_  # Final estimate of reward weights\n", "        self.theta = self.original_theta = R_  # Final estimate of reward weights\n")],
     "resetting a learner after fitting it", "a reset learner keeps what it learned", """
from maMDP.algorithms.irl import HyptestIRL
m = SquareGridMDP(np.array([[0, 1., 0, 0], [0, 0, 1., 0]]), shape=(2, 2))
h = HyptestIRL(normalisation="z-score")
a = h.fit(m, [[0, 1]], show_progress=False).copy()
h.reset()
b = h.fit(m, [[0, 1]], show_progress=False).copy()
check(np.allclose(a, b), (a, b))
""")
seed("td_rate_sticks", "C16", [(PO, "        self.n_states = 1  # Used for adjusting learning rate\n\n        # Loop through trajectories\n", "        # Loop through trajectories\n")],
     "fitting a learner twice without resetting its learning rate", "the learning rate goes on decaying from one fit to the next", """
from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
a = TDGeneralPolicyLearner(decay=1)
a.fit(m, [[0, 1, 2]])
b = TDGeneralPolicyLearner(decay=1, Q=a.Q.copy())
a.fit(m, [[0, 3]]); b.fit(m, [[0, 3]])
check(np.allclose(a.Q, b.Q), (a.Q, b.Q))
""")
seed("td_last_move", "C17", [(PO, "                    self.n_states += 1\n", "                self.n_states += len(action)\n")],
     "a decaying learning rate and a trajectory of more than one move", "the learning rate decays between trajectories only, not from move to move", """
from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
a = TDGeneralPolicyLearner(learning_rate=.5, decay=1)
a.fit(m, [[0, 1, 2]])
check(np.isclose(a.Q[0], .5 + .25 * .5), a.Q)
""")
seed("kernel_wrap", "C17", [(PO, "    return np.abs(((x - y) + 180) % 360 - 180)\n", "    return np.abs(x - y) % 180\n")],
     "kernel generalisation between directions on either side of the first one", "directions opposite each other count as equal", """
from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
m = SquareGridMDP(np.zeros((1, 9)), shape=(3, 3))
a = TDGeneralPolicyLearner(learning_rate=.5, decay=0, kernel=True)
a.fit(m, [[0, 1]])
check(a.Q[0] > a.Q[1] > a.Q[2] and np.isclose(a.Q[1], a.Q[3]), a.Q)
""")
seed("save_no_prey", "C18", [(IO, "        agent_dict[agent_name]['consumes'] = agent.consumes\n", "        agent_dict[agent_name]['consumes'] = [f for f in agent.consumes if f < len(feature_names)]\n")],
     "a predator", "agents that eat other agents lose that part of their diet when saved", """
from maMDP.env_io import hex_env_to_dict, hex_environment_from_dict
m = HexGridMDP(np.zeros((1, 4)), shape=(2, 2))
env = Environment(m, {Agent("a"): (0, [0, 0, 1.], [0, 2]), Agent("b"): (3, [1., 0, 0], [])})
check(list(hex_environment_from_dict(hex_env_to_dict(env)).agents["a"].consumes) == [0, 2], "diet")
""")
seed("load_sorted", "C18", [(IO, "        for n, f in enumerate(feature_names):\n", "        for n, f in enumerate(sorted(feature_names)):\n")],
     "features whose names are not in alphabetical order (or more than ten unnamed ones)", "features are loaded in another order than saved", """
from maMDP.env_io import hex_env_to_dict, hex_environment_from_dict
m = HexGridMDP(np.array([[1., 0, 0, 0], [0, 1, 1, 0]]), shape=(2, 2))
env = Environment(m, {Agent("a"): (0, [0, 0, 1.], [])})
e = hex_environment_from_dict(hex_env_to_dict(env, feature_names=["tree", "food"]))
check(np.array_equal(e.mdp.features, m.features), e.mdp.features)
""")
seed("sr_tile", "C19", [(SR, "        sr, reward.repeat(n_actions)\n", "        sr, np.ascontiguousarray(reward.repeat(n_actions).reshape((n_states, n_actions)) * (sas.sum(axis=-1) > 0)).reshape(-1)\n")],
     "a world in which some action is impossible", "the walk gets no reward for states in which it picks an impossible action", """
from maMDP.algorithms.successor_representation import get_sa_sr, get_sr_q_values
s = np.zeros((2, 2, 2)); s[0, 0, 1] = s[1, 0, 0] = 1
sr = get_sa_sr(s, .5)
q = get_sr_q_values(np.array([1.]), np.array([[1., 1.]]), sr, s, 2, 2)
check(np.isclose(q[0, 0], (np.linalg.inv(np.eye(4) - .5 * np.array([[0, 0, .5, .5], [0] * 4, [.5, .5, 0, 0], [0] * 4])) @ np.ones(4))[0]), q)
""")
seed("alpha_autoscale", "C20", [(PL, "        colour_array[..., -1] = (\n            colors.Normalize(0, 1, clip=True)(grids[grid]) * alpha\n", "        colour_array[..., -1] = (\n            colors.Normalize(0, max(grids[grid].max(), 1e-9), clip=True)(grids[grid]) * alpha\n")],
     "a hexagonal grid with a feature whose intensities are all below one", "faint features are drawn at full strength", """
import matplotlib.pyplot as plt
m = HexGridMDP(np.array([[.25, 0, .5, 0]]), shape=(2, 2))
ax = m.plot(colours=["red"], alphas=[1])
got = [round(float(p.get_facecolor()[3]), 3) for p in ax.patches[:4]]
check(got == [.25, 0, .5, 0], got)
""")
seed("tie_eight", "C09", [(AS, "    return rng.choice(np.where(x == x.max())[0])", "    best = np.where(x == x.max())[0]\n    return rng.choice(best[:8])")],
     "a state in which more than eight actions are equally good", "the ninth and later of equally good actions are never picked", """
sel = MaxActionSelector(seed=3)
got = {int(a) for _ in range(40) for a in sel.get_pi(np.zeros((10, 12)))}
check(got == set(range(12)), got)
""")
seed("diet_last", "C22", [(EN, "            if any([i > len(reward_function) - 1 for i in consumes]):", "            if len(consumes) and consumes[-1] > len(reward_function) - 1:")],
     "a diet with a feature that does not exist, followed by one that does", "an impossible diet is accepted", """
try:
    Environment(SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)), {Agent("a"): (0, [1., 0], [5, 0])})
except (ValueError, AttributeError, IndexError):
    sys.exit(0)
check(False, "accepted")
""")
seed("count_refused", "C22", [(EN, "        self._check_agent_name(agent_name)\n        self.agents[agent_name].step()\n\n        # Consume features if necessary - i.e. set feature to zero\n        self._consume_features(agent_name)\n\n        self.n_steps += 1\n",
                               "        self._check_agent_name(agent_name)\n        self.n_steps += 1\n        self.agents[agent_name].step()\n\n        # Consume features if necessary - i.e. set feature to zero\n        self._consume_features(agent_name)\n")],
     "a step that is refused", "a refused step is counted", """
env = Environment(SquareGridMDP(np.zeros((1, 4)), shape=(2, 2)), {Agent("a"): (0, [1., 0], [])})
try:
    env.step("a")
    check(False, "not refused")
except AttributeError:
    pass
check(env.n_steps == 0, env.n_steps)
""")
seed("walls_first", "C22", [(M, "        # Check shape etc\n        if not walls.ndim == 1:\n", "        # Add array\n        self.__walls = walls\n\n        # Check shape etc\n        if not walls.ndim == 1:\n"),
                            (M, "        # Add array\n        self.__walls = walls\n\n        # Adjust SAS\n", "        # Adjust SAS\n")],
     "walls that are refused", "the walls reported are the refused ones", """
m = SquareGridMDP(np.zeros((1, 4)), shape=(2, 2))
try:
    m.walls = np.array([2, 0, 0, 0])
    check(False, "not refused")
except ValueError:
    pass
check(list(m.walls) == [0, 0, 0, 0], m.walls)
""")
seed("softmax_global_seed", "C23", [(AS, """        self.temperature = temperature

        if seed is not None:
            self.rng = np.random.default_rng(seed=seed)
""", """        self.temperature = temperature

        if seed is not None:
            np.random.seed(seed)
            self.rng = np.random
""")], "two seeded selectors, or other random draws between choices", "a seeded selector shares and reseeds the global random generator", """
def choices(disturb):
    s = SoftmaxActionSelector(seed=5)
    out = []
    for _ in range(12):
        if disturb:
            np.random.rand()
        out.append(int(s.get_pi(np.zeros((1, 4)))[0]))
    return out


check(choices(False) == choices(True), "seeded choices depend on other draws")
""")
seed("rng_type", "C23", [(AS, "    if rng is None:\n        rng = np.random\n", "    if not isinstance(rng, np.random.RandomState):\n        rng = np.random\n")],
     "a seeded maximising selector and ties", "ties are broken with the global random generator although a seed was given", """
def choices(k):
    np.random.seed(k)
    s = MaxActionSelector(seed=5)
    return [int(s.get_pi(np.zeros((1, 4)))[0]) for _ in range(12)]


check(choices(1) == choices(2), "seeded choices depend on the global generator")
""")
seed("dist_mirror", "C24", [(GU, """        for nn, j in enumerate(XB):
            dist[n, nn] = offset_distance(i[0], i[1], j[0], j[1])
""", """        for nn, j in enumerate(XB):
            if nn < n and nn < len(XA) and n < len(XB):
                dist[n, nn] = dist[nn, n]
            else:
                dist[n, nn] = offset_distance(i[0], i[1], j[0], j[1])
""")], "two different lists of cells", "distances between two lists of cells are mirrored as if both were the same list", """
from maMDP.grid_utils import hex_dist
d = hex_dist(np.array([[0, 0], [0, 5]]), np.array([[0, 1], [0, 9]]))
check(d.tolist() == [[1, 9], [4, 4]], d)
""")
seed("hyptest_stale_q", "C25", [(IRL, """        for n in t:
            trajectory = trajectories[n]

            # Reset Q values
            q_values = None
            
""", """        q_values = None

        for n in t:
            trajectory = trajectories[n]
            
""")], "trajectories in MDPs with different features", "every trajectory is explained by the values of the first MDP", """
from maMDP.algorithms.irl import HyptestIRL
f = np.array([[0, 1., 0, 0], [0, 0, 1., 0]])
m1, m2 = SquareGridMDP(f, shape=(2, 2)), SquareGridMDP(f[::-1].copy(), shape=(2, 2))
kw = dict(normalisation="z-score", decay=0, learning_rate=1)
a = HyptestIRL(**kw).fit([m1, m2], [[0, 1], [0, 1]], show_progress=False)
b = HyptestIRL(**kw).fit([m2], [[0, 1]], show_progress=False)
check(np.allclose(a, b), (a, b))
""")
seed("start_once", "C25", [(IRL, "            p_zero[t[0]] += 1\n", "            p_zero[t[0]] = 1\n")],
     "several trajectories, most of which start in the same state", "expected feature counts give every starting state the same weight", """
from maMDP.algorithms.irl import MaxCausalEntIRL
s = np.zeros((2, 1, 2)); s[0, 0, 0] = s[1, 0, 1] = 1
m = MDP(np.eye(2), s)
t = MaxCausalEntIRL(max_iter_irl=1).fit(m, [[0, 0], [0, 0], [0, 0], [1, 1]], show_progress=False)
check(np.allclose(t, 0, atol=1e-6), t)
""")
SEEDS = [s for s in SEEDS if s]
