#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it; no check runs it)."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

M, E, A = "maMDP/mdp.py", "maMDP/environments.py", "maMDP/agents.py"
G, DP, AS, MC = "maMDP/grid_utils.py", "maMDP/algorithms/dynamic_programming.py", "maMDP/algorithms/action_selection.py", "maMDP/algorithms/mcts.py"
IRL, PL, SR, IO, PT, B = ("maMDP/algorithms/irl.py", "maMDP/algorithms/policy_learning.py", "maMDP/algorithms/successor_representation.py",
                          "maMDP/env_io.py", "maMDP/plotting.py", "maMDP/algorithms/base.py")

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms, how it is decided
P = []


def p(*a):
    P.append(a)


p("C01", "Grid worlds have exactly the moves of their lattice",
  "In a square or hexagonal grid of any shape, each action moves an agent from a cell to the neighbour in that action's direction, and is impossible exactly where the grid ends; with self-transitions there is one more, last action that stays put. "
  "State numbers, grid indices, coordinates and adjacency all describe that same layout.",
  ["configurations", "inputs"], "every shape, kind of grid, self-transition setting, state and action",
  "the tests look at a few cells of one or two shapes; edge cells, odd and even columns and degenerate shapes multiply",
  [M, G], [("transition construction", G + " square_adjacency, hex_adjacency"), ("state numbering", G + " grid_coords; " + M + " state_to_idx, idx_to_state")],
  "enumerates every state and action of every grid up to the bound and compares with an independently written lattice")
p("C02", "Walls block exactly what touches them, after any history of edits",
  "Whatever sequence of wall edits an MDP has gone through, the possible moves are those of the open world without every move into or out of a walled state, and all derived views (valid actions, adjacency, next states) agree with that. "
  "An action that a wall blocks only in part keeps its remaining outcomes in proportion, summing to one. Removing walls restores the open world, and features are not affected.",
  ["histories", "configurations"], "every history of constructing with walls, replacing them, adding single walls and clearing them",
  "the tests set walls once and look at one cell; they never edit walls repeatedly",
  [M], [("wall setter", M + " MDP.walls, add_wall_xy, reset_walls")],
  "explores every edit history to the depth bound on the real object, all wall masks included, against a set-based model")
p("C03", "Moves follow the transition probabilities for every random outcome",
  "The next state of an action is drawn with exactly the probabilities of the transition function, a state of probability zero is never entered, and an action that is not possible is refused. "
  "The actions reported as possible, and the action reported for a pair of adjacent states, agree with the transition function.",
  ["inputs", "schedules"], "every transition function in the bound, every state and action, every outcome of the random draw",
  "a test samples a draw; it cannot see all outcomes or their probabilities",
  [M], [("sampling", M + " get_next_state"), ("queries", M + " state_valid_actions, is_adjacent, _state_pair_to_action")],
  "enumerates all small MDPs and, with the random module under control, every outcome of each draw with its exact probability")
p("C04", "Agent positions, histories and position features never disagree",
  "After any sequence of stepping, relocating and resetting agents, each agent is where its moves put it, its history lists its start and every state it stepped to, and the environment's features mark exactly one state per agent, the one it is in (unless that mark was eaten). "
  "A step moves only the agent that was asked to move, returns its new position and counts as one step.",
  ["histories"], "every sequence of operations on any number of agents",
  "the tests step one or two agents a few times in one order",
  [E, A, M], [("position setter", A + " AttachedAgent.position"), ("stepping", A + " AttachedAgent.step; " + E + " step"), ("agent rows", M + " update_agent_feature")],
  "breadth-first exploration of all operation sequences on the real environment, compared state by state with a reference model")
p("C05", "Agents eat exactly what they should, where they step, exactly once",
  "When an agent steps into a state, precisely the features it consumes that are present there disappear, from that state only, and each is counted once in that agent's record; nothing else about the features or about other agents' records changes. "
  "Relocating an agent eats nothing.",
  ["histories"], "every sequence of moves, relocations and resets, any assignment of consumed features, agents eating agents included",
  "the tests have one agent eat one feature once",
  [E, M], [("consumption", E + " _consume_features; " + M + " consume_features")],
  "breadth-first exploration of all operation sequences, comparing features and every agent's record with a model")
p("C06", "Resetting an environment from any state gives back a fresh one",
  "From any reachable state, resetting restores the starting positions, histories, features (eaten ones included), consumption records and step count, and from then on the environment behaves like a newly made one, however often it is reset.",
  ["histories"], "every history before the reset and every operation after it",
  "the tests reset once after a few moves and look at positions",
  [E, A, M], [("reset", E + " reset; " + A + " AttachedAgent.reset; " + M + " MDP.reset")],
  "resets the real environment in every reachable state of the bound and compares it, and what it does next, with a fresh model")
p("C07", "Multi-step and turn-taking runs make exactly the moves asked for",
  "Moving an agent several steps, or several agents in turns, makes the same moves as single steps would: every agent in the given order, the number of moves asked for (or its own default) per turn, refitted before each move if asked, and the visited states are returned. "
  "A run ends early exactly when an agent steps onto another one that it eats and stopping was asked for.",
  ["histories", "configurations"], "every sequence of legal moves, orders of agents, numbers of moves and turns, with and without catching",
  "the tests run one agent a few steps and count the moves",
  [E], [("running", E + " step_multi, step_multi_interactive"), ("catching", E + " _check_agents_caught")],
  "scripts every legal action sequence through the planner interface and compares the run with a model of taking turns")
p("C08", "Planning by value iteration finds the optimal values and actions",
  "The state and action values computed by value iteration are the optimal discounted ones for the agent's reward function on the features as they are now, actions that are not possible are valued as impossible and never chosen or counted, and the greedy policy takes an optimal action in every state. "
  "Planning changes neither the MDP nor the agents.",
  ["inputs", "histories"], "every MDP, reward function, discount and history of the environment before planning",
  "the tests compare one or two values in one grid",
  [DP, B, A], [("Bellman backup", DP + " state_value_iterator, get_actions_states, solve_value_iteration"), ("fit", B + " Algorithm.fit")],
  "enumerates all small MDPs, wall masks and environment histories and compares with an independent exact solver, itself cross-checked by brute force over policies")
p("C09", "Action selection picks and weighs actions as its rule says",
  "For any table of action values, maximising selection picks, and gives equal probability to, exactly the actions of highest value; softmax selection gives the softmax probabilities at its temperature and picks with those probabilities; probabilities sum to one and impossible actions have none. "
  "A state whose actions have not been valued gets no action, and the table is left alone.",
  ["inputs", "schedules"], "every table of values, with ties, infinities and unknown values, every random outcome",
  "the tests use a handful of tables and sample the random outcome",
  [AS], [("selectors", AS + " MaxActionSelector, SoftmaxActionSelector, ActionSelector.get_pi, get_pi_p"), ("softmax", AS + " softmax")],
  "enumerates all tables over a set of values and every outcome of the random draws with its exact probability")
p("C10", "The predicted distribution of the next position is exact",
  "The distribution over states an agent will be in after its next step, from its position or from any distribution over positions, is the one that actually stepping it produces; it sums to one and computing it moves nobody and eats nothing.",
  ["inputs", "schedules"], "every world, starting distribution, kind of action selection and random outcome",
  "the tests compare one deterministic case",
  [A, E], [("propagation", A + " AttachedAgent.step_proba")],
  "compares with the exact distribution obtained by enumerating every random outcome of really stepping the agent")
p("C11", "Single-agent tree search plans legally and values what it simulates",
  "Whatever random choices a search by simulation makes, every simulated path is a legal walk of the requested length from the agent's position that tries unexplored states before following the highest upper confidence bound, and its return adds up the rewards met as if consumed features were really eaten. "
  "Each possible action's value is the sum of the returns credited to the state it leads to, once per visit, over one more than its number of visits, and actions that are not possible have none. "
  "Planning never changes the environment, and the agent can then step to a possible state.",
  ["schedules", "inputs"], "every random outcome of the search, world, number of simulations and moves, exploration constant",
  "the tests run a search with one seed and look at the types of what comes back",
  [MC], [("search", MC + " mcts, select, expand, simulate, backpropagate; MCTS._fit")],
  "runs the real search under a controlled random source for every sequence of outcomes and replays each reported simulation in a model")
p("C12", "Interactive search simulates every agent's moves, meals and captures",
  "In planning that simulates other agents, all agents move in turn with the planned number of moves, opponents choose by their own preferences (or at random if asked), features are eaten as they would be, an agent that is caught is out of the simulation, and being caught costs the planner the given cost exactly once. "
  "The action values follow from the simulated returns and visits as in planning alone, and the real environment is not changed.",
  ["schedules", "inputs"], "every random outcome, placement of predators, prey and competitors, and plan of moves per turn",
  "the tests run one seed in one scenario",
  [MC], [("interactive simulation", MC + " mcts_interactive and the functions it calls; MCTS._fit")],
  "runs the real search for every sequence of random outcomes in all small predator-prey scenarios and replays each simulation in a model of the game")
p("C13", "Caching opponents' action values never changes a plan",
  "Planning with remembered opponent action values gives exactly the same possible outcomes as planning without, whatever happened in the environment between plans.",
  ["schedules", "histories"], "every random outcome of planning, and every history of moves, meals, wall edits and resets between plans",
  "the tests check that caching runs; equality of outcomes over all random choices is beyond them",
  [MC], [("cache", MC + " cache key and lookup of opponents' Q values; reset between fits")],
  "enumerates every random outcome of planning with and without memory and compares the outcome of each sequence of choices")
p("C14", "Planned moves are spread over turns without loss",
  "A plan of so many moves is spread over the coming turns in order, filling what is left of the current turn first and no turn with more moves than the agent has, and each agent's planner is given that schedule for itself first and then for the others. "
  "Schedules that are invalid are refused before anything moves.",
  ["inputs", "configurations"], "every current move, number of moves, turns and planned moves, every number and order of agents",
  "the tests check a few combinations of the schedule function",
  [E], [("schedule", E + " get_n_moves_plan, step_multi")],
  "enumerates all combinations in the bound, directly and as seen by a recording planner during real runs")
p("C15", "Feature-counting learners count exactly what was met or seen",
  "Feature matching adds up the features of every state entered on every trajectory (not the start), in that trajectory's own world and without ignored features; learning from lines of sight adds up, per trajectory and normalised, what lies ahead in the chosen direction up to the edge or a wall, and the differential version subtracts what lay in the other directions. "
  "Trajectories that jump between states that are not adjacent are refused.",
  ["inputs"], "every trajectory and set of trajectories, world and set of ignored features",
  "the tests use one trajectory in one world",
  [IRL], [("counting", IRL + " MFFeatureMatching, SimpleActionIRL, SimpleActionFeatureDiffIRL, eyeline functions")],
  "enumerates every trajectory of the bound and compares with independent counts")
p("C16", "Learners can be reset and reused, and leave their inputs alone",
  "After any sequence of fits and resets a learner holds what its documented life cycle says: a reset learner is a new one, with its initial estimate and learning rate; fitting again goes on from, or replaces, the estimate as it does for a learner that was just made with that estimate. "
  "Initial estimates, trajectories and MDPs passed in are never modified.",
  ["histories"], "every sequence of fitting different data, resetting and copying",
  "the tests fit once",
  [IRL, PL], [("state", IRL + " BaseIRL, reset methods; " + PL + " TDGeneralPolicyLearner.reset")],
  "enumerates every operation sequence to the depth bound on the real learners and compares with new ones")
p("C17", "Policy learning applies its error-driven update to every observed move",
  "Learning action preferences from observed moves raises the preference for each action taken by the learning rate times its prediction error, lets the others fall (or generalises to neighbouring directions if asked to) and decays the learning rate as configured, move by move and trajectory by trajectory in order, each in its own world. "
  "Preferences are the same for every state.",
  ["inputs"], "every trajectory and set of trajectories, learning rate, decay and initial preferences",
  "the tests check that fitting runs",
  [PL], [("update", PL + " TDGeneralPolicyLearner._fit_TD_policy")],
  "enumerates every trajectory of the bound and compares with an independently written update")
p("C18", "Saved hexagonal environments load as the same environment",
  "Saving a hexagonal environment as a dictionary, a JSON string or a file and loading it again gives an environment with the same grid, walls, self-transitions, features, agents, positions, rewards, diets, numbers of moves, planners and selectors and their settings, in any state it was saved in, and it behaves the same. "
  "Saving changes nothing, and coordinates, if asked for, describe the same cells as the indices.",
  ["inputs", "histories"], "every feature map, wall mask, set of agents and history before saving",
  "the tests save and load one environment and compare some fields",
  [IO], [("saving and loading", IO + " hex_env_to_dict, hex_env_to_json, hex_environment_from_dict, hex_environment_from_json")],
  "enumerates feature maps, wall masks, agents and histories, compares the loaded environment field by field and by moving it")
p("C19", "The successor representation is that of a random walk",
  "The successor representation equals the expected discounted number of times each state and action follows each other one when actions are picked at random, and the action values derived from it are the reward of the state the action is taken in plus the discounted value of walking at random from where it leads, impossible actions being valued as impossible.",
  ["inputs"], "every deterministic world, discount and reward",
  "the tests check one matrix",
  [SR], [("construction", SR)],
  "enumerates all small worlds and compares with an independently solved linear system")
p("C20", "Plots show every state, feature, wall, agent and path where it is",
  "In a plot of a grid, each state's cell shows its features in their colours and intensities, walls and agents appear in exactly the states they are in, state values rise with their colour, and an arrow is drawn from state to state for each move of a trajectory.",
  ["inputs", "configurations"], "every grid, pattern of features and walls, position of agents, trajectory",
  "the tests check that plotting does not fail",
  [PT, M], [("drawing", PT + " plot_grids, plot_hex_grids, plot_agent, plot_trajectory; " + M + " plot methods, state_to_position")],
  "enumerates placements, renders the real plots and reads the pixels at the centres of all cells and along all arrows")
p("C21", "Environments are independent of one another and of their inputs",
  "Environments made from the same agents do not influence each other however their operations are interleaved, and an MDP given to a new environment starts with its current features and that environment's agents only. "
  "Arrays and lists passed in (features, transitions, walls, rewards, diets) are never modified, and changing the arrays afterwards does not change the environment.",
  ["histories", "schedules"], "every interleaving of operations on two environments, every history before reuse, every way of passing inputs",
  "the tests never have two environments, nor look at their inputs afterwards",
  [E, A, M], [("attaching", A + " Agent._attach; " + E + " _set_mdp_and_agents"), ("copies", M + " features, walls setters; remove_agent_features")],
  "enumerates all interleavings to the depth bound and compares each environment with a run of its own alone")
p("C22", "Invalid requests are refused and change nothing",
  "In any state, a request that makes no sense (a position outside the world, an unknown agent, moving an agent that has not planned or has no known or possible action, malformed walls, features, transitions, rewards, diets, plans or data) raises an error and leaves the environment, its MDP and its agents exactly as they were. "
  "Valid requests work afterwards as if it had never been made.",
  ["histories", "inputs"], "every reachable state and every kind of invalid request",
  "the tests try single invalid constructor arguments and look at the exception only",
  [E, A, M, B, IRL], [("validation", E + " _set_mdp_and_agents, _check_agent_name, step_multi; " + A + " position; " + M + " setters, get_next_state; " + B + " fit")],
  "issues every invalid request in every reachable state of the bound, compares the state before and after and goes on from there")
p("C23", "Seeded objects repeat their choices whatever else is random",
  "An MDP or action selector given a seed makes the same sequence of choices for the same sequence of requests every time, whatever other objects or the rest of the program draw from or do to the global random generator, and it does not draw from that generator.",
  ["schedules"], "every interleaving of draws by seeded objects and by the rest of the program",
  "the tests repeat one seeded call",
  [AS, M], [("generators", AS + " MaxActionSelector, SoftmaxActionSelector, random_max; " + M + " MDP.rng, get_next_state")],
  "enumerates all interleavings of draws to the depth bound and compares with each object alone")
p("C24", "Lattice distances are shortest paths; directions name the right move",
  "The distance between two hexagonal cells is the length of the shortest path between them, and the action reported for moving between two adjacent cells is the one that makes that move, states that are not adjacent being refused.",
  ["inputs"], "all pairs of cells",
  "the tests check a few pairs",
  [G], [("distance and direction", G + " hex_dist, oddq_to_cube, get_action_from_states_square, get_action_from_states_hex")],
  "compares all pairs of cells of the bound with breadth-first search in an independently written lattice")
p("C25", "Inverse reinforcement learners follow their documented updates",
  "Maximum causal entropy learning moves the reward weights by the (decaying) learning rate times the difference between observed and expected feature counts of its current soft or greedy policy; hypothesis testing updates the weight of each feature after every move by how well that feature alone explains it, faster for disconfirmation than confirmation. "
  "Ignored features keep no weight, and all results are finite.",
  ["inputs"], "every trajectory and set of trajectories, number of iterations, decay, initial weights, ignored features",
  "the tests fit one trajectory and check the sign of one weight",
  [IRL, DP], [("gradient", IRL + " MaxCausalEntIRL"), ("hypotheses", IRL + " HyptestIRL")],
  "enumerates every trajectory of the bound and compares with an independently written implementation of the update")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for i, title, st, over, qt, why, files, mech, how in P:
            assert len(title) <= 80, title
            assert len(re.findall(r"[.](\s|$)", st)) <= 3, st
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}) + "\n")
    checks = []
    for i, title, st, over, qt, why, files, mech, how in P:
        src = open(os.path.join(HERE, "mc", i.lower() + ".py")).read()
        ns = {}
        for name in ("ASSUMPTIONS", "BOUNDS"):
            m = re.search(r"^%s = .*?(?=\n\S|\n\n)" % name, src, re.M | re.S)
            exec(m.group(0), ns)
        cmd = "/opt/venv/bin/python run.py %s --tier " % i
        checks.append({"property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "evidence_file": "evidence/%s.json" % i,
                       "technique": "explicit-state model checking of the real code: bounded exhaustive exploration against a reference model",
                       "level": "model_checking",
                       "level_note": "This check %s. Bounds (quick): %s. (thorough): %s. Assumes: %s." % (how, ns["BOUNDS"]["quick"], ns["BOUNDS"]["thorough"], "; ".join(ns["ASSUMPTIONS"]))})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, numba, matplotlib, scipy\"", "checks": checks, "not_applicable": [],
           "notes": "Every check imports maMDP from /repo's working tree in a new process with empty bytecode and numba caches, enumerates its whole bounded space in up to 8 worker processes, and needs no hooks in /repo. Violations are replayed with: run.py <ID> --replay <file>."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
