From 03c1123c5966ed1762a13a95236c790812118537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 01/54] fix: plain MDP can be constructed (walls are checked
 against the number of states, not a grid shape)

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 83ef70f..3e27dea 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -122,7 +122,7 @@ class MDP():
         # Check shape etc
         if not walls.ndim == 1:
             raise AttributeError("Array specifying walls must be 1 dimensional")
-        if not walls.shape == np.product(self.shape):
+        if not walls.shape == (self.n_states, ):
             raise AttributeError("Walls array must have the same number of entries as the number of states. Expected {0}, "
                                 "got {1}".format(self.sas.shape[0], walls.shape))
         if not np.all(np.isin(walls, [0, 1])):
-- 
2.43.0


From a32cf6cf5f9ebe0e6b24b226d033b9e46051de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 02/54] fix: adjacency accounts for walls

---
 maMDP/mdp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 3e27dea..3e26620 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -129,14 +129,17 @@ class MDP():
             raise ValueError("Wall array values must be either 0 (no wall) or 1 (wall)")
 
         # Reset SAS
-        self.sas = self.__original_sas.copy()
+        sas = self.__original_sas.copy()
 
         # Add array
         self.__walls = walls
 
         # Adjust SAS
-        self.sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
-        self.sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+        sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
+        sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+
+        # Set this last, so that everything derived from the SAS accounts for the walls
+        self.sas = sas
 
     def _get_walls(self, walls):
         return walls
-- 
2.43.0


From c10cf8f41fed5e8431e1285f5234b58041adbc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 03/54] fix: step_proba adds up the probability of every way of
 reaching a state

---
 maMDP/agents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index cb2acea..f25bd1e 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -216,8 +216,8 @@ class AttachedAgent():
 
         for s in current_states:
             for action in range(self.pi_p.shape[1]):
-                next_state = self._parent_mdp.get_next_state(s, action)
-                next_states_p[next_state] = self.pi_p[s, action] * position[s]
+                if self.pi_p[s, action] > 0:
+                    next_states_p += position[s] * self.pi_p[s, action] * self._parent_mdp.sas[s, action, :]
 
         return next_states_p
 
-- 
2.43.0


From 0fb7f869f5f0060abdbd3a26617e767900d32068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 04/54] fix: sample next states in non-deterministic MDPs

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 3e26620..93d4caf 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -222,7 +222,7 @@ class MDP():
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-            next_state = self.rng.random.choice(np.arange(len(possible_states), dtype=np.int), p=possible_states)
+            next_state = self.rng.choice(np.arange(len(possible_states)), p=possible_states / possible_states.sum())
 
         return next_state
 
-- 
2.43.0


From 7c18a0ff2e33cfadddd493f8ff1669ec08e88662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 05/54] fix: an impossible action is an error rather than a
 move to state 0

---
 maMDP/mdp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 93d4caf..c07ce05 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -219,6 +219,9 @@ class MDP():
         # Get possible transitions given the best action
         possible_states = self.sas[current_state, action, :]
 
+        if not np.any(possible_states > 0):
+            raise ValueError("Action {0} is not possible in state {1}".format(action, current_state))
+
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-- 
2.43.0


From d502528c357a56807743c2a187a83f84886b7be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 06/54] fix: Null does not value actions that are not possible

---
 maMDP/algorithms/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/base.py b/maMDP/algorithms/base.py
index 042879a..2f9c5c9 100644
--- a/maMDP/algorithms/base.py
+++ b/maMDP/algorithms/base.py
@@ -96,12 +96,14 @@ class Algorithm(metaclass=ABCMeta):
 
 class Null(Algorithm):
     """
-    Implements a null planning model which estimates all state values and Q values to be 1.
+    Implements a null planning model which estimates all state values and Q values to be 1 (Q values of actions that
+    aren't possible are negative infinity, as for other algorithms).
     """
 
     def _fit(self, mdp:MDP, reward_function:np.ndarray, position, n_moves):
 
         state_vawlues = np.ones(mdp.n_states)
         q_values = np.ones((mdp.n_states, mdp.n_actions))
+        q_values[mdp.sas.sum(axis=-1) == 0] = -np.inf
 
         return state_vawlues, q_values
\ No newline at end of file
-- 
2.43.0


From 70e6371e8c8f58a20c73ad538f4a90ddeb769625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 07/54] fix: positions outside the MDP are rejected with the
 intended error

---
 maMDP/agents.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index f25bd1e..0e788c7 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -137,9 +137,9 @@ class AttachedAgent():
     @position.setter
     def position(self, new_position:int):
 
-        if new_position >= self._parent_mdp.n_states:
-            raise ValueError("Position must be less than the number of states in the parent MDP. " 
-                             "Provided position {0}, MDP has {1} states".format(self._parent_mdp.n_states))
+        if new_position < 0 or new_position >= self._parent_mdp.n_states:
+            raise ValueError("Position must be non-negative and less than the number of states in the parent MDP. " 
+                             "Provided position {0}, MDP has {1} states".format(new_position, self._parent_mdp.n_states))
 
         if self.__starting_position is None:
             self.__starting_position = new_position
-- 
2.43.0


From e091578714e27bb6fb762d308f234340a827d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 08/54] fix: reset also resets the consumption record and step
 count

---
 maMDP/agents.py       | 1 +
 maMDP/environments.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 0e788c7..341d5eb 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -227,6 +227,7 @@ class AttachedAgent():
         self.pi = None
         self.pi_p = None
         self.position_history = [self.__starting_position]
+        self.consumed = np.zeros(len(self.reward_function))
 
     def plot(self, ax:plt.axes, marker:str="X", *args, **kwargs):
         """
diff --git a/maMDP/environments.py b/maMDP/environments.py
index 6b509aa..a622903 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -515,6 +515,7 @@ class Environment:
         for agent in self.agents.values():
             agent.reset()
         self.mdp.reset()
+        self.n_steps = 0
 
     def set_agent_position(self, agent_name: str, new_position: int):
         """
-- 
2.43.0


From 51c9e952385b39f9ed58e985686692593650ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 09/54] fix: step_multi distributes planning moves over the
 n_steps being made

---
 maMDP/environments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index a622903..8914cbc 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -346,6 +346,12 @@ class Environment:
         elif isinstance(n_steps, list):
             n_steps_primary_agent = n_steps[0]
 
+        # Planning moves are distributed over the steps the agents make
+        if isinstance(n_steps, list):
+            n_agent_steps = n_steps
+        else:
+            n_agent_steps = [n_steps_primary_agent] + n_agent_steps[1:]
+
         # Check that number of planning moves for all agents is > 0
         if not all([i > 0 for i in n_moves_plan]):
             raise ValueError(
-- 
2.43.0


From eb5370601ee666ccbb6bfd14ed34db9b00bc3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:06 +0000
Subject: [PATCH 10/54] fix: step_multi_interactive moves the agents (it raised
 an error for any arguments)

---
 maMDP/environments.py | 45 +++++++++----------------------------------
 1 file changed, 9 insertions(+), 36 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 8914cbc..c166846 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -413,7 +413,7 @@ class Environment:
         self,
         agent_names: List[str] = None,
         n_moves: Tuple[Tuple[int]] = None,
-        n_moves_plan: Tuple[Tuple[int]] = None,
+        n_moves_plan: Tuple[int] = None,
         n_turns: int = 1,
         refit: bool = False,
         progressbar: bool = False,
@@ -448,57 +448,37 @@ class Environment:
             Defaults to False.
             progressbar (bool, optional). If true, shows a progress bar. Defaults to False.
             stop_on_caught (bool, optional): If true, stops moving agents when one of them gets caught.
-            adjust_planning_steps (bool, optional). If true, the number of steps used for the planning algorithm (if it plans
-            for a set number of steps, like MCTS) is adjusted based on the number of steps the agent is expected to make (as set in the
-            `agent.n_moves` attribute or the `n_moves_plan` argument). If an int is provided, this represents the total expected
-            number of moves, and planning steps will only decrement once they go beyond this. For example, if `n_moves_plan` indicates
-            that the agent should plan 6 moves ahead but `adjust_planning_steps` is set to 10, the number of planning steps will
-            only be decremented after the 4th move. Defaults to True.
+            adjust_planning_steps (bool, optional). Planning steps are always adjusted based on the number of moves an agent still has
+            to make, as described in the `step_multi` method, so this currently has no further effect. Defaults to True.
         """
 
-        # Get number of moves for each agent if not provided
-        if n_moves is None:
-            agent_names = [agent_name] + [
-                i for i in self.agent_names if not i == agent_name
-            ]  # Put primary agent first
-            n_moves = [[[self.agents[i].n_moves] * n_turns for i in agent_names]]
-        else:
-            n_moves = copy(n_moves)  # avoid modifying the original that was provided
-            n_turns = len(n_moves[0])  # Get number of turns from n_moves
-
-        # Get the number of planning moves
-        if n_moves_plan is None:
-            n_moves_plan = copy(n_moves)
-
         if agent_names is None:
             agent_names = self.agent_names
 
         for agent_name in agent_names:
             self._check_agent_name(agent_name)
 
+        # Get number of moves for each agent if not provided
+        if n_moves is None:
+            n_moves = [[self.agents[i].n_moves] * n_turns for i in agent_names]
+        else:
+            n_turns = len(n_moves[0])  # Get number of turns from n_moves
+
         if progressbar:
             turns = progress_bar(range(n_turns))
         else:
             turns = range(n_turns)
 
-        agent_steps = dict([(a, self.agents[a].n_moves) for a in agent_names])
-
-        # Need to determine the total number of planning steps
-        if adjust_planning_steps is True:
-            adjust_planning_steps = sum((sum(i) for i in n_moves))
-
         for t in turns:
 
             for n, agent_name in enumerate(agent_names):
 
                 positions = self.step_multi(
                     agent_name,
-                    agent_steps[agent_name],
                     refit=refit,
                     n_steps=n_moves[n][t],
                     n_turns_plan=n_turns - t,
                     n_moves_plan=n_moves_plan,
-                    adjust_planning_steps=adjust_planning_steps,
                     stop_on_caught=stop_on_caught,
                 )
 
@@ -506,13 +486,6 @@ class Environment:
                     warnings.warn("Agent was caught, stopping")
                     return
 
-                # Decrement adjust_planning_steps (this should work...)
-                if isinstance(adjust_planning_steps, int):
-                    adjust_planning_steps -= n_moves[n][t]
-
-                # Update number of planning moves for each agent
-                n_moves_plan[n] = n_moves_plan[n][t + 1 :]
-
     def reset(self):
         """
         Resets the agents and the MDP to their starting states.
-- 
2.43.0


From e527df433e23273f4fae5488ae643aeedbb6db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:06 +0000
Subject: [PATCH 11/54] fix: value iteration ignores actions that are not
 possible

---
 maMDP/algorithms/dynamic_programming.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index adda596..cbb822c 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -114,14 +114,17 @@ def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray,
         action_values = get_state_action_values(s, n_actions, sas, reward, discount, values)
 
         # Update action values
-        if not soft:
+        valid_actions = sas[s, ...].sum(axis=-1) > 0  # Ignore actions that the agent can't take
+        if not np.any(valid_actions):
+            # Nothing can be gained from a state with no way out
+            values[s] = 0
+        elif not soft:
             # Max
-            values[s] = action_values.max()
+            values[s] = action_values[valid_actions].max()
         else:
             # Softmax (e.g. Bloem & Bambos, 2014)
-            valid_actions = np.argwhere(sas[s, ...])[:, 0]  # Ignore actions that the agent can't take
             # action_values
-            values[s] = np.log(np.sum(np.exp(action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
+            values[s] = np.log(np.sum(np.exp(action_values[valid_actions])) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
 
         # Update Q value for each action in this state
         q_values[s, :] = action_values
-- 
2.43.0


From 650a491e6b588a73c1dd5b368c24a64d96a9b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:06 +0000
Subject: [PATCH 12/54] fix: MCTS can be fit without specifying the number of
 moves to simulate

---
 maMDP/algorithms/mcts.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index a7209eb..67bb95e 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -952,6 +952,16 @@ class MCTS(Algorithm):
             reward_function, self.interactive, mdp
         )
 
+        # If not told how many moves to simulate, simulate n_steps moves with agents taking turns
+        if n_moves is None:
+            agent_n_moves = [info[1] for info in {**agent_info, **opponent_info}.values()]
+            n_moves = [[] for _ in agent_n_moves]
+            remaining_steps = self.n_steps
+            while remaining_steps > 0:
+                for agent, turn_moves in enumerate(agent_n_moves):
+                    n_moves[agent].append(min(turn_moves, remaining_steps))
+                    remaining_steps -= n_moves[agent][-1]
+
         # Run MCTS
         (
             self.V,
-- 
2.43.0


From 98ab55b5218faada6807e705b3c83ff6758ea749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:06 +0000
Subject: [PATCH 13/54] fix: non-interactive MCTS does not add other agents'
 moves to its own

---
 maMDP/algorithms/mcts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 67bb95e..5866f20 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -311,8 +311,8 @@ def mcts_iteration(
         along with cached Q values.
     """
 
-    # Total number of steps is total number of moves in n_moves
-    n_steps = sum([sum(n) for n in n_moves])
+    # Total number of steps is total number of moves in n_moves (only the primary agent moves if not interactive)
+    n_steps = sum([sum(n) for n in n_moves]) if interactive else sum(n_moves[0])
 
     expand = True  # This determines whether we expand or simulate
     accumulated_reward = 0  # Total reward accumulated across all states
-- 
2.43.0


From 76c388ef5c2771aeeff4fd93b764b4ed9d2ea2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:06 +0000
Subject: [PATCH 14/54] fix: MCTS agents that have been eaten neither eat nor
 get eaten again

---
 maMDP/algorithms/mcts.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 5866f20..bf25d9f 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -223,8 +223,12 @@ def check_agent_overlap(
         agent1 = consuming_agents[n]
         agent2 = consumed_agents[n]
 
-        # If agents are in the same state
-        if current_node[agent1] == current_node[agent2]:
+        # If agents are in the same state (and neither has been eaten already)
+        if (
+            agents_active[agent1]
+            and agents_active[agent2]
+            and current_node[agent1] == current_node[agent2]
+        ):
             # set the agent inactive
             agents_active[agent2] = False
             # If Agent 2 is the primary agent, end the iteration
-- 
2.43.0


From 99f2060fefefa32c09cfdc77887043b8acfd2805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:06 +0000
Subject: [PATCH 15/54] fix: MCTS caching works with agents that consume more
 than one feature

---
 maMDP/algorithms/mcts.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index bf25d9f..69ad4b7 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -470,13 +470,7 @@ def mcts_iteration(
                 if caching:
                     for f in np.where(consumes_features[current_actor, :])[0]:
                         # Check there is something to consume
-                        if (
-                            features[
-                                consumes_features[current_actor, :],
-                                current_node[current_actor],
-                            ]
-                            != 0
-                        ):
+                        if features[f, current_node[current_actor]] != 0:
                             consumed_features[f] = consumed_features[f] + (
                                 current_node[current_actor],
                             )
-- 
2.43.0


From bb323c5838454da1423bcdca57fef3044e75f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:06 +0000
Subject: [PATCH 16/54] fix: MCTS works with opponents that have no preferences

---
 maMDP/algorithms/mcts.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 69ad4b7..c568a8c 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -8,7 +8,6 @@ from ..mdp import MDP
 from .action_selection import softmax
 import warnings
 import time
-from operator import itemgetter
 
 
 @njit
@@ -409,7 +408,7 @@ def mcts_iteration(
                         np.arange(len(current_node)) != current_actor
                     ]
                     feature_consumption = tuple(
-                        itemgetter(*agent_preferences[current_actor])(consumed_features)
+                        consumed_features[f] for f in agent_preferences[current_actor]
                     )
 
                     if (
-- 
2.43.0


From addbab89012183369a14e7e1aef527aeb794a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 17/54] fix: agents eaten during MCTS simulations do not
 reappear

---
 maMDP/algorithms/mcts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index c568a8c..5221b5b 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -377,6 +377,10 @@ def mcts_iteration(
                         other_agent_visited_states,
                     )
 
+                # Agents that have been eaten are no longer there
+                for agent in np.where(~agents_active)[0]:
+                    features[agent_feature_idx[agent], :] = 0
+
             # Get actions and resulting states from current node for the current actor
             _, _, states = get_actions_states(sas, current_node[current_actor])
 
-- 
2.43.0


From d6b5015a52a02f1073bb9c250e770fe308f1da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 18/54] fix: other agents see where an agent has moved to in
 MCTS simulations

---
 maMDP/algorithms/mcts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 5221b5b..91376ee 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -469,6 +469,10 @@ def mcts_iteration(
             # Consume features in this state
             if agents_active[current_actor]:
 
+                # The agent's own feature moves with it
+                features[agent_feature_idx[current_actor], :] = 0
+                features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
+
                 # Keep a record of what's been consumed
                 if caching:
                     for f in np.where(consumes_features[current_actor, :])[0]:
-- 
2.43.0


From 6cbb367628a723900c9fd60146d092007e091f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 19/54] fix: MCTS cache does not reuse Q values from a
 different situation

---
 maMDP/algorithms/mcts.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 91376ee..8975510 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -415,11 +415,17 @@ def mcts_iteration(
                         consumed_features[f] for f in agent_preferences[current_actor]
                     )
 
-                    if (
-                        caching
-                        and (tuple(other_agent_nodes), feature_consumption)
-                        in cached_q_values[current_actor]
-                    ):
+                    # Everything that the Q values depend on
+                    cache_key = (
+                        tuple(other_agent_nodes),
+                        tuple(agents_active),
+                        feature_consumption,
+                    )
+                    # The agent's own location only matters if it has a preference for itself
+                    if agent_feature_idx[current_actor] in agent_preferences[current_actor]:
+                        cache_key += (current_node[current_actor],)
+
+                    if caching and cache_key in cached_q_values[current_actor]:
                         cache_used += 1
                         current_node[current_actor], q_values = get_opponent_next_state(
                             opponent_policy_method,
@@ -435,9 +441,7 @@ def mcts_iteration(
                             max_iter=VI_max_iter,
                             discount=VI_discount,
                             tol=VI_tol,
-                            q_values=cached_q_values[current_actor][
-                                (tuple(other_agent_nodes), feature_consumption)
-                            ],
+                            q_values=cached_q_values[current_actor][cache_key],
                         )
                     else:
                         current_node[current_actor], q_values = get_opponent_next_state(
@@ -457,9 +461,7 @@ def mcts_iteration(
                             q_values=None,
                         )
                         if caching:
-                            cached_q_values[current_actor][
-                                (tuple(other_agent_nodes), feature_consumption)
-                            ] = q_values
+                            cached_q_values[current_actor][cache_key] = q_values
 
                     if return_other_agent_states:
                         other_agent_visited_states[current_actor - 1].append(
-- 
2.43.0


From aec1cdec778426ccb39d324c4d605e306645ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 20/54] fix: MCTS accounts for agents being eaten on the final
 simulated move

---
 maMDP/algorithms/mcts.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 8975510..f39c592 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -511,7 +511,12 @@ def mcts_iteration(
                 else:
                     current_actor = 0
 
-
+    # Check whether any agents were eaten as a result of the final move
+    if interactive:
+        added_reward, agents_active, _ = check_agent_overlap(
+            consumes_agents, current_node, caught_cost, agents_active, agent_values
+        )
+        accumulated_reward += added_reward
 
     return (
         accumulated_reward,
-- 
2.43.0


From cf446268e7e4d4e44cbbef1618dc83a1a720596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 21/54] fix: solve_all_value_iteration calls value iteration
 with the arguments it takes

---
 maMDP/algorithms/mcts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index f39c592..e792c4b 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -803,6 +803,8 @@ def solve_all_value_iteration(
     discount=None,
 ):
 
+    features = features.copy()
+
     all_q_values = np.zeros(
         (sas.shape[0], sas.shape[0], sas.shape[1])
     )  # Prey idx X opponent_states X actions
@@ -815,8 +817,6 @@ def solve_all_value_iteration(
 
         # Do value iteration
         _, all_q_values[prey_state, ...] = solve_value_iteration(
-            sas.shape[0],
-            sas.shape[1],
             predator_reward_function,
             features,
             max_iter,
-- 
2.43.0


From 351f48f0e4bd784aeba5dd80f08fee6e5fc39903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 22/54] fix: MFFeatureMatching ignores features rather than
 trajectories

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 4595cdb..96a2e47 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -287,7 +287,7 @@ class MFFeatureMatching(BaseIRL):
         for n, t in enumerate(trajectories):
             feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)  # Exclude the first state of the trajectory as it's the start state which wasn't chosen
 
-        feature_array[ignore_features, :] = 0
+        feature_array[:, ignore_features] = 0
 
         self.theta = feature_array.sum(axis=0)
 
-- 
2.43.0


From 684ff3f1e6e1e28b177d49b7703956b6a316a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 23/54] fix: MaxCausalEntIRL weights every trajectory equally

---
 maMDP/algorithms/irl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 96a2e47..4353332 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -174,9 +174,7 @@ class MaxCausalEntIRL(BaseIRL):
         # Get empirical state visitation counts
         for t in trajectories:
             for s in t:
-                visited_states[s] += 1
-            # Normalise
-            visited_states /= len(t)
+                visited_states[s] += 1 / len(t)  # Normalise within the trajectory
         # Normalise
         visited_states /= len(trajectories)
 
-- 
2.43.0


From dd1f510caa706f92610d135d4b4eee63b4129647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 24/54] fix: MaxCausalEntIRL learning rate decays as documented

---
 maMDP/algorithms/irl.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 4353332..a74ab38 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -212,7 +212,6 @@ class MaxCausalEntIRL(BaseIRL):
             if self.learning_rate_decay == 0:
                 self.theta += self.learning_rate * error
             else:
-                self.learning_rate = (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay)))
                 self.theta += (self.learning_rate * np.power(i+1, -float(self.learning_rate_decay))) * error
 
             # Update progress bar
-- 
2.43.0


From 0bae2ebf10ac7e95750398251c8f402d6e551959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 25/54] fix: learners can be reset to their initial state

---
 maMDP/algorithms/irl.py             | 12 ++++++------
 maMDP/algorithms/policy_learning.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index a74ab38..0cd5a0c 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -121,8 +121,8 @@ class MaxCausalEntIRL(BaseIRL):
         self.original_learning_rate = learning_rate
         self.learning_rate_decay = decay
         self.max_iter_irl = max_iter_irl
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = None if theta is None else self.original_theta.copy()
 
         # This is used for feature count estimation
         if soft:
@@ -228,7 +228,7 @@ class MaxCausalEntIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function and learning rate to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
         self.learning_rate = self.original_learning_rate
 
     def reset_learning_rate(self):
@@ -333,8 +333,8 @@ class HyptestIRL(BaseIRL):
         self.learning_rate = learning_rate
         self.asymmetry = asymmetry
         self.learning_rate_decay = decay
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = None if theta is None else self.original_theta.copy()
         self.normalisation = normalisation
 
     def _single_move(self, start:int, next_state:int, sas:np.ndarray, q_values:Union[np.ndarray, None], 
@@ -482,7 +482,7 @@ class HyptestIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
 
     def fit(self, mdp:Union[MDP, List[MDP]], trajectories:List[List[int]], ignore_features:tuple=(), show_progress:bool=True) -> np.ndarray:
         """
diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index ff77f9b..140d768 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -64,15 +64,15 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
         self._adjusted_learning_rate = learning_rate
         self.kernel = kernel
         self.ls = ls
-        self.original_Q = np.array(Q).copy()
+        self.original_Q = None if Q is None else np.array(Q, dtype=float)
         self.n_states = 1
         self.fit_complete = False
 
-        self.Q = Q 
+        self.Q = None if Q is None else self.original_Q.copy()
 
     def reset(self):
         """ Resets the estimate to its initial state """
-        self.Q = self.original_Q
+        self.Q = None if self.original_Q is None else self.original_Q.copy()
         self.reset_learning_rate()
         self.fit_complete = False
 
-- 
2.43.0


From 723380099e93814231901bf34791c5de4d9fb475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 26/54] fix: TDGeneralPolicyLearner uses the MDP belonging to
 each trajectory

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index 140d768..12a5f93 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -99,7 +99,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
                 action = mdp[n]._trajectory_to_state_action(trajectory)[:, 1].astype(int)
 
                 # Loop through individual actions within each trajectory
-                for n, a in enumerate(action):
+                for a in action:
                     
                     trial_reward = np.zeros(mdp[n].n_actions)
 
-- 
2.43.0


From 0820a70b5bfdb07979c5303000230caa25b91d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 27/54] fix: TDGeneralPolicyLearner learning rate decays as
 documented

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index 12a5f93..a53c87d 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -115,7 +115,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
 
                     # Adjust learning rate
                     if self.learning_rate_decay > 0:
-                        self._adjusted_learning_rate = self._adjusted_learning_rate * np.power(self.n_states, -self.learning_rate_decay)
+                        self._adjusted_learning_rate = self.learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))
                         self.Q += self._adjusted_learning_rate * delta
 
                     # No learning rate adjustment
-- 
2.43.0


From d7ddb124a5b02c5af7d3c976cb1a487bf3dc3146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 28/54] fix: eyeline features of staying in the same state do
 not loop forever

---
 maMDP/algorithms/irl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 0cd5a0c..17f707b 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -531,7 +531,8 @@ def get_eyeline_features(mdp, current_state, action):
     while not complete:
         states.append(current_state)
         sa_next_states = mdp.sas[current_state, action, :]
-        if np.max(sa_next_states) > 0:
+        # Stop at the edge, or if the action doesn't lead anywhere new
+        if np.max(sa_next_states) > 0 and np.argmax(sa_next_states) not in states:
             current_state = np.argmax(sa_next_states)
         else:
             complete = True
-- 
2.43.0


From 3474b6258ebd506a448c4964524acfab674071ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 29/54] fix: eyeline features include the last action if it is
 not a self-transition

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 17f707b..ca0bf69 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -563,7 +563,7 @@ def get_trajectory_eyeline_features_diff(mdp, trajectories, normalise=True):
 
         for n, state in enumerate(trajectory[:-1]):
             chosen_action = state_pair_to_action(mdp, state, trajectory[n+1])
-            for action in range(mdp.n_actions-1):
+            for action in np.where(mdp.sas[state, :, state] == 0)[0]:  # Exclude self-transitions
                 if action == chosen_action:
                     chosen_feature_counts += get_eyeline_features(mdp, state, action)
                 else:
-- 
2.43.0


From 14ae090026d8f7aaec2d4cc951c3398b6c3913fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 30/54] fix: saved environments keep fractional reward weights

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 729c537..1f7cd2c 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -58,7 +58,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
 
         agent_dict[agent_name]['n_moves'] = agent.n_moves
 
-        agent_dict[agent_name]['reward_function'] = [int(i) for i in list(agent.reward_function)]
+        agent_dict[agent_name]['reward_function'] = [float(i) for i in list(agent.reward_function)]
         agent_dict[agent_name]['consumes'] = agent.consumes
 
         agent_dict[agent_name]['algorithm'] = agent.algorithm.name
-- 
2.43.0


From 19347a09bbd5dc3bbd17e10f5abc993c9f69ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 31/54] fix: environments loaded from JSON keep their features

---
 maMDP/env_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 1f7cd2c..909054d 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -101,6 +101,8 @@ def hex_environment_from_dict(env_dict, feature_names=[]):
 
     else:
         n_features = len(env_dict['features'])
+        if not len(feature_names):
+            feature_names = list(env_dict['features'].keys())
         features = np.zeros((n_features, np.product(env_dict['size'])))
         for n, f in enumerate(feature_names):
             # print("CREATING ENV", n, f)
-- 
2.43.0


From f148f3e8170ad1c7b0f0ea40ee467b219abb2c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 32/54] fix: feature names are optional in hex_env_to_dict, as
 documented

---
 maMDP/env_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 909054d..09200e5 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -23,6 +23,9 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         Dict: Returns a dictionary specifying shape of the grid, agent positions and properties, MDP properties
     """
 
+    if feature_names is None:
+        feature_names = env.mdp.feature_names[:env.mdp.n_features - len(env.agents)]
+
     if not (env.mdp.n_features - len(env.agents)) == len(feature_names):
         raise AttributeError('Number of feature names should equal number of features, excluding agents')
 
-- 
2.43.0


From 7cf570a3caef37c6fa5e96b96efce0dc68d24737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 33/54] fix: saved coordinates have the same format regardless
 of how many there are

---
 maMDP/env_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 09200e5..d196a25 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -39,12 +39,12 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         if format == 'index':
             env_dict['features'][feature_names[f]] = np.where(env.mdp.features[f, :])[0].astype(int).tolist()
         elif format == 'coords':
-            env_dict['features'][feature_names[f]] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.features[f, :]))).T.squeeze().astype(int).tolist()
+            env_dict['features'][feature_names[f]] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.features[f, :]))).T.reshape(-1, 2).astype(int).tolist()
 
     if format == 'index':
         env_dict['walls'] = np.where(env.mdp.walls)[0].astype(int).tolist()
     elif format == 'coords':
-        env_dict['walls'] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.walls))).T.squeeze().astype(int).tolist()
+        env_dict['walls'] = np.stack(env.mdp.state_to_idx(np.where(env.mdp.walls))).T.reshape(-1, 2).astype(int).tolist()
 
     env_dict['type'] = 'hex'
     env_dict['self_transitions'] = env.mdp.self_transitions
-- 
2.43.0


From 8829c20e93945000594005baf42e21db32847e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 34/54] fix: plots of MDPs without agents show the features

---
 maMDP/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index c07ce05..78aaaa7 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -529,7 +529,7 @@ class SquareGridMDP(GridMDP):
         """
 
         # Plot features
-        ax = plot_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, *args, **kwargs)
+        ax = plot_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, *args, **kwargs)
 
         # Plot walls
         ax = plot_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
@@ -639,7 +639,7 @@ class HexGridMDP(GridMDP):
             plt.axes: Axes
         """
 
-        ax, self.coords = plot_hex_grids(self.features_as_grid()[:-self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
+        ax, self.coords = plot_hex_grids(self.features_as_grid()[:self.n_features - self.n_agents, :], colours, alphas, ax=ax, *args, **kwargs)
 
         # Plot walls
         ax, _ = plot_hex_grids(self.flat_to_grid(self.walls)[None, :], [wall_colour], [1], ax=ax)
-- 
2.43.0


From 9ed2572721272d221cc6dc78ddcabbb143da9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 35/54] fix: square grid state values are plotted in the same
 orientation as everything else

---
 maMDP/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/plotting.py b/maMDP/plotting.py
index cdf339c..c34f742 100644
--- a/maMDP/plotting.py
+++ b/maMDP/plotting.py
@@ -96,11 +96,11 @@ def plot_grid_values(
         _, ax = plt.subplots(*args, **kwargs)
 
     # Plot each grid
-    ax.imshow(grid, cmap=cmap)
+    ax.imshow(grid.T, cmap=cmap)
 
     ax.grid(which="major", axis="both", linestyle="-", color="#333333", linewidth=1)
     ax.set_xticks(np.arange(-0.5, grid.shape[0], 1))
-    ax.set_yticks(np.arange(-0.5, grid.shape[0], 1))
+    ax.set_yticks(np.arange(-0.5, grid.shape[1], 1))
     for tic in ax.xaxis.get_major_ticks():
         tic.tick1line.set_visible(False)
         tic.tick2line.set_visible(False)
-- 
2.43.0


From 340df448cb70f6ed87f42808ef25de722c5d63d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 36/54] fix: environments sharing an Agent do not overwrite
 each other's action values

---
 maMDP/agents.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 341d5eb..43163af 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -11,6 +11,7 @@ from .plotting import plot_agent
 import matplotlib.pyplot as plt
 from typing import List
 import warnings
+from copy import copy
 
 
 class Agent():
@@ -56,7 +57,7 @@ class Agent():
     def _attach(self, mdp:MDP, env:Environment, index:int, position:int, reward_function:np.ndarray, consumes:List[int]=[]):
 
         return AttachedAgent(name=self.name, n_moves=self.n_moves, reward_function=reward_function, consumes=consumes,
-                             algorithm=self.algorithm, action_selector=self.action_selector, 
+                             algorithm=copy(self.algorithm), action_selector=self.action_selector, 
                              parent_mdp=mdp, parent_environment=env, position=position, index=index,
                              action_kwargs=self.action_kwargs, algorithm_kwargs=self.algorithm_kwargs)
 
-- 
2.43.0


From 27bd6a390b2a7b6125bf2a0f61945a88375cfbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 37/54] fix: MDPs do not write into arrays provided by the user

---
 maMDP/mdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 78aaaa7..45bc301 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -95,7 +95,7 @@ class MDP():
                                 'Expected {0} states, found {1}'.format(self.n_states, features.shape[1]))
 
         self.__n_features = features.shape[0]
-        self.__feature_array = features
+        self.__feature_array = features.copy()
         self.__original_feature_array = features.copy()
 
         # Name features
@@ -117,7 +117,7 @@ class MDP():
         """
 
         # Get walls
-        walls = self._get_walls(walls)
+        walls = self._get_walls(walls).copy()
 
         # Check shape etc
         if not walls.ndim == 1:
@@ -424,7 +424,7 @@ class GridMDP(MDP, metaclass=ABCMeta):
 
     def reset_walls(self):
 
-        self.walls *= 0
+        self.walls = np.zeros_like(self.walls)
 
 
     def plot_trajectory(self, trajectory:List[int], ax:plt.axes, colour:str='black', 
-- 
2.43.0


From d881ea4062249354b9695b6a72b02cb075445dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 38/54] fix: state_valid_actions lists each action once

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 45bc301..020a172 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -303,7 +303,7 @@ class MDP():
             np.ndarray: Returns an array of action indices.
         """
 
-        return np.where(self.sas[state, ...])[0]
+        return np.where(self.sas[state, ...].sum(axis=-1) > 0)[0]
 
     def observation(self):
         pass
-- 
2.43.0


From 36298142e45ca01a62e8b3914c82287246118a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:14 +0000
Subject: [PATCH 39/54] fix: MaxCausalEntIRL ignores only the features it is
 told to ignore

---
 maMDP/algorithms/irl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index ca0bf69..b2a1e6b 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -168,6 +168,8 @@ class MaxCausalEntIRL(BaseIRL):
             
     def _solve_maxcausalent(self, mdp, trajectories, ignore_features=(), show_progress=True):
         
+        ignore_features = list(ignore_features)  # Indexing with an empty tuple would select every feature
+
         # Get observed state visitation counts
         visited_states = np.zeros(mdp.n_states)
         
-- 
2.43.0


From a2de2b833889d12bbf43da0acab2c5eb96ccb2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 40/54] fix: MaxCausalEntIRL compares observed and expected
 visitation frequencies on the same scale

---
 maMDP/algorithms/irl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index b2a1e6b..9c2aad1 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -141,6 +141,7 @@ class MaxCausalEntIRL(BaseIRL):
 
         # Get state visitation frequencies
         self.D_ = state_visitation_iterator(mdp.sas, n_iter, pi, p_zero)
+        self.D_ /= self.D_.sum()  # Same scale as the observed visitation frequencies
 
     def _solve_value_iteration(self, reward_function, features, max_iter, discount, sas, tol, soft):
 
-- 
2.43.0


From fb53504b52176dd679ad596b4d512fc7131ad6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:50 +0000
Subject: [PATCH 41/54] fix: HyptestIRL weights do not become NaN when actions
 are equally good

---
 maMDP/algorithms/irl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 9c2aad1..76ca87b 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -17,7 +17,9 @@ def zscore_nb(x):
     for i in range(x.shape[1]):
         x_i = x[:, i]
         x_i[np.isinf(x_i)] = np.nan
-        xnew[:, i] = (x_i - np.nanmean(x_i)) / np.nanstd(x_i)
+        # Leave at zero if there is no variation
+        if np.nanstd(x_i) > 0:
+            xnew[:, i] = (x_i - np.nanmean(x_i)) / np.nanstd(x_i)
     return xnew
 
 @njit
-- 
2.43.0


From 5b108e74bfd1d1810e42d41a22d51a52442e16bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:30 +0000
Subject: [PATCH 42/54] fix: MCTS selects actions from the start state by their
 UCB

The start state does not count as visited, so its UCB was NaN (log of zero) and the first action was always selected
---
 maMDP/algorithms/mcts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index e792c4b..214e508 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -139,8 +139,9 @@ def UCB(
         np.ndarray: UCB for each state
     """
 
+    # The node we're choosing from has been visited at least once, even if it's the start node (where visits aren't counted)
     ucb = (V[states] / (1 + N[states])) + C * np.sqrt(
-        (2 * np.log(N[node])) / (1 + N[states])
+        (2 * np.log(max(N[node], 1))) / (1 + N[states])
     )
 
     return ucb
-- 
2.43.0


From e20bcaec72ed86b2d3be77623ead9976ae376b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:41 +0000
Subject: [PATCH 43/54] fix: non-interactive MCTS does not loop forever if
 there are no moves in the first turn

---
 maMDP/algorithms/mcts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 214e508..9e98d39 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -356,8 +356,8 @@ def mcts_iteration(
 
     while total_steps < n_steps:
 
-        # If this agent is supposed to be moving
-        if n_moves[current_actor][current_turns[current_actor]] > 0:
+        # If this agent is supposed to be moving (the primary agent makes all the moves if not interactive)
+        if not interactive or n_moves[current_actor][current_turns[current_actor]] > 0:
 
             # Set corresponding agent feature
             features[agent_feature_idx[current_actor], :] = 0
-- 
2.43.0


From 351710daa3660f874ecd0ebba7f2cc0b40c33930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:53 +0000
Subject: [PATCH 44/54] fix: rejecting an environment's agents leaves its MDP
 as it was

---
 maMDP/environments.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index c166846..82c9099 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -92,16 +92,11 @@ class Environment:
 
         self.__mdp = mdp
 
-        # Remove any agent-related features that may already be present in the MDP
-        if self.__mdp.n_agents > 0:
-            self.__mdp.remove_agent_features()
-
-        # Attach agents
-        self.__agents = {}
+        # Number of features, not counting any agent-related features that may already be present in the MDP
+        original_mdp_n_features = mdp.n_features - mdp.n_agents
 
-        original_mdp_n_features = mdp.n_features
-
-        for n, agent_object in enumerate(agents.keys()):
+        # Check everything before changing the MDP, so that it's left as it was if something is wrong
+        for agent_object in agents.keys():
 
             position, reward_function, consumes = agents[agent_object]
 
@@ -129,6 +124,14 @@ class Environment:
                     "Agent {0}: Position should be an int".format(agent_object.name)
                 )
 
+            if position < 0 or position >= mdp.n_states:
+                raise ValueError(
+                    "Agent {0}: Position must be non-negative and less than the number of states in the MDP. "
+                    "Provided position {1}, MDP has {2} states".format(
+                        agent_object.name, position, mdp.n_states
+                    )
+                )
+
             if not len(reward_function) == original_mdp_n_features + self.n_agents:
                 raise AttributeError(
                     "Agent {0}: Agent reward function must have the same number of entries"
@@ -149,8 +152,19 @@ class Environment:
                     )
                 )
 
+        # Remove any agent-related features that may already be present in the MDP
+        if self.__mdp.n_agents > 0:
+            self.__mdp.remove_agent_features()
+
+        # Attach agents
+        self.__agents = {}
+
+        for n, agent_object in enumerate(agents.keys()):
+
+            position, reward_function, consumes = agents[agent_object]
+
             agent_object = agent_object._attach(
-                self.mdp, self, n, position, reward_function, consumes
+                self.mdp, self, n, position, np.array(reward_function), consumes
             )
             self.__agents[agent_object.name] = agent_object
 
-- 
2.43.0


From 43952e710d6b6e3a621f3eec3d650057763679af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:35 +0000
Subject: [PATCH 45/54] fix: a position that isn't an integer is rejected
 before the agent's feature is cleared

---
 maMDP/agents.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 43163af..d876dca 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -138,6 +138,9 @@ class AttachedAgent():
     @position.setter
     def position(self, new_position:int):
 
+        if not isinstance(new_position, (int, np.integer)):
+            raise TypeError("Position should be an int, got {0}".format(type(new_position)))
+
         if new_position < 0 or new_position >= self._parent_mdp.n_states:
             raise ValueError("Position must be non-negative and less than the number of states in the parent MDP. " 
                              "Provided position {0}, MDP has {1} states".format(new_position, self._parent_mdp.n_states))
-- 
2.43.0


From 3496cad742c61058959646e644febf50d933e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:01 +0000
Subject: [PATCH 46/54] fix: soft value iteration does not overflow or
 underflow with large values

---
 maMDP/algorithms/dynamic_programming.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index cbb822c..12a3ac6 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -124,7 +124,8 @@ def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray,
         else:
             # Softmax (e.g. Bloem & Bambos, 2014)
             # action_values
-            values[s] = np.log(np.sum(np.exp(action_values[valid_actions])) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
+            max_value = action_values[valid_actions].max()  # Subtract max value to avoid overflow and log(0)
+            values[s] = max_value + np.log(np.sum(np.exp(action_values[valid_actions] - max_value)))
 
         # Update Q value for each action in this state
         q_values[s, :] = action_values
-- 
2.43.0


From 788c3a2fb9d71da74ea31da5e4ec48ce7b9d22dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:23 +0000
Subject: [PATCH 47/54] fix: actions of a stochastic MDP that are partly
 blocked by walls keep probabilities that sum to one

---
 maMDP/mdp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 020a172..6e8c19f 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -138,6 +138,11 @@ class MDP():
         sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
         sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
 
+        # The probabilities of the outcomes that remain for actions that are only partly blocked still sum to one
+        remaining = sas.sum(axis=-1)
+        for s, a in np.argwhere((remaining > 0) & (remaining < self.__original_sas.sum(axis=-1))):
+            sas[s, a, :] = sas[s, a, :] / remaining[s, a]
+
         # Set this last, so that everything derived from the SAS accounts for the walls
         self.sas = sas
 
-- 
2.43.0


From 85ad7869260447621c229dfa3362ed391e177f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:28 +0000
Subject: [PATCH 48/54] fix: MCTS cache notices that an agent whose feature was
 consumed has moved again

---
 maMDP/algorithms/mcts.py | 36 +++++-------------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 9e98d39..36db99d 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -251,7 +251,7 @@ def mcts_iteration(
     sr: np.ndarray,
     features: np.ndarray,
     current_node: np.ndarray,
-    cached_q_values: List[Dict[Tuple, np.ndarray]],
+    cached_q_values: List[Dict[bytes, np.ndarray]],
     n_moves: List[List[int]], 
     consumes_agents: np.ndarray,
     consumes_features: np.ndarray,
@@ -282,7 +282,7 @@ def mcts_iteration(
         sr (np.ndarray): Pre-calculated SR. NOT IMPLEMENTED YET.
         features (np.ndarray): MDP feature array.
         current_node (np.ndarray): Starting node for each agent.
-        cached_q_values (List[Dict[Tuple, np.ndarray]]): Cached Q values, used to save recomputing for other agents
+        cached_q_values (List[Dict[bytes, np.ndarray]]): Cached Q values, used to save recomputing for other agents
         if not necessary.
         n_moves (List[List[int]]): Number of moves per turn for each agent. A tuple where each entry is a tuple with each entry
         representing the number of moves made on that turn.
@@ -311,7 +311,7 @@ def mcts_iteration(
         verbose (bool, optional): If true, prints out information about the MCTS iteration. Defaults to False.
 
     Returns:
-        Union[float, List[int], List[Dict[Tuple, np.ndarray]], List[List[Int]]]: Returns the accumulated value from this iteration and the states that were visited,
+        Union[float, List[int], List[Dict[bytes, np.ndarray]], List[List[Int]]]: Returns the accumulated value from this iteration and the states that were visited,
         along with cached Q values.
     """
 
@@ -340,9 +340,6 @@ def mcts_iteration(
     # Keep track of which other agents have been eaten
     agents_active = np.ones(len(current_node), dtype=np.bool_)
 
-    # Track which features have been consumed
-    consumed_features = [() for _ in range(features.shape[0])]
-
     # Which features each agent cares about (i.e. where reward function has zero weight)
     agent_preferences = []
     for agent in range(n_agents):
@@ -409,22 +406,8 @@ def mcts_iteration(
                 if agents_active[current_actor]:
                     if verbose:
                         print('Stepping other agent, total steps = {0}. Current node = {1}'.format(total_steps, current_node[current_actor]))
-                    other_agent_nodes = current_node[
-                        np.arange(len(current_node)) != current_actor
-                    ]
-                    feature_consumption = tuple(
-                        consumed_features[f] for f in agent_preferences[current_actor]
-                    )
-
-                    # Everything that the Q values depend on
-                    cache_key = (
-                        tuple(other_agent_nodes),
-                        tuple(agents_active),
-                        feature_consumption,
-                    )
-                    # The agent's own location only matters if it has a preference for itself
-                    if agent_feature_idx[current_actor] in agent_preferences[current_actor]:
-                        cache_key += (current_node[current_actor],)
+                    # The Q values depend on the features that the agent has a preference for, as they are now
+                    cache_key = features[agent_preferences[current_actor], :].tobytes()
 
                     if caching and cache_key in cached_q_values[current_actor]:
                         cache_used += 1
@@ -476,15 +459,6 @@ def mcts_iteration(
                 features[agent_feature_idx[current_actor], :] = 0
                 features[agent_feature_idx[current_actor], current_node[current_actor]] = 1
 
-                # Keep a record of what's been consumed
-                if caching:
-                    for f in np.where(consumes_features[current_actor, :])[0]:
-                        # Check there is something to consume
-                        if features[f, current_node[current_actor]] != 0:
-                            consumed_features[f] = consumed_features[f] + (
-                                current_node[current_actor],
-                            )
-
                 # Remove consumed feature from the feature array
                 features[
                     consumes_features[current_actor, :], current_node[current_actor]
-- 
2.43.0


From 37d8697daa079d1e8e6843f7a06c6e54eccdc0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:58 +0000
Subject: [PATCH 49/54] fix: environments made from the same agents do not
 share a seeded action selector

---
 maMDP/agents.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index d876dca..cea1620 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -11,7 +11,7 @@ from .plotting import plot_agent
 import matplotlib.pyplot as plt
 from typing import List
 import warnings
-from copy import copy
+from copy import copy, deepcopy
 
 
 class Agent():
@@ -56,8 +56,12 @@ class Agent():
 
     def _attach(self, mdp:MDP, env:Environment, index:int, position:int, reward_function:np.ndarray, consumes:List[int]=[]):
 
+        # Every environment gets its own action selector, so that a seeded one isn't affected by other environments. The global
+        # random number generator, used by those without a seed, is shared.
+        action_selector = deepcopy(self.action_selector, {id(np.random): np.random})
+
         return AttachedAgent(name=self.name, n_moves=self.n_moves, reward_function=reward_function, consumes=consumes,
-                             algorithm=copy(self.algorithm), action_selector=self.action_selector, 
+                             algorithm=copy(self.algorithm), action_selector=action_selector, 
                              parent_mdp=mdp, parent_environment=env, position=position, index=index,
                              action_kwargs=self.action_kwargs, algorithm_kwargs=self.algorithm_kwargs)
 
-- 
2.43.0


From ec1a886d322dd36e16661c84d06ce995d746db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:58 +0000
Subject: [PATCH 50/54] fix: MCTS cache kept between plans is discarded when
 transitions or reward functions change

---
 maMDP/algorithms/mcts.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 36db99d..c676975 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -862,6 +862,7 @@ class MCTS(Algorithm):
         self.caching = caching
         self.reset_cache = reset_cache
         self.cache = None
+        self.cache_context = None
         self.VI_kwargs = VI_kwargs
         self.sr = None
         self.verbose = verbose
@@ -939,6 +940,15 @@ class MCTS(Algorithm):
             reward_function, self.interactive, mdp
         )
 
+        # Cached Q values only apply to the transitions and reward functions they were calculated with
+        cache_context = (
+            mdp.sas.tobytes(),
+            [np.asarray(info[3]).tobytes() for info in opponent_info.values()],
+        )
+        if cache_context != self.cache_context:
+            self.cache = None
+        self.cache_context = cache_context
+
         # If not told how many moves to simulate, simulate n_steps moves with agents taking turns
         if n_moves is None:
             agent_n_moves = [info[1] for info in {**agent_info, **opponent_info}.values()]
-- 
2.43.0


From 7ad26bb688d6104f91bc4cc5a2aa00301917497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:27 +0000
Subject: [PATCH 51/54] fix: value iteration accepts features and transitions
 that are integers

---
 maMDP/algorithms/dynamic_programming.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index 12a3ac6..7440376 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -165,7 +165,10 @@ def solve_value_iteration(reward_function:np.ndarray, features:np.ndarray, max_i
     values_ = np.zeros(n_states)
 
     # Get state rewards based on the supplied reward function
-    reward_ = np.dot(reward_function.astype(np.float64), features)
+    reward_ = np.dot(reward_function.astype(np.float64), features.astype(np.float64))
+
+    # Transitions may be given as integers
+    sas_ = sas.astype(np.float64)
 
     # Until converged   
     for _ in range(max_iter):
@@ -173,7 +176,7 @@ def solve_value_iteration(reward_function:np.ndarray, features:np.ndarray, max_i
         # Delta checks for convergence
         delta_ = 0
 
-        values_, delta_, q_values_ = state_value_iterator(values_, delta_, reward_, discount, sas, soft)
+        values_, delta_, q_values_ = state_value_iterator(values_, delta_, reward_, discount, sas_, soft)
 
         if delta_ < tol:
             break
-- 
2.43.0


From bf3e043227b32f9343e2747775a60aeb43f4f0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:27 +0000
Subject: [PATCH 52/54] fix: action values from the successor representation
 accept features and weights that are integers

---
 maMDP/algorithms/successor_representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/successor_representation.py b/maMDP/algorithms/successor_representation.py
index 6bae20c..2f2857a 100644
--- a/maMDP/algorithms/successor_representation.py
+++ b/maMDP/algorithms/successor_representation.py
@@ -64,7 +64,7 @@ def get_sr_q_values(
         features.shape[-1] == n_states
     ), "Mismatch between features shape and number of states"
 
-    reward = np.dot(theta, features)
+    reward = np.dot(theta.astype(np.float64), features.astype(np.float64))
     qs = np.dot(
         sr, reward.repeat(n_actions)
     )  # Repeat so we have the same reward for each action in a state
-- 
2.43.0


From eedea8a8b30f1d28a9755bb1e1905b08760432d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:06 +0000
Subject: [PATCH 53/54] fix: refuse numbers of moves that leave out an agent or
 a turn before moving anyone

---
 maMDP/environments.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 82c9099..8c196d3 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -478,6 +478,14 @@ class Environment:
         else:
             n_turns = len(n_moves[0])  # Get number of turns from n_moves
 
+            # Check that there is a number of moves for every agent and turn before moving anyone
+            if len(n_moves) < len(agent_names) or any(
+                [len(i) < n_turns for i in n_moves]
+            ):
+                raise ValueError(
+                    "Number of moves must be given for every agent and every turn."
+                )
+
         if progressbar:
             turns = progress_bar(range(n_turns))
         else:
-- 
2.43.0


From 13e8799e2d6c2bd22520e25a52004ca1513b9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:06 +0000
Subject: [PATCH 54/54] fix: refuse a run with an agent that has not been fit
 before moving anyone

---
 maMDP/environments.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/maMDP/environments.py b/maMDP/environments.py
index 8c196d3..0dc63ed 100644
--- a/maMDP/environments.py
+++ b/maMDP/environments.py
@@ -486,6 +486,15 @@ class Environment:
                     "Number of moves must be given for every agent and every turn."
                 )
 
+        # Check that every agent that moves has been fit before moving anyone
+        if not refit:
+            for n, agent_name in enumerate(agent_names):
+                if (
+                    sum(n_moves[n][:n_turns]) > 0
+                    and not self.agents[agent_name].algorithm.fit_complete
+                ):
+                    raise AttributeError("Agent has not been fit yet")
+
         if progressbar:
             turns = progress_bar(range(n_turns))
         else:
-- 
2.43.0

