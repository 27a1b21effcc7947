From a1e0b28dc5771c3d1dbc300c78cd84215dd344ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 01/46] fix: set_timeframe(check_vN=...) raised TypeError
 (missing comma in assertion)

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index fc4e648..5297fc8 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -384,7 +384,7 @@ class SimEnv:
             else:
                 self.__min_factor = 0.2
             if 'check_vN' in kwargs:
-                assert isinstance(kwargs['check_vN'], bool)(
+                assert isinstance(kwargs['check_vN'], bool), (
                     'check_vN not of correct type!\n\n' + err_str
                 )
                 self._check_vN = kwargs['check_vN']
-- 
2.43.0


From dbc0994dcc440874dba116def1b86105dc368144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 02/46] fix: first adaptive step ignored
 max_stepsize/min_stepsize

---
 multisim/simenv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 5297fc8..317f1ba 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -417,8 +417,11 @@ class SimEnv:
             # incremental counter for consecutive successive steps since the
             # last failed step
             self._steps_since_fail = 0
-            # also set starting timestep with some value:
-            self._new_step = 1.0  # this is the adaptive step starting step
+            # also set starting timestep with some value (within the allowed
+            # stepsize range). this is the adaptive step starting step:
+            self._new_step = min(
+                max(1.0, self.__min_stepsize), self.__max_stepsize
+            )
             self.timestep = 1.0  # this is the adaptive step final value
         else:
             # else if constant stepsizes are chosen
@@ -4798,9 +4801,6 @@ class SimEnv:
         # reset dynamic boundary conditions:
         self._initialize_dynamic_BC()
 
-        self._new_step = 1.0  # this is the adaptive step starting step
-        self.timestep = 1.0  # this is the adaptive step final value
-
     def initialize_sim(self, *, build_simenv=True, reset_simenv=False):
         """
         Initialize the simulation environment.
-- 
2.43.0


From aa5ed05d5de79a8a53f2db6117b9120fc2c12d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:44 +0000
Subject: [PATCH 03/46] fix: step-size growth exceeded max_factor once more
 than factor_recovery steps had passed

---
 multisim/simenv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 317f1ba..25ac2ae 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4165,7 +4165,8 @@ class SimEnv:
                                 * err_rms ** (-1 / (self.__order + 1))
                             ),
                         )
-                        * (self._steps_since_fail / self._fctr_rec_stps) ** 2,
+                        * min(1.0, self._steps_since_fail / self._fctr_rec_stps)
+                        ** 2,
                     )
                     # check if step is not above max step:
                     if _h > self.__max_stepsize:
-- 
2.43.0


From 4f08d3873c1a7e3c2c125b0959a1d988cd85a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:44 +0000
Subject: [PATCH 04/46] fix: disk saving crashed when the run ended exactly at
 the end of a storage chunk

---
 multisim/simenv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 25ac2ae..4e05f84 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4880,7 +4880,12 @@ class SimEnv:
 
         # save remaining results to disk
         if self.__save_to_disk:  # if disk saving was used so far...
-            self._free_memory(array_length=self.stepnum[0])
+            # stepnum points to the row after the last valid row, which may not
+            # exist if the last chunk was completely filled. Thus step back to
+            # the last valid row for saving:
+            self.stepnum[0] -= 1
+            self._free_memory(array_length=self.stepnum[0] + 1)
+            self.stepnum[0] += 1
 
         # add total stepnum up to current stepnum:
         self.stepnum[0] += self._total_stepnum
-- 
2.43.0


From 97fb1597f5586c5b72ada633327f3215d78c83a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:05 +0000
Subject: [PATCH 05/46] fix: growing the result arrays without disk saving left
 stale references and crashed

---
 multisim/simenv.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 4e05f84..ff79bbd 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5319,13 +5319,33 @@ class SimEnv:
                 self.parts[part].res = np.append(
                     self.parts[part].res,
                     np.zeros(
-                        (self.__base_num_steps, self.parts[part].res.shape[1])
+                        (self.__base_num_steps,)
+                        + self.parts[part].res.shape[1:]
                     ),
                     axis=0,
                 )
+                # for all special result arrays:
+                for arr in ('res_dQ', 'res_Pel', 'res_Pgas', '_chp_state'):
+                    if hasattr(self.parts[part], arr):
+                        old = getattr(self.parts[part], arr)
+                        setattr(
+                            self.parts[part],
+                            arr,
+                            np.append(
+                                old,
+                                np.zeros(
+                                    (self.__base_num_steps,) + old.shape[1:]
+                                ),
+                                axis=0,
+                            ),
+                        )
 
             # set numer of needed steps to new amount:
             self.num_steps = self.time_vec.size - 1
+            # update all references to the enlarged arrays:
+            self._create_port_updater()
+            self._create_diff_inputs()
+            self._prep_inputs_for_njits()
         else:  # if saving to disk as HDFstore
             with pd.HDFStore(self._disk_store['path_tmp'], mode='r+') as store:
                 # index for hdf store
-- 
2.43.0


From ea7cf59f446740c9b1a356613c45c8bf0be57650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:05 +0000
Subject: [PATCH 06/46] fix: controller with a reference part raised KeyError
 (difference_to_ref instead of ref_SP_diff)

---
 multisim/controls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 3aeb346..37a0e31 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -295,7 +295,7 @@ class Controls:
             assert 'ref_SP_diff' in kwargs and isinstance(
                 kwargs['ref_SP_diff'], (int, float)
             ), err_str
-            self._ref_diff = float(kwargs['difference_to_ref'])
+            self._ref_diff = float(kwargs['ref_SP_diff'])
 
         # ---> CHECK CTRL ALGORITHMS
         # check if actuator definetely needs a special control (all actuators
-- 
2.43.0


From 873697475878708da34d4648dc2c037487077708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:05 +0000
Subject: [PATCH 07/46] fix: discrete time PID controllers ignored invert

---
 multisim/parts/controllers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 691996b..f7b094c 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -422,9 +422,12 @@ class PID(Controls):
                 # calculate new control variable with velocity algorithm:
                 self.cv = (
                     self._prev_cv_lim
-                    + self.kp * (self.error - self.prev_error)
-                    + self.ki * timestep * self.error
-                    + self.kd / timestep * self._deriv
+                    + (
+                        self.kp * (self.error - self.prev_error)
+                        + self.ki * timestep * self.error
+                        + self.kd / timestep * self._deriv
+                    )
+                    * self._invert  # allow direction inversion
                 )
             else:
                 # else if no integral term, use standard P/PD algorithm
@@ -448,7 +451,7 @@ class PID(Controls):
                 # with euler backwards differentiation for derivate term:
                 self.cv = (
                     self.kp * self.error + self.kd / timestep * self._deriv
-                )
+                ) * self._invert  # allow direction inversion
             # clip cv value to saturation:
             self._clip_cv_to_saturation()
         else:  # calculate controller output for a continuous time system
-- 
2.43.0


From 113d5c9c880de6bc8c36523fa334ff393d95d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:05 +0000
Subject: [PATCH 08/46] fix: controller dead time extrapolated the process
 value for timesteps longer than the dead time

---
 multisim/precomp_funs.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 84c2197..c1aa40e 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3688,9 +3688,7 @@ def ctrl_deadtime(
     if dt_idx == 0:
         # interpolate delayed pv from previous pv, new pv and
         # expired time and time between prev. and new pv:
-        delayed_pv = delayed_pv + (pv_arr[0] - delayed_pv) / (deadtime) * (
-            dt_arr[0]
-        )
+        delayed_pv = pv[0] + (pv_arr[0] - pv[0]) / dt_arr[0] * deadtime
     # if a new value has reached deadtime delay after more than
     # one step:
     elif dt_idx > 0:
-- 
2.43.0


From 11596b853564cb1816d885f4bc5b9e5037f51e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:05 +0000
Subject: [PATCH 09/46] fix: pure I controllers were accepted but crashed for
 missing coefficients

---
 multisim/parts/controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index f7b094c..7418017 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -47,7 +47,7 @@ class PID(Controls):
 
         # GET COEFFICIENTS FOR PID (and loop tuning methods):
         # check if controller is P/I/D
-        if self.terms in ['P', 'PI', 'PD', 'PID']:
+        if self.terms in ['P', 'I', 'PI', 'PD', 'PID']:
             # assert and get loop tuning (coeff. setting) method:
             methods = ('manual', 'tune', 'ziegler-nichols')
             err_str = (
-- 
2.43.0


From 62455f0d948654e1580b8197cebde53d366bf601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:44 +0000
Subject: [PATCH 10/46] fix: remove leftover debugger breakpoint when
 connecting a part named p_gasb1_ff

---
 multisim/simenv.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index ff79bbd..20415f9 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1995,8 +1995,6 @@ class SimEnv:
             self.parts[first_part]._ports_unconnected = self.parts[
                 first_part
             ].port_names
-        if scnd_part == 'p_gasb1_ff':
-            breakpoint()
         if (scnd_part != 'BoundaryCondition') and hasattr(
             self.parts[scnd_part], '_ports_connected'
         ):
-- 
2.43.0


From 82593ee1ce4b88988a36439f94b6fce35f813508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:44 +0000
Subject: [PATCH 11/46] fix: actuator time series only became effective after
 the first step unless an open port series existed

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 20415f9..fd39de1 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4414,7 +4414,7 @@ class SimEnv:
         if 'dyn_BC' in self.__postpone:  # add dynamic boundary cond., if any
             for dyn_BC in self.__postpone['dyn_BC'].values():
                 dyn_BC()
-            self._initialize_dynamic_BC()  # initialize dyn BC
+        self._initialize_dynamic_BC()  # initialize dyn BC, if any
 
         if 'connect_ports' in self.__postpone:  # connect ports, if any
             for connect_ports in self.__postpone['connect_ports'].values():
-- 
2.43.0


From 236e8cfa32ec68b6c3c1c428f20040cab24061b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:44 +0000
Subject: [PATCH 12/46] fix: invalid values (nan) in a part did not stop the
 simulation and failed runs were reported as success

---
 multisim/simenv.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index fd39de1..737dc28 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5109,25 +5109,24 @@ class SimEnv:
                 for name, prt in self.parts.items():
                     # loop over all parts and assert that none of the arrays
                     # contains any nan
-                    isanynan = np.any(np.isnan(prt.T)) and np.any(
+                    isanynan = np.any(np.isnan(prt.T)) or np.any(
                         np.isnan(prt.dm)
                     )
                     if isanynan:
                         print(
                             '\n\n'
-                            'WARNING: Invalid value found between step {0} '
-                            'at time {1}s and step {2} at time {3}s!\n'
+                            'WARNING: Invalid value found in part `{0}` up to '
+                            'step {1} at time {2}s!\n'
                             'Stopping simulation.\n\n'.format(
-                                self._total_stepnum - 5000,
-                                self.time_vec[self._total_stepnum - 5000],
-                                self._total_stepnum,
+                                name,
+                                self._total_stepnum + self.stepnum[0] - 1,
                                 self.time_sim,
                             )
                         )
                         # stop simulation by setting timeframe to almost zero
                         self.timeframe = 1e-9
                         # set solver state to failed:
-                        self._solver_state[self._total_stepnum] = 98
+                        self._solver_state[self.stepnum[0] - 1] = 98
                         break  # break loop for nan checking
 
         # measure time taken purely for simulation
@@ -5585,7 +5584,7 @@ class SimEnv:
 
         info = {
             'MultiSim version': __version__,
-            'Simulation success': True if states[99] == 0 else False,
+            'Simulation success': not failure,
         }
         info.update(fail_info)
         info.update(
-- 
2.43.0


From 95c3e677ba183cac9be727b9f4c6c48d3c54acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:52 +0000
Subject: [PATCH 13/46] fix: resetting a simulation kept the last actuator
 values (massflow lost, valve/heating/modulation stale)

---
 multisim/simenv.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 737dc28..7745e4b 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4797,6 +4797,10 @@ class SimEnv:
         for ctrl in self.ctrls.values():
             ctrl._reset_to_init_cond()
 
+        # reset all actuators to the values they had after building:
+        for part, init_cv in self._actuator_init_cv.items():
+            self.parts[part]._actuator_CV[:] = init_cv
+
         # reset dynamic boundary conditions:
         self._initialize_dynamic_BC()
 
@@ -4822,6 +4826,12 @@ class SimEnv:
 
         if build_simenv:
             self._build_simenv()
+            # backup of actuator start values for resetting:
+            self._actuator_init_cv = {
+                name: part._actuator_CV.copy()
+                for name, part in self.parts.items()
+                if part.is_actuator
+            }
 
         if reset_simenv:
             self._reset_simenv()
-- 
2.43.0


From 24bd08649f40b7e9e299db8f7a72e5f9c37450ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:52 +0000
Subject: [PATCH 14/46] fix: resetting a controller kept its integral term and
 dead time history

---
 multisim/controls.py          | 9 +++++++++
 multisim/parts/controllers.py | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/multisim/controls.py b/multisim/controls.py
index 37a0e31..c563f1a 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -838,6 +838,15 @@ class Controls:
             self.error_sum = 0.0
             self.d_term = 0.0
 
+    def _reset_transients(self):
+        """Reset integral term and dead time history to initial values."""
+        self.i_term = 0.0
+        self.dt_arr[:] = 0.0
+        self.pv_arr[:] = 25
+        self.dt_idx = 0
+        self.last_dt_idx = 0
+        self.delayed_pv = 25
+
     def ctrl(self, timestep):
         # only run ctrl if not linked/copied actuator:
         if self._process_cv_mode != 'linked':
diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 7418017..541b255 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -371,6 +371,7 @@ class PID(Controls):
         self.prev_error = 0.0
         self.prev2_error = 0.0
         self.prev_i_term = 0.0
+        self._reset_transients()
 
     def run_controller(self, timestep):
         """
@@ -535,6 +536,7 @@ class BangBang(Controls):
         self.prev_error = 0.0
         self.prev2_error = 0.0
         self.prev_i_term = 0.0
+        self._reset_transients()
 
     def run_controller(self, timestep):
         if self.pv < (self.sp - self._hysteresis / 2):
@@ -637,6 +639,7 @@ class TwoSensors(Controls):
         self.prev_error = 0.0
         self.prev2_error = 0.0
         self.prev_i_term = 0.0
+        self._reset_transients()
 
     def run_controller(self, timestep):
         # controller activation
@@ -1590,6 +1593,7 @@ class ModelPredCHP(Controls):
         self.prev_error = 0.0
         self.prev2_error = 0.0
         self.prev_i_term = 0.0
+        self._reset_transients()
 
     def tes_cap_before_empty(self, x):
         """
-- 
2.43.0


From 56e163d71d922b68741de337819d7628764575b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:52 +0000
Subject: [PATCH 15/46] fix: resetting a CHP plant kept its on/off state,
 timers and startup factors

---
 multisim/parts/chp_plant.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 6327128..f900a5a 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -308,6 +308,24 @@ class CHPPlant(Pipe):
             self._shutdown_duration = 99999.0
             self._bin_pow_fac = 1
         self._shutdown_factor_th = 0.0
+        # backup of the initial plant state for re-initializing:
+        self._chp_init = {
+            key: getattr(self, key)
+            for key in (
+                '_chp_on',
+                '_startup_in_progress',
+                '_shutdown_in_progress',
+                '_startup_at_time',
+                '_shutdown_at_time',
+                '_startup_factor_el',
+                '_startup_factor_th',
+                '_startup_factor_gas',
+                '_shutdown_factor_th',
+                '_remaining_heat',
+                '_dt_time_temp_exc',
+                '_bin_pow_fac',
+            )
+        }
         # save last thermal power value before shutdown for shutdown process
         self._last_dQ = np.zeros_like(self._dQ_heating)
         # percentage values, at which the CHP plant is considered as on/off
@@ -558,11 +576,17 @@ class CHPPlant(Pipe):
             _pf.chp_gas_power(1.0) * self.chp_power_el * self._eta_el_fac
         )
 
+    def _reset_to_init_cond(self):
+        super()._reset_to_init_cond()
+        for key, value in self._chp_init.items():
+            setattr(self, key, value)
+        self._last_dQ[:] = 0.0
+
     def _special_array_init(self, num_steps):
         self.res_dQ = np.zeros((num_steps + 1,) + self._dQ_heating.shape)
         self.res_Pel = np.zeros((num_steps + 1,) + self._Pel.shape)
         self.res_Pgas = np.zeros((num_steps + 1,) + self._Pgas.shape)
-        self._chp_state = np.zeros((num_steps + 1,) + self._chp_state.shape)
+        self._chp_state = np.zeros((num_steps + 1, 1))
 
     def __deprecated_special_free_memory(
         self, disk_store, part, array_length, hdf_idx, stepnum
-- 
2.43.0


From 0656bead65d3de7d6dff94a8b1235e5c956b7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:11 +0000
Subject: [PATCH 16/46] fix: a CHP plant running at the start was treated as
 just started (startup repeated or refused)

---
 multisim/parts/chp_plant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index f900a5a..5f2fc42 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -587,6 +587,8 @@ class CHPPlant(Pipe):
         self.res_Pel = np.zeros((num_steps + 1,) + self._Pel.shape)
         self.res_Pgas = np.zeros((num_steps + 1,) + self._Pgas.shape)
         self._chp_state = np.zeros((num_steps + 1, 1))
+        if self._chp_on:  # plant was already running before the first step
+            self._chp_state[0] = self._power_modulation
 
     def __deprecated_special_free_memory(
         self, disk_store, part, array_length, hdf_idx, stepnum
-- 
2.43.0


From 81b7237ee45763f0986bfd36bfa77c95888f0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:17 +0000
Subject: [PATCH 17/46] fix: simulations with constant timesteps
 (adaptive_steps=False) could not run

---
 multisim/simenv.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 7745e4b..79ec66b 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -440,6 +440,8 @@ class SimEnv:
             # smoothly:
             self._max_speed = False
             self._check_vN = False
+            # stability checks of the parts need a step factor (not used here):
+            self._max_factor = np.array([2.0])
 
         # set stepnum to 0 for the start:
         self.stepnum[0] = 0
@@ -3860,7 +3862,7 @@ class SimEnv:
 
         return vector_rot
 
-    def _heun(self, solve_num_expl, solve_nonnum, timestep):
+    def _heun(self, solve_num_expl, solve_num_impl, solve_nonnum, timestep):
         """
         Calculate the result of a differential equation using Heun's method.
 
@@ -3880,27 +3882,34 @@ class SimEnv:
         None.
 
         """
+        assert not solve_num_impl, (
+            'Implicit solving is only supported with `adaptive_steps=True`.'
+        )
         # solve predictor step for all numeric parts:
         for part in solve_num_expl:
             # get results from last timestep and pass them to
             # current-timestep-temperature-array:
             self.parts[part].T[:] = self.parts[part].res[self.stepnum[0] - 1]
             # calculate differential at result:
-            self.parts[part]._df0 = solve_num_expl[part]()
+            self.parts[part]._df0[:] = solve_num_expl[part](timestep)
             # calculate and save predictor step:
             self.parts[part].T[:] = (
                 self.parts[part].T + timestep * self.parts[part]._df0
             )
         # solve predictor step for all non-numeric parts:
         for part in solve_nonnum:
-            self.solve_nonnum[part]()
+            self.solve_nonnum[part](timestep)
         # update ports with new values:
-        self._update_ports(source='intermediate', all_ports=True, nnum=False)
-        self._update_ports(source='intermediate', all_ports=True, nnum=True)
+        _pf._upddate_ports_interm(
+            ports_all=self.ports_all,
+            trgt_indices=self._ports_trgt_idx,
+            ports_src=self._ports_src_interm,
+            source=0,
+        )
         # solve corrector step for all numeric parts:
         for part in solve_num_expl:
             # calculate differential at predictor step result:
-            self.parts[part]._df1 = solve_num_expl[part]()
+            self.parts[part]._df1[:] = solve_num_expl[part](timestep)
             # solve heun method and save to result:
             self.parts[part].res[self.stepnum[0]] = self.parts[part].res[
                 self.stepnum[0] - 1
@@ -3911,12 +3920,15 @@ class SimEnv:
             self.parts[part].T[:] = self.parts[part].res[self.stepnum[0]]
         # solve corrector step for all non-numeric parts:
         for part in solve_nonnum:
-            self.solve_nonnum[part]()
-        # update numeric parts' ports with results:
-        self._update_ports(source='results', all_ports=True, nnum=False)
-        # update non-numeric ports (they only have intermediate values as they
-        # have no differential method!)
-        self._update_ports(source='intermediate', all_ports=True, nnum=True)
+            self.solve_nonnum[part](timestep)
+        # update all ports:
+        _pf._upddate_ports_result(
+            ports_all=self.ports_all,
+            trgt_indices=self._ports_trgt_idx,
+            ports_src=self._ports_src_result,
+            stepnum=self.stepnum[0],
+            src_list=self._ports_src_res_idx,
+        )
 
     def _heun_adaptive(
         self, solve_num_expl, solve_num_impl, solve_nonnum, old_step
@@ -4647,13 +4659,13 @@ class SimEnv:
         # perhaps around 5*num_steps) for numeric parts.
         if self.adaptive_steps:
             self.num_steps = int(100 * self.num_steps)
-            # also save original amount of steps to use that again when
-            # enlarging arrays:
-            self.__base_num_steps = self.num_steps + 1
             # give all parts a new truncation error variable if adaptive steps:
             for part in self.parts:
                 if self.parts[part].solve_numeric:  # only for numeric parts!
                     self.parts[part].__new_trnc_err = 0.0
+        # also save original amount of steps to use that again when
+        # enlarging arrays:
+        self.__base_num_steps = self.num_steps + 1
         # if number of steps is above msb4sav or greater than maximum number of
         # steps, limit to these numbers. saving to disk is already enabled
         # during sim init...
-- 
2.43.0


From 0cc578b26ac4f4800ced823c2fab0662f188fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:46 +0000
Subject: [PATCH 18/46] fix: a reset simulation could not be rerun with disk
 saving and kept stale massflows in the first result

---
 multisim/simenv.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 79ec66b..994f2f8 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4803,6 +4803,7 @@ class SimEnv:
 
         # reset all temperature and massflow arrays inside the parts:
         for part in self.parts.values():
+            part.dm[:] = 0.0
             part._reset_to_init_cond()
 
         # reset all controllers:
@@ -4816,6 +4817,16 @@ class SimEnv:
         # reset dynamic boundary conditions:
         self._initialize_dynamic_BC()
 
+        # reset disk saving:
+        self._total_stepnum = 0
+        self._total_time_vec = np.array([])
+        if self._SimEnv__save_to_disk:
+            # temporary store was removed after the previous run
+            with pd.HDFStore(
+                self._disk_store['path_tmp'], mode='w', complevel=0
+            ) as store:
+                self._disk_store['store_tmp'] = store
+
     def initialize_sim(self, *, build_simenv=True, reset_simenv=False):
         """
         Initialize the simulation environment.
-- 
2.43.0


From 84144f1a2dbacc31024e9cb09415e29c12c4ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:12 +0000
Subject: [PATCH 19/46] fix: uncompressed result stores (complevel=0) ignored
 the selection of stored results

---
 multisim/simenv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 994f2f8..1599a6b 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -570,7 +570,7 @@ class SimEnv:
         # set compression (applied during postprocessing after sim)
         self._disk_store['compress'] = True if complevel > 0 else False
         self._disk_store['complevel'] = complevel
-        self._disk_store['complib'] = complib
+        self._disk_store['complib'] = complib if complevel > 0 else None
 
         # check if folder exists:
         if not os.path.isdir(path):
@@ -5489,8 +5489,12 @@ class SimEnv:
         self._disk_store_timevec = self._disk_store['store_tmp'][
             list(self.parts.keys())[0] + '/res'
         ].index.copy()
+        # are only some of the results selected for storing?
+        selection = any(
+            dsp is not True for dsp in self._disk_store_parts.values()
+        )
         # compress store if set
-        if self._disk_store['compress']:
+        if self._disk_store['compress'] or selection:
             # create new store with compression set
             self._disk_store['store'] = pd.HDFStore(
                 self._disk_store['path'],
@@ -5563,7 +5567,6 @@ class SimEnv:
                 )
                 # copy reference:
                 self._disk_store['store'] = self._disk_store['store_tmp']
-                print('fehler hier?')
             else:
                 self._disk_store['store'] = pd.HDFStore(
                     self._disk_store['path'],
-- 
2.43.0


From d0e0558aac5507b6feb6508ac4ab791db0d68a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:09 +0000
Subject: [PATCH 20/46] fix: meters could not be added to simulations without
 disk saving

---
 multisim/_utility/meters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 8f1e691..f06b467 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -20,7 +20,7 @@ class Meters:
         self.start_time = pd.to_datetime(start_time)
 
         # get resampling specs:
-        if self._simenv._disk_store['resample']:
+        if self._simenv._disk_store.get('resample', False):
             self._resample = True
             self._resample_freq = self._simenv._disk_store['resample_freq']
         else:
-- 
2.43.0


From 3cec82a7be12fc792122b0f67233786e0ce443ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:09 +0000
Subject: [PATCH 21/46] fix: volume flow meters silently replaced one another
 and were refused for names of mass flow meters

---
 multisim/_utility/meters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index f06b467..7ba6782 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -305,9 +305,9 @@ class Meters:
 
         err_str = (
             '`name=' + str(name) + '` has already been assigned to another '
-            'massflow sensor.'
+            'volumeflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
-- 
2.43.0


From bed39d2bc9383753769af0c4c2a52160206d845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 22/46] fix: inverted two-point controllers flipped the sign of
 a held control value in each step

---
 multisim/parts/controllers.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 541b255..10701b8 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -539,19 +539,20 @@ class BangBang(Controls):
         self._reset_transients()
 
     def run_controller(self, timestep):
+        # direction inversion is only allowed when switching, otherwise a held
+        # cv would change its sign in each step
         if self.pv < (self.sp - self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._off_state  # switch off (to off state)
             else:
                 self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
+            self._cv_invert()
         elif self.pv > (self.sp + self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
             else:
                 self.cv = self._off_state  # switch off (to off state)
-
-        # allow direction inversion:
-        self._cv_invert()
+            self._cv_invert()
 
         # check if controller is depending on another controller:
         self._subcontroller_check()
@@ -646,19 +647,20 @@ class TwoSensors(Controls):
         if self._act_sgn == 'le':
             if self.on_sensor_val[0] < self._act_val:
                 self.cv = self._cv_sat_max
+                self._cv_invert()
         else:  # if greater
             if self.on_sensor_val[0] > self._act_val:
                 self.cv = self._cv_sat_max
+                self._cv_invert()
         # controller deactivation
         if self._deact_sgn == 'ge':
             if self.pv[0] > self.sp[0]:
                 self.cv = self._off_state
+                self._cv_invert()
         else:  # if lesser
             if self.pv[0] < self.sp[0]:
                 self.cv = self._off_state
-
-        # allow direction inversion:
-        self._cv_invert()
+                self._cv_invert()
 
         # check if controller is depending on another controller:
         self._subcontroller_check()
-- 
2.43.0


From 78677340b80452f26dc774871b03086744039179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:37 +0000
Subject: [PATCH 23/46] fix: mass flow results of 3-way connectors and plate
 heat exchangers were never recorded (all zero)

---
 multisim/parts/connector_3w.py  | 3 +++
 multisim/parts/heatexchanger.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/multisim/parts/connector_3w.py b/multisim/parts/connector_3w.py
index 8be42a2..c5d149f 100644
--- a/multisim/parts/connector_3w.py
+++ b/multisim/parts/connector_3w.py
@@ -426,6 +426,9 @@ class Connector3w(SimEnv):
             containing no mass.
         """
 
+        # save massflow to results grid:
+        self.res_dm[self.stepnum] = self._dm_io
+
         _solve_connector_3w(
             T=self.T,
             ports_all=self._models.ports_all,
diff --git a/multisim/parts/heatexchanger.py b/multisim/parts/heatexchanger.py
index 90910b4..1ea1bea 100644
--- a/multisim/parts/heatexchanger.py
+++ b/multisim/parts/heatexchanger.py
@@ -1141,6 +1141,10 @@ class HeatExchanger(SimEnv):
     def solve(self, timestep):
         #        if self.name == 'Hex_Zirk':
         #            self.A_plate_eff = self.A_hex_total
+
+        # save massflow to results grid:
+        self.res_dm[self.stepnum] = self._dm_io
+
         _pf.solve_platehex(
             T=self.T,
             T_port=self._T_port,
-- 
2.43.0


From 51b3b10055d4c778cef6fbd8c1c1b50fafedef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:45 +0000
Subject: [PATCH 24/46] fix: process_CV_mode='direct' was accepted for
 three-way valves and opened both ports alike

---
 multisim/controls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multisim/controls.py b/multisim/controls.py
index c563f1a..226284e 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -319,6 +319,7 @@ class Controls:
                 'given with `actuator_port=X`, where X is either the '
                 'port name as a string or the cell index as integer value.)'
             ).format(self.actuator)
+            assert self._process_cv_mode != 'direct', err_str
             # assert 'actuator_port' in kwargs, err_str  # TODO: deprecated!
             # self.act_port = kwargs['actuator_port']  # TODO: deprecated!
             # # check actuator port and get index if not already int:
-- 
2.43.0


From 1756350231d3e162299a1f3419869f1f181e80ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 25/46] fix: a second boundary series with a sub-second
 sampling interval was always refused

---
 multisim/simenv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 1599a6b..6115b76 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1468,10 +1468,8 @@ class SimEnv:
                 self._SimEnv__BC_timedelta * time_series.index.size
                 > self.timeframe
             ), err_str
-            # add new timeseries in seconds frequency:
-            self._dyn_BC_timevec = time_series.index.values.astype(
-                'datetime64[s]'
-            )
+            # add new timeseries index:
+            self._dyn_BC_timevec = time_series.index.values
             # preallocate last step index counter for interpolation:
             self._SimEnv__last_step_t_idx = 0
 
-- 
2.43.0


From e4016b76c9a249e90369153c8fcbab664b71b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 26/46] fix: splitting valves could not be solved where index
 arrays are 64 bit (only int32 was compiled)

---
 multisim/precomp_funs.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index c1aa40e..77070b3 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3561,7 +3561,6 @@ def solve_platehex(
 
 
 @jit(
-    (float64[:], int32[:], float64[:]),
     nopython=True,
     nogil=GLOB_NOGIL,
     cache=True,
@@ -3619,7 +3618,6 @@ def solve_split_overload(arglist):
 
 
 @nb.jit(
-    (float64[:], int32[:], float64[:]),
     nopython=True,
     nogil=GLOB_NOGIL,
     cache=True,
-- 
2.43.0


From 1cdb5c62be34466b8654392d0465095fb8274df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:56 +0000
Subject: [PATCH 27/46] fix: controllers with dead time crashed for more than
 about 100 steps per second of dead time

---
 multisim/controls.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/multisim/controls.py b/multisim/controls.py
index 226284e..236be28 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -875,6 +875,16 @@ class Controls:
                 self.sp = self._ref + self._ref_diff
             # check if deadtime != 0 (also works for np.timedelta64 values)
             if self.deadtime:
+                # enlarge arrays if timesteps are so small, that the values
+                # of the deadtime would not fit into the arrays:
+                if self.last_dt_idx + 2 >= self.len_dt_arr:
+                    self.dt_arr = np.append(
+                        self.dt_arr, np.zeros_like(self.dt_arr)
+                    )
+                    self.pv_arr = np.append(
+                        self.pv_arr, np.full_like(self.pv_arr, 25)
+                    )
+                    self.len_dt_arr = self.dt_arr.shape[0]
                 # before extraction of pv add up timestep (time expired since
                 # last call of controller) to deadtime array:
                 (
-- 
2.43.0


From 8f5ec3737aaca92d29b8a13e53bd6b4af7bb4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:34 +0000
Subject: [PATCH 28/46] fix: invalid values (nan) were only detected before the
 first results were saved to disk

---
 multisim/simenv.py | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 6115b76..55e9233 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5135,30 +5135,29 @@ class SimEnv:
                 )
                 sys.stdout.flush()
 
-            # check for nan values every 5k steps:
-            if self._total_stepnum % 5000 == 0:
-                for name, prt in self.parts.items():
-                    # loop over all parts and assert that none of the arrays
-                    # contains any nan
-                    isanynan = np.any(np.isnan(prt.T)) or np.any(
-                        np.isnan(prt.dm)
-                    )
-                    if isanynan:
-                        print(
-                            '\n\n'
-                            'WARNING: Invalid value found in part `{0}` up to '
-                            'step {1} at time {2}s!\n'
-                            'Stopping simulation.\n\n'.format(
-                                name,
-                                self._total_stepnum + self.stepnum[0] - 1,
-                                self.time_sim,
-                            )
+            # check for nan values (also after results were saved to disk):
+            for name, prt in self.parts.items():
+                # loop over all parts and assert that none of the arrays
+                # contains any nan
+                isanynan = np.any(np.isnan(prt.T)) or np.any(
+                    np.isnan(prt.dm)
+                )
+                if isanynan:
+                    print(
+                        '\n\n'
+                        'WARNING: Invalid value found in part `{0}` up to '
+                        'step {1} at time {2}s!\n'
+                        'Stopping simulation.\n\n'.format(
+                            name,
+                            self._total_stepnum + self.stepnum[0] - 1,
+                            self.time_sim,
                         )
-                        # stop simulation by setting timeframe to almost zero
-                        self.timeframe = 1e-9
-                        # set solver state to failed:
-                        self._solver_state[self.stepnum[0] - 1] = 98
-                        break  # break loop for nan checking
+                    )
+                    # stop simulation by setting timeframe to almost zero
+                    self.timeframe = 1e-9
+                    # set solver state to failed:
+                    self._solver_state[self.stepnum[0] - 1] = 98
+                    break  # break loop for nan checking
 
         # measure time taken purely for simulation
         self._sim_end_time = _time_.time()
-- 
2.43.0


From 95b93ad8aca4b9ea14c5b8e95206d6d64642554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:34 +0000
Subject: [PATCH 29/46] fix: a run stopped for invalid values lost its
 timeframe, resetting it gave a run of one step

---
 multisim/simenv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 55e9233..72effe5 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5095,7 +5095,10 @@ class SimEnv:
         # set initial stepnum
         self.stepnum[0] = 1
 
-        while self.time_sim < self.timeframe:
+        # set to True if invalid values were found
+        failed = False
+
+        while self.time_sim < self.timeframe and not failed:
             # update all massflows:
             self._update_FlowNet()
 
@@ -5153,8 +5156,8 @@ class SimEnv:
                             self.time_sim,
                         )
                     )
-                    # stop simulation by setting timeframe to almost zero
-                    self.timeframe = 1e-9
+                    # stop simulation
+                    failed = True
                     # set solver state to failed:
                     self._solver_state[self.stepnum[0] - 1] = 98
                     break  # break loop for nan checking
-- 
2.43.0


From 9194a01f581f438f7434219301069a2ddc61840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:18 +0000
Subject: [PATCH 30/46] fix: a reset simulation started with the heat loss
 coefficients of the previous run

---
 multisim/simenv.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 72effe5..e82aabb 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4803,6 +4803,15 @@ class SimEnv:
         for part in self.parts.values():
             part.dm[:] = 0.0
             part._reset_to_init_cond()
+            # reset starting values of the iterative heat loss calculation:
+            for arr, val in (
+                ('_alpha_i', 3.122),
+                ('_alpha_inf', 3.122),
+                ('_UA_amb_shell', 0.0),
+                ('_UA_amb_lid', 0.0),
+            ):
+                if hasattr(part, arr):
+                    getattr(part, arr)[:] = val
 
         # reset all controllers:
         for ctrl in self.ctrls.values():
-- 
2.43.0


From 68b78f5bbbca82506b86423f9cc21ccbfa6a0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:24 +0000
Subject: [PATCH 31/46] fix: CHP plants kept times and ramps of a rejected,
 longer timestep when the step was repeated

---
 multisim/parts/chp_plant.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 5f2fc42..ae06760 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -701,8 +701,25 @@ class CHPPlant(Pipe):
     def get_diff(self, timestep):
         """Calculate differential of CHP core part."""
         # process flows is only executed ONCE per timestep, afterwards the bool
-        # process_flows is set to False.
-        if self._process_flows[0]:  # only if flows not already processed
+        # process_flows is set to False. The plant state depends on the
+        # timestep, thus if the solver repeats the step with another timestep,
+        # it has to be determined again, starting from the same state.
+        new_try = self._process_flows[0]
+        if new_try:
+            # backup the state and the commanded modulation
+            self._chp_bkp = {
+                key: getattr(self, key) for key in self._chp_init
+            }
+            self._modulation_bkp = self._power_modulation[0]
+            self._last_dQ_bkp = self._last_dQ.copy()
+        elif timestep != self._try_timestep:
+            new_try = True
+            for key, value in self._chp_bkp.items():
+                setattr(self, key, value)
+            self._power_modulation[0] = self._modulation_bkp
+            self._last_dQ[:] = self._last_dQ_bkp
+        self._try_timestep = timestep
+        if new_try:  # only if not already processed
             # get current elapsed time
             curr_time = self._models.time_vec[self.stepnum[0] - 1] + timestep
             # get state of the last step
@@ -905,7 +922,7 @@ class CHPPlant(Pipe):
         )
 
         # save rate of heat flow etc to result array
-        if self._process_flows[0]:
+        if new_try:
             self.res_Pel[self.stepnum[0]] = self._Pel[0]
             self.res_dQ[self.stepnum[0]] = self._dQ_heating[0]
             self.res_Pgas[self.stepnum[0]] = self._Pgas[0]
-- 
2.43.0


From ff452b1e4b98ce733385831a8d1cd5b23a6881f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:54 +0000
Subject: [PATCH 32/46] fix: steps repeated after a rejected try started with
 the heat loss coefficients of that try

---
 multisim/simenv.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index e82aabb..077f38e 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3962,6 +3962,9 @@ class SimEnv:
         # save port values to backup array (COPY to avoid memoryview!) to
         # be able to reset them when the step is not accepted:
         self.__parr_bkp[:] = self.ports_all
+        # same for the starting values of iterative heat loss calculations:
+        for arr, bkp in self.__loss_bkp:
+            bkp[:] = arr
         # set step to not accepted to begin loop:
         self._step_accepted = False
         # increase counter for how many consecutive steps the solution was
@@ -3980,6 +3983,10 @@ class SimEnv:
             err = 0.0
             # set step to stable for each new iteration:
             self._step_stable[0] = True
+            # repeated steps start with the same values as the first try:
+            if i > 0:
+                for arr, bkp in self.__loss_bkp:
+                    arr[:] = bkp
             # SOLVE STEPS:
             # solve predictor step for all numeric parts:
             for part in solve_num_expl:
@@ -4741,6 +4748,13 @@ class SimEnv:
         self._total_solver_state = np.zeros((0,))
         # initialize backup for ports array to enable redoing steps:
         self.__parr_bkp = np.zeros_like(self.ports_all)
+        # backup for the starting values of iterative heat loss calculations:
+        self.__loss_bkp = [
+            (getattr(part, arr), np.zeros_like(getattr(part, arr)))
+            for part in self.parts.values()
+            for arr in ('_alpha_i', '_alpha_inf', '_UA_amb_shell', '_UA_amb_lid')
+            if hasattr(part, arr)
+        ]
         # reset some other values to allow restarting the sim:
         self.stepnum[0] = 0
         self._vN_max_step[0] = np.inf
-- 
2.43.0


From 44ddbfadd3f483d4fba07bf47ef7c5f1f7a09b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:53 +0000
Subject: [PATCH 33/46] fix: steps after an instability depended on the order
 in which parts were added

---
 multisim/simenv.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 077f38e..820834b 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3987,6 +3987,7 @@ class SimEnv:
             if i > 0:
                 for arr, bkp in self.__loss_bkp:
                     arr[:] = bkp
+            breaking_part = None
             # SOLVE STEPS:
             # solve predictor step for all numeric parts:
             for part in solve_num_expl:
@@ -4004,10 +4005,11 @@ class SimEnv:
                 self.parts[part].T[:] = (
                     self.parts[part].T + _h * self.parts[part]._df0
                 )
-                # store breaking part if not stable step
-                if not self._step_stable[0]:
-                    self._breaking_part = part
-                    break
+                # store first breaking part if not stable step. go on with the
+                # other parts to find the step with which all parts are stable
+                # (otherwise it would depend on the order of the parts)
+                if not self._step_stable[0] and breaking_part is None:
+                    breaking_part = self._breaking_part = part
 
             # =============================================================================
             #             for part in solve_njit:
-- 
2.43.0


From 9737e8724b2f5914e2b11bc31bfa6d1a0b3d2564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:34 +0000
Subject: [PATCH 34/46] fix: boundary series assigned after the initialization
 only became effective after the first step

---
 multisim/simenv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 820834b..e253814 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5120,6 +5120,10 @@ class SimEnv:
         # set initial stepnum
         self.stepnum[0] = 1
 
+        # set first values of all dynamic BC (these may also be assigned after
+        # the initialization):
+        self._initialize_dynamic_BC()
+
         # set to True if invalid values were found
         failed = False
 
-- 
2.43.0


From 63a7e6e7ad9cd01448cf853358b62583a429efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:53 +0000
Subject: [PATCH 35/46] fix: time series of pipes with three-way valves were
 written to the mass flow and had no effect

---
 multisim/parts/pipe_with_valve.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/multisim/parts/pipe_with_valve.py b/multisim/parts/pipe_with_valve.py
index 57a12d2..d26537c 100644
--- a/multisim/parts/pipe_with_valve.py
+++ b/multisim/parts/pipe_with_valve.py
@@ -183,10 +183,18 @@ class PipeWith3wValve(Pipe):
         self._pf_arr_init = self.pf_arr.copy()  # bkp for re-initializing
 
         # initialize the actuator
-        self._initialize_actuator(**kwargs)
+        self._initialize_actuator(variable_name='pf_arr', **kwargs)
 
-        # expand const var to other ports:
+        # expand const var or time series to other ports:
         self._actuator_CV[1] = 1 - self._actuator_CV[0]
+        if not self.control_req and 'time_series' in kwargs:
+            self._models.assign_boundary_cond(
+                time_series=1 - kwargs['time_series'],
+                open_port=None,
+                part=self.name,
+                variable_name='pf_arr',
+                array_index=1,
+            )
 
         # add massflow grid argument to input args at correct position:
         self._input_arg_names_sorted.insert(6, 'dm')
-- 
2.43.0


From de84826205b88a3f0700c14a258444158020f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:23 +0000
Subject: [PATCH 36/46] fix: boundary series given as a DataFrame were always
 refused (ambiguous truth value)

---
 multisim/simenv.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index e253814..a1fa156 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1112,7 +1112,7 @@ class SimEnv:
         self._check_isadded(part=name, kind='open_port')
 
         # assert that no nan values were given:
-        assert not np.isnan(temperature).any() and isinstance(
+        assert not np.isnan(np.asarray(temperature)).any() and isinstance(
             temperature, (int, float, np.ndarray, pd.Series, pd.DataFrame)
         ), (
             'Value given to `add_open_port` with `name={0}` contains NaN '
@@ -1423,7 +1423,7 @@ class SimEnv:
             if part is not None
             else (control, 'control')
         )
-        assert not np.isnan(time_series).any(), (
+        assert not np.isnan(time_series.values).any(), (
             '`time_series` passed to `assign_boundary_cond()` for `{0}={1}` '
             'may not contain NaN values.'.format(for_which_str, for_which)
         )
@@ -1558,7 +1558,11 @@ class SimEnv:
 
         # add BC to dynamic BC tuple with target array view in the first
         # position and values of time_series in the second position:
-        self._dyn_BC += ((trgt_arr_view, time_series.values),)
+        # (column with index 0, if given as a DataFrame):
+        values = time_series.values
+        if values.ndim > 1:
+            values = values[:, 0]
+        self._dyn_BC += ((trgt_arr_view, values),)
 
     def _initialize_dynamic_BC(self):
         """
-- 
2.43.0


From 954f3d1242b0717ee21708535865b1d0fb0f7171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:50 +0000
Subject: [PATCH 37/46] fix: CHP plants exceeded the upper end of their
 modulation range

---
 multisim/parts/chp_plant.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index ae06760..e354e53 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -725,6 +725,9 @@ class CHPPlant(Pipe):
             # get state of the last step
             state_last_step = self._chp_state[self.stepnum[0] - 1]
 
+            # limit to the upper end of the modulation range:
+            if self._power_modulation[0] > self._mod_upper:
+                self._power_modulation[0] = self._mod_upper
             # check for modulation range and set on-off-integer:
             if self._power_modulation[0] < self._mod_lower:
                 # binary power multiplication factor to enable off-state
-- 
2.43.0


From eef574d28c8ae6931bfaf26b2dcfd1d5af882ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:50 +0000
Subject: [PATCH 38/46] fix: remaining heat of an earlier shutdown shortened
 the start-up of a CHP plant which had cooled down

---
 multisim/parts/chp_plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index e354e53..f7c2173 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -899,6 +899,7 @@ class CHPPlant(Pipe):
                         # shutdown finished. reset values
                         self._shutdown_in_progress = False
                         self._shutdown_factor_th = 0.0
+                        self._remaining_heat = 0.0
 
         if not self._shutdown_in_progress:
             self._dQ_heating[:] = (
-- 
2.43.0


From 278800c8b276537560e5d940ee9f8775bc605209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:52 +0000
Subject: [PATCH 39/46] fix: emergency shutdown of a heated pipe in a predicted
 or rejected state switched off the power for the rest of the step

---
 multisim/precomp_funs.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 77070b3..667a803 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -1938,12 +1938,16 @@ def heatedpipe1D_diff(
 ):
     # shutdown gasboiler immediately if any temperatures are exceeding
     # emergency_shutdown-value
+    # (without changing the commanded rate of heat flow, since this evaluation
+    # may be for a predicted state or for a try which will be rejected)
     if np.any(T_ext >= emergency_shutdown):
-        dQ_heating[:] = 0.0
+        dQ_applied = np.zeros_like(dQ_heating)
+    else:
+        dQ_applied = dQ_heating
 
     # save rate of heat flow to result array
     if process_flows[0]:  # only if flows not already processed
-        res_dQ[stepnum] = dQ_heating
+        res_dQ[stepnum] = dQ_applied
 
     process_flows[0] = _process_flow_invar(
         process_flows=process_flows,
@@ -2062,7 +2066,7 @@ def heatedpipe1D_diff(
 
     # CALCULATE DIFFERENTIALS
     # calculate heat transfer by internal heat sources
-    dT_heated[:] = dQ_heating * heat_mult / mcp_heated
+    dT_heated[:] = dQ_applied * heat_mult / mcp_heated
 
     # calculate heat transfer by conduction
     dT_cond[:] = (
-- 
2.43.0


From acae1bc51a9d48e7d064245282b1c164b71270ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 40/46] fix: store_results accepted negative cell indices which
 do not exist, failing only after the simulation

---
 multisim/simenv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index a1fa156..a875057 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -745,7 +745,7 @@ class SimEnv:
             if isinstance(store_results, int) and not isinstance(
                 store_results, bool
             ):
-                assert store_results < gps, (
+                assert -gps <= store_results < gps, (
                     'Elements of `store_results` must be smaller than '
                     'the number of grid points of part `{0}`.'.format(name)
                 )
@@ -755,7 +755,7 @@ class SimEnv:
                 assert isinstance(
                     elmnt, int
                 ), 'Elements of `store_results` list/tuple must be integers.'
-                assert elmnt < gps, (
+                assert -gps <= elmnt < gps, (
                     'Elements of `store_results` list/tuple must be smaller '
                     'than the number of grid points of part `{0}`.'.format(
                         name
-- 
2.43.0


From c0abef7bdce88ad2400ba3d504fbbf0001d78968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 41/46] fix: load_sim_results could not load from a path
 without trailing backslash

---
 multisim/utility_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 047ab30..538488a 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -47,8 +47,8 @@ def load_sim_results(
     filename, path=r'.\results\\', keys='all', multiindex=True
 ):
     # check for correct path layout:
-    if (path is not None) and (len(path) > 0) and (path[-1] != '\\'):
-        path = path + '\\'
+    if (path is not None) and (len(path) > 0) and (path[-1] not in '\\/'):
+        path = path + os.sep
     # check for correct key structuring:
     if keys != 'all':
         keys = list(keys) if isinstance(keys, tuple) else keys
-- 
2.43.0


From a803843738235037495c73b48e9d28efc66dde88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:12 +0000
Subject: [PATCH 42/46] fix: meters on the demand side of heat exchangers
 showed the massflow of the supply side

---
 multisim/simenv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index a875057..fa9a99e 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3392,7 +3392,10 @@ class SimEnv:
         )
         # get index to massflow array
         if self.parts[part].dm_invariant:  # if same massflow in flow channel
-            return 0
+            # one massflow per flow channel (several f.i. in heat exchangers)
+            num_cells = self.parts[part].T.shape[-1]
+            num_channels = self.parts[part].res_dm.shape[1]
+            return (index % num_cells) * num_channels // num_cells
         else:
             return index
 
-- 
2.43.0


From d14f5ffdccfadae89501c93fc05e8aee488eb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:44 +0000
Subject: [PATCH 43/46] fix: meters cut the fraction of a second off their
 start time

---
 multisim/_utility/meters.py   | 4 ++--
 multisim/utility_functions.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 7ba6782..9c0d3a2 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -28,8 +28,8 @@ class Meters:
             self._resample_freq = None
 
         # get base simenv timevec:
-        self._time_index = pd.to_datetime(
-            self._simenv.time_vec, origin=self.start_time, unit='s'
+        self._time_index = self.start_time + pd.to_timedelta(
+            self._simenv.time_vec, unit='s'
         )
         # get meter timevec, depending on resampling or not
         if not self._resample:
diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 538488a..694c2b3 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2463,8 +2463,8 @@ class Meters:
             self._resample_freq = None
 
         # get base simenv timevec:
-        self._time_index = pd.to_datetime(
-            self._simenv.time_vec, origin=self.start_time, unit='s'
+        self._time_index = self.start_time + pd.to_timedelta(
+            self._simenv.time_vec, unit='s'
         )
         # get meter timevec, depending on resampling or not
         if not self._resample:
-- 
2.43.0


From 4ba2b2aa7783f7e3e69b537a0c8fcecb8798c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:13 +0000
Subject: [PATCH 44/46] fix: mixing and splitting valves passed temperatures
 upstream when the flow was reversed

---
 multisim/parts/mixingvalve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multisim/parts/mixingvalve.py b/multisim/parts/mixingvalve.py
index 453be94..bb42b27 100644
--- a/multisim/parts/mixingvalve.py
+++ b/multisim/parts/mixingvalve.py
@@ -655,8 +655,9 @@ class MixingValve(SimEnv):
         self.res_dm[self.stepnum] = self._dm_io
 
         # get kind and then call numba jitted function (calling numba function
-        # which also does the selecting is SLOWER!)
-        if self.kind == 'mix':
+        # which also does the selecting is SLOWER!). if the flow through the
+        # valve is reversed, a mixing valve splits and a splitting valve mixes.
+        if (self.kind == 'mix') != (self._dm_io[2] < 0):
             # numba compiled function to solve mixing (includes getting ports)
             _pf.solve_mix(
                 self._models.ports_all,
-- 
2.43.0


From 0ad36c749422b11f352b79c511354096e67ef59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:53 +0000
Subject: [PATCH 45/46] fix: numeric heat exchangers read port conductivities
 outside of their grid

---
 multisim/precomp_funs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 667a803..054d175 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -2729,6 +2729,10 @@ def hexnum_diff(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # the ports index the full grid (fluid and wall columns):
+    lam_cells = np.zeros_like(mcp)
+    lam_cells[:, ::2] = lam_fld
+
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -2740,7 +2744,7 @@ def hexnum_diff(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_cells,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
@@ -3124,6 +3128,10 @@ def hexnum_diff_impl(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # the ports index the full grid (fluid and wall columns):
+    lam_cells = np.zeros_like(mcp)
+    lam_cells[:, ::2] = lam_fld
+
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -3135,7 +3143,7 @@ def hexnum_diff_impl(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_cells,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
-- 
2.43.0


From ff44109f431b32811139c643e47d162cd94d6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:28 +0000
Subject: [PATCH 46/46] fix: ports could be connected twice or to themselves
 without notice

---
 multisim/simenv.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index fa9a99e..7d7e326 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1933,6 +1933,16 @@ class SimEnv:
         # check if connect ports is already in postpone and if not, create it:
         if 'connect_ports' not in self.__postpone:
             self.__postpone['connect_ports'] = {}
+        # check if the connection would replace an already given connection:
+        assert (
+            first_part + ';' + first_port
+            not in self.__postpone['connect_ports']
+        ), (
+            'Port `{1}` of part `{0}` has already been connected to another '
+            'port or boundary condition.'
+        ).format(
+            first_part, first_port
+        )
         # postpone connecting ports to enable unordered sim. env. construction:
         #        self.__postpone['connect_ports'][first_part + ';' + first_port] = (
         #                lambda: self._connect_ports(
@@ -1987,6 +1997,16 @@ class SimEnv:
             'port or boundary condition.'
         ).format(first_part, first_port, scnd_part, scnd_port, '{0}', '{1}')
 
+        # check if a port shall be connected to itself or if a boundary
+        # condition has already been connected:
+        assert (first_part, first_port) != (scnd_part, scnd_port), (
+            'Port `{1}` of part `{0}` cannot be connected to itself.'
+        ).format(first_part, first_port)
+        for part, port in ((first_part, first_port), (scnd_part, scnd_port)):
+            assert (
+                part != 'BoundaryCondition'
+                or part + ';' + port not in self.port_links
+            ), err_str.format(port, part)
         # check connected parts:
         if (first_part != 'BoundaryCondition') and hasattr(
             self.parts[first_part], '_ports_connected'
-- 
2.43.0

