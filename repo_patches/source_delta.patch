From 811e7d02511dc2f64fd50a213e67e1d01a469d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:13 +0000
Subject: [PATCH 01/27] fix: delay only the named train in add_delay

The keys were matched by substring, so a delay for train 1 was also added
to trains such as 11, 101 or 6401.
---
 data_formatting/data_formatting/scheduling_tools.py | 2 +-
 data_formatting/data_formatting/utils.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 3e0e6dd..99a5bab 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -88,7 +88,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 40b12fa..e6535ea 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -490,7 +490,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
-- 
2.43.0


From 38ff212a4d400ddd04c0924c6d0bcbf68d57cda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:13 +0000
Subject: [PATCH 02/27] fix: treat turnaround as preparation only at the first
 station

The flag was never reset, so a turnaround written at a later station was
reported as preparation time and left out of the minimal stop.
---
 data_formatting/data_formatting/make_J_taus.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 3f279e8..8d3f039 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -460,15 +460,13 @@ def get_taus_stop(train_dict: dict, important_stations: dict, trains=None, r=1):
     """
     taus_stop = {}
     taus_prep = {}
-    first_station = False
 
     paths = get_Paths(train_dict)
     if trains == None:
         trains = paths.keys()
     for train in trains:
         for i, station in enumerate(paths[train]):
-            if i == 0:
-                first_station = True
+            first_station = i == 0
             if (i == len(paths[train]) - 1) and subsequent_block(
                 train_dict[train][1]["path"].tolist(),
                 blocks_list_4station(train_dict[train][1], station, important_stations)[
-- 
2.43.0


From a36667766fcede7dc83bb5ee5717e1398669fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:13 +0000
Subject: [PATCH 03/27] fix: report routes that jump between known but
 unconnected blocks

The continuity check only failed if one of the blocks was missing from the
network.
---
 data_formatting/data_formatting/time_table_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/time_table_check.py b/data_formatting/data_formatting/time_table_check.py
index 28ef4d1..31eec59 100644
--- a/data_formatting/data_formatting/time_table_check.py
+++ b/data_formatting/data_formatting/time_table_check.py
@@ -106,4 +106,5 @@ def check_path_continuity(paths, data_path_check):
             if data_path_check.isin([paths[i]]).any(1).any() == False:
                 raise AssertionError(paths[i], "not present in possible paths")
             if data_path_check.isin([paths[i + 1]]).any(1).any() == False:
-                raise AssertionError(paths[i], "not present in possible paths")
+                raise AssertionError(paths[i + 1], "not present in possible paths")
+            raise AssertionError(paths[i], paths[i + 1], "not connected")
-- 
2.43.0


From a52f8a99c5f6e9ad9e39ea1290b12c73328281a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:13 +0000
Subject: [PATCH 04/27] fix: find opposing trains that terminate at the end of
 a single track line

Only trains going on from the station were considered, so two trains facing
each other on a single track were not reported if they end there.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 8d3f039..3e0434b 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -194,7 +194,7 @@ def josingle(trains_dict, important_stations, imp_stations=None):
 
     init_josingle = {}
     imp_stations_list, trains_at_stations = important_trains_and_stations(
-        trains_dict, important_stations, imp_stations, True
+        trains_dict, important_stations, imp_stations, False
     )
 
     for s in imp_stations_list:
-- 
2.43.0


From da6bfc7d6ca7cc16c7ba8d93a980ad8d19bdf1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:32 +0000
Subject: [PATCH 05/27] fix: accept empty and single integer switch cells

An empty cell of the network table raised NameError and an integer cell
TypeError when switch conflicts were determined.
---
 data_formatting/data_formatting/make_switch_set.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/data_formatting/data_formatting/make_switch_set.py b/data_formatting/data_formatting/make_switch_set.py
index f161466..880da8f 100644
--- a/data_formatting/data_formatting/make_switch_set.py
+++ b/data_formatting/data_formatting/make_switch_set.py
@@ -55,11 +55,13 @@ def z_in(data_path_check, j, s, paths, station_blocks, blocks_lists):
             if len(switch_position) != 0:
                 for s in switch_position:
                     switch = data_path_check["switches"][s]
-                    if type(switch) is float:
+                    if pd.isna(switch):
+                        switch = set()
+                    elif type(switch) is float:
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
@@ -100,11 +102,13 @@ def z_out(data_path_check, j, s, paths, station_blocks, blocks_lists):
             if len(switch_position) != 0:
                 for s in switch_position:
                     switch = data_path_check["switches"][s]
-                    if type(switch) is float:
+                    if pd.isna(switch):
+                        switch = set()
+                    elif type(switch) is float:
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
-- 
2.43.0


From 2f9c85d8659a3ccdaf274abbb8a75d94e9ee9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:32 +0000
Subject: [PATCH 06/27] fix: give the empty-run weight only to the shunting
 partner

Any train whose number is a paired number followed by some digit was
weighted as an empty run, e.g. 42103 next to the pair 4210 and 42109.
---
 data_formatting/data_formatting/scheduling_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 99a5bab..47defe8 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -3,7 +3,6 @@ from datetime import datetime
 import pandas as pd
 
 from .make_J_taus import get_trains_pair9
-from .utils import flatten
 from .time_table_check import train_important_stations
 
 
@@ -112,7 +111,7 @@ def make_weights(
     for train in train_dict.keys():
         type_of_train = train_dict[train][0][0]
         weight = trains_weights[type_of_train]
-        if train // 10 in flatten(get_trains_pair9(train_dict)):
+        if [train // 10, train] in get_trains_pair9(train_dict):
             weight = empty
         station = train_important_stations(train_dict[train][1])[-1]
         if train in skip_stations and station == skip_stations[train]:
-- 
2.43.0


From 0dd1a3c967c991f7923e8fa52dd100ff61f9908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:32 +0000
Subject: [PATCH 07/27] fix: stop when a rolling stock pair does not meet

sys.exit was not called, so the block of the previous pair was reused and a
wrong hand-over reported.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 3e0434b..eaef9a0 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -67,7 +67,7 @@ def get_jround(train_dict, important_stations):
             block = train_time_table(train_dict, pair[1])["path"].tolist()[0]
         else:
             print("Something is wrong in get_jround")
-            sys.exit
+            sys.exit(1)
         station = [key for key, value in important_stations.items() if block in value][
             0
         ]
-- 
2.43.0


From 472bca3d19e2cb8be16433d882c92e92f1503561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:32 +0000
Subject: [PATCH 08/27] fix: keep the last run of common blocks

Common blocks collected before a trailing block that is not common were
dropped.
---
 data_formatting/data_formatting/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index e6535ea..1a3bf8b 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -46,6 +46,8 @@ def check_common_specific_elements_lists(list1, list2):
                 i += 1
         else:
             i += 1
+    if short:
+        check_elements.append(short)
     return check_elements
 
 
-- 
2.43.0


From 121b06d1e2caee15f04ac7d5fa68c3474fe5cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:32 +0000
Subject: [PATCH 09/27] fix: group trains for headway only if they use the same
 blocks

A train whose blocks are all contained in the longer route of another train
was put in the same group, depending on the order of trains.
---
 data_formatting/data_formatting/make_J_taus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index eaef9a0..49ea8ca 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -389,9 +389,9 @@ def jd(time_tables_dict, important_stations, imp_stations=None):
                 added = False
                 while i < len(jd[s][s2]):
                     path_check = (
-                        common_path(
-                            timetable, time_tables_dict[jd[s][s2][i][0]][1], s, s2
-                        )
+                        get_blocks_b2win_station4train(
+                            time_tables_dict[jd[s][s2][i][0]][1], s, s2
+                        )[0]
                         == get_blocks_b2win_station4train(timetable, s, s2)[0]
                     )
                     if jd[s][s2][i] != [] and path_check == True:
-- 
2.43.0


From 50df1717ada7f6ce7ae76336387cbdfada96070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:32 +0000
Subject: [PATCH 10/27] fix: round the preparation time returned with the
 minimal stops

It replaced the rounded value of get_taus_prep in make_taus although
rounding was asked for.
---
 data_formatting/data_formatting/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 1a3bf8b..897f8c3 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -396,7 +396,9 @@ def minimal_stay(
     if np.isnan(turn_around) == False:
         turn_around = float(turn_around)
         if first_station == True:
-            taus_prep1[f"{train}_{station}"] = turn_around
+            taus_prep1[f"{train}_{station}"] = (
+                round(turn_around) if r == 1 else turn_around
+            )
             turn_around = 0
         t += turn_around
     time += t
-- 
2.43.0


From c8f5e38c28727b8ab64063ee171c3a87400e4be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:12 +0000
Subject: [PATCH 11/27] fix: compare the whole station name when skipping track
 occupation at a station

The test used the substring operator, so a train that skips 'KO(STM)' also
lost its track occupation constraints at 'KO', and station numbers raised a
TypeError. Use skip_station(), as for the delay variables.
---
 railway_solvers/railway_solvers/linear_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index bfe5b25..287000e 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -511,8 +511,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
-                    skip = "skip_station" in train_sets and jp in train_sets["skip_station"] and s in train_sets["skip_station"][jp]
-                    if not skip:
+                    if not skip_station(jp, s, train_sets):
                         keep_trains_order(
                             s,
                             j,
@@ -533,8 +532,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
                             d_max,
                         )
 
-                    skip = "skip_station" in train_sets and j in train_sets["skip_station"] and s in train_sets["skip_station"][j]
-                    if not skip:
+                    if not skip_station(j, s, train_sets):
                         trains_order_at_s(
                             s,
                             j,
-- 
2.43.0


From 4bb0c8f169e36b043c6dc4384fa5c93c8ce634f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:14 +0000
Subject: [PATCH 12/27] fix: keep the order at a platform only for trains that
 follow each other

The order at a station was tied to the order at the previous station also for
trains that do not run on that line together, e.g. trains that meet on a
double track line, which forbids conflict-free plans. The order variable was
also looked up under one orientation only, which raised a KeyError when the
train lists name the pair in different orders.
---
 railway_solvers/railway_solvers/linear_solver.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 287000e..f51c0e0 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -421,17 +421,16 @@ def keep_trains_order(
         if s in train_sets["Jd"][sp].keys():
             # if both trains goes sp -> s and have common path
             if occurs_as_pair(j, jp, train_sets["Jtrack"][s]):
-                if not can_MO_on_line(j, jp, s, train_sets):
+                if occurs_as_pair(j, jp, train_sets["Jd"][sp][s]):
                     # the order on station y[j][jp][s] must be the same as
                     # on the path y[j][jp][sp] (previous station)
-                    if s in y[j][jp]["one_station"] and sp in y[j][jp]["one_station"]:
-                        problem += (
-                            y[j][jp]["one_station"][s] == y[j][jp]["one_station"][sp],
-                            f"track_occupation_{j}_{jp}_{s}_{sp}",
-                        )
+                    problem += (
+                        get_y3(y, j, jp, s) == get_y3(y, j, jp, sp),
+                        f"track_occupation_{j}_{jp}_{s}_{sp}",
+                    )
                 elif are_two_trains_entering_via_the_same_switches(train_sets, s, j, jp):
                     problem += (
-                                get_y4_in(y, "in", j, jp, s) == y[j][jp]["one_station"][s],
+                                get_y4_in(y, "in", j, jp, s) == get_y3(y, j, jp, s),
                                 f"track_occupation_{j}_{jp}_{s}_{sp}",
                                 )
 
-- 
2.43.0


From 3e14c08ce07c7d76bdf843831b784b3a1b96f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:43:22 +0000
Subject: [PATCH 13/27] fix: a terminating train must not enter an occupied
 platform track

Track occupation was dropped for a train at the station where it ends, as soon
as it was put first, so the model admitted plans where it arrives while another
train stands on the track. Such a train leaves no departure time: it is now
taken off the track at its arrival and cannot arrive in between.
---
 .../railway_solvers/linear_solver.py          | 74 ++++++++++---------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index f51c0e0..a88ae53 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -472,7 +472,14 @@ def trains_order_at_s(
         else: # this means first station
             LHS = earliest_dep_time(S, timetable, jp, s)
 
-        RHS = earliest_dep_time(S, timetable, j, s)
+        s_leave = s
+        if skip_station(j, s, train_sets): # no departure from s, train leaves the track when it arrives
+            s_leave = previous_station(S[j], s)
+        RHS = earliest_dep_time(S, timetable, j, s_leave)
+        if s_leave != s:
+            RHS += tau(
+                timetable, "pass", first_train=j, first_station=s_leave, second_station=s
+            )
 
         if "add_swithes_at_s" in train_sets.keys():
             if (
@@ -491,7 +498,7 @@ def trains_order_at_s(
                 LHS += delay_var[jp][sp]
 
             RHS -= M * get_y3(y, jp, j, s)
-            LHS -= delay_var[j][s]
+            LHS -= delay_var[j][s_leave]
 
             problem += LHS >= RHS, f"track_occupation_{j}_{jp}_{s}_p"
 
@@ -510,39 +517,36 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
-                    if not skip_station(jp, s, train_sets):
-                        keep_trains_order(
-                            s,
-                            j,
-                            jp,
-                            problem,
-                            y,
-                            train_sets,
-                        )
-                        trains_order_at_s(
-                            s,
-                            jp,
-                            j,
-                            problem,
-                            timetable,
-                            delay_var,
-                            y,
-                            train_sets,
-                            d_max,
-                        )
-
-                    if not skip_station(j, s, train_sets):
-                        trains_order_at_s(
-                            s,
-                            j,
-                            jp,
-                            problem,
-                            timetable,
-                            delay_var,
-                            y,
-                            train_sets,
-                            d_max,
-                        )
+                    keep_trains_order(
+                        s,
+                        j,
+                        jp,
+                        problem,
+                        y,
+                        train_sets,
+                    )
+                    trains_order_at_s(
+                        s,
+                        jp,
+                        j,
+                        problem,
+                        timetable,
+                        delay_var,
+                        y,
+                        train_sets,
+                        d_max,
+                    )
+                    trains_order_at_s(
+                        s,
+                        j,
+                        jp,
+                        problem,
+                        timetable,
+                        delay_var,
+                        y,
+                        train_sets,
+                        d_max,
+                    )
 
 
 #switch occupation condition at stations
-- 
2.43.0


From e1bd04e16cc5147b72af0f3274575bdc6330aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:00:47 +0000
Subject: [PATCH 14/27] fix: report the departure of a train whose delay is not
 a variable of the problem

A delay that occurs in no constraint and has no penalty is not in the problem,
and the departure was reported as 0, i.e. at the reference time.
---
 railway_solvers/railway_solvers/linear_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index a88ae53..d683fa1 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -725,7 +725,11 @@ def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
             conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
             conflict_free = delay + conflicted_tt
             return delay, conflict_free, conflicted_tt
-    return 0,0,0
+    if skip_station(j, s, train_sets) or subsequent_train_at_Jround(train_sets, j, s) is not None:
+        return 0,0,0
+    # the delay is neither constrained nor penalised, thus not in the problem
+    conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
+    return 0, conflicted_tt, conflicted_tt
 
 
 def impact_to_objective(prob, timetable, j, s, d_max, data = []):
-- 
2.43.0


From 4e7fecfab0180f909b530f8505f87377ff45f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:00:57 +0000
Subject: [PATCH 15/27] fix: round solver values to the minute in the result
 timetable

A delay of 3 returned by the solver as 2.9999999 was shown as 2 minutes.
---
 helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/helpers.py b/helpers.py
index cd70abc..45b2227 100644
--- a/helpers.py
+++ b/helpers.py
@@ -105,9 +105,9 @@ def print_optimisation_results(prob, timetable, train_set, taus, skip_stations,
         for s in train_set["Paths"][j]:
             s_dict = {}
             try:
-                dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+int(departure_prev))
+                dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+int(round(departure_prev)))
                 s_dict["arrive"] = t_ref + dt
-                conflicted_dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+int(departure_conflict_prev))
+                conflicted_dt = timedelta(minutes = round(taus["pass"][f"{j}_{s_prev}_{s}"])+int(round(departure_conflict_prev)))
                 s_dict["conflicted_arrive"] = t_ref + conflicted_dt
             except:
                 0
@@ -118,9 +118,9 @@ def print_optimisation_results(prob, timetable, train_set, taus, skip_stations,
                 delay, departure, conflicted_departure = delay_and_acctual_time(
                     train_set, timetable, prob, j, s, outside_data
                 )
-                s_dict["departure"] = t_ref + timedelta(minutes = int(departure))
-                s_dict["secondary delay"] = int(delay)
-                s_dict["conflicted_departure"] = t_ref + timedelta(minutes = int(conflicted_departure))
+                s_dict["departure"] = t_ref + timedelta(minutes = int(round(departure)))
+                s_dict["secondary delay"] = int(round(delay))
+                s_dict["conflicted_departure"] = t_ref + timedelta(minutes = int(round(conflicted_departure)))
                 s_dict["impact_to_objective"] = delta_obj
 
                 s_prev = s
-- 
2.43.0


From 50fa0793b574b1774d72a34cc1930daec9aaa829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:00:57 +0000
Subject: [PATCH 16/27] fix: count only order variables as order variables

Delays of a train whose name ends with y or z were counted as order variables
and made the check of the order variables fail.
---
 helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.py b/helpers.py
index 45b2227..4a4b622 100644
--- a/helpers.py
+++ b/helpers.py
@@ -143,7 +143,7 @@ def check_count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             assert v.varValue in [pytest.approx(0), pytest.approx(1)]
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
@@ -161,7 +161,7 @@ def count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
     constraints = prob.numConstraints()
-- 
2.43.0


From b1e3551bb86fb090a2ce34a42433d5fdc6b7d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:13 +0000
Subject: [PATCH 17/27] fix: convert constraints that can be met with equality
 only

---
 .../railway_solvers/converter_bqm.py          | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/railway_solvers/railway_solvers/converter_bqm.py b/railway_solvers/railway_solvers/converter_bqm.py
index c6b5a00..ee3ecc6 100644
--- a/railway_solvers/railway_solvers/converter_bqm.py
+++ b/railway_solvers/railway_solvers/converter_bqm.py
@@ -57,6 +57,20 @@ def _get_slack_ub(data: List[int], offset: int) -> int:
     return int(result)
 
 
+def _get_slack(cname: str, ub: int):
+    """Slack variable of the constraint. There is no slack if the constraint can
+    be met with equality only, or not at all.
+
+        :param cname: name of the constraint
+        :type cname: str
+        :param ub: upper bound of the slack variable
+        :type ub: int
+        :return: slack variable, or 0
+        :rtype: Union[LogEncInteger, int]
+    """
+    return LogEncInteger(cname, (0, ub)) if ub > 0 else 0
+
+
 def convert_to_pyqubo(model: LpProblem):
     """Converts Integer program into pyqubo.Model. Placeholders (penalty
     parameters) are NOT set up. Names of placeholders can be found in the code of
@@ -90,15 +104,12 @@ def convert_to_pyqubo(model: LpProblem):
         if sense == pulp.LpConstraintEQ:
             H += ph * expr ** 2
         elif sense == pulp.LpConstraintLE:
-            slack = LogEncInteger(cname, (0, _get_slack_ub(c.items(), c.constant)))
+            slack = _get_slack(cname, _get_slack_ub(c.items(), c.constant))
             H += ph * (expr + slack) ** 2
         elif sense == pulp.LpConstraintGE:
-            slack = LogEncInteger(
+            slack = _get_slack(
                 cname,
-                (
-                    0,
-                    _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
-                ),
+                _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
             )
             H += ph * (expr - slack) ** 2
 
-- 
2.43.0


From 2177c022201a8bf25f0a9272a3c43465dd89f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:13 +0000
Subject: [PATCH 18/27] fix: pass the number of sweeps and reads of simulated
 annealing by name

---
 railway_solvers/railway_solvers/d_wave_solves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/d_wave_solves.py b/railway_solvers/railway_solvers/d_wave_solves.py
index e2c603d..1155eaa 100644
--- a/railway_solvers/railway_solvers/d_wave_solves.py
+++ b/railway_solvers/railway_solvers/d_wave_solves.py
@@ -28,7 +28,8 @@ def sim_anneal(
     """
     s = neal.SimulatedAnnealingSampler()
     sampleset = s.sample(
-        bqm, beta_range, num_sweeps, num_reads, beta_schedule_type="geometric"
+        bqm, beta_range=beta_range, num_sweeps=num_sweeps, num_reads=num_reads,
+        beta_schedule_type="geometric"
     )
     return sampleset
 
-- 
2.43.0


From ee0a5e40235adaaf2198566b3ee2630471357a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:13 +0000
Subject: [PATCH 19/27] fix: pass the time limit to the hybrid BQM solver

---
 railway_solvers/railway_solvers/d_wave_solves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/d_wave_solves.py b/railway_solvers/railway_solvers/d_wave_solves.py
index 1155eaa..f8695f4 100644
--- a/railway_solvers/railway_solvers/d_wave_solves.py
+++ b/railway_solvers/railway_solvers/d_wave_solves.py
@@ -83,4 +83,5 @@ def hybrid_anneal(bqm, minimum_time_limit) -> dimod.sampleset.SampleSet:
     """
     sampler = LeapHybridSampler()
     sampler.properties["minimum_time_limit_s"]  = minimum_time_limit # by default it is 5, and can be set
-    return sampler.sample(bqm), sampler.properties
+    time_limit = max(minimum_time_limit, sampler.min_time_limit(bqm))
+    return sampler.sample(bqm, time_limit=time_limit), sampler.properties
-- 
2.43.0


From 629a52aded6ab1ff86c6868b1a95ae3c84d917ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:24:34 +0000
Subject: [PATCH 20/27] fix: keep the orders of trains passing each other on
 separate tracks independent

Two trains meeting on a line with separate tracks shared one order variable
for the switches at both ends of the line. The model therefore excluded the
plan in which each train leaves its station before the other one arrives.
---
 railway_solvers/railway_solvers/helpers_functions.py | 12 ++++++++++++
 railway_solvers/railway_solvers/linear_solver.py     | 11 +++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/railway_solvers/railway_solvers/helpers_functions.py b/railway_solvers/railway_solvers/helpers_functions.py
index bffa3af..bb2ea75 100644
--- a/railway_solvers/railway_solvers/helpers_functions.py
+++ b/railway_solvers/railway_solvers/helpers_functions.py
@@ -149,6 +149,18 @@ def departure_station4switches(s, j, place_of_switch, train_sets):
     return None
 
 
+def meet_on_separate_tracks(j, jp, s, sp, train_sets):
+    """checks if j (from s to sp) and jp (from sp to s) pass each other on the line,
+    then their orders at s and at sp are independent
+    """
+    S = train_sets["Paths"]
+    opposite = subsequent_station(S[j], s) == sp and subsequent_station(S[jp], sp) == s
+    single = train_sets["Josingle"]
+    return opposite and not (
+        [j, jp] in single.get((s, sp), []) or [jp, j] in single.get((sp, s), [])
+    )
+
+
 def get_M(LHS, RHS, d_max):
     """computes minimal value of the large number M for the order variable
     y ∈ [0,1] conditional inequality such that:
diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index d683fa1..f5ca780 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -6,6 +6,7 @@ import pandas as pd
 
 
 from .helpers_functions import departure_station4switches
+from .helpers_functions import meet_on_separate_tracks
 from .helpers_functions import update_dictofdicts
 from .helpers_functions import earliest_dep_time
 from .helpers_functions import get_M
@@ -127,7 +128,10 @@ def order_var4switch_occupation(order_vars, train_sets):
                 else:
                     update_y3(order_vars, jp, jpp, sp)
             elif s in (sp, spp):
-                update_y4(order_vars, jp, jpp, sp, spp)
+                if meet_on_separate_tracks(jp, jpp, sp, spp, train_sets):
+                    update_y4_in(order_vars, f"in_{jp if sp != s else jpp}", jp, jpp, s)
+                else:
+                    update_y4(order_vars, jp, jpp, sp, spp)
             else: # we have differen s, sp and spp
                 update_y4_in(order_vars, "in", jp, jpp, s)
 
@@ -584,7 +588,10 @@ def switch_occ(
             else:
                 RHS -= M * get_y3(y, jp, jpp, sp)
         elif s in (spp, sp):
-            RHS -= M * get_y4_singleline(y, jp, jpp, sp, spp)
+            if meet_on_separate_tracks(jp, jpp, sp, spp, train_sets):
+                RHS -= M * get_y4_in(y, f"in_{jp if sp != s else jpp}", jp, jpp, s)
+            else:
+                RHS -= M * get_y4_singleline(y, jp, jpp, sp, spp)
         else: # s, sp and spp differs
             RHS -= M * get_y4_in(y, "in", jp, jpp, s)
 
-- 
2.43.0


From 372e3b851a2404201ac133c36e879a8b24a9ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:56:29 +0000
Subject: [PATCH 21/27] fix: headways between the trains leaving station 10 in
 the Wisla instance

The group of trains running from station 10 to 5 was placed next to the
table of following trains instead of inside it, and one of the headways
carried the stations in the wrong order. No headway was kept between
these trains on their first line.
---
 wisla_problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wisla_problems.py b/wisla_problems.py
index 4d87caa..ca7160b 100644
--- a/wisla_problems.py
+++ b/wisla_problems.py
@@ -60,7 +60,7 @@ if __name__ == "__main__":
         "Paths": { "Ks1": [1,3,5,10], "Ks3": [1,3,5,10], "Ic1": [1,3,5,10], "Ks2": [10,5,3,1], "Ks4": [10,5,3,1], "Ic2": [10,5,3,1]},
         "J": ["Ks1", "Ks3", "Ic1", "Ks2", "Ks4", "Ic2"],
         "Jd": {1: {3: [["Ks1", "Ks3", "Ic1"]]}, 3:{1:[["Ks2", "Ks4", "Ic2"]], 5:[["Ks1", "Ks3", "Ic1"]]}, 
-               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}}, 10:{5:[["Ks2", "Ks4", "Ic2"]]},
+               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}, 10:{5:[["Ks2", "Ks4", "Ic2"]]}},
         "Josingle": {(1,3): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (3,5): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (5,10): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]]
@@ -78,7 +78,7 @@ if __name__ == "__main__":
 
                         "Ks2_Ks4_3_1": 2, "Ks2_Ks4_5_3": 2, "Ks2_Ks4_10_5": 2, "Ks4_Ks2_3_1": 2, "Ks4_Ks2_5_3": 2, "Ks4_Ks2_10_5": 2,
                         "Ks2_Ic2_3_1": 2, "Ks2_Ic2_5_3": 2, "Ks2_Ic2_10_5": 2, "Ks4_Ic2_3_1": 2, "Ks4_Ic2_5_3": 2, "Ks4_Ic2_10_5": 2,
-                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_5_10": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
+                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_10_5": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
             
             },
             "prep": {"Ic2_10": 20},
-- 
2.43.0


From 1751de435de1cbf57255c4584b07a201d605e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:56:29 +0000
Subject: [PATCH 22/27] fix: store the number of broken constraints with each
 solved instance

The linear solver branch wrote it under a misspelt key of the whole
result table instead of the entry of the instance.
---
 solve_KO_GLC_problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solve_KO_GLC_problems.py b/solve_KO_GLC_problems.py
index a9710e3..5137b9b 100644
--- a/solve_KO_GLC_problems.py
+++ b/solve_KO_GLC_problems.py
@@ -199,7 +199,7 @@ if __name__ == "__main__":
             result["objective"] = prob.objective.value() * d_max
             result["comp_time_seconds"] = end_time - start_time
             result["feasible"] = True
-            results["brolen_constraints"] = 0
+            result["broken_constraints"] = 0
             check_count_vars(prob)
 
         elif args.solve_quantum in ["sim", "real", "bqm", "cqm"]:
-- 
2.43.0


From 4c8247b8c5bd65b22082976c2c0cd861b4fa53bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:02:18 +0000
Subject: [PATCH 23/27] fix: recognise sampled solutions of all solvers in the
 diagram scripts

Only files with 'cqm' in their path were read as sampled solutions, so
the files of the other samplers could not be shown, nor could any other
file below a directory with such a name.
---
 solutions_quantum/data4diagrams/echo_gnuplot_file.py   | 2 +-
 solutions_quantum/data4diagrams/read_quantum_pickle.py | 2 +-
 solutions_quantum/data4diagrams/train_utils.py         | 7 +++++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/solutions_quantum/data4diagrams/echo_gnuplot_file.py b/solutions_quantum/data4diagrams/echo_gnuplot_file.py
index b04609a..17a6f00 100755
--- a/solutions_quantum/data4diagrams/echo_gnuplot_file.py
+++ b/solutions_quantum/data4diagrams/echo_gnuplot_file.py
@@ -80,7 +80,7 @@ def echo_gnuplot_train_labels(train, segment):
             pass
 
         
-if 'cqm' in ARGS.infile:
+if tu.is_sampled(data):
     try:
         kdtraindata = data[ARGS.realisation]
     except:
diff --git a/solutions_quantum/data4diagrams/read_quantum_pickle.py b/solutions_quantum/data4diagrams/read_quantum_pickle.py
index faf9ff4..6365eb3 100755
--- a/solutions_quantum/data4diagrams/read_quantum_pickle.py
+++ b/solutions_quantum/data4diagrams/read_quantum_pickle.py
@@ -17,7 +17,7 @@ routes = sorted(list(set(lists)))
 def quantum_train_route(train):
     return list(train.keys())
 
-if 'cqm' in sys.argv[1]:
+if tu.is_sampled(data):
     kdtraindata = data[int(sys.argv[2])]
 else:
     kdtraindata = data
diff --git a/solutions_quantum/data4diagrams/train_utils.py b/solutions_quantum/data4diagrams/train_utils.py
index dc65a9e..1014696 100644
--- a/solutions_quantum/data4diagrams/train_utils.py
+++ b/solutions_quantum/data4diagrams/train_utils.py
@@ -12,6 +12,13 @@ class TrainPath:
     def __str__(self):
         return str(self.number) + ' / ' + self.status + '\n'+ str(pd.DataFrame(self.path))
 
+def is_sampled(data):
+    "Is it realisation -> train -> station -> events, or train -> station -> events?"
+    return any(isinstance(event, dict)
+               for trains in data.values()
+               for stations in trains.values()
+               for event in stations.values())
+
 def arrival_for_sort(x):
     try:
         arrival = x['arrive']
-- 
2.43.0


From 72592448cd0f99582d60f8da33d96a8a128e04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:02:18 +0000
Subject: [PATCH 24/27] fix: list the conflicted train paths, not the resolved
 ones twice

---
 solutions_quantum/data4diagrams/read_quantum_pickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solutions_quantum/data4diagrams/read_quantum_pickle.py b/solutions_quantum/data4diagrams/read_quantum_pickle.py
index 6365eb3..5475b2b 100755
--- a/solutions_quantum/data4diagrams/read_quantum_pickle.py
+++ b/solutions_quantum/data4diagrams/read_quantum_pickle.py
@@ -23,7 +23,7 @@ else:
     kdtraindata = data
     
 for trainno in kdtraindata.keys():
-    for status in ('conflcted', 'resolved'):
+    for status in ('conflicted', 'resolved'):
         t = tu.kdtrain2trainpath(trainno, kdtraindata[trainno], status=status)
         print(t)
     print('----------------------------------------')
-- 
2.43.0


From 67662aa790122de7fecde8913d862df4371c3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:02:18 +0000
Subject: [PATCH 25/27] fix: positions of the stations behind Katowice Brynow
 on the Gliwice-Tychy segment

Each position was the previous one plus the distance from Katowice,
instead of the position of Katowice plus that distance.
---
 solutions_quantum/data4diagrams/railway_lines.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/solutions_quantum/data4diagrams/railway_lines.py b/solutions_quantum/data4diagrams/railway_lines.py
index 3781747..1fa665e 100644
--- a/solutions_quantum/data4diagrams/railway_lines.py
+++ b/solutions_quantum/data4diagrams/railway_lines.py
@@ -44,11 +44,11 @@ RAILWAYSEGMENTS={
                   {'name': 'Katowice Towarowa KTC', 'callsign': 'KTC', 'type': 'podg', 'km': 24.19},
                   {'name': 'Katowice', 'callsign': 'KO', 'type': 'st', 'km': 26.71},
                   {'name': 'Katowice Brynów', 'callsign': 'Bry', 'type': 'po', 'km': 30.59},
-                  {'name': 'Katowice Ligota', 'callsign': 'KL', 'type': 'st', 'km': 36.67},
-                  {'name': 'Katowice Piotrowice', 'callsign': 'KtP', 'type': 'po', 'km': 44.42},
-                  {'name': 'Katowice Podlesie', 'callsign': '', 'type': 'po', 'km': 55.77},
-                  {'name': 'Mąkołowiec', 'callsign': 'Mc', 'type': 'podg', 'km': 69.81},
-                  {'name': 'Tychy', 'callsign': 'Ty', 'type': 'st', 'km': 86.78}),
+                  {'name': 'Katowice Ligota', 'callsign': 'KL', 'type': 'st', 'km': 32.79},
+                  {'name': 'Katowice Piotrowice', 'callsign': 'KtP', 'type': 'po', 'km': 34.46},
+                  {'name': 'Katowice Podlesie', 'callsign': '', 'type': 'po', 'km': 38.06},
+                  {'name': 'Mąkołowiec', 'callsign': 'Mc', 'type': 'podg', 'km': 40.75},
+                  {'name': 'Tychy', 'callsign': 'Ty', 'type': 'st', 'km': 43.68}),
     '137138GLYKZ': ({'name': 'Gliwice', 'callsign': 'GLC', 'type': 'st', 'km': 0.0},
                     {'name': 'Zabrze', 'callsign': 'ZZ', 'type': 'st', 'km': 8.18},
                     {'name': 'Ruda Śląska', 'callsign': 'RSl', 'type': 'po', 'km': 12.5},
-- 
2.43.0


From 06c07f1a08467b3c878336af79b0d17236c94457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:36:27 +0000
Subject: [PATCH 26/27] fix: spell track 3 of Katowice in the station tables as
 in the network

The third track of KO was listed as '"KO","ST", 3, "(2)"' while the network
and the timetables write a space after the first comma, so the track belonged
to no station.
---
 data/KO_GLC/important_stations_KO_GLC.npz   | Bin 1040 -> 1041 bytes
 data/KO_GLC/important_stations_KO_GLC.py    |   2 +-
 data/KO_GLC/important_stations_KO_GLC_R.npz | Bin 1179 -> 1180 bytes
 data/KO_GLC/important_stations_KO_GLC_R.py  |   2 +-
 data/important_stations.npz                 | Bin 2053 -> 2054 bytes
 data/important_stations.py                  |   2 +-
 data/important_stations_Gt.npz              | Bin 2165 -> 2166 bytes
 data/important_stations_Gt.py               |   2 +-
 8 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/data/KO_GLC/important_stations_KO_GLC.npz b/data/KO_GLC/important_stations_KO_GLC.npz
index f7b844b9cd1269a5081e0e4c5adfb013e4347317..fe77912d9158b359b103fec9bc281300716c913b 100644
GIT binary patch
delta 98
zcmbQhF_FV0z?+#xgaHB+8SWhJYv^QVU;trG1`&qDqM~>My}W`-Mg{?}AV^{7Mw2*3
gE|4ZAZ+|5nh0U`WEtojrS|{IO)?+&YG=PBt0L-=&>i_@%

delta 97
zcmbQpF@eJ*z?+#xgaHB+8MrRVP3vH0U;trG1`&qDqM~>My}W`-Mg{?}AV^`yMw2*3
gPGKNR$=hE^XY(9J3nosu&dGO~_1F#r^)oO408b(kiU0rr

diff --git a/data/KO_GLC/important_stations_KO_GLC.py b/data/KO_GLC/important_stations_KO_GLC.py
index 2ce7a2a..88a15ca 100644
--- a/data/KO_GLC/important_stations_KO_GLC.py
+++ b/data/KO_GLC/important_stations_KO_GLC.py
@@ -6,7 +6,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
diff --git a/data/KO_GLC/important_stations_KO_GLC_R.npz b/data/KO_GLC/important_stations_KO_GLC_R.npz
index df894c792e06e36be79ed23acbd3990cbb7519ab..44784c07971555e644bb831e100a12a7cddb75a6 100644
GIT binary patch
delta 98
zcmbQuIfv6Ez?+#xgaHB+8M6Po3X8BXFn};8g9t-nQBk~sUS2^ZBZB}~5TsCKqe&bi
g7f6$mx4)8(!sgkGhnYCxS|_Ko=&|_&4PamZ01BQE761SM

delta 97
zcmbQkIh)fYz?+#xgaHB+8LoWW5h={VzyQLW3?dAPMMd!jdU*wvj0^%`L6Ab>jV5u7
goWekslDEH-&gMCchnYCxIwxna=&|_$^)oO40At<~ApigX

diff --git a/data/KO_GLC/important_stations_KO_GLC_R.py b/data/KO_GLC/important_stations_KO_GLC_R.py
index 9aab44b..f574e36 100644
--- a/data/KO_GLC/important_stations_KO_GLC_R.py
+++ b/data/KO_GLC/important_stations_KO_GLC_R.py
@@ -6,7 +6,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
diff --git a/data/important_stations.npz b/data/important_stations.npz
index 16da4d2cf1d226e29af8f2ed23e4f8218c578d74..d466c33993ea7b7046fa9a64773d2cc690c0b945 100644
GIT binary patch
delta 98
zcmZn_XcI6A@MdNaVSoTd2Ej(VrFHBK3?R(OAi|JXR1|NZmse29$RGd~1SzcBXmW#*
g3#3WO+h0jXVY4XHW>!wP*2x#y_1Ja-4PamZ09xM?r~m)}

delta 97
zcmZn@XcaIC@MdNaVSoTdhMYLd*R|{n3?R(OAi|JXR1|NZmse29$RGd~1SzcDXmW#*
fQy9on^7dEK*(}DinUxc+bMhs2J+>V{{R|8McQX@n

diff --git a/data/important_stations.py b/data/important_stations.py
index 70e3f2e..d18437d 100644
--- a/data/important_stations.py
+++ b/data/important_stations.py
@@ -10,7 +10,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
diff --git a/data/important_stations_Gt.npz b/data/important_stations_Gt.npz
index a46f2d713ed7ed7beb60fb18c98e4a67bef8b194..99007484da843e228f30abf45401ddbec4e2c0ad 100644
GIT binary patch
delta 98
zcmew=@J+xZz?+#xgaHB+8MaiWdcI?4U;trG1`&qDqM~>My}W`-Mg{?}AV}f6jV3o3
fxj>qfy#1AQ6gG=8DYJ3HwN7^A&|}l&0I383H*gh4

delta 97
zcmew+@KwMhz?+#xgaHB+8UEj2JK-%m0|N+iGKerF78S)C=;akuGBOB&1wjhmZZx^U
f$SDkDDS7)V>1-BbQfA|X>zwSwp~t4d0a6G6nxGe;

diff --git a/data/important_stations_Gt.py b/data/important_stations_Gt.py
index 4b7c298..e096399 100644
--- a/data/important_stations_Gt.py
+++ b/data/important_stations_Gt.py
@@ -10,7 +10,7 @@ important_stations = {
 
 "KO":['"KO", "ST", 9, "(1)"',
 '"KO", "ST", 7, "(1)"',
-'"KO","ST", 3, "(2)"',
+'"KO", "ST", 3, "(2)"',
 '"KO", "ST", 1, "(2)"',
 '"KO", "ST", 2, "(3)"',
 '"KO", "ST", 4, "(3)"',
-- 
2.43.0


From 360528221c40347449e7da8878937e0f96039832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:37:03 +0000
Subject: [PATCH 27/27] fix: arrival at Ruda Slaska in the second KO-RCB-ZZ-GLC
 timetable

The train arrived at 14:33 although it had left Ruda Chebzie at 15:31 and
departs at 15:33.
---
 data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv b/data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv
index 4df7279..b96c001 100644
--- a/data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv
+++ b/data/KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv
@@ -110,7 +110,7 @@ from Katowice;;;;;;;
 """CB-RCB-3"", ""SBL+Sem(ST)"", 1, ""3"", ""(3)""";R;;;;;;
 """RCB"", ""ST"", 1, ""(1)""";R;15:29;15:31;;Ruda Chebzie;;
 """RCB-ZZ-1"", ""SBL"", 1, ""1"", ""(4)""";R;;;;;;
-"""RCB-ZZ-2"", ""SBL+PO(Ruda Śląska)"", 1, ""2"", ""(4)""";R;14:33;15:33;;Ruda Śląska;;
+"""RCB-ZZ-2"", ""SBL+PO(Ruda Śląska)"", 1, ""2"", ""(4)""";R;15:33;15:33;;Ruda Śląska;;
 """RCB-ZZ-3"", ""SBL"", 1, ""3"", ""(4)""";R;;;;;;
 """RCB-ZZ-4"", ""SBL+Sem(ST)"", 1, ""4"", ""(4)""";R;;;;;;
 """ZZ"", ""ST"", 1, ""(1)""";R;15:38;15:40;;Zabrze;;
-- 
2.43.0

