From 85cec6448d3e5bd625663ce3f90d2bc04063bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 01/31] fix: report an empty planning as feasible instead of
 raising TypeError

---
 jinete/models/plannings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/plannings.py b/jinete/models/plannings.py
index d489f89..df171ff 100644
--- a/jinete/models/plannings.py
+++ b/jinete/models/plannings.py
@@ -74,7 +74,7 @@ class Planning(Model):
 
     @property
     def feasible(self) -> bool:
-        return reduce(and_, (route.feasible for route in self.routes))
+        return reduce(and_, (route.feasible for route in self.routes), True)
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
         yield from (("uuid", self.uuid), ("route_identifiers", tuple(route.identifier for route in self.routes)))
-- 
2.43.0


From 74f53ab44d1d17b2cec03fdc330d0a54ea45eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 02/31] fix: drop the cached feasibility of a stop when it is
 flushed

---
 jinete/models/stops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index bb3833f..26da533 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -227,6 +227,7 @@ class Stop(Model):
             "arrival_time",
             "departure_time",
             "capacity",
+            "feasible",
         ):
             self.__dict__.pop(key, None)
         for planned_trip in self.planned_trips:
-- 
2.43.0


From 3b981099f9ba1477cf01d2abfac79dde5a7d3daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 03/31] fix: pass the candidates of the best stateless iterator
 as one iterable

---
 jinete/algorithms/heuristics/insertion/iterators/stateless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/stateless.py b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
index e0a5c4e..385ff35 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/stateless.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
@@ -55,7 +55,7 @@ class BestStatelessInsertionIterator(StatelessInsertionIterator):
         self.random = Random(seed)
 
     def __next__(self) -> Route:
-        candidates = self._criterion.nbest(self.randomized_size, *self.iterator)
+        candidates = self._criterion.nbest(self.randomized_size, self.iterator)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From e1803605b27839476f2c5053f35b138e01c6ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 04/31] fix: delay the departure from the depot by the waiting
 time

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 1d5b068..b39d306 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -69,7 +69,7 @@ class InsertionStrategy(object):
 
     def _improve_ride_times(self, route: Route, idx: int) -> None:
         if route.stops[1].waiting_time != 0:
-            route.stops[0].starting_time = route.stops[1].waiting_time
+            route.stops[0].starting_time += route.stops[1].waiting_time
             route.stops[0].flush(), route.stops[1].flush()
 
         if route.feasible:
-- 
2.43.0


From 61070d4d589288aa206bbd0411547efc6ed7d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 05/31] fix: do not modify the source route while computing
 insertions

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index b39d306..2e00788 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -55,7 +55,8 @@ class InsertionStrategy(object):
         return routes
 
     def _compute_one(self, route: Route, trip: Trip, previous_idx: int, following_idx: int, *args, **kwargs) -> Route:
-        cloner = RouteCloner(route, previous_idx + 1)
+        # Delaying the first departure modifies the first stop, so it can not be shared with the source route.
+        cloner = RouteCloner(route, 0 if route.stops[1].waiting_time != 0 else previous_idx + 1)
         route = cloner.clone()
 
         pickup = self._build_pickup(route, trip, previous_idx)
-- 
2.43.0


From 3334fc9ab9503a52bc26ca64bafed4d2e2cb220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 06/31] fix: flush the whole route after flipping two stops

---
 .../heuristics/local_search/strategies/routes/one_shift.py     | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
index 67ed11e..831e008 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
@@ -48,5 +48,4 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         other.previous = previous.previous
         previous.previous = other
 
-        for stop in route.stops[self_index:]:
-            stop.flush()
+        route.flush()
-- 
2.43.0


From fd03ba60e6ff43441111e6b5868bdbc0786a7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:13 +0000
Subject: [PATCH 07/31] fix: keep a single improved route per vehicle on the
 two-opt strategy

---
 .../heuristics/local_search/strategies/routes/two_opt.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index 8a73514..1ac1cdf 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -19,6 +19,7 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
         for route in self._routes:
             logger.info(f'Improving route performed with vehicle identified by "{route.vehicle_identifier}"...')
             cost = self._objective.optimization_function(route)
+            best_route = None
 
             for i, k in combinations(range(1, len(route.stops) - 1), 2):
                 j = k + 1
@@ -53,7 +54,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                     continue
 
                 logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{cost}"')
-                overwritten_routes.add(new_route)
+                best_route = new_route
                 cost = new_cost
 
+            if best_route is not None:
+                overwritten_routes.add(best_route)
+
         self._update_routes(overwritten_routes)
-- 
2.43.0


From 69266ea5fa3fefb76fe58093201288b96e33b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:25 +0000
Subject: [PATCH 08/31] fix: always insert over the current route of each
 attractive vehicle

---
 .../algorithms/heuristics/insertion/iterators/abc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index bbad14f..b482c9d 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -77,7 +77,7 @@ class InsertionIterator(ABC):
         self.fleet = fleet
         self.job = job
         self.routes_container = {route.vehicle: route for route in routes}
-        self.__attractive_routes = None
+        self.__attractive_vehicles = None
         self.pending_trips = pending_trips
 
         self.strategy_cls = strategy_cls
@@ -92,14 +92,14 @@ class InsertionIterator(ABC):
 
     @property
     def _attractive_routes(self) -> Set[Route]:
-        if self.__attractive_routes is None:
-            self.__attractive_routes = set(route for route in self._routes if any(route.planned_trips))
+        if self.__attractive_vehicles is None:
+            self.__attractive_vehicles = set(route.vehicle for route in self._routes if any(route.planned_trips))
 
-        if not any(any(route.planned_trips) for route in self.__attractive_routes):
+        if all(any(self.routes_container[vehicle].planned_trips) for vehicle in self.__attractive_vehicles):
             empty_route = next((route for route in self._routes if not any(route.planned_trips)), None)
             if empty_route is not None:
-                self.__attractive_routes.add(empty_route)
-        return self.__attractive_routes
+                self.__attractive_vehicles.add(empty_route.vehicle)
+        return set(self.routes_container[vehicle] for vehicle in self.__attractive_vehicles)
 
     def _set_route(self, route: Route) -> None:
         vehicle = route.vehicle
-- 
2.43.0


From 58afb03f193a6e48fd01bd3a2b3d1b4d29b17b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 09/31] fix: replace the stored file atomically so that a
 failed store keeps the previous one

---
 jinete/storers/file.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/jinete/storers/file.py b/jinete/storers/file.py
index fbf1151..fdf5916 100644
--- a/jinete/storers/file.py
+++ b/jinete/storers/file.py
@@ -1,8 +1,15 @@
 """The set of definitions to store results in filesystems."""
 
+import os
 from pathlib import (
     Path,
 )
+from shutil import (
+    copymode,
+)
+from uuid import (
+    uuid4,
+)
 
 from .abc import (
     Storer,
@@ -24,6 +31,29 @@ class FileStorer(Storer):
 
     def store(self) -> None:
         """Perform a storage process."""
-        with self.file_path.open("w") as file:
-            text = self._formatted
+        text = self._formatted
+
+        if self.file_path.exists() and not self.file_path.is_file():
+            # Devices, pipes, etc. can only be written in place.
+            self._write(self.file_path, text)
+            return
+
+        file_path = self.file_path.resolve()
+        temporary_path = file_path.with_name(f".{uuid4().hex}.tmp")
+        try:
+            self._write(temporary_path, text, sync=True)
+            if file_path.exists():
+                copymode(str(file_path), str(temporary_path))
+            temporary_path.replace(file_path)
+        except BaseException:
+            if temporary_path.exists():
+                temporary_path.unlink()
+            raise
+
+    @staticmethod
+    def _write(file_path: Path, text: str, sync: bool = False) -> None:
+        with file_path.open("w") as file:
             file.write(text)
+            if sync:
+                file.flush()
+                os.fsync(file.fileno())
-- 
2.43.0


From ca901581a9a76b973abb23aa974d18297faed3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 10/31] fix: round the binary variables of the linear model
 instead of truncating them

---
 jinete/algorithms/exacts/models/three_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index a558f83..04eaaf5 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -422,7 +422,7 @@ class ThreeIndexLinearModel(LinearModel):
 
         positions = list()
         for i, j in product(ordered_trip_indexes, self._positions_indexer):
-            if not int(self._x[k][i][j].varValue) == 1:
+            if not round(self._x[k][i][j].varValue) == 1:
                 continue
             positions.append(self._positions[i])
         return positions
-- 
2.43.0


From a94255c16a68a95cad91017e3669ad1a7d60f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:42 +0000
Subject: [PATCH 11/31] fix: raise an exception when the linear model has not
 been solved

---
 jinete/algorithms/exacts/models/three_index.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 04eaaf5..fab1a4b 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -19,6 +19,9 @@ import pulp as lp
 from cached_property import (
     cached_property,
 )
+from jinete.exceptions import (
+    JineteException,
+)
 from jinete.models import (
     PlannedTrip,
     Route,
@@ -332,6 +335,9 @@ class ThreeIndexLinearModel(LinearModel):
         logger.info("Starting to solve...")
         self._problem.solve(self.solver)
 
+        if self._problem.status != lp.LpStatusOptimal:
+            raise JineteException(f'Could not be solved due to "{lp.LpStatus[self._problem.status]}" status.')
+
         self._validate()
         logger.info(f'Obtained "{lp.value(self._objective)}" reaching "{lp.LpStatus[self._problem.status]}".')
         return self._solution_to_routes()
-- 
2.43.0


From c551a000679ec05fd6119e0c7417ba7575efecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 12/31] fix: rebuild the routes of the linear model by node
 instead of by position

---
 .../algorithms/exacts/models/three_index.py   | 105 +++++-------------
 1 file changed, 30 insertions(+), 75 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index fab1a4b..612b8fc 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -5,9 +5,6 @@ from __future__ import (
 )
 
 import logging
-from collections import (
-    defaultdict,
-)
 from itertools import (
     product,
 )
@@ -39,7 +36,6 @@ if TYPE_CHECKING:
         Tuple,
         Iterable,
         Optional,
-        Dict,
     )
     from jinete.models import (
         Trip,
@@ -190,20 +186,14 @@ class ThreeIndexLinearModel(LinearModel):
             return None
         return self._trips[(idx % self._n) - 1]
 
-    def _idx_by_position(self, position: Position):
-        return self._positions.index(position)
-
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
-        position = self._positions[idx]
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             earliest, latest = 0, 1440
-        elif position == trip.origin_position:
+        elif idx in self._pickups_indexer:
             earliest, latest = trip.origin_earliest, trip.origin_latest
-        elif position == trip.destination_position:
-            earliest, latest = trip.destination_earliest, trip.destination_latest
         else:
-            raise Exception("There was a problem related with earliest, latest indices.")
+            earliest, latest = trip.destination_earliest, trip.destination_latest
         return earliest, latest
 
     def _capacity_by_position_idx(self, idx: int) -> float:
@@ -385,73 +375,38 @@ class ThreeIndexLinearModel(LinearModel):
         logger.info("Casting solution to a set of routes...")
         routes = set()
         for k in self._routes_indexer:
-            vehicle = self._vehicles[k]
-            route = Route(vehicle)
-
-            positions = self._solution_to_positions(k)
-            stops = self._positions_to_stops(route, positions)
-            trips = self._positions_to_trips(positions)
+            route = Route(self._vehicles[k])
 
-            self._build_planned_trips(vehicle, trips, stops)
-            self._adjust_waiting_times(stops, k)
-
-            for stop in stops:
+            for stop in self._idxs_to_stops(route, k, self._solution_to_idxs(k)):
                 route.insert_stop(stop)
 
             routes.add(route)
         return routes
 
-    def _positions_to_trips(self, positions) -> List[Trip]:
-        trips: List[Trip] = list()
-        for position in positions:
-            trip = next((trip for trip in self._trips if trip.origin_position == position), None)
-            if trip is None:
-                continue
-            if trip in trips:
-                continue
-            trips.append(trip)
-        return trips
-
-    def _build_planned_trips(self, vehicle: Vehicle, trips: List[Trip], stops: List[Stop]) -> List[PlannedTrip]:
-        stop_mapper = self._stop_to_stop_mapper(stops)
-
-        planned_trips = list()
-        for trip in trips:
-            pickup = stop_mapper[trip.origin_position].pop(0)
-            delivery = stop_mapper[trip.destination_position].pop(0)
-            planned_trip = PlannedTrip(vehicle, trip, pickup, delivery)
-            planned_trips.append(planned_trip)
-        return planned_trips
-
-    def _solution_to_positions(self, k: int) -> List[Position]:
-        ordered_trip_indexes = [idx for idx in sorted(range(len(self._u[k])), key=lambda x: self._u[k][x].varValue)]
-
-        positions = list()
-        for i, j in product(ordered_trip_indexes, self._positions_indexer):
-            if not round(self._x[k][i][j].varValue) == 1:
-                continue
-            positions.append(self._positions[i])
-        return positions
-
-    @staticmethod
-    def _positions_to_stops(route, positions) -> List[Stop]:
-        stops = [route.first_stop]
-        for position in positions:
-            if position == stops[-1].position:
-                continue
-            pickup = Stop(route.vehicle, position, stops[-1])
-            stops.append(pickup)
+    def _solution_to_idxs(self, k: int) -> List[int]:
+        idxs = list()
+        current = 0
+        while len(idxs) < len(self._positions):
+            current = next((j for j in self._positions_indexer if round(self._x[k][current][j].varValue) == 1), None)
+            if current is None or current not in self._nodes_indexer:
+                break
+            idxs.append(current)
+        return idxs
+
+    def _idxs_to_stops(self, route: Route, k: int, idxs: List[int]) -> List[Stop]:
+        first_stop = route.first_stop
+        first_stop.starting_time = float(self._u[k][0].varValue)
+
+        stops = [first_stop]
+        pickups = dict()
+        for idx in idxs:
+            starting_time = float(self._u[k][idx].varValue)
+            stop = Stop(route.vehicle, self._positions[idx], stops[-1], starting_time=starting_time)
+            stops.append(stop)
+
+            trip = self._trip_by_position_idx(idx)
+            if idx in self._pickups_indexer:
+                pickups[trip] = stop
+            else:
+                PlannedTrip(route.vehicle, trip, pickups[trip], stop)
         return stops
-
-    @staticmethod
-    def _stop_to_stop_mapper(stops: List[Stop]) -> Dict[Position, List[Stop]]:
-        mapper: Dict[Position, List[Stop]] = defaultdict(list)
-        for stop in stops:
-            mapper[stop.position].append(stop)
-        return mapper
-
-    def _adjust_waiting_times(self, stops: List[Stop], k: int):
-        starting_times = tuple(float(u_k.varValue) for u_k in self._u[k])
-        for stop in stops:
-            stop.flush()
-            stop.starting_time = starting_times[self._idx_by_position(stop.position)]
-- 
2.43.0


From f79c6726e9cc5621150a566c677574571ce23301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 13/31] fix: use the duration of the destination on the
 delivery nodes of the linear model

---
 jinete/algorithms/exacts/models/three_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 612b8fc..3886fe7 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -211,7 +211,7 @@ class ThreeIndexLinearModel(LinearModel):
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             return 0
-        return trip.origin_duration
+        return trip.origin_duration if idx in self._pickups_indexer else trip.destination_duration
 
     def _timeout_by_position_idx(self, idx: int) -> float:
         trip = self._trip_by_position_idx(idx)
-- 
2.43.0


From 42b3b190ef7205e268203f2ebac2179078cf06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:24 +0000
Subject: [PATCH 14/31] fix: forbid the arcs of the linear model which can not
 be part of a route

---
 jinete/algorithms/exacts/models/three_index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 3886fe7..1bd845e 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -252,6 +252,10 @@ class ThreeIndexLinearModel(LinearModel):
             lhs = lp.lpSum(self._x[k][i][-1] for i in self._positions_indexer)
             constraints.append(lhs == 1)
 
+            # Self loops, arcs to the initial depot and arcs from the final depot can not be part of a route.
+            for i in self._positions_indexer:
+                constraints.append(self._x[k][i][i] + self._x[k][i][0] + self._x[k][-1][i] == 0)
+
         return constraints
 
     @cached_property
-- 
2.43.0


From 36475d7015b7bf9fd59768006890498ac94428a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 15/31] fix: measure the computation time with a monotonic
 clock

---
 jinete/algorithms/abc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/abc.py b/jinete/algorithms/abc.py
index 4ed3f4b..c32105a 100644
--- a/jinete/algorithms/abc.py
+++ b/jinete/algorithms/abc.py
@@ -10,7 +10,7 @@ from abc import (
     abstractmethod,
 )
 from time import (
-    time,
+    perf_counter,
 )
 from typing import (
     TYPE_CHECKING,
@@ -60,9 +60,9 @@ class Algorithm(ABC):
         """
         logger.info(f"Optimizing with {self.__class__.__name__}...")
 
-        start_time = time()
+        start_time = perf_counter()
         planning = self._optimize()
-        end_time = time()
+        end_time = perf_counter()
         computation_time = end_time - start_time
 
         result = Result(algorithm=self, planning=planning, computation_time=computation_time,)
-- 
2.43.0


From 8446839d0207aae9a0d6b23fdea290cef5010ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 16/31] fix: reject HashCode instances whose number of rides is
 not the declared one

---
 jinete/loaders/formatters/hashcode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jinete/loaders/formatters/hashcode.py b/jinete/loaders/formatters/hashcode.py
index ee20fb9..76dd1b3 100644
--- a/jinete/loaders/formatters/hashcode.py
+++ b/jinete/loaders/formatters/hashcode.py
@@ -16,6 +16,9 @@ from ...models import (
 from .abc import (
     LoaderFormatter,
 )
+from .exceptions import (
+    LoaderFormatterException,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -50,6 +53,8 @@ class HashCodeLoaderFormatter(LoaderFormatter):
         """
         bonus = self.data[0][4]
         rows = self.data[1:]
+        if len(rows) != self.data[0][3]:
+            raise LoaderFormatterException(f'Expected "{self.data[0][3]:.0f}" rides but there are "{len(rows)}".')
         trips = set(self._build_trip(surface, str(i), bonus, *row) for i, row in enumerate(rows))
 
         kwargs["objective_cls"] = HashCodeObjective
-- 
2.43.0


From f01ec082d05d385991ddc97bbbaba1d5fe766201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 17/31] fix: draw the reallocation candidates from a seeded
 generator

---
 .../local_search/strategies/plannings/reallocation.py    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
index feb0598..2ea6c58 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/plannings/reallocation.py
@@ -1,5 +1,8 @@
 import itertools as it
 import logging
+from random import (
+    Random,
+)
 
 from jinete.utils import (
     sample_index_pairs,
@@ -13,6 +16,10 @@ logger = logging.getLogger(__name__)
 
 
 class ReallocationLocalSearchStrategy(LocalSearchStrategy):
+    def __init__(self, *args, seed: int = 56, **kwargs):
+        super().__init__(*args, **kwargs)
+        self.random = Random(seed)
+
     def _improve(self) -> None:
         from ....insertion import InsertionStrategy  # FIXME Should this import come from "insertion" module?
 
@@ -37,7 +44,7 @@ class ReallocationLocalSearchStrategy(LocalSearchStrategy):
 
                 partial_cost_origin = partial_cost + self._objective.optimization_function(new_origin)[-1]
 
-                for i, j in sample_index_pairs(len(destination.stops), 128):
+                for i, j in sample_index_pairs(len(destination.stops), 128, self.random):
                     destinations = strategy.compute(destination, trip, i, j)
                     if not any(destinations):
                         continue
-- 
2.43.0


From 65c762abc658ba101d7d92a06e970b028277731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 18/31] fix: draw each graph on its own figure

---
 jinete/storers/plots/graph.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/jinete/storers/plots/graph.py b/jinete/storers/plots/graph.py
index 4d0623b..37f9b4a 100644
--- a/jinete/storers/plots/graph.py
+++ b/jinete/storers/plots/graph.py
@@ -96,14 +96,18 @@ class GraphPlotStorer(Storer):
         edge_color = [metadata["color"] for metadata in graph.edges.values()]
         edge_labels = {edge: metadata["label"] for edge, metadata in graph.edges.items()}
 
-        nx.draw(graph, pos=pos, edge_color=edge_color, node_size=100)
-        nx.draw_networkx_labels(graph, pos, labels=node_labels, font_size=5, font_color="white")
-        nx.draw_networkx_edge_labels(graph, pos, edge_labels=edge_labels)
-
-        if self.file_path is not None:
-            plt.savefig(str(self.file_path))
-        else:
-            plt.show()
+        figure = plt.figure()
+        try:
+            nx.draw(graph, pos=pos, edge_color=edge_color, node_size=100)
+            nx.draw_networkx_labels(graph, pos, labels=node_labels, font_size=5, font_color="white")
+            nx.draw_networkx_edge_labels(graph, pos, edge_labels=edge_labels)
+
+            if self.file_path is not None:
+                plt.savefig(str(self.file_path))
+            else:
+                plt.show()
+        finally:
+            plt.close(figure)
 
     def store(self) -> None:
         """Perform a storage process."""
-- 
2.43.0


From ab1a0c4fafc6ce962775475c84ea970a40466504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:11 +0000
Subject: [PATCH 19/31] fix: drop the cached feasibility of a route when its
 stops change

---
 jinete/models/routes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 3f3dba2..9a17426 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,8 +251,9 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
-        for stop in self.stops[idx:]:
-            stop.flush()
+        self.__dict__.pop("feasible", None)
+        for flushed_stop in self.stops[idx:]:
+            flushed_stop.flush()
 
         return stop
 
@@ -265,6 +266,7 @@ class Route(Model):
 
         removed_stop = self.stops.pop(idx)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
         return removed_stop
-- 
2.43.0


From bb56ce70dbbb1ab68ca414f0efb6be18214ed118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 20/31] fix: keep the route unchanged when the delivery of a
 planned trip can not be inserted

---
 jinete/models/routes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 9a17426..a6fbd8c 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -278,7 +278,11 @@ class Route(Model):
         assert all(s1.departure_time <= s2.arrival_time for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
 
         self.insert_stop(planned_trip.pickup)
-        self.insert_stop(planned_trip.delivery)
+        try:
+            self.insert_stop(planned_trip.delivery)
+        except Exception:
+            self.remove_stop_at(self.stops.index(planned_trip.pickup))
+            raise
 
         assert all(s1 == s2.previous for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
         assert all(s1.departure_time <= s2.arrival_time for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
-- 
2.43.0


From a31dd0e50bc8af8d046e29f4c3685beb037003e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 21/31] fix: report a full coverage when there are no trips
 instead of raising ZeroDivisionError

---
 jinete/models/results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/results.py b/jinete/models/results.py
index 79fdd8d..f70e528 100644
--- a/jinete/models/results.py
+++ b/jinete/models/results.py
@@ -78,6 +78,8 @@ class Result(Model):
 
     @property
     def coverage_rate(self):
+        if len(self.job.trips) == 0:
+            return 1.0
         return len(self.completed_trips) / len(self.job.trips)
 
     @property
-- 
2.43.0


From 8bb41edf1a8c3501ed1db2addaf400edfcecdcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 22/31] fix: drop every cached time after delaying the
 departure from the depot

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 2e00788..0d09f0a 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -71,7 +71,7 @@ class InsertionStrategy(object):
     def _improve_ride_times(self, route: Route, idx: int) -> None:
         if route.stops[1].waiting_time != 0:
             route.stops[0].starting_time += route.stops[1].waiting_time
-            route.stops[0].flush(), route.stops[1].flush()
+            route.flush()
 
         if route.feasible:
             return
-- 
2.43.0


From 53b74c421eeb9b87eacfd832078cdfbbf16e56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 23/31] fix: open also the vehicles of the fleet without a
 route on warm starts

---
 jinete/algorithms/heuristics/insertion/iterators/abc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index b482c9d..0179793 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -74,6 +74,9 @@ class InsertionIterator(ABC):
             for route in routes:
                 pending_trips -= set(route.trips)
 
+            vehicles = set(route.vehicle for route in routes)
+            routes = set(routes) | set(Route(vehicle) for vehicle in fleet.vehicles if vehicle not in vehicles)
+
         self.fleet = fleet
         self.job = job
         self.routes_container = {route.vehicle: route for route in routes}
-- 
2.43.0


From 67ad0c35f543c9a5edc96f756996e55e1177288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 24/31] fix: do not keep the departure time of emptied routes
 on warm starts

---
 jinete/algorithms/heuristics/insertion/iterators/abc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index 0179793..03b289e 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -74,8 +74,10 @@ class InsertionIterator(ABC):
             for route in routes:
                 pending_trips -= set(route.trips)
 
+            # The vehicles without trips start from scratch, as their routes could have an outdated departure time.
+            routes = set(route for route in routes if any(route.planned_trips))
             vehicles = set(route.vehicle for route in routes)
-            routes = set(routes) | set(Route(vehicle) for vehicle in fleet.vehicles if vehicle not in vehicles)
+            routes |= set(Route(vehicle) for vehicle in fleet.vehicles if vehicle not in vehicles)
 
         self.fleet = fleet
         self.job = job
-- 
2.43.0


From 268c0224bee55cd18cad35c0f43bc47b2afad442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:30 +0000
Subject: [PATCH 25/31] fix: do not link the second stop to the last one when
 the first one is removed

---
 jinete/models/routes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index a6fbd8c..a12a3cb 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -258,7 +258,7 @@ class Route(Model):
         return stop
 
     def remove_stop_at(self, idx: int) -> Stop:
-        previous_stop = self.stops[idx - 1]
+        previous_stop = self.stops[idx - 1] if idx > 0 else None
         following_stop = self.stops[idx + 1] or None
 
         if following_stop is not None:
-- 
2.43.0


From 1369c3bef500ea951ca1fbdc4514114e48312485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:13 +0000
Subject: [PATCH 26/31] fix: read the file again after a load that failed

---
 jinete/loaders/file.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/jinete/loaders/file.py b/jinete/loaders/file.py
index 3f8922d..774dbdd 100644
--- a/jinete/loaders/file.py
+++ b/jinete/loaders/file.py
@@ -21,6 +21,9 @@ from .abc import (
 )
 
 if TYPE_CHECKING:
+    from typing import (
+        Tuple,
+    )
     from ..models import (
         Job,
         Surface,
@@ -58,25 +61,32 @@ class FileLoader(Loader):
         return data
 
     @cached_property
+    def _instance(self) -> Tuple[Fleet, Job, Surface]:
+        # Nothing is kept from a file that can not be loaded completely, so that it is read again on the next attempt.
+        formatter = self._formatter_cls(self._data)
+        surface = formatter.surface()
+        return formatter.fleet(surface=surface), formatter.job(surface=surface), surface
+
+    @property
     def fleet(self) -> Fleet:
         """Retrieve the fleet object for the current on load instance.
 
         :return: A surface instance from the loaded instance.
         """
-        return self._formatter.fleet(surface=self.surface)
+        return self._instance[0]
 
-    @cached_property
+    @property
     def job(self) -> Job:
         """Retrieve the job object for the current on load instance.
 
         :return: A surface instance from the loaded instance.
         """
-        return self._formatter.job(surface=self.surface)
+        return self._instance[1]
 
-    @cached_property
+    @property
     def surface(self) -> Surface:
         """Retrieve the surface object for the current on load instance.
 
         :return: A surface instance from the loaded instance.
         """
-        return self._formatter.surface()
+        return self._instance[2]
-- 
2.43.0


From f15293fb4fc3f931aa1cabd30952d46fa77c3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:15 +0000
Subject: [PATCH 27/31] fix: reject linear solutions which do not serve all the
 trips

---
 jinete/algorithms/exacts/models/three_index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 1bd845e..90ebb13 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -385,6 +385,10 @@ class ThreeIndexLinearModel(LinearModel):
                 route.insert_stop(stop)
 
             routes.add(route)
+
+        served = set(planned_trip.trip for route in routes for planned_trip in route.planned_trips)
+        if served != set(self._trips):
+            raise JineteException("The obtained solution does not serve all the trips.")
         return routes
 
     def _solution_to_idxs(self, k: int) -> List[int]:
-- 
2.43.0


From c2837967dcc038063faf1f4eba6d719cada23684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:30 +0000
Subject: [PATCH 28/31] fix: validate the linear solutions also on optimized
 executions

---
 jinete/algorithms/exacts/models/three_index.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 90ebb13..46343ee 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -363,17 +363,24 @@ class ThreeIndexLinearModel(LinearModel):
             print()
 
     def _validate(self):
+        # Explicit checks, as assertions are skipped on optimized executions.
         for k in self._routes_indexer:
             for i in self._positions_indexer:
                 logger.info(f'Obtained "u[{k}][{i}]={self._u[k][i].varValue}".')
-                assert self._u[k][i].varValue >= 0.0
+                self._check(self._u[k][i], self._u[k][i].varValue >= 0.0)
 
                 logger.info(f'Obtained "w[{k}][{i}]={self._w[k][i].varValue}".')
-                assert self._w[k][i].varValue >= 0.0
+                self._check(self._w[k][i], self._w[k][i].varValue >= 0.0)
 
                 for j in self._positions_indexer:
-                    logger.info(f'Obtained "x[{k}][{i}][{j}]={self._x[k][i][j].varValue}".')
-                    assert min(abs(self._x[k][i][j].varValue), abs(self._x[k][i][j].varValue - 1)) <= 0.05
+                    x = self._x[k][i][j]
+                    logger.info(f'Obtained "x[{k}][{i}][{j}]={x.varValue}".')
+                    self._check(x, min(abs(x.varValue), abs(x.varValue - 1)) <= 0.05)
+
+    @staticmethod
+    def _check(variable: lp.LpVariable, valid: bool) -> None:
+        if not valid:
+            raise JineteException(f'The obtained "{variable.name}={variable.varValue}" is not valid.')
 
     def _solution_to_routes(self):
         logger.info("Casting solution to a set of routes...")
-- 
2.43.0


From 6c33f22c1bdd1a2245ec44dfc73cb50b38b4aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:56 +0000
Subject: [PATCH 29/31] fix: accept linear solutions whose values are off by
 the tolerance of the solver

---
 jinete/algorithms/exacts/models/three_index.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 46343ee..da09d6a 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -25,6 +25,10 @@ from jinete.models import (
     Stop,
 )
 
+from jinete.models.constants import (
+    ERROR_BOUND,
+)
+
 from .abc import (
     LinearModel,
 )
@@ -367,10 +371,10 @@ class ThreeIndexLinearModel(LinearModel):
         for k in self._routes_indexer:
             for i in self._positions_indexer:
                 logger.info(f'Obtained "u[{k}][{i}]={self._u[k][i].varValue}".')
-                self._check(self._u[k][i], self._u[k][i].varValue >= 0.0)
+                self._check(self._u[k][i], self._u[k][i].varValue >= -ERROR_BOUND)
 
                 logger.info(f'Obtained "w[{k}][{i}]={self._w[k][i].varValue}".')
-                self._check(self._w[k][i], self._w[k][i].varValue >= 0.0)
+                self._check(self._w[k][i], self._w[k][i].varValue >= -ERROR_BOUND)
 
                 for j in self._positions_indexer:
                     x = self._x[k][i][j]
-- 
2.43.0


From 1cd577358be9587f8cb47f695db9bf4d097733ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 30/31] fix: reject linear solutions whose routes are not
 feasible

---
 jinete/algorithms/exacts/models/three_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index da09d6a..31ddcf3 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -400,6 +400,8 @@ class ThreeIndexLinearModel(LinearModel):
         served = set(planned_trip.trip for route in routes for planned_trip in route.planned_trips)
         if served != set(self._trips):
             raise JineteException("The obtained solution does not serve all the trips.")
+        if not all(route.feasible for route in routes):
+            raise JineteException("The obtained solution is not feasible.")
         return routes
 
     def _solution_to_idxs(self, k: int) -> List[int]:
-- 
2.43.0


From 01e85d4e72a0e7f6cc3294c4039c565f528b0796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:08 +0000
Subject: [PATCH 31/31] fix: consider all the pending trips when those of the
 neighborhood can not be inserted

---
 .../heuristics/insertion/iterators/ranking.py   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/ranking.py b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
index d8845ae..d107fc9 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/ranking.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/ranking.py
@@ -62,13 +62,22 @@ class RankingInsertionIterator(InsertionIterator):
         if vehicle is planned_trip.vehicle or vehicle not in self.ranking:
             self.ranking[vehicle] = self._create_sub_ranking(self.routes_container[vehicle])
         else:
-            self.ranking[vehicle] = [route for route in self.ranking[vehicle] if planned_trip.trip not in route.trips]
+            old_sub_ranking = self.ranking[vehicle]
+            self.ranking[vehicle] = [route for route in old_sub_ranking if planned_trip.trip not in route.trips]
+            if any(old_sub_ranking) and not any(self.ranking[vehicle]):
+                # The other trips of the neighborhood are not available any more, but there could be more pending ones.
+                self.ranking[vehicle] = self._create_sub_ranking(self.routes_container[vehicle])
 
     def _create_sub_ranking(self, route: Route) -> List[Route]:
         logger.debug(f'Creating sub_ranking for vehicle "{route.vehicle_identifier}"...')
-        pending_trips = it.islice(self.pending_trips, self.neighborhood_max_size)
-
-        raw_sub_ranking = self._strategy.compute(route, pending_trips)
+        pending_trips = iter(self.pending_trips)
+
+        raw_sub_ranking = list()
+        while not any(raw_sub_ranking):
+            neighborhood = tuple(it.islice(pending_trips, self.neighborhood_max_size))
+            if not any(neighborhood):
+                break
+            raw_sub_ranking = self._strategy.compute(route, neighborhood)
 
         self._criterion.sorted(raw_sub_ranking, inplace=True)
 
-- 
2.43.0

