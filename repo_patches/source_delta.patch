From e8956f5bcd4a6cfd0c04f89b5d618b884fbcb3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:06 +0000
Subject: [PATCH 01/53] fix: keep the cheapest duplicate in the frontier of an
 A* tree search

The frontier holds one node per state. The tree search pushed a child without
looking for a costlier node with the same state, so the cheaper path was lost.
---
 planner/src/algo/a_star.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 9cbd016..ac5ff31 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -388,22 +388,16 @@ namespace Planner {
 				(*child)->totalCost = (*child)->pathCost + m_heuristic->GetHeuristicValue((*child)->state);
 
 				// Check if the child node is in the frontier or explored set
-				if constexpr (GraphSearch) {
-					Node* const* inFrontier = m_frontier.Find(child);
-					bool inExplored = m_explored.Contains(child);
-					if (!inFrontier && !inExplored) {
-						// Add child to frontier and to the tree
-						m_frontier.Push(child);
-						node->AddChild(std::move(childScope));
-					} else if (inFrontier) {
-						// Check if the node in frontier has a higher cost than the
-						// current path, and if so replace it by child
-						ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
-					}
-				} else {
+				Node* const* inFrontier = m_frontier.Find(child);
+				bool inExplored = GraphSearch && m_explored.Contains(child);
+				if (!inFrontier && !inExplored) {
 					// Add child to frontier and to the tree
 					m_frontier.Push(child);
 					node->AddChild(std::move(childScope));
+				} else if (inFrontier) {
+					// Check if the node in frontier has a higher cost than the
+					// current path, and if so replace it by child
+					ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
 				}
 			}
 		}
-- 
2.43.0


From 41e0d112f302afcc8b6fd10f3f6500e47ace1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:06 +0000
Subject: [PATCH 02/53] fix: set the goals of the heuristics averaged for
 bidirectional A*

The two heuristics given to GetAverageHeuristicPair kept whatever goal they
had, so the pair was in general neither admissible nor consistent.
---
 planner/src/algo/a_star.h               | 2 ++
 planner/src/algo/bidirectional_a_star.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index ac5ff31..ec97398 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -33,6 +33,8 @@ namespace Planner {
 		friend class AStarCombinedHeuristic;
 		template <typename S1, typename S2, typename Func>
 		friend class AStarHeuristicAdapter;
+		template <typename S>
+		friend class AverageHeuristic;
 		template <typename S, typename A, typename HashState, typename EqualState, bool GraphSearch, typename ExploredContainer>
 		friend class AStar;
 
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 8de8e8e..64808ac 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -29,6 +29,8 @@ namespace Planner {
 		{
 			m_init = init;
 			this->m_goal = goal;
+			m_toGoalHeuristic->SetGoal(goal);
+			m_toInitHeuristic->SetGoal(init);
 			m_constant = m_toInitHeuristic->GetHeuristicValue(goal) / 2.0;
 		}
 
-- 
2.43.0


From 0f2b54061ce88dfe32a7048b5d722e52ee7e40cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:06 +0000
Subject: [PATCH 03/53] fix: bidirectional A* stopped before the best meeting
 point was known

The stopping criterion compares with the offset of the heuristics, so it must
use the total costs of the frontiers; and the best path may join an explored
state of one search to a frontier state of the other.
---
 planner/src/algo/bidirectional_a_star.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 64808ac..c76c873 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -168,8 +168,8 @@ namespace Planner {
 					if (m_fSearch.m_frontier.Empty() || m_rSearch.m_frontier.Empty())
 						return Status::Success;
 
-					double fTopCost = (*m_fSearch.m_frontier.Top())->pathCost;
-					double rTopCost = (*m_rSearch.m_frontier.Top())->pathCost;
+					double fTopCost = (*m_fSearch.m_frontier.Top())->totalCost;
+					double rTopCost = (*m_rSearch.m_frontier.Top())->totalCost;
 
 					// Check the stopping criterion
 					if (fTopCost + rTopCost >= bestCost + costOffset)
@@ -182,10 +182,14 @@ namespace Planner {
 	protected:
 		void FindIntersection(AStarNode<State, Action>* nodeA, UnidirectionalAStar& searchA, UnidirectionalAStar& searchB, double& bestPathCost)
 		{
+			AStarNode<State, Action>* nodeB = nullptr;
 			auto it = searchB.m_explored.find((*nodeA)->state);
-			if (it != searchB.m_explored.end()) {
-				auto nodeB = it->second;
+			if (it != searchB.m_explored.end())
+				nodeB = it->second;
+			else if (auto inFrontier = searchB.m_frontier.Find(nodeA))
+				nodeB = *inFrontier;
 
+			if (nodeB) {
 				// Check the path of the new candidate path
 				double candidatePathCost = (*nodeA)->pathCost + (*nodeB)->pathCost;
 				if (candidatePathCost < bestPathCost) {
-- 
2.43.0


From af3b4f66d032a75d4bbfa67d27ee621f7827b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:06 +0000
Subject: [PATCH 04/53] fix: the path of bidirectional A* contained the meeting
 state twice

---
 planner/src/algo/bidirectional_a_star.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index c76c873..91d11ad 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -69,7 +69,9 @@ namespace Planner {
 		{
 			auto fPath = m_fSearch.GetPath();
 			auto rPath = m_rSearch.GetPath();
-			fPath.insert(fPath.end(), rPath.rbegin(), rPath.rend());
+			// The searches meet at the last state of both paths
+			if (!rPath.empty())
+				fPath.insert(fPath.end(), rPath.rbegin() + 1, rPath.rend());
 			return fPath;
 		}
 
-- 
2.43.0


From 42a260608371c709717988537b83434cb63750a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:48 +0000
Subject: [PATCH 05/53] fix: distance maps kept cells which refer to a removed
 obstacle or edge

The wave of a new obstacle could cut such cells off from the wave which clears
them, so their nearest obstacle was one that is no longer on the map.
---
 planner/src/state_validator/gvd.cpp | 26 ++++++++++++++++++++++++++
 planner/src/state_validator/gvd.h   |  2 ++
 2 files changed, 28 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 31226ba..a96abc4 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -31,6 +31,18 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
+		// A wave from a new obstacle can cut off the cells which refer to a
+		// removed one from the wave which would clear them: clear them first
+		if (m_removed) {
+			for (int r = 0; r < rows; r++) {
+				for (int c = 0; c < columns; c++) {
+					if (m_obstacle[r][c].IsValid() && !IsOccupied(m_obstacle[r][c]))
+						UnsetObstacle({ r, c });
+				}
+			}
+			m_removed = false;
+		}
+
 		while (!m_open.empty()) {
 			const auto s = m_open.top().position;
 			m_open.pop();
@@ -86,6 +98,7 @@ namespace Planner {
 		m_toRaise[s.row][s.col] = true;
 		m_open.push({ s, std::numeric_limits<int>::max() });
 		m_toProcess[s.row][s.col] = true;
+		m_removed = true;
 	}
 
 	Ref<GVD::VoronoiDistanceMap> GVD::ObstacleDistanceMap::GetVoronoiDistanceMap()
@@ -201,6 +214,18 @@ namespace Planner {
 	{
 		PP_PROFILE_FUNCTION();
 
+		// A wave from a new edge can cut off the cells which refer to a
+		// removed one from the wave which would clear them: clear them first
+		if (m_removed) {
+			for (int r = 0; r < rows; r++) {
+				for (int c = 0; c < columns; c++) {
+					if (m_edge[r][c].IsValid() && !IsOccupied(m_edge[r][c]))
+						UnsetEdge({ r, c });
+				}
+			}
+			m_removed = false;
+		}
+
 		while (!m_open.empty()) {
 			const auto s = m_open.top().position;
 			m_open.pop();
@@ -251,6 +276,7 @@ namespace Planner {
 		m_toRaise[s.row][s.col] = true;
 		m_open.push({ s, std::numeric_limits<int>::max() });
 		m_toProcess[s.row][s.col] = true;
+		m_removed = true;
 	}
 
 	bool GVD::VoronoiDistanceMap::IsOccupied(const GridCellPosition& s)
diff --git a/planner/src/state_validator/gvd.h b/planner/src/state_validator/gvd.h
index 64cec7a..fc32945 100644
--- a/planner/src/state_validator/gvd.h
+++ b/planner/src/state_validator/gvd.h
@@ -59,6 +59,7 @@ namespace Planner {
 			Grid<bool> m_voro;
 			PriorityQueue m_open;
 			PriorityQueue m_voroQ;
+			bool m_removed = false;
 
 			Ref<Grid<int>> m_occupancy;
 			Ref<VoronoiDistanceMap> m_voronoiMap;
@@ -95,6 +96,7 @@ namespace Planner {
 			Grid<bool> m_toRaise;
 			Grid<bool> m_toProcess;
 			PriorityQueue m_open;
+			bool m_removed = false;
 		};
 
 	private:
-- 
2.43.0


From 570105060d3862769dd8d24a11f197c7a3536833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:48 +0000
Subject: [PATCH 06/53] fix: Voronoi edges were missing between obstacles
 processed before the diagram was created

---
 planner/src/state_validator/gvd.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index a96abc4..60b529d 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -107,6 +107,15 @@ namespace Planner {
 			return m_voronoiMap;
 
 		m_voronoiMap = makeRef<MakeRefEnabler<VoronoiDistanceMap>>(rows, columns, resolution);
+		// The edges between the obstacles already processed are not known yet
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				if (IsOccupied(m_obstacle[r][c])) {
+					m_open.push({ { r, c }, m_distance[r][c] });
+					m_toProcess[r][c] = true;
+				}
+			}
+		}
 		return m_voronoiMap;
 	}
 
-- 
2.43.0


From 7822dadf92c0fbf00d8e8110d84e11555c88298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:48 +0000
Subject: [PATCH 07/53] fix: the path cost without Voronoi edge was not zero

The distance to a missing edge is large but finite.
---
 planner/src/state_validator/gvd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 60b529d..983cf1c 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -306,7 +306,7 @@ namespace Planner {
 			for (int c = 0; c < columns; c++) {
 				auto obstDist = obstacleMap.GetDistanceToNearestObstacle(r, c);
 				auto voroDist = voronoiMap.GetDistanceToNearestVoronoiEdge(r, c);
-				if (obstDist >= dMax || voroDist == std::numeric_limits<float>::infinity()) {
+				if (obstDist >= dMax || !voronoiMap.GetNearestVoronoiEdgeCell(r, c).IsValid()) {
 					m_data[r * columns + c] = 0.0f;
 				} else {
 					m_data[r * columns + c] = (alpha / (alpha + obstDist))
-- 
2.43.0


From 8d952dbc689961743ca8d9db0229c7daf23a3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:48 +0000
Subject: [PATCH 08/53] fix: moving a sized occupancy map left its grid behind

SetPosition did not update the position of the grid in the world frame.
---
 planner/src/state_validator/occupancy_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 336fa6b..f8571bb 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -37,7 +37,11 @@ namespace Planner {
 		virtual void Update();
 
 		/// @brief Set the position of the bottom left corner of the map.
-		void SetPosition(const Point2d& position) { m_localOrigin = position; }
+		void SetPosition(const Point2d& position)
+		{
+			m_localOrigin = position;
+			m_worldGridOrigin = m_localOrigin + m_localGridOrigin;
+		}
 		/// @brief Return the position of the bottom left corner of the map in
 		/// the world coordinates.
 		const Point2d& GetPosition() const { return m_localOrigin; }
@@ -125,7 +129,7 @@ namespace Planner {
 		// Position of the origin of the local frame in the world frame
 		Point2d m_localOrigin = { 0.0, 0.0 };
 		// Position of the origin of the grid frame in the local frame
-		Point2d m_localGridOrigin, m_worldGridOrigin;
+		Point2d m_localGridOrigin = { 0.0, 0.0 }, m_worldGridOrigin = { 0.0, 0.0 };
 		// Matrix of cell occupancy (positive or zero value means occupied)
 		Ref<Grid<int>> m_occupancyMatrix;
 		// Distance map to nearest obstacle
-- 
2.43.0


From 867ffe9db896a29084872f59d551b080b4c10148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:48 +0000
Subject: [PATCH 09/53] fix: positions just outside the map were converted to
 its first row or column

---
 planner/src/state_validator/occupancy_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index f8571bb..212d33a 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -109,8 +109,8 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(x / resolution);
-			int col = static_cast<int>(y / resolution);
+			int row = static_cast<int>(std::floor(x / resolution));
+			int col = static_cast<int>(std::floor(y / resolution));
 
 			if (!bounded)
 				return GridCellPosition(row, col);
-- 
2.43.0


From 4f790c11e60a587fd53b74380f7369270b2d4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:48 +0000
Subject: [PATCH 10/53] fix: integer poses were wrapped by a truncated multiple
 of pi

The specialization of WrapTheta was not declared in the header.
---
 planner/src/geometry/2dplane.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planner/src/geometry/2dplane.h b/planner/src/geometry/2dplane.h
index cd8023f..68a43b4 100644
--- a/planner/src/geometry/2dplane.h
+++ b/planner/src/geometry/2dplane.h
@@ -44,6 +44,9 @@ namespace Planner {
 		return t;
 	}
 
+	template <>
+	int Pose2<int>::WrapTheta() const;
+
 	/// @brief Add the Pose @rhs after @lhs.
 	/// @warning This operation is not commutative.
 	template <typename T>
-- 
2.43.0


From 7cd677fe6eae0d31831b33321f71352538437bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:03 +0000
Subject: [PATCH 11/53] fix: removing an obstacle freed the cells of others and
 kept its own if it had moved

A cell shared with another obstacle was marked as free, and the cells to free
were computed from the current pose instead of those marked when it was added.
---
 .../obstacle_list_occupancy_map.cpp           | 22 ++++++++++++++-----
 .../obstacle_list_occupancy_map.h             |  7 +++++-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 35b6b49..4076845 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -32,9 +32,11 @@ namespace Planner {
 			throw std::runtime_error("The size of the occupancy matrix has not been initialized");
 
 		auto id = FindSmallestIDAvailable(m_obstacleIDs);
-		if (m_obstacles.insert({ obstacle, id }).second) {
+		auto [it, inserted] = m_obstacles.insert({ obstacle, { id, {} } });
+		if (inserted) {
 			m_obstacleIDs.insert(id);
-			for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+			it->second.cells = obstacle->GetBoundaryGridCellPosition(*this);
+			for (auto& cell : it->second.cells) {
 				(*m_occupancyMatrix)[cell.row][cell.col] = id;
 				m_obstacleDistanceMap->SetObstacle(cell);
 			}
@@ -51,11 +53,21 @@ namespace Planner {
 		auto it = m_obstacles.find(obstacle);
 		if (it == m_obstacles.end())
 			return false;
-		m_obstacleIDs.erase(it->second);
+		const auto cells = std::move(it->second.cells);
+		m_obstacleIDs.erase(it->second.id);
 		m_obstacles.erase(it);
-		for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+		for (auto& cell : cells)
 			(*m_occupancyMatrix)[cell.row][cell.col] = -1;
-			m_obstacleDistanceMap->UnsetObstacle(cell);
+		// The cells shared with other obstacles remain occupied
+		for (auto& [other, data] : m_obstacles) {
+			for (auto& cell : data.cells) {
+				if ((*m_occupancyMatrix)[cell.row][cell.col] < 0)
+					(*m_occupancyMatrix)[cell.row][cell.col] = data.id;
+			}
+		}
+		for (auto& cell : cells) {
+			if ((*m_occupancyMatrix)[cell.row][cell.col] < 0)
+				m_obstacleDistanceMap->UnsetObstacle(cell);
 		}
 		return true;
 	}
diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.h b/planner/src/state_validator/obstacle_list_occupancy_map.h
index 22a4552..717e28e 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.h
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.h
@@ -23,7 +23,12 @@ namespace Planner {
 		virtual bool IsOccupied(const GridCellPosition& cell) override;
 
 	private:
-		std::unordered_map<Ref<Obstacle>, unsigned int> m_obstacles;
+		struct ObstacleData {
+			unsigned int id;
+			// Cells occupied by the obstacle since it has been added
+			std::vector<GridCellPosition> cells;
+		};
+		std::unordered_map<Ref<Obstacle>, ObstacleData> m_obstacles;
 		std::set<unsigned int> m_obstacleIDs;
 	};
 }
-- 
2.43.0


From b831885c6af339254c5dde27134e81157b7a65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:35 +0000
Subject: [PATCH 12/53] fix: Hybrid A* read the Voronoi cost outside the map
 and used only the last sample of a path

---
 planner/src/algo/hybrid_a_star.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fb4b68c..00e5cd8 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -99,9 +99,10 @@ namespace Planner {
 		const double pathLength = path.GetLength();
 		for (double length = 0.0; length < pathLength; length += interpLength) {
 			auto position = path.Interpolate(length / pathLength).position;
-			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
-			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
-			voronoiCost = m_gvd->GetPathCost(cell);
+			// A valid path may leave the map between the states which have been checked
+			float cost;
+			if (m_gvd->GetPathCost(position, cost))
+				voronoiCost += cost;
 		}
 
 		voronoiCost *= interpLength;
-- 
2.43.0


From 2711079907bdc3dc8d9547f57cb79a851f0478a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:35 +0000
Subject: [PATCH 13/53] fix: the final state of a path was not validated

---
 .../src/state_validator/state_validator_occupancy_map.cpp   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 69d0096..a1c7a1e 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -39,7 +39,7 @@ namespace Planner {
 
 		double lastValidLength = 0.0;
 		double length = 0.0;
-		while (length < pathLength) {
+		while (true) {
 			Pose2d state = path.Interpolate(length / pathLength);
 
 			// Check current state
@@ -49,6 +49,8 @@ namespace Planner {
 				return false;
 			}
 			lastValidLength = length;
+			if (length >= pathLength)
+				break;
 
 			// Update length
 			float distToMapBorder = std::min({
@@ -62,7 +64,7 @@ namespace Planner {
 			float distance = m_map->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(cell);
 			float deltaLength = distance - minSafeRadius;
 			deltaLength = std::min(deltaLength, distToMapBorder);
-			length += std::max(deltaLength, minPathInterpolationDistance);
+			length = std::min(length + std::max(deltaLength, minPathInterpolationDistance), pathLength);
 		}
 
 		if (last)
-- 
2.43.0


From be38ed3b6c2a960ebd95f09ae0a43aba27020729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:33 +0000
Subject: [PATCH 14/53] fix: the distance to the border of a moved map was
 computed in the wrong frame

---
 .../state_validator/state_validator_occupancy_map.cpp    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index a1c7a1e..0209ace 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -53,11 +53,12 @@ namespace Planner {
 				break;
 
 			// Update length
+			const Point2d localPosition = m_map->WorldPositionToLocalPosition(state.position);
 			float distToMapBorder = std::min({
-				state.x() - bounds[0].x(),
-				bounds[1].x() - state.x(),
-				state.y() - bounds[0].y(),
-				bounds[1].y() - state.y(),
+				localPosition.x() - bounds[0].x(),
+				bounds[1].x() - localPosition.x(),
+				localPosition.y() - bounds[0].y(),
+				bounds[1].y() - localPosition.y(),
 			});
 			// TODO add offset
 			GridCellPosition cell = m_map->WorldPositionToGridCell(state.position);
-- 
2.43.0


From 1fda4094560797fb0d67e5e9019cd50ba0a2cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:33 +0000
Subject: [PATCH 15/53] fix: the path validation returning the last valid state
 could not be instantiated

---
 planner/src/state_validator/state_validator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/state_validator.h b/planner/src/state_validator/state_validator.h
index f25bcf4..6433001 100644
--- a/planner/src/state_validator/state_validator.h
+++ b/planner/src/state_validator/state_validator.h
@@ -30,7 +30,7 @@ namespace Planner {
 		bool IsPathValid(const Path<State>& path, State* last)
 		{
 			float ratio;
-			bool validated = IsPathValid(path, ratio);
+			bool validated = IsPathValid(path, &ratio);
 			if (last)
 				*last = path.Interpolate(ratio);
 			return validated;
-- 
2.43.0


From 5000bfd45fc6129819a11f2734e1a8a9e96e6f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:00 +0000
Subject: [PATCH 16/53] fix: sampling several states wrote past the end of an
 empty vector

---
 planner/src/state_space/state_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index cbd0a2e..b64b2d4 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -38,7 +38,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleUniform();
+				states.push_back(SampleUniform());
 			}
 			return states;
 		}
@@ -51,7 +51,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleGuassian(meanState, stdDev);
+				states.push_back(SampleGaussian(meanState, stdDev));
 			}
 			return states;
 		}
-- 
2.43.0


From 8edcbf2bf65a8242f30f9c139c378c98f3e9181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:01 +0000
Subject: [PATCH 17/53] fix: Voronoi edges were left behind when obstacles were
 removed

---
 planner/src/state_validator/gvd.cpp | 55 ++++++++++++++++-------------
 planner/src/state_validator/gvd.h   |  5 ++-
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 983cf1c..786ff74 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -62,9 +62,6 @@ namespace Planner {
 				}
 				m_toRaise[s.row][s.col] = false;
 			} else if (IsOccupied(m_obstacle[s.row][s.col])) {
-				m_voro[s.row][s.col] = false;
-				if (m_voronoiMap)
-					m_voronoiMap->UnsetEdge(s);
 				m_toProcess[s.row][s.col] = false;
 				for (auto& n : s.GetNeighbors(rows, columns)) {
 					if (!m_toRaise[n.row][n.col]) {
@@ -74,13 +71,14 @@ namespace Planner {
 							m_obstacle[n.row][n.col] = m_obstacle[s.row][s.col];
 							m_open.push({ n, d });
 							m_toProcess[n.row][n.col] = true;
-						} else if (m_voronoiMap) {
-							CheckVoro(s, n);
 						}
 					}
 				}
 			}
 		}
+
+		if (m_voronoiMap)
+			UpdateVoronoiEdges();
 	}
 
 	void GVD::ObstacleDistanceMap::SetObstacle(const GridCellPosition& s)
@@ -107,15 +105,6 @@ namespace Planner {
 			return m_voronoiMap;
 
 		m_voronoiMap = makeRef<MakeRefEnabler<VoronoiDistanceMap>>(rows, columns, resolution);
-		// The edges between the obstacles already processed are not known yet
-		for (int r = 0; r < rows; r++) {
-			for (int c = 0; c < columns; c++) {
-				if (IsOccupied(m_obstacle[r][c])) {
-					m_open.push({ { r, c }, m_distance[r][c] });
-					m_toProcess[r][c] = true;
-				}
-			}
-		}
 		return m_voronoiMap;
 	}
 
@@ -124,30 +113,46 @@ namespace Planner {
 		return (m_distance[s.row][s.col] > 1 || m_distance[n.row][n.col] > 1) && obstN.IsValid() && obstN != obstS && !obstS.IsAdjacentTo(obstN);
 	}
 
-	void GVD::ObstacleDistanceMap::CheckVoro(const GridCellPosition& s, const GridCellPosition& n)
+	bool GVD::ObstacleDistanceMap::CheckVoro(const GridCellPosition& s, const GridCellPosition& n)
 	{
 		auto obstS = m_obstacle[s.row][s.col];
 		auto obstN = m_obstacle[n.row][n.col];
+		if (!obstS.IsValid() || !obstN.IsValid())
+			return false;
 
 		if ((*m_occupancy)[obstS.row][obstS.col] == (*m_occupancy)[obstN.row][obstN.col])
-			return;
+			return false;
 
-		if ((m_distance[s.row][s.col] > 1 || m_distance[n.row][n.col] > 1) && m_obstacle[n.row][n.col].IsValid()) {
+		if (m_distance[s.row][s.col] > 1 || m_distance[n.row][n.col] > 1) {
 			if (std::abs(obstS.row - obstN.row) > 1 || std::abs(obstS.col - obstN.col) > 1) {
 				auto sObstN = SquaredDistance(s, obstN);
 				auto nObstS = SquaredDistance(n, obstS);
 				auto sStability = sObstN - m_distance[s.row][s.col];
 				auto nStability = nObstS - m_distance[n.row][n.col];
 				if (sStability < 0 || nStability < 0)
-					return;
-				if (sStability <= nStability) {
-					m_voro[s.row][s.col] = true;
+					return false;
+				return sStability <= nStability;
+			}
+		}
+		return false;
+	}
+
+	void GVD::ObstacleDistanceMap::UpdateVoronoiEdges()
+	{
+		for (int r = 0; r < rows; r++) {
+			for (int c = 0; c < columns; c++) {
+				const GridCellPosition s(r, c);
+				bool edge = false;
+				for (auto& n : s.GetNeighbors(rows, columns))
+					edge = edge || CheckVoro(s, n);
+
+				m_voro[r][c] = edge;
+				if (edge == (m_voronoiMap->GetNearestVoronoiEdgeCell(s) == s))
+					continue;
+				if (edge)
 					m_voronoiMap->SetEdge(s);
-				}
-				if (nStability <= sStability) {
-					m_voro[n.row][n.col] = true;
-					m_voronoiMap->SetEdge(n);
-				}
+				else
+					m_voronoiMap->UnsetEdge(s);
 			}
 		}
 	}
diff --git a/planner/src/state_validator/gvd.h b/planner/src/state_validator/gvd.h
index fc32945..c6a9d22 100644
--- a/planner/src/state_validator/gvd.h
+++ b/planner/src/state_validator/gvd.h
@@ -42,7 +42,10 @@ namespace Planner {
 
 		private:
 			bool CheckVoroConditions(const GridCellPosition& s, const GridCellPosition& n, const GridCellPosition& obstS, const GridCellPosition& obstN);
-			void CheckVoro(const GridCellPosition& s, const GridCellPosition& n);
+			/// @brief Check if the cell @s is on the edge between the regions of @s and @n.
+			bool CheckVoro(const GridCellPosition& s, const GridCellPosition& n);
+			/// @brief Find the Voronoi edges from the nearest obstacles.
+			void UpdateVoronoiEdges();
 			void RebuildVoronoi();
 			bool PatternMatch(const GridCellPosition& s);
 			bool IsOccupied(const GridCellPosition& s);
-- 
2.43.0


From fcb682827bbcf7ddfb52aa8ba395bfbcc4bd25ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:16 +0000
Subject: [PATCH 18/53] fix: rounding errors on null angles made Reeds-Shepp
 miss the shortest path

---
 planner/src/geometry/reeds_shepp.cpp | 65 ++++++++++++++++------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 79d532a..8c83dee 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -8,8 +8,13 @@
 namespace Planner {
 	namespace ReedsShepp {
 		namespace Private {
-			static bool IsAngleInvalid(double theta)
+			// Rounding error allowed on a null angle
+			static constexpr double angleEpsilon = 1e-9;
+
+			static bool IsAngleInvalid(double& theta)
 			{
+				if (theta < 0 && theta > -angleEpsilon)
+					theta = 0;
 				return theta < 0 || theta > M_PI;
 			}
 
@@ -18,6 +23,12 @@ namespace Planner {
 				return Maths::Modulo(theta + M_PI, 2 * M_PI) - M_PI;
 			}
 
+			static double WrapPositiveAngle(double theta)
+			{
+				theta = Maths::Modulo(theta, 2 * M_PI);
+				return theta < 2 * M_PI - angleEpsilon ? theta : 0;
+			}
+
 			static double LfSfLf(const Pose2d& goal, double& t, double& u, double& v)
 			{
 				// Reeds-Shepp 8.1
@@ -71,9 +82,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 				double alpha = acos(u1 / 4.0);
-				t = Maths::Modulo(M_PI_2 + alpha + phi, 2 * M_PI);
-				u = Maths::Modulo(M_PI - 2 * alpha, 2 * M_PI);
-				v = Maths::Modulo(goal.theta - t - u, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + alpha + phi);
+				u = WrapPositiveAngle(M_PI - 2 * alpha);
+				v = WrapPositiveAngle(goal.theta - t - u);
 
 				if (IsAngleInvalid(t) || IsAngleInvalid(u) || IsAngleInvalid(v))
 					return std::numeric_limits<double>::infinity();
@@ -95,9 +106,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 				double alpha = acos(u1 / 4.0);
-				t = Maths::Modulo(M_PI_2 + alpha + phi, 2 * M_PI);
-				u = Maths::Modulo(M_PI - 2 * alpha, 2 * M_PI);
-				v = Maths::Modulo(t + u - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + alpha + phi);
+				u = WrapPositiveAngle(M_PI - 2 * alpha);
+				v = WrapPositiveAngle(t + u - goal.theta);
 
 				return t + u + v;
 			}
@@ -118,8 +129,8 @@ namespace Planner {
 				u = acos((8 - u1 * u1) / 8.0);
 				double va = sin(u);
 				double alpha = asin(2 * va / u1);
-				t = Maths::Modulo(M_PI_2 - alpha + phi, 2 * M_PI);
-				v = Maths::Modulo(t - u - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 - alpha + phi);
+				v = WrapPositiveAngle(t - u - goal.theta);
 
 				return t + u + v;
 			}
@@ -140,14 +151,14 @@ namespace Planner {
 
 				if (u1 > 2) {
 					double alpha = acos(u1 / 4 - 0.5);
-					t = Maths::Modulo(M_PI_2 + phi - alpha, 2 * M_PI);
-					u = Maths::Modulo(M_PI - alpha, 2 * M_PI);
-					v = Maths::Modulo(goal.theta - t + 2 * u, 2 * M_PI);
+					t = WrapPositiveAngle(M_PI_2 + phi - alpha);
+					u = WrapPositiveAngle(M_PI - alpha);
+					v = WrapPositiveAngle(goal.theta - t + 2 * u);
 				} else {
 					double alpha = acos(u1 / 4 + 0.5);
-					t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-					u = Maths::Modulo(alpha, 2 * M_PI);
-					v = Maths::Modulo(goal.theta - t + 2 * u, 2 * M_PI);
+					t = WrapPositiveAngle(M_PI_2 + phi + alpha);
+					u = WrapPositiveAngle(alpha);
+					v = WrapPositiveAngle(goal.theta - t + 2 * u);
 				}
 
 				return t + u + u + v;
@@ -173,8 +184,8 @@ namespace Planner {
 				u = acos(va1);
 				double va2 = sin(u);
 				double alpha = asin(2 * va2 / u1);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi + alpha);
+				v = WrapPositiveAngle(t - goal.theta);
 
 				return t + u + u + v;
 			}
@@ -198,8 +209,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(2, u + 2);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t + M_PI_2 - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi + alpha);
+				v = WrapPositiveAngle(t + M_PI_2 - goal.theta);
 
 				return t + M_PI_2 + u + v;
 			}
@@ -218,9 +229,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 
-				t = Maths::Modulo(M_PI_2 + phi, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi);
 				u = u1 - 2;
-				v = Maths::Modulo(goal.theta - t - M_PI_2, 2 * M_PI);
+				v = WrapPositiveAngle(goal.theta - t - M_PI_2);
 
 				return t + M_PI_2 + u + v;
 			}
@@ -244,8 +255,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(u + 2, 2);
-				t = Maths::Modulo(M_PI_2 + phi - alpha, 2 * M_PI);
-				v = Maths::Modulo(t - M_PI_2 - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi - alpha);
+				v = WrapPositiveAngle(t - M_PI_2 - goal.theta);
 
 				return t + u + M_PI_2 + v;
 			}
@@ -264,9 +275,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 
-				t = Maths::Modulo(phi, 2 * M_PI);
+				t = WrapPositiveAngle(phi);
 				u = u1 - 2;
-				v = Maths::Modulo(-t - M_PI_2 + goal.theta, 2 * M_PI);
+				v = WrapPositiveAngle(-t - M_PI_2 + goal.theta);
 
 				return t + u + M_PI_2 + v;
 			}
@@ -290,8 +301,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(2, u + 4);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t - goal.theta, 2 * M_PI);
+				t = WrapPositiveAngle(M_PI_2 + phi + alpha);
+				v = WrapPositiveAngle(t - goal.theta);
 
 				return t + u + v + M_PI;
 			}
-- 
2.43.0


From 50a2542155b86353353045425ce297d2f360024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 19/53] fix: the cost of a Reeds-Shepp path ignored the forward
 multiplier

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 8c83dee..ea55d6d 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -479,7 +479,7 @@ namespace Planner {
 			if (!m_motions[0].IsValid())
 				return std::numeric_limits<float>::infinity();
 
-			if (reverseCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
+			if (reverseCostMultiplier == 1.0f && forwardCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
 				return m_length * minTurningRadius;
 
 			float cost = 0;
-- 
2.43.0


From bbd89cf80f254e3c8c689fdd5e37edb317d66bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 20/53] fix: truncating a Reeds-Shepp path removed its last
 motion

---
 planner/src/paths/path_reeds_shepp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 1cc32f8..a7d8fc5 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -81,7 +81,7 @@ namespace Planner {
 				if (length >= ratio * totalLength) {
 					m_pathSegment.m_motions[i].length *= motionRatio;
 					for (int ii = i + 1; ii < ReedsShepp::PathSegment::numMotion; ii++) {
-						m_pathSegment.m_motions[i] = ReedsShepp::Motion();
+						m_pathSegment.m_motions[ii] = ReedsShepp::Motion();
 					}
 					break;
 				}
@@ -91,6 +91,7 @@ namespace Planner {
 
 		// Update the path length
 		m_length *= ratio;
+		m_pathSegment.m_length *= ratio;
 	}
 
 	std::set<double> PathReedsShepp::GetCuspPointRatios() const
-- 
2.43.0


From ff7453f96a5f5ae089806278ba0eab617320a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 21/53] fix: direction and cusps of a Reeds-Shepp path counted
 motions without length

---
 planner/src/paths/path_reeds_shepp.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index a7d8fc5..711b1e4 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -101,18 +101,22 @@ namespace Planner {
 		if (m_length == 0.0)
 			return ratios;
 
-		double length = m_pathSegment.m_motions[0].length * m_minTurningRadius;
-		for (int i = 1; i < m_pathSegment.GetNumMotions(); i++) {
+		double length = 0;
+		Direction prevDirection = Direction::NoMotion;
+		for (int i = 0; i < m_pathSegment.GetNumMotions(); i++) {
 			const auto& currMotion = m_pathSegment.m_motions[i];
-			const auto& prevMotion = m_pathSegment.m_motions[i - 1];
+			// There is no cusp at a motion without length
+			if (currMotion.length == 0)
+				continue;
 			double ratio = length / m_length;
 			// Check ratio is smaller than 1.0 in case the path has been truncated
 			if (ratio > 1.0)
 				break;
 			// Check if the direction has changed
-			if (currMotion.direction != prevMotion.direction) {
+			if (prevDirection != Direction::NoMotion && currMotion.direction != prevDirection) {
 				ratios.insert(ratio);
 			}
+			prevDirection = currMotion.direction;
 			length += currMotion.length * m_minTurningRadius;
 		}
 
@@ -157,14 +161,18 @@ namespace Planner {
 			return Direction::NoMotion;
 
 		double length = 0;
+		Direction direction = Direction::NoMotion;
 		for (const auto& motion : m_pathSegment.m_motions) {
 			if (!motion.IsValid())
 				break;
+			if (motion.length == 0)
+				continue;
+			direction = motion.direction;
 			length += motion.length * m_minTurningRadius;
 			if (ratio * m_length <= length)
-				return motion.direction;
+				break;
 		}
-		return Direction::NoMotion;
+		return direction;
 	}
 
 	double PathReedsShepp::ComputeCost(double directionSwitchingCost, double reverseCostMultiplier, double forwardCostMultiplier) const
-- 
2.43.0


From 13307935b0ccd6f54fa3d361b518fca1374a207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 22/53] fix: the initial state of a composite path was not set

---
 planner/src/paths/path_composite.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 82673ad..79cc6b5 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -34,6 +34,8 @@ namespace Planner {
 		void PushBack(const Ref<BasePath>& path)
 		{
 			double pathLength = path->GetLength();
+			if (m_paths.empty())
+				this->m_init = path->GetInitialState();
 			m_paths.push_back({ PathInfo(this->m_length, this->m_length + pathLength), path });
 			this->m_final = path->GetFinalState();
 			this->m_length += pathLength;
-- 
2.43.0


From f561d8eb64aa5d0e56d99c1d3dc5fad98867e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 23/53] fix: a truncated composite path kept the length of its
 last segment

---
 planner/src/paths/path_composite.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 79cc6b5..f38a61b 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -66,6 +66,7 @@ namespace Planner {
 			it->second->Truncate(pathRatio);
 			this->m_final = it->second->GetFinalState();
 			this->m_length = it->first.initLength + it->second->GetLength();
+			m_paths[it - m_paths.begin()].first.finalLength = this->m_length;
 			m_paths.erase(std::next(it), m_paths.end());
 		}
 
-- 
2.43.0


From f63ae7eb428b2331fd38db366d541f6ad1fcc40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 24/53] fix: the direction at the end of a composite path was
 read past its segments

---
 planner/src/paths/path_composite.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 59d3545..516a50c 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -28,7 +28,12 @@ namespace Planner {
 
 	Direction PathSE2CompositeNonHolonomic::GetDirection(double ratio) const
 	{
+		if (m_paths.empty())
+			return Direction::NoMotion;
+
 		auto [it, pathRatio] = FindSegment(ratio);
+		if (it == m_paths.end())
+			it--;
 		return it->second->GetDirection(pathRatio);
 	}
 }
-- 
2.43.0


From 3fb8400d80f3935097bffc562138d332f47df915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 25/53] fix: the cusps of a composite path were relative to its
 segments

---
 planner/src/paths/path_composite.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 516a50c..1d28edf 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -5,22 +5,23 @@ namespace Planner {
 	{
 		std::set<double> ratios;
 
-		if (m_paths.empty())
-			return ratios;
-
 		double length = 0.0;
-		Direction prevDirection = m_paths[0].second->GetDirection(0.0);
+		Direction prevDirection = Direction::NoMotion;
 		for (auto& path : m_paths) {
+			const double pathLength = path.second->GetLength();
+			if (pathLength == 0.0)
+				continue;
+
 			// Check if the path starts with same direction as the previous ends
-			if (path.second->GetDirection(0.0) != prevDirection)
+			if (prevDirection != Direction::NoMotion && path.second->GetDirection(0.0) != prevDirection)
 				ratios.insert(length / this->m_length);
 
 			// Check for cusp point in the path
-			auto cusps = path.second->GetCuspPointRatios();
-			ratios.insert(cusps.begin(), cusps.end());
+			for (double cusp : path.second->GetCuspPointRatios())
+				ratios.insert((length + cusp * pathLength) / this->m_length);
 
 			prevDirection = path.second->GetDirection(1.0);
-			length += path.second->GetLength();
+			length += pathLength;
 		}
 
 		return ratios;
-- 
2.43.0


From 7026ebcf203bcea0ec3aa979d2fd9f77ff7d4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:57 +0000
Subject: [PATCH 26/53] fix: the heading of the bicycle model was not wrapped

---
 planner/src/models/kinematic_bicycle_model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner/src/models/kinematic_bicycle_model.cpp b/planner/src/models/kinematic_bicycle_model.cpp
index d1e8cd1..05e1ea7 100644
--- a/planner/src/models/kinematic_bicycle_model.cpp
+++ b/planner/src/models/kinematic_bicycle_model.cpp
@@ -21,6 +21,7 @@ namespace Planner {
 		// Update pose
 		if (abs(DthetaDdist) > 1e-9) {
 			to.theta += dist * DthetaDdist;
+			to.theta = to.WrapTheta();
 			to.x() += 1 / DthetaDdist * (sin(beta + to.theta) - sin(beta + from.theta));
 			to.y() += 1 / DthetaDdist * (-cos(beta + to.theta) + cos(beta + from.theta));
 		} else {
-- 
2.43.0


From ca47efd74a7579480244954adb9acf5fefcddf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:35 +0000
Subject: [PATCH 27/53] fix: nearest-node queries on an empty tree return no
 node

---
 planner/src/utils/tree.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/planner/src/utils/tree.h b/planner/src/utils/tree.h
index a751fce..3b512fe 100644
--- a/planner/src/utils/tree.h
+++ b/planner/src/utils/tree.h
@@ -73,7 +73,7 @@ namespace Planner {
 		std::vector<Node*> GetNearestNodes(const State& state, const unsigned int nn = 1)
 		{
 			std::vector<Node*> nodes;
-			if (nn == 0)
+			if (nn == 0 || m_exploredNodeMap.empty())
 				return nodes;
 
 			flann::Matrix<DataType> query;
@@ -98,9 +98,12 @@ namespace Planner {
 		/// @details This method searches a k-d tree of the points to determine
 		/// the nearest neighbor.
 		/// @param state The state whose closest neighbor must be find.
-		/// @return The nearest node to @state.
+		/// @return The nearest node to @state, or nullptr if the tree is empty.
 		Node* GetNearestNode(const State& state)
 		{
+			if (m_exploredNodeMap.empty())
+				return nullptr;
+
 			flann::Matrix<DataType> query;
 			query = flann::Matrix<DataType>((DataType*)&state, 1, sizeof(state) / sizeof(DataType));
 
-- 
2.43.0


From ebb4530b4e558ee06bc14a524fa375a2aa624d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:35 +0000
Subject: [PATCH 28/53] fix: creating a root node drops the nodes of the
 previous tree

---
 planner/src/utils/tree.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/planner/src/utils/tree.h b/planner/src/utils/tree.h
index 3b512fe..a86c20f 100644
--- a/planner/src/utils/tree.h
+++ b/planner/src/utils/tree.h
@@ -55,11 +55,14 @@ namespace Planner {
 			return (node->IsDescendantOf(m_rootNode.get()) || (node == m_rootNode.get()));
 		}
 
-		/// @brief Create the root node of the tree.
+		/// @brief Create the root node of the tree. The nodes of a previous tree
+		/// are deleted.
 		Node* CreateRootNode(const State& start)
 		{
-			m_rootNode = makeScope<Node>(start);
-			m_exploredNodeMap.insert({ start, m_rootNode.get() });
+			auto rootNode = makeScope<Node>(start);
+			Clear();
+			m_rootNode = std::move(rootNode);
+			m_exploredNodeMap.insert({ (*m_rootNode)->state, m_rootNode.get() });
 			m_kdTree.buildIndex(flann::Matrix<DataType>((DataType*)&((*m_rootNode)->state), 1, m_dimensions));
 			return m_rootNode.get();
 		}
-- 
2.43.0


From 52414d0ea7fc62b25113171c1f1db06bbe2e80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:54 +0000
Subject: [PATCH 29/53] fix: RRT and RRT* exceeded the iteration and node
 limits by one

---
 planner/src/algo/rrt.h      | 4 ++--
 planner/src/algo/rrt_star.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/rrt.h b/planner/src/algo/rrt.h
index 52206a7..bf0fbf1 100644
--- a/planner/src/algo/rrt.h
+++ b/planner/src/algo/rrt.h
@@ -61,10 +61,10 @@ namespace Planner {
 			int count = -1;
 			while (true) {
 				count++;
-				if (count > m_parameters.maxIteration) {
+				if (count >= m_parameters.maxIteration) {
 					return Status::Failure;
 				}
-				if (m_tree.Size() > m_parameters.maxNumberTreeNode) {
+				if (m_tree.Size() >= m_parameters.maxNumberTreeNode) {
 					return Status::Failure;
 				}
 
diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 8b21024..35c706f 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -59,10 +59,10 @@ namespace Planner {
 			int count = -1;
 			while (true) {
 				count++;
-				if (count > m_parameters.maxIteration) {
+				if (count >= m_parameters.maxIteration) {
 					return Status::Failure;
 				}
-				if (m_tree.Size() > m_parameters.maxNumberTreeNode) {
+				if (m_tree.Size() >= m_parameters.maxNumberTreeNode) {
 					return Status::Failure;
 				}
 
-- 
2.43.0


From 63e7d1272ed7d9375f44edcb66296686dc903355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:54 +0000
Subject: [PATCH 30/53] fix: RRT* connected a new node through an unvalidated
 path

---
 planner/src/algo/rrt_star.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 35c706f..5821d00 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -96,6 +96,14 @@ namespace Planner {
 					}
 				}
 
+				// The nearest node to the random state can reach the new state
+				// even if none of the nearest nodes to the new state can
+				if (!bestParentNode) {
+					bestParentNode = nearestNode;
+					bestCost = (*nearestNode)->info.costFromGoal + pathNearToNew->GetLength();
+					bestPath = pathNearToNew;
+				}
+
 				// Add the node to the tree
 				auto newNode = m_tree.Extend(newState, bestParentNode);
 				(*newNode)->info.costFromGoal = bestCost;
-- 
2.43.0


From 8300dda5084a211b2a827827e769002732e4b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:54 +0000
Subject: [PATCH 31/53] fix: RRT* overwrote the cost of a state already in the
 tree

---
 planner/src/algo/rrt_star.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 5821d00..daad989 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -105,9 +105,13 @@ namespace Planner {
 				}
 
 				// Add the node to the tree
+				const auto numberTreeNode = m_tree.Size();
 				auto newNode = m_tree.Extend(newState, bestParentNode);
-				(*newNode)->info.costFromGoal = bestCost;
-				(*newNode)->info.path = std::move(bestPath);
+				// The state may already be in the tree with another parent
+				if (m_tree.Size() > numberTreeNode) {
+					(*newNode)->info.costFromGoal = bestCost;
+					(*newNode)->info.path = std::move(bestPath);
+				}
 
 				// Check solution
 				if (IsSolution(newState)) {
-- 
2.43.0


From 1622ab6eb60d42f762bc033bfe50f315198d65ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:48 +0000
Subject: [PATCH 32/53] fix: data race on the pointer of the thread-safe
 singleton

---
 planner/src/utils/singleton.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/planner/src/utils/singleton.h b/planner/src/utils/singleton.h
index 2b8b6ae..06d32f5 100644
--- a/planner/src/utils/singleton.h
+++ b/planner/src/utils/singleton.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 
@@ -97,7 +98,8 @@ namespace Planner {
 		static T& Get()
 		{
 			// Prevents the lock-step required each time the instance is requested
-			if (!m_instance_ptr) {
+			T* instance = m_instance.load(std::memory_order_acquire);
+			if (!instance) {
 				// Lock is required here though, to prevent multiple threads
 				// initialising multiple instances of the class when it turns out it
 				// has not been initialised yet
@@ -106,9 +108,11 @@ namespace Planner {
 				// instance in the time it took to acquire a lock.
 				if (!m_instance_ptr) {
 					m_instance_ptr = std::unique_ptr<T>(new T());
+					m_instance.store(m_instance_ptr.get(), std::memory_order_release);
 				}
+				instance = m_instance_ptr.get();
 			}
-			return *m_instance_ptr;
+			return *instance;
 		}
 
 		/// @brief Provide global access to release/delete the instance.
@@ -116,6 +120,7 @@ namespace Planner {
 		{
 			std::lock_guard<std::mutex> lock(m_constructed);
 			if (m_instance_ptr) {
+				m_instance.store(nullptr, std::memory_order_release);
 				m_instance_ptr.reset();
 			}
 		}
@@ -125,6 +130,8 @@ namespace Planner {
 		~SingletonThreadSafe() = default;
 
 		static std::unique_ptr<T> m_instance_ptr;
+		/// @brief Pointer to the instance, read without holding the lock.
+		static std::atomic<T*> m_instance;
 		static std::mutex m_constructed;
 
 	private:
@@ -136,4 +143,6 @@ namespace Planner {
 	std::mutex SingletonThreadSafe<T>::m_constructed;
 	template <class T>
 	std::unique_ptr<T> SingletonThreadSafe<T>::m_instance_ptr = nullptr;
+	template <class T>
+	std::atomic<T*> SingletonThreadSafe<T>::m_instance = nullptr;
 }
-- 
2.43.0


From 3e8ef32c3ab751137370ca339c2ee84e829ed224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:11 +0000
Subject: [PATCH 33/53] fix: obstacle heuristic kept the first path found to a
 cell

The cost of a cell in the frontier was compared with itself, so that a shorter
path to it found later was ignored.
---
 planner/src/algo/heuristics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 76cbf29..f5eef83 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -142,7 +142,7 @@ namespace Planner {
 				} else if (inFrontier) {
 					// Check if the node in frontier has a higher cost than the
 					// current path, and if so replace it by child
-					if (inFrontier->value > m_cost[n.row][n.col]) {
+					if (inFrontier->value > pathCost) {
 						frontier.Remove({ n, 0.0f });
 						frontier.Push({ n, pathCost });
 						m_cost[n.row][n.col] = pathCost;
-- 
2.43.0


From 987c58b1af941611f71b249c41fb00a0c38dd472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:11 +0000
Subject: [PATCH 34/53] fix: obstacle heuristic ignored the cost multipliers on
 the straight line

With multipliers below 1 it overestimated the cost to the goal.
---
 planner/src/algo/heuristics.cpp | 5 +++--
 planner/src/algo/heuristics.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index f5eef83..bca91d5 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -96,7 +96,8 @@ namespace Planner {
 
 	ObstaclesHeuristic::ObstaclesHeuristic(const Ref<OccupancyMap>& map, double reverseCostMultiplier, double forwardCostMultiplier) :
 		diagonalResolution(std::sqrt(2) * map->resolution),
-		costMultiplier(std::min(reverseCostMultiplier, forwardCostMultiplier) * map->resolution),
+		distanceMultiplier(std::min(reverseCostMultiplier, forwardCostMultiplier)),
+		costMultiplier(distanceMultiplier * map->resolution),
 		m_map(map),
 		m_cost(map->Rows(), map->Columns(), std::numeric_limits<float>::infinity()),
 		m_explored(map->Rows(), map->Columns(), false)
@@ -154,7 +155,7 @@ namespace Planner {
 
 	double ObstaclesHeuristic::GetHeuristicValue(const Pose2d& state)
 	{
-		auto euclidean = (m_goal.position - state.position).norm();
+		double euclidean = distanceMultiplier * (m_goal.position - state.position).norm();
 		auto cell = m_map->WorldPositionToGridCell(state.position);
 		if (!cell.IsValid())
 			return euclidean;
diff --git a/planner/src/algo/heuristics.h b/planner/src/algo/heuristics.h
index 3157e3b..7a9b9ed 100644
--- a/planner/src/algo/heuristics.h
+++ b/planner/src/algo/heuristics.h
@@ -68,6 +68,7 @@ namespace Planner {
 
 	public:
 		const float diagonalResolution;
+		const float distanceMultiplier;
 		const float costMultiplier;
 
 	private:
-- 
2.43.0


From cce430e630a7443fb164c14fbcdc23085b7ef803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:11 +0000
Subject: [PATCH 35/53] fix: non-holonomic heuristic read out of its table for
 negative headings

---
 planner/src/algo/heuristics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index bca91d5..1b1cac3 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -81,7 +81,8 @@ namespace Planner {
 
 		int i = (int)round((delta.x() + offsetX) / spatialResolution);
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
-		int k = (int)round(delta.theta / angularResolution);
+		double theta = delta.theta < 0.0 ? delta.theta + 2 * M_PI : delta.theta;
+		int k = (int)round(theta / angularResolution);
 		if (k == numAngular)
 			k = 0;
 
-- 
2.43.0


From 06dbab40f03321656bf33b6a8cfa330b9228adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:11 +0000
Subject: [PATCH 36/53] fix: non-holonomic heuristic used the cost of the way
 back

The table was looked up with the pose of the goal relative to the state, but
held the cost to drive from there to the origin, which differs if the forward
and reverse multipliers do.
---
 planner/src/algo/heuristics.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 1b1cac3..ec9880f 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -60,12 +60,13 @@ namespace Planner {
 		const unsigned int& numSpatialY = heuristic->numSpatialY;
 		const unsigned int& numAngular = heuristic->numAngular;
 
-		const Pose2d goal(0.0, 0.0, 0.0);
+		// The table is indexed by the pose of the goal relative to the state
+		const Pose2d state(0.0, 0.0, 0.0);
 		for (int i = 0; i < numSpatialX; i++) {
 			for (int j = 0; j < numSpatialY; j++) {
 				for (int k = 0; k < numAngular; k++) {
-					Pose2d pose(i * spatialResolution - offsetX, j * spatialResolution - offsetY, k * angularResolution);
-					auto path = ReedsShepp::Solver::GetOptimalPath(pose, goal, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
+					Pose2d goal(i * spatialResolution - offsetX, j * spatialResolution - offsetY, k * angularResolution);
+					auto path = ReedsShepp::Solver::GetOptimalPath(state, goal, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 					values[i][j][k] = path.ComputeCost(minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 				}
 			}
-- 
2.43.0


From 5dc59e621f70b042338aac285720cf9141b58ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 37/53] fix: Hybrid A* kept the path of the previous search
 after a failure

---
 planner/src/algo/hybrid_a_star.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 00e5cd8..debddfc 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -241,6 +241,8 @@ namespace Planner {
 
 		// TODO create stats saving status of each step (graph search + optimization, number of iteration...)
 
+		m_path.clear();
+
 		if (!isInitialized) {
 			PP_ERROR("The algorithm has not been initialized successfully.");
 			return Status::Failure;
-- 
2.43.0


From 82cbb1716fdb2d7a0b73dcb1a9865984707cc9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 38/53] fix: Hybrid A* threw an exception if the initial state
 was the goal

The path without segments was interpolated.
---
 planner/src/algo/hybrid_a_star.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index debddfc..4c667e7 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -259,6 +259,13 @@ namespace Planner {
 		if (m_stats.graphSearchStatus < 0)
 			return m_stats.graphSearchStatus;
 
+		// Nothing to drive if the initial state is the goal
+		if (m_graphSearch.GetActions().empty()) {
+			m_path = { this->m_init };
+			m_stats.smoothingStatus = Smoother::Status::PathSize;
+			return m_stats.graphSearchStatus;
+		}
+
 		// Process path before smoothing
 		std::vector<Pose2d> graphSearchPath;
 		std::unordered_set<int> cuspIndices;
-- 
2.43.0


From 3bf9d5ede22be477714f97f7c9c6cbbca6458a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 39/53] fix: the path of Hybrid A* could miss the goal and cusp
 points

The last sample was dropped unless it was within half an interval of the end, and
cusp points closer to each other than the sampling interval, and those after
them, were never sampled.
---
 planner/src/algo/hybrid_a_star.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 4c667e7..3c1b980 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -282,18 +282,17 @@ namespace Planner {
 			cuspRatios.insert(0.0);
 			cuspRatios.insert(1.0);
 			ratios.reserve(pathLength / pathInterpolation + cuspRatios.size());
-			auto cuspRatioIt = cuspRatios.begin();
-			for (double length = 0.0; length <= pathLength; length += pathInterpolation) {
+			for (auto it = cuspRatios.begin(); it != cuspRatios.end(); it++) {
 				// Sample cusp point
-				double cuspLength = *cuspRatioIt * pathLength;
-				if (length >= cuspLength - pathInterpolation / 2 && length < cuspLength + pathInterpolation / 2) {
-					cuspIndices.insert(ratios.size());
-					ratios.push_back(*cuspRatioIt);
-					cuspRatioIt++;
-				} else {
-					// Sample at regular interval
+				cuspIndices.insert(ratios.size());
+				ratios.push_back(*it);
+				// Sample at regular interval up to the next cusp point
+				auto next = std::next(it);
+				if (next == cuspRatios.end())
+					break;
+				const double nextLength = *next * pathLength;
+				for (double length = *it * pathLength + pathInterpolation; length < nextLength - pathInterpolation / 2; length += pathInterpolation)
 					ratios.push_back(length / pathLength);
-				}
 			}
 
 			// Sample points
-- 
2.43.0


From ce50d3d0c2fea07de524423690688954b85efa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 40/53] fix: Hybrid A* exceeded the maximum steering angle with
 more than 5 motions

The angles were spread for 5 motions, whatever the number requested.
---
 planner/src/algo/hybrid_a_star.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 3c1b980..9179044 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -21,8 +21,9 @@ namespace Planner {
 		m_deltas.reserve(m_param.numGeneratedMotion);
 		const double deltaMax = m_model->GetSteeringAngleFromTurningRadius(m_param.minTurningRadius);
 		m_deltas.push_back(0.0);
-		for (unsigned int i = 0; i < m_param.numGeneratedMotion / 2; i++) {
-			double delta = (i + 1) / 2.0 * deltaMax;
+		const unsigned int numDeltas = m_param.numGeneratedMotion / 2;
+		for (unsigned int i = 0; i < numDeltas; i++) {
+			double delta = (i + 1) * deltaMax / numDeltas;
 			m_deltas.push_back(delta);
 			m_deltas.push_back(-delta);
 		}
-- 
2.43.0


From db0a7e1dddddb1406dc6ed5e1e72dcfb31ad7c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 41/53] fix: Hybrid A* ignored the direction switching cost
 between motions

The direction of the motion was compared with itself.
---
 planner/src/algo/hybrid_a_star.cpp | 15 ++++++++++++---
 planner/src/algo/hybrid_a_star.h   |  4 ++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 9179044..837f85d 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -110,6 +110,14 @@ namespace Planner {
 		return m_param.voronoiCostMultiplier * voronoiCost;
 	}
 
+	double HybridAStar::StatePropagator::GetSwitchingCost(const State& state, const PathNonHolonomicSE2Base& path) const
+	{
+		const Direction direction = path.GetDirection(0.0);
+		if (state.direction == Direction::NoMotion || direction == Direction::NoMotion || state.direction == direction)
+			return 0.0;
+		return m_param.directionSwitchingCost;
+	}
+
 	bool HybridAStar::StatePropagator::GetConstantSteerChild(const State& state, double delta, Direction direction, State& child, Action& action, double& cost) const
 	{
 		PP_PROFILE_FUNCTION();
@@ -141,7 +149,7 @@ namespace Planner {
 		default:
 			pathCost = 0.0;
 		}
-		double switchingCost = action.path->GetDirection(1.0) == action.path->GetDirection(1.0) ? 0.0 : m_param.directionSwitchingCost;
+		double switchingCost = GetSwitchingCost(state, *action.path);
 		double voronoiCost = GetVoronoiCost(*action.path);
 		cost = pathCost + switchingCost + voronoiCost;
 
@@ -162,8 +170,9 @@ namespace Planner {
 		if (!m_validator->IsPathValid(*path))
 			return false;
 
-		double pathAndSwitchingCosts = path->ComputeCost(m_param.directionSwitchingCost,
-			m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
+		double pathAndSwitchingCosts = GetSwitchingCost(state, *path)
+			+ path->ComputeCost(m_param.directionSwitchingCost,
+				m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
 		child = CreateStateFromPath(path);
 		action.path = std::move(path);
 
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 3aac712..75e83de 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -132,6 +132,10 @@ namespace Planner {
 		private:
 			double GetVoronoiCost(const PathNonHolonomicSE2Base& path) const;
 
+			/// @brief Cost of switching direction between @state and the
+			/// beginning of @path.
+			double GetSwitchingCost(const State& state, const PathNonHolonomicSE2Base& path) const;
+
 			/// @brief Update state assuming constant steer angle and bicycle
 			/// kinematic model.
 			/// @param[in] state The previous state.
-- 
2.43.0


From 3a8e24b4f9931ce55630fee9c695b095b1750422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 42/53] fix: Hybrid A* did not reach a goal heading backwards

Headings of pi and -pi were not considered as identical.
---
 planner/src/algo/hybrid_a_star.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 75e83de..43785f3 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -211,7 +211,7 @@ namespace Planner {
 		private:
 			inline bool IdenticalPoses(const Pose2d& lhs, const Pose2d& rhs, double tol = 1e-3)
 			{
-				return (lhs.position - rhs.position).norm() < tol && abs(lhs.theta - rhs.theta) < tol * M_PI / 180.0;
+				return (lhs.position - rhs.position).norm() < tol && std::abs((lhs - rhs).theta) < tol * M_PI / 180.0;
 			}
 		};
 
-- 
2.43.0


From 3e289063fc7820588d358be3137784f52148ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 43/53] fix: Hybrid A* failed if another pose in the cell of
 the goal was found first

The goal itself was then never added to the frontier, in particular if the
initial state was in the same cell.
---
 planner/src/algo/hybrid_a_star.cpp | 1 +
 planner/src/algo/hybrid_a_star.h   | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 837f85d..0c1cd18 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -174,6 +174,7 @@ namespace Planner {
 			+ path->ComputeCost(m_param.directionSwitchingCost,
 				m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
 		child = CreateStateFromPath(path);
+		child.discretePose = m_goalState.discretePose;
 		action.path = std::move(path);
 
 		// Compute transition cost
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 43785f3..8f5c9ee 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -123,6 +123,9 @@ namespace Planner {
 			State& SetGoalState(const Pose2d& goal)
 			{
 				m_goalState = CreateStateFromPose(goal);
+				// The goal has a cell of its own: a pose in the cell around it
+				// must not prevent it from being reached
+				m_goalState.discretePose.theta = std::numeric_limits<int>::max();
 				return m_goalState;
 			}
 
-- 
2.43.0


From c0aa32d11ab30bd70caa1a8476be194dea49e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 44/53] fix: the cells of Hybrid A* around zero were twice as
 large

Coordinates were rounded toward zero.
---
 planner/src/algo/hybrid_a_star.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 8f5c9ee..bbfd611 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -104,9 +104,9 @@ namespace Planner {
 			inline Pose2i DiscretizePose(const Pose2d& pose) const
 			{
 				return {
-					static_cast<int>(pose.x() / m_param.spatialResolution),
-					static_cast<int>(pose.y() / m_param.spatialResolution),
-					static_cast<int>(pose.WrapTheta() / m_param.angularResolution),
+					static_cast<int>(std::floor(pose.x() / m_param.spatialResolution)),
+					static_cast<int>(std::floor(pose.y() / m_param.spatialResolution)),
+					static_cast<int>(std::floor(pose.WrapTheta() / m_param.angularResolution)),
 				};
 			}
 
-- 
2.43.0


From c8d2f0addf126f1746809611e52c37271c688e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:27 +0000
Subject: [PATCH 45/53] fix: pull the smoothed path toward the original one

---
 planner/src/algo/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 877b74a..7db81fc 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -105,7 +105,7 @@ namespace Planner {
 				const Point2d& curr = m_currentPath[i].position;
 
 				// Original path term
-				gradients[i] += m_param.pathWeight * (path[i].position - curr);
+				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
 				if (m_map->IsInsideMap(curr)) {
 					// Collision term
-- 
2.43.0


From 864b61fb0c1e036dd19b1844b192c5d039423ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:31 +0000
Subject: [PATCH 46/53] fix: skip obstacle and Voronoi terms of the smoother
 when there is none

---
 planner/src/algo/smoother.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 7db81fc..30e9b20 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -107,7 +107,8 @@ namespace Planner {
 				// Original path term
 				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
-				if (m_map->IsInsideMap(curr)) {
+				// There is no nearest obstacle in an empty map
+				if (m_map->IsInsideMap(curr) && m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)).IsValid()) {
 					// Collision term
 					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)));
 					float obstDist = dirToClosestObs.norm();
@@ -117,8 +118,9 @@ namespace Planner {
 					// Voronoi term
 					const auto& alpha = m_gvd->alpha;
 					const auto& dMax = m_gvd->dMax;
-					if (obstDist < dMax && m_param.voronoiWeight > 0.0f) {
-						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr)));
+					const auto& voroCell = m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr));
+					if (obstDist < dMax && m_param.voronoiWeight > 0.0f && voroCell.IsValid()) {
+						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(voroCell);
 						float voroDist = dirToClosestVoroEdge.norm();
 
 						if (voroDist > 0.0f) {
-- 
2.43.0


From 1dbfa119a17894df2f65b4eaa32b84a910119abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:32 +0000
Subject: [PATCH 47/53] fix: bidirectional A* returned references to
 temporaries

---
 planner/src/algo/bidirectional_a_star.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 91d11ad..d1ecd13 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -90,12 +90,12 @@ namespace Planner {
 		/// @Brief Return the state-propagator used by the algorithm.
 		std::tuple<const Ref<AStarStatePropagator<State, Action>>&, const Ref<AStarStatePropagator<State, Action>>&> GetStatePropagators() const
 		{
-			return std::make_tuple(m_fSearch.GetStatePropagator(), m_rSearch.GetStatePropagator());
+			return std::tie(m_fSearch.GetStatePropagator(), m_rSearch.GetStatePropagator());
 		}
 		/// @brief Return the heuristic used by the algorithm
 		std::tuple<const Ref<AStarHeuristic<State>>&, const Ref<AStarHeuristic<State>>&> GetHeuristics() const
 		{
-			return std::make_tuple(m_fSearch.GetHeuristic(), m_rSearch.GetHeuristic());
+			return std::tie(m_fSearch.GetHeuristic(), m_rSearch.GetHeuristic());
 		}
 
 		/// @brief Initialize A* search.
-- 
2.43.0


From 5e907fe744928f332836ad7a6007d3d8229a40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:37 +0000
Subject: [PATCH 48/53] fix: escape the names of scopes in the profile

---
 planner/src/debug/profiler.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/planner/src/debug/profiler.cpp b/planner/src/debug/profiler.cpp
index 2cf4992..6f84435 100644
--- a/planner/src/debug/profiler.cpp
+++ b/planner/src/debug/profiler.cpp
@@ -5,6 +5,26 @@
 
 namespace Planner {
 
+	/// @brief Escape the characters that are not allowed in a JSON string.
+	static std::string EscapeString(const std::string& in)
+	{
+		static const char* digits = "0123456789abcdef";
+		std::string out;
+		for (char c : in) {
+			if (c == '"' || c == '\\') {
+				out += '\\';
+				out += c;
+			} else if (static_cast<unsigned char>(c) < 0x20) {
+				out += "\\u00";
+				out += digits[c >> 4];
+				out += digits[c & 0xf];
+			} else {
+				out += c;
+			}
+		}
+		return out;
+	}
+
 	void Profiler::BeginSession(const std::string& name, const std::string& filepath)
 	{
 		std::lock_guard lock(m_mutex);
@@ -41,7 +61,7 @@ namespace Planner {
 		json << ",\n{";
 		json << "\"cat\":\"function\",";
 		json << "\"dur\":" << (result.end - result.start) << ',';
-		json << "\"name\":\"" << result.name << "\",";
+		json << "\"name\":\"" << EscapeString(result.name) << "\",";
 		json << "\"ph\":\"X\",";
 		json << "\"pid\":0,";
 		json << "\"tid\":" << result.threadID << ",";
-- 
2.43.0


From 71678cb62f1345f597ee8a76e485717abeaced62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 49/53] fix: name the Python binding of
 OccupancyMap::IsOccupied is_occupied

The name had a stray parenthesis, so that the method could not be called.
---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index dc43dcb..12ccebf 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -348,7 +348,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def("update", &OccupancyMap::Update)
 		.def("set_position", &OccupancyMap::SetPosition)
 		.def("get_position", &OccupancyMap::GetPosition)
-		.def("is_occupied)", &OccupancyMap::IsOccupied)
+		.def("is_occupied", &OccupancyMap::IsOccupied)
 		.def<int (OccupancyMap::*)(const GridCellPosition&)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<int (OccupancyMap::*)(int, int)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<Ref<GVD::ObstacleDistanceMap>& (OccupancyMap::*)()>("get_obstacle_map", &OccupancyMap::GetObstacleDistanceMap)
-- 
2.43.0


From d69406e8946aea7eaa2f0d7125517a6ae17f0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 50/53] fix: a Python state validator validates paths with its
 IsPathValid

The trampoline called IsStateValid with the path and the ratio.
---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 12ccebf..d119a63 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -402,7 +402,7 @@ PYBIND11_MODULE(pyplanning, m)
 	struct StateValidatorSE2BaseWrapper : StateValidatorSE2Base {
 		using StateValidatorSE2Base::StateValidatorSE2Base;
 		virtual bool IsStateValid(const Pose2d& a) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a); }
-		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a, b); }
+		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsPathValid, a, b); }
 	};
 
 	class_<StateValidatorSE2Base, Ref<StateValidatorSE2Base>, StateValidatorSE2BaseWrapper>(m, "StateValidatorSE2Base")
-- 
2.43.0


From bd608c4ded34a0092eaf8f7af79230723e3eb8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:08 +0000
Subject: [PATCH 51/53] fix: keep Python objects alive while a planner uses
 them

A heuristic, map or validator implemented in Python died with the last
reference held by Python although a planner, validator or propagator still
used it, which then called a pure virtual function.
---
 interfaces/python/src/pyplanning.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index d119a63..838a46a 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -110,7 +110,7 @@ PYBIND11_MODULE(pyplanning, m)
 	class_<HybridAStar, PathPlannerSE2Base>(m, "HybridAStar")
 		.def(init<>())
 		.def(init<const HybridAStar::SearchParameters&>())
-		.def("initialize", &HybridAStar::Initialize)
+		.def("initialize", &HybridAStar::Initialize, keep_alive<1, 2>())
 		.def_readwrite("path_interpolation", &HybridAStar::pathInterpolation)
 		.def("get_stats", &HybridAStar::GetStats)
 		.def("get_graph_search_explored_path_set", &HybridAStar::GetGraphSearchExploredPathSet)
@@ -151,7 +151,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<>());
 
 	class_<AStarStatePropagatorFcnN2, Ref<AStarStatePropagatorFcnN2>, AStarStatePropagatorN2>(m, "AStarStatePropagatorFcnN2")
-		.def(init<const Ref<OccupancyMap>&, const std::function<double(const GridCellPosition&, const GridCellPosition&)>&>());
+		.def(init<const Ref<OccupancyMap>&, const std::function<double(const GridCellPosition&, const GridCellPosition&)>&>(), keep_alive<1, 2>());
 
 	class_<PathPlannerN2Base, PathPlannerN2BaseWrapper>(m, "PathPlannerN2Base")
 		.def(init<>())
@@ -168,7 +168,7 @@ PYBIND11_MODULE(pyplanning, m)
 
 	class_<PyAStarN2, PathPlannerN2Base>(m, "AStarN2")
 		.def(init<>())
-		.def("initialize", &AStarN2::Initialize)
+		.def("initialize", &AStarN2::Initialize, keep_alive<1, 2>(), keep_alive<1, 3>())
 		.def("get_explored_states", &PyAStarN2::GetExploredStates)
 		.def("get_optimal_cost", &AStarN2::GetOptimalCost);
 
@@ -192,7 +192,7 @@ PYBIND11_MODULE(pyplanning, m)
 	class_<PyBidirectionalAStarN2, PathPlannerN2Base>(m, "BidirectionalAStarN2")
 		.def(init<>())
 		.def_static("get_average_heuristic_pair", &BidirectionalAStarN2::GetAverageHeuristicPair)
-		.def("initialize", &BidirectionalAStarN2::Initialize)
+		.def("initialize", &BidirectionalAStarN2::Initialize, keep_alive<1, 2>(), keep_alive<1, 3>(), keep_alive<1, 4>(), keep_alive<1, 5>())
 		.def("get_explored_states", &PyBidirectionalAStarN2::GetExploredStates)
 		.def("get_optimal_cost", &BidirectionalAStarN2::GetOptimalCost);
 
@@ -415,13 +415,13 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<const Ref<StateSpaceSE2>&>());
 
 	class_<StateValidatorOccupancyMap, Ref<StateValidatorOccupancyMap>, StateValidatorSE2Base>(m, "StateValidatorOccupancyMap")
-		.def(init<const Ref<StateSpaceSE2>&, const Ref<OccupancyMap>&>())
+		.def(init<const Ref<StateSpaceSE2>&, const Ref<OccupancyMap>&>(), keep_alive<1, 3>())
 		.def("get_occupancy_map", &StateValidatorOccupancyMap::GetOccupancyMap)
 		.def_readwrite("min_path_interpolation_distance", &StateValidatorOccupancyMap::minPathInterpolationDistance)
 		.def_readwrite("min_safe_radius", &StateValidatorOccupancyMap::minSafeRadius);
 
 	class_<GVD>(m, "GVD")
-		.def(init<const Ref<OccupancyMap>&>())
+		.def(init<const Ref<OccupancyMap>&>(), keep_alive<1, 2>())
 		.def("update", &GVD::Update)
 		.def<float (GVD::*)(int, int) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
 		.def<float (GVD::*)(const GridCellPosition&) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
-- 
2.43.0


From 05a17c90af830a81dc628656750237dbd81087d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:22 +0000
Subject: [PATCH 52/53] fix: adding and subtracting points in Python

The operators returned an Eigen expression, which cannot be converted to a
Python object.
---
 interfaces/python/src/pyplanning.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 838a46a..7351bca 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -209,8 +209,8 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<double, double>())
 		.def<double& (Point2d::*)()>("x", &Point2d::x)
 		.def<double& (Point2d::*)()>("y", &Point2d::y)
-		.def(self + self)
-		.def(self - self)
+		.def("__add__", [](const Point2d& a, const Point2d& b) -> Point2d { return a + b; }, is_operator())
+		.def("__sub__", [](const Point2d& a, const Point2d& b) -> Point2d { return a - b; }, is_operator())
 		.def(self == self)
 		.def(self != self);
 
-- 
2.43.0


From d31e99747e36a426443b8dfc1ab0320bf37767af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:18 +0000
Subject: [PATCH 53/53] fix: do not report a single unsafe state as a smoothed
 path

---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 0c1cd18..5f2f0bb 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -273,7 +273,7 @@ namespace Planner {
 		// Nothing to drive if the initial state is the goal
 		if (m_graphSearch.GetActions().empty()) {
 			m_path = { this->m_init };
-			m_stats.smoothingStatus = Smoother::Status::PathSize;
+			m_stats.smoothingStatus = m_smoother.Smooth(m_path);
 			return m_stats.graphSearchStatus;
 		}
 
-- 
2.43.0

