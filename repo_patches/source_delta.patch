From 37c2c01b4504b23653037769f950df93dc8ecf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 01/51] fix: initialise the search task number in every
 GridAstar constructor

---
 planner_cspace/include/planner_cspace/grid_astar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 4536a0a..d490dee 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -157,9 +157,10 @@ public:
   {
   }
   explicit GridAstar(const Vec size)
+    : queue_size_limit_(0)
+    , search_task_num_(1)
   {
     reset(size);
-    queue_size_limit_ = 0;
   }
   void setQueueSizeLimit(const size_t size)
   {
-- 
2.43.0


From 6e2c6b4d4f41786c56c5abf2a1ddee01afb9d4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 02/51] fix: erase outdated distance map cells with the
 connectivity used to fill it

DistanceMap::update() erased cells through the four neighbours while
fillCostmap() fills through steps of up to four cells, so cells reached
only by a longer step kept outdated costs.
---
 planner_cspace/src/distance_map.cpp | 37 +++++++++++++----------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/planner_cspace/src/distance_map.cpp b/planner_cspace/src/distance_map.cpp
index e4bcb55..27ac3b3 100644
--- a/planner_cspace/src/distance_map.cpp
+++ b/planner_cspace/src/distance_map.cpp
@@ -304,32 +304,27 @@ void DistanceMap::update(
     const Astar::Vec p = center.v_;
     pq_erase_.pop();
 
-    if (g_[p] == std::numeric_limits<float>::max())
-      continue;
     g_[p] = std::numeric_limits<float>::max();
 
-    for (Astar::Vec d(-1, 0, 0); d[0] <= 1; d[0]++)
+    // Must use the same connectivity as fillCostmap. Otherwise, a cell reached only by a longer
+    // step is left with the outdated cost, and a longer step from the remaining area is ignored.
+    for (const SearchDiffs& ds : search_diffs_)
     {
-      for (d[1] = -1; d[1] <= 1; d[1]++)
+      const Astar::Vec next = p + ds.d;
+      if (static_cast<size_t>(next[0]) >= static_cast<size_t>(p_.size[0]) ||
+          static_cast<size_t>(next[1]) >= static_cast<size_t>(p_.size[1]))
+        continue;
+      const float gn = g_[next];
+      if (gn == std::numeric_limits<float>::max())
+        continue;
+      if (gn < cost_min)
       {
-        if (!((d[0] == 0) ^ (d[1] == 0)))
-          continue;
-        Astar::Vec next = p + d;
-        next[2] = 0;
-        if ((unsigned int)next[0] >= (unsigned int)p_.size[0] ||
-            (unsigned int)next[1] >= (unsigned int)p_.size[1])
-          continue;
-        const float gn = g_[next];
-        if (gn == std::numeric_limits<float>::max())
-          continue;
-        if (gn < cost_min)
-        {
-          pq_open_.emplace(gn, gn, next);
-          continue;
-        }
-        pq_erase_.emplace(0.0, 0.0, next);
-        edges_buf_[next[0] + next[1] * p_.size[0]] = false;
+        pq_open_.emplace(gn, gn, next);
+        continue;
       }
+      g_[next] = std::numeric_limits<float>::max();
+      pq_erase_.emplace(0.0, 0.0, next);
+      edges_buf_[next[0] + next[1] * p_.size[0]] = false;
     }
   }
 
-- 
2.43.0


From 072795248996c6475964c74c4c121087eb8c32a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 03/51] fix: reject joint messages without positions

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index eef5db9..5236414 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -177,6 +177,11 @@ private:
       ROS_ERROR("joint_state does not contain link group %s.", group_.c_str());
       return;
     }
+    if (static_cast<int>(msg->position.size()) <= std::max(id[0], id[1]))
+    {
+      ROS_ERROR("joint_state does not contain positions of link group %s.", group_.c_str());
+      return;
+    }
     links_[0].current_th_ = msg->position[id[0]];
     links_[1].current_th_ = msg->position[id[1]];
     has_joint_states_ = true;
@@ -211,6 +216,13 @@ private:
     {
       ROS_ERROR("single trajectory point required.");
     }
+    if (msg->points.empty() ||
+        static_cast<int>(msg->points[0].positions.size()) <= std::max(id_[0], id_[1]))
+    {
+      ROS_ERROR("joint_trajectory does not contain positions of link group %s.", group_.c_str());
+      id_[0] = id_[1] = -1;
+      return;
+    }
     decltype(cmd_prev_) cmd;
     cmd.first = msg->points[0].time_from_start;
     cmd.second.first = msg->points[0].positions[id_[0]];
-- 
2.43.0


From a5129d9b0aea14c77fae6e14135beb7d1d6aceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 04/51] fix: plan an all-zero first joint command and keep
 indices with their message

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 5236414..f39b46a 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -227,10 +227,11 @@ private:
     cmd.first = msg->points[0].time_from_start;
     cmd.second.first = msg->points[0].positions[id_[0]];
     cmd.second.second = msg->points[0].positions[id_[1]];
-    if (cmd_prev_ == cmd)
+    const bool repeated = !traj_prev_.points.empty() && cmd_prev_ == cmd;
+    traj_prev_ = *msg;
+    if (repeated)
       return;
     cmd_prev_ = cmd;
-    traj_prev_ = *msg;
     avg_vel_ = -1.0;
 
     replan();
-- 
2.43.0


From 66e0027e316d020b470bdf7c58e89918fa3ef744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 05/51] fix: accept negative replan_interval in joint planner

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index f39b46a..e626a73 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -186,9 +186,9 @@ private:
     links_[1].current_th_ = msg->position[id[1]];
     has_joint_states_ = true;
 
-    if ((replan_prev_ + replan_interval_ < ros::Time::now() ||
-         replan_prev_ == ros::Time(0)) &&
-        replan_interval_ > ros::Duration(0))
+    if (replan_interval_ > ros::Duration(0) &&
+        (replan_prev_ + replan_interval_ < ros::Time::now() ||
+         replan_prev_ == ros::Time(0)))
     {
       replan();
     }
-- 
2.43.0


From 001afb14fd2480d4d381fb3e35632599a37f7479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 06/51] fix: do not plan joint angles outside of the planning
 grid

---
 .../src/planner_2dof_serial_joints.cpp        | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index e626a73..7e78f69 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -558,9 +558,24 @@ private:
   }
   bool makePlan(const Astar::Vecf sg, const Astar::Vecf eg, std::list<Astar::Vecf>& path)
   {
-    Astar::Vec s, e;
-    metric2Grid(s, sg);
-    metric2Grid(e, eg);
+    const float full_turn = 2.0 * M_PI;
+    for (int i = 0; i < 2; ++i)
+    {
+      // comparison is false also for NaN
+      if (!(std::abs(sg[i]) <= full_turn && std::abs(eg[i]) <= full_turn))
+      {
+        ROS_WARN("Path plan failed (joint angle is out of range)");
+        status_.error = planner_cspace_msgs::PlannerStatus::PATH_NOT_FOUND;
+        return false;
+      }
+    }
+    Astar::Vec s_raw, e_raw;
+    metric2Grid(s_raw, sg);
+    metric2Grid(e_raw, eg);
+    // +2pi is out of the grid but equivalent to -2pi
+    Astar::Vec s = s_raw, e = e_raw;
+    s.cycleUnsigned(resolution_ * 2, resolution_ * 2);
+    e.cycleUnsigned(resolution_ * 2, resolution_ * 2);
     ROS_INFO("Planning from (%d, %d) to (%d, %d)",
              s[0], s[1], e[0], e[1]);
 
@@ -611,7 +626,7 @@ private:
     //   std::chrono::duration<float>(tnow - ts).count());
 
     bool first = false;
-    Astar::Vec n_prev = s;
+    Astar::Vec n_prev = s_raw;
     path.push_back(sg);
     int i = 0;
     for (auto& n : path_grid)
-- 
2.43.0


From 54222620b7fe17e5ef28071f298f46860682e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 07/51] fix: output the checked direction of the direct joint
 motion

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 7e78f69..5c986f5 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -600,7 +600,12 @@ private:
     if (model_->cost(s, e, starts, e) >= model_->euclidCost(d))
     {
       path.push_back(sg);
-      path.push_back(eg);
+      // Collision is checked on the shortest rotation from the start
+      const Astar::Vec turn = s_raw + d - e_raw;
+      path.push_back(
+          Astar::Vecf(
+              static_cast<float>(eg[0] + turn[0] * 2.0 * M_PI / resolution_),
+              static_cast<float>(eg[1] + turn[1] * 2.0 * M_PI / resolution_)));
       if (s == e)
       {
         replan_prev_ = ros::Time(0);
-- 
2.43.0


From f017a3546973702caccd825ad1f10e56ab58b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 08/51] fix: avoid zero division on joint command to the
 current position

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 5c986f5..67f2d1f 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -281,7 +281,7 @@ private:
             pos_sum += diff_max;
           }
         }
-        if (traj_prev_.points[0].time_from_start <= ros::Duration(0))
+        if (traj_prev_.points[0].time_from_start <= ros::Duration(0) || pos_sum <= 0)
         {
           avg_vel_ = std::min(links_[0].vmax_, links_[1].vmax_);
         }
-- 
2.43.0


From 3773e5e5e7baa88aaf4c2e9875613f86fb7f8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 09/51] fix: do not update the best node from multiple threads
 without ordering

---
 planner_cspace/include/planner_cspace/grid_astar.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index d490dee..d20f472 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -296,6 +296,8 @@ protected:
           break;
         updates.clear();
         dont.clear();
+        int local_cost_estim_min = std::numeric_limits<int>::max();
+        Vec local_better;
 
 #pragma omp for schedule(static)
         for (auto it = centers.cbegin(); it < centers.cend(); ++it)
@@ -307,10 +309,10 @@ protected:
           if (c > gp)
             continue;
 
-          if (c_estim - c < cost_estim_min)
+          if (c_estim - c < local_cost_estim_min)
           {
-            cost_estim_min = c_estim - c;
-            better = p;
+            local_cost_estim_min = c_estim - c;
+            local_better = p;
           }
 
           const std::vector<Vec> search_list = model->searchGrids(p, ss_normalized, e);
@@ -350,6 +352,11 @@ protected:
 #pragma omp barrier
 #pragma omp critical
         {
+          if (local_cost_estim_min < cost_estim_min)
+          {
+            cost_estim_min = local_cost_estim_min;
+            better = local_better;
+          }
           for (const GridmapUpdate& u : updates)
           {
             if (g[u.getPos()] > u.getCost())
-- 
2.43.0


From e051190a7222fcf4f0da315d2a5a68b550b49abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 10/51] fix: do not write the negative cost flag from multiple
 threads without ordering

---
 planner_cspace/src/distance_map.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/distance_map.cpp b/planner_cspace/src/distance_map.cpp
index 27ac3b3..fe2108f 100644
--- a/planner_cspace/src/distance_map.cpp
+++ b/planner_cspace/src/distance_map.cpp
@@ -95,6 +95,7 @@ void DistanceMap::fillCostmap(
         break;
       updates.clear();
       edge_indexes.clear();
+      bool has_negative_cost = false;
 
 #pragma omp for schedule(static)
       for (auto it = centers.cbegin(); it < centers.cend(); ++it)
@@ -149,7 +150,7 @@ void DistanceMap::fillCostmap(
             if (cost < 0)
             {
               cost = 0;
-              debug_data_.has_negative_cost = true;
+              has_negative_cost = true;
             }
           }
 
@@ -163,6 +164,8 @@ void DistanceMap::fillCostmap(
 #pragma omp barrier
 #pragma omp critical
       {
+        if (has_negative_cost)
+          debug_data_.has_negative_cost = true;
         for (const Astar::GridmapUpdate& u : updates)
         {
           if (g_[u.getPos()] > u.getCost())
-- 
2.43.0


From ddb3dd1a469a1326b962e235d91ff990e00c4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 11/51] fix: do not skip C-Space expansion of obstacle cells
 which neighbors do not cover

Expansion of an obstacle cell was limited to the directions in which the
neighbor cell had lower cost. It drops the C-Space of footprints whose
rows do not contain the obstacle cell, e.g. elongated footprint with
diagonal heading beside a wall.
---
 .../costmap_3d_layer/footprint.h              | 50 ++++++++++++++++---
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
index 5553935..3a6f017 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
@@ -271,23 +271,57 @@ protected:
     }
   }
 
+  // Check that every template cell has a neighbor nearer to the center with higher or equal cost
+  bool isTemplateConnected(const size_t yaw) const
+  {
+    for (int y = -range_max_; y <= range_max_; ++y)
+    {
+      for (int x = -range_max_; x <= range_max_; ++x)
+      {
+        const char cost = cs_template_.e(x, y, yaw);
+        if (cost <= 0 || (x == 0 && y == 0))
+          continue;
+        bool connected = false;
+        for (int ny = std::max(y - 1, -range_max_); !connected && ny <= std::min(y + 1, range_max_); ++ny)
+        {
+          for (int nx = std::max(x - 1, -range_max_); !connected && nx <= std::min(x + 1, range_max_); ++nx)
+          {
+            connected = nx * nx + ny * ny < x * x + y * y && cs_template_.e(nx, ny, yaw) >= cost;
+          }
+        }
+        if (!connected)
+          return false;
+      }
+    }
+    return true;
+  }
+
   void generateSpecifiedCSpace(
       CSpace3DMsg::Ptr map,
       const nav_msgs::OccupancyGrid::ConstPtr& msg,
       const size_t yaw)
   {
+    // Cells surrounded by the cells with higher or equal cost can be skipped
+    // since the surrounding cells fill their C-Space.
     const auto getMaskedRange = [this, msg](const int pos, Rect& result)
     {
-      const int gx = pos % msg->info.width;
-      const int gy = pos / msg->info.width;
+      const int width = msg->info.width;
+      const int gx = pos % width;
+      const int gy = pos / width;
       const int8_t* const ptr = msg->data.data() + pos;
-      result.x_min = (gx == 0 || (*(ptr - 1) >= *ptr)) ? 0 : -range_max_;
-      result.x_max = (gx == static_cast<int>(msg->info.width) - 1 || (*(ptr + 1) >= *ptr)) ? 0 : range_max_;
-      result.y_min = (gy == 0 || (*(ptr - msg->info.width) >= *ptr)) ? 0 : -range_max_;
-      result.y_max =
-          (gy == static_cast<int>(msg->info.height) - 1 || (*(ptr + msg->info.width) >= *ptr)) ? 0 : range_max_;
+      bool surrounded =
+          gx > 0 && gx < width - 1 && gy > 0 && gy < static_cast<int>(msg->info.height) - 1;
+      for (int dy = -1; surrounded && dy <= 1; ++dy)
+      {
+        for (int dx = -1; surrounded && dx <= 1; ++dx)
+        {
+          surrounded = *(ptr + dy * width + dx) >= *ptr;
+        }
+      }
+      const int range = surrounded ? 0 : range_max_;
+      result = {-range, range, -range, range};
     };
-    const auto getRange = (msg->info.resolution == map->info.linear_resolution) ?
+    const auto getRange = (msg->info.resolution == map->info.linear_resolution && isTemplateConnected(yaw)) ?
                               getMaskedRange :
                               std::function<void(const int, Rect&)>([](const int, Rect&) {});
 
-- 
2.43.0


From 7e24631c2da033acbfbee9fd1735eccdb7cece6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 12/51] fix: apply linear_spread_min_cost to the overlay layer
 of the single layer mode

---
 costmap_cspace/src/costmap_3d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costmap_cspace/src/costmap_3d.cpp b/costmap_cspace/src/costmap_3d.cpp
index 3b6a436..31c6c79 100644
--- a/costmap_cspace/src/costmap_3d.cpp
+++ b/costmap_cspace/src/costmap_3d.cpp
@@ -369,6 +369,7 @@ public:
       layer_xml["footprint"] = footprint_xml;
       layer_xml["linear_expand"] = linear_expand;
       layer_xml["linear_spread"] = linear_spread;
+      layer_xml["linear_spread_min_cost"] = linear_spread_min_cost;
 
       auto layer = costmap_->addLayer<costmap_cspace::Costmap3dLayerFootprint>(overlay_mode);
       layer->loadConfig(layer_xml);
-- 
2.43.0


From f0c07e138b82ae99fc289f96fd20c27f94a90ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 13/51] fix: clear costs of the previous overlay from all child
 layers

Costs spread out of the overlaid region were never cleared, and the child
layers were not informed about the region cleared by the parent layer.
---
 .../costmap_cspace/costmap_3d_layer/base.h      |  9 +++++++--
 .../costmap_cspace/costmap_3d_layer/output.h    | 17 ++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
index 81589dc..7e724a2 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
@@ -404,9 +404,13 @@ protected:
     region_.merge(region);
     region_.normalize(map_->info.width, map_->info.height);
 
+    // Costs are spread out of the overlaid region up to the range of the layer.
+    const bool updated = region_.width_ > 0 && region_.height_ > 0;
     auto region_prev_now = region_;
     region_prev_now.merge(region_prev_);
-    region_prev_ = region_;
+    region_prev_now.expand(getRangeMax());
+    if (updated)
+      region_prev_ = region_;
 
     region_prev_now.bitblt(map_overlay_, map_);
     if (map_updated_)
@@ -426,7 +430,8 @@ protected:
 
     if (child_)
     {
-      return child_->updateChainEntry(region_, output);
+      // The region cleared from this layer must be cleared from the children as well.
+      return child_->updateChainEntry(updated ? region_prev_now : region_, output);
     }
     return false;
   }
diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h
index a11271e..3fe4db2 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h
@@ -51,7 +51,6 @@ public:
 
 protected:
   CALLBACK cb_;
-  UpdatedRegion region_prev_;
 
 public:
   void loadConfig(XmlRpc::XmlRpcValue config)
@@ -100,15 +99,18 @@ public:
   using Ptr = std::shared_ptr<Costmap3dUpdateLayerOutput>;
 
 protected:
+  UpdatedRegion region_unpublished_;
+
   bool updateChain(const bool output)
   {
-    auto update_msg = generateUpdateMsg();
-    if (cb_ && output)
+    const bool publish = cb_ && output;
+    auto update_msg = generateUpdateMsg(publish);
+    if (publish)
       return cb_(map_, update_msg);
     return true;
   }
 
-  costmap_cspace_msgs::CSpace3DUpdate::Ptr generateUpdateMsg()
+  costmap_cspace_msgs::CSpace3DUpdate::Ptr generateUpdateMsg(const bool publish)
   {
     costmap_cspace_msgs::CSpace3DUpdate::Ptr update_msg(new costmap_cspace_msgs::CSpace3DUpdate);
     update_msg->header = map_->header;
@@ -118,10 +120,11 @@ protected:
     region.normalize(map_->info.width, map_->info.height);
 
     UpdatedRegion region_merged = region;
-    region_merged.merge(region_prev_);
+    region_merged.merge(region_unpublished_);
     region_merged.normalize(map_->info.width, map_->info.height);
 
-    region_prev_ = region;
+    const bool empty = region.width_ == 0 || region.height_ == 0;
+    region_unpublished_ = publish && !empty ? UpdatedRegion() : region_merged;
     region_ = UpdatedRegion();
 
     update_msg->x = region_merged.x_;
@@ -136,7 +139,7 @@ protected:
             (update_msg->y + update_msg->height) <=
         map_->info.width * map_->info.height);
 
-    if (region.width_ == 0 || region.height_ == 0)
+    if (empty)
     {
       update_msg->width = update_msg->height = 0;
       return update_msg;
-- 
2.43.0


From ddd4459a7a38e20667c6debf9b8617731e01dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 14/51] fix: do not use negative control interval for odometry
 stamps going back

---
 trajectory_tracker/src/trajectory_tracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 4e26ee8..37ba6cf 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -328,7 +328,7 @@ void TrackerNode::cbOdometry(const nav_msgs::Odometry::ConstPtr& odom)
 
   if (prev_odom_stamp_ != ros::Time())
   {
-    const double dt = std::min(max_dt_, (odom->header.stamp - prev_odom_stamp_).toSec());
+    const double dt = std::max(0.0, std::min(max_dt_, (odom->header.stamp - prev_odom_stamp_).toSec()));
     nav_msgs::Odometry odom_compensated = *odom;
     Eigen::Vector3d prediction_offset(0, 0, 0);
     if (predict_odom_)
-- 
2.43.0


From ab6c586e7ac4d043ae1ecf2d48a53fef441b2373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 15/51] fix: stop the robot if its pose is unavailable

---
 trajectory_tracker/src/trajectory_tracker.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 37ba6cf..69a7d99 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -367,6 +367,13 @@ void TrackerNode::cbTimer(const ros::TimerEvent& event)
   catch (tf2::TransformException& e)
   {
     ROS_WARN_THROTTLE(1, "TF exception: %s", e.what());
+    v_lim_.clear();
+    w_lim_.clear();
+    geometry_msgs::Twist cmd_vel;
+    cmd_vel.linear.x = 0.0;
+    cmd_vel.angular.z = 0.0;
+    pub_vel_.publish(cmd_vel);
+
     trajectory_tracker_msgs::TrajectoryTrackerStatus status;
     status.header.stamp = ros::Time::now();
     status.distance_remains = 0.0;
-- 
2.43.0


From 4557b5969cac328a5a2437a6c8eef951f8168af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 16/51] fix: respect max_acc while limit_vel_by_avel is working

---
 trajectory_tracker/src/trajectory_tracker.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 69a7d99..94b2ab0 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -471,18 +471,17 @@ void TrackerNode::control(
       }
       else
       {
-        v_lim_.set(
-            trajectory_tracker::timeOptimalControl(tracking_result.signed_local_distance, acc_toc_[0]),
-            tracking_result.target_linear_vel, acc_[0], dt);
+        float vref = trajectory_tracker::timeOptimalControl(tracking_result.signed_local_distance, acc_toc_[0]);
+        if (limit_vel_by_avel_ && tracking_result.tracking_point_curv != 0.0)
+        {
+          vref = trajectory_tracker::clip(vref, std::abs(vel_[1] / tracking_result.tracking_point_curv));
+        }
+        v_lim_.set(vref, tracking_result.target_linear_vel, acc_[0], dt);
 
         float wref = std::abs(v_lim_.get()) * tracking_result.tracking_point_curv;
-
-        if (limit_vel_by_avel_ && std::abs(wref) > vel_[1])
+        if (limit_vel_by_avel_)
         {
-          v_lim_.set(
-              std::copysign(1.0, v_lim_.get()) * std::abs(vel_[1] / tracking_result.tracking_point_curv),
-              tracking_result.target_linear_vel, acc_[0], dt);
-          wref = std::copysign(1.0, wref) * vel_[1];
+          wref = trajectory_tracker::clip(wref, vel_[1]);
         }
 
         const double k_ang =
-- 
2.43.0


From 92c0733bb7c0f9ce67844d12ddb379b3139ffd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 17/51] fix: stop if robot is far from the path around its
 corners

---
 trajectory_tracker/src/trajectory_tracker.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 94b2ab0..ed89048 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -663,12 +663,9 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
   else
   {
     // Too far from given path
-    float dist_from_path = dist_err;
-    if (i_nearest == 0)
-      dist_from_path = -(lpath[i_nearest].pos_ - origin).norm();
-    else if (i_nearest + 1 >= static_cast<int>(path_.size()))
-      dist_from_path = -(lpath[i_nearest].pos_ - origin).norm();
-    if (std::abs(dist_from_path) > d_stop_)
+    const float dist_from_path = trajectory_tracker::lineStripDistance(
+        lpath[i_nearest_prev].pos_, lpath[i_nearest].pos_, origin);
+    if (dist_from_path > d_stop_)
     {
       result.distance_remains = distance_remains;
       result.distance_remains_raw = distance_remains_raw;
-- 
2.43.0


From 0e686ee2d28058e7408e371dd06496ed63e65dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 18/51] fix: reject negative infinite path velocity

---
 trajectory_tracker/src/trajectory_tracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index ed89048..86470d2 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -291,7 +291,7 @@ void TrackerNode::cbPath(const typename MSG_TYPE::ConstPtr& msg)
   path_.fromMsg(*msg, epsilon_);
   for (const auto& path_pose : path_)
   {
-    if (std::isfinite(path_pose.velocity_) && path_pose.velocity_ < -0.0)
+    if (path_pose.velocity_ < -0.0)
     {
       ROS_ERROR_THROTTLE(1.0, "path_velocity.velocity.x must be positive");
       path_.clear();
-- 
2.43.0


From 13c354b75da4abe0b0a9edb2ccb61104db40c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 19/51] fix: ignore invalid speed override

---
 trajectory_tracker/src/trajectory_tracker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 86470d2..439fe14 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -279,6 +279,11 @@ TrackerNode::~TrackerNode()
 
 void TrackerNode::cbSpeed(const std_msgs::Float32::ConstPtr& msg)
 {
+  if (!std::isfinite(msg->data) || msg->data < 0.0)
+  {
+    ROS_ERROR_THROTTLE(1.0, "speed must be finite and must not be negative");
+    return;
+  }
   vel_[0] = msg->data;
 }
 
-- 
2.43.0


From 5d9d07ca5571d438813f9ae3bc356f04c1394f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 20/51] fix: restart search of the path if path_step is changed

---
 trajectory_tracker/src/trajectory_tracker.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 439fe14..af35ffb 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -191,7 +191,9 @@ private:
 };
 
 TrackerNode::TrackerNode()
-  : nh_()
+  : path_step_(1)
+  , path_step_done_(0)
+  , nh_()
   , pnh_("~")
   , tfl_(tfbuf_)
   , is_path_updated_(false)
@@ -250,7 +252,13 @@ void TrackerNode::cbParameter(const TrajectoryTrackerConfig& config, const uint3
   acc_[1] = config.max_angacc;
   acc_toc_[0] = acc_[0] * config.acc_toc_factor;
   acc_toc_[1] = acc_[1] * config.angacc_toc_factor;
-  path_step_ = config.path_step;
+  if (path_step_ != config.path_step)
+  {
+    // Indices on the decimated path are changed.
+    path_step_ = config.path_step;
+    path_step_done_ = 0;
+    is_path_updated_ = true;
+  }
   goal_tolerance_dist_ = config.goal_tolerance_dist;
   goal_tolerance_ang_ = config.goal_tolerance_ang;
   stop_tolerance_dist_ = config.stop_tolerance_dist;
-- 
2.43.0


From 265acc32e1b3f231b139d6b89ad366cc210b927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 21/51] fix: find current position on paths with long line
 strips

---
 .../include/trajectory_tracker/path2d.h         |  5 +++--
 trajectory_tracker/src/trajectory_tracker.cpp   | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/trajectory_tracker/include/trajectory_tracker/path2d.h b/trajectory_tracker/include/trajectory_tracker/path2d.h
index 298a4a1..6304fd6 100644
--- a/trajectory_tracker/include/trajectory_tracker/path2d.h
+++ b/trajectory_tracker/include/trajectory_tracker/path2d.h
@@ -199,10 +199,11 @@ public:
     ConstIterator it_prev = begin;
     for (ConstIterator it = begin + 1; it < end; ++it)
     {
-      const Eigen::Vector2d inc = it->pos_ - it_prev->pos_;
-      distance_path_search += inc.norm();
+      // Search all line strips which start within the range
       if (max_search_range > 0 && distance_path_search > max_search_range)
         break;
+      const Eigen::Vector2d inc = it->pos_ - it_prev->pos_;
+      distance_path_search += inc.norm();
 
       const float d =
           trajectory_tracker::lineStripDistanceSigned(it_prev->pos_, it->pos_, target);
diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index af35ffb..51a83ae 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -586,7 +586,22 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
   const trajectory_tracker::Path2D::ConstIterator it_local_goal =
       lpath.findLocalGoal(lpath.cbegin() + path_step_done_, lpath.cend(), allow_backward_);
 
-  const float max_search_range = (path_step_done_ > 0) ? 1.0 : 0.0;
+  float max_search_range = 0.0;
+  if (path_step_done_ > 0)
+  {
+    max_search_range = 1.0;
+    if (path_step_done_ + 1 < static_cast<int>(lpath.size()))
+    {
+      // Count the range from the robot if the current line strip is long.
+      const Eigen::Vector2d strip = lpath[path_step_done_ + 1].pos_ - lpath[path_step_done_].pos_;
+      const double strip_length = strip.norm();
+      if (strip_length > 0)
+      {
+        const double done = strip.dot(origin - lpath[path_step_done_].pos_) / strip_length;
+        max_search_range += std::max(0.0, std::min(strip_length, done));
+      }
+    }
+  }
   const trajectory_tracker::Path2D::ConstIterator it_nearest =
       lpath.findNearest(lpath.cbegin() + path_step_done_, it_local_goal, origin,
                         max_search_range, epsilon_);
-- 
2.43.0


From 5270ef08ca912035091a9a81125937ba67e992b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 22/51] fix: track first line strip after switching back

---
 trajectory_tracker/src/trajectory_tracker.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 51a83ae..dbf823b 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -729,7 +729,13 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
   }
 
   if (arrive_local_goal)
-    result.path_step_done = i_local_goal;
+  {
+    // Line strip to the local goal is already done if it is in-place turning, and is going to be tracked if it is
+    // switching back.
+    const bool in_place_local_goal =
+        (lpath[i_local_goal].pos_ - lpath[i_local_goal - 1].pos_).squaredNorm() < 1e-6;
+    result.path_step_done = in_place_local_goal ? i_local_goal : i_local_goal - 1;
+  }
   else
     result.path_step_done = std::max(path_step_done_, i_nearest - 1);
 
-- 
2.43.0


From a5cd3a4b2686d08a6ece600c764617899e7194b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 23/51] fix: stop as soon as the last cloud is older than the
 timeout

---
 safety_limiter/src/safety_limiter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index ea1307e..7db8b99 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -718,7 +718,8 @@ protected:
     {
       pub_twist_.publish(limitMaxVelocities(twist_));
     }
-    else if (!has_cloud_ || watchdog_stop_)
+    else if (!has_cloud_ || watchdog_stop_ ||
+             now - last_cloud_stamp_ > ros::Duration(timeout_))
     {
       geometry_msgs::Twist cmd_vel;
       pub_twist_.publish(cmd_vel);
-- 
2.43.0


From d066f085ea649f5e58fe4b4315f88ab4f0a516a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 24/51] fix: keep the velocity limit on reconfiguration

---
 safety_limiter/src/safety_limiter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index 7db8b99..a70e566 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -162,6 +162,7 @@ public:
     , tfl_(tfbuf_)
     , cloud_accum_(new pcl::PointCloud<pcl::PointXYZ>)
     , cloud_clear_(false)
+    , r_lim_(1.0)
     , last_disable_cmd_(0)
     , watchdog_stop_(false)
     , has_cloud_(false)
@@ -349,7 +350,6 @@ protected:
     }
     tmax_ *= 1.5;
     tmax_ += std::max(d_margin_ / vel_[0], yaw_margin_ / vel_[1]);
-    r_lim_ = 1.0;
   }
   double predict(const geometry_msgs::Twist& in)
   {
-- 
2.43.0


From fc6bea439b71a41bf901dee7cf003228a945ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 25/51] fix: keep the accumulated cloud in the fixed frame on
 prediction

---
 safety_limiter/src/safety_limiter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index a70e566..d372257 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -391,11 +391,12 @@ protected:
             fixed_to_base.transform.rotation.x,
             fixed_to_base.transform.rotation.y,
             fixed_to_base.transform.rotation.z);
-    pcl::transformPointCloud(*cloud_accum_, *cloud_accum_, fixed_to_base_eigen);
+    pcl::PointCloud<pcl::PointXYZ>::Ptr cloud_base(new pcl::PointCloud<pcl::PointXYZ>);
+    pcl::transformPointCloud(*cloud_accum_, *cloud_base, fixed_to_base_eigen);
 
     pcl::PointCloud<pcl::PointXYZ>::Ptr pc(new pcl::PointCloud<pcl::PointXYZ>);
     pcl::VoxelGrid<pcl::PointXYZ> ds;
-    ds.setInputCloud(cloud_accum_);
+    ds.setInputCloud(cloud_base);
     ds.setLeafSize(downsample_grid_, downsample_grid_, downsample_grid_);
     ds.filter(*pc);
 
-- 
2.43.0


From a97d05b4c05c1068ef14ec0f3c86b523ab8eab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 26/51] fix: predict from the latest robot pose

---
 safety_limiter/src/safety_limiter.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index d372257..500395f 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -363,17 +363,11 @@ protected:
       return 0.0;
     }
 
-    const bool can_transform = tfbuf_.canTransform(
-        base_frame_id_, cloud_accum_->header.frame_id,
-        pcl_conversions::fromPCL(cloud_accum_->header.stamp));
-    const ros::Time stamp =
-        can_transform ? pcl_conversions::fromPCL(cloud_accum_->header.stamp) : ros::Time(0);
-
     geometry_msgs::TransformStamped fixed_to_base;
     try
     {
       fixed_to_base = tfbuf_.lookupTransform(
-          base_frame_id_, cloud_accum_->header.frame_id, stamp);
+          base_frame_id_, cloud_accum_->header.frame_id, ros::Time(0));
     }
     catch (tf2::TransformException& e)
     {
-- 
2.43.0


From 8a2aa53c1e34f05e3e43498724e378de57b6eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 27/51] fix: keep the decay of height and slip stable over long
 gaps

---
 track_odometry/src/track_odometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index 15e85b9..4bf5a48 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -232,7 +232,7 @@ private:
       if (w_imu * w_odom < 0 && !negative_slip_)
         w_imu = w_odom;
 
-      slip_.predict(-slip_.x_ * dt * predict_filter_tc_, dt * sigma_predict_);
+      slip_.predict(-slip_.x_ * std::min(1.0, dt * predict_filter_tc_), dt * sigma_predict_);
       if (std::abs(w_odom) > sigma_odom_ * 3)
       {
         // non-kf mode: calculate slip_ratio if angular vel < 3*sigma
@@ -272,7 +272,7 @@ private:
 
       odom.pose.pose.position = toPoint(toEigen(odom_prev_.pose.pose.position) + v);
       if (z_filter_timeconst_ > 0)
-        odom.pose.pose.position.z *= 1.0 - (dt / z_filter_timeconst_);
+        odom.pose.pose.position.z *= 1.0 - std::min(1.0, dt / z_filter_timeconst_);
 
       odom.child_frame_id = base_link_id_;
       pub_odom_.publish(odom);
-- 
2.43.0


From c288cb8211b0ebd1055f1dfdab1638533d7f18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 28/51] fix: refer to the area of the right floor

---
 map_organizer/src/pointcloud_to_maps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/map_organizer/src/pointcloud_to_maps.cpp b/map_organizer/src/pointcloud_to_maps.cpp
index 7bad9fe..e5a88f7 100644
--- a/map_organizer/src/pointcloud_to_maps.cpp
+++ b/map_organizer/src/pointcloud_to_maps.cpp
@@ -229,8 +229,8 @@ public:
     auto it_prev = maps.rbegin();
     for (auto it = maps.rbegin() + 1; it != maps.rend() && it_prev != maps.rend(); it++)
     {
-      const int h = it->info.origin.position.z / grid;
-      const int h_prev = it_prev->info.origin.position.z / grid;
+      const int h = std::lround(it->info.origin.position.z / grid);
+      const int h_prev = std::lround(it_prev->info.origin.position.z / grid);
       if (std::abs(it_prev->info.origin.position.z - it->info.origin.position.z) < grid * 1.5)
       {
         // merge slopes
@@ -280,7 +280,7 @@ public:
     for (auto& map : maps)
     {
       num++;
-      int h = map.info.origin.position.z / grid;
+      const int h = std::lround(map.info.origin.position.z / grid);
       if (floor_runnable_area[h] < min_floor_area)
       {
         ROS_WARN("floor %d (%5.2fm^2), h = %0.2fm skipped",
-- 
2.43.0


From 8302556aa8a4da54f964a5d31180a9525a4d8f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 29/51] fix: put points of negative coordinates into the right
 cell

---
 map_organizer/src/pointcloud_to_maps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/map_organizer/src/pointcloud_to_maps.cpp b/map_organizer/src/pointcloud_to_maps.cpp
index e5a88f7..9d38331 100644
--- a/map_organizer/src/pointcloud_to_maps.cpp
+++ b/map_organizer/src/pointcloud_to_maps.cpp
@@ -104,9 +104,9 @@ public:
 
     for (const auto& p : pc->points)
     {
-      const int h = (p.z / grid);
-      const int x = (p.x / grid);
-      const int y = (p.y / grid);
+      const int h = std::floor(p.z / grid);
+      const int x = std::floor(p.x / grid);
+      const int y = std::floor(p.y / grid);
       if (x_min > x)
         x_min = x;
       if (y_min > y)
@@ -156,9 +156,9 @@ public:
       {
         for (auto& p : pc->points)
         {
-          const int x = (p.x / grid);
-          const int y = (p.y / grid);
-          const int z = (p.z / grid);
+          const int x = std::floor(p.x / grid);
+          const int y = std::floor(p.y / grid);
+          const int z = std::floor(p.z / grid);
           const auto v = std::pair<int, int>(x, y);
 
           if (std::abs(i - z) <= floor_height)
-- 
2.43.0


From 392f6df469ca26035ccd3cf0bd8afb967e56d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 30/51] fix: handle clouds without floors in pointcloud_to_maps

---
 map_organizer/src/pointcloud_to_maps.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/map_organizer/src/pointcloud_to_maps.cpp b/map_organizer/src/pointcloud_to_maps.cpp
index 9d38331..73370f9 100644
--- a/map_organizer/src/pointcloud_to_maps.cpp
+++ b/map_organizer/src/pointcloud_to_maps.cpp
@@ -73,6 +73,12 @@ public:
   {
     pcl::PointCloud<pcl::PointXYZ>::Ptr pc(new pcl::PointCloud<pcl::PointXYZ>());
     pcl::fromROSMsg(*msg, *pc);
+    if (pc->points.empty())
+    {
+      ROS_WARN("Empty pointcloud received");
+      pub_map_array_.publish(map_organizer_msgs::OccupancyGridArray());
+      return;
+    }
 
     double grid;
     int min_points;
@@ -98,9 +104,9 @@ public:
     floor_tolerance = std::lround(floor_tolerance_f / grid);
 
     std::map<int, int> hist;
-    int x_min = std::numeric_limits<int>::max(), x_max = 0;
-    int y_min = std::numeric_limits<int>::max(), y_max = 0;
-    int h_min = std::numeric_limits<int>::max(), h_max = 0;
+    int x_min = std::numeric_limits<int>::max(), x_max = std::numeric_limits<int>::lowest();
+    int y_min = std::numeric_limits<int>::max(), y_max = std::numeric_limits<int>::lowest();
+    int h_min = std::numeric_limits<int>::max(), h_max = std::numeric_limits<int>::lowest();
 
     for (const auto& p : pc->points)
     {
@@ -227,7 +233,7 @@ public:
     }
     ROS_INFO("Floor candidates: %d", map_num);
     auto it_prev = maps.rbegin();
-    for (auto it = maps.rbegin() + 1; it != maps.rend() && it_prev != maps.rend(); it++)
+    for (auto it = maps.empty() ? maps.rend() : maps.rbegin() + 1; it != maps.rend(); it++)
     {
       const int h = std::lround(it->info.origin.position.z / grid);
       const int h_prev = std::lround(it_prev->info.origin.position.z / grid);
-- 
2.43.0


From 0fcdbcd0970660f1845fdab4f51e4457e9858897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 31/51] fix: make maps saved to a relative directory loadable

---
 map_organizer/src/save_maps.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/map_organizer/src/save_maps.cpp b/map_organizer/src/save_maps.cpp
index 76eadb9..017a2ba 100644
--- a/map_organizer/src/save_maps.cpp
+++ b/map_organizer/src/save_maps.cpp
@@ -119,6 +119,11 @@ public:
     ROS_INFO("Writing map occupancy data to %s", mapmetadatafile.c_str());
     FILE* yaml = fopen(mapmetadatafile.c_str(), "w");
 
+    // relative image path is resolved from the directory of the metadata file
+    std::string image = mapdatafile;
+    if (image[0] != '/')
+      image = image.substr(image.rfind('/') + 1);
+
     geometry_msgs::Quaternion orientation = map->info.origin.orientation;
     tf2::Matrix3x3 mat(tf2::Quaternion(orientation.x, orientation.y, orientation.z, orientation.w));
     double yaw, pitch, roll;
@@ -127,7 +132,7 @@ public:
     fprintf(yaml, "image: %s\nresolution: %f\n"
                   "origin: [%f, %f, %f]\nheight: %f\n"
                   "negate: 0\noccupied_thresh: 0.65\nfree_thresh: 0.196\n\n",
-            mapdatafile.c_str(), map->info.resolution,
+            image.c_str(), map->info.resolution,
             map->info.origin.position.x, map->info.origin.position.y, yaw, map->info.origin.position.z);
 
     fclose(yaml);
-- 
2.43.0


From 5ac9458388b59d2d7a86c313f6142c07ed467bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 32/51] fix: publish the selected floor of updated maps

---
 map_organizer/src/select_map.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map_organizer/src/select_map.cpp b/map_organizer/src/select_map.cpp
index eb1be48..97363d7 100644
--- a/map_organizer/src/select_map.cpp
+++ b/map_organizer/src/select_map.cpp
@@ -41,6 +41,7 @@
 map_organizer_msgs::OccupancyGridArray maps;
 std::vector<nav_msgs::MapMetaData> orig_mapinfos;
 int floor_cur = 0;
+bool maps_updated = false;
 
 void cbMaps(const map_organizer_msgs::OccupancyGridArray::Ptr& msg)
 {
@@ -52,6 +53,7 @@ void cbMaps(const map_organizer_msgs::OccupancyGridArray::Ptr& msg)
     orig_mapinfos.push_back(map.info);
     map.info.origin.position.z = 0.0;
   }
+  maps_updated = true;
 }
 void cbFloor(const std_msgs::Int32::Ptr& msg)
 {
@@ -91,7 +93,7 @@ int main(int argc, char** argv)
     if (maps.maps.size() == 0)
       continue;
 
-    if (floor_cur != floor_prev)
+    if (floor_cur != floor_prev || maps_updated)
     {
       if (floor_cur >= 0 && floor_cur < static_cast<int>(maps.maps.size()))
       {
@@ -103,6 +105,7 @@ int main(int argc, char** argv)
         ROS_INFO("Floor out of range");
       }
       floor_prev = floor_cur;
+      maps_updated = false;
     }
     trans.header.stamp = ros::Time::now() + ros::Duration(0.15);
     tfb.sendTransform(trans);
-- 
2.43.0


From 4a3f643b9e9878dca807bad09b987476c48b7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 33/51] fix: construct the node of pose_transform

---
 map_organizer/src/pose_transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map_organizer/src/pose_transform.cpp b/map_organizer/src/pose_transform.cpp
index b80ca92..a702487 100644
--- a/map_organizer/src/pose_transform.cpp
+++ b/map_organizer/src/pose_transform.cpp
@@ -94,7 +94,7 @@ int main(int argc, char** argv)
 {
   ros::init(argc, argv, "pose_transform");
 
-  PoseTransformNode ptn();
+  PoseTransformNode ptn;
   ros::spin();
 
   return 0;
-- 
2.43.0


From 4467849682320ab4120e8e53aa8eb98f549cc6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 34/51] fix: reject broken files in trajectory_server

---
 trajectory_tracker/src/trajectory_server.cpp | 39 ++++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index c3c2632..4f36ec5 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -35,6 +35,7 @@
    This software was implemented to accomplish the above research.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <fstream>
 #include <string>
@@ -78,6 +79,7 @@ private:
   trajectory_tracker::Filter* lpf_[2];
 
   bool loadFile();
+  bool parsePath(nav_msgs::Path& path);
   void loadPath();
   bool change(trajectory_tracker_msgs::ChangePath::Request& req,
               trajectory_tracker_msgs::ChangePath::Response& res);
@@ -126,6 +128,8 @@ bool ServerNode::loadFile()
   {
     ifs.seekg(0, ifs.end);
     serial_size_ = ifs.tellg();
+    if (serial_size_ <= 0)
+      return false;
     ifs.seekg(0, ifs.beg);
     buffer_.reset(new uint8_t[serial_size_]);
     ifs.read(reinterpret_cast<char*>(buffer_.get()), serial_size_);
@@ -135,6 +139,33 @@ bool ServerNode::loadFile()
   return false;
 }
 
+bool ServerNode::parsePath(nav_msgs::Path& path)
+{
+  try
+  {
+    ros::serialization::IStream stream(buffer_.get(), serial_size_);
+    ros::serialization::deserialize(stream, path);
+  }
+  catch (const std::exception& e)
+  {
+    ROS_ERROR("Failed to parse %s: %s", req_path_.filename.c_str(), e.what());
+    return false;
+  }
+  // positions must be finite also in the single precision filter
+  const double range = 4.0 * (1.0 + std::max(0.0, filter_step_));
+  for (const auto& p : path.poses)
+  {
+    if (!std::isfinite(static_cast<float>(range * p.pose.position.x)) ||
+        !std::isfinite(static_cast<float>(range * p.pose.position.y)) ||
+        !std::isfinite(p.pose.position.z))
+    {
+      ROS_ERROR("Invalid pose in %s", req_path_.filename.c_str());
+      return false;
+    }
+  }
+  return true;
+}
+
 void ServerNode::processFeedback(
     const visualization_msgs::InteractiveMarkerFeedbackConstPtr& feedback)
 {
@@ -238,13 +269,13 @@ bool ServerNode::change(trajectory_tracker_msgs::ChangePath::Request& req,
   req_path_ = req;
   res.success = false;
 
-  if (loadFile())
+  nav_msgs::Path path;
+  if (loadFile() && parsePath(path))
   {
     res.success = true;
-    ros::serialization::IStream stream(buffer_.get(), serial_size_);
-    ros::serialization::deserialize(stream, path_);
+    path_ = path;
     path_.header.stamp = ros::Time::now();
-    if (filter_step_ > 0)
+    if (filter_step_ > 0 && !path_.poses.empty())
     {
       std::cout << filter_step_ << std::endl;
       lpf_[0] = new trajectory_tracker::Filter(
-- 
2.43.0


From e18e19b756390a93c7d42f673b9bfdf24783d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 35/51] fix: ignore feedback of stale markers

---
 trajectory_tracker/src/trajectory_server.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index 4f36ec5..14db796 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -170,6 +170,11 @@ void ServerNode::processFeedback(
     const visualization_msgs::InteractiveMarkerFeedbackConstPtr& feedback)
 {
   int id = std::atoi(feedback->marker_name.c_str());
+  if (id < 0 || id >= static_cast<int>(path_.poses.size()))
+  {
+    ROS_WARN("Feedback from unknown marker %s ignored", feedback->marker_name.c_str());
+    return;
+  }
   switch (feedback->event_type)
   {
     case visualization_msgs::InteractiveMarkerFeedback::POSE_UPDATE:
@@ -302,6 +307,7 @@ bool ServerNode::change(trajectory_tracker_msgs::ChangePath::Request& req,
     req_path_.filename = "";
     path_.poses.clear();
     path_.header.frame_id = "map";
+    updateIM();
   }
   return true;
 }
-- 
2.43.0


From 402e16ca45c231ae02ea4ea618665518726da007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 36/51] fix: keep checking frames after an expired one

---
 .../include/costmap_cspace/pointcloud_accumulator.h       | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
index f7d5b41..067e63a 100644
--- a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
+++ b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
@@ -74,14 +74,12 @@ public:
 
   void push(const Points& points)
   {
-    for (auto it = points_.begin(); it != points_.end(); ++it)
+    for (auto it = points_.begin(); it != points_.end();)
     {
       if (it->stamp_ + time_to_hold_ < points.stamp_)
-      {
         it = points_.erase(it);
-        continue;
-      }
-      break;
+      else
+        ++it;
     }
     points_.push_back(points);
   }
-- 
2.43.0


From 4a751245ccd0e220d014207011427271c0cb7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 37/51] fix: use height of each point in laserscan_to_map

---
 costmap_cspace/src/laserscan_to_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index ed8f77e..b033d9a 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -160,7 +160,7 @@ private:
       auto itr_x = sensor_msgs::PointCloud2ConstIterator<float>(pc, "x");
       auto itr_y = sensor_msgs::PointCloud2ConstIterator<float>(pc, "y");
       auto itr_z = sensor_msgs::PointCloud2ConstIterator<float>(pc, "z");
-      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y)
+      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y, ++itr_z)
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-- 
2.43.0


From 3693c97a2fd72af55304bb6dea382d69131d3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 38/51] fix: ignore scans without transform

---
 costmap_cspace/src/laserscan_to_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index b033d9a..df1c9b7 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -121,6 +121,7 @@ private:
     catch (tf2::TransformException& e)
     {
       ROS_WARN("%s", e.what());
+      return;
     }
     accum_.push(costmap_cspace::PointcloudAccumurator<sensor_msgs::PointCloud2>::Points(
         cloud_global, cloud_global.header.stamp));
-- 
2.43.0


From 76afe24819b6127e5038b15fc3769962347b5ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:23 +0000
Subject: [PATCH 39/51] fix: ignore points outside the map in sensor map nodes

---
 costmap_cspace/src/laserscan_to_map.cpp   | 11 +++++------
 costmap_cspace/src/pointcloud2_to_map.cpp | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index df1c9b7..a913094 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -36,6 +36,7 @@
 #include <tf2_ros/transform_listener.h>
 #include <tf2_sensor_msgs/tf2_sensor_msgs.h>
 
+#include <cmath>
 #include <limits>
 #include <string>
 
@@ -165,13 +166,11 @@ private:
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-        unsigned int x = int(
-            (*itr_x - map.info.origin.position.x) / map.info.resolution);
-        unsigned int y = int(
-            (*itr_y - map.info.origin.position.y) / map.info.resolution);
-        if (x >= map.info.width || y >= map.info.height)
+        const double x = std::floor((*itr_x - map.info.origin.position.x) / map.info.resolution);
+        const double y = std::floor((*itr_y - map.info.origin.position.y) / map.info.resolution);
+        if (!(0 <= x && x < map.info.width && 0 <= y && y < map.info.height))
           continue;
-        map.data[x + y * map.info.width] = 100;
+        map.data[static_cast<size_t>(x) + static_cast<size_t>(y) * map.info.width] = 100;
       }
     }
 
diff --git a/costmap_cspace/src/pointcloud2_to_map.cpp b/costmap_cspace/src/pointcloud2_to_map.cpp
index 2d4ec5c..32ace5f 100644
--- a/costmap_cspace/src/pointcloud2_to_map.cpp
+++ b/costmap_cspace/src/pointcloud2_to_map.cpp
@@ -35,6 +35,7 @@
 #include <nav_msgs/OccupancyGrid.h>
 #include <sensor_msgs/PointCloud2.h>
 
+#include <cmath>
 #include <string>
 #include <vector>
 
@@ -174,13 +175,11 @@ private:
         {
           if (*iter_z - robot_z < z_min_ || z_max_ < *iter_z - robot_z)
             continue;
-          unsigned int x = int(
-              (*iter_x - map_.info.origin.position.x) / map_.info.resolution);
-          unsigned int y = int(
-              (*iter_y - map_.info.origin.position.y) / map_.info.resolution);
-          if (x >= map_.info.width || y >= map_.info.height)
+          const double x = std::floor((*iter_x - map_.info.origin.position.x) / map_.info.resolution);
+          const double y = std::floor((*iter_y - map_.info.origin.position.y) / map_.info.resolution);
+          if (!(0 <= x && x < map_.info.width && 0 <= y && y < map_.info.height))
             continue;
-          map_.data[x + y * map_.info.width] = 100;
+          map_.data[static_cast<size_t>(x) + static_cast<size_t>(y) * map_.info.width] = 100;
         }
       }
     }
-- 
2.43.0


From e771ef67b636e8a8a9f4e7ca75a19d81c120566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:55 +0000
Subject: [PATCH 40/51] fix: hide cells behind hidden obstacles in
 largemap_to_map

---
 costmap_cspace/src/largemap_to_map.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/costmap_cspace/src/largemap_to_map.cpp b/costmap_cspace/src/largemap_to_map.cpp
index 2df8846..ccc6817 100644
--- a/costmap_cspace/src/largemap_to_map.cpp
+++ b/costmap_cspace/src/largemap_to_map.cpp
@@ -190,9 +190,10 @@ private:
     }
     if (simulate_occlusion_)
     {
+      const auto obstacles = map.data;
       for (size_t addr = 0; addr < static_cast<size_t>(width_ * width_); ++addr)
       {
-        if (map.data[addr] == 100)
+        if (obstacles[addr] == 100)
         {
           for (auto a : occlusion_table_[addr])
           {
-- 
2.43.0


From 8c9efee53c6aa5492d0702d313bedfdac722f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 41/51] hook: observe grid map accesses under
 NEONAVIGATION_VF_HOOKS

---
 .../include/planner_cspace/blockmem_gridmap.h | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/planner_cspace/include/planner_cspace/blockmem_gridmap.h b/planner_cspace/include/planner_cspace/blockmem_gridmap.h
index bdcdae1..d945b74 100644
--- a/planner_cspace/include/planner_cspace/blockmem_gridmap.h
+++ b/planner_cspace/include/planner_cspace/blockmem_gridmap.h
@@ -37,6 +37,11 @@
 
 #include <planner_cspace/cyclic_vec.h>
 
+#ifdef NEONAVIGATION_VF_HOOKS
+// Verification hook: observes every cell access of the grid maps
+extern "C" void neonavigation_vf_grid_access(const int* pos, const int* size, int dim);
+#endif
+
 namespace planner_cspace
 {
 template <class T, int DIM, int NONCYCLIC>
@@ -110,6 +115,19 @@ protected:
     }
   }
 
+#ifdef NEONAVIGATION_VF_HOOKS
+  void vfAccess(const CyclicVecInt<DIM, NONCYCLIC>& pos) const
+  {
+    int p[DIM], s[DIM];
+    for (int i = 0; i < DIM; i++)
+    {
+      p[i] = pos[i];
+      s[i] = size_[i];
+    }
+    neonavigation_vf_grid_access(p, s, DIM);
+  }
+#endif
+
 public:
   std::function<void(CyclicVecInt<DIM, NONCYCLIC>, size_t&, size_t&)> getAddressor() const
   {
@@ -242,6 +260,9 @@ public:
   }
   T& operator[](const CyclicVecInt<DIM, NONCYCLIC>& pos) override
   {
+#ifdef NEONAVIGATION_VF_HOOKS
+    vfAccess(pos);
+#endif
     size_t baddr, addr;
     block_addr(pos, baddr, addr);
     const size_t a = baddr * block_ser_size_ + addr;
@@ -254,6 +275,9 @@ public:
   }
   const T operator[](const CyclicVecInt<DIM, NONCYCLIC>& pos) const override
   {
+#ifdef NEONAVIGATION_VF_HOOKS
+    vfAccess(pos);
+#endif
     size_t baddr, addr;
     block_addr(pos, baddr, addr);
     const size_t a = baddr * block_ser_size_ + addr;
-- 
2.43.0


From 078c540ebbef3cee56e957fd7344f303af0bf370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 42/51] fix: reject map updates exceeding the map in any
 direction in planner_3d

---
 planner_cspace/src/planner_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 8c83251..0adab26 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -784,9 +784,9 @@ protected:
     const int map_update_y_min = static_cast<int>(msg->y);
     const int map_update_y_max = std::max(static_cast<int>(msg->y + msg->height) - 1, 0);
 
-    if (static_cast<size_t>(map_update_x_max) >= map_info_.width ||
-        static_cast<size_t>(map_update_y_max) >= map_info_.height ||
-        msg->angle > map_info_.angle)
+    if (static_cast<size_t>(msg->x) + msg->width > map_info_.width ||
+        static_cast<size_t>(msg->y) + msg->height > map_info_.height ||
+        static_cast<size_t>(msg->yaw) + msg->angle > map_info_.angle)
     {
       ROS_WARN(
           "Map update out of range (update range: %dx%dx%d, map range: %dx%dx%d)",
-- 
2.43.0


From a9d889be11d8d73a5026e570f9e38347c5a149c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 43/51] fix: rebuild the cost estimation cache if it is invalid
 on fast map update

---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 0adab26..144e95e 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -916,7 +916,7 @@ protected:
     if (!has_goal_)
       return;
 
-    if (!fast_map_update_)
+    if (!fast_map_update_ || !cost_estim_cache_created_)
     {
       createCostEstimCache(false);
       return;
-- 
2.43.0


From 78a2c6b2d1962ff250e9d200d508b53c702d72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 44/51] fix: invalidate the cost estimation cache when the goal
 or map is changed during pose loss

---
 planner_cspace/src/planner_3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 144e95e..cf6e0b0 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -556,6 +556,8 @@ protected:
 
   bool createCostEstimCache(const bool goal_changed = true)
   {
+    cost_estim_cache_created_ = false;
+
     if (!has_goal_)
       return true;
 
@@ -566,7 +568,6 @@ protected:
       return true;
     }
 
-    cost_estim_cache_created_ = false;
     is_start_occupied_ = false;
 
     Astar::Vec s = metric2Grid(start_.pose);
-- 
2.43.0


From a20738bbed8b1a2c198bd85fab5e257e8cf9047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 45/51] fix: off-by-one of the local map size of the crowd
 escape

---
 planner_cspace/src/planner_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index cf6e0b0..4e1995e 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -2178,8 +2178,8 @@ protected:
       // Construct arraivability map
       const int local_width = esc_range_ * 2 + 1;
       const Astar::Vec local_origin = s - Astar::Vec(esc_range_, esc_range_, 0);
-      const Astar::Vec local_range(local_width, local_width, 0);
-      const Astar::Vec local_size(local_width + 1, local_width + 1, 1);
+      const Astar::Vec local_range(local_width - 1, local_width - 1, 0);
+      const Astar::Vec local_size(local_width, local_width, 1);
       const Astar::Vec local_center(esc_range_, esc_range_, 0);
       const DistanceMap::Params dmp =
           {
-- 
2.43.0


From eebf518e743d86ca584a83c7097f751b981a785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 46/51] fix: keep one cell margin of the gradient on the crowd
 escape

---
 planner_cspace/src/planner_3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 4e1995e..6cfb45c 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -2220,7 +2220,8 @@ protected:
           {
             continue;
           }
-          if (!cm_rough_.validate(te, range_))
+          // Neighbor grids are also read to calculate the gradient
+          if (!cm_rough_.validate(te, std::max(range_, 1)))
           {
             continue;
           }
-- 
2.43.0


From 9b843cc22b87687b5a20260724fc9e3081b81838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 47/51] fix: unreachable start estimate was cast to int in the
 A* search

---
 planner_cspace/include/planner_cspace/grid_astar.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index d20f472..f626955 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -205,8 +205,9 @@ protected:
     parents_.clear();
 
     std::vector<VecWithCost> ss_normalized;
-    Vec better;
-    int cost_estim_min = std::numeric_limits<int>::max();
+    Vec better = sts.front().v_;
+    better.cycleUnsigned(g.size());
+    float cost_estim_min = std::numeric_limits<float>::max();
     for (const VecWithCost& st : sts)
     {
       if (st.v_ == en)
@@ -217,7 +218,7 @@ protected:
       ss_normalized.emplace_back(s, st.c_);
       g[s] = st.c_;
 
-      const int cost_estim = model->costEstim(s, e);
+      const float cost_estim = model->costEstim(s, e);
       open_.emplace(cost_estim + st.c_, st.c_, s);
       if (cost_estim_min > cost_estim)
       {
@@ -296,7 +297,7 @@ protected:
           break;
         updates.clear();
         dont.clear();
-        int local_cost_estim_min = std::numeric_limits<int>::max();
+        float local_cost_estim_min = std::numeric_limits<float>::max();
         Vec local_better;
 
 #pragma omp for schedule(static)
-- 
2.43.0


From 76b0a82a8e76f3ec03929c5342f750953d9a200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:56 +0000
Subject: [PATCH 48/51] fix: planner status stayed in progress after a goal was
 rejected or cleared

---
 planner_cspace/src/planner_3d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 6cfb45c..b570f3e 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -476,6 +476,7 @@ protected:
       if (!createCostEstimCache())
       {
         has_goal_ = false;
+        status_.status = planner_cspace_msgs::PlannerStatus::DONE;
         return false;
       }
       status_.status = planner_cspace_msgs::PlannerStatus::DOING;
@@ -486,6 +487,8 @@ protected:
     else
     {
       has_goal_ = false;
+      escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;
+      status_.status = planner_cspace_msgs::PlannerStatus::DONE;
       if (act_->isActive())
         act_->setSucceeded(move_base_msgs::MoveBaseResult(), "Goal cleared.");
       if (act_tolerant_->isActive())
-- 
2.43.0


From 1e4022f9b8177b9f0aba87620110a6756e5a130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:03 +0000
Subject: [PATCH 49/51] fix: check collision at the predicted start pose of the
 next planning

---
 planner_cspace/src/start_pose_predictor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/start_pose_predictor.cpp b/planner_cspace/src/start_pose_predictor.cpp
index 759c541..904829b 100644
--- a/planner_cspace/src/start_pose_predictor.cpp
+++ b/planner_cspace/src/start_pose_predictor.cpp
@@ -135,7 +135,7 @@ bool StartPosePredictor::buildResults(
     const GridAstar<3, 2>::Gridmap<char, 0x40>& cm,
     StartPosePredictor::Astar::Vec& start_grid)
 {
-  if (isPathColliding(previous_path_2d_.begin(), expected_start_pose_it, cm))
+  if (isPathColliding(previous_path_2d_.begin(), expected_start_pose_it + 1, cm))
   {
     ROS_WARN("The robot might collide with an obstacle during the next planning. An empty path is published.");
     clear();
-- 
2.43.0


From d04d0952785f44891982937752c8b3c29cc59b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:03 +0000
Subject: [PATCH 50/51] fix: search the temporary escape goal around the robot

---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index b570f3e..ed65e0d 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -2118,7 +2118,7 @@ protected:
     if (!enable_crowd_mode_)
     {
       // Just find available (not occupied) pose
-      Astar::Vec te;
+      Astar::Vec te(start_grid);
       if (!searchAvailablePos(cm_, te, esc_range_, esc_angle_, relocation_acceptable_cost_, esc_range_min_))
       {
         ROS_WARN("No valid temporary escape goal");
-- 
2.43.0


From 92a5b710b834f26de06d793aa20b7e7fabbc5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:03 +0000
Subject: [PATCH 51/51] fix: rebuild the search model if the map size is
 changed

---
 planner_cspace/src/planner_3d.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index ed65e0d..2754836 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -1010,7 +1010,10 @@ protected:
         1.0f * cc_.weight_ang_vel_ / cc_.max_ang_vel_);
 
     if (map_info_.linear_resolution != msg->info.linear_resolution ||
-        map_info_.angular_resolution != msg->info.angular_resolution)
+        map_info_.angular_resolution != msg->info.angular_resolution ||
+        map_info_.width != msg->info.width ||
+        map_info_.height != msg->info.height ||
+        map_info_.angle != msg->info.angle)
     {
       map_info_ = msg->info;
       resetGridAstarModel(true);
-- 
2.43.0

