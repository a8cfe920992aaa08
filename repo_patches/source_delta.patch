From 89d4433d448544f85753136742f1c060312f3f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 01/23] fix: wrap closest hull point index past the last sample

A point whose polar angle is larger than the last hull sample (i.e. within
1e-4 of pi, straight left of the reference point) indexed one column past
the end of the hull.
---
 src/Utils/MathTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 38af9b3..79ed33a 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -87,8 +87,8 @@ namespace DynamicObstacleAvoidance
         std::vector<double> vec;
         for (int64_t i = 0; i < A.cols(); ++i) vec.push_back(A.col(i)(index));
         std::vector<double>::iterator it = std::lower_bound(std::begin(vec), std::end(vec), p(index));
-        unsigned int first_index = it - vec.begin();
-        unsigned int next_index = ((it + 1) - vec.begin()) % vec.size();
+        unsigned int first_index = (it - vec.begin()) % vec.size();
+        unsigned int next_index = (first_index + 1) % vec.size();
         return std::make_pair(first_index, next_index);
     }
 }
-- 
2.43.0


From 175059e4b0fd5807c7ad8cac45b8c4e3d8708a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 02/23] fix: give each copy of an agent its own envelope

The copy constructor left the envelope null, so moving a copy (or calling
transformed()) dereferenced a null pointer; the implicit copy assignment
shared one envelope between two agents.
---
 include/DynamicObstacleAvoidance/Agent.hpp |  5 +++++
 src/Agent.cpp                              | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 24cf801..2747fa0 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -47,6 +47,11 @@ namespace DynamicObstacleAvoidance
 		 */
 		Agent(const Agent& agent);
 
+		/**
+		 * @brief Copy assignment
+		 */
+		Agent& operator=(const Agent& agent);
+
 		/**
 		 * @brief Getter of the envelope
 		 * @return the envelope
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 972099b..2ad62d5 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -15,9 +15,20 @@ namespace DynamicObstacleAvoidance
 	}
 
 	Agent::Agent(const Agent& agent):
-	state(agent.state), safety_margin(agent.safety_margin), delta_t(agent.delta_t)
+	state(agent.state), safety_margin(agent.safety_margin),
+	envelope(std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope))), delta_t(agent.delta_t)
 	{}
 
+	Agent& Agent::operator=(const Agent& agent)
+	{
+		// the envelope belongs to one agent only, copy it instead of sharing the pointer
+		this->envelope = std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope));
+		this->state = agent.state;
+		this->safety_margin = agent.safety_margin;
+		this->delta_t = agent.delta_t;
+		return *this;
+	}
+
 	void Agent::update_envelope()
 	{
 		double margin = std::max(0.1, this->safety_margin);
-- 
2.43.0


From 832f34eb76dc87ee29b1ff2a3009c4849e0cc701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 03/23] fix: initialise the reference position of obstacles
 built from a name only

---
 src/Obstacle/Obstacle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index 4474d64..d3aed67 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -6,11 +6,11 @@
 namespace DynamicObstacleAvoidance
 {
 	Obstacle::Obstacle(const std::string& name, double safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
 	{}
 
 	Obstacle::Obstacle(const std::string& name, const Eigen::Array3d& safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
 	{}
 
 	Obstacle::Obstacle(const std::string& name, double cx, double cy, double cz, double safety_margin):
-- 
2.43.0


From f3cd0c4584fed2873a9d18476bf2e7a1fa540cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 04/23] fix: build an orthonormal dynamical system frame for
 any direction of motion

For a vertical relative velocity the frame was degenerate and the velocity
was not deflected at all; for any other out of plane velocity its second and
third columns were not unit vectors, which shrank the deflection.
---
 src/Modulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7fbc903..7272198 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -112,9 +112,10 @@ namespace DynamicObstacleAvoidance
 			Eigen::Vector3d cross_product = agent_relative_velocity.cross(unit_vector);
 			if(cross_product.norm() < 1E-4) 
 			{
-				cross_product = Eigen::Vector3d::UnitY();
+				unit_vector = Eigen::Vector3d::UnitY();
 				cross_product = agent_relative_velocity.cross(unit_vector);
 			}
+			cross_product.normalize();
 			Eigen::Matrix3d orthogonal_matrix;
 			orthogonal_matrix << agent_relative_velocity, cross_product, cross_product.cross(agent_relative_velocity);
 			return orthogonal_matrix;
-- 
2.43.0


From dba50f37169b314d08461a03bbfb9a252618596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 05/23] fix: span the tangent plane with both tangential basis
 vectors

The third vector of the reference basis was perpendicular to the reference
direction instead of the normal, so in 3D the velocity on the surface kept a
component into the obstacle. The tangent vectors are also normalised, so that
projecting an obstacle velocity on the orthogonal basis does not scale it.
---
 src/Modulation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7272198..3eb61e6 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -70,6 +70,7 @@ namespace DynamicObstacleAvoidance
 				tangent_vector = normal_vector.cross(unit_vector);
 			}
 
+			tangent_vector.normalize();
 			Eigen::Vector3d cross_product = tangent_vector.cross(normal_vector);
 			Eigen::Matrix3d orthogonal_basis;
 			orthogonal_basis << normal_vector, tangent_vector, cross_product;
@@ -77,14 +78,13 @@ namespace DynamicObstacleAvoidance
 			Eigen::Vector3d reference_direction = obstacle.get_pose().inverse() * agent.get_position() - obstacle.get_pose().inverse() * obstacle.get_reference_position();
 			reference_direction.normalize();
 
-			if(tangent_vector.cross(reference_direction).norm() < 1E-4)
+			if(std::abs(normal_vector.dot(reference_direction)) < 1E-4)
 			{
 				std::cerr << "Problem here" << std::endl;
 			}
 			
-			Eigen::Vector3d ref_cross_product = tangent_vector.cross(reference_direction);
 			Eigen::Matrix3d reference_basis;
-			reference_basis << reference_direction, tangent_vector, ref_cross_product;
+			reference_basis << reference_direction, tangent_vector, cross_product;
 			return std::make_pair(reference_basis, orthogonal_basis);
 		}
 
-- 
2.43.0


From 5cc556c069e2abff6105ba051f33d9131b62bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 06/23] fix: make the ellipsoid normal the gradient of its
 distance function

With a curvature factor above 1 and different axis lengths the computed
vector was not perpendicular to the level set of the distance.
---
 src/Obstacle/Ellipsoid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 8e601a2..b634720 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -65,12 +65,12 @@ namespace DynamicObstacleAvoidance
 	{
 		Eigen::Array3d point_in_frame = this->get_pose().inverse() * agent.get_position();
 		Eigen::Array3d lengths = this->axis_lengths + this->get_safety_margin() + agent.get_safety_margin();
-		Eigen::Array3d tmp_values = (2 * this->curvature_factor * point_in_frame);
+		// gradient of the distance function sum((x/l)^(2p)), i.e. 2p/l * (x/l)^(2p-1) in each direction
 		for(int i=0; i<3; ++i)
 		{
-			tmp_values(i) = (lengths(i) > this->epsilon) ? tmp_values(i) / (lengths(i) * lengths(i)) : tmp_values(i);
+			if(lengths(i) <= this->epsilon) lengths(i) = 1;
 		}
-		Eigen::Vector3d normal_vector = tmp_values.pow(2 * this->curvature_factor - 1);
+		Eigen::Vector3d normal_vector = 2 * this->curvature_factor / lengths * (point_in_frame / lengths).pow(2 * this->curvature_factor - 1);
 		normal_vector.normalize();
 		return normal_vector;
 	}
-- 
2.43.0


From 526e112426be25e6c057f8ba67d730d101da7d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 07/23] fix: store a hull point before smoothing its neighbour
 with it

The smoothing read the value of the previous computation of the hull (zero the
first time), so that the hull depended on how many times it was computed.
---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 2d01726..b55f591 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -84,6 +84,7 @@ namespace DynamicObstacleAvoidance
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
 			{
@@ -91,7 +92,6 @@ namespace DynamicObstacleAvoidance
 				                                         0.05 * this->polar_surface_points.col(i-2)(0) + \
 				                                         0.05 * this->polar_surface_points.col(i)(0);
 			}
-			this->polar_surface_points.col(i) = surface_point;
 		}
 		// smooth 0 point with the last one
 		this->polar_surface_points.col(0)(0) = 0.9 * this->polar_surface_points.col(0)(0) + \
-- 
2.43.0


From 0c25ca7c7c45d986c506156f17ad2df107cdc255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 08/23] fix: return a unit normal from the star shape hull

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index b55f591..f410f18 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -115,7 +115,7 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
 		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
 
-		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ());
+		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
 	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
-- 
2.43.0


From 69677fec961b7cadb27a9f7aa56f51a3e6fdffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 09/23] fix: return a null velocity for infinite results too

Only NaN were caught, infinite velocities were sent to the agent.
---
 src/Modulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 3eb61e6..d07aff1 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -221,7 +221,7 @@ namespace DynamicObstacleAvoidance
 				}
 			}
 
-			if(modulated_velocity.hasNaN())
+			if(!modulated_velocity.allFinite())
 			{
 				std:: cerr << "Modulated velocity contains NaN numbers, returning 0 velocity" << std::endl;
 				modulated_velocity = Eigen::Vector3d(0,0,0);
-- 
2.43.0


From 465cf2e12ac1c03a2b0012c1515df75842e5b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 10/23] fix: do not find removed obstacles by name

In an aggregated environment an obstacle that was removed could still be
accessed by name until the next update.
---
 src/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 639f92b..47667da 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -60,7 +60,7 @@ namespace DynamicObstacleAvoidance
 			{
 				for(auto& o:this->obstacle_list)
 				{
-					if(o->get_name() == k) return o;
+					if(o->get_type() == "Aggregate" && o->get_name() == k) return o;
 				}
 			}
 			throw Exceptions::ObstacleNotInEnvironmentException(k);
-- 
2.43.0


From ef517d0da2e26cd9ae6b2c1d4154002dbad60284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 11/23] fix: keep the envelope in line with the state and the
 safety margin

The constructors and set_safety_margin left an envelope that did not match
until another attribute was set.
---
 include/DynamicObstacleAvoidance/Agent.hpp | 1 +
 src/Agent.cpp                              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 2747fa0..fcb7687 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -131,6 +131,7 @@ namespace DynamicObstacleAvoidance
 		inline void set_safety_margin(const double& safety_margin)
 		{ 
 			this->safety_margin = safety_margin;
+			this->update_envelope();
 		}
 
 		/**
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 2ad62d5..daf4f76 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -6,12 +6,14 @@ namespace DynamicObstacleAvoidance
 	safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const State& state, const double& safety_margin):
 	state(state), safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const Agent& agent):
-- 
2.43.0


From b3df363652a789cd7d86d0950f9332028de35d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 12/23] fix: normalise the orientation of a pose whatever its
 norm

Quaternions with a norm above 1 were left as they were, and then rotated
vectors with a scaling and had a wrong inverse.
---
 src/State/Pose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/State/Pose.cpp b/src/State/Pose.cpp
index 9226f77..695b125 100644
--- a/src/State/Pose.cpp
+++ b/src/State/Pose.cpp
@@ -11,7 +11,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation):
 	position(position), orientation(orientation)
 	{
-		if(this->orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z()); 
 	}
 
@@ -22,7 +22,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz):
 	position(px,py,pz), orientation(qw,qx,qy,qz)
 	{
-		if(orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z());
 	}
 
-- 
2.43.0


From 3da3b3b52f93dc9c4183c2a3ed968f0e509d4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 13/23] fix: draw the safety margin of ellipsoids

The dashed outline was drawn from the points of the body.
---
 src/Obstacle/Ellipsoid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index b634720..ff66151 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -131,9 +131,9 @@ namespace DynamicObstacleAvoidance
 				xrow.at(j) = point(0);
 				yrow.at(j) = point(1);
 				zrow.at(j) = point(2);
-				xrow_safety.at(j) = point(0);
-				yrow_safety.at(j) = point(1);
-				zrow_safety.at(j) = point(2);
+				xrow_safety.at(j) = safety_point(0);
+				yrow_safety.at(j) = safety_point(1);
+				zrow_safety.at(j) = safety_point(2);
 			}
 			x.at(i) = xrow;
 			y.at(i) = yrow;
-- 
2.43.0


From fba8553bbc52aa7707e6cdece74a609a5e374bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 14/23] fix: draw the xz outline of ellipsoids in their xz
 plane

The points were taken at phi = -pi/2, where x is null, which drew a line.
---
 src/Obstacle/Ellipsoid.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index ff66151..3fe6834 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -166,10 +166,13 @@ namespace DynamicObstacleAvoidance
 			std::vector<double> tmp_z_safety(n1);
 			for (unsigned int i=0; i<n1; ++i)
 			{
-				tmp_x.at(i) = x[i][0];
-				tmp_x_safety.at(i) = x_safety[i][0];
-				tmp_z.at(i) = z[i][0];
-				tmp_z_safety.at(i) = z_safety[i][0];
+				double theta = alpha.at(i);
+				Eigen::Vector3d point = this->get_pose() * Eigen::Vector3d(this->get_axis_lengths(0) * sin(theta), 0, this->get_axis_lengths(2) * cos(theta));
+				Eigen::Vector3d safety_point = this->get_pose() * Eigen::Vector3d(safety_length(0) * sin(theta), 0, safety_length(2) * cos(theta));
+				tmp_x.at(i) = point(0);
+				tmp_x_safety.at(i) = safety_point(0);
+				tmp_z.at(i) = point(2);
+				tmp_z_safety.at(i) = safety_point(2);
 			}
 			plt::plot(tmp_x, tmp_z, color + "-");
 			plt::plot(tmp_x_safety, tmp_z_safety, color + "--");
-- 
2.43.0


From 91ffa239b1933123d4ef77fd691d853b612edc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 15/23] fix: draw the agent in the xz plane of the xz subplot

---
 src/Utils/Plotting/PlottingTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/Plotting/PlottingTools.cpp b/src/Utils/Plotting/PlottingTools.cpp
index 7d97514..b7e4069 100644
--- a/src/Utils/Plotting/PlottingTools.cpp
+++ b/src/Utils/Plotting/PlottingTools.cpp
@@ -64,7 +64,7 @@ namespace DynamicObstacleAvoidance
 
 			plt::subplot(2, 1, 2);
 			plot_obstacles(obstacles, "xz");
-			plot_agent(agent, "xy");
+			plot_agent(agent, "xz");
 			plot_agent_trajectory(goal, position_history, "xz");
 			plt::xlim(-10, 10);
 			plt::ylim(-10, 10);
-- 
2.43.0


From 45a487d99e25d599c72fda6400226c7167236405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 16/23] fix: detect ellipsoids that cross between two boundary
 samples

Thin ellipsoids that cross each other were reported as not intersecting when
none of the 100 samples of one boundary was inside the other one.
---
 src/Obstacle/Ellipsoid.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 3fe6834..6f8a0fc 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -221,6 +221,18 @@ namespace DynamicObstacleAvoidance
 				intersecting = this->point_is_inside(samples.col(i));
 				++i;
 			}
+			// then check if a segment between two consecutive samples crosses the ellipsoid,
+			// i.e. if it gets closer than 1 to the center once scaled by the axis lengths
+			Eigen::Array2d lengths = (this->get_axis_lengths() + this->get_safety_margin()).head<2>();
+			for(i=1; !intersecting && i<samples.cols(); ++i)
+			{
+				Eigen::Vector3d start = this->get_pose().inverse() * Eigen::Vector3d(samples.col(i-1));
+				Eigen::Vector3d end = this->get_pose().inverse() * Eigen::Vector3d(samples.col(i));
+				Eigen::Vector2d scaled_start = start.head<2>().array() / lengths;
+				Eigen::Vector2d segment = (end - start).head<2>().array() / lengths;
+				double t = std::min(1.0, std::max(0.0, -scaled_start.dot(segment) / segment.squaredNorm()));
+				intersecting = ((scaled_start + t * segment).norm() <= 1);
+			}
 		}
 		return intersecting;
 	}
-- 
2.43.0


From d65ec4374bb386a27f81df9a9b5847719aa451e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 17/23] fix: reset the reference position of obstacles that
 leave an aggregate

An obstacle that no longer intersects the others kept the reference position of
its former aggregate, in general outside of it, which breaks its modulation.
---
 src/Environment.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 47667da..1607b29 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -45,6 +45,15 @@ namespace DynamicObstacleAvoidance
 
 	void Environment::update()
 	{
+		// the reference position of an aggregate was given to its primitives, take it back before computing the new aggregates
+		for(auto& o:this->obstacle_list)
+		{
+			if(o->get_type() != "Aggregate") continue;
+			for(auto& p:static_cast<Aggregate&>(*o).get_primitives())
+			{
+				if(p->get_reference_position() == o->get_reference_position()) p->set_reference_position(p->get_position());
+			}
+		}
 		std::deque<std::shared_ptr<Obstacle> > list;
 		transform(this->obstacle_map.begin(), this->obstacle_map.end(), back_inserter(list), [](const std::map<std::string, std::shared_ptr<Obstacle> >::value_type& val){return val.second;} );
 		this->obstacle_list = this->aggregated ? Aggregation::aggregate_obstacles(list) : list;
-- 
2.43.0


From c47c9a14d943288cd529f75a13a347e0906753d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:27 +0000
Subject: [PATCH 18/23] fix: intersect ellipsoids with lines parallel to their
 y axis

The line was written y = a*x + b, with an infinite a for these lines, for which
no intersection was found.
---
 src/Obstacle/Ellipsoid.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 6f8a0fc..05419fe 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -275,27 +275,26 @@ namespace DynamicObstacleAvoidance
 		// transform both reference points in the object frame
 		Eigen::Vector3d rx1 = this->get_pose().inverse() * x1;
 		Eigen::Vector3d rx2 = this->get_pose().inverse() * x2;
-		// calculate the line passing by the two points
-		double a = (rx2(1) - rx1(1)) / (rx2(0) - rx1(0));
-		double b = rx1(1) - a * rx1(0);
+		// calculate the line passing by the two points, rx1 + t * direction
+		Eigen::Vector2d direction = (rx2 - rx1).head<2>();
 		// compute the intersection between the ellipsoid and the desired velocity line
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		double r1squared = lengths(0) * lengths(0);
 		double r2squared = lengths(1) * lengths(1);
-		double A = 1 / r1squared + (a*a) / r2squared;
-		double B = (2*a*b) / r2squared;
-		double C = (b*b) / r2squared - 1;
+		double A = direction(0) * direction(0) / r1squared + direction(1) * direction(1) / r2squared;
+		double B = 2 * (rx1(0) * direction(0) / r1squared + rx1(1) * direction(1) / r2squared);
+		double C = rx1(0) * rx1(0) / r1squared + rx1(1) * rx1(1) / r2squared - 1;
 		double delta = B*B - 4*A*C;
 		// solution
 		Eigen::Vector3d p1 = Eigen::Vector3d::Zero();
 		Eigen::Vector3d p2 = Eigen::Vector3d::Zero();
 		bool intersect = false;
-		if(delta >= 0)
+		if(A > 0 && delta >= 0)
 		{
-			double px1 = (-B - sqrt(delta)) / (2*A);
-			p1 << px1, a * px1 + b, 0;
-			double px2 = (-B + sqrt(delta)) / (2*A);
-			p2 << px2, a * px2 + b, 0;
+			double t1 = (-B - sqrt(delta)) / (2*A);
+			p1 << rx1(0) + t1 * direction(0), rx1(1) + t1 * direction(1), 0;
+			double t2 = (-B + sqrt(delta)) / (2*A);
+			p2 << rx1(0) + t2 * direction(0), rx1(1) + t2 * direction(1), 0;
 			p1 = this->get_pose() * p1;
 			p2 = this->get_pose() * p2;
 			intersect = true;
-- 
2.43.0


From 5e8fd9c217d99c618537f078f03cedede7078078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 19/23] fix: draw clusters in the plane of the subplot

---
 src/Obstacle/Aggregate.cpp     |  2 +-
 src/Obstacle/StarShapeHull.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index 0b235ac..5e8753c 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -95,7 +95,7 @@ namespace DynamicObstacleAvoidance
 		{
 			o->draw(color, axis);
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, "bx");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()((axis == "xz") ? 2 : 1)}, "bx");
 		this->outside_hull.draw("k", axis);
 		this->inside_hull.draw("k", axis);
 	}
diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f410f18..14f9903 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -132,8 +132,10 @@ namespace DynamicObstacleAvoidance
 		return distance;
 	}
 
-	void StarShapeHull::draw(const std::string& color, const std::string&) const
+	void StarShapeHull::draw(const std::string& color, const std::string& axis) const
 	{
+		// second coordinate of the plane in which the hull is drawn
+		unsigned int second = (axis == "xz") ? 2 : 1;
 		std::vector<double> x;
 		std::vector<double> y;
 
@@ -142,20 +144,20 @@ namespace DynamicObstacleAvoidance
 		for (unsigned int i=0; i<this->resolution; ++i)
 		{		
 			x.push_back(this->cartesian_surface_points.col(i)(0));
-			y.push_back(this->cartesian_surface_points.col(i)(1));
+			y.push_back(this->cartesian_surface_points.col(i)(second));
 		}
 
 		plt::plot(x, y, color + "--");
 
 		if(this->get_name() == "")
 		{
-			plt::plot({this->get_position()(0)}, {this->get_position()(1)}, color + "o");
+			plt::plot({this->get_position()(0)}, {this->get_position()(second)}, color + "o");
 		}
 		else
 		{
-			plt::text(this->get_position()(0), this->get_position()(1), this->get_name());
+			plt::text(this->get_position()(0), this->get_position()(second), this->get_name());
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, color + "x");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(second)}, color + "x");
 	}
 
 	bool StarShapeHull::point_is_inside(const Eigen::Vector3d& point) const
-- 
2.43.0


From 2cdfbadb6f1b83bc8d0733706bc3fc4e04ea3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 20/23] fix: space the hull samples evenly so that the last
 segment has a direction

---
 src/Obstacle/StarShapeHull.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 14f9903..d4516cd 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -42,8 +42,9 @@ namespace DynamicObstacleAvoidance
 		this->set_reference_position(reference_point);
 		this->set_position(reference_point);
 
-		// this -1e-4 trick is to avoid that idx 0 and end represent both the same point
-		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI-1e-4, this->resolution);
+		// stop one step before pi: idx 0 and end would otherwise be (nearly) the same point and the direction
+		// of the segment between them, hence the normal to the surface, would be arbitrary
+		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI - 2 * M_PI / this->resolution, this->resolution);
 		
 		for(unsigned int i = 0; i < this->resolution; ++i)
 		{
-- 
2.43.0


From 27a71315996934651b203b33050c7c01c0ec569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 21/23] fix: restore reference positions lost to corrupted
 positions

---
 src/Environment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 1607b29..66afb7d 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -54,6 +54,11 @@ namespace DynamicObstacleAvoidance
 				if(p->get_reference_position() == o->get_reference_position()) p->set_reference_position(p->get_position());
 			}
 		}
+		// a reference position computed from a corrupted position is not a point, start again from the center of the obstacle
+		for(auto& o:this->obstacle_map)
+		{
+			if(!o.second->get_reference_position().allFinite()) o.second->set_reference_position(o.second->get_position());
+		}
 		std::deque<std::shared_ptr<Obstacle> > list;
 		transform(this->obstacle_map.begin(), this->obstacle_map.end(), back_inserter(list), [](const std::map<std::string, std::shared_ptr<Obstacle> >::value_type& val){return val.second;} );
 		this->obstacle_list = this->aggregated ? Aggregation::aggregate_obstacles(list) : list;
-- 
2.43.0


From 4cdd50d8341098f61b5b5242bc9e0f5865d8d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 22/23] fix: do not shift the reference position to a point
 that is not finite

---
 src/Obstacle/Obstacle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index d3aed67..a3657d4 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -149,7 +149,8 @@ namespace DynamicObstacleAvoidance
 		{
 			auto intersect_points = result.second;
 			Eigen::Vector3d new_ref = (intersect_points.first + intersect_points.second) / 2.0;
-			this->set_reference_position(new_ref);
+			// extreme velocities do not allow to compute the intersection points
+			if (new_ref.allFinite()) this->set_reference_position(new_ref);
 		}
 	}
 }
-- 
2.43.0


From 0e34c1df31514ee1b1e0ecbb3f9337a6c1f479d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:08 +0000
Subject: [PATCH 23/23] fix: a hull that runs out of memory while it is resized
 or assigned stays valid

---
 .../Obstacle/StarShapeHull.hpp                | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp b/include/DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp
index 659528b..09b2ee0 100644
--- a/include/DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp
+++ b/include/DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp
@@ -55,11 +55,23 @@ namespace DynamicObstacleAvoidance
 		 */
 		explicit StarShapeHull(const std::deque<std::shared_ptr<Obstacle> >& primitives, bool is_inside=false, unsigned int resolution=500, double min_radius=0.5);
 
+		/**
+		 * @brief Copy constructor
+		 * @param hull the hull to copy
+		 */
+		StarShapeHull(const StarShapeHull& hull) = default;
+
 		/**
 		 * @brief Destructor
 		 */
 		~StarShapeHull();
 
+		/**
+		 * @brief Copy assignment operator
+		 * @param hull the hull to copy
+		 */
+		StarShapeHull& operator=(const StarShapeHull& hull);
+
 		/**
 		 * @brief Function to compute the normal on the surface to the agent wrt the reference point 
 		 * @param agent the agent 
@@ -117,9 +129,26 @@ namespace DynamicObstacleAvoidance
 
 	inline void StarShapeHull::set_resolution(unsigned int resolution)
 	{
+		// allocate before changing anything: a matrix that fails to be resized is left with a dangling pointer
+		Eigen::MatrixXd cartesian_surface_points = Eigen::MatrixXd::Zero(3, resolution);
+		Eigen::MatrixXd polar_surface_points = Eigen::MatrixXd::Zero(3, resolution);
 		this->resolution = resolution;
-		this->cartesian_surface_points = Eigen::MatrixXd::Zero(3, resolution);
-		this->polar_surface_points = Eigen::MatrixXd::Zero(3, resolution);
+		this->cartesian_surface_points.swap(cartesian_surface_points);
+		this->polar_surface_points.swap(polar_surface_points);
+	}
+
+	inline StarShapeHull& StarShapeHull::operator=(const StarShapeHull& hull)
+	{
+		// as in set_resolution, allocate first
+		Eigen::MatrixXd cartesian_surface_points = hull.cartesian_surface_points;
+		Eigen::MatrixXd polar_surface_points = hull.polar_surface_points;
+		this->Obstacle::operator=(hull);
+		this->is_inside = hull.is_inside;
+		this->resolution = hull.resolution;
+		this->min_radius = hull.min_radius;
+		this->cartesian_surface_points.swap(cartesian_surface_points);
+		this->polar_surface_points.swap(polar_surface_points);
+		return *this;
 	}
 }
 #endif
\ No newline at end of file
-- 
2.43.0

