From 1cc3c0a4796a4a02b45cef2730ae83821c2f19e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:40 +0000
Subject: [PATCH 01/29] fix: ellipsoid normal is the gradient of the level
 function for curvature factors above one

---
 src/Obstacle/Ellipsoid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 8e601a2..a57f11b 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -65,12 +65,14 @@ namespace DynamicObstacleAvoidance
 	{
 		Eigen::Array3d point_in_frame = this->get_pose().inverse() * agent.get_position();
 		Eigen::Array3d lengths = this->axis_lengths + this->get_safety_margin() + agent.get_safety_margin();
-		Eigen::Array3d tmp_values = (2 * this->curvature_factor * point_in_frame);
+		// an axis of (near) zero length counts as length one, as in the distance function
 		for(int i=0; i<3; ++i)
 		{
-			tmp_values(i) = (lengths(i) > this->epsilon) ? tmp_values(i) / (lengths(i) * lengths(i)) : tmp_values(i);
+			if(lengths(i) <= this->epsilon) lengths(i) = 1.0;
 		}
-		Eigen::Vector3d normal_vector = tmp_values.pow(2 * this->curvature_factor - 1);
+		// gradient of the distance function
+		Eigen::Array3d tmp_values = point_in_frame / lengths;
+		Eigen::Vector3d normal_vector = (2 * this->curvature_factor / lengths) * tmp_values.pow(2 * this->curvature_factor - 1);
 		normal_vector.normalize();
 		return normal_vector;
 	}
-- 
2.43.0


From cb32849bf189e58c1431845bdffe7925bb8749f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 02/29] fix: initialise the reference position of obstacles
 constructed by name only

---
 src/Obstacle/Obstacle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index 4474d64..d3aed67 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -6,11 +6,11 @@
 namespace DynamicObstacleAvoidance
 {
 	Obstacle::Obstacle(const std::string& name, double safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
 	{}
 
 	Obstacle::Obstacle(const std::string& name, const Eigen::Array3d& safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
 	{}
 
 	Obstacle::Obstacle(const std::string& name, double cx, double cy, double cz, double safety_margin):
-- 
2.43.0


From 205d69ffe03a5649cc73557b73297ed885924518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 03/29] fix: normalise the orientation given to a pose whatever
 its norm

---
 src/State/Pose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/State/Pose.cpp b/src/State/Pose.cpp
index 9226f77..695b125 100644
--- a/src/State/Pose.cpp
+++ b/src/State/Pose.cpp
@@ -11,7 +11,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation):
 	position(position), orientation(orientation)
 	{
-		if(this->orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z()); 
 	}
 
@@ -22,7 +22,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz):
 	position(px,py,pz), orientation(qw,qx,qy,qz)
 	{
-		if(orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z());
 	}
 
-- 
2.43.0


From 2d2e59df7950e50359223ffeb4d2d2e8168863ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 04/29] fix: keep the orientation a unit quaternion under
 repeated composition

---
 include/DynamicObstacleAvoidance/State/Pose.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/State/Pose.hpp b/include/DynamicObstacleAvoidance/State/Pose.hpp
index 752b0e0..4dbc2a1 100644
--- a/include/DynamicObstacleAvoidance/State/Pose.hpp
+++ b/include/DynamicObstacleAvoidance/State/Pose.hpp
@@ -57,6 +57,8 @@ namespace DynamicObstacleAvoidance
 		{
 			this->position += this->orientation * p.position;
 			this->orientation *= p.orientation;
+			// keep a unit quaternion over long chains of compositions
+			this->orientation.normalize();
 			return (*this);
 		}
 
-- 
2.43.0


From 45329b0ac0cc3cc75d68377309f9b28a6661b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:49 +0000
Subject: [PATCH 05/29] fix: ellipsoid area uses the products of the axis
 lengths in pairs

---
 src/Obstacle/Ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index a57f11b..4812264 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -249,7 +249,7 @@ namespace DynamicObstacleAvoidance
 	double Ellipsoid::area(bool is_include_safety_margin) const
 	{
 		Eigen::Array3d lengths = (is_include_safety_margin) ? this->get_axis_lengths() + this->get_safety_margin() : this->get_axis_lengths();
-		return 4 * M_PI * (pow((pow(lengths(0), 1.6) + pow(lengths(1), 1.6) + pow(lengths(2), 1.6))/3, 1/1.6));
+		return 4 * M_PI * (pow((pow(lengths(0) * lengths(1), 1.6) + pow(lengths(0) * lengths(2), 1.6) + pow(lengths(1) * lengths(2), 1.6))/3, 1/1.6));
 	}
 
 	Eigen::Vector3d Ellipsoid::compute_repulsion_vector(const Agent& agent) const
-- 
2.43.0


From 43e75fe15372344f930f61b27f9d890de1014784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:49 +0000
Subject: [PATCH 06/29] fix: line crossings of an ellipsoid for lines along its
 local y axis

---
 src/Obstacle/Ellipsoid.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 4812264..7c152f7 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -263,26 +263,28 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d rx1 = this->get_pose().inverse() * x1;
 		Eigen::Vector3d rx2 = this->get_pose().inverse() * x2;
 		// calculate the line passing by the two points
-		double a = (rx2(1) - rx1(1)) / (rx2(0) - rx1(0));
-		double b = rx1(1) - a * rx1(0);
+		// in parametric form (rx1 + t * direction), valid for every direction of the line
+		double dx = rx2(0) - rx1(0);
+		double dy = rx2(1) - rx1(1);
 		// compute the intersection between the ellipsoid and the desired velocity line
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		double r1squared = lengths(0) * lengths(0);
 		double r2squared = lengths(1) * lengths(1);
-		double A = 1 / r1squared + (a*a) / r2squared;
-		double B = (2*a*b) / r2squared;
-		double C = (b*b) / r2squared - 1;
+		double A = (dx*dx) / r1squared + (dy*dy) / r2squared;
+		double B = 2 * ((rx1(0)*dx) / r1squared + (rx1(1)*dy) / r2squared);
+		double C = (rx1(0)*rx1(0)) / r1squared + (rx1(1)*rx1(1)) / r2squared - 1;
 		double delta = B*B - 4*A*C;
 		// solution
 		Eigen::Vector3d p1 = Eigen::Vector3d::Zero();
 		Eigen::Vector3d p2 = Eigen::Vector3d::Zero();
 		bool intersect = false;
-		if(delta >= 0)
+		// two points at the same place in the plane do not define a line
+		if(A > 0 && delta >= 0)
 		{
-			double px1 = (-B - sqrt(delta)) / (2*A);
-			p1 << px1, a * px1 + b, 0;
-			double px2 = (-B + sqrt(delta)) / (2*A);
-			p2 << px2, a * px2 + b, 0;
+			double t1 = (-B - sqrt(delta)) / (2*A);
+			p1 << rx1(0) + t1 * dx, rx1(1) + t1 * dy, 0;
+			double t2 = (-B + sqrt(delta)) / (2*A);
+			p2 << rx1(0) + t2 * dx, rx1(1) + t2 * dy, 0;
 			p1 = this->get_pose() * p1;
 			p2 = this->get_pose() * p2;
 			intersect = true;
-- 
2.43.0


From 8269c79c4d9225b019897d9eed9856ee7efc13ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 07/29] fix: intersection of two ellipsoids does not depend on
 their order

---
 src/Obstacle/Ellipsoid.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 7c152f7..094deb7 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -220,6 +220,14 @@ namespace DynamicObstacleAvoidance
 				intersecting = this->point_is_inside(samples.col(i));
 				++i;
 			}
+			// then the second one, for the answer not to depend on which of the two is asked
+			if(!intersecting) samples = this->sample_from_parameterization(nb_samples, true);
+			i = 0;
+			while(!intersecting && i<samples.cols())
+			{
+				intersecting = other_obstacle.point_is_inside(samples.col(i));
+				++i;
+			}
 		}
 		return intersecting;
 	}
-- 
2.43.0


From 6934ebbc91f4f136b9c406dd4e1afbb078e5a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 08/29] fix: an aggregate intersects an ellipsoid when one of
 its primitives does

---
 include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp | 7 +++++++
 src/Obstacle/Aggregate.cpp                              | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
index f82a4a7..1f3737e 100644
--- a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
+++ b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
@@ -30,6 +30,13 @@ namespace DynamicObstacleAvoidance
 		 */
 		void update_center_position();
 
+		/**
+		 * @brief Check if one of the primitives is intersecting with the ellipsoid
+		 * @param other_obstacle the ellipsoid to check intersection with
+		 * @return true if the two obstacles are intersecting
+		 */
+		bool is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const override;
+
 	public:
 		/**
 		 * @brief Empty constructor
diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index 0b235ac..f43e1ad 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -65,6 +65,13 @@ namespace DynamicObstacleAvoidance
 		if(update_hull) this->update_hull();
 	}
 
+	bool Aggregate::is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const
+	{
+		bool intersecting = false;
+		for(auto& p:this->primitives) intersecting = (intersecting || p->is_intersecting(other_obstacle));
+		return intersecting;
+	}
+
 	Eigen::Vector3d Aggregate::compute_normal_to_agent(const Agent& agent) const
 	{
 		if(this->point_is_inside(agent.get_position()))
-- 
2.43.0


From a64c2b84327d684e35119cb95833a0ecc2cd4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 09/29] fix: a removed obstacle is no longer found by name
 before the next update

---
 src/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 639f92b..47667da 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -60,7 +60,7 @@ namespace DynamicObstacleAvoidance
 			{
 				for(auto& o:this->obstacle_list)
 				{
-					if(o->get_name() == k) return o;
+					if(o->get_type() == "Aggregate" && o->get_name() == k) return o;
 				}
 			}
 			throw Exceptions::ObstacleNotInEnvironmentException(k);
-- 
2.43.0


From ea84d9795b3d749e84d8491c78193f39063ead42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 10/29] fix: the closest samples of a direction past the last
 one wrap around instead of being out of range

---
 src/Utils/MathTools.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 38af9b3..18b8c75 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -87,8 +87,9 @@ namespace DynamicObstacleAvoidance
         std::vector<double> vec;
         for (int64_t i = 0; i < A.cols(); ++i) vec.push_back(A.col(i)(index));
         std::vector<double>::iterator it = std::lower_bound(std::begin(vec), std::end(vec), p(index));
-        unsigned int first_index = it - vec.begin();
-        unsigned int next_index = ((it + 1) - vec.begin()) % vec.size();
+        // past the last sample, wrap around to the first one
+        unsigned int first_index = (it - vec.begin()) % vec.size();
+        unsigned int next_index = (first_index + 1) % vec.size();
         return std::make_pair(first_index, next_index);
     }
 }
-- 
2.43.0


From 6d3fecbe06dec5f5707ed3f8f706d4f1e1175db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 11/29] fix: hull smoothing uses the current neighbours and not
 those of the previous computation

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 2d01726..b55f591 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -84,6 +84,7 @@ namespace DynamicObstacleAvoidance
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
 			{
@@ -91,7 +92,6 @@ namespace DynamicObstacleAvoidance
 				                                         0.05 * this->polar_surface_points.col(i-2)(0) + \
 				                                         0.05 * this->polar_surface_points.col(i)(0);
 			}
-			this->polar_surface_points.col(i) = surface_point;
 		}
 		// smooth 0 point with the last one
 		this->polar_surface_points.col(0)(0) = 0.9 * this->polar_surface_points.col(0)(0) + \
-- 
2.43.0


From eaa066170a3383c9234f24009f06c746364e664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 12/29] fix: hull normal has unit length

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index b55f591..f410f18 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -115,7 +115,7 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
 		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
 
-		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ());
+		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
 	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
-- 
2.43.0


From 748217047d6ac9d18924e740a2f8084bb9b3409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 13/29] fix: hull samples are evenly spaced across the +/-180
 degree seam

---
 src/Obstacle/StarShapeHull.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f410f18..0ed72f9 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -42,8 +42,8 @@ namespace DynamicObstacleAvoidance
 		this->set_reference_position(reference_point);
 		this->set_position(reference_point);
 
-		// this -1e-4 trick is to avoid that idx 0 and end represent both the same point
-		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI-1e-4, this->resolution);
+		// stop one step before pi to avoid that idx 0 and end represent both the same point
+		std::vector<double> phi = MathTools::linspace(-M_PI, M_PI - 2*M_PI/this->resolution, this->resolution);
 		
 		for(unsigned int i = 0; i < this->resolution; ++i)
 		{
-- 
2.43.0


From a16bd174b06b3a2a82eb67d910763a13c0b01be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 14/29] fix: copies of an agent have an envelope of their own

---
 include/DynamicObstacleAvoidance/Agent.hpp |  5 +++++
 src/Agent.cpp                              | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 24cf801..9698b99 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -47,6 +47,11 @@ namespace DynamicObstacleAvoidance
 		 */
 		Agent(const Agent& agent);
 
+		/**
+		 * @brief Copy assignment, the agent gets an envelope of its own
+		 */
+		Agent& operator=(const Agent& agent);
+
 		/**
 		 * @brief Getter of the envelope
 		 * @return the envelope
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 972099b..6f62086 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -15,9 +15,18 @@ namespace DynamicObstacleAvoidance
 	}
 
 	Agent::Agent(const Agent& agent):
-	state(agent.state), safety_margin(agent.safety_margin), delta_t(agent.delta_t)
+	state(agent.state), safety_margin(agent.safety_margin), envelope(std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope))), delta_t(agent.delta_t)
 	{}
 
+	Agent& Agent::operator=(const Agent& agent)
+	{
+		this->state = agent.state;
+		this->safety_margin = agent.safety_margin;
+		this->delta_t = agent.delta_t;
+		this->envelope = std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope));
+		return *this;
+	}
+
 	void Agent::update_envelope()
 	{
 		double margin = std::max(0.1, this->safety_margin);
-- 
2.43.0


From 81249a15b38e96585ffd623ece566ffe8d5bb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 15/29] fix: the envelope of an agent follows its construction
 and its safety margin

---
 include/DynamicObstacleAvoidance/Agent.hpp | 1 +
 src/Agent.cpp                              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 9698b99..5c6de68 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -131,6 +131,7 @@ namespace DynamicObstacleAvoidance
 		inline void set_safety_margin(const double& safety_margin)
 		{ 
 			this->safety_margin = safety_margin;
+			this->update_envelope();
 		}
 
 		/**
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 6f62086..d70dcfe 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -6,12 +6,14 @@ namespace DynamicObstacleAvoidance
 	safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const State& state, const double& safety_margin):
 	state(state), safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const Agent& agent):
-- 
2.43.0


From 11158183c7bf4ee87be7d324720c5a85437cd966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 16/29] fix: both tangents of the modulation basis lie in the
 tangent plane of the obstacle

---
 src/Modulation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7fbc903..cf9c674 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -69,6 +69,7 @@ namespace DynamicObstacleAvoidance
 				unit_vector = Eigen::Vector3d::UnitY();
 				tangent_vector = normal_vector.cross(unit_vector);
 			}
+			tangent_vector.normalize();
 
 			Eigen::Vector3d cross_product = tangent_vector.cross(normal_vector);
 			Eigen::Matrix3d orthogonal_basis;
@@ -82,9 +83,9 @@ namespace DynamicObstacleAvoidance
 				std::cerr << "Problem here" << std::endl;
 			}
 			
-			Eigen::Vector3d ref_cross_product = tangent_vector.cross(reference_direction);
+			// the reference direction replaces the normal, both tangents are kept
 			Eigen::Matrix3d reference_basis;
-			reference_basis << reference_direction, tangent_vector, ref_cross_product;
+			reference_basis << reference_direction, tangent_vector, cross_product;
 			return std::make_pair(reference_basis, orthogonal_basis);
 		}
 
-- 
2.43.0


From 155ef4e3eb51c7895e931e7ca53ee87df9aeb219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 17/29] fix: the frame of the dynamical system is orthonormal
 for every direction of the velocity

---
 src/Modulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index cf9c674..5fb66a3 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -113,9 +113,10 @@ namespace DynamicObstacleAvoidance
 			Eigen::Vector3d cross_product = agent_relative_velocity.cross(unit_vector);
 			if(cross_product.norm() < 1E-4) 
 			{
-				cross_product = Eigen::Vector3d::UnitY();
+				unit_vector = Eigen::Vector3d::UnitY();
 				cross_product = agent_relative_velocity.cross(unit_vector);
 			}
+			cross_product.normalize();
 			Eigen::Matrix3d orthogonal_matrix;
 			orthogonal_matrix << agent_relative_velocity, cross_product, cross_product.cross(agent_relative_velocity);
 			return orthogonal_matrix;
-- 
2.43.0


From 7cc8ef33ce83f50c450c949c6f93a3118a5f4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 18/29] fix: linspace throws an exception and not a pointer to
 it

---
 src/Utils/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 18b8c75..0c45490 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -5,7 +5,7 @@ namespace DynamicObstacleAvoidance
     std::vector<double> MathTools::linspace(double start, double end, int num) {
         // catch rarely, throw often
         if (num < 2) {
-            throw new std::exception();
+            throw std::invalid_argument("linspace needs at least two points");
         }
         int partitions = num - 1;
         std::vector<double> pts;
-- 
2.43.0


From 6c4795f7172083aca6c1740e51449423ce222165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 19/29] fix: virtual destructor for the base class of the
 obstacles

---
 include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp b/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp
index 383870b..a5a416d 100644
--- a/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp
+++ b/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp
@@ -128,7 +128,7 @@ namespace DynamicObstacleAvoidance
 		/**
 		 * @brief Destructor
 		 */
-		~Obstacle();
+		virtual ~Obstacle();
 
 		/**
 		 * @brief Getter of the type as const value
-- 
2.43.0


From faf9930a6bc82664e430d75f532baaa5634c80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 20/29] fix: the normal of the abstract obstacle is not read
 from uninitialised memory

---
 src/Obstacle/Obstacle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index d3aed67..f8cf127 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -43,7 +43,7 @@ namespace DynamicObstacleAvoidance
 	Eigen::Vector3d Obstacle::compute_normal_to_agent(const Agent&) const
 	{
 		std::cerr << "Fonction compute_normal_to_agent of abstract class obstacle used" << std::endl;
-		return Eigen::Vector3d();
+		return Eigen::Vector3d::Zero();
 	}
 
 	double Obstacle::compute_distance_to_point(const Eigen::Vector3d&, const Eigen::Array3d&) const
-- 
2.43.0


From fe1f11d920cc8b168e4d04d6583d8e8dabf3250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 21/29] fix: polar coordinates of the null vector

---
 src/Utils/MathTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 0c45490..3aafc37 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -50,7 +50,8 @@ namespace DynamicObstacleAvoidance
     Eigen::Vector3d MathTools::cartesian_to_polar(const Eigen::Vector3d& cartesian_point)
     {
         double radius = sqrt(cartesian_point(0) * cartesian_point(0) + cartesian_point(1) * cartesian_point(1) + cartesian_point(2) * cartesian_point(2));
-        double theta = acos(cartesian_point(2) / radius);
+        // the angle of the null vector is set to zero
+        double theta = (radius > 0) ? acos(cartesian_point(2) / radius) : 0;
         double phi = atan2(cartesian_point(1), cartesian_point(0));
         return Eigen::Vector3d(radius, theta, phi);
     }
-- 
2.43.0


From c6d16073a863320d9513c2717c95e4b653460752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 22/29] fix: include guard of ObstacleNotInEnvironmentException

---
 .../Exceptions/ObstacleNotInEnvironmentException.hpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp b/include/DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp
index 7537dd3..59579f0 100644
--- a/include/DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp
+++ b/include/DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp
@@ -1,5 +1,5 @@
 #ifndef DYNAMICOBSTACLEAVOIDANCE_EXCEPTIONS_OBSTACLENOTINENVIRONMENTEXCEPTION_H_
-#define DYNAMICOBSTACLEAVOIDANCE_EXCEPTIONS_OBSTACLENOTINENVIRONMENT_H_
+#define DYNAMICOBSTACLEAVOIDANCE_EXCEPTIONS_OBSTACLENOTINENVIRONMENTEXCEPTION_H_
 
 #include <iostream>
 #include <exception>
-- 
2.43.0


From 5357206cd4121c3b7de17526fcb6ea12c016515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 23/29] fix: infinite modulated velocities are replaced by zero
 as NaN ones are

---
 src/Modulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 5fb66a3..2faf410 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -222,9 +222,9 @@ namespace DynamicObstacleAvoidance
 				}
 			}
 
-			if(modulated_velocity.hasNaN())
+			if(!modulated_velocity.allFinite())
 			{
-				std:: cerr << "Modulated velocity contains NaN numbers, returning 0 velocity" << std::endl;
+				std:: cerr << "Modulated velocity contains NaN or infinite numbers, returning 0 velocity" << std::endl;
 				modulated_velocity = Eigen::Vector3d(0,0,0);
 			}
 			return modulated_velocity;
-- 
2.43.0


From 506a1377bc5c5b9fcf434f496646e94a8a1c1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 24/29] fix: the safety contour is drawn with the safety margin

---
 src/Obstacle/Ellipsoid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 094deb7..f844d69 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -133,9 +133,9 @@ namespace DynamicObstacleAvoidance
 				xrow.at(j) = point(0);
 				yrow.at(j) = point(1);
 				zrow.at(j) = point(2);
-				xrow_safety.at(j) = point(0);
-				yrow_safety.at(j) = point(1);
-				zrow_safety.at(j) = point(2);
+				xrow_safety.at(j) = safety_point(0);
+				yrow_safety.at(j) = safety_point(1);
+				zrow_safety.at(j) = safety_point(2);
 			}
 			x.at(i) = xrow;
 			y.at(i) = yrow;
-- 
2.43.0


From c6594f8532e91ec816292dc3140f21dae34f7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 25/29] fix: the xz contour of an ellipsoid is its contour and
 not the line x=0

---
 src/Obstacle/Ellipsoid.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index f844d69..129667c 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -168,10 +168,17 @@ namespace DynamicObstacleAvoidance
 			std::vector<double> tmp_z_safety(n1);
 			for (unsigned int i=0; i<n1; ++i)
 			{
-				tmp_x.at(i) = x[i][0];
-				tmp_x_safety.at(i) = x_safety[i][0];
-				tmp_z.at(i) = z[i][0];
-				tmp_z_safety.at(i) = z_safety[i][0];
+				// contour in the local xz plane of the ellipsoid
+				double theta = alpha.at(i);
+				Eigen::Vector3d point(this->get_axis_lengths(0) * sin(theta), 0, this->get_axis_lengths(2) * cos(theta));
+				Eigen::Vector3d safety_point(safety_length(0) * sin(theta), 0, safety_length(2) * cos(theta));
+				point = this->get_pose() * point;
+				safety_point = this->get_pose() * safety_point;
+
+				tmp_x.at(i) = point(0);
+				tmp_x_safety.at(i) = safety_point(0);
+				tmp_z.at(i) = point(2);
+				tmp_z_safety.at(i) = safety_point(2);
 			}
 			plt::plot(tmp_x, tmp_z, color + "-");
 			plt::plot(tmp_x_safety, tmp_z_safety, color + "--");
-- 
2.43.0


From a5f24672e085d439ec7aedf1648fa27444809d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 26/29] fix: the xz panel shows the agent in the xz plane

---
 src/Utils/Plotting/PlottingTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/Plotting/PlottingTools.cpp b/src/Utils/Plotting/PlottingTools.cpp
index 7d97514..b7e4069 100644
--- a/src/Utils/Plotting/PlottingTools.cpp
+++ b/src/Utils/Plotting/PlottingTools.cpp
@@ -64,7 +64,7 @@ namespace DynamicObstacleAvoidance
 
 			plt::subplot(2, 1, 2);
 			plot_obstacles(obstacles, "xz");
-			plot_agent(agent, "xy");
+			plot_agent(agent, "xz");
 			plot_agent_trajectory(goal, position_history, "xz");
 			plt::xlim(-10, 10);
 			plt::ylim(-10, 10);
-- 
2.43.0


From 2e1dcad7b5f11105c008908b8ff815be16e7d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 27/29] fix: aggregates and hulls are drawn in the requested
 plane

---
 src/Obstacle/Aggregate.cpp     |  3 ++-
 src/Obstacle/StarShapeHull.cpp | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index f43e1ad..19ef0e3 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -102,7 +102,8 @@ namespace DynamicObstacleAvoidance
 		{
 			o->draw(color, axis);
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, "bx");
+		unsigned int second_axis = (axis == "xz") ? 2 : 1;
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(second_axis)}, "bx");
 		this->outside_hull.draw("k", axis);
 		this->inside_hull.draw("k", axis);
 	}
diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 0ed72f9..44aa44c 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -132,30 +132,31 @@ namespace DynamicObstacleAvoidance
 		return distance;
 	}
 
-	void StarShapeHull::draw(const std::string& color, const std::string&) const
+	void StarShapeHull::draw(const std::string& color, const std::string& axis) const
 	{
 		std::vector<double> x;
 		std::vector<double> y;
+		unsigned int second_axis = (axis == "xz") ? 2 : 1;
 
 		x.clear();
 		y.clear();
 		for (unsigned int i=0; i<this->resolution; ++i)
 		{		
 			x.push_back(this->cartesian_surface_points.col(i)(0));
-			y.push_back(this->cartesian_surface_points.col(i)(1));
+			y.push_back(this->cartesian_surface_points.col(i)(second_axis));
 		}
 
 		plt::plot(x, y, color + "--");
 
 		if(this->get_name() == "")
 		{
-			plt::plot({this->get_position()(0)}, {this->get_position()(1)}, color + "o");
+			plt::plot({this->get_position()(0)}, {this->get_position()(second_axis)}, color + "o");
 		}
 		else
 		{
-			plt::text(this->get_position()(0), this->get_position()(1), this->get_name());
+			plt::text(this->get_position()(0), this->get_position()(second_axis), this->get_name());
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, color + "x");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(second_axis)}, color + "x");
 	}
 
 	bool StarShapeHull::point_is_inside(const Eigen::Vector3d& point) const
-- 
2.43.0


From ece0437484b3908dd2c9e9e90875c75c4bc14808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 28/29] fix: the numpy C-API is imported in every translation
 unit that makes arrays

---
 .../DynamicObstacleAvoidance/Utils/Plotting/matplotlibcpp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Utils/Plotting/matplotlibcpp.hpp b/include/DynamicObstacleAvoidance/Utils/Plotting/matplotlibcpp.hpp
index bfb1adf..b89ddf2 100644
--- a/include/DynamicObstacleAvoidance/Utils/Plotting/matplotlibcpp.hpp
+++ b/include/DynamicObstacleAvoidance/Utils/Plotting/matplotlibcpp.hpp
@@ -326,6 +326,8 @@ template<typename Numeric>
 PyObject* get_array(const std::vector<Numeric>& v)
 {
     detail::_interpreter::get();    //interpreter needs to be initialized for the numpy commands to work
+    // the numpy C-API is a static table, to be imported in every translation unit
+    if (!PyArray_API && _import_array() < 0) { throw std::runtime_error("Error loading module numpy!"); }
     NPY_TYPES type = select_npy_type<Numeric>::type;
     if (type == NPY_NOTYPE)
     {
@@ -345,6 +347,8 @@ template<typename Numeric>
 PyObject* get_2darray(const std::vector<::std::vector<Numeric>>& v)
 {
     detail::_interpreter::get();    //interpreter needs to be initialized for the numpy commands to work
+    // the numpy C-API is a static table, to be imported in every translation unit
+    if (!PyArray_API && _import_array() < 0) { throw std::runtime_error("Error loading module numpy!"); }
     if (v.size() < 1) throw std::runtime_error("get_2d_array v too small");
 
     npy_intp vsize[2] = {static_cast<npy_intp>(v.size()),
-- 
2.43.0


From c2c4c2825ce18902efce706b5aab33018e3776f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:43 +0000
Subject: [PATCH 29/29] fix: obstacle weights neither overflow nor all vanish
 for extreme distances

---
 src/Modulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 2faf410..6315bbf 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -41,9 +41,11 @@ namespace DynamicObstacleAvoidance
 			{
 				weights = critical_obstacles / sum_critical_obstacles;
 			}
-			else
+			else if(distances.size() > 0)
 			{
-				weights = Eigen::pow(distances - critical_distance, -weight_power);
+				// only the ratios count, and those to the smallest gap neither overflow nor all vanish
+				Eigen::ArrayXd gaps = distances - critical_distance;
+				weights = Eigen::pow(gaps / gaps.minCoeff(), -weight_power);
 				weights /= weights.sum();
 			}
 			return weights;
-- 
2.43.0

