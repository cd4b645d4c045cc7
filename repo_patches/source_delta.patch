From 551d293cc9d17eec465e991e14d1ef99ed46e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:07 +0000
Subject: [PATCH 01/28] fix: save and restore every member that determines a
 component's behaviour

---
 src/light/light_env.cpp           | 2 +-
 src/medium/medium_homogeneous.cpp | 2 +-
 src/renderer/renderer_pt.cpp      | 2 +-
 src/renderer/renderer_raycast.cpp | 2 +-
 src/renderer/renderer_volpt.cpp   | 2 +-
 src/scene.cpp                     | 2 +-
 src/texture/texture_constant.cpp  | 2 +-
 src/volume/volume_constant.cpp    | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/light/light_env.cpp b/src/light/light_env.cpp
index bdcefd2..0803f91 100644
--- a/src/light/light_env.cpp
+++ b/src/light/light_env.cpp
@@ -33,7 +33,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(sphere_bound_, envmap_, rot_, dist_);
+        ar(sphere_bound_, envmap_, rot_, scale_, dist_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visitor) override {
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 62839cb..59cbce2 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -34,7 +34,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(density_, muA_, muS_, phase_, bound_);
+        ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
 public:
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 4427681..808195e 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -38,7 +38,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, sampling_mode_, sched_);
+        ar(scene_, film_, max_verts_, seed_, sampling_mode_, primary_ray_sampling_mode_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_raycast.cpp b/src/renderer/renderer_raycast.cpp
index ed2fbd9..5667438 100644
--- a/src/renderer/renderer_raycast.cpp
+++ b/src/renderer/renderer_raycast.cpp
@@ -28,7 +28,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, sched_);
+        ar(scene_, film_, bg_color_, use_constant_color_, visualize_normal_, color_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 4fc1743..8d2a7f0 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -27,7 +27,7 @@ protected:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(scene_, film_, max_verts_, rr_prob_, sched_);
+        ar(scene_, film_, max_verts_, rr_prob_, seed_, sched_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/scene.cpp b/src/scene.cpp
index a10acf8..a68bafa 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
     LM_SERIALIZE_IMPL(ar) {
-        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_);
+        ar(accel_, nodes_, camera_, lights_, light_indices_map_, env_light_, medium_);
     }
 
     virtual void foreach_underlying(const ComponentVisitor& visit) override {
diff --git a/src/texture/texture_constant.cpp b/src/texture/texture_constant.cpp
index 48c0414..e58fa41 100644
--- a/src/texture/texture_constant.cpp
+++ b/src/texture/texture_constant.cpp
@@ -26,7 +26,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(color_);
+		ar(color_, alpha_);
 	}
 
 public:
diff --git a/src/volume/volume_constant.cpp b/src/volume/volume_constant.cpp
index 1186288..22b60ef 100644
--- a/src/volume/volume_constant.cpp
+++ b/src/volume/volume_constant.cpp
@@ -29,7 +29,7 @@ private:
 
 public:
 	LM_SERIALIZE_IMPL(ar) {
-		ar(bound_);
+		ar(bound_, color_, scalar_);
 	}
 
 public:
-- 
2.43.0


From 339d576bf9cb8683550616fc8b522c2608d6949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:43 +0000
Subject: [PATCH 02/28] fix: let renderers be serialized together with their
 scheduler

The bidirectional renderers had no serialization, no enumeration of their
references and no locator for the owned scheduler; the path, light and
volumetric path tracers did not resolve '<renderer>.scheduler', so saving
an asset tree containing any of them failed or lost state.
---
 src/renderer/renderer_bdpt.cpp    | 18 ++++++++++++++++++
 src/renderer/renderer_bdptopt.cpp | 29 +++++++++++++++++++++++------
 src/renderer/renderer_lt.cpp      |  7 +++++++
 src/renderer/renderer_pt.cpp      |  7 +++++++
 src/renderer/renderer_volpt.cpp   |  7 +++++++
 5 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index d3aedfa..872a0cd 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -44,6 +44,24 @@ public:
     std::optional<unsigned int> seed_;              // Random seed
     Component::Ptr<scheduler::Scheduler> sched_;    // Scheduler for parallel processing
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index c4d2435..3e5b1da 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -433,6 +433,29 @@ private:
     std::unordered_map<std::string, Film*> strategy_film_name_map_;
     #endif
 
+public:
+    LM_SERIALIZE_IMPL(ar) {
+        ar(scene_, film_, min_verts_, max_verts_, seed_, sched_);
+    }
+
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, scene_);
+        comp::visit(visit, film_);
+        comp::visit(visit, sched_);
+    }
+
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        #if BDPT_PER_STRATEGY_FILM
+        if (const auto it = strategy_film_name_map_.find(name); it != strategy_film_name_map_.end()) {
+            return it->second;
+        }
+        #endif
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
@@ -461,12 +484,6 @@ public:
         #endif
     }
 
-    #if BDPT_PER_STRATEGY_FILM
-    virtual Component* underlying(const std::string& name) const override {
-        return strategy_film_name_map_.at(name);
-    }
-    #endif
-
     virtual Json render() const override {
         scene_->require_renderable();
         film_->clear();
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index d22038e..ea2e9ed 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -34,6 +34,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index 808195e..f9dd68a 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -47,6 +47,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index 8d2a7f0..e60f1c3 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -36,6 +36,13 @@ public:
         comp::visit(visit, sched_);
     }
 
+    virtual Component* underlying(const std::string& name) const override {
+        if (name == "scheduler") {
+            return sched_.get();
+        }
+        return nullptr;
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         scene_ = json::comp_ref<Scene>(prop, "scene");
-- 
2.43.0


From 944eb1e4281e7a879639fb1611898a639798b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:43 +0000
Subject: [PATCH 03/28] fix: enumerate the weak references of media,
 multi-volumes and scene media

Replacing a phase function, volume or medium left these holders with a
dangling pointer because the reference was never visited.
---
 src/medium/medium_heterogeneous.cpp | 12 +++++++++---
 src/medium/medium_homogeneous.cpp   |  6 +++++-
 src/scene.cpp                       |  1 +
 src/volume/volume_multi.cpp         |  9 +++++++++
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 4731d4d..7fabc20 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -25,15 +25,21 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE)
 */
 class Medium_Heterogeneous final : public Medium {
 private:
-    const Volume* volume_density_;  // Density volume. density := \mu_t = \mu_a + \mu_s
-    const Volume* volme_albedo_;	// Albedo volume. albedo := \mu_s / \mu_t
-    const Phase* phase_;            // Underlying phase function.
+    Volume* volume_density_;        // Density volume. density := \mu_t = \mu_a + \mu_s
+    Volume* volme_albedo_;          // Albedo volume. albedo := \mu_s / \mu_t
+    Phase* phase_;                  // Underlying phase function.
 
 public:
     LM_SERIALIZE_IMPL(ar) {
         ar(volume_density_, volme_albedo_, phase_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, volume_density_);
+        comp::visit(visit, volme_albedo_);
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         volume_density_ = json::comp_ref<Volume>(prop, "volume_density");
diff --git a/src/medium/medium_homogeneous.cpp b/src/medium/medium_homogeneous.cpp
index 59cbce2..55f9678 100644
--- a/src/medium/medium_homogeneous.cpp
+++ b/src/medium/medium_homogeneous.cpp
@@ -29,7 +29,7 @@ private:
     Vec3 albedo_;           // Albedo of volume := \mu_s / \mu_t
     Vec3 muA_;              // Absorption coefficient.
     Vec3 muS_;              // Scattering coefficient.
-    const Phase* phase_;    // Underlying phase function.
+    Phase* phase_;          // Underlying phase function.
     Bound bound_;
 
 public:
@@ -37,6 +37,10 @@ public:
         ar(density_, albedo_, muA_, muS_, phase_, bound_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        comp::visit(visit, phase_);
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         density_ = json::value<Float>(prop, "density");
diff --git a/src/scene.cpp b/src/scene.cpp
index a68bafa..f3d8556 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -40,6 +40,7 @@ public:
                 comp::visit(visit, node.primitive.material);
                 comp::visit(visit, node.primitive.light);
                 comp::visit(visit, node.primitive.camera);
+                comp::visit(visit, node.primitive.medium);
             }
         }
     }
diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 03bafce..93fd841 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -32,6 +32,15 @@ public:
         ar(bound_, max_scalar_, size_, volumes_den_, volumes_alb_);
     }
 
+    virtual void foreach_underlying(const ComponentVisitor& visit) override {
+        for (auto& v : volumes_den_) {
+            comp::visit(visit, v);
+        }
+        for (auto& v : volumes_alb_) {
+            comp::visit(visit, v);
+        }
+    }
+
 public:
     virtual void construct(const Json& prop) override {
         // Currently no straightforward way to use json::comp_ref<Volume>() on an array
-- 
2.43.0


From c1c313e8c396f1a6a310a8896ef16e0e1465cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:43 +0000
Subject: [PATCH 04/28] fix: fail deserialization when a serialized component
 cannot be created

Returning silently left the archive positioned inside the missing
component's contents, so everything after it was read as garbage.
---
 include/lm/serial.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 3fbf2ca..7fc5f88 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -205,7 +205,8 @@ void load(Archive& ar, lm::Component::Ptr<T>& p) {
         // Be careful not to call construct() function here
         p = lm::comp::create_without_construct<T>(key, loc);
         if (!p) {
-            return;
+            LM_THROW_EXCEPTION(lm::Error::IOError,
+                "Failed to create an instance of the serialized component [key='{}', loc='{}']", key, loc);
         }
 
         // Load the contents
-- 
2.43.0


From 192108e2f19a76b00a2a1128bea4b966ca063cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:48 +0000
Subject: [PATCH 05/28] fix: make the BVH builder's completion flag atomic

---
 src/accel/accel_sahbvh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index 33ab6b0..c291cbc 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -167,7 +167,7 @@ public:
         std::condition_variable cv;     // For concurrent queue
         std::atomic<int> pr = 0;        // Processed triangles
         std::atomic<int> nn = 1;        // Number of current nodes
-        bool done = 0;                  // True if the build process is done
+        std::atomic<bool> done = false; // True if the build process is done
 
         auto process = [&]() {
             while (!done) {
-- 
2.43.0


From 5f46d7b30ffec909c57330d206a5456082933a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:48 +0000
Subject: [PATCH 06/28] fix: make the logger's severity threshold atomic

---
 src/logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index cba1e45..2214af4 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -15,9 +15,9 @@ LM_NAMESPACE_BEGIN(LM_NAMESPACE::log)
 class LoggerContext_Default : public LoggerContext {
 private:
     #if LM_DEBUG_MODE
-    int severity_ = -100;
+    std::atomic<int> severity_ = -100;
     #else
-    int severity_ = 0;
+    std::atomic<int> severity_ = 0;
     #endif
     int indentation_ = 0;
     std::string indentation_string_;
-- 
2.43.0


From e625fd473243109cd2d4224a9a0051bf1d98a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:31 +0000
Subject: [PATCH 07/28] fix: initialise pinhole camera from matrix completely
 and reject unknown pt sampling modes

---
 src/camera/camera_pinhole.cpp | 2 ++
 src/renderer/renderer_pt.cpp  | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 3a00e78..31d2443 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -82,6 +82,8 @@ public:
             u_ = -viewM3[0];
             v_ = viewM3[1];
             w_ = -viewM3[2];
+            center_ = position_ - w_;
+            up_ = v_;
         }
         else {
             position_ = json::value<Vec3>(prop, "position"); // Camera position
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index f9dd68a..d4774ab 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -65,6 +65,7 @@ public:
             if (s == "naive")    sampling_mode_ = SamplingMode::Naive;
             else if (s == "nee") sampling_mode_ = SamplingMode::NEE;
             else if (s == "mis") sampling_mode_ = SamplingMode::MIS;
+            else LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid sampling mode [sampling_mode='{}']", s);
         }
         {
 
@@ -80,6 +81,10 @@ public:
                 sched_ = comp::create<scheduler::Scheduler>(
                     "scheduler::spi::" + name, make_loc("scheduler"), prop);
             }
+            else {
+                LM_THROW_EXCEPTION(Error::InvalidArgument,
+                    "Invalid primary ray sampling mode [primary_ray_sampling_mode='{}']", s);
+            }
         }
     }
 
-- 
2.43.0


From c779c6479275fb37a6950da6f24bbe1454d8f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:06 +0000
Subject: [PATCH 08/28] fix: report unknown scheduler and progress types
 instead of dereferencing null

---
 src/progress.cpp                  | 3 +++
 src/renderer/renderer_bdpt.cpp    | 3 +++
 src/renderer/renderer_bdptopt.cpp | 3 +++
 src/renderer/renderer_lt.cpp      | 3 +++
 src/renderer/renderer_pt.cpp      | 3 +++
 src/renderer/renderer_volpt.cpp   | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/src/progress.cpp b/src/progress.cpp
index dc9beff..1cd753e 100644
--- a/src/progress.cpp
+++ b/src/progress.cpp
@@ -65,6 +65,9 @@ public:
         delay_ = milliseconds(json::value<int>(prop, "delay"));
         auto it = prop["progress"].begin();
         ctx_ = comp::create<ProgressContext>(it.key(), "", it.value());
+        if (!ctx_) {
+            LM_THROW_EXCEPTION_DEFAULT(Error::InvalidArgument);
+        }
     }
 
     virtual void start(ProgressMode mode, long long total, double totalTime) override {
diff --git a/src/renderer/renderer_bdpt.cpp b/src/renderer/renderer_bdpt.cpp
index 872a0cd..76ffcb6 100644
--- a/src/renderer/renderer_bdpt.cpp
+++ b/src/renderer/renderer_bdpt.cpp
@@ -72,6 +72,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [scheduler='{}']", sched_name);
+        }
     }
 };
 
diff --git a/src/renderer/renderer_bdptopt.cpp b/src/renderer/renderer_bdptopt.cpp
index 3e5b1da..8033ac5 100644
--- a/src/renderer/renderer_bdptopt.cpp
+++ b/src/renderer/renderer_bdptopt.cpp
@@ -466,6 +466,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [scheduler='{}']", sched_name);
+        }
         #if BDPT_PER_STRATEGY_FILM
         const auto size = film_->size();
         for (int k = 2; k <= max_verts_; k++) {
diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index ea2e9ed..004c19c 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -52,6 +52,9 @@ public:
         const auto sched_name = json::value<std::string>(prop, "scheduler");
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spi::" + sched_name, make_loc("scheduler"), prop);
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [scheduler='{}']", sched_name);
+        }
     }
 
     virtual Json render() const override {
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index d4774ab..f6c0bd0 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -85,6 +85,9 @@ public:
                 LM_THROW_EXCEPTION(Error::InvalidArgument,
                     "Invalid primary ray sampling mode [primary_ray_sampling_mode='{}']", s);
             }
+            if (!sched_) {
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [scheduler='{}']", name);
+            }
         }
     }
 
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index e60f1c3..da7ed6c 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -58,6 +58,9 @@ public:
         sched_ = comp::create<scheduler::Scheduler>(
             "scheduler::spp::" + sched_name, make_loc("scheduler"), prop);
         #endif
+        if (!sched_) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid scheduler [scheduler='{}']", sched_name);
+        }
     }
 };
 
-- 
2.43.0


From 72b8ef29ad26d4511625bc89171de8a691fb5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:06 +0000
Subject: [PATCH 09/28] fix: skip samples whose primary vertex, ray or raster
 position could not be sampled

---
 src/renderer/renderer_lt.cpp    |  3 +++
 src/renderer/renderer_pt.cpp    |  9 ++++++++-
 src/renderer/renderer_volpt.cpp | 18 ++++++++++++++++--
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/renderer/renderer_lt.cpp b/src/renderer/renderer_lt.cpp
index 004c19c..a6a2d80 100644
--- a/src/renderer/renderer_lt.cpp
+++ b/src/renderer/renderer_lt.cpp
@@ -72,6 +72,9 @@ public:
 
             // Sample primary ray
             const auto s_primary = path::sample_primary_ray(rng, scene_, TransDir::LE);
+            if (!s_primary) {
+                return;
+            }
 
             // Intersection to next surface
             const auto hit_primary = scene_->intersect(s_primary->ray());
diff --git a/src/renderer/renderer_pt.cpp b/src/renderer/renderer_pt.cpp
index f6c0bd0..c907b9a 100644
--- a/src/renderer/renderer_pt.cpp
+++ b/src/renderer/renderer_pt.cpp
@@ -125,6 +125,9 @@ public:
 
             // Sample initial vertex
             const auto sE = path::sample_position(rng, scene_, TransDir::EL);
+            if (!sE) {
+                return;
+            }
             const auto sE_comp = path::sample_component(rng, scene_, sE->sp, {});
             auto sp = sE->sp;
             int comp = sE_comp.comp;
@@ -227,7 +230,11 @@ public:
 
                 // Compute and cache raster position
                 if (num_verts == 1) {
-                    raster_pos = *path::raster_position(scene_, s->wo);
+                    const auto rp = path::raster_position(scene_, s->wo);
+                    if (!rp) {
+                        break;
+                    }
+                    raster_pos = *rp;
                 }
 
                 // --------------------------------------------------------------------------------
diff --git a/src/renderer/renderer_volpt.cpp b/src/renderer/renderer_volpt.cpp
index da7ed6c..e91b6a9 100644
--- a/src/renderer/renderer_volpt.cpp
+++ b/src/renderer/renderer_volpt.cpp
@@ -100,6 +100,9 @@ public:
 
             // Sample initial vertex
             const auto sE = path::sample_position(rng, scene_, TransDir::EL);
+            if (!sE) {
+                return;
+            }
             const auto sE_comp = path::sample_component(rng, scene_, sE->sp, {});
             auto sp = sE->sp;
             int comp = sE_comp.comp;
@@ -130,7 +133,11 @@ public:
 
                 // Compute and cache raster position
                 if (num_verts == 1) {
-                    raster_pos = *path::raster_position(scene_, s->wo);
+                    const auto rp = path::raster_position(scene_, s->wo);
+                    if (!rp) {
+                        break;
+                    }
+                    raster_pos = *rp;
                 }
 
                 // --------------------------------------------------------------------------------
@@ -237,6 +244,9 @@ public:
 
             // Sample initial vertex
             const auto sE = path::sample_position(rng, scene_, TransDir::EL);
+            if (!sE) {
+                return;
+            }
             const auto sE_comp = path::sample_component(rng, scene_, sE->sp, {});
             auto sp = sE->sp;
             int comp = sE_comp.comp;
@@ -308,7 +318,11 @@ public:
 
                 // Compute and cache raster position
                 if (num_verts == 1) {
-                    raster_pos = *path::raster_position(scene_, s->wo);
+                    const auto rp = path::raster_position(scene_, s->wo);
+                    if (!rp) {
+                        break;
+                    }
+                    raster_pos = *rp;
                 }
 
                 // --------------------------------------------------------------------------------
-- 
2.43.0


From 0d89359a701dd70196cdf1aff585d2c0e00c239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:06 +0000
Subject: [PATCH 10/28] fix: building a scene without acceleration structure is
 an error, not a null dereference

---
 src/scene.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scene.cpp b/src/scene.cpp
index f3d8556..fb35545 100644
--- a/src/scene.cpp
+++ b/src/scene.cpp
@@ -273,6 +273,8 @@ public:
     }
 
     virtual void build() override {
+        require_accel();
+
         // Update light indices
         // We keep the global transformation of the light primitive as well as the references.
         // We need to recompute the indices when an update of the scene happens,
@@ -363,7 +365,7 @@ public:
     }
 
     virtual bool is_camera(const SceneInteraction& sp) const override {
-        return sp.primitive == *camera_;
+        return camera_ && sp.primitive == *camera_;
     }
 
     #pragma endregion
-- 
2.43.0


From e4609c1f517e259161e73bfc96adbe33741302fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:06 +0000
Subject: [PATCH 11/28] fix: saving or loading state before initialization is
 an error

---
 src/user.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/user.cpp b/src/user.cpp
index 9c46794..39b9d4e 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -102,11 +102,13 @@ public:
     }
 
     void save_state_to_file(const std::string& path) {
+        check_initialized();
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
     }
 
     void load_state_from_file(const std::string& path) {
+        check_initialized();
         std::ifstream is(path, std::ios::in | std::ios::binary);
         serial::load_comp(is, root_assets_, root_assets_->loc());
     }
-- 
2.43.0


From 49a974e1bb5068f12191d37a8f879bbb58d4dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:43 +0000
Subject: [PATCH 12/28] fix: heterogeneous medium rejects volumes lacking
 density or albedo

---
 src/medium/medium_heterogeneous.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/medium/medium_heterogeneous.cpp b/src/medium/medium_heterogeneous.cpp
index 7fabc20..1d33567 100644
--- a/src/medium/medium_heterogeneous.cpp
+++ b/src/medium/medium_heterogeneous.cpp
@@ -45,6 +45,12 @@ public:
         volume_density_ = json::comp_ref<Volume>(prop, "volume_density");
         volme_albedo_ = json::comp_ref<Volume>(prop, "volume_albedo");
         phase_ = json::comp_ref<Phase>(prop, "phase");
+        if (!volume_density_->has_scalar()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "volume_density has no scalar component");
+        }
+        if (!volme_albedo_->has_color()) {
+            LM_THROW_EXCEPTION(Error::InvalidArgument, "volume_albedo has no color component");
+        }
     }
 
     virtual std::optional<DistanceSample> sample_distance(Rng& rng, Ray ray, Float tmin, Float tmax) const override {
-- 
2.43.0


From a691f6ddc15a852df97f5d03f98dbc71db8947d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:02 +0000
Subject: [PATCH 13/28] fix: dispatch every virtual operation of Python
 components to the method of the same name

---
 src/pylm.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index bec63f4..98532a0 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -494,6 +494,9 @@ static void bind_film(pybind11::module& m) {
         virtual void clear() override {
             PYBIND11_OVERLOAD_PURE(void, Film, clear);
         }
+        virtual void splat(Vec2 rp, Vec3 v) override {
+            PYBIND11_OVERLOAD(void, Film, splat, rp, v);
+        }
     };
     pybind11::class_<Film, Film_Py, Component, Component::Ptr<Film>>(m, "Film")
         .def(pybind11::init<>())
@@ -793,6 +796,12 @@ static void bind_texture(pybind11::module& m) {
         virtual Vec3 eval_by_pixel_coords(int x, int y) const override {
             PYBIND11_OVERLOAD_PURE(Vec3, Texture, eval_by_pixel_coords, x, y);
         }
+        virtual Float eval_alpha(Vec2 t) const override {
+            PYBIND11_OVERLOAD(Float, Texture, eval_alpha, t);
+        }
+        virtual bool has_alpha() const override {
+            PYBIND11_OVERLOAD(bool, Texture, has_alpha);
+        }
     };
     pybind11::class_<Texture, Texture_Py, Component, Component::Ptr<Texture>>(m, "Texture")
         .def(pybind11::init<>())
@@ -973,7 +982,7 @@ static void bind_volume(pybind11::module& m) {
             PYBIND11_OVERLOAD_PURE(bool, Volume, has_scalar);
         }
         virtual Float max_scalar() const override {
-            PYBIND11_OVERLOAD_PURE(Float, Volume, has_scalar);
+            PYBIND11_OVERLOAD_PURE(Float, Volume, max_scalar);
         }
         virtual Float eval_scalar(Vec3 p) const override {
             PYBIND11_OVERLOAD(Float, Volume, eval_scalar, p);
@@ -984,6 +993,9 @@ static void bind_volume(pybind11::module& m) {
         virtual Vec3 eval_color(Vec3 p) const override {
             PYBIND11_OVERLOAD(Vec3, Volume, eval_color, p);
         }
+        virtual void march(Ray ray, Float tmin, Float tmax, Float march_step, const RaymarchFunc& raymarch_func) const override {
+            PYBIND11_OVERLOAD(void, Volume, march, ray, tmin, tmax, march_step, raymarch_func);
+        }
     };
     pybind11::class_<Volume, Volume_Py, Component, Component::Ptr<Volume>>(m, "Volume")
         .def(pybind11::init<>())
@@ -1168,6 +1180,9 @@ static void bind_light(pybind11::module& m) {
         virtual bool is_infinite() const override {
             PYBIND11_OVERLOAD_PURE(bool, Light, is_infinite);
         }
+        virtual bool is_env() const override {
+            PYBIND11_OVERLOAD(bool, Light, is_env);
+        }
         virtual bool is_connectable(const PointGeometry& geom) const override {
             PYBIND11_OVERLOAD_PURE(bool, Light, is_connectable, geom);
         }
-- 
2.43.0


From 81a00075b6469d423ab79ba1d0335cde84427613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:26 +0000
Subject: [PATCH 14/28] fix: convert Python numbers and arrays without
 truncation or out-of-bounds reads

---
 include/lm/pylm.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/lm/pylm.h b/include/lm/pylm.h
index 4bb2470..64d5cf7 100644
--- a/include/lm/pylm.h
+++ b/include/lm/pylm.h
@@ -40,7 +40,7 @@ public:
             value = src.cast<double>();
         }
         else if (isinstance<int_>(src)) {
-            value = src.cast<int>();
+            value = src.cast<long long>();
         }
         else if (isinstance<str>(src)) {
             value = src.cast<std::string>();
@@ -75,7 +75,7 @@ public:
             // Check if the underlying type is registered to pybind,
             // and the number of base class is one assuming multiple inheritance is not used.
             auto& bases = all_type_info((PyTypeObject*)src.get_type().ptr());
-            if (bases.size() == 1) {
+            if (bases.size() == 1 && isinstance<lm::Component>(src)) {
                 void* ptr = values_and_holders(reinterpret_cast<instance*>(src.ptr())).begin()->value_ptr();
                 auto* comp = static_cast<lm::Component*>(ptr);
                 // Extranct the locator of the instance
@@ -104,9 +104,11 @@ public:
             case value_t::number_float: {
                 return cast_to_python_object<double>(src, policy, std::move(parent));
             }
-            case value_t::number_integer: { [[fallthrough]]; }
+            case value_t::number_integer: {
+                return cast_to_python_object<long long>(src, policy, std::move(parent));
+            }
             case value_t::number_unsigned: {
-                return cast_to_python_object<int>(src, policy, std::move(parent));
+                return cast_to_python_object<unsigned long long>(src, policy, std::move(parent));
             }
             case value_t::string: {
                 return cast_to_python_object<std::string>(src, policy, std::move(parent));
@@ -184,13 +186,13 @@ struct type_caster<glm::vec<N, T, Q>> {
         }
 
         // Ensure that the argument is a numpy array of correct type
-        auto buf = array::ensure(src);
+        auto buf = array_t<T, array::c_style>::ensure(src);
         if (!buf) {
             return false;
         }
 
         // Check dimension
-        if (buf.ndim() != 1) {
+        if (buf.ndim() != 1 || buf.shape(0) != N) {
             return false;
         }
 
@@ -242,13 +244,13 @@ struct type_caster<glm::mat<C, R, T, Q>> {
         }
 
         // Ensure that the argument is a numpy array of correct type
-        auto buf = array::ensure(src);
+        auto buf = array_t<T, array::c_style>::ensure(src);
         if (!buf) {
             return false;
         }
 
         // Check dimension
-        if (buf.ndim() != 2) {
+        if (buf.ndim() != 2 || buf.shape(0) != R || buf.shape(1) != C) {
             return false;
         }
 
-- 
2.43.0


From 9759f4d91b881a1857fd309ccc170c13dfae7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:59 +0000
Subject: [PATCH 15/28] fix: a failed asset load leaves the asset group and
 references to it unchanged

---
 src/assetgroup.cpp | 59 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/assetgroup.cpp b/src/assetgroup.cpp
index 7f33502..e4bc777 100644
--- a/src/assetgroup.cpp
+++ b/src/assetgroup.cpp
@@ -41,6 +41,22 @@ private:
         return std::regex_match(name, match, regex);
     }
 
+    // Remove a registered asset
+    void unregister_asset(const std::string& name) {
+        const auto it = asset_index_map_.find(name);
+        if (it == asset_index_map_.end()) {
+            return;
+        }
+        const int index = it->second;
+        asset_index_map_.erase(it);
+        assets_.erase(assets_.begin() + index);
+        for (auto& v : asset_index_map_) {
+            if (v.second > index) {
+                v.second--;
+            }
+        }
+    }
+
 public:
     virtual Component* load_asset(const std::string& name, const std::string& impl_key, const Json& prop) override {
         LM_INFO("Loading asset [name='{}']", name);
@@ -74,15 +90,12 @@ public:
             // Move existing instance
             // This must not be released until the end of this scope
             // because weak references needs to find locator in the existing instance.
-            auto old = std::move(assets_[it->second]);
+            const int index = it->second;
+            auto old = std::move(assets_[index]);
 
             // Replace the existing instance
-            assets_[it->second] = std::move(p);
-            asset = assets_[it->second].get();
-
-            // Initialize the asset
-            // This might cause an exception
-            asset->construct(prop);
+            assets_[index] = std::move(p);
+            asset = assets_[index].get();
 
             // Notify to update the weak references in the object tree
             const Component::ComponentVisitor visitor = [&](Component*& comp, bool weak) {
@@ -100,6 +113,20 @@ public:
                     comp::update_weak_ref(comp);
                 }
             };
+
+            // Initialize the asset
+            // This might cause an exception
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                // Keep the existing instance and the references to it
+                std::swap(assets_[index], old);
+                asset = assets_[index].get();
+                comp::get<Component>("$")->foreach_underlying(visitor);
+                throw;
+            }
+
             comp::get<Component>("$")->foreach_underlying(visitor);
         }
         else {
@@ -109,7 +136,13 @@ public:
             asset = assets_.back().get();
 
             // Initialize the asset
-            asset->construct(prop);
+            try {
+                asset->construct(prop);
+            }
+            catch (...) {
+                unregister_asset(name);
+                throw;
+            }
         }
 
         return asset;
@@ -131,8 +164,14 @@ public:
         assets_.emplace_back();
      
         // Deserialize the asset
-        std::ifstream is(path, std::ios::in | std::ios::binary);
-        serial::load_comp(is, assets_.back(), make_loc(name));
+        try {
+            std::ifstream is(path, std::ios::in | std::ios::binary);
+            serial::load_comp(is, assets_.back(), make_loc(name));
+        }
+        catch (...) {
+            unregister_asset(name);
+            throw;
+        }
 
         return assets_.back().get();
     }
-- 
2.43.0


From 581643f86913102f3da912279a0ac34a935d2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:15 +0000
Subject: [PATCH 16/28] fix: reject references to components outside of the
 saved subtree whose names extend the root's name

---
 include/lm/serial.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/lm/serial.h b/include/lm/serial.h
index 7fc5f88..d9369da 100644
--- a/include/lm/serial.h
+++ b/include/lm/serial.h
@@ -21,6 +21,22 @@
 
 //! \cond
 
+LM_NAMESPACE_BEGIN(LM_NAMESPACE)
+LM_NAMESPACE_BEGIN(serial)
+LM_NAMESPACE_BEGIN(detail)
+
+// Check if the locator refers to the root component or a component inside of its subtree
+inline bool is_in_subtree(const std::string& loc, const std::string& root_loc) {
+    return loc.rfind(root_loc, 0) == 0
+        && (loc.size() == root_loc.size() || loc[root_loc.size()] == '.');
+}
+
+LM_NAMESPACE_END(detail)
+LM_NAMESPACE_END(serial)
+LM_NAMESPACE_END(LM_NAMESPACE)
+
+// ------------------------------------------------------------------------------------------------
+
 LM_NAMESPACE_BEGIN(cereal)
 
 /*
@@ -136,7 +152,7 @@ void save_owned(Archive& ar, T* p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::detail::is_in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -253,7 +269,7 @@ serialize(lm::OutputArchive& ar, T*& p) {
 
             // Consistency testing
             // Current locator must start with root_loc
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::detail::is_in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(lm::Error::IOError,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
@@ -372,7 +388,7 @@ save_comp_owned(std::ostream& stream, T* comp, const std::string& root_loc) {
             // Check if the weak reference is referring to an asset in the subtree
             // by checking if the locator starts with root_loc.
             const auto loc = visiting_comp->loc();
-            if (loc.rfind(root_loc, 0) != 0) {
+            if (!lm::serial::detail::is_in_subtree(loc, root_loc)) {
                 LM_THROW_EXCEPTION(Error::Unsupported,
                     "Unserializable asset. Subtree contains a reference to the outer asset. [loc='{}']", loc);
             }
-- 
2.43.0


From f74308fb1b3b0558dbc1c2a49cbdb9ad664194b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:10 +0000
Subject: [PATCH 17/28] fix: volume::multi rejects references to missing
 volumes instead of dereferencing them

---
 src/volume/volume_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/volume/volume_multi.cpp b/src/volume/volume_multi.cpp
index 93fd841..3cf567d 100644
--- a/src/volume/volume_multi.cpp
+++ b/src/volume/volume_multi.cpp
@@ -56,6 +56,8 @@ public:
         for( unsigned int i = 0; i < size_; i++ ){
             volumes_alb_.push_back( comp::get<Volume>(vol_ref_alb[i]) );
             volumes_den_.push_back( comp::get<Volume>(vol_ref_den[i]) );
+            if (!volumes_alb_.back() || !volumes_den_.back())
+                LM_THROW_EXCEPTION(Error::InvalidArgument, "Invalid volume reference [index={}]", i);
 
             if (!volumes_alb_.back()->has_color())
                 LM_THROW_EXCEPTION(Error::InvalidArgument, "volumes_alb[{}] has no albedo/color", i);
-- 
2.43.0


From 14c9a5fa8e4f9fda22161270e3f47f9eb5eb09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:02 +0000
Subject: [PATCH 18/28] fix: report data lost while flushing saved state and
 component files

---
 src/pylm.cpp | 3 +++
 src/user.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pylm.cpp b/src/pylm.cpp
index 98532a0..1e6fa1c 100644
--- a/src/pylm.cpp
+++ b/src/pylm.cpp
@@ -153,6 +153,9 @@ static void bind_component(pybind11::module& m) {
         .def("save_to_file", [](Component* self, const std::string& path) {
             std::ofstream os(path, std::ios::out | std::ios::binary);
             serial::save_comp_owned(os, self, self->loc());
+            if (!os.flush()) {
+                LM_THROW_EXCEPTION(Error::IOError, "Failed to write component [path='{}']", path);
+            }
         })
         .PYLM_DEF_COMP_BIND(Component);
 
diff --git a/src/user.cpp b/src/user.cpp
index 39b9d4e..b639161 100644
--- a/src/user.cpp
+++ b/src/user.cpp
@@ -105,6 +105,9 @@ public:
         check_initialized();
         std::ofstream os(path, std::ios::out | std::ios::binary);
         serial::save_comp(os, root_assets_, root_assets_->loc());
+        if (!os.flush()) {
+            LM_THROW_EXCEPTION(Error::IOError, "Failed to write state [path='{}']", path);
+        }
     }
 
     void load_state_from_file(const std::string& path) {
-- 
2.43.0


From c1b7c5643b95633023a8363ecd10209bb8ca514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:02 +0000
Subject: [PATCH 19/28] fix: report failed writes of PFM images

---
 src/film/film_bitmap.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/film/film_bitmap.cpp b/src/film/film_bitmap.cpp
index cf3a60a..aee3736 100644
--- a/src/film/film_bitmap.cpp
+++ b/src/film/film_bitmap.cpp
@@ -73,9 +73,13 @@ namespace image {
             return false;
         }
         #endif
-        fprintf(f, "PF\n%d %d\n-1\n", w, h);
-        fwrite(d.data(), 4, d.size(), f);
-        fclose(f);
+        bool written = fprintf(f, "PF\n%d %d\n-1\n", w, h) > 0;
+        written = fwrite(d.data(), 4, d.size(), f) == d.size() && written;
+        written = fclose(f) == 0 && written;
+        if (!written) {
+            LM_ERROR("Failed to write [file='{}']", outpath);
+            return false;
+        }
         return true;
     }
 
-- 
2.43.0


From 51112eedaab0ea96b1c55ed5697a665ba80d34ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:02 +0000
Subject: [PATCH 20/28] fix: do not silently stop at long lines or read errors
 in OBJ/MTL files

---
 src/objloader/objloader_simple.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/objloader/objloader_simple.cpp b/src/objloader/objloader_simple.cpp
index b643b22..e4bc159 100644
--- a/src/objloader/objloader_simple.cpp
+++ b/src/objloader/objloader_simple.cpp
@@ -27,7 +27,8 @@ public:
         msmap_.clear();
 
         LM_INFO("Loading OBJ file [path='{}']", fs::path(path).filename().string());
-        char l[4096], name[256];
+        char name[256];
+        std::string l;
         std::ifstream f(path);
         if (!f) {
             LM_ERROR("Missing OBJ file [path='{}']", path);
@@ -48,8 +49,8 @@ public:
         int curr_material_index = 0;
 
         // Parse .obj file line by line
-        while (f.getline(l, 4096)) {
-            char *t = l;
+        while (std::getline(f, l)) {
+            char *t = l.data();
             skip_spaces(t);
 
             // ----- Parse vertex position
@@ -139,6 +140,10 @@ public:
                 continue;
             }
         }
+        if (f.bad()) {
+            LM_ERROR("Failed to read OBJ file [path='{}']", path);
+            return false;
+        }
 
         // Create a default material if MTL file is missing
         if (ms_.empty()) {
@@ -237,9 +242,10 @@ private:
             LM_ERROR("Missing MLT file [path='{}']", p);
             return false;
         }
-        char l[4096], name[256];
-        while (f.getline(l, 4096)) {
-            auto *t = l;
+        char name[256];
+        std::string l;
+        while (std::getline(f, l)) {
+            auto *t = l.data();
             skip_spaces(t);
             if (command(t, "newmtl", 6)) {
                 next_string(t += 7, name);
@@ -261,6 +267,10 @@ private:
             else if (command(t, "illum", 5))  { m.illum = next_int(t += 6); }
             else if (command(t, "map_Kd", 6)) { next_string(t += 7, name); m.mapKd = name; }
         }
+        if (f.bad()) {
+            LM_ERROR("Failed to read MTL file [path='{}']", p);
+            return false;
+        }
         return true;
     }
 };
-- 
2.43.0


From 1e860d9bd9438d7261a3900d69218a9621881d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:39 +0000
Subject: [PATCH 21/28] fix: account for the light selection probability in
 path::sample_position

---
 include/lm/path.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index 1a1ddaf..bdec906 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -293,7 +293,7 @@ static std::optional<PositionSample> sample_position(const PositionSampleU& u, c
                 light_primitive_index.index,
                 s->geom
             ),
-            s->weight
+            s->weight / p_sel
         };
     }
     LM_UNREACHABLE_RETURN();
-- 
2.43.0


From 9db9e6b8324e2457287515bdf10d13b54858fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:39 +0000
Subject: [PATCH 22/28] fix: weight of the alpha mask component is its
 contribution over its density

---
 src/model/model_wavefrontobj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 343c9a8..74b9bcb 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -471,7 +471,7 @@ public:
             const auto C = f / p;
             return DirectionSample{
                 wo,
-                Vec3(1_f)
+                C
             };
         }
     }
-- 
2.43.0


From c2ed9997571e2e2717df31856e52ca2d8ca53d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:39 +0000
Subject: [PATCH 23/28] fix: direct camera samples outside of the view frustum
 carry no importance

---
 src/camera/camera_pinhole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/camera/camera_pinhole.cpp b/src/camera/camera_pinhole.cpp
index 31d2443..369f03b 100644
--- a/src/camera/camera_pinhole.cpp
+++ b/src/camera/camera_pinhole.cpp
@@ -184,7 +184,7 @@ public:
         }
         const auto geomE = PointGeometry::make_degenerated(position_);
         const auto wo = glm::normalize(geom.p - position_);
-        const auto We = Vec3(J(wo));
+        const auto We = eval(wo);
         const auto p = pdf_direct(geom, geomE, wo);
         if (p == 0_f) {
             return {};
-- 
2.43.0


From f57488ace901f6df76ddfe2d331f669adad0d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:44 +0000
Subject: [PATCH 24/28] fix: check the attributes of every vertex of a face
 before interpolating them

---
 src/mesh/mesh_wavefrontobj.cpp   | 4 ++--
 src/model/model_wavefrontobj.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh_wavefrontobj.cpp b/src/mesh/mesh_wavefrontobj.cpp
index ebff0dc..380aa4d 100644
--- a/src/mesh/mesh_wavefrontobj.cpp
+++ b/src/mesh/mesh_wavefrontobj.cpp
@@ -77,13 +77,13 @@ public:
             // Position
             math::mix_barycentric(p1, p2, p3, uv),
             // Normal. Use geometry normal if the attribute is missing.
-            i1.n < 0 ? math::geometry_normal(p1, p2, p3)
+            i1.n < 0 || i2.n < 0 || i3.n < 0 ? math::geometry_normal(p1, p2, p3)
                      : glm::normalize(math::mix_barycentric(
                          geo_.ns[i1.n], geo_.ns[i2.n], geo_.ns[i3.n], uv)),
             // Geometry normal
             math::geometry_normal(p1, p2, p3),
             // Texture coordinates
-            i1.t < 0 ? Vec2(0) : math::mix_barycentric(
+            i1.t < 0 || i2.t < 0 || i3.t < 0 ? Vec2(0) : math::mix_barycentric(
                 geo_.ts[i1.t], geo_.ts[i2.t], geo_.ts[i3.t], uv)
         };
     }
diff --git a/src/model/model_wavefrontobj.cpp b/src/model/model_wavefrontobj.cpp
index 74b9bcb..5a0811b 100644
--- a/src/model/model_wavefrontobj.cpp
+++ b/src/model/model_wavefrontobj.cpp
@@ -307,13 +307,13 @@ public:
             // Position
             math::mix_barycentric(p1, p2, p3, uv),
             // Normal. Use geometry normal if the attribute is missing.
-            i1.n < 0 ? math::geometry_normal(p1, p2, p3)
+            i1.n < 0 || i2.n < 0 || i3.n < 0 ? math::geometry_normal(p1, p2, p3)
                      : glm::normalize(math::mix_barycentric(
                          geo_.ns[i1.n], geo_.ns[i2.n], geo_.ns[i3.n], uv)),
             // Geometry normal
             math::geometry_normal(p1, p2, p3),
             // Texture coordinates
-            i1.t < 0 ? Vec2(0) : math::mix_barycentric(
+            i1.t < 0 || i2.t < 0 || i3.t < 0 ? Vec2(0) : math::mix_barycentric(
                 geo_.ts[i1.t], geo_.ts[i2.t], geo_.ts[i3.t], uv)
         };
     }
-- 
2.43.0


From 1da577f37cfbc96e178f2f7da344bbfbee5b083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:45 +0000
Subject: [PATCH 25/28] fix: read grayscale textures without running into the
 neighbouring pixels

---
 src/texture/texture_bitmap.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/texture/texture_bitmap.cpp b/src/texture/texture_bitmap.cpp
index a10d9f9..cb25e07 100644
--- a/src/texture/texture_bitmap.cpp
+++ b/src/texture/texture_bitmap.cpp
@@ -71,12 +71,12 @@ public:
         const int x = std::clamp(int(u * w_), 0, w_ - 1);
         const int y = std::clamp(int(v * h_), 0, h_ - 1);
         const int i = w_ * y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Vec3 eval_by_pixel_coords(int x, int y) const override {
         const int i = w_*y + x;
-        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+        return color_at(i);
     }
 
     virtual Float eval_alpha(Vec2 t) const override {
@@ -95,6 +95,15 @@ public:
     virtual TextureBuffer buffer() override {
         return { w_, h_, c_, data_.data() };
     }
+
+private:
+    // Color of the pixel. Images with less than three components are grayscale.
+    Vec3 color_at(int i) const {
+        if (c_ < 3) {
+            return Vec3(data_[c_*i]);
+        }
+        return Vec3(data_[c_*i], data_[c_*i+1], data_[c_*i+2]);
+    }
 };
 
 LM_COMP_REG_IMPL(Texture_Bitmap, "texture::bitmap");
-- 
2.43.0


From 98b94e998a513c41fb8aed81d23ac3dd2f378282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:20 +0000
Subject: [PATCH 26/28] fix: build and intersect a scene without triangles

---
 src/accel/accel_sahbvh.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/accel/accel_sahbvh.cpp b/src/accel/accel_sahbvh.cpp
index c291cbc..a1c2982 100644
--- a/src/accel/accel_sahbvh.cpp
+++ b/src/accel/accel_sahbvh.cpp
@@ -153,6 +153,12 @@ public:
         // --------------------------------------------------------------------
 
         const int nt = int(trs_.size()); // Number of triangles
+        if (nt == 0) {
+            // No triangles (e.g., only with an environment light): no nodes to build
+            nodes_.clear();
+            indices_.clear();
+            return;
+        }
         struct Entry {
             int index;
             int start;
@@ -268,6 +274,9 @@ public:
 
     virtual std::optional<Hit> intersect(Ray ray, Float tmin, Float tmax) const override {
         exception::ScopedDisableFPEx guard_;  // Disable floating point exceptions
+        if (nodes_.empty()) {
+            return {};
+        }
         std::optional<Tri::Hit> mh, h;
         int mi = -1;
         int s[99]{};
-- 
2.43.0


From 110afdc08939e66b4c5fb44876c5d4610aec8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:49 +0000
Subject: [PATCH 27/28] fix: density of area light sampling under scaling
 transforms

The density was divided by the change of volume of the transformation, not by
the change of area, so lights under a scaling node were too bright or too dark.
---
 src/light/light_area.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/light/light_area.cpp b/src/light/light_area.cpp
index c2803f9..1cf496e 100644
--- a/src/light/light_area.cpp
+++ b/src/light/light_area.cpp
@@ -37,11 +37,13 @@ public:
     }
 
 private:
-    Float tranformed_invA(const Transform& transform) const {
-        // TODO: Handle degenerated axis
-        // e.g., scaling by (.2,.2,.2) leads J=1/5^3
-        // but the actual change of areae is J=1/5^2
-        return invA_ / transform.J;
+    // Density with respect to the transformed area around a point
+    // gn is the geometry normal of the point after the transformation
+    Float tranformed_invA(const Transform& transform, Vec3 gn) const {
+        // The change of area around a point with the transformed normal n
+        // is J/|M^T n|, e.g., scaling by (.2,.2,.2) leads to J=1/5^3
+        // but the actual change of area is 1/5^2
+        return invA_ * glm::length(glm::transpose(Mat3(transform.M)) * gn) / transform.J;
     }
 
     PointGeometry sample_position_on_triangle_mesh(Vec2 up, Float upc, const Transform& transform) const {
@@ -78,7 +80,7 @@ public:
     virtual std::optional<RaySample> sample_ray(const RaySampleU& us, const Transform& transform) const override {
         // Sample position
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(transform, geomL.gn);
         
         // Sample direction
         const auto wo_local = math::sample_cosine_weighted(us.ud);
@@ -132,15 +134,15 @@ public:
 
     virtual std::optional<PositionSample> sample_position(const PositionSampleU& us, const Transform& transform) const override {
         const auto geomL = sample_position_on_triangle_mesh(us.up, us.upc, transform);
-        const auto pA = tranformed_invA(transform);
+        const auto pA = tranformed_invA(transform, geomL.gn);
         return PositionSample{
             geomL,
             Vec3(1_f / pA)
         };
     }
 
-    virtual Float pdf_position(const PointGeometry&, const Transform& transform) const override {
-        return tranformed_invA(transform);
+    virtual Float pdf_position(const PointGeometry& geom, const Transform& transform) const override {
+        return tranformed_invA(transform, geom.gn);
     }
 
     // --------------------------------------------------------------------------------------------
@@ -165,7 +167,7 @@ public:
             return 0_f;
         }
         const auto G = surface::geometry_term(geom, geomL);
-        return G == 0_f ? 0_f : tranformed_invA(transform) / G;
+        return G == 0_f ? 0_f : tranformed_invA(transform, geomL.gn) / G;
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From ca876e9250e1212e386a1644dd0145ad6c569e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:36 +0000
Subject: [PATCH 28/28] fix: sample distances in scenes without a medium

path::sample_distance() looked up the scene node -1 when the scene has no
medium and terminated the volumetric renderers with std::out_of_range.
A scene without a medium is vacuum, as in path::eval_transmittance().
---
 include/lm/path.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lm/path.h b/include/lm/path.h
index bdec906..65918e7 100644
--- a/include/lm/path.h
+++ b/include/lm/path.h
@@ -612,14 +612,18 @@ static std::optional<DistanceSample> sample_distance(Rng& rng, const Scene* scen
     const auto hit = scene->intersect({ sp.geom.p, wo }, Eps, Inf);
     const auto dist = hit && !hit->geom.infinite ? glm::length(hit->geom.p - sp.geom.p) : Inf;
 
-    // Sample a distance
-    const auto* medium = scene->node_at(scene->medium_node()).primitive.medium;
-    const auto ds = medium->sample_distance(rng, { sp.geom.p, wo }, 0_f, dist);
+    // Sample a distance. The scene without a medium is vacuum.
+    std::optional<Medium::DistanceSample> ds;
+    const int medium_index = scene->medium_node();
+    if (medium_index != -1) {
+        const auto* medium = scene->node_at(medium_index).primitive.medium;
+        ds = medium->sample_distance(rng, { sp.geom.p, wo }, 0_f, dist);
+    }
     if (ds && ds->medium) {
         // Medium interaction
         return DistanceSample{
             SceneInteraction::make_medium_interaction(
-                scene->medium_node(),
+                medium_index,
                 PointGeometry::make_degenerated(ds->p)
             ),
             ds->weight
-- 
2.43.0

