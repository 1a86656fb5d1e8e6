From e7f2e4596bff977dfa5f1eca09f02012ad3625ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:00 +0000
Subject: [PATCH 01/13] fix: sample light directions inside the triangle only

---
 src/hittable/triangle.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index c8a6334..3ceed4e 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -112,7 +112,14 @@ impl Hittable for Triangle {
     }
 
     fn random_direction(&self, origin: Vec3) -> Vec3 {
-        let p = self.v0 + self.v0v1 * random_normal_float() + self.v0v2 * random_normal_float();
+        let mut r1 = random_normal_float();
+        let mut r2 = random_normal_float();
+        // Fold the half of the parallelogram that is outside of the triangle back into it
+        if r1 + r2 > 1. {
+            r1 = 1. - r1;
+            r2 = 1. - r2;
+        }
+        let p = self.v0 + self.v0v1 * r1 + self.v0v2 * r2;
         p - origin
     }
 
-- 
2.43.0


From fef4112c1fe6c4ddd4705e0122fe28cff520abe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 02/13] fix: a blend factor of zero never picks the second
 material

---
 src/material/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/material/mod.rs b/src/material/mod.rs
index be833ab..9bb05d9 100644
--- a/src/material/mod.rs
+++ b/src/material/mod.rs
@@ -428,7 +428,7 @@ impl Blend {
 
 impl Material for Blend {
     fn scatter(&self, ray: &Ray, rec: &RayHit, lights: &[Hittables]) -> RayScatter {
-        if random_normal_float() > self.blend_factor {
+        if random_normal_float() >= self.blend_factor {
             self.material_1.scatter(ray, rec, lights)
         } else {
             self.material_2.scatter(ray, rec, lights)
@@ -436,7 +436,7 @@ impl Material for Blend {
     }
 
     fn get_transformed_normal(&self, onb: Onb, uv: Uv) -> Vec3 {
-        if random_normal_float() > self.blend_factor {
+        if random_normal_float() >= self.blend_factor {
             self.material_1.get_transformed_normal(onb, uv)
         } else {
             self.material_2.get_transformed_normal(onb, uv)
-- 
2.43.0


From 62c30c6688ace2149f1b9ebca92ef8e23dc9ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 03/13] fix: light attenuates with the distance in units of
 length, not of the ray direction

---
 src/renderer/shader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/shader.rs b/src/renderer/shader.rs
index a1f3dc5..5cb9055 100644
--- a/src/renderer/shader.rs
+++ b/src/renderer/shader.rs
@@ -71,7 +71,7 @@ impl Shader for PathTracingShader {
             return AttenuatedColor::default();
         }
 
-        let total_ray_length = rec.ray_length + accumulated_ray_length;
+        let total_ray_length = rec.ray_length * ray.direction.length() + accumulated_ray_length;
         let ray_scatter = rec.material.scatter(ray, rec, &renderer.lights);
 
         match ray_scatter {
-- 
2.43.0


From 8f1c3770044cde8a49aa16e4dccb6753e150afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 04/13] fix: gather albedo and normal colors when a post
 processor needs them, not when none does

---
 src/renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 6f8cf82..5652233 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -218,7 +218,7 @@ impl Renderer {
         let pixel_count = image_width * image_height;
         let samples_per_pixel = self.scene.render_config.samples_per_pixel;
         let needs_albedo_and_normal_colors =
-            !self.scene.render_config.needs_albedo_and_normal_colors();
+            self.scene.render_config.needs_albedo_and_normal_colors();
 
         let pixel_colors: Arc<Mutex<Vec<Vec3>>> =
             Arc::new(Mutex::new(vec![ZERO_VECTOR; pixel_count]));
-- 
2.43.0


From 5179249c574c119d4ce187b2e2b3df908f3b856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 05/13] fix: denoiser normals may be negative, which the gamma
 correction turned into NaN

---
 src/post/oidn.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/post/oidn.rs b/src/post/oidn.rs
index 8dea516..df2d64f 100644
--- a/src/post/oidn.rs
+++ b/src/post/oidn.rs
@@ -27,7 +27,7 @@ impl PostProcessor for OidnPostProcessor {
     ) -> Result<image::RgbImage, Box<dyn Error>> {
         let pixel_rgb = to_rgb_vec(pixel_colors, num_samples);
         let albedo_rgb = to_rgb_vec(albedo_colors, num_samples);
-        let normal_rgb = to_rgb_vec(normal_colors, num_samples);
+        let normal_rgb = to_normal_vec(normal_colors, num_samples);
         let mut output = vec![0.0f32; pixel_rgb.len()];
 
         let device = oidn::Device::new();
@@ -136,3 +136,15 @@ fn to_rgb_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
         })
         .collect()
 }
+
+/// Averages the normals, their components are between -1 and 1 and not to be gamma corrected
+#[cfg(feature = "oidn-postprocessor")]
+fn to_normal_vec(vec: &[Vec3], num_samples: u32) -> Vec<f32> {
+    let scale = 1. / num_samples as f64;
+    vec.iter()
+        .flat_map(|v| {
+            let n = *v * scale;
+            vec![n.x as f32, n.y as f32, n.z as f32]
+        })
+        .collect()
+}
-- 
2.43.0


From 1e8b35bbd53166a7097630187b0b8d33bb6d7f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 06/13] fix: tell normal maps by the length of the decoded
 normals, so that flat grey images are height maps

---
 src/material/texture.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/material/texture.rs b/src/material/texture.rs
index 7a875b8..3d40ee1 100644
--- a/src/material/texture.rs
+++ b/src/material/texture.rs
@@ -8,7 +8,7 @@ use image::RgbImage;
 use simple_error::SimpleError;
 
 use crate::geo::Uv;
-use crate::geo::vec3::Vec3;
+use crate::geo::vec3::{ONE_VECTOR, Vec3};
 use crate::material::texture::BumpMap::{Height, Normal};
 use crate::material::texture::Textures::{ImageMapType, SolidColorType};
 use crate::util::height_map;
@@ -70,7 +70,8 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
 
     for pixel in image.pixels() {
         let p = rgb_to_vec3(pixel);
-        if (p.length() - 1.).abs() < 0.05 {
+        let n: Vec3 = p * 2. - ONE_VECTOR;
+        if (n.length() - 1.).abs() < 0.05 {
             num_normal += 1;
         }
         if (p.x - p.y).abs() < 0.05 && (p.y - p.z).abs() < 0.05 {
@@ -78,7 +79,7 @@ fn load_bump_map(path: &str) -> Result<BumpMap, Box<dyn Error>> {
         }
     }
 
-    if num_height > num_normal {
+    if num_height > 0 && num_height >= num_normal {
         Ok(Height(image))
     } else {
         Ok(Normal(image))
-- 
2.43.0


From 59052d77dbb1817d085ce2c2124d425c75cec822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 07/13] fix: the frame for normal maps on a sphere scaled with
 its radius

---
 src/hittable/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index aed43b8..6f6108d 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -87,7 +87,7 @@ impl Hittable for Sphere {
         let uv = calculate_sphere_uv(normal);
 
         let tangent = UNIT_Y.cross(n).unit();
-        let bi_tangent = n.cross(tangent);
+        let bi_tangent = normal.cross(tangent);
 
         let front_face = r.direction.dot(normal) < 0.;
         if !front_face {
-- 
2.43.0


From f70f2593522ffede8d968b930890567d30a2be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 08/13] fix: the frame for normal maps at the poles of a sphere
 was invalid

---
 src/hittable/sphere.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hittable/sphere.rs b/src/hittable/sphere.rs
index 6f6108d..a1168f1 100644
--- a/src/hittable/sphere.rs
+++ b/src/hittable/sphere.rs
@@ -4,7 +4,7 @@ use crate::geo::Aabb;
 use crate::geo::Onb;
 use crate::geo::Ray;
 use crate::geo::Uv;
-use crate::geo::vec3::{UNIT_Y, Vec3};
+use crate::geo::vec3::{UNIT_Y, Vec3, ZERO_VECTOR};
 use crate::hittable::{Hittable, Hittables};
 use crate::hittable::Hittables::SphereType;
 use crate::material::{Material, Materials, RayHit};
@@ -86,7 +86,13 @@ impl Hittable for Sphere {
         let mut normal = n.unit();
         let uv = calculate_sphere_uv(normal);
 
-        let tangent = UNIT_Y.cross(n).unit();
+        let east = UNIT_Y.cross(n);
+        // There is no direction to the east at the poles, so any will do
+        let tangent = if east == ZERO_VECTOR {
+            Onb::new(normal).tangent
+        } else {
+            east.unit()
+        };
         let bi_tangent = normal.cross(tangent);
 
         let front_face = r.direction.dot(normal) < 0.;
-- 
2.43.0


From bef6844583a9e78bf5084b3b23af44d30c1ec803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 09/13] fix: the frame for normal maps on a triangle without
 texture coordinates was invalid

---
 src/hittable/triangle.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index 3ceed4e..38b65c0 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -75,9 +75,18 @@ impl Triangle {
         let delta_pos_2 = v2 - v0;
         let delta_uv_1 = uv1 - uv0;
         let delta_uv_2 = uv2 - uv0;
-        let r = 1. / (delta_uv_1.u * delta_uv_2.v - delta_uv_1.v * delta_uv_2.u);
-        let tangent = ((delta_pos_1 * delta_uv_2.v - delta_pos_2 * delta_uv_1.v) * r).unit();
-        let bi_tangent = ((delta_pos_2 * delta_uv_1.u - delta_pos_1 * delta_uv_2.u) * r).unit();
+        let det = delta_uv_1.u * delta_uv_2.v - delta_uv_1.v * delta_uv_2.u;
+        let (tangent, bi_tangent) = if det == 0. {
+            // The texture coordinates do not tell the directions
+            let onb = Onb::new(normal);
+            (onb.tangent, onb.bi_tangent)
+        } else {
+            let r = 1. / det;
+            (
+                ((delta_pos_1 * delta_uv_2.v - delta_pos_2 * delta_uv_1.v) * r).unit(),
+                ((delta_pos_2 * delta_uv_1.u - delta_pos_1 * delta_uv_2.u) * r).unit(),
+            )
+        };
 
         Hittables::from(Triangle {
             v0,
-- 
2.43.0


From 592953559b6a2d9ac23e12fb7d436d4bb80d5a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 10/13] fix: materials of obj models were mixed up from 128
 materials on

---
 src/loader/obj.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/loader/obj.rs b/src/loader/obj.rs
index 59b4ef5..2ec6b57 100644
--- a/src/loader/obj.rs
+++ b/src/loader/obj.rs
@@ -54,7 +54,7 @@ impl Loader for Obj {
         let materials =
             materials.map_err(|_| format!("failed to load MTL file for {}", &filepath))?;
 
-        let mut mat_map = HashMap::from([(-1, default_material.clone())]);
+        let mut mat_map = HashMap::new();
         for (i, m) in materials.iter().enumerate() {
             let albedo_texture = match &m.diffuse_texture {
                 None => match m.diffuse {
@@ -72,7 +72,7 @@ impl Loader for Obj {
                     Some(texture::load_normal_texture(&bump_texture_path)?)
                 }
             };
-            mat_map.insert(i as i8, Lambertian::new(albedo_texture, normal_texture));
+            mat_map.insert(i, Lambertian::new(albedo_texture, normal_texture));
         }
 
         let mut triangles = Vec::new();
@@ -110,11 +110,7 @@ impl Loader for Obj {
                     )
                 };
 
-                let material_id = match mesh.material_id {
-                    None => -1,
-                    Some(id) => id as i8,
-                };
-                let material = match mat_map.get(&material_id) {
+                let material = match mesh.material_id.and_then(|id| mat_map.get(&id)) {
                     None => default_material.to_owned(),
                     Some(m) => m.to_owned(),
                 };
-- 
2.43.0


From 370a3484047f1582bf5aef555960fc94ce7ee927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 11/13] fix: images one pixel wide or high were rendered from
 invalid rays

---
 src/renderer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/renderer/mod.rs b/src/renderer/mod.rs
index 5652233..85280f7 100644
--- a/src/renderer/mod.rs
+++ b/src/renderer/mod.rs
@@ -260,8 +260,10 @@ impl Renderer {
 
                         let yi = ((image_height - 1) - y) * image_width;
                         for x in 0..image_width {
-                            let u = (x as f64 + random_normal_float()) / (image_width - 1) as f64;
-                            let v = (y as f64 + random_normal_float()) / (image_height - 1) as f64;
+                            let u = (x as f64 + random_normal_float())
+                                / (image_width - 1).max(1) as f64;
+                            let v = (y as f64 + random_normal_float())
+                                / (image_height - 1).max(1) as f64;
                             let ray = camera.get_ray(Uv::new(u as f32, v as f32));
                             let ray_color_res = self.ray_color(&ray, 0, 0.);
 
-- 
2.43.0


From c9a88ad6d1585bc84bf5c84c101f451b1b9ea036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 12/13] fix: hierarchies lost hits behind the ray origin, so
 that fog in a box vanished around the camera

---
 src/geo/mod.rs      | 7 ++++++-
 src/hittable/bvh.rs | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 7118d87..d5d7216 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -157,7 +157,12 @@ impl Aabb {
 
     /// Checks if the given ray hits the aabb
     pub fn hit(&self, r: &Ray) -> bool {
-        let mut t_min = 0.;
+        self.hit_from(r, 0.)
+    }
+
+    /// Checks if the given ray hits the aabb at a ray length of at least the given minimum
+    pub fn hit_from(&self, r: &Ray, min_ray_length: f64) -> bool {
+        let mut t_min = min_ray_length;
         let mut t_max = f64::INFINITY;
 
         if r.direction_inverted.x.is_sign_negative() {
diff --git a/src/hittable/bvh.rs b/src/hittable/bvh.rs
index 5f72095..3e2dfd4 100644
--- a/src/hittable/bvh.rs
+++ b/src/hittable/bvh.rs
@@ -164,7 +164,13 @@ fn sort_hittables_by_center(list: &mut [Hittables], center: f64, axis: u8) -> us
 
 impl Hittable for Bvh {
     fn hit(&self, r: &Ray, ray_length: &Interval) -> Option<RayHit> {
-        if !self.b_box.hit(r) {
+        // Only intervals that reach behind the ray origin can contain hits on boxes behind it
+        let min_ray_length = if ray_length.min < 0. {
+            f64::NEG_INFINITY
+        } else {
+            0.
+        };
+        if !self.b_box.hit_from(r, min_ray_length) {
             return None;
         }
 
-- 
2.43.0


From a7f0a613a1163f820f062afc9adadfa65f2cb2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:48 +0000
Subject: [PATCH 13/13] Revert "fix: sample light directions inside the
 triangle only"

This reverts commit e7f2e4596bff977dfa5f1eca09f02012ad3625ff.
---
 src/hittable/triangle.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/hittable/triangle.rs b/src/hittable/triangle.rs
index 38b65c0..4637af0 100644
--- a/src/hittable/triangle.rs
+++ b/src/hittable/triangle.rs
@@ -121,14 +121,7 @@ impl Hittable for Triangle {
     }
 
     fn random_direction(&self, origin: Vec3) -> Vec3 {
-        let mut r1 = random_normal_float();
-        let mut r2 = random_normal_float();
-        // Fold the half of the parallelogram that is outside of the triangle back into it
-        if r1 + r2 > 1. {
-            r1 = 1. - r1;
-            r2 = 1. - r2;
-        }
-        let p = self.v0 + self.v0v1 * r1 + self.v0v2 * r2;
+        let p = self.v0 + self.v0v1 * random_normal_float() + self.v0v2 * random_normal_float();
         p - origin
     }
 
-- 
2.43.0

