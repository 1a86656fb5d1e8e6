pub use solstrale::geo::vec3::Vec3;
pub use solstrale::geo::{Aabb, Onb, Ray, Uv};
pub use solstrale::hittable::{Bvh, ConstantMedium, Hittable, Hittables, Quad, Sphere, Triangle};
pub use solstrale::material::*;
pub use solstrale::material::texture::*;
pub use solstrale::geo::transformation::*;
pub use solstrale::util::interval::Interval;
pub use vf::{assume, check, near};
pub fn v3(x: f64, y: f64, z: f64) -> Vec3 { Vec3 { x, y, z } }
pub fn r(lo: f64, hi: f64) -> f64 { vf::f64_(lo, hi) }
pub fn sv(lo: f64, hi: f64) -> Vec3 { let x = r(lo, hi); let y = r(lo, hi); let z = r(lo, hi); v3(x, y, z) }
pub fn dot(a: Vec3, b: Vec3) -> f64 { a.x * b.x + a.y * b.y + a.z * b.z }
pub fn cross(a: Vec3, b: Vec3) -> Vec3 { v3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x) }
pub fn add(a: Vec3, b: Vec3) -> Vec3 { v3(a.x + b.x, a.y + b.y, a.z + b.z) }
pub fn sub(a: Vec3, b: Vec3) -> Vec3 { v3(a.x - b.x, a.y - b.y, a.z - b.z) }
pub fn mul(a: Vec3, k: f64) -> Vec3 { v3(a.x * k, a.y * k, a.z * k) }
pub fn len2(a: Vec3) -> f64 { dot(a, a) }
pub fn near_v(a: Vec3, b: Vec3, tol: f64, id: u32) { near(a.x, b.x, tol, id); near(a.y, b.y, tol, id); near(a.z, b.z, tol, id); }
pub fn white() -> Materials { Lambertian::new(SolidColor::new(1., 1., 1.), None) }
/// A lambertian whose colour identifies the object
pub fn tag(k: usize) -> Materials { Lambertian::new(SolidColor::new(k as f64, 0., 0.), None) }
pub fn light(k: usize) -> Materials { DiffuseLight::new(k as f64, 0., 0., None) }
