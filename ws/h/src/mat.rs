use crate::util::*;
use std::f64::consts::PI;

fn lights(n: usize) -> Vec<Hittables> {
    let mut l = vec![
        Quad::new(v3(-1., 3., -1.), v3(2., 0., 0.), v3(0., 0.5, 2.), light(1), &NopTransformer()),
        Sphere::new(v3(4., 0., 1.), 1., light(2)),
        Triangle::new(v3(-2., -4., -2.), v3(2., -4., -2.), v3(0., -3.5, 3.), light(3), &NopTransformer()),
    ];
    l.truncate(n);
    l
}
fn light_value(ls: &[Hittables], o: Vec3, d: Vec3) -> f64 {
    let mut s = 0.;
    for l in ls { s += l.pdf_value(o, d) }
    s / ls.len() as f64
}
fn hit<'a>(p: Vec3, n: Vec3, m: &'a Materials, uv: Uv, front: bool) -> RayHit<'a> { RayHit::new(p, Onb::new(n), m, 1., uv, front) }
/// a unit vector; shard picks which component dominates
fn unit(v: Vec3) -> Vec3 { let l = len2(v).sqrt(); v3(v.x / l, v.y / l, v.z / l) }

/// Lambertian: colour, origin, and probability = (cos/pi) / (mean of light density and cosine density)
/// shards: 0, 1 one light above or below the surface; 2 two lights, 3 a slanted surface; 4 a light turned on its edge
pub fn c08_lambertian(sh: u64) {
    let ls = quads(sh);
    // (on a line only, below the upright light)
    let p = v3(r(-0.5, 0.5), 0., if sh == 4 { 0.25 } else { r(-0.5, 0.5) });
    let n = if sh == 3 { v3(0.6, 0.8, 0.) } else { v3(0., 1., 0.) };
    let col = sv(0., 1e6);
    let m = Lambertian::new(SolidColor::new(col.x, col.y, col.z), None);
    let rec = hit(p, n, &m, Uv::default(), true);
    near_v(rec.normal, n, 1e-9, 7);
    let k = vf::rand_count();
    match m.scatter(&Ray::new(v3(0., 1., 0.), v3(0., -1., 0.)), &rec, &ls) {
        RayScatter::ScatterPdf(s) => {
            near_v(s.color, col, 1e-9, 1);
            near_v(s.ray.origin, p, 0., 2);
            let d = s.ray.direction;
            // half of the directions lead to the lights, half follow the cosine
            let r0 = vf::rand_at(k);
            let drawn = vf::rand_count() - k;
            let to_light = drawn == 4;
            if to_light { check(r0 <= 0.5, 4) } else { check(drawn == 3 && r0 >= 0.5, 5); near(len2(d), 1., 1e-6, 8); check(dot(n, d) >= 0., 9) }
            let l = if to_light { len2(d).sqrt() } else { 1. };
            let dn = dot(n, d);
            // (a fork of its own)
            let cosl = if dn > 0. { vf::reach(2); dn } else { vf::reach(3); 0. };
            let lv = light_value(&ls, p, d);
            let mean_l = 0.5 * lv * l + 0.5 * cosl / PI;
            // both densities are zero for a direction that misses its light by rounding only
            assume(mean_l >= 1e-3);
            near(s.probability * mean_l, cosl / PI, 1e-6, 3);
        }
        _ => check(false, 6),
    }
}
fn quads(sh: u64) -> Vec<Hittables> {
    let q = |y: f64, k: usize| Quad::new(v3(-1., y, -1.), v3(2., 0., 0.), v3(0., 0., 2.), light(k), &NopTransformer());
    match sh {
        1 => vec![q(-3., 1)],
        2 => vec![q(3., 1), q(-2., 2)],
        4 => vec![Quad::new(v3(2., -1., -1.), v3(0., 2., 0.), v3(0., 0., 2.), light(1), &NopTransformer())],
        _ => vec![q(3., 1)],
    }
}
/// phase function of a medium: probability = (1/4pi) / (mean of light density and 1/4pi)
pub fn c08_isotropic(sh: u64) {
    let ls = quads(sh);
    let col = sv(0., 1e6);
    let med = ConstantMedium::new(Sphere::new(v3(0., 0., 0.), 0.5, white()), 1e9, col);
    let rec = match med.hit(&Ray::new(v3(-0.25, 0.125, 0.), v3(1., 0., 0.)), &Interval::new(0.001, 1e9)) { Some(r) => r, None => { assume(false); return } };
    // a hit anywhere, of the same material
    let p = v3(r(-0.5, 0.5), 0., r(-0.5, 0.5));
    let rec2 = RayHit::new(p, Onb::new(v3(0., 1., 0.)), rec.material, 1., Uv::default(), false);
    let k = vf::rand_count();
    match rec.material.scatter(&Ray::new(v3(0., 1., 0.), v3(0., -1., 0.)), &rec2, &ls) {
        RayScatter::ScatterPdf(s) => {
            near_v(s.color, col, 1e-9, 1);
            near_v(s.ray.origin, p, 0., 2);
            // the uniform generator is excluded at its one point without a direction
            let z = |i: u64| { let x = vf::rand_at(i) - 0.5; x * x };
            let e = vf::rand_count();
            assume(e >= k + 4 && z(e - 1) + z(e - 2) + z(e - 3) > 1e-12);
            let mean = 0.5 * light_value(&ls, p, s.ray.direction) + 0.5 / (4. * PI);
            near(s.probability * mean, 1. / (4. * PI), 1e-9, 3);
            let r0 = vf::rand_at(k);
            let drawn = vf::rand_count() - k;
            if drawn == 4 { check(drawn == 4 && (r0 <= 0.5 || r0 >= 0.5), 4) }
        }
        _ => check(false, 6),
    }
}
/// Metal mirrors the direction, blurred by at most fuzz
pub fn c09_metal(sh: u64) {
    let n = unit_n();
    let d = sv(-1000., 1000.);
    assume(len2(d) >= 0.01);
    let fuzz = if sh == 0 { 0. } else { r(0., 10.) };
    let col = sv(0., 1e6);
    let m = Metal::new(SolidColor::new(col.x, col.y, col.z), None, fuzz);
    let p = sv(-1e5, 1e5);
    let rec = hit(p, n, &m, Uv::default(), true);
    match m.scatter(&Ray::new(sv(-1e5, 1e5), d), &rec, &[]) {
        RayScatter::ScatterBasic(s) => {
            near_v(s.color, col, 1e-9, 1);
            near_v(s.ray.origin, p, 0., 2);
            let l = len2(d).sqrt();
            let nn = rec.normal;
            let k = 2. * dot(d, nn);
            let want = v3((d.x - k * nn.x) / l, (d.y - k * nn.y) / l, (d.z - k * nn.z) / l);
            let e = sub(s.ray.direction, want);
            if sh == 0 { near_v(s.ray.direction, want, 1e-6, 3) } else { check(len2(e) <= fuzz * fuzz + 1e-6, 4) }
        }
        _ => check(false, 5),
    }
}
/// a symbolic normal, not of unit length, of which Onb::new makes a unit one
fn unit_n() -> Vec3 { let n = sv(-1., 1.); assume(len2(n) >= 0.01); n }

/// Dielectric. The directions are built from the normal n and a tangent t: unit direction = -c n + s t.
/// shard: 0 front, 1 back
pub fn c09_dielectric(sh: u64) {
    let n = v3(0.6, 0., 0.8);
    let t = match sh / 2 { 0 => v3(0., 1., 0.), 1 => v3(0.8, 0., -0.6), _ => v3(0.48, 0.8, -0.36) };
    let front = sh % 2 == 0;
    // half angle parametrisation of the angle of incidence, exact
    let h = r(0., 1.);
    let (c, s) = ((1. - h * h) / (1. + h * h), 2. * h / (1. + h * h));
    let d = add(mul(n, -c), mul(t, s));
    let k = r(0.001, 1000.);
    let ior = r(0.2, 5.);
    let col = sv(0., 1e6);
    let m = Dielectric::new(SolidColor::new(col.x, col.y, col.z), None, ior);
    let p = sv(-1e5, 1e5);
    let rec = hit(p, n, &m, Uv::default(), front);
    let ratio = if front { 1. / ior } else { ior };
    let ra = vf::rand_count();
    match m.scatter(&Ray::new(p, mul(d, k)), &rec, &[]) {
        RayScatter::ScatterBasic(sc) => {
            near_v(sc.color, col, 1e-9, 1);
            near_v(sc.ray.origin, p, 0., 2);
            let o = sc.ray.direction;
            near(len2(o), 1., 1e-5, 3);
            let on = dot(o, n);
            // stays in the plane of incidence
            near(dot(o, cross(n, t)), 0., 1e-6, 4);
            let r0 = (1. - ratio) / (1. + ratio);
            let r0 = r0 * r0;
            let x = 1. - c;
            let schlick = r0 + (1. - r0) * x * x * x * x * x;
            let total = ratio * s > 1. + 1e-9;
            let not_total = ratio * s < 1. - 1e-9;
            if on > 0. {
                // reflected
                near(dot(o, t), s, 1e-6, 5);
                near(on, c, 1e-6, 6);
                if not_total { check(vf::rand_count() == ra + 1 && vf::rand_at(ra) <= schlick + 1e-9, 7) }
            } else if on < 0. {
                // refracted: sines in the ratio of the indices
                near(dot(o, t), ratio * s, 1e-6, 8);
                check(!total, 9);
                check(vf::rand_count() == ra + 1 && vf::rand_at(ra) >= schlick - 1e-9, 10);
            }
        }
        _ => check(false, 11),
    }
}
/// Blend picks the second material with the chance of the blend factor, for the scattering and for the normal
pub fn c10_blend(sh: u64) {
    let f = match sh { 0 => 0., 1 => 1., _ => r(0., 1.) };
    let a = v3(0.25, 0.5, 0.75);
    let b = v3(0.75, 0.125, 0.5);
    // normal maps tell the two apart
    let m1 = Metal::new(SolidColor::new(a.x, a.y, a.z), Some(SolidColor::new(0.5, 0.5, 1.)), 0.);
    let m2 = Lambertian::new(SolidColor::new(b.x, b.y, b.z), Some(SolidColor::new(1., 0.5, 0.5)));
    let m = Blend::new(m1, m2, f);
    let ls = lights(1);
    let onb = Onb::new(v3(0., 0., 2.));
    let (x, z) = (Onb::new(v3(0., 0., 2.)).local(v3(1., 0., 0.)), v3(0., 0., 1.));
    let k = vf::rand_count();
    let n = m.get_transformed_normal(onb, Uv::default());
    check(vf::rand_count() == k + 1, 1);
    let q = vf::rand_at(k);
    let first = n.z > 0.5;
    near_v(n, if first { z } else { x }, 1e-9, 2);
    check(if first { q >= f } else { q <= f }, 3);
    if sh == 0 { check(first, 4) }
    if sh == 1 { check(!first, 5) }
    let rec = RayHit::new(v3(0., 0., 0.), Onb::new(v3(0., 1., 0.)), &m, 1., Uv::default(), true);
    let k = vf::rand_count();
    let sc = m.scatter(&Ray::new(v3(0., 1., 0.), v3(0.125, -1., 0.)), &rec, &ls);
    let q = vf::rand_at(k);
    match sc {
        RayScatter::ScatterBasic(s) => { near_v(s.color, a, 1e-9, 6); check(q >= f, 7); if sh == 1 { check(false, 8) } }
        RayScatter::ScatterPdf(s) => { near_v(s.color, b, 1e-9, 9); check(q <= f, 10); if sh == 0 { check(false, 11) } }
        _ => check(false, 12),
    }
}
/// a blend of a blend behaves like its parts
pub fn c10_nested(_: u64) {
    let (f, g) = (r(0., 1.), r(0., 1.));
    let c = |k: f64| Metal::new(SolidColor::new(k, 0., 0.), None, 0.);
    let m = Blend::new(Blend::new(c(1.), c(2.), f), c(3.), g);
    let rec = RayHit::new(v3(0., 0., 0.), Onb::new(v3(0., 1., 0.)), &white(), 1., Uv::default(), true).hit_point;
    let w = white();
    let rec = RayHit::new(rec, Onb::new(v3(0., 1., 0.)), &w, 1., Uv::default(), true);
    let k = vf::rand_count();
    match m.scatter(&Ray::new(v3(0., 1., 0.), v3(0., -1., 0.)), &rec, &[]) {
        RayScatter::ScatterBasic(s) => {
            let q = vf::rand_at(k);
            let x = s.color.x;
            if x == 3. { check(q <= g, 1) }
            else if x == 2. { check(q >= g && vf::rand_at(k + 1) <= f, 2) }
            else if x == 1. { check(q >= g && vf::rand_at(k + 1) >= f, 3) }
            else { check(false, 4) }
        }
        _ => check(false, 5),
    }
    check(!m.is_light(), 6);
}
/// A chain of blends, each with the next one. shard: length
pub fn c10_chain(sh: u64) {
    let c = |k: usize| Metal::new(SolidColor::new(k as f64, 0., 0.), None, 0.);
    let n = sh as usize;
    let fs: Vec<f64> = (0..n).map(|_| r(0., 1.)).collect();
    let mut m = c(0);
    for i in 0..n { m = Blend::new(m, c(i + 1), fs[i]) }
    let w = white();
    let rec = RayHit::new(v3(0., 0., 0.), Onb::new(v3(0., 1., 0.)), &w, 1., Uv::default(), true);
    let k = vf::rand_count();
    match m.scatter(&Ray::new(v3(0., 1., 0.), v3(0., -1., 0.)), &rec, &[]) {
        RayScatter::ScatterBasic(s) => {
            // from the outermost one inwards: the i-th draw decides between the part added last and the rest
            let mut want = 0;
            for i in 0..n {
                let o = n - 1 - i;
                let q = vf::rand_at(k + i as u64);
                let f = fs[o];
                if q < f { want = o + 1; break; }
                assume(q > f);
            }
            let mut found = false;
            for i in 0..=n { if s.color.x == i as f64 { found = true; check(i == want, 1) } }
            check(found, 2);
        }
        _ => check(false, 3),
    }
}
/// Lights emit on their front only, with their attenuation
pub fn c11_emission(sh: u64) {
    let col = sv(0., 100000.);
    let half = r(0.0001, 100000.);
    let m = match sh { 0 => DiffuseLight::new(col.x, col.y, col.z, Some(half)), 1 => DiffuseLight::new(col.x, col.y, col.z, None), _ => DiffuseLight::new_from_vec3(col) };
    check(m.is_light(), 1);
    let front = vf::boolean();
    let rec = RayHit::new(sv(-1000., 1000.), Onb::new(v3(0., 1., 0.)), &m, 1., Uv::default(), front);
    match m.scatter(&Ray::new(sv(-1000., 1000.), v3(0., -1., 0.)), &rec, &[]) {
        RayScatter::ScatterEmission(s) => {
            near_v(s.color, if front { col } else { v3(0., 0., 0.) }, 1e-9, 2);
            let len = r(0., 1000000.);
            let a = AttenuatedColor { color: s.color, attenuation_factor: s.attenuation_factor, accumulated_ray_length: len };
            let got = a.get_attenuated_color();
            if sh == 0 {
                // c / (1 + len/half): half of it at the half length
                near_v(mul(got, half + len), mul(s.color, half), 1e-6, 3);
                let at = AttenuatedColor { color: s.color, attenuation_factor: s.attenuation_factor, accumulated_ray_length: half };
                near_v(mul(at.get_attenuated_color(), 2.), s.color, 1e-9, 4);
            } else { near_v(got, s.color, 0., 5) }
        }
        _ => check(false, 6),
    }
}
