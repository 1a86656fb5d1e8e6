use crate::util::*;
use image::{Rgb, RgbImage};
use solstrale::camera::{Camera, CameraConfig};
use std::f64::consts::PI;
use std::sync::Arc;

fn rot(axis: u64, deg: f64, p: Vec3) -> Vec3 {
    let a = deg / 180. * PI;
    let (s, c) = (a.sin(), a.cos());
    // clockwise seen against the axis, as in the examples of the documentation
    match axis {
        0 => v3(p.x, c * p.y + s * p.z, c * p.z - s * p.y),
        1 => v3(c * p.x + s * p.z, p.y, c * p.z - s * p.x),
        _ => v3(c * p.x + s * p.y, c * p.y - s * p.x, p.z),
    }
}
fn rotation(axis: u64, deg: f64) -> Box<dyn Transformer> { match axis { 0 => Box::new(RotationX::new(deg)), 1 => Box::new(RotationY::new(deg)), _ => Box::new(RotationZ::new(deg)) } }
/// One transformation. shard: 0..2 rotations, 3 translation, 4 scale, 5 none; + 10 for a direction
pub fn c21_single(sh: u64) {
    let p = sv(-100000., 100000.);
    let dir = sh >= 10;
    let k = sh % 10;
    match k {
        3 => { let t = sv(-100000., 100000.); near_v(Translation::new(t).transform(p, dir), if dir { p } else { add(p, t) }, 0., 1) }
        4 => { let f = r(-1000., 1000.); near_v(Scale::new(f).transform(p, dir), mul(p, f), 0., 2) }
        5 => near_v(NopTransformer().transform(p, dir), p, 0., 3),
        _ => {
            let deg = r(-100000., 100000.);
            let t = rotation(k, deg);
            let q = t.transform(p, dir);
            near_v(q, rot(k, deg, p), 1e-9, 4);
            // a quarter turn twice is a half turn
            let h = rotation(k, 90.);
            let z = h.transform(h.transform(p, dir), dir);
            near_v(z, match k { 0 => v3(p.x, -p.y, -p.z), 1 => v3(-p.x, p.y, -p.z), _ => v3(-p.x, -p.y, p.z) }, 1e-9, 5);
            // the other way round brings it back
            near_v(rotation(k, -deg).transform(q, dir), p, 1e-9, 6);
            near(len2(q), len2(p), 1e-9, 7);
        }
    }
}
/// Lists are applied in order. shard: list; + 10 for a direction
pub fn c21_list(sh: u64) {
    let p = sv(-1e5, 1e5);
    let dir = sh >= 10;
    let (a, b) = (r(-100000., 100000.), r(-100000., 100000.));
    let t = sv(-1e5, 1e5);
    let f = r(0.001, 1000.);
    let mv = |p: Vec3| if dir { p } else { add(p, t) };
    let (l, want): (Vec<Box<dyn Transformer>>, Vec3) = match sh % 10 {
        6 | 7 => {
            // a long list
            let n = if sh % 10 == 6 { 9 } else { 20 };
            let mut l: Vec<Box<dyn Transformer>> = vec![];
            let mut w = p;
            for i in 0..n { match i % 3 {
                0 => { l.push(Box::new(Translation::new(t))); w = mv(w) }
                1 => { let k = if i == 4 { f } else if i % 2 == 0 { 0.5 } else { 2. }; l.push(Box::new(Scale::new(k))); w = mul(w, k) }
                _ => { l.push(Box::new(Transformations::new(vec![Box::new(NopTransformer()), Box::new(Translation::new(v3(1., 2., 3.)))]))); if !dir { w = add(w, v3(1., 2., 3.)) } }
            } }
            (l, w)
        }
        0 => (vec![rotation(0, a), Box::new(Translation::new(t)), rotation(2, b)], rot(2, b, mv(rot(0, a, p)))),
        1 => (vec![Box::new(Scale::new(f)), Box::new(Translation::new(t)), rotation(1, a)], rot(1, a, mv(mul(p, f)))),
        2 => (vec![Box::new(Translation::new(t)), Box::new(Scale::new(f))], mul(mv(p), f)),
        3 => (vec![], p),
        4 => (vec![Box::new(Transformations::new(vec![Box::new(Translation::new(t)), rotation(2, a)])), Box::new(NopTransformer()), Box::new(Scale::new(f))], mul(rot(2, a, mv(p)), f)),
        _ => (vec![rotation(0, a), rotation(1, b), rotation(0, a)], rot(0, a, rot(1, b, rot(0, a, p)))),
    };
    near_v(Transformations::new(l).transform(p, dir), want, 1e-6, 1);
}
/// A transformed object is hit where the transformed ray hits. shard: 0 quad, 1 triangle, 2 side of a box, 3 all sides of a box; + 10 * kind of transformation
pub fn c21_objects(sh: u64) {
    let t = sv(-1e5, 1e5);
    let f = r(0.01, 1000.);
    let deg = r(-1e5, 1e5);
    let k = sh / 10;
    let tr: Box<dyn Transformer> = match k {
        0 => Box::new(Translation::new(t)),
        1 => Box::new(Transformations::new(vec![Box::new(Scale::new(f)), Box::new(Translation::new(t))])),
        2 => rotation(0, deg),
        3 => rotation(1, deg),
        _ => Box::new(Transformations::new(vec![rotation(2, deg), Box::new(Translation::new(v3(1., 2., 3.)))])),
    };
    let (a, b, m) = (v3(1., 0., 2.), v3(2., 0., 0.), tag(5));
    let c = v3(0.5, 1., 0.25);
    let o = match sh % 10 {
        0 => vec![Quad::new(a, b, c, m, &*tr)],
        1 => vec![Triangle::new(a, add(a, b), add(a, c), m, &*tr)],
        _ => Quad::new_box(v3(-1., -1., -1.), v3(1., 2., 3.), m, &*tr),
    };
    let (x, y) = (r(0.05, 0.45), r(0.05, 0.45));
    if sh % 10 == 3 {
        for side in 0..6 {
            let e = if side % 2 == 0 { 1. } else { -1. };
            let (p, d) = match side / 2 {
                0 => (v3(e, x, 1. + y), v3(-e, 0.125, 0.25)),
                1 => (v3(-x, 0.5 + e * 1.5, 1. + y), v3(0.25, -e, 0.125)),
                _ => (v3(-x, y, 1. + 2. * e), v3(0.125, 0.25, -e)),
            };
            let (o2, d2) = (tr.transform(sub(p, mul(d, 3.)), false), tr.transform(d, true));
            let mut n = 0;
            for q in &o {
                if let Some(h) = q.hit(&Ray::new(o2, d2), &Interval::new(0.001, 3.01)) {
                    n += 1;
                    near(h.ray_length, 3., 1e-6, 1);
                    near_v(h.hit_point, tr.transform(p, false), 1e-6, 2);
                    check(h.front_face, 5);
                }
            }
            check(n == 1, 4);
        }
        return;
    }
    let p = if sh % 10 == 2 { v3(-1. + 2. * x, 0.5 - y, 3.) } else { add(a, add(mul(b, x), mul(c, y))) };
    let d = if sh % 10 == 2 { v3(0.25, 0.5, -1.) } else { v3(0.5, 0.25, -2.) };
    let len = 3.;
    let from = sub(p, mul(d, len));
    let (o2, d2) = (tr.transform(from, false), tr.transform(d, true));
    let mut n = 0;
    for q in &o {
        if let Some(h) = q.hit(&Ray::new(o2, d2), &Interval::new(0.001, 3.01)) {
            n += 1;
            near(h.ray_length, len, 1e-6, 1);
            near_v(h.hit_point, tr.transform(p, false), 1e-6, 2);
            if sh % 10 == 0 { near(h.uv.u as f64, x, 1e-5, 3); near(h.uv.v as f64, y, 1e-5, 3) }
        }
    }
    check(n == 1, 4);
}
/// The view of a camera. shard: 0..3 direction of up; + 10 with a lens; + 100 size
pub fn c22_view(sh: u64) {
    let up = [v3(0., 1., 0.), v3(0., -2., 0.), v3(0.5, 1., -0.25), v3(0., 0., 1.)][sh as usize % 10 % 4];
    let lens = sh / 10 % 2 == 1;
    let (w, h) = if sh / 100 == 3 { (vf::int(1, 100000) as usize, vf::int(1, 100000) as usize) } else { [(4, 3), (1, 1), (9, 16), (0, 0), (1, 1000), (1000, 1)][sh as usize / 100] };
    let from = sv(-1e5, 1e5);
    let back = match sh % 4 { 2 => v3(r(-1000., 1000.), 3., r(-1000., 1000.)), 3 => v3(r(-1000., 1000.), r(-1000., 1000.), -5.), _ => v3(r(-1000., 1000.), r(-1000., 1000.), r(-1000., 1000.)) };
    let x0 = cross(up, back);
    assume(len2(x0) >= 0.01);
    let fov = r(0.1, 179.);
    let ap = if lens { r(0.0001, 100.) } else { r(-100., 0.) };
    let cam = Camera::new(w, h, &CameraConfig { vertical_fov_degrees: fov, aperture_size: ap, look_from: from, look_at: sub(from, back), up });
    fastrand::vf_range(0.3, 0.7);
    let k = vf::rand_count();
    // what a point of the image shows, at the distance of the focus
    let at = |u: f32, v: f32| { let ray = cam.get_ray(Uv::new(u, v)); ray.at(1.) };
    let (u, v) = (vf::f32_(0., 1.), vf::f32_(0., 1.));
    let mid = at(0.5, 0.5);
    near_v(mid, sub(from, back), 1e-6, 1);
    let (r0, r1) = (at(0., 0.), at(1., 0.));
    let t0 = at(0., 1.);
    let x = sub(r1, r0);
    let y = sub(t0, r0);
    // horizontal to the right, vertical upwards, both across the direction of view
    let d2 = len2(back);
    let th = (fov / 2. / 180. * PI).tan();
    near(dot(x, up), 0., 1e-6, 2);
    near(dot(x, back), 0., 1e-6, 3);
    near(dot(y, back), 0., 1e-6, 4);
    near(dot(x, y), 0., 1e-6, 5);
    near(len2(y), 4. * th * th * d2, 1e-6, 6);
    near(len2(x) * (h as f64 * h as f64), 4. * th * th * d2 * (w as f64 * w as f64), 1e-6, 7);
    check(dot(x, x0) >= 0., 8);
    check(dot(y, up) >= 0., 9);
    // all other points in proportion
    near_v(at(u, v), add(r0, add(mul(x, u as f64), mul(y, v as f64))), 1e-6, 10);
    if !lens { check(vf::rand_count() == k, 11); near_v(cam.get_ray(Uv::new(u, v)).origin, from, 0., 12) }
}
/// Where the rays of a lens start. shard: direction of view
pub fn c22_lens(sh: u64) {
    let back = [v3(0., 0., 5.), v3(2., 1., 2.), v3(-4., 0., 3.), v3(0., -3., 4.)][sh as usize % 4];
    let ap = r(0.0001, 100.);
    let from = sv(-1e5, 1e5);
    let cam = Camera::new(4, 3, &CameraConfig { vertical_fov_degrees: 40., aperture_size: ap, look_from: from, look_at: sub(from, back), up: v3(0., 1., 0.) });
    let k = vf::rand_count();
    // places besides the lens are drawn at most twice
    fastrand::vf_act(Box::new(|i| if i >= 4 { fastrand::vf_range(0.3, 0.7) }));
    let o = sub(cam.get_ray(Uv::new(vf::f32_(0., 1.), vf::f32_(0., 1.))).origin, from);
    // anywhere on the lens, each place as likely as any other
    near(dot(o, back), 0., 1e-6, 1);
    check(len2(o) <= ap * ap / 4. * 1.000001, 2);
    let e = vf::rand_count();
    check(e == k + 2 || e == k + 4 || e == k + 6, 3);
    let q = |i: u64| 2. * vf::rand_at(i) - 1.;
    let (a, b) = (q(e - 2), q(e - 1));
    near(len2(o), ap * ap / 4. * (a * a + b * b), 1e-6, 4);
    let right = cross(v3(0., 1., 0.), back);
    near(dot(o, right) * dot(o, right), ap * ap / 4. * a * a * len2(right), 1e-6, 5);
}
fn map1(p: [u8; 3]) -> Textures { let mut im = RgbImage::new(1, 1); im.put_pixel(0, 0, Rgb(p)); ImageMap::new(Arc::new(im)) }
fn with_map(k: u64, t: Textures) -> Materials {
    let c = SolidColor::new(1., 1., 1.);
    match k { 0 => Lambertian::new(c, Some(t)), 1 => Metal::new(c, Some(t), 0.1), 2 => Dielectric::new(c, Some(t), 1.5), _ => Blend::new(Lambertian::new(c, None), Metal::new(SolidColor::new(1., 1., 1.), Some(t), 0.1), 1.) }
}
fn sym_map() -> ([u8; 3], Vec3) {
    let b = [vf::int(0, 255) as u8, vf::int(0, 255) as u8, vf::int(0, 255) as u8];
    let f = |x: u8| x as f64 / 255. * 2. - 1.;
    (b, v3(f(b[0]), f(b[1]), f(b[2])))
}
/// Normals of flat objects with a normal map. shard: 0 quad, 1 triangle; + 10 * material; + 100 seen from behind
pub fn c23_flat(sh: u64) {
    let (b, n) = sym_map();
    let m = with_map(sh / 10 % 10, map1(b));
    let s = r(0.01, 1000.);
    let (x, y) = (mul(v3(2., 1., 2.), s / 3.), mul(v3(-2., 2., 1.), r(0.01, 1000.) / 3.));
    let q = sv(-1e5, 1e5);
    let nn = v3(-1. / 3., -2. / 3., 2. / 3.);
    let back = sh >= 100;
    let o = if sh % 10 == 0 { Quad::new(q, x, y, m, &NopTransformer()) } else {
        // u grows along x, v along y
        let (u0, v0, k, l) = (vf::f32_(-2., 2.), vf::f32_(-2., 2.), vf::f32_(0.01, 4.), vf::f32_(0.01, 4.));
        Triangle::new_with_tex_coords(q, add(q, x), add(q, y), Uv::new(u0, v0), Uv::new(u0 + k, v0), Uv::new(u0, v0 + l), m, &NopTransformer())
    };
    let p = add(q, add(mul(x, 0.25), mul(y, 0.5)));
    let d = mul(nn, if back { 1. } else { -1. });
    let h = match o.hit(&Ray::new(sub(p, d), d), &Interval::new(0.5, 2.)) { Some(h) => h, None => { check(false, 1); return } };
    check(h.front_face != back, 2);
    let t = v3(2. / 3., 1. / 3., 2. / 3.);
    let bt = v3(-2. / 3., 2. / 3., 1. / 3.);
    near_v(h.normal, add(mul(t, n.x), add(mul(bt, n.y), mul(d, -n.z))), 1e-6, 3);
}
/// Normals of triangles whose texture is laid on at an angle, mirrored or not at all. shard: case
pub fn c23_skew(sh: u64) {
    let (b, n) = sym_map();
    let m = with_map(0, map1(b));
    let q = sv(-1e5, 1e5);
    // corners in the plane z = q.z: direction of growing u is e, of growing v is g
    let (e, g) = match sh % 4 { 0 => (v3(0.6, 0.8, 0.), v3(-0.8, 0.6, 0.)), 1 => (v3(-1., 0., 0.), v3(0., 1., 0.)), 2 => (v3(0., 1., 0.), v3(1., 0., 0.)), _ => (v3(0.6, -0.8, 0.), v3(0.6, 0.8, 0.)) };
    let (k, l) = (r(0.01, 100.), r(0.01, 100.));
    // position = q + u * k * e + v * l * g
    let at = |u: f64, v: f64| add(q, add(mul(e, k * u), mul(g, l * v)));
    let c = [(0., 0.), (1., 0.5), (0.25, 2.)];
    let uv = |i: usize| Uv::new(c[i].0 as f32, c[i].1 as f32);
    let o = Triangle::new_with_tex_coords(at(0., 0.), at(1., 0.5), at(0.25, 2.), uv(0), uv(1), uv(2), m, &NopTransformer());
    let p = at(0.4, 0.8);
    let h = match o.hit(&Ray::new(add(p, v3(0., 0., 1.)), v3(0., 0., -1.)), &Interval::new(0.5, 2.)) { Some(h) => h, None => { check(false, 1); return } };
    near_v(h.normal, add(mul(e, n.x), add(mul(g, n.y), v3(0., 0., n.z))), 1e-6, 2);
}
/// Normals of spheres with a normal map. shard: direction from the centre; + 10 from inside; + 100 materials
pub fn c23_sphere(sh: u64) {
    let (b, n) = sym_map();
    let m = with_map(sh / 100, map1(b));
    // a direction of whole length
    let (e, l) = [(v3(3., 0., 4.), 5.), (v3(2., 1., 2.), 3.), (v3(-2., 6., 3.), 7.), (v3(0., -4., -3.), 5.), (v3(-1., 0., 0.), 1.)][sh as usize % 10 % 5];
    let c = sv(-1e5, 1e5);
    let k = r(0.02, 1000.);
    let inside = sh / 10 % 10 == 1;
    let o = Sphere::new(c, l * k, m);
    let e2 = mul(e, if inside { 1. } else { -1. });
    let h = match o.hit(&Ray::new(sub(add(c, mul(e, k)), mul(e2, 0.015625)), e2), &Interval::new(0.01, 0.02)) { Some(h) => h, None => { check(false, 1); return } };
    let w = mul(e, 1. / l);
    let d = mul(e2, 1. / l);
    check(h.front_face != inside, 2);
    // eastwards as u grows, northwards
    let s = (w.x * w.x + w.z * w.z).sqrt();
    let t = v3(w.z / s, 0., -w.x / s);
    let bt = cross(w, t);
    check(bt.y > 0., 5);
    near_v(h.normal, add(mul(t, n.x), add(mul(bt, n.y), mul(d, -n.z))), 1e-5, 3);
}
/// Normals where the surface has no directions of its own: poles, no texture coordinates. shard: 0, 1 poles, 2.. triangles
pub fn c23_pole(sh: u64) {
    let (b, n) = sym_map();
    let m = with_map(0, map1(b));
    let q = sv(-1e5, 1e5);
    let (o, top, d) = if sh < 2 { let s = if sh == 0 { 1. } else { -1. }; (Sphere::new(q, 2., m), add(q, v3(0., 2. * s, 0.)), v3(0., -s, 0.)) } else {
        let (e, f) = (v3(2., 0., 0.), v3(0., 0., -2.));
        let o = match sh {
            2 => Triangle::new(q, add(q, e), add(q, f), m, &NopTransformer()),
            _ => { let u = vf::f32_(-5., 5.); Triangle::new_with_tex_coords(q, add(q, e), add(q, f), Uv::new(u, 1.), Uv::new(u, 1.), Uv::new(u, 2.), m, &NopTransformer()) }
        };
        (o, add(q, v3(0.5, 0., -0.5)), v3(0., -1., 0.))
    };
    let h = match o.hit(&Ray::new(sub(top, d), d), &Interval::new(0.5, 1.5)) { Some(h) => h, None => { check(false, 1); return } };
    near(dot(h.normal, d), -n.z, 1e-6, 2);
    near(len2(h.normal), len2(n), 1e-6, 3);
}
/// A frame for any direction, with three unit vectors at right angles. shard: dominating axis
pub fn c23_frame(sh: u64) {
    let a = sv(-1000., 1000.);
    let l = len2(a);
    assume(l >= 1e-4);
    if sh == 0 { assume(a.x * a.x >= 0.82 * l) } else { assume(a.x * a.x <= 0.8 * l) }
    let o = Onb::new(a);
    let e = |x: f64, y: f64, z: f64| o.local(v3(x, y, z));
    let (x, y, z) = (e(1., 0., 0.), e(0., 1., 0.), e(0., 0., 1.));
    let len = l.sqrt();
    near_v(mul(z, len), a, 1e-9, 1);
    for v in [x, y] { near(len2(v), 1., 1e-9, 2); near(dot(v, a), 0., 1e-6, 3) }
    near(dot(x, y), 0., 1e-9, 4);
    let p = sv(-1000., 1000.);
    near_v(o.local(p), add(mul(x, p.x), add(mul(y, p.y), mul(z, p.z))), 1e-6, 5);
}
