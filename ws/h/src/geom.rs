use crate::util::*;

// ---------------------------------------------------------------- sphere
/// Every ray that stays away from the sphere is "origin = centre + w - t * direction" with w orthogonal to
/// the direction and longer than the radius: no hit.
pub fn c02_sphere_miss(_: u64) {
    let c = sv(-1e5, 1e5);
    let rad = r(0.001, 10000.);
    let d = sv(-1000., 1000.);
    assume(len2(d) >= 0.01);
    let w = cross(sv(-1e5, 1e5), d);
    let t = r(-1e5, 1e5);
    assume(len2(w) >= rad * rad + 1e-6);
    let o = sub(add(c, w), mul(d, t));
    check(Sphere::new(c, rad, white()).hit(&Ray::new(o, d), &Interval::new(-1e9, 1e9)).is_none(), 1);
}
/// Every ray that meets the sphere is "origin = point of the sphere - t * direction". With the point
/// at which it enters, both intersections are known exactly: the hit has to be the first one in range.
pub fn c02_sphere_nearest(_: u64) {
    let c = sv(-1e5, 1e5);
    let e = sv(-5000., 5000.);
    assume(len2(e) >= 0.0001);
    let rad = len2(e).sqrt();
    let d = sv(-1000., 1000.);
    assume(len2(d) >= 0.01);
    let ed = dot(e, d);
    assume(ed <= -0.0001);
    let t1 = r(-1e5, 1e5);
    let o = sub(add(c, e), mul(d, t1));
    let t2 = t1 - 2. * ed / len2(d);
    let lo = r(-1000., 1000.);
    let hi = r(-1000., 1e8);
    let m = 1e-6;
    assume((t1 - lo >= m || t1 - lo <= -m) && (t1 - hi >= m || t1 - hi <= -m) && (t2 - lo >= m || t2 - lo <= -m) && (t2 - hi >= m || t2 - hi <= -m));
    let in1 = t1 >= lo && t1 <= hi;
    let in2 = t2 >= lo && t2 <= hi;
    match Sphere::new(c, rad, white()).hit(&Ray::new(o, d), &Interval::new(lo, hi)) {
        None => check(!in1 && !in2, 1),
        Some(h) => {
            check(in1 || in2, 2);
            let t = if in1 { t1 } else { t2 };
            near(h.ray_length, t, 1e-6, 3);
            near_v(h.hit_point, add(o, mul(d, t)), 1e-6, 4);
            check(h.front_face == in1, 5);
        }
    }
}
/// normal, orientation and texture coordinate of the hit at a given point; shard 0: entering, 1: leaving ray
pub fn c02_sphere_frame(sh: u64) {
    let c = sv(-1e5, 1e5);
    let e = sv(-100., 100.);
    assume(len2(e) >= 0.0001);
    let rad = len2(e).sqrt();
    let d = sv(-10., 10.);
    assume(len2(d) >= 0.01);
    let ed = dot(e, d);
    if sh == 0 { assume(ed <= -0.01) } else { assume(ed >= 0.01) }
    assume(ed * ed >= 1e-6 * len2(d) * len2(d)); // the other intersection is at least 0.002 away
    let t = r(0.1, 1000.);
    let o = sub(add(c, e), mul(d, t));
    // only the intersection at e is in range
    let m = 0.0001;
    match Sphere::new(c, rad, white()).hit(&Ray::new(o, d), &Interval::new(t - m, t + m)) {
        None => check(false, 1),
        Some(h) => {
            check(h.front_face == (sh == 0), 2);
            near_v(mul(h.normal, if sh == 0 { rad } else { -rad }), e, 1e-6, 3);
            near(len2(h.normal), 1., 1e-6, 4);
            let pi = std::f64::consts::PI;
            near(h.uv.u as f64, (pi - (e.z / rad).atan2(e.x / rad)) / (2. * pi), 1e-4, 5);
            near(h.uv.v as f64, (-e.y / rad).acos() / pi, 1e-4, 6);
        }
    }
}

// ---------------------------------------------------------------- quad and triangle
// Every ray that is not parallel to the plane is "origin = point of the plane - t * direction",
// so that the exact set of hits can be written down with the plane coordinates a, b and t.
pub fn c03_quad_hit(_: u64) {
    let q = sv(-1e5, 1e5);
    let u = sv(-100., 100.);
    let v = sv(-100., 100.);
    let n = cross(u, v);
    assume(len2(n) >= 0.01);
    let d = sv(-100., 100.);
    assume(dot(n, d) >= 0.01 || dot(n, d) <= -0.01);
    let a = r(-1000., 1000.);
    let b = r(-1000., 1000.);
    let t = r(-1e5, 1e5);
    let lo = r(-1000., 1000.);
    let hi = r(-1000., 1e8);
    let o = sub(add(q, add(mul(u, a), mul(v, b))), mul(d, t));
    let quad = Quad::new(q, u, v, white(), &NopTransformer());
    let m = 1e-6;
    let inside = a >= m && a <= 1. - m && b >= m && b <= 1. - m && t >= lo + m && t <= hi - m;
    let outside = a <= -m || a >= 1. + m || b <= -m || b >= 1. + m || t <= lo - m || t >= hi + m;
    match quad.hit(&Ray::new(o, d), &Interval::new(lo, hi)) {
        None => check(!inside, 1),
        Some(h) => {
            check(!outside, 2);
            near(h.ray_length, t, 1e-6, 3);
            near_v(h.hit_point, add(o, mul(d, t)), 1e-6, 4);
            near(h.uv.u as f64, a, 1e-5, 5);
            near(h.uv.v as f64, b, 1e-5, 6);
            check(h.front_face == (dot(d, n) < 0.), 7);
            let l = len2(n).sqrt();
            near_v(mul(h.normal, l), if dot(d, n) < 0. { n } else { mul(n, -1.) }, 1e-6, 8);
            check(dot(h.normal, d) < 0., 9);
        }
    }
}
/// a ray parallel to the plane never hits
pub fn c03_parallel(sh: u64) {
    let q = sv(-1e5, 1e5);
    let u = sv(-5000., 5000.);
    let v = sv(-5000., 5000.);
    assume(len2(cross(u, v)) >= 0.01);
    let (i, j) = (r(-2., 2.), r(-2., 2.));
    let d = add(mul(u, i), mul(v, j));
    let o = sv(-1e5, 1e5);
    let h = if sh == 0 { Quad::new(q, u, v, white(), &NopTransformer()) } else { Triangle::new(q, add(q, u), add(q, v), white(), &NopTransformer()) };
    check(h.hit(&Ray::new(o, d), &Interval::new(-1e9, 1e9)).is_none(), 1);
}
fn tri_setup() -> (Vec3, Vec3, Vec3, Vec3, Vec3, f64, f64, f64) {
    let q = sv(-1e5, 1e5);
    let u = sv(-5000., 5000.);
    let v = sv(-5000., 5000.);
    let n = cross(u, v);
    assume(len2(n) >= 0.01);
    let d = sv(-1000., 1000.);
    assume(dot(n, d) >= 0.01 || dot(n, d) <= -0.01);
    let a = r(-1000., 1000.);
    let b = r(-1000., 1000.);
    let t = r(-1e5, 1e5);
    (q, u, v, n, d, a, b, t)
}
pub fn c04_triangle_hit(_: u64) {
    let (q, u, v, n, d, a, b, t) = tri_setup();
    let lo = r(-1000., 1000.);
    let hi = r(-1000., 1e8);
    let o = sub(add(q, add(mul(u, a), mul(v, b))), mul(d, t));
    let tri = Triangle::new(q, add(q, u), add(q, v), white(), &NopTransformer());
    let m = 1e-6;
    let inside = a >= m && b >= m && a + b <= 1. - m && t >= lo + m && t <= hi - m;
    let outside = a <= -m || b <= -m || a + b >= 1. + m || t <= lo - m || t >= hi + m;
    match tri.hit(&Ray::new(o, d), &Interval::new(lo, hi)) {
        None => check(!inside, 1),
        Some(h) => {
            check(!outside, 2);
            near(h.ray_length, t, 1e-6, 3);
            near_v(h.hit_point, add(o, mul(d, t)), 1e-6, 4);
            check(h.front_face == (dot(d, n) < 0.), 7);
            let l = len2(n).sqrt();
            near_v(mul(h.normal, l), if dot(d, n) < 0. { n } else { mul(n, -1.) }, 1e-6, 8);
            check(dot(h.normal, d) < 0., 9);
        }
    }
}
/// texture coordinates are interpolated with the barycentric weights of the hit point
pub fn c04_triangle_uv(_: u64) {
    let (q, u, v, _, d, a, b, t) = tri_setup();
    let uv = || Uv::new(vf::f32_(-1000., 1000.), vf::f32_(-1000., 1000.));
    let (t0, t1, t2) = (uv(), uv(), uv());
    let det = (t1.u - t0.u) * (t2.v - t0.v) - (t1.v - t0.v) * (t2.u - t0.u);
    assume(det >= 0.01 || det <= -0.01);
    let o = sub(add(q, add(mul(u, a), mul(v, b))), mul(d, t));
    let tri = Triangle::new_with_tex_coords(q, add(q, u), add(q, v), t0, t1, t2, white(), &NopTransformer());
    if let Some(h) = tri.hit(&Ray::new(o, d), &Interval::new(0., 100.)) {
        let c = 1. - a - b;
        near(h.uv.u as f64, c * t0.u as f64 + a * t1.u as f64 + b * t2.u as f64, 1e-4, 1);
        near(h.uv.v as f64, c * t0.v as f64 + a * t1.v as f64 + b * t2.v as f64, 1e-4, 2);
    }
}

// ---------------------------------------------------------------- bounding boxes
fn inside(b: &Aabb, p: Vec3, id: u32) {
    let m = 1e-9;
    check(b.x.min <= p.x + m && p.x <= b.x.max + m, id);
    check(b.y.min <= p.y + m && p.y <= b.y.max + m, id);
    check(b.z.min <= p.z + m && p.z <= b.z.max + m, id);
}
fn near_box(a: &Aabb, lo: Vec3, hi: Vec3, tol: f64, id: u32) {
    near_v(v3(a.x.min, a.y.min, a.z.min), lo, tol, id);
    near_v(v3(a.x.max, a.y.max, a.z.max), hi, tol, id);
}
fn min(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
fn max(a: f64, b: f64) -> f64 { if a > b { a } else { b } }
/// (min, max) of the two values; at most one fork
fn mm(a: (f64, f64), b: f64) -> (f64, f64) { (min(a.0, b), max(a.1, b)) }
fn hull(ps: &[Vec3]) -> (Vec3, Vec3) {
    let p = ps[0];
    let (mut x, mut y, mut z) = ((p.x, p.x), (p.y, p.y), (p.z, p.z));
    for p in &ps[1..] { x = mm(x, p.x); y = mm(y, p.y); z = mm(z, p.z); }
    (v3(x.0, y.0, z.0), v3(x.1, y.1, z.1))
}
fn thick(b: &Aabb, id: u32) {
    let m = 0.0001 - 1e-12;
    check(b.x.max - b.x.min >= m, id);
    check(b.y.max - b.y.min >= m, id);
    check(b.z.max - b.z.min >= m, id);
}
/// shard: 0 sphere, 1 quad, 2 triangle; u,v free in all axes but one, where they are symbolic only for that shard
pub fn c05_shape(sh: u64) {
    let q = sv(-1e5, 1e5);
    if sh == 0 {
        let rad = r(0.001, 1e5);
        let s = Sphere::new(q, rad, white());
        let e = v3(rad, rad, rad);
        near_box(s.bounding_box(), sub(q, e), add(q, e), 1e-9, 1);
        return;
    }
    // one coordinate axis at a time is symbolic; the others are concrete (the code treats axes alike and independently)
    let k = (sh - 1) % 3;
    let kind = (sh - 1) / 3;
    let (a, b) = (r(-1e6, 1e6), r(-1e6, 1e6));
    let pick = |i: u64, s: f64, c: f64| if i == k { s } else { c };
    let u = v3(pick(0, a, 1.5), pick(1, a, -0.5), pick(2, a, 2.));
    let v = v3(pick(0, b, -0.7), pick(1, b, 0.9), pick(2, b, -0.00002));
    let ax = |p: Vec3| if k == 0 { p.x } else if k == 1 { p.y } else { p.z };
    let h = match kind {
        0 => Quad::new(q, u, v, white(), &NopTransformer()),
        _ => Triangle::new(q, add(q, u), add(q, v), white(), &NopTransformer()),
    };
    let bb = h.bounding_box();
    thick(bb, 2);
    let mut ps = vec![q, add(q, u), add(q, v)];
    if kind == 0 { ps.push(add(q, add(u, v))); }
    for p in &ps { inside(bb, *p, 3); }
    // tight: not larger than the hull by more than the padding
    let mut m = (ax(ps[0]), ax(ps[0]));
    for p in &ps[1..] { m = mm(m, ax(*p)); }
    let bi = if k == 0 { bb.x } else if k == 1 { bb.y } else { bb.z };
    check(bi.min >= m.0 - 0.0001 && bi.max <= m.1 + 0.0001, 4);
}
pub fn c05_ops(sh: u64) {
    let iv = || { let (a, b) = (r(-1e5, 1e5), r(0., 1e5)); (a, a + b) };
    let (x, y, z) = (iv(), iv(), iv());
    let a = Aabb { x: Interval::new(x.0, x.1), y: Interval::new(y.0, y.1), z: Interval::new(z.0, z.1) };
    match sh {
        0 => {
            let (x2, y2, z2) = (iv(), iv(), iv());
            let b = Aabb { x: Interval::new(x2.0, x2.1), y: Interval::new(y2.0, y2.1), z: Interval::new(z2.0, z2.1) };
            let c = a.combine(&b);
            // union
            near_box(&c, v3(min(x.0, x2.0), min(y.0, y2.0), min(z.0, z2.0)), v3(max(x.1, x2.1), max(y.1, y2.1), max(z.1, z2.1)), 1e-9, 1);
        }
        1 => {
            let d = sv(-1e5, 1e5);
            let b = &a + d;
            near_box(&b, add(v3(x.0, y.0, z.0), d), add(v3(x.1, y.1, z.1), d), 1e-9, 2);
            near_v(a.center(), v3((x.0 + x.1) / 2., (y.0 + y.1) / 2., (z.0 + z.1) / 2.), 1e-9, 3);
            let e = Aabb::default().combine(&a);
            near_box(&e, v3(x.0, y.0, z.0), v3(x.1, y.1, z.1), 0., 4);
        }
        2 => {
            let p = a.pad_if_needed();
            thick(&p, 5);
            for (o, n) in [((x.0, x.1), p.x), ((y.0, y.1), p.y), ((z.0, z.1), p.z)] {
                if o.1 - o.0 >= 0.0001 { near(n.min, o.0, 0., 6); near(n.max, o.1, 0., 6); }
                else { near(n.min, o.0 - 0.00005, 1e-9, 7); near(n.max, o.1 + 0.00005, 1e-9, 7); }
            }
        }
        6 => {
            let (i, j) = (a.x, a.y);
            let k = r(-2e5, 2e5);
            let b = solstrale::util::interval::combine_intervals(i, j);
            near(b.min, min(x.0, y.0), 0., 10); near(b.max, max(x.1, y.1), 0., 10);
            check(i.contains(k) == (k >= x.0 && k <= x.1), 11);
            let c = i.clamp(k);
            near(c, if k < x.0 { x.0 } else if k > x.1 { x.1 } else { k }, 0., 12);
            near(i.size(), x.1 - x.0, 1e-9, 13);
            let e = i.expand(k);
            near(e.min, x.0 - k / 2., 1e-9, 14); near(e.max, x.1 + k / 2., 1e-9, 14);
            let (p, m) = (i + k, i - k);
            near(p.min, x.0 + k, 1e-9, 15); near(p.max, x.1 + k, 1e-9, 15);
            near(m.min, x.0 - k, 1e-9, 15); near(m.max, x.1 - k, 1e-9, 15);
        }
        _ => {
            let (p, q, s) = (sv(-1e5, 1e5), sv(-1e5, 1e5), sv(-1e5, 1e5));
            if sh == 3 {
                let b = Aabb::new_from_2_points(p, q);
                let h = hull(&[p, q]);
                near_box(&b, h.0, h.1, 0., 8);
            } else {
                // one axis symbolic at a time
                let b = Aabb::new_from_3_points(p, v3(q.x, 0., 0.), v3(s.x, 0., 0.));
                let mut m = (p.x, p.x); m = mm(m, q.x); m = mm(m, s.x);
                near(b.x.min, m.0, 0., 9); near(b.x.max, m.1, 0., 9);
            }
        }
    }
}
/// Bvh and medium boxes enclose the boxes of what they contain
pub fn c05_containers(sh: u64) {
    // + 100: many objects, one of them at a symbolic place
    let n = if sh >= 100 { 16 } else { [1usize, 2, 3, 4][sh as usize % 4] };
    let xs: Vec<f64> = (0..n).map(|i| if n < 10 { r(-1e5, 1e5) } else if i == 9 { 45. + r(0., 1000.) } else { 3. * (i * 7 % n) as f64 }).collect();
    let k = sh % 100 / 4;
    let hs: Vec<Hittables> = xs.iter().enumerate().map(|(i, x)| {
        let c = match k { 0 => v3(*x, i as f64, 0.), 1 => v3(i as f64, *x, 1.), _ => v3(-(i as f64), 2., *x) };
        Sphere::new(c, 0.5 + i as f64, white())
    }).collect();
    let bs: Vec<Aabb> = hs.iter().map(|h| h.bounding_box().clone()).collect();
    let b = Bvh::new(hs);
    let med = ConstantMedium::new(b.clone(), 1., v3(1., 1., 1.));
    for bx in [b.bounding_box(), med.bounding_box()] {
        let mut u = bs[0].clone();
        for o in &bs { 
            check(bx.x.min <= o.x.min && bx.y.min <= o.y.min && bx.z.min <= o.z.min, 1);
            check(bx.x.max >= o.x.max && bx.y.max >= o.y.max && bx.z.max >= o.z.max, 1);
            let f = |a: Interval, b: Interval| { let m = mm(mm((a.min, a.max), b.min), b.max); Interval::new(m.0, m.1) };
            u = Aabb { x: f(u.x, o.x), y: f(u.y, o.y), z: f(u.z, o.z) };
        }
        near_box(bx, v3(u.x.min, u.y.min, u.z.min), v3(u.x.max, u.y.max, u.z.max), 1e-9, 2);
    }
}

// ---------------------------------------------------------------- ray against box
/// shard bits: for each axis 0 positive, 1 negative, 2 zero direction; + 27 negative zeros
pub fn c06_slab(sh: u64) {
    let iv = || { let (a, b) = (r(-1e5, 1e5), r(0.0001, 1e5)); (a, a + b) };
    let b = [iv(), iv(), iv()];
    let bx = Aabb { x: Interval::new(b[0].0, b[0].1), y: Interval::new(b[1].0, b[1].1), z: Interval::new(b[2].0, b[2].1) };
    let zero = if sh >= 27 { -0. } else { 0. };
    let comp = |k: u64| match k { 0 => r(0.0001, 4000.), 1 => -r(0.0001, 4000.), _ => zero };
    let d = [comp(sh % 3), comp(sh / 3 % 3), comp(sh / 9 % 3)];
    let o = [r(-2e5, 2e5), r(-2e5, 2e5), r(-2e5, 2e5)];
    let hit = bx.hit(&Ray::new(v3(o[0], o[1], o[2]), v3(d[0], d[1], d[2])));
    if hit {
        // each two of the four intervals (three slabs and [0, inf)) overlap, which in one dimension means all of them do
        let m = 1e-9;
        for i in 0..3 {
            if d[i] == 0. { check(o[i] >= b[i].0 - m && o[i] <= b[i].1 + m, 1); continue; }
            let exit = if d[i] > 0. { b[i].1 } else { b[i].0 };
            check((exit - o[i]) * d[i] >= -m, 2);
            for j in 0..3 {
                if j == i || d[j] == 0. { continue; }
                let entry = if d[j] > 0. { b[j].0 } else { b[j].1 };
                // (entry - oj)/dj <= (exit - oi)/di
                let s = (if d[i] > 0. { 1. } else { -1. }) * (if d[j] > 0. { 1. } else { -1. });
                check((entry - o[j]) * d[i] * s <= (exit - o[i]) * d[j] * s + m, 3);
            }
        }
    } else {
        // no point of the ray is strictly inside
        let t = vf::t64(0., 1e300);
        check(!((0..3).all(|i| { let p = o[i] + t * d[i]; p > b[i].0 && p < b[i].1 })), 4);
    }
}
