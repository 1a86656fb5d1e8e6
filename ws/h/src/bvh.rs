use crate::util::*;

/// an object, and the corner and sides of a flat one
struct Ob { h: Hittables, flat: Option<(Vec3, Vec3, Vec3, bool)> }
fn quad(q: Vec3, u: Vec3, v: Vec3) -> Ob { Ob { h: Quad::new(q, u, v, white(), &NopTransformer()), flat: Some((q, u, v, false)) } }
fn tri(a: Vec3, b: Vec3, c: Vec3) -> Ob { Ob { h: Triangle::new(a, b, c, white(), &NopTransformer()), flat: Some((a, sub(b, a), sub(c, a), true)) } }
fn sph(c: Vec3, rad: f64) -> Ob { Ob { h: Sphere::new(c, rad, white()), flat: None } }

/// what a linear scan over the list finds: the smallest ray length of any hit in the interval
fn scan(hs: &[Hittables], ray: &Ray, iv: Interval) -> Option<(f64, Vec3, Vec3, bool, usize)> {
    let mut best: Option<(f64, Vec3, Vec3, bool, usize)> = None;
    for (i, h) in hs.iter().enumerate() {
        if let Some(r) = h.hit(ray, &iv) {
            let closer = match &best { None => true, Some(b) => r.ray_length < b.0 };
            if closer { best = Some((r.ray_length, r.hit_point, r.normal, r.front_face, i)) }
        }
    }
    best
}
/// the ray touches the box of the object it hits on an edge only, or (by rounding of the texture
/// coordinate to f32) just outside of it
fn graze(p: Vec3, b: &Aabb) -> bool {
    let on = |x: f64, i: Interval| ((x - i.min < 1e-6) & (x - i.min > -1e-6)) | ((x - i.max < 1e-6) & (x - i.max > -1e-6));
    let out = |x: f64, i: Interval| (x < i.min) | (x > i.max);
    let (x, y, z) = (on(p.x, b.x), on(p.y, b.y), on(p.z, b.z));
    (x & y) | (x & z) | (y & z) | ((x | y | z) & (out(p.x, b.x) | out(p.y, b.y) | out(p.z, b.z)))
}
/// the ray meets an edge of a flat object, where rounding decides what is a hit
fn edge(p: Vec3, o: &Option<(Vec3, Vec3, Vec3, bool)>) -> bool {
    let Some((q, u, v, t)) = *o else { return false };
    let n = cross(u, v);
    let d = sub(p, q);
    let n2 = len2(n);
    let (a, b, c) = (dot(cross(d, v), n) / n2, dot(cross(u, d), n) / n2, dot(d, n));
    let z = |x: f64| (x > -1e-6) & (x < 1e-6);
    z(c) & (z(a) | z(b) | if t { z(a + b - 1.) } else { z(a - 1.) | z(b - 1.) })
}
type Flat = Option<(Vec3, Vec3, Vec3, bool)>;
fn split(obs: Vec<Ob>) -> (Vec<Hittables>, Vec<(Aabb, Flat)>) {
    let meta = obs.iter().map(|o| (o.h.bounding_box().clone(), o.flat)).collect();
    (obs.into_iter().map(|o| o.h).collect(), meta)
}
fn same(obs: Vec<Ob>, ray: &Ray, iv: Interval) {
    let (hs, meta) = split(obs);
    let want = scan(&hs, ray, iv);
    let bvh = Bvh::new(hs);
    same_as(&bvh, want, &meta, ray, iv)
}
fn same_as(bvh: &Hittables, want: Option<(f64, Vec3, Vec3, bool, usize)>, meta: &[(Aabb, Flat)], ray: &Ray, iv: Interval) {
    let lost = |w: &(f64, Vec3, Vec3, bool, usize)| graze(w.1, &meta[w.4].0) || edge(w.1, &meta[w.4].1);
    let extra = |p: Vec3| meta.iter().any(|m| edge(p, &m.1));
    match (bvh.hit(ray, &iv), want) {
        (None, None) => vf::reach(0),
        (Some(h), None) => check(extra(h.hit_point), 1),
        (None, Some(w)) => check(lost(&w), 2),
        (Some(h), Some(w)) => {
            vf::reach(1);
            if h.ray_length > w.0 { check(lost(&w), 3); return; }
            if h.ray_length < w.0 { check(extra(h.hit_point), 3); return; }
            near_v(h.hit_point, w.1, 1e-9, 4);
        }
    }
}

fn apart(a: f64, b: f64) { let d = a - b; assume((d > 1e-6) | (d < -1e-6)); }
/// concrete scenes, for each number of objects
fn scene(k: u64, n: usize) -> Vec<Ob> {
    let mut l = match k {
        // a mixed cluster
        0 => vec![
            sph(v3(0., 0., 0.), 1.),
            quad(v3(-2., -1.5, -1.5), v3(3., 0., 0.), v3(0., 3., 1.)),
            tri(v3(-1., -2., 2.), v3(2.5, -1., 1.), v3(0., 2., 1.5)),
            sph(v3(1.5, 0.5, -1.), 0.75),
            quad(v3(1., -1., -2.), v3(0., 2., 0.), v3(0., 0., 4.)),
            sph(v3(-1.5, 1., 1.), 0.5),
            tri(v3(-2., 0., -2.), v3(0., 0.5, -2.), v3(-2., 1., 2.)),
            sph(v3(0.5, -1.5, 0.), 0.5),
            sph(v3(-2., -2., -1.), 0.25),
        ],
        // all centres equal: no split along any axis
        1 => vec![sph(v3(0., 0., 0.), 1.), sph(v3(0., 0., 0.), 2.), sph(v3(0., 0., 0.), 0.5), sph(v3(0., 0., 0.), 1.5), sph(v3(0., 0., 0.), 0.25), quad(v3(-1., -1., 0.), v3(2., 0., 0.), v3(0., 2., 0.))],
        // overlapping row along one axis, listed out of order
        _ => vec![sph(v3(3., 0.2, 0.), 1.2), sph(v3(-3., 0., 0.1), 1.), sph(v3(1., -0.2, 0.), 1.5), sph(v3(-1., 0., 0.), 1.25), sph(v3(5., 0.1, 0.), 1.), sph(v3(-5., 0.3, -0.2), 1.5), sph(v3(0., 0., 0.3), 0.4), sph(v3(2., 0., 0.), 0.6)],
    };
    l.truncate(n);
    l
}
/// shard = n + 100 * direction: scenes of up to 99 scattered primitives, swept by a ray along a line
pub fn c01_line(sh: u64) {
    let n = (sh % 100) as usize;
    let mut k = 12345u64;
    let mut rnd = || { k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((k >> 40) % 64) as f64 / 8. - 4. };
    let hs: Vec<Ob> = (0..n).map(|i| {
        let p = v3(rnd(), rnd(), rnd());
        match i % 3 {
            0 => sph(p, 0.25 + (i % 5) as f64 * 0.25),
            1 => quad(p, v3(1., rnd() * 0.25, 0.), v3(0., 1., rnd() * 0.25)),
            _ => tri(p, add(p, v3(1.5, 0., rnd() * 0.25)), add(p, v3(0., 1.5, rnd() * 0.25))),
        }
    }).collect();
    let a = r(-1000., 1000.);
    let ray = match sh / 100 % 10 {
        0 => Ray::new(v3(a, 0.3, 10.), v3(0.03125, -0.0625, -1.)),
        1 => Ray::new(v3(0.3, a, -10.), v3(0.0625, -0.03125, 1.)),
        2 => Ray::new(v3(-10., 0.2, a), v3(0.0625, 0.00390625, -0.001953125)),
        3 => Ray::new(v3(10., a, 0.7), v3(-1., 0.0625, 0.03125)),
        4 => Ray::new(v3(a, 10., 0.7), v3(0.5, -16., 1.)),
        _ => Ray::new(v3(0.1, a, 0.3), v3(-0.5, 0.25, 0.125)),
    };
    // + 1000, + 2000: from the middle of the scene, with an interval that reaches behind the origin
    if sh < 1000 { same(hs, &ray, Interval::new(0.001, f64::INFINITY)); return }
    let ray = Ray::new(ray.at([10., 10., 160., 10., 0.625, 0.][sh as usize / 100 % 10]), ray.direction);
    same(hs, &ray, if sh < 2000 { Interval::new(f64::NEG_INFINITY, f64::INFINITY) } else { Interval::new(-1000., -0.001) });
}
/// shard = n + 10 * direction + 100 * scene: concrete scene and direction, symbolic origin in a plane and interval end
pub fn c01_origin(sh: u64) {
    let n = (sh % 10) as usize;
    let hs = scene(sh / 100, n);
    let (a, b) = (r(-1000., 1000.), r(-1000., 1000.));
    let ray = match sh / 10 % 10 {
        0 => Ray::new(v3(a, b, 10.), v3(0., 0., -1.)),
        1 => Ray::new(v3(-10., a, b), v3(0.0625, 0., 0.)),
        2 => Ray::new(v3(a, 10., b), v3(0., -16., 0.)),
        3 => Ray::new(v3(a, b, 10.), v3(-0.25, 0.125, -1.)),
        4 => Ray::new(v3(-10., a, b), v3(0.0625, -0.015625, 0.)),
        _ => Ray::new(v3(a, b, 0.), v3(0.5, -0.25, -0.5)),
    };
    // a ray parallel to an axis that runs exactly along a side of a box
    for h in &hs {
        let bb = h.h.bounding_box();
        for (o, d, i) in [(ray.origin.x, ray.direction.x, bb.x), (ray.origin.y, ray.direction.y, bb.y), (ray.origin.z, ray.direction.z, bb.z)] {
            if d == 0. { apart(o, i.min); apart(o, i.max); }
        }
    }
    same(hs, &ray, Interval::new(0.001, f64::INFINITY));
}
/// shard = n + 10 * origin + 100 * scene: concrete scene and origin, symbolic direction
pub fn c01_direction(sh: u64) {
    let n = (sh % 10) as usize;
    let hs = scene(sh / 100, n);
    let (a, b) = (r(-100., 100.), r(-100., 100.));
    assume(a != 0. && b != 0.);
    let ray = match sh / 10 % 10 {
        0 => Ray::new(v3(7., 0.25, 0.5), v3(-1., a, b)),
        1 => Ray::new(v3(0.25, -6., 0.125), v3(a, 1., b)),
        2 => Ray::new(v3(0.25, 0.125, 6.), v3(a, b, -1.)),
        _ => Ray::new(v3(0.25, 0.125, -0.5), v3(a, 1., b)),
    };
    same(hs, &ray, Interval::new(0.001, f64::INFINITY));
}
/// shard = n: spheres anywhere along a ray, in every order, with a symbolic interval
pub fn c01_row(sh: u64) {
    let n = (sh % 10) as usize;
    let axis = sh / 10 % 10;
    let hs: Vec<Ob> = (0..n).map(|i| {
        let x = r(-1e5, 1e5);
        let rad = 1. + 0.25 * i as f64;
        match axis { 0 => sph(v3(x, 0.3, 0.1), rad), 1 => sph(v3(0.3, x, 0.1), rad), _ => sph(v3(0.1, 0.3, x), rad) }
    }).collect();
    let hi = if axis == 1 { r(0.001, 1000000.) } else { r(0.001, 100000.) };
    let ray = match axis {
        0 => Ray::new(v3(-20., 0.3, 0.1), v3(1., 0., 0.)),
        1 => Ray::new(v3(0.3, 20., 0.1), v3(0., -0.125, 0.)),
        _ => Ray::new(v3(0.1, 0.3, -20.), v3(0., 0., 8.)),
    };
    // + 100: also behind the origin
    let lo = if sh < 100 { 0.001 } else { r(-100000., 5.) };
    // an interval that starts at the origin of the ray may start at the boundary of a box
    assume(lo < hi && (lo >= 1e-6 || lo <= -1e-6));
    same(hs, &ray, Interval::new(lo, hi));
}
/// No object of a long list is lost. shard = n + 10000 * arrangement
pub fn c01_large(sh: u64) {
    let n = (sh % 10000) as usize;
    let at = |i: usize| match sh / 10000 {
        // a grid, a grid with one object far away, ever wider gaps, one column
        0 => ((i % 20) as f64 * 3., 0.25 * (i % 7) as f64, (i / 20) as f64 * 3.),
        1 => if i == n / 3 { (1e6, 7., -2e5) } else { ((i % 16) as f64 * 1.5, 0., (i / 16) as f64 * 1.5) },
        4 => if i == n / 3 { (-1e6, 7., 2e5) } else { (0., (i % 12) as f64 * 1.5, (i / 12) as f64 * 1.5) },
        2 => { let mut x = 0.; for k in 0..i { x += 2. + (k * k) as f64 } (x, 0., 0.) }
        _ => (0., 0.5 * i as f64, 0.),
    };
    let hs: Vec<Hittables> = (0..n).map(|k| {
        // not in the order of their places
        let i = (k * 7 + 3) % n;
        let p = at(i);
        Quad::new(v3(p.0, p.1, p.2), v3(1., 0., 0.), v3(0., 0., 1.), tag(i), &NopTransformer())
    }).collect();
    let b = Bvh::new(hs);
    let f = r(0.001, 0.999);
    for i in (0..n).step_by(1 + n / 150) {
        let p = at(i);
        // some of them at every place
        let dx = if i % 16 == 5 { f } else { 0.5 };
        match b.hit(&Ray::new(v3(p.0 + dx, p.1 + 0.375, p.2 + 0.25), v3(0., -0.5, 0.)), &Interval::new(0.001, 1e9)) {
            Some(h) => near(h.ray_length, 0.75, 1e-9, 1),
            None => check(false, 2),
        }
    }
}
/// many objects, always three of them with the same centre, which reach out in different directions
pub fn c01_concentric(sh: u64) {
    let n = sh as usize;
    let at = |i: usize| { let g = i / 3; (g as f64 * 6. - 100., 2. * (g % 5) as f64, 6. * (g * 5 % 7) as f64) };
    let hs: Vec<Hittables> = (0..n).map(|k| {
        let i = (k * 7 + 3) % n;
        let p = at(i);
        let (u, v) = match i % 3 { 0 => (v3(4., 0., 0.), v3(0., 0., 0.5)), 1 => (v3(0.5, 0., 0.), v3(0., 0., 4.)), _ => (v3(3., 0., 3.), v3(-0.25, 0., 0.25)) };
        let q = sub(v3(p.0, p.1, p.2), mul(add(u, v), 0.5));
        Quad::new(q, u, v, tag(i), &NopTransformer())
    }).collect();
    let b = Bvh::new(hs);
    let f = r(1.5, 1.9);
    for i in 0..n {
        let p = at(i);
        // the end that only this one reaches; some of them at every place
        let e = if i % 16 == 5 { f } else { 1.7 };
        let (x, z) = match i % 3 { 0 => (e, 0.), 1 => (0., e), _ => (-0.75 * e, -0.75 * e) };
        match b.hit(&Ray::new(v3(p.0 + x, p.1 + 0.375, p.2 + z), v3(0., -0.5, 0.)), &Interval::new(0.001, 1e9)) {
            Some(h) => near(h.ray_length, 0.75, 1e-9, 1),
            None => check(false, 2),
        }
    }
}
/// nested and cloned hierarchies, empty hierarchies
pub fn c01_nested(sh: u64) {
    let (a, b) = (r(-1000., 1000.), r(-1000., 1000.));
    let ray = Ray::new(v3(a, b, 10.), v3(-0.25, 0.125, -1.));
    let iv = Interval::new(0.001, f64::INFINITY);
    let (flat, meta) = split(scene(0, 6));
    match sh {
        0 => check(Bvh::new(vec![]).hit(&ray, &iv).is_none(), 5),
        1 => {
            let want = scan(&flat, &ray, iv);
            let mut f = flat.into_iter();
            let inner = Bvh::new(vec![f.next().unwrap(), f.next().unwrap(), f.next().unwrap()]);
            let other = Bvh::new(vec![f.next().unwrap()]);
            let mut rest = vec![inner, Bvh::new(vec![]), other];
            rest.extend(f);
            same_as(&Bvh::new(rest), want, &meta, &ray, iv);
        }
        3 => {
            // one within the other
            let want = scan(&flat, &ray, iv);
            let mut b = Bvh::new(vec![]);
            for (i, h) in flat.into_iter().enumerate() { b = if i % 2 == 0 { Bvh::new(vec![b, h]) } else { Bvh::new(vec![h, Bvh::new(vec![b])]) } }
            same_as(&b, want, &meta, &ray, iv);
        }
        _ => {
            let want = scan(&flat, &ray, iv);
            let bvh = Bvh::new(flat);
            let c = bvh.clone();
            drop(bvh);
            same_as(&c, want, &meta, &ray, iv);
        }
    }
}
