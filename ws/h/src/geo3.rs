use crate::util::*;
use solstrale::geo::vec3::*;
use solstrale::random::*;

fn lim(x: f64, lo: f64, hi: f64) -> f64 { if x < lo { lo } else if x > hi { hi } else { x } }
/// Fog in a ball or a box. shard: 0 ball, 1 box; + 10 where the ray starts: 0 before, 1 within, 2 behind; + 100 symbolic end of the interval
pub fn c24_medium(sh: u64) {
    let k = r(0.001, 1000.);
    let (t1, t2);
    let (o, d, b, perp);
    let pos = sh / 10 % 10;
    let hl = r(0.001, 1000.);
    t1 = match pos { 0 => r(0.001, 1000.), 1 => { let f = r(0.01, 0.9); -2. * hl * f }, _ => { let g = r(0.001, 1000.); -2. * hl - g } };
    t2 = t1 + 2. * hl;
    if sh % 10 == 0 {
        o = sv(-1e5, 1e5);
        d = mul(v3(2. / 3., 1. / 3., 2. / 3.), k);
        perp = mul(v3(-2. / 3., 2. / 3., 1. / 3.), r(0., 1e6));
        let c = add(o, add(mul(d, t1 + hl), perp));
        b = Sphere::new(c, (len2(perp) + hl * hl * k * k).sqrt(), tag(7));
    } else {
        d = v3(k, 0., 0.);
        o = v3(-t1 * k, r(-1., 1.), r(0.5, 2.5));
        b = Bvh::new(Quad::new_box(v3(0., -2., 0.), v3(2. * hl * k, 2., 3.), tag(7), &NopTransformer()));
    }
    let col = sv(0., 1e6);
    let dens = r(0.001, 1000.);
    let m = ConstantMedium::new(b, dens, col);
    let end = if sh >= 100 { r(0.1, 10000.) } else { f64::INFINITY };
    let iv = Interval::new(0.001, end);
    let n = vf::rand_count();
    fastrand::vf_act(Box::new(|i| if i == 0 { fastrand::vf_range(0.001, 0.999) } else { fastrand::vf_range(0.55, 0.75) }));
    let h = m.hit(&Ray::new(o, d), &iv);
    let (a, z) = (lim(t1, 0.001, 1e300), lim(t2, -1e300, end));
    assume((z - a) * (z - a) >= 1e-12);
    if a >= z { check(h.is_none(), 1); return }
    // the first draw decides how far it gets: the chance to pass a distance x is exp(-density * x)
    check(vf::rand_count() > n, 2);
    let x = vf::rand_at(n).ln() / -dens;
    let room = (z - a) * k;
    assume((x - room) * (x - room) >= 1e-12);
    match h {
        None => check(x > room, 3),
        Some(h) => {
            check(x <= room, 4);
            near((h.ray_length - a) * k, x, 1e-6, 5);
            near_v(h.hit_point, add(o, mul(d, h.ray_length)), 1e-6, 6);
            near(len2(h.normal), 1., 1e-6, 7);
            let l = [Sphere::new(add(h.hit_point, v3(0., 9., 0.)), 1., light(2))];
            match h.material.scatter(&Ray::new(o, d), &h, &l) { RayScatter::ScatterPdf(s) => near_v(s.color, col, 0., 8), _ => check(false, 8) }
            check(!h.material.is_light(), 9);
        }
    }
}
/// Nothing to be in: rays that miss, or a boundary that is not closed
pub fn c24_outside(sh: u64) {
    let k = r(0.001, 1000.);
    let iv = Interval::new(0.001, f64::INFINITY);
    if sh == 0 {
        let c = sv(-1e5, 1e5);
        let rad = r(0.001, 1000.);
        let m = ConstantMedium::new(Sphere::new(c, rad, tag(7)), 1., v3(1., 1., 1.));
        let away = r(1.001, 1000.);
        let o = add(c, add(mul(v3(-2. / 3., 2. / 3., 1. / 3.), rad * away), mul(v3(2. / 3., 1. / 3., 2. / 3.), r(-1e5, 1e5))));
        check(m.hit(&Ray::new(o, mul(v3(2. / 3., 1. / 3., 2. / 3.), k)), &iv).is_none(), 1);
    } else {
        let m = ConstantMedium::new(Quad::new(v3(-1., -1., 0.), v3(2., 0., 0.), v3(0., 2., 0.), tag(7), &NopTransformer()), 1., v3(1., 1., 1.));
        check(m.hit(&Ray::new(v3(r(-100., 100.), r(-100., 100.), r(-1000., 1000.)), v3(0.1, 0.2, k)), &iv).is_none(), 2);
    }
    check(vf::rand_count() == 0, 3);
}
fn two_tries(n: u64) { fastrand::vf_act(Box::new(move |i| if i >= 2 * n { fastrand::vf_range(0.3, 0.7) })) }
fn q(i: u64) -> f64 { 2. * vf::rand_at(i) - 1. }
/// is it one of the draws, stretched to (-1,1)
fn among(c: f64, from: u64, to: u64) -> bool { (from..to).any(|i| (c - q(i)) * (c - q(i)) < 1e-18) }
/// Random numbers and vectors. shard: which
pub fn c25_random(sh: u64) {
    match sh {
        0 => {
            let (a, b) = (r(-100., 100.), r(-100., 100.));
            assume(a + 0.01 <= b);
            let x = random_float(a, b);
            check(x >= a && x < b, 1);
            // each place as likely as any other
            near((x - a), vf::rand_at(0) * (b - a), 1e-9, 2);
            let y = random_normal_float();
            check(y >= 0. && y < 1. && vf::rand_count() == 2, 3);
            let v = random_vec3(a, b);
            for c in [v.x, v.y, v.z] { check(c >= a && c < b, 4) }
            check(vf::rand_count() == 5, 5);
        }
        1 => {
            two_tries(3);
            let p = random_in_unit_sphere();
            check(len2(p) < 1., 6);
            let e = vf::rand_count();
            for c in [p.x, p.y, p.z] { check(among(c, e - 3, e), 7) }
            // refused places are those outside the ball
            let mut i = 0;
            while i + 3 < e { check(q(i) * q(i) + q(i + 1) * q(i + 1) + q(i + 2) * q(i + 2) >= 0.999999, 8); i += 3 }
        }
        2 => {
            two_tries(2);
            let p = random_in_unit_disc();
            check(len2(p) < 1. && p.z == 0., 9);
            let e = vf::rand_count();
            for c in [p.x, p.y] { check(among(c, e - 2, e), 10) }
            let mut i = 0;
            while i + 2 < e { check(q(i) * q(i) + q(i + 1) * q(i + 1) >= 0.999999, 11); i += 2 }
        }
        3 => {
            fastrand::vf_act(Box::new(move |i| if i >= 3 { fastrand::vf_range(0.55, 0.75) }));
            let p = random_unit_vector();
            let e = vf::rand_count();
            let s = v3(q(e - 3), q(e - 2), q(e - 1));
            assume(len2(s) >= 1e-6);
            near(len2(p), 1., 1e-9, 12);
            near_v(mul(p, len2(s).sqrt()), s, 1e-9, 13);
        }
        4 => {
            let p = random_cosine_direction();
            near(len2(p), 1., 1e-9, 14);
            check(p.z >= 0. && p.z <= 1., 15);
            check(vf::rand_count() == 2, 16);
            // the square of the cosine is spread evenly, so is the angle
            let (a, b) = (vf::rand_at(0), vf::rand_at(1));
            let c = 1. - p.z * p.z;
            check(c == b || 1. - c == b || c == a || 1. - c == a || (c - b) * (c - b) < 1e-18, 17);
        }
        6 => {
            // many of them
            let i = random_uint32(300);
            check(i < 300 && i as f64 == vf::rand_at(0), 23);
        }
        8 | 9 => {
            // a long row of refused places
            let d = if sh == 8 { 3 } else { 2 };
            let n = 50 * d;
            fastrand::vf_act(Box::new(move |i| if i < n { fastrand::vf_range(0.97, 0.97) } else { fastrand::vf_range(0.3, 0.7) }));
            let p = if sh == 8 { random_in_unit_sphere() } else { random_in_unit_disc() };
            check(vf::rand_count() == d && fastrand::vf_count() == n + d, 25);
            for c in [p.x, p.y, p.z].into_iter().take(d as usize) { check(among(c, 0, d), 26) }
        }
        7 => {
            let l = vec![0u8; 300];
            let j = random_element_index(&l);
            check(j < 300 && j as f64 == vf::rand_at(0), 24);
        }
        _ => {
            let n = vf::int(1, 5) as u32;
            let i = random_uint32(n);
            check(i < n, 18);
            let l: Vec<u8> = (0..n as u8).collect();
            let j = random_element_index(&l);
            check(j < l.len(), 19);
            if n == 3 { if i == j as u32 { check(true, 20 + i) } else { check(true, 30 + 3 * i + j as u32) } }
        }
    }
}
/// The sides of a box, met from inside and outside. shard: side; + 10 corners given in another order
pub fn c26_box(sh: u64) {
    let (a, s) = (sv(-1e5, 1e5), sv(0.1, 1000.));
    let b = add(a, s);
    let (p, q) = match sh / 10 { 0 => (a, b), 1 => (b, a), 2 => (v3(b.x, a.y, b.z), v3(a.x, b.y, a.z)), _ => (v3(a.x, b.y, a.z), v3(b.x, a.y, b.z)) };
    let o = Quad::new_box(p, q, tag(3), &NopTransformer());
    check(o.len() == 6, 1);
    let ax = (sh % 10 / 2) as usize;
    let up = sh % 2 == 1;
    // from inside through a place on that side
    let (f, g) = (r(0.02, 0.98), r(0.02, 0.98));
    let fr = match ax { 0 => v3(if up { 1. } else { 0. }, f, g), 1 => v3(f, if up { 1. } else { 0. }, g), _ => v3(f, g, if up { 1. } else { 0. }) };
    let on = v3(a.x + s.x * fr.x, a.y + s.y * fr.y, a.z + s.z * fr.z);
    let e = if up { 1. } else { -1. };
    let n = match ax { 0 => v3(e, 0., 0.), 1 => v3(0., e, 0.), _ => v3(0., 0., e) };
    let t = r(0.001, 0.09);
    let (from_in, from_out) = (sub(on, mul(n, t)), add(on, mul(n, t)));
    let iv = Interval::new(0.0001, 0.0901);
    let (mut inn, mut out) = (0, 0);
    for h in &o {
        if let Some(h) = h.hit(&Ray::new(from_in, n), &iv) { inn += 1; check(!h.front_face, 2); near(h.ray_length, t, 1e-6, 3); near_v(h.hit_point, on, 1e-6, 4); near_v(h.normal, mul(n, -1.), 1e-6, 5) }
        if let Some(h) = h.hit(&Ray::new(from_out, mul(n, -1.)), &iv) { out += 1; check(h.front_face, 6); near(h.ray_length, t, 1e-6, 7); near_v(h.normal, n, 1e-6, 8) }
    }
    check(inn == 1 && out == 1, 9);
}
/// Laws of vectors. shard: which
pub fn c28_vectors(sh: u64) {
    let m = if sh < 3 { 1e5 } else { 1e4 };
    let (a, b, c) = (sv(-m, m), sv(-m, m), sv(-m, m));
    let k = r(-m, m);
    match sh {
        0 => {
            near_v(a + b, add(a, b), 0., 1);
            near_v(a - b, sub(a, b), 0., 1);
            near_v(a + k, v3(a.x + k, a.y + k, a.z + k), 0., 1);
            near_v(a - k, v3(a.x - k, a.y - k, a.z - k), 0., 1);
            near_v(a * k, mul(a, k), 0., 1);
            let f = vf::f32_(-1000., 1000.);
            near_v(a * f, mul(a, f as f64), 0., 1);
            near_v(a * b, v3(a.x * b.x, a.y * b.y, a.z * b.z), 0., 1);
            near_v(a.neg(), mul(a, -1.), 0., 1);
            let mut d = a;
            d += b;
            near_v(d, add(a, b), 0., 1);
            near(a.dot(b), dot(a, b), 0., 2);
            near_v(a.cross(b), cross(a, b), 0., 3);
            near(a.length_squared(), len2(a), 0., 4);
            near(a.length() * a.length(), len2(a), 1e-6, 4);
            check(a.length() >= 0., 4);
            check(a.axis(0) == a.x && a.axis(1) == a.y && a.axis(2) == a.z, 5);
            check(v3(1., 2., 3.) == Vec3::new(1., 2., 3.), 5);
        }
        1 => {
            assume(len2(a) >= 1e-12 && k * k >= 1e-6 && b.x * b.x >= 1e-3 && b.y * b.y >= 1e-3 && b.z * b.z >= 1e-3);
            let u = a.unit();
            near(len2(u), 1., 1e-9, 6);
            near_v(mul(u, len2(a).sqrt()), a, 1e-6, 6);
            near_v(mul(a / k, k), a, 1e-6, 7);
            let d = a / b;
            near_v(v3(d.x * b.x, d.y * b.y, d.z * b.z), a, 1e-6, 7);
            // mirrored at a plane: the part along the normal is turned round
            let m = a.reflect(u);
            near_v(m, mul(a, -1.), 1e-6, 8);
            let n = mul(v3(2., 1., 2.), 1. / 3.);
            let w = b.reflect(n);
            near(dot(w, n), -dot(b, n), 1e-6, 8);
            near_v(sub(w, mul(n, dot(w, n))), sub(b, mul(n, dot(b, n))), 1e-6, 8);
        }
        2 => {
            let t = 1e-8;
            let e = v3(r(-1000., 1000.), r(-1000., 1000.), r(-1000., 1000.));
            let m = |x: f64| if x < 0. { -x } else { x };
            let s = m(e.x) < t && m(e.y) < t && m(e.z) < t;
            check(e.near_zero() == s, 9);
        }
        9 => {
            // any two lines
            let (d1, d2) = (c, sv(-m, m));
            let (r1, r2) = (Ray::new(a, d1), Ray::new(b, d2));
            let n = cross(d1, d2);
            assume(len2(n) > 1e-9);
            let d = r1.shortest_distance(&r2);
            let q = dot(sub(b, a), n);
            check(d >= 0., 11);
            near(d * d * len2(n), q * q, 1e-6, 13);
        }
        5..=8 => {
            // the distance of two lines, with directions of any length and at any angle
            let (f, g, e) = (r(0.001, 1000.), r(0.001, 1000.), r(0.000001, 100.));
            let (u, w) = (v3(2., 1., 2.), v3(1., 2., -2.));
            let (d1, d2) = match sh {
                5 => (mul(u, f), mul(w, g)),
                6 => (mul(u, f), mul(u, -g)),
                7 => (u, add(u, mul(w, e))),
                _ => (mul(v3(1., 2., 2.), f), mul(v3(6., 9., -2.), g)),
            };
            let (r1, r2) = (Ray::new(a, d1), Ray::new(b, d2));
            let d = r1.shortest_distance(&r2);
            check(d >= 0., 11);
            let ab = sub(b, a);
            let (n, l2) = match sh { 5 | 7 => (v3(-2., 2., 1.), 9.), 6 => (cross(ab, u), 9.), _ => { let n = cross(v3(1., 2., 2.), v3(6., 9., -2.)); (n, len2(n)) } };
            if sh == 6 { near(d * d * l2, len2(n), 1e-6, 13) } else { near(d * d * l2, dot(ab, n) * dot(ab, n), 1e-6, 13) }
        }
        _ => {
            // the distance of two lines
            let (r1, r2) = (Ray::new(a, v3(2., 1., 2.)), Ray::new(b, if sh == 3 { v3(1., 0., -1.) } else { v3(-4., -2., -4.) }));
            near_v(r1.at(k), add(a, mul(r1.direction, k)), 1e-9, 10);
            let d = r1.shortest_distance(&r2);
            check(d >= 0., 11);
            near(d, r2.shortest_distance(&r1), 1e-6, 12);
            let n = cross(r1.direction, r2.direction);
            let ab = sub(b, a);
            if sh == 3 { near(d * d * len2(n), dot(ab, n) * dot(ab, n), 1e-6, 13) } else { let x = cross(ab, r1.direction); near(d * d * 9., len2(x), 1e-6, 13) }
            let _ = c;
        }
    }
}
