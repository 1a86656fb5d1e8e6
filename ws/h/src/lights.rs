use crate::util::*;
use solstrale::pdf::{mix_generate, mix_value, ContainerPdf, CosinePdf, Pdf, SpherePdf};
use std::f64::consts::PI;

fn flat(sh: u64) -> (Hittables, Vec3, Vec3, Vec3, Vec3) {
    let q = sv(-1e5, 1e5);
    let u = sv(-100., 100.);
    let v = sv(-100., 100.);
    let n = cross(u, v);
    assume(len2(n) >= 0.01);
    let h = if sh == 0 { Quad::new(q, u, v, light(1), &NopTransformer()) } else { Triangle::new(q, add(q, u), add(q, v), light(1), &NopTransformer()) };
    (h, q, u, v, n)
}
/// density of the directions towards a quad (shard 0) or triangle (1), seen from any point
pub fn c07_flat_value(sh: u64) {
    let (h, q, u, v, n) = flat(sh % 2);
    // any direction is a combination of the sides and the normal; shards 2 and 3: from behind
    let g = r(0.01, 2.);
    let g = if sh < 2 { -g } else { g };
    let sh = sh % 2;
    let d = add(add(mul(u, r(-2., 2.)), mul(v, r(-2., 2.))), mul(n, g));
    let dn = dot(n, d);
    assume(len2(d) >= 0.0001);
    let (a, b, t) = (r(-100., 100.), r(-100., 100.), r(-1000., 1e6));
    let o = sub(add(q, add(mul(u, a), mul(v, b))), mul(d, t));
    let m = 1e-6;
    let far = if sh == 0 { a <= 1. - m && b <= 1. - m } else { a + b <= 1. - m };
    let outf = if sh == 0 { a >= 1. + m || b >= 1. + m } else { a + b >= 1. + m };
    let inside = a >= m && b >= m && far && t >= 0.001 + m;
    let outside = a <= -m || b <= -m || outf || t <= 0.001 - m;
    assume(inside || outside);
    let p = h.pdf_value(o, d);
    if outside { near(p, 0., 0., 1); return; }
    // p = distance^2 / (cosine * area), with area = |n| (halved for the triangle), cosine = |d.n|/(|d||n|)
    let l = len2(d).sqrt();
    let half = if sh == 0 { 1. } else { 0.5 };
    let adn = if dn < 0. { -dn } else { dn };
    near(p * adn * half, t * t * len2(d) * l, 1e-6, 2);
}
/// the same for lights of given shape, met at every angle, grazing ones included, from any distance. shard: 0 quad, 1 triangle; + 2 from behind, + 4 slanted
pub fn c07_flat_graze(sh: u64) {
    let tri = sh % 2 == 1;
    let s = if sh / 2 % 2 == 1 { 1. } else { -1. };
    let (u, v, n, l) = if sh < 4 { (v3(2., 0., 0.), v3(0., 3., 0.), v3(0., 0., 6.), 6.) } else { (v3(2., 1., 2.), v3(1., 2., -2.), v3(-6., 6., 3.), 9.) };
    let q = v3(1., -2., 0.5);
    let h = if tri { Triangle::new(q, add(q, u), add(q, v), light(1), &NopTransformer()) } else { Quad::new(q, u, v, light(1), &NopTransformer()) };
    let g = r(0.0001, 100.);
    let k = r(0.01, 100.);
    let d = mul(add(mul(u, 0.25), mul(n, s * g)), k);
    let t = r(0.01, 1000.);
    let o = sub(add(q, add(mul(u, 0.25), mul(v, 0.5))), mul(d, t));
    let p = h.pdf_value(o, d);
    let l2 = len2(d);
    let half = if tri { 0.5 } else { 1. };
    // distance^2 / (cosine * area)
    near(p * g * k * l * l * half, t * t * l2 * l2.sqrt(), 1e-6, 1);
}
/// the directions handed out lead to points of the light, uniformly distributed. shard: 0 quad, 1 triangle,
/// 2 triangle with draws of the half of the parallelogram that is not the triangle: a known finding, which shard 1 leaves out
pub fn c07_flat_direction(sh: u64) {
    let (h, q, u, v, n) = flat(sh.min(1));
    let o = sv(-1e5, 1e5);
    let k = vf::rand_count();
    let d = h.random_direction(o);
    assume(vf::rand_count() == k + 2);
    let (r1, r2) = (vf::rand_at(k), vf::rand_at(k + 1));
    // plane coordinates of the point
    let p = sub(add(o, d), q);
    let n2 = len2(n);
    let a = dot(cross(p, v), n) / n2;
    let b = dot(cross(u, p), n) / n2;
    near(dot(p, n), 0., 1e-6, 1);
    let m = 1e-9;
    check(a >= -m && b >= -m, 2);
    let beyond = r1 + r2 > 1.;
    if sh == 2 { assume(beyond); check(a + b <= 1. + m, 5); return }
    check(if sh == 0 || beyond { a <= 1. + m && b <= 1. + m } else { a + b <= 1. + m }, 3);
    let e = |x: f64, y: f64| x - y < 1e-9 && y - x < 1e-9;
    let is = |x: f64, y: f64| (e(a, x) && e(b, y)) || (e(a, y) && e(b, x));
    if sh == 0 {
        // the unit square, up to symmetry
        check(is(r1, r2) || is(1. - r1, r2) || is(r1, 1. - r2) || is(1. - r1, 1. - r2), 4);
    } else {
        // the unit square folded onto, or squeezed into, the half of it that is the triangle
        let c = 1. - a - b;
        let any = |x: f64, y: f64| { let is = |p: f64, q: f64| (e(p, x) && e(q, y)) || (e(p, y) && e(q, x)); is(a, b) || is(b, c) || is(a, c) };
        let ok = if !beyond { any(r1, r2) } else { any(1. - r1, 1. - r2) || is(r1, r2) };
        check(ok || any(1. - r1.sqrt(), r2 * r1.sqrt()) || any(1. - r2.sqrt(), r1 * r2.sqrt()), 4);
    }
}
/// density of the directions towards a sphere seen from outside; shard 0: inside the cone, 1: outside of it
pub fn c07_sphere_value(sh: u64) {
    let c = sv(-1e5, 1e5);
    let d = sv(-100., 100.);
    let l2 = len2(d);
    assume(l2 >= 0.01);
    let m = 1e-6;
    if sh == 0 {
        // the ray enters the sphere at e, after t
        let e = sv(-100., 100.);
        assume(len2(e) >= 0.0001);
        let rad = len2(e).sqrt();
        assume(dot(e, d) <= -0.0001);
        let t = r(0.002, 1e6);
        let o = sub(add(c, e), mul(d, t));
        let d2 = len2(sub(c, o));
        assume(d2 >= len2(e) + 0.0001 && t * l2 >= 0.00001);
        let p = Sphere::new(c, rad, light(1)).pdf_value(o, d);
        let cos_max = (1. - rad * rad / d2).sqrt();
        near(p * (2. * PI * (1. - cos_max)), 1., 1e-9, 1);
    } else {
        let rad = r(0.001, 1000.);
        let w = cross(sv(-1000., 1000.), d);
        let t = r(-1e5, 1e5);
        let o = sub(add(c, w), mul(d, t));
        assume(len2(w) >= rad * rad + m);
        near(Sphere::new(c, rad, light(1)).pdf_value(o, d), 0., 0., 2);
    }
}
pub fn c07_sphere_direction(_: u64) {
    let rad = r(0.001, 1000.);
    let o = sv(-1e5, 1e5);
    let w = sv(-1000., 1000.);
    let s = Sphere::new(add(o, w), rad, light(1));
    let d2 = len2(w);
    assume(d2 >= rad * rad + 0.01);
    let k = vf::rand_count();
    let d = s.random_direction(o);
    assume(vf::rand_count() == k + 2);
    let (r1, r2) = (vf::rand_at(k), vf::rand_at(k + 1));
    near(len2(d), 1., 1e-6, 1);
    let cos_max = (1. - rad * rad / d2).sqrt();
    let cos = dot(d, w) / d2.sqrt();
    check(cos >= cos_max - 1e-9, 2);
    // uniform in the cone: the cosine is uniform
    let z = (1. - cos) / (1. - cos_max);
    let e = |x: f64| z - x < 1e-6 && x - z < 1e-6;
    check(e(r1) || e(r2) || e(1. - r1) || e(1. - r2), 3);
}
/// average over the lights, each picked with equal chance
pub fn c07_container(sh: u64) {
    let n = sh as usize + 1;
    let mut ls = vec![];
    for i in 0..n {
        let x = i as f64;
        ls.push(match i % 3 {
            0 => Quad::new(v3(-1. - x, 3., -1.), v3(2., 0., 0.), v3(0., 0.5, 2.), light(i), &NopTransformer()),
            1 => Sphere::new(v3(x, 4., 1.), 1., light(i)),
            _ => Triangle::new(v3(-2., 5., -2.), v3(2., 5., -2.), v3(x, 5.5, 3.), light(i), &NopTransformer()),
        });
    }
    let o = v3(r(-1., 1.), 0.25, r(-1., 1.));
    let k = vf::rand_count();
    {
        let c = ContainerPdf::new(&ls, o);
        let d = v3(0.125, 1., 0.25);
        let mut s = 0.;
        for l in &ls { s += l.pdf_value(o, d) }
        near(c.value(d), s / n as f64, 1e-9, 1);
        assume(vf::rand_count() == k);
    }
    let c = ContainerPdf::new(&ls, o);
    let d = c.generate();
    let i = vf::rand_at(k) as usize;
    check(i < n, 2);
    // replay the choice: the direction leads to the chosen light
    let p = add(o, d);
    match i % 3 {
        0 => { check(p.x >= -1.001 - i as f64 && p.x <= 1.001 - i as f64 && p.z >= -1.001 && p.z <= 1.001 && p.y >= 2.999 && p.y <= 3.501, 3) }
        1 => { near(len2(d), 1., 1e-9, 4) }
        _ => { check(p.y >= 4.999 && p.y <= 5.501, 5) }
    }
}
/// Each light of a group has its share of the draws. shard: how many
pub fn c07_share(sh: u64) {
    let n = sh as usize;
    let ls: Vec<Hittables> = (0..n).map(|i| {
        let x = 10. * i as f64;
        match i % 2 {
            0 => Quad::new(v3(x, 5., 0.), v3(2., 0., 0.), v3(0., 0., 2.), light(i), &NopTransformer()),
            _ => Triangle::new(v3(x, 5., 0.), v3(x + 2., 5., 0.), v3(x, 5., 2.), light(i), &NopTransformer()),
        }
    }).collect();
    let o = v3(r(-1000., 1000.), 0., r(-1000., 1000.));
    let mut aimed = vec![0; n];
    for k in 0..n {
        fastrand::vf_all((k as f64 + 0.5) / n as f64);
        let d = ContainerPdf::new(&ls, o).generate();
        let x = o.x + d.x * (5. / d.y);
        for i in 0..n { let at = x - 10. * i as f64; if at > -0.001 && at < 2.001 { aimed[i] += 1 } }
    }
    for i in 0..n { check(aimed[i] == 1, 1) }
}
/// shard 0: cosine density, 1: uniform density, 2: mixtures
pub fn c08_pdfs(sh: u64) {
    let w = sv(-1000., 1000.);
    assume(len2(w) >= 0.01);
    let d = sv(-1000., 1000.);
    assume(len2(d) >= 0.01);
    match sh {
        0 => {
            let p = CosinePdf::new(w);
            let x = p.value(d);
            let wd = dot(w, d);
            if wd <= 0. { near(x, 0., 0., 1) } else { near(x * PI * len2(w).sqrt() * len2(d).sqrt(), wd, 1e-6, 2) }
            let k = vf::rand_count();
            let g = p.generate();
            assume(vf::rand_count() == k + 2);
            near(len2(g), 1., 1e-6, 3);
            // the squared cosine is uniform
            let cw = dot(g, w);
            check(cw >= 0., 4);
            let z = cw * cw / len2(w);
            let (r1, r2) = (vf::rand_at(k), vf::rand_at(k + 1));
            let e = |x: f64| z - x < 1e-6 && x - z < 1e-6;
            check(e(r1) || e(r2) || e(1. - r1) || e(1. - r2), 5);
        }
        1 => {
            let p = SpherePdf::new();
            near(p.value(d), 1. / (4. * PI), 1e-12, 6);
            let k = vf::rand_count();
            let g = p.generate();
            // not the zero vector, which has no direction
            let z = |i: u64| { let x = vf::rand_at(i) - 0.5; x * x };
            let n = vf::rand_count();
            assume(n >= k + 3 && z(n - 1) + z(n - 2) + z(n - 3) > 1e-12);
            near(len2(g), 1., 1e-9, 7);
        }
        _ => {
            let (a, b) = (CosinePdf::new(w), SpherePdf::new());
            near(mix_value(&a, &b, d), 0.5 * a.value(d) + 0.5 * b.value(d), 1e-9, 8);
            let k = vf::rand_count();
            let g = mix_generate(&a, &b);
            let r0 = vf::rand_at(k);
            let n = vf::rand_count();
            // the uniform generator draws three numbers at a time, the cosine one two
            if n == k + 3 { check(r0 <= 0.5, 9); check(dot(g, w) >= 0., 10) } else { check(r0 >= 0.5, 11) }
        }
    }
}
