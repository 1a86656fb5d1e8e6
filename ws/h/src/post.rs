use crate::util::*;
use crate::render::{q, scene};
use solstrale::post::*;
use solstrale::ray_trace;
use solstrale::renderer::shader::*;
use solstrale::renderer::*;
use solstrale::util::rgb_color::to_rgb_color;
use std::sync::mpsc::channel;

/// Lights found in worlds of any nesting. shard: arrangement
pub fn c16_lights(sh: u64) {
    let n = 4;
    let mut lit = [false; 4];
    let mut at = [0f64; 4];
    let mut obs = vec![];
    for i in 0..n {
        lit[i] = vf::boolean();
        // told apart by y, anywhere else otherwise
        at[i] = 20. * i as f64;
        let m = if lit[i] { DiffuseLight::new(r(0., 1e6), 1., 1., if vf::boolean() { Some(1.) } else { None }) } else { tag(i) };
        let (x, z) = if i == 2 { (r(-1000000., 1000000.), r(-1000000., 1000000.)) } else { (7. * i as f64, 1.) };
        let y = at[i];
        obs.push(match (i as u64 + sh) % 3 {
            0 => Sphere::new(v3(x, y, z), 1., m),
            1 => Quad::new(v3(x, y - 1., z), v3(2., 0., 0.), v3(0., 2., 0.), m, &NopTransformer()),
            _ => Triangle::new(v3(x - 1., y - 1., z), v3(x + 1., y - 1., z), v3(x - 1., y + 1., z), m, &NopTransformer()),
        });
    }
    let boxes: Vec<Aabb> = obs.iter().map(|o| o.bounding_box().clone()).collect();
    let mut o = obs.into_iter();
    let mut nx = || o.next().unwrap();
    let w = match sh {
        0 => vec![nx(), nx(), nx(), nx()],
        1 => vec![Bvh::new(vec![nx(), nx()]), nx(), nx()],
        2 => vec![Bvh::new(vec![Bvh::new(vec![nx()]), Bvh::new(vec![nx(), nx()])]), nx()],
        3 => vec![Bvh::new(vec![nx(), nx(), nx(), nx()])],
        6 => vec![Bvh::new(vec![Bvh::new(vec![Bvh::new(vec![Bvh::new(vec![Bvh::new(vec![Bvh::new(vec![nx(), nx()]), tag_at(1)]), tag_at(2)]), tag_at(3)]), nx()]), tag_at(4)]), nx()],
        4 => vec![nx(), ConstantMedium::new(Sphere::new(v3(1., 2., 3.), 2., tag(3)), 0.5, v3(1., 1., 1.)), nx(), Bvh::new(vec![nx(), nx()])],
        _ => { let c = Bvh::new(vec![nx(), nx(), nx(), nx()]); vec![c.clone()] }
    };
    let s = scene(w, v3(0., 0., 0.), SimpleShader::new());
    let count = lit.iter().filter(|l| **l).count();
    let found = match Renderer::new(s) { Ok(r) => { check(count > 0, 1); r.lights.clone() }, Err(_) => { check(count == 0, 2); return } };
    check(found.len() == count, 3);
    for i in 0..n {
        let mut k = 0;
        for f in &found { let c = f.bounding_box().center(); if c.y > at[i] - 9. && c.y < at[i] + 9. {
            k += 1;
            near(c.y, at[i], 1e-3, 4);
            // its place and size
            let b = f.bounding_box();
            for (x, y) in [(b.x, boxes[i].x), (b.y, boxes[i].y), (b.z, boxes[i].z)] { near(x.min, y.min, 1e-9, 4); near(x.max, y.max, 1e-9, 4) }
        } }
        check(k == if lit[i] { 1 } else { 0 }, 5);
    }
}
fn tag_at(k: usize) -> Hittables { Sphere::new(v3(50., -20. * k as f64, 0.), 1., tag(k)) }
/// Many lights. shard: their number
pub fn c16_many(sh: u64) {
    let n = sh as usize;
    let z = r(-1000., 1000.);
    let at = |i: usize| if i == 7 { 4. } else if i == 8 { 3. } else { i as f64 };
    let mut w = vec![];
    let mut inner = vec![];
    for i in 0..n {
        let l = Sphere::new(v3(3. * (at(i) as usize % 7) as f64, 20. * at(i), if i == 2 { z } else { 0. }), 1., light(i));
        if i % 3 == 0 { inner.push(l) } else { w.push(l) }
        if i % 4 == 0 { w.push(tag_at(i + 1)) }
    }
    w.push(Bvh::new(inner));
    let found = match Renderer::new(scene(w, v3(0., 0., 0.), SimpleShader::new())) { Ok(r) => r.lights.clone(), Err(_) => { check(false, 1); return } };
    check(found.len() == n, 2);
    let mut seen = vec![0; n];
    // two of them at the same place
    for f in &found { seen[(f.bounding_box().center().y / 20. + 0.5) as usize] += 1 }
    for (i, k) in seen.into_iter().enumerate() { check(k == match i { 3 | 4 => 2, 7 | 8 => 0, _ => 1 }, 3) }
}
/// a colour of average length l
fn unit3(k: usize) -> Vec3 { [v3(2. / 3., 1. / 3., 2. / 3.), v3(0.6, 0., 0.8), v3(1. / 9., 4. / 9., 8. / 9.)][k % 3] }
fn dims(k: u64) -> (usize, usize) { [(4, 1), (2, 2), (5, 1), (2, 3), (3, 3), (6, 2), (4, 3), (12, 1), (1, 12), (7, 6)][k as usize] }
/// the bloom of the given sums, computed term by term
fn bloom(px: &[Vec3], w: usize, h: usize, radius: i64, th: f64, max: f64, len: &[f64]) -> Vec<Vec3> {
    let k = 2 * radius + 1;
    let sd = k as f64 / 5.;
    let g = |i: i64| { let a = i as f64 / sd; (-0.5 * a * a).exp() };
    let total: f64 = (-radius..=radius).map(g).sum();
    let mut bright = vec![];
    for (p, l) in px.iter().zip(len) { bright.push(if *l >= th { if *l > max { mul(*p, max / *l) } else { *p } } else { v3(0., 0., 0.) }) }
    let mut out = vec![];
    for y in 0..h as i64 { for x in 0..w as i64 {
        let mut c = px[(y * w as i64 + x) as usize];
        for j in -radius..=radius { for i in -radius..=radius {
            let xx = (x + i).clamp(0, w as i64 - 1);
            let yy = (y + j).clamp(0, h as i64 - 1);
            c = add(c, mul(bright[(yy * w as i64 + xx) as usize], g(i) * g(j) / total / total));
        } }
        out.push(c);
    } }
    out
}
/// Bloom of an image. shard: dimensions, + 10 without threshold, + 20 without maximum, + 40 the final image
pub fn c17_bloom(sh: u64) {
    let (w, h) = dims(sh % 10);
    let n = vf::int(1, 100000) as u32;
    let fr = if sh % 10 >= 7 { 0.25 } else { r(0., 0.5) };
    let th = if sh / 10 % 2 == 1 { None } else { Some(r(0., 100.)) };
    let max = if sh / 20 % 2 == 1 { None } else { Some(r(0.001, 100.)) };
    let b = match BloomPostProcessor::new(fr, th, max) { Ok(b) => b, Err(_) => { check(false, 1); return } };
    let mut px = vec![];
    let mut len = vec![];
    for i in 0..w * h {
        // two of the pixels are arbitrary
        let l = if i == 0 || i == w * h / 2 { r(0., 1e6) } else { [0., 1.5, 6.][i % 3] };
        let u = unit3(i);
        px.push(mul(u, l * n as f64));
        len.push(l * n as f64);
    }
    // the radius, a fraction of the width
    let mut radius = 0;
    while (radius + 1) as f64 <= fr * w as f64 { radius += 1 }
    let want = bloom(&px, w, h, radius, th.unwrap_or(3f64.sqrt()) * n as f64, max.unwrap_or(1e300) * n as f64, &len);
    let none = vec![v3(0., 0., 0.); w * h];
    // a smaller image before
    if sh % 10 >= 7 {
        let small = vec![v3(1., 2., 3.); 4];
        if let Ok(o) = BloomPostProcessor::new(0.5, Some(0.1), None) { check(o.intermediate_post_process(&small, &small, &small, 2, 2, 1).is_ok(), 2) }
    }
    if sh >= 40 {
        let im = match b.post_process(&px, &none, &none, w as u32, h as u32, n) { Ok(i) => i, Err(_) => { check(false, 2); return } };
        let got = match b.intermediate_post_process(&px, &none, &none, w as u32, h as u32, n) { Ok(i) => i, Err(_) => { check(false, 2); return } };
        check(im.width() == w as u32 && im.height() == h as u32, 3);
        for y in 0..h { for x in 0..w { check(*im.get_pixel(x as u32, y as u32) == to_rgb_color(got[y * w + x], n), 4) } }
    } else {
        let got = match b.intermediate_post_process(&px, &none, &none, w as u32, h as u32, n) { Ok(i) => i, Err(_) => { check(false, 2); return } };
        check(got.len() == w * h, 5);
        for (g, x) in got.iter().zip(&want) { near_v(mul(*g, 1. / n as f64), mul(*x, 1. / n as f64), 1e-6, 6) }
    }
}
/// A wide kernel: one bright pixel in a long row. shard: where it is
pub fn c17_wide(sh: u64) {
    let w = 280usize;
    let at = [100, 40, 250][sh as usize];
    let n = vf::int(1, 100000) as u32;
    let l = r(10., 1000.);
    let c = mul(unit3(1), l * n as f64);
    let px: Vec<Vec3> = (0..w).map(|x| if x == at { c } else { v3(0., 0., 0.) }).collect();
    let none = vec![v3(0., 0., 0.); w];
    let b = match BloomPostProcessor::new(0.25, Some(5.), None) { Ok(b) => b, Err(_) => { check(false, 1); return } };
    let got = match b.intermediate_post_process(&px, &none, &none, w as u32, 1, n) { Ok(i) => i, Err(_) => { check(false, 2); return } };
    let sd = 141. / 5.;
    let g = |d: f64| (-0.5 * (d / sd) * (d / sd)).exp();
    let mut sum = 0.;
    for d in -70..=70 { sum += g(d as f64) }
    for x in 0..w {
        let d = x as f64 - at as f64;
        // what spreads beyond the end of the row does not come back
        let s = if d >= -70. && d <= 70. { g(d) / sum } else { 0. };
        near_v(mul(got[x], 1. / n as f64), mul(c, (s + if x == at { 1. } else { 0. }) / n as f64), 1e-6, 3);
    }
}
/// Which radii are accepted
pub fn c17_args(_: u64) {
    let fr = r(-1000000., 1000000.);
    check(BloomPostProcessor::new(fr, None, None).is_ok() == (fr >= 0. && fr <= 0.5), 1);
    check(BloomPostProcessor::new(f64::NAN, None, None).is_err(), 2);
    check(!BloomPostProcessor::new(0.25, None, None).unwrap().needs_albedo_and_normal_colors(), 3);
}

/// a wall of one light per pixel, seen by a camera looking along one of the axes
fn wall(w: usize, h: usize, dir: Vec3, cols: &[Option<Vec3>], mat: &dyn Fn(Vec3, usize) -> Materials) -> (Vec<Hittables>, solstrale::camera::CameraConfig) {
    let up = v3(0., 1., 0.);
    let back = mul(dir, -1.);
    let right = cross(up, back);
    let a = w as f64 / h as f64;
    let (dx, dy) = (2. * a / (w - 1) as f64, 2. / (h - 1) as f64);
    let mut world = vec![];
    for i in 0..w * h {
        let (x, y) = (i % w, h - 1 - i / w);
        if let Some(c) = cols[i] {
            let o = add(dir, add(mul(right, -a + dx * x as f64), mul(up, -1. + dy * y as f64)));
            world.push(q(o, mul(right, dx), mul(up, dy), mat(c, i)));
        }
    }
    (world, solstrale::camera::CameraConfig { vertical_fov_degrees: 90., aperture_size: 0., look_from: v3(0., 0., 0.), look_at: dir, up })
}
/// The post processors are applied one after the other, to the sums of the samples so far.
/// shard: list of processors, + 10 * samples
pub fn c18_chain(sh: u64) {
    let (w, h) = (2, 2);
    let n = sh / 10;
    let bg = mul(unit3(1), r(0., 100.));
    let mut cols = vec![];
    for i in 0..4 { cols.push(if i == 2 { None } else if i == 0 { Some(mul(unit3(i), r(0., 1e6))) } else { Some(mul(unit3(i), 2.)) }) }
    let (world, cam) = wall(w, h, v3(0., 0., -1.), &cols, &|c, _| DiffuseLight::new(c.x, c.y, c.z, None));
    let bloom = |f: f64, m: Option<f64>| BloomPostProcessor::new(f, Some(r(0., 100.)), m).unwrap();
    let nop = NopPostProcessor::new;
    let ps = match sh % 10 {
        0 => vec![bloom(0.5, None), nop()],
        1 => vec![nop(), bloom(0.5, None)],
        2 => vec![bloom(0., Some(1.)), bloom(0., None)],
        3 => vec![nop(), nop(), bloom(0., None)],
        4 => vec![bloom(0., None), nop(), bloom(0.5, Some(5.))],
        5 => vec![OidnPostProcessor::new(), nop()],
        7 => vec![nop(), nop(), bloom(0., None), nop(), nop(), nop(), nop(), bloom(0., None), nop()],
        _ => vec![],
    };
    let mut s = scene(world, bg, SimpleShader::new());
    s.camera = cam;
    s.render_config.samples_per_pixel = n as u32;
    s.render_config.post_processors = ps.clone();
    s.render_config.render_image_strategy = RenderImageStrategy::EverySample;
    let (tx, rx) = channel();
    let (_atx, arx) = channel::<bool>();
    fastrand::vf_range(0.3, 0.3);
    check(ray_trace(s, &tx, &arx).is_ok(), 1);
    drop(tx);
    let mut k = 0;
    for m in rx.iter() {
        k += 1;
        let mut px: Vec<Vec3> = cols.iter().map(|c| mul(c.unwrap_or(bg), k as f64)).collect();
        let none = vec![v3(0., 0., 0.); 4];
        let want = match ps.split_last() {
            None => NopPostProcessor::new().post_process(&px, &none, &none, 2, 2, k).unwrap(),
            Some((last, first)) => {
                for p in first { px = p.intermediate_post_process(&px, &none, &none, 2, 2, k).unwrap() }
                last.post_process(&px, &none, &none, 2, 2, k).unwrap()
            }
        };
        match m.render_image { Some(im) => for y in 0..2 { for x in 0..2 { check(im.get_pixel(x, y) == want.get_pixel(x, y), 2) } }, None => check(false, 3) }
    }
    check(k as u64 == n, 4);
}
/// Nothing in the image is processed without a processor, and the one that does nothing does nothing
pub fn c18_nop(_: u64) {
    let px: Vec<Vec3> = (0..6).map(|_| sv(0., 1000000.)).collect();
    let none = vec![];
    let n = vf::int(1, 1000000) as u32;
    let p = NopPostProcessor::new();
    let got = p.intermediate_post_process(&px, &none, &none, 3, 2, n).unwrap();
    check(got.len() == 6, 1);
    for (g, x) in got.iter().zip(&px) { near_v(*g, *x, 0., 2) }
    let im = p.post_process(&px, &none, &none, 3, 2, n).unwrap();
    check(im.width() == 3 && im.height() == 2, 3);
    for y in 0..2 { for x in 0..3 { check(*im.get_pixel(x, y) == to_rgb_color(px[(y * 3 + x) as usize], n), 4) } }
    check(!p.needs_albedo_and_normal_colors(), 5);
}
/// What the denoiser gets. shard: direction of view, + 10 * samples
#[cfg(feature = "oidn")]
pub fn c18_aux(sh: u64) {
    let (w, h) = (3, 2);
    let n = sh / 10;
    let dir = [v3(0., 0., -1.), v3(0., 0., 1.), v3(1., 0., 0.), v3(-1., 0., 0.)][sh as usize % 4];
    let bg = sv(0., 0.9);
    let mut cols = vec![];
    for i in 0..w * h { cols.push(if i == 4 { None } else { Some(v3(r(0., 0.9), 0.25, r(0., 0.9))) }) }
    let (mut world, cam) = wall(w, h, dir, &cols, &|c, i| if i == 1 && n == 1 { Lambertian::new(SolidColor::new(c.x, c.y, c.z), None) } else { DiffuseLight::new(c.x, c.y, c.z, None) });
    // the first hit counts, not what is behind it
    world.push(q(mul(add(dir, v3(-90., -90., -90.)), 1.), v3(0., 0.5, 0.), v3(0.5, 0., 0.5), light(1)));
    let mut s = scene(world, bg, AlbedoShader::new());
    s.camera = cam;
    s.render_config.width = w;
    s.render_config.height = h;
    s.render_config.samples_per_pixel = n as u32;
    s.render_config.post_processors = vec![OidnPostProcessor::new()];
    let (tx, rx) = channel();
    let (_atx, arx) = channel::<bool>();
    fastrand::vf_range(0.3, 0.3);
    oidn::vf_take();
    check(ray_trace(s, &tx, &arx).is_ok(), 1);
    drop(tx);
    check(rx.iter().last().unwrap().render_image.is_some(), 2);
    let rec = oidn::vf_take();
    check(rec.len() == 1 && rec[0].w == w && rec[0].h == h, 3);
    let rec = &rec[0];
    check(rec.albedo.len() == w * h * 3 && rec.normal.len() == w * h * 3 && rec.color.len() == w * h * 3, 4);
    for i in 0..w * h {
        let c = cols[i].unwrap_or(bg);
        let m = if cols[i].is_some() { mul(dir, -1.) } else { v3(0., 0., 0.) };
        for (j, (x, y)) in [(c.x, m.x), (c.y, m.y), (c.z, m.z)].into_iter().enumerate() {
            let (a, b, p) = (rec.albedo[3 * i + j] as f64, rec.normal[3 * i + j] as f64, rec.color[3 * i + j] as f64);
            near(a * a, x, 1e-5, 5);
            check(a >= 0., 6);
            near(p * p, x, 1e-5, 7);
            near(b, y, 1e-5, 8);
        }
    }
}
#[cfg(not(feature = "oidn"))]
pub fn c18_aux(_: u64) {}
