use crate::util::*;
use solstrale::camera::CameraConfig;
use solstrale::renderer::shader::*;
use solstrale::renderer::*;
use solstrale::util::rgb_color::{rgb_to_vec3, to_float, to_rgb_color};

const ALL: Interval = Interval { min: 0.001, max: f64::INFINITY };
pub fn cam() -> CameraConfig { CameraConfig { vertical_fov_degrees: 90., aperture_size: 0., look_from: v3(0., 0., 0.), look_at: v3(0., 0., -1.), up: v3(0., 1., 0.) } }
pub fn scene(world: Vec<Hittables>, bg: Vec3, shader: Shaders) -> Scene {
    Scene { world: Bvh::new(world), camera: cam(), background_color: bg, render_config: RenderConfig { width: 2, height: 2, samples_per_pixel: 1, shader, post_processors: vec![], render_image_strategy: RenderImageStrategy::OnlyFinal } }
}
fn renderer(s: Scene) -> Renderer { match Renderer::new(s) { Ok(r) => r, Err(_) => panic!("no renderer") } }
pub fn q(o: Vec3, u: Vec3, v: Vec3, m: Materials) -> Hittables { Quad::new(o, u, v, m, &NopTransformer()) }

/// A ray bounced n times between two mirrors reaches a light (shard n) or the background (shard 100 + n)
pub fn c12_mirrors(sh: u64) {
    let n = (sh % 100) as usize;
    let to_light = sh < 100;
    // the colours of three mirrors are arbitrary
    let c: Vec<Vec3> = (0..n).map(|i| if i < 2 || i + 1 == n { sv(0., 1.) } else { v3(0.5, 1., 0.75) }).collect();
    let e = sv(0., 1e6);
    let half = r(0.001, 100000.);
    let att = vf::boolean();
    let b = sv(0., 1e6);
    let lm = DiffuseLight::new(e.x, e.y, e.z, if att { Some(half) } else { None });
    let mut w = vec![];
    for i in 0..n {
        // mirrors at z = 0 and z = 2, alternating, met at x = 1, 3, 5
        let x = 1. + 2. * i as f64;
        let z = if i % 2 == 0 { 0. } else { 2. };
        w.push(q(v3(x - 0.5, -1., z), v3(1., 0., 0.), v3(0., 2., 0.), Metal::new(SolidColor::new(c[i].x, c[i].y, c[i].z), None, 0.)));
    }
    // leaves the last mirror at x = 2n - 1
    let x = 2. * n as f64 - 0.5;
    let light_at = if to_light { v3(x, -3., -3.) } else { v3(-9., -3., -3.) };
    w.push(q(light_at, v3(0., 0., 6.), v3(0., 6., 0.), lm));
    // many bounces: limits around their number, besides a large one
    let many = n > 4;
    let max = if vf::boolean() { vf::int(n as i64 + 3, u32::MAX as i64) as u32 } else { vf::u(if many { n - 1 } else { 0 }, n + 2) as u32 };
    let depth = vf::u(0, 1) as u32;
    let acc = r(0., 100000.);
    let sh = PathTracingShader::new(max);
    let rd = renderer(scene(w.clone(), b, sh.clone()));
    let (o, d) = if n == 0 { (v3(-1.5, 0., 0.), v3(1., 0., 0.)) } else { (v3(0., 0., 1.), v3(0.5f64.sqrt(), 0., -0.5f64.sqrt())) };
    // the ray direction need not have unit length
    let ray = Ray::new(o, mul(d, if many { 1. } else { r(0.001, 1000.) }));
    let world = Bvh::new(w);
    let rec = match world.hit(&ray, &ALL) { Some(r) => r, None => { check(false, 9); return } };
    // the mirrors are not fuzzy: the draws for the fuzz are multiplied by zero
    fastrand::vf_range(0.55, 0.75);
    let got = sh.shade(&rd, &rec, &ray, depth, acc);
    let img = got.get_attenuated_color();
    let mut want = if to_light { e } else { b };
    for i in 0..n { want = v3(want.x * c[i].x, want.y * c[i].y, want.z * c[i].z); }
    // the light itself is at depth + n, the background is not shaded at all
    let last = depth as usize + n;
    let cut = if to_light { last >= max as usize } else { last > max as usize };
    if cut { near_v(img, v3(0., 0., 0.), 0., 1); return; }
    // distances along the path: sqrt 2 to the first mirror, 2 sqrt 2 between mirrors, and half of sqrt 2 to the light
    let s = 2f64.sqrt();
    let len = acc + if n == 0 { 1. } else { s + 2. * s * (n as f64 - 1.) + 0.5 * s };
    if to_light && att { near_v(mul(img, half + len), mul(want, half), 1e-5, 2) } else { near_v(img, want, 1e-6, 3) }
}
/// One diffuse bounce: weight times incoming light, limited. shard 0, 1: two, one as depth limit; 2: none
pub fn c12_diffuse(sh: u64) {
    // + 10 with an attenuated light, + 20 where one channel of the colour is no number
    let att = sh / 10 == 1;
    let half = if att { r(0.001, 10000.) } else { 1. };
    let acc = if att { r(0., 10000.) } else { 0. };
    let max = if sh >= 20 { 2 } else { 2 - (sh % 10) as u32 };
    let (mut c, e, b) = (sv(0., 10.), sv(0., 1e6), sv(0., 1e6));
    match sh { 20 => c.x = f64::NAN, 21 => c.y = f64::NAN, 22 => c.z = f64::NAN, _ => () }
    let floor = q(v3(-50., 0., 50.), v3(100., 0., 0.), v3(0., 0., -100.), Lambertian::new(SolidColor::new(c.x, c.y, c.z), None));
    let lamp = q(v3(-1., 2., -1.), v3(2., 0., 0.), v3(0., 0., 2.), DiffuseLight::new(e.x, e.y, e.z, if att { Some(half) } else { None }));
    let w = vec![floor, lamp];
    let shd = PathTracingShader::new(max);
    let rd = renderer(scene(w.clone(), b, shd.clone()));
    let world = Bvh::new(w);
    let ray = Ray::new(v3(0.25, 1., 0.125), v3(0., -1., 0.));
    let rec = match world.hit(&ray, &ALL) { Some(r) => r, None => { check(false, 9); return } };
    let k = vf::rand_count();
    // keep away from the horizon, where both densities vanish
    fastrand::vf_range(0., 0.999);
    let s = match rec.material.scatter(&ray, &rec, &rd.lights) { RayScatter::ScatterPdf(s) => s, _ => { check(false, 9); return } };
    let mut len = None;
    let income = match world.hit(&s.ray, &ALL) {
        None => b,
        Some(h) => { if att { len = Some(acc + 1. + h.ray_length * len2(s.ray.direction).sqrt()) } match h.material.scatter(&s.ray, &h, &rd.lights) { RayScatter::ScatterEmission(x) if max >= 2 => x.color, RayScatter::ScatterEmission(_) => v3(0., 0., 0.), _ => { check(false, 9); return } } },
    };
    fastrand::vf_rewind(k);
    let got = shd.shade(&rd, &rec, &ray, 0, acc).get_attenuated_color();
    if max == 0 { near_v(got, v3(0., 0., 0.), 0., 1); return; }
    for (g, c, i) in [(got.x, c.x, income.x), (got.y, c.y, income.y), (got.z, c.z, income.z)] {
        if c.is_nan() { near(g, 0., 0., 3); continue }
        let x = c * s.probability * i;
        check(g <= 3., 2);
        // attenuated by the whole way
        if let (Some(l), true) = (len, max >= 2) {
            let g = g * (half + l);
            if x <= 3. { near(g, x * half, 1e-3, 5) } else { near(g, 3. * half, 1e-3, 6) }
            continue;
        }
        if x <= 3. { near(g, x, 1e-6, 3) } else { near(g, 3., 1e-9, 4) }
    }
}
/// A room of walls of several materials and symbolic colours: the path is followed step by step. shard: the draws
pub fn c12_room(sh: u64) {
    let col = |k: u64| match k { 0 => v3(r(0., 1.), 0.5, 1.), 1 => v3(0.75, r(0., 1.), 0.5), _ => v3(0.5, 0.75, 0.25) };
    let (half, acc) = (r(0.01, 1000.), r(0., 1e6));
    let e = r(0., 100.);
    let b = sv(0., 10.);
    let m = |k: u64| { let c = col(k); SolidColor::new(c.x, c.y, c.z) };
    let mut w = vec![
        q(v3(-4., -4., -4.), v3(8., 0., 0.), v3(0., 8., 0.), Lambertian::new(m(0), None)),
        q(v3(-4., -4., 4.), v3(8., 0., 0.), v3(0., 8., 0.), Metal::new(m(1), None, 0.25)),
        q(v3(-4., -4., -4.), v3(0., 8., 0.), v3(0., 0., 8.), Blend::new(Lambertian::new(m(2), None), Metal::new(m(3), None, 0.), 0.5)),
        q(v3(4., -4., -4.), v3(0., 8., 0.), v3(0., 0., 8.), Lambertian::new(m(4), None)),
        q(v3(-4., -4., -4.), v3(8., 0., 0.), v3(0., 0., 8.), Metal::new(m(5), None, 0.)),
        Sphere::new(v3(1., 0.5, -1.), 1.5, Dielectric::new(m(6), None, 1.5)),
    ];
    // the top is a light, or open
    if sh % 2 == 0 { w.push(q(v3(-4., 4., -4.), v3(8., 0., 0.), v3(0., 0., 8.), DiffuseLight::new(e, 2. * e, 0.5, Some(half)))) }
    w.push(q(v3(2., 9., 2.), v3(1., 0., 0.), v3(0., 0., 1.), DiffuseLight::new(e, 1., 1., None)));
    let max = vf::u(3, 12) as u32;
    let shd = PathTracingShader::new(max);
    let rd = renderer(scene(w.clone(), b, shd.clone()));
    let world = Bvh::new(w);
    let ray = Ray::new(v3(-2., -1., 3.), v3(0.5, 0.25, -0.75));
    // the same draws for both
    let draws = move || {
        let mut x = 1 + 77 * sh;
        fastrand::vf_act(Box::new(move |_| { x = (x * 1103515245 + 12345) % 2147483648; let v = (x / 65536 % 256) as f64 / 256. + 0.001; fastrand::vf_range(v, v) }));
    };
    draws();
    let k = vf::rand_count();
    // the path, step by step
    let mut at = Ray::new(ray.origin, ray.direction);
    let mut len = acc;
    let mut fs = vec![];
    let mut light: Option<Option<f64>> = None;
    let mut end = v3(0., 0., 0.);
    for step in 0..=max {
        let rec = match world.hit(&at, &ALL) { Some(r) => r, None => { end = b; break } };
        if step == max { break }
        len += rec.ray_length * len2(at.direction).sqrt();
        match rec.material.scatter(&at, &rec, &rd.lights) {
            RayScatter::ScatterEmission(s) => { end = s.color; light = Some(s.attenuation_factor.map(|_| len)); break }
            RayScatter::ScatterBasic(s) => { fs.push((s.color, false)); at = s.ray }
            RayScatter::ScatterPdf(s) => { fs.push((mul(s.color, s.probability), true)); at = s.ray }
        }
    }
    let mut want = end;
    for (c, cut) in fs.into_iter().rev() {
        want = v3(want.x * c.x, want.y * c.y, want.z * c.z);
        let f = |x: f64| if cut && x > 3. { 3. } else { x };
        want = v3(f(want.x), f(want.y), f(want.z));
    }
    fastrand::vf_rewind(k);
    draws();
    let rec = match world.hit(&ray, &ALL) { Some(r) => r, None => { check(false, 9); return } };
    let got = shd.shade(&rd, &rec, &ray, 0, acc).get_attenuated_color();
    match light {
        Some(Some(l)) => near_v(mul(got, half + l), mul(want, half), 1e-3, 1),
        _ => near_v(got, want, 1e-6, 2),
    }
}
/// A mirror, and a light that is very far away. shard: 0 above, 1 below, 2 aside
pub fn c12_far(sh: u64) {
    let c = sv(0., 1.);
    let e = sv(0., 1e6);
    let half = r(0.001, 1e12);
    let dist = r(1000., 1e12);
    let (d4, d8) = (-4. * dist, 8. * dist);
    let turn = |p: Vec3| match sh { 0 => p, 1 => v3(p.z, -p.y, p.x), _ => v3(-p.y, p.x, p.z) };
    let w = vec![
        q(turn(v3(-1., 0., -1.)), turn(v3(2., 0., 0.)), turn(v3(0., 0., 2.)), Metal::new(SolidColor::new(c.x, c.y, c.z), None, 0.)),
        q(turn(v3(d4, dist, d4)), turn(v3(d8, 0., 0.)), turn(v3(0., 0., d8)), DiffuseLight::new(e.x, e.y, e.z, Some(half))),
    ];
    let shd = PathTracingShader::new(4);
    let rd = renderer(scene(w.clone(), v3(0., 0., 0.), shd.clone()));
    let ray = Ray::new(turn(v3(0.25, 1., -0.125)), turn(v3(0., -1., 0.)));
    let rec = match w[0].hit(&ray, &ALL) { Some(r) => r, None => { check(false, 9); return } };
    fastrand::vf_range(0.55, 0.75);
    let got = shd.shade(&rd, &rec, &ray, 0, 0.).get_attenuated_color();
    near_v(mul(got, half + 1. + dist), mul(v3(e.x * c.x, e.y * c.y, e.z * c.z), half), 1e-3, 1);
}
/// The other shaders. shard: 0 albedo, 1 normal, 2 flat
pub fn c12_simple(sh: u64) {
    let c = sv(0., 1e6);
    let (ax, ay) = (r(-100., 100.), r(-100., 100.));
    let kind = vf::choice(3);
    let m = match kind { 0 => Lambertian::new(SolidColor::new(c.x, c.y, c.z), None), 1 => Metal::new(SolidColor::new(c.x, c.y, c.z), None, 0.), _ => DiffuseLight::new(c.x, c.y, c.z, None) };
    // a tilted surface with a symbolic normal
    let w = vec![q(v3(-1., -1., 0.), v3(2., 0., ax), v3(0., 2., ay), m), q(v3(-1., 30., -1.), v3(2., 0., 0.), v3(0., 0., 2.), light(1))];
    let s = match sh { 0 => AlbedoShader::new(), 1 => NormalShader::new(), _ => SimpleShader::new() };
    let rd = renderer(scene(w.clone(), v3(0., 0., 0.), s.clone()));
    let ray = Ray::new(v3(0., 0., 400.), v3(0., 0., -1.));
    let rec = match w[0].hit(&ray, &ALL) { Some(r) => r, None => { check(false, 9); return } };
    fastrand::vf_range(0.01, 0.99);
    let got = s.shade(&rd, &rec, &ray, vf::u(0, 3) as u32, r(0., 100000.));
    let img = got.get_attenuated_color();
    let n = rec.normal;
    match sh {
        0 => near_v(img, c, 1e-9, 1),
        1 => near_v(img, n, 1e-9, 2),
        _ => if kind == 2 { near_v(img, c, 1e-9, 3) } else { near_v(img, mul(c, (n.x + n.y - n.z) * 0.5 + 0.75), 1e-9, 4) },
    }
}
/// 8-bit colours. shard: 0 value, 1 monotone, 2 invalid values, 3 back to floats
pub fn c13_rgb(sh: u64) {
    let n = vf::int(1, u32::MAX as i64) as u32;
    // the sum of n samples whose average has the square root t
    let sum = |t: f64| t * t * n as f64;
    match sh {
        0 => {
            let t = [r(0., 1e6), r(0., 1e6), r(0., 1e6)];
            let c = v3(sum(t[0]), sum(t[1]), sum(t[2]));
            let p = to_rgb_color(c, n);
            let f = to_float(c, n);
            for (i, (x, y)) in t.iter().zip([f.x, f.y, f.z]).enumerate() {
                // floor(256 t), at most 255
                let v = p.0[i] as f64;
                check(v <= 256. * *x + 1e-9, 1);
                check((v >= 255.) | (v + 1. >= 256. * *x - 1e-9), 2);
                check(y >= 0. && y <= 0.999, 3);
                if *x <= 0.99 { near(y, *x, 1e-9, 4) }
            }
        }
        1 => {
            let (a, b) = (r(0., 1e6), r(0., 1e6));
            assume(a <= b);
            let (p, q) = (to_rgb_color(v3(sum(a), 0.25, sum(b)), n), to_rgb_color(v3(sum(b), sum(a), sum(b)), n));
            check(p.0[0] <= q.0[0], 5);
            check(p.0[2] == q.0[2], 5);
        }
        2 => {
            let p = to_rgb_color(v3(f64::NAN, f64::INFINITY, 1e300), n);
            check(p.0[0] == 0 && p.0[1] == 255 && p.0[2] == 255, 6);
            check(to_rgb_color(v3(0., 0., 0.), n).0 == [0, 0, 0], 7);
        }
        _ => {
            let v = vf::int(0, 255) as u8;
            let w = vf::int(0, 255) as u8;
            let f = rgb_to_vec3(&image::Rgb([v, w, 7]));
            near(f.x * 255., v as f64, 1e-9, 8);
            near(f.y * 255., w as f64, 1e-9, 8);
            near(f.z * 255., 7., 1e-9, 8);
            // shown as it was read: the square of the displayed value
            let p = to_rgb_color(v3(f.x * f.x * n as f64, f.y * f.y * n as f64, 0.), n);
            check(p.0[0] as i32 - v as i32 <= 1 && p.0[0] as i32 - v as i32 >= -1, 10);
        }
    }
}
