use crate::util::*;
use image::{Rgb, RgbImage, VfFile};
use solstrale::util::height_map::to_normal_map;
use std::sync::Arc;

/// an image whose pixels tell their place
fn coded(w: u32, h: u32) -> RgbImage {
    let mut im = RgbImage::new(w, h);
    for y in 0..h { for x in 0..w { im.put_pixel(x, y, Rgb([(10 * x) as u8, (10 * y) as u8, (7 + x * y) as u8])) } }
    im
}
fn byte(f: f64) -> f64 { f * 255. }
/// Which pixel belongs to a texture coordinate. shard: dimensions, + 10 coordinates below zero, + 20 through a file, + 100 through a material
pub fn c19_image(sh: u64) {
    let (w, h) = [(1, 1), (2, 1), (1, 3), (3, 2), (5, 4)][sh as usize % 10];
    let neg = sh / 10 % 2 == 1;
    let t = if sh / 20 % 2 == 1 {
        // another image of that name elsewhere
        image::vf_file("c/b.png", VfFile::Rgb(coded(1, 1)));
        check(ImageMap::load("c/b.png").is_ok(), 1);
        image::vf_file("a/b.png", VfFile::Rgb(coded(w, h)));
        match ImageMap::load("a/b.png") { Ok(t) => t, Err(_) => { check(false, 1); return } }
    } else { ImageMap::new(Arc::new(coded(w, h))) };
    let (a, b) = if neg { (-1.75, -0.125) } else { (0., 2.25) };
    let (u, v) = (vf::f32_(a, b), vf::f32_(a, b));
    // the fraction of a coordinate, mirrored for negative ones
    let (mu, mv) = (if neg { -u } else { u } as f64, if neg { -v } else { v } as f64);
    let (mut fu, mut fv) = (mu, mv);
    while fu >= 1. { fu -= 1. }
    while fv >= 1. { fv -= 1. }
    let px = fu * (w - 1) as f64;
    let py = (1. - fv) * (h - 1) as f64;
    let away = |x: f64, n: u32| { for i in 1..n { assume((x - i as f64) * (x - i as f64) >= 1e-6) } };
    away(px, w);
    away(py, h);
    if neg || fu < mu { assume(fu >= 1e-4 && fu <= 0.9999) }
    if neg || fv < mv { assume(fv >= 1e-4 && fv <= 0.9999) }
    let uv = Uv::new(u, v);
    let c = if sh >= 100 {
        let m = match sh / 100 {
            1 => Lambertian::new(t, None),
            2 => Metal::new(t, None, 0.),
            3 => Dielectric::new(t, None, 1.5),
            _ => Blend::new(Lambertian::new(SolidColor::new(9., 9., 9.), None), Metal::new(t, None, 0.), 1.),
        };
        let rec = RayHit::new(v3(1., 2., 3.), Onb::new(v3(0., 1., 0.)), &m, 1., uv, true);
        let l = [Sphere::new(v3(1., 9., 3.), 1., light(2))];
        fastrand::vf_range(0.7, 0.75);
        match m.scatter(&Ray::new(v3(0., 1., 0.), v3(0., -1., 0.)), &rec, &l) { RayScatter::ScatterPdf(s) => s.color, RayScatter::ScatterBasic(s) => s.color, _ => { check(false, 2); return } }
    } else { t.color(uv) };
    let (x, y) = (byte(c.x) / 10., byte(c.y) / 10.);
    near(byte(c.z), 7. + x * y, 1e-6, 3);
    // the pixel at its left, counted from the bottom
    check(x <= px + 1e-3 && x + 1. >= px - 1e-3 && x >= -1e-3 && x <= (w - 1) as f64 + 1e-3, 4);
    check(y <= py + 1e-3 && y + 1. >= py - 1e-3 && y >= -1e-3 && y <= (h - 1) as f64 + 1e-3, 5);
    let t2 = ImageMap::new(Arc::new(coded(w, h)));
    near_v(t2.clone().color(uv), c, 1e-9, 6);
}
/// Wide and high images: the place among many pixels. shard: 0, 1 wide, 2, 3 high; odd: far end
pub fn c19_large(sh: u64) {
    let size = if sh < 4 { 300u32 } else { 5000 };
    let wide = sh % 4 < 2;
    let (w, h) = if wide { (size, 2u32) } else { (2, size) };
    let mut im = RgbImage::new(w, h);
    for y in 0..h { for x in 0..w { let i = x.max(y); im.put_pixel(x, y, Rgb([(i % 64) as u8, (i / 64) as u8, (x.min(y)) as u8])) } }
    let t = ImageMap::new(Arc::new(im));
    let n = (size - 1) as f64;
    let far = sh % 2 == 1;
    // somewhere in a stretch of four pixels
    let k = if far { n - 5. } else if sh < 4 { 126. } else { 2046. };
    let f = vf::f32_((k / n) as f32, ((k + 4.) / n) as f32);
    let p = f as f64 * n;
    for i in 0..5 { let b = k + i as f64; assume((p - b) * (p - b) >= 1e-6) }
    let c = t.color(if wide { Uv::new(f, 0.75) } else { Uv::new(0.75, 1. - f) });
    let got = byte(c.x) + 64. * byte(c.y);
    check(got <= p + 1e-3 && got + 1. >= p - 1e-3, 1);
    near(byte(c.z), 0., 1e-6, 2);
}
/// Colours without an image, and files that are missing or broken. shard: 0 colours, 1.. files
pub fn c19_solid(sh: u64) {
    if sh == 0 {
        let c = sv(-1000., 1000.);
        let uv = Uv::new(vf::f32_(-1000., 1000.), vf::f32_(-1000., 1000.));
        near_v(SolidColor::new(c.x, c.y, c.z).color(uv), c, 0., 1);
        near_v(SolidColor::new_from_vec3(c).clone().color(uv), c, 0., 2);
        let f = [vf::f32_(0., 1.), vf::f32_(0., 1.), vf::f32_(0., 1.)];
        near_v(SolidColor::new_from_f32_array(f).color(uv), v3(f[0] as f64, f[1] as f64, f[2] as f64), 0., 3);
        return;
    }
    image::vf_file("bad.png", VfFile::Bad);
    let e = if sh == 1 { ImageMap::load("no.png") } else { ImageMap::load("bad.png") };
    match e { Err(e) => check(format!("{}", e).contains(if sh == 1 { "no.png" } else { "bad.png" }), 4), Ok(_) => check(false, 5) }
    let e = if sh == 1 { load_normal_texture("no.png") } else { load_normal_texture("bad.png") };
    match e { Err(e) => check(format!("{}", e).contains(if sh == 1 { "no.png" } else { "bad.png" }), 6), Ok(_) => check(false, 7) }
}
fn sym_byte() -> u8 { vf::int(0, 255) as u8 }
/// Heights to normals. shard: dimensions * 100 + the pixel looked at, + 10000 * its neighbour that is arbitrary
pub fn c20_heights(sh: u64) {
    let (w, h) = [(1, 1), (2, 2), (3, 3), (3, 1), (1, 3), (4, 3), (33, 2), (2, 33), (1100, 2), (2, 1100)][sh as usize / 100 % 100];
    let at = (sh % 100) as i64 + match sh / 100 % 100 { 8 => 1020, 9 => 2040, _ => 0 };
    let (x, y) = (at % w, at / w);
    let mut g = vec![];
    let k = sh as i64 / 10000;
    for j in 0..h { for i in 0..w {
        let dx: i64 = i - x;
        let dy: i64 = j - y;
        let s = dx + 3 * dy + 4 == k;
        g.push(if s { sym_byte() as i64 } else { (i * i + j + i * j) % 2 * 255 });
    } }
    let mut im = RgbImage::new(w as u32, h as u32);
    // only red counts
    for j in 0..h { for i in 0..w { im.put_pixel(i as u32, j as u32, Rgb([g[(j * w + i) as usize] as u8, 1, 2])) } }
    // another one before
    if w > 9 || h > 9 { check(to_normal_map(coded(2, 1)).width() == 2, 1) }
    let n = to_normal_map(im);
    check(n.width() == w as u32 && n.height() == h as u32, 1);
    let f = |i: i64, j: i64| g[((y + j).clamp(0, h - 1) * w + (x + i).clamp(0, w - 1)) as usize] as f64 / 255.;
    // slope towards the right and towards the top
    let sx = f(1, -1) + 2. * f(1, 0) + f(1, 1) - f(-1, -1) - 2. * f(-1, 0) - f(-1, 1);
    let sy = f(-1, -1) + 2. * f(0, -1) + f(1, -1) - f(-1, 1) - 2. * f(0, 1) - f(1, 1);
    let z = (1f32 / 6.) as f64;
    let l = (sx * sx + sy * sy + z * z).sqrt();
    let p = n.get_pixel(x as u32, y as u32).0;
    for (i, c) in [-sx, -sy, z].into_iter().enumerate() {
        // the share of 255, rounded down
        let q = (c / l * 0.5 + 0.5) * 255.;
        let v = p[i] as f64;
        check(v <= q + 1e-3, 2);
        check(v + 1. >= q - 1e-3, 3);
    }
}
/// A larger picture, partly grey, partly normals: what most of it is. shard bits: 1 the greys first, 2 the greys are more
pub fn c20_kind_large(sh: u64) {
    let (w, h) = (60u32, 40u32);
    let first = if (sh & 1 == 1) == (sh & 2 == 2) { 1600 } else { 800 };
    let g = sym_byte();
    assume(g < 45 || g > 65 && g < 190 || g > 210);
    let mut im = RgbImage::new(w, h);
    for i in 0..w * h { im.put_pixel(i % w, i / w, if (i < first) == (sh & 1 == 1) { Rgb([g, g, g]) } else { Rgb([[204u8, 127, 230], [128, 255, 127]][i as usize % 2]) }) }
    image::vf_file("bump.png", VfFile::Rgb(im));
    let t = match load_normal_texture("bump.png") { Ok(t) => t, Err(_) => { check(false, 1); return } };
    let c = t.color(Uv::new(if sh & 1 == 1 { 0.1 } else { 0.9 }, if sh & 1 == 1 { 0.9 } else { 0.1 }));
    // an undisturbed normal amid the greys, or the grey itself
    if sh & 2 == 2 { near_v(c, v3(127. / 255., 127. / 255., 1.), 0.01, 2) } else { let f = g as f64 / 255.; near_v(c, v3(f, f, f), 1e-6, 2) }
}
/// Is it a map of heights or of normals. shard: 0 a grey image, 1 normals, 2 normals but for one grey pixel, 3 greys but for one normal
pub fn c20_kind(sh: u64) {
    let n = 3u32;
    let mut im = RgbImage::new(n, 1);
    for i in 0..n {
        let grey = match sh { 0 => true, 1 => false, 2 => i == 1, _ => i != 1 };
        let p = if grey { let g = sym_byte(); if sh >= 2 { assume(g < 45 || g > 65 && g < 190 || g > 210) } Rgb([g, g, g]) } else {
            // unit normals, as bytes
            match i + 3 * (vf::choice(2) as u32) { 0 => Rgb([128, 128, 255]), 1 => Rgb([0, 128, 128]), 2 => Rgb([128, 255, 127]), 3 => Rgb([204, 127, 230]), 4 => Rgb([212, 170, 42 + 170]), _ => Rgb([26, 127, 204]) }
        };
        im.put_pixel(i, 0, p);
    }
    image::vf_file("bump.png", VfFile::Rgb(im.clone()));
    let t = match load_normal_texture("bump.png") { Ok(t) => t, Err(_) => { check(false, 1); return } };
    let heights = sh == 0 || sh == 3;
    let want = ImageMap::new(Arc::new(if heights { to_normal_map(im) } else { im }));
    for i in 0..n {
        let uv = Uv::new(i as f32 / 2.1, 0.5);
        near_v(t.color(uv), want.color(uv), 0., 2);
    }
}
