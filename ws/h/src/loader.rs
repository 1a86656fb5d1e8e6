use crate::util::*;
use image::{Rgb, RgbImage, VfFile};
use solstrale::loader::obj::Obj;
use solstrale::loader::Loader;
use std::sync::Arc;
use tobj::{Material as MtlMaterial, Mesh, Model, VfObj};

fn mtl(diffuse: Option<[f32; 3]>) -> MtlMaterial {
    static mut N: usize = 0;
    let n = unsafe { N += 1; N };
    let name: String = [n / 100, n / 10 % 10, n % 10].iter().map(|d| (b'0' + (*d % 10) as u8) as char).collect();
    MtlMaterial { name, diffuse, ..Default::default() }
}
/// what a hit shows
fn colour(h: &RayHit) -> Vec3 {
    let l = [Sphere::new(add(h.hit_point, v3(0., 9., 0.)), 1., light(2))];
    fastrand::vf_range(0.71, 0.71);
    match h.material.scatter(&Ray::new(add(h.hit_point, v3(0., 0., 1.)), v3(0., 0., -1.)), h, &l) { RayScatter::ScatterPdf(s) => s.color, _ => { check(false, 90); v3(0., 0., 0.) } }
}
fn shoot(o: &Hittables, p: Vec3) -> Option<RayHit<'_>> { o.hit(&Ray::new(add(p, v3(0., 0., 1.)), v3(0., 0., -1.)), &Interval::new(0.001, 5.)) }
fn load(path: &str, file: &str, t: &dyn Transformer, d: Option<Materials>) -> Result<Hittables, String> { Obj::new(path, file).load(t, d).map_err(|e| format!("{}", e)) }

/// Triangles of two meshes: corners, texture coordinates, materials. shard: + 1 texture coordinates of their own numbering, + 2 transformed, + 4 faces with four corners, + 8 the file's numbering is reversed
pub fn c27_mesh(sh: u64) {
    let t = [vf::f32_(-10000., 10000.), vf::f32_(-10000., 10000.), vf::f32_(-10000., 10000.)];
    let w = [[0., 0., 0.], [2., 0., 0.], [2., 3., 0.], [-1., 2., 0.]];
    let rev = sh & 8 != 0;
    // numbers of the corners in the file
    let no = |i: usize| if rev { 3 - i as u32 } else { i as u32 };
    let mut positions = vec![0f32; 12];
    for i in 0..4 { for j in 0..3 { positions[3 * no(i) as usize + j] = w[i][j] + t[j] } }
    let own = sh & 1 != 0;
    let uvs: Vec<[f32; 2]> = (0..4).map(|i| if i % 2 == 0 { [vf::f32_(-100., 100.), vf::f32_(-100., 100.)] } else { [0.25 * i as f32, 0.75] }).collect();
    let un = |i: usize| if own { (i as u32 + 1) % 4 } else { no(i) };
    let mut texcoords = vec![0f32; 8];
    for i in 0..4 { for j in 0..2 { texcoords[2 * un(i) as usize + j] = uvs[i][j] } }
    let quads = sh & 4 != 0;
    let f = [0usize, 1, 2, 0, 2, 3];
    let mesh = Mesh { positions: positions.clone(), texcoords, indices: f.iter().map(|i| no(*i)).collect(), texcoord_indices: f.iter().map(|i| un(*i)).collect(), material_id: Some(1), ..Default::default() };
    // a second one, 5 further to the right, without texture coordinates and material
    let far: Vec<f32> = positions.iter().enumerate().map(|(i, x)| if i % 3 == 0 { x + 5. } else { *x }).collect();
    let other = Mesh { positions: far, indices: vec![no(0), no(1), no(2)], texcoord_indices: vec![], material_id: None, ..Default::default() };
    let models = vec![Model::new(mesh.clone(), "a".to_string()), Model::new(other.clone(), "b".to_string())];
    let raw = if quads { let q = [0usize, 1, 2, 3]; Some(vec![Model::new(Mesh { indices: q.iter().map(|i| no(*i)).collect(), texcoord_indices: q.iter().map(|i| un(*i)).collect(), face_arities: vec![4], ..mesh.clone() }, "a".to_string()), models[1].clone()]) } else { None };
    let c = [[vf::f32_(0., 10.), vf::f32_(0., 10.), 0.5], [vf::f32_(0., 10.), 0.25, vf::f32_(0., 10.)]];
    tobj::vf_obj(VfObj { path: "dir/x.obj".to_string(), models: Ok(models), materials: Ok(vec![mtl(Some(c[0])), mtl(Some(c[1]))]), raw_models: raw });
    let dc = sv(0., 10.);
    let s = if sh & 2 != 0 { r(0.01, 100.) } else { 1. };
    let mv = v3(1., 2., 3.);
    let tr: Box<dyn Transformer> = if sh & 2 != 0 { Box::new(Transformations::new(vec![Box::new(Scale::new(s)), Box::new(Translation::new(mv))])) } else { Box::new(NopTransformer()) };
    let at = |p: Vec3| if sh & 2 != 0 { add(mul(p, s), mv) } else { p };
    let o = match load("dir/", "x.obj", &*tr, Some(Lambertian::new(SolidColor::new_from_vec3(dc), None))) { Ok(o) => o, Err(_) => { check(false, 1); return } };
    let p = |i: usize| v3(w[i][0] as f64 + t[0] as f64, w[i][1] as f64 + t[1] as f64, w[i][2] as f64 + t[2] as f64);
    let b = [0.5, 0.25, 0.25];
    let mix = |i: usize, j: usize, k: usize| add(mul(p(i), b[0]), add(mul(p(j), b[1]), mul(p(k), b[2])));
    for (i, j, k) in [(0, 1, 2), (0, 2, 3)] {
        let x = at(mix(i, j, k));
        match shoot(&o, x) { Some(h) => {
            near_v(h.hit_point, x, 1e-5, 2);
            near_v(h.normal, v3(0., 0., 1.), 1e-6, 3);
            check(h.front_face, 4);
            for (n, z) in [(0, h.uv.u), (1, h.uv.v)] { near(z as f64, b[0] * uvs[i][n] as f64 + b[1] * uvs[j][n] as f64 + b[2] * uvs[k][n] as f64, 1e-4, 5) }
            near_v(colour(&h), v3(c[1][0] as f64, c[1][1] as f64, c[1][2] as f64), 1e-6, 6);
        } None => check(false, 7) }
    }
    let x = at(add(mix(0, 1, 2), v3(5., 0., 0.)));
    match shoot(&o, x) { Some(h) => { near_v(h.hit_point, x, 1e-5, 8); near_v(colour(&h), dc, 1e-6, 9); near(h.uv.u as f64, 0., 0., 10) } None => check(false, 11) }
    // nothing besides
    check(shoot(&o, at(add(mix(0, 2, 3), v3(5., 0., 0.)))).is_none(), 12);
}
/// Which material a mesh gets. shard: 0 few materials, 1 many; + 10 no default given
pub fn c27_materials(sh: u64) {
    let n = if sh % 10 == 0 { 3 } else { 300 };
    let code = |i: usize| [(i % 20) as f32 / 32., (i / 20) as f32 / 32., 0.5];
    let mut ms: Vec<MtlMaterial> = (0..n).map(|i| mtl(Some(code(i)))).collect();
    ms[2].diffuse = None;
    let ids: &[Option<usize>] = if n == 3 { &[None, Some(0), Some(1), Some(2), Some(3)] } else { &[None, Some(0), Some(44), Some(127), Some(128), Some(129), Some(255), Some(256), Some(257), Some(299)] };
    let id = ids[vf::choice(ids.len() as u64) as usize];
    let mesh = Mesh { positions: vec![0., 0., 0., 2., 0., 0., 2., 3., 0.], indices: vec![0, 1, 2], material_id: id, ..Default::default() };
    tobj::vf_obj(VfObj { path: "x.obj".to_string(), models: Ok(vec![Model::new(mesh, "a".to_string())]), materials: Ok(ms), raw_models: None });
    let dc = sv(0., 1.);
    let none = sh >= 10;
    let o = match load("", "x.obj", &NopTransformer(), if none { None } else { Some(Lambertian::new(SolidColor::new_from_vec3(dc), None)) }) { Ok(o) => o, Err(_) => { check(false, 1); return } };
    let white = v3(1., 1., 1.);
    let want = match id {
        Some(2) => white,
        Some(i) if i < n => { let c = code(i); v3(c[0] as f64, c[1] as f64, c[2] as f64) }
        _ => if none { white } else { dc },
    };
    match shoot(&o, v3(1., 0.5, 0.)) { Some(h) => near_v(colour(&h), want, 1e-6, 2), None => check(false, 3) }
}
/// Images of materials. shard: 0 colours, 1 normals, 2 heights, 3 both
pub fn c27_images(sh: u64) {
    let p = [vf::int(0, 255) as u8, vf::int(0, 255) as u8, 77];
    let mut im = RgbImage::new(1, 1);
    im.put_pixel(0, 0, Rgb(p));
    image::vf_file("d/c.png", VfFile::Rgb(im));
    let nm = [[204u8, 128, 230], [26, 128, 204]][vf::choice(2) as usize];
    let mut im = RgbImage::new(1, 1);
    im.put_pixel(0, 0, Rgb(nm));
    image::vf_file("d/n.png", VfFile::Rgb(im));
    let mut im = RgbImage::new(1, 1);
    im.put_pixel(0, 0, Rgb([100, 100, 100]));
    image::vf_file("d/h.png", VfFile::Rgb(im));
    let mut m = mtl(Some([0.5, 0.5, 0.5]));
    if sh == 0 || sh == 3 { m.diffuse_texture = Some("c.png".to_string()) }
    if sh == 1 || sh == 3 { m.normal_texture = Some("n.png".to_string()) }
    if sh == 2 { m.normal_texture = Some("h.png".to_string()) }
    let mesh = Mesh { positions: vec![0., 0., 0., 2., 0., 0., 0., 2., 0.], texcoords: vec![0., 0., 1., 0., 0., 1.], indices: vec![0, 1, 2], texcoord_indices: vec![0, 1, 2], material_id: Some(0), ..Default::default() };
    tobj::vf_obj(VfObj { path: "d/x.obj".to_string(), models: Ok(vec![Model::new(mesh.clone(), "a".to_string())]), materials: Ok(vec![m.clone()]), raw_models: None });
    let o = match load("d/", "x.obj", &NopTransformer(), None) { Ok(o) => o, Err(_) => { check(false, 1); return } };
    // files of the same names elsewhere do not matter
    for f in ["e/c.png", "e/n.png", "e/h.png"] { let mut im = RgbImage::new(1, 1); im.put_pixel(0, 0, Rgb([128, 204, 230])); image::vf_file(f, VfFile::Rgb(im)) }
    tobj::vf_obj(VfObj { path: "e/x.obj".to_string(), models: Ok(vec![Model::new(mesh, "a".to_string())]), materials: Ok(vec![m]), raw_models: None });
    let o2 = match load("e/", "x.obj", &NopTransformer(), None) { Ok(o) => o, Err(_) => { check(false, 1); return } };
    match shoot(&o2, v3(0.5, 0.5, 0.)) { Some(h) => {
        let f = |x: u8| x as f64 / 255. * 2. - 1.;
        near_v(h.normal, if sh > 0 { v3(f(128), f(204), f(230)) } else { v3(0., 0., 1.) }, 1e-6, 2);
        near_v(colour(&h), if sh == 0 || sh == 3 { v3(128. / 255., 204. / 255., 230. / 255.) } else { v3(0.5, 0.5, 0.5) }, 1e-6, 3);
    } None => check(false, 4) }
    match shoot(&o, v3(0.5, 0.5, 0.)) { Some(h) => {
        let n = if sh == 1 || sh == 3 { let f = |x: u8| x as f64 / 255. * 2. - 1.; v3(f(nm[0]), f(nm[1]), f(nm[2])) } else { v3(0., 0., 1.) };
        near_v(h.normal, n, if sh == 2 { 0.02 } else { 1e-6 }, 2);
        let c = if sh == 0 || sh == 3 { v3(p[0] as f64 / 255., p[1] as f64 / 255., 77. / 255.) } else { v3(0.5, 0.5, 0.5) };
        near_v(colour(&h), c, 1e-6, 3);
    } None => check(false, 4) }
}
/// Materials that share images, as colours, normals and heights. shard: which comes first
pub fn c27_shared(sh: u64) {
    let one = |p: [u8; 3]| { let mut im = RgbImage::new(1, 1); im.put_pixel(0, 0, Rgb(p)); im };
    let g = vf::int(60, 120) as u8;
    image::vf_file("d/a.png", VfFile::Rgb(one([g, g, g])));
    image::vf_file("d/n.png", VfFile::Rgb(one([204, 128, 230])));
    // colours and bumps: a grey image, a map of normals, none
    let used = [(0, 0), (1, 1), (0, 1), (1, 0), (2, 1), (0, 2), (2, 0), (2, 2)];
    let file = |k: u64| match k { 0 => Some("a.png".to_string()), 1 => Some("n.png".to_string()), _ => None };
    let (mut models, mut materials) = (vec![], vec![]);
    for i in 0..8 {
        let (c, b) = used[(i + sh as usize) % 8];
        let mut m = mtl(Some([0.5, 0.25, i as f32 / 8.]));
        m.diffuse_texture = file(c);
        m.normal_texture = file(b);
        m.name = ["m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"][i].to_string();
        materials.push(m);
        let x = 10. * i as f32;
        models.push(Model::new(Mesh { positions: vec![x, 0., 0., x + 2., 0., 0., x, 2., 0.], texcoords: vec![0., 0., 1., 0., 0., 1.], indices: vec![0, 1, 2], texcoord_indices: vec![0, 1, 2], material_id: Some(i), ..Default::default() }, "a".to_string()));
    }
    tobj::vf_obj(VfObj { path: "d/x.obj".to_string(), models: Ok(models), materials: Ok(materials), raw_models: None });
    let o = match load("d/", "x.obj", &NopTransformer(), None) { Ok(o) => o, Err(_) => { check(false, 1); return } };
    for i in 0..8 {
        let (c, b) = used[(i + sh as usize) % 8];
        match shoot(&o, v3(10. * i as f64 + 0.5, 0.5, 0.)) { Some(h) => {
            let f = |x: u8| x as f64 / 255. * 2. - 1.;
            near_v(h.normal, if b == 1 { v3(f(204), f(128), f(230)).unit() } else { v3(0., 0., 1.) }, 0.02, 2);
            let gf = g as f64 / 255.;
            near_v(colour(&h), match c { 0 => v3(gf, gf, gf), 1 => v3(204. / 255., 128. / 255., 230. / 255.), _ => v3(0.5, 0.25, i as f64 / 8.) }, 1e-6, 3);
        } None => check(false, 4) }
    }
}
/// Files that are missing or broken are reported with their name. shard: what is wrong
pub fn c27_errors(sh: u64) {
    let mut m = mtl(None);
    let bad = ["c.png", "n.png"][vf::choice(2) as usize];
    match sh { 2 | 3 => m.diffuse_texture = Some(bad.to_string()), _ => m.normal_texture = Some(bad.to_string()) }
    if sh == 3 || sh == 5 { image::vf_file(if bad == "c.png" { "d/c.png" } else { "d/n.png" }, VfFile::Bad) }
    let mesh = Mesh { positions: vec![0., 0., 0., 2., 0., 0., 0., 2., 0.], indices: vec![0, 1, 2], material_id: Some(0), ..Default::default() };
    let materials = if sh == 1 { Err(tobj::LoadError::OpenFileFailed) } else { Ok(vec![mtl(None), m]) };
    if sh > 0 { tobj::vf_obj(VfObj { path: "d/x.obj".to_string(), models: Ok(vec![Model::new(mesh, "a".to_string())]), materials, raw_models: None }) }
    match load("d/", "x.obj", &NopTransformer(), None) {
        Ok(_) => check(false, 1),
        Err(e) => { check(e.contains(if sh < 2 { "d/x.obj" } else if bad == "c.png" { "d/c.png" } else { "d/n.png" }), 2) }
    }
    let _ = Arc::new(0);
}
/// The last of many corners. shard: where texture coordinates have numbers of their own
pub fn c27_far(sh: u64) {
    let n = 70000usize;
    let mut positions = vec![0f32; 3 * n];
    let mut texcoords = vec![0f32; 2 * n];
    let (x, y) = (vf::f32_(-1000., 1000.), vf::f32_(-1000., 1000.));
    let w = [[x, y, 0.], [x + 4., y, 0.], [x + 4., y + 4., 0.]];
    let t = [n - 3, 5, n - 1];
    let k = if sh == 0 { t } else { [n - 1, n - 2, 66000] };
    for j in 0..3 { for i in 0..3 { positions[3 * t[j] + i] = w[j][i] } for i in 0..2 { texcoords[2 * k[j] + i] = [[0.25, 0.], [0.5, 1.], [0.75, 0.5]][j][i] } }
    let ix = |a: [usize; 3]| vec![a[0] as u32, a[1] as u32, a[2] as u32];
    let mesh = Mesh { positions, texcoords, texcoord_indices: ix(k), indices: ix(t), material_id: Some(0), ..Default::default() };
    tobj::vf_obj(VfObj { path: "x.obj".to_string(), models: Ok(vec![Model::new(mesh, "a".to_string())]), materials: Ok(vec![mtl(Some([0.5, 0.25, 0.125]))]), raw_models: None });
    let o = match load("", "x.obj", &NopTransformer(), None) { Ok(o) => o, Err(_) => { check(false, 1); return } };
    // in the middle of two corners, and a quarter of the third
    match shoot(&o, v3(x as f64 + 3., y as f64 + 2., 0.)) { Some(h) => {
        near_v(h.hit_point, v3(x as f64 + 3., y as f64 + 2., 0.), 1e-3, 2);
        near(h.uv.u as f64, 0.25 * 0.25 + 0.25 * 0.5 + 0.5 * 0.75, 1e-3, 3);
        near(h.uv.v as f64, 0.25 + 0.25, 1e-3, 4);
    } None => check(false, 5) }
}
/// A mesh with many corners. shard: number of triangles before the one looked at
pub fn c27_large(sh: u64) {
    let n = sh as usize;
    let t = [vf::f32_(-100., 100.), vf::f32_(-100., 100.), vf::f32_(-100., 100.)];
    let mut positions = vec![];
    let mut texcoords = vec![];
    let mut indices = vec![];
    for i in 0..n {
        // a strip far away
        for j in 0..3 { positions.extend([1000. + (3 * i + j % 2) as f32, (j / 2) as f32, 0.]); texcoords.extend([0., 1.]); indices.push((3 * i + j) as u32) }
    }
    let w = [[0., 0., 0.], [2., 0., 0.], [2., 3., 0.]];
    let uv = [[0.25, vf::f32_(-10., 10.)], [vf::f32_(-10., 10.), 0.5], [0.75, 0.25]];
    for j in 0..3 { for i in 0..3 { positions.push(w[j][i] + t[i]) } texcoords.extend(uv[j]); indices.push((3 * n + j) as u32) }
    // another object before, with a material of the same number
    let small = Mesh { positions: vec![5., 0., 0., 7., 0., 0., 7., 3., 0.], indices: vec![0, 1, 2], material_id: Some(0), ..Default::default() };
    tobj::vf_obj(VfObj { path: "y.obj".to_string(), models: Ok(vec![Model::new(small, "a".to_string())]), materials: Ok(vec![mtl(Some([1., 0., 0.]))]), raw_models: None });
    check(load("", "y.obj", &NopTransformer(), None).is_ok(), 1);
    let mesh = Mesh { positions, texcoords, texcoord_indices: indices.clone(), indices, material_id: Some(0), ..Default::default() };
    tobj::vf_obj(VfObj { path: "x.obj".to_string(), models: Ok(vec![Model::new(mesh, "a".to_string())]), materials: Ok(vec![mtl(Some([0.5, 0.25, 0.125]))]), raw_models: None });
    let o = match load("", "x.obj", &NopTransformer(), None) { Ok(o) => o, Err(_) => { check(false, 1); return } };
    let p = |i: usize| v3(w[i][0] as f64 + t[0] as f64, w[i][1] as f64 + t[1] as f64, w[i][2] as f64 + t[2] as f64);
    let b = [0.5, 0.25, 0.25];
    let x = add(mul(p(0), b[0]), add(mul(p(1), b[1]), mul(p(2), b[2])));
    match shoot(&o, x) { Some(h) => {
        near_v(h.hit_point, x, 1e-5, 2);
        for (k, z) in [(0, h.uv.u), (1, h.uv.v)] { near(z as f64, b[0] * uv[0][k] as f64 + b[1] * uv[1][k] as f64 + b[2] * uv[2][k] as f64, 1e-4, 3) }
        near_v(colour(&h), v3(0.5, 0.25, 0.125), 1e-6, 4);
    } None => check(false, 5) }
    for i in [0, n / 2, n - 1] {
        check(shoot(&o, v3(1000. + 3. * i as f64 + 0.25, 0.25, 0.)).is_some(), 6);
        check(shoot(&o, v3(1000. + 3. * i as f64 + 2., 0.25, 0.)).is_none(), 7);
    }
}
