use crate::util::*;
use crate::render::{q, scene};
use solstrale::util::rgb_color::to_rgb_color;
use solstrale::ray_trace;
use solstrale::renderer::shader::*;
use solstrale::renderer::*;
use std::sync::mpsc::channel;
use std::time::Duration;
use std::sync::{Arc, Mutex};

/// a scene with a light the camera does not see
fn empty(n: u32, strategy: RenderImageStrategy, pos: u64) -> Scene {
    let l = Quad::new(v3(-1., -1., 9.), v3(2., 0., 0.), v3(0., 2., 0.), light(1), &NopTransformer());
    let mut s = scene(vec![l], v3(0.25, 0.5, 1.), match pos { 0 => SimpleShader::new(), _ => PathTracingShader::new(3) });
    s.render_config.samples_per_pixel = n;
    s.render_config.render_image_strategy = strategy;
    s
}
fn strategy(k: u64) -> RenderImageStrategy { match k { 0 => RenderImageStrategy::EverySample, 1 => RenderImageStrategy::OnlyFinal, _ => RenderImageStrategy::Interval(Duration::from_millis(1500)) } }

/// Number, order and contents of the messages. shard: strategy + 10 * (most samples)
pub fn c14_messages(sh: u64) {
    let n = vf::int(1, sh as i64 / 10) as u64;
    let k = sh % 10;
    let (tx, rx) = channel();
    let (atx, arx) = channel::<bool>();
    // nobody to abort it, or somebody who does not
    let keep = if vf::boolean() { Some(atx) } else { drop(atx); None };
    vf::clock(1000, 0);
    fastrand::vf_range(0.4, 0.4);
    let res = ray_trace(empty(n as u32, strategy(k), vf::choice(2)), &tx, &arx);
    check(res.is_ok(), 1);
    drop(tx);
    drop(keep);
    let mut i = 0u64;
    for m in rx.iter() {
        i += 1;
        near(m.progress * n as f64, i as f64, 1e-9, 2);
        let expect = match k { 0 => true, 1 => i == n, _ => i == n || i == 1 };
        check(m.render_image.is_some() == expect, 3);
        if let Some(im) = m.render_image { check(im.width() == 2 && im.height() == 2, 4) }
    }
    check(i == n, 5);
}
type T = (i64, i64);
/// nanoseconds from b to a
fn since(a: T, b: T) -> f64 { (a.0 - b.0) as f64 * 1e9 + (a.1 - b.1) as f64 }
/// Times: images of the interval strategy, speed and estimate. shard: samples, + 10 with a clock that runs backwards,
/// + 100 whole seconds, and a look at the images only
pub fn c14_times(sh: u64) {
    let n = (sh % 10) as usize;
    let back = sh / 10 % 10 == 1;
    let whole = sh >= 100;
    let (tx, rx) = channel();
    let rx = Arc::new(Mutex::new(rx));
    let (_atx, arx) = channel::<bool>();
    fastrand::vf_range(0.4, 0.4);
    let start: T = (1_000_000, if whole { 0 } else { 500_000_000 });
    let mut t = [start; 8];
    for i in 0..n {
        t[i] = (start.0 + vf::int(if back { -100000 } else { 0 }, 100000), if whole { 0 } else { vf::int(0, 999_999_999) });
        if !back { assume(since(t[i], if i == 0 { start } else { t[i - 1] }) >= 1.) }
    }
    let iv: T = (vf::int(0, 100000), if whole { 0 } else { vf::int(0, 999_999_999) });
    vf::clock(start.0, start.1);
    let seen: Arc<Mutex<Vec<RenderProgress>>> = Arc::new(Mutex::new(Vec::new()));
    let (seen2, rx2) = (seen.clone(), rx.clone());
    // the clock advances during a sample
    fastrand::vf_act(Box::new(move |_| {
        let mut s = seen2.lock().unwrap();
        while let Ok(m) = rx2.lock().unwrap().try_recv() { s.push(m) }
        if s.len() < n { vf::clock(t[s.len()].0, t[s.len()].1) }
    }));
    let res = ray_trace(empty(n as u32, RenderImageStrategy::Interval(Duration::new(iv.0 as u64, iv.1 as u32)), 0), &tx, &arx);
    check(res.is_ok(), 1);
    let mut s = seen.lock().unwrap();
    while let Ok(m) = rx.lock().unwrap().try_recv() { s.push(m) }
    check(s.len() == n, 2);
    if back { return; }
    let mut last = (0, 0);
    for (i, m) in s.iter().enumerate() {
        let done = (i + 1) as f64;
        let due = since(t[i], last) > iv.0 as f64 * 1e9 + iv.1 as f64;
        check(m.render_image.is_some() == (due || i == n - 1), 3);
        if due { last = t[i] }
        if whole { continue }
        let e = since(t[i], start);
        // speed in samples per second
        near(m.fps.unwrap() * e, 1e9 * done, 1e-3, 4);
        // each remaining sample takes as long as the ones done
        near((m.estimated_time_left.as_secs() as f64 * 1e9 + m.estimated_time_left.subsec_nanos() as f64) * done, e * (n as f64 - done), 3. * n as f64 * done, 5);
    }
}
/// draws of one sample
fn draws_per_sample(k: u64) -> u64 {
    let (tx, _rx) = channel();
    let (_atx, arx) = channel::<bool>();
    fastrand::vf_act(Box::new(|_| {}));
    check(ray_trace(empty(1, strategy(k), 0), &tx, &arx).is_ok(), 1);
    fastrand::vf_count()
}
/// Abort or loss of the receiver at any draw. shard: strategy + 10 * samples, + 100 for the loss
pub fn c14_stop(sh: u64) {
    let n = sh / 10 % 10;
    let k = sh % 10;
    let lose = sh >= 100;
    fastrand::vf_range(0.4, 0.4);
    vf::clock(1000, 0);
    let d = draws_per_sample(k);
    let (tx, rx) = channel();
    let rx = Arc::new(Mutex::new(Some(rx)));
    let (atx, arx) = channel::<bool>();
    let at = vf::int(0, (n * d) as i64) as u64;
    // number of samples reported, and reported when it was stopped
    let seen = Arc::new(Mutex::new((0u64, 0u64, true)));
    let poll = {
        let (seen, rx) = (seen.clone(), rx.clone());
        move || {
            let mut s = seen.lock().unwrap();
            if let Some(rx) = &*rx.lock().unwrap() {
                while let Ok(m) = rx.try_recv() {
                    let m: RenderProgress = m;
                    s.0 += 1;
                    if (m.progress * n as f64 - s.0 as f64).abs() > 1e-9 { s.2 = false }
                }
            }
            s.0
        }
    };
    let (seen2, rx2, poll2) = (seen.clone(), rx.clone(), poll.clone());
    let stop = move || {
        let m = poll2();
        seen2.lock().unwrap().1 = m;
        if lose { drop(rx2.lock().unwrap().take()) } else { atx.send(true).unwrap() }
    };
    if at == 0 { stop(); fastrand::vf_act(Box::new(|_| {})) } else {
        let mut stop = Some(stop);
        fastrand::vf_act(Box::new(move |i| if i + 1 == at { if let Some(f) = stop.take() { f() } }));
    }
    let res = ray_trace(empty(n as u32, strategy(k), 0), &tx, &arx);
    poll();
    let s = seen.lock().unwrap();
    check(s.2, 2);
    if lose {
        // an error, at the latest after the sample in progress
        check(res.is_err(), 3);
        check(fastrand::vf_count() <= (s.1 + 1) * d, 4);
    } else {
        // no error, nothing but the sample in progress
        check(res.is_ok(), 5);
        check(fastrand::vf_count() <= if at == 0 { 0 } else { (s.1 + 1) * d }, 6);
        check(s.0 <= if at == 0 { 0 } else { s.1 + 1 }, 7);
    }
    // the next rendering is not affected
    fastrand::vf_act(Box::new(|_| {}));
    let (tx, rx) = channel();
    let (_atx, arx) = channel::<bool>();
    check(ray_trace(empty(2, strategy(k), 0), &tx, &arx).is_ok(), 8);
    drop(tx);
    check(rx.iter().count() == 2, 9);
}
/// A scene without lights is refused. shard: kind of world
pub fn c14_dark(sh: u64) {
    let (tx, rx) = channel();
    let (_atx, arx) = channel::<bool>();
    let q = |k| Quad::new(v3(r(-9., 9.), r(-9., 9.), r(-9., 9.)), v3(2., 0., 0.), v3(0., 2., 0.), tag(k), &NopTransformer());
    let w = match sh {
        0 => vec![q(1)],
        1 => vec![q(1), q(2), Sphere::new(v3(1., 2., 3.), 2., tag(3))],
        2 => vec![Bvh::new(vec![q(1), q(2)]), q(3)],
        3 => vec![ConstantMedium::new(q(1), 0.5, v3(1., 1., 1.))],
        _ => vec![q(1), ConstantMedium::new(Sphere::new(v3(1., 2., 3.), 2., tag(3)), 0.5, v3(1., 1., 1.))],
    };
    let mut s = scene(w, v3(0.25, 0.5, 1.), SimpleShader::new());
    s.render_config.samples_per_pixel = vf::u(1, 3) as u32;
    check(ray_trace(s, &tx, &arx).is_err(), 1);
    drop(tx);
    check(rx.iter().next().is_none(), 2);
}
/// Every pixel holds what its rays saw, summed over the samples, whatever the order of the rows.
/// shard: 0..5 images of 2x2, 3x2, 2x3, 1x1, 1x2, 2x1 pixels; + 10 * samples; + 100 with the colours of a simple shader, + 200 images of every sample
pub fn c15_image(sh: u64) {
    let (w, h) = match sh % 10 { 0 => (2, 2), 1 => (3, 2), 2 => (2, 3), 3 => (1, 1), 4 => (1, 2), _ => (2, 1) };
    let n = sh / 10 % 10;
    let a = w as f64 / h as f64;
    let every = sh / 200 % 2 == 1;
    let b = sv(0., 1e6);
    let mut world = vec![];
    // two halves of every pixel, one is seen by the odd samples, one by the even ones
    let mut cols = vec![];
    let dx = 2. * a / (w - 1).max(1) as f64;
    let dy = 2. / (h - 1).max(1) as f64;
    for y in 0..h { for x in 0..w { for i in 0..2 {
        // one half of one pixel shows the background
        if (x, y, i) == (w.min(2) - 1, 0, 1) { cols.push(b); continue; }
        let c = if (x + y) % 2 == 0 { v3(r(0., 1e6), 1., 2.) } else { v3(0.5, r(0., 1e6), 0.25) };
        cols.push(c);
        world.push(q(v3(-a + dx * (x as f64 + 0.5 * i as f64), -1. + dy * y as f64, -1.), v3(dx * 0.5, 0., 0.), v3(0., dy, 0.), DiffuseLight::new(c.x, c.y, c.z, None)));
    } } }
    let mut s = scene(world, b, if sh / 100 % 2 == 1 { SimpleShader::new() } else { PathTracingShader::new(2) });
    s.render_config.width = w;
    s.render_config.height = h;
    s.render_config.samples_per_pixel = n as u32;
    if every { s.render_config.render_image_strategy = RenderImageStrategy::EverySample }
    let (tx, rx) = channel();
    let (_atx, arx) = channel::<bool>();
    let rx = Arc::new(Mutex::new(rx));
    let seen: Arc<Mutex<Vec<RenderProgress>>> = Arc::new(Mutex::new(Vec::new()));
    let (seen2, rx2) = (seen.clone(), rx.clone());
    fastrand::vf_act(Box::new(move |_| {
        let mut s = seen2.lock().unwrap();
        while let Ok(m) = rx2.lock().unwrap().try_recv() { s.push(m) }
        let lo = 0.01 + 0.5 * (s.len() % 2) as f64;
        fastrand::vf_range(lo, lo + 0.48);
    }));
    check(ray_trace(s, &tx, &arx).is_ok(), 1);
    let mut s = seen.lock().unwrap();
    while let Ok(m) = rx.lock().unwrap().try_recv() { s.push(m) }
    check(s.len() == n as usize, 2);
    for (k, m) in s.iter().enumerate() {
        if !every && k + 1 < n as usize { continue; }
        match &m.render_image { Some(im) => for y in 0..h { for x in 0..w {
            let p = im.get_pixel(x as u32, (h - 1 - y) as u32);
            let c = &cols[2 * (x + y * w)..];
            // sums of alternating colours
            let mut sum = v3(0., 0., 0.);
            for j in 0..=k { sum = add(sum, c[j % 2]) }
            check(*p == to_rgb_color(sum, k as u32 + 1), 3);
        } }, None => check(false, 4) }
    }
}
/// Each sample is taken at a place of its own in both directions: changing one draw moves one sample along one axis, and
/// each sample can be moved along both. shard: width of the image of one row; + 10 * pattern of the draws; + 100 * further samples
pub fn c15_place(sh: u64) {
    let (w, h) = ((sh % 10) as usize, 1usize);
    let samples = 1 + sh as usize / 100;
    let a = w as f64;
    let dx = 2. * a / (w - 1).max(1) as f64;
    let pat = sh / 10 % 10;
    // four tiles per pixel, the sum of samples tells the tile
    let run = |flip: u64| -> Vec<u8> {
        let mut world = vec![];
        for x in 0..w { for t in 0..4usize {
            let c = (t as f64 + 1.) / 8.;
            world.push(q(v3(-a + dx * (x as f64 + 0.5 * (t % 2) as f64), -1. + (t / 2) as f64, -1.), v3(dx * 0.5, 0., 0.), v3(0., 1., 0.), DiffuseLight::new(c * c, 0., 0., None)));
        } }
        let mut s = scene(world, v3(0., 0., 0.), PathTracingShader::new(2));
        s.render_config.width = w;
        s.render_config.height = h;
        s.render_config.samples_per_pixel = samples as u32;
        s.render_config.render_image_strategy = RenderImageStrategy::EverySample;
        let (tx, rx) = channel();
        let (_atx, arx) = channel::<bool>();
        fastrand::vf_act(Box::new(move |n| {
            let high = (match pat { 0 => 0, 1 => 1, 2 => n % 2, _ => n / 2 % 2 }) ^ (n == flip) as u64;
            let lo = 0.01 + 0.5 * high as f64;
            fastrand::vf_range(lo, lo + 0.48);
        }));
        check(ray_trace(s, &tx, &arx).is_ok(), 1);
        drop(tx);
        // the tiles of all samples
        let mut tiles = vec![];
        let mut sums = vec![0f64; w];
        for m in rx.iter() { match m.render_image { Some(im) => {
            let n = tiles.len() / w + 1;
            for x in 0..w {
                let p = *im.get_pixel(x as u32, 0);
                let mut k = 9;
                for t in 0..4u8 { let c = (t as f64 + 1.) / 8.; if p == to_rgb_color(v3(sums[x] + c * c, 0., 0.), n as u32) { k = t } }
                check(k < 4, 2);
                let c = (k as f64 + 1.) / 8.;
                sums[x] += c * c;
                tiles.push(k);
            }
        } None => check(false, 3) } }
        check(tiles.len() == samples * w, 3);
        tiles
    };
    let base = run(999);
    let draws = fastrand::vf_count();
    let mut moved = vec![0; 2 * w * samples];
    for n in 0..draws {
        let other = run(n);
        let mut changes = 0;
        for x in 0..w * samples {
            let d = base[x] ^ other[x];
            if d & 1 == 1 { moved[2 * x] += 1; changes += 1 }
            if d & 2 == 2 { moved[2 * x + 1] += 1; changes += 1 }
        }
        check(changes <= 1, 4);
    }
    for m in &moved { check(*m == 1, 5) }
}
/// Larger images and more samples. shard: 0..4 size, + 10 * kind of samples
pub fn c15_large(sh: u64) {
    let (w, h) = [(24usize, 1usize), (1, 24), (7, 6), (1, 1), (2, 1)][sh as usize % 10];
    let n = [1u64, 3, 40, 300][sh as usize / 10];
    let a = w as f64 / h as f64;
    let dx = 2. * a / (w - 1).max(1) as f64;
    let dy = 2. / (h - 1).max(1) as f64;
    let c = v3(r(0., 1e6), r(0., 1e6), 0.25);
    let b = v3(0.5, r(0., 1e6), 0.125);
    let mut world = vec![];
    let mut cols = vec![];
    // one pixel of any colour, one with the background
    for i in 0..w * h {
        let (x, y) = (i % w, i / w);
        if i == w * h / 3 && w * h > 1 { cols.push(b); continue; }
        let e = if i == w * h / 2 { c } else { v3((i % 8) as f64 / 8., (i / 8) as f64 / 8., 0.0625) };
        cols.push(e);
        world.push(q(v3(-a + dx * x as f64, -1. + dy * y as f64, -1.), v3(dx, 0., 0.), v3(0., dy, 0.), DiffuseLight::new(e.x, e.y, e.z, None)));
    }
    let mut s = scene(world, b, PathTracingShader::new(50));
    s.render_config.width = w;
    s.render_config.height = h;
    s.render_config.samples_per_pixel = n as u32;
    let (tx, rx) = channel();
    let (_atx, arx) = channel::<bool>();
    fastrand::vf_range(0.5, 0.5);
    check(ray_trace(s, &tx, &arx).is_ok(), 1);
    drop(tx);
    let mut k = 0u64;
    for m in rx.iter() {
        k += 1;
        near(m.progress * n as f64, k as f64, 1e-9, 2);
        check(m.render_image.is_some() == (k == n), 3);
        if let Some(im) = m.render_image { for y in 0..h { for x in 0..w {
            check(*im.get_pixel(x as u32, (h - 1 - y) as u32) == to_rgb_color(mul(cols[y * w + x], n as f64), n as u32), 4);
        } } }
    }
    check(k == n, 5);
}
/// Many samples, each of which takes as long as the others. shard: samples
pub fn c14_many(sh: u64) {
    let n = sh;
    let (tx, rx) = channel();
    let rx = Arc::new(Mutex::new(rx));
    let (_atx, arx) = channel::<bool>();
    fastrand::vf_range(0.4, 0.4);
    vf::clock(1_000_000, 0);
    let step = vf::int(1, 1000);
    let seen: Arc<Mutex<Vec<RenderProgress>>> = Arc::new(Mutex::new(Vec::new()));
    let (seen2, rx2) = (seen.clone(), rx.clone());
    fastrand::vf_act(Box::new(move |_| {
        let mut s = seen2.lock().unwrap();
        while let Ok(m) = rx2.lock().unwrap().try_recv() { s.push(m) }
        vf::clock(1_000_000 + step * (s.len() as i64 + 1), 0);
    }));
    let mut s = empty(n as u32, RenderImageStrategy::OnlyFinal, 0);
    s.render_config.width = 1;
    s.render_config.height = 1;
    check(ray_trace(s, &tx, &arx).is_ok(), 1);
    let mut s = seen.lock().unwrap();
    while let Ok(m) = rx.lock().unwrap().try_recv() { s.push(m) }
    check(s.len() as u64 == n, 2);
    for (i, m) in s.iter().enumerate() {
        let done = i as f64 + 1.;
        near(m.progress * n as f64, done, 1e-9, 3);
        check(m.render_image.is_some() == (i as u64 + 1 == n), 4);
        near(m.fps.unwrap() * step as f64, 1., 1e-6, 5);
        near(m.estimated_time_left.as_secs() as f64 + m.estimated_time_left.subsec_nanos() as f64 / 1e9, step as f64 * (n as f64 - done), 1e-6 * n as f64, 6);
    }
}
