//! P15 pixels, P16 progress
use crate::chk;
use crate::g::*;
use crate::shade::scene;
use image::RgbImage;
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::hittable::{Bvh, Hittables, Quad, Sphere};
use solstrale::material::texture::SolidColor;
use solstrale::material::*;
use solstrale::post::NopPostProcessor;
use solstrale::ray_trace;
use solstrale::renderer::shader::*;
use solstrale::renderer::*;
use solstrale::util::rgb_color::to_rgb_color;
use std::sync::mpsc::channel;
use std::time::Duration;

type Case = fn(&mut Gen) -> Res;
pub fn cases(p: &str, v: &mut Vec<(u64, &'static str, Case)>) {
    match p {
        "P15" => {
            v.push((4, "tiles", tiles));
            v.push((1, "direct image", direct));
        }
        "P16" => {
            v.push((6, "reports", reports));
            v.push((1, "abort", abort));
            v.push((1, "prompt abort", prompt_abort));
            v.push((1, "strategies", strategies));
        }
        _ => {}
    }
}
/// render a scene and return the final image
pub fn image(s: Scene) -> Result<RgbImage, Fail> {
    let (tx, rx) = channel();
    let (_atx, arx) = channel();
    let r = ray_trace(s, &tx, &arx);
    drop(tx);
    if let Err(e) = r { return Err(Fail { check: "rendering succeeds".into(), msg: e.to_string() }); }
    match rx.iter().last().and_then(|p| p.render_image) {
        Some(i) => Ok(i),
        None => Err(Fail { check: "rendering delivers a final image".into(), msg: String::new() }),
    }
}
fn far_light() -> Hittables { Sphere::new(Vec3::new(0., 0., 90000.), 1., DiffuseLight::new(1., 1., 1., None)) }
fn size(g: &mut Gen, name: &str, hi: i64) -> usize {
    (if g.one_in(&format!("{}.one", name), 6) { g.i(name, 1, 2) } else { g.i(name, 1, hi) }) as usize
}
/// every pixel looks at a tile of its own, which covers the pixel's area exactly
fn tiles(g: &mut Gen) -> Res {
    let (w, h) = (size(g, "w", 12), size(g, "h", 10));
    let spp = if g.one_in("many", 10) { g.i("spp", 10, 25) } else { g.i("spp", 1, 6) } as u32;
    let fov = g.u("fov", 10., 60.);
    let dist = g.u("dist", 1., 8.);
    let hh = (fov.to_radians() / 2.).tan() * dist;
    let hw = hh * w as f64 / h as f64;
    let (dw, dh) = (2. * hw / (w - 1).max(1) as f64, 2. * hh / (h - 1).max(1) as f64);
    // colours per pixel, row zero at the top
    let mut cols = vec![];
    for _ in 0..w * h { cols.push(Vec3::new(g.rng.f64(), g.rng.f64(), g.rng.f64())); }
    let steps = g.i("nops", 0, 2);
    let every = g.b("every");
    let make = || {
        let mut world = vec![far_light()];
        for r in 0..h {
            for x in 0..w {
                let y = h - 1 - r;
                let c = cols[r * w + x];
                world.push(Quad::new(Vec3::new(-hw + x as f64 * dw, -hh + y as f64 * dh, 0.), Vec3::new(dw, 0., 0.), Vec3::new(0., dh, 0.), Lambertian::new(SolidColor::new(c.x, c.y, c.z), None), &NopTransformer()));
            }
        }
        let mut s = scene(vec![], Vec3::new(0., 0., 0.), AlbedoShader::new());
        s.world = Bvh::new(world);
        s.camera = CameraConfig { vertical_fov_degrees: fov, aperture_size: 0., look_from: Vec3::new(0., 0., dist), look_at: Vec3::new(0., 0., 0.), up: Vec3::new(0., 1., 0.) };
        s.render_config.width = w;
        s.render_config.height = h;
        s.render_config.samples_per_pixel = spp;
        for _ in 0..steps { s.render_config.post_processors.push(NopPostProcessor::new()); }
        if every { s.render_config.render_image_strategy = RenderImageStrategy::EverySample; }
        s
    };
    // a position on the border of a pixel may be rounded to the neighbour's side: a single odd pixel has to be seen again
    let mut bad: std::collections::HashMap<usize, usize> = Default::default();
    let mut odd = 0;
    for round in 0..6 {
        let im = image(make())?;
        chk!(im.width() as usize == w && im.height() as usize == h, "the image has the requested size", "{}x{} instead of {}x{}", im.width(), im.height(), w, h);
        let mut n = 0;
        let mut example = String::new();
        let mut again = false;
        for i in 0..w * h {
            let got = im.get_pixel((i % w) as u32, (i / w) as u32);
            let want = to_rgb_color(cols[i], 1);
            if (0..3).any(|c| (got.0[c] as i32 - want.0[c] as i32).abs() > 1) {
                n += 1;
                let k = bad.entry(i).or_insert(0);
                *k += 1;
                if *k > 1 { again = true; }
                example = format!("pixel {},{} of {}x{} with {} samples: {:?} instead of {:?}", i % w, i / w, w, h, spp, got, want);
            }
        }
        if n > 0 { odd += 1; }
        chk!(n < 4 && !again && odd < 3, "every pixel is the average of its own samples", "{} ({} pixels differ)", example, n);
        if round == 0 && n == 0 { break; }
    }
    Ok(())
}
/// the conversion of accumulated colours to an image
fn direct(g: &mut Gen) -> Res {
    use solstrale::post::PostProcessor;
    let (w, h) = (size(g, "w", 40), size(g, "h", 30));
    let n = g.i("spp", 1, 9) as u32;
    let mut c = vec![];
    for _ in 0..w * h { c.push(Vec3::new(g.rng.f64() * n as f64, g.rng.f64() * n as f64, g.rng.f64() * n as f64)); }
    let z: Vec<Vec3> = vec![];
    let im = match NopPostProcessor::new().post_process(&c, &z, &z, w as u32, h as u32, n) { Ok(x) => x, Err(e) => { chk!(false, "the image is made", "{}", e); return Ok(()); } };
    chk!(im.width() as usize == w && im.height() as usize == h, "the image has the requested size", "{}x{}", im.width(), im.height());
    for y in 0..h {
        for x in 0..w {
            let want = to_rgb_color(c[y * w + x], n);
            chk!(*im.get_pixel(x as u32, y as u32) == want, "every pixel shows its own average", "pixel {},{} of {}x{}", x, y, w, h);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P16
fn small(g: &mut Gen, n: u32) -> Scene {
    let mut s = scene(vec![Sphere::new(Vec3::new(0., 0., 0.), 1., DiffuseLight::new(1., 1., 1., None))], Vec3::new(0., 0., 0.), AlbedoShader::new());
    s.render_config.width = size(g, "w", 4);
    s.render_config.height = size(g, "h", 4);
    s.render_config.samples_per_pixel = n;
    for _ in 0..g.i("nops", 0, 2) { s.render_config.post_processors.push(NopPostProcessor::new()); }
    s
}
fn reports(g: &mut Gen) -> Res {
    let n = if g.one_in("few", 4) { g.i("samples", 0, 2) } else { g.i("samples", 0, 40) } as u32;
    let mut s = small(g, n);
    let (w, h) = (s.render_config.width, s.render_config.height);
    let kind = g.i("strategy", 0, 3);
    s.render_config.render_image_strategy = match kind {
        0 => RenderImageStrategy::EverySample,
        1 => RenderImageStrategy::OnlyFinal,
        2 => RenderImageStrategy::Interval(Duration::from_secs(86400)),
        _ => RenderImageStrategy::Interval(Duration::MAX),
    };
    let (tx, rx) = channel();
    let (atx, arx) = channel::<bool>();
    let how = g.i("abort", 0, 5);
    if how == 0 { let _ = atx.send(true); }
    if how == 1 { drop(atx); }
    if how == 2 {
        drop(rx);
        let r = ray_trace(s, &tx, &arx);
        chk!(r.is_err() || n == 0, "a report that cannot be delivered is an error", "ok");
        return Ok(());
    }
    let r = ray_trace(s, &tx, &arx);
    drop(tx);
    let ps: Vec<_> = rx.iter().collect();
    chk!(r.is_ok(), "a finished or aborted render reports no error", "{:?}", r.err().map(|e| e.to_string()));
    if how == 0 {
        chk!(ps.is_empty(), "no round is started after an abort request", "{} reports", ps.len());
        return Ok(());
    }
    chk!(ps.len() == n as usize, "one report per sample round", "{} reports for {} rounds", ps.len(), n);
    for (i, p) in ps.iter().enumerate() {
        let last = i + 1 == ps.len();
        chk!(near(p.progress, (i + 1) as f64 / n as f64, 1e-9), "the progress is the fraction of rounds", "report {} of {}: {}", i + 1, n, p.progress);
        if last { chk!(p.progress == 1., "the last fraction is one", "{}", p.progress); }
        if i > 0 { chk!(p.progress > ps[i - 1].progress, "the fractions increase", "{} {}", ps[i - 1].progress, p.progress); }
        let want = match kind { 0 => true, 2 => last || i == 0, _ => last };
        chk!(p.render_image.is_some() == want, "images come in exactly the reports that the strategy asks for", "report {} of {}, strategy {}: {}", i + 1, n, kind, p.render_image.is_some());
        if let Some(im) = &p.render_image { chk!(im.width() as usize == w && im.height() as usize == h, "the images have the requested size", "{}x{}", im.width(), im.height()); }
    }
    Ok(())
}
/// an abort request in the middle ends the render well before its last round
fn abort(g: &mut Gen) -> Res {
    if g.i("rare", 0, 10) != 0 { return Ok(()); }
    let n = 60000;
    let k = g.i("after", 1, 40) as usize;
    let mut s = small(g, n);
    if g.b("every") { s.render_config.render_image_strategy = RenderImageStrategy::EverySample; }
    let (tx, rx) = channel();
    let (atx, arx) = channel();
    let (mut count, mut last) = (0usize, 0.);
    let mut steady = true;
    let ok = std::thread::scope(|sc| {
        let t = sc.spawn(move || ray_trace(s, &tx, &arx).is_ok());
        for p in rx.iter() {
            count += 1;
            if p.progress <= last { steady = false; }
            last = p.progress;
            if count == k { let _ = atx.send(true); }
        }
        t.join().unwrap_or(false)
    });
    chk!(ok, "an aborted render reports no error", "error after {} reports", count);
    chk!(steady, "the fractions increase", "{}", last);
    chk!(count < n as usize, "no round is started after an abort request", "all {} rounds were run", n);
    Ok(())
}
/// after an abort request only the round that is under way is finished. The request is sent from another thread,
/// which may be slow to do so: only the quickest of several tries counts, and a miss is seen in all of many more tries
fn prompt_abort(g: &mut Gen) -> Res {
    if g.i("rare", 0, 15) != 0 { return Ok(()); }
    let k = g.i("after", 1, 12) as usize;
    let n = k as u32 + 40;
    let every = g.b("every");
    let mut least = usize::MAX;
    for _ in 0..30 {
        let mut s = scene(vec![Sphere::new(Vec3::new(0., 0., 0.), 1., DiffuseLight::new(1., 1., 1., None))], Vec3::new(0., 0., 0.), AlbedoShader::new());
        s.render_config.width = 100;
        s.render_config.height = 100;
        s.render_config.samples_per_pixel = n;
        if every { s.render_config.render_image_strategy = RenderImageStrategy::EverySample; }
        let (tx, rx) = channel();
        let (atx, arx) = channel();
        let mut count = 0usize;
        std::thread::scope(|sc| {
            sc.spawn(move || ray_trace(s, &tx, &arx).is_ok());
            for _ in rx.iter() {
                count += 1;
                if count == k { let _ = atx.send(true); }
            }
        });
        least = least.min(count - k);
        if least <= 2 { return Ok(()); }
    }
    chk!(false, "no round is started after an abort request", "in 30 tries at least {} rounds after the abort request in round {}", least, k);
    Ok(())
}
fn strategies(g: &mut Gen) -> Res {
    use std::time::SystemTime;
    let n = g.i("n", 1, 20) as u32;
    let i = g.i("i", 1, n as i64) as u32;
    let d = Duration::from_millis(g.i("interval", 0, 3000) as u64);
    let e = Duration::from_millis(g.i("elapsed", 0, 3000) as u64);
    let last = SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000);
    let back = g.one_in("back", 5);
    let now = if back { last - e } else { last + e };
    let passed = if back { Duration::ZERO } else { e };
    let f = |s: RenderImageStrategy| s.should_generate_image(i, n, now, last);
    chk!(f(RenderImageStrategy::EverySample), "every report has an image", "{} of {}", i, n);
    chk!(f(RenderImageStrategy::OnlyFinal) == (i == n), "only the last report has an image", "{} of {}", i, n);
    chk!(f(RenderImageStrategy::Interval(d)) == (i == n || passed > d), "images come when the interval has passed, and with the last report", "{} of {}, {:?} {:?}", i, n, passed, d);
    Ok(())
}
