//! P17 tone mapping, P18 textures, P19 normal maps, P20 bloom.
use crate::chk;
use crate::g::*;
use image::{Rgb, RgbImage};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Uv;
use solstrale::material::texture::{load_normal_texture, ImageMap, SolidColor, Texture};
use solstrale::post::{BloomPostProcessor, NopPostProcessor, PostProcessor};
use solstrale::util::gaussian::create_gaussian_blur_weights;
use solstrale::util::height_map::to_normal_map;
use solstrale::util::rgb_color::to_rgb_color;
use std::sync::Arc;

pub fn cases(p: &str, v: &mut Vec<(u64, &'static str, fn(&mut Gen) -> Res)>) {
    match p {
        "P17" => {
            v.push((8, "tone", tone));
            v.push((1, "frame", frame));
        }
        "P18" => {
            v.push((4, "lookup", lookup));
            v.push((1, "solid", solid));
        }
        "P19" => {
            v.push((30, "normals", normals));
            v.push((1, "loading", loading));
        }
        "P20" => {
            v.push((4, "weights", weights));
            v.push((8, "bloom", bloom));
            v.push((2, "no_bright", no_bright));
        }
        _ => {}
    }
}
fn channel(g: &mut Gen, n: &str, s: f64) -> f64 {
    match g.i(&format!("{}.kind", n), 0, 13) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.,
        4 => -g.lg(n, 1e-12, 1e12),
        5 => s * g.u(n, 0.98, 1.02),
        6 => g.lg(n, 1e-300, 1e300),
        7 => {
            // close to a step between two bytes
            let k = g.i(&format!("{}.step", n), 0, 256) as f64 / 256.;
            k * k * s * (1. + g.i(&format!("{}.side", n), -1, 1) as f64 * 1e-7)
        }
        _ => s * g.u(n, 0., 1.1),
    }
}
/// the bytes that a summed channel may become (two of them at a step)
fn byte_range(x: f64, n: f64) -> (u8, u8) {
    if x.is_nan() || x <= 0. { return (0, 0); }
    let f = |k: f64| -> u8 { ((x / n * k).sqrt() * 256.).floor().clamp(0., 255.) as u8 };
    (f(1. - 1e-9), f(1. + 1e-9))
}
fn samples(g: &mut Gen) -> u32 {
    if g.one_in("one", 3) { 1 } else { g.lg("samples", 1., 4e9) as u32 }
}
fn tone(g: &mut Gen) -> Res {
    let n = samples(g);
    let s = n as f64;
    let c = [channel(g, "r", s), channel(g, "g", s), channel(g, "b", s)];
    let o = to_rgb_color(Vec3 { x: c[0], y: c[1], z: c[2] }, n).0;
    for i in 0..3 {
        let (lo, hi) = byte_range(c[i], s);
        if c[i].is_nan() || c[i] <= 0. { chk!(o[i] == 0, "zero, negative and undefined values give zero", "{} became {}", c[i], o[i]); }
        if c[i] >= s { chk!(o[i] == 255, "an average of one or more gives 255", "{} over {} became {}", c[i], n, o[i]); }
        chk!(lo <= o[i] && o[i] <= hi, "the byte is the square root of the average in its own channel", "{} over {} became {} instead of {}", c[i], n, o[i], lo);
    }
    let (a, b) = (c[0].max(0.), channel(g, "t", s));
    if b >= a {
        let q = to_rgb_color(Vec3 { x: b, y: b, z: b }, n).0;
        let p = to_rgb_color(Vec3 { x: a, y: a, z: a }, n).0;
        chk!(p[0] <= q[0] && p[1] <= q[1] && p[2] <= q[2], "brighter input never gives a darker byte", "{} gives {:?}, {} gives {:?}", a, p, b, q);
    }
    Ok(())
}
fn frame(g: &mut Gen) -> Res {
    let (w, h) = (g.i("w", 1, 6) as u32, g.i("h", 1, 6) as u32);
    let n = samples(g);
    let px: Vec<Vec3> = (0..w * h).map(|i| Vec3 { x: channel(g, &format!("{}.r", i), n as f64), y: channel(g, &format!("{}.g", i), n as f64), z: channel(g, &format!("{}.b", i), n as f64) }).collect();
    let img = NopPostProcessor::new().post_process(&px, &[], &[], w, h, n);
    let img = match img { Ok(i) => i, Err(e) => { chk!(false, "writing an image does not fail", "{}", e); return Ok(()); } };
    chk!(img.dimensions() == (w, h), "the image has the requested size", "{:?} instead of {:?}", img.dimensions(), (w, h));
    for y in 0..h {
        for x in 0..w {
            let c = px[(y * w + x) as usize];
            let o = img.get_pixel(x, y).0;
            for (v, b) in [(c.x, o[0]), (c.y, o[1]), (c.z, o[2])] {
                let (lo, hi) = byte_range(v, n as f64);
                chk!(lo <= b && b <= hi, "every pixel is the tone-mapped colour of its own position", "({},{}) {} became {} instead of {}", x, y, v, b, lo);
            }
        }
    }
    Ok(())
}
fn picture(g: &mut Gen, maxdim: i64) -> RgbImage {
    let (w, h) = (g.i("w", 1, maxdim) as u32, g.i("h", 1, maxdim) as u32);
    let s = g.i("pixels", 0, 1 << 40) as u64;
    let mut r = fastrand::Rng::with_seed(s);
    RgbImage::from_fn(w, h, |_, _| Rgb([r.u8(..), r.u8(..), r.u8(..)]))
}
fn lookup(g: &mut Gen) -> Res {
    let img = picture(g, 9);
    let (w, h) = img.dimensions();
    let t = ImageMap::new(Arc::new(img.clone()));
    for i in 0..8 {
        let co = |g: &mut Gen, n: &str, m: u32| -> f32 {
            match g.i(&format!("{}{}.kind", n, i), 0, 6) {
                0 => g.i(&format!("{}{}", n, i), -3, 3) as f32,
                1 => g.f(&format!("{}{}", n, i), -1000., 1000.) as f32,
                2 if m > 1 => (g.i(&format!("{}{}", n, i), 0, m as i64 - 1) as f32 + 0.5) / (m - 1) as f32 * if g.b(&format!("{}{}.neg", n, i)) { -1. } else { 1. },
                3 => g.lg(&format!("{}{}", n, i), 1e-30, 1e30) as f32,
                4 => 1. - g.lg(&format!("{}{}", n, i), 1e-7, 1e-2) as f32,
                _ => g.u(&format!("{}{}", n, i), -2., 2.) as f32,
            }
        };
        let (u, v) = (co(g, "u", w), co(g, "v", h));
        let c = t.color(Uv { u, v });
        let (x, y) = ((u.abs() % 1.) as f64 * (w - 1) as f64, (1. - (v.abs() % 1.) as f64) * (h - 1) as f64);
        // rounding may select the neighbour at a texel border
        let mut ok = false;
        let mut want = vec![];
        for (dx, dy) in [(0., 0.), (-1., 0.), (1., 0.), (0., -1.), (0., 1.), (-1., -1.), (1., 1.), (1., -1.), (-1., 1.)] {
            let e = 2e-6;
            let p = img.get_pixel(((x + dx * e).max(0.) as u32).min(w - 1), ((y + dy * e).max(0.) as u32).min(h - 1)).0;
            let k = Vec3 { x: p[0] as f64 / 255., y: p[1] as f64 / 255., z: p[2] as f64 / 255. };
            if nearv(c, k, 1e-6) { ok = true; }
            want.push(k);
        }
        chk!(ok, "the colour is that of the texel at the wrapped coordinates", "({}, {}) of {}x{} gives {:?} instead of {:?}", u, v, w, h, c, want[0]);
    }
    Ok(())
}
fn solid(g: &mut Gen) -> Res {
    let c = g.v("c", 5.);
    let uv = Uv { u: g.f("u", -3., 3.) as f32, v: g.f("v", -3., 3.) as f32 };
    for t in [SolidColor::new(c.x, c.y, c.z), SolidColor::new_from_vec3(c)] {
        chk!(t.color(uv) == c, "a solid colour is the same everywhere", "{:?} instead of {:?}", t.color(uv), c);
    }
    let a = [c.x as f32, c.y as f32, c.z as f32];
    let d = SolidColor::new_from_f32_array(a).color(uv);
    chk!(d == Vec3 { x: a[0] as f64, y: a[1] as f64, z: a[2] as f64 }, "a solid colour is the same everywhere", "{:?} instead of {:?}", d, a);
    Ok(())
}
/// the unit normal of the height map at a texel, scaled to bytes
fn normal_at(img: &RgbImage, x: u32, y: u32) -> [f64; 3] {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let f = |dx: i64, dy: i64| img.get_pixel((x as i64 + dx).clamp(0, w - 1) as u32, (y as i64 + dy).clamp(0, h - 1) as u32).0[0] as f64 / 255.;
    let gx = f(1, 1) - f(-1, 1) + 2. * (f(1, 0) - f(-1, 0)) + f(1, -1) - f(-1, -1);
    let gy = f(-1, -1) - f(-1, 1) + 2. * (f(0, -1) - f(0, 1)) + f(1, -1) - f(1, 1);
    let n = unit(Vec3 { x: -gx, y: -gy, z: 1. / 6. });
    [(n.x + 1.) * 127.5, (n.y + 1.) * 127.5, (n.z + 1.) * 127.5]
}
fn heights(g: &mut Gen, maxdim: i64) -> RgbImage {
    let (w, h) = (g.i("w", 1, maxdim) as u32, g.i("h", 1, maxdim) as u32);
    let kind = g.i("kind", 0, 4);
    let (a, b) = (g.i("a", -9, 9) as i32, g.i("b", -9, 9) as i32);
    let s = g.i("pixels", 0, 1 << 40) as u64;
    let mut r = fastrand::Rng::with_seed(s);
    let base = r.u8(..);
    RgbImage::from_fn(w, h, |x, y| {
        let v = match kind {
            0 => base,
            1 => r.u8(..),
            2 => (128 + a * (x as i32 - w as i32 / 2) + b * (y as i32 - h as i32 / 2)).clamp(0, 255) as u8,
            3 => base.saturating_add(r.u8(0..3)),
            _ => if r.u8(0..6) == 0 { r.u8(..) } else { base },
        };
        Rgb([v, v, v])
    })
}
fn normals(g: &mut Gen) -> Res {
    let img = heights(g, 8);
    let n = to_normal_map(img.clone());
    chk!(n.dimensions() == img.dimensions(), "the normal map has the size of the height map", "{:?} instead of {:?}", n.dimensions(), img.dimensions());
    for (x, y, p) in n.enumerate_pixels() {
        let want = normal_at(&img, x, y);
        for i in 0..3 {
            let b = p.0[i] as f64;
            chk!(b <= want[i] + 1e-3 && want[i] - 1e-3 < b + 1., "every texel encodes the unit normal of the slopes", "({},{}) channel {} is {} instead of {}", x, y, i, b, want[i]);
        }
    }
    Ok(())
}
pub fn scratch_dir() -> std::path::PathBuf { std::env::temp_dir().join(format!("verif-harness-{}", std::process::id())) }
pub fn scratch(name: &str) -> std::path::PathBuf {
    let d = scratch_dir();
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{:?}", name, std::thread::current().id()))
}
fn loading(g: &mut Gen) -> Res {
    let p = scratch("bump.png");
    let gray = g.b("gray");
    let img = if gray {
        // nowhere a gray that could also be a normal
        let mut i = heights(g, 6);
        for q in i.pixels_mut() { if (100..200).contains(&q.0[0]) { q.0 = [90; 3]; } }
        i
    } else {
        let (w, h) = (g.i("nw", 1, 6) as u32, g.i("nh", 1, 6) as u32);
        let s = g.i("npixels", 0, 1 << 40) as u64;
        let mut r = fastrand::Rng::with_seed(s);
        RgbImage::from_fn(w, h, |_, _| Rgb([100 + r.u8(0..56), 100 + r.u8(0..56), 235 + r.u8(0..20)]))
    };
    let ok = img.save_with_format(&p, image::ImageFormat::Png).is_ok();
    chk!(ok, "scratch file", "cannot write {:?}", p);
    let t = load_normal_texture(p.to_str().unwrap());
    let gone = scratch("missing.png");
    let bad = load_normal_texture(gone.to_str().unwrap());
    let _ = std::fs::write(&p, b"this is no image");
    let worse = load_normal_texture(p.to_str().unwrap());
    let _ = std::fs::remove_file(&p);
    chk!(bad.is_err() && worse.is_err(), "a missing or malformed image is an error", "");
    let t = match t { Ok(t) => t, Err(e) => { chk!(false, "a bump map can be loaded", "{}", e); return Ok(()); } };
    let (w, h) = img.dimensions();
    let want = if gray { to_normal_map(img.clone()) } else { img.clone() };
    for y in 0..h {
        for x in 0..w {
            // centre of the texel in lookup coordinates
            let uv = Uv { u: if w > 1 { (x as f32 + 0.5).min(w as f32 - 1.001) / (w - 1) as f32 } else { 0. }, v: if h > 1 { 1. - (y as f32 + 0.5).min(h as f32 - 1.001) / (h - 1) as f32 } else { 0.5 } };
            if w > 1 && x == w - 1 || h > 1 && y == h - 1 { continue; }
            let c = t.color(uv);
            let k = want.get_pixel(x, y).0;
            let k = Vec3 { x: k[0] as f64 / 255., y: k[1] as f64 / 255., z: k[2] as f64 / 255. };
            chk!(nearv(c, k, 1e-6), if gray { "a height map is converted" } else { "a normal map is kept" }, "({},{}) is {:?} instead of {:?}", x, y, c, k);
        }
    }
    Ok(())
}

fn weights(g: &mut Gen) -> Res {
    let n = if g.one_in("large", 20) { g.i("n.large", 1, 400) } else { g.i("n", 1, 24) } as usize;
    let sigma = g.lg("sigma", 0.05, 50.);
    let w = create_gaussian_blur_weights(n, sigma);
    chk!(w.len() == n, "there is one weight per position", "{} instead of {}", w.len(), n);
    let s: f64 = w.iter().sum();
    chk!(near(s, 1., 1e-9), "the weights sum to one", "{}", s);
    for i in 0..n {
        chk!(w[i] >= 0., "weights are not negative", "{} at {}", w[i], i);
        chk!(near(w[i], w[n - 1 - i], 1e-9), "the weights are symmetric", "{} at {} and {} at {}", w[i], i, w[n - 1 - i], n - 1 - i);
        if i > 0 && 2 * i <= n - 1 { chk!(w[i - 1] <= w[i] + 1e-12, "the weights decrease from the centre", "{} at {} and {} at {}", w[i - 1], i - 1, w[i], i); }
    }
    Ok(())
}
fn plen(c: Vec3) -> f64 { len(c) }
/// pixel plus the separable blur of the bright part, straight from the definition
fn reference(px: &[Vec3], w: usize, h: usize, n: f64, fraction: f64, threshold: f64, max: f64) -> Vec<Vec3> {
    let r = (fraction * w as f64) as i64;
    let k = (2 * r + 1) as usize;
    let g: Vec<f64> = (0..k).map(|i| { let a = (i as f64 - r as f64) / (k as f64 / 5.); (-0.5 * a * a).exp() }).collect();
    let total: f64 = g.iter().sum();
    let zero = Vec3 { x: 0., y: 0., z: 0. };
    let bright: Vec<Vec3> = px.iter().map(|c| {
        let l = plen(*c);
        if l < threshold * n { zero } else if l > max * n { mul(*c, max * n / l) } else { *c }
    }).collect();
    let at = |b: &[Vec3], x: i64, y: i64| b[(y.clamp(0, h as i64 - 1) as usize) * w + x.clamp(0, w as i64 - 1) as usize];
    let mut out = vec![];
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let mut s = px[y as usize * w + x as usize];
            for j in -r..=r {
                for i in -r..=r {
                    s = add(s, mul(at(&bright, x + i, y + j), g[(i + r) as usize] / total * g[(j + r) as usize] / total));
                }
            }
            out.push(s);
        }
    }
    out
}
struct Glow { px: Vec<Vec3>, w: usize, h: usize, n: u32, fraction: f64, threshold: Option<f64>, max: Option<f64> }
fn glow(g: &mut Gen, dark: bool) -> Glow {
    let (w, h) = (g.i("w", 1, 12) as usize, g.i("h", 1, 9) as usize);
    let n = if g.b("one") { 1 } else { g.i("samples", 2, 900) as u32 };
    let threshold = if g.b("default") { None } else { Some(g.lg("threshold", 0.05, 4.)) };
    let t = threshold.unwrap_or(3f64.sqrt());
    let max = if g.b("unlimited") { None } else { Some(t * g.lg("max", 0.5, 4.)) };
    let s = g.i("pixels", 0, 1 << 40) as u64;
    let mut r = fastrand::Rng::with_seed(s);
    let p = g.f("density", 0., 1.);
    let px = (0..w * h).map(|_| {
        let c = Vec3 { x: r.f64(), y: r.f64(), z: r.f64() };
        let k = if dark || r.f64() > p { 0.97 * t * r.f64() } else { t * (1.03 + 5. * r.f64()) };
        mul(c, k * n as f64 / len(c).max(1e-3))
    }).map(|c| if dark && len(c) >= t * n as f64 * 0.98 { mul(c, 0.5) } else { c }).collect();
    Glow { px, w, h, n, fraction: g.f("fraction", 0., 0.5), threshold, max }
}
fn bloomed(b: &Glow) -> Result<Vec<Vec3>, Fail> {
    let p = BloomPostProcessor::new(b.fraction, b.threshold, b.max);
    chk!(p.is_ok(), "a kernel size between 0 and a half is accepted", "{}", b.fraction);
    let p = p.unwrap();
    let o = p.intermediate_post_process(&b.px, &[], &[], b.w as u32, b.h as u32, b.n);
    chk!(o.is_ok(), "bloom does not fail", "");
    let o = o.unwrap();
    chk!(o.len() == b.px.len(), "bloom keeps the image size", "{} instead of {}", o.len(), b.px.len());
    let img = p.post_process(&b.px, &[], &[], b.w as u32, b.h as u32, b.n);
    chk!(img.is_ok(), "bloom does not fail", "");
    let img = img.unwrap();
    chk!(img.dimensions() == (b.w as u32, b.h as u32), "bloom keeps the image size", "{:?}", img.dimensions());
    for (i, c) in o.iter().enumerate() {
        let q = img.get_pixel((i % b.w) as u32, (i / b.w) as u32).0;
        let k = to_rgb_color(*c, b.n).0;
        chk!((0..3).all(|j| (q[j] as i32 - k[j] as i32).abs() <= 1), "the final image is the tone-mapped bloom", "pixel {} is {:?} instead of {:?}", i, q, k);
    }
    Ok(o)
}
fn bloom(g: &mut Gen) -> Res {
    let b = glow(g, false);
    let o = bloomed(&b)?;
    let want = reference(&b.px, b.w, b.h, b.n as f64, b.fraction, b.threshold.unwrap_or(3f64.sqrt()), b.max.unwrap_or(f64::MAX));
    for i in 0..o.len() {
        chk!(nearv(o[i], want[i], 1e-9), "every pixel gets the blur of the bright part added", "pixel {} of {}x{} is {:?} instead of {:?}", i, b.w, b.h, o[i], want[i]);
    }
    Ok(())
}
fn no_bright(g: &mut Gen) -> Res {
    let b = glow(g, true);
    let o = bloomed(&b)?;
    for i in 0..o.len() {
        chk!(o[i] == b.px[i], "without bright pixels the image is unchanged", "pixel {} is {:?} instead of {:?}", i, o[i], b.px[i]);
    }
    let bad = g.lg("bad", 0.500001, 100.);
    chk!(BloomPostProcessor::new(bad, None, None).is_err() && BloomPostProcessor::new(-bad, None, None).is_err(), "other kernel sizes are refused", "{}", bad);
    Ok(())
}
