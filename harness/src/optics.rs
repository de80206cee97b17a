//! P09 optics, P12 light sampling, P13 materials
use crate::chk;
use crate::g::*;
use crate::scene::*;
use crate::geom::aimed;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Onb, Ray, Uv};
use solstrale::hittable::{ConstantMedium, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::*;
use solstrale::pdf::{mix_generate, mix_value, ContainerPdf, CosinePdf, Pdf, SpherePdf};
use solstrale::util::interval::RAY_INTERVAL;
use std::f64::consts::PI;
use std::sync::Arc;

type Case = fn(&mut Gen) -> Res;
pub fn cases(p: &str, v: &mut Vec<(u64, &'static str, Case)>) {
    match p {
        "P09" => {
            v.push((3, "reflect", reflect));
            v.push((3, "refract", refract));
            v.push((3, "metal", metal));
            v.push((2, "dielectric", dielectric));
        }
        "P12" => {
            v.push((3, "flat light density", flat_density));
            v.push((3, "sphere light density", sphere_density));
            v.push((1, "flat light sampling", flat_sampling));
            v.push((0, "triangle light sampling", triangle_sampling));
            v.push((1, "sphere light sampling", sphere_sampling));
            v.push((2, "several lights", several));
            v.push((2, "mixture", mixture));
            v.push((2, "material densities", densities));
        }
        "P13" => {
            v.push((3, "diffuse weights", diffuse));
            v.push((1, "diffuse directions", diffuse_dirs));
            v.push((2, "isotropic", isotropic));
            v.push((3, "emission", emission));
            v.push((1, "blend", blend));
            v.push((1, "blend normals", blend_normal));
            v.push((1, "lights", is_light));
            v.push((2, "normal map", normal_map));
            v.push((2, "surface basis", surface_basis));
        }
        _ => {}
    }
}
pub fn solid(g: &mut Gen, name: &str) -> (Vec3, Textures) {
    let c = colour(g, name);
    (c, SolidColor::new(c.x, c.y, c.z))
}
/// a texture that has different colours at different places
pub fn tex(g: &mut Gen, name: &str) -> (Textures, Uv) {
    let (w, h) = (g.i("tw", 2, 4) as u32, g.i("th", 2, 4) as u32);
    let mut im = image::RgbImage::new(w, h);
    for p in im.pixels_mut() { *p = image::Rgb([g.rng.u8(..), g.rng.u8(..), g.rng.u8(..)]); }
    let uv = Uv::new(g.u(&format!("{}.u", name), 0., 1.) as f32, g.u(&format!("{}.v", name), 0., 1.) as f32);
    (ImageMap::new(Arc::new(im)), uv)
}
pub fn tex_color(t: &Textures, uv: Uv) -> Vec3 {
    use solstrale::material::texture::Texture;
    t.color(uv)
}
fn onb(n: Vec3) -> Onb { Onb::new(n) }
fn basic(s: RayScatter) -> Result<ScatterBasic, Fail> {
    match s {
        RayScatter::ScatterBasic(b) => Ok(b),
        _ => Err(Fail { check: "specular materials scatter without density".into(), msg: "another kind of scattering".into() }),
    }
}
fn with_pdf(s: RayScatter) -> Result<ScatterPdf, Fail> {
    match s {
        RayScatter::ScatterPdf(b) => Ok(b),
        _ => Err(Fail { check: "the material scatters with a density".into(), msg: "another kind of scattering".into() }),
    }
}
fn mirror(v: Vec3, n: Vec3) -> Vec3 { sub(v, mul(n, 2. * dot(v, n))) }
fn frequency(hits: u64, n: u64, p: f64) -> bool { (hits as f64 - n as f64 * p).abs() <= 7. * (n as f64 * p * (1. - p)).sqrt() + 8. }

fn reflect(g: &mut Gen) -> Res {
    let v = g.v("v", 5.);
    let n = udir(g, "n");
    let r = v.reflect(n);
    let w = mirror(v, n);
    chk!(nearv(r, w, 1e-9), "reflection mirrors the direction", "{:?} expected {:?}", r, w);
    Ok(())
}
fn against(g: &mut Gen) -> (Vec3, Vec3, f64) {
    let n = udir(g, "n");
    let mut v = udir(g, "v");
    if g.one_in("normal incidence", 12) { v = mul(n, -1.); }
    if g.one_in("grazing", 6) { v = unit(add(cross(n, v), mul(n, -0.02))); }
    if dot(v, n) > 0. { v = mul(v, -1.); }
    let c = -dot(v, n);
    (n, v, c.min(1.))
}
fn snell(v: Vec3, n: Vec3, c: f64, eta: f64) -> Vec3 {
    let t = mul(add(v, mul(n, c)), eta);
    sub(t, mul(n, (1. - dot(t, t)).max(0.).sqrt()))
}
fn refract(g: &mut Gen) -> Res {
    let (n, v, c) = against(g);
    let eta = g.lg("eta", 0.3, 3.);
    let s2 = eta * eta * (1. - c * c);
    if s2 > 0.999 { return Ok(()); }
    let r = v.refract(n, eta);
    let w = snell(v, n, c, eta);
    chk!(nearv(r, w, 1e-6), "refraction obeys Snell's law", "{:?} expected {:?}", r, w);
    Ok(())
}
fn metal(g: &mut Gen) -> Res {
    let n = udir(g, "n");
    let d = mul(udir(g, "d"), g.lg("k", 0.05, 20.));
    let f = match g.i("fz", 0, 2) { 0 => 0., 1 => g.f("fuzz", 0., 1.), _ => g.lg("fuzz", 1e-3, 4.) };
    let (t, uv) = tex(g, "t");
    let c = tex_color(&t, uv);
    let m = Metal::new(t, None, f);
    let p = g.v("p", 9.);
    let ff = g.b("front");
    let rec = RayHit::new(p, onb(n), &m, g.f("t", 0., 5.), uv, ff);
    let w = mirror(unit(d), n);
    let mut far: f64 = 0.;
    for _ in 0..40 {
        let b = basic(m.scatter(&Ray::new(g_o(p), d), &rec, &[]))?;
        let e = len(sub(b.ray.direction, w));
        chk!(e <= f * (1. + 1e-9) + 1e-9, "the scattered direction is at most the fuzz away from the mirror direction", "{} away with fuzz {}", e, f);
        chk!(nearv(b.ray.origin, p, 1e-12), "the scattered ray starts at the hit point", "{:?}", b.ray.origin);
        chk!(nearv(b.color, c, 1e-12), "the attenuation is the texture colour", "{:?} expected {:?}", b.color, c);
        far = far.max(e);
    }
    Ok(())
}
fn g_o(p: Vec3) -> Vec3 { add(p, Vec3::new(1., 2., 3.)) }
fn dielectric(g: &mut Gen) -> Res {
    let (n, v, c) = against(g);
    let d = mul(v, g.lg("k", 0.05, 20.));
    let idx = match g.i("ik", 0, 2) { 0 => 1.5, 1 => g.lg("index", 0.4, 3.), _ => g.lg("index", 1.01, 2.5) };
    let front = g.b("front");
    let (t, uv) = tex(g, "t");
    let col = tex_color(&t, uv);
    let m = Dielectric::new(t, None, idx);
    let p = g.v("p", 9.);
    let rec = RayHit::new(p, onb(n), &m, 1., uv, front);
    let eta = if front { 1. / idx } else { idx };
    let s = eta * (1. - c * c).max(0.).sqrt();
    if (s - 1.).abs() < 1e-6 { return Ok(()); }
    let refl = mirror(v, n);
    let refr = snell(v, n, c, eta);
    let q = (1. - eta) / (1. + eta);
    let r0 = q * q;
    let f = if s > 1. { 1. } else { (r0 + (1. - r0) * (1. - c).powi(5)).clamp(0., 1.) };
    let same = len(sub(refl, refr)) < 1e-4;
    let (mut k, n_) = (0u64, 300u64);
    for _ in 0..n_ {
        let b = basic(m.scatter(&Ray::new(g_o(p), d), &rec, &[]))?;
        let x = b.ray.direction;
        chk!(nearv(b.ray.origin, p, 1e-12), "the scattered ray starts at the hit point", "{:?}", b.ray.origin);
        chk!(nearv(b.color, col, 1e-12), "the attenuation is the texture colour", "{:?} expected {:?}", b.color, col);
        if len(sub(x, refl)) < 1e-5 { k += 1; }
        else {
            chk!(s <= 1., "total reflection reflects", "{:?} expected {:?}", x, refl);
            chk!(len(sub(x, refr)) < 1e-5, "the refracted ray obeys Snell's law with the index of the side it comes from", "{:?} expected {:?} or {:?}", x, refr, refl);
        }
    }
    chk!(same || frequency(k, n_, f), "reflection is chosen by Schlick's reflectance", "{} of {} reflected, expected {}", k, n_, f);
    Ok(())
}

// ---------------------------------------------------------------- P12
struct Flat { h: Hittables, a: Vec3, u: Vec3, v: Vec3, tri: bool }
fn flat(g: &mut Gen) -> Flat {
    let a = g.v("a", 8.);
    let s = g.lg("size", 0.3, 6.);
    let u = mul(udir(g, "u"), s);
    let mut v = mul(udir(g, "v"), s * g.lg("ratio", 0.4, 2.5));
    if len(cross(unit(u), unit(v))) < 0.2 { v = add(v, mul(unit(cross(u, Vec3::new(0.3, 0.5, 0.81))), len(v))); }
    let tri = g.b("tri");
    let m = light(g, "m");
    let h = if tri { Triangle::new(a, add(a, u), add(a, v), m, &NopTransformer()) } else { Quad::new(a, u, v, m, &NopTransformer()) };
    Flat { h, a, u, v, tri }
}
/// plane coordinates of the crossing point and its parameter
fn plane(f: &Flat, o: Vec3, d: Vec3) -> Option<(f64, f64, f64)> {
    let n = cross(f.u, f.v);
    let den = dot(n, d);
    if den.abs() < 1e-9 { return None; }
    let t = dot(sub(f.a, o), n) / den;
    let q = sub(add(o, mul(d, t)), f.a);
    let nn = dot(n, n);
    Some((dot(n, cross(q, f.v)) / nn, dot(n, cross(f.u, q)) / nn, t))
}
fn away(g: &mut Gen, f: &Flat) -> Vec3 {
    let n = unit(cross(f.u, f.v));
    let s = if g.b("side") { 1. } else { -1. };
    add(add(f.a, mul(n, s * g.lg("dist", 0.3, 20.))), mul(g.v("off", 1.), len(f.u)))
}
fn flat_density(g: &mut Gen) -> Res {
    let f = flat(g);
    let o = away(g, &f);
    let (x, y) = (g.u("x", -0.3, 1.3), g.u("y", -0.3, 1.3));
    let k = g.lg("k", 0.05, 20.) * if g.one_in("back", 10) { -1. } else { 1. };
    let d = mul(sub(add(f.a, add(mul(f.u, x), mul(f.v, y))), o), k);
    let Some((pu, pv, t)) = plane(&f, o, d) else { return Ok(()); };
    let m = if f.tri { pu.min(pv).min(1. - pu - pv) } else { pu.min(pv).min(1. - pu).min(1. - pv) };
    let n = cross(f.u, f.v);
    let cosv = (dot(n, d) / len(d) / len(n)).abs();
    if m.abs() < 1e-5 || cosv < 1e-3 || t.abs() < 1e-2 || (dot(unit(n), d)).abs() < 1e-6 { return Ok(()); }
    let got = f.h.pdf_value(o, d);
    if m < 0. || t < 0. { chk!(got == 0., "directions that miss have density zero", "{}", got); return Ok(()); }
    let area = len(n) * if f.tri { 0.5 } else { 1. };
    let want = t * t * dot(d, d) / (cosv * area);
    chk!((got - want).abs() <= 1e-6 * want, "the density is the squared distance over the cosine times the area", "{} expected {}", got, want);
    Ok(())
}
fn sphere_light(g: &mut Gen) -> (Vec3, f64, Vec3, Hittables) {
    let c = g.v("c", 8.);
    let r = g.lg("r", 0.1, 6.);
    let h = Sphere::new(c, r, light(g, "m"));
    let o = add(c, mul(udir(g, "od"), r * (1. + g.lg("dist", 0.02, 30.))));
    (c, r, o, h)
}
fn sphere_density(g: &mut Gen) -> Res {
    let (c, r, o, h) = sphere_light(g);
    let d = mul(sub(add(c, mul(udir(g, "p"), r * g.u("q", 0., 1.5))), o), g.lg("k", 0.05, 20.));
    if len(d) < 1e-6 { return Ok(()); }
    let w = sub(c, o);
    let foot = len(sub(w, mul(d, dot(w, d) / dot(d, d))));
    if (foot - r).abs() < 1e-5 * r { return Ok(()); }
    // the near intersection must be clear of the smallest ray length
    let got = h.pdf_value(o, d);
    if foot > r || dot(w, d) < 0. { chk!(got == 0., "directions that miss have density zero", "{}", got); return Ok(()); }
    if (dot(w, d) / len(d) - (r * r - foot * foot).sqrt()) / len(d) < 2e-3 { return Ok(()); }
    let cm = (1. - r * r / dot(w, w)).sqrt();
    let want = 1. / (2. * PI * (1. - cm));
    chk!((got - want).abs() <= 1e-6 * want, "the density is the inverse of the solid angle", "{} expected {}", got, want);
    Ok(())
}
fn flat_sampling(g: &mut Gen) -> Res {
    let f = flat(g);
    let o = away(g, &f);
    let (n, mut su, mut sv, mut suu, mut suv, mut half) = (900, 0., 0., 0., 0., true);
    for _ in 0..n {
        let d = f.h.random_direction(o);
        let Some((u, v, t)) = plane(&f, o, d) else { return Ok(()) };
        // known finding: triangles sample the parallelogram that they are a half of
        let m = u.min(v).min(1. - u).min(1. - v);
        chk!(m > -1e-6 && t > 0., "sampled directions hit the light", "plane coordinates {} {} parameter {}", u, v, t);
        if u + v > 1. + 1e-6 { half = false; }
        su += u; sv += v; suu += u * u; suv += u * v;
    }
    let k = n as f64;
    let (mu, s1, m2, s2, muv, s3) = if f.tri && half { (1. / 3., 0.2357, 1. / 6., 0.1972, 1. / 12., 0.0646) } else { (0.5, 0.2887, 1. / 3., 0.2982, 0.25, 0.2205) };
    let dev = |s: f64, m: f64, sd: f64| (s / k - m).abs() > 7. * sd / k.sqrt() + 1e-3;
    chk!(!dev(su, mu, s1) && !dev(sv, mu, s1) && !dev(suu, m2, s2) && !dev(suv, muv, s3), "sampled points are uniformly distributed over the light", "means {} {} {} {}", su / k, sv / k, suu / k, suv / k);
    Ok(())
}
/// the known finding
fn triangle_sampling(_g: &mut Gen) -> Res {
    let t = Triangle::new(Vec3::new(0., 0., 0.), Vec3::new(1., 0., 0.), Vec3::new(0., 1., 0.), DiffuseLight::new(1., 1., 1., None), &NopTransformer());
    let o = Vec3::new(0.3, 0.3, 2.);
    for _ in 0..100 {
        let d = t.random_direction(o);
        let p = add(o, d);
        chk!(p.x + p.y < 1. + 1e-9, "directions sampled for a triangle light hit it", "the direction leads to {:?}, outside the triangle 0, e1, e2", p);
    }
    Ok(())
}
fn sphere_sampling(g: &mut Gen) -> Res {
    let (c, r, o, h) = sphere_light(g);
    let w = sub(c, o);
    let cm = (1. - r * r / dot(w, w)).sqrt();
    let (n, mut sc, mut s2, mut side) = (900, 0., 0., Vec3::new(0., 0., 0.));
    for _ in 0..n {
        let d = h.random_direction(o);
        let cs = dot(d, w) / len(d) / len(w);
        chk!(cs >= cm - 1e-9 * (1. + len(o)), "sampled directions hit the light", "cosine {} cone {}", cs, cm);
        let q = (1. - cs) / (1. - cm);
        sc += q; s2 += q * q;
        let p = sub(unit(d), mul(unit(w), cs));
        side = add(side, if len(p) > 1e-12 { unit(p) } else { p });
    }
    let k = n as f64;
    chk!((sc / k - 0.5).abs() < 7. * 0.2887 / k.sqrt() + 1e-4 && (s2 / k - 1. / 3.).abs() < 7. * 0.2982 / k.sqrt() + 1e-4, "sampled directions are uniformly distributed over the cone", "moments {} {}", sc / k, s2 / k);
    chk!(len(side) / k < 7. / k.sqrt() * 1.5, "sampled directions are uniformly distributed around the axis", "mean sideways direction {:?}", mul(side, 1. / k));
    Ok(())
}
pub fn some_lights(g: &mut Gen) -> (Vec<Hittables>, Vec<(Vec3, f64)>) {
    let n = g.i("lights", 1, 5);
    let mut v = vec![];
    let mut s = vec![];
    for i in 0..n {
        // disjoint small spheres around the origin
        let c = add(Vec3::new(20. * ((i as f64) * 2.4).cos(), 20. * ((i as f64) * 2.4).sin(), 6. * i as f64 - 12.), g.v("lc", 1.));
        let r = g.u("lr", 0.5, 4.);
        v.push(Sphere::new(c, r, light(g, "m")));
        s.push((c, r));
    }
    (v, s)
}
fn several(g: &mut Gen) -> Res {
    let (ls, sp) = some_lights(g);
    let o = g.v("o", 3.);
    let p = ContainerPdf::new(&ls, o);
    let k = g.i("aim", 0, sp.len() as i64 - 1) as usize;
    let d = add(sub(sp[k].0, o), g.v("off", 5.));
    let want = ls.iter().map(|l| l.pdf_value(o, d)).sum::<f64>() / ls.len() as f64;
    let got = p.value(d);
    chk!(near(got, want, 1e-9), "the density of several lights is the average of their densities", "{} expected {}", got, want);
    let n = 300u64;
    let mut c = vec![0u64; sp.len()];
    for _ in 0..n {
        let d = p.generate();
        let best = (0..sp.len()).max_by(|&a, &b| {
            let q = |i: usize| { let w = sub(sp[i].0, o); dot(d, w) / len(w) };
            q(a).total_cmp(&q(b))
        }).unwrap();
        c[best] += 1;
    }
    for x in &c { chk!(frequency(*x, n, 1. / sp.len() as f64), "each light is sampled with equal probability", "counts {:?}", c); }
    Ok(())
}
fn mixture(g: &mut Gen) -> Res {
    let (ls, _) = some_lights(g);
    let o = g.v("o", 3.);
    let n = udir(g, "n");
    let (p, q) = (ContainerPdf::new(&ls, o), CosinePdf::new(n));
    let d = if g.b("toward") { p.generate() } else { udir(g, "d") };
    let want = (p.value(d) + q.value(d)) / 2.;
    for (x, nm) in [(mix_value(&p, &q, d), "pq"), (mix_value(&q, &p, d), "qp")] {
        chk!(near(x, want, 1e-9) && x >= 0., "the density of the mixture is the mean", "{} {} expected {}", nm, x, want);
    }
    // two cosine densities on opposite sides tell which one was sampled
    let (a, b) = (CosinePdf::new(n), CosinePdf::new(mul(n, -1.)));
    let k = 300u64;
    let c = (0..k).filter(|_| dot(mix_generate(&a, &b), n) > 0.).count() as u64;
    chk!(frequency(c, k, 0.5), "each density is sampled with probability one half", "{} of {}", c, k);
    Ok(())
}
fn densities(g: &mut Gen) -> Res {
    let n = mul(udir(g, "n"), g.lg("nk", 0.1, 5.));
    let d = mul(udir(g, "d"), g.lg("k", 0.05, 20.));
    let c = dot(unit(n), unit(d));
    let x = CosinePdf::new(n).value(d);
    chk!(near(x, (c / PI).max(0.), 1e-9), "the cosine density is the cosine over pi on the outer side", "{} expected {}", x, c / PI);
    let x = SpherePdf::new().value(d);
    chk!(near(x, 1. / (4. * PI), 1e-9), "the density of uniform directions is 1 over 4 pi", "{}", x);
    Ok(())
}

// ---------------------------------------------------------------- P13
/// a quad or triangle light close to a surface
fn near_light(g: &mut Gen, p: Vec3, n: Vec3) -> Hittables {
    let at = add(add(p, mul(n, g.lg("near", 0.05, 20.))), g.v("beside", 0.5));
    let k = g.lg("size", 0.05, 5.);
    let (u, w) = (mul(g.vu("lu", 1.), k), mul(g.vu("lv", 1.), k));
    let q = sub(at, mul(add(u, w), 0.3));
    let m = light(g, "near");
    if g.b("quad") { Quad::new(q, u, w, m, &NopTransformer()) } else { Triangle::new(q, add(q, u), add(q, w), m, &NopTransformer()) }
}
fn diffuse(g: &mut Gen) -> Res {
    let n = udir(g, "n");
    let (t, uv) = tex(g, "t");
    let col = tex_color(&t, uv);
    let m = Lambertian::new(t, None);
    let p = g.v("p", 2.);
    let (mut ls, _) = some_lights(g);
    if g.b("close") {
        if g.b("only") { ls.clear(); }
        ls.push(near_light(g, p, n));
    }
    let rec = RayHit::new(p, onb(n), &m, 1., uv, true);
    for _ in 0..8 {
        let s = with_pdf(m.scatter(&Ray::new(g_o(p), mul(n, -2.)), &rec, &ls))?;
        let d = s.ray.direction;
        chk!(nearv(s.ray.origin, p, 1e-12), "the scattered ray starts at the hit point", "{:?}", s.ray.origin);
        chk!(nearv(s.color, col, 1e-12), "the attenuation is the texture colour", "{:?} expected {:?}", s.color, col);
        let cosd = (dot(unit(d), n) / PI).max(0.);
        let mix = (ls.iter().map(|l| l.pdf_value(p, d)).sum::<f64>() / ls.len() as f64 + cosd) / 2.;
        if mix < 1e-9 { continue; }
        chk!(near(s.probability, cosd / mix, 1e-7), "the weight is the scattering density over the density of the sampling", "{} expected {}", s.probability, cosd / mix);
    }
    Ok(())
}
fn diffuse_dirs(g: &mut Gen) -> Res {
    // a light behind the surface tells its samples from the material's own
    let n = udir(g, "n");
    let p = g.v("p", 2.);
    let ls = vec![Sphere::new(sub(p, mul(n, 5.)), 1., light(g, "m"))];
    let m = Lambertian::new(SolidColor::new(1., 1., 1.), None);
    let rec = RayHit::new(p, onb(n), &m, 1., Uv::new(0., 0.), true);
    let (k, mut c, mut s, mut s2) = (600u64, 0u64, 0., 0.);
    for _ in 0..k {
        let d = unit(with_pdf(m.scatter(&Ray::new(g_o(p), mul(n, -2.)), &rec, &ls))?.ray.direction);
        let z = dot(d, n);
        if z < 0. {
            c += 1;
            chk!(z < -0.97, "light directions are used as sampled", "{:?}", d);
        } else { s += z; s2 += z * z; }
    }
    chk!(frequency(c, k, 0.5), "lights and material are sampled with equal probability", "{} of {}", c, k);
    let q = (k - c) as f64;
    chk!((s / q - 2. / 3.).abs() < 7. * 0.236 / q.sqrt() && (s2 / q - 0.5).abs() < 7. * 0.289 / q.sqrt(), "own directions are cosine weighted", "moments {} {}", s / q, s2 / q);
    Ok(())
}
fn isotropic(g: &mut Gen) -> Res {
    let c = colour(g, "c");
    let b = Sphere::new(Vec3::new(0., 0., 0.), 3., light(g, "m"));
    let medium = ConstantMedium::new(b, 1e6, c);
    let Some(rec) = medium.hit(&Ray::new(Vec3::new(-9., 0., 0.), Vec3::new(1., 0., 0.)), &RAY_INTERVAL) else { return Ok(()) };
    let ls = vec![Sphere::new(add(rec.hit_point, Vec3::new(0., 5., 0.)), 1., light(g, "l"))];
    let (k, mut inl, mut sum) = (300u64, 0u64, Vec3::new(0., 0., 0.));
    for _ in 0..k {
        let s = with_pdf(rec.material.scatter(&Ray::new(Vec3::new(-9., 0., 0.), Vec3::new(1., 0., 0.)), &rec, &ls))?;
        let d = s.ray.direction;
        chk!(nearv(s.ray.origin, rec.hit_point, 1e-12), "the scattered ray starts at the hit point", "{:?}", s.ray.origin);
        chk!(nearv(s.color, c, 1e-12), "the attenuation is the texture colour", "{:?} expected {:?}", s.color, c);
        let lp = ls[0].pdf_value(rec.hit_point, d);
        let want = 2. / (4. * PI) / (lp + 1. / (4. * PI));
        chk!(near(s.probability, want, 1e-7), "the weight is the scattering density over the density of the sampling", "{} expected {}", s.probability, want);
        if lp > 0. { inl += 1; } else { sum = add(sum, unit(d)); }
    }
    let cone = (1. - (1f64 - 1. / 25.).sqrt()) / 2.;
    chk!(frequency(inl, k, 0.5 + 0.5 * cone), "lights and uniform directions are sampled with equal probability", "{} of {}", inl, k);
    let q = (k - inl) as f64;
    chk!(len(sum) / q < 7. / q.sqrt() + cone * 2., "own directions are uniform over the sphere", "mean {:?}", mul(sum, 1. / q));
    Ok(())
}
fn emission(g: &mut Gen) -> Res {
    let c = Vec3::new(g.f("r", 0., 20.), g.f("g", 0., 20.), g.f("b", 0., 20.));
    let a = g.lg("half", 0.05, 50.);
    let k = g.i("kind", 0, 2);
    let m = match k { 0 => DiffuseLight::new(c.x, c.y, c.z, Some(a)), 1 => DiffuseLight::new(c.x, c.y, c.z, None), _ => DiffuseLight::new_from_vec3(c) };
    let front = g.b("front");
    let n = udir(g, "n");
    let p = g.v("p", 2.);
    let rec = RayHit::new(p, onb(n), &m, 1., Uv::new(0.3, 0.4), front);
    let RayScatter::ScatterEmission(e) = m.scatter(&Ray::new(g_o(p), n), &rec, &[]) else { chk!(false, "lights emit and do not scatter", ""); return Ok(()) };
    let want = if front { c } else { Vec3::new(0., 0., 0.) };
    chk!(nearv(e.color, want, 1e-12), "lights emit their colour on the front side only", "{:?} expected {:?}", e.color, want);
    let l = g.f("distance", 0., 60.);
    let x = AttenuatedColor { color: e.color, attenuation_factor: e.attenuation_factor, accumulated_ray_length: l }.get_attenuated_color();
    let w = if k == 0 { mul(want, a / (a + l)) } else { want };
    chk!(nearv(x, w, 1e-9), "light is attenuated by distance as configured", "{:?} expected {:?}", x, w);
    Ok(())
}
fn blend(g: &mut Gen) -> Res {
    let f = g.f("factor", 0., 1.);
    let a = Lambertian::new(SolidColor::new(1., 0., 0.), None);
    let b = Metal::new(SolidColor::new(0., 1., 0.), None, 0.);
    let m = Blend::new(a, b, f);
    let n = udir(g, "n");
    let p = g.v("p", 2.);
    let rec = RayHit::new(p, onb(n), &m, 1., Uv::new(0.3, 0.4), true);
    let ls = vec![Sphere::new(add(p, mul(n, 9.)), 1., light(g, "l"))];
    let (k, mut c) = (300u64, 0u64);
    for _ in 0..k {
        match m.scatter(&Ray::new(add(p, n), mul(n, -1.)), &rec, &ls) {
            RayScatter::ScatterPdf(s) => { c += 1; chk!(s.color.x == 1. && s.color.y == 0., "a blend behaves as one of its materials", "{:?}", s.color); }
            RayScatter::ScatterBasic(s) => chk!(s.color.x == 0. && s.color.y == 1., "a blend behaves as one of its materials", "{:?}", s.color),
            _ => chk!(false, "a blend behaves as one of its materials", ""),
        }
    }
    chk!(frequency(c, k, 1. - f), "the first material is chosen with probability one minus the blend factor", "{} of {} with factor {}", c, k, f);
    Ok(())
}
/// the normal of a blend comes from one of the two normal maps
fn blend_normal(g: &mut Gen) -> Res {
    let f = g.f("factor", 0., 1.);
    let plain = g.i("plain", 0, 2);
    let map = |c: Vec3, no: bool| if no { None } else { Some(SolidColor::new(c.x, c.y, c.z)) };
    let a = Lambertian::new(SolidColor::new(1., 0., 0.), map(Vec3::new(0.7, 0.5, 0.8), plain == 0));
    let b = Metal::new(SolidColor::new(0., 1., 0.), map(Vec3::new(0.2, 0.4, 0.7), plain == 1), 0.);
    let m = Blend::new(a, b, f);
    let o = onb(udir(g, "n"));
    let of = |c: Vec3, no: bool| if no { o.local(Vec3::new(0., 0., 1.)) } else { o.local(sub(mul(c, 2.), Vec3::new(1., 1., 1.))) };
    let (wa, wb) = (of(Vec3::new(0.7, 0.5, 0.8), plain == 0), of(Vec3::new(0.2, 0.4, 0.7), plain == 1));
    let (k, mut c) = (300u64, 0u64);
    for _ in 0..k {
        let x = RayHit::new(g_o(wa), o.clone(), &m, 1., Uv::new(0.3, 0.4), true).normal;
        if nearv(x, wa, 1e-9) { c += 1; } else { chk!(nearv(x, wb, 1e-9), "the normal of a blend is that of one of its materials", "{:?}", x); }
    }
    chk!(frequency(c, k, 1. - f), "the first material gives the normal with probability one minus the blend factor", "{} of {} with factor {}", c, k, f);
    Ok(())
}
fn is_light(g: &mut Gen) -> Res {
    let (_, t) = solid(g, "c");
    let x = g.f("x", 0., 2.);
    for (m, w) in [(Lambertian::new(t.clone(), None), false), (Metal::new(t.clone(), None, x), false), (Dielectric::new(t.clone(), None, 1.5), false), (DiffuseLight::new(1., x, 0., None), true), (DiffuseLight::new_from_vec3(Vec3::new(x, x, x)), true)] {
        chk!(m.is_light() == w, "exactly diffuse lights are lights", "{:?}", m);
    }
    let medium = ConstantMedium::new(Sphere::new(Vec3::new(0., 0., 0.), 3., Lambertian::new(t, None)), 1e6, Vec3::new(1., 1., 1.));
    if let Some(rec) = medium.hit(&Ray::new(Vec3::new(-9., 0., 0.), Vec3::new(1., 0., 0.)), &RAY_INTERVAL) {
        chk!(!rec.material.is_light(), "exactly diffuse lights are lights", "medium");
    }
    Ok(())
}
fn normal_map(g: &mut Gen) -> Res {
    let c = colour(g, "c");
    let map = SolidColor::new(c.x, c.y, c.z);
    let t = SolidColor::new(0.5, 0.5, 0.5);
    let m = match g.i("kind", 0, 2) { 0 => Lambertian::new(t, Some(map)), 1 => Metal::new(t, Some(map), 0.1), _ => Dielectric::new(t, Some(map), 1.5) };
    let o = onb(udir(g, "n"));
    let (a, b, n) = (o.local(Vec3::new(1., 0., 0.)), o.local(Vec3::new(0., 1., 0.)), o.local(Vec3::new(0., 0., 1.)));
    let rec = RayHit::new(g.v("p", 1.), o, &m, 1., Uv::new(0.1, 0.2), true);
    let w = add(add(mul(a, 2. * c.x - 1.), mul(b, 2. * c.y - 1.)), mul(n, 2. * c.z - 1.));
    chk!(nearv(rec.normal, w, 1e-9), "a normal map gives the normal in the local basis", "{:?} expected {:?}", rec.normal, w);
    Ok(())
}
fn udir(g: &mut Gen, name: &str) -> Vec3 { unit(g.dir(name)) }
pub fn colour(g: &mut Gen, name: &str) -> Vec3 { let v = g.vu(name, 0.5); Vec3::new(v.x + 0.5, v.y + 0.5, v.z + 0.5) }
/// the axes that a normal map is drawn in: unit vectors along growing texture coordinates
fn surface_basis(g: &mut Gen) -> Res {
    let n = Vec3::new(g.f("n.x", -0.6, 0.6), g.f("n.y", -0.6, 0.6), g.f("n.z", 0.2, 1.));
    let t = SolidColor::new(0.5, 0.5, 0.5);
    let m = Lambertian::new(t, Some(SolidColor::new(n.x * 0.5 + 0.5, n.y * 0.5 + 0.5, n.z * 0.5 + 0.5)));
    let nt = NopTransformer();
    let spans;
    let (h, ray, du, dv, up) = match g.i("shape", 0, 2) {
        0 => {
            let (c, r) = (g.v("center", 5.), g.lg("radius", 0.05, 8.));
            let o = udir(g, "out");
            let k = (o.x * o.x + o.z * o.z).sqrt();
            if k < 0.05 { return Ok(()); }
            spans = true;
            let d = add(udir(g, "d"), mul(o, g.f("side", -1.5, 1.5)));
            let p = add(c, mul(o, r));
            if len(d) < 0.2 || dot(d, o).abs() < 0.1 * len(d) { return Ok(()); }
            // far side hits start inside the sphere
            let ray = if dot(d, o) < 0. { Ray::new(sub(p, mul(d, 9. * r)), d) } else { Ray::new(sub(p, mul(d, 0.2 * r * dot(d, o) / dot(d, d))), d) };
            (Sphere::new(c, r, m), ray, Vec3::new(o.z / k, 0., -o.x / k), Vec3::new(-o.x * o.y / k, k, -o.y * o.z / k), o)
        }
        1 => {
            let (q, u, v) = (g.v("q", 5.), g.v("u", 3.), g.v("v", 3.));
            if len(cross(u, v)) < 0.1 * len(u) * len(v) || len(u) < 0.02 || len(v) < 0.02 { return Ok(()); }
            spans = true;
            let p = add(q, add(mul(u, g.f("a", 0.1, 0.9)), mul(v, g.f("b", 0.1, 0.9))));
            (Quad::new(q, u, v, m, &nt), aimed(g, p, 0.), unit(u), unit(v), unit(cross(u, v)))
        }
        _ => {
            let (a, u, v) = (g.v("v0", 5.), g.v("e1", 3.), g.v("e2", 3.));
            if len(cross(u, v)) < 0.1 * len(u) * len(v) || len(u) < 0.02 || len(v) < 0.02 { return Ok(()); }
            let mut uv = |n: &str| Uv::new(g.f(&format!("{}.u", n), -2., 2.) as f32, g.f(&format!("{}.v", n), -2., 2.) as f32);
            let (t0, mut t1, mut t2) = (uv("uv0"), uv("uv1"), uv("uv2"));
            if g.one_in("no texture coordinates", 3) { t1 = t0; if g.b("all") { t2 = t0; } }
            let (a1, b1, a2, b2) = ((t1.u - t0.u) as f64, (t1.v - t0.v) as f64, (t2.u - t0.u) as f64, (t2.v - t0.v) as f64);
            let det = a1 * b2 - b1 * a2;
            spans = det.abs() > 0.05;
            if !spans && det != 0. { return Ok(()); }
            let p = add(a, add(mul(u, 0.3), mul(v, 0.4)));
            let (du, dv) = (mul(sub(mul(u, b2), mul(v, b1)), 1. / det), mul(sub(mul(v, a1), mul(u, a2)), 1. / det));
            (Triangle::new_with_tex_coords(a, add(a, u), add(a, v), t0, t1, t2, m, &nt), aimed(g, p, 0.), unit(du), unit(dv), unit(cross(u, v)))
        }
    };
    let Some(rec) = h.hit(&ray, &RAY_INTERVAL) else { return Ok(()) };
    if dot(ray.direction, up).abs() < 1e-3 * len(ray.direction) { return Ok(()); }
    chk!(fin(rec.normal), "the normal of a mapped surface is defined", "{:?}", rec.normal);
    if !spans { return Ok(()); }
    let up = if dot(ray.direction, up) < 0. { up } else { mul(up, -1.) };
    let w = add(add(mul(du, n.x), mul(dv, n.y)), mul(up, n.z));
    chk!(len(sub(rec.normal, w)) < 1e-3, "the axes of a normal map are unit vectors along growing texture coordinates", "{:?} expected {:?}", rec.normal, w);
    Ok(())
}
