//! P14 path colours, P22 scene set-up
use crate::chk;
use crate::g::*;
use crate::optics::colour;
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Onb, Ray, Uv};
use solstrale::hittable::{Bvh, ConstantMedium, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::SolidColor;
use solstrale::material::*;
use solstrale::renderer::shader::*;
use solstrale::renderer::*;
use solstrale::util::interval::RAY_INTERVAL;

type Case = fn(&mut Gen) -> Res;
pub fn cases(p: &str, v: &mut Vec<(u64, &'static str, Case)>) {
    match p {
        "P14" => {
            v.push((3, "mirrors", mirrors));
            v.push((3, "emission", emission));
            v.push((3, "depth", depth));
            v.push((3, "diffuse limit", limit));
            v.push((1, "furnace", furnace));
            v.push((2, "surface shaders", surface));
            v.push((2, "background", background));
            v.push((0, "attenuation and the length of the ray direction", direction_length));
        }
        "P22" => {
            v.push((4, "lights", lights));
            v.push((2, "unlit", unlit));
            v.push((1, "steps in order", steps));
        }
        _ => {}
    }
}
pub fn scene(world: Vec<Hittables>, bg: Vec3, shader: Shaders) -> Scene {
    Scene {
        world: Bvh::new(world),
        camera: CameraConfig { vertical_fov_degrees: 30., aperture_size: 0., look_from: Vec3::new(0., 0., 5.), look_at: Vec3::new(0., 0., 0.), up: Vec3::new(0., 1., 0.) },
        background_color: bg,
        render_config: RenderConfig { width: 4, height: 4, samples_per_pixel: 1, shader, post_processors: vec![], render_image_strategy: RenderImageStrategy::OnlyFinal },
    }
}
fn far_light() -> Hittables { Sphere::new(Vec3::new(0., 5000., 0.), 1., DiffuseLight::new(1., 1., 1., None)) }
fn times(a: Vec3, b: Vec3) -> Vec3 { Vec3::new(a.x * b.x, a.y * b.y, a.z * b.z) }
fn att(c: &AttenuatedColor) -> Vec3 { c.get_attenuated_color() }
/// a wall at height y, facing both sides
fn wall(y: f64, m: Materials) -> Hittables { Quad::new(Vec3::new(-500., y, -500.), Vec3::new(0., 0., 1000.), Vec3::new(1000., 0., 0.), m, &NopTransformer()) }

/// a ray bounces between two mirrors and then reaches a light, the background, or the configured depth
fn mirrors(g: &mut Gen) -> Res {
    let a = colour(g, "a");
    let b = colour(g, "b");
    let e = colour(g, "e");
    let bg = colour(g, "bg");
    let k = g.i("bounces", 1, 7);
    let limit = g.i("limit", 0, 9) as u32;
    let start = g.i("depth", 0, 3) as u32;
    let to_light = g.b("light");
    let half = if g.b("attenuated") { Some(g.lg("half", 0.1, 30.)) } else { None };
    let scale = if g.b("unit") { 1. } else { g.lg("scale", 0.3, 3.) };
    // from (0, .5, 0) down to y = 0, up to y = 1, ... each bounce advances x by s
    let s = 3.0;
    let mut world = vec![];
    let n = k as f64;
    world.push(Quad::new(Vec3::new(-500., 0., -500.), Vec3::new(0., 0., 1000.), Vec3::new(500. + s * (n - 0.2), 0., 0.), Metal::new(SolidColor::new(a.x, a.y, a.z), None, 0.), &NopTransformer()));
    world.push(Quad::new(Vec3::new(-500., 1., -500.), Vec3::new(0., 0., 1000.), Vec3::new(500. + s * (n - 0.2), 0., 0.), Metal::new(SolidColor::new(b.x, b.y, b.z), None, 0.), &NopTransformer()));
    // bounces at x = s/2, 3s/2, ...; after k of them the ray is in the open at x > s (n - .2); the light stands across at s n + 1
    if to_light {
        world.push(Quad::new(Vec3::new(s * n + 1., -300., -300.), Vec3::new(0., 0., 600.), Vec3::new(0., 600., 0.), DiffuseLight::new(e.x, e.y, e.z, half), &NopTransformer()));
    }
    world.push(far_light());
    let d = mul(unit(Vec3::new(s, -1., 0.)), scale);
    let ray = Ray::new(Vec3::new(0., 0.5, 0.), d);
    let sh = PathTracingShader::new(limit);
    let r = match Renderer::new(scene(world, bg, sh.clone())) { Ok(r) => r, Err(e) => { chk!(false, "a scene with lights is accepted", "{}", e); return Ok(()); } };
    // the lit side of the light is the one against its normal: take the emission from the material itself
    let w = Bvh::new(vec![]);
    let _ = w;
    let rec_world = build_world(a, s, n);
    let rec = match rec_world.hit(&ray, &RAY_INTERVAL) { Some(x) => x, None => return Ok(()) };
    let acc = g.u("acc", 0., 5.);
    let c = sh.shade(&r, &rec, &ray, start, acc);
    // surfaces are at depth start, start+1, ..., start+k-1; the light at start+k
    let steps = n as u32;
    let mut want;
    let mut dist = 0.;
    let reaches = start + steps; // depth of what comes after the last mirror
    if to_light {
        if reaches >= limit { want = Vec3::new(0., 0., 0.); } else {
            want = light_value(&ray, s, n, e, half);
            dist = 1.;
        }
    } else if start + steps - 1 >= limit { want = Vec3::new(0., 0., 0.); } else { want = bg; }
    for i in 0..steps { want = times(want, if i % 2 == 0 { a } else { b }); }
    chk!(nearv(c.color, want, 1e-9), "the light found after the bounces times the surface colours on the way", "color {:?} want {:?} bounces {} limit {} start {} light {}", c.color, want, k, limit, start, to_light);
    if to_light && dist > 0. {
        chk!(c.attenuation_factor.is_some() == half.is_some(), "the attenuation factor of the light", "{:?} {:?}", c.attenuation_factor, half);
        if let (Some(f), Some(h)) = (c.attenuation_factor, half) {
            chk!(near(f * h, 1., 1e-9), "the attenuation factor of the light", "{} {}", f, h);
        }
        if scale == 1. {
            // the way: parameter lengths of unit directions are distances
            let way = ((s * n + 1.) / s) * (s * s + 1f64).sqrt();
            chk!(near(c.accumulated_ray_length, acc + way, 1e-6), "the distance is that of the whole path", "{} {} + {}", c.accumulated_ray_length, acc, way);
        }
    }
    Ok(())
}
fn build_world(a: Vec3, s: f64, n: f64) -> Hittables {
    Bvh::new(vec![Quad::new(Vec3::new(-500., 0., -500.), Vec3::new(0., 0., 1000.), Vec3::new(500. + s * (n - 0.2), 0., 0.), Metal::new(SolidColor::new(a.x, a.y, a.z), None, 0.), &NopTransformer())])
}
fn light_value(ray: &Ray, s: f64, n: f64, e: Vec3, half: Option<f64>) -> Vec3 {
    let q = Quad::new(Vec3::new(s * n + 1., -300., -300.), Vec3::new(0., 0., 600.), Vec3::new(0., 600., 0.), DiffuseLight::new(e.x, e.y, e.z, half), &NopTransformer());
    let r = Ray::new(Vec3::new(s * n, 0.5, 0.), Vec3::new(1., 0., 0.));
    let _ = ray;
    match q.hit(&r, &RAY_INTERVAL) {
        Some(h) => match h.material.scatter(&r, &h, &[]) { RayScatter::ScatterEmission(x) => x.color, _ => Vec3::new(0., 0., 0.) },
        None => Vec3::new(0., 0., 0.),
    }
}
fn emission(g: &mut Gen) -> Res {
    let e = colour(g, "e");
    let half = if g.b("attenuated") { Some(g.lg("half", 0.1, 30.)) } else { None };
    let limit = g.i("limit", 0, 4) as u32;
    let start = g.i("depth", 0, 4) as u32;
    let m = DiffuseLight::new(e.x, e.y, e.z, half);
    let rad = g.u("radius", 0.5, 2.);
    let s = Sphere::new(Vec3::new(0., 0., 0.), rad, m);
    let outside = g.b("outside");
    let o = if outside { Vec3::new(0., 0., 4.) } else { Vec3::new(0., 0., 0.) };
    let ray = Ray::new(o, unit(Vec3::new(g.u("x", -0.05, 0.05), g.u("y", -0.05, 0.05), -1.)));
    let sh = PathTracingShader::new(limit);
    let r = Renderer::new(scene(vec![s.clone()], Vec3::new(7., 7., 7.), sh.clone())).ok().unwrap();
    let rec = match s.hit(&ray, &RAY_INTERVAL) { Some(x) => x, None => return Ok(()) };
    let acc = g.u("acc", 0., 9.);
    let c = sh.shade(&r, &rec, &ray, start, acc);
    if start >= limit {
        chk!(nearv(att(&c), Vec3::new(0., 0., 0.), 1e-12), "no light at the configured depth", "{:?}", c.color);
        return Ok(());
    }
    let want = if outside { e } else { Vec3::new(0., 0., 0.) };
    chk!(nearv(c.color, want, 1e-9), "a light's emission ends the path", "{:?} {:?}", c.color, want);
    let w = match half { Some(h) => mul(want, h / (h + acc + rec.ray_length)), None => want };
    chk!(nearv(att(&c), w, 1e-9), "emission is attenuated over the whole distance", "{:?} {:?}", att(&c), w);
    Ok(())
}
/// known finding: the distance is counted in ray parameters, so a light's attenuation depends on how long the camera's ray directions are
fn direction_length(_g: &mut Gen) -> Res {
    let s = Sphere::new(Vec3::new(0., 0., 0.), 1., DiffuseLight::new(1., 1., 1., Some(1.)));
    let sh = PathTracingShader::new(3);
    let r = Renderer::new(scene(vec![s.clone()], Vec3::new(7., 7., 7.), sh.clone())).ok().unwrap();
    let mut seen = vec![];
    for k in [1., 2.] {
        let ray = Ray::new(Vec3::new(0., 0., 4.), Vec3::new(0., 0., -k));
        let rec = s.hit(&ray, &RAY_INTERVAL).unwrap();
        seen.push(sh.shade(&r, &rec, &ray, 0, 0.).get_attenuated_color().x);
    }
    chk!(near(seen[0], seen[1], 1e-9), "the attenuation of a light does not depend on the length of the ray's direction vector", "{:?}", seen);
    Ok(())
}
/// inside a closed mirror sphere every path ends at the configured depth
fn depth(g: &mut Gen) -> Res {
    let limit = g.i("limit", 0, 60) as u32;
    let start = g.i("depth", 0, 70) as u32;
    let kind = g.i("kind", 0, 2);
    let a = SolidColor::new(1., 1., 1.);
    let m = match kind { 0 => Metal::new(a, None, 0.), 1 => Lambertian::new(a, None), _ => Metal::new(a, None, 0.7) };
    let s = Sphere::new(Vec3::new(0., 0., 0.), 3., m);
    let sh = PathTracingShader::new(limit);
    let r = Renderer::new(scene(vec![s.clone(), far_light()], Vec3::new(1., 1., 1.), sh.clone())).ok().unwrap();
    let ray = Ray::new(g.vu("o", 1.), unit(g.dir("d")));
    let rec = match s.hit(&ray, &RAY_INTERVAL) { Some(x) => x, None => return Ok(()) };
    let c = sh.shade(&r, &rec, &ray, start, 0.);
    // a path may leave a closed sphere only through rounding; mirrors do not
    if kind == 0 || start >= limit {
        chk!(nearv(c.color, Vec3::new(0., 0., 0.), 1e-12), "no path is followed beyond the configured depth", "{:?} limit {} start {}", c.color, limit, start);
    }
    Ok(())
}
fn weird(g: &mut Gen, name: &str) -> f64 {
    match g.i(&format!("{}.kind", name), 0, 7) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.,
        4 => 1e300,
        5 => -2.,
        _ => g.u(name, 0., 4.),
    }
}
fn limit(g: &mut Gen) -> Res {
    let a = Vec3 { x: weird(g, "a.x"), y: weird(g, "a.y"), z: weird(g, "a.z") };
    let bg = Vec3 { x: weird(g, "bg.x"), y: weird(g, "bg.y"), z: weird(g, "bg.z") };
    let sh = PathTracingShader::new(3);
    let l = Quad::new(Vec3::new(-1., 3., -1.), Vec3::new(2., 0., 0.), Vec3::new(0., 0., 2.), DiffuseLight::new(weird(g, "l.r"), weird(g, "l.g"), weird(g, "l.b"), None), &NopTransformer());
    let w = if g.b("isotropic") { ConstantMedium::new(Sphere::new(Vec3::new(0., -10., 0.), 10., Lambertian::new(SolidColor::new(0., 0., 0.), None)), 100., Vec3 { ..a }) } else { wall(0., Lambertian::new(SolidColor::new(a.x, a.y, a.z), None)) };
    let r = Renderer::new(scene(vec![w.clone(), l], bg, sh.clone())).ok().unwrap();
    let ray = Ray::new(Vec3::new(g.u("x", -2., 2.), 1., g.u("z", -2., 2.)), Vec3::new(0., -1., 0.));
    let rec = match w.hit(&ray, &RAY_INTERVAL) { Some(x) => x, None => return Ok(()) };
    for _ in 0..4 {
        let c = sh.shade(&r, &rec, &ray, 0, 0.).color;
        for (n, x) in [("red", c.x), ("green", c.y), ("blue", c.z)] {
            chk!(!x.is_nan(), "a diffusely scattered contribution is never NaN", "{} of {:?}", n, c);
            chk!(x <= 3., "a diffusely scattered contribution is at most three", "{} of {:?}", n, c);
        }
        // a channel without anything undefined or extreme is not changed by the others
        if a.x == 0. && bg.x.is_finite() && !c.x.is_nan() { chk!(c.x == 0. || l_is_weird(g, "l.r"), "a black surface stays black", "{:?}", c); }
    }
    Ok(())
}
fn l_is_weird(g: &Gen, n: &str) -> bool { g.log.iter().any(|(k, v)| k == &format!("{}.kind", n) && *v < 6.) }
/// diffuse surfaces under uniform light from everywhere return their colour
fn furnace(g: &mut Gen) -> Res {
    if g.i("rare", 0, 200) != 0 { return Ok(()); }
    let a = colour(g, "a");
    let b = g.u("b", 0.1, 0.6);
    let sh = PathTracingShader::new(8);
    // a unit surface under a dome of the background's brightness
    let w = wall(0., Lambertian::new(SolidColor::new(a.x, a.y, a.z), None));
    let l = Quad::new(Vec3::new(-1., 2., -1.), Vec3::new(2., 0., 0.), Vec3::new(0., 0., 2.), DiffuseLight::new(b, b, b, None), &NopTransformer());
    // the light shines on one side: make sure it is the one towards the surface
    let probe = Ray::new(Vec3::new(0., 1., 0.), Vec3::new(0., 1., 0.));
    let lit = match l.hit(&probe, &RAY_INTERVAL) { Some(h) => match h.material.scatter(&probe, &h, &[]) { RayScatter::ScatterEmission(x) => x.color.x > 0., _ => false }, None => false };
    let l = if lit { l } else { Quad::new(Vec3::new(-1., 2., -1.), Vec3::new(0., 0., 2.), Vec3::new(2., 0., 0.), DiffuseLight::new(b, b, b, None), &NopTransformer()) };
    let r = Renderer::new(scene(vec![w.clone(), l], Vec3::new(b, b, b), sh.clone())).ok().unwrap();
    let ray = Ray::new(Vec3::new(g.u("x", -2., 2.), 1., g.u("z", -2., 2.)), Vec3::new(0., -1., 0.));
    let rec = match w.hit(&ray, &RAY_INTERVAL) { Some(x) => x, None => return Ok(()) };
    let n = 40000;
    let (mut s, mut q) = (0., 0.);
    for _ in 0..n {
        let c = sh.shade(&r, &rec, &ray, 0, 0.).color;
        s += c.x; q += c.x * c.x;
    }
    let m = s / n as f64;
    let sd = ((q / n as f64 - m * m).max(0.) / n as f64).sqrt();
    chk!((m - a.x * b).abs() < 7. * sd + 1e-3 + 0.002 * a.x * b, "a diffuse surface in uniform light shows its colour times the light", "{} want {} (sd {})", m, a.x * b, sd);
    Ok(())
}
fn surface(g: &mut Gen) -> Res {
    let a = colour(g, "a");
    let k = g.i("kind", 0, 4);
    let m = match k {
        0 => Metal::new(SolidColor::new(a.x, a.y, a.z), None, 0.3),
        1 => Lambertian::new(SolidColor::new(a.x, a.y, a.z), None),
        2 | 3 => Dielectric::new(SolidColor::new(a.x, a.y, a.z), None, 1.5),
        _ => DiffuseLight::new(a.x, a.y, a.z, None),
    };
    let s = Sphere::new(Vec3::new(0., 0., 0.), 1., m);
    let ray = Ray::new(Vec3::new(0., 0., 4.), Vec3::new(g.u("x", -0.2, 0.2), g.u("y", -0.2, 0.2), -1.));
    let r = Renderer::new(scene(vec![s.clone(), far_light()], Vec3::new(0., 0., 0.), AlbedoShader::new())).ok().unwrap();
    let rec = match s.hit(&ray, &RAY_INTERVAL) { Some(x) => x, None => return Ok(()) };
    let d = g.i("depth", 0, 5) as u32;
    chk!(nearv(AlbedoShader::new().shade(&r, &rec, &ray, d, 3.).get_attenuated_color(), a, 1e-9), "the albedo shader reports the surface colour", "{:?}", a);
    chk!(nearv(NormalShader::new().shade(&r, &rec, &ray, d, 3.).get_attenuated_color(), rec.normal, 1e-12), "the normal shader reports the normal", "{:?}", rec.normal);
    let o = Onb::new(Vec3::new(0., 0., 1.));
    let m2 = Lambertian::new(SolidColor::new(a.x, a.y, a.z), None);
    let rec2 = RayHit::new(Vec3::new(1., 2., 3.), o, &m2, 2., Uv::new(0., 0.), true);
    chk!(nearv(NormalShader::new().shade(&r, &rec2, &ray, d, 3.).color, Vec3::new(0., 0., 1.), 1e-12), "the normal shader reports the normal of the hit", "{:?}", rec2.normal);
    Ok(())
}
/// rendered pixels that see nothing show the background
fn background(g: &mut Gen) -> Res {
    if g.i("rare", 0, 20) != 0 { return Ok(()); }
    let bg = Vec3::new(g.u("r", 0., 1.), g.u("g", 0., 1.), g.u("b", 0., 1.));
    let k = g.i("shader", 0, 2);
    let sh = match k { 0 => PathTracingShader::new(g.i("depth", 0, 3) as u32), 1 => AlbedoShader::new(), _ => NormalShader::new() };
    let mut s = scene(vec![far_light()], bg, sh);
    s.render_config.samples_per_pixel = g.i("spp", 1, 3) as u32;
    let im = crate::render::image(s)?;
    let want = solstrale::util::rgb_color::to_rgb_color(bg, 1);
    for p in im.pixels() {
        for c in 0..3 { chk!((p.0[c] as i32 - want.0[c] as i32).abs() <= 1, "rays that hit nothing show the background", "{:?} {:?}", p, want); }
    }
    Ok(())
}

// ---------------------------------------------------------------- P22
fn key(h: &Hittables) -> Vec<i64> {
    let b = h.bounding_box();
    [b.x.min, b.x.max, b.y.min, b.y.max, b.z.min, b.z.max].iter().map(|x| (x * 1e6).round() as i64).collect()
}
fn shape(g: &mut Gen, lit: bool) -> Hittables {
    let m = if lit {
        let l = DiffuseLight::new(1., 2., 3., None);
        let o = Lambertian::new(SolidColor::new(0.5, 0.5, 0.5), None);
        match g.i("blend", 0, 9) { 0 => Blend::new(l, o, 0.3), 1 => Blend::new(o, l, 0.6), 2 => Blend::new(o.clone(), Blend::new(l, o, 0.3), 0.4), _ => l }
    } else {
        let t = SolidColor::new(0.5, 0.5, 0.5);
        match g.i("mat", 0, 4) { 0 => Metal::new(t, None, 0.1), 1 => Lambertian::new(t, None), 2 => Blend::new(Metal::new(t.clone(), None, 0.1), Lambertian::new(t, None), 0.5), _ => Dielectric::new(t, None, 1.4) }
    };
    let p = g.vu("p", 50.);
    match g.i("shape", 0, 2) {
        0 => Sphere::new(p, g.u("r", 0.1, 3.), m),
        1 => Quad::new(p, g.vu("u", 3.), g.vu("v", 3.), m, &NopTransformer()),
        _ => Triangle::new(p, add(p, g.vu("u", 3.)), add(p, g.vu("v", 3.)), m, &NopTransformer()),
    }
}
/// a random group; the emitting objects in it are added to `out`
fn group(g: &mut Gen, level: i64, out: &mut Vec<Hittables>) -> Vec<Hittables> {
    let n = g.i("n", 0, 7);
    let mut v = vec![];
    for _ in 0..n {
        match g.i("what", 0, 9) {
            0 | 1 if level > 0 => { let l = group(g, level - 1, out); v.push(Bvh::new(l)); }
            2 => { let s = shape(g, false); v.push(ConstantMedium::new(s, 0.1, Vec3::new(0.5, 0.5, 0.5))); }
            3 | 4 | 5 => { let s = shape(g, true); out.push(s.clone()); v.push(s); }
            7 => {
                // two lights with one centre
                let (p, k) = (g.vu("p", 9.), g.u("k", 0.2, 0.9));
                for _ in 0..2 {
                    let m = DiffuseLight::new(1., 1., 1., None);
                    let s = if g.b("round") { Sphere::new(p, g.u("r", 0.1, 3.), m) } else {
                        let (u, w) = (mul(g.vu("u", 3.), k), mul(g.vu("v", 3.), k));
                        Quad::new(sub(p, mul(add(u, w), 0.5)), u, w, m, &NopTransformer())
                    };
                    out.push(s.clone()); v.push(s);
                }
            }
            6 => { let s = Quad::new_box(g.vu("a", 9.), g.vu("b", 9.), DiffuseLight::new(1., 1., 1., None), &NopTransformer()); out.extend(s.clone()); v.extend(s); }
            _ => { v.push(shape(g, false)); }
        }
    }
    v
}
fn lights(g: &mut Gen) -> Res {
    let mut want = vec![];
    let w = group(g, 3, &mut want);
    let r = Renderer::new(scene(w, Vec3::new(0., 0., 0.), PathTracingShader::new(3)));
    if want.is_empty() { chk!(r.is_err(), "a scene without light is refused", "accepted"); return Ok(()); }
    let r = match r { Ok(r) => r, Err(e) => { chk!(false, "a scene with a light is accepted", "{}", e); return Ok(()); } };
    let mut a: Vec<_> = r.lights.iter().map(key).collect();
    let mut b: Vec<_> = want.iter().map(key).collect();
    a.sort(); b.sort();
    chk!(a == b, "the sampled lights are exactly the emitting objects", "{} lights, {} emitting objects", a.len(), b.len());
    Ok(())
}
fn unlit(g: &mut Gen) -> Res {
    let n = g.i("n", 0, 6);
    let mut v = vec![];
    for _ in 0..n { v.push(shape(g, false)); }
    if g.b("nested") { v = vec![Bvh::new(v)]; }
    let lit = g.b("lit");
    if lit { let i = g.i("at", 0, v.len() as i64) as usize; v.insert(i, shape(g, true)); }
    let sh = match g.i("shader", 0, 3) { 0 => AlbedoShader::new(), 1 => NormalShader::new(), 2 => SimpleShader::new(), _ => PathTracingShader::new(1) };
    let r = Renderer::new(scene(v, Vec3::new(1., 1., 1.), sh));
    chk!(r.is_ok() == lit, "a renderer is created only for scenes with a light", "lit {} created {}", lit, r.is_ok());
    if let Ok(r) = r { chk!(r.lights.len() == 1, "the only light is sampled", "{}", r.lights.len()); }
    Ok(())
}
/// several post-processing steps: the result is that of applying them by hand in the configured order
fn steps(g: &mut Gen) -> Res {
    use solstrale::post::*;
    if g.i("rare", 0, 20) != 0 { return Ok(()); }
    let n = g.i("steps", 0, 4);
    let mut ps = vec![];
    for _ in 0..n {
        ps.push(if g.one_in("nop", 4) { NopPostProcessor::new() } else {
            BloomPostProcessor::new(g.u("k", 0.1, 0.5), Some(g.u("th", 0., 1.)), Some(g.u("mx", 0.1, 2.))).ok().unwrap()
        });
    }
    let spp = g.i("spp", 1, 3) as u32;
    let (w, h) = (g.i("w", 2, 9) as usize, g.i("h", 2, 9) as usize);
    // an exactly known picture: the background above, an albedo below; constant over the sub-pixel positions except at edges
    let bg = Vec3::new(g.u("r", 0., 3.), g.u("g", 0., 1.), g.u("b", 0., 1.));
    let mut s = scene(vec![far_light()], bg, AlbedoShader::new());
    s.render_config.width = w; s.render_config.height = h; s.render_config.samples_per_pixel = spp;
    s.render_config.post_processors = ps.clone();
    let im = crate::render::image(s)?;
    let mut cur = vec![mul(bg, spp as f64); w * h];
    let z: Vec<Vec3> = vec![];
    if ps.is_empty() { ps.push(NopPostProcessor::new()); }
    let last = ps.pop().unwrap();
    for p in &ps {
        cur = match p.intermediate_post_process(&cur, &z, &z, w as u32, h as u32, spp) { Ok(x) => x, Err(e) => { chk!(false, "steps succeed", "{}", e); return Ok(()); } };
    }
    let want = match last.post_process(&cur, &z, &z, w as u32, h as u32, spp) { Ok(x) => x, Err(e) => { chk!(false, "steps succeed", "{}", e); return Ok(()); } };
    for (x, y, p) in want.enumerate_pixels() {
        for c in 0..3 {
            chk!((im.get_pixel(x, y).0[c] as i32 - p.0[c] as i32).abs() <= 1, "the steps run in the configured order, each on the result of the one before", "pixel {},{}: {:?} want {:?}", x, y, im.get_pixel(x, y), p);
        }
    }
    Ok(())
}
