//! P08 transformations, P10 camera, P11 samplers, P23 vectors and intervals
use crate::chk;
use crate::g::*;
use solstrale::camera::{Camera, CameraConfig};
use solstrale::geo::transformation::*;
use solstrale::geo::vec3::*;
use solstrale::geo::{Onb, Uv};
use solstrale::pdf::{CosinePdf, Pdf, SpherePdf};
use solstrale::random::*;
use solstrale::util::interval::{combine_intervals, Interval};

type Case = fn(&mut Gen) -> Res;
pub fn cases(p: &str, v: &mut Vec<(u64, &'static str, Case)>) {
    match p {
        "P08" => { v.push((3, "transformers", transformers)); v.push((2, "sequence", sequence)); v.push((1, "shapes", shapes)); }
        "P10" => v.push((1, "camera", camera)),
        "P11" => v.push((1, "samplers", samplers)),
        "P23" => { v.push((1, "vectors", vectors)); v.push((1, "intervals", intervals)); }
        _ => {}
    }
}
fn vectors(g: &mut Gen) -> Res {
    let (a, b) = (g.v("a", 30.), g.v("b", 30.));
    let t = g.f("t", -9., 9.);
    let e = 1e-12;
    chk!(nearv(a + b, add(a, b), e), "addition", "{:?}", a + b);
    chk!(nearv(a - b, sub(a, b), e), "subtraction", "{:?}", a - b);
    chk!(nearv(a * t, mul(a, t), e), "scaling", "{:?}", a * t);
    chk!(nearv(a * b, Vec3 { x: a.x * b.x, y: a.y * b.y, z: a.z * b.z }, e), "component-wise product", "{:?}", a * b);
    chk!(nearv(a * (t as f32), mul(a, t as f32 as f64), e), "scaling by a single precision number", "{:?}", a * (t as f32));
    chk!(nearv(a + t, add(a, Vec3 { x: t, y: t, z: t }), e), "adding a number", "{:?}", a + t);
    chk!(nearv(a - t, sub(a, Vec3 { x: t, y: t, z: t }), e), "subtracting a number", "{:?}", a - t);
    if t != 0. { chk!(nearv(a / t, mul(a, 1. / t), 1e-9), "division", "{:?}", a / t); }
    if b.x != 0. && b.y != 0. && b.z != 0. { chk!(nearv(a / b, Vec3 { x: a.x / b.x, y: a.y / b.y, z: a.z / b.z }, 1e-9), "component-wise division", "{:?}", a / b); }
    let mut c = a;
    c += b;
    chk!(nearv(c, add(a, b), e), "adding in place", "{:?}", c);
    chk!(nearv(a.neg(), mul(a, -1.), e), "negation", "{:?}", a.neg());
    chk!(near(a.dot(b), dot(a, b), e), "dot product", "{} for {}", a.dot(b), dot(a, b));
    chk!(nearv(a.cross(b), cross(a, b), e), "cross product", "{:?}", a.cross(b));
    chk!(near(a.length(), len(a), e) && near(a.length_squared(), dot(a, a), e), "length", "{} {}", a.length(), a.length_squared());
    if len(a) > 1e-6 {
        let u = a.unit();
        chk!(near(len(u), 1., 1e-9) && nearv(mul(u, len(a)), a, 1e-9), "normalisation", "{:?} of {:?}", u, a);
    }
    chk!(a.axis(0) == a.x && a.axis(1) == a.y && a.axis(2) == a.z, "component access", "{:?}", a);
    chk!(Vec3::new(a.x, a.y, a.z) == a, "a new vector has the given components", "{:?}", a);
    let k = g.lg("tiny", 1e-10, 1e-6);
    let s = mul(a, k / 30.);
    let z = s.x.abs() < 1e-8 && s.y.abs() < 1e-8 && s.z.abs() < 1e-8;
    chk!(s.near_zero() == z, "near zero", "{:?}", s);
    Ok(())
}
fn end(g: &mut Gen, n: &str) -> f64 {
    match g.i(&format!("{}.inf", n), 0, 7) { 0 => f64::INFINITY, 1 => f64::NEG_INFINITY, _ => g.f(n, -9., 9.) }
}
fn intervals(g: &mut Gen) -> Res {
    let i = Interval::new(end(g, "lo"), end(g, "hi"));
    let j = Interval::new(end(g, "a"), end(g, "b"));
    let x = g.f("x", -10., 10.);
    chk!(i.contains(x) == (i.min <= x && x <= i.max), "containment", "{:?} {}", i, x);
    let h = combine_intervals(i, j);
    chk!(h.min == i.min.min(j.min) && h.max == i.max.max(j.max), "hull", "{:?} {:?} -> {:?}", i, j, h);
    if i.min <= i.max && i.min < f64::INFINITY && i.max > f64::NEG_INFINITY {
        let c = i.clamp(x);
        chk!(c == if x < i.min { i.min } else if x > i.max { i.max } else { x }, "clamping", "{:?} {} -> {}", i, x, c);
    }
    let f = Interval::new(g.f("fl", -9., 9.), g.f("fh", -9., 9.));
    let (p, m, e) = (f + x, f - x, f.expand(x));
    chk!(p.min == f.min + x && p.max == f.max + x && m.min == f.min - x && m.max == f.max - x, "shifting", "{:?} {:?} by {}", p, m, x);
    chk!(near(e.min, f.min - x / 2., 1e-12) && near(e.max, f.max + x / 2., 1e-12), "expanding", "{:?} by {}: {:?}", f, x, e);
    chk!(near(f.size(), f.max - f.min, 1e-12), "size", "{:?} {}", f, f.size());
    Ok(())
}
fn one(g: &mut Gen, n: &str) -> (Box<dyn Transformer>, Box<dyn Fn(Vec3, bool) -> Vec3>) {
    match g.i(&format!("{}.kind", n), 0, 5) {
        0 => { let o = g.v(n, 9.); (Box::new(Translation::new(o)), Box::new(move |v, s| if s { v } else { add(v, o) })) }
        1 => { let k = g.f(n, -3., 3.); (Box::new(Scale::new(k)), Box::new(move |v, _| mul(v, k))) }
        2 => (Box::new(NopTransformer()), Box::new(|v, _| v)),
        a => {
            let d = g.f(n, -720., 720.);
            let (s, c) = (d * std::f64::consts::PI / 180.).sin_cos();
            let t: Box<dyn Transformer> = match a { 3 => Box::new(RotationX::new(d)), 4 => Box::new(RotationY::new(d)), _ => Box::new(RotationZ::new(d)) };
            (t, Box::new(move |v, _| match a {
                3 => Vec3 { x: v.x, y: v.y * c + v.z * s, z: v.z * c - v.y * s },
                4 => Vec3 { x: v.x * c + v.z * s, y: v.y, z: v.z * c - v.x * s },
                _ => Vec3 { x: v.x * c + v.y * s, y: v.y * c - v.x * s, z: v.z },
            }))
        }
    }
}
fn transformers(g: &mut Gen) -> Res {
    let v = g.v("v", 20.);
    let skip = g.b("skip");
    let (t, f) = one(g, "t");
    let (r, w) = (t.transform(v, skip), f(v, skip));
    chk!(nearv(r, w, 1e-9), "a transformation moves points and directions as specified", "{:?} became {:?}, not {:?}", v, r, w);
    Ok(())
}
fn sequence(g: &mut Gen) -> Res {
    let v = g.v("v", 5.);
    let skip = g.b("skip");
    let n = g.i("n", 0, 6);
    let (mut ts, mut w) = (vec![], v);
    for i in 0..n {
        let (t, f) = one(g, &format!("t{}", i));
        ts.push(t);
        w = f(w, skip);
    }
    let r = Transformations::new(ts).transform(v, skip);
    chk!(nearv(r, w, 1e-8), "a sequence of transformations applies its parts in list order", "{:?} became {:?}, not {:?}", v, r, w);
    Ok(())
}
fn shapes(g: &mut Gen) -> Res {
    // a transformed quad is hit exactly where the quad of the transformed corner and edges is
    use solstrale::hittable::{Hittable, Quad, Triangle};
    use solstrale::util::interval::RAY_INTERVAL;
    let (t, f) = one(g, "t");
    let (q, u, v) = (g.vu("q", 5.), g.vu("u", 4.), g.vu("v", 4.));
    let m = crate::scene::mat(g, "m");
    let (q2, u2, v2) = (f(q, false), f(u, true), f(v, true));
    let n = cross(u2, v2);
    if len(n) < 0.1 { return Ok(()); }
    let (a, b) = (g.u("a", -0.3, 1.3), g.u("b", -0.3, 1.3));
    if [a, b, a - 1., b - 1., a + b - 1.].iter().any(|x| x.abs() < 1e-3) { return Ok(()); }
    let p = add(q2, add(mul(u2, a), mul(v2, b)));
    let o = add(p, add(mul(unit(n), g.u("h", 1., 5.)), g.vu("off", 2.)));
    let r = solstrale::geo::Ray::new(o, sub(p, o));
    if dot(unit(n), unit(sub(p, o))).abs() < 0.05 { return Ok(()); }
    let quad = Quad::new(q, u, v, m.clone(), t.as_ref());
    let h = quad.hit(&r, &RAY_INTERVAL);
    let inq = a > 0. && a < 1. && b > 0. && b < 1.;
    chk!(h.is_some() == inq, "a transformed quad is the image of the quad", "image point {:?} ({} {}): hit {}", p, a, b, h.is_some());
    let tri = Triangle::new(q, add(q, u), add(q, v), m, t.as_ref());
    let h = tri.hit(&r, &RAY_INTERVAL);
    let inq = a > 0. && b > 0. && a + b < 1.;
    chk!(h.is_some() == inq, "a transformed triangle is the image of the triangle", "image point {:?} ({} {}): hit {}", p, a, b, h.is_some());
    Ok(())
}
fn camera(g: &mut Gen) -> Res {
    let (w, h) = (g.i("w", 1, 900) as usize, g.i("h", 1, 900) as usize);
    let c = CameraConfig {
        vertical_fov_degrees: g.f("fov", 1., 150.),
        aperture_size: if g.b("pin") { 0. } else { g.f("aperture", 0., 3.) },
        look_from: g.v("from", 20.), look_at: g.v("at", 20.), up: g.v("up", 3.),
    };
    let gv = sub(c.look_from, c.look_at);
    if len(gv) < 1e-2 || len(c.up) < 1e-2 { return Ok(()); }
    let wv = unit(gv);
    let cr = cross(unit(c.up), wv);
    if len(cr) < 1e-2 { return Ok(()); }
    let u = unit(cr);
    let v = cross(wv, u);
    let cam = Camera::new(w, h, &c);
    let (a, b) = (g.f("a", 0., 1.) as f32, g.f("b", 0., 1.) as f32);
    let r = cam.get_ray(Uv { u: a, v: b });
    let f = len(gv);
    let hh = 2. * (c.vertical_fov_degrees * std::f64::consts::PI / 360.).tan() * f;
    let ww = hh * w as f64 / h as f64;
    let p = add(add(sub(c.look_from, mul(wv, f)), mul(u, ww * (a as f64 - 0.5))), mul(v, hh * (b as f64 - 0.5)));
    let q = add(r.origin, r.direction);
    chk!(len(sub(p, q)) <= 1e-7 * (1. + f + hh + ww), "the ray passes through the selected point of the focus plane", "{:?} instead of {:?}", q, p);
    let off = sub(r.origin, c.look_from);
    chk!(len(off) <= c.aperture_size / 2. * (1. + 1e-9) + 1e-9, "the ray starts on the lens disc", "{} away for aperture {}", len(off), c.aperture_size);
    chk!(dot(off, wv).abs() <= 1e-8 * (1. + len(c.look_from)), "the lens is perpendicular to the view direction", "{}", dot(off, wv));
    if g.one_in("extent", 200) && c.aperture_size > 0.1 {
        // the lens is used in all directions and up to its rim
        let (mut m, mut s) = (0f64, Vec3 { x: 0., y: 0., z: 0. });
        for _ in 0..3000 {
            let o = mul(sub(cam.get_ray(Uv { u: a, v: b }).origin, c.look_from), 2. / c.aperture_size);
            m = m.max(len(o));
            s = add(s, o);
        }
        chk!(m > 0.9 && len(s) < 3000. * 0.1, "the lens disc is filled", "radius {} mean {:?}", m, mul(s, 1. / 3000.));
    }
    Ok(())
}
fn samplers(g: &mut Gen) -> Res {
    for _ in 0..20 {
        let s = random_in_unit_sphere();
        chk!(len(s) < 1., "a sample of the unit sphere lies inside it", "{:?}", s);
        let s = random_unit_vector();
        chk!(near(len(s), 1., 1e-9), "a random unit vector has length one", "{:?}", s);
        let s = random_in_unit_disc();
        chk!(len(s) < 1. && s.z == 0., "a disc sample lies in the unit disc", "{:?}", s);
        let s = random_cosine_direction();
        chk!(near(len(s), 1., 1e-9) && s.z >= 0., "a cosine weighted direction is a unit vector of the upper half space", "{:?}", s);
        let s = SpherePdf::new().generate();
        chk!(near(len(s), 1., 1e-9), "a random unit vector has length one", "{:?}", s);
    }
    let w = g.dir("w");
    let d = CosinePdf::new(w).generate();
    chk!(near(len(d), 1., 1e-9), "a cosine weighted direction has length one", "{:?}", d);
    chk!(dot(d, unit(w)) >= -1e-9, "a cosine weighted direction lies on the outer side", "{:?} for {:?}", d, w);
    let a = g.vu("a", 3.);
    let o = Onb::new(w);
    let r = o.local(a);
    chk!(near(len(r), len(a), 1e-9), "local coordinates keep the length", "{:?} became {:?}", a, r);
    chk!(near(dot(r, unit(w)), a.z, 1e-9), "the last axis of the basis is the given direction", "{:?} {:?}", r, a);
    let b = g.vu("b", 3.);
    chk!(near(dot(r, o.local(b)), dot(a, b), 1e-8), "local coordinates keep angles", "{:?} {:?}", a, b);
    let (lo, k) = (g.f("lo", -50., 50.), g.lg("size", 1e-3, 50.));
    let x = random_float(lo, lo + k);
    chk!(lo <= x && x <= lo + k, "random numbers respect their interval", "{} in {} {}", x, lo, lo + k);
    let x = random_normal_float();
    chk!((0. ..1.).contains(&x), "random numbers respect their interval", "{}", x);
    let n = g.i("n", 1, 9) as usize;
    let xs = vec![0u8; n];
    let mut seen = vec![0; n];
    for _ in 0..300 {
        let i = random_element_index(&xs);
        chk!(i < n, "a random element index is an index", "{} of {}", i, n);
        seen[i] += 1;
        let j = random_uint32(n as u32);
        chk!((j as usize) < n, "random integers respect their bound", "{} of {}", j, n);
    }
    chk!(seen.iter().all(|x| *x > 0), "every element can be chosen", "{:?}", seen);
    Ok(())
}
