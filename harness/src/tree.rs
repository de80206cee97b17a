//! P01, P02, P03 acceleration structure and boxes, P07 constant medium
use crate::chk;
use crate::g::*;
use crate::scene::*;
use crate::geom::aimed;
use solstrale::geo::transformation::*;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Aabb, Ray};
use solstrale::hittable::{Bvh, ConstantMedium, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::util::interval::{Interval, RAY_INTERVAL};
use std::f64::consts::PI;

type Case = fn(&mut Gen) -> Res;
pub fn cases(p: &str, v: &mut Vec<(u64, &'static str, Case)>) {
    match p {
        "P01" => v.push((1, "nearest hit", nearest)),
        "P02" => {
            v.push((3, "surface in box", surface));
            v.push((2, "group box", group));
            v.push((2, "box operations", box_ops));
            v.push((4, "ray and box", ray_box));
        }
        "P03" => v.push((1, "objects and lights", keeps)),
        "P07" => {
            v.push((4, "medium depth", depth));
            v.push((1, "medium probability", probability));
        }
        _ => {}
    }
}
fn udir(g: &mut Gen, name: &str) -> Vec3 { unit(g.dir(name)) }
pub fn object(g: &mut Gen, at: Vec3) -> Hittables {
    let m = mat(g, "m");
    match g.i("shape", 0, 2) {
        0 => Sphere::new(at, g.lg("r", 0.05, 4.), m),
        k => {
            let s = g.lg("s", 0.1, 6.);
            let u = mul(udir(g, "u"), s);
            let mut v = mul(udir(g, "v"), s * g.lg("ratio", 0.4, 2.5));
            if len(cross(unit(u), unit(v))) < 0.2 { v = add(v, mul(unit(cross(u, Vec3::new(0.3, 0.5, 0.81))), len(v))); }
            if k == 1 { Quad::new(at, u, v, m, &NopTransformer()) } else { Triangle::new(at, add(at, u), add(at, v), m, &NopTransformer()) }
        }
    }
}
pub fn objects(g: &mut Gen, max: i64) -> Vec<Hittables> {
    let n = match g.i("sizes", 0, 3) { 0 => g.i("n", 1, 4.min(max)), 1 => g.i("n", 1, 12.min(max)), _ => g.i("n", 1, max) };
    let how = g.i("layout", 0, 5);
    let base = g.v("base", 5.);
    let dir = udir(g, "dir");
    (0..n).map(|i| {
        let at = match how {
            0 => base,
            1 => add(base, mul(dir, i as f64)),
            2 => add(base, Vec3::new((i % 3) as f64, (i / 3 % 3) as f64, (i / 9) as f64)),
            3 => if i % 2 == 0 { base } else { add(base, dir) },
            _ => g.v("at", 10.),
        };
        object(g, at)
    }).collect()
}
/// the length (in the ray's parameter, from lo on) of the way of the ray through the box
fn crossing(b: &Aabb, r: &Ray, lo: f64) -> f64 {
    let (mut a, mut z) = (lo, f64::INFINITY);
    for (i, o, d) in [(&b.x, r.origin.x, r.direction.x), (&b.y, r.origin.y, r.direction.y), (&b.z, r.origin.z, r.direction.z)] {
        if d == 0. {
            if o < i.min || o > i.max { return f64::NEG_INFINITY; }
        } else {
            let (p, q) = ((i.min - o) / d, (i.max - o) / d);
            a = a.max(p.min(q));
            z = z.min(p.max(q));
        }
    }
    z - a
}
fn rec_text(r: &solstrale::material::RayHit) -> String { format!("{:?}", r) }
fn nearest(g: &mut Gen) -> Res {
    let mut list = objects(g, 40);
    if g.one_in("nested", 5) { let sub = objects(g, 6); list.push(Bvh::new(sub)); }
    if g.one_in("empty", 60) { list.clear(); }
    let tree = Bvh::new(list.clone());
    for _ in 0..4 {
        let target = if list.is_empty() { g.v("q", 5.) } else { let k = g.i("target", 0, list.len() as i64 - 1) as usize; list[k].bounding_box().center() };
        let mut ray = aimed(g, target, 3.);
        if g.one_in("axis", 6) {
            let k = g.i("ax", 0, 5);
            let s = if k % 2 == 0 { 1. } else { -1. };
            ray = Ray::new(ray.origin, Vec3::new(if k / 2 == 0 { s } else { 0. }, if k / 2 == 1 { s } else { 0. }, if k / 2 == 2 { s } else { 0. }));
        }
        if g.one_in("within", 4) { ray = Ray::new(add(target, g.v("w", 0.5)), ray.direction); }
        let iv = interval(g, "iv");
        let got = tree.hit(&ray, &iv);
        // brute force
        let hits: Vec<_> = list.iter().filter_map(|o| o.hit(&ray, &iv).map(|h| (o, h))).collect();
        let e = 1e-9 * (1. + len(ray.origin)) / len(ray.direction);
        let near_end = hits.iter().any(|(_, h)| !clear_of(&iv, h.ray_length, e));
        let graze = hits.iter().any(|(o, _)| crossing(o.bounding_box(), &ray, iv.min.min(0.)) < 1e-7);
        if near_end || graze { continue; }
        let best = hits.iter().map(|(_, h)| h.ray_length).fold(f64::INFINITY, f64::min);
        match got {
            None => chk!(hits.is_empty(), "no hit of any object is missed", "nothing reported, an object is hit at {}", best),
            Some(h) => {
                chk!(!hits.is_empty(), "a hit is reported only when an object is hit", "reported {} but no object is hit", h.ray_length);
                chk!(inside(&iv, h.ray_length), "the hit lies in the interval", "{}", h.ray_length);
                chk!(h.ray_length <= best + 1e-9 * (1. + best.abs()), "the reported hit is the nearest", "reported {} nearest {}", h.ray_length, best);
                let t = rec_text(&h);
                chk!(hits.iter().any(|(_, x)| rec_text(x) == t), "the hit record is that of the object", "{}", t);
            }
        }
    }
    Ok(())
}
fn in_box(b: &Aabb, p: Vec3, e: f64) -> bool {
    [(&b.x, p.x), (&b.y, p.y), (&b.z, p.z)].iter().all(|(i, c)| i.min - e <= *c && *c <= i.max + e)
}
fn transformer(g: &mut Gen) -> Transformations {
    let n = g.i("parts", 0, 3);
    let mut v: Vec<Box<dyn Transformer>> = vec![];
    for _ in 0..n {
        match g.i("part", 0, 4) {
            0 => v.push(Box::new(Translation::new(g.v("tr", 5.)))),
            1 => v.push(Box::new(RotationX::new(g.f("ang", -180., 180.)))),
            2 => v.push(Box::new(RotationY::new(g.f("ang", -180., 180.)))),
            3 => v.push(Box::new(RotationZ::new(g.f("ang", -180., 180.)))),
            _ => v.push(Box::new(Scale::new(g.lg("sc", 0.2, 5.)))),
        }
    }
    Transformations::new(v)
}
fn positive(b: &Aabb) -> bool { b.x.max - b.x.min > 0. && b.y.max - b.y.min > 0. && b.z.max - b.z.min > 0. }
fn surface(g: &mut Gen) -> Res {
    let a = g.v("a", 8.);
    let m = mat(g, "m");
    let t = transformer(g);
    let (mut u, mut v) = (g.v("u", 5.), g.v("v", 5.));
    if g.one_in("flat", 3) { u.x = 0.; v.x = 0.; }
    if g.one_in("flat y", 3) { u.y = 0.; v.y = 0.; }
    if len(cross(u, v)) < 1e-3 { u = Vec3::new(1., 0., 0.); v = Vec3::new(0., 0., 2.); }
    let kind = g.i("kind", 0, 3);
    let pts: Vec<Vec3> = (0..12).map(|_| {
        let (mut x, mut y) = (g.f("x", 0., 1.), g.f("y", 0., 1.));
        match kind {
            0 => add(a, mul(udir(g, "n"), 2.5)),
            1 | 3 => add(a, add(mul(u, x), mul(v, y))),
            _ => { if x + y > 1. { x = 1. - x; y = 1. - y; } add(a, add(mul(u, x), mul(v, y))) }
        }
    }).collect();
    let h = match kind {
        0 => Sphere::new(a, 2.5, m),
        1 => Quad::new(a, u, v, m, &t),
        2 => Triangle::new(a, add(a, u), add(a, v), m, &t),
        _ => ConstantMedium::new(Quad::new(a, u, v, m, &t), 2., Vec3::new(1., 1., 1.)),
    };
    let h = if g.one_in("in group", 4) { Bvh::new(vec![h]) } else { h };
    for p in pts {
        let q = if kind == 0 { p } else { t.transform(p, false) };
        let b = h.bounding_box();
        chk!(in_box(b, q, 1e-9 * (1. + len(q))), "the bounding box contains every point of the surface", "{:?} not in {:?}", q, b);
        chk!(positive(b), "boxes of flat shapes are padded to a positive thickness", "{:?}", b);
    }
    Ok(())
}
fn group(g: &mut Gen) -> Res {
    let list = objects(g, 20);
    let t = Bvh::new(list.clone());
    let b = t.bounding_box();
    for o in &list {
        let c = o.bounding_box();
        let ok = b.x.min <= c.x.min && c.x.max <= b.x.max && b.y.min <= c.y.min && c.y.max <= b.y.max && b.z.min <= c.z.min && c.z.max <= b.z.max;
        chk!(ok, "the box of a group contains the boxes of all its members", "{:?} not in {:?}", c, b);
    }
    let m = ConstantMedium::new(t.clone(), 1., Vec3::new(1., 1., 1.));
    chk!(format!("{:?}", m.bounding_box()) == format!("{:?}", b), "a medium has the box of its boundary", "{:?}", m.bounding_box());
    Ok(())
}
fn a_box(g: &mut Gen) -> (Aabb, Vec3, Vec3) {
    let (a, b) = (g.v("a", 6.), g.v("b", 6.));
    (Aabb::new_from_2_points(a, b), Vec3::new(a.x.min(b.x), a.y.min(b.y), a.z.min(b.z)), Vec3::new(a.x.max(b.x), a.y.max(b.y), a.z.max(b.z)))
}
fn same_box(b: &Aabb, lo: Vec3, hi: Vec3, e: f64) -> bool {
    nearv(Vec3::new(b.x.min, b.y.min, b.z.min), lo, e) && nearv(Vec3::new(b.x.max, b.y.max, b.z.max), hi, e)
}
fn box_ops(g: &mut Gen) -> Res {
    let (b, lo, hi) = a_box(g);
    chk!(same_box(&b, lo, hi, 1e-12), "a box of two points spans them", "{:?}", b);
    let (p, q, r) = (g.v("p", 5.), g.v("q", 5.), g.v("r", 5.));
    let t = Aabb::new_from_3_points(p, q, r);
    let mn = |f: fn(Vec3) -> f64| f(p).min(f(q)).min(f(r));
    let mx = |f: fn(Vec3) -> f64| f(p).max(f(q)).max(f(r));
    chk!(same_box(&t, Vec3::new(mn(|v| v.x), mn(|v| v.y), mn(|v| v.z)), Vec3::new(mx(|v| v.x), mx(|v| v.y), mx(|v| v.z)), 1e-12), "a box of three points spans them", "{:?}", t);
    let c = b.combine(&t);
    chk!(same_box(&c, Vec3::new(b.x.min.min(t.x.min), b.y.min.min(t.y.min), b.z.min.min(t.z.min)), Vec3::new(b.x.max.max(t.x.max), b.y.max.max(t.y.max), b.z.max.max(t.z.max)), 1e-12), "the combination is the hull", "{:?}", c);
    let s = &b + p;
    chk!(same_box(&s, add(lo, p), add(hi, p), 1e-12), "shifting moves the box", "{:?}", s);
    let mut th = b.clone();
    if g.b("thin x") { th.x.max = th.x.min + g.f("w", 0., 3e-4); }
    if g.b("thin y") { th.y.max = th.y.min + g.f("w", 0., 3e-4); }
    if g.b("thin z") { th.z.max = th.z.min + g.f("w", 0., 3e-4); }
    let d = th.pad_if_needed();
    for (i, o) in [(&d.x, &th.x), (&d.y, &th.y), (&d.z, &th.z)] {
        chk!(i.min <= o.min && o.max <= i.max, "padding keeps the extent", "{:?} of {:?}", i, o);
        chk!(i.max - i.min > 0.9e-4, "padded boxes are not degenerate", "{:?}", i);
    }
    let e = Aabb::default().combine(&b);
    chk!(same_box(&e, lo, hi, 1e-12), "combination with the empty box", "{:?}", e);
    Ok(())
}
fn ray_box(g: &mut Gen) -> Res {
    let (b, lo, hi) = a_box(g);
    let mid = mul(add(lo, hi), 0.5);
    let half = mul(sub(hi, lo), 0.5);
    let q = add(mid, Vec3::new(half.x * g.f("qx", -1.3, 1.3), half.y * g.f("qy", -1.3, 1.3), half.z * g.f("qz", -1.3, 1.3)));
    let mut o = if g.one_in("inside", 4) { add(mid, Vec3::new(half.x * g.u("ix", -1., 1.), half.y * g.u("iy", -1., 1.), half.z * g.u("iz", -1., 1.))) } else { g.v("o", 15.) };
    let mut d = sub(q, o);
    if g.one_in("axis", 4) {
        let k = g.i("ax", 0, 2);
        let s = if g.b("sg") { 1. } else { -1. };
        let z = if g.b("negz") { -0. } else { 0. };
        d = Vec3::new(if k == 0 { s } else { z }, if k == 1 { s } else { z }, if k == 2 { s } else { z });
        if g.b("through") { o = sub(q, mul(d, g.f("far", -9., 9.))); }
    } else if g.one_in("plane", 6) { d.x = 0.; }
    if len(d) < 1e-3 { return Ok(()); }
    d = mul(d, g.lg("k", 0.05, 20.));
    let r = Ray::new(o, d);
    // distance of grazing: by shrinking and growing the box
    let e = 1e-7;
    let grown = Aabb { x: Interval::new(lo.x - e, hi.x + e), y: Interval::new(lo.y - e, hi.y + e), z: Interval::new(lo.z - e, hi.z + e) };
    let shrunk = Aabb { x: Interval::new(lo.x + e, hi.x - e), y: Interval::new(lo.y + e, hi.y - e), z: Interval::new(lo.z + e, hi.z - e) };
    let thin = hi.x - lo.x < 3. * e || hi.y - lo.y < 3. * e || hi.z - lo.z < 3. * e;
    let got = b.hit(&r);
    if crossing(&grown, &r, 0.) < 0. { chk!(!got, "a ray that misses the closed box is no hit", "{:?} {:?}", b, r); }
    else if !thin && crossing(&shrunk, &r, 0.) > e { chk!(got, "a ray that crosses the interior of the box is a hit", "{:?} {:?}", b, r); }
    Ok(())
}
fn keeps(g: &mut Gen) -> Res {
    let mut list = objects(g, 60);
    if g.one_in("duplicates", 3) { let c = list[0].clone(); for _ in 0..g.i("copies", 1, 5) { list.push(c.clone()); } }
    if g.one_in("nested", 4) { let sub = objects(g, 5); list.push(Bvh::new(sub)); }
    if g.one_in("empty", 40) { list.clear(); }
    if g.one_in("one place", 12) {
        // objects that no axis separates, in several places or in one
        let (n, places) = (g.i("crowd", 3, 150), g.i("places", 1, 3));
        let at: Vec<Vec3> = (0..places).map(|_| g.v("place", 5.)).collect();
        for i in 0..n { list.push(Sphere::new(at[(i % places) as usize], 1. + i as f64 * 0.01, lambertian(g, "crowd"))); }
        if g.b("alone") { list = list.split_off(list.len() - n as usize); }
    }
    let t = Bvh::new(list.clone());
    let text = format!("{:?}", t);
    let mut names: Vec<String> = list.iter().map(|o| format!("{:?}", o)).collect();
    names.sort();
    names.dedup();
    for n in &names {
        let want: usize = list.iter().map(|o| format!("{:?}", o).matches(n.as_str()).count()).sum();
        let have = text.matches(n.as_str()).count();
        chk!(want == have, "every object is in exactly one leaf", "{} of {} in a list of {}: {}", have, want, list.len(), n);
    }
    let key = |v: Vec<Hittables>| { let mut k: Vec<String> = v.iter().map(|o| format!("{:?}", o)).collect(); k.sort(); k };
    let want = key(list.iter().flat_map(|o| o.get_lights()).collect());
    let have = key(t.get_lights());
    chk!(want == have, "the lights of the tree are the lights of the list", "{} of {}", have.len(), want.len());
    if list.is_empty() { chk!(t.hit(&Ray::new(g.v("o", 5.), g.dir("d")), &RAY_INTERVAL).is_none(), "an empty tree is never hit", ""); }
    Ok(())
}
/// a convex boundary with the parameters where the line of the ray enters and leaves it
fn boundary(g: &mut Gen) -> (Hittables, Box<dyn Fn(&Ray) -> Option<(f64, f64)>>) {
    let m = lambertian(g, "m");
    if g.b("ball") {
        let c = g.v("c", 4.);
        let r = g.lg("r", 0.5, 5.);
        let mut h = Sphere::new(c, r, m);
        if g.one_in("in tree", 3) { h = Bvh::new(vec![h]); }
        (h, Box::new(move |ray| {
            let oc = sub(ray.origin, c);
            let a = dot(ray.direction, ray.direction);
            let b = dot(oc, ray.direction);
            let q = b * b - a * (dot(oc, oc) - r * r);
            if q <= 0. { None } else { Some(((-b - q.sqrt()) / a, (-b + q.sqrt()) / a)) }
        }))
    } else {
        let lo = g.v("lo", 4.);
        let hi = add(lo, Vec3::new(g.lg("sx", 0.5, 8.), g.lg("sy", 0.5, 8.), g.lg("sz", 0.5, 8.)));
        let h = Bvh::new(Quad::new_box(lo, hi, m, &NopTransformer()));
        (h, Box::new(move |ray| {
            let (mut a, mut z) = (f64::NEG_INFINITY, f64::INFINITY);
            for (l, h, o, d) in [(lo.x, hi.x, ray.origin.x, ray.direction.x), (lo.y, hi.y, ray.origin.y, ray.direction.y), (lo.z, hi.z, ray.origin.z, ray.direction.z)] {
                if d == 0. { if o <= l || o >= h { return None; } } else {
                    let (p, q) = ((l - o) / d, (h - o) / d);
                    a = a.max(p.min(q));
                    z = z.min(p.max(q));
                }
            }
            if a < z { Some((a, z)) } else { None }
        }))
    }
}
fn medium_ray(g: &mut Gen, h: &Hittables) -> Ray {
    let c = h.bounding_box().center();
    let mut ray = aimed(g, c, 4.);
    if g.one_in("from inside", 3) { ray = Ray::new(add(c, g.v("in", 0.2)), mul(udir(g, "id"), g.lg("ik", 0.05, 20.))); }
    ray
}
fn way(g: &mut Gen, h: &Hittables, f: &dyn Fn(&Ray) -> Option<(f64, f64)>) -> (Ray, Interval, Option<(f64, f64)>) {
    let ray = medium_ray(g, h);
    let iv = match g.i("ivk", 0, 3) { 0 | 1 => RAY_INTERVAL, 2 => Interval::new(0.001, g.lg("hi", 0.01, 30.)), _ => Interval::new(g.f("lo", 0., 3.), f64::INFINITY) };
    let w = f(&ray).map(|(a, z)| (a.max(iv.min).max(0.), z.min(iv.max))).filter(|(a, z)| a < z);
    (ray, iv, w)
}
fn depth(g: &mut Gen) -> Res {
    let (b, f) = boundary(g);
    let (ray, iv, w) = way(g, &b, &*f);
    let k = len(ray.direction);
    let raw = f(&ray);
    // the medium cannot be thinner than its step, and must be clear of grazing
    if let Some((a, z)) = raw { if (z - a) < 1e-3 || (z - a) * k < 1e-3 { return Ok(()); } }
    if raw.is_none() && crossing(b.bounding_box(), &ray, f64::NEG_INFINITY) > -1e-6 { /* only the exact miss counts */ }
    let m = ConstantMedium::new(b, g.lg("density", 0.05, 1e4), Vec3::new(0.3, 0.6, 0.9));
    let e = 1e-6 * (1. + len(ray.origin)) / k;
    for _ in 0..6 {
        match (m.hit(&ray, &iv), w) {
            (None, _) => {}
            (Some(h), None) => {
                let clear = match raw { None => false, Some((a, z)) => z < iv.min - e || a > iv.max + e };
                if clear { chk!(false, "a ray that does not pass the medium is not scattered", "scattered at {}", h.ray_length); }
            }
            (Some(h), Some((a, z))) => {
                chk!(h.ray_length >= a - e && h.ray_length <= z + e, "scattering happens inside the boundary and the interval", "at {} way {} to {}", h.ray_length, a, z);
                chk!(nearv(h.hit_point, at(&ray, h.ray_length), 1e-9), "the hit point is on the ray", "{:?}", h.hit_point);
            }
        }
    }
    Ok(())
}
fn probability(g: &mut Gen) -> Res {
    let (b, f) = boundary(g);
    let (ray, iv, w) = way(g, &b, &*f);
    let Some((a, z)) = w else { return Ok(()) };
    if (z - a) < 5e-3 || (z - a) * len(ray.direction) < 5e-3 { return Ok(()); }
    if let Some((ra, rz)) = f(&ray) { if rz - ra < 1e-2 { return Ok(()); } }
    let l = (z - a) * len(ray.direction);
    let p = g.u("p", 0.1, 0.9);
    let density = -(1f64 - p).ln() / l;
    let m = ConstantMedium::new(b, density, Vec3::new(0.3, 0.6, 0.9));
    let (n, mut c, mut s) = (600u64, 0u64, 0.);
    for _ in 0..n {
        if let Some(h) = m.hit(&ray, &iv) {
            c += 1;
            // the depth, as probability of scattering up to there, is uniform in [0, p]
            s += (1. - (-density * (h.ray_length - a) * len(ray.direction)).exp()) / p;
        }
    }
    let dev = (c as f64 - n as f64 * p).abs();
    chk!(dev <= 7. * (n as f64 * p * (1. - p)).sqrt() + 4., "the probability of scattering is 1-exp(-density*length)", "{} of {} scattered, expected {}", c, n, n as f64 * p);
    let k = c as f64;
    chk!(c < 20 || (s / k - 0.5).abs() < 7. * 0.2887 / k.sqrt() + 1e-3, "the depth is exponentially distributed", "mean {}", s / k);
    let _ = PI;
    Ok(())
}
