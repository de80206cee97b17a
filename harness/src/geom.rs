//! P04 spheres, P05 quads, P06 triangles
use crate::chk;
use crate::g::*;
use crate::scene::*;
use solstrale::geo::transformation::*;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Ray, Uv};
use solstrale::hittable::{Hittable, Quad, Sphere, Triangle};
use solstrale::util::interval::Interval;
use std::f64::consts::PI;

type Case = fn(&mut Gen) -> Res;
pub fn cases(p: &str, v: &mut Vec<(u64, &'static str, Case)>) {
    match p {
        "P04" => v.push((1, "sphere", sphere)),
        "P05" => { v.push((3, "quad", quad)); v.push((1, "box", new_box)); }
        "P06" => v.push((1, "triangle", triangle)),
        _ => {}
    }
}
/// a ray aimed near the point p
pub fn aimed(g: &mut Gen, p: Vec3, spread: f64) -> Ray {
    let o = add(p, g.v("oc", 12.));
    let q = add(p, g.v("aim", spread));
    let mut d = sub(q, o);
    if len(d) < 1e-3 { d = Vec3::new(0.1, 0.2, 0.9); }
    let k = match g.i("r.len", 0, 3) { 0 => 1. / len(d), 1 => 1., 2 => -1. / len(d), _ => g.lg("r.k", 0.02, 20.) };
    Ray::new(o, mul(d, k))
}
fn sphere(g: &mut Gen) -> Res {
    let c = g.v("center", 10.);
    let r = if g.b("small") { g.lg("radius", 0.01, 1.) } else { g.f("radius", 0.25, 15.) };
    let m = mat(g, "mat");
    let md = format!("{:?}", m);
    let s = Sphere::new(c, r, m);
    let mut ray = aimed(g, c, r * 1.3);
    if g.one_in("inside", 3) { ray = Ray::new(add(c, mul(g.v("io", 1.), r * 0.5)), ray.direction); }
    let iv = interval(g, "iv");
    let oc = sub(ray.origin, c);
    let a = dot(ray.direction, ray.direction);
    let h = dot(oc, ray.direction);
    // squared distance of the line from the centre
    let foot = sub(oc, mul(ray.direction, h / a));
    let miss = len(foot) - r;
    let scale = 1. + len(oc);
    if miss.abs() < 1e-7 * scale { return Ok(()); }
    let hit = s.hit(&ray, &iv);
    if miss > 0. {
        chk!(hit.is_none(), "a ray that misses the sphere is no hit", "line passes {} outside", miss);
        return Ok(());
    }
    let half = ((r * r - dot(foot, foot)) / a).sqrt();
    let (t1, t2) = (-h / a - half, -h / a + half);
    let te = 1e-7 * scale / len(ray.direction);
    if !clear_of(&iv, t1, te) || !clear_of(&iv, t2, te) { return Ok(()); }
    let want = if inside(&iv, t1) { Some(t1) } else if inside(&iv, t2) { Some(t2) } else { None };
    match (hit, want) {
        (None, None) => {}
        (Some(x), None) => chk!(false, "the hit parameter lies in the interval", "reported {} for roots {} {}", x.ray_length, t1, t2),
        (None, Some(t)) => chk!(false, "no nearer intersection in the interval is missed", "nothing reported, intersection at {}", t),
        (Some(x), Some(t)) => {
            chk!((x.ray_length - t).abs() <= 10. * te + 1e-6 * t.abs(), "no nearer intersection in the interval is missed", "ray_length {} expected {}", x.ray_length, t);
            let p = at(&ray, t);
            chk!(nearv(x.hit_point, p, 1e-5), "the hit point is on the ray", "{:?} expected {:?}", x.hit_point, p);
            let out = mul(sub(p, c), 1. / r);
            let cosv = dot(out, ray.direction);
            if cosv.abs() > 1e-6 * len(ray.direction) {
                let ff = cosv < 0.;
                chk!(x.front_face == ff, "front face iff the ray goes against the outward normal", "front_face {}", x.front_face);
                let n = if ff { out } else { mul(out, -1.) };
                chk!(len(sub(x.normal, n)) < 1e-4 * scale / r, "the normal is the unit outward normal, flipped on back faces", "{:?} expected {:?}", x.normal, n);
            }
            if out.x.abs() + out.z.abs() > 0.05 {
                let u = (PI - out.z.atan2(out.x)) / (2. * PI);
                let v = (-out.y).clamp(-1., 1.).acos() / PI;
                let du = (x.uv.u as f64 - u).abs();
                chk!(du.min((du - 1.).abs()) < 1e-3 && (x.uv.v as f64 - v).abs() < 1e-3, "texture coordinates follow longitude and latitude", "{:?} expected {} {}", x.uv, u, v);
            }
            chk!(format!("{:?}", x.material) == md, "the material is the sphere's", "{:?}", x.material);
        }
    }
    Ok(())
}
pub fn transformer(g: &mut Gen) -> (Box<dyn Transformer>, Box<dyn Fn(Vec3, bool) -> Vec3>) {
    match g.i("tr", 0, 3) {
        0 => {
            let t = g.v("tr.t", 5.);
            (Box::new(Translation::new(t)), Box::new(move |v, s| if s { v } else { add(v, t) }))
        }
        1 => {
            let a = g.f("tr.a", -180., 180.);
            let r = a.to_radians();
            (Box::new(RotationY::new(a)), Box::new(move |v, _| Vec3::new(r.cos() * v.x + r.sin() * v.z, v.y, -r.sin() * v.x + r.cos() * v.z)))
        }
        _ => (Box::new(NopTransformer()), Box::new(|v, _| v)),
    }
}
/// expected intersection of a ray with the plane point set o + a u + b v: (t, a, b, |cos|)
fn plane(ray: &Ray, q: Vec3, u: Vec3, v: Vec3) -> Option<(f64, f64, f64, f64)> {
    let n = cross(u, v);
    let nn = dot(n, n);
    let dn = dot(n, ray.direction);
    let c = dn.abs() / (nn.sqrt() * len(ray.direction));
    if c < 1e-4 { return None; }
    let t = dot(n, sub(q, ray.origin)) / dn;
    let p = sub(at(ray, t), q);
    Some((t, dot(cross(p, v), n) / nn, dot(cross(u, p), n) / nn, c))
}
fn quad(g: &mut Gen) -> Res {
    let q = g.v("q", 8.);
    let u = mul(g.v("u", 3.), g.lg("us", 0.05, 2.));
    let v = mul(g.v("v", 3.), g.lg("vs", 0.05, 2.));
    let (tr, f) = transformer(g);
    let (tq, tu, tv) = (f(q, false), f(u, true), f(v, true));
    if len(tu) < 0.02 || len(tv) < 0.02 || len(cross(tu, tv)) < 0.1 * len(tu) * len(tv) { return Ok(()); }
    let m = mat(g, "mat");
    let md = format!("{:?}", m);
    let s = Quad::new(q, u, v, m, tr.as_ref());
    let (a, b) = (g.f("a", -0.3, 1.3), g.f("b", -0.3, 1.3));
    let p = add(tq, add(mul(tu, a), mul(tv, b)));
    let ray = aimed(g, p, 0.0);
    let iv = interval(g, "iv");
    check_quad(&s.hit(&ray, &iv), &ray, &iv, tq, tu, tv, &md)
}
fn check_quad(hit: &Option<solstrale::material::RayHit>, ray: &Ray, iv: &Interval, tq: Vec3, tu: Vec3, tv: Vec3, md: &str) -> Res {
    let (t, a, b, c) = match plane(ray, tq, tu, tv) { Some(x) => x, None => return Ok(()) };
    let e = 1e-5 / c;
    if a.abs() < e || b.abs() < e || (a - 1.).abs() < e || (b - 1.).abs() < e { return Ok(()); }
    let te = 1e-6 * (1. + t.abs()) / c;
    if !clear_of(iv, t, te) || len(ray.direction) * c < 1e-6 { return Ok(()); }
    let want = a > 0. && a < 1. && b > 0. && b < 1. && inside(iv, t);
    if !want {
        chk!(hit.is_none(), "only rays that meet the quad inside the interval are hits", "t {} a {} b {}", t, a, b);
        return Ok(());
    }
    let x = match hit { None => { chk!(false, "a ray that meets the quad inside the interval is a hit", "t {} a {} b {}", t, a, b); return Ok(()); } Some(x) => x };
    chk!((x.ray_length - t).abs() <= te, "the hit is the intersection", "ray_length {} expected {}", x.ray_length, t);
    chk!(nearv(x.hit_point, at(ray, t), 1e-4 / c), "the hit point is on the ray", "{:?}", x.hit_point);
    chk!(near(x.uv.u as f64, a, 1e-3 / c) && near(x.uv.v as f64, b, 1e-3 / c), "the hit point is the point of the quad with these coordinates", "uv {:?} expected {} {}", x.uv, a, b);
    let n = unit(cross(tu, tv));
    let ff = dot(n, ray.direction) < 0.;
    chk!(x.front_face == ff, "front face iff the ray goes against the geometric normal", "{}", x.front_face);
    chk!(nearv(x.normal, if ff { n } else { mul(n, -1.) }, 1e-6), "the normal is the unit geometric normal, flipped on back faces", "{:?}", x.normal);
    chk!(format!("{:?}", x.material) == md, "the material is the quad's", "{:?}", x.material);
    Ok(())
}
fn new_box(g: &mut Gen) -> Res {
    let a = g.v("ba", 4.);
    let b = g.v("bb", 4.);
    let lo = Vec3::new(a.x.min(b.x), a.y.min(b.y), a.z.min(b.z));
    let hi = Vec3::new(a.x.max(b.x), a.y.max(b.y), a.z.max(b.z));
    let d = sub(hi, lo);
    if d.x < 0.05 || d.y < 0.05 || d.z < 0.05 { return Ok(()); }
    let (tr, f) = transformer(g);
    let m = mat(g, "mat");
    let sides = Quad::new_box(a, b, m, tr.as_ref());
    chk!(sides.len() == 6, "a box has six sides", "{}", sides.len());
    // every face of the cuboid is covered by exactly one side, facing outwards
    for ax in 0..3 {
        for hi_side in [false, true] {
            let (x, y) = (g.u("fa", 0.02, 0.98), g.u("fb", 0.02, 0.98));
            let w = if hi_side { 1. } else { 0. };
            let k = match ax { 0 => [w, x, y], 1 => [x, w, y], _ => [x, y, w] };
            let p = Vec3::new(lo.x + d.x * k[0], lo.y + d.y * k[1], lo.z + d.z * k[2]);
            let mut n = Vec3::new(0., 0., 0.);
            let s = if hi_side { 1. } else { -1. };
            match ax { 0 => n.x = s, 1 => n.y = s, _ => n.z = s }
            let (tp, tn) = (f(p, false), f(n, true));
            let ray = Ray::new(add(tp, mul(tn, 0.5)), mul(tn, -1.));
            let iv = Interval::new(0.4, 0.5 + 0.5 * d.x.min(d.y).min(d.z));
            let hits: Vec<_> = sides.iter().filter_map(|s| s.hit(&ray, &iv)).collect();
            chk!(hits.len() == 1, "every point of the cuboid's surface is on exactly one side", "{} sides at axis {} {}", hits.len(), ax, hi_side);
            chk!(hits[0].front_face && nearv(hits[0].normal, tn, 1e-6) && near(hits[0].ray_length, 0.5, 1e-6), "the sides of a box face outwards", "{:?}", hits[0].normal);
        }
    }
    Ok(())
}
fn triangle(g: &mut Gen) -> Res {
    let s = g.lg("size", 0.05, 5.);
    let p0 = g.v("v0", 8.);
    let p1 = add(p0, mul(g.v("e1", 1.), s));
    let p2 = add(p0, mul(g.v("e2", 1.), s));
    let (tr, f) = transformer(g);
    let (a0, a1, a2) = (f(p0, false), f(p1, false), f(p2, false));
    let (e1, e2) = (sub(a1, a0), sub(a2, a0));
    if len(e1) < 0.02 || len(e2) < 0.02 || len(cross(e1, e2)) < 0.1 * len(e1) * len(e2) { return Ok(()); }
    let tc: Vec<Uv> = (0..3).map(|i| Uv::new(g.f(&format!("uv{}.u", i), -2., 2.) as f32, g.f(&format!("uv{}.v", i), -2., 2.) as f32)).collect();
    let m = mat(g, "mat");
    let md = format!("{:?}", m);
    let tri = Triangle::new_with_tex_coords(p0, p1, p2, tc[0], tc[1], tc[2], m, tr.as_ref());
    let (bu, bv) = (g.f("bary.u", -0.3, 1.2), g.f("bary.v", -0.3, 1.2));
    let p = add(a0, add(mul(e1, bu), mul(e2, bv)));
    let ray = aimed(g, p, 0.0);
    let iv = interval(g, "iv");
    let hit = tri.hit(&ray, &iv);
    let (t, a, b, c) = match plane(&ray, a0, e1, e2) { Some(x) => x, None => return Ok(()) };
    let e = 1e-5 / c * (1. + len(sub(ray.origin, a0)) / s.min(1.)) * 0.1 + 1e-5;
    if a.abs() < e || b.abs() < e || (a + b - 1.).abs() < e { return Ok(()); }
    let te = 1e-6 * (1. + t.abs()) / c;
    let det = dot(e1, cross(ray.direction, e2)).abs();
    if !clear_of(&iv, t, te) || det < 2e-8 { return Ok(()); }
    let want = a > 0. && b > 0. && a + b < 1. && inside(&iv, t);
    if !want {
        chk!(hit.is_none(), "only rays that meet the triangle inside the interval are hits", "t {} u {} v {}", t, a, b);
        return Ok(());
    }
    let x = match hit { None => { chk!(false, "a ray that meets the triangle inside the interval is a hit", "t {} u {} v {}", t, a, b); return Ok(()); } Some(x) => x };
    chk!((x.ray_length - t).abs() <= te, "the hit is the intersection", "ray_length {} expected {}", x.ray_length, t);
    chk!(nearv(x.hit_point, at(&ray, t), 1e-4 / c), "the hit point is on the ray", "{:?}", x.hit_point);
    let w = 1. - a - b;
    let (eu, ev) = (w * tc[0].u as f64 + a * tc[1].u as f64 + b * tc[2].u as f64, w * tc[0].v as f64 + a * tc[1].v as f64 + b * tc[2].v as f64);
    chk!(near(x.uv.u as f64, eu, 2e-3 / c) && near(x.uv.v as f64, ev, 2e-3 / c), "the texture coordinates interpolate the vertices'", "{:?} expected {} {}", x.uv, eu, ev);
    let n = unit(cross(e1, e2));
    let ff = dot(n, ray.direction) < 0.;
    chk!(x.front_face == ff, "front face iff the ray goes against the geometric normal", "{}", x.front_face);
    chk!(nearv(x.normal, if ff { n } else { mul(n, -1.) }, 1e-6), "the normal is the unit geometric normal, flipped on back faces", "{:?}", x.normal);
    chk!(format!("{:?}", x.material) == md, "the material is the triangle's", "{:?}", x.material);
    Ok(())
}
