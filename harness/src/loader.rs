//! P21 models in OBJ files
use crate::chk;
use crate::g::*;
use crate::geom::transformer;
use crate::images::scratch;
use image::{Rgb, RgbImage};
use solstrale::geo::Ray;
use solstrale::hittable::{Hittable, Hittables, Sphere};
use solstrale::loader::obj::Obj;
use solstrale::loader::Loader;
use solstrale::material::texture::SolidColor;
use solstrale::material::*;
use solstrale::util::interval::Interval;
use solstrale::geo::vec3::Vec3;
use std::fmt::Write;

type Case = fn(&mut Gen) -> Res;
pub fn cases(p: &str, v: &mut Vec<(u64, &'static str, Case)>) {
    if p == "P21" {
        v.push((6, "models", models));
        v.push((1, "many materials", many));
        v.push((1, "unreadable models", broken));
    }
}
struct Face { v: [usize; 3], vt: Option<[usize; 3]>, mat: Option<usize> }
#[derive(Clone)]
struct Mtl { kd: Option<[f32; 3]>, map: Option<usize>, bump: bool }
const COLORS: [[u8; 3]; 3] = [[255, 0, 0], [0, 204, 51], [51, 102, 255]];

fn models(g: &mut Gen) -> Res { let n = g.i("materials", 0, 6) as usize; let f = g.i("faces", 1, 14) as usize; model(g, n, f) }
fn many(g: &mut Gen) -> Res {
    if g.i("rare", 0, 4) != 0 { return Ok(()); }
    let huge = g.one_in("huge", 40);
    let n = [100, 128, 129, 200, 255, 256, 257, 300, 70000][if huge { 8 } else { g.i("materials", 0, 7) as usize }];
    model(g, n, 40)
}
fn model(g: &mut Gen, nm: usize, nf: usize) -> Res {
    let dir = scratch("model");
    let _ = std::fs::create_dir_all(&dir);
    let r = model_in(g, nm, nf, &format!("{}/", dir.display()));
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn f32in(g: &mut Gen, a: f32, b: f32) -> f32 { a + (b - a) * (g.rng.u32(0..4097) as f32 / 4096.) }
fn model_in(g: &mut Gen, nm: usize, nf: usize, dir: &str) -> Res {
    let images = g.b("images");
    let mut mtls = vec![];
    let mut lib = String::new();
    for i in 0..nm {
        let mut m = Mtl { kd: None, map: None, bump: false };
        if g.rng.u8(0..4) > 0 { m.kd = Some([f32in(g, 0., 1.), f32in(g, 0., 1.), f32in(g, 0., 1.)]); if g.rng.u8(0..8) == 0 { m.kd = Some([0.; 3]); } }
        if images && nm < 20 && g.rng.u8(0..3) == 0 { m.map = Some(g.rng.usize(0..3)); }
        if images && nm < 20 && g.rng.u8(0..3) == 0 { m.bump = true; }
        let _ = writeln!(lib, "newmtl m{}", i);
        if let Some(c) = m.kd { let _ = writeln!(lib, "Kd {} {} {}", c[0], c[1], c[2]); }
        if let Some(k) = m.map { let _ = writeln!(lib, "map_Kd c{}.png", k); }
        if m.bump { let _ = writeln!(lib, "map_Bump n.png"); }
        mtls.push(m);
    }
    if images {
        for (i, c) in COLORS.iter().enumerate() { let _ = RgbImage::from_pixel(2, 2, Rgb(*c)).save(format!("{}c{}.png", dir, i)); }
        let _ = RgbImage::from_pixel(2, 2, Rgb([209, 128, 224])).save(format!("{}n.png", dir));
    }
    let textured = g.i("textured", 0, 2);
    let grouped = g.b("grouped");
    let quads = g.b("quads");
    let negative = g.b("negative");
    let mut text = if nm > 0 { "mtllib m.mtl\n".to_string() } else { String::new() };
    let (mut vs, mut ts): (Vec<[f32; 3]>, Vec<[f32; 2]>) = (vec![], vec![]);
    let mut faces: Vec<Face> = vec![];
    let mut mat = None;
    // texture coordinates that faces share
    if textured > 0 { for _ in 0..3 { ts.push([f32in(g, 0., 1.), f32in(g, 0., 1.)]); let t = ts[ts.len() - 1]; let _ = writeln!(text, "vt {} {}", t[0], t[1]); } }
    let mut z = 0.;
    for k in 0..nf {
        if k == 0 || g.rng.u8(0..3) == 0 {
            if grouped { let _ = writeln!(text, "{} g{}", if g.rng.bool() { "o" } else { "g" }, k); }
            if nm > 0 && g.rng.u8(0..3) > 0 {
                // the last ones are where ids are narrowed
                let i = if g.rng.bool() { g.rng.usize(0..nm) } else { nm - 1 - g.rng.usize(0..nm.min(3)) };
                mat = Some(i);
                let _ = writeln!(text, "usemtl m{}", i);
            }
        }
        z += 5.;
        let corners = if quads && g.rng.bool() { 4 } else { 3 };
        let a = f32in(g, 0., 6.);
        let c = [f32in(g, -9., 9.), f32in(g, -9., 9.)];
        let mut ids = vec![];
        let mut tids = vec![];
        let tex = textured == 1 || textured == 2 && g.rng.bool();
        let tilt = f32in(g, -0.2, 0.2);
        for j in 0..corners {
            let w = a + j as f32 * 6.2831855 / corners as f32;
            let p = [c[0] + 3. * w.cos(), c[1] + 2. * w.sin(), z + tilt * w.cos()];
            let _ = writeln!(text, "v {} {} {}", p[0], p[1], p[2]);
            vs.push(p); ids.push(vs.len() - 1);
            if tex {
                if g.rng.bool() { ts.push([f32in(g, -1., 2.), f32in(g, -1., 2.)]); let t = ts[ts.len() - 1]; let _ = writeln!(text, "vt {} {}", t[0], t[1]); tids.push(ts.len() - 1); }
                else { tids.push(g.rng.usize(0..ts.len())); }
            }
        }
        text.push('f');
        for j in 0..corners {
            let n = |i: usize, all: usize| if negative { i as i64 - all as i64 } else { i as i64 + 1 };
            let _ = if tex { write!(text, " {}/{}", n(ids[j], vs.len()), n(tids[j], ts.len())) } else { write!(text, " {}", n(ids[j], vs.len())) };
        }
        text.push('\n');
        for j in 1..corners - 1 {
            faces.push(Face { v: [ids[0], ids[j], ids[j + 1]], vt: if tex { Some([tids[0], tids[j], tids[j + 1]]) } else { None }, mat });
        }
    }
    let _ = std::fs::write(format!("{}m.obj", dir), &text);
    if nm > 0 { let _ = std::fs::write(format!("{}m.mtl", dir), &lib); }
    let given = g.b("default");
    let dc = Vec3::new(0.25, 0.5, 0.125);
    let (tr, f) = transformer(g);
    let world = match Obj::new(dir, "m.obj").load(tr.as_ref(), if given { Some(Lambertian::new(SolidColor::new(dc.x, dc.y, dc.z), None)) } else { None }) {
        Ok(w) => w,
        Err(e) => { chk!(false, "a model can be loaded", "{}", e); return Ok(()); }
    };
    for (n, t) in faces.iter().enumerate() {
        let p: Vec<Vec3> = t.v.iter().map(|i| f(Vec3::new(vs[*i][0] as f64, vs[*i][1] as f64, vs[*i][2] as f64), false)).collect();
        let (e1, e2) = (sub(p[1], p[0]), sub(p[2], p[0]));
        let no = unit(cross(e1, e2));
        let (mut a, mut b) = (g.rng.f64() * 0.9 + 0.02, g.rng.f64() * 0.9 + 0.02);
        if a + b > 0.98 { a = 1. - a; b = 1. - b; if a + b > 0.98 { a *= 0.5; b *= 0.5; } }
        let q = add(p[0], add(mul(e1, a), mul(e2, b)));
        let up = if g.rng.bool() { 1. } else { -1. };
        let ray = Ray::new(add(q, mul(no, up)), mul(no, -up));
        let hit = world.hit(&ray, &Interval { min: 0.5, max: 1.5 });
        let h = match hit { Some(h) => h, None => { chk!(false, "every face is a triangle of the model", "face {} of {} is missing", n, faces.len()); return Ok(()); } };
        chk!(nearv(h.hit_point, q, 1e-4), "a triangle's corners are the positions of one face's vertices", "hit at {:?} instead of {:?}", h.hit_point, q);
        let m = t.mat.map(|i| mtls[i].clone());
        let bump = m.as_ref().map(|m| m.bump).unwrap_or(false);
        let off = len(sub(mul(h.normal, up), no));
        // with texture coordinates that do not span the triangle there is no direction to tilt the normal into
        let spans = t.vt.map(|c| { let d = |i: usize, k: usize| ts[c[i]][k] - ts[c[0]][k]; (d(1, 0) * d(2, 1) - d(2, 0) * d(1, 1)).abs() > 0.01 }).unwrap_or(false);
        if !bump { chk!(off < 1e-3, "only a material with a normal map has one", "the normal of face {} is {:?} instead of {:?}", n, h.normal, no); }
        else if spans { chk!(off > 0.1, "a material has the normal map that the file gives it", "the normal of face {} is {:?}", n, h.normal); }
        if let Some(c) = t.vt {
            let w = 1. - a - b;
            for k in 0..2 {
                let want = ts[c[0]][k] as f64 * w + ts[c[1]][k] as f64 * a + ts[c[2]][k] as f64 * b;
                let got = if k == 0 { h.uv.u } else { h.uv.v } as f64;
                chk!((want - got).abs() < 1e-3, "a corner's texture coordinates are those of its vertex", "face {}, coordinate {}: {} instead of {}", n, k, got, want);
            }
        }
        let want = match &m {
            None => if given { dc } else { Vec3::new(1., 1., 1.) },
            Some(m) => match (m.map, m.kd) {
                (Some(i), _) => Vec3::new(COLORS[i][0] as f64 / 255., COLORS[i][1] as f64 / 255., COLORS[i][2] as f64 / 255.),
                (_, Some(c)) => Vec3::new(c[0] as f64, c[1] as f64, c[2] as f64),
                _ => Vec3::new(1., 1., 1.),
            },
        };
        let got = color(&world, &ray);
        match got {
            Some(c) => chk!(nearv(c, want, 1e-4), "a triangle has the material its group names", "face {} with material {:?} of {} is {:?} instead of {:?}", n, t.mat, nm, c, want),
            None => chk!(false, "a triangle has the material its group names", "face {} scatters in another way", n),
        }
    }
    Ok(())
}
fn color(w: &Hittables, ray: &Ray) -> Option<Vec3> {
    let h = w.hit(ray, &Interval { min: 0.5, max: 1.5 })?;
    let lights = [Sphere::new(Vec3::new(0., 900., 0.), 1., DiffuseLight::new(1., 1., 1., None))];
    match h.material.scatter(ray, &h, &lights) { RayScatter::ScatterPdf(s) => Some(s.color), _ => None }
}
fn broken(g: &mut Gen) -> Res {
    let dir = scratch("broken");
    let _ = std::fs::create_dir_all(&dir);
    let r = broken_in(g, &format!("{}/", dir.display()));
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn broken_in(g: &mut Gen, dir: &str) -> Res {
    let good = "v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0 0\nvt 1 0\nvt 0 1\n";
    let kinds: [(&str, &str, Option<&str>); 13] = [
        ("no file", "", None),
        ("a vertex that is no number", "v a b c\nf 1 2 3\n", None),
        ("too few coordinates", "v 0 0\n", None),
        ("a vertex out of range", "f 1 2 4\n", None),
        ("vertex zero", "f 0 1 2\n", None),
        ("a texture coordinate out of range", "f 1/1 2/2 3/9\n", None),
        ("no material library", "mtllib gone.mtl\nf 1 2 3\n", None),
        ("a malformed colour", "mtllib m.mtl\nusemtl a\nf 1 2 3\n", Some("newmtl a\nKd red\n")),
        ("no texture file", "mtllib m.mtl\nusemtl a\nf 1 2 3\n", Some("newmtl a\nmap_Kd gone.png\n")),
        ("no image in the texture file", "mtllib m.mtl\nusemtl a\nf 1 2 3\n", Some("newmtl a\nmap_Kd m.mtl\n")),
        ("no normal map file", "mtllib m.mtl\nusemtl a\nf 1 2 3\n", Some("newmtl a\nmap_Bump gone.png\n")),
        ("no image in the normal map file", "mtllib m.mtl\nusemtl a\nf 1 2 3\n", Some("newmtl b\nKd 1 1 1\nnewmtl a\nmap_Bump m.mtl\n")),
        ("an unused material without its texture file", "mtllib m.mtl\nf 1 2 3\n", Some("newmtl b\nKd 1 1 1\nnewmtl a\nmap_Kd gone.png\n")),
    ];
    let (what, text, lib) = kinds[g.i("kind", 0, 12) as usize];
    if what != "no file" { let _ = std::fs::write(format!("{}m.obj", dir), format!("{}{}", good, text)); }
    if let Some(l) = lib { let _ = std::fs::write(format!("{}m.mtl", dir), l); }
    let r = Obj::new(dir, "m.obj").load(&solstrale::geo::transformation::NopTransformer(), None);
    chk!(r.is_err(), "what cannot be read gives an error", "{} gives a model", what);
    // files without faces are readable
    let _ = std::fs::write(format!("{}m.obj", dir), if g.b("blank") { "" } else { good });
    let r = Obj::new(dir, "m.obj").load(&solstrale::geo::transformation::NopTransformer(), None);
    match r {
        Ok(w) => chk!(w.hit(&Ray::new(Vec3::new(0.2, 0.2, 1.), Vec3::new(0., 0., -1.)), &Interval { min: 0., max: 10. }).is_none(), "a model without faces is never hit", ""),
        Err(e) => chk!(false, "only what cannot be read gives an error", "{}", e),
    }
    Ok(())
}
