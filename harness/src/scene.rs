//! shared builders
use crate::g::*;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Ray;
use solstrale::material::texture::SolidColor;
use solstrale::material::{DiffuseLight, Lambertian, Materials};
use solstrale::util::interval::{Interval, RAY_INTERVAL, UNIVERSE_INTERVAL};

pub fn lambertian(g: &mut Gen, name: &str) -> Materials {
    let c = Vec3::new(g.u(&format!("{}.r", name), 0., 1.), g.u(&format!("{}.g", name), 0., 1.), g.u(&format!("{}.b", name), 0., 1.));
    Lambertian::new(SolidColor::new(c.x, c.y, c.z), None)
}
pub fn light(g: &mut Gen, name: &str) -> Materials {
    DiffuseLight::new(g.u(&format!("{}.r", name), 0., 9.), 1., 2., None)
}
pub fn mat(g: &mut Gen, name: &str) -> Materials {
    if g.one_in(&format!("{}.light", name), 3) { light(g, name) } else { lambertian(g, name) }
}
pub fn interval(g: &mut Gen, name: &str) -> Interval {
    match g.i(&format!("{}.kind", name), 0, 5) {
        0 => UNIVERSE_INTERVAL,
        1 | 2 => RAY_INTERVAL,
        3 => Interval::new(g.f(&format!("{}.min", name), -20., 20.), f64::INFINITY),
        4 => Interval::new(f64::NEG_INFINITY, g.f(&format!("{}.max", name), -20., 20.)),
        _ => {
            let a = g.f(&format!("{}.min", name), -20., 20.);
            let b = g.f(&format!("{}.max", name), -20., 20.);
            Interval::new(a.min(b), a.max(b))
        }
    }
}
pub fn at(r: &Ray, t: f64) -> Vec3 { add(r.origin, mul(r.direction, t)) }
pub fn inside(iv: &Interval, t: f64) -> bool { iv.min <= t && t <= iv.max }
/// t is clearly away from both ends
pub fn clear_of(iv: &Interval, t: f64, eps: f64) -> bool { (t - iv.min).abs() > eps && (t - iv.max).abs() > eps }
