//! Projection between the specification's fixed-point integers and f64.
use crate::json::{list, J};
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::{PlineSource, PlineSourceMut, PlineVertex, Polyline};
use std::cell::Cell;

pub const U: f64 = 1.0e6;
pub const G: f64 = 1.0e9;

thread_local! {
    /// Set when a projected value is not finite or does not fit the specification's range.
    static BAD: Cell<bool> = const { Cell::new(false) };
}

pub fn take_bad() -> bool {
    BAD.with(|b| b.replace(false))
}

fn proj(v: f64) -> i64 {
    let r = v.round();
    if r.is_finite() && r.abs() <= 1.0e9 {
        r as i64
    } else {
        BAD.with(|b| b.set(true));
        0
    }
}

/// Coordinate / length to units of 1/U.
pub fn fx(v: f64) -> i64 {
    proj(v * U)
}
/// Bulge to units of 1/G (values up to 1 + rounding are legitimate).
pub fn fb(v: f64) -> i64 {
    let r = (v * G).round();
    if r.is_finite() && r.abs() <= 2.0e9 {
        r as i64
    } else {
        BAD.with(|b| b.set(true));
        0
    }
}
pub fn un(i: i64) -> f64 {
    i as f64 / U
}
pub fn ung(i: i64) -> f64 {
    i as f64 / G
}

pub fn vx(j: &J) -> PlineVertex<f64> {
    let a = j.arr();
    PlineVertex::new(un(a[0].int()), un(a[1].int()), ung(a[2].int()))
}
pub fn pt(j: &J) -> Vector2<f64> {
    let a = j.arr();
    Vector2::new(un(a[0].int()), un(a[1].int()))
}
pub fn pl(j: &J) -> Polyline<f64> {
    let mut p = Polyline::new();
    for v in j.get("v").arr() {
        p.add_vertex(vx(v));
    }
    p.set_is_closed(j.get("c").int() == 1);
    p
}

pub fn jv(v: PlineVertex<f64>) -> String {
    format!("[{},{},{}]", fx(v.x), fx(v.y), fb(v.bulge))
}
pub fn jp(p: Vector2<f64>) -> String {
    format!("[{},{}]", fx(p.x), fx(p.y))
}
pub fn jpl<P: PlineSource<Num = f64> + ?Sized>(p: &P) -> String {
    format!(
        "{{\"c\":{},\"v\":{}}}",
        p.is_closed() as i32,
        list(p.iter_vertexes().map(jv))
    )
}
