use super::boolean::index;
use crate::fx::*;
use crate::json::*;
use cavalier_contours::polyline::*;

fn offset(p: &Polyline<f64>, d: f64, h: bool, i: i64) -> String {
    let idx = index(p, i);
    let r = p.parallel_offset_opt(
        d,
        &PlineOffsetOptions {
            handle_self_intersects: h,
            aabb_index: idx.as_ref(),
            ..Default::default()
        },
    );
    O::new().raw("r", &list(r.iter().map(jpl))).end()
}

pub fn run(c: &J) -> String {
    offset(&pl(c.get("p")), un(c.get("d").int()), c.get("h").int() == 1, 0)
}

/// The same offset under several presentations of the input.
pub fn variants(c: &J) -> String {
    let one = |v: &J| offset(&pl(v.get("p")), un(v.get("d").int()), false, v.get("i").int());
    O::new().raw("vs", &list(c.get("vs").arr().iter().map(one))).end()
}
