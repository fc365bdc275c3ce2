use crate::fx::*;
use crate::json::*;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;

pub fn shape(s: &Shape<f64>) -> String {
    let all: Vec<&IndexedPolyline<f64>> = s.ccw_plines.iter().chain(s.cw_plines.iter()).collect();
    // loop i must be found by the shape's index wherever one of its vertexes is, and its own
    // index must find the segment that starts there
    let covered = all.iter().enumerate().map(|(i, p)| {
        let ok = p.polyline.iter_vertexes().enumerate().all(|(k, v)| {
            s.plines_index.query(v.x, v.y, v.x, v.y).contains(&i)
                && p.spatial_index.query(v.x, v.y, v.x, v.y).contains(&k)
        });
        (ok as i32).to_string()
    });
    O::new()
        .raw("ccw", &list(s.ccw_plines.iter().map(|p| jpl(&p.polyline))))
        .raw("cw", &list(s.cw_plines.iter().map(|p| jpl(&p.polyline))))
        .int("ixn", s.plines_index.count() as i64)
        .raw("ix", &list(covered))
        .end()
}

pub fn run(c: &J) -> String {
    let s0 = Shape::from_plines(c.get("ps").arr().iter().map(pl));
    let s1 = s0.parallel_offset(un(c.get("d").int()), ShapeOffsetOptions::new());
    let d2 = c.get("d2").int();
    let s2 = if d2 == 0 { s1.clone() } else { s1.parallel_offset(un(d2), ShapeOffsetOptions::default()) };
    O::new()
        .raw("s0", &shape(&s0))
        .raw("s1", &shape(&s1))
        .raw("s2", &shape(&s2))
        .end()
}
