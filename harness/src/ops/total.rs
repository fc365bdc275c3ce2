//! Every public operation on one polyline (and on it and another one): did it return, and was the
//! result finite?
use crate::fx::*;
use crate::guard;
use crate::json::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::core::Control;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;

/// What an operation gave: a number of things, whether all of them are finite, and loops.
pub struct Gave {
    n: i64,
    fin: bool,
    ls: Vec<Polyline<f64>>,
}
fn num(v: f64) -> Gave {
    Gave { n: 0, fin: v.is_finite(), ls: vec![] }
}
fn count(n: usize) -> Gave {
    Gave { n: n as i64, fin: true, ls: vec![] }
}
fn nums(n: usize, v: &[f64]) -> Gave {
    Gave { n: n as i64, fin: v.iter().all(|x| x.is_finite()), ls: vec![] }
}
fn loops(ls: Vec<Polyline<f64>>) -> Gave {
    let fin = ls.iter().flat_map(|p| p.iter_vertexes()).all(|v| v.x.is_finite() && v.y.is_finite() && v.bulge.is_finite());
    Gave { n: ls.len() as i64, fin, ls }
}
fn isects(r: &PlineIntersectsCollection<f64>) -> Gave {
    let mut x: Vec<f64> = r.basic_intersects.iter().flat_map(|b| [b.point.x, b.point.y]).collect();
    x.extend(r.overlapping_intersects.iter().flat_map(|b| [b.point1.x, b.point1.y, b.point2.x, b.point2.y]));
    nums(r.basic_intersects.len() + r.overlapping_intersects.len(), &x)
}
fn slices(r: BooleanResult<Polyline<f64>>) -> Gave {
    let mut fin = true;
    for s in r.pos_plines.iter().chain(&r.neg_plines).flat_map(|p| &p.subslices) {
        let d = &s.view_data;
        fin &= [d.updated_start.x, d.updated_start.y, d.updated_start.bulge, d.updated_end_bulge, d.end_point.x, d.end_point.y].iter().all(|x| x.is_finite());
    }
    let mut g = loops(r.pos_plines.into_iter().chain(r.neg_plines).map(|p| p.pline).collect());
    g.fin &= fin;
    g
}

struct Log(Vec<String>);
impl Log {
    fn go(&mut self, name: &str, f: impl FnOnce() -> Gave) {
        let o = O::new().str("o", name);
        self.0.push(match guard(f) {
            Ok(g) => {
                let ls = if g.fin { list(g.ls.iter().filter(|p| !far(p)).map(jpl)) } else { "[]".into() };
                o.str("p", "").int("fin", g.fin as i64).int("n", g.n).raw("ls", &ls).end()
            }
            Err(m) => o.str("p", &m).int("fin", 1).int("n", 0).raw("ls", "[]").end(),
        });
    }
}
fn far(p: &Polyline<f64>) -> bool {
    p.iter_vertexes().any(|v| v.x.abs() > 900.0 || v.y.abs() > 900.0 || v.bulge.abs() > 1.9)
}

pub fn queries(c: &J) -> String {
    let p = pl(c.get("p"));
    let mut l = Log(vec![]);
    let eps = 1e-5;
    l.go("segments", || count(p.iter_segments().count()));
    l.go("segment count", || count(p.segment_count()));
    l.go("vertexes", || count(p.iter_vertexes().rev().count()));
    l.go("last", || count(p.last().is_some() as usize));
    l.go("extents", || match p.extents() {
        None => count(0),
        Some(b) => nums(1, &[b.min_x, b.min_y, b.max_x, b.max_y]),
    });
    l.go("path length", || num(p.path_length()));
    l.go("area", || num(p.area()));
    l.go("orientation", || count(match p.orientation() { PlineOrientation::Open => 0, PlineOrientation::Clockwise => 1, PlineOrientation::CounterClockwise => 2 }));
    l.go("approx index", || {
        let i = p.create_approx_aabb_index();
        let b: Vec<f64> = i.item_boxes().iter().flat_map(|b| [b.min_x, b.min_y, b.max_x, b.max_y]).collect();
        nums(i.count(), &b)
    });
    l.go("index", || {
        let i = p.create_aabb_index();
        let b: Vec<f64> = i.item_boxes().iter().flat_map(|b| [b.min_x, b.min_y, b.max_x, b.max_y]).collect();
        nums(i.count(), &b)
    });
    for q in c.get("qs").arr() {
        let q = pt(q);
        l.go("closest point", || match p.closest_point(q, eps) {
            None => count(0),
            Some(r) => nums(1, &[r.distance, r.seg_point.x, r.seg_point.y]),
        });
        l.go("winding number", || count(p.winding_number(q).unsigned_abs() as usize));
    }
    for t in [-1.0, 0.0, 0.25, 1.0, 1e3] {
        l.go("point at length", || match p.find_point_at_path_length(t) {
            Ok((i, q)) => nums(1 + i, &[q.x, q.y]),
            Err(total) => nums(0, &[total]),
        });
    }
    for (h, name) in [(SelfIntersectsInclude::All, "self intersects"), (SelfIntersectsInclude::Local, "local self intersects"), (SelfIntersectsInclude::Global, "global self intersects")] {
        l.go(name, || {
            let mut x: Vec<f64> = vec![];
            let mut n = 0;
            let mut v = |i: PlineIntersect<f64>| {
                n += 1;
                match i {
                    PlineIntersect::Basic(b) => x.extend([b.point.x, b.point.y]),
                    PlineIntersect::Overlapping(b) => x.extend([b.point1.x, b.point1.y, b.point2.x, b.point2.y]),
                }
                Control::<()>::Continue
            };
            p.visit_self_intersects_opt(&mut v, &PlineSelfIntersectOptions { include: h, ..Default::default() });
            nums(n, &x)
        });
    }
    l.go("remove repeats", || loops(p.remove_repeat_pos(eps).into_iter().collect()));
    l.go("remove redundant", || loops(p.remove_redundant(eps).into_iter().collect()));
    l.go("arcs to lines", || loops(p.arcs_to_approx_lines(0.01).into_iter().collect()));
    for i in 0..3.min(p.vertex_count() + 1) {
        l.go("rotate start at vertex", || loops(p.rotate_start(i, p.get(i).map_or(Vector2::zero(), |v| v.pos()), eps).into_iter().collect()));
    }
    l.go("invert", || {
        let mut r = p.clone();
        r.invert_direction_mut();
        loops(vec![r])
    });
    l.go("copy without repeats", || loops(vec![Polyline::create_from_remove_repeat(&p, eps)]));
    list_out(l)
}
fn list_out(l: Log) -> String {
    O::new().raw("r", &list(l.0.into_iter())).end()
}

/// Operations that compute new polylines.
pub fn offsets(c: &J) -> String {
    let p = pl(c.get("p"));
    let mut l = Log(vec![]);
    for d in c.get("ds").arr() {
        let d = un(d.int());
        for (h, name) in [(false, "offset"), (true, "offset of a self-crossing polyline")] {
            l.go(name, || loops(p.parallel_offset_opt(d, &PlineOffsetOptions { handle_self_intersects: h, ..Default::default() })));
        }
        if c.get("shape").int() == 1 && p.is_closed() && p.vertex_count() > 1 {
            l.go("shape offset", || {
                let r = Shape::from_plines([p.clone()]).parallel_offset(d, ShapeOffsetOptions::default());
                loops(r.ccw_plines.iter().chain(&r.cw_plines).map(|p| p.polyline.clone()).collect())
            });
        }
    }
    list_out(l)
}

pub fn pairs(c: &J) -> String {
    let (p, q) = (pl(c.get("p")), pl(c.get("q")));
    let mut l = Log(vec![]);
    l.go("intersects", || isects(&p.find_intersects(&q)));
    for (n, op) in super::boolean::OPS {
        if c.get("bool").int() == 0 {
            break;
        }
        l.go(n, || slices(p.boolean(&q, op)));
    }
    list_out(l)
}
