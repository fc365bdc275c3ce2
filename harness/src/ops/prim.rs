//! Single segments, line and circle primitives, angle and vector helpers.
use super::query::EPS;
use crate::fx::*;
use crate::json::*;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
use static_aabb2d_index::AABB;

fn jbox(b: AABB<f64>) -> String {
    format!("[{},{},{},{}]", fx(b.min_x), fx(b.min_y), fx(b.max_x), fx(b.max_y))
}

pub fn seg(c: &J) -> String {
    let v1 = vx(c.get("a"));
    let v2 = vx(c.get("b"));
    let o = O::new();
    let o = if v1.bulge_is_zero() {
        o.int("r", 0).raw("c", &jp(v1.pos())).raw("turned", &jp(v2.pos())).raw("onc", &jp(v1.pos()))
    } else {
        let (r, cc) = seg_arc_radius_and_center(v1, v2);
        let turned = v1.pos().rotate_about(cc, angle_from_bulge(v1.bulge));
        let onc = point_on_circle(r, cc, angle(cc, v1.pos()));
        o.int("r", fx(r)).raw("c", &jp(cc)).raw("turned", &jp(turned)).raw("onc", &jp(onc))
    };
    let cuts = list(c.get("ps").arr().iter().map(|p| {
        let p = pt(p);
        let s = seg_split_at_point(v1, v2, p, EPS);
        let t = seg_tangent_vector(v1, v2, p);
        O::new()
            .raw("us", &jv(s.updated_start))
            .raw("sv", &jv(s.split_vertex))
            .raw("t", &jp(t.normalize()))
            .end()
    }));
    let near = list(c.get("qs").arr().iter().map(|q| jp(seg_closest_point(v1, v2, pt(q), EPS))));
    o.raw("mid", &jp(seg_midpoint(v1, v2)))
        .int("len", fx(seg_length(v1, v2)))
        .raw("box", &jbox(seg_bounding_box(v1, v2)))
        .raw("abox", &jbox(seg_fast_approx_bounding_box(v1, v2)))
        .raw("cuts", &cuts)
        .raw("near", &near)
        .end()
}

/// A segment of no length, alone and against another segment.
pub fn void(c: &J) -> String {
    let s: Vec<_> = c.get("s").arr().iter().map(vx).collect();
    let near = list(c.get("qs").arr().iter().map(|q| jp(seg_closest_point(s[0], s[1], pt(q), EPS))));
    let sp = seg_split_at_point(s[0], s[1], s[0].pos(), EPS);
    O::new()
        .raw("mid", &jp(seg_midpoint(s[0], s[1])))
        .int("len", fx(seg_length(s[0], s[1])))
        .raw("box", &jbox(seg_bounding_box(s[0], s[1])))
        .raw("abox", &jbox(seg_fast_approx_bounding_box(s[0], s[1])))
        .raw("us", &jv(sp.updated_start))
        .raw("sv", &jv(sp.split_vertex))
        .raw("near", &near)
        .raw("ss", &seg_seg(c))
        .end()
}

pub fn line_line(c: &J) -> String {
    let p: Vec<_> = c.get("ps").arr().iter().map(pt).collect();
    let (k, t, u) = match line_line_intr(p[0], p[1], p[2], p[3], EPS) {
        LineLineIntr::NoIntersect => ("none", 0.0, 0.0),
        LineLineIntr::TrueIntersect { seg1_t, seg2_t } => ("true", seg1_t, seg2_t),
        LineLineIntr::FalseIntersect { seg1_t, seg2_t } => ("false", seg1_t, seg2_t),
        LineLineIntr::Overlapping { seg2_t0, seg2_t1 } => ("over", seg2_t0, seg2_t1),
    };
    // lines that are nearly parallel cross far away: how far is not recorded
    let far = |t: f64| fx(t.clamp(-500.0, 500.0));
    O::new().str("k", k).int("t", far(t)).int("u", far(u)).end()
}

pub fn line_circle(c: &J) -> String {
    let p: Vec<_> = c.get("ps").arr().iter().map(pt).collect();
    let (k, t, u) = match line_circle_intr(p[0], p[1], un(c.get("r").int()), p[2], EPS) {
        LineCircleIntr::NoIntersect => ("none", 0.0, 0.0),
        LineCircleIntr::TangentIntersect { t0 } => ("tan", t0, t0),
        LineCircleIntr::TwoIntersects { t0, t1 } => ("two", t0, t1),
    };
    // the points rather than the parameters: they keep their precision on short lines
    let at = |t| point_from_parametric(p[0], p[1], t);
    let fwd = if t <= u { 1 } else { 0 };
    O::new().str("k", k).raw("p", &jp(at(t))).raw("q", &jp(at(u))).int("fwd", fwd).end()
}

pub fn circle_circle(c: &J) -> String {
    let p: Vec<_> = c.get("ps").arr().iter().map(pt).collect();
    let z = Vector2::zero();
    let (k, a, b) = match circle_circle_intr(un(c.get("r").int()), p[0], un(c.get("s").int()), p[1], EPS) {
        CircleCircleIntr::NoIntersect => ("none", z, z),
        CircleCircleIntr::TangentIntersect { point } => ("tan", point, point),
        CircleCircleIntr::TwoIntersects { point1, point2 } => ("two", point1, point2),
        CircleCircleIntr::Overlapping => ("over", z, z),
    };
    O::new().str("k", k).raw("p", &jp(a)).raw("q", &jp(b)).end()
}

fn seg_seg_1(v1: PlineVertex<f64>, v2: PlineVertex<f64>, u1: PlineVertex<f64>, u2: PlineVertex<f64>) -> String {
    let (k, ps) = match pline_seg_intr(v1, v2, u1, u2, EPS) {
        PlineSegIntr::NoIntersect => ("none", vec![]),
        PlineSegIntr::TangentIntersect { point } => ("tan", vec![point]),
        PlineSegIntr::OneIntersect { point } => ("one", vec![point]),
        PlineSegIntr::TwoIntersects { point1, point2 } => ("two", vec![point1, point2]),
        PlineSegIntr::OverlappingLines { point1, point2 } => ("lines", vec![point1, point2]),
        PlineSegIntr::OverlappingArcs { point1, point2 } => ("arcs", vec![point1, point2]),
    };
    O::new().str("k", k).raw("ps", &list(ps.into_iter().map(jp))).end()
}

/// Both argument orders and all directions.
pub fn seg_seg(c: &J) -> String {
    let s: Vec<_> = c.get("s").arr().iter().map(vx).collect();
    let t: Vec<_> = c.get("t").arr().iter().map(vx).collect();
    let rev = |v: &[PlineVertex<f64>]| vec![v[1].with_bulge(-v[0].bulge), v[0].with_bulge(0.0)];
    let (rs, rt) = (rev(&s), rev(&t));
    let f = |a: &[PlineVertex<f64>], b: &[PlineVertex<f64>]| seg_seg_1(a[0], a[1], b[0], b[1]);
    let out = vec![f(&s, &t), f(&rs, &t), f(&s, &rt), f(&rs, &rt), f(&t, &s), f(&rt, &s), f(&t, &rs), f(&rt, &rs)];
    O::new().raw("rs", &list(out.into_iter())).end()
}

const A: f64 = 1.0e8;
fn fa(v: f64) -> i64 {
    fx(v * A / U)
}

/// Angle and vector helpers.
pub fn helpers(c: &J) -> String {
    let ang: Vec<f64> = c.get("as").arr().iter().map(|a| a.int() as f64 / A).collect();
    let p: Vec<_> = c.get("ps").arr().iter().map(pt).collect();
    let g = ung(c.get("g").int());
    let k = c.get("k").int() as f64;
    let b = |x: bool| x as i64;
    let (a0, a1, a2) = (ang[0], ang[1], ang[2]);
    let (p0, p1, p2) = (p[0], p[1], p[2]);
    let on = point_from_parametric(p0, p1, k / 4.0);
    let (mn, mx) = min_max(a0, a1);
    O::new()
        .int("mn", fa(mn))
        .int("mx", fa(mx))
        .int("norm", fa(normalize_radians(a0)))
        .int("delta", fa(delta_angle(a0, a1)))
        .int("dpos", fa(delta_angle_signed(a0, a1, false)))
        .int("dneg", fa(delta_angle_signed(a0, a1, true)))
        .int("btw", b(angle_is_between(a2, a0, a1)))
        .int("btwe", b(angle_is_between_eps(a2, a0, a1, 0.25)))
        .int("swp", b(angle_is_within_sweep(a2, a0, a1)))
        .int("swpe", b(angle_is_within_sweep_eps(a2, a0, a1, 0.25)))
        .int("afb", fa(angle_from_bulge(g)))
        .int("bfa", fb(bulge_from_angle(angle_from_bulge(g))))
        .int("d2", fx(dist_squared(p0, p1)))
        .raw("mid", &jp(midpoint(p0, p1)))
        .raw("on", &jp(on))
        .int("par", fx(parametric_from_point(p0, p1, on, EPS)))
        .raw("cp", &jp(line_seg_closest_point(p0, p1, p2)))
        .int("left", b(is_left(p0, p1, p2)))
        .int("lefteq", b(is_left_or_equal(p0, p1, p2)))
        .int("leftco", b(is_left_or_coincident(p0, p1, p2)))
        .int("rightco", b(is_right_or_coincident(p0, p1, p2)))
        .int("leftcoe", b(is_left_or_coincident_eps(p0, p1, p2, 0.3)))
        .int("rightcoe", b(is_right_or_coincident_eps(p0, p1, p2, 0.3)))
        .raw("scale", &jp(p0.scale(k)))
        .raw("add", &jp(p0 + p1))
        .raw("sub", &jp(p0 - p1))
        .raw("neg", &jp(-p0))
        .raw("perp", &jp(p0.perp()))
        .raw("unit", &jp(p0.normalize()))
        .raw("uperp", &jp(p0.unit_perp()))
        .int("len", fx(p0.length()))
        .int("dot", fx(p0.dot(p1)))
        .int("pdot", fx(p0.perp_dot(p1)))
        .end()
}
