use crate::fx::*;
use crate::json::*;
use cavalier_contours::polyline::*;

pub const OPS: [(&str, BooleanOp); 4] = [
    ("or", BooleanOp::Or),
    ("and", BooleanOp::And),
    ("not", BooleanOp::Not),
    ("xor", BooleanOp::Xor),
];

pub fn info(r: &BooleanResultInfo) -> &'static str {
    match r {
        BooleanResultInfo::InvalidInput => "invalid",
        BooleanResultInfo::Pline1InsidePline2 => "1in2",
        BooleanResultInfo::Pline2InsidePline1 => "2in1",
        BooleanResultInfo::Disjoint => "disjoint",
        BooleanResultInfo::Overlapping => "overlapping",
        BooleanResultInfo::Intersected => "intersected",
    }
}

fn view_data(d: &PlineViewData<f64>) -> O {
    O::new()
        .int("si", d.start_index as i64 + 1)
        .int("eo", d.end_index_offset as i64)
        .raw("us", &jv(d.updated_start))
        .int("ub", fb(d.updated_end_bulge))
        .raw("ep", &jp(d.end_point))
        .int("inv", d.inverted_direction as i64)
}

/// A slice: its data, and the vertexes its view shows.
fn slice(s: &BooleanPlineSlice<f64>, a: &Polyline<f64>, b: &Polyline<f64>) -> String {
    let src = if s.source_is_pline1 { a } else { b };
    let valid = s.view_data.validate_for_source(src) == ViewDataValidation::IsValid;
    let o = view_data(&s.view_data)
        .int("p1", s.source_is_pline1 as i64)
        .int("ov", s.overlapping as i64)
        .int("valid", valid as i64);
    let w = if valid {
        jpl(&s.view(src))
    } else {
        "{\"c\":0,\"v\":[]}".to_string()
    };
    o.raw("w", &w).end()
}

pub fn result(r: &BooleanResult<Polyline<f64>>, a: &Polyline<f64>, b: &Polyline<f64>) -> String {
    let part = |v: &Vec<BooleanResultPline<Polyline<f64>>>| {
        list(v.iter().map(|p| {
            O::new()
                .raw("pl", &jpl(&p.pline))
                .raw("sub", &list(p.subslices.iter().map(|s| slice(s, a, b))))
                .end()
        }))
    };
    O::new()
        .str("info", info(&r.result_info))
        .raw("pos", &part(&r.pos_plines))
        .raw("neg", &part(&r.neg_plines))
        .end()
}

pub fn run(c: &J) -> String {
    let a = pl(c.get("p"));
    let b = pl(c.get("q"));
    let mut o = O::new();
    for (n, op) in OPS {
        o = o.raw(n, &result(&a.boolean(&b, op), &a, &b));
    }
    o.end()
}

/// Spatial index a caller may supply: 1 approximate, 2 exact, 3 oversized boxes.
pub fn index(p: &Polyline<f64>, kind: i64) -> Option<static_aabb2d_index::StaticAABB2DIndex<f64>> {
    match kind {
        1 => Some(p.create_approx_aabb_index()),
        2 => Some(p.create_aabb_index()),
        3 => {
            let n = p.segment_count();
            let mut b = static_aabb2d_index::StaticAABB2DIndexBuilder::new(n);
            for (i, (v1, v2)) in p.iter_segments().enumerate() {
                let r = 3.0 * (v2.pos() - v1.pos()).length() + 0.5 * (1 + i % 3) as f64;
                b.add(v1.x.min(v2.x) - r, v1.y.min(v2.y) - r, v1.x.max(v2.x) + r, v1.y.max(v2.y) + r);
            }
            b.build().ok()
        }
        _ => None,
    }
}

/// The same operation under several presentations of the inputs.
pub fn variants(c: &J) -> String {
    let one = |v: &J| {
        let (mut a, mut b) = (pl(v.get("p")), pl(v.get("q")));
        if v.get("s").int() == 1 {
            std::mem::swap(&mut a, &mut b);
        }
        let idx = index(&a, v.get("i").int());
        let mut o = O::new();
        for (n, op) in OPS {
            let r = a.boolean_opt(
                &b,
                op,
                &PlineBooleanOptions {
                    pline1_aabb_index: idx.as_ref(),
                    ..Default::default()
                },
            );
            let part = |v: &Vec<BooleanResultPline<Polyline<f64>>>| list(v.iter().map(|p| jpl(&p.pline)));
            o = o.raw(
                n,
                &O::new()
                    .str("info", info(&r.result_info))
                    .raw("pos", &part(&r.pos_plines))
                    .raw("neg", &part(&r.neg_plines))
                    .end(),
            );
        }
        o.end()
    };
    O::new().raw("vs", &list(c.get("vs").arr().iter().map(one))).end()
}
