//! Queries about one polyline.
use super::boolean::index;
use crate::fx::*;
use crate::json::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;
use static_aabb2d_index::StaticAABB2DIndex;

pub const EPS: f64 = 1e-5;

pub fn wind(c: &J) -> String {
    let qs: Vec<_> = c.get("qs").arr().iter().map(pt).collect();
    let ws = list(c.get("vs").arr().iter().map(|v| {
        let p = pl(v);
        list(qs.iter().map(|q| p.winding_number(*q).to_string()))
    }));
    O::new().raw("ws", &ws).end()
}

pub fn near(c: &J) -> String {
    let p = pl(c.get("p"));
    let rs = list(c.get("qs").arr().iter().map(|q| match p.closest_point(pt(q), EPS) {
        None => "{\"i\":0,\"p\":[0,0],\"d\":0}".to_string(),
        Some(r) => O::new()
            .int("i", r.seg_start_index as i64 + 1)
            .raw("p", &jp(r.seg_point))
            .int("d", fx(r.distance))
            .end(),
    }));
    O::new().raw("rs", &rs).end()
}

pub fn ori<P: PlineSource<Num = f64>>(p: &P) -> &'static str {
    match p.orientation() {
        PlineOrientation::Open => "open",
        PlineOrientation::Clockwise => "cw",
        PlineOrientation::CounterClockwise => "ccw",
    }
}

pub fn measures<P: PlineSource<Num = f64>>(p: &P) -> String {
    let ext = match p.extents() {
        None => "[]".to_string(),
        Some(b) => format!("[{},{},{},{}]", fx(b.min_x), fx(b.min_y), fx(b.max_x), fx(b.max_y)),
    };
    O::new()
        .int("len", fx(p.path_length()))
        .int("area2", fx(2.0 * p.area()))
        .str("ori", ori(p))
        .raw("ext", &ext)
        .end()
}

pub fn measure(c: &J) -> String {
    let ms = list(c.get("vs").arr().iter().map(|v| measures(&pl(v))));
    O::new().raw("ms", &ms).end()
}

pub fn length(c: &J) -> String {
    let p = pl(c.get("p"));
    let ts = list(c.get("ts").arr().iter().map(|t| {
        if p.is_empty() {
            return "{\"ok\":0,\"i\":0,\"p\":[0,0],\"l\":0}".to_string();
        }
        match p.find_point_at_path_length(un(t.int())) {
            Ok((i, q)) => O::new().int("ok", 1).int("i", i as i64 + 1).raw("p", &jp(q)).int("l", 0).end(),
            Err(l) => O::new().int("ok", 0).int("i", 0).raw("p", "[0,0]").int("l", fx(l)).end(),
        }
    }));
    let lines = list(c.get("errs").arr().iter().map(|e| match p.arcs_to_approx_lines(un(e.int())) {
        None => "{\"some\":0,\"pl\":{\"c\":0,\"v\":[]}}".to_string(),
        Some(r) => O::new().int("some", 1).raw("pl", &jpl(&r)).end(),
    }));
    O::new().raw("ts", &ts).raw("lines", &lines).end()
}

pub fn opt(r: &Option<Polyline<f64>>) -> String {
    match r {
        None => "{\"some\":0,\"pl\":{\"c\":0,\"v\":[]}}".to_string(),
        Some(p) => O::new().int("some", 1).raw("pl", &jpl(p)).end(),
    }
}

pub fn clean(c: &J) -> String {
    let p = pl(c.get("p"));
    let rp = p.remove_repeat_pos(EPS);
    let rp2 = rp.as_ref().and_then(|r| r.remove_repeat_pos(EPS));
    let rr = p.remove_redundant(EPS);
    let rr2 = rr.as_ref().and_then(|r| r.remove_redundant(EPS));
    O::new()
        .raw("rp", &opt(&rp))
        .int("rp2", rp2.is_some() as i64)
        .raw("rr", &opt(&rr))
        .int("rr2", rr2.is_some() as i64)
        .end()
}

/// Reads a view in every way there is; `same` says whether the ways agree.
fn view(d: &PlineViewData<f64>, p: &Polyline<f64>) -> String {
    if d.validate_for_source(p) != ViewDataValidation::IsValid {
        return "{\"some\":1,\"valid\":0,\"same\":1,\"v\":[]}".to_string();
    }
    let w = d.view(p);
    let n = w.vertex_count();
    let vs: Vec<PlineVertex<f64>> = w.iter_vertexes().collect();
    let copy = Polyline::create_from(&w);
    let back: Vec<PlineVertex<f64>> = w.iter_vertexes().rev().collect();
    let segs: Vec<_> = w.iter_segments().collect();
    let eq = |a: PlineVertex<f64>, b: PlineVertex<f64>| a.x == b.x && a.y == b.y && a.bulge == b.bulge;
    let same = vs.len() == n
        && (0..n).all(|i| eq(w.at(i), vs[i]) && w.get(i).is_some_and(|v| eq(v, vs[i])))
        && w.get(n).is_none()
        && back.len() == n
        && (0..n).all(|i| eq(back[n - 1 - i], vs[i]))
        && !w.is_closed()
        && w.segment_count() == n - 1
        && segs.len() == n - 1
        && (0..n - 1).all(|i| eq(segs[i].0, vs[i]) && eq(segs[i].1, vs[i + 1]))
        && copy.vertex_data.len() == n
        && !copy.is_closed
        && (0..n).all(|i| eq(copy.vertex_data[i], vs[i]))
        && w.path_length() == copy.path_length()
        && w.last().is_some_and(|v| eq(v, vs[n - 1]))
        && {
            let d2 = w.detach();
            let w2 = d2.view(p);
            w2.vertex_count() == n && (0..n).all(|i| eq(w2.at(i), vs[i]))
        };
    O::new()
        .int("some", 1)
        .int("valid", 1)
        .int("same", same as i64)
        .raw("v", &list(vs.into_iter().map(jv)))
        .end()
}
fn views(d: &Option<PlineViewData<f64>>, p: &Polyline<f64>) -> (String, String) {
    const NONE: &str = "{\"some\":0,\"valid\":0,\"same\":1,\"v\":[]}";
    match d {
        None => (NONE.into(), NONE.into()),
        Some(d) => {
            let mut i = *d;
            i.inverted_direction = !i.inverted_direction;
            (view(d, p), view(&i, p))
        }
    }
}

fn verdict(v: ViewDataValidation<f64>) -> &'static str {
    match v {
        ViewDataValidation::IsValid => "ok",
        ViewDataValidation::SourceHasNoSegments => "nosegs",
        ViewDataValidation::OffsetOutOfRange { .. } => "offset",
        ViewDataValidation::UpdatedStartNotOnSegment { .. } => "start",
        ViewDataValidation::EndPointNotOnSegment { .. } => "end",
        ViewDataValidation::EndPointOnFinalOffsetVertex { .. } => "endvertex",
        ViewDataValidation::UpdatedBulgeDoesNotMatch { .. } => "bulge",
    }
}

pub fn slice(c: &J) -> String {
    let p = pl(c.get("p"));
    let n = p.vertex_count();
    let all = if n >= 2 {
        let d = Some(PlineViewData::from_entire_pline(&p));
        let (f, r) = views(&d, &p);
        O::new().raw("f", &f).raw("r", &r).end()
    } else {
        "{}".to_string()
    };
    let cuts = list(c.get("cuts").arr().iter().map(|ab| {
        let (a, b) = (&ab.arr()[0], &ab.arr()[1]);
        let (i, j) = (a.get("i").int() as usize - 1, b.get("i").int() as usize - 1);
        let (ap, bp) = (pt(a.get("p")), pt(b.get("p")));
        let d = PlineViewData::from_slice_points(&p, ap, i, bp, j, EPS);
        let (f, r) = views(&d, &p);
        let s = PlineViewData::from_new_start(&p, ap, i, EPS);
        let (sf, sr) = views(&s, &p);
        let rot = p.rotate_start(i, ap, EPS);
        // data that describes something else
        let wrong = list(
            d.iter()
                .flat_map(|d| {
                    let off = Vector2::new(3.0e-2, 2.0e-2);
                    let mut v = vec![];
                    let mut w = *d;
                    w.end_index_offset = n + 1;
                    v.push(("offset", w));
                    let mut w = *d;
                    w.updated_start = PlineVertex::from_vector2(w.updated_start.pos() + off, w.updated_start.bulge);
                    v.push(("start", w));
                    let mut w = *d;
                    w.end_point = w.end_point + off;
                    v.push(("end", w));
                    let mut w = *d;
                    w.end_point = p.at((w.start_index + w.end_index_offset) % n).pos();
                    v.push(("endvertex", w));
                    let mut w = *d;
                    w.updated_end_bulge += 0.01;
                    v.push(("bulge", w));
                    v
                })
                .map(|(k, w)| {
                    O::new()
                        .str("k", k)
                        .str("r", verdict(w.validate_for_source(&p)))
                        .int("si", w.start_index as i64 + 1)
                        .int("eo", w.end_index_offset as i64)
                        .raw("sp", &jp(w.updated_start.pos()))
                        .raw("ep", &jp(w.end_point))
                        .end()
                }),
        );
        O::new()
            .raw("f", &f)
            .raw("r", &r)
            .raw("sf", &sf)
            .raw("sr", &sr)
            .raw("rot", &opt(&rot))
            .raw("wrong", &wrong)
            .end()
    }));
    let none = {
        let q: Polyline<f64> = Polyline::new();
        let d = PlineViewData {
            start_index: 0,
            end_index_offset: 0,
            updated_start: PlineVertex::new(0.0, 0.0, 0.0),
            updated_end_bulge: 0.0,
            end_point: Vector2::new(1.0, 0.0),
            inverted_direction: false,
        };
        verdict(d.validate_for_source(&q))
    };
    let rot_bad = p.rotate_start(n, Vector2::new(0.0, 0.0), EPS).is_none() as i64;
    O::new()
        .raw("all", &all)
        .raw("cuts", &cuts)
        .str("none", none)
        .int("rotbad", rot_bad)
        .end()
}

fn boxes(idx: &StaticAABB2DIndex<f64>) -> String {
    let mut bs = vec![String::from("[]"); idx.count()];
    for (k, b) in idx.item_indices().iter().zip(idx.item_boxes().iter()) {
        bs[*k] = format!("[{},{},{},{}]", fx(b.min_x), fx(b.min_y), fx(b.max_x), fx(b.max_y));
    }
    list(bs.into_iter())
}

fn loops(ps: &[Polyline<f64>]) -> String {
    list(ps.iter().map(|p| jpl(p)))
}

pub fn indexes(c: &J) -> String {
    let (p, q) = (pl(c.get("p")), pl(c.get("q")));
    let d = un(c.get("d").int());
    let exact = p.create_aabb_index();
    let approx = p.create_approx_aabb_index();
    // every box finds its own segment
    let finds = |idx: &StaticAABB2DIndex<f64>| {
        idx.item_indices().iter().zip(idx.item_boxes().iter()).all(|(k, b)| {
            idx.query(b.min_x, b.min_y, b.max_x, b.max_y).contains(k)
        })
    };
    let ok = (exact.count() == 0 || finds(&exact)) && (approx.count() == 0 || finds(&approx));
    let mut offs = vec![];
    let mut bools = vec![];
    if p.segment_count() > 0 && c.get("offs").int() == 1 {
        for k in 0..4 {
            let idx = index(&p, k);
            let r = p.parallel_offset_opt(
                d,
                &PlineOffsetOptions {
                    aabb_index: idx.as_ref(),
                    handle_self_intersects: true,
                    ..Default::default()
                },
            );
            offs.push(loops(&r));
            if c.get("ops").int() == 0 {
                continue;
            }
            let b = p.boolean_opt(
                &q,
                BooleanOp::Or,
                &PlineBooleanOptions {
                    pline1_aabb_index: idx.as_ref(),
                    ..Default::default()
                },
            );
            bools.push(super::boolean::result(&b, &p, &q));
        }
    }
    let flat = |v: &Vec<String>| list(v.iter().map(|s| ((s == &v[0]) as i64).to_string()));
    O::new()
        .raw("exact", &boxes(&exact))
        .raw("approx", &boxes(&approx))
        .int("finds", ok as i64)
        .raw("offs", &flat(&offs))
        .raw("bools", &flat(&bools))
        .end()
}
