//! A workspace of polylines and a history of operations on it.
use crate::fx::*;
use crate::guard;
use crate::json::*;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;

type P = Polyline<f64>;

fn simple_step(o: &str, n: i64, p: &P) -> Vec<P> {
    match o {
        "offset" => p.parallel_offset(un(n)),
        "shape" => {
            let s = Shape::from_plines([p.clone()]).parallel_offset(un(n), ShapeOffsetOptions::default());
            s.ccw_plines.iter().chain(&s.cw_plines).map(|p| p.polyline.clone()).collect()
        }
        "reverse" => {
            let mut r = p.clone();
            r.invert_direction_mut();
            vec![r]
        }
        "rotate" => p.rotate_start(n as usize, p.at(n as usize).pos(), 1e-5).into_iter().collect(),
        "redundant" => p.remove_redundant(1e-5).into_iter().collect(),
        "repeats" => p.remove_repeat_pos(1e-5).into_iter().collect(),
        "lines" => p.arcs_to_approx_lines(un(n)).into_iter().collect(),
        o => panic!("harness: unknown step {o}"),
    }
}

/// Loops that later steps may use: the specification's numbers can hold them.
fn usable(p: &P) -> bool {
    p.is_closed()
        && (2..=36).contains(&p.vertex_count())
        && p.area().abs() > 0.02
        && p.iter_vertexes().all(|v| v.x.abs() < 30.0 && v.y.abs() < 30.0)
}

pub fn run(c: &J) -> String {
    let mut pool: Vec<P> = c.get("ps").arr().iter().map(pl).collect();
    let mut steps = vec![];
    for s in c.get("h").arr() {
        let o = s.get("o").str();
        let (i, j) = (s.get("i").int() as usize % pool.len(), s.get("j").int() as usize % pool.len());
        let mut n = s.get("n").int();
        if o == "rotate" {
            n %= pool[i].vertex_count() as i64;
        }
        let (mut pos, mut neg, mut panicked) = (vec![], vec![], None);
        let (a, b) = (&pool[i], &pool[j]);
        match guard(|| match super::boolean::OPS.iter().find(|x| x.0 == o) {
            Some((_, op)) => {
                let r = a.boolean(b, *op);
                let f = |v: Vec<BooleanResultPline<P>>| v.into_iter().map(|p| p.pline).collect::<Vec<P>>();
                (f(r.pos_plines), f(r.neg_plines))
            }
            None => (simple_step(o, n, a), vec![]),
        }) {
            Ok((x, y)) => (pos, neg) = (x, y),
            Err(m) => panicked = Some(m),
        }
        if let Some(m) = panicked {
            panic!("step {} ({o}): {m}", steps.len() + 1);
        }
        let rec = O::new()
            .str("o", o)
            .int("i", i as i64 + 1)
            .int("j", j as i64 + 1)
            .int("n", n)
            .raw("a", &jpl(&pool[i]))
            .raw("b", &jpl(&pool[j]))
            .raw("pos", &list(pos.iter().map(jpl)))
            .raw("neg", &list(neg.iter().map(jpl)));
        let mut keep: Vec<usize> = (0..pool.len()).collect();
        let mut all = std::mem::take(&mut pool);
        let first = all.len();
        all.extend(pos);
        all.extend(neg);
        keep.extend((first..all.len()).filter(|&k| usable(&all[k])));
        // the oldest make room, the first two shapes stay
        while keep.len() > 8 {
            keep.remove(2);
        }
        pool = keep.iter().map(|&k| all[k].clone()).collect();
        steps.push(rec.raw("keep", &list(keep.iter().map(|k| (k + 1).to_string()))).end());
    }
    O::new().raw("steps", &list(steps.into_iter())).raw("pool", &list(pool.iter().map(jpl))).end()
}
