use super::boolean::index;
use crate::fx::*;
use crate::json::*;
use cavalier_contours::core::Control;
use cavalier_contours::polyline::*;

fn basic(b: &PlineBasicIntersect<f64>) -> String {
    O::new()
        .int("i", b.start_index1 as i64 + 1)
        .int("j", b.start_index2 as i64 + 1)
        .raw("p", &jp(b.point))
        .end()
}
fn over(b: &PlineOverlappingIntersect<f64>) -> String {
    O::new()
        .int("i", b.start_index1 as i64 + 1)
        .int("j", b.start_index2 as i64 + 1)
        .raw("p", &jp(b.point1))
        .raw("q", &jp(b.point2))
        .end()
}
fn coll(b: &[String], o: &[String]) -> String {
    O::new()
        .raw("b", &list(b.iter().cloned()))
        .raw("o", &list(o.iter().cloned()))
        .end()
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

pub fn between(c: &J) -> String {
    let (a, b) = (pl(c.get("p")), pl(c.get("q")));
    let show = |r: &PlineIntersectsCollection<f64>| {
        (
            r.basic_intersects.iter().map(basic).collect::<Vec<_>>(),
            r.overlapping_intersects.iter().map(over).collect::<Vec<_>>(),
        )
    };
    let (rb, ro) = show(&a.find_intersects(&b));
    let same = [1, 2, 3].into_iter().map(|k| {
        let idx = if a.segment_count() > 0 { index(&a, k) } else { None };
        let (xb, xo) = show(&a.find_intersects_opt(
            &b,
            &FindIntersectsOptions {
                pline1_aabb_index: idx.as_ref(),
                ..Default::default()
            },
        ));
        ((sorted(xb) == sorted(rb.clone()) && sorted(xo) == sorted(ro.clone())) as i32).to_string()
    });
    let same = list(same);
    O::new().raw("r", &coll(&rb, &ro)).raw("same", &same).end()
}

fn scan(p: &Polyline<f64>, include: SelfIntersectsInclude, kind: i64) -> (Vec<String>, Vec<String>) {
    let idx = if p.segment_count() > 0 { index(p, kind) } else { None };
    let (mut b, mut o) = (vec![], vec![]);
    let mut visitor = |i: PlineIntersect<f64>| match i {
        PlineIntersect::Basic(x) => b.push(basic(&x)),
        PlineIntersect::Overlapping(x) => o.push(over(&x)),
    };
    p.visit_self_intersects_opt(
        &mut visitor,
        &PlineSelfIntersectOptions {
            aabb_index: idx.as_ref(),
            include,
            ..Default::default()
        },
    );
    (b, o)
}

pub fn within(c: &J) -> String {
    let p = pl(c.get("p"));
    let k = c.get("i").int();
    let (b, o) = scan(&p, SelfIntersectsInclude::All, k);
    let (lb, lo) = scan(&p, SelfIntersectsInclude::Local, k);
    let (gb, go) = scan(&p, SelfIntersectsInclude::Global, k);
    let n = b.len() + o.len();
    // ask to stop at the k-th visit
    let stops = list((1..=n.min(12) + 1).map(|k| {
        let mut calls = 0i64;
        let mut visitor = |_: PlineIntersect<f64>| {
            calls += 1;
            if calls as usize >= k {
                Control::Break(calls)
            } else {
                Control::Continue
            }
        };
        let r: Control<i64> = p.visit_self_intersects(&mut visitor);
        let ret = match r {
            Control::Break(v) => v,
            Control::Continue => 0,
        };
        O::new().int("calls", calls).int("ret", ret).end()
    }));
    let pairless = |v: Vec<String>| sorted(v);
    let same = list([0, 1, 2, 3].into_iter().map(|j| {
        let (xb, xo) = scan(&p, SelfIntersectsInclude::All, j);
        ((xb.len() == b.len() && xo.len() == o.len() && {
            // which of a pair is named first may differ
            let key = |v: &Vec<String>| pairless(v.iter().map(|s| canon(s)).collect());
            key(&xb) == key(&b) && key(&xo) == key(&o)
        }) as i32)
            .to_string()
    }));
    O::new()
        .raw("all", &coll(&b, &o))
        .raw("local", &coll(&lb, &lo))
        .raw("global", &coll(&gb, &go))
        .raw("stops", &stops)
        .raw("same", &same)
        .end()
}

/// An intersect with its pair of indexes (and of points) in ascending order, to the grid of 1e-4.
fn canon(s: &str) -> String {
    let j = J::parse(s).expect("own json");
    let (a, b) = (j.get("i").int(), j.get("j").int());
    let p = |k: &str| {
        let v = j.get(k).arr();
        ((v[0].int() + 50) / 100, (v[1].int() + 50) / 100)
    };
    let mut pts = vec![p("p")];
    if j.has("q") {
        pts.push(p("q"));
    }
    pts.sort();
    format!("{} {} {:?}", a.min(b), a.max(b), pts)
}
