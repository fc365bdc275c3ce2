//! Histories of container operations.
use crate::fx::*;
use crate::guard;
use crate::json::*;
use cavalier_contours::polyline::*;

const EPS: f64 = 1e-5;
type P = Polyline<f64>;

struct S {
    p: P,
    q: P,
}

fn apply(s: &mut S, op: &J) -> Option<PlineVertex<f64>> {
    let a = op.arr();
    let at = |i: usize| a[i].int() as usize;
    let num = |i: usize| un(a[i].int());
    match a[0].str() {
        "add" => {
            let v = vx(&a[1]);
            s.p.add(v.x, v.y, v.bulge)
        }
        "addv" => s.p.add_vertex(vx(&a[1])),
        "adda" => {
            let v = vx(&a[1]);
            s.p.add_from_array([v.x, v.y, v.bulge])
        }
        "addor" => {
            let v = vx(&a[1]);
            s.p.add_or_replace(v.x, v.y, v.bulge, EPS)
        }
        "addorv" => s.p.add_or_replace_vertex(vx(&a[1]), EPS),
        "ins" => {
            let v = vx(&a[2]);
            s.p.insert(at(1), v.x, v.y, v.bulge)
        }
        "insv" => s.p.insert_vertex(at(1), vx(&a[2])),
        "set" => {
            let v = vx(&a[2]);
            s.p.set(at(1), v.x, v.y, v.bulge)
        }
        "setv" => s.p.set_vertex(at(1), vx(&a[2])),
        "seti" => s.p[at(1)] = vx(&a[2]),
        "setlast" => s.p.set_last(vx(&a[1])),
        "rem" => return Some(s.p.remove(at(1))),
        "remlast" => return Some(s.p.remove_last()),
        "clear" => s.p.clear(),
        "reserve" => s.p.reserve(at(1)),
        "flag" => s.p.set_is_closed(a[1].int() == 1),
        "invert" => s.p.invert_direction_mut(),
        "scale" => s.p.scale_mut(a[1].int() as f64),
        "move" => s.p.translate_mut(num(1), num(2)),
        "extend" => s.p.extend(&s.q),
        "extendv" => s.p.extend_vertexes(s.q.iter_vertexes().take(2)),
        "extendrr" => s.p.extend_remove_repeat(&s.q, EPS),
        "copy" => s.q = P::create_from(&s.p),
        "fromiter" => s.q = P::from_iter(s.p.iter_vertexes(), !s.p.is_closed()),
        "copyrr" => s.q = P::create_from_remove_repeat(&s.p, EPS),
        "swap" => std::mem::swap(&mut s.p, &mut s.q),
        "new" => {
            s.p = match (a[1].int(), s.q.vertex_count() % 2) {
                (1, 0) => P::new_closed(),
                (1, _) => P::with_capacity(3, true),
                (_, 0) => P::new(),
                _ => P::empty(),
            }
        }
        o => panic!("harness: unknown container op {o}"),
    }
    None
}

/// One step; a panic is recorded as a refusal.
fn step(s: &mut S, op: &J) -> String {
    let r = guard(|| apply(s, op));
    let (k, v) = match r {
        Err(m) if m.starts_with("harness") => panic!("{m}"),
        Err(_) => (1, "[]".to_string()),
        Ok(None) => (0, "[]".to_string()),
        Ok(Some(v)) => (0, format!("[{}]", jv(v))),
    };
    O::new().int("k", k).raw("r", &v).raw("p", &jpl(&s.p)).raw("q", &jpl(&s.q)).end()
}

fn vs(it: impl Iterator<Item = PlineVertex<f64>>) -> String {
    list(it.map(jv))
}
fn ints(it: impl Iterator<Item = usize>) -> String {
    list(it.map(|i| i.to_string()))
}

fn look(p: &P) -> String {
    let n = p.vertex_count();
    let mut left = vec![];
    let mut it = p.iter_vertexes();
    let mut fwd = vec![];
    loop {
        left.push(it.len());
        assert_eq!(it.clone().count(), it.size_hint().0);
        match it.next() {
            Some(v) => fwd.push(v),
            None => break,
        }
    }
    let mut alt = vec![];
    let mut altleft = vec![];
    let mut it = p.iter_vertexes();
    let mut front = true;
    loop {
        altleft.push(it.len());
        match if front { it.next() } else { it.next_back() } {
            Some(v) => alt.push(v),
            None => break,
        }
        front = !front;
    }
    let mut pairs = vec![];
    let mut pairsleft = vec![];
    let mut it = p.iter_segments();
    loop {
        pairsleft.push(it.len());
        match it.next() {
            Some((a, b)) => pairs.push(format!("[{},{}]", jv(a), jv(b))),
            None => break,
        }
    }
    let mut pairix = vec![];
    let mut pairixleft = vec![];
    let mut it = p.iter_segment_indexes();
    loop {
        pairixleft.push(it.size_hint().1.unwrap_or(usize::MAX));
        match it.next() {
            Some((a, b)) => pairix.push(format!("[{a},{b}]")),
            None => break,
        }
    }
    let refused = [guard(|| p.at(n)).is_err(), guard(|| p[n]).is_err()];
    O::new()
        .int("n", n as i64)
        .int("empty", p.is_empty() as i64)
        .int("closed", p.is_closed() as i64)
        .int("segs", p.segment_count() as i64)
        .raw("last", &vs(p.last().into_iter()))
        .raw("get", &list((0..n + 2).map(|i| vs(p.get(i).into_iter()))))
        .raw("at", &vs((0..n).map(|i| p.at(i))))
        .raw("index", &vs((0..n).map(|i| p[i])))
        .raw("iter", &vs(fwd.into_iter()))
        .raw("back", &vs(p.iter_vertexes().rev()))
        .raw("alt", &vs(alt.into_iter()))
        .raw("clone", &jpl(&p.clone()))
        .raw("left", &ints(left.into_iter()))
        .raw("altleft", &ints(altleft.into_iter()))
        .raw("pairs", &list(pairs.into_iter()))
        .raw("pairsleft", &ints(pairsleft.into_iter()))
        .raw("pairix", &list(pairix.into_iter()))
        .raw("pairixleft", &ints(pairixleft.into_iter()))
        .raw("next", &ints((0..n).map(|i| p.next_wrapping_index(i))))
        .raw("prev", &ints((0..n).map(|i| p.prev_wrapping_index(i))))
        .raw("dist", &list((0..n).map(|i| ints((0..n).map(|j| p.fwd_wrapping_dist(i, j))))))
        .raw("fwd", &list((0..n).map(|i| ints((0..n + 1).map(|k| p.fwd_wrapping_index(i, k))))))
        .raw("refused", &list(refused.iter().map(|r| (*r as i32).to_string())))
        .end()
}

pub fn run(c: &J) -> String {
    let mut s = S { p: P::default(), q: P::new() };
    let h: Vec<String> = c.get("h").arr().iter().map(|op| step(&mut s, op)).collect();
    let fan: Vec<String> = c
        .get("fan")
        .arr()
        .iter()
        .map(|op| {
            let mut t = S { p: s.p.clone(), q: s.q.clone() };
            step(&mut t, op)
        })
        .collect();
    let alike = list(c.get("others").arr().iter().map(|o| {
        let o = pl(o);
        format!("[{},{}]", s.p.fuzzy_eq_eps(&o, 1e-5) as i32, s.p.fuzzy_eq_eps(&o, 1e-4) as i32)
    }));
    O::new()
        .raw("h", &list(h.into_iter()))
        .raw("fan", &list(fan.into_iter()))
        .raw("look", &look(&s.p))
        .raw("alike", &alike)
        .end()
}
