//! Histories of C API calls.  Variables hold the caller's pointers: P polylines, L lists, X
//! indexes; variable 0 stands for null.
use crate::fx::*;
use crate::guard;
use crate::json::*;
use crate::meter::{balance, reset, tracked};
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;
use cavalier_contours::static_aabb2d_index::StaticAABB2DIndex;
use cavalier_contours_ffi::*;
use std::ptr::{null, null_mut};

type P = *mut cavc_pline;
type L = *mut cavc_plinelist;
type X = *mut cavc_aabbindex;
/// What an out parameter holds before a call.
const MARK: usize = 0x5eed0;
const FMARK: f64 = -7777.25;

struct W {
    p: Vec<P>,
    l: Vec<L>,
    x: Vec<X>,
    seen: Vec<usize>,
}

fn bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same_pl(a: &Polyline<f64>, b: &Polyline<f64>) -> bool {
    a.is_closed() == b.is_closed()
        && a.vertex_count() == b.vertex_count()
        && a.iter_vertexes().zip(b.iter_vertexes()).all(|(u, v)| bits(u.x, v.x) && bits(u.y, v.y) && bits(u.bulge, v.bulge))
}
fn same_pls(a: &[Polyline<f64>], b: &[Polyline<f64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_pl(x, y))
}

/// The polyline behind a handle, read through the API.
unsafe fn read(p: *const cavc_pline) -> Polyline<f64> {
    let mut n = 0u32;
    let mut c = 9u8;
    let rc = cavc_pline_get_vertex_count(p, &mut n) + cavc_pline_get_is_closed(p, &mut c);
    let n = if rc == 0 && n < 100_000 { n } else { panic!("reading a polyline: code {rc}, {n} vertexes") };
    if c > 1 {
        panic!("reading a polyline: closed flag {c}");
    }
    let mark = cavc_vertex { x: FMARK, y: FMARK, bulge: FMARK };
    let mut buf = vec![mark; n as usize + 1];
    let rc = cavc_pline_get_vertex_data(p, buf.as_mut_ptr());
    let mut r = Polyline::new();
    for v in &buf[..n as usize] {
        r.add(v.x, v.y, v.bulge);
    }
    r.set_is_closed(c == 1);
    if rc != 0 || buf[n as usize].x != FMARK {
        panic!("reading a polyline: code {rc}");
    }
    r
}
unsafe fn items(l: *const cavc_plinelist) -> Vec<*const cavc_pline> {
    let mut n = 0u32;
    let rc = cavc_plinelist_get_count(l, &mut n);
    if rc != 0 || n > 100_000 {
        panic!("reading a list: code {rc}, {n} polylines");
    }
    (0..n)
        .map(|i| {
            let mut p: *const cavc_pline = null();
            let rc = cavc_plinelist_get_pline(l, i, &mut p);
            if rc != 0 {
                panic!("reading a list: code {rc}");
            }
            p
        })
        .collect()
}
unsafe fn read_list(l: *const cavc_plinelist) -> Vec<Polyline<f64>> {
    items(l).into_iter().map(|p| read(p)).collect()
}
fn jbox(b: [f64; 4]) -> String {
    if b.iter().any(|v| v.is_nan()) {
        "[]".into()
    } else {
        list(b.iter().map(|v| fx(*v).to_string()))
    }
}
fn junk_o() -> cavc_pline_parallel_offset_o {
    cavc_pline_parallel_offset_o { aabb_index: MARK as *const _, pos_equal_eps: FMARK, slice_join_eps: FMARK, offset_dist_eps: FMARK, handle_self_intersects: 77 }
}

impl W {
    fn id(&mut self, p: usize) -> String {
        let i = match self.seen.iter().position(|q| *q == p) {
            Some(i) => i,
            None => {
                self.seen.push(p);
                self.seen.len() - 1
            }
        };
        (i + 1).to_string()
    }
    fn pv(&self, c: &J, k: &str) -> P {
        let i = c.get(k).int() as usize;
        if i == 0 { null_mut() } else { self.p[i - 1] }
    }
    fn lv(&self, c: &J) -> L {
        let i = c.get("l").int() as usize;
        if i == 0 { null_mut() } else { self.l[i - 1] }
    }
    fn xv(&self, c: &J) -> X {
        let i = c.get("x").int() as usize;
        if i == 0 { null_mut() } else { self.x[i - 1] }
    }
    unsafe fn see_pl(&mut self, p: *const cavc_pline) -> String {
        let id = self.id(p as usize);
        let r = read(p);
        format!("{{\"id\":{id},\"pl\":{}}}", jpl(&r))
    }
    /// Everything the caller can see.
    unsafe fn world(&mut self) -> String {
        let p: Vec<String> = self.p.clone().into_iter().map(|p| if p.is_null() { "{\"id\":0}".into() } else { self.see_pl(p) }).collect();
        let l: Vec<String> = self.l.clone().into_iter().map(|l| {
            if l.is_null() {
                return "{\"id\":0,\"ps\":[]}".into();
            }
            let id = self.id(l as usize);
            let ps: Vec<String> = items(l).into_iter().map(|p| self.see_pl(p)).collect();
            format!("{{\"id\":{id},\"ps\":{}}}", list(ps.into_iter()))
        }).collect();
        let x: Vec<String> = self.x.clone().into_iter().map(|x| {
            if x.is_null() {
                return "{\"id\":0,\"box\":[]}".into();
            }
            let id = self.id(x as usize);
            let mut b = [0.0; 4];
            let [b0, b1, b2, b3] = &mut b;
            let rc = cavc_aabbindex_get_extents(x, b0, b1, b2, b3);
            if rc != 0 {
                panic!("reading an index: code {rc}");
            }
            format!("{{\"id\":{id},\"box\":{}}}", jbox(b))
        }).collect();
        O::new().raw("p", &list(p.into_iter())).raw("l", &list(l.into_iter())).raw("x", &list(x.into_iter())).end()
    }
    /// A new pointer value arrives in a polyline variable.
    fn put(&mut self, c: &J, p: *const cavc_pline) {
        self.p[c.get("out").int() as usize - 1] = p as P;
    }

    unsafe fn call(&mut self, c: &J) -> String {
        let f = c.get("f").str();
        let p = if c.has("p") { self.pv(c, "p") } else { null_mut() };
        // the same polyline, for the Rust library
        let lib = if p.is_null() { None } else { Some(read(p)) };
        let mut keep = true; // outputs are untouched (judged on errors)
        let mut same = true; // agrees with the Rust library
        let mut val = String::from("[]"); // values handed back
        let mut got = String::from("[]"); // polylines the library computes
        let kf = |v: f64| v.to_bits() == FMARK.to_bits();
        let rc = match f {
            "create" => {
                let vs: Vec<cavc_vertex> = c.get("v").arr().iter().map(|v| cavc_vertex::from_internal(vx(v))).collect();
                let ptr = if c.get("nul").int() == 1 { null() } else { vs.as_ptr() };
                let mut o: *const cavc_pline = MARK as *const _;
                let rc = tracked(|| cavc_pline_create(ptr, vs.len() as u32, c.get("c").int() as u8, &mut o));
                keep = o as usize == MARK;
                if rc == 0 {
                    self.put(c, o);
                }
                rc
            }
            "pf" => {
                tracked(|| cavc_pline_f(p));
                for q in self.p.iter_mut() {
                    if *q == p {
                        *q = null_mut();
                    }
                }
                0
            }
            "reserve" => tracked(|| cavc_pline_reserve(p, c.get("k").int() as u32)),
            "clone" => {
                let mut o: *const cavc_pline = MARK as *const _;
                let rc = tracked(|| cavc_pline_clone(p, &mut o));
                keep = o as usize == MARK;
                if rc == 0 {
                    self.put(c, o);
                }
                rc
            }
            "closed" => {
                let mut o = 77u8;
                let rc = tracked(|| cavc_pline_get_is_closed(p, &mut o));
                keep = o == 77;
                val = format!("[{o}]");
                rc
            }
            "setclosed" => tracked(|| cavc_pline_set_is_closed(p, c.get("c").int() as u8)),
            "count" => {
                let mut o = 777777u32;
                let rc = tracked(|| cavc_pline_get_vertex_count(p, &mut o));
                keep = o == 777777;
                val = format!("[{o}]");
                rc
            }
            "data" => {
                let n = lib.as_ref().map_or(0, |l| l.vertex_count());
                let mark = cavc_vertex { x: FMARK, y: FMARK, bulge: FMARK };
                let mut buf = vec![mark; n + 2];
                let rc = tracked(|| cavc_pline_get_vertex_data(p, buf.as_mut_ptr()));
                keep = buf.iter().all(|v| kf(v.x) && kf(v.y) && kf(v.bulge));
                same = rc != 0 || buf[n..].iter().all(|v| kf(v.x) && kf(v.y) && kf(v.bulge));
                if rc == 0 {
                    val = list(buf[..n].iter().map(|v| jv(PlineVertex::new(v.x, v.y, v.bulge))));
                }
                rc
            }
            "setdata" => {
                let vs: Vec<cavc_vertex> = c.get("v").arr().iter().map(|v| cavc_vertex::from_internal(vx(v))).collect();
                tracked(|| cavc_pline_set_vertex_data(p, vs.as_ptr(), vs.len() as u32))
            }
            "clear" => tracked(|| cavc_pline_clear(p)),
            "add" => {
                let v = vx(c.get("v"));
                tracked(|| cavc_pline_add(p, v.x, v.y, v.bulge))
            }
            "getv" => {
                let mut o = cavc_vertex { x: FMARK, y: FMARK, bulge: FMARK };
                let rc = tracked(|| cavc_pline_get_vertex(p, c.get("i").int() as u32, &mut o));
                keep = kf(o.x) && kf(o.y) && kf(o.bulge);
                if rc == 0 {
                    val = jv(PlineVertex::new(o.x, o.y, o.bulge));
                }
                rc
            }
            "setv" => {
                let v = cavc_vertex::from_internal(vx(c.get("v")));
                tracked(|| cavc_pline_set_vertex(p, c.get("i").int() as u32, v))
            }
            "rem" => tracked(|| cavc_pline_remove(p, c.get("i").int() as u32)),
            "len" | "area" => {
                let mut o = FMARK;
                let rc = tracked(|| if f == "len" { cavc_pline_eval_path_length(p, &mut o) } else { cavc_pline_eval_area(p, &mut o) });
                keep = kf(o);
                if let Some(l) = &lib {
                    same = match guard(|| if f == "len" { l.path_length() } else { l.area() }) {
                        Ok(v) => rc == 0 && bits(o, v),
                        Err(_) => rc == -1,
                    };
                }
                rc
            }
            "wn" => {
                let q = pt(c.get("at"));
                let mut o = -777i32;
                let rc = tracked(|| cavc_pline_eval_wn(p, q.x, q.y, &mut o));
                keep = o == -777;
                if let Some(l) = &lib {
                    same = o == l.winding_number(q);
                }
                if rc == 0 {
                    val = format!("[{o}]");
                }
                rc
            }
            "invert" => {
                let rc = tracked(|| cavc_pline_invert_direction(p));
                if let Some(mut l) = lib.clone() {
                    l.invert_direction_mut();
                    same = same_pl(&l, &read(p));
                }
                rc
            }
            "scale" => tracked(|| cavc_pline_scale(p, c.get("k").int() as f64)),
            "move" => {
                let d = pt(c.get("d"));
                tracked(|| cavc_pline_translate(p, d.x, d.y))
            }
            "rrp" | "rred" => {
                let eps = un(c.get("eps").int());
                let rc = tracked(|| if f == "rrp" { cavc_pline_remove_repeat_pos(p, eps) } else { cavc_pline_remove_redundant(p, eps) });
                if let Some(l) = &lib {
                    let want = guard(|| if f == "rrp" { l.remove_repeat_pos(eps) } else { l.remove_redundant(eps) });
                    match want {
                        Ok(w) => {
                            let w = w.unwrap_or_else(|| l.clone());
                            got = format!("[[{}]]", jpl(&w));
                            same = rc == 0 && same_pl(&w, &read(p));
                        }
                        Err(_) => {
                            got = format!("[[{}]]", jpl(l));
                            same = rc == -1 && same_pl(l, &read(p));
                        }
                    }
                }
                rc
            }
            "ext" => {
                let mut b = [FMARK; 4];
                let [b0, b1, b2, b3] = &mut b;
                let rc = tracked(|| cavc_pline_eval_extents(p, b0, b1, b2, b3));
                keep = b.iter().all(|v| kf(*v));
                if let Some(l) = &lib {
                    same = match l.extents() {
                        Some(e) => rc == 0 && bits(e.min_x, b[0]) && bits(e.min_y, b[1]) && bits(e.max_x, b[2]) && bits(e.max_y, b[3]),
                        None => rc == 2,
                    };
                }
                if rc == 0 {
                    val = jbox(b);
                }
                rc
            }
            "off" => {
                let d = un(c.get("d").int());
                let o = c.get("o");
                let mut out: *const cavc_plinelist = MARK as *const _;
                let mut fo = junk_o();
                let use_o = o.has("hs");
                if use_o {
                    let _ = cavc_pline_parallel_offset_o_init(&mut fo);
                    let x = self.xv(o);
                    fo.aabb_index = x;
                    if o.get("pe").int() > 0 {
                        fo.pos_equal_eps = un(o.get("pe").int());
                        fo.slice_join_eps = un(o.get("sj").int());
                        fo.offset_dist_eps = un(o.get("od").int());
                    }
                    fo.handle_self_intersects = o.get("hs").int() as u8;
                }
                let fp: *const cavc_pline_parallel_offset_o = if use_o { &fo } else { null() };
                let rc = tracked(|| cavc_pline_parallel_offset(p, d, fp, &mut out));
                keep = out as usize == MARK;
                if let Some(l) = &lib {
                    let ix: Option<StaticAABB2DIndex<f64>> = if use_o && !fo.aabb_index.is_null() { Some((*fo.aabb_index).0.clone()) } else { None };
                    let want = guard(|| {
                        if use_o {
                            let mut ro = PlineOffsetOptions::new();
                            ro.aabb_index = ix.as_ref();
                            if o.get("pe").int() > 0 {
                                ro.pos_equal_eps = un(o.get("pe").int());
                                ro.slice_join_eps = un(o.get("sj").int());
                                ro.offset_dist_eps = un(o.get("od").int());
                            }
                            ro.handle_self_intersects = o.get("hs").int() != 0;
                            l.parallel_offset_opt(d, &ro)
                        } else {
                            l.parallel_offset(d)
                        }
                    });
                    match want {
                        Ok(w) => {
                            got = list(vec![list(w.iter().map(jpl))].into_iter());
                            same = rc == 0 && same_pls(&w, &read_list(out));
                        }
                        Err(_) => {
                            same = rc == -1;
                            if rc == 0 {
                                got = list(vec![list(read_list(out).iter().map(jpl))].into_iter());
                            }
                        }
                    }
                }
                if rc == 0 {
                    self.l[c.get("out").int() as usize - 1] = out as L;
                }
                rc
            }
            "bool" => {
                let q = self.pv(c, "q");
                let op = c.get("op").int() as u32;
                let o = c.get("o");
                let mut a: *const cavc_plinelist = MARK as *const _;
                let mut b: *const cavc_plinelist = (MARK + 16) as *const _;
                let mut fo = cavc_pline_boolean_o { pline1_aabb_index: MARK as *const _, pos_equal_eps: FMARK };
                let use_o = o.has("pe");
                if use_o {
                    let _ = cavc_pline_boolean_o_init(&mut fo);
                    let x = self.xv(o);
                    fo.pline1_aabb_index = x;
                    if o.get("pe").int() > 0 {
                        fo.pos_equal_eps = un(o.get("pe").int());
                    }
                }
                let fp: *const cavc_pline_boolean_o = if use_o { &fo } else { null() };
                let rc = tracked(|| cavc_pline_boolean(p, q, op, fp, &mut a, &mut b));
                keep = a as usize == MARK && b as usize == MARK + 16;
                if !p.is_null() && !q.is_null() && op < 4 {
                    let (l, m) = (lib.as_ref().unwrap(), read(q));
                    let ix: Option<StaticAABB2DIndex<f64>> = if use_o && !fo.pline1_aabb_index.is_null() { Some((*fo.pline1_aabb_index).0.clone()) } else { None };
                    let want = guard(|| {
                        let bo = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor][op as usize];
                        if use_o {
                            let mut ro = PlineBooleanOptions::new();
                            ro.pline1_aabb_index = ix.as_ref();
                            if o.get("pe").int() > 0 {
                                ro.pos_equal_eps = un(o.get("pe").int());
                            }
                            l.boolean_opt(&m, bo, &ro)
                        } else {
                            l.boolean(&m, bo)
                        }
                    });
                    match want {
                        Ok(w) => {
                            let wp: Vec<_> = w.pos_plines.into_iter().map(|r| r.pline).collect();
                            let wn: Vec<_> = w.neg_plines.into_iter().map(|r| r.pline).collect();
                            got = list(vec![list(wp.iter().map(jpl)), list(wn.iter().map(jpl))].into_iter());
                            same = rc == 0 && same_pls(&wp, &read_list(a)) && same_pls(&wn, &read_list(b));
                        }
                        Err(_) => {
                            same = rc == -1;
                            if rc == 0 {
                                got = list(vec![list(read_list(a).iter().map(jpl)), list(read_list(b).iter().map(jpl))].into_iter());
                            }
                        }
                    }
                }
                if rc == 0 {
                    let outs = c.get("outs").arr();
                    self.l[outs[0].int() as usize - 1] = a as L;
                    self.l[outs[1].int() as usize - 1] = b as L;
                }
                rc
            }
            "aidx" | "idx" => {
                let mut o: *const cavc_aabbindex = MARK as *const _;
                let rc = tracked(|| if f == "aidx" { cavc_pline_create_approx_aabbindex(p, &mut o) } else { cavc_pline_create_aabbindex(p, &mut o) });
                keep = o as usize == MARK;
                if let (Some(l), true) = (&lib, rc == 0) {
                    let want = if f == "aidx" { l.create_approx_aabb_index() } else { l.create_aabb_index() };
                    let have = &(*o).0;
                    same = want.count() == have.count()
                        && want.all_boxes().len() == have.all_boxes().len()
                        && want.all_boxes().iter().zip(have.all_boxes()).all(|(a, b)| {
                            bits(a.min_x, b.min_x) && bits(a.min_y, b.min_y) && bits(a.max_x, b.max_x) && bits(a.max_y, b.max_y)
                        });
                }
                if rc == 0 {
                    self.x[c.get("out").int() as usize - 1] = o as X;
                }
                rc
            }
            "xf" => {
                let x = self.xv(c);
                tracked(|| cavc_aabbindex_f(x));
                for q in self.x.iter_mut() {
                    if *q == x {
                        *q = null_mut();
                    }
                }
                0
            }
            "xext" => {
                let x = self.xv(c);
                let mut b = [FMARK; 4];
                let [b0, b1, b2, b3] = &mut b;
                let rc = tracked(|| cavc_aabbindex_get_extents(x, b0, b1, b2, b3));
                keep = b.iter().all(|v| kf(*v));
                if rc == 0 {
                    same = match (*x).0.bounds() {
                        Some(e) => bits(e.min_x, b[0]) && bits(e.min_y, b[1]) && bits(e.max_x, b[2]) && bits(e.max_y, b[3]),
                        None => b.iter().all(|v| v.is_nan()),
                    };
                    val = jbox(b);
                }
                rc
            }
            "lf" => {
                let l = self.lv(c);
                let inside: Vec<P> = if l.is_null() { vec![] } else { items(l).into_iter().map(|p| p as P).collect() };
                tracked(|| cavc_plinelist_f(l));
                for q in self.p.iter_mut() {
                    if inside.contains(q) {
                        *q = null_mut();
                    }
                }
                for q in self.l.iter_mut() {
                    if *q == l {
                        *q = null_mut();
                    }
                }
                0
            }
            "lcount" => {
                let l = self.lv(c);
                let mut o = 777777u32;
                let rc = tracked(|| cavc_plinelist_get_count(l, &mut o));
                keep = o == 777777;
                val = format!("[{o}]");
                rc
            }
            "lget" | "lpop" | "ltake" => {
                let l = self.lv(c);
                let i = if f == "lpop" { 0 } else { c.get("i").int() as u32 };
                let mut o: *const cavc_pline = MARK as *const _;
                let rc = tracked(|| match f {
                    "lget" => cavc_plinelist_get_pline(l, i, &mut o),
                    "lpop" => cavc_plinelist_pop(l, &mut o),
                    _ => cavc_plinelist_take(l, i, &mut o),
                });
                keep = o as usize == MARK;
                if rc == 0 {
                    self.put(c, o);
                }
                rc
            }
            "ooinit" => {
                let mut o = junk_o();
                let rc = tracked(|| cavc_pline_parallel_offset_o_init(if c.get("nul").int() == 1 { null_mut() } else { &mut o }));
                keep = o.handle_self_intersects == 77;
                if rc == 0 {
                    val = format!("[{},{},{},{},{}]", o.aabb_index as usize, fb(o.pos_equal_eps), fb(o.slice_join_eps), fb(o.offset_dist_eps), o.handle_self_intersects);
                }
                rc
            }
            "boinit" => {
                let mut o = cavc_pline_boolean_o { pline1_aabb_index: MARK as *const _, pos_equal_eps: FMARK };
                let rc = tracked(|| cavc_pline_boolean_o_init(if c.get("nul").int() == 1 { null_mut() } else { &mut o }));
                keep = kf(o.pos_equal_eps);
                if rc == 0 {
                    val = format!("[{},{}]", o.pline1_aabb_index as usize, fb(o.pos_equal_eps));
                }
                rc
            }
            o => panic!("harness: unknown call {o}"),
        };
        let b = |x: bool| x as i64;
        let w = self.world();
        O::new().int("rc", rc as i64).int("keep", b(keep)).int("same", b(same)).raw("val", &val).raw("got", &got).raw("w", &w).end()
    }
}

pub fn run(c: &J) -> String {
    reset();
    let n = c.get("vars").arr();
    let mut w = W {
        p: vec![null_mut(); n[0].int() as usize],
        l: vec![null_mut(); n[1].int() as usize],
        x: vec![null_mut(); n[2].int() as usize],
        seen: vec![],
    };
    let _ = Vector2::<f64>::zero();
    let steps: Vec<String> = c.get("h").arr().iter().map(|k| unsafe { w.call(k) }).collect();
    let (blocks, bytes, faults) = balance();
    O::new().raw("h", &list(steps.into_iter())).int("blocks", blocks).int("bytes", bytes).int("faults", faults).end()
}
