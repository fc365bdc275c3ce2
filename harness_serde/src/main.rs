//! Writes values the specification prints in several formats, reads them back and records both.
#[path = "../../harness/src/driver.rs"]
mod driver;
#[path = "../../harness/src/fx.rs"]
#[allow(dead_code)]
mod fx;
#[path = "../../harness/src/json.rs"]
#[allow(dead_code)]
mod json;
mod tokens;

use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;
use fx::*;
use json::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    f()
}

/// A value the specification can print and compare.
trait Value: Serialize + DeserializeOwned {
    fn of(j: &J) -> Self;
    fn show(&self) -> String;
    fn bits(&self) -> Vec<u64>;
}
impl Value for f64 {
    fn of(j: &J) -> f64 {
        un(j.int())
    }
    fn show(&self) -> String {
        fx(*self).to_string()
    }
    fn bits(&self) -> Vec<u64> {
        vec![self.to_bits()]
    }
}
impl Value for bool {
    fn of(j: &J) -> bool {
        j.int() == 1
    }
    fn show(&self) -> String {
        (*self as i32).to_string()
    }
    fn bits(&self) -> Vec<u64> {
        vec![*self as u64]
    }
}
impl Value for PlineVertex<f64> {
    fn of(j: &J) -> Self {
        vx(j)
    }
    fn show(&self) -> String {
        jv(*self)
    }
    fn bits(&self) -> Vec<u64> {
        vec![self.x.to_bits(), self.y.to_bits(), self.bulge.to_bits()]
    }
}
impl Value for Vector2<f64> {
    fn of(j: &J) -> Self {
        pt(j)
    }
    fn show(&self) -> String {
        jp(*self)
    }
    fn bits(&self) -> Vec<u64> {
        vec![self.x.to_bits(), self.y.to_bits()]
    }
}
impl Value for PlineVertex<f32> {
    fn of(j: &J) -> Self {
        let v = vx(j);
        PlineVertex::new(v.x as f32, v.y as f32, v.bulge as f32)
    }
    fn show(&self) -> String {
        jv(PlineVertex::new(self.x as f64, self.y as f64, self.bulge as f64))
    }
    fn bits(&self) -> Vec<u64> {
        vec![self.x.to_bits() as u64, self.y.to_bits() as u64, self.bulge.to_bits() as u64]
    }
}
impl Value for Vector2<f32> {
    fn of(j: &J) -> Self {
        let v = pt(j);
        Vector2::new(v.x as f32, v.y as f32)
    }
    fn show(&self) -> String {
        jp(Vector2::new(self.x as f64, self.y as f64))
    }
    fn bits(&self) -> Vec<u64> {
        vec![self.x.to_bits() as u64, self.y.to_bits() as u64]
    }
}
impl<T> Value for Polyline<T>
where
    T: cavalier_contours::core::traits::Real + Serialize + DeserializeOwned,
    PlineVertex<T>: Value,
{
    fn of(j: &J) -> Self {
        let mut p = Polyline::new();
        for v in j.get("v").arr() {
            p.add_vertex(PlineVertex::of(v));
        }
        p.set_is_closed(bool::of(j.get("c")));
        p
    }
    fn show(&self) -> String {
        O::new().int("c", self.is_closed as i64).raw("v", &list(self.vertex_data.iter().map(|v| v.show()))).end()
    }
    fn bits(&self) -> Vec<u64> {
        let mut r = vec![self.is_closed as u64, self.vertex_data.len() as u64];
        for v in &self.vertex_data {
            r.extend(v.bits());
        }
        r
    }
}
impl Value for PlineViewData<f64> {
    fn of(j: &J) -> Self {
        PlineViewData {
            start_index: j.get("start").int() as usize,
            end_index_offset: j.get("count").int() as usize,
            updated_start: Value::of(j.get("first")),
            updated_end_bulge: ung(j.get("bulge").int()),
            end_point: Value::of(j.get("last")),
            inverted_direction: Value::of(j.get("inv")),
        }
    }
    fn show(&self) -> String {
        O::new()
            .int("start", self.start_index as i64)
            .int("count", self.end_index_offset as i64)
            .raw("first", &self.updated_start.show())
            .int("bulge", fb(self.updated_end_bulge))
            .raw("last", &self.end_point.show())
            .int("inv", self.inverted_direction as i64)
            .end()
    }
    fn bits(&self) -> Vec<u64> {
        let mut r = vec![self.start_index as u64, self.end_index_offset as u64, self.updated_end_bulge.to_bits(), self.inverted_direction as u64];
        r.extend(self.updated_start.bits());
        r.extend(self.end_point.bits());
        r
    }
}
impl Value for BooleanPlineSlice<f64> {
    fn of(j: &J) -> Self {
        BooleanPlineSlice { view_data: Value::of(j.get("view")), source_is_pline1: Value::of(j.get("one")), overlapping: Value::of(j.get("over")) }
    }
    fn show(&self) -> String {
        O::new().raw("view", &self.view_data.show()).raw("one", &self.source_is_pline1.show()).raw("over", &self.overlapping.show()).end()
    }
    fn bits(&self) -> Vec<u64> {
        let mut r = self.view_data.bits();
        r.push(self.source_is_pline1 as u64);
        r.push(self.overlapping as u64);
        r
    }
}
impl Value for BooleanResultPline<Polyline<f64>> {
    fn of(j: &J) -> Self {
        BooleanResultPline::new(Value::of(j.get("pline")), j.get("subs").arr().iter().map(Value::of).collect())
    }
    fn show(&self) -> String {
        O::new().raw("pline", &self.pline.show()).raw("subs", &list(self.subslices.iter().map(|s| s.show()))).end()
    }
    fn bits(&self) -> Vec<u64> {
        let mut r = self.pline.bits();
        for s in &self.subslices {
            r.extend(s.bits());
        }
        r
    }
}

fn back<V: Value>(name: &str, v: &V, exact: bool, r: Result<V, String>) -> String {
    let o = O::new().str("f", name);
    match r {
        Ok(w) => o.int("ok", 1).raw("val", &w.show()).int("same", (!exact || w.bits() == v.bits()) as i64).end(),
        Err(e) => o.int("ok", 0).raw("val", &v.show()).int("same", 0).str("err", &e).end(),
    }
}
fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
fn one<V: Value>(j: &J) -> String {
    let v = V::of(j);
    let mut t = tokens::Tokens::default();
    let tok = v.serialize(&mut t).is_ok();
    let cbor = |v: &V| -> Result<Vec<u8>, String> {
        let mut b = Vec::new();
        e(ciborium::into_writer(v, &mut b))?;
        Ok(b)
    };
    let rt = vec![
        back("json", &v, false, (|| e(serde_json::from_str(&e(serde_json::to_string(&v))?)))()),
        back("pretty json", &v, false, (|| e(serde_json::from_slice(&e(serde_json::to_vec_pretty(&v))?)))()),
        // through a document whose fields are in another order
        back("json document", &v, false, (|| e(serde_json::from_value(e(serde_json::to_value(&v))?)))()),
        back("cbor", &v, true, (|| e(ciborium::from_reader(&cbor(&v)?[..])))()),
        back("cbor document", &v, true, (|| e(ciborium::Value::serialized(&v))?.deserialized().map_err(|x: ciborium::value::Error| x.to_string()))()),
        back("cbor read as a document", &v, true, (|| {
            let d: ciborium::Value = e(ciborium::from_reader(&cbor(&v)?[..]))?;
            d.deserialized().map_err(|x: ciborium::value::Error| x.to_string())
        })()),
        back("bincode", &v, true, (|| e(bincode::deserialize(&e(bincode::serialize(&v))?)))()),
        // several values one after the other in one stream
        back("second in a cbor stream", &v, true, (|| {
            let mut b = cbor(&v)?;
            b.extend(cbor(&v)?);
            let mut r = &b[..];
            let _: V = e(ciborium::from_reader(&mut r))?;
            e(ciborium::from_reader(&mut r))
        })()),
        back("in a pair", &v, true, (|| {
            let (_, w): (u8, V) = e(bincode::deserialize(&e(bincode::serialize(&(7u8, &v)))?))?;
            Ok(w)
        })()),
    ];
    O::new().int("wrote", tok as i64).raw("tok", &list(t.0.into_iter())).raw("rt", &list(rt.into_iter())).end()
}
fn run(c: &J) -> String {
    let v = c.get("val");
    match c.get("kind").str() {
        "vertex" => one::<PlineVertex<f64>>(v),
        "vector" => one::<Vector2<f64>>(v),
        "pline" => one::<Polyline<f64>>(v),
        "vertex32" => one::<PlineVertex<f32>>(v),
        "vector32" => one::<Vector2<f32>>(v),
        "pline32" => one::<Polyline<f32>>(v),
        "view" => one::<PlineViewData<f64>>(v),
        "slice" => one::<BooleanPlineSlice<f64>>(v),
        "result" => one::<BooleanResultPline<Polyline<f64>>>(v),
        k => panic!("harness: kind {k}"),
    }
}
fn main() {
    driver::drive(run);
}
