//! Minimal JSON: enough to read the cases the specification prints.
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

static NULL: J = J::Null;

impl J {
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut i = 0;
        let v = value(b, &mut i)?;
        ws(b, &mut i);
        if i != b.len() {
            return Err(format!("trailing input at {i}"));
        }
        Ok(v)
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::Obj(m) if m.contains_key(k))
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Bool(b) => *b as i64,
            _ => panic!("harness: not an integer: {self:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        None => Err("unexpected end".into()),
        Some(b'{') => {
            *i += 1;
            let mut m = BTreeMap::new();
            ws(b, i);
            if b.get(*i) == Some(&b'}') {
                *i += 1;
                return Ok(J::Obj(m));
            }
            loop {
                ws(b, i);
                let k = string(b, i)?;
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return Err(format!("expected : at {i}"));
                }
                *i += 1;
                let v = value(b, i)?;
                m.insert(k, v);
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::Obj(m));
                    }
                    _ => return Err(format!("expected , or }} at {i}")),
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut a = Vec::new();
            ws(b, i);
            if b.get(*i) == Some(&b']') {
                *i += 1;
                return Ok(J::Arr(a));
            }
            loop {
                a.push(value(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::Arr(a));
                    }
                    _ => return Err(format!("expected , or ] at {i}")),
                }
            }
        }
        Some(b'"') => Ok(J::Str(string(b, i)?)),
        Some(b't') => {
            *i += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') => {
            *i += 5;
            Ok(J::Bool(false))
        }
        Some(b'n') => {
            *i += 4;
            Ok(J::Null)
        }
        Some(_) => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            std::str::from_utf8(&b[st..*i])
                .unwrap()
                .parse::<i64>()
                .map(J::Int)
                .map_err(|e| format!("{e} at {st}"))
        }
    }
}

fn string(b: &[u8], i: &mut usize) -> Result<String, String> {
    if b.get(*i) != Some(&b'"') {
        return Err(format!("expected string at {i}"));
    }
    *i += 1;
    let mut s = String::new();
    while let Some(&c) = b.get(*i) {
        *i += 1;
        match c {
            b'"' => return Ok(s),
            b'\\' => {
                let d = b[*i];
                *i += 1;
                s.push(match d {
                    b'n' => '\n',
                    b't' => '\t',
                    o => o as char,
                });
            }
            o => s.push(o as char),
        }
    }
    Err("unterminated string".into())
}

/// Incremental JSON writer for one object.
#[derive(Default)]
pub struct O(pub String);

impl O {
    pub fn new() -> O {
        O(String::from("{"))
    }
    fn key(&mut self, k: &str) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        self.0.push('"');
        self.0.push_str(k);
        self.0.push_str("\":");
    }
    pub fn raw(mut self, k: &str, v: &str) -> O {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn int(self, k: &str, v: i64) -> O {
        self.raw(k, &v.to_string())
    }
    pub fn str(mut self, k: &str, v: &str) -> O {
        self.key(k);
        self.0.push_str(&quote(v));
        self
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

pub fn quote(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => s.push('\''),
            '\\' => s.push('/'),
            c if (c as u32) < 32 || (c as u32) > 126 => s.push(' '),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

pub fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut s = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x);
    }
    s.push(']');
    s
}

/// Serialise a parsed value again (for echoing inputs).
pub fn dump(j: &J) -> String {
    match j {
        J::Null => "null".into(),
        J::Bool(b) => b.to_string(),
        J::Int(i) => i.to_string(),
        J::Str(s) => quote(s),
        J::Arr(a) => list(a.iter().map(dump)),
        J::Obj(m) => {
            let mut o = O::new();
            for (k, v) in m {
                o = o.raw(k, &dump(v));
            }
            o.end()
        }
    }
}
