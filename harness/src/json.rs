//! A minimal JSON value (integers only), so that the harness needs no crates.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

/// TLC integers have 32 bits; anything else is reported as this sentinel,
/// which no specification value ever equals.
pub const OUT_OF_RANGE: i64 = 2_147_483_001;

impl J {
    pub fn get(&self, key: &str) -> &J {
        self.opt(key)
            .unwrap_or_else(|| panic!("harness: missing key {key} in {self:?}"))
    }
    pub fn opt(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn has(&self, key: &str) -> bool {
        self.opt(key).is_some()
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("harness: not an int: {self:?}"),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: not a string: {self:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => panic!("harness: not an array: {self:?}"),
        }
    }
    pub fn i(&self, key: &str) -> i64 {
        self.get(key).int()
    }
    pub fn u(&self, key: &str) -> usize {
        self.get(key).us()
    }
    pub fn s(&self, key: &str) -> &str {
        self.get(key).str()
    }
    pub fn a(&self, key: &str) -> &[J] {
        self.get(key).arr()
    }
    pub fn set(&mut self, key: &str, v: J) {
        if let J::Obj(o) = self {
            if let Some(e) = o.iter_mut().find(|(k, _)| k == key) {
                e.1 = v;
            } else {
                o.push((key.to_string(), v));
            }
        }
    }
    pub fn from_int(i: i128) -> J {
        if i.abs() < 2_147_000_000 {
            J::Int(i as i64)
        } else {
            J::Int(OUT_OF_RANGE)
        }
    }
    pub fn from_float(x: f64) -> J {
        if x.is_finite() && x.fract() == 0.0 && x.abs() < 2_147_000_000.0 {
            J::Int(x as i64)
        } else {
            J::Int(OUT_OF_RANGE)
        }
    }
    pub fn obj(kv: Vec<(&str, J)>) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn st(s: &str) -> J {
        J::Str(s.to_string())
    }

    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(out, "{i}").unwrap(),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 32 => out.push(' '),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::Str(k.clone()).write(out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }

    /// Like `parse`, for text that may not be JSON.
    pub fn try_parse(s: &str) -> Option<J> {
        std::panic::catch_unwind(|| J::parse(s)).ok()
    }

    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        let v = parse(b, &mut p);
        ws(b, &mut p);
        assert!(p == b.len(), "harness: trailing JSON");
        v
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn parse(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'n' => {
            *p += 4;
            J::Null
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'"' => J::Str(string(b, p)),
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::Arr(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(parse(b, p));
            }
        }
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::Obj(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                v.push((k, parse(b, p)));
            }
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::Int(
                std::str::from_utf8(&b[s..*p])
                    .unwrap()
                    .parse()
                    .expect("harness: bad number"),
            )
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"');
    *p += 1;
    let mut s = vec![];
    while b[*p] != b'"' {
        if b[*p] == b'\\' {
            *p += 1;
        }
        s.push(b[*p]);
        *p += 1;
    }
    *p += 1;
    String::from_utf8(s).unwrap()
}
