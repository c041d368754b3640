//! A small JSON reader and writer (no dependency needed).
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or(&J::Null)
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(v) => *v,
            J::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn truth(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn is_any(&self) -> bool {
        self.get("any").is_some()
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.int() as u8).collect()
    }
    pub fn obj(kv: Vec<(&str, J)>) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn of_bytes(b: &[u8]) -> J {
        J::Arr(b.iter().map(|x| J::Int(*x as i64)).collect())
    }
    /// sign, then base 2^14 limbs
    pub fn of_num(v: i128) -> J {
        let mut out = vec![J::Int((v < 0) as i64)];
        let mut m = v.unsigned_abs();
        while m > 0 {
            out.push(J::Int((m & 0x3fff) as i64));
            m >>= 14;
        }
        J::Arr(out)
    }
    pub fn num(&self) -> Result<i128, String> {
        let a = self.arr();
        if a.is_empty() {
            return Err(format!("not a number: {self}"));
        }
        let mut v: i128 = 0;
        for x in a[1..].iter().rev() {
            v = (v << 14) | x.int() as i128;
        }
        Ok(if a[0].int() == 1 { -v } else { v })
    }
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            J::Null => write!(f, "null"),
            J::Bool(b) => write!(f, "{b}"),
            J::Int(i) => write!(f, "{i}"),
            J::Str(s) => {
                write!(f, "\"")?;
                for c in s.chars() {
                    match c {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
                        c => write!(f, "{c}")?,
                    }
                }
                write!(f, "\"")
            }
            J::Arr(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{x}")?;
                }
                write!(f, "]")
            }
            J::Obj(m) => {
                write!(f, "{{")?;
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{}:{x}", J::Str(k.clone()))?;
                }
                write!(f, "}}")
            }
        }
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = value(b, &mut i)?;
    Ok(v)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    if *i >= b.len() {
        return Err("end".into());
    }
    match b[*i] {
        b'{' => {
            let mut m = BTreeMap::new();
            *i += 1;
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::Obj(m));
                    }
                    Some(b',') => *i += 1,
                    Some(b'"') => {
                        let k = string(b, i)?;
                        ws(b, i);
                        if b.get(*i) != Some(&b':') {
                            return Err("colon".into());
                        }
                        *i += 1;
                        m.insert(k, value(b, i)?);
                    }
                    _ => return Err(format!("object at {i}")),
                }
            }
        }
        b'[' => {
            let mut v = vec![];
            *i += 1;
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    Some(b',') => *i += 1,
                    Some(_) => v.push(value(b, i)?),
                    None => return Err("array".into()),
                }
            }
        }
        b'"' => Ok(J::Str(string(b, i)?)),
        b't' => {
            *i += 4;
            Ok(J::Bool(true))
        }
        b'f' => {
            *i += 5;
            Ok(J::Bool(false))
        }
        b'n' => {
            *i += 4;
            Ok(J::Null)
        }
        _ => {
            let s = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            std::str::from_utf8(&b[s..*i])
                .unwrap()
                .parse()
                .map(J::Int)
                .map_err(|e| format!("{e} at {s}"))
        }
    }
}

fn string(b: &[u8], i: &mut usize) -> Result<String, String> {
    let mut out = vec![];
    *i += 1;
    while *i < b.len() {
        match b[*i] {
            b'"' => {
                *i += 1;
                return String::from_utf8(out).map_err(|e| e.to_string());
            }
            b'\\' => {
                *i += 1;
                match b[*i] {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap();
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                        let mut t = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                        *i += 4;
                    }
                    c => out.push(c),
                }
                *i += 1;
            }
            c => {
                out.push(c);
                *i += 1;
            }
        }
    }
    Err("string".into())
}
