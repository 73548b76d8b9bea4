//! A small JSON value, reader and writer.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(f64),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::S(x.to_string())
}
pub fn i<T: TryInto<i128>>(x: T) -> J {
    J::I(x.try_into().ok().unwrap_or(0))
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::O(v) = self {
            for (a, b) in v {
                if a == k {
                    return b;
                }
            }
        }
        &J::Null
    }
    pub fn str(&self) -> &str {
        if let J::S(x) = self {
            x
        } else {
            ""
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(x) => *x as i64,
            J::N(x) => *x as i64,
            _ => 0,
        }
    }
    pub fn u64(&self) -> u64 {
        match self {
            J::I(x) => *x as u64,
            J::S(x) => u64::from_str_radix(x, 16).unwrap_or(0),
            _ => 0,
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::B(true))
    }
    pub fn arr(&self) -> &[J] {
        if let J::A(v) = self {
            v
        } else {
            &[]
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn push(&mut self, k: &str, v: J) {
        if let J::O(o) = self {
            o.push((k.to_string(), v));
        }
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, None);
        o
    }
    pub fn pretty(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, Some(0));
        o.push('\n');
        o
    }
    fn w(&self, o: &mut String, ind: Option<usize>) {
        let nl = |o: &mut String, k: usize| {
            if ind.is_some() {
                o.push('\n');
                for _ in 0..k {
                    o.push(' ');
                }
            }
        };
        let next = ind.map(|k| k + 1);
        let k = ind.unwrap_or(0);
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => {
                if x.is_finite() {
                    let _ = write!(o, "{}", x);
                } else {
                    o.push_str("0")
                }
            }
            J::I(x) => {
                let _ = write!(o, "{}", x);
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 32 || (c as u32) == 127 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (n, x) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    nl(o, k + 1);
                    x.w(o, next);
                }
                if !v.is_empty() {
                    nl(o, k);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (n, (a, x)) in v.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    nl(o, k + 1);
                    J::S(a.clone()).w(o, None);
                    o.push_str(": ");
                    x.w(o, next);
                }
                if !v.is_empty() {
                    nl(o, k);
                }
                o.push('}');
            }
        }
    }
}

pub fn parse(t: &str) -> Result<J, String> {
    let b = t.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p)?;
    ws(b, &mut p);
    if p != b.len() {
        return Err(format!("trailing text at {}", p));
    }
    Ok(v)
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}
fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    if *p >= b.len() {
        return Err("end of text".into());
    }
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b'}') {
                    *p += 1;
                    return Ok(J::O(v));
                }
                if b.get(*p) == Some(&b',') {
                    *p += 1;
                    continue;
                }
                let k = match val(b, p)? {
                    J::S(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err("colon".into());
                }
                *p += 1;
                v.push((k, val(b, p)?));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b']') {
                    *p += 1;
                    return Ok(J::A(v));
                }
                if b.get(*p) == Some(&b',') {
                    *p += 1;
                    continue;
                }
                v.push(val(b, p)?);
            }
        }
        b'"' => {
            *p += 1;
            let mut o: Vec<u8> = vec![];
            loop {
                match b.get(*p) {
                    None => return Err("string".into()),
                    Some(b'"') => {
                        *p += 1;
                        return String::from_utf8(o).map(J::S).map_err(|e| e.to_string());
                    }
                    Some(b'\\') => {
                        let c = *b.get(*p + 1).ok_or("escape")?;
                        *p += 2;
                        match c {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'r' => o.push(b'\r'),
                            b'b' => o.push(8),
                            b'f' => o.push(12),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4).ok_or("u")?).map_err(|e| e.to_string())?;
                                let mut c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                *p += 4;
                                if (0xd800..0xdc00).contains(&c) && b.get(*p) == Some(&b'\\') {
                                    let h = std::str::from_utf8(b.get(*p + 2..*p + 6).ok_or("u")?).map_err(|e| e.to_string())?;
                                    let d = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                    *p += 6;
                                    c = 0x10000 + ((c - 0xd800) << 10) + (d.wrapping_sub(0xdc00) & 0x3ff);
                                }
                                let ch = char::from_u32(c).unwrap_or('?');
                                let mut t = [0; 4];
                                o.extend_from_slice(ch.encode_utf8(&mut t).as_bytes());
                            }
                            c => o.push(c),
                        }
                    }
                    Some(c) => {
                        o.push(*c);
                        *p += 1;
                    }
                }
            }
        }
        b't' => {
            *p += 4;
            Ok(J::B(true))
        }
        b'f' => {
            *p += 5;
            Ok(J::B(false))
        }
        b'n' => {
            *p += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_ascii_alphanumeric() || b"+-.".contains(&b[*p])) {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[st..*p]).unwrap_or("");
            if let Ok(x) = t.parse::<i128>() {
                return Ok(J::I(x));
            }
            t.parse::<f64>().map(J::N).map_err(|_| format!("bad number {:?}", t))
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut o = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(o, "{:02x}", x);
    }
    o
}
pub fn unhex(t: &str) -> Vec<u8> {
    t.as_bytes()
        .chunks(2)
        .filter(|c| c.len() == 2)
        .map(|c| {
            let d = |x: u8| (x as char).to_digit(16).unwrap_or(0) as u8;
            d(c[0]) * 16 + d(c[1])
        })
        .collect()
}
