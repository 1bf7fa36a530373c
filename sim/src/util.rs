//! encodings shared with the guests, a small JSON reader/writer, hashing

use crate::choice::mix;
use crate::world::*;
use std::collections::BTreeMap;

/// configuration encoder, read by `sim::Rd` in the guests
#[derive(Default, Clone)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        self.u32(b.len() as u32);
        self.0.extend(b);
        self
    }
    pub fn str(&mut self, s: &str) -> &mut Self {
        self.bytes(s.as_bytes())
    }
}

/// an observation of a guest, taken apart
#[derive(Clone, Debug)]
pub struct Ob {
    pub step: u64,
    pub time: u64,
    pub pid: Pid,
    /// the connection the process was given first
    pub conn: Option<ConnId>,
    pub f: Vec<Vec<u8>>,
}
impl Ob {
    pub fn kind(&self) -> &str {
        self.s(0)
    }
    pub fn s(&self, i: usize) -> &str {
        self.f.get(i).and_then(|b| std::str::from_utf8(b).ok()).unwrap_or("\u{fffd}")
    }
}

pub fn obs(w: &World) -> Vec<Ob> {
    let m = w.i();
    m.obs
        .iter()
        .map(|o| {
            let mut f = vec![];
            let mut p = 0;
            while p + 4 <= o.data.len() {
                let n = u32::from_le_bytes(o.data[p..p + 4].try_into().unwrap()) as usize;
                p += 4;
                let e = (p + n).min(o.data.len());
                f.push(o.data[p..e].to_vec());
                p = e;
            }
            Ob {
                step: o.step,
                time: o.time,
                pid: o.pid,
                conn: m.procs[o.pid].took.first().copied(),
                f,
            }
        })
        .collect()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

// ---- JSON ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn s(v: impl Into<String>) -> J {
        J::Str(v.into())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i64,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn map<V: Copy + Into<u64>>(m: &BTreeMap<String, V>) -> J {
        J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int((*v).into() as i64))).collect())
    }
    pub fn write(&self, out: &mut String, ind: usize) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(f) => out.push_str(&format!("{:.3}", f)),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Str(s) => jstr(s, out),
            J::Arr(a) => {
                let flat = a.iter().all(|x| matches!(x, J::Int(_)));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    x.write(out, ind + 1);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&" ".repeat(ind + 1));
                    jstr(k, out);
                    out.push_str(": ");
                    v.write(out, ind + 1);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    /// on one line
    pub fn line(&self) -> String {
        fn go(j: &J, out: &mut String) {
            match j {
                J::Arr(a) => {
                    out.push('[');
                    for (i, x) in a.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        go(x, out);
                    }
                    out.push(']');
                }
                J::Obj(o) => {
                    out.push('{');
                    for (i, (k, v)) in o.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        jstr(k, out);
                        out.push(':');
                        go(v, out);
                    }
                    out.push('}');
                }
                j => j.write(out, 0),
            }
        }
        let mut s = String::new();
        go(self, &mut s);
        s
    }
    pub fn parse(t: &str) -> Option<J> {
        let b = t.as_bytes();
        let mut p = 0;
        let j = jparse(b, &mut p)?;
        Some(j)
    }
}
fn jstr(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}
fn jparse(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        b't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'"' => {
            *p += 1;
            let mut o: Vec<u8> = vec![];
            loop {
                match *b.get(*p)? {
                    b'"' => {
                        *p += 1;
                        return String::from_utf8(o).ok().map(J::Str);
                    }
                    b'\\' => {
                        *p += 1;
                        let c = *b.get(*p)?;
                        *p += 1;
                        match c {
                            b'n' => o.push(b'\n'),
                            b'r' => o.push(b'\r'),
                            b't' => o.push(b'\t'),
                            b'b' => o.push(8),
                            b'f' => o.push(12),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                                let mut v = u32::from_str_radix(h, 16).ok()?;
                                *p += 4;
                                if (0xd800..0xdc00).contains(&v) && b.get(*p..*p + 2) == Some(b"\\u") {
                                    let h = std::str::from_utf8(b.get(*p + 2..*p + 6)?).ok()?;
                                    let lo = u32::from_str_radix(h, 16).ok()?;
                                    *p += 6;
                                    v = 0x10000 + ((v - 0xd800) << 10) + (lo.wrapping_sub(0xdc00) & 0x3ff);
                                }
                                let ch = char::from_u32(v).unwrap_or('\u{fffd}');
                                let mut t = [0; 4];
                                o.extend(ch.encode_utf8(&mut t).as_bytes());
                            }
                            c => o.push(c),
                        }
                    }
                    c => {
                        o.push(c);
                        *p += 1;
                    }
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b']' {
                    *p += 1;
                    return Some(J::Arr(v));
                }
                v.push(jparse(b, p)?);
                ws(b, p);
                if *b.get(*p)? == b',' {
                    *p += 1;
                }
            }
        }
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    return Some(J::Obj(v));
                }
                let k = match jparse(b, p)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                let x = jparse(b, p)?;
                v.push((k, x));
                ws(b, p);
                if *b.get(*p)? == b',' {
                    *p += 1;
                }
            }
        }
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).ok()?;
            if t.is_empty() {
                return None;
            }
            if let Ok(i) = t.parse::<i64>() {
                Some(J::Int(i))
            } else {
                t.parse().ok().map(J::Num)
            }
        }
    }
}
