//! Reference HTTP: request generation, simulated clients, response reading.

use crate::choice::S;
use crate::util::*;
use crate::world::*;

#[derive(Clone, Debug, Default)]
pub struct Req {
    pub method: String,
    pub scheme: String,
    pub host: String,
    pub path: String,
    pub query: Option<String>,
    pub absolute: bool,
    /// the scheme is written in capitals
    pub loud: bool,
    /// as they appear on the wire, Host and Content-Length included, values trimmed
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub has_len: bool,
    pub head: Vec<u8>,
}
impl Req {
    pub fn raw(&self) -> Vec<u8> {
        let mut v = self.head.clone();
        v.extend(&self.body);
        v
    }
    pub fn target(&self) -> String {
        let q = self.query.as_ref().map(|q| format!("?{}", q)).unwrap_or_default();
        if self.absolute {
            format!("{}://{}{}{}", if self.loud { self.scheme.to_uppercase() } else { self.scheme.clone() }, self.host, self.path, q)
        } else {
            format!("{}{}", self.path, q)
        }
    }
    /// compare with an observation ["req", route, state, method, scheme, host, path, hasq, q, (k, v)*]
    pub fn differs(&self, o: &Ob) -> Option<String> {
        let want = [
            ("method", self.method.as_str(), o.s(3)),
            ("scheme", self.scheme.as_str(), o.s(4)),
            ("host", self.host.as_str(), o.s(5)),
            ("path", self.path.as_str(), o.s(6)),
            ("has query", if self.query.is_some() { "1" } else { "0" }, o.s(7)),
            ("query", self.query.as_deref().unwrap_or(""), o.s(8)),
        ];
        for (n, a, b) in want {
            if a != b {
                return Some(format!("{}: sent {:?}, handler saw {:?}", n, a, b));
            }
        }
        let mut a: Vec<(String, String)> = self.headers.clone();
        a.sort();
        let mut b: Vec<(String, String)> = o.f[9..]
            .chunks(2)
            .map(|c| {
                (
                    String::from_utf8_lossy(&c[0]).to_string(),
                    String::from_utf8_lossy(c.get(1).map(|x| &x[..]).unwrap_or(b"")).to_string(),
                )
            })
            .collect();
        b.sort();
        if a != b {
            return Some(format!("headers: sent {:?}, handler saw {:?}", a, b));
        }
        None
    }
    pub fn brief(&self) -> String {
        format!(
            "{} {} ({} headers, {} body bytes)",
            self.method,
            self.target(),
            self.headers.len(),
            self.body.len()
        )
    }
}

const UNRES: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789ABCXYZ-_~";
const PCHAR: &[u8] = b"abcXYZ019-_~!$&()*+,;=:@";

pub fn from_set(w: &World, set: &[u8], lo: u32, hi: u32) -> String {
    let n = w.size(S::Work, lo, hi);
    (0..n).map(|_| set[w.pick(S::Work, set.len() as u32) as usize] as char).collect()
}

pub fn segment(w: &World, lo: u32, hi: u32) -> String {
    let n = w.size(S::Work, lo, hi);
    let mut s = String::new();
    for _ in 0..n {
        if w.chance(S::Work, 1, 12) {
            s.push_str(["%20", "%41", "%C3%A9", "%2F", "%25"][w.pick(S::Work, 5) as usize]);
        } else if w.chance(S::Work, 1, 10) && !s.is_empty() && !s.ends_with('.') {
            s.push('.');
            s.push('x');
        } else {
            s.push(PCHAR[w.pick(S::Work, PCHAR.len() as u32) as usize] as char);
        }
    }
    s
}

/// a tiny window moves a byte or two per round trip: such runs have to be kept short
fn slow(w: &World) -> bool {
    w.i().net.cap < 300 || w.i().net.byte_mode
}

pub fn gen_body(w: &World, max: u32) -> Vec<u8> {
    let n = w.size(S::Work, 0, if slow(w) { max.min(400) } else { max });
    body_bytes(w, n)
}
/// a number from lo to hi; now and then, where the network is fast enough for it, up to big
pub fn many(w: &World, lo: u32, hi: u32, big: u32, one_in: u32) -> u32 {
    if w.chance(S::Work, 1, one_in) && !slow(w) && w.i().net.cap >= 4096 {
        return hi + w.pick(S::Work, big - hi + 1);
    }
    w.size(S::Work, lo, hi)
}
/// a number of connections: very rarely a crowd
pub fn crowd(w: &World, lo: u32, hi: u32, big: u32, one_in: u32) -> u32 {
    if w.chance(S::Work, 1, 2500) && !slow(w) && w.i().net.cap >= 4096 {
        return [129, 257, 280, 300][w.pick(S::Work, 4) as usize];
    }
    many(w, lo, hi, big, one_in)
}
/// lengths around the limits of shorter integers, where the network is fast enough for them
pub fn gen_big(w: &World) -> Option<u32> {
    if slow(w) || w.i().net.cap < 4096 || !w.chance(S::Work, 1, 60) {
        return None;
    }
    Some([65535, 65536, 65537, 70000, 131072, 131073, 200000][w.pick(S::Work, 7) as usize])
}
pub fn body_bytes(w: &World, n: u32) -> Vec<u8> {
    let style = w.pick(S::Work, 4);
    let seed = w.word(S::Work);
    (0..n)
        .map(|i| match style {
            0 => b'a' + (i % 26) as u8,
            // line ends and header look-alikes inside bodies
            1 => b"\r\n\r\nGET / HTTP/1.1\r\nHost: x\r\n\r\n"[(i % 31) as usize],
            2 => (crate::choice::mix(seed as u64 + i as u64)) as u8,
            _ => (i & 0xff) as u8,
        })
        .collect()
}

/// casing variants of a header name
pub fn recase(w: &World, name: &str) -> String {
    match w.pick(S::Work, 4) {
        0 => name.to_string(),
        1 => name.to_ascii_lowercase(),
        2 => name.to_ascii_uppercase(),
        _ => name
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
            .collect(),
    }
}

#[derive(Clone, Debug)]
pub struct GenOpt {
    pub max_body: u32,
    pub plan: Option<usize>,
    pub tag: Option<String>,
    /// always send Content-Length
    pub need_len: bool,
    pub plain: bool,
    pub path: Option<String>,
    /// exactly so many body bytes
    pub body_len: Option<u32>,
}
impl Default for GenOpt {
    fn default() -> Self {
        GenOpt {
            max_body: 2000,
            plan: None,
            tag: None,
            need_len: false,
            plain: false,
            path: None,
            body_len: None,
        }
    }
}

pub fn gen_value(w: &World) -> String {
    if w.chance(S::Work, 1, 250) && !slow(w) {
        // longer than any buffer on the way
        let n = w.size(S::Work, 1, if w.i().net.cap >= 4096 && w.chance(S::Work, 1, 3) { 150000 } else { 40000 });
        return (0..n).map(|i| UNRES[i as usize % UNRES.len()] as char).collect();
    }
    let n = w.size(S::Work, 0, 40);
    let mut s = String::new();
    for _ in 0..n {
        match w.weighted(S::Work, &[20, 2, 2, 1]) {
            0 => s.push(UNRES[w.pick(S::Work, UNRES.len() as u32) as usize] as char),
            1 => {
                const P: &[u8] = b":;,=\"/()<>?@[]\\{}%&'!#$*+.^`|~";
                s.push(P[w.pick(S::Work, P.len() as u32) as usize] as char)
            }
            2 => s.push(' '),
            _ => s.push(['é', '☃', '𝄞', 'ß', '\u{a0}', '\u{85}', '\u{feff}', '\u{3000}', '\t', '\u{10ffff}', 'İ'][w.pick(S::Work, 11) as usize]),
        }
    }
    s.trim_matches(|c| c == ' ' || c == '\t').to_string()
}

/// by how much a declared length exceeds what is sent
pub fn claim_of(w: &World) -> u64 {
    match w.pick(S::Work, 3) {
        0 => w.size(S::Work, 1, 100000) as u64,
        1 => 1 << w.size(S::Work, 17, 40),
        _ => [0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0xffff_ffff_ffff_0000][w.pick(S::Work, 7) as usize],
    }
}

pub fn gen_req(w: &World, o: &GenOpt) -> Req {
    let mut r = Req {
        scheme: "http".into(),
        ..Default::default()
    };
    r.method = if o.plain {
        ["GET", "POST"][w.pick(S::Work, 2) as usize].into()
    } else {
        ["GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "M-SEARCH", "X!#$%&'*+.^_`|~", "delete", "mIxEd", "GETS", "G", "CONNECTX", "A-METHOD-OF-UNUSUAL-LENGTH-WHICH-IS-STILL-A-TOKEN"]
            [w.weighted(S::Work, &[12, 12, 4, 4, 4, 4, 4, 2, 2, 2, 2, 2, 2, 2, 1])]
        .into()
    };
    r.host = ["localhost", "example.com", "a.b-c.example:8080", "127.0.0.1:81", "x:1", "[::1]:99", "a-rather-long-name.with-many.labels.in.a.deep.sub.domain.example.org:65535"]
        [w.pick(S::Work, 7) as usize]
        .into();
    if let Some(p) = &o.path {
        r.path = p.clone();
    } else {
        let n = many(w, 0, 5, 60, 60);
        let mut p = String::from("/");
        for i in 0..n {
            if i > 0 {
                p.push('/');
            }
            p.push_str(&segment(w, 0, 9));
        }
        if w.chance(S::Work, 1, 40) {
            p.push_str(&"long/".repeat(w.size(S::Work, 1, if slow(w) { 200 } else { 5000 }) as usize));
        }
        r.path = p;
        if w.chance(S::Work, 1, 3) {
            let mut q = segment(w, 0, 12);
            for _ in 0..many(w, 0, 3, 300, 60) {
                q.push(b"?/=&"[w.pick(S::Work, 4) as usize] as char);
                q.push_str(&segment(w, 0, 6));
            }
            r.query = Some(q);
        }
        r.absolute = w.chance(S::Work, 1, 6);
        if r.absolute && w.chance(S::Work, 1, 3) {
            r.scheme = "https".into();
        }
        r.loud = r.absolute && w.chance(S::Work, 1, 6);
    }
    let mut hs: Vec<(String, String)> = vec![];
    if let Some(p) = o.plan {
        hs.push((recase(w, "X-Plan"), p.to_string()));
    }
    if let Some(t) = &o.tag {
        hs.push(("X-Tag".into(), t.clone()));
    }
    if o.max_body > 0 && (o.need_len || w.chance(S::Work, 2, 3)) {
        r.body = match o.body_len {
            Some(n) => body_bytes(w, n),
            None => gen_body(w, o.max_body),
        };
        r.has_len = true;
        hs.push((recase(w, "Content-Length"), r.body.len().to_string()));
    }
    // the target's own host counts, if it has one
    let own = r.absolute && w.chance(S::Work, 1, 3);
    hs.push((recase(w, "Host"), if own { ["other.example", "localhost:9", "x"][w.pick(S::Work, 3) as usize].into() } else { r.host.clone() }));
    let room = 20 - hs.len() as u32;
    let extra = if w.chance(S::Work, 1, 8) { room } else { w.size(S::Work, 0, room.min(6)) };
    for i in 0..extra {
        let name = if w.chance(S::Work, 1, 8) {
            format!("Content-Length-{}", i)
        } else if w.chance(S::Work, 1, 10) {
            let long = if w.chance(S::Work, 1, 20) && !slow(w) { "n".repeat(w.size(S::Work, 1, 5000) as usize) } else { String::new() };
            format!("x{}!#$%&'*+-.^_`|~{}", i, long)
        } else if !o.plain && w.chance(S::Work, 1, 3) {
            // names which mean something elsewhere
            const KNOWN: [(&str, &[&str]); 20] = [
                ("X-Forwarded-Host", &["evil.example"]),
                ("Connection", &["close", "keep-alive", "Upgrade", "x, y"]),
                ("Content-Type", &["text/plain", "application/json; charset=utf-8"]),
                ("Upgrade", &["websocket", "h2c"]),
                ("Expect", &["100-continue"]),
                ("Forwarded", &["host=a;proto=https"]),
                ("X-Forwarded-Proto", &["https"]),
                ("X-Http-Method-Override", &["DELETE"]),
                ("X-Original-Url", &["/other"]),
                ("Content-Encoding", &["gzip"]),
                ("TE", &["trailers"]),
                ("Trailer", &["X-T"]),
                ("Range", &["bytes=0-1"]),
                ("If-None-Match", &["\"abc\"", "*"]),
                ("Authorization", &["Basic dTpw"]),
                ("Keep-Alive", &["timeout=5"]),
                ("Referer", &["http://a/?b#c"]),
                ("X-Content-Length", &["0", "5"]),
                ("Accept-Encoding", &["gzip, br"]),
                ("User-Agent", &["a/1 (b; c)"]),
            ];
            let k = &KNOWN[(i as usize + w.pick(S::Work, 20) as usize) % 20];
            let name = recase(w, k.0);
            if hs.iter().any(|(n, _)| n.eq_ignore_ascii_case(&name)) {
                continue;
            }
            hs.push((name, k.1[w.pick(S::Work, k.1.len() as u32) as usize].to_string()));
            continue;
        } else {
            format!("{}{}", recase(w, ["X-Extra", "Accept", "Cookie", "Hosts", "Transfer"][w.pick(S::Work, 5) as usize]), i)
        };
        let v = gen_value(w);
        hs.push((name, v));
    }
    // order on the wire
    if w.chance(S::Work, 1, 2) && hs.len() > 1 {
        let k = w.pick(S::Work, hs.len() as u32) as usize;
        hs.rotate_left(k);
    }
    let mut head = format!("{} {} HTTP/1.1\r\n", r.method, r.target()).into_bytes();
    let loose = w.chance(S::Work, 1, 4);
    for (k, v) in &hs {
        head.extend(k.as_bytes());
        head.push(b':');
        let sp = if loose { w.pick(S::Work, 4) } else { 1 };
        head.extend(std::iter::repeat(b' ').take(sp as usize));
        head.extend(v.as_bytes());
        if loose {
            head.extend(std::iter::repeat(b' ').take(w.pick(S::Work, 3) as usize));
        }
        head.extend(b"\r\n");
    }
    if hs.len() < 20 {
        if let Some((k, v)) = pad(w, head.len() + 2) {
            head.extend(format!("{}: {}\r\n", k, v).as_bytes());
            hs.push((k, v));
        }
    }
    head.extend(b"\r\n");
    r.headers = hs;
    r.head = head;
    r
}

/// rarely, a header with which a head of `len` bytes ends near a size that buffers have
pub fn pad(w: &World, len: usize) -> Option<(String, String)> {
    if slow(w) || !w.chance(S::Work, 1, 40) {
        return None;
    }
    let to = [1000, 1024, 2000, 4096, 8192, 10000, 16384, 20000, 65536][w.pick(S::Work, 9) as usize] + w.pick(S::Work, 5) as usize - 2;
    let line = "X-Pad: \r\n".len();
    Some(("X-Pad".into(), "p".repeat(to.checked_sub(len + line + 1)? + 1)))
}

// ---- clients ------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum After {
    /// read until the server closes, then close
    ReadToEnd,
    /// half-close first
    HalfCloseRead,
    /// close at once without reading
    CloseNow,
    /// reset at once
    Abort,
    /// read `n` bytes at least, then reset (or close)
    ReadThen(usize, bool),
    /// keep the connection open for ever and read nothing
    Hang,
    /// keep it open without reading for so many ms, then close
    HangThenClose(u32),
    /// keep it open, unread, for so many ms, then read to the end
    LateRead(u32),
}

#[derive(Clone, Debug)]
pub struct CPlan {
    pub delay_ms: u32,
    pub pieces: Vec<(Vec<u8>, u32)>,
    pub after: After,
    pub faulty: bool,
}

#[derive(Clone, Debug, Default)]
pub struct CRec {
    pub conn: Option<ConnId>,
    pub sent_all: bool,
    pub sent_at: u64,
    pub sent_step: u64,
    pub got: Vec<u8>,
    pub end: Option<ConnEnd>,
    pub end_at: u64,
    pub finished: bool,
    pub opened_at: u64,
}

pub fn pieces(w: &World, raw: &[u8], pauses: bool) -> Vec<(Vec<u8>, u32)> {
    let mut cuts = vec![];
    if raw.len() > 1 && w.chance(S::Work, 2, 3) {
        for _ in 0..w.size(S::Work, 1, 5) {
            cuts.push(1 + w.pick(S::Work, raw.len() as u32 - 1) as usize);
        }
    }
    cuts.sort();
    cuts.dedup();
    cuts.push(raw.len());
    let mut at = 0;
    let mut v = vec![];
    for c in cuts {
        let p = if pauses && w.chance(S::Work, 1, 2) { [1, 20, 400, 5000][w.pick(S::Work, 4) as usize] } else { 0 };
        v.push((raw[at..c].to_vec(), p));
        at = c;
    }
    v
}

pub fn client(w: &World, id: usize, port: u16, plan: CPlan, rec: Shared<Vec<CRec>>) {
    let w2 = w.clone();
    let f = async move {
        let w = w2;
        if plan.delay_ms > 0 {
            w.sleep(plan.delay_ms as u64 * MS).await;
        }
        let mut p = Peer::open(&w, port, id).await;
        {
            let mut m = w.m();
            m.conns[p.conn].faulty = plan.faulty;
            let now = m.now;
            let mut r = rec.borrow_mut();
            r[id].conn = Some(p.conn);
            r[id].opened_at = now;
        }
        let mut ok = true;
        for (b, pause) in &plan.pieces {
            if !p.send(b).await {
                ok = false;
                break;
            }
            if *pause > 0 {
                w.sleep(*pause as u64 * MS).await;
            }
        }
        {
            let m = w.i();
            let mut r = rec.borrow_mut();
            r[id].sent_all = ok;
            r[id].sent_at = m.now;
            r[id].sent_step = m.step;
        }
        match plan.after {
            After::ReadToEnd => {
                p.read_to_end().await;
                save(&w, &rec, id, &p);
                p.close();
            }
            After::HalfCloseRead => {
                p.half_close();
                p.read_to_end().await;
                save(&w, &rec, id, &p);
                p.close();
            }
            After::CloseNow => p.close(),
            After::Abort => p.abort(),
            After::ReadThen(n, rst) => {
                let t = w.now() + 3000 * SEC;
                while p.got.len() < n && p.more_until(t).await {}
                save(&w, &rec, id, &p);
                if rst {
                    p.abort();
                } else {
                    p.close();
                }
            }
            After::Hang => {
                save(&w, &rec, id, &p);
                rec.borrow_mut()[id].finished = true;
                w.wait(vec![Key::Never], None).await;
            }
            After::HangThenClose(ms) => {
                w.sleep(ms as u64 * MS).await;
                p.close();
            }
            After::LateRead(ms) => {
                w.sleep(ms as u64 * MS).await;
                p.read_to_end().await;
                save(&w, &rec, id, &p);
                p.close();
            }
        }
        rec.borrow_mut()[id].finished = true;
    };
    w.spawn_client(&format!("client{}", id), f);
}

fn save(w: &World, rec: &Shared<Vec<CRec>>, id: usize, p: &Peer) {
    let mut r = rec.borrow_mut();
    r[id].got = p.got.clone();
    r[id].end = p.end;
    r[id].end_at = w.now();
}

// ---- responses ----------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct Resp {
    pub status: u32,
    pub reason: Vec<u8>,
    pub headers: Vec<(Vec<u8>, Vec<u8>)>,
    pub body: Vec<u8>,
}

/// strict parse of one response whose body extends to the end
pub fn parse_resp(b: &[u8]) -> Result<Resp, String> {
    let end = b.windows(4).position(|x| x == b"\r\n\r\n").ok_or("no end of headers")?;
    let head = &b[..end];
    let mut lines = split_crlf(head);
    let first = lines.remove(0);
    let rest = first.strip_prefix(b"HTTP/1.1 ").ok_or("status line")?;
    let sp = rest.iter().position(|c| *c == b' ').ok_or("status line has no reason")?;
    let status = std::str::from_utf8(&rest[..sp]).ok().and_then(|s| s.parse().ok()).ok_or("status")?;
    let mut r = Resp {
        status,
        reason: rest[sp + 1..].to_vec(),
        ..Default::default()
    };
    for l in lines {
        let c = l.windows(2).position(|x| x == b": ").ok_or_else(|| format!("header line {:?}", crate::host::show(&l)))?;
        r.headers.push((l[..c].to_vec(), l[c + 2..].to_vec()));
    }
    r.body = b[end + 4..].to_vec();
    Ok(r)
}

pub fn split_crlf(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut cur = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') {
            v.push(std::mem::take(&mut cur));
            i += 2;
        } else {
            cur.push(b[i]);
            i += 1;
        }
    }
    v.push(cur);
    v
}

/// the response a handler built, as a reference for the bytes on the wire
#[derive(Clone, Debug, Default)]
pub struct Want {
    pub status: u32,
    pub reason: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Want {
    pub fn err400() -> Want {
        Want {
            status: 400,
            reason: "bad request".into(),
            headers: vec![("Content-Type".into(), "text/html;charset=utf-8".into())],
            body: b"<h1>400: bad request</h1>".to_vec(),
        }
    }
    pub fn err404() -> Want {
        Want {
            status: 404,
            reason: "not found".into(),
            headers: vec![("Content-Type".into(), "text/html;charset=utf-8".into())],
            body: b"<h1>404: Not found</h1>".to_vec(),
        }
    }
    /// None: exactly this response.  `prefix`: a prefix of it will do.
    pub fn differs(&self, got: &[u8], prefix: bool) -> Option<String> {
        message_differs(&format!("HTTP/1.1 {} {}\r\n", self.status, self.reason), &self.headers, &self.body, got, prefix)
    }
}

/// None: exactly this message, its headers in any order.  `prefix`: a prefix of it will do.
pub fn message_differs(first: &str, headers: &[(String, String)], body: &[u8], got: &[u8], prefix: bool) -> Option<String> {
    {
        let line = first.as_bytes().to_vec();
        if got.len() < line.len() {
            if prefix && line.starts_with(got) {
                return None;
            }
            return Some(format!("first line: expected {:?}, got {:?}", crate::host::show(&line), crate::host::show(got)));
        }
        if !got.starts_with(&line) {
            return Some(format!("first line: expected {:?}, got {:?}", crate::host::show(&line), crate::host::show(got)));
        }
        let mut rest = &got[line.len()..];
        let mut left: Vec<Vec<u8>> = headers.iter().map(|(k, v)| format!("{}: {}\r\n", k, v).into_bytes()).collect();
        while !left.is_empty() {
            match left.iter().position(|l| rest.starts_with(l)) {
                Some(i) => {
                    rest = &rest[left[i].len()..];
                    left.remove(i);
                }
                None => {
                    if prefix && left.iter().any(|l| l.starts_with(rest)) {
                        return None;
                    }
                    return Some(format!(
                        "headers: {:?} not written where expected, the wire has {:?}",
                        left.iter().map(|l| crate::host::show(l)).collect::<Vec<_>>(),
                        crate::host::show(rest)
                    ));
                }
            }
        }
        let mut tail = b"\r\n".to_vec();
        tail.extend(body);
        if rest == &tail[..] || (prefix && tail.starts_with(rest)) {
            return None;
        }
        let common = rest.iter().zip(&tail).take_while(|(a, b)| a == b).count();
        Some(format!(
            "after the headers: {} bytes expected, {} received, first difference at {}: expected {:?}, got {:?}",
            tail.len(),
            rest.len(),
            common,
            crate::host::show(&tail[common..]),
            crate::host::show(&rest[common..])
        ))
    }
}
