//! Reference WebSocket codec, message and handshake generators, and the simulated browser.

use crate::choice::S;
use crate::world::*;

// ---- handshake ----------------------------------------------------------------------------------

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let (mut a, mut b, mut c2, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c2) | (!b & d), 0x5A827999u32),
                1 => (b ^ c2 ^ d, 0x6ED9EBA1),
                2 => ((b & c2) | (b & d) | (c2 & d), 0x8F1BBCDC),
                _ => (b ^ c2 ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d;
            d = c2;
            c2 = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c2, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0u8; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
pub fn base64(d: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(T[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
pub fn accept_for(key: &str) -> String {
    base64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key).as_bytes()))
}

// ---- frames -------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Fr {
    pub op: u8,
    pub payload: Vec<u8>,
}
pub fn op_name(op: u8) -> &'static str {
    match op {
        1 => "text",
        2 => "binary",
        8 => "close",
        9 => "ping",
        10 => "pong",
        _ => "?",
    }
}
impl Fr {
    pub fn brief(&self) -> String {
        let p = crate::host::show(&self.payload[..self.payload.len().min(24)]);
        format!("{}({} bytes {:?})", op_name(self.op), self.payload.len(), p)
    }
}

/// a frame as a client sends it
pub fn encode(fin: bool, rsv: u8, op: u8, mask: Option<[u8; 4]>, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![(fin as u8) << 7 | rsv << 4 | op];
    let m = if mask.is_some() { 0x80 } else { 0 };
    let n = payload.len();
    if n < 126 {
        v.push(m | n as u8);
    } else if n < 65536 {
        v.push(m | 126);
        v.extend((n as u16).to_be_bytes());
    } else {
        v.push(m | 127);
        v.extend((n as u64).to_be_bytes());
    }
    match mask {
        Some(k) => {
            v.extend(k);
            v.extend(payload.iter().enumerate().map(|(i, b)| b ^ k[i % 4]));
        }
        None => v.extend(payload),
    }
    v
}

/// Parses what a server wrote.  Every frame must be final, unmasked, without reserved bits and with
/// the minimal length encoding.  Returns the frames and how many bytes of an incomplete frame follow.
pub fn parse_server(b: &[u8]) -> Result<(Vec<Fr>, usize), String> {
    let mut v = vec![];
    let mut i = 0;
    loop {
        let rest = &b[i..];
        if rest.len() < 2 {
            if rest.len() == 1 {
                check_first(rest[0], v.len())?;
            }
            return Ok((v, rest.len()));
        }
        check_first(rest[0], v.len())?;
        if rest[1] & 0x80 != 0 {
            return Err(format!("frame {} is masked", v.len()));
        }
        let (n, h) = match rest[1] {
            126 => {
                if rest.len() < 4 {
                    return Ok((v, rest.len()));
                }
                let n = u16::from_be_bytes([rest[2], rest[3]]) as u64;
                if n < 126 {
                    return Err(format!("frame {}: length {} is not encoded minimally", v.len(), n));
                }
                (n, 4)
            }
            127 => {
                if rest.len() < 10 {
                    return Ok((v, rest.len()));
                }
                let n = u64::from_be_bytes(rest[2..10].try_into().unwrap());
                if n < 65536 || n >> 63 != 0 {
                    return Err(format!("frame {}: length {} is not encoded minimally", v.len(), n));
                }
                (n, 10)
            }
            n => (n as u64, 2),
        };
        if rest[0] & 8 != 0 && n > 125 {
            return Err(format!("frame {}: a control frame of {} bytes", v.len(), n));
        }
        if ((rest.len() - h) as u64) < n {
            return Ok((v, rest.len()));
        }
        v.push(Fr {
            op: rest[0] & 15,
            payload: rest[h..h + n as usize].to_vec(),
        });
        i += h + n as usize;
    }
}
fn check_first(b: u8, i: usize) -> Result<(), String> {
    if b & 0x70 != 0 {
        return Err(format!("frame {}: reserved bits set ({:#x})", i, b));
    }
    if b & 0x80 == 0 {
        return Err(format!("frame {} is not final ({:#x})", i, b));
    }
    if !matches!(b & 15, 1 | 2 | 8 | 9 | 10) {
        return Err(format!("frame {}: op code {}", i, b & 15));
    }
    Ok(())
}

// ---- generators ---------------------------------------------------------------------------------

pub fn roomy(w: &World) -> bool {
    !(w.i().net.cap < 300 || w.i().net.byte_mode)
}

pub fn gen_text(w: &World, n: u32) -> Vec<u8> {
    let style = w.pick(S::Work, 3);
    let mut s = String::new();
    let mut i = 0u32;
    while (s.len() as u32) < n {
        let room = n - s.len() as u32;
        let c = match style {
            0 => 'a',
            1 => (b'a' + (i % 26) as u8) as char,
            _ => ['x', 'é', '☃', '𝄞', '\0', '\u{fffd}', '\u{feff}', '\n', ' ', '\r', '\u{a0}', '\u{10ffff}', '\u{ffff}'][w.pick(S::Work, 13) as usize],
        };
        s.push(if c.len_utf8() as u32 <= room { c } else { 'z' });
        i += 1;
    }
    s.into_bytes()
}
pub fn gen_len(w: &World, big: bool) -> u32 {
    match w.weighted(S::Work, &[10, 5, 1]) {
        0 => w.size(S::Work, 0, 30),
        1 => [125, 126, 127, 128, 200, 124][w.pick(S::Work, 6) as usize],
        _ if big && w.i().net.cap >= 8192 && !w.i().net.byte_mode && w.chance(S::Work, 1, 30) => (1 << 20) + w.pick(S::Work, 3) * 4096,
        _ if big && roomy(w) => [65535, 65536, 65534, 1000, 8192, 70000][w.pick(S::Work, 6) as usize],
        _ => 300,
    }
}
pub fn gen_bin(w: &World, n: u32) -> Vec<u8> {
    let seed = w.word(S::Work);
    match w.pick(S::Work, 3) {
        0 => (0..n).map(|i| i as u8).collect(),
        1 => (0..n).map(|i| crate::choice::mix(seed as u64 + i as u64) as u8).collect(),
        // looks like frames
        _ => (0..n).map(|i| [0x81, 0x85, 0x88, 0x80, 0x89][(i % 5) as usize]).collect(),
    }
}
pub fn gen_ctl(w: &World) -> Vec<u8> {
    let n = match w.weighted(S::Work, &[3, 5, 1]) {
        0 => 0,
        1 => 1 + w.size(S::Work, 0, 30),
        _ => 125 - w.pick(S::Work, 2),
    };
    gen_bin(w, n)
}
pub fn gen_msg(w: &World, weights: &[u32; 4], big: bool) -> Fr {
    let k = w.weighted(S::Work, weights);
    match k {
        0 => {
            let n = gen_len(w, big);
            Fr { op: 1, payload: gen_text(w, n) }
        }
        1 => {
            let n = gen_len(w, big);
            Fr { op: 2, payload: gen_bin(w, n) }
        }
        2 => Fr { op: 9, payload: gen_ctl(w) },
        _ => Fr { op: 10, payload: gen_ctl(w) },
    }
}
pub fn mask(w: &World) -> [u8; 4] {
    match w.pick(S::Work, 4) {
        0 => [1, 2, 3, 4],
        1 => [0; 4],
        2 => [0xff; 4],
        _ => w.word(S::Work).to_be_bytes(),
    }
}
/// Cuts messages into frames.  Returns the wire form, and the messages in the order in which a
/// reader completes them (control frames may travel between fragments).
pub fn gen_frames(w: &World, msgs: &[Fr], fragment: bool) -> (Vec<Vec<u8>>, Vec<Fr>) {
    let mut wire = vec![];
    let mut order = vec![];
    for m in msgs {
        let k = if fragment && m.op < 8 && w.chance(S::Work, 1, 2) {
            2 + crate::http::many(w, 0, 4, if w.chance(S::Work, 1, 4) { 300 } else { 60 }, 60) as usize
        } else {
            1
        };
        // long runs of fragments with nothing in between, too
        let ctl = if k > 8 && w.chance(S::Work, 1, 2) { 0 } else { 1 };
        let mut at = 0;
        for i in 0..k {
            let last = i == k - 1;
            let n = if last { m.payload.len() - at } else { w.pick(S::Work, (m.payload.len() - at) as u32 + 1) as usize };
            wire.push(encode(last, 0, if i == 0 { m.op } else { 0 }, Some(mask(w)), &m.payload[at..at + n]));
            at += n;
            if !last && w.chance(S::Work, ctl, 3) {
                let c = Fr {
                    op: 9 + w.pick(S::Work, 2) as u8,
                    payload: gen_ctl(w),
                };
                wire.push(encode(true, 0, c.op, Some(mask(w)), &c.payload));
                order.push(c);
            }
        }
        order.push(m.clone());
    }
    (wire, order)
}

// ---- the simulated browser ----------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Act {
    Send(Vec<u8>),
    /// keep reading for so many ms
    Pause(u32),
    /// do nothing at all for so many ms
    Sleep(u32),
    /// read until so many frames were received (at most 200 s)
    Need(usize),
    HalfClose,
    Close,
    Abort,
    ReadToEnd,
}

#[derive(Clone, Debug, Default)]
pub struct WRec {
    pub conn: Option<ConnId>,
    /// everything received
    pub got: Vec<u8>,
    /// where the response head ends in `got`
    pub head: Option<usize>,
    pub end: Option<ConnEnd>,
    pub end_at: u64,
    pub sent_all: bool,
    pub send_failed: bool,
    pub finished: bool,
    pub sent_at: u64,
    /// frames and bytes left over at the last look
    pub missed: bool,
}
impl WRec {
    pub fn frames(&self) -> Result<(Vec<Fr>, usize), String> {
        match self.head {
            Some(h) => parse_server(&self.got[h..]),
            None => Ok((vec![], 0)),
        }
    }
}

pub struct WPlan {
    pub delay_ms: u32,
    pub hello: Vec<(Vec<u8>, u32)>,
    pub acts: Vec<Act>,
    pub faulty: bool,
}

fn sync(w: &World, rec: &Shared<Vec<WRec>>, id: usize, p: &Peer) {
    let mut r = rec.borrow_mut();
    let r = &mut r[id];
    if p.got.len() > r.got.len() {
        r.got.extend_from_slice(&p.got[r.got.len()..]);
    }
    if r.head.is_none() {
        r.head = r.got.windows(4).position(|x| x == b"\r\n\r\n").map(|i| i + 4);
    }
    if r.end.is_none() && p.end.is_some() {
        r.end = p.end;
        r.end_at = w.now();
    }
}

pub fn browser(w: &World, id: usize, port: u16, plan: WPlan, rec: Shared<Vec<WRec>>) {
    let w2 = w.clone();
    let f = async move {
        let w = w2;
        if plan.delay_ms > 0 {
            w.sleep(plan.delay_ms as u64 * MS).await;
        }
        let mut p = Peer::open(&w, port, id).await;
        w.m().conns[p.conn].faulty = plan.faulty;
        rec.borrow_mut()[id].conn = Some(p.conn);
        for (b, pause) in &plan.hello {
            if !p.send(b).await {
                break;
            }
            if *pause > 0 {
                w.sleep(*pause as u64 * MS).await;
            }
        }
        loop {
            sync(&w, &rec, id, &p);
            if rec.borrow()[id].head.is_some() || !p.more().await {
                break;
            }
        }
        sync(&w, &rec, id, &p);
        if !p.got.starts_with(b"HTTP/1.1 101 ") {
            while p.more().await {
                sync(&w, &rec, id, &p);
            }
            sync(&w, &rec, id, &p);
            p.close();
            rec.borrow_mut()[id].finished = true;
            return;
        }
        let last_send = plan.acts.iter().rposition(|a| matches!(a, Act::Send(_)));
        for (i, a) in plan.acts.iter().enumerate() {
            match a {
                Act::Send(b) => {
                    if !p.send(b).await {
                        rec.borrow_mut()[id].send_failed = true;
                    }
                    sync(&w, &rec, id, &p);
                }
                Act::Pause(ms) => {
                    let t = w.now() + *ms as u64 * MS;
                    while p.more_until(t).await {
                        sync(&w, &rec, id, &p);
                    }
                    if w.now() < t {
                        w.sleep(t - w.now()).await;
                    }
                }
                Act::Sleep(ms) => w.sleep(*ms as u64 * MS).await,
                Act::Need(n) => {
                    let t = w.now() + 2000 * SEC;
                    loop {
                        sync(&w, &rec, id, &p);
                        let have = rec.borrow()[id].frames().map(|f| f.0.len()).unwrap_or(usize::MAX);
                        if have >= *n {
                            break;
                        }
                        if !p.more_until(t).await {
                            rec.borrow_mut()[id].missed = true;
                            break;
                        }
                    }
                }
                Act::HalfClose => p.half_close(),
                Act::Close => {
                    sync(&w, &rec, id, &p);
                    p.close();
                    rec.borrow_mut()[id].finished = true;
                    return;
                }
                Act::Abort => {
                    sync(&w, &rec, id, &p);
                    p.abort();
                    rec.borrow_mut()[id].finished = true;
                    return;
                }
                Act::ReadToEnd => {
                    sync(&w, &rec, id, &p);
                    while p.more().await {
                        sync(&w, &rec, id, &p);
                    }
                }
            }
            sync(&w, &rec, id, &p);
            if Some(i) == last_send {
                let mut r = rec.borrow_mut();
                r[id].sent_all = !r[id].send_failed;
                r[id].sent_at = w.now();
            }
        }
        p.close();
        rec.borrow_mut()[id].finished = true;
    };
    w.spawn_client(&format!("browser{}", id), f);
}

pub fn wrecs(n: usize) -> Shared<Vec<WRec>> {
    shared(vec![WRec::default(); n])
}

pub fn gen_key(w: &World) -> String {
    let mut b = vec![];
    for _ in 0..4 {
        b.extend(w.word(S::Work).to_be_bytes());
    }
    base64(&b)
}

/// an ordinary, valid handshake
pub fn hello(w: &World, plan: usize) -> (Vec<u8>, String) {
    hello_at(w, "/ws", plan)
}
pub fn hello_at(w: &World, path: &str, plan: usize) -> (Vec<u8>, String) {
    let k = gen_key(w);
    let h = format!(
        "GET {} HTTP/1.1\r\nHost: localhost:8000\r\nX-Plan: {}\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {}\r\nSec-WebSocket-Version: 13\r\n\r\n",
        path, plan, k
    );
    (h.into_bytes(), k)
}
