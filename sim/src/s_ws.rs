//! WebSocket properties: C10-C15.

use crate::choice::S;
use crate::host::show;
use crate::http::*;
use crate::run::*;
use crate::s_http::*;
use crate::util::*;
use crate::world::*;
use crate::ws::*;
use std::collections::HashSet;

fn of<'a>(o: &'a [Ob], c: Option<ConnId>, kind: &str) -> Vec<&'a Ob> {
    o.iter().filter(|x| c.is_some() && x.conn == c && x.kind() == kind).collect()
}
fn opname(s: &str) -> u8 {
    match s {
        "text" => 1,
        "binary" => 2,
        "ping" => 9,
        "pong" => 10,
        _ => 0,
    }
}
/// what the application observed reading
fn app_msgs(o: &[Ob], c: Option<ConnId>) -> Vec<Fr> {
    of(o, c, "msg")
        .iter()
        .map(|x| Fr {
            op: opname(x.s(1)),
            payload: x.f.get(2).cloned().unwrap_or_default(),
        })
        .collect()
}
fn brief(v: &[Fr]) -> String {
    let s: Vec<_> = v.iter().take(12).map(|f| f.brief()).collect();
    format!("{} [{}{}]", v.len(), s.join(", "), if v.len() > 12 { ", ..." } else { "" })
}
fn first_diff(want: &[Fr], got: &[Fr]) -> String {
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    format!(
        "at #{}: expected {}, got {} (of {} expected, {} seen)",
        i,
        want.get(i).map(|f| f.brief()).unwrap_or("nothing".into()),
        got.get(i).map(|f| f.brief()).unwrap_or("nothing".into()),
        want.len(),
        got.len()
    )
}

// ---- the reference application --------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tail {
    /// the client sends nothing more and keeps the connection open
    Hang,
    /// a close frame
    Close,
    /// the connection ends
    Eof,
    /// something that violates the protocol
    Violation,
}

#[derive(Default, Debug, Clone)]
pub struct RefRun {
    pub msgs: Vec<Fr>,
    pub wire: Vec<Fr>,
    /// results of reads that were not messages
    pub ends: usize,
    pub blocked: bool,
    /// the application closed the connection itself
    pub app_closed: bool,
    pub sends: usize,
    /// the frames of copies of the socket in other processes
    pub copies: Vec<Vec<Fr>>,
    /// all incoming messages were read
    pub read_all: bool,
}
pub type Op = (u8, u32, Vec<u8>);

pub fn op_msg(k: u32, data: &[u8]) -> Fr {
    Fr {
        op: [1, 2, 9, 10, 9, 10][(k as usize).min(5)],
        payload: if k < 4 { data.to_vec() } else { vec![] },
    }
}

pub fn reference(ops: &[Op], incoming: &[Fr], tail: Tail) -> RefRun {
    let mut r = RefRun::default();
    let mut at = 0;
    let mut ended = false;
    let mut i = 0;
    // 0: message, 1: an end, 2: blocks for ever
    let mut read = |r: &mut RefRun| -> (u8, Option<Fr>) {
        if ended {
            r.ends += 1;
            return (1, None);
        }
        if at < incoming.len() {
            let m = incoming[at].clone();
            at += 1;
            if m.op == 9 {
                r.wire.push(Fr { op: 10, payload: m.payload.clone() });
            }
            r.msgs.push(m.clone());
            r.read_all = at == incoming.len();
            return (0, Some(m));
        }
        r.read_all = true;
        match tail {
            Tail::Hang => (2, None),
            _ => {
                if tail == Tail::Close {
                    r.wire.push(Fr { op: 8, payload: vec![] });
                }
                ended = true;
                r.ends += 1;
                (1, None)
            }
        }
    };
    'all: while i < ops.len() {
        let (op, arg, data) = &ops[i];
        i += 1;
        match op {
            0 => {
                for _ in 0..*arg {
                    if read(&mut r).0 == 2 {
                        r.blocked = true;
                        break 'all;
                    }
                }
            }
            1 => {
                r.sends += 1;
                r.wire.push(op_msg(*arg, data));
            }
            2 | 8 => {
                loop {
                    let (k, m) = read(&mut r);
                    if k == 2 {
                        r.blocked = true;
                        break 'all;
                    }
                    if k == 1 {
                        break;
                    }
                    let m = m.unwrap();
                    if *op == 2 && m.op < 8 {
                        r.sends += 1;
                        let mut p = data.clone();
                        p.extend(&m.payload);
                        r.wire.push(Fr { op: m.op, payload: p });
                    }
                }
                for _ in 0..*arg {
                    if read(&mut r).0 == 2 {
                        r.blocked = true;
                        break 'all;
                    }
                }
            }
            3 => {
                r.app_closed = true;
                break;
            }
            5 => {
                let n = (*arg as usize).min(ops.len() - i);
                r.copies.push(ops[i..i + n].iter().filter(|o| o.0 == 1).map(|o| op_msg(o.1, &o.2)).collect());
                i += n;
            }
            6 | 7 => break,
            _ => {}
        }
    }
    let _ = read;
    if r.app_closed && !ended {
        r.wire.push(Fr { op: 8, payload: vec![] });
    }
    r
}

// ---- one WebSocket conversation -------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Talk {
    ops: Vec<Op>,
    incoming: Vec<Fr>,
    tail: Tail,
    acts: Vec<Act>,
    what: String,
}

/// cut the bytes into writes, and put pauses between some of them
fn writes(w: &World, bytes: &[u8], acts: &mut Vec<Act>) {
    for (b, p) in pieces(w, bytes, true) {
        acts.push(Act::Send(b));
        if p > 0 {
            acts.push(if w.chance(S::Work, 1, 2) { Act::Pause(p) } else { Act::Sleep(p) });
        }
    }
}

fn boot_ws(w: &World, ctx: &Ctx, talks: &[Talk]) -> Shared<Vec<WRec>> {
    let plans: Vec<PlanC> = talks.iter().map(|t| PlanC { ops: t.ops.clone(), ..Default::default() }).collect();
    let mode = crate::s_http::mode(w);
    let routes = if matches!(mode, 1 | 2) { vec![always()] } else { vec![] };
    boot(w, ctx, "web", server_cfg(1, mode, "st", &routes, &plans));
    let rc = wrecs(talks.len());
    for (i, t) in talks.iter().enumerate() {
        let (h, _) = hello(w, i);
        let plan = WPlan {
            delay_ms: w.pick(S::Work, 3) * 10,
            hello: pieces(w, &h, false),
            acts: t.acts.clone(),
            faulty: w.chance(S::Work, 1, 2),
        };
        browser(w, i, PORT, plan, rc.clone());
    }
    rc
}

const MSGS: u32 = 1;
const WIRE: u32 = 2;
const PONGS: u32 = 4;
const CLOSE: u32 = 8;
const ENDS: u32 = 16;
const CRASH: u32 = 32;

fn proc_crashes(w: &World, c: ConnId) -> Option<String> {
    let m = w.i();
    m.procs
        .iter()
        .enumerate()
        .filter(|(_, p)| p.took.contains(&c))
        .find_map(|(i, p)| match &p.end {
            Some(End::Normal) | None => None,
            Some(e) => Some(format!("process {} ended with {:?}: {}", i, e, show(&p.stderr))),
        })
}

/// can `got` be produced by running the sequences concurrently?
fn interleaves(seqs: &[Vec<Fr>], got: &[Fr], whole: bool) -> bool {
    fn go(seqs: &[Vec<Fr>], at: &mut Vec<usize>, got: &[Fr], i: usize, whole: bool, seen: &mut HashSet<Vec<usize>>) -> bool {
        if i == got.len() {
            return !whole || at.iter().zip(seqs).all(|(a, s)| *a == s.len());
        }
        if !seen.insert(at.clone()) {
            return false;
        }
        for k in 0..seqs.len() {
            if at[k] < seqs[k].len() && seqs[k][at[k]] == got[i] {
                at[k] += 1;
                if go(seqs, at, got, i + 1, whole, seen) {
                    return true;
                }
                at[k] -= 1;
            }
        }
        false
    }
    go(seqs, &mut vec![0; seqs.len()], got, 0, whole, &mut HashSet::new())
}

/// Compares what happened with the reference; `look` selects the aspects the property is about.
fn judge(w: &World, rep: &mut Report, t: &Talk, r: &WRec, o: &[Ob], i: usize, look: u32) {
    let c = match r.conn {
        Some(c) => c,
        None => return,
    };
    let hurt = hurt(w, c);
    let mut want = reference(&t.ops, &t.incoming, t.tail);
    let desc = format!("connection {} ({})", i, t.what);
    let lost = t.acts.iter().any(|a| matches!(a, Act::Close | Act::Abort));
    if r.head.is_none() {
        if !hurt {
            rep.fail("no-upgrade", format!("{}: a valid handshake was not answered: {:?}", desc, show(&r.got)));
        }
        return;
    }
    // what the application saw
    let got = app_msgs(o, r.conn);
    let complete = !hurt && !lost && !r.send_failed;
    if look & MSGS != 0 {
        if complete {
            if got != want.msgs {
                rep.fail("messages-differ", format!("{}: the application's messages differ {}", desc, first_diff(&want.msgs, &got)));
            }
        } else if !want.msgs.starts_with(&got) {
            rep.fail("messages-differ", format!("{}: the application's messages are not a prefix of those sent, {}", desc, first_diff(&want.msgs, &got)));
        }
    }
    // what the client saw
    if look & (WIRE | PONGS | CLOSE) != 0 {
        let unread_reset = r.end == Some(ConnEnd::Reset) && w.i().conns[c].pipes[0].read < w.i().conns[c].pipes[0].written;
        let prefix = !complete || unread_reset;
        match r.frames() {
            Err(e) => rep.fail("bad-frame", format!("{}: {}", desc, e)),
            Ok((fr, rest)) => {
                // a client which left before everything could have been read still sees a prefix
                let all = |f: &Fr| {
                    (look & WIRE != 0) || (look & PONGS != 0 && f.op != 8) || (look & CLOSE != 0)
                };
                let g: Vec<Fr> = fr.iter().filter(|f| all(f)).cloned().collect();
                if want.copies.is_empty() {
                    let x: Vec<Fr> = want.wire.iter().filter(|f| all(f)).cloned().collect();
                    if prefix && !x.starts_with(&g) || !prefix && x != g {
                        rep.fail("frames-differ", format!("{}: frames on the wire differ {}", desc, first_diff(&x, &g)));
                    }
                } else {
                    let mut seqs = std::mem::take(&mut want.copies);
                    seqs.push(want.wire.clone());
                    if !interleaves(&seqs, &g, !prefix) {
                        rep.fail("frames-differ", format!("{}: the frames on the wire {} are no interleaving of {}", desc, brief(&g), seqs.iter().map(|s| brief(s)).collect::<Vec<_>>().join(" and ")));
                    }
                }
                if rest > 0 && !prefix {
                    rep.fail("torn-frame", format!("{}: {} bytes of an incomplete frame", desc, rest));
                }
            }
        }
        if !want.blocked && !lost && r.end.is_none() && complete {
            rep.fail("no-end", format!("{}: the application is done but the connection was not ended", desc));
        }
    }
    if look & ENDS != 0 {
        let ends: Vec<&str> = of(o, r.conn, "end").iter().map(|x| x.s(1)).collect();
        if !hurt && ends.len() != want.ends && !(lost && ends.len() > want.ends) {
            rep.fail("ends-differ", format!("{}: expected {} reads to report the end, {:?} did", desc, want.ends, ends));
        }
        for (k, e) in ends.iter().enumerate() {
            let ok = match (k, t.tail) {
                (0, Tail::Close) => *e == "closed" || (lost && *e == "error"),
                (0, _) => *e == "error" || *e == "closed",
                _ => *e == "closed",
            };
            if !ok {
                rep.fail("ends-differ", format!("{}: read #{} after the end reported {:?} (all: {:?})", desc, k, e, ends));
                break;
            }
        }
        // nothing is delivered after the end
        let mut seen = false;
        for x in o.iter().filter(|x| x.conn == r.conn) {
            if x.kind() == "end" {
                seen = true;
            }
            if x.kind() == "msg" && seen {
                rep.fail("message-after-end", format!("{}: a message was delivered after the end was reported", desc));
                break;
            }
        }
    }
    if look & CRASH != 0 && !hurt {
        if let Some(e) = proc_crashes(w, c) {
            rep.fail("crash", format!("{}: {}", desc, e));
        }
    }
    // the connection is given up once the application is done with it
    if !want.blocked && !w.i().conns[c].closed[1] {
        rep.fail("stream-leak", format!("{}: the server still holds the connection", desc));
    }
}

fn run_talks(w: &World, ctx: &Ctx, rep: &mut Report, talks: &[Talk], look: u32) -> Shared<Vec<WRec>> {
    let rc = boot_ws(w, ctx, talks);
    finish(w, rep);
    acceptor_ok(w, rep);
    let o = obs(w);
    {
        let r = rc.borrow();
        for (i, t) in talks.iter().enumerate() {
            let before = rep.viol.len();
            judge(w, rep, t, &r[i], &o, i, look);
            // The recorded defect: a frame which the network takes in parts while other processes
            // write to the same socket.  Nothing else is excused.
            let copies = t.ops.iter().any(|o| o.0 == 5);
            let partial = r[i].conn.map(|c| w.i().conns[c].short_writes > 0).unwrap_or(false);
            if copies && partial {
                let new: Vec<_> = rep.viol.drain(before..).collect();
                for v in new {
                    if ["bad-frame", "frames-differ", "torn-frame"].contains(&v.class.as_str()) {
                        rep.known.push((SHORT.into(), v.detail));
                    } else {
                        rep.viol.push(v);
                    }
                }
            }
        }
    }
    rep.case = talks.iter().map(|t| t.what.clone()).collect::<Vec<_>>().join("; ");
    rc
}

fn summary(ops: &[Op], inc: &[Fr], tail: Tail) -> String {
    format!("ops {:?}, client sends {}, then {:?}", ops.iter().map(|o| (o.0, o.1, o.2.len())).collect::<Vec<_>>(), brief(inc), tail)
}

/// how a conversation ends, seen from the client
fn gen_tail(w: &World, acts: &mut Vec<Act>, kinds: &[u32; 5]) -> Tail {
    match w.weighted(S::Work, kinds) {
        0 => {
            acts.push(Act::ReadToEnd);
            Tail::Hang
        }
        1 => {
            let p = gen_close_payload(w);
            writes(w, &encode(true, 0, 8, Some(mask(w)), &p), acts);
            acts.push(Act::ReadToEnd);
            Tail::Close
        }
        2 => {
            acts.push(Act::HalfClose);
            acts.push(Act::ReadToEnd);
            Tail::Eof
        }
        3 => {
            acts.push(Act::Close);
            Tail::Eof
        }
        _ => {
            acts.push(Act::Abort);
            Tail::Eof
        }
    }
}
fn gen_close_payload(w: &World) -> Vec<u8> {
    match w.pick(S::Work, 3) {
        0 => vec![],
        1 => vec![3, 0xe8],
        _ => {
            let mut v = vec![3, 0xe9];
            v.extend(b"going away".iter().cycle().take(w.size(S::Work, 0, 123) as usize));
            v
        }
    }
}

fn reads_only(w: &World, n: usize) -> Vec<Op> {
    let mut ops: Vec<Op> = vec![];
    let mut left = n as u32;
    for _ in 0..w.size(S::Work, 0, 2) {
        let k = w.pick(S::Work, left + 1);
        left -= k;
        ops.push((0, k, vec![]));
        if w.chance(S::Work, 1, 2) {
            ops.push((4, [1, 50, 2000][w.pick(S::Work, 3) as usize], vec![]));
        }
    }
    ops.push((8, w.pick(S::Work, 3), vec![]));
    if w.chance(S::Work, 1, 3) {
        ops.push((3, 0, vec![]));
    }
    hops(w, &mut ops, 0);
    ops
}

/// in between, the socket moves to another process or is replaced by a copy of itself
fn hops(w: &World, ops: &mut Vec<Op>, from: usize) {
    if w.chance(S::Work, 1, 4) {
        for _ in 0..1 + w.pick(S::Work, 2) {
            let at = from + w.pick(S::Work, (ops.len() - from) as u32 + 1) as usize;
            ops.insert(at, (9 + w.pick(S::Work, 2) as u8, 0, vec![]));
        }
    }
}

// ---- C10 ------------------------------------------------------------------------------------------

fn c10(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let n = many(w, 1, 4, 20, 60) as usize;
    let mut plans = vec![];
    let mut cl: Vec<(bool, String, Vec<u8>, String)> = vec![];
    for i in 0..n {
        let key = if w.chance(S::Work, 1, 8) { gen_value(w).replace(' ', "") + "k" } else { gen_key(w) };
        let mut valid = true;
        let mut why = String::from("valid");
        let mut hs: Vec<(String, String)> = vec![];
        let bad = if w.chance(S::Work, 2, 5) { 1 + w.pick(S::Work, 3) } else { 0 };
        // Upgrade
        {
            let mut name = recase(w, "Upgrade");
            let mut val = recase(w, "websocket");
            let mut put = true;
            if bad == 1 {
                valid = false;
                match w.pick(S::Work, 4) {
                    0 => put = false,
                    1 => val = ["h2c", "websockets", "web socket", "websocke", "", "TLS/1.0"][w.pick(S::Work, 6) as usize].into(),
                    2 => name = "X-Upgrade".into(),
                    _ => name = "Upgrades".into(),
                }
                why = format!("Upgrade: put={} {}={:?}", put, name, val);
            }
            if put {
                hs.push((name, val));
            }
        }
        {
            let mut name = recase(w, "Connection");
            let up = recase(w, "Upgrade");
            let mut val = match w.weighted(S::Work, &[4, 4, 4, 4, 4, 4, 1]) {
                0 => up,
                6 => {
                    // a longer list
                    let n = 2 + w.size(S::Work, 0, 40);
                    let at = w.pick(S::Work, n);
                    (0..n).map(|i| if i == at { up.clone() } else { format!("t{}", i) }).collect::<Vec<_>>().join(if w.chance(S::Work, 1, 2) { "," } else { ", " })
                }
                1 => format!("keep-alive, {}", up),
                2 => format!("{},keep-alive", up),
                3 => format!("x,{} , y", up),
                4 => format!("keep-alive ,{}", up),
                _ => format!("Keep-Alive, TE,{}", up),
            };
            let mut put = true;
            if bad == 2 {
                valid = false;
                match w.pick(S::Work, 3) {
                    0 => put = false,
                    1 => {
                        val = ["keep-alive", "upgraded", "no-upgrade", "close", "", "upgrade-insecure, keep-alive", "up grade", "keep-alive upgrade-x"]
                            [w.pick(S::Work, 8) as usize]
                            .into()
                    }
                    _ => name = ["X-Connection", "Connections", "Proxy-Connection"][w.pick(S::Work, 3) as usize].into(),
                }
                why = format!("Connection: put={} {}={:?}", put, name, val);
            }
            if put {
                hs.push((name, val));
            }
        }
        {
            let mut name = recase(w, "Sec-WebSocket-Key");
            let mut put = true;
            if bad == 3 {
                valid = false;
                match w.pick(S::Work, 2) {
                    0 => put = false,
                    _ => name = ["Sec-WebSocket-Keys", "Sec-WebSocket-Accept", "WebSocket-Key", "Sec-WebSocket-Key1"][w.pick(S::Work, 4) as usize].into(),
                }
                why = format!("Key: put={} {}", put, name);
            }
            if put {
                hs.push((name, key.clone()));
            }
        }
        hs.push((recase(w, "X-Plan"), i.to_string()));
        hs.push((recase(w, "Host"), "localhost".into()));
        // the version is not looked at
        match w.weighted(S::Work, &[8, 1, 1]) {
            0 => hs.push((recase(w, "Sec-WebSocket-Version"), "13".into())),
            1 => hs.push(("Sec-WebSocket-Version".into(), ["8", "0", "13, 8", "14"][w.pick(S::Work, 4) as usize].into())),
            _ => {}
        }
        let top = if w.chance(S::Work, 1, 8) { 14 } else { 5 };
        for k in 0..w.size(S::Work, 0, top) {
            hs.push((format!("{}{}", ["Origin", "Sec-WebSocket-Protocol", "Upgrade", "Connection"][w.pick(S::Work, 4) as usize], k + 2), gen_value(w)));
        }
        let k = w.pick(S::Work, hs.len() as u32) as usize;
        hs.rotate_left(k);
        let mut raw = b"GET /".to_vec();
        if w.chance(S::Work, 1, 2) {
            for _ in 0..many(w, 0, 3, 40, 20) {
                raw.extend(segment(w, 0, 8).bytes());
                raw.push(b"/?&="[w.pick(S::Work, 4) as usize]);
            }
        } else {
            raw.extend(b"chat");
        }
        raw.extend(b" HTTP/1.1\r\n");
        for (k, v) in &hs {
            raw.extend(format!("{}: {}\r\n", k, v).into_bytes());
        }
        raw.extend(b"\r\n");
        let mut p = PlanC::default();
        for _ in 0..w.pick(S::Work, 3) {
            p.ops.push((1, 0, gen_text(w, 3)));
        }
        p.ops.push((3, 0, vec![]));
        plans.push(p);
        cl.push((valid, why, raw, key));
    }
    let mode = crate::s_http::mode(w);
    let routes = if matches!(mode, 1 | 2) { vec![always()] } else { vec![] };
    boot(w, ctx, "web", server_cfg(1, mode, "st", &routes, &plans));
    let rc = recs(n);
    for (i, c) in cl.iter().enumerate() {
        let plan = CPlan {
            delay_ms: 0,
            pieces: pieces(w, &c.2, true),
            after: After::ReadToEnd,
            faulty: w.chance(S::Work, 1, 2),
        };
        client(w, i, PORT, plan, rc.clone());
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    let o = obs(w);
    let rc = rc.borrow();
    for (i, (valid, why, raw, key)) in cl.iter().enumerate() {
        let r = &rc[i];
        rep.nontrivial = true;
        let ups = of(&o, r.conn, "upgraded").len();
        let d = format!("{}; handshake {:?}", why, show(raw));
        if r.end.is_none() {
            rep.fail("no-end", format!("the connection was not ended: {}", d));
        }
        if !valid {
            if ups != 0 {
                rep.fail("upgraded-invalid", d.clone());
            }
            if let Some(e) = Want::err400().differs(&r.got, false) {
                // any complete 400 response will do
                let ok = parse_resp(&r.got).map(|x| x.status == 400 && !x.body.is_empty() && !x.body.windows(5).any(|y| y == b"HTTP/")).unwrap_or(false);
                if !ok {
                    rep.fail("bad-refusal", format!("{}: {}", e, d));
                }
            }
            continue;
        }
        if ups != 1 {
            rep.fail("not-upgraded", format!("{} upgrades, client received {:?}: {}", ups, show(&r.got), d));
            continue;
        }
        let h = match r.got.windows(4).position(|x| x == b"\r\n\r\n") {
            Some(h) => h + 4,
            None => {
                rep.fail("bad-response", format!("no complete response: {:?}: {}", show(&r.got), d));
                continue;
            }
        };
        match parse_resp(&r.got[..h]) {
            Err(e) => rep.fail("bad-response", format!("{}: {:?}", e, show(&r.got))),
            Ok(x) => {
                let get = |n: &str| -> Vec<String> {
                    x.headers
                        .iter()
                        .filter(|(k, _)| String::from_utf8_lossy(k).eq_ignore_ascii_case(n))
                        .map(|(_, v)| String::from_utf8_lossy(v).to_string())
                        .collect()
                };
                let up = get("upgrade");
                let con = get("connection");
                if x.status != 101
                    || up.len() != 1
                    || !up[0].eq_ignore_ascii_case("websocket")
                    || con.len() != 1
                    || !con[0].split(',').any(|t| t.trim().eq_ignore_ascii_case("upgrade"))
                {
                    rep.fail("bad-response", format!("not a switching response: {:?}", show(&r.got[..h])));
                }
                if get("sec-websocket-accept") != vec![accept_for(key)] {
                    rep.fail("bad-accept", format!("key {:?}: expected accept {:?}, got {:?}", key, accept_for(key), get("sec-websocket-accept")));
                }
            }
        }
        let want = reference(&plans[i].ops, &[], Tail::Hang);
        match parse_server(&r.got[h..]) {
            Ok((f, 0)) if f == want.wire => {}
            x => rep.fail("frames-differ", format!("after the response: expected {}, got {:?}", brief(&want.wire), x.map(|(f, n)| (brief(&f), n)))),
        }
    }
    rep.case = format!("mode {}: {}", mode, cl.iter().map(|c| c.1.clone()).collect::<Vec<_>>().join("; "));
    rep
}

// ---- C11 ------------------------------------------------------------------------------------------

fn c11(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let n = w.size(S::Work, 1, 3) as usize;
    let mut talks = vec![];
    for _ in 0..n {
        let k = many(w, 0, 12, 80, 60);
        let weights = [[4, 3, 1, 1], [1, 0, 0, 0], [1, 1, 1, 1]][w.pick(S::Work, 3) as usize];
        let msgs: Vec<Fr> = (0..k).map(|_| gen_msg(w, &weights, true)).collect();
        let (wire, order) = gen_frames(w, &msgs, true);
        let mut acts = vec![];
        if w.chance(S::Work, 1, 2) {
            writes(w, &wire.concat(), &mut acts);
        } else {
            for f in &wire {
                writes(w, f, &mut acts);
            }
        }
        let tail = gen_tail(w, &mut acts, &[4, 3, 3, 1, 1]);
        let mut ops = reads_only(w, order.len());
        if w.chance(S::Work, 1, 5) {
            ops.insert(0, (2, 0, b"e".to_vec()));
        }
        rep.nontrivial |= !order.is_empty();
        let what = summary(&ops, &order, tail);
        talks.push(Talk { ops, incoming: order, tail, acts, what });
    }
    run_talks(w, ctx, &mut rep, &talks, MSGS);
    rep
}

// ---- C12 ------------------------------------------------------------------------------------------

fn tagged(w: &World, tag: &str) -> Op {
    let k = w.pick(S::Work, 4);
    let mut d = tag.as_bytes().to_vec();
    if k == 0 {
        let n = gen_len(w, true).saturating_sub(d.len() as u32);
        d.extend(gen_text(w, n));
    } else if k == 1 {
        let n = gen_len(w, true).saturating_sub(d.len() as u32);
        d.extend(gen_bin(w, n));
    } else {
        let n = gen_ctl(w);
        d.extend(&n[..n.len().min(120 - d.len())]);
    }
    (1, k, d)
}

pub const SHORT: &str = "copies-short-writes";

fn c12(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    // 0: one process; 1: copies in other processes, writes are taken whole; 2: both copies and short writes
    let kind = w.weighted(S::Work, &[4, 4, 1]);
    if kind == 1 {
        let mut m = w.m();
        m.net.short_write = 0;
        m.net.cap = 1 << 22;
    }
    let n = w.size(S::Work, 1, 2) as usize;
    let mut talks = vec![];
    for _ in 0..n {
        let mut ops: Vec<Op> = vec![];
        let sleep = |w: &World, ops: &mut Vec<Op>| {
            if w.chance(S::Work, 1, 4) {
                ops.push((4, [1, 10, 300][w.pick(S::Work, 3) as usize], vec![]));
            }
        };
        let mut frames = 0;
        if kind > 0 {
            for c in 0..1 + many(w, 0, 1, 4, 20) {
                let k = 1 + many(w, 0, 5, 40, 40);
                let mut own = vec![];
                for j in 0..k {
                    own.push(tagged(w, &format!("c{}.{}.", c, j)));
                    frames += 1;
                    sleep(w, &mut own);
                }
                ops.push((5, own.len() as u32, vec![]));
                ops.extend(own);
            }
        }
        let own = ops.len();
        for j in 0..many(w, (kind == 0) as u32, 8, 80, 40) {
            ops.push(tagged(w, &format!("m{}.", j)));
            sleep(w, &mut ops);
        }
        // and then react to the client
        let k = many(w, 0, 6, 60, 40);
        let mut msgs = vec![];
        for j in 0..k {
            let mut m = gen_msg(w, &[2, 1, 3, 0], false);
            m.payload.truncate(100);
            if m.op == 1 {
                m.payload = gen_text(w, m.payload.len() as u32);
            }
            let mut p = format!("i{}.", j).into_bytes();
            p.extend(&m.payload);
            m.payload = p;
            msgs.push(m);
        }
        let (wire, order) = gen_frames(w, &msgs, kind == 0);
        let mut acts = vec![];
        writes(w, &wire.concat(), &mut acts);
        let reacts = w.chance(S::Work, 2, 3);
        if reacts {
            if w.chance(S::Work, 1, 3) {
                ops.push((8, 0, vec![]));
            } else {
                ops.push((2, 0, b"echo:".to_vec()));
            }
            frames += reference(&ops, &order, Tail::Hang).wire.len();
            if w.chance(S::Work, 1, 4) {
                acts.insert(0, Act::Sleep(3000));
            }
            acts.push(Act::Need(frames));
        }
        if reacts || w.chance(S::Work, 1, 2) {
            ops.push((3, 0, vec![]));
        }
        let tail = if reacts {
            acts.push(Act::Send(encode(true, 0, 8, Some(mask(w)), &[])));
            acts.push(Act::ReadToEnd);
            Tail::Close
        } else {
            // the application does not read: only its own frames count
            acts.clear();
            if w.chance(S::Work, 1, 4) {
                acts.push(Act::Sleep(3000));
            }
            if kind > 0 {
                // copies may still be writing when the handler closes
                ops.retain(|o| o.0 != 3);
            }
            acts.push(Act::ReadToEnd);
            Tail::Hang
        };
        let incoming = if reacts { order } else { vec![] };
        hops(w, &mut ops, own);
        rep.nontrivial = true;
        let what = format!("kind {}: {}", kind, summary(&ops, &incoming, tail));
        talks.push(Talk { ops, incoming, tail, acts, what });
    }
    run_talks(w, ctx, &mut rep, &talks, WIRE);
    rep
}

// ---- C13 ------------------------------------------------------------------------------------------

fn c13(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let n = w.size(S::Work, 1, 2) as usize;
    let mut talks = vec![];
    for _ in 0..n {
        let k = many(w, 1, 12, 100, 60);
        let weights = [[1, 1, 4, 1], [0, 0, 1, 0], [2, 0, 2, 1]][w.pick(S::Work, 3) as usize];
        let mut msgs: Vec<Fr> = (0..k).map(|_| gen_msg(w, &weights, false)).collect();
        if w.chance(S::Work, 1, 3) {
            // the same ping several times
            for m in msgs.iter_mut().filter(|m| m.op == 9) {
                m.payload = b"same".to_vec();
            }
        }
        let (wire, order) = gen_frames(w, &msgs, true);
        let mut acts = vec![];
        if w.chance(S::Work, 1, 2) {
            writes(w, &wire.concat(), &mut acts);
        } else {
            for f in &wire {
                writes(w, f, &mut acts);
            }
        }
        let tail = gen_tail(w, &mut acts, &[5, 3, 3, 0, 0]);
        let mut ops: Vec<Op> = vec![];
        match w.pick(S::Work, 3) {
            0 => ops.push((2, w.pick(S::Work, 2), b"r".to_vec())),
            1 => ops = reads_only(w, order.len()),
            _ => {
                // reads and sends in turns
                let mut left = order.len() as u32;
                while left > 0 {
                    let c = 1 + w.pick(S::Work, left.min(4));
                    ops.push((0, c, vec![]));
                    left -= c;
                    if w.chance(S::Work, 1, 2) {
                        ops.push((1, [0, 1, 3][w.pick(S::Work, 3) as usize], gen_ctl_text(w)));
                    }
                    if w.chance(S::Work, 1, 4) {
                        ops.push((4, 500, vec![]));
                    }
                }
                ops.push((8, 0, vec![]));
            }
        }
        hops(w, &mut ops, 0);
        rep.nontrivial |= order.iter().any(|m| m.op == 9);
        let what = summary(&ops, &order, tail);
        talks.push(Talk { ops, incoming: order, tail, acts, what });
    }
    run_talks(w, ctx, &mut rep, &talks, PONGS);
    rep
}
fn gen_ctl_text(w: &World) -> Vec<u8> {
    let n = w.size(S::Work, 0, 40);
    gen_text(w, n)
}

// ---- C14 ------------------------------------------------------------------------------------------

fn c14(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let n = w.size(S::Work, 1, 2) as usize;
    let mut talks = vec![];
    for _ in 0..n {
        let k = many(w, 0, 6, 40, 60);
        let msgs: Vec<Fr> = (0..k).map(|_| gen_msg(w, &[2, 1, 2, 1], false)).collect();
        let (wire, order) = gen_frames(w, &msgs, true);
        let mut acts = vec![];
        let mut ops: Vec<Op> = vec![];
        let tail;
        let who = w.pick(S::Work, 3);
        let mut all = wire.concat();
        if who == 0 {
            // the client closes; it may go on sending
            let p = gen_close_payload(w);
            // possibly inside a fragmented message
            if w.chance(S::Work, 1, 5) {
                all.extend(encode(false, 0, 1, Some(mask(w)), b"never finished"));
            }
            all.extend(encode(true, 0, 8, Some(mask(w)), &p));
            let more = many(w, 0, 3, 40, 40);
            for _ in 0..more {
                match w.pick(S::Work, 4) {
                    0 => all.extend(encode(true, 0, 8, Some(mask(w)), &p)),
                    1 => all.extend(encode(true, 0, 9, Some(mask(w)), b"late")),
                    2 => all.extend(encode(true, 0, 1, Some(mask(w)), b"late")),
                    _ => all.extend([0xff, 0xff, 0xff]),
                }
            }
            writes(w, &all, &mut acts);
            tail = Tail::Close;
            match w.pick(S::Work, 3) {
                0 => ops.push((2, many(w, 0, 3, 60, 20), b"e".to_vec())),
                _ => ops.push((8, many(w, 0, 3, 60, 20), vec![])),
            }
            if w.chance(S::Work, 1, 4) {
                ops.insert(0, (4, 2000, vec![]));
            }
            if w.chance(S::Work, 1, 2) {
                ops.push((3, 0, vec![]));
            } else if w.chance(S::Work, 1, 3) {
                ops.push((4, 5000, vec![]));
            }
            acts.push(Act::ReadToEnd);
        } else {
            // the application closes after some reads and sends
            let r = w.pick(S::Work, order.len() as u32 + 1);
            ops.push((0, r, vec![]));
            for _ in 0..many(w, 0, 5, 60, 40) {
                ops.push((1, w.pick(S::Work, 4), gen_ctl_text(w)));
            }
            if w.chance(S::Work, 1, 3) {
                ops.push((4, 1000, vec![]));
            }
            let f = reference(&ops, &order, Tail::Hang).wire.len() + 1;
            ops.push((3, 0, vec![]));
            // the client has everything on its way before
            writes(w, &all, &mut acts);
            if who == 2 {
                // both at once
                acts.push(Act::Send(encode(true, 0, 8, Some(mask(w)), &[])));
                tail = Tail::Close;
            } else {
                tail = Tail::Hang;
                if w.chance(S::Work, 1, 2) {
                    acts.push(Act::Need(f));
                }
            }
            acts.push(Act::ReadToEnd);
        }
        hops(w, &mut ops, 0);
        rep.nontrivial = true;
        let what = format!("closed by {}: {}", ["client", "application", "both"][who as usize], summary(&ops, &order, tail));
        talks.push(Talk { ops, incoming: order, tail, acts, what });
    }
    run_talks(w, ctx, &mut rep, &talks, MSGS | CLOSE | ENDS | CRASH);
    rep
}

// ---- C15 ------------------------------------------------------------------------------------------

/// returns (what, bytes, whether the reader can know without further data)
fn violation(w: &World) -> (String, Vec<u8>, bool) {
    let m = Some(mask(w));
    match w.pick(S::Work, 10) {
        0 => {
            let n = 1 + gen_len(w, false).min(200);
            let d = gen_bin(w, n);
            let op = [1, 2, 9, 10, 8][w.pick(S::Work, 5) as usize];
            let d = if op >= 8 { d[..d.len().min(125)].to_vec() } else { d };
            ("unmasked".into(), encode(op >= 8 || w.chance(S::Work, 1, 2), 0, op, None, &d), true)
        }
        1 => {
            let op = [3, 4, 5, 6, 7, 11, 12, 13, 14, 15][w.pick(S::Work, 10) as usize];
            (format!("op code {}", op), encode(w.chance(S::Work, 1, 2), 0, op, m, &gen_ctl(w)), true)
        }
        2 => {
            let rsv = 1 + w.pick(S::Work, 7) as u8;
            let op = [1, 2, 9, 10, 8][w.pick(S::Work, 5) as usize];
            (format!("reserved bits {} op {}", rsv, op), encode(op >= 8 || w.chance(S::Work, 2, 3), rsv, op, m, &gen_ctl_text(w)), true)
        }
        3 => {
            let op = [9, 10, 8][w.pick(S::Work, 3) as usize];
            ("fragmented control frame".into(), encode(false, 0, op, m, &gen_ctl(w)), true)
        }
        4 => {
            let op = [9, 10, 8][w.pick(S::Work, 3) as usize];
            let n = [126, 127, 200, 1000][w.pick(S::Work, 4) as usize];
            ("long control frame".into(), encode(true, 0, op, m, &gen_bin(w, n)), true)
        }
        5 => ("stray continuation".into(), encode(w.chance(S::Work, 1, 2), 0, 0, m, &gen_ctl(w)), true),
        6 => {
            let mut v = encode(false, 0, 1, m, b"first");
            v.extend(encode(w.chance(S::Work, 1, 2), 0, 1 + w.pick(S::Work, 2) as u8, Some(mask(w)), b"second"));
            ("new message inside a fragmented one".into(), v, true)
        }
        7 => {
            let bad: &[&[u8]] = &[b"\xff", b"ok\xc3", b"\xc3\x28", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"ok\xe2\x98"];
            let b = bad[w.pick(S::Work, bad.len() as u32) as usize];
            // possibly behind, and before, valid text
            let (n, m2) = (gen_len(w, false).saturating_sub(2), w.size(S::Work, 0, 9));
            let mut t = if w.chance(S::Work, 1, 2) { gen_text(w, n) } else { vec![] };
            t.extend(b);
            if w.chance(S::Work, 1, 3) {
                t.extend(gen_text(w, m2));
            }
            let b = &t[..];
            if w.chance(S::Work, 1, 2) {
                ("invalid utf-8".into(), encode(true, 0, 1, m, b), true)
            } else {
                let k = w.pick(S::Work, b.len() as u32 + 1) as usize;
                let mut v = encode(false, 0, 1, m, &b[..k]);
                v.extend(encode(true, 0, 0, Some(mask(w)), &b[k..]));
                ("invalid utf-8 in fragments".into(), v, true)
            }
        }
        _ => {
            let (n, now): (u64, bool) = [
                (u64::MAX, true),
                (1 << 63, true),
                ((1 << 63) + 5, true),
                ((1 << 63) - 1, false),
                (1 << 62, false),
                ((1 << 32) + 3, false),
                (1 << 32, false),
                ((1 << 31) - 1, false),
                (1 << 40, false),
                (300 << 20, false),
            ][w.pick(S::Work, 10) as usize];
            let op = 1 + w.pick(S::Work, 2) as u8;
            let mut v = vec![0x80 | op, 0xff];
            v.extend(n.to_be_bytes());
            v.extend([1, 2, 3, 4]);
            (format!("length {}", n), v, now)
        }
    }
}

fn c15(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let n = w.size(S::Work, 1, 3) as usize;
    let mut talks = vec![];
    for _ in 0..n {
        let k = many(w, 0, 6, 40, 60);
        let msgs: Vec<Fr> = (0..k).map(|_| gen_msg(w, &[2, 1, 1, 1], false)).collect();
        let (wire, order) = gen_frames(w, &msgs, true);
        let mut all = wire.concat();
        let mut acts = vec![];
        let tail;
        let mut what;
        let mut incoming = order;
        match w.weighted(S::Work, &[5, 3, 1]) {
            0 => {
                let (d, b, now) = violation(w);
                what = d;
                if what != "stray continuation" && w.chance(S::Work, 1, 3) {
                    // inside a fragmented message
                    let n = w.size(S::Work, 0, 20);
                    all.extend(encode(false, 0, 1, Some(mask(w)), &gen_text(w, n)));
                    what.push_str(", after a first fragment");
                    if w.chance(S::Work, 1, 4) {
                        what.push_str(", which is continued unmasked");
                        all.extend(encode(w.chance(S::Work, 1, 2), 0, 0, None, b"more"));
                    }
                }
                all.extend(b);
                // valid messages behind it
                for _ in 0..w.pick(S::Work, 3) {
                    let m = gen_msg(w, &[2, 1, 2, 1], false);
                    all.extend(encode(true, 0, m.op, Some(mask(w)), &m.payload));
                }
                writes(w, &all, &mut acts);
                if now && w.chance(S::Work, 1, 2) {
                    acts.push(Act::ReadToEnd);
                } else {
                    match w.pick(S::Work, 3) {
                        0 => {
                            acts.push(Act::HalfClose);
                            acts.push(Act::ReadToEnd);
                        }
                        1 => acts.push(Act::Close),
                        _ => acts.push(Act::Abort),
                    }
                }
                tail = Tail::Violation;
            }
            1 => {
                // cut anywhere
                let cut = w.pick(S::Work, all.len() as u32 + 1) as usize;
                what = format!("cut after {} of {} bytes", cut, all.len());
                // the messages whose last frame is complete
                let mut done = 0;
                let mut keep = vec![];
                let mut ends = vec![];
                for f in &wire {
                    done += f.len();
                    ends.push((done, f[0] & 0x80 != 0));
                }
                let mut it = incoming.iter();
                for (e, fin) in ends {
                    if fin {
                        let m = it.next().unwrap();
                        if e <= cut {
                            keep.push(m.clone());
                        }
                    }
                }
                incoming = keep;
                all.truncate(cut);
                writes(w, &all, &mut acts);
                match w.pick(S::Work, 3) {
                    0 => {
                        acts.push(Act::HalfClose);
                        acts.push(Act::ReadToEnd);
                    }
                    1 => acts.push(Act::Close),
                    _ => acts.push(Act::Abort),
                }
                tail = Tail::Eof;
            }
            _ => {
                what = "a good client".into();
                writes(w, &all, &mut acts);
                acts.push(Act::Send(encode(true, 0, 8, Some(mask(w)), &[])));
                acts.push(Act::ReadToEnd);
                tail = Tail::Close;
            }
        }
        let mut ops: Vec<Op> = vec![];
        match w.pick(S::Work, 4) {
            0 => ops.push((0, incoming.len() as u32 + 3, vec![])),
            1 => ops.push((2, many(w, 0, 4, 60, 20), b"e".to_vec())),
            2 => {
                ops.push((0, w.pick(S::Work, incoming.len() as u32 + 2), vec![]));
                ops.push((8, w.pick(S::Work, 5), vec![]));
            }
            _ => ops.push((8, many(w, 0, 4, 60, 20), vec![])),
        }
        if w.chance(S::Work, 1, 3) {
            ops.push((3, 0, vec![]));
        }
        hops(w, &mut ops, 0);
        rep.nontrivial |= tail != Tail::Close;
        what = format!("{}: {}", what, summary(&ops, &incoming, tail));
        talks.push(Talk { ops, incoming, tail, acts, what });
    }
    run_talks(w, ctx, &mut rep, &talks, MSGS | ENDS | CRASH);
    rep
}

pub fn props() -> Vec<Prop> {
    let p = |id, run, quick_runs, rule| Prop {
        id,
        guests: &["web"],
        run,
        rule,
        real: REAL,
        stub: STUB,
        quick_runs,
    };
    vec![
        p("C10", c10, 180000, "1-4 handshakes, valid in many spellings or invalid in one respect; distinct by workload and interleaving"),
        p("C11", c11, 180000, "1-3 connections sending generated messages cut into frames, writes and segments; a run counts if a message was sent; distinct by workload and interleaving"),
        p("C12", c12, 180000, "1-2 applications sending generated messages from one or several processes while answering pings; distinct by workload and interleaving"),
        p("C13", c13, 180000, "1-2 conversations with pings; a run counts if a ping was sent; distinct by workload and interleaving"),
        p("C14", c14, 180000, "1-2 conversations closed by the client, the application or both; distinct by workload and interleaving"),
        p("C15", c15, 180000, "1-3 conversations that are cut off or violate the protocol; a run counts if one is; distinct by workload and interleaving"),
    ]
}
