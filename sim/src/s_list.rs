//! examples/list (C25): the history of submissions and listings is linearizable against one
//! append-only list.

use crate::choice::S;
use crate::host::show;
use crate::http::*;
use crate::run::*;
use crate::s_http::*;
use crate::world::*;
use std::collections::HashSet;

const PORT: u16 = 8080;

#[derive(Clone, Debug, PartialEq)]
enum What {
    Submit(String),
    /// the connection ends before the whole submission was sent
    Cut(String),
    Read(u64),
    /// must not change anything
    Other,
}

#[derive(Clone, Debug)]
struct Op {
    what: What,
    raw: Vec<u8>,
    pieces: Vec<(Vec<u8>, u32)>,
    after: After,
    delay: u32,
}

#[derive(Clone, Debug, Default)]
struct Rec {
    conn: Option<ConnId>,
    start: u64,
    end: Option<u64>,
    got: Vec<u8>,
    how: Option<ConnEnd>,
    /// milliseconds from the last byte sent to the end
    took: u64,
    sent: bool,
}

fn text(w: &World, alphabet: bool) -> String {
    if alphabet {
        return ["", "a", "b", "a b"][w.pick(S::Work, 4) as usize].to_string();
    }
    let mut s = String::new();
    for _ in 0..w.size(S::Work, 0, 30) {
        match w.weighted(S::Work, &[20, 3, 1, 1, 1]) {
            0 => s.push((b'a' + w.pick(S::Work, 26) as u8) as char),
            1 => s.push(b" +%=-_.,;:!?0123456789"[w.pick(S::Work, 22) as usize] as char),
            2 => s.push(['é', '☃', '𝄞', 'ß'][w.pick(S::Work, 4) as usize]),
            3 => s.push_str("message="),
            _ => s.push_str("%41+%20"),
        }
    }
    if w.chance(S::Work, 1, 30) && w.i().net.cap >= 300 {
        s = s.repeat(40);
    }
    if w.chance(S::Work, 1, 100) && w.i().net.cap >= 4096 && !w.i().net.byte_mode {
        s = s.repeat([200, 70000][w.pick(S::Work, 2) as usize] / (s.len() + 1) + 1);
    }
    s
}

fn post(w: &World, body: &[u8]) -> Vec<u8> {
    let mut r = format!("POST {} HTTP/1.1\r\n{}: localhost:8080\r\n{}: {}\r\n", "/submit", recase(w, "Host"), recase(w, "Content-Length"), body.len());
    for i in 0..w.size(S::Work, 0, 3) {
        r.push_str(&format!("X-{}: {}\r\n", i, gen_value(w)));
    }
    r.push_str("\r\n");
    let mut r = r.into_bytes();
    r.extend(body);
    r
}

fn gen_op(w: &World, alphabet: bool, count: u32, faults: bool) -> Op {
    let mut after = After::ReadToEnd;
    let get = |t: &str| format!("GET {} HTTP/1.1\r\nHost: localhost:8080\r\n\r\n", t).into_bytes();
    let (what, raw) = match w.weighted(S::Work, &[6, 5, if faults { 3 } else { 0 }, 2]) {
        0 => {
            let t = text(w, alphabet);
            let mut raw = post(w, format!("message={}", t).as_bytes());
            if w.chance(S::Work, 1, 5) {
                raw.extend(b"message=not me\r\n");
            }
            if faults {
                after = match w.weighted(S::Work, &[8, 1, 1, 1, 1]) {
                    0 => After::ReadToEnd,
                    1 => After::CloseNow,
                    2 => After::Abort,
                    3 => After::ReadThen(w.size(S::Work, 0, 60) as usize, w.chance(S::Work, 1, 2)),
                    _ => After::LateRead(4000),
                };
            }
            (What::Submit(t), raw)
        }
        1 => {
            let n = match w.weighted(S::Work, &[4, 2, 1]) {
                0 => w.pick(S::Work, count + 2) as u64,
                1 => [100, 1000, 2_147_483_647][w.pick(S::Work, 3) as usize],
                _ => 1,
            };
            if faults && w.chance(S::Work, 1, 5) {
                after = [After::CloseNow, After::Abort, After::LateRead(4000)][w.pick(S::Work, 3) as usize].clone();
            }
            (What::Read(n), get(&format!("/read/{}", n)))
        }
        2 => {
            let t = text(w, alphabet);
            let mut raw = post(w, format!("message={}", t).as_bytes());
            let k = w.pick(S::Work, raw.len() as u32) as usize;
            let k = if w.chance(S::Work, 1, 2) { raw.len().saturating_sub(1 + w.pick(S::Work, 1 + t.len() as u32) as usize) } else { k };
            raw.truncate(k);
            after = [After::CloseNow, After::Abort, After::HalfCloseRead][w.pick(S::Work, 3) as usize].clone();
            (What::Cut(t), raw)
        }
        _ => {
            let raw = match w.pick(S::Work, 13) {
                0 => get("/submit"),
                1 => get("/read/-5"),
                2 => get("/read/x"),
                3 => get("/read/99999999999999999999"),
                4 => get("/read"),
                5 => get("/"),
                6 => post(w, b"mess=x"),
                7 => post(w, b"message=\xff\xfe"),
                8 => post(w, b""),
                9 => b"nonsense\r\n\r\n".to_vec(),
                10 => b"POST /submit HTTP/1.1\r\nContent-Length: 9\r\n\r\nmessage=x".to_vec(),
                11 => b"PUT /submit HTTP/1.1\r\nHost: a\r\nContent-Length: 9\r\n\r\nmessage=x".to_vec(),
                _ => post(w, b"Message=x"),
            };
            after = [After::ReadToEnd, After::HalfCloseRead, After::CloseNow, After::Abort][w.pick(S::Work, 4) as usize].clone();
            (What::Other, raw)
        }
    };
    Op {
        what,
        pieces: pieces(w, &raw, true),
        raw,
        after,
        delay: [0, 0, 1, 30][w.pick(S::Work, 4) as usize],
    }
}

async fn perform(w: &World, id: usize, op: &Op, rec: &Shared<Vec<Rec>>, at: usize) {
    if op.delay > 0 {
        w.sleep(op.delay as u64 * MS).await;
    }
    rec.borrow_mut()[at].start = w.i().step;
    let mut p = Peer::open(w, PORT, id).await;
    rec.borrow_mut()[at].conn = Some(p.conn);
    let mut sent = true;
    for (b, pause) in &op.pieces {
        if !p.send(b).await {
            sent = false;
            break;
        }
        if *pause > 0 {
            w.sleep(*pause as u64 * MS).await;
        }
    }
    let t0 = w.now();
    match op.after {
        After::ReadToEnd => p.read_to_end().await,
        After::HalfCloseRead => {
            p.half_close();
            p.read_to_end().await;
        }
        After::LateRead(ms) => {
            w.sleep(ms as u64 * MS).await;
            p.read_to_end().await;
        }
        After::ReadThen(n, rst) => {
            while p.got.len() < n && p.more().await {}
            if rst {
                p.abort();
            }
        }
        After::Abort => p.abort(),
        _ => {}
    }
    p.close();
    let mut r = rec.borrow_mut();
    let r = &mut r[at];
    r.end = Some(w.i().step);
    r.got = std::mem::take(&mut p.got);
    r.how = p.end;
    r.took = (w.now() - t0) / MS;
    r.sent = sent;
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")
}

/// the page of a complete 200 response
fn page(got: &[u8]) -> Option<String> {
    let r = parse_resp(got).ok()?;
    let b = String::from_utf8(r.body).ok()?;
    if r.status != 200 || !b.trim_end().ends_with("</html>") {
        return None;
    }
    Some(b)
}

fn listing(page: &str) -> Option<Vec<String>> {
    if !page.contains("Message list</H1>") {
        return None;
    }
    let mut v = vec![];
    let mut empty = false;
    for p in page.split("<p").skip(1) {
        let inner = p.split_once('>')?.1.split_once("</p>")?.0;
        if inner == "There are no messages yet." {
            empty = true;
        } else {
            v.push(unescape(inner.strip_prefix("Item: ")?));
        }
    }
    if empty != v.is_empty() {
        return None;
    }
    Some(v)
}

enum HOp {
    /// text, acknowledged, may be cut short
    Add(String, bool, bool),
    Read(u64, Vec<String>),
}

/// the failure recorded in known-findings.txt: the last n of at least n items are all items
const ALL: &str = "last-n-shows-all";

fn linearizable(h: &[(u64, Option<u64>, HOp)], all: &[String], lax: bool) -> bool {
    // every state is a prefix of the final list, so its length is the state
    fn go(h: &[(u64, Option<u64>, HOp)], all: &[String], done: u32, k: usize, lax: bool, seen: &mut HashSet<(u32, usize)>) -> bool {
        let must = |i: usize| !matches!(h[i].2, HOp::Add(_, false, _));
        if k == all.len() && (0..h.len()).all(|i| done & (1 << i) != 0 || !must(i)) {
            return true;
        }
        if !seen.insert((done, k)) {
            return false;
        }
        // nothing may be taken that began after a pending finished operation ended
        let bound = (0..h.len()).filter(|i| done & (1 << i) == 0 && must(*i)).filter_map(|i| h[i].1).min().unwrap_or(u64::MAX);
        for i in 0..h.len() {
            if done & (1 << i) != 0 || h[i].0 > bound {
                continue;
            }
            match &h[i].2 {
                HOp::Add(t, _, cut) => {
                    if k < all.len() && (all[k] == *t || *cut && t.starts_with(&all[k])) && go(h, all, done | 1 << i, k + 1, lax, seen) {
                        return true;
                    }
                }
                HOp::Read(n, r) => {
                    let from = k.saturating_sub((*n).min(1 << 40) as usize);
                    let known = lax && *n <= k as u64 && all[..k] == r[..];
                    if (known || all[from..k] == r[..]) && go(h, all, done | 1 << i, k, lax, seen) {
                        return true;
                    }
                }
            }
        }
        false
    }
    go(h, all, 0, 0, lax, &mut HashSet::new())
}

fn c25(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let faults = w.chance(S::Work, 2, 3);
    if faults {
        let mut m = w.m();
        m.fault.kill = [0, 0, 16, 100][m.ch.pick(S::Fault, 4) as usize];
        m.fault.max_kills = 3;
        m.fault.accept_fail = [0, 0, 16][m.ch.pick(S::Fault, 3) as usize];
        // the list lives in memory: the process that keeps it is not killed
        m.spare = vec![1];
    }
    let alphabet = w.chance(S::Work, 1, 3);
    let nc = many(w, 1, 5, 10, 40) as usize;
    let most = if !alphabet && crate::ws::roomy(w) && w.chance(S::Work, 1, 10) { 30 } else { 18 };
    let mut ops: Vec<Vec<Op>> = vec![];
    let mut total = 0;
    for _ in 0..nc {
        let k = w.size(S::Work, 1, if most > 18 { 20 } else { 6 }).min(most - total);
        ops.push((0..k).map(|_| gen_op(w, alphabet, total + k, faults)).collect());
        total += k;
    }
    w.m().config = vec![];
    crate::host::spawn(w, ctx.guest("list"), None, "_start".into(), vec![]);
    let rec = shared(vec![Rec::default(); total as usize + 1]);
    let mut at = 0;
    let left = shared(nc);
    for (i, os) in ops.iter().enumerate() {
        let (w2, os, rec, left, first) = (w.clone(), os.clone(), rec.clone(), left.clone(), at);
        at += os.len();
        w.spawn_client(&format!("client{}", i), async move {
            for (k, o) in os.iter().enumerate() {
                perform(&w2, i, o, &rec, first + k).await;
            }
            *left.borrow_mut() -= 1;
            w2.note();
        });
    }
    // at the end, a listing of everything
    {
        let (w2, rec, left) = (w.clone(), rec.clone(), left.clone());
        w.spawn_client("last", async move {
            while *left.borrow() > 0 {
                w2.wait(vec![Key::Note], None).await;
            }
            w2.sleep(600 * SEC).await;
            {
                let mut m = w2.m();
                m.fault.kill = 0;
                m.fault.accept_fail = 0;
            }
            let raw = b"GET /read/1000000 HTTP/1.1\r\nHost: x\r\n\r\n".to_vec();
            let op = Op { what: What::Read(1000000), pieces: vec![(raw.clone(), 0)], raw, after: After::ReadToEnd, delay: 0 };
            perform(&w2, 99, &op, &rec, total as usize).await;
        });
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    if let Some(e) = w.i().procs.get(1).and_then(|p| p.end.clone()) {
        rep.fail("list-lost", format!("the process that keeps the list ended: {:?}", e));
        return rep;
    }
    let rec = rec.borrow();
    let flat: Vec<&Op> = ops.iter().flatten().collect();
    let mut hist = vec![];
    let mut story = vec![];
    let last = &rec[total as usize];
    let all = match page(&last.got).as_deref().and_then(listing) {
        Some(l) => l,
        None => {
            rep.fail("no-listing", format!("the last listing failed: {:?} {}", last.how, show(&last.got)));
            return rep;
        }
    };
    for (i, o) in flat.iter().enumerate() {
        let r = &rec[i];
        let c = match r.conn {
            Some(c) => c,
            None => {
                rep.fail("not-connected", format!("operation {} never got a connection", i));
                continue;
            }
        };
        let hurt = hurt(w, c);
        let pg = page(&r.got);
        let patient = matches!(o.after, After::ReadToEnd | After::LateRead(_) | After::HalfCloseRead);
        let good = patient && matches!(o.what, What::Submit(_) | What::Read(_));
        if r.end.is_none() {
            rep.fail("not-answered", format!("operation {} {:?} never ended", i, o.what));
            continue;
        }
        if good && !hurt && pg.is_none() && r.how != Some(ConnEnd::Reset) {
            rep.fail("not-answered", format!("operation {} {:?} got {:?} {}", i, o.what, r.how, show(&r.got)));
        }
        match &o.what {
            What::Submit(t) => {
                let ok = pg.as_deref().map(|p| p.contains("Added that item</H1>"));
                if good && !hurt && ok == Some(false) {
                    rep.fail("not-acknowledged", format!("operation {} {:?} got {}", i, o.what, show(&r.got)));
                }
                let ok = ok == Some(true);
                story.push(format!("{}: add {:?} [{}..{}] {}", i, t, r.start, r.end.unwrap(), if ok { "acknowledged" } else { "not acknowledged" }));
                // without acknowledgement it may happen at any time, or never
                hist.push((r.start, if ok { r.end } else { None }, HOp::Add(t.clone(), ok, false)));
            }
            What::Cut(t) => {
                story.push(format!("{}: add {:?} cut short [{}..]", i, t, r.start));
                hist.push((r.start, None, HOp::Add(t.clone(), false, true)));
            }
            What::Read(n) => {
                if let Some(p) = &pg {
                    match listing(p) {
                        Some(l) => {
                            story.push(format!("{}: read {} [{}..{}] -> {:?}", i, n, r.start, r.end.unwrap(), l));
                            hist.push((r.start, r.end, HOp::Read(*n, l)));
                        }
                        None => rep.fail("not-a-listing", format!("operation {}: {}", i, show(p.as_bytes()))),
                    }
                }
            }
            What::Other => {}
        }
    }
    rep.nontrivial = hist.len() > 1;
    story.push(format!("at the end: {:?}", all));
    if !linearizable(&hist, &all, false) {
        if linearizable(&hist, &all, true) {
            rep.known.push((ALL.into(), story.join("; ")));
        } else {
            rep.fail("not-linearizable", story.join("; "));
        }
    }
    rep.case = story.join("; ");
    rep
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        guests: &["list"],
        run: c25,
        rule: "1-5 clients perform up to 18 submissions, listings, junk and aborted requests on examples/list, with kills of handlers and failing accepts; then one listing of everything; linearizability is decided exactly; a run counts with more than one judged operation",
        real: "examples/list, puck, malvolio, the lunatic guest crate and their dependencies, compiled to wasm from /repo and executed unchanged",
        stub: STUB,
        quick_runs: 90000,
    }]
}
