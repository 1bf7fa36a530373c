//! HTTP server properties: C01-C07, C09.

use crate::choice::S;
use crate::host::{show, spawn};
use crate::http::*;
use crate::run::*;
use crate::util::*;
use crate::world::*;

pub const PORT: u16 = 8000;

#[derive(Clone, Debug, Default)]
pub struct PlanC {
    pub read: u8,
    pub sizes: Vec<u32>,
    pub extra: u8,
    pub panic_at: u8,
    pub sleep_before: u32,
    pub sleep_after: u32,
    pub resp: u8,
    pub status: u32,
    pub reason: String,
    pub headers: Vec<(String, String)>,
    /// so many by .header(), the others by .headers()
    pub headers_from: u32,
    pub body_kind: u8,
    pub body: Vec<u8>,
    pub body_len: u32,
    pub ops: Vec<(u8, u32, Vec<u8>)>,
}
#[derive(Clone, Debug, Default)]
pub struct RouteC {
    pub kind: u8,
    pub segs: Vec<(u8, String)>,
    pub method: String,
    /// which of the handlers it leads to
    pub handler: u8,
}
pub fn always() -> RouteC {
    RouteC::default()
}

pub fn server_cfg(app: u8, mode: u8, state: &str, routes: &[RouteC], plans: &[PlanC]) -> Vec<u8> {
    let mut e = Enc::default();
    e.u8(app).u8(mode).str(state).u8(routes.len() as u8);
    for r in routes {
        e.u8(r.kind).u8(r.segs.len() as u8);
        for (k, s) in &r.segs {
            e.u8(*k).str(s);
        }
        e.str(&r.method).u8(r.handler);
    }
    e.u32(plans.len() as u32);
    for p in plans {
        e.u8(p.read).u8(p.sizes.len() as u8);
        for s in &p.sizes {
            e.u32(*s);
        }
        e.u8(p.extra).u8(p.panic_at).u32(p.sleep_before).u32(p.sleep_after).u8(p.resp).u32(p.status).str(&p.reason);
        e.u8(p.headers.len() as u8);
        for (k, v) in &p.headers {
            e.str(k).str(v);
        }
        e.u32(p.headers_from).u8(p.body_kind).bytes(&p.body).u32(p.body_len);
        e.u32(p.ops.len() as u32);
        for (o, a, d) in &p.ops {
            e.u8(*o).u32(*a).bytes(d);
        }
    }
    e.0
}

pub fn boot(w: &World, ctx: &Ctx, guest: &str, cfg: Vec<u8>) {
    w.m().config = cfg;
    spawn(w, ctx.guest(guest), None, "_start".into(), vec![]);
}

/// time the scheduler itself took away from tasks
pub fn stall_slack(w: &World) -> u64 {
    let m = w.i();
    let n = m.faults.get("task_stall").copied().unwrap_or(0);
    n * 2100 * MS + m.starved
}

/// time the simulated network may need for this many bytes
pub fn net_slack(w: &World, bytes: usize) -> u64 {
    let m = w.i();
    let hop = m.net.lat + m.net.lat * m.net.jitter as u64 / 8;
    (bytes / m.net.cap.max(1) + 20) as u64 * 4 * hop
}

/// the processes serving this connection were hit by a fault (possibly before they even took
/// the stream out of their first message)
pub fn hurt(w: &World, conn: ConnId) -> bool {
    let m = w.i();
    let hit = |p: &Proc| p.killed || p.oom;
    m.procs.iter().any(|p| hit(p) && (p.took.contains(&conn) || p.held.contains(&conn)))
        || (m.procs.iter().any(|p| hit(p) && p.took.is_empty()) && !m.procs.iter().any(|p| p.took.contains(&conn)))
}

/// the accepting process must be alive and waiting for connections
pub fn acceptor_ok(w: &World, r: &mut Report) {
    let m = w.i();
    if let Some(e) = &m.procs[0].end {
        let d = format!("the listening process ended: {:?}; stderr: {}", e, show(&m.procs[0].stderr));
        drop(m);
        r.fail("listener-died", d);
        return;
    }
    let waiting = m.procs[0].wait_keys.iter().any(|k| matches!(k, Key::Accept(_)));
    if !waiting && m.listeners.iter().any(|l| !l.backlog.is_empty()) {
        r.fail("listener-stuck", "the listening process does not accept waiting connections");
    }
}

pub fn finish(w: &World, r: &mut Report) -> Stop {
    let s = w.run();
    if s == Stop::Steps {
        let m = w.i();
        let busy = m.tasks.iter().max_by_key(|t| t.polls).map(|t| t.name.clone()).unwrap_or_default();
        r.fail("no-progress", format!("still busy after {} steps, most active task {}", m.step, busy));
    }
    s
}

pub fn recs(n: usize) -> Shared<Vec<CRec>> {
    shared(vec![CRec::default(); n])
}

pub fn written(w: &World, c: Option<ConnId>) -> u64 {
    c.map(|c| w.i().conns[c].pipes[0].written).unwrap_or(0)
}

pub fn of<'a>(o: &'a [Ob], c: Option<ConnId>, kind: &str) -> Vec<&'a Ob> {
    o.iter().filter(|x| c.is_some() && x.conn == c && x.kind() == kind).collect()
}

pub fn simple_plan() -> PlanC {
    PlanC {
        resp: 1,
        status: 200,
        reason: "OK".into(),
        body_kind: 1,
        body: b"hello".to_vec(),
        headers: vec![("Content-Length".into(), "5".into())],
        ..Default::default()
    }
}

pub fn read_plan(w: &World, p: &mut PlanC, body: &[u8]) {
    // 1 into_bytes, 2 into_string, 3 in pieces, 4 in pieces and then into_bytes, 5 in pieces and then
    // into_string, 6 copied, 7 in pieces after having been replaced by another one
    p.read = [1, 3, 3, 2, 4, 5, 6, 7][w.weighted(S::Work, &[3, 3, 3, 3, 1, 1, 1, 1])];
    if p.read == 2 && std::str::from_utf8(body).is_err() || p.read == 5 && !body.is_ascii() {
        p.read -= 1;
    }
    if body.len() > 50000 {
        p.sizes = vec![[4000, 10000, 10001, 65536, 300000][w.pick(S::Work, 5) as usize]];
        return;
    }
    p.sizes = (0..w.size(S::Work, 1, 4)).map(|_| [1, 2, 7, 64, 1000, 9999, 10000, 10001, 20000][w.pick(S::Work, 9) as usize]).collect();
    p.extra = w.pick(S::Work, 3) as u8;
}

/// 0 for_each, 1 serve_router, 2 Router::run, 3 the application's own loop
pub fn mode(w: &World) -> u8 {
    w.weighted(S::Work, &[3, 3, 3, 1]) as u8
}
fn mode_cfg(w: &World, plans: &[PlanC]) -> (u8, Vec<u8>) {
    let mode = mode(w);
    let routes = if matches!(mode, 1 | 2) { vec![always()] } else { vec![] };
    (mode, server_cfg(0, mode, "st", &routes, plans))
}

// ---- C01 ----------------------------------------------------------------------------------------

fn c01(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let n = many(w, 1, 4, 20, 60) as usize;
    let mut plans = vec![];
    let mut cl: Vec<(Req, Vec<u8>, usize)> = vec![];
    let mut same: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        let mut p = simple_plan();
        if w.chance(S::Work, 1, 4) && i > 0 {
            // the same bytes again
            let k = w.pick(S::Work, i as u32) as usize;
            let c = cl[k].clone();
            same.push((k, i));
            cl.push(c);
            plans.push(p);
            continue;
        }
        let rq = gen_req(
            w,
            &GenOpt {
                plan: Some(i),
                max_body: [300, 3000, 15000][w.weighted(S::Work, &[6, 2, 1])],
                ..Default::default()
            },
        );
        if rq.has_len && w.chance(S::Work, 3, 4) {
            read_plan(w, &mut p, &rq.body);
        }
        let mut raw = rq.raw();
        if w.chance(S::Work, 1, 3) {
            raw.extend(match w.pick(S::Work, 3) {
                0 => b"GET /next HTTP/1.1\r\nHost: other\r\nX-Plan: 0\r\n\r\n".to_vec(),
                1 => b"\r\n\r\n\r\n".to_vec(),
                _ => vec![0xff; 1 + w.size(S::Work, 0, 40) as usize],
            });
        }
        cl.push((rq, raw, i));
        plans.push(p);
    }
    // a request whose length is given twice, differently: same bytes, same outcome
    let mut twins: Vec<usize> = vec![];
    if w.chance(S::Work, 1, 6) {
        let (a, b) = (w.size(S::Work, 0, 9), w.size(S::Work, 0, 9));
        let mut p = simple_plan();
        read_plan(w, &mut p, b"0");
        plans.push(p);
        let raw = format!(
            "POST /t HTTP/1.1\r\nHost: h\r\nX-Plan: {}\r\nContent-Length: {}\r\ncontent-length: {}\r\n\r\n0123456789",
            plans.len() - 1,
            a,
            b
        )
        .into_bytes();
        for _ in 0..3 {
            twins.push(cl.len());
            cl.push((Req::default(), raw.clone(), plans.len() - 1));
        }
    }
    let (mode, cfg) = mode_cfg(w, &plans);
    boot(w, ctx, "web", cfg);
    let rc = recs(cl.len());
    for (i, (_, raw, _)) in cl.iter().enumerate() {
        let after = if twins.contains(&i) {
            After::HalfCloseRead
        } else {
            match w.weighted(S::Work, &[6, 2, 2, 1]) {
                0 => After::ReadToEnd,
                1 => After::HalfCloseRead,
                2 => After::CloseNow,
                _ => After::LateRead(3000),
            }
        };
        let plan = CPlan {
            delay_ms: w.pick(S::Work, 3) * 5,
            pieces: pieces(w, raw, true),
            after,
            faulty: w.chance(S::Work, 1, 2),
        };
        client(w, i, PORT, plan, rc.clone());
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    let o = obs(w);
    let rc = rc.borrow();
    let mut seen = vec![];
    for (i, (rq, _, _)) in cl.iter().enumerate() {
        let c = rc[i].conn;
        let rs = of(&o, c, "req");
        let b = of(&o, c, "body");
        seen.push(format!(
            "{:?} {:?}",
            rs.iter().map(|x| x.f.clone()).collect::<Vec<_>>(),
            b.iter().map(|x| x.f.clone()).collect::<Vec<_>>()
        ));
        if twins.contains(&i) {
            continue;
        }
        let pl = &plans[cl[i].2];
        // (a server that has answered without reading the body may close before it was all sent)
        let need = rq.head.len() + if pl.read > 0 { rq.body.len() } else { 0 };
        if (written(w, c) as usize) < need {
            rep.fail("request-not-taken", format!("client {} could not send its request: {}", i, rq.brief()));
            continue;
        }
        if rs.len() != 1 {
            rep.fail(
                "handler-runs",
                format!("request {} reached a handler {} times: {}", i, rs.len(), show(&rq.head)),
            );
            continue;
        }
        if let Some(d) = rq.differs(rs[0]) {
            rep.fail("request-differs", format!("{}; head: {}", d, show(&rq.head)));
        }
        if pl.read > 0 {
            match b.first() {
                Some(x) if x.s(1) == "eof" && x.f.get(2) == Some(&rq.body) => {}
                Some(x) => rep.fail(
                    "body-differs",
                    format!("body of {} bytes read as {} bytes, end {}", rq.body.len(), x.f.get(2).map(|b| b.len()).unwrap_or(0), x.s(1)),
                ),
                None => rep.fail("body-not-complete", format!("body of {} was never read to its end", rq.brief())),
            }
        }
        rep.nontrivial = true;
    }
    for (a, b) in &same {
        if seen[*a] != seen[*b] {
            rep.fail("same-bytes-differ", format!("{} / {}", seen[*a], seen[*b]));
        }
    }
    for t in twins.iter().skip(1) {
        if seen[*t] != seen[twins[0]] {
            rep.fail("same-bytes-differ", format!("{} / {}", seen[twins[0]], seen[*t]));
        }
    }
    rep.case = format!(
        "mode {}: {}",
        mode,
        cl.iter().map(|c| if c.0.head.is_empty() { "twin".into() } else { c.0.brief() }).collect::<Vec<_>>().join("; ")
    );
    rep
}

// ---- C02 ----------------------------------------------------------------------------------------

/// the same request with another Content-Length
fn relength(raw: &[u8], head: usize, old: &str, new: &str) -> Vec<u8> {
    let text = raw[..head].iter().map(|b| b.to_ascii_lowercase()).collect::<Vec<u8>>();
    let key = b"\r\ncontent-length:";
    let at = text.windows(key.len()).position(|x| x == key).expect("no length") + key.len();
    let at = at + raw[at..].iter().position(|b| *b != b' ').unwrap();
    assert!(raw[at..].starts_with(old.as_bytes()));
    [&raw[..at], new.as_bytes(), &raw[at + old.len()..]].concat()
}

fn c02(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let n = many(w, 1, 3, 12, 60) as usize;
    let mut plans = vec![];
    let mut cl = vec![];
    for i in 0..n {
        let rq = gen_req(
            w,
            &GenOpt {
                plan: Some(i),
                need_len: true,
                plain: true,
                max_body: [200, 3000, 30000][w.weighted(S::Work, &[5, 3, 1])],
                body_len: gen_big(w),
                ..Default::default()
            },
        );
        let mut p = simple_plan();
        read_plan(w, &mut p, &rq.body);
        plans.push(p);
        // 0: complete; 1: complete with more behind; 2: cut short; 3: less than was announced
        let kind = w.weighted(S::Work, &[3, 3, 3, 1]);
        let mut raw = rq.raw();
        let mut head_len = rq.head.len();
        if kind != 3 && w.chance(S::Work, 1, 12) {
            // the same number with zeros in front
            let old = rq.body.len().to_string();
            let zeros = "0".repeat(w.size(S::Work, 1, 25) as usize);
            raw = relength(&raw, head_len, &old, &format!("{}{}", zeros, old));
            head_len += zeros.len();
        }
        let mut sent = rq.body.len();
        let mut whole = true;
        let after;
        match kind {
            3 => {
                let old = format!("{}", rq.body.len());
                let new = format!("{}", (rq.body.len() as u64).saturating_add(claim_of(w)));
                raw = relength(&raw, rq.head.len(), &old, &new);
                whole = false;
                after = [After::HalfCloseRead, After::CloseNow, After::Abort][w.pick(S::Work, 3) as usize].clone();
            }
            2 if !rq.body.is_empty() => {
                sent = w.pick(S::Work, rq.body.len() as u32) as usize;
                raw.truncate(head_len + sent);
                whole = false;
                after = match w.pick(S::Work, 3) {
                    0 => After::HalfCloseRead,
                    1 => After::CloseNow,
                    _ => After::Abort,
                };
            }
            1 => {
                let k = w.size(S::Work, 1, 500) as usize;
                raw.extend((0..k).map(|i| b"\r\nGET / HTTP/1.1"[i % 16]));
                after = After::ReadToEnd;
            }
            _ => after = [After::ReadToEnd, After::ReadToEnd, After::HalfCloseRead][w.pick(S::Work, 3) as usize].clone(),
        }
        let head = raw.len() - if kind == 1 { 0 } else { sent };
        cl.push((rq, raw, sent, after, whole, head));
    }
    let (mode, cfg) = mode_cfg(w, &plans);
    boot(w, ctx, "web", cfg);
    let rc = recs(n);
    for (i, (_, raw, _, after, ..)) in cl.iter().enumerate() {
        let plan = CPlan {
            delay_ms: 0,
            pieces: pieces(w, raw, true),
            after: after.clone(),
            faulty: w.chance(S::Work, 1, 2),
        };
        client(w, i, PORT, plan, rc.clone());
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    let o = obs(w);
    let rc = rc.borrow();
    for (i, (rq, _, sent, after, whole, head)) in cl.iter().enumerate() {
        let c = rc[i].conn;
        let b = of(&o, c, "body");
        let (whole, head) = (*whole, *head);
        // bytes that were read one by one are checked too
        let chunks: Vec<u8> = of(&o, c, "chunk").iter().flat_map(|x| x.f.get(1).cloned().unwrap_or_default()).collect();
        if !rq.body.starts_with(&chunks) {
            rep.fail("body-invented", format!("{} bytes read are not a prefix of the body sent", chunks.len()));
        }
        match b.first() {
            Some(x) => {
                let got = x.f.get(2).cloned().unwrap_or_default();
                if x.s(1) == "eof-then-more" {
                    rep.fail("read-past-end", "reading on after the end of the body returned something else than 'end'");
                }
                if whole {
                    if x.s(1) != "eof" || got != rq.body {
                        rep.fail(
                            "body-differs",
                            format!("body of {} bytes read as {} bytes ending in {}", rq.body.len(), got.len(), x.s(1)),
                        );
                    }
                    // reported as soon as the bytes were there
                    let arrived = w.i().conns[c.unwrap()].pipes[0].last_arrival.max(rc[i].sent_at);
                    let slack = 60 * SEC + stall_slack(w) + net_slack(w, rq.raw().len());
                    if x.time > arrived + slack {
                        rep.fail("end-late", format!("end of body reported {} ms after the last byte arrived", (x.time - arrived) / MS));
                    }
                } else if !rq.body[..*sent].starts_with(&got) {
                    rep.fail("body-invented", format!("{} bytes read are not a prefix of the {} body bytes sent", got.len(), sent));
                }
            }
            None => {
                if whole && *after != After::Abort {
                    rep.fail("end-missing", format!("all {} body bytes were delivered but the reader still waits", rq.body.len()));
                } else if matches!(after, After::HalfCloseRead | After::CloseNow) && written(w, c) as usize >= head {
                    rep.fail("end-missing", "the connection ended inside the body but the reader still waits");
                }
            }
        }
        rep.nontrivial |= !rq.body.is_empty();
    }
    rep.case = format!(
        "mode {}: {}",
        mode,
        cl.iter().map(|c| format!("{} of {} body bytes, {} extra, {:?}", c.2, c.0.body.len(), c.1.len() as i64 - (c.0.head.len() + c.2) as i64, c.3)).collect::<Vec<_>>().join("; ")
    );
    rep
}

// ---- C03 ----------------------------------------------------------------------------------------

/// returns (kind, bytes) of something that is not a request
pub fn malformed(w: &World) -> (&'static str, Vec<u8>) {
    let rq = gen_req(
        w,
        &GenOpt {
            plan: Some(0),
            plain: true,
            max_body: 50,
            ..Default::default()
        },
    );
    let cl: Vec<u8> = b"X-Plan: 0\r\n".to_vec();
    let mk = |line: &str, hs: &str| -> Vec<u8> {
        let mut v = line.as_bytes().to_vec();
        v.extend(b"\r\n");
        v.extend(&cl);
        v.extend(hs.as_bytes());
        v.extend(b"\r\n");
        v
    };
    match w.weighted(S::Work, &[6, 4, 4, 2, 2, 3]) {
        0 => {
            // cut anywhere before the end of the headers
            let n = rq.head.len() as u32;
            let k = if w.chance(S::Work, 1, 3) { n - 1 - w.pick(S::Work, 5.min(n)) } else { w.pick(S::Work, n) };
            ("cut", rq.head[..k as usize].to_vec())
        }
        1 => {
            let lines = [
                "GET /",
                "GET",
                "",
                "GET / HTTP/1.1 x",
                "GET / HTTP/2.0",
                "GET / HTTQ/1.1",
                "G\u{1}T / HTTP/1.1",
                "GE(T / HTTP/1.1",
                "GET /a b HTTP/1.1",
                ": / HTTP/1.1",
                "GET /\u{0} HTTP/1.1",
                "GET / HTTP/11",
            ];
            let l = lines[w.pick(S::Work, lines.len() as u32) as usize];
            if l.is_empty() {
                // only blank lines
                return ("blank", b"\r\n\r\n".repeat(1 + w.pick(S::Work, 3) as usize));
            }
            ("request-line", mk(l, "Host: h\r\n"))
        }
        2 if w.chance(S::Work, 1, 2) => {
            // one bad line among good ones
            const BAD: [&[u8]; 18] = [
                b"Bad Name: x\r\n",
                b": novalue\r\n",
                b":\r\n",
                b"X: a\0b\r\n",
                b"X: a\x7fb\r\n",
                b"X: \x1b\r\n",
                b"X(: y\r\n",
                b"nocolon\r\n",
                b"X : y\r\n",
                b"X\t: y\r\n",
                b"X: a\rb\r\n",
                b" folded\r\n",
                b"\tX: folded\r\n",
                b"\x80: y\r\n",
                b"X\xc3\xa9: y\r\n",
                b"\0\r\n",
                b"GET / HTTP/1.1\r\n",
                // a bare line feed is no end of the headers
                b"\n",
            ];
            let bad = BAD[w.pick(S::Work, BAD.len() as u32) as usize];
            let ends: Vec<usize> = rq.head.windows(2).enumerate().filter(|(_, x)| x == b"\r\n").map(|(i, _)| i + 2).collect();
            // behind the request line or a header, but not behind the last one
            let at = ends[w.pick(S::Work, ends.len() as u32 - 2) as usize];
            ("bad-line", [&rq.head[..at], bad, &rq.head[at..]].concat())
        }
        2 => {
            let hs = [
                "Host h\r\n",
                "Host: h\r\nBad Name: x\r\n",
                "Host: h\r\n: novalue\r\n",
                "Host: h\r\nX: a\u{0}b\r\n",
                "Host: h\r\nX: a\u{7f}b\r\n",
                "Host: h\r\nX(: y\r\n",
                "Host: h\r\nnocolon\r\n",
                "Host: h\r\nX : y\r\n",
                "Host: h\r\nX: a\rb\r\n",
            ];
            ("header-syntax", mk("GET / HTTP/1.1", hs[w.pick(S::Work, hs.len() as u32) as usize]))
        }
        3 => {
            // near misses for Host
            let hs = ["", "Hosts: h\r\n", "X-Host: h\r\n", "Hos: h\r\n"];
            let line = ["GET / HTTP/1.1", "GET / HTTP/1.0", "POST /a HTTP/1.1", "GET http://h/a HTTP/1.1"][w.weighted(S::Work, &[4, 1, 1, 1])];
            ("no-host", mk(line, hs[w.pick(S::Work, 4) as usize]))
        }
        4 => {
            let n = 20 + w.size(S::Work, 0, 30);
            let mut hs = String::from("Host: h\r\n");
            for i in 0..n - 1 {
                hs.push_str(&format!("X-{}: y\r\n", i));
            }
            ("too-many-headers", mk("GET / HTTP/1.1", &hs))
        }
        _ => {
            let t = [
                ("GET * HTTP/1.1", "Host: h\r\n"),
                ("GET foo HTTP/1.1", "Host: h\r\n"),
                ("GET http:// HTTP/1.1", "Host: h\r\n"),
                ("GET https://[::1 HTTP/1.1", "Host: h\r\n"),
                ("GET / HTTP/1.1", "Host: a b\r\n"),
                ("GET / HTTP/1.1", "Host: h:99999\r\n"),
                ("GET / HTTP/1.1", "Host: [::1\r\n"),
                ("GET / HTTP/1.1", "Host: a<b\r\n"),
                ("GET / HTTP/1.1", "Host: h:x\r\n"),
                ("GET ftp://h/ HTTP/1.1", "Host: h\r\n"),
                ("GET ?q HTTP/1.1", "Host: h\r\n"),
                // a host is neither empty nor does it reach into the target
                ("GET /a/b HTTP/1.1", "Host:\r\n"),
                ("GET /a/b HTTP/1.1", "Host: \r\n"),
                ("GET //a/b HTTP/1.1", "Host:\r\n"),
                ("GET /a HTTP/1.1", "Host: h/b\r\n"),
                ("GET /a HTTP/1.1", "Host: h?b\r\n"),
                ("GET /a HTTP/1.1", "Host: h#b\r\n"),
                ("GET /a HTTP/1.1", "Host: u@h\r\n"),
                ("GET /a HTTP/1.1", "Host: u:p@h\r\n"),
                ("GET /a HTTP/1.1", "Host: h\\b\r\n"),
                ("GET /a HTTP/1.1", "Host: /\r\n"),
                ("GET /a HTTP/1.1", "Host: //h\r\n"),
                ("GET /a HTTP/1.1", "Host: h\tb\r\n"),
                ("GET /a HTTP/1.1", "Host: http://h\r\n"),
            ];
            let (a, b) = t[w.pick(S::Work, t.len() as u32) as usize];
            // "OPTIONS *" is a request, and CONNECT has targets of its own
            let method = ["GET", "POST", "HEAD", "DELETE", "PATCH", "OPTIONS"][w.weighted(S::Work, &[6, 1, 1, 1, 1, if a.contains('*') { 0 } else { 1 }])];
            ("target", mk(&a.replacen("GET", method, 1), b))
        }
    }
}

fn c03(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let n = many(w, 1, 5, 40, 60) as usize;
    let mut cl = vec![];
    for _ in 0..n {
        if w.chance(S::Work, 1, 5) {
            let rq = gen_req(
                w,
                &GenOpt {
                    plan: Some(0),
                    plain: true,
                    max_body: 60,
                    ..Default::default()
                },
            );
            cl.push(("good", rq.raw()));
        } else {
            let (k, mut raw) = malformed(w);
            if k != "cut" && k != "blank" && w.chance(S::Work, 1, 3) {
                raw.extend(b"GET / HTTP/1.1\r\nHost: h\r\nX-Plan: 0\r\n\r\n");
            }
            cl.push((k, raw));
        }
    }
    let (mode, cfg) = mode_cfg(w, &[simple_plan()]);
    boot(w, ctx, "web", cfg);
    let rc = recs(n);
    let mut afters = vec![];
    for (i, (kind, raw)) in cl.iter().enumerate() {
        let after = match (*kind, w.weighted(S::Work, &[4, 3, 2, 2, 2])) {
            ("good", _) => After::ReadToEnd,
            ("cut", 0) | ("cut", 1) => After::HalfCloseRead,
            (_, 0) | (_, 1) => After::ReadToEnd,
            (_, 2) => After::CloseNow,
            (_, 3) => After::Abort,
            _ => After::HangThenClose(100_000),
        };
        afters.push(after.clone());
        let plan = CPlan {
            delay_ms: 0,
            pieces: pieces(w, raw, true),
            after,
            faulty: w.chance(S::Work, 1, 2),
        };
        client(w, i, PORT, plan, rc.clone());
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    let o = obs(w);
    let rc = rc.borrow();
    for (i, (kind, raw)) in cl.iter().enumerate() {
        let c = rc[i].conn;
        let runs = of(&o, c, "req").len();
        if *kind == "good" {
            if runs != 1 {
                rep.fail("good-request-lost", format!("a well-formed request ran {} handlers", runs));
            }
            continue;
        }
        rep.nontrivial = true;
        if runs != 0 {
            rep.fail("handler-ran", format!("{}: a handler ran for {:?}", kind, show(raw)));
        }
        let g = &rc[i].got;
        if !g.is_empty() {
            let whole = rc[i].end == Some(ConnEnd::Eof);
            match Want::err400().differs(g, !whole) {
                None => {}
                Some(_) if whole => {
                    // any single complete 400 response will do
                    let ok = parse_resp(g).map(|r| r.status == 400 && !r.body.windows(7).any(|x| x == b"HTTP/1.")).unwrap_or(false);
                    if !ok {
                        rep.fail("bad-error-response", format!("{}: the client received {:?}", kind, show(g)));
                    }
                }
                Some(_) => {
                    if !g.starts_with(&b"HTTP/1.1 400"[..g.len().min(12)]) {
                        rep.fail("bad-error-response", format!("{}: the client received {:?}", kind, show(g)));
                    }
                }
            }
        }
        if matches!(afters[i], After::ReadToEnd | After::HalfCloseRead) && rc[i].end.is_none() {
            rep.fail("not-closed", format!("{}: the connection was never ended; bytes: {}", kind, show(raw)));
        }
    }
    rep.case = format!(
        "mode {}: {}",
        mode,
        cl.iter().zip(&afters).map(|(c, a)| format!("{} {:?} {:?}", c.0, show(&c.1[..c.1.len().min(60)]), a)).collect::<Vec<_>>().join("; ")
    );
    rep
}

// ---- C05 ----------------------------------------------------------------------------------------

fn ref_match(segs: &[(u8, String)], path: &str) -> bool {
    let parts: Vec<&str> = path[1..].split('/').collect();
    parts.len() == segs.len()
        && segs.iter().zip(parts).all(|((k, s), p)| match k {
            0 => s == p,
            1 => true,
            _ => {
                let d = p.strip_prefix(['-', '+']).unwrap_or(p);
                !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())
            }
        })
}

fn c05(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    const WORDS: &[&str] = &["a", "b", "ab", "", "A", "1", "-7", "2147483647", "-2147483648", "+3", "x1", "1x", "-", "%41", "a.b", "007", "1.5", "abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyZ", "a-word-of-more-than-sixty-four-bytes-which-is-longer-than-what-most-paths-have-in-them", "0000000000012"];
    let mode = w.pick(S::Work, 3) as u8;
    let mut routes = vec![];
    if mode != 0 {
        let top = if w.chance(S::Work, 1, 40) {
            70
        } else if w.chance(S::Work, 1, 4) {
            16
        } else {
            5
        };
        let deep = if w.chance(S::Work, 1, 6) { 16 } else { 4 };
        let share = w.chance(S::Work, 1, 4);
        let n = if top > 16 { 17 + w.pick(S::Work, top - 16) } else { w.size(S::Work, 0, top) };
        for i in 0..n {
            let kind = if top > 16 { w.weighted(S::Work, &[99, 0, 4, 9]) } else if top > 5 { w.weighted(S::Work, &[20, 1, 4, 4]) } else { w.weighted(S::Work, &[10, 1, 1, 2]) };
            let mut r = RouteC {
                kind: [4, 0, 1, 2][kind],
                ..Default::default()
            };
            r.method = ["GET", "POST", "PUT", "HEAD", "DELETE", "mIxEd"][w.pick(S::Work, 6) as usize].into();
            if r.kind == 4 {
                for _ in 0..w.size(S::Work, 0, deep) {
                    let k = w.pick(S::Work, 3) as u8;
                    r.segs.push((k, WORDS[w.pick(S::Work, WORDS.len() as u32) as usize].to_string()));
                }
            }
            r.handler = if share { w.pick(S::Work, 3) as u8 } else { i as u8 };
            if i > 0 && w.chance(S::Work, 1, 8) {
                // the same matcher again
                let o: &RouteC = &routes[w.pick(S::Work, i) as usize];
                r.kind = o.kind;
                r.segs = o.segs.clone();
                r.method = o.method.clone();
            }
            routes.push(r);
        }
    }
    let state = gen_value(w);
    let n = many(w, 1, 5, 40, 60) as usize;
    let mut cl = vec![];
    let plans: Vec<PlanC> = vec![simple_plan()];
    for _ in 0..n {
        // paths near the routes
        let mut parts: Vec<String> = vec![];
        let near = w.chance(S::Work, 3, 4) && !routes.is_empty();
        if near {
            let k = if w.chance(S::Work, 1, 4) { routes.len() - 1 } else { w.pick(S::Work, routes.len() as u32) as usize };
            let r: &RouteC = &routes[k];
            for (k, s) in &r.segs {
                parts.push(if *k == 0 {
                    s.clone()
                } else {
                    WORDS[w.pick(S::Work, WORDS.len() as u32) as usize].to_string()
                });
            }
            match w.weighted(S::Work, &[5, 1, 1, 1]) {
                0 => {}
                1 => parts.push(WORDS[w.pick(S::Work, 4) as usize].to_string()),
                2 => {
                    parts.pop();
                }
                _ => {
                    if !parts.is_empty() {
                        let i = w.pick(S::Work, parts.len() as u32) as usize;
                        parts[i] = WORDS[w.pick(S::Work, WORDS.len() as u32) as usize].to_string();
                    }
                }
            }
        } else {
            for _ in 0..many(w, 0, 4, 20, 10) {
                parts.push(WORDS[w.pick(S::Work, WORDS.len() as u32) as usize].to_string());
            }
        }
        let mut rq = gen_req(
            w,
            &GenOpt {
                plan: Some(0),
                max_body: 0,
                plain: w.chance(S::Work, 1, 2),
                path: Some(format!("/{}", parts.join("/"))),
                ..Default::default()
            },
        );
        if w.chance(S::Work, 1, 3) {
            // a query must not matter
            let t = rq.target();
            let head = String::from_utf8_lossy(&rq.head).replacen(&format!(" {} ", t), &format!(" {}?q=/a/1 ", t), 1);
            rq.head = head.into_bytes();
            rq.query = Some("q=/a/1".into());
        }
        cl.push(rq);
    }
    boot(w, ctx, "web", server_cfg(0, mode, &state, &routes, &plans));
    let rc = recs(n);
    for (i, rq) in cl.iter().enumerate() {
        let plan = CPlan {
            delay_ms: 0,
            pieces: pieces(w, &rq.raw(), false),
            after: After::ReadToEnd,
            faulty: false,
        };
        client(w, i, PORT, plan, rc.clone());
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    let o = obs(w);
    let rc = rc.borrow();
    for (i, rq) in cl.iter().enumerate() {
        let c = rc[i].conn;
        let runs = of(&o, c, "req");
        let want = if mode == 0 {
            Some(99u8)
        } else {
            routes.iter().position(|r| match r.kind {
                0 => true,
                1 => false,
                2 => rq.method == r.method,
                _ => ref_match(&r.segs, &rq.path),
            })
            .map(|k| routes[k].handler)
        };
        let got: Vec<&str> = runs.iter().map(|x| x.s(1)).collect();
        match want {
            Some(k) => {
                rep.nontrivial = true;
                if got != [k.to_string().as_str()] {
                    rep.fail(
                        "wrong-route",
                        format!("{} {}: expected handler {} once, ran {:?} (routes {:?})", rq.method, rq.path, k, got, routes),
                    );
                } else if runs[0].s(2) != state {
                    rep.fail("wrong-state", format!("server started with state {:?}, handler got {:?}", state, runs[0].s(2)));
                }
                if rc[i].end.is_none() || rc[i].got.is_empty() {
                    rep.fail("no-answer", format!("{} {} got no complete answer", rq.method, rq.path));
                }
            }
            None => {
                rep.nontrivial |= !routes.is_empty();
                if !got.is_empty() {
                    rep.fail("handler-ran", format!("no route matches {} {} but {:?} ran ({:?})", rq.method, rq.path, got, routes));
                }
                if !rc[i].got.is_empty() {
                    rep.fail("answered-unmatched", format!("no route matches, yet the client received {:?}", show(&rc[i].got)));
                }
                if rc[i].end.is_none() {
                    rep.fail("not-closed", "no route matches and the connection was not closed");
                }
            }
        }
    }
    rep.case = format!(
        "mode {}, routes {:?}; requests {}",
        mode,
        routes.iter().map(|r| (r.kind, r.segs.clone())).collect::<Vec<_>>(),
        cl.iter().map(|r| format!("{} {}", r.method, r.path)).collect::<Vec<_>>().join(", ")
    );
    rep
}

// ---- C06 ----------------------------------------------------------------------------------------

pub fn gen_response(w: &World, max: u32) -> (PlanC, Want) {
    let mut p = PlanC::default();
    let mut want;
    match w.weighted(S::Work, &[12, 1, 1]) {
        1 => {
            p.resp = 3;
            want = Want::err404();
        }
        2 => {
            p.resp = 4;
            want = Want::err400();
        }
        _ => {
            p.resp = 1;
            want = Want::default();
            if w.chance(S::Work, 1, 10) {
                // default status
                want.status = 200;
            } else {
                p.status = [200, 201, 204, 301, 404, 500, 599, 101, 999, 7, 42, 1000, 65535][w.pick(S::Work, 13) as usize];
                p.reason = ["OK", "", "Not Found", "a longer reason phrase", "é", " ", " OK", "OK ", "\tO  K"][w.pick(S::Work, 9) as usize].into();
                want.status = p.status;
                want.reason = p.reason.clone();
            }
            for i in 0..many(w, 0, 8, 80, 60) {
                let k = format!("{}{}", ["X-A", "content-type", "Z", "a"][w.pick(S::Work, 4) as usize], i);
                let mut v = gen_value(w);
                if w.chance(S::Work, 1, 12) {
                    v = format!("{}{}{}", ["", " ", "\t"][w.pick(S::Work, 3) as usize], v, ["", " ", "\t "][w.pick(S::Work, 3) as usize]);
                }
                p.headers.push((k.clone(), v.clone()));
                want.headers.push((k, v));
            }
            if !want.headers.is_empty() && w.chance(S::Work, 1, 6) {
                // given twice: the later value counts; in another case: another header
                let at = w.pick(S::Work, want.headers.len() as u32) as usize;
                let v = gen_value(w);
                let k = recase(w, &want.headers[at].0.clone());
                p.headers.push((k.clone(), v.clone()));
                match want.headers.iter_mut().find(|h| h.0 == k) {
                    Some(h) => h.1 = v,
                    None => want.headers.push((k, v)),
                }
            }
            p.headers_from = w.pick(S::Work, 3) * w.pick(S::Work, 9);
            p.body = if max > 60000 { gen_big(w).map(|n| body_bytes(w, n)) } else { None }.unwrap_or_else(|| gen_body(w, max));
            p.body_kind = if p.body.len() > 50000 { 1 + w.pick(S::Work, 3) as u8 } else { w.pick(S::Work, 6) as u8 };
            want.body = p.body.clone();
            match p.body_kind {
                0 => want.body = vec![],
                2 | 4 => {
                    // a declared length shorter than, equal to or longer than what the source has
                    p.body_len = match w.weighted(S::Work, &[4, 1, 1]) {
                        0 => p.body.len() as u32,
                        1 => w.pick(S::Work, p.body.len() as u32 + 1),
                        _ => p.body.len() as u32 + 5,
                    };
                    want.body.truncate(p.body_len as usize);
                }
                _ => {}
            }
            if w.chance(S::Work, 1, 12) {
                // the body replaces another one, which sets its type
                p.body_kind += 8;
                want.headers.push(("Content-Type".into(), "application/octet-stream".into()));
            }
        }
    }
    (p, want)
}

fn c06(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    if w.chance(S::Fault, 1, 4) {
        let mut m = w.m();
        m.fault.kill = [8, 64, 400][m.ch.pick(S::Fault, 3) as usize];
        m.fault.max_kills = 2;
    }
    let n = w.size(S::Work, 1, 3) as usize;
    let mut plans = vec![];
    let mut wants = vec![];
    let mut rqs = vec![];
    for i in 0..n {
        let (mut p, want) = gen_response(w, [200, 5000, 70000][w.weighted(S::Work, &[6, 3, 1])]);
        let rq = gen_req(
            w,
            &GenOpt {
                plan: Some(i),
                max_body: 100,
                plain: true,
                ..Default::default()
            },
        );
        if rq.has_len && w.chance(S::Work, 1, 2) {
            p.read = 1;
        }
        if w.chance(S::Work, 1, 10) {
            p.panic_at = 3;
        }
        p.sleep_after = w.pick(S::Work, 2) * 50;
        plans.push(p);
        wants.push(want);
        rqs.push(rq);
    }
    let (mode, cfg) = mode_cfg(w, &plans);
    boot(w, ctx, "web", cfg);
    let rc = recs(n);
    let mut afters = vec![];
    for (i, rq) in rqs.iter().enumerate() {
        let after = match w.weighted(S::Work, &[6, 2, 2, 2]) {
            0 => After::ReadToEnd,
            1 => After::HalfCloseRead,
            2 => After::LateRead([10, 3000][w.pick(S::Work, 2) as usize]),
            _ => After::ReadThen(1 + w.size(S::Work, 0, 3000) as usize, w.chance(S::Work, 1, 2)),
        };
        afters.push(after.clone());
        let plan = CPlan {
            delay_ms: 0,
            pieces: pieces(w, &rq.raw(), false),
            after,
            faulty: w.chance(S::Work, 1, 2),
        };
        client(w, i, PORT, plan, rc.clone());
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    let rc = rc.borrow();
    for i in 0..n {
        let r = &rc[i];
        let killed = match r.conn {
            Some(c) => hurt(w, c),
            None => continue,
        };
        let early = matches!(afters[i], After::ReadThen(..)) && r.end.is_none();
        // a server that closes with unread input may reset: then even sent bytes can be lost
        let unread_reset = r.end == Some(ConnEnd::Reset) && w.i().conns[r.conn.unwrap()].pipes[0].read < rqs[i].raw().len() as u64;
        let prefix = killed || early || unread_reset;
        if let Some(d) = wants[i].differs(&r.got, prefix) {
            rep.fail(
                if prefix { "not-a-prefix" } else { "response-differs" },
                format!("{} (killed {}, client left early {}, end {:?})", d, killed, early, r.end),
            );
        }
        if !early && r.end.is_none() {
            rep.fail("no-end", "the response is not followed by the end of the connection");
        }
        rep.nontrivial |= !r.got.is_empty();
    }
    rep.case = format!(
        "mode {}: {}",
        mode,
        (0..n)
            .map(|i| format!("{} with {} headers and {} body bytes (kind {}), {:?}", wants[i].status, wants[i].headers.len(), wants[i].body.len(), plans[i].body_kind, afters[i]))
            .collect::<Vec<_>>()
            .join("; ")
    );
    rep
}

// ---- C07 ----------------------------------------------------------------------------------------

fn c07(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let n = crowd(w, 2, 10, 40, 60) as usize;
    let mut plans = vec![];
    let mut cl = vec![];
    for i in 0..n {
        let tag = format!("tag-{}-{}", i, w.word(S::Work));
        let rq = gen_req(
            w,
            &GenOpt {
                plan: Some(i),
                tag: Some(tag.clone()),
                need_len: true,
                plain: true,
                max_body: [100, 2000][w.pick(S::Work, 2) as usize],
                ..Default::default()
            },
        );
        let mut p = PlanC {
            resp: 2,
            ..Default::default()
        };
        read_plan(w, &mut p, &rq.body);
        p.sleep_before = [0, 0, 5, 200][w.pick(S::Work, 4) as usize];
        p.sleep_after = [0, 0, 100][w.pick(S::Work, 3) as usize];
        if w.chance(S::Work, 1, 8) {
            p.panic_at = 1 + w.pick(S::Work, 3) as u8;
        }
        plans.push(p);
        cl.push((rq, tag));
    }
    let (mode, cfg) = mode_cfg(w, &plans);
    boot(w, ctx, "web", cfg);
    let rc = recs(n);
    let mut afters = vec![];
    for (i, (rq, _)) in cl.iter().enumerate() {
        let after = match w.weighted(S::Work, &[8, 2, 2, 1, 1]) {
            0 => After::ReadToEnd,
            1 => After::HalfCloseRead,
            2 => After::LateRead(700),
            3 => After::ReadThen(1, w.chance(S::Work, 1, 2)),
            _ => After::CloseNow,
        };
        afters.push(after.clone());
        client(
            w,
            i,
            PORT,
            CPlan {
                delay_ms: w.pick(S::Work, 4) * 40,
                pieces: pieces(w, &rq.raw(), true),
                after,
                faulty: w.chance(S::Work, 1, 3),
            },
            rc.clone(),
        );
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    let o = obs(w);
    let rc = rc.borrow();
    for (i, (rq, tag)) in cl.iter().enumerate() {
        let r = &rc[i];
        let reqs = of(&o, r.conn, "req");
        if reqs.len() != 1 {
            rep.fail("handler-runs", format!("connection {} had {} handler runs", i, reqs.len()));
            continue;
        }
        if let Some(d) = rq.differs(reqs[0]) {
            rep.fail("request-differs", format!("connection {}: {}", i, d));
        }
        // every byte the handler saw is its own connection's
        let body = of(&o, r.conn, "body");
        let expect_body = plans[i].panic_at != 1;
        match body.first() {
            Some(b) if b.f.get(2) == Some(&rq.body) => {}
            Some(_) => rep.fail("body-differs", format!("connection {}: the handler read another body", i)),
            None if expect_body => rep.fail("body-not-complete", format!("connection {}: body never complete", i)),
            None => {}
        }
        let want = Want {
            status: 200,
            reason: "OK".into(),
            headers: vec![
                ("X-Tag".into(), tag.clone()),
                ("Content-Length".into(), rq.body.len().to_string()),
                ("X-Path".into(), rq.path.clone()),
            ],
            body: rq.body.clone(),
        };
        let panics = plans[i].panic_at == 1 || plans[i].panic_at == 2;
        let early = matches!(afters[i], After::ReadThen(..)) && r.end.is_none() || afters[i] == After::CloseNow;
        if panics {
            if !r.got.is_empty() {
                rep.fail("response-invented", format!("connection {}: its handler died before answering, yet it received {:?}", i, show(&r.got)));
            }
        } else if let Some(d) = want.differs(&r.got, early) {
            rep.fail("response-differs", format!("connection {}: {}", i, d));
        }
        if !early && r.end.is_none() {
            rep.fail("no-end", format!("connection {} was not ended", i));
        }
        // a process serves one connection
        let pid = reqs[0].pid;
        let took = w.i().procs[pid].took.clone();
        if took.iter().any(|c| Some(*c) != r.conn) {
            rep.fail("shared-process", format!("the process of connection {} was given {:?}", i, took));
        }
    }
    rep.nontrivial = n >= 2;
    rep.case = format!("mode {}: {} connections, afters {:?}", mode, n, afters);
    rep
}

// ---- C04 and C09: servers among trouble -----------------------------------------------------------

#[derive(Clone, Debug)]
struct Cl {
    good: bool,
    kind: String,
    raw: Vec<u8>,
    plan: usize,
    after: After,
    need: usize,
}

fn trouble(w: &World, plans: &mut Vec<PlanC>, hang: bool) -> Cl {
    let i = plans.len();
    let mut p = simple_plan();
    let mut kind = String::new();
    let raw;
    let mut after = match w.weighted(S::Work, &[3, 2, 2, 2, 2, 2]) {
        0 => After::ReadToEnd,
        1 => After::CloseNow,
        2 => After::Abort,
        3 => {
            if hang && w.chance(S::Work, 2, 3) {
                After::Hang
            } else {
                After::HangThenClose([10, 1000, 400_000][w.pick(S::Work, 3) as usize])
            }
        }
        4 => After::ReadThen(1 + w.size(S::Work, 0, 200) as usize, w.chance(S::Work, 1, 2)),
        _ => After::HalfCloseRead,
    };
    match w.weighted(S::Work, &[3, 3, 2, 2, 2, 2]) {
        0 => {
            let (k, b) = malformed(w);
            kind.push_str(k);
            raw = b;
        }
        1 => {
            // handler trouble
            let rq = gen_req(w, &GenOpt { plan: Some(i), plain: true, need_len: true, max_body: 300, ..Default::default() });
            p.panic_at = w.pick(S::Work, 4) as u8;
            if p.panic_at == 0 {
                p.sleep_before = if hang { 4_000_000_000 } else { 90_000 };
                kind.push_str("handler sleeps");
            } else {
                kind.push_str("handler panics");
            }
            if w.chance(S::Work, 1, 2) {
                read_plan(w, &mut p, &rq.body);
            }
            raw = rq.raw();
        }
        2 => {
            kind.push_str("silent");
            raw = vec![];
        }
        3 => {
            // body never completed
            let rq = gen_req(w, &GenOpt { plan: Some(i), plain: true, need_len: true, max_body: 3000, ..Default::default() });
            read_plan(w, &mut p, &rq.body);
            let mut b = rq.raw();
            let cut = w.pick(S::Work, rq.body.len() as u32 + 1) as usize;
            b.truncate(rq.head.len() + cut);
            kind.push_str("partial body");
            raw = b;
        }
        4 => {
            // large response nobody reads
            let rq = gen_req(w, &GenOpt { plan: Some(i), plain: true, max_body: 0, ..Default::default() });
            p.body = gen_body(w, 30000);
            p.body_kind = 3;
            kind.push_str("unread response");
            raw = rq.raw();
            if after == After::ReadToEnd {
                after = if hang { After::Hang } else { After::HangThenClose(50_000) };
            }
        }
        _ => {
            let n = w.size(S::Work, 1, 3000);
            let s = w.word(S::Work) as u64;
            raw = (0..n).map(|i| crate::choice::mix(s + i as u64) as u8).collect();
            kind.push_str("garbage");
        }
    }
    // what ends without the client's help
    let ends = raw.len() > 0 && (p.panic_at != 0 || !["cut", "blank", "silent", "partial body", "garbage", "handler sleeps", "unread response"].contains(&&kind[..]));
    if !hang && after == After::ReadToEnd && !ends {
        // must not wait for ever for an answer that never comes
        after = if w.chance(S::Work, 1, 2) { After::HalfCloseRead } else { After::HangThenClose(200_000) };
    }
    plans.push(p);
    Cl {
        good: false,
        kind,
        raw,
        plan: i,
        after,
        need: 0,
    }
}

fn c04(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    {
        let mut m = w.m();
        m.fault.accept_fail = [0, 0, 8, 32, 60][m.ch.weighted(S::Fault, &[4, 4, 4, 3, 1]) as usize];
        m.fault.kill = [0, 0, 16, 200][m.ch.pick(S::Fault, 4) as usize];
        m.fault.max_kills = 3;
        m.fault.oom = [0, 0, 0, 2][m.ch.pick(S::Fault, 4) as usize];
    }
    let nbad = crowd(w, 0, 6, 40, 60) as usize;
    let ngood = many(w, 1, 5, 30, 60) as usize;
    let mut plans: Vec<PlanC> = vec![];
    let mut cl = vec![];
    let mut wants = vec![];
    for _ in 0..nbad {
        cl.push(trouble(w, &mut plans, true));
        wants.push(None);
    }
    for _ in 0..ngood {
        let i = plans.len();
        let (mut p, want) = gen_response(w, 3000);
        let rq = gen_req(w, &GenOpt { plan: Some(i), need_len: true, plain: true, max_body: 1000, ..Default::default() });
        if w.chance(S::Work, 1, 2) {
            p.read = 1;
        }
        plans.push(p);
        cl.push(Cl {
            good: true,
            kind: "good".into(),
            raw: rq.raw(),
            plan: i,
            after: After::ReadToEnd,
            need: rq.raw().len(),
        });
        wants.push(Some(want));
    }
    let (mode, cfg) = mode_cfg(w, &plans);
    boot(w, ctx, "web", cfg);
    let n = cl.len();
    let rc = recs(n);
    for (i, c) in cl.iter().enumerate() {
        client(
            w,
            i,
            PORT,
            CPlan {
                delay_ms: w.pick(S::Work, 5) * if c.good { 30 } else { 10 },
                pieces: pieces(w, &c.raw, !c.good),
                after: c.after.clone(),
                faulty: !c.good,
            },
            rc.clone(),
        );
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    let rc = rc.borrow();
    for i in 0..n {
        let slack = 30 * SEC + stall_slack(w) + net_slack(w, cl[i].raw.len() + rc[i].got.len());
        if !cl[i].good {
            continue;
        }
        let r = &rc[i];
        match r.conn {
            // its own process was hit by a fault
            Some(c) if hurt(w, c) => continue,
            Some(_) => {}
            None => {
                rep.fail("not-connected", format!("good client {} never got a connection", i));
                continue;
            }
        };
        rep.nontrivial = nbad > 0;
        if let Some(d) = wants[i].as_ref().unwrap().differs(&r.got, r.end == Some(ConnEnd::Reset)) {
            rep.fail("not-served", format!("good client {}: {} (end {:?}); others: {:?}", i, d, r.end, cl.iter().filter(|c| !c.good).map(|c| (&c.kind, &c.after)).collect::<Vec<_>>()));
        } else if r.end.is_none() {
            rep.fail("not-served", format!("good client {}: connection not ended", i));
        } else if r.end_at > r.sent_at + slack {
            rep.fail(
                "served-late",
                format!("good client {} waited {} ms", i, (r.end_at - r.sent_at) / MS),
            );
        }
        let _ = cl[i].need;
    }
    rep.case = format!(
        "mode {}: {} good clients among {}",
        mode,
        ngood,
        cl.iter().filter(|c| !c.good).map(|c| format!("{} ({:?})", c.kind, c.after)).collect::<Vec<_>>().join(", ")
    );
    rep
}

fn c09(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    {
        let mut m = w.m();
        m.fault.accept_fail = [0, 0, 8, 32, 60][m.ch.weighted(S::Fault, &[4, 4, 4, 3, 1]) as usize];
        m.fault.kill = [0, 0, 16, 200][m.ch.pick(S::Fault, 4) as usize];
        m.fault.max_kills = 4;
        m.fault.oom = [0, 0, 0, 2][m.ch.pick(S::Fault, 4) as usize];
    }
    let n = crowd(w, 1, 8, 40, 60) as usize;
    let mut plans: Vec<PlanC> = vec![];
    let mut cl = vec![];
    for _ in 0..n {
        if w.chance(S::Work, 1, 2) {
            cl.push(trouble(w, &mut plans, false));
        } else {
            let i = plans.len();
            let (mut p, _) = gen_response(w, 3000);
            let rq = gen_req(w, &GenOpt { plan: Some(i), need_len: true, plain: true, max_body: 1000, ..Default::default() });
            if w.chance(S::Work, 1, 2) {
                p.read = 1;
            }
            if w.chance(S::Work, 1, 6) {
                p.resp = 0;
            }
            p.sleep_after = [0, 0, 500, 20_000][w.pick(S::Work, 4) as usize];
            plans.push(p);
            cl.push(Cl {
                good: true,
                kind: "good".into(),
                raw: rq.raw(),
                plan: i,
                after: match w.weighted(S::Work, &[5, 1, 1, 1]) {
                    0 => After::ReadToEnd,
                    1 => After::HalfCloseRead,
                    2 => After::LateRead(2000),
                    _ => After::ReadThen(1, w.chance(S::Work, 1, 2)),
                },
                need: 0,
            });
        }
    }
    let (mode, cfg) = mode_cfg(w, &plans);
    boot(w, ctx, "web", cfg);
    let rc = recs(n);
    for (i, c) in cl.iter().enumerate() {
        client(
            w,
            i,
            PORT,
            CPlan {
                delay_ms: w.pick(S::Work, 5) * 20,
                pieces: pieces(w, &c.raw, true),
                after: c.after.clone(),
                faulty: w.chance(S::Work, 1, 2),
            },
            rc.clone(),
        );
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    let mut fails: Vec<(&str, String)> = vec![];
    for (i, c) in cl.iter().enumerate() {
        // a client that waits for the server to close
        let r = &rc.borrow()[i];
        if c.after == After::ReadToEnd && r.conn.is_some() && r.end.is_none() {
            fails.push(("not-closed", format!("client {} ({}) waited for the end of its connection, which never came", i, c.kind)));
        }
    }
    let m = w.i();
    for (c, k) in m.conns.iter().enumerate() {
        if k.accepted && !k.closed[1] {
            fails.push(("stream-leak", format!("connection {} is still open on the server after its client finished ({:?})", c, k.client.map(|i| (&cl[i].kind, &cl[i].after)))));
        }
        if !k.accepted {
            fails.push(("never-accepted", format!("connection {} was never accepted", c)));
        }
    }
    for (p, pr) in m.procs.iter().enumerate().skip(1) {
        if pr.end.is_none() {
            fails.push(("process-leak", format!("process {} never ended", p)));
        }
    }
    // closed soon after its process was done
    for (c, k) in m.conns.iter().enumerate() {
        if let Some(p) = m.procs.iter().find(|p| p.took.first() == Some(&c)) {
            if p.end.is_some() && k.closed[1] && k.closed_at[1] > p.ended_at + 10 * SEC {
                fails.push(("closed-late", format!("connection {} was closed {} ms after its process ended", c, (k.closed_at[1] - p.ended_at) / MS)));
            }
        }
    }
    // and the process does not outlive its handler
    let mut last_done: Vec<(Pid, u64)> = vec![];
    drop(m);
    for o in obs(w) {
        if o.kind() == "done" {
            last_done.push((o.pid, o.time));
        }
    }
    let slack = 10 * SEC + stall_slack(w);
    for (p, t) in last_done {
        let e = w.i().procs[p].ended_at;
        if w.i().procs[p].end.is_some() && e > t + slack {
            fails.push(("process-late", format!("process {} lived {} ms after its handler returned", p, (e - t) / MS)));
        }
    }
    for (c, d) in fails {
        rep.fail(c, d);
    }
    rep.nontrivial = true;
    rep.case = format!("mode {}: {}", mode, cl.iter().map(|c| format!("{} ({:?})", c.kind, c.after)).collect::<Vec<_>>().join(", "));
    let _ = cl.iter().map(|c| c.plan).count();
    rep
}

pub const REAL: &str = "puck (parser, encoder, body, core, router, url matching), the lunatic guest crate and its dependencies, compiled to wasm from /repo and executed unchanged";
pub const STUB: &str = "the lunatic host: processes, mailboxes, TCP, clock, randomness (simulated); applications and clients are generated";

pub fn props() -> Vec<Prop> {
    let p = |id, run, quick_runs, rule| Prop {
        id,
        guests: &["web"],
        run,
        rule,
        real: REAL,
        stub: STUB,
        quick_runs,
    };
    vec![
        p("C01", c01, 180000, "1-4 clients send generated requests (some byte-identical) to a puck server in one of its three serving modes; a run counts if at least one request reached a handler and was compared; distinct by workload and interleaving"),
        p("C02", c02, 180000, "1-3 requests with bodies, complete, followed by more bytes, or cut short; a run counts if a body was non-empty; distinct by workload and interleaving"),
        p("C03", c03, 180000, "1-5 connections, most of them carrying something that is not a complete request; a run counts if one of those was sent; distinct by workload and interleaving"),
        p("C04", c04, 180000, "1-5 good clients among 0-6 troublesome ones, handler panics, kills, accept and allocation failures; a run counts if a good client was judged while a bad one existed"),
        p("C05", c05, 180000, "a random route table and 1-5 requests near its routes; a run counts if a route was to match or a non-empty table was not to"),
        p("C06", c06, 180000, "1-3 generated responses under short writes, backpressure, kills and early leaving clients; a run counts if response bytes were received"),
        p("C07", c07, 180000, "2-10 concurrent tagged connections with panicking handlers and leaving clients; distinct by workload and interleaving"),
        p("C09", c09, 180000, "1-8 connections that end in every way; at the end nothing may be left; distinct by workload and interleaving"),
    ]
}
