//! Two puck servers in a row (C16): the first passes each request on to the second with puck's own
//! client, and the response back.  Between them is a relay of the simulator.

use crate::choice::S;
use crate::host::show;
use crate::http::*;
use crate::run::*;
use crate::s_http::*;
use crate::util::*;
use crate::world::*;

const EDGE: u16 = 8000;
const ORIGIN: u16 = 8001;
const RELAY: u16 = 9000;

/// one direction of the relay; it holds back nothing for want of space, so that neither server has
/// to read while it writes
async fn pump(w: World, from: (ConnId, usize), to: (ConnId, usize), pause: u32, done: Shared<u8>) {
    let mut buf: Vec<u8> = vec![];
    let mut eof = false;
    loop {
        let mut on = vec![];
        if !eof {
            match w.read(from.0, from.1, 1 << 20) {
                Rd::Data(d) => {
                    buf.extend(d);
                    if pause > 0 && w.chance(S::Work, 1, 8) {
                        w.sleep(pause as u64 * MS).await;
                    }
                }
                Rd::Eof => eof = true,
                Rd::Err(_) => {
                    w.abort(to.0, to.1);
                    break;
                }
                Rd::Block => on.push(Key::Readable(from.0, from.1)),
            }
        }
        if !buf.is_empty() {
            match w.write(to.0, to.1, &buf) {
                Wr::Ok(n) => {
                    buf.drain(..n);
                    on.clear();
                }
                Wr::Block => {
                    if eof || !on.is_empty() {
                        on.push(Key::Writable(to.0, to.1));
                    }
                }
                Wr::Err(_) => {
                    w.abort(from.0, from.1);
                    break;
                }
            }
        } else if eof {
            w.shutdown_write(to.0, to.1);
            break;
        }
        if on.is_empty() {
            w.yield_now().await;
        } else {
            w.wait(on, None).await;
        }
    }
    *done.borrow_mut() += 1;
    if *done.borrow() == 2 {
        w.m().close_side(from.0, from.1);
        w.m().close_side(to.0, to.1);
    }
}

fn relay(w: &World, pause: u32) {
    let l = w.listen(RELAY, None).unwrap();
    let w2 = w.clone();
    w.spawn_client("relay", async move {
        let w = w2;
        loop {
            let c = loop {
                match w.try_accept(l) {
                    Some(c) => break c,
                    None => w.wait(vec![Key::Accept(l)], None).await,
                }
            };
            w.m().conns[c].faulty = true;
            let w3 = w.clone();
            w.spawn_client(&format!("relay{}", c), async move {
                let w = w3;
                let p = Peer::open(&w, ORIGIN, 1000 + c).await;
                w.m().conns[p.conn].faulty = true;
                let done = shared(0u8);
                let (a, b) = ((c, 1), (p.conn, 0));
                let (w4, d4) = (w.clone(), done.clone());
                w.spawn_client(&format!("back{}", c), async move { pump(w4, b, a, pause, d4).await });
                pump(w, a, b, pause, done).await;
            });
        }
    });
}

fn c16(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    {
        let mut m = w.m();
        m.fault.accept_fail = [0, 0, 8][m.ch.pick(S::Fault, 3) as usize];
        m.fault.kill = [0, 0, 0, 16, 200][m.ch.pick(S::Fault, 5) as usize];
        m.fault.max_kills = 2;
        // the origin's listener
        m.spare = vec![1];
    }
    let n = many(w, 1, 4, 16, 60) as usize;
    let mut plans: Vec<PlanC> = vec![];
    let mut cl: Vec<(Req, Option<Want>)> = vec![];
    for i in 0..n {
        let rq = gen_req(
            w,
            &GenOpt {
                plan: Some(i),
                need_len: true,
                max_body: [300, 3000, 20000][w.weighted(S::Work, &[6, 2, 1])],
                body_len: gen_big(w),
                ..Default::default()
            },
        );
        let (mut p, mut want) = loop {
            let (p, want) = gen_response(w, 60001);
            // what a response can hold that is to be parsed again
            if want.headers.len() <= 19 && (p.status == 0 || (100..1000).contains(&p.status)) {
                break (p, want);
            }
        };
        for (_, v) in p.headers.iter_mut().chain(want.headers.iter_mut()) {
            *v = v.trim_matches(|c| c == ' ' || c == '\t').to_string();
        }
        match w.weighted(S::Work, &[6, 2, 1]) {
            // the length is told
            0 => {
                if p.resp == 1 {
                    let k = (recase(w, "Content-Length"), want.body.len().to_string());
                    p.headers.push(k.clone());
                    want.headers.push(k);
                }
            }
            1 => {}
            // the body comes back
            _ => {
                p.resp = 5;
                want = Want { status: 200, reason: "OK".into(), headers: vec![], body: rq.body.clone() };
            }
        }
        if p.resp != 5 {
            read_plan(w, &mut p, &rq.body);
        }
        p.sleep_before = [0, 0, 50, 5000][w.pick(S::Work, 4) as usize];
        p.sleep_after = [0, 0, 0, 300][w.pick(S::Work, 4) as usize];
        let mut want = Some(want);
        if w.chance(S::Work, 1, 10) {
            // the origin dies before, or (as good as not at all) after it has answered
            p.panic_at = 1 + w.pick(S::Work, 3) as u8;
            if p.panic_at < 3 {
                want = None;
            }
            if p.resp == 5 && p.panic_at == 2 {
                p.panic_at = 1;
            }
        }
        plans.push(p);
        cl.push((rq, want));
    }
    let (m1, m2) = (w.pick(S::Work, 3) as u8, w.pick(S::Work, 3) as u8);
    let mut cfg = server_cfg(3, m1, "edge", &[always()], &plans);
    cfg.push(m2);
    relay(w, [0, 0, 5, 700][w.pick(S::Work, 4) as usize]);
    boot(w, ctx, "web", cfg);
    let rc = recs(n);
    let mut afters = vec![];
    for (i, (rq, _)) in cl.iter().enumerate() {
        let after = match w.weighted(S::Work, &[8, 3, 2, 1, 1]) {
            0 => After::ReadToEnd,
            1 => After::HalfCloseRead,
            2 => After::LateRead(3000),
            3 => After::ReadThen(1, w.chance(S::Work, 1, 2)),
            _ => After::CloseNow,
        };
        afters.push(after.clone());
        let mut raw = rq.raw();
        if w.chance(S::Work, 1, 6) {
            raw.extend(b"GET /next HTTP/1.1\r\nHost: other\r\nX-Plan: 0\r\n\r\n");
        }
        client(
            w,
            i,
            EDGE,
            CPlan {
                delay_ms: w.pick(S::Work, 3) * 20,
                pieces: pieces(w, &raw, true),
                after,
                faulty: w.chance(S::Work, 1, 2),
            },
            rc.clone(),
        );
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    if let Some(e) = &w.i().procs[1].end {
        rep.fail("listener-died", format!("the second server's listening process ended: {:?}", e));
        return rep;
    }
    let any_kill = w.i().procs.iter().any(|p| p.killed || p.oom);
    let o = obs(w);
    let rc = rc.borrow();
    for (i, (rq, want)) in cl.iter().enumerate() {
        let r = &rc[i];
        let d = format!("{} -> {:?} (afters {:?}, received {} bytes, end {:?})", rq.brief(), want.as_ref().map(|x| (x.status, &x.reason, x.headers.len(), x.body.len())), afters[i], r.got.len(), r.end);
        let is = |x: &&Ob, who: &str| {
            x.kind() == "req" && x.s(2) == who && x.f[9..].chunks(2).any(|h| h[0].eq_ignore_ascii_case(b"x-plan") && h.get(1).map(|v| v == i.to_string().as_bytes()).unwrap_or(false))
        };
        let edge: Vec<_> = o.iter().filter(|x| is(x, "edge")).collect();
        let origin: Vec<_> = o.iter().filter(|x| is(x, "origin")).collect();
        // what the client took away itself
        let early = matches!(afters[i], After::ReadThen(..) | After::CloseNow) || r.end == Some(ConnEnd::Reset);
        // killed processes are not told apart here
        let calm = !any_kill;
        if edge.len() > 1 || origin.len() > 1 || edge.len() + origin.len() < 2 && calm && !early {
            rep.fail("handler-runs", format!("{} runs of the first handler, {} of the second: {}", edge.len(), origin.len(), d));
            continue;
        }
        if let Some(x) = edge.first() {
            if let Some(e) = rq.differs(x) {
                rep.fail("request-differs", format!("first server: {}", e));
            }
        }
        if let Some(x) = origin.first() {
            rep.nontrivial = true;
            // only what follows the host is passed on; and the Host header, which may be another one
            let mut q = rq.clone();
            q.scheme = "http".into();
            q.host = q.headers.iter().find(|h| h.0.eq_ignore_ascii_case("host")).unwrap().1.clone();
            if let Some(e) = q.differs(x) {
                rep.fail("request-differs", format!("second server: {}", e));
            }
            if let Some(b) = o.iter().find(|b| b.kind() == "body" && b.pid == x.pid) {
                let got = b.f.get(2).cloned().unwrap_or_default();
                let whole = calm && !early;
                if b.s(1) == "eof-then-more" || if whole { b.s(1) != "eof" || got != rq.body } else { !rq.body.starts_with(&got) } {
                    rep.fail("body-differs", format!("second server: body of {} bytes read as {} bytes, end {}: {}", rq.body.len(), got.len(), b.s(1), d));
                }
            } else if calm && !early && plans[i].read > 0 && plans[i].panic_at != 1 {
                rep.fail("body-not-complete", format!("second server: body never complete: {}", d));
            }
        }
        match want {
            None => {
                if !r.got.is_empty() {
                    rep.fail("response-invented", format!("the second server's handler died before answering, yet the client received {:?}: {}", show(&r.got), d));
                }
            }
            Some(want) => {
                if let Some(e) = want.differs(&r.got, early || !calm) {
                    rep.fail("response-differs", format!("{}: {}", e, d));
                }
            }
        }
        if matches!(afters[i], After::ReadToEnd | After::HalfCloseRead | After::LateRead(_)) && r.end.is_none() {
            rep.fail("no-end", format!("the client's connection was not ended: {}", d));
        }
    }
    rep.case = format!("modes {} and {}: {}", m1, m2, cl.iter().map(|c| c.0.brief()).collect::<Vec<_>>().join("; "));
    rep
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        guests: &["web"],
        run: c16,
        rule: "1-4 clients of a puck server that passes their requests on, with puck's own client, to a second puck server behind a relay, and its responses back; a run counts if a request reached the second server; distinct by workload and interleaving",
        real: REAL,
        stub: STUB,
        quick_runs: 120000,
    }]
}
