//! puck as an HTTP client (C08): the guest connects to a simulated server.

use crate::choice::S;
use crate::host::show;
use crate::http::*;
use crate::run::*;
use crate::s_http::*;
use crate::util::*;
use crate::world::*;

const PORT: u16 = 9000;

#[derive(Clone, Debug, PartialEq)]
enum Done {
    /// keep the connection open for ever
    Open,
    Close,
    HalfClose,
    Abort,
}

#[derive(Clone, Debug, PartialEq)]
enum Expect {
    /// a response, and how much of the body; `true`: all of it, else a prefix
    Ok(bool),
    /// none or an error
    Bad(&'static str),
}

#[derive(Clone, Debug)]
struct Job {
    url: String,
    method: String,
    target: String,
    headers: Vec<(String, String)>,
    body_kind: u8,
    body: Vec<u8>,
    body_len: u32,
    wire_body: Vec<u8>,
    read: u8,
    sizes: Vec<u32>,
    delay: u32,
    // the server's side
    pieces: Vec<(Vec<u8>, u32)>,
    done: Done,
    /// answer before the request was read; `usize::MAX`: after all of it
    answer_after: usize,
    expect: Expect,
    status: u32,
    reason: String,
    rheaders: Vec<(String, String)>,
    rbody: Vec<u8>,
    twin: Option<usize>,
}

impl Job {
    fn request_len(&self) -> usize {
        self.method.len()
            + 1
            + self.target.len()
            + 11
            + self.headers.iter().map(|(k, v)| k.len() + v.len() + 4).sum::<usize>()
            + 2
            + self.wire_body.len()
    }
    fn brief(&self) -> String {
        format!(
            "{} {} ({} bytes) -> {} {:?} ({} headers, {} body bytes, read {}), {:?}, {:?}",
            self.method,
            self.target,
            self.request_len(),
            self.status,
            self.reason,
            self.rheaders.len(),
            self.rbody.len(),
            self.read,
            self.expect,
            self.done
        )
    }
}

fn uniq(hs: &mut Vec<(String, String)>, k: String, v: String) {
    if !hs.iter().any(|(a, _)| a.eq_ignore_ascii_case(&k)) {
        hs.push((k, v));
    }
}

fn gen_job(w: &World, i: usize) -> Job {
    // the request
    let method = ["GET", "POST", "HEAD", "PUT", "DELETE", "M-SEARCH", "X!#$%&'*+.^_`|~"][w.weighted(S::Work, &[4, 4, 2, 1, 1, 1, 1])];
    let mut path = format!("/j{}", i);
    for _ in 0..many(w, 0, 4, 60, 40) {
        path.push('/');
        path.push_str(&segment(w, 0, 8));
    }
    let mut target = path;
    if w.chance(S::Work, 1, 2) {
        target.push('?');
        target.push_str(&segment(w, 0, 10));
        for _ in 0..many(w, 0, 2, 200, 40) {
            target.push(b"?/=&"[w.pick(S::Work, 4) as usize] as char);
            target.push_str(&segment(w, 0, 6));
        }
    }
    let mut url = format!("http://127.0.0.1:9000{}", target);
    if w.chance(S::Work, 1, 8) {
        url.push_str("#frag");
    }
    let mut headers = vec![];
    for k in 0..many(w, 0, 8, 80, 40) {
        let n = format!("{}{}", ["Host", "X-A", "content-type", "a", "Cookie"][w.pick(S::Work, 5) as usize], k);
        let v = gen_value(w);
        uniq(&mut headers, n, v);
    }
    let max = [200, 3000, 40000][w.weighted(S::Work, &[6, 2, 1])];
    let body = gen_big(w).map(|n| body_bytes(w, n)).unwrap_or_else(|| gen_body(w, max));
    let body_kind = if body.len() > 50000 { 1 + w.pick(S::Work, 3) as u8 } else { w.pick(S::Work, 6) as u8 };
    let mut body_len = 0;
    let mut wire_body = body.clone();
    match body_kind {
        0 => wire_body.clear(),
        2 | 4 => {
            body_len = match w.weighted(S::Work, &[4, 1, 1]) {
                0 => body.len() as u32,
                1 => w.pick(S::Work, body.len() as u32 + 1),
                _ => body.len() as u32 + 7,
            };
            wire_body.truncate(body_len as usize);
        }
        _ => {}
    }
    if w.chance(S::Work, 1, 2) {
        headers.push((recase(w, "Content-Length"), wire_body.len().to_string()));
    }
    let body_kind = if w.chance(S::Work, 1, 12) {
        // the body replaces another one, which sets its type
        headers.push(("Content-Type".into(), "application/octet-stream".into()));
        body_kind + 8
    } else {
        body_kind
    };

    // the response
    let status = [200, 201, 204, 301, 404, 500, 599, 101, 999, 100][w.pick(S::Work, 10) as usize];
    let reason = ["OK", "", "Not Found", "a longer reason phrase", "x\ty", "OK ", " OK", " ", "déjà vu", "a reason phrase which goes on for more than sixty-four bytes, and then some more: 200 HTTP/1.1"][w.pick(S::Work, 10) as usize].to_string();
    let version = if w.chance(S::Work, 1, 8) { "HTTP/1.0" } else { "HTTP/1.1" };
    let mut rheaders = vec![];
    let top = if w.chance(S::Work, 1, 8) { 19 } else { 7 };
    for k in 0..w.size(S::Work, 0, top) {
        let n = match w.weighted(S::Work, &[10, 1, 1]) {
            0 => format!("{}{}", recase(w, ["X-A", "Content-Type", "Z", "Set-Cookie", "a"][w.pick(S::Work, 5) as usize]), k),
            1 => format!("Content-Length-{}", k),
            _ => format!("x{}!#$%&'*+-.^_`|~", k),
        };
        let v = gen_value(w);
        uniq(&mut rheaders, n, v);
    }
    let max = [200, 3000, 40000][w.weighted(S::Work, &[6, 2, 1])];
    let rbody = gen_big(w).map(|n| body_bytes(w, n)).unwrap_or_else(|| gen_body(w, max));
    let has_len = w.chance(S::Work, 3, 4);
    if has_len {
        let at = w.pick(S::Work, rheaders.len() as u32 + 1) as usize;
        let n = recase(w, "Content-Length");
        rheaders.insert(at, (n, rbody.len().to_string()));
    }
    // a length the server does not keep to
    let claim = if has_len && w.chance(S::Work, 1, 12) { (rbody.len() as u64).saturating_add(claim_of(w)) } else { 0 };
    if claim > 0 {
        for (n, v) in rheaders.iter_mut() {
            if n.eq_ignore_ascii_case("content-length") {
                *v = claim.to_string();
            }
        }
    }
    let mut first = if reason.is_empty() && w.chance(S::Work, 1, 2) {
        format!("{} {}\r\n", version, status)
    } else {
        format!("{} {} {}\r\n", version, status, reason)
    };
    let loose = w.chance(S::Work, 1, 4);
    let mut lines: Vec<Vec<u8>> = rheaders
        .iter()
        .map(|(k, v)| {
            let mut l = format!("{}:", k).into_bytes();
            let sp = if loose { w.pick(S::Work, 4) } else { 1 };
            l.extend(std::iter::repeat(b' ').take(sp as usize));
            l.extend(v.as_bytes());
            if loose {
                l.extend(std::iter::repeat(b' ').take(w.pick(S::Work, 3) as usize));
            }
            l.extend(b"\r\n");
            l
        })
        .collect();
    if rheaders.len() < 20 {
        if let Some((k, v)) = pad(w, first.len() + lines.iter().map(|l| l.len()).sum::<usize>() + 2) {
            lines.push(format!("{}: {}\r\n", k, v).into_bytes());
            rheaders.push((k, v));
        }
    }
    let mut expect = Expect::Ok(true);
    let mut done = if has_len {
        [Done::Open, Done::Close, Done::HalfClose][w.pick(S::Work, 3) as usize].clone()
    } else {
        [Done::Close, Done::HalfClose][w.pick(S::Work, 2) as usize].clone()
    };
    let kind = if claim > 0 { 2 } else { w.weighted(S::Work, &[10, 4, 3, 3]) };
    if kind == 3 {
        // a head that is not a response
        let at = w.pick(S::Work, lines.len() as u32 + 1) as usize;
        let why = match w.pick(S::Work, 13) {
            0 => {
                first = format!("HTTP/1.1 {} OK\r\n", ["abc", "20", "-12", "2x0", ""][w.pick(S::Work, 5) as usize]);
                "status"
            }
            1 => {
                first = ["HTTP/3.0 200 OK\r\n", "http/1.1 200 OK\r\n", "XTTP/1.1 200 OK\r\n", "GET / HTTP/1.1\r\n", "200 OK\r\n"][w.pick(S::Work, 5) as usize].into();
                "version"
            }
            2 => {
                lines.insert(at, b"no colon here\r\n".to_vec());
                "no colon"
            }
            3 => {
                lines.insert(at, b"bad name: x\r\n".to_vec());
                "space in name"
            }
            4 => {
                lines.insert(at, b": empty name\r\n".to_vec());
                "empty name"
            }
            5 => {
                lines.insert(at, b"X-Bad: \xff\xfe\r\n".to_vec());
                "not utf-8"
            }
            6 => {
                let n = 21usize.saturating_sub(lines.len());
                for i in 0..n {
                    lines.push(format!("Y{}: {}\r\n", i, i).into_bytes());
                }
                "too many headers"
            }
            7 => {
                lines.insert(at, b"X-Ctl: a\x01b\r\n".to_vec());
                "control character"
            }
            11 => {
                lines.insert(at, b" folded\r\n".to_vec());
                "folded line"
            }
            12 => {
                lines.insert(at, b"\n".to_vec());
                lines.push(b"Y-Last: x\r\n".to_vec());
                "bare line feed"
            }
            8 => {
                lines.insert(at, b"X\x00: a\r\n".to_vec());
                "nul in name"
            }
            9 => {
                first = String::new();
                lines.clear();
                "empty head"
            }
            _ => {
                lines.insert(at, b"X: a\rb\r\n".to_vec());
                "bare cr"
            }
        };
        expect = Expect::Bad(why);
    }
    let mut raw = first.into_bytes();
    for l in &lines {
        raw.extend(l);
    }
    raw.extend(b"\r\n");
    if kind == 3 && raw.len() < 4 {
        raw.extend(b"\r\n");
    }
    let head = raw.len();
    raw.extend(&rbody);
    match kind {
        // more behind the body
        1 if has_len => {
            let k = w.size(S::Work, 1, 400) as usize;
            raw.extend((0..k).map(|i| b"HTTP/1.1 500 No\r\n\r\n"[i % 19]));
        }
        // cut short
        2 => {
            let n = if claim > 0 { raw.len() } else if w.chance(S::Work, 1, 2) { w.pick(S::Work, head as u32) as usize } else { w.pick(S::Work, raw.len() as u32) as usize };
            raw.truncate(n);
            expect = if n < head { Expect::Bad("truncated head") } else { Expect::Ok(false) };
            done = [Done::Close, Done::HalfClose, Done::Abort][w.pick(S::Work, 3) as usize].clone();
        }
        _ => {}
    }
    let read = w.pick(S::Work, 3) as u8;
    Job {
        url,
        method: method.into(),
        target,
        headers,
        body_kind,
        body,
        body_len,
        wire_body,
        read,
        sizes: if rbody.len() > 50000 {
            vec![[4000, 10000, 10001, 65536, 300000][w.pick(S::Work, 5) as usize]]
        } else {
            (0..w.size(S::Work, 1, 4)).map(|_| [1, 2, 7, 64, 999, 1000, 1001, 20000][w.pick(S::Work, 8) as usize]).collect()
        },
        delay: w.pick(S::Work, 3) * 10,
        pieces: pieces(w, &raw, true),
        done,
        answer_after: match w.weighted(S::Work, &[4, 1, 1]) {
            0 => usize::MAX,
            1 => 0,
            _ => w.size(S::Work, 0, 300) as usize,
        },
        expect,
        status,
        reason,
        rheaders,
        rbody,
        twin: None,
    }
}

#[derive(Default, Clone)]
struct SRec {
    got: Vec<u8>,
    end: Option<ConnEnd>,
    sent_all: bool,
    sent_at: u64,
}

fn c08(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    if w.chance(S::Fault, 1, 6) {
        let mut m = w.m();
        m.fault.kill = [8, 64, 400][m.ch.pick(S::Fault, 3) as usize];
        m.fault.max_kills = 2;
    }
    let n = many(w, 1, 4, 16, 60) as usize;
    let mut jobs: Vec<Job> = vec![];
    for i in 0..n {
        if i > 0 && w.chance(S::Work, 1, 6) {
            // another process, the same response
            let k = w.pick(S::Work, i as u32) as usize;
            let mut j = jobs[k].clone();
            if j.expect == Expect::Ok(true) {
                j.twin = Some(k);
                jobs.push(j);
                continue;
            }
        }
        jobs.push(gen_job(w, i));
    }
    // a response whose length is given twice, differently: same bytes, same outcome
    let mut twice: Vec<usize> = vec![];
    if w.chance(S::Work, 1, 6) {
        let (a, b) = (w.size(S::Work, 0, 9), w.size(S::Work, 0, 9));
        let raw = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\ncontent-length: {}\r\n\r\n0123456789", a, b).into_bytes();
        for _ in 0..3 {
            let mut j = jobs[0].clone();
            j.pieces = vec![(raw.clone(), 0)];
            j.done = Done::HalfClose;
            j.answer_after = usize::MAX;
            j.read = 0;
            twice.push(jobs.len());
            jobs.push(j);
        }
    }
    let mut e = Enc::default();
    e.u8(2).u32(jobs.len() as u32);
    for j in &jobs {
        e.str(&j.url).str(&j.method).u8(j.headers.len() as u8);
        for (k, v) in &j.headers {
            e.str(k).str(v);
        }
        e.u8(j.body_kind).bytes(&j.body).u32(j.body_len).u8(j.read).u8(j.sizes.len() as u8);
        for s in &j.sizes {
            e.u32(*s);
        }
        e.u32(j.delay);
    }
    let recs: Shared<Vec<Option<(usize, SRec)>>> = shared(vec![]);
    // server: one task accepts, one per connection
    let l = w.listen(PORT, None).unwrap();
    // process 0 is the guest's main; its children start the jobs in order
    {
        let (w2, jobs, recs) = (w.clone(), jobs.clone(), recs.clone());
        w.spawn_client("server", async move {
            let w = w2;
            loop {
                let c = loop {
                    match w.try_accept(l) {
                        Some(c) => break c,
                        None => w.wait(vec![Key::Accept(l)], None).await,
                    }
                };
                w.m().conns[c].faulty = true;
                // which job this is: its process was the (job+1)th to be spawned
                let pid = w.i().procs.iter().position(|p| p.took.contains(&c));
                let job = match pid {
                    Some(p) if p >= 1 && p <= jobs.len() => p - 1,
                    _ => continue,
                };
                let len = recs.borrow().len().max(c + 1);
                recs.borrow_mut().resize(len, None);
                recs.borrow_mut()[c] = Some((job, SRec::default()));
                let (w3, j, recs) = (w.clone(), jobs[job].clone(), recs.clone());
                w.spawn_client(&format!("server{}", c), async move {
                    let w = w3;
                    let mut p = Peer::adopt(&w, c);
                    let want = j.answer_after.min(j.request_len());
                    while p.got.len() < want && p.more().await {}
                    let mut ok = true;
                    for (b, pause) in &j.pieces {
                        if !p.send(b).await {
                            ok = false;
                            break;
                        }
                        if *pause > 0 {
                            w.sleep(*pause as u64 * MS).await;
                        }
                    }
                    let save = |p: &Peer| {
                        let mut r = recs.borrow_mut();
                        if let Some((_, s)) = &mut r[c] {
                            s.got = p.got.clone();
                            s.end = p.end;
                        }
                    };
                    {
                        let mut r = recs.borrow_mut();
                        if let Some((_, s)) = &mut r[c] {
                            s.sent_all = ok;
                            s.sent_at = w.now();
                        }
                    }
                    match j.done {
                        Done::Open => {
                            p.read_to_end().await;
                            save(&p);
                        }
                        Done::Close | Done::Abort => {
                            p.drain();
                            save(&p);
                            if j.done == Done::Close {
                                p.close()
                            } else {
                                p.abort()
                            }
                        }
                        Done::HalfClose => {
                            p.half_close();
                            p.read_to_end().await;
                            save(&p);
                            p.close();
                        }
                    }
                });
            }
        });
    }
    boot(w, ctx, "web", e.0);
    finish(w, &mut rep);
    let o = obs(w);
    let recs = recs.borrow();
    let mut seen = vec![];
    for (i, j) in jobs.iter().enumerate() {
        let id = i.to_string();
        let mine = |k: &str| o.iter().find(|x| x.kind() == k && x.s(1) == id);
        let pid = i + 1;
        let (killed, conn) = {
            let m = w.i();
            match m.procs.get(pid) {
                Some(p) => (p.killed || p.oom, p.took.first().copied()),
                None => (true, None),
            }
        };
        let main_hit = w.i().procs[0].killed || w.i().procs[0].oom;
        let c = match conn {
            Some(c) => c,
            None => {
                if !killed && !main_hit {
                    rep.fail("not-connected", format!("job {} never connected", i));
                }
                continue;
            }
        };
        let s = match recs.get(c) {
            Some(Some((job, s))) if *job == i => s.clone(),
            _ => SRec::default(),
        };
        rep.nontrivial = true;
        // the request on the wire
        let early = j.done != Done::Open && j.done != Done::HalfClose || s.end == Some(ConnEnd::Reset);
        let line = format!("{} {} HTTP/1.1\r\n", j.method, j.target);
        if let Some(d) = message_differs(&line, &j.headers, &j.wire_body, &s.got, early || killed) {
            rep.fail("request-differs", format!("job {}: {}; {}", i, d, j.brief()));
        }
        if killed {
            continue;
        }
        // the response
        let res = mine("res");
        let body = mine("body");
        if mine("done").is_none() {
            let err = w.i().procs[pid].stderr.clone();
            rep.fail(
                "not-finished",
                format!("job {}: written {:?}, response {:?}, never finished (server done {:?}); {}; {}", i, mine("written").map(|x| x.s(2).to_string()), res.map(|x| x.s(2).to_string()), s.sent_all, j.brief(), show(&err)),
            );
            continue;
        }
        seen.push((i, format!("{:?} {:?}", res.map(|x| &x.f[2..]), body.map(|x| &x.f[2..]))));
        if twice.contains(&i) {
            continue;
        }
        let how = res.map(|x| x.s(2)).unwrap_or("");
        // a reset may take away data that was already on its way; closing with unread data resets too
        let reset = j.done == Done::Abort || j.done == Done::Close && s.got.len() < j.request_len();
        match &j.expect {
            Expect::Bad(why) => {
                if how == "ok" {
                    rep.fail("invented-response", format!("job {}: {} taken as a response: {:?}; {}", i, why, res.unwrap().f.iter().skip(3).map(|x| show(x)).collect::<Vec<_>>(), j.brief()));
                }
            }
            Expect::Ok(full) => {
                if how != "ok" {
                    if !reset {
                        rep.fail("response-refused", format!("job {}: {} instead of a response: {}", i, how, j.brief()));
                    }
                    continue;
                }
                let x = res.unwrap();
                let mut hs: Vec<(String, String)> = j.rheaders.clone();
                hs.sort();
                let got: Vec<(String, String)> = x.f[5..]
                    .chunks(2)
                    .map(|c| (String::from_utf8_lossy(&c[0]).to_string(), String::from_utf8_lossy(c.get(1).map(|x| &x[..]).unwrap_or(b"")).to_string()))
                    .collect();
                if x.s(3) != j.status.to_string() || x.s(4) != j.reason || hs != got {
                    rep.fail(
                        "response-differs",
                        format!("job {}: sent {} {:?} {:?}, parsed {} {:?} {:?}", i, j.status, j.reason, hs, x.s(3), x.s(4), got),
                    );
                }
                let utf8 = std::str::from_utf8(&j.rbody).is_ok();
                let (end, data) = match body {
                    Some(b) => (b.s(2), b.f.get(3).cloned().unwrap_or_default()),
                    None => {
                        rep.fail("body-not-read", format!("job {}: {}", i, j.brief()));
                        continue;
                    }
                };
                let bad = if j.read == 1 && !utf8 {
                    // a string can't hold it
                    end != "err" && *full
                } else if *full && !reset {
                    end != "eof" || data != j.rbody
                } else {
                    !j.rbody.starts_with(&data)
                };
                if bad {
                    rep.fail(
                        "body-differs",
                        format!("job {}: body of {} bytes read as {} bytes ending in {}; {}", i, j.rbody.len(), data.len(), end, j.brief()),
                    );
                }
            }
        }
    }
    for k in twice.iter().skip(1) {
        let f = |k: usize| seen.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        if let (Some(a), Some(b)) = (f(twice[0]), f(*k)) {
            if a != b {
                rep.fail("same-bytes-differ", format!("{} / {}", a, b));
            }
        }
    }
    rep.case = jobs.iter().map(|j| j.brief()).collect::<Vec<_>>().join("; ");
    rep
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        guests: &["web"],
        run: c08,
        rule: "1-7 processes use puck as a client of a simulated server that answers with complete, truncated, followed-up or malformed responses, early or late, and keeps, closes or resets the connection; a run counts if a connection was made; distinct by workload and interleaving",
        real: REAL,
        stub: STUB,
        quick_runs: 180000,
    }]
}
