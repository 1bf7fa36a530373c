use crate::sim::{load, obs, Rd};
use lunatic::net::{TcpListener, TcpStream};
use lunatic::{Mailbox, Process};
use puck::body::Body;
use puck::core::router::match_url::{anything, any_integer, path, Match};
use puck::core::router::{Route, Router};
use puck::core::{Core, Stream, UsedStream};
use puck::response::encoder::Encoder;
use puck::ws::websocket::WebSocket;
use puck::request::Method;
use puck::{Request, Response};
use std::io::{BufReader, Cursor, Read};
use std::time::Duration;

pub struct RouteCfg {
    kind: u8,
    segs: Vec<(u8, String)>,
    method: String,
    handler: u8,
}
#[derive(Default)]
pub struct Plan {
    read: u8,
    sizes: Vec<u32>,
    extra: u8,
    panic_at: u8,
    sleep_before: u32,
    sleep_after: u32,
    resp: u8,
    status: u32,
    reason: String,
    headers: Vec<(String, String)>,
    headers_from: u32,
    body_kind: u8,
    body: Vec<u8>,
    body_len: u32,
    pub ops: Vec<(u8, u32, Vec<u8>)>,
}
pub struct Cfg {
    mode: u8,
    state: String,
    routes: Vec<RouteCfg>,
    plans: Vec<Plan>,
}

fn read_cfg(c: &mut Rd) -> Cfg {
    let mode = c.u8();
    let state = c.str();
    let n = c.u8();
    let mut routes = vec![];
    for _ in 0..n {
        let kind = c.u8();
        let k = c.u8();
        let segs = (0..k).map(|_| (c.u8(), c.str())).collect();
        let method = c.str();
        let handler = c.u8();
        routes.push(RouteCfg { kind, segs, method, handler });
    }
    let n = c.u32();
    let mut plans = vec![];
    for _ in 0..n {
        let mut p = Plan {
            read: c.u8(),
            ..Default::default()
        };
        let k = c.u8();
        p.sizes = (0..k).map(|_| c.u32()).collect();
        p.extra = c.u8();
        p.panic_at = c.u8();
        p.sleep_before = c.u32();
        p.sleep_after = c.u32();
        p.resp = c.u8();
        p.status = c.u32();
        p.reason = c.str();
        let k = c.u8();
        p.headers = (0..k).map(|_| (c.str(), c.str())).collect();
        p.headers_from = c.u32();
        p.body_kind = c.u8();
        p.body = c.bytes();
        p.body_len = c.u32();
        let k = c.u32();
        p.ops = (0..k).map(|_| (c.u8(), c.u32(), c.bytes())).collect();
        plans.push(p);
    }
    Cfg {
        mode,
        state,
        routes,
        plans,
    }
}

fn cfg() -> Cfg {
    let mut c = Rd::new(load());
    c.u8();
    read_cfg(&mut c)
}

/// two servers, the first of which passes on what it gets to the second
pub fn pair(mut c: Rd) {
    let first = read_cfg(&mut c);
    let mode = c.u8();
    let _ = Process::spawn(mode, |mode: u8, _: Mailbox<()>| {
        let mut second = cfg();
        second.mode = mode;
        second.state = "origin".into();
        server(second, false, "127.0.0.1:8001");
    });
    server(first, false, "127.0.0.1:8000");
}

pub fn main(mut c: Rd, ws: bool) {
    server(read_cfg(&mut c), ws, "127.0.0.1:8000")
}

fn server(cfg: Cfg, ws: bool, addr: &str) {
    match cfg.mode {
        0 => {
            let core = Core::bind(addr, cfg.state).unwrap();
            core.for_each(if ws { crate::ws::handle } else { each });
        }
        3 => {
            let l = TcpListener::bind(addr).unwrap();
            loop {
                if let Ok((stream, _)) = l.accept() {
                    let _ = Process::spawn((stream, cfg.state.clone(), ws), own);
                }
            }
        }
        m => {
            let mut router = Router::<String>::new();
            for i in 0..cfg.routes.len() {
                let h = cfg.routes[i].handler as usize;
                router = router.route(Route::new(MATCHERS[i], if ws { WS[h] } else { HANDLERS[h] }));
            }
            if m == 1 {
                Core::bind(addr, cfg.state).unwrap().serve_router(router);
            } else {
                let l = TcpListener::bind(addr).unwrap();
                router.run(l, cfg.state);
            }
        }
    }
}

/// a connection, however it came about
pub enum Conn {
    Puck(Stream),
    Own(TcpStream),
}
impl Conn {
    fn respond(self, res: Response) -> std::io::Result<UsedStream> {
        match self {
            Conn::Puck(s) => s.respond(res),
            // two ways which differ in what becomes of errors
            Conn::Own(s) if *res.status() % 2 == 1 => {
                puck::write_response(res, s);
                Ok(UsedStream::empty())
            }
            Conn::Own(s) => Encoder::new(res).write_tcp_stream(s).map(|_| UsedStream::empty()),
        }
    }
    pub fn upgrade(self, req: &Request) -> Result<WebSocket, UsedStream> {
        match self {
            Conn::Puck(s) => s.upgrade(req),
            Conn::Own(s) => {
                if !puck::ws::should_upgrade(req) {
                    puck::write_response(puck::err_400(), s);
                    Err(UsedStream::empty())
                } else if puck::ws::perform_upgrade(req, s.clone()) {
                    Ok(WebSocket::new(s))
                } else {
                    Err(UsedStream::empty())
                }
            }
        }
    }
}

/// an application which does without puck's serving loops
fn own((stream, state, ws): (TcpStream, String, bool), _: Mailbox<()>) {
    match Request::parse(stream.clone()) {
        Ok(Some(req)) if ws => drop(crate::ws::go_on(req, Conn::Own(stream), state)),
        Ok(Some(req)) => drop(serve(99, req, Conn::Own(stream), state)),
        _ => puck::write_response(puck::err_400(), stream),
    }
}

type Handler = fn(Request, Stream, String) -> UsedStream;
const MATCHERS: [fn(&Request) -> bool; 70] = [
    mat::<0>, mat::<1>, mat::<2>, mat::<3>, mat::<4>, mat::<5>, mat::<6>, mat::<7>, mat::<8>, mat::<9>,
    mat::<10>, mat::<11>, mat::<12>, mat::<13>, mat::<14>, mat::<15>, mat::<16>, mat::<17>, mat::<18>, mat::<19>,
    mat::<20>, mat::<21>, mat::<22>, mat::<23>, mat::<24>, mat::<25>, mat::<26>, mat::<27>, mat::<28>, mat::<29>,
    mat::<30>, mat::<31>, mat::<32>, mat::<33>, mat::<34>, mat::<35>, mat::<36>, mat::<37>, mat::<38>, mat::<39>,
    mat::<40>, mat::<41>, mat::<42>, mat::<43>, mat::<44>, mat::<45>, mat::<46>, mat::<47>, mat::<48>, mat::<49>,
    mat::<50>, mat::<51>, mat::<52>, mat::<53>, mat::<54>, mat::<55>, mat::<56>, mat::<57>, mat::<58>, mat::<59>,
    mat::<60>, mat::<61>, mat::<62>, mat::<63>, mat::<64>, mat::<65>, mat::<66>, mat::<67>, mat::<68>, mat::<69>,
];
const HANDLERS: [Handler; 70] = [
    han::<0>, han::<1>, han::<2>, han::<3>, han::<4>, han::<5>, han::<6>, han::<7>, han::<8>, han::<9>,
    han::<10>, han::<11>, han::<12>, han::<13>, han::<14>, han::<15>, han::<16>, han::<17>, han::<18>, han::<19>,
    han::<20>, han::<21>, han::<22>, han::<23>, han::<24>, han::<25>, han::<26>, han::<27>, han::<28>, han::<29>,
    han::<30>, han::<31>, han::<32>, han::<33>, han::<34>, han::<35>, han::<36>, han::<37>, han::<38>, han::<39>,
    han::<40>, han::<41>, han::<42>, han::<43>, han::<44>, han::<45>, han::<46>, han::<47>, han::<48>, han::<49>,
    han::<50>, han::<51>, han::<52>, han::<53>, han::<54>, han::<55>, han::<56>, han::<57>, han::<58>, han::<59>,
    han::<60>, han::<61>, han::<62>, han::<63>, han::<64>, han::<65>, han::<66>, han::<67>, han::<68>, han::<69>,
];
const WS: [Handler; 16] = [wsh::<0>, wsh::<1>, wsh::<2>, wsh::<3>, wsh::<4>, wsh::<5>, wsh::<6>, wsh::<7>, wsh::<8>, wsh::<9>, wsh::<10>, wsh::<11>, wsh::<12>, wsh::<13>, wsh::<14>, wsh::<15>];

fn mat<const I: usize>(req: &Request) -> bool {
    let mut cfg = cfg();
    let r = cfg.routes.swap_remove(I);
    match r.kind {
        0 => true,
        1 => false,
        2 => method(req.method()) == r.method,
        3 => panic!("matcher panics"),
        _ => {
            let mut m = Match::new();
            for (k, s) in r.segs {
                m = m.at(match k {
                    0 => path(Box::leak(s.into_boxed_str())),
                    1 => anything(),
                    _ => any_integer(),
                });
            }
            m.does_match(req.url())
        }
    }
}
fn han<const I: usize>(req: Request, s: Stream, state: String) -> UsedStream {
    serve(I, req, Conn::Puck(s), state)
}
fn wsh<const I: usize>(req: Request, s: Stream, state: String) -> UsedStream {
    crate::ws::handle(req, s, state)
}
fn each(req: Request, s: Stream, state: String) -> UsedStream {
    serve(99, req, Conn::Puck(s), state)
}

pub fn method(m: &Method) -> &str {
    match m {
        Method::Get => "GET",
        Method::Post => "POST",
        Method::Head => "HEAD",
        // a comparison with the method's own variant would fail
        Method::OtherMethod(s) if s == "GET" || s == "POST" || s == "HEAD" => "(a known method as OtherMethod)",
        Method::OtherMethod(s) => s,
    }
}

pub fn header<'a>(req: &'a Request, name: &str) -> Option<&'a String> {
    req.headers().iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|x| x.1)
}

pub fn plan_of(req: &Request) -> Plan {
    let mut cfg = cfg();
    let i = header(req, "x-plan").and_then(|v| v.parse::<usize>().ok()).unwrap_or(0);
    if i < cfg.plans.len() {
        cfg.plans.swap_remove(i)
    } else {
        Plan::default()
    }
}

pub fn observe_req(route: usize, req: &Request, state: &str) {
    let u = req.url();
    let host = match (u.host_str(), u.port()) {
        (Some(h), Some(p)) => format!("{}:{}", h, p),
        (Some(h), None) => h.to_string(),
        _ => String::new(),
    };
    let route = route.to_string();
    let mut hs: Vec<(&String, &String)> = req.headers().iter().collect();
    hs.sort();
    let mut f: Vec<&[u8]> = vec![
        b"req",
        route.as_bytes(),
        state.as_bytes(),
        method(req.method()).as_bytes(),
        u.scheme().as_bytes(),
        host.as_bytes(),
        u.path().as_bytes(),
        if u.query().is_some() { b"1" } else { b"0" },
        u.query().unwrap_or("").as_bytes(),
    ];
    for (k, v) in hs {
        f.push(k.as_bytes());
        f.push(v.as_bytes());
    }
    obs(&f);
}

/// hands out its data in small pieces
struct Drip(Cursor<Vec<u8>>, usize);
impl Read for Drip {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.1 = self.1 % 5 + 1;
        let n = buf.len().min(self.1);
        self.0.read(&mut buf[..n])
    }
}

fn make_body(kind: u8, data: Vec<u8>, len: u32) -> Option<Body> {
    Some(match kind {
        0 => return None,
        1 => match String::from_utf8(data) {
            Ok(s) => Body::from_string(s),
            Err(e) => {
                let d = e.into_bytes();
                let n = d.len();
                Body::from_reader(Cursor::new(d), Some(n))
            }
        },
        2 => Body::from_reader(Cursor::new(data), Some(len as usize)),
        3 => Body::from_reader(Cursor::new(data), None),
        4 => Body::from_reader(BufReader::new(Drip(Cursor::new(data), 0)), Some(len as usize)),
        _ => Body::from_reader(BufReader::with_capacity(3, Drip(Cursor::new(data), 0)), None),
    })
}

fn serve(route: usize, mut req: Request, stream: Conn, state: String) -> UsedStream {
    let plan = plan_of(&req);
    observe_req(route, &req, &state);
    if state == "edge" {
        return pass_on(req, stream, plan);
    }
    if plan.panic_at == 1 {
        panic!("plan");
    }
    let mut got = vec![];
    if plan.read > 0 {
        let mut body = match plan.read {
            7 => req.replace_body("kept"),
            _ => req.take_body(),
        };
        let mut failed = false;
        if plan.read == 4 || plan.read == 5 {
            // some of it piece by piece
            failed |= !matches!(body.read(&mut []), Ok(0));
            for n in &plan.sizes {
                let mut buf = vec![0xEEu8; *n as usize];
                match body.read(&mut buf) {
                    Ok(k) => {
                        obs(&[b"chunk", &buf[..k]]);
                        got.extend_from_slice(&buf[..k]);
                    }
                    Err(_) => failed = true,
                }
            }
        }
        let end: Vec<u8> = match plan.read {
            _ if failed => b"err".to_vec(),
            4 => match body.into_bytes() {
                Ok(b) => {
                    got.extend(b);
                    b"eof".to_vec()
                }
                Err(_) => b"err".to_vec(),
            },
            5 => match body.into_string() {
                Ok(b) => {
                    got.extend(b.into_bytes());
                    b"eof".to_vec()
                }
                Err(_) => b"err".to_vec(),
            },
            6 => match std::io::copy(&mut body, &mut got) {
                Ok(_) => b"eof".to_vec(),
                Err(_) => b"err".to_vec(),
            },
            1 => match body.into_bytes() {
                Ok(b) => {
                    got = b;
                    b"eof".to_vec()
                }
                Err(_) => b"err".to_vec(),
            },
            2 => match body.into_string() {
                Ok(b) => {
                    got = b.into_bytes();
                    b"eof".to_vec()
                }
                Err(_) => b"err".to_vec(),
            },
            _ => {
                let mut i = 0;
                loop {
                    let n = plan.sizes[i % plan.sizes.len()] as usize;
                    i += 1;
                    let mut buf = vec![0xEEu8; n];
                    match body.read(&mut buf) {
                        Ok(0) => {
                            let mut bad = false;
                            for _ in 0..plan.extra {
                                let mut b = [0u8; 4];
                                bad |= !matches!(body.read(&mut b), Ok(0));
                            }
                            break if bad { b"eof-then-more".to_vec() } else { b"eof".to_vec() };
                        }
                        Ok(k) => {
                            obs(&[b"chunk", &buf[..k]]);
                            got.extend_from_slice(&buf[..k]);
                        }
                        Err(_) => break b"err".to_vec(),
                    }
                }
            }
        };
        if plan.read == 7 && !matches!(req.take_body().into_string(), Ok(s) if s == "kept") {
            obs(&[b"body", b"replaced body lost", &got]);
        }
        obs(&[b"body", &end, &got]);
    }
    if plan.panic_at == 2 {
        panic!("plan");
    }
    if plan.sleep_before > 0 {
        lunatic::sleep(Duration::from_millis(plan.sleep_before as u64));
    }
    let res = match plan.resp {
        0 => {
            obs(&[b"done"]);
            return UsedStream::empty();
        }
        1 => {
            let mut b = Response::build();
            if plan.status != 0 {
                b = b.status(plan.status as u16, &plan.reason);
            }
            let at = plan.headers.len() - plan.headers.len().min(plan.headers_from as usize);
            for (k, v) in &plan.headers[..at] {
                b = b.header(k, v);
            }
            if at < plan.headers.len() {
                b = b.headers(plan.headers[at..].to_vec());
            }
            if plan.body_kind >= 8 {
                // the body is set afterwards
                let mut res = b.body("old").build();
                let old = match make_body(plan.body_kind - 8, plan.body, plan.body_len) {
                    Some(body) => res.replace_body(body),
                    None => res.take_body(),
                };
                assert_eq!(old.into_string().unwrap(), "old");
                res
            } else {
                if let Some(body) = make_body(plan.body_kind, plan.body, plan.body_len) {
                    b = b.body(body);
                }
                b.build()
            }
        }
        2 => {
            let tag = header(&req, "x-tag").cloned().unwrap_or_default();
            let n = got.len();
            Response::build()
                .status(200, "OK")
                .header("X-Tag", tag)
                .header("Content-Length", n)
                .headers(vec![("X-Path".to_string(), req.url().path().to_string())])
                .body(Body::from_reader(Cursor::new(got), Some(n)))
                .build()
        }
        3 => puck::err_404(),
        4 => puck::err_400(),
        _ => {
            // the body of the response is the body of the request, never held in memory whole
            let b = req.take_body();
            Response::build().status(200, "OK").body(b).build()
        }
    };
    let r = stream.respond(res);
    obs(&[b"respond", if r.is_ok() { b"ok" } else { b"err" }]);
    if plan.panic_at == 3 {
        panic!("plan");
    }
    if plan.sleep_after > 0 {
        lunatic::sleep(Duration::from_millis(plan.sleep_after as u64));
    }
    obs(&[b"done"]);
    match r {
        Ok(u) => u,
        Err(_) => UsedStream::empty(),
    }
}

pub fn body_of(kind: u8, data: Vec<u8>, len: u32) -> Option<Body> {
    make_body(kind, data, len)
}

/// sends a request to another server, and its response back
fn pass_on(mut req: Request, stream: Conn, plan: Plan) -> UsedStream {
    let up = match TcpStream::connect("127.0.0.1:9000") {
        Ok(s) => s,
        Err(_) => {
            obs(&[b"passed", b"noconnect"]);
            return UsedStream::empty();
        }
    };
    if plan.sleep_after > 0 {
        lunatic::sleep(Duration::from_millis(plan.sleep_after as u64));
    }
    if req.write(&mut up.clone()).is_err() {
        obs(&[b"passed", b"noreq"]);
        return UsedStream::empty();
    }
    match Response::parse(up) {
        Ok(Some(res)) => {
            let r = stream.respond(res);
            obs(&[b"passed", if r.is_ok() { b"ok" } else { b"err" }]);
            r.unwrap_or_else(|_| UsedStream::empty())
        }
        _ => {
            obs(&[b"passed", b"nores"]);
            UsedStream::empty()
        }
    }
}
