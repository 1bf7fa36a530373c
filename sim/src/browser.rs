//! The browser: a node process (one per worker thread) that runs the repository's client script on
//! a document model.  Every command is answered before the simulation goes on, so a run stays one
//! deterministic sequence.

use crate::host::spawn;
use crate::run::Ctx;
use crate::util::*;
use crate::world::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

const SOURCE: &str = include_str!("../node/browser.js");

struct Node {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn fatal(m: &str) -> ! {
    eprintln!("the simulated browser does not work: {}", m);
    std::process::exit(2)
}

fn start() -> Node {
    let mut child = Command::new("node")
        .arg("-e")
        .arg(SOURCE)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .unwrap_or_else(|e| fatal(&format!("cannot start node: {}", e)));
    let stdin = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in out.lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        return;
                    }
                }
                Err(_) => return,
            }
        }
    });
    Node { child, stdin, rx }
}

/// None: the client script did not come back
fn ask(cmd: J) -> Option<J> {
    let mut line = cmd.line();
    line.push('\n');
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(start);
        if node.stdin.write_all(line.as_bytes()).and_then(|_| node.stdin.flush()).is_err() {
            fatal("node ended");
        }
        match node.rx.recv_timeout(Duration::from_secs(15)) {
            Ok(l) => {
                let j = J::parse(&l).unwrap_or_else(|| fatal(&format!("bad answer {}", l)));
                if let Some(f) = j.get("fatal") {
                    fatal(f.str());
                }
                Some(j)
            }
            Err(_) => {
                *n = None;
                None
            }
        }
    })
}

fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn strings(j: Option<&J>) -> Vec<String> {
    j.map(|a| a.arr().iter().map(|s| s.str().to_string()).collect()).unwrap_or_default()
}

/// what one command did in a browser
#[derive(Clone, Debug, Default)]
pub struct Did {
    pub sent: Vec<String>,
    pub errors: Vec<String>,
    pub dom: Option<J>,
    pub elements: usize,
    pub hung: bool,
}

/// to be called at the start of each run
pub fn reset() {
    ask(obj(vec![("cmd", J::s("reset"))]));
}
/// the `src` of the page's scripts
pub fn open_page(b: usize, host: &str, path: &str, page: &str) -> Vec<String> {
    let r = ask(obj(vec![("cmd", J::s("new")), ("b", J::Int(b as i64)), ("host", J::s(host)), ("path", J::s(path)), ("page", J::s(page))]));
    strings(r.as_ref().and_then(|r| r.get("scripts")))
}
/// the URLs of the WebSockets it opens, and what went wrong
pub fn run_script(b: usize, src: &str) -> (Vec<String>, Vec<String>) {
    match ask(obj(vec![("cmd", J::s("script")), ("b", J::Int(b as i64)), ("src", J::s(src))])) {
        Some(r) => (strings(r.get("urls")), strings(r.get("errors"))),
        None => (vec![], vec!["the client script does not return".into()]),
    }
}
fn act(mut v: Vec<(&str, J)>, b: usize) -> Did {
    v.push(("b", J::Int(b as i64)));
    match ask(obj(v)) {
        Some(r) => Did {
            sent: strings(r.get("sent")),
            errors: strings(r.get("errors")),
            dom: r.get("dom").and_then(|d| J::parse(d.str())),
            elements: r.get("n").map(|n| n.int() as usize).unwrap_or(0),
            hung: false,
        },
        None => Did { hung: true, errors: vec!["the client script does not return".into()], ..Default::default() },
    }
}
pub fn opened(b: usize) -> Did {
    act(vec![("cmd", J::s("open"))], b)
}
pub fn message(b: usize, data: &str) -> Did {
    act(vec![("cmd", J::s("msg")), ("data", J::s(data))], b)
}
pub fn closed(b: usize) -> Did {
    act(vec![("cmd", J::s("close"))], b)
}
pub fn fire(b: usize, nth: u32, kind: &str, value: Option<&str>) -> Did {
    act(
        vec![("cmd", J::s("fire")), ("nth", J::Int(nth as i64)), ("type", J::s(kind)), ("value", value.map(J::s).unwrap_or(J::Null))],
        b,
    )
}
/// for each element in tree order, what click, input and submit events on it send
pub fn probe(b: usize) -> Vec<[Vec<String>; 3]> {
    let r = ask(obj(vec![("cmd", J::s("probe")), ("b", J::Int(b as i64))]));
    r.as_ref()
        .and_then(|r| r.get("probe"))
        .map(|p| p.arr().iter().map(|e| [0, 1, 2].map(|i| strings(e.arr().get(i)))).collect())
        .unwrap_or_default()
}

/// the path a page refers to
pub fn resolve(base: &str, r: &str) -> String {
    if r.starts_with('/') {
        return r.to_string();
    }
    let dir = &base[..base.rfind('/').map(|i| i + 1).unwrap_or(0)];
    format!("{}{}", dir, r.strip_prefix("./").unwrap_or(r))
}

/// The page and the script that the application serves at `path`, fetched in a calm world of its
/// own.  None if that does not work, which is then for a run to find out.
pub fn assets(ctx: &Ctx, guest: &'static str, port: u16, path: &str, config: &[u8]) -> Option<(String, String)> {
    type Cache = Mutex<Vec<(&'static str, Option<(String, String)>)>>;
    static CACHE: OnceLock<Cache> = OnceLock::new();
    let mut c = CACHE.get_or_init(|| Mutex::new(vec![])).lock().unwrap();
    if let Some(x) = c.iter().find(|x| x.0 == guest) {
        return x.1.clone();
    }
    let w = World::new(crate::choice::Choices::replay(&Default::default()), false);
    w.m().config = config.to_vec();
    spawn(&w, ctx.guest(guest), None, "_start".into(), vec![]);
    let out = shared(None);
    let (w2, o2, p2) = (w.clone(), out.clone(), path.to_string());
    w.spawn_client("fetch", async move {
        let page = match fetch(&w2, port, 0, &p2).await {
            Some(p) => p,
            None => return,
        };
        let src = match open_page(0, "localhost", &p2, &page).first() {
            Some(s) => resolve(&p2, s),
            None => return,
        };
        if let Some(js) = fetch(&w2, port, 0, &src).await {
            *o2.borrow_mut() = Some((page, js));
        }
    });
    w.run();
    bury();
    w.m().clear();
    let r = out.borrow_mut().take();
    c.push((guest, r.clone()));
    r
}

/// GET, as a browser does it; None unless a complete 200 response arrives
pub async fn fetch(w: &World, port: u16, id: usize, path: &str) -> Option<String> {
    let mut p = Peer::open(w, port, id).await;
    if !p.send(format!("GET {} HTTP/1.1\r\nHost: localhost:{}\r\n\r\n", path, port).as_bytes()).await {
        return None;
    }
    let r = loop {
        let whole = crate::http::parse_resp(&p.got).ok().filter(|r| {
            let n = r.headers.iter().find(|h| h.0.eq_ignore_ascii_case(b"content-length"));
            match n.and_then(|h| std::str::from_utf8(&h.1).ok()?.trim().parse::<usize>().ok()) {
                Some(n) => r.body.len() == n,
                None => p.end == Some(ConnEnd::Eof),
            }
        });
        if let Some(r) = whole {
            break r;
        }
        if !p.more().await {
            // once more, now that the end is known
            if p.end == Some(ConnEnd::Eof) && crate::http::parse_resp(&p.got).map(|r| !r.headers.iter().any(|h| h.0.eq_ignore_ascii_case(b"content-length"))).unwrap_or(false) {
                break crate::http::parse_resp(&p.got).unwrap();
            }
            return None;
        }
    };
    p.close();
    // cut off by a fault, which the response cannot tell
    if crate::s_http::hurt(w, p.conn) {
        return None;
    }
    if r.status != 200 {
        return None;
    }
    String::from_utf8(r.body).ok()
}
