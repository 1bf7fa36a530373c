//! Live views that the simulator drives.  What each session renders, and which application inputs
//! it gets, is decided by the simulator's configuration.

mod sim;

use lunatic::{Mailbox, Process};
use malvolio::prelude::*;
use puck::core::router::{Route, Router};
use puck::core::{Core, Stream, UsedStream};
use puck::Request;
use puck_liveview::component::{manage, Component, Context};
use puck_liveview::dom::element::Element;
use puck_liveview::dom::listener::{Listener, ListenerRef};
use puck_liveview::html::id::IdGen;
use puck_liveview::prelude::{IntoWrappedBodyNode, WrappedBodyNode};
use serde::{Deserialize, Serialize};
use sim::{obs, Rd};
use std::collections::HashMap;
use std::time::Duration;

#[derive(Clone, Default)]
struct Tree {
    name: String,
    text: Option<String>,
    attrs: Vec<(String, String)>,
    listeners: Vec<(String, u8)>,
    key: Option<String>,
    children: Vec<Tree>,
}

fn opt(c: &mut Rd) -> Option<String> {
    if c.u8() == 1 {
        Some(c.str())
    } else {
        None
    }
}
fn tree(c: &mut Rd) -> Tree {
    Tree {
        name: c.str(),
        text: opt(c),
        attrs: (0..c.u32()).map(|_| (c.str(), c.str())).collect(),
        listeners: (0..c.u32()).map(|_| (c.str(), c.u8())).collect(),
        key: opt(c),
        children: (0..c.u32()).map(|_| tree(c)).collect(),
    }
}

struct Session {
    /// 0: elements with ids in tree order, 1: malvolio's nodes, 2: elements without ids of their own,
    /// 3: elements with ids in another order
    mode: u8,
    trees: Vec<Tree>,
    /// processes which send inputs: (delay, value)
    senders: Vec<Vec<(u32, String)>>,
}
fn session(n: usize) -> Session {
    let mut c = Rd::new(sim::load());
    c.u8();
    let mut all: Vec<Session> = (0..c.u32())
        .map(|_| Session {
            mode: c.u8(),
            trees: (0..c.u32()).map(|_| tree(&mut c)).collect(),
            senders: (0..c.u32()).map(|_| (0..c.u32()).map(|_| (c.u32(), c.str())).collect()).collect(),
        })
        .collect();
    all.swap_remove(n)
}

const EVENTS: [&str; 3] = ["click", "submit", "input"];

fn element(t: &Tree, next: &mut usize, ids: u8) -> Element {
    let id = *next;
    if ids != 2 {
        *next += 1;
    }
    Element {
        id: if ids == 3 { (id * 5 + 3) % 16 } else { id },
        name: t.name.clone().into(),
        attributes: t.attrs.iter().map(|(k, v)| (k.clone().into(), v.clone().into())).collect(),
        listeners: t.listeners.iter().map(|(n, k)| ListenerRef::new(n, EVENTS[*k as usize])).collect(),
        children: t.children.iter().map(|c| element(c, next, ids)).collect(),
        text: t.text.clone().map(|s| s.into()),
        key: t.key.clone(),
    }
}

macro_rules! node {
    ($t:expr, $new:expr) => {{
        let mut n = $new;
        for (k, v) in &$t.attrs {
            n = n.raw_attribute(k.clone(), v.clone());
        }
        n.wrap()
    }};
}
fn wrapped(t: &Tree) -> WrappedBodyNode {
    let text = t.text.clone().unwrap_or_default();
    let mut n = match t.name.as_str() {
        "h1" => node!(t, H1::new(text)),
        "h2" => node!(t, H2::new(text)),
        "h3" => node!(t, H3::new(text)),
        "h4" => node!(t, H4::new(text)),
        "h5" => node!(t, H5::new(text)),
        "h6" => node!(t, H6::new(text)),
        "p" => node!(t, P::new(text)),
        "label" => node!(t, Label::new(text)),
        "a" => node!(t, A::new().text(text)),
        "form" => node!(t, Form::new()),
        "input" => node!(t, Input::new()),
        "img" => node!(t, Img::new()),
        "br" => Br::new().wrap(),
        "select" => node!(t, Select::new()),
        "noscript" => NoScript::new(text).wrap(),
        _ => node!(t, Div::new()),
    };
    for (l, k) in &t.listeners {
        n = n.listener(ListenerRef::new(l, EVENTS[*k as usize]));
    }
    // the two ways to add children, and both of them
    let at = [0, t.children.len(), t.children.len() / 2][t.children.len() % 3];
    for c in &t.children[..at] {
        n = n.child(wrapped(c));
    }
    n.children(t.children[at..].iter().map(wrapped).collect::<Vec<_>>())
}

#[derive(Debug, Serialize, Deserialize)]
enum Input_ {
    /// name, kind, value, which render attached it
    Event(String, u8, String, u32),
    App(u32, String),
}

struct Comp {
    n: u32,
    k: usize,
    s: Session,
}

fn deliver(p: Process<Input_>, sender: u32, list: Vec<(u32, String)>) {
    for (delay, v) in list {
        if delay > 0 {
            lunatic::sleep(Duration::from_millis(delay as u64));
        }
        p.send(Input_::App(sender, v));
    }
}

impl Component<u32, Input_> for Comp {
    fn new(n: u32, ctx: &Context<Input_>) -> Self {
        let s = session(n as usize);
        obs(&[b"new", n.to_string().as_bytes()]);
        for (i, list) in s.senders.iter().enumerate().skip(1) {
            let _ = Process::spawn((ctx.process(), i as u32, list.clone()), |(p, i, list), _: Mailbox<()>| deliver(p, i, list));
        }
        Comp { n, k: 0, s }
    }

    fn update(&mut self, input: Input_, ctx: &Context<Input_>) {
        let n = self.n.to_string();
        let (who, kind, value, from) = match input {
            Input_::Event(name, kind, value, from) => (name, ["click", "submit", "input"][kind as usize], value, from.to_string()),
            Input_::App(sender, value) => (sender.to_string(), "app", value, String::new()),
        };
        if value.starts_with("boom") || who.contains("boom") {
            obs(&[b"boom", n.as_bytes()]);
            panic!("boom");
        }
        if value.starts_with("slow") {
            lunatic::sleep(Duration::from_millis(40));
        }
        self.k += 1;
        obs(&[b"update", n.as_bytes(), kind.as_bytes(), who.as_bytes(), value.as_bytes(), from.as_bytes()]);
        // a component may send to itself
        if who.contains("echo") {
            ctx.process().send(Input_::App(1000, self.k.to_string()));
        }
    }

    fn render(&self) -> (Element, HashMap<String, Listener<Input_>>) {
        let t = &self.s.trees[self.k % self.s.trees.len()];
        let el = match self.s.mode {
            1 => wrapped(t).into_element(&mut IdGen::new()),
            m => element(t, &mut 0, m),
        };
        let mut l = HashMap::new();
        collect(t, self.k as u32, &mut l);
        (el, l)
    }
}

fn collect(t: &Tree, k: u32, l: &mut HashMap<String, Listener<Input_>>) {
    for (n, kind) in &t.listeners {
        let name = n.clone();
        l.insert(
            n.clone(),
            match kind {
                0 => Listener::Click {
                    call: Box::new(move |_| Input_::Event(name.clone(), 0, String::new(), k)),
                },
                1 => Listener::Submit {
                    call: Box::new(move |_| Input_::Event(name.clone(), 1, String::new(), k)),
                },
                _ => Listener::Input {
                    call: Box::new(move |e| Input_::Event(name.clone(), 2, e.value, k)),
                },
            },
        );
    }
    for c in &t.children {
        collect(c, k, l);
    }
}

impl Drop for Comp {
    fn drop(&mut self) {
        obs(&[b"drop", self.n.to_string().as_bytes()]);
    }
}

/// served at .../N/, .../N/js and .../N/ws; the first session possibly at the root
fn number(req: &Request, file: &str) -> Option<u32> {
    let mut p: Vec<&str> = req.url().path().split('/').collect();
    if p.pop() != Some(file) {
        return None;
    }
    match p.pop() {
        Some("") if p.is_empty() && sim::load()[0] == 1 => Some(0),
        Some(n) => n.parse().ok(),
        None => None,
    }
}

fn live(req: Request, stream: Stream) -> UsedStream {
    let n = number(&req, "ws").unwrap();
    let ws = match stream.upgrade(&req) {
        Ok(ws) => ws,
        Err(u) => return u,
    };
    let p = manage::<Comp, u32, Input_>(n, ws);
    let s = session(n as usize);
    if let Some(list) = s.senders.first() {
        deliver(p, 0, list.clone());
    }
    UsedStream::empty()
}

fn main() {
    let router: Router<()> = Router::new()
        .route(Route::new(|req| number(req, "js").is_some(), |_, stream, _| stream.respond(puck_liveview::init::js()).unwrap()))
        .route(Route::new(|req| number(req, "ws").is_some(), |req, stream, _| live(req, stream)))
        .route(Route::new(|req| number(req, "").is_some(), |_, stream, _| stream.respond(puck_liveview::init::index()).unwrap()))
        .route(Route::new(|_| true, |_, stream, _| stream.respond(puck::err_404()).unwrap()));
    Core::bind("127.0.0.1:8000", ()).unwrap().serve_router(router);
}
