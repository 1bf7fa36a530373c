//! Live views (C20-C23): browsers that run the repository's client script against components that
//! render generated trees.

use crate::browser;
use crate::choice::S;
use crate::host::show;
use crate::http::*;
use crate::run::*;
use crate::s_http::*;
use crate::util::*;
use crate::world::*;
use crate::ws::*;
use std::collections::BTreeMap;

const HOST: &str = "127.0.0.1:8000";
const KINDS: [&str; 3] = ["click", "submit", "input"];

// ---- trees --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Default, PartialEq)]
struct Tree {
    name: String,
    text: Option<String>,
    attrs: Vec<(String, String)>,
    listeners: Vec<(String, u8)>,
    key: Option<String>,
    children: Vec<Tree>,
}
impl Tree {
    fn enc(&self, e: &mut Enc) {
        let opt = |e: &mut Enc, s: &Option<String>| {
            match s {
                Some(s) => e.u8(1).str(s),
                None => e.u8(0),
            };
        };
        e.str(&self.name);
        opt(e, &self.text);
        e.u32(self.attrs.len() as u32);
        for (k, v) in &self.attrs {
            e.str(k).str(v);
        }
        e.u32(self.listeners.len() as u32);
        for (n, k) in &self.listeners {
            e.str(n).u8(*k);
        }
        opt(e, &self.key);
        e.u32(self.children.len() as u32);
        for c in &self.children {
            c.enc(e);
        }
    }
    /// what a browser shows for it
    fn shown(&self) -> J {
        let mut a = self.attrs.clone();
        a.sort();
        let mut k = vec![];
        match &self.text {
            Some(t) if !t.is_empty() => k.push(J::s(t.clone())),
            _ => {}
        }
        k.extend(self.children.iter().map(|c| c.shown()));
        J::Arr(vec![
            J::s(self.name.clone()),
            J::Arr(a.into_iter().map(|(k, v)| J::Arr(vec![J::s(k), J::s(v)])).collect()),
            J::Arr(k),
        ])
    }
    fn page(&self) -> J {
        J::Arr(vec![self.shown()])
    }
    fn size(&self) -> usize {
        1 + self.children.iter().map(|c| c.size()).sum::<usize>()
    }
    fn nth(&mut self, n: &mut usize) -> Option<&mut Tree> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for c in self.children.iter_mut() {
            if let Some(t) = c.nth(n) {
                return Some(t);
            }
        }
        None
    }
    /// every element in tree order, with its ancestors (nearest last)
    fn paths<'a>(&'a self, above: &[&'a Tree], out: &mut Vec<Vec<&'a Tree>>) {
        let mut p = above.to_vec();
        p.push(self);
        out.push(p.clone());
        for c in &self.children {
            c.paths(&p, out);
        }
    }
    fn listener(&self, name: &str) -> Option<u8> {
        self.listeners
            .iter()
            .find(|l| l.0 == name)
            .map(|l| l.1)
            .or_else(|| self.children.iter().find_map(|c| c.listener(name)))
    }
    fn names(&self, out: &mut Vec<(String, u8)>) {
        out.extend(self.listeners.iter().cloned());
        for c in &self.children {
            c.names(out);
        }
    }
    /// every listener of that name is for that kind of event
    fn rekind(&mut self, name: &str, kind: u8) {
        for l in self.listeners.iter_mut().filter(|l| l.0 == name) {
            l.1 = kind;
        }
        for c in self.children.iter_mut() {
            c.rekind(name, kind);
        }
    }
    fn brief(&self) -> String {
        let mut s = format!("<{}", self.name);
        for (k, v) in &self.attrs {
            s.push_str(&format!(" {}={:?}", k, v));
        }
        for (n, k) in &self.listeners {
            s.push_str(&format!(" on{}={:?}", KINDS[*k as usize], n));
        }
        if let Some(k) = &self.key {
            s.push_str(&format!(" key={:?}", k));
        }
        s.push('>');
        if let Some(t) = &self.text {
            s.push_str(&format!("{:?}", t));
        }
        for c in &self.children {
            s.push_str(&c.brief());
        }
        s.push_str("</>");
        s
    }
}

struct TreeGen {
    /// 0, 2: elements, 1: malvolio nodes
    mode: u8,
    keys: bool,
    boom: bool,
    big: bool,
    wide: bool,
    /// the deepest level
    deep: u32,
    /// many attributes and listeners
    rich: bool,
    names: Vec<(String, u8)>,
}
const TAGS: &[&str] = &["div", "p", "span", "input", "h1", "form", "a", "b", "ul", "li", "section", "x-y", "textarea", "label", "br"];
const WRAPPED: &[&str] = &["div", "p", "h1", "form", "input", "h2", "h3", "h4", "h5", "h6", "a", "label", "img", "br", "select", "noscript"];

/// spaces and what is easily lost or changed
const ODD: &[char] = &[
    '\u{a0}', '\u{3000}', '\u{85}', '\u{200b}', '\u{feff}', '\r', '\u{301}', 'İ', 'ß', 'ſ', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{1}',
];

/// nearly the same
fn near(w: &World, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i = w.pick(S::Work, c.len().max(1) as u32) as usize;
    let space = [' ', '\n', '\t', '\u{a0}', '\u{feff}', '\r'][w.pick(S::Work, 6) as usize];
    match w.pick(S::Work, 8) {
        0 => c.push(space),
        1 => c.insert(0, space),
        2 if !c.is_empty() => c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() },
        3 if !c.is_empty() => drop(c.remove(i)),
        4 if !c.is_empty() => c.insert(i, c[i]),
        5 if c.len() > 1 => c.swap(0, i),
        6 => return s.replace('e', "é").replace('&', "&amp;"),
        _ => c.push('0'),
    }
    c.into_iter().collect()
}

pub fn words(w: &World, max: u32, big: bool) -> String {
    let mut s = String::new();
    for _ in 0..w.size(S::Work, 0, max) {
        match w.weighted(S::Work, &[12, 3, 1, 1, 1, 1, 1, 1]) {
            0 => s.push((b'a' + w.pick(S::Work, 26) as u8) as char),
            6 => s.push((b'A' + w.pick(S::Work, 26) as u8) as char),
            7 => s.push(ODD[w.pick(S::Work, ODD.len() as u32) as usize]),
            1 => s.push(b"+ \"'\\<>&{}[]:,/0"[w.pick(S::Work, 16) as usize] as char),
            2 => s.push(['é', '☃', '𝄞', '\u{7f}', '\n', '\t', '\u{2028}'][w.pick(S::Work, 7) as usize]),
            3 => s.push_str("&amp;"),
            4 => s.push_str("</p>"),
            _ => s.push_str("a+b"),
        }
    }
    if big && w.chance(S::Work, 1, 40) {
        let n = [60 + w.pick(S::Work, 80) as usize, 3000, 70000][w.pick(S::Work, 3) as usize] / (s.len() + 1) + 1;
        s = s.repeat(n);
    }
    s
}

fn gen_name(w: &World, kind: u8, boom: bool) -> String {
    if kind == 0 && w.chance(S::Work, 1, 20) {
        return String::new();
    }
    let base = match w.weighted(S::Work, &[6, 2, 1, if boom { 1 } else { 0 }]) {
        0 => format!("l{}", w.pick(S::Work, 6)),
        1 => words(w, 8, false),
        2 => format!("echo{}", w.pick(S::Work, 3)),
        _ => "boom".to_string(),
    };
    format!("{}{}", ["c", "s", "i"][kind as usize], base)
}

fn gen_attrs(w: &World, g: &TreeGen) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    if g.rich && w.chance(S::Work, 1, 4) {
        let from = w.pick(S::Work, 4);
        for i in from..from + 8 + w.pick(S::Work, 20) {
            v.push((format!("data-{}", i), words(w, 3, false)));
        }
    }
    for _ in 0..w.size(S::Work, 0, 4) {
        let k = ["class", "value", "title", "data-x", "type", "href", "a", "checked", "style", "aria-label", "x:y", "data-a-b"][w.weighted(S::Work, &[4, 4, 4, 4, 4, 4, 4, 1, 1, 1, 1, 1])].to_string();
        if !v.iter().any(|x| x.0 == k) {
            v.push((k, words(w, 10, g.big)));
        }
    }
    v
}
fn gen_listeners(w: &World, g: &mut TreeGen) -> Vec<(String, u8)> {
    let n = if g.rich && w.chance(S::Work, 1, 4) { 3 + w.pick(S::Work, 6) as usize } else { w.weighted(S::Work, &[6, 6, 2, 1]) };
    (0..n)
        .map(|_| {
            if !g.names.is_empty() && w.chance(S::Work, 1, 3) {
                return g.names[w.pick(S::Work, g.names.len() as u32) as usize].clone();
            }
            let k = w.pick(S::Work, 3) as u8;
            let mut l = (gen_name(w, k, g.boom), k);
            if !g.names.is_empty() && w.chance(S::Work, 1, 8) {
                l = g.names[w.pick(S::Work, g.names.len() as u32) as usize].clone();
                // the first letter tells the kind
                if !l.0.is_empty() {
                    l.0 = l.0[..1].to_string() + &near(w, &l.0[1..]);
                }
            }
            g.names.push(l.clone());
            l
        })
        .collect()
}
/// what malvolio's nodes, and puck_liveview's wrapping of them, cannot express is not asked for
fn lawful(t: &mut Tree, g: &TreeGen) {
    if g.mode == 1 {
        t.key = None;
        let h = t.name.starts_with('h') || t.name == "label";
        if h || matches!(t.name.as_str(), "p" | "a" | "noscript") {
            t.text = Some(t.text.take().unwrap_or_default());
        } else {
            t.text = None;
        }
        if h || matches!(t.name.as_str(), "a" | "br" | "img" | "noscript") {
            t.children.clear();
        }
        if t.name == "br" || t.name == "noscript" {
            t.attrs.clear();
            t.listeners.clear();
        }
        if !WRAPPED.contains(&t.name.as_str()) {
            t.name = "div".into();
        }
    }
}
fn fix(t: &mut Tree, g: &TreeGen) {
    lawful(t, g);
    for c in t.children.iter_mut() {
        fix(c, g);
    }
}
fn gen_tag(w: &World, g: &TreeGen) -> String {
    let tags = if g.mode == 1 { WRAPPED } else { TAGS };
    tags[w.pick(S::Work, tags.len() as u32) as usize].to_string()
}
fn gen_tree(w: &World, g: &mut TreeGen, depth: u32, budget: &mut u32) -> Tree {
    let mut t = Tree {
        name: if depth == 0 && w.chance(S::Work, 2, 3) { "div".into() } else { gen_tag(w, g) },
        text: if w.chance(S::Work, 1, 2) { Some(words(w, 12, g.big)) } else { None },
        attrs: gen_attrs(w, g),
        listeners: gen_listeners(w, g),
        key: None,
        children: vec![],
    };
    *budget = budget.saturating_sub(1);
    if depth < g.deep {
        let n = if g.deep > 4 && depth + 1 < g.deep {
            // mostly a chain
            w.weighted(S::Work, &[1, 30, 6]) as u32
        } else if g.wide && depth < 2 { 18 } else { w.size(S::Work, 0, 5) }.min(*budget);
        let keyed = g.keys && w.chance(S::Work, 2, 3);
        for i in 0..n {
            let mut c = gen_tree(w, g, depth + 1, budget);
            if keyed {
                c.key = Some(match w.weighted(S::Work, &[8, 1]) {
                    0 => format!("k{}", i),
                    _ => format!("k{}", w.pick(S::Work, 4)),
                });
            }
            t.children.push(c);
        }
    }
    lawful(&mut t, g);
    t
}

/// the next tree: the last one, changed in a few places
fn gen_next(w: &World, g: &mut TreeGen, old: &Tree) -> Tree {
    let mut t = old.clone();
    for _ in 0..1 + many(w, 0, 4, 40, 60) {
        let mut n = w.pick(S::Work, t.size() as u32) as usize;
        let mut budget = 6;
        let e = t.nth(&mut n).unwrap();
        match w.weighted(S::Work, &[8, 6, 4, 6, 8, 4, 4, 2, 4, 2, 2, 1, 1, 1, 1, 1, 2]) {
            0 => {
                e.text = match w.weighted(S::Work, &[3, 1, 1]) {
                    0 => Some(words(w, 12, g.big)),
                    1 => None,
                    _ => e.text.as_ref().map(|t| near(w, t)),
                }
            }
            1 => {
                if e.attrs.is_empty() || w.chance(S::Work, 1, 2) {
                    e.attrs = gen_attrs(w, g);
                } else {
                    let i = w.pick(S::Work, e.attrs.len() as u32) as usize;
                    if w.chance(S::Work, 1, 2) {
                        e.attrs.remove(i);
                    } else {
                        e.attrs[i].1 = if w.chance(S::Work, 1, 2) { words(w, 10, g.big) } else { near(w, &e.attrs[i].1) };
                    }
                }
            }
            2 => e.name = gen_tag(w, g),
            3 => e.listeners = gen_listeners(w, g),
            // append
            4 => {
                let mut c = gen_tree(w, g, 3, &mut budget);
                if e.children.iter().all(|c| c.key.is_some()) && g.keys {
                    c.key = Some(format!("k{}", w.pick(S::Work, 12)));
                }
                e.children.push(c);
            }
            5 => {
                e.children.pop();
            }
            // insert
            6 => {
                let mut c = gen_tree(w, g, 3, &mut budget);
                if e.children.iter().all(|c| c.key.is_some()) && g.keys {
                    c.key = Some(format!("k{}", w.pick(S::Work, 12)));
                }
                let at = w.pick(S::Work, e.children.len() as u32 + 1) as usize;
                e.children.insert(at, c);
            }
            7 => {
                if e.children.len() > 1 {
                    let (a, b) = (w.pick(S::Work, e.children.len() as u32), w.pick(S::Work, e.children.len() as u32));
                    e.children.swap(a as usize, b as usize);
                }
            }
            8 => {
                if !e.children.is_empty() {
                    let i = w.pick(S::Work, e.children.len() as u32) as usize;
                    e.children.remove(i);
                }
            }
            9 => {
                if g.mode != 1 {
                    e.key = if w.chance(S::Work, 2, 3) { Some(format!("k{}", w.pick(S::Work, 6))) } else { None };
                }
            }
            10 => {
                let key = e.key.clone();
                *e = gen_tree(w, g, 2, &mut budget);
                e.key = key;
            }
            11 => e.children.reverse(),
            12 => {
                if e.children.len() > 1 {
                    let k = 1 + w.pick(S::Work, e.children.len() as u32 - 1) as usize;
                    e.children.rotate_left(k);
                }
            }
            // all gone
            13 => e.children.clear(),
            // around all its children
            14 => {
                let name = gen_tag(w, g);
                let inner = std::mem::take(&mut e.children);
                e.children.push(Tree { name, text: None, attrs: vec![], listeners: vec![], key: None, children: inner });
            }
            // a listener of the same name for another kind of event
            16 => {
                let mut all = vec![];
                t.names(&mut all);
                if !all.is_empty() {
                    let n = all[w.pick(S::Work, all.len() as u32) as usize].0.clone();
                    let k = w.pick(S::Work, 3) as u8;
                    t.rekind(&n, k);
                }
            }
            // a child's children take its place
            _ => {
                if !e.children.is_empty() {
                    let i = w.pick(S::Work, e.children.len() as u32) as usize;
                    let c = e.children.remove(i);
                    for (j, x) in c.children.into_iter().enumerate() {
                        e.children.insert(i + j, x);
                    }
                }
            }
        }
        fix(&mut t, g);
    }
    // a name stands for one listener, and so for one kind of event
    let mut all = vec![];
    t.names(&mut all);
    let mut first: BTreeMap<String, u8> = BTreeMap::new();
    for (n, k) in all {
        first.entry(n).or_insert(k);
    }
    for (n, k) in first {
        t.rekind(&n, k);
    }
    t
}

// ---- sessions -----------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Act {
    /// an event on the nth element of the page as the browser has it
    Event(u32, u8, String),
    /// a text message, and what it should mean
    Text(String, Ev, u32),
    /// any other frame
    Frame(Vec<u8>),
    Pause(u32),
    /// not even reading
    Sleep(u32),
    /// read until so many messages came, at most 100 s
    Need(usize),
    Probe,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Name(String, Option<String>),
    Junk,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bye {
    Stay,
    /// a close frame, then reading to the end
    Close,
    Half,
    Tcp,
    Abort,
    /// something that is no frame, then reading to the end
    Violation(Vec<u8>),
    /// part of a frame, then the end of the connection
    Cut(Vec<u8>),
}

#[derive(Clone, Debug)]
struct Sess {
    mode: u8,
    trees: Vec<Tree>,
    senders: Vec<Vec<(u32, String)>>,
    fetch: bool,
    delay: u32,
    /// does not wait for the answer to the handshake
    early: bool,
    /// where the page is
    at: u32,
    acts: Vec<Act>,
    bye: Bye,
    faulty: bool,
}

#[derive(Clone, Debug)]
pub struct Fired {
    msgs: usize,
    nth: u32,
    kind: u8,
    value: String,
    sent: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub conn: Option<ConnId>,
    pub page: bool,
    pub urls: Vec<String>,
    pub upgraded: bool,
    pub head: String,
    /// the page after each message
    pub doms: Vec<J>,
    /// the step at which each was shown
    pub at: Vec<u64>,
    pub errors: Vec<String>,
    pub bad: Option<String>,
    pub events: Vec<Ev>,
    pub send_failed: bool,
    pub fired: Vec<Fired>,
    pub probes: Vec<(usize, Vec<[Vec<String>; 3]>)>,
    pub left: bool,
    pub close_seen: bool,
    pub pinged: bool,
    pub end: Option<ConnEnd>,
}

fn config(ss: &[Sess]) -> Vec<u8> {
    let mut e = Enc::default();
    e.u8(ss.first().map(|s| s.at == 3).unwrap_or(false) as u8);
    e.u32(ss.len() as u32);
    for s in ss {
        e.u8(s.mode).u32(s.trees.len() as u32);
        for t in &s.trees {
            t.enc(&mut e);
        }
        e.u32(s.senders.len() as u32);
        for l in &s.senders {
            e.u32(l.len() as u32);
            for (d, v) in l {
                e.u32(*d).str(v);
            }
        }
    }
    e.0
}

pub struct Browser {
    pub w: World,
    pub b: usize,
    pub p: Peer,
    pub rec: Shared<Vec<Rec>>,
    pub at: usize,
}
impl Browser {
    pub fn rec(&self) -> std::cell::RefMut<'_, Rec> {
        std::cell::RefMut::map(self.rec.borrow_mut(), |r| &mut r[self.b])
    }
    /// hands what was received to the page; returns what the page sends
    pub fn pump(&mut self) -> Vec<String> {
        let mut out = vec![];
        if self.at == 0 {
            match self.p.got.windows(4).position(|x| x == b"\r\n\r\n") {
                Some(i) => {
                    let up = self.p.got.starts_with(b"HTTP/1.1 101 ");
                    self.at = i + 4;
                    let head = show(&self.p.got[..i]);
                    let mut r = self.rec();
                    r.head = head;
                    r.upgraded = up;
                    if !up {
                        return out;
                    }
                    drop(r);
                    let d = browser::opened(self.b);
                    out.extend(d.sent);
                    self.rec().errors.extend(d.errors);
                }
                None => return out,
            }
        }
        if !self.rec().upgraded || self.rec().close_seen || self.rec().bad.is_some() {
            return out;
        }
        match parse_server(&self.p.got[self.at..]) {
            Ok((fr, rest)) => {
                self.at = self.p.got.len() - rest;
                for f in fr {
                    if self.rec().close_seen {
                        break;
                    }
                    match f.op {
                        1 => match String::from_utf8(f.payload) {
                            Ok(s) => {
                                let d = browser::message(self.b, &s);
                                self.w.trace(|| format!("browser {} shows {}", self.b, d.dom.as_ref().map(|d| d.line()).unwrap_or_default()));
                                out.extend(d.sent);
                                let mut r = self.rec();
                                r.errors.extend(d.errors);
                                r.doms.push(d.dom.unwrap_or(J::Null));
                                let step = self.w.i().step;
                                r.at.push(step);
                            }
                            Err(_) => self.rec().bad = Some("a text message that is not UTF-8".into()),
                        },
                        8 => {
                            browser::closed(self.b);
                            self.rec().close_seen = true;
                        }
                        _ => {}
                    }
                }
            }
            Err(e) => self.rec().bad = Some(e),
        }
        self.rec().end = self.p.end;
        out
    }
    pub async fn take(&mut self) {
        // more may come in while something is sent
        loop {
            let out = self.pump();
            if out.is_empty() {
                break;
            }
            for s in out {
                self.say(s).await;
            }
        }
    }
    pub async fn say(&mut self, s: String) {
        let e = meaning(&s);
        self.rec().events.push(e);
        self.w.trace(|| format!("browser {} sends {}", self.b, s));
        let d = s.as_bytes();
        let cuts = if self.w.chance(S::Work, 1, 12) { 1 + self.w.pick(S::Work, 3) } else { 0 };
        let mut at = 0;
        for i in 0..=cuts {
            let n = if i == cuts { d.len() - at } else { self.w.pick(S::Work, (d.len() - at) as u32 + 1) as usize };
            let f = encode(i == cuts, 0, if i == 0 { 1 } else { 0 }, Some(mask(&self.w)), &d[at..at + n]);
            at += n;
            // a control frame before the message, or inside of it
            if self.w.chance(S::Work, 1, if i > 0 { 6 } else { 40 }) {
                let quiet = self.w.i().net.short_write == 0 && self.w.i().net.cap >= 4096;
                let op = if quiet && self.w.chance(S::Work, 1, 2) { 9 } else { 10 };
                self.rec().pinged |= op == 9;
                let n = self.w.size(S::Work, 0, 12);
                let c = encode(true, 0, op, Some(mask(&self.w)), &gen_bin(&self.w, n));
                self.send(&c).await;
            }
            self.send(&f).await;
        }
    }
    pub async fn send(&mut self, b: &[u8]) {
        for (b, pause) in pieces(&self.w, b, true) {
            if !self.p.send(&b).await {
                self.rec().send_failed = true;
                return;
            }
            if pause > 0 {
                self.w.sleep(pause as u64 * MS).await;
            }
        }
    }
    pub async fn read_for(&mut self, until: u64) {
        loop {
            self.take().await;
            if !self.p.more_until(until).await {
                break;
            }
        }
        if self.w.now() < until {
            self.w.sleep(until - self.w.now()).await;
        }
        self.take().await;
    }
    pub async fn read_to_end(&mut self) {
        self.take().await;
        while self.p.more().await {
            self.take().await;
        }
        self.take().await;
        let e = self.p.end;
        self.rec().end = e;
    }
}

/// what the text of a message, as the client script writes them, means
fn meaning(s: &str) -> Ev {
    let j = match J::parse(s) {
        Some(j) => j,
        None => return Ev::Junk,
    };
    let name = match j.get("listener") {
        Some(J::Str(n)) => n.clone(),
        _ => return Ev::Junk,
    };
    match j.get("payload") {
        None | Some(J::Null) => Ev::Name(name, None),
        Some(p) => match p.get("value") {
            Some(J::Str(v)) => Ev::Name(name, Some(v.clone())),
            _ => Ev::Junk,
        },
    }
}

/// where an application is served
#[derive(Clone, Copy)]
pub struct At {
    pub port: u16,
    pub host: &'static str,
}

/// loads the page and its script as a browser does, and opens the WebSocket the script asks for
pub async fn visit(w: &World, at: At, b: usize, path: &str, rec: &Shared<Vec<Rec>>, assets: &Option<(String, String)>, early: bool, faulty: bool) -> Option<Browser> {
    let js = match assets {
        Some(a) => {
            browser::open_page(b, at.host, path, &a.0);
            a.1.clone()
        }
        None => {
            let page = browser::fetch(w, at.port, 100 + b, path).await?;
            let src = browser::open_page(b, at.host, path, &page).first().cloned()?;
            browser::fetch(w, at.port, 100 + b, &browser::resolve(path, &src)).await?
        }
    };
    let (urls, errors) = browser::run_script(b, &js);
    {
        let mut r = rec.borrow_mut();
        r[b].page = true;
        r[b].errors.extend(errors);
        r[b].urls = urls.clone();
    }
    let target = urls.first().and_then(|u| u.strip_prefix("ws://")).and_then(|u| u.find('/').map(|i| u[i..].to_string()))?;
    let p = Peer::open(w, at.port, b).await;
    w.m().conns[p.conn].faulty = faulty;
    rec.borrow_mut()[b].conn = Some(p.conn);
    let mut x = Browser { w: w.clone(), b, p, rec: rec.clone(), at: 0 };
    let hello = hello_at(w, &target, 0).0;
    x.send(&hello).await;
    if !early {
        x.take().await;
        while !x.rec().upgraded && x.p.more().await {
            x.take().await;
        }
        x.take().await;
        if !x.rec().upgraded {
            x.read_to_end().await;
            x.p.close();
            return None;
        }
    }
    Some(x)
}

async fn drive(w: World, b: usize, s: Sess, rec: Shared<Vec<Rec>>, assets: Option<(String, String)>) {
    if s.delay > 0 {
        w.sleep(s.delay as u64 * MS).await;
    }
    let path = match s.at {
        0 => format!("/s/{}/", b),
        1 => format!("/{}/", b),
        2 => format!("/x/y-z/ws/{}/", b),
        _ if b == 0 => "/".to_string(),
        _ => format!("/js/{}/", b),
    };
    let at = At { port: PORT, host: HOST };
    let mut x = match visit(&w, at, b, &path, &rec, &if s.fetch { None } else { assets }, s.early, s.faulty).await {
        Some(x) => x,
        None => return,
    };
    for a in &s.acts {
        match a {
            Act::Event(nth, kind, value) => {
                x.take().await;
                let d = browser::fire(b, *nth, KINDS[*kind as usize], if *kind == 2 { Some(value) } else { None });
                let msgs = x.rec().doms.len();
                x.rec().errors.extend(d.errors);
                if d.elements > 0 && !x.rec().close_seen {
                    let nth = *nth % d.elements as u32;
                    x.rec().fired.push(Fired { msgs, nth, kind: *kind, value: value.clone(), sent: d.sent.clone() });
                    for m in d.sent {
                        x.say(m).await;
                    }
                }
            }
            Act::Text(t, ev, cuts) => {
                x.rec().events.push(ev.clone());
                w.trace(|| format!("browser {} sends {}", b, t));
                let d = t.as_bytes();
                let mut at = 0;
                for i in 0..=*cuts {
                    let n = if i == *cuts { d.len() - at } else { w.pick(S::Work, (d.len() - at) as u32 + 1) as usize };
                    let f = encode(i == *cuts, 0, if i == 0 { 1 } else { 0 }, Some(mask(&w)), &d[at..at + n]);
                    at += n;
                    x.send(&f).await;
                }
                x.take().await;
            }
            Act::Frame(f) => {
                x.send(f).await;
                x.take().await;
            }
            Act::Pause(ms) => x.read_for(w.now() + *ms as u64 * MS).await,
            Act::Sleep(ms) => w.sleep(*ms as u64 * MS).await,
            Act::Need(n) => {
                let t = w.now() + 100 * SEC;
                loop {
                    x.take().await;
                    if x.rec().doms.len() >= *n || !x.p.more_until(t).await {
                        break;
                    }
                }
            }
            Act::Probe => {
                x.take().await;
                let p = browser::probe(b);
                let n = x.rec().doms.len();
                x.rec().probes.push((n, p));
            }
        }
    }
    leave(x, &s.bye).await;
}

/// how a visit ends
pub async fn leave(mut x: Browser, bye: &Bye) {
    if *bye != Bye::Stay {
        x.rec().left = true;
    }
    match bye {
        Bye::Stay => x.read_to_end().await,
        Bye::Close => {
            let f = encode(true, 0, 8, Some(mask(&x.w)), if x.w.chance(S::Work, 1, 2) { b"\x03\xe8" } else { b"" });
            x.send(&f).await;
            x.read_to_end().await;
        }
        Bye::Half => {
            x.p.half_close();
            x.read_to_end().await;
        }
        Bye::Tcp => {}
        Bye::Abort => {
            x.p.abort();
            return;
        }
        Bye::Violation(v) => {
            let v = v.clone();
            x.send(&v).await;
            // such a peer does not wait for ever either
            let t = x.w.now() + 60 * SEC;
            x.read_for(t).await;
        }
        Bye::Cut(v) => {
            let v = v.clone();
            x.send(&v).await;
        }
    }
    x.p.close();
}

struct GenOpt {
    events: u32,
    junk: u32,
    ticks: u32,
    trees: u32,
    boom: bool,
    byes: [u32; 7],
    early: bool,
}

fn gen_junk(w: &World, g: &TreeGen) -> (String, Ev) {
    let any = |w: &World| {
        if g.names.is_empty() {
            "cl0".to_string()
        } else {
            g.names[w.pick(S::Work, g.names.len() as u32) as usize].0.clone()
        }
    };
    let q = |s: &str| J::s(s).line();
    let n = q(&any(w));
    match w.pick(S::Work, 20) {
        0 => (String::new(), Ev::Junk),
        1 => ("{".into(), Ev::Junk),
        2 => ("null".into(), Ev::Junk),
        3 => ("{}".into(), Ev::Junk),
        4 => ("{\"listener\":5}".into(), Ev::Junk),
        5 => ("{\"listener\":null}".into(), Ev::Junk),
        6 => (format!("{{\"listener\":{}}}x", n), Ev::Junk),
        7 => (format!("{{\"listener\":{},\"payload\":5}}", n), Ev::Junk),
        8 => (format!("{{\"listener\":{},\"payload\":{{}}}}", n), Ev::Junk),
        9 => (format!("{{\"listener\":{},\"payload\":{{\"value\":3}}}}", n), Ev::Junk),
        10 => (format!("{{\"Listener\":{}}}", n), Ev::Junk),
        11 => ("{\"payload\":{\"value\":\"v\"}}".into(), Ev::Junk),
        12 => ("{\"listener\":\"nobody\"}".into(), Ev::Name("nobody".into(), None)),
        13 => ("{\"listener\":\"nobody\",\"payload\":{\"value\":\"v\"}}".into(), Ev::Name("nobody".into(), Some("v".into()))),
        14 => (words(w, 30, false) + "\u{0}", Ev::Junk),
        15 => (n, Ev::Junk),
        16 => (format!("{{\"listener\":{},\"payload\":null}}", n), meaning(&format!("{{\"listener\":{}}}", n))),
        17 => {
            let v = words(w, 12, g.big);
            let t = format!("{{\"more\":[1,{{}}],\"payload\":{{\"value\":{},\"x\":1}},\"listener\":{}}}", q(&v), n);
            let e = meaning(&t);
            (t, e)
        }
        _ => {
            let v = words(w, 12, g.big);
            let t = if w.chance(S::Work, 1, 2) {
                format!("{{\"listener\":{}}}", n)
            } else {
                format!(" {{ \"listener\" : {} , \"payload\" : {{ \"value\" : {} }} }} ", n, q(&v))
            };
            let e = meaning(&t);
            (t, e)
        }
    }
}

pub fn gen_bye(w: &World, byes: &[u32; 7]) -> Bye {
    let violation = |w: &World| match w.pick(S::Work, 5) {
        // unmasked
        0 => encode(true, 0, 1, None, b"x"),
        // reserved bits
        1 => encode(true, 4, 1, Some(mask(w)), b"x"),
        // reserved op codes
        2 => encode(true, 0, 3, Some(mask(w)), b"x"),
        // a fragmented ping
        3 => encode(false, 0, 9, Some(mask(w)), b"x"),
        // a continuation of nothing
        _ => encode(true, 0, 0, Some(mask(w)), b"x"),
    };
    match w.weighted(S::Work, byes) {
        0 => Bye::Stay,
        1 => Bye::Close,
        2 => Bye::Half,
        3 => Bye::Tcp,
        4 => Bye::Abort,
        5 => Bye::Violation(violation(w)),
        _ => {
            let t = J::Obj(vec![("listener".into(), J::s("cl0"))]).line();
            let f = encode(true, 0, 1, Some(mask(w)), t.as_bytes());
            let n = 1 + w.pick(S::Work, f.len() as u32 - 1) as usize;
            Bye::Cut(f[..n].to_vec())
        }
    }
}

fn gen_sess(w: &World, o: &GenOpt) -> Sess {
    let mode = w.weighted(S::Work, &[6, 6, 2, 1]) as u8;
    let wide = o.trees > 5 && roomy(w) && w.chance(S::Work, 1, 50);
    // one way of being large at a time: the judge compares every page with every render
    let large = if wide { 0 } else if roomy(w) { w.weighted(S::Work, &[30, 1, 1, 1, 1, 1]) } else { 0 };
    let mut g = TreeGen {
        mode,
        keys: mode != 1 && w.chance(S::Work, 1, 2),
        boom: o.boom,
        big: roomy(w) && large == 0 && !wide,
        wide,
        deep: if large == 1 { 8 + w.size(S::Work, 0, 40) } else { 4 },
        rich: large == 2,
        names: vec![],
    };
    let mut budget = if wide { 330 } else if g.deep > 4 { 60 } else if roomy(w) { 14 } else { 6 };
    let mut trees = vec![gen_tree(w, &mut g, 0, &mut budget)];
    for _ in 0..if large == 3 { o.trees + w.pick(S::Work, 20) } else { w.size(S::Work, 0, o.trees) } {
        let t = match w.weighted(S::Work, &[8, 1, 1]) {
            0 => gen_next(w, &mut g, trees.last().unwrap()),
            1 => trees[w.pick(S::Work, trees.len() as u32) as usize].clone(),
            _ => {
                let mut budget = 8;
                gen_tree(w, &mut g, 0, &mut budget)
            }
        };
        trees.push(t);
    }
    let mut senders = vec![];
    for _ in 0..w.size(S::Work, 0, 3) {
        let n = if large == 4 { w.pick(S::Work, o.ticks * 12) } else { w.size(S::Work, 0, o.ticks) };
        senders.push(
            (0..n)
                .map(|_| {
                    let d = [0, 0, 5, 60, 300][w.pick(S::Work, 5) as usize];
                    let v = match w.weighted(S::Work, &[8, 1, if o.boom { 1 } else { 0 }]) {
                        0 => words(w, 8, g.big),
                        1 => "slow".into(),
                        _ => "boom".into(),
                    };
                    (d, if v.starts_with("boom") && !o.boom { "x".into() } else { v })
                })
                .collect(),
        );
    }
    let mut acts = vec![];
    let mut expect = 1;
    let quiet = w.i().net.short_write == 0 && w.i().net.cap >= 4096;
    if w.chance(S::Work, 3, 4) {
        acts.push(Act::Need(1));
    }
    for _ in 0..if large == 5 { o.events + w.pick(S::Work, o.events * 7) } else { w.size(S::Work, 0, o.events) } {
        match w.weighted(S::Work, &[10, o.junk, o.junk / 3, 3, 1, 3, 2]) {
            0 => {
                acts.push(Act::Event(w.word(S::Work), w.weighted(S::Work, &[3, 2, 3]) as u8, {
                    let v = words(w, 14, g.big);
                    if w.chance(S::Work, 1, 4) { near(w, &v) } else { v }
                }));
                expect += 1;
            }
            1 => {
                let (t, e) = gen_junk(w, &g);
                let cuts = if w.chance(S::Work, 1, 4) { 1 + w.size(S::Work, 0, 3) } else { 0 };
                acts.push(Act::Text(t, e, cuts));
            }
            2 => {
                let op = match w.pick(S::Work, 3) {
                    0 => 2,
                    1 => 10,
                    // the answer to a ping may be torn by the application's writes (a recorded defect, C12)
                    _ if quiet => 9,
                    _ => 10,
                };
                let n = w.size(S::Work, 0, 20);
                let mut d = gen_bin(w, n);
                if w.chance(S::Work, 1, 2) && !g.names.is_empty() {
                    // what would be an event, were it a text message
                    let n = &g.names[w.pick(S::Work, g.names.len() as u32) as usize];
                    let e = format!("{{\"listener\":{},\"payload\":{{\"value\":\"v\"}}}}", J::s(n.0.clone()).line()).into_bytes();
                    if op == 2 || e.len() < 126 {
                        d = e;
                    }
                }
                acts.push(Act::Frame(encode(true, 0, op, Some(mask(w)), &d)));
            }
            3 => acts.push(Act::Pause([0, 10, 100, 1000][w.pick(S::Work, 4) as usize])),
            4 => acts.push(Act::Sleep([10, 500, 3000][w.pick(S::Work, 3) as usize])),
            5 => acts.push(Act::Need(expect)),
            _ => acts.push(Act::Probe),
        }
    }
    let bye = gen_bye(w, &o.byes);
    // no data may be sent before the handshake is done (RFC 6455 4.1), but leaving is possible
    let early = o.early && matches!(bye, Bye::Half | Bye::Tcp | Bye::Abort) && w.chance(S::Work, 1, 4);
    if early {
        acts.truncate(w.pick(S::Work, 2) as usize);
        acts.retain(|a| matches!(a, Act::Sleep(..)));
    }
    Sess {
        mode,
        trees,
        senders,
        fetch: roomy(w) && w.chance(S::Work, 1, 4),
        delay: [0, 0, 10, 400][w.pick(S::Work, 4) as usize],
        early,
        at: w.pick(S::Work, 4),
        acts,
        bye,
        faulty: w.chance(S::Work, 1, 2),
    }
}

// ---- judging ------------------------------------------------------------------------------------

const PAGE: u32 = 1;
const LISTEN: u32 = 2;
const UPDATES: u32 = 4;
const DROPS: u32 = 8;

#[derive(Clone, Debug)]
struct Up {
    kind: String,
    who: String,
    value: String,
    /// the render whose listener was called
    from: String,
}

/// what an event on this element sends
fn expected(t: &Tree, nth: usize, kind: u8, value: &str) -> Option<Vec<Ev>> {
    let mut p = vec![];
    t.paths(&[], &mut p);
    let path = p.get(nth)?;
    let target = path.last().unwrap();
    // a value exists only on elements that have one
    let has = target.name == "input" || target.name == "textarea";
    let mut v = vec![];
    for e in path.iter().rev() {
        for (n, k) in &e.listeners {
            if *k == kind {
                v.push(match kind {
                    2 if has => Ev::Name(n.clone(), Some(value.to_string())),
                    2 => Ev::Junk,
                    _ => Ev::Name(n.clone(), None),
                });
            }
        }
    }
    Some(v)
}
fn matches_events(want: &[Ev], got: &[String]) -> bool {
    want.len() == got.len()
        && want.iter().zip(got).all(|(w, g)| match w {
            // no value to send
            Ev::Junk => true,
            w => *w == meaning(g),
        })
}

pub fn hurt_session(w: &World, conn: ConnId) -> bool {
    if hurt(w, conn) {
        return true;
    }
    let m = w.i();
    let bad: Vec<Pid> = (0..m.procs.len()).filter(|p| m.procs[*p].killed || m.procs[*p].oom).collect();
    bad.iter().any(|p| {
        let mut p = Some(*p);
        while let Some(x) = p {
            let q = &m.procs[x];
            if q.took.contains(&conn) || q.held.contains(&conn) {
                return true;
            }
            p = q.parent;
        }
        false
    })
}

fn judge(w: &World, rep: &mut Report, n: usize, s: &Sess, r: &Rec, o: &[Ob], look: u32) {
    let id = n.to_string();
    let desc = format!("session {}", n);
    let faults = w.i().kills > 0 || w.i().fault.accept_fail > 0 || w.i().fault.oom > 0;
    let c = match r.conn {
        Some(c) => c,
        None => {
            if !faults {
                rep.fail("no-page", format!("{}: the page or its script did not load, or opened no WebSocket: {:?} {:?}", desc, r.urls, r.errors));
            }
            return;
        }
    };
    // the answer to a ping may be torn by an update that is written in parts (a recorded defect, C12)
    let pings = r.pinged || s.acts.iter().any(|a| matches!(a, Act::Frame(f) if f[0] & 15 == 9));
    if pings && w.i().conns[c].short_writes > 0 {
        return;
    }
    let mine: Vec<&Ob> = o.iter().filter(|x| x.s(1) == id).collect();
    let count = |k: &str| mine.iter().filter(|x| x.kind() == k).count();
    let hurt = hurt_session(w, c);
    let boom = count("boom") > 0;
    let ups: Vec<Up> = mine
        .iter()
        .filter(|x| x.kind() == "update")
        .map(|x| Up { kind: x.s(2).into(), who: x.s(3).into(), value: x.s(4).into(), from: x.s(5).into() })
        .collect();
    let tree = |k: usize| &s.trees[k % s.trees.len()];
    let stays = s.bye == Bye::Stay;
    let healthy = !hurt && !boom;
    if healthy && !r.upgraded && (stays || !s.early) {
        rep.fail("no-session", format!("{}: the WebSocket was not opened: {:?}", desc, r.head));
        return;
    }
    if count("new") > 1 {
        rep.fail("two-components", format!("{}: {} components were made", desc, count("new")));
    }
    let shown: Vec<J> = (0..s.trees.len()).map(|k| tree(k).page()).collect();
    // which render each page is: the first possible one
    let mut at = 0;
    let mut idx: Vec<Option<usize>> = vec![];
    for (i, d) in r.doms.iter().enumerate() {
        match (at..=ups.len()).find(|k| shown[k % shown.len()] == *d) {
            Some(k) => {
                idx.push(Some(k));
                at = k;
            }
            None => {
                if look & PAGE != 0 && !hurt {
                    let before = if i == 0 { String::new() } else { r.doms[i - 1].line() };
                    rep.fail(
                        "page-differs",
                        format!(
                            "{}: after message {} the page shows {}; renders from {} on: {}; before: {}; script errors: {:?}",
                            desc,
                            i,
                            d.line(),
                            at,
                            (at..=ups.len()).take(3).map(|k| shown[k % shown.len()].line()).collect::<Vec<_>>().join(" | "),
                            before,
                            r.errors
                        ),
                    );
                }
                break;
            }
        }
    }
    let sane = idx.len() == r.doms.len();
    if look & PAGE != 0 && healthy {
        if let (Some(b), false) = (&r.bad, r.left) {
            rep.fail("bad-frames", format!("{}: {}", desc, b));
        }
        if stays && sane {
            let last = r.doms.last();
            if last != Some(&shown[ups.len() % shown.len()]) {
                rep.fail(
                    "page-stale",
                    format!(
                        "{}: {} updates were applied, the page after {} messages shows {} instead of {}; script errors: {:?}",
                        desc,
                        ups.len(),
                        r.doms.len(),
                        last.map(|l| l.line()).unwrap_or("nothing".into()),
                        shown[ups.len() % shown.len()].line(),
                        r.errors
                    ),
                );
            }
        }
    }
    if look & LISTEN != 0 && !hurt {
        let cands = |msgs: usize| -> Vec<usize> {
            match msgs.checked_sub(1).and_then(|i| idx.get(i).copied().flatten()) {
                Some(k) => (k..=ups.len()).filter(|x| shown[x % shown.len()] == r.doms[msgs - 1]).collect(),
                None => vec![],
            }
        };
        for f in &r.fired {
            let ks = cands(f.msgs);
            if !ks.is_empty() && !ks.iter().any(|k| expected(tree(*k), f.nth as usize, f.kind, &f.value).map(|e| matches_events(&e, &f.sent)).unwrap_or(false)) {
                rep.fail(
                    "event-differs",
                    format!(
                        "{}: {} on element {} of {} sent {:?}, expected {:?}",
                        desc,
                        KINDS[f.kind as usize],
                        f.nth,
                        tree(ks[0]).brief(),
                        f.sent,
                        expected(tree(ks[0]), f.nth as usize, f.kind, &f.value)
                    ),
                );
                break;
            }
        }
        let agrees = |k: usize, p: &Vec<[Vec<String>; 3]>| -> Option<String> {
            for (i, e) in p.iter().enumerate() {
                for kind in 0..3u8 {
                    let want = expected(tree(k), i, [0, 2, 1][kind as usize], "probe").unwrap_or_default();
                    if !matches_events(&want, &e[kind as usize]) {
                        return Some(format!("{} on element {} sends {:?}, expected {:?}", ["click", "input", "submit"][kind as usize], i, e[kind as usize], want));
                    }
                }
            }
            None
        };
        for (msgs, p) in &r.probes {
            let last = *msgs == usize::MAX;
            let ks = if last { vec![ups.len()] } else { cands(*msgs) };
            if last && (!sane || r.doms.last() != Some(&shown[ups.len() % shown.len()])) {
                continue;
            }
            let bad: Vec<Option<String>> = ks.iter().map(|k| agrees(*k, p)).collect();
            if !bad.is_empty() && bad.iter().all(|b| b.is_some()) {
                rep.fail("listeners-differ", format!("{}: on the page showing {}: {}", desc, tree(ks[0]).brief(), bad[0].clone().unwrap()));
                break;
            }
        }
    }
    if look & UPDATES != 0 && !hurt {
        judge_updates(rep, &desc, s, r, &ups, &tree, healthy);
    }
    if look & DROPS != 0 {
        let drops = count("drop");
        let made = count("new");
        let ended = w.i().conns[c].closed[0] || r.left;
        if healthy {
            if stays && drops > 0 {
                rep.fail("dropped-early", format!("{}: the component was dropped while the browser was there", desc));
            }
            if !stays && ended && drops != made {
                rep.fail("not-torn-down", format!("{}: the browser went away ({:?}), {} components were made and {} dropped", desc, s.bye, made, drops));
            }
            if drops > 0 {
                let d = mine.iter().position(|x| x.kind() == "drop").unwrap();
                if mine[d + 1..].iter().any(|x| x.kind() == "update") {
                    rep.fail("update-after-drop", format!("{}: an update after the component was dropped", desc));
                }
            }
            if !stays && !w.i().conns[c].closed[1] {
                rep.fail("stream-leak", format!("{}: the server still holds the connection after {:?}", desc, s.bye));
            }
        }
    }
}

fn judge_updates<'a>(rep: &mut Report, desc: &str, s: &'a Sess, r: &Rec, ups: &[Up], tree: &dyn Fn(usize) -> &'a Tree, healthy: bool) {
    // application inputs: in order per sender, once each
    let mut seen: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    for u in ups.iter().filter(|u| u.kind == "app") {
        seen.entry(&u.who).or_default().push(&u.value);
    }
    let alive = healthy && s.bye == Bye::Stay;
    for (i, l) in s.senders.iter().enumerate() {
        let want: Vec<&str> = l.iter().map(|x| x.1.as_str()).collect();
        let got = seen.remove(i.to_string().as_str()).unwrap_or_default();
        if !want.starts_with(&got) || alive && want.len() != got.len() {
            rep.fail("inputs-differ", format!("{}: sender {} sent {:?}, applied were {:?}", desc, i, want, got));
        }
    }
    let mut echoes: Vec<String> = vec![];
    for (i, u) in ups.iter().enumerate() {
        if u.who.contains("echo") && u.kind != "app" {
            echoes.push((i + 1).to_string());
        }
    }
    let got = seen.remove("1000").unwrap_or_default();
    let want: Vec<&str> = echoes.iter().map(|s| s.as_str()).collect();
    if !want.starts_with(&got) || alive && want.len() != got.len() {
        rep.fail("inputs-differ", format!("{}: the component sent itself {:?}, applied were {:?}", desc, want, got));
    }
    if let Some((k, v)) = seen.iter().next() {
        rep.fail("inputs-differ", format!("{}: inputs {:?} of a sender {:?} that does not exist", desc, v, k));
    }
    // events: each one is applied if the view of that moment has its listener, and else ignored
    let applies = |k: usize, e: &Ev| -> Option<(u8, String, String)> {
        match e {
            Ev::Junk => None,
            Ev::Name(n, v) => match (tree(k).listener(n)?, v) {
                (2, Some(v)) => Some((2, n.clone(), v.clone())),
                (2, None) => None,
                (kind, _) => Some((kind, n.clone(), String::new())),
            },
        }
    };
    // positions in the list of events that are possible before update k
    let mut pos: Vec<usize> = vec![0];
    let close = |pos: &mut Vec<usize>, k: usize| {
        let mut i = 0;
        while i < pos.len() {
            let p = pos[i];
            if p < r.events.len() && applies(k, &r.events[p]).is_none() && !pos.contains(&(p + 1)) {
                pos.push(p + 1);
            }
            i += 1;
        }
    };
    for (k, u) in ups.iter().enumerate() {
        close(&mut pos, k);
        if u.kind == "app" {
            continue;
        }
        if u.from != k.to_string() {
            rep.fail("stale-listener", format!("{}: update {} is {:?}, by the listener of render {}, not of the one before it", desc, k, u, u.from));
            return;
        }
        let kind = KINDS.iter().position(|x| *x == u.kind).unwrap_or(9) as u8;
        let next: Vec<usize> = pos
            .iter()
            .filter(|p| **p < r.events.len() && applies(k, &r.events[**p]) == Some((kind, u.who.clone(), u.value.clone())))
            .map(|p| p + 1)
            .collect();
        if next.is_empty() {
            let p = pos.iter().max().unwrap();
            rep.fail(
                "updates-differ",
                format!(
                    "{}: update {} is {:?}, but the next event is {:?} (number {} of {:?}), the view was {}",
                    desc,
                    k,
                    u,
                    r.events.get(*p),
                    p,
                    r.events,
                    tree(k).brief()
                ),
            );
            return;
        }
        pos = next;
    }
    close(&mut pos, ups.len());
    // everything that certainly arrived was looked at
    let arrived = healthy && !r.send_failed && matches!(s.bye, Bye::Stay | Bye::Close | Bye::Half | Bye::Violation(_)) && (r.end.is_none() || s.bye != Bye::Stay) && r.end != Some(ConnEnd::Reset);
    if arrived && !pos.contains(&r.events.len()) {
        let p = pos.iter().max().unwrap();
        rep.fail(
            "event-lost",
            format!("{}: event {} ({:?}) was never applied, though the view has its listener: {}; events {:?}; updates {:?}", desc, p, r.events.get(*p), tree(ups.len()).brief(), r.events, ups),
        );
    }
}

fn story(n: usize, s: &Sess, r: &Rec) -> String {
    format!(
        "session {}: mode {}, trees [{}], senders {:?}, {} acts, {} messages, {} events, {:?}",
        n,
        s.mode,
        s.trees.iter().map(|t| t.brief()).collect::<Vec<_>>().join(" "),
        s.senders,
        s.acts.len(),
        r.doms.len(),
        r.events.len(),
        s.bye
    )
}

fn go(w: &World, ctx: &Ctx, rep: &mut Report, ss: Vec<Sess>, look: u32, which: &dyn Fn(usize) -> bool) {
    browser::reset();
    let assets = browser::assets(ctx, "lv", PORT, "/s/0/", &config(&[]));
    browser::reset();
    boot(w, ctx, "lv", config(&ss));
    let rec = shared(vec![Rec::default(); ss.len()]);
    for (i, s) in ss.iter().enumerate() {
        let f = drive(w.clone(), i, s.clone(), rec.clone(), assets.clone());
        w.spawn_client(&format!("browser{}", i), f);
    }
    finish(w, rep);
    acceptor_ok(w, rep);
    let o = obs(w);
    let mut stories = vec![];
    for (i, s) in ss.iter().enumerate() {
        if s.bye == Bye::Stay && !rec.borrow()[i].doms.is_empty() {
            let p = browser::probe(i);
            rec.borrow_mut()[i].probes.push((usize::MAX, p));
        }
        let r = &rec.borrow()[i];
        if which(i) {
            judge(w, rep, i, s, r, &o, look);
        }
        if !r.doms.is_empty() && (r.events.iter().any(|e| *e != Ev::Junk) || r.doms.len() > 1) {
            rep.nontrivial = true;
        }
        stories.push(story(i, s, r));
    }
    w.probe(if o.iter().any(|x| x.kind() == "update") { "an update" } else { "no update" });
    for x in &o {
        if x.kind() == "update" {
            w.probe(&format!("update by {}", x.s(2)));
        } else if x.kind() != "new" {
            w.probe(x.kind());
        }
    }
    rep.case = stories.join("; ");
}

fn c20(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let o = GenOpt { events: 10, junk: 1, ticks: 8, trees: 7, boom: false, byes: [8, 1, 1, 1, 1, 1, 1], early: false };
    let n = 1 + w.weighted(S::Work, &[4, 1]);
    let ss = (0..n).map(|_| gen_sess(w, &o)).collect();
    go(w, ctx, &mut rep, ss, PAGE | LISTEN, &|_| true);
    rep
}
fn c21(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let o = GenOpt { events: 24, junk: 6, ticks: 5, trees: 4, boom: false, byes: [6, 2, 1, 1, 1, 1, 1], early: false };
    let ss = vec![gen_sess(w, &o)];
    go(w, ctx, &mut rep, ss, LISTEN | UPDATES, &|_| true);
    rep
}
fn c22(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    let o = GenOpt { events: 8, junk: 3, ticks: 6, trees: 4, boom: false, byes: [1, 3, 3, 3, 3, 3, 3], early: true };
    let n = 1 + w.weighted(S::Work, &[3, 1, 1]);
    let ss = (0..n).map(|_| gen_sess(w, &o)).collect();
    go(w, ctx, &mut rep, ss, DROPS, &|_| true);
    rep
}
fn c23(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    {
        let mut m = w.m();
        m.fault.kill = [0, 0, 16, 100][m.ch.pick(S::Fault, 4) as usize];
        m.fault.max_kills = 3;
        m.fault.accept_fail = [0, 0, 16][m.ch.pick(S::Fault, 3) as usize];
        m.fault.oom = [0, 0, 0, 2][m.ch.pick(S::Fault, 4) as usize];
    }
    let bad = GenOpt { events: 8, junk: 4, ticks: 5, trees: 3, boom: true, byes: [2, 1, 1, 2, 2, 2, 2], early: true };
    let good = GenOpt { events: 8, junk: 1, ticks: 5, trees: 3, boom: false, byes: [6, 1, 1, 0, 0, 0, 0], early: false };
    let n = 2 + w.size(S::Work, 0, 3) as usize;
    let ss: Vec<Sess> = (0..n).map(|i| gen_sess(w, if i % 2 == 0 { &good } else { &bad })).collect();
    go(w, ctx, &mut rep, ss, PAGE | LISTEN | UPDATES | DROPS, &|_| true);
    rep
}

const REAL_LV: &str = "puck_liveview (component, diffing, serialisation, wrapping of nodes, client script), puck and the lunatic guest crate, compiled to wasm from /repo and executed unchanged; the client script, as the application serves it, runs in node";
const STUB_LV: &str = "the lunatic host: processes, mailboxes, TCP, clock, randomness (simulated); the browser's document and WebSocket (a document model in node); malvolio and derive_builder (git or registry dependencies this sandbox lacks) are replaced by stand-ins; components and users are generated";

pub fn props() -> Vec<Prop> {
    let p = |id, run, rule, quick_runs| Prop { id, guests: &["lv"], run, rule, real: REAL_LV, stub: STUB_LV, quick_runs };
    vec![
        p("C20", c20, "1-2 sessions of up to 8 generated trees (elements with and without ids, malvolio nodes, keyed children), renders driven by events and application inputs; after every message the page in the browser is compared with the renders, in order, and with the last one at the end; every element is probed for its listeners; a run counts if the page changed or an event was sent", 60000),
        p("C21", c21, "a session with up to 24 events, junk messages and other frames from the browser and inputs from up to 3 processes; the applied updates are matched with what was sent; a run counts if the page changed or an event was sent", 60000),
        p("C22", c22, "1-3 sessions whose browser leaves in one of 6 ways at any moment, also before the first paint; a run counts if the page changed or an event was sent", 60000),
        p("C23", c23, "2-5 sessions, every second one with panicking updates, junk and rude ends, with kills, refused memory and failing accepts; every session that no fault hit is judged as for C20-C22; a run counts if the page changed or an event was sent", 36000),
    ]
}
