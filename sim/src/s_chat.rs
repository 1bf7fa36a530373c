//! examples/chat (C24): every message reaches every registered user exactly once, in one order, and
//! ids are unique.

use crate::browser;
use crate::choice::S;
use crate::http::many;
use crate::run::*;
use crate::s_http::*;
use crate::s_lv::*;
use crate::util::*;
use crate::world::*;
use crate::ws::*;
use std::collections::{BTreeMap, BTreeSet};

const AT: At = At { port: 8081, host: "localhost:8081" };
const OWN: &str = "own-message-early";

#[derive(Clone, Debug)]
enum Act {
    /// types into the name field
    Name(String),
    Join,
    /// types a message; the pause before it is sent
    Say(String, u32),
    Pause(u32),
    Sleep(u32),
    /// until the page shows so many messages, at most 60 s
    Until(usize),
    Text(String),
}

#[derive(Clone, Debug)]
struct User {
    delay: u32,
    fetch: bool,
    acts: Vec<Act>,
    bye: Bye,
    faulty: bool,
}

/// what a user did, as far as it matters
#[derive(Clone, Debug, Default)]
struct Did {
    name: String,
    joined: Option<u64>,
    /// text and step
    said: Vec<(String, u64)>,
    left: Option<u64>,
    odd: Option<String>,
}

/// what a page shows
#[derive(Clone, Debug, Default, PartialEq)]
struct View {
    hello: Option<String>,
    /// heading and text
    messages: Vec<(String, String)>,
    name_field: Option<u32>,
    join: Option<u32>,
    text_field: Option<u32>,
    send: Option<u32>,
    odd: Option<String>,
}
fn view(dom: &J) -> View {
    fn text(e: &J) -> String {
        e.arr().get(2).map(|k| k.arr().iter().filter(|c| matches!(c, J::Str(_))).map(|c| c.str()).collect()).unwrap_or_default()
    }
    fn walk<'a>(e: &'a J, out: &mut Vec<&'a J>) {
        if let J::Arr(v) = e {
            out.push(e);
            if let Some(k) = v.get(2) {
                for c in k.arr() {
                    walk(c, out);
                }
            }
        }
    }
    let mut all = vec![];
    if let J::Arr(v) = dom {
        for e in v {
            walk(e, &mut all);
        }
    }
    let mut v = View::default();
    let mut open: Option<String> = None;
    for (i, e) in all.iter().enumerate() {
        let a = e.arr();
        let attr = |k: &str| a.get(1).and_then(|x| x.arr().iter().find(|y| y.arr()[0].str() == k)).map(|y| y.arr()[1].str().to_string());
        match a[0].str() {
            "h3" => {
                if open.is_some() {
                    v.odd = Some("a heading without a text".into());
                }
                open = Some(text(e));
            }
            "p" => match open.take() {
                Some(h) => v.messages.push((h, text(e))),
                None if v.hello.is_none() => v.hello = Some(text(e)),
                None => v.odd = Some(format!("the text {:?} without a heading", text(e))),
            },
            "input" => match (attr("type").as_deref(), attr("placeholder").as_deref(), attr("value").as_deref()) {
                (_, Some("username..."), _) => v.name_field = Some(i as u32),
                (_, Some("send a new message..."), _) => v.text_field = Some(i as u32),
                (Some("submit"), _, Some("send message")) => v.send = Some(i as u32),
                (Some("submit"), _, _) => v.join = Some(i as u32),
                _ => v.odd = Some("an unknown field".into()),
            },
            _ => {}
        }
    }
    if open.is_some() {
        v.odd = Some("a heading without a text".into());
    }
    if v.hello.is_some() == v.name_field.is_some() || v.hello.is_some() != v.text_field.is_some() {
        v.odd = Some("neither registered nor not".into());
    }
    v
}

fn now(x: &Browser) -> View {
    x.rec().doms.last().map(view).unwrap_or_default()
}
async fn fire(x: &mut Browser, nth: u32, kind: &str, value: Option<&str>) {
    let d = browser::fire(x.b, nth, kind, value);
    for m in d.sent {
        x.say(m).await;
    }
    x.take().await;
}

async fn live(w: World, b: usize, u: User, rec: Shared<Vec<Rec>>, did: Shared<Vec<Did>>, assets: Option<(String, String)>) {
    w.sleep(u.delay as u64 * MS).await;
    let mut x = match visit(&w, AT, b, "/", &rec, &if u.fetch { None } else { assets }, false, u.faulty).await {
        Some(x) => x,
        None => return,
    };
    let t = w.now() + 100 * SEC;
    x.take().await;
    while x.rec().doms.is_empty() && x.p.more_until(t).await {
        x.take().await;
    }
    for a in &u.acts {
        x.take().await;
        if x.rec().close_seen || x.p.end.is_some() {
            break;
        }
        let v = now(&x);
        match a {
            Act::Name(n) => {
                let joined = did.borrow()[b].joined;
                if let (Some(f), None) = (v.name_field, joined) {
                    did.borrow_mut()[b].name = n.clone();
                    fire(&mut x, f, "input", Some(n)).await;
                }
            }
            Act::Join => {
                if let Some(f) = v.join {
                    if did.borrow()[b].joined.is_none() {
                        did.borrow_mut()[b].joined = Some(w.i().step);
                    }
                    fire(&mut x, f, "click", None).await;
                    if w.chance(S::Work, 3, 4) {
                        let t = w.now() + 60 * SEC;
                        while now(&x).hello.is_none() && x.p.more_until(t).await {
                            x.take().await;
                        }
                    }
                }
            }
            Act::Say(m, pause) => {
                if let Some(f) = v.text_field {
                    fire(&mut x, f, "input", Some(m)).await;
                    if *pause > 0 {
                        let t = w.now() + *pause as u64 * MS;
                        x.read_for(t).await;
                    }
                    if let Some(f) = now(&x).send {
                        let step = w.i().step;
                        did.borrow_mut()[b].said.push((m.clone(), step));
                        fire(&mut x, f, "click", None).await;
                    }
                }
            }
            Act::Pause(ms) => {
                let t = w.now() + *ms as u64 * MS;
                x.read_for(t).await;
            }
            Act::Sleep(ms) => w.sleep(*ms as u64 * MS).await,
            Act::Until(n) => {
                let t = w.now() + 60 * SEC;
                while now(&x).messages.len() < *n && x.p.more_until(t).await {
                    x.take().await;
                }
            }
            Act::Text(t) => {
                let f = encode(true, 0, 1, Some(mask(&w)), t.as_bytes());
                x.send(&f).await;
                x.take().await;
            }
        }
    }
    if u.bye != Bye::Stay {
        did.borrow_mut()[b].left = Some(w.i().step);
    }
    leave(x, &u.bye).await;
}

fn gen_user(w: &World, b: usize) -> User {
    let mut acts = vec![];
    let mut k = 0;
    if w.chance(S::Work, 1, 8) {
        acts.push(Act::Pause(500));
    }
    for _ in 0..w.weighted(S::Work, &[1, 6, 1]) {
        acts.push(Act::Name(if w.chance(S::Work, 1, 6) { "same".into() } else { format!("u{}{}", b, words(w, 8, roomy(w))) }));
    }
    if w.chance(S::Work, 15, 16) {
        acts.push(Act::Join);
    }
    // now and then one user writes most of what there is
    let most = if roomy(w) && w.chance(S::Work, 1, 300) { 150 } else { 50 };
    for _ in 0..many(w, 0, 8, most, if most > 50 { 1 } else { 40 }) {
        match w.weighted(S::Work, &[8, 3, 1, 3, 1]) {
            0 => {
                k += 1;
                let m = format!("{}.{}{}", b, k, if w.chance(S::Work, 1, 2) { format!("_{}", words(w, 10, roomy(w))) } else { String::new() });
                acts.push(Act::Say(m, [0, 0, 5, 200][w.pick(S::Work, 4) as usize]));
            }
            1 => acts.push(Act::Pause([1, 20, 300, 3000][w.pick(S::Work, 4) as usize])),
            2 => acts.push(Act::Sleep([20, 500, 3000][w.pick(S::Work, 3) as usize])),
            3 => acts.push(Act::Until(1 + w.pick(S::Work, 6) as usize)),
            _ => acts.push(Act::Text(
                [
                    "",
                    "{}",
                    "{\"listener\":\"nobody\"}",
                    "{\"listener\":\"set_username\"}",
                    "{\"listener\":5}",
                    "[",
                    "{\"listener\":\"update_message_contents\"}",
                    "{\"listener\":\"update_message_contents\",\"payload\":{}}",
                ][w.pick(S::Work, 8) as usize]
                    .into(),
            )),
        }
    }
    User {
        delay: [0, 0, 0, 10, 500, 4000, 30000][w.pick(S::Work, 7) as usize],
        fetch: roomy(w) && w.chance(S::Work, 1, 8),
        acts,
        bye: gen_bye(w, &[10, 2, 2, 2, 2, 1, 1]),
        faulty: w.chance(S::Work, 1, 2),
    }
}

/// a cycle among the edges, if there is one
fn cycle(n: usize, edges: &BTreeMap<(usize, usize), String>) -> Option<Vec<usize>> {
    let mut next = vec![vec![]; n];
    for (a, b) in edges.keys() {
        next[*a].push(*b);
    }
    // the shortest one, through any node
    let mut best: Option<Vec<usize>> = None;
    for s in 0..n {
        let mut from = vec![usize::MAX; n];
        let mut q = std::collections::VecDeque::from([s]);
        'bfs: while let Some(x) = q.pop_front() {
            for y in &next[x] {
                if *y == s {
                    let mut p = vec![x];
                    let mut z = x;
                    while z != s {
                        z = from[z];
                        p.push(z);
                    }
                    p.reverse();
                    if best.as_ref().map(|b| b.len() > p.len()).unwrap_or(true) {
                        best = Some(p);
                    }
                    break 'bfs;
                }
                if from[*y] == usize::MAX {
                    from[*y] = x;
                    q.push_back(*y);
                }
            }
        }
    }
    best
}

fn c24(w: &World, ctx: &Ctx) -> Report {
    let mut rep = Report::default();
    {
        let mut m = w.m();
        m.fault.kill = [0, 0, 0, 16, 100][m.ch.pick(S::Fault, 5) as usize];
        m.fault.max_kills = 2;
        m.fault.accept_fail = [0, 0, 16][m.ch.pick(S::Fault, 3) as usize];
        // the users are known to one process, which is not killed
        m.spare = vec![1];
    }
    let n = 1 + many(w, 0, 5, 14, 40) as usize;
    let users: Vec<User> = (0..n).map(|b| gen_user(w, b)).collect();
    browser::reset();
    let assets = browser::assets(ctx, "chat", AT.port, "/", &[]);
    browser::reset();
    boot(w, ctx, "chat", vec![]);
    let rec = shared(vec![Rec::default(); n]);
    let did = shared(vec![Did::default(); n]);
    for (b, u) in users.iter().enumerate() {
        let f = live(w.clone(), b, u.clone(), rec.clone(), did.clone(), assets.clone());
        w.spawn_client(&format!("user{}", b), f);
    }
    finish(w, &mut rep);
    acceptor_ok(w, &mut rep);
    if let Some(e) = w.i().procs.get(1).and_then(|p| p.end.clone()) {
        rep.fail("chat-ended", format!("the process that knows the users ended: {:?}", e));
        return rep;
    }
    judge(w, &mut rep, &users, &rec.borrow(), &did.borrow());
    rep
}

fn judge(w: &World, rep: &mut Report, users: &[User], rec: &[Rec], did: &[Did]) {
    let n = users.len();
    let faults = w.i().kills > 0 || w.i().fault.accept_fail > 0;
    // the answer to a ping may be torn by an update that is written in parts (a recorded defect, C12)
    let torn = |b: usize, c: usize| rec[b].pinged && w.i().conns[c].short_writes > 0;
    let hurt: Vec<bool> = (0..n).map(|b| rec[b].conn.map(|c| hurt_session(w, c) || torn(b, c)).unwrap_or(faults)).collect();
    let stays = |b: usize| users[b].bye == Bye::Stay && !hurt[b];
    let views: Vec<Vec<View>> = rec.iter().map(|r| r.doms.iter().map(view).collect()).collect();
    // all messages, in no order
    let mut ids: BTreeMap<&str, usize> = BTreeMap::new();
    let mut msgs: Vec<(usize, &str, u64)> = vec![];
    for (b, d) in did.iter().enumerate() {
        for (m, step) in &d.said {
            ids.insert(m, msgs.len());
            msgs.push((b, m, *step));
        }
    }
    let mut story = vec![];
    let mut id_of: Vec<Option<String>> = vec![None; n];
    let mut hello_at: Vec<Option<u64>> = vec![None; n];
    for b in 0..n {
        let desc = format!("user {}", b);
        if rec[b].conn.is_none() || !rec[b].upgraded {
            if !hurt[b] {
                rep.fail("no-session", format!("{}: could not connect: {:?}", desc, rec[b].head));
            }
            continue;
        }
        for (i, v) in views[b].iter().enumerate() {
            if let Some(o) = &v.odd {
                rep.fail("odd-page", format!("{}: {}: {}", desc, o, rec[b].doms[i].line()));
                return;
            }
            if let Some(h) = &v.hello {
                let id = h
                    .strip_prefix(&format!("Hello {} (user_id: ", did[b].name))
                    .and_then(|r| r.strip_suffix(")!"))
                    .filter(|i| !i.is_empty() && i.bytes().all(|c| c.is_ascii_digit()));
                match id {
                    None => {
                        rep.fail("wrong-name", format!("{} registered as {:?} and is greeted {:?}", desc, did[b].name, h));
                        return;
                    }
                    Some(i2) => {
                        if did[b].joined.is_none() || id_of[b].as_deref().map(|x| x != i2).unwrap_or(false) {
                            rep.fail("wrong-greeting", format!("{} (registered: {:?}) is greeted {:?} after {:?}", desc, did[b].joined, h, id_of[b]));
                            return;
                        }
                        id_of[b] = Some(i2.into());
                        hello_at[b] = hello_at[b].or(Some(rec[b].at[i]));
                    }
                }
            } else if hello_at[b].is_some() {
                rep.fail("unregistered", format!("{} is not registered any more", desc));
                return;
            }
            if i > 0 && !v.messages.starts_with(&views[b][i - 1].messages) {
                rep.fail("messages-changed", format!("{}: {:?} became {:?}", desc, views[b][i - 1].messages, v.messages));
                return;
            }
        }
        if stays(b) && did[b].joined.is_some() && hello_at[b].is_none() {
            rep.fail("not-registered", format!("{} asked to be registered and never was", desc));
        }
        if !hurt[b] && users[b].bye != Bye::Stay && did[b].left.is_some() {
            if let Some(c) = rec[b].conn {
                if !w.i().conns[c].closed[1] {
                    rep.fail("not-removed", format!("{} left ({:?}) and the server still holds the connection", desc, users[b].bye));
                }
            }
        }
        story.push(format!(
            "user {} {:?} id {:?} joined {:?}..{:?} left {:?} said {:?} saw {:?}{}",
            b,
            did[b].name,
            id_of[b],
            did[b].joined,
            hello_at[b],
            did[b].left,
            did[b].said,
            views[b].last().map(|v| v.messages.clone()).unwrap_or_default(),
            if hurt[b] { " (hit by a fault)" } else { "" }
        ));
    }
    rep.case = story.join("; ");
    // ids of users who are certainly registered at the same time
    for a in 0..n {
        for b in a + 1..n {
            if let (Some(x), Some(y), true) = (hello_at[a], hello_at[b], id_of[a] == id_of[b]) {
                let gone = |u: usize| if hurt[u] { hello_at[u].unwrap() } else { did[u].left.unwrap_or(u64::MAX) };
                if x.max(y) < gone(a).min(gone(b)) {
                    rep.fail("same-id", format!("users {} and {} both have the id {:?}; {}", a, b, id_of[a], rep.case));
                    return;
                }
            }
        }
    }
    // what everyone saw
    let mut saw: Vec<Vec<usize>> = vec![vec![]; n];
    let mut first: Vec<Option<u64>> = vec![None; msgs.len()];
    let mut sender_id = id_of.clone();
    for b in 0..n {
        let last = match views[b].last() {
            Some(v) => v,
            None => continue,
        };
        for (h, t) in &last.messages {
            let m = match ids.get(t.as_str()) {
                Some(m) => *m,
                None => {
                    rep.fail("unknown-message", format!("user {} is shown {:?} {:?}, which nobody sent; {}", b, h, t, rep.case));
                    return;
                }
            };
            if saw[b].contains(&m) {
                rep.fail("shown-twice", format!("user {} is shown {:?} twice; {}", b, t, rep.case));
                return;
            }
            saw[b].push(m);
            let s = msgs[m].0;
            let id = h.strip_prefix(&format!("Message from {} (user id: ", did[s].name)).and_then(|r| r.strip_suffix(')'));
            let good = match (&sender_id[s], id) {
                (_, None) => false,
                (None, Some(i)) => {
                    sender_id[s] = Some(i.into());
                    true
                }
                (Some(x), Some(i)) => x == i,
            };
            if !good {
                rep.fail("wrong-sender", format!("user {} is shown {:?} for {:?} from user {} (id {:?}); {}", b, h, t, s, sender_id[s], rep.case));
                return;
            }
        }
        for (i, v) in views[b].iter().enumerate() {
            for (_, t) in &v.messages {
                let m = ids[t.as_str()];
                let at = rec[b].at[i];
                first[m] = Some(first[m].map(|f| f.min(at)).unwrap_or(at));
            }
        }
    }
    rep.nontrivial = (0..n).any(|b| saw[b].iter().any(|m| msgs[*m].0 != b));
    for (m, (s, t, sent)) in msgs.iter().enumerate() {
        let accepted = stays(*s) || first[m].is_some();
        for b in 0..n {
            let has = saw[b].contains(&m);
            // registered before it was sent and there to the end
            let must = accepted && stays(b) && hello_at[b].map(|h| h < *sent).unwrap_or(false);
            if must && !has {
                rep.fail("not-shown", format!("{:?} of user {} is not shown to user {}; {}", t, s, b, rep.case));
                return;
            }
            let never = did[b].joined.map(|j| first[m].map(|f| f < j).unwrap_or(false)).unwrap_or(true);
            if never && has {
                rep.fail("shown-to-stranger", format!("{:?} of user {} is shown to user {}, who was not registered then; {}", t, s, b, rep.case));
                return;
            }
        }
    }
    // one order: (before, after) -> why
    let mut strict: BTreeMap<(usize, usize), String> = BTreeMap::new();
    let mut lax: BTreeMap<(usize, usize), String> = BTreeMap::new();
    let seen: BTreeSet<usize> = saw.iter().flatten().copied().collect();
    for b in 0..n {
        for (i, x) in saw[b].iter().enumerate() {
            for y in &saw[b][i + 1..] {
                let why = format!("{:?} before {:?} for user {}", msgs[*x].1, msgs[*y].1, b);
                strict.insert((*x, *y), why.clone());
                // the recorded defect: the sender's own message may be shown too early
                if !(msgs[*x].0 == b && msgs[*y].0 != b) {
                    lax.insert((*x, *y), why);
                }
            }
            // a user sees all messages from some moment on
            if stays(b) {
                for y in seen.iter().filter(|y| !saw[b].contains(y)) {
                    let why = format!("{:?} before {:?}: user {} sees only the second", msgs[*y].1, msgs[*x].1, b);
                    strict.insert((*y, *x), why.clone());
                    lax.insert((*y, *x), why);
                }
            }
        }
    }
    for x in &seen {
        for y in &seen {
            if x != y && (first[*x].unwrap() < msgs[*y].2 || msgs[*x].0 == msgs[*y].0 && msgs[*x].2 < msgs[*y].2) {
                let why = format!("{:?} before {:?} in time", msgs[*x].1, msgs[*y].1);
                strict.insert((*x, *y), why.clone());
                lax.insert((*x, *y), why);
            }
        }
    }
    let tell = |p: &[usize], e: &BTreeMap<(usize, usize), String>| -> String {
        (0..p.len()).map(|i| e[&(p[i], p[(i + 1) % p.len()])].clone()).collect::<Vec<_>>().join(", ")
    };
    if let Some(p) = cycle(msgs.len(), &lax) {
        rep.fail("no-common-order", format!("{}; {}", tell(&p, &lax), rep.case));
    } else if let Some(p) = cycle(msgs.len(), &strict) {
        rep.known.push((OWN.into(), format!("{}; {}", tell(&p, &strict), rep.case)));
    }
    for x in [
        ("a common order", !seen.is_empty()),
        ("an id used again", (0..n).any(|a| (a + 1..n).any(|b| id_of[a].is_some() && id_of[a] == id_of[b]))),
        ("a user sees only later messages", (0..n).any(|b| stays(b) && hello_at[b].is_some() && saw[b].len() < seen.len())),
    ] {
        if x.1 {
            w.probe(x.0);
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        guests: &["chat"],
        run: c24,
        rule: "1-6 browsers register, send up to 8 messages each, idle, send junk and leave in 6 ways, with kills of their processes and failing accepts; what each browser shows is judged against one order of messages and registrations; a run counts if somebody saw a message of somebody else",
        real: "examples/chat, puck_liveview with its client script (in node), puck and the lunatic guest crate, compiled to wasm from /repo and executed unchanged",
        stub: "the lunatic host: processes, mailboxes, TCP, clock, randomness (simulated); the browser's document and WebSocket (a document model in node); malvolio and derive_builder (dependencies this sandbox lacks) are replaced by stand-ins",
        quick_runs: 36000,
    }]
}
