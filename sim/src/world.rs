//! The simulated world: virtual time, the scheduler, the network, processes and their mailboxes.
//! Nothing in here reads a real clock, real randomness or real I/O.

use crate::choice::{Choices, S};
use std::cell::{Ref, RefCell, RefMut};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

pub type TaskId = usize;
pub type Pid = usize;
pub type ConnId = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Key {
    Mailbox(Pid),
    Readable(ConnId, usize),
    Writable(ConnId, usize),
    Accept(usize),
    Bound,
    Backlog,
    Note,
    Never,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum TState {
    Runnable,
    Waiting,
    Done,
}

pub struct Task {
    pub name: String,
    state: TState,
    keys: Vec<Key>,
    token: u64,
    since: u64,
    prio: u32,
    pub pid: Option<Pid>,
    pub polls: u64,
    /// host calls made by the task
    pub calls: u64,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Wake(TaskId, u64),
    Deliver(ConnId, usize),
}

#[derive(Debug)]
enum SegKind {
    Data(Vec<u8>),
    Fin,
    /// true: unread data at the receiver is discarded
    Rst(bool),
}

#[derive(Debug)]
struct Seg {
    kind: SegKind,
    at: u64,
}

/// one direction of a connection
#[derive(Default, Debug)]
pub struct Pipe {
    inflight: VecDeque<Seg>,
    inflight_bytes: usize,
    recv: VecDeque<u8>,
    pub fin: bool,
    pub rst: bool,
    /// the writing side has finished writing
    pub w_closed: bool,
    /// the reading side has gone
    pub r_closed: bool,
    pub written: u64,
    pub read: u64,
    pub arrived: u64,
    /// virtual time of the last arrival
    pub last_arrival: u64,
    last_at: u64,
    cap: usize,
    pub stall: bool,
}

#[derive(Debug)]
pub struct Conn {
    /// pipes[i] is written by side i; side 0 opened the connection, side 1 accepted it
    pub pipes: [Pipe; 2],
    /// live owners of each side
    pub closed: [bool; 2],
    pub accepted: bool,
    pub port: u16,
    /// which simulated client opened it (if one did)
    pub client: Option<usize>,
    /// faults apply to this connection
    pub faulty: bool,
    pub accepted_at: u64,
    pub closed_at: [u64; 2],
    /// writes of the accepting side that were not taken whole
    pub short_writes: u64,
    pub stalls: u32,
}

pub struct Listener {
    pub port: u16,
    pub backlog: VecDeque<ConnId>,
    pub open: bool,
    /// Some: owned by a guest process
    pub owner: Option<Pid>,
}

/// Shared ownership of one side of a connection; the side closes when the last owner is dropped.
pub struct Token {
    pub conn: ConnId,
    pub side: usize,
    pend: Rc<RefCell<Vec<(ConnId, usize)>>>,
}
impl Drop for Token {
    fn drop(&mut self) {
        self.pend.borrow_mut().push((self.conn, self.side));
    }
}
#[derive(Clone)]
pub struct SHandle(Rc<Token>);
// see World: a run never leaves its thread
unsafe impl Send for SHandle {}
unsafe impl Sync for SHandle {}
impl std::ops::Deref for SHandle {
    type Target = Token;
    fn deref(&self) -> &Token {
        &self.0
    }
}

pub enum Res {
    None,
    Proc(Pid),
    Stream(SHandle),
}

pub enum Msg {
    Data {
        tag: i64,
        buf: Vec<u8>,
        pos: usize,
        res: Vec<Res>,
    },
    LinkDied(i64),
}
impl Msg {
    pub fn tag(&self) -> i64 {
        match self {
            Msg::Data { tag, .. } => *tag,
            Msg::LinkDied(t) => *t,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Normal,
    Exit(i32),
    Trap(String),
    Killed,
    LinkKilled,
}

pub struct Proc {
    pub task: TaskId,
    pub parent: Option<Pid>,
    pub mailbox: VecDeque<Msg>,
    pub links: Vec<(Pid, i64)>,
    pub die_when_link_dies: bool,
    pub end: Option<End>,
    pub ended_at: u64,
    /// connections (as accepted side) it held when it ended abnormally
    pub held: Vec<ConnId>,
    pub killed: bool,
    /// connections handed to it in messages, in order
    pub took: Vec<ConnId>,
    pub stderr: Vec<u8>,
    pub wait_keys: Vec<Key>,
    pub oom: bool,
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub step: u64,
    pub time: u64,
    pub pid: Pid,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct NetCfg {
    pub lat: u64,
    pub jitter: u32,
    /// probability /64 that a read returns less than is available
    pub split_read: u32,
    /// probability /64 that a written chunk is cut into several segments
    pub split_seg: u32,
    pub byte_mode: bool,
    /// probability /64 that a guest write is short
    pub short_write: u32,
    pub cap: usize,
    pub rst_on_unread: bool,
    /// probability /256 of a long delay before a segment on faulty connections
    pub stall: u32,
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    /// 0 run to block, 1 random, 2 priorities
    pub mode: u32,
    pub preempt: u32,
    pub advance: u32,
    pub task_stall: u32,
}

#[derive(Clone, Debug)]
pub struct FaultCfg {
    /// probability / 4096 per host call that a non-root process is killed
    pub kill: u32,
    pub max_kills: u32,
    pub accept_fail: u32,
    /// probability / 256 of refusing memory growth
    pub oom: u32,
    pub wall_jump: bool,
}

pub struct Inner {
    pub ch: Choices,
    pub now: u64,
    pub step: u64,
    pub max_steps: u64,
    pub tasks: Vec<Task>,
    runq: Vec<TaskId>,
    pub cur: TaskId,
    timers: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    pub conns: Vec<Conn>,
    pub listeners: Vec<Listener>,
    pub procs: Vec<Proc>,
    pub registry: BTreeMap<String, Pid>,
    pub obs: Vec<Obs>,
    pub net: NetCfg,
    pub sched: SchedCfg,
    pub fault: FaultCfg,
    pub kills: u32,
    /// processes whose memory is the application's state: never killed
    pub spare: Vec<Pid>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub sig: u64,
    pub preemptions: u64,
    /// time that passed while somebody could have run
    pub starved: u64,
    pub config: Vec<u8>,
    pub wall_base: u64,
    new_tasks: Vec<(TaskId, Pin<Box<dyn Future<Output = ()>>>)>,
    drop_tasks: Vec<TaskId>,
    next_port: u16,
    pub wat_limit: usize,
}

#[derive(Clone)]
pub struct World {
    inner: Rc<RefCell<Inner>>,
    pend: Rc<RefCell<Vec<(ConnId, usize)>>>,
}
// Each run lives on exactly one thread: a World is created, used and dropped there.
unsafe impl Send for World {}
unsafe impl Sync for World {}

pub enum Rd {
    Data(Vec<u8>),
    Eof,
    Block,
    Err(&'static str),
}
pub enum Wr {
    Ok(usize),
    Block,
    Err(&'static str),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    /// nothing can happen any more
    Quiescent,
    /// the step budget ran out
    Steps,
}

impl World {
    pub fn new(mut ch: Choices, trace_on: bool) -> World {
        // Swarm configuration: every run draws its own environment.  0 is always the benign choice.
        let calm = ch.chance(S::Fault, 7, 8); // 0 => completely benign network
        let net = if !calm {
            NetCfg {
                lat: 10 * US,
                jitter: 0,
                split_read: 0,
                split_seg: 0,
                byte_mode: false,
                short_write: 0,
                cap: 1 << 18,
                rst_on_unread: false,
                stall: 0,
            }
        } else {
            NetCfg {
                lat: [10 * US, MS, 50 * MS][ch.pick(S::Fault, 3) as usize],
                jitter: [0, 4, 64][ch.pick(S::Fault, 3) as usize],
                split_read: [0, 8, 32, 64][ch.pick(S::Fault, 4) as usize],
                split_seg: [0, 8, 32, 64][ch.pick(S::Fault, 4) as usize],
                byte_mode: ch.chance(S::Fault, 1, 8),
                short_write: [0, 4, 16, 48][ch.pick(S::Fault, 4) as usize],
                cap: [1 << 18, 65536, 4096, 300, 7, 1][ch.weighted(S::Fault, &[8, 4, 4, 4, 2, 1])],
                rst_on_unread: ch.chance(S::Fault, 1, 2),
                stall: [0, 0, 4, 32][ch.pick(S::Fault, 4) as usize],
            }
        };
        let sched = SchedCfg {
            mode: ch.weighted(S::Sched, &[2, 5, 3]) as u32,
            preempt: [0, 4, 16, 64][ch.pick(S::Sched, 4) as usize],
            advance: [0, 1, 4, 16][ch.pick(S::Sched, 4) as usize],
            task_stall: [0, 0, 0, 1][ch.pick(S::Sched, 4) as usize],
        };
        let wall_base = 1_600_000_000 * SEC + ch.word(S::Rand) as u64 * MS;
        World {
            inner: Rc::new(RefCell::new(Inner {
                ch,
                now: 0,
                step: 0,
                max_steps: 3_000_000,
                tasks: vec![],
                runq: vec![],
                cur: usize::MAX,
                timers: BTreeMap::new(),
                seq: 0,
                conns: vec![],
                listeners: vec![],
                procs: vec![],
                registry: BTreeMap::new(),
                obs: vec![],
                net,
                sched,
                fault: FaultCfg {
                    kill: 0,
                    max_kills: 0,
                    accept_fail: 0,
                    oom: 0,
                    wall_jump: false,
                },
                kills: 0,
                spare: vec![],
                faults: BTreeMap::new(),
                probes: BTreeMap::new(),
                trace_on,
                trace: vec![],
                sig: 0,
                preemptions: 0,
                starved: 0,
                config: vec![],
                wall_base,
                new_tasks: vec![],
                drop_tasks: vec![],
                next_port: 40000,
                wat_limit: 96 << 20,
            })),
            pend: Rc::new(RefCell::new(vec![])),
        }
    }

    pub fn i(&self) -> Ref<'_, Inner> {
        self.inner.borrow()
    }
    pub fn m(&self) -> RefMut<'_, Inner> {
        self.inner.borrow_mut()
    }

    // ---- choices -------------------------------------------------------------------------
    pub fn pick(&self, s: S, n: u32) -> u32 {
        self.m().ch.pick(s, n)
    }
    pub fn chance(&self, s: S, num: u32, den: u32) -> bool {
        self.m().ch.chance(s, num, den)
    }
    pub fn size(&self, s: S, lo: u32, hi: u32) -> u32 {
        self.m().ch.size(s, lo, hi)
    }
    pub fn weighted(&self, s: S, w: &[u32]) -> usize {
        self.m().ch.weighted(s, w)
    }
    pub fn word(&self, s: S) -> u32 {
        self.m().ch.word(s)
    }

    pub fn trace(&self, f: impl FnOnce() -> String) {
        let mut m = self.m();
        m.tr(f);
    }
    pub fn fault(&self, name: &'static str) {
        *self.m().faults.entry(name).or_insert(0) += 1;
    }
    pub fn probe(&self, name: &str) {
        *self.m().probes.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn now(&self) -> u64 {
        self.i().now
    }

    // ---- tasks ---------------------------------------------------------------------------
    pub fn spawn_task(&self, name: String, pid: Option<Pid>, fut: Pin<Box<dyn Future<Output = ()>>>) -> TaskId {
        let mut m = self.m();
        let id = m.tasks.len();
        let prio = if m.sched.mode == 2 { m.ch.pick(S::Sched, 1000) } else { 0 };
        let since = m.step;
        m.tasks.push(Task {
            name,
            state: TState::Runnable,
            keys: vec![],
            token: 0,
            since,
            prio,
            pid,
            polls: 0,
            calls: 0,
        });
        m.runq.push(id);
        m.new_tasks.push((id, fut));
        id
    }
    pub fn spawn_client(&self, name: &str, fut: impl Future<Output = ()> + 'static) -> TaskId {
        self.spawn_task(name.to_string(), None, Box::pin(fut))
    }

    /// block the current task until one of `keys` is signalled or `deadline` passes
    pub fn wait(&self, keys: Vec<Key>, deadline: Option<u64>) -> WaitFut {
        WaitFut {
            w: self.clone(),
            arm: Some((keys, deadline)),
        }
    }
    pub async fn sleep(&self, ns: u64) {
        let t = self.now() + ns;
        while self.now() < t {
            self.wait(vec![Key::Never], Some(t)).await;
        }
    }
    /// give other tasks the chance to run
    pub fn yield_now(&self) -> YieldFut {
        YieldFut { w: self.clone(), mode: 1 }
    }
    /// a point at which the scheduler may switch
    pub fn preempt(&self) -> YieldFut {
        let mode = {
            let mut m = self.m();
            m.now += US / 2;
            let cur = m.cur;
            if let Some(t) = m.tasks.get_mut(cur) {
                t.calls += 1;
            }
            let st = m.sched.task_stall;
            if st > 0 && m.faults.get("task_stall").copied().unwrap_or(0) < 40 && m.ch.chance(S::Sched, st, 128) {
                2
            } else {
                match m.sched.mode {
                    0 => 0,
                    1 => {
                        let p = m.sched.preempt;
                        m.ch.chance(S::Sched, p, 64) as u32
                    }
                    _ => {
                        if m.ch.chance(S::Sched, 1, 48) {
                            let p = m.ch.pick(S::Sched, 1000);
                            let cur = m.cur;
                            m.tasks[cur].prio = p;
                        }
                        let cur = m.cur;
                        let top = m.tasks[cur].prio;
                        (m.runq.iter().any(|t| m.tasks[*t].prio > top)) as u32
                    }
                }
            }
        };
        YieldFut { w: self.clone(), mode }
    }

    pub fn wake(&self, key: Key) {
        self.m().wake(key);
    }
    pub fn note(&self) {
        self.m().wake(Key::Note);
    }

    // ---- network -------------------------------------------------------------------------
    pub fn token(&self, conn: ConnId, side: usize) -> SHandle {
        SHandle(Rc::new(Token {
            conn,
            side,
            pend: self.pend.clone(),
        }))
    }
    pub fn flush_closes(&self) {
        loop {
            let list: Vec<_> = std::mem::take(&mut *self.pend.borrow_mut());
            if list.is_empty() {
                return;
            }
            for (c, s) in list {
                self.m().close_side(c, s);
            }
        }
    }
    pub fn listen(&self, port: u16, owner: Option<Pid>) -> Result<usize, &'static str> {
        let mut m = self.m();
        if m.listeners.iter().any(|l| l.open && l.port == port) {
            return Err("Address already in use (os error 98)");
        }
        let id = m.listeners.len();
        m.listeners.push(Listener {
            port,
            backlog: VecDeque::new(),
            open: true,
            owner,
        });
        m.wake(Key::Bound);
        m.tr(|| format!("listen port={}", port));
        Ok(id)
    }
    pub fn connect(&self, port: u16, client: Option<usize>) -> Result<ConnId, &'static str> {
        let mut m = self.m();
        let l = match m.listeners.iter().position(|l| l.open && l.port == port) {
            Some(l) => l,
            None => return Err("Connection refused (os error 111)"),
        };
        let id = m.conns.len();
        let cap = m.net.cap;
        let p = || Pipe { cap, ..Default::default() };
        let eport = m.next_port;
        m.next_port = m.next_port.wrapping_add(1).max(20000);
        m.conns.push(Conn {
            pipes: [p(), p()],
            closed: [false, false],
            accepted: false,
            port: eport,
            client,
            faulty: false,
            accepted_at: 0,
            closed_at: [0, 0],
            short_writes: 0,
            stalls: 0,
        });
        m.listeners[l].backlog.push_back(id);
        m.wake(Key::Accept(l));
        m.tr(|| format!("connect conn={} client={:?}", id, client));
        Ok(id)
    }
    pub fn try_accept(&self, l: usize) -> Option<ConnId> {
        let mut m = self.m();
        let c = m.listeners[l].backlog.pop_front()?;
        m.conns[c].accepted = true;
        m.conns[c].accepted_at = m.now;
        m.wake(Key::Backlog);
        m.tr(|| format!("accept conn={}", c));
        Some(c)
    }
    pub fn read(&self, c: ConnId, side: usize, max: usize) -> Rd {
        self.m().read(c, side, max)
    }
    pub fn write(&self, c: ConnId, side: usize, data: &[u8]) -> Wr {
        self.m().write(c, side, data)
    }
    pub fn shutdown_write(&self, c: ConnId, side: usize) {
        self.m().shutdown_write(c, side)
    }
    pub fn abort(&self, c: ConnId, side: usize) {
        self.m().abort(c, side)
    }

    // ---- processes -----------------------------------------------------------------------
    pub fn add_proc(&self, parent: Option<Pid>) -> Pid {
        let mut m = self.m();
        m.procs.push(Proc {
            task: usize::MAX,
            parent,
            mailbox: VecDeque::new(),
            links: vec![],
            die_when_link_dies: true,
            end: None,
            ended_at: 0,
            held: vec![],
            killed: false,
            took: vec![],
            stderr: vec![],
            wait_keys: vec![],
            oom: false,
        });
        m.procs.len() - 1
    }
    pub fn post(&self, to: Pid, msg: Msg) {
        let dropped;
        {
            let mut m = self.m();
            if m.procs[to].end.is_some() {
                dropped = Some(msg);
            } else {
                m.procs[to].mailbox.push_back(msg);
                m.wake(Key::Mailbox(to));
                dropped = None;
            }
        }
        drop(dropped);
        self.flush_closes();
    }
    pub fn link(&self, a: Pid, b: Pid, tag_a: i64, tag_b: i64) {
        // a learns about b's death with tag_b
        let dead_b;
        {
            let mut m = self.m();
            dead_b = m.procs[b].end.is_some();
            if !dead_b {
                m.procs[b].links.push((a, tag_a));
                m.procs[a].links.push((b, tag_b));
            }
        }
        let _ = dead_b;
    }
    pub fn unlink(&self, a: Pid, b: Pid) {
        let mut m = self.m();
        m.procs[a].links.retain(|x| x.0 != b);
        m.procs[b].links.retain(|x| x.0 != a);
    }
    pub fn end_proc(&self, pid: Pid, end: End, held: Vec<ConnId>) {
        let (links, mailbox) = {
            let mut m = self.m();
            if m.procs[pid].end.is_some() {
                return;
            }
            let t = m.procs[pid].task;
            m.tr(|| format!("p{} ended: {:?}", pid, end));
            let now = m.now;
            let p = &mut m.procs[pid];
            p.end = Some(end.clone());
            p.ended_at = now;
            p.held = held;
            let _ = t;
            let l = std::mem::take(&mut p.links);
            let mb = std::mem::take(&mut p.mailbox);
            for (q, _) in &l {
                m.procs[*q].links.retain(|x| x.0 != pid);
            }
            for lst in m.listeners.iter_mut() {
                if lst.owner == Some(pid) {
                    lst.open = false;
                }
            }
            (l, mb)
        };
        drop(mailbox);
        self.flush_closes();
        let abnormal = !matches!(end, End::Normal | End::Exit(0));
        if abnormal {
            for (q, tag) in links {
                let kill = {
                    let m = self.i();
                    m.procs[q].end.is_none() && m.procs[q].die_when_link_dies
                };
                if kill {
                    let t = self.i().procs[q].task;
                    {
                        let mut m = self.m();
                        m.tasks[t].state = TState::Done;
                        m.runq.retain(|x| *x != t);
                        m.drop_tasks.push(t);
                    }
                    self.end_proc(q, End::LinkKilled, vec![]);
                } else {
                    self.post(q, Msg::LinkDied(tag));
                }
            }
        }
        self.m().wake(Key::Note);
    }

    /// kill process `pid` from outside (used for scheduled crash faults on blocked processes)
    pub fn kill_blocked(&self, pid: Pid) {
        let t = {
            let mut m = self.m();
            if m.procs[pid].end.is_some() {
                return;
            }
            let t = m.procs[pid].task;
            m.procs[pid].killed = true;
            m.kills += 1;
            *m.faults.entry("kill").or_insert(0) += 1;
            m.tasks[t].state = TState::Done;
            m.runq.retain(|x| *x != t);
            m.drop_tasks.push(t);
            t
        };
        let _ = t;
        self.end_proc(pid, End::Killed, vec![]);
    }

    // ---- executor ------------------------------------------------------------------------
    pub fn run(&self) -> Stop {
        let mut futs: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>> = vec![];
        let waker = noop_waker();
        let mut cx = Context::from_waker(&waker);
        loop {
            // adopt new tasks, drop cancelled ones
            loop {
                let (new, dropl) = {
                    let mut m = self.m();
                    (std::mem::take(&mut m.new_tasks), std::mem::take(&mut m.drop_tasks))
                };
                if new.is_empty() && dropl.is_empty() {
                    break;
                }
                for (id, f) in new {
                    while futs.len() <= id {
                        futs.push(None);
                    }
                    futs[id] = Some(f);
                }
                for t in dropl {
                    if let Some(f) = futs.get_mut(t) {
                        drop(f.take());
                    }
                }
                self.flush_closes();
            }
            let next = {
                let mut m = self.m();
                m.step += 1;
                m.now += US / 2;
                if m.step > m.max_steps {
                    m.tr(|| "step budget exhausted".into());
                    drop(m);
                    break (Stop::Steps, futs);
                }
                m.fire_due();
                if m.runq.is_empty() {
                    if let Some((t, _)) = m.timers.keys().next().copied() {
                        m.now = m.now.max(t);
                        m.fire_due();
                        continue;
                    }
                    drop(m);
                    break (Stop::Quiescent, futs);
                }
                let adv = m.sched.advance;
                if adv > 0 && !m.timers.is_empty() && m.ch.chance(S::Sched, adv, 128) {
                    let (t, _) = *m.timers.keys().next().unwrap();
                    let jump = t.saturating_sub(m.now);
                    // a slow node, not a dead one
                    if jump <= 3 * SEC && m.starved + jump <= 60 * SEC {
                        m.starved += jump;
                        m.now += jump;
                        m.fire_due();
                    }
                }
                m.choose()
            };
            {
                let mut m = self.m();
                m.cur = next;
                m.tasks[next].polls += 1;
                let pid = m.tasks[next].pid.map(|p| p as u64 + 1).unwrap_or(0x8000 + next as u64);
                m.sig = crate::choice::mix(m.sig ^ pid);
            }
            let mut f = match futs.get_mut(next).and_then(|f| f.take()) {
                Some(f) => f,
                None => continue,
            };
            let r = f.as_mut().poll(&mut cx);
            match r {
                Poll::Ready(()) => {
                    drop(f);
                    self.m().tasks[next].state = TState::Done;
                }
                Poll::Pending => {
                    futs[next] = Some(f);
                    let mut m = self.m();
                    // pending without having armed anything: the fuel slice was used up
                    if m.tasks[next].state == TState::Runnable && !m.runq.contains(&next) {
                        m.runq.push(next);
                        m.step += 2000;
                        m.now += MS;
                        let s = m.step;
                        m.tasks[next].since = s;
                        *m.probes.entry("fuel_yield".into()).or_insert(0) += 1;
                    }
                }
            }
            self.m().cur = usize::MAX;
            self.flush_closes();
        }
        .into_stop(self)
    }
}

trait IntoStop {
    fn into_stop(self, w: &World) -> Stop;
}
impl IntoStop for (Stop, Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>) {
    fn into_stop(self, w: &World) -> Stop {
        // Post-run teardown must not disturb what the oracles look at: snapshot semantics are
        // kept by leaking no events; futures are dropped, pending closes are ignored.
        let (s, futs) = self;
        {
            let mut m = w.m();
            m.trace_on = false;
        }
        GRAVE.with(|g| g.borrow_mut().push(Box::new(futs)));
        s
    }
}
thread_local! {
    static GRAVE: RefCell<Vec<Box<dyn std::any::Any>>> = RefCell::new(vec![]);
}
/// drop the futures of finished runs (after their oracles have looked at the final state)
pub fn bury() {
    GRAVE.with(|g| g.borrow_mut().clear());
}

impl Inner {
    pub fn tr(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on && self.trace.len() < 20_000 {
            let s = format!("[{:>7} {:>12}us] {}", self.step, self.now / US, f());
            self.trace.push(s);
        }
    }
    fn timer(&mut self, at: u64, ev: Ev) {
        self.seq += 1;
        self.timers.insert((at, self.seq), ev);
    }
    fn fire_due(&mut self) {
        while let Some((&k, _)) = self.timers.iter().next() {
            if k.0 > self.now {
                break;
            }
            let ev = self.timers.remove(&k).unwrap();
            match ev {
                Ev::Wake(t, token) => {
                    if self.tasks[t].state == TState::Waiting && self.tasks[t].token == token {
                        self.make_runnable(t);
                    }
                }
                Ev::Deliver(c, d) => self.deliver(c, d),
            }
        }
    }
    fn make_runnable(&mut self, t: TaskId) {
        self.tasks[t].state = TState::Runnable;
        self.tasks[t].since = self.step;
        self.runq.push(t);
    }
    pub fn wake(&mut self, key: Key) {
        for t in 0..self.tasks.len() {
            if self.tasks[t].state == TState::Waiting && self.tasks[t].keys.contains(&key) {
                self.make_runnable(t);
            }
        }
    }
    fn choose(&mut self) -> TaskId {
        let n = self.runq.len();
        // fairness: nobody waits for ever
        let oldest = (0..n).min_by_key(|i| self.tasks[self.runq[*i]].since).unwrap();
        let idx = if self.step - self.tasks[self.runq[oldest]].since.min(self.step) > 4000 {
            oldest
        } else {
            match self.sched.mode {
                0 => 0,
                1 => {
                    if n > 1 {
                        self.preemptions += 1;
                    }
                    self.ch.pick(S::Sched, n as u32) as usize
                }
                _ => (0..n)
                    .max_by_key(|i| (self.tasks[self.runq[*i]].prio, std::cmp::Reverse(*i)))
                    .unwrap(),
            }
        };
        self.runq.remove(idx)
    }

    fn delay(&mut self, c: ConnId) -> u64 {
        let mut d = self.net.lat;
        if self.net.jitter > 0 {
            let j = self.net.jitter;
            d += self.ch.pick(S::Fault, j) as u64 * (self.net.lat / 8).max(US);
        }
        if self.net.stall > 0 && self.conns[c].faulty && self.conns[c].stalls < 6 {
            let p = self.net.stall;
            if self.ch.chance(S::Fault, p, 256) {
                *self.faults.entry("stall").or_insert(0) += 1;
                self.conns[c].stalls += 1;
                d += (1 + self.ch.pick(S::Fault, 60) as u64) * SEC;
            }
        }
        d
    }
    fn push_seg(&mut self, c: ConnId, dir: usize, kind: SegKind) {
        let d = self.delay(c);
        let at = (self.now + d).max(self.conns[c].pipes[dir].last_at);
        let p = &mut self.conns[c].pipes[dir];
        p.last_at = at;
        if let SegKind::Data(d) = &kind {
            p.inflight_bytes += d.len();
        }
        p.inflight.push_back(Seg { kind, at });
        self.timer(at, Ev::Deliver(c, dir));
    }
    fn deliver(&mut self, c: ConnId, dir: usize) {
        let now = self.now;
        let mut bounce = false;
        loop {
            let p = &mut self.conns[c].pipes[dir];
            match p.inflight.front() {
                Some(s) if s.at <= now => {}
                _ => break,
            }
            let seg = p.inflight.pop_front().unwrap();
            match seg.kind {
                SegKind::Data(d) => {
                    p.inflight_bytes -= d.len();
                    p.arrived += d.len() as u64;
                    p.last_arrival = now;
                    if p.r_closed {
                        bounce = true;
                    } else if !p.rst {
                        p.recv.extend(d.iter());
                    }
                    let n = d.len();
                    self.tr(|| format!("arrive conn={} dir={} n={}", c, dir, n));
                }
                SegKind::Fin => {
                    p.fin = true;
                    p.last_arrival = now;
                    self.tr(|| format!("fin conn={} dir={}", c, dir));
                }
                SegKind::Rst(discard) => {
                    p.rst = true;
                    p.last_arrival = now;
                    if discard {
                        p.recv.clear();
                    }
                    self.tr(|| format!("rst conn={} dir={} discard={}", c, dir, discard));
                }
            }
        }
        if bounce {
            self.bounce(c, 1 - dir);
        }
        self.wake(Key::Readable(c, 1 - dir));
        self.wake(Key::Writable(c, dir));
        self.wake(Key::Writable(c, 1 - dir));
    }
    /// data reached a side that no longer reads: it answers with a reset
    fn bounce(&mut self, c: ConnId, from: usize) {
        let p = &self.conns[c].pipes[from];
        if p.rst || p.inflight.iter().any(|s| matches!(s.kind, SegKind::Rst(_))) {
            return;
        }
        self.push_seg(c, from, SegKind::Rst(false));
    }
    pub fn read(&mut self, c: ConnId, side: usize, max: usize) -> Rd {
        let dir = 1 - side;
        let avail = self.conns[c].pipes[dir].recv.len();
        if max == 0 {
            return Rd::Data(vec![]);
        }
        if avail == 0 {
            let p = &self.conns[c].pipes[dir];
            if p.fin {
                return Rd::Eof;
            }
            if p.rst {
                return Rd::Err("Connection reset by peer (os error 104)");
            }
            return Rd::Block;
        }
        let mut n = avail.min(max);
        let sp = self.net.split_read;
        if n > 1 && sp > 0 {
            if self.net.byte_mode {
                n = 1;
                *self.faults.entry("split_read").or_insert(0) += 1;
            } else if self.ch.chance(S::Fault, sp, 64) {
                *self.faults.entry("split_read").or_insert(0) += 1;
                n = self.ch.size(S::Fault, 1, n as u32 - 1) as usize;
            }
        }
        let p = &mut self.conns[c].pipes[dir];
        let out: Vec<u8> = p.recv.drain(..n).collect();
        p.read += n as u64;
        self.tr(|| format!("read conn={} side={} n={}/{}", c, side, n, avail));
        self.wake(Key::Writable(c, dir));
        Rd::Data(out)
    }
    pub fn write(&mut self, c: ConnId, side: usize, data: &[u8]) -> Wr {
        if data.is_empty() {
            return Wr::Ok(0);
        }
        let back = 1 - side;
        if self.conns[c].pipes[back].rst {
            return Wr::Err("Broken pipe (os error 32)");
        }
        if self.conns[c].pipes[side].w_closed {
            return Wr::Err("Broken pipe (os error 32)");
        }
        if self.conns[c].pipes[side].r_closed {
            // the peer is gone but we have not noticed yet
            *self.faults.entry("write_to_gone_peer").or_insert(0) += 1;
            self.bounce(c, back);
            return Wr::Ok(data.len());
        }
        let p = &self.conns[c].pipes[side];
        let used = p.inflight_bytes + p.recv.len();
        if used >= p.cap {
            *self.faults.entry("backpressure").or_insert(0) += 1;
            return Wr::Block;
        }
        let mut n = data.len().min(p.cap - used);
        if n < data.len() {
            *self.faults.entry("short_write").or_insert(0) += 1;
        }
        let sw = self.net.short_write;
        if n > 1 && sw > 0 && self.ch.chance(S::Fault, sw, 64) {
            *self.faults.entry("short_write").or_insert(0) += 1;
            n = self.ch.size(S::Fault, 1, n as u32 - 1) as usize;
        }
        if n < data.len() && side == 1 {
            self.conns[c].short_writes += 1;
        }
        self.conns[c].pipes[side].written += n as u64;
        self.tr(|| format!("write conn={} side={} n={}/{}", c, side, n, data.len()));
        let mut rest = &data[..n];
        let ss = self.net.split_seg;
        let mut budget = 24;
        while rest.len() > 1 && ss > 0 && budget > 0 && self.ch.chance(S::Fault, ss, 64) {
            budget -= 1;
            let k = if self.net.byte_mode {
                1
            } else {
                self.ch.size(S::Fault, 1, rest.len() as u32 - 1) as usize
            };
            *self.faults.entry("split_segment").or_insert(0) += 1;
            self.push_seg(c, side, SegKind::Data(rest[..k].to_vec()));
            rest = &rest[k..];
        }
        self.push_seg(c, side, SegKind::Data(rest.to_vec()));
        Wr::Ok(n)
    }
    pub fn shutdown_write(&mut self, c: ConnId, side: usize) {
        if self.conns[c].pipes[side].w_closed {
            return;
        }
        self.conns[c].pipes[side].w_closed = true;
        self.tr(|| format!("shutdown_write conn={} side={}", c, side));
        self.push_seg(c, side, SegKind::Fin);
    }
    pub fn close_side(&mut self, c: ConnId, side: usize) {
        if self.conns[c].closed[side] {
            return;
        }
        self.conns[c].closed[side] = true;
        self.conns[c].closed_at[side] = self.now;
        self.tr(|| format!("close conn={} side={}", c, side));
        let inb = &mut self.conns[c].pipes[1 - side];
        let unread = !inb.recv.is_empty();
        inb.r_closed = true;
        inb.recv.clear();
        let already = self.conns[c].pipes[side].w_closed;
        if unread && self.net.rst_on_unread {
            *self.faults.entry("rst_on_unread_close").or_insert(0) += 1;
            self.conns[c].pipes[side].w_closed = true;
            self.push_seg(c, side, SegKind::Rst(false));
        } else if !already {
            self.conns[c].pipes[side].w_closed = true;
            self.push_seg(c, side, SegKind::Fin);
        }
        self.wake(Key::Writable(c, 1 - side));
        self.wake(Key::Note);
    }
    pub fn abort(&mut self, c: ConnId, side: usize) {
        if self.conns[c].closed[side] {
            return;
        }
        self.conns[c].closed[side] = true;
        self.conns[c].closed_at[side] = self.now;
        *self.faults.entry("reset").or_insert(0) += 1;
        self.tr(|| format!("abort conn={} side={}", c, side));
        let drop_inflight = self.ch.chance(S::Fault, 1, 2);
        let discard = self.ch.chance(S::Fault, 1, 2);
        let inb = &mut self.conns[c].pipes[1 - side];
        inb.r_closed = true;
        inb.recv.clear();
        let out = &mut self.conns[c].pipes[side];
        out.w_closed = true;
        if drop_inflight {
            out.inflight.clear();
            out.inflight_bytes = 0;
            out.last_at = self.now;
        }
        self.push_seg(c, side, SegKind::Rst(discard));
        self.wake(Key::Writable(c, 1 - side));
        self.wake(Key::Note);
    }
    /// bytes that have arrived at `side` and were not read yet
    pub fn unread(&self, c: ConnId, side: usize) -> usize {
        self.conns[c].pipes[1 - side].recv.len()
    }
}

pub struct WaitFut {
    w: World,
    arm: Option<(Vec<Key>, Option<u64>)>,
}
impl Future for WaitFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        match self.arm.take() {
            Some((keys, deadline)) => {
                let mut m = self.w.m();
                let cur = m.cur;
                m.tasks[cur].token += 1;
                let token = m.tasks[cur].token;
                if let Some(p) = m.tasks[cur].pid {
                    m.procs[p].wait_keys = keys.clone();
                }
                m.tasks[cur].state = TState::Waiting;
                m.tasks[cur].keys = keys;
                if let Some(d) = deadline {
                    m.timer(d, Ev::Wake(cur, token));
                }
                Poll::Pending
            }
            None => {
                // woken; spurious polls cannot happen because only runnable tasks are polled
                Poll::Ready(())
            }
        }
    }
}

pub struct YieldFut {
    w: World,
    mode: u32,
}
impl Future for YieldFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        match self.mode {
            0 => Poll::Ready(()),
            1 => {
                self.mode = 0;
                let mut m = self.w.m();
                let cur = m.cur;
                let s = m.step;
                m.tasks[cur].since = s;
                m.runq.push(cur);
                Poll::Pending
            }
            _ => {
                // the whole task is frozen for a while
                self.mode = 0;
                let mut m = self.w.m();
                let cur = m.cur;
                *m.faults.entry("task_stall").or_insert(0) += 1;
                let d = (1 + m.ch.pick(S::Sched, 200) as u64) * 10 * MS;
                m.tasks[cur].token += 1;
                let token = m.tasks[cur].token;
                m.tasks[cur].state = TState::Waiting;
                m.tasks[cur].keys = vec![Key::Never];
                let at = m.now + d;
                m.timer(at, Ev::Wake(cur, token));
                Poll::Pending
            }
        }
    }
}

fn noop_waker() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

// ------------------------------------------------------------------------------------------------
// Simulated peers (browsers, HTTP clients, HTTP servers) are ordinary async code on this type.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ConnEnd {
    Eof,
    Reset,
}

pub struct Peer {
    pub w: World,
    pub conn: ConnId,
    pub side: usize,
    pub got: Vec<u8>,
    pub end: Option<ConnEnd>,
    pub send_failed: bool,
}

impl Peer {
    pub async fn open(w: &World, port: u16, client: usize) -> Peer {
        loop {
            match w.connect(port, Some(client)) {
                Ok(c) => {
                    w.yield_now().await;
                    return Peer {
                        w: w.clone(),
                        conn: c,
                        side: 0,
                        got: vec![],
                        end: None,
                        send_failed: false,
                    };
                }
                Err(_) => w.wait(vec![Key::Bound], None).await,
            }
        }
    }
    pub fn adopt(w: &World, conn: ConnId) -> Peer {
        Peer {
            w: w.clone(),
            conn,
            side: 1,
            got: vec![],
            end: None,
            send_failed: false,
        }
    }
    /// true if everything was handed to the network
    pub async fn send(&mut self, data: &[u8]) -> bool {
        let mut off = 0;
        while off < data.len() {
            match self.w.write(self.conn, self.side, &data[off..]) {
                Wr::Ok(n) => {
                    off += n;
                    self.w.yield_now().await;
                }
                Wr::Block => {
                    // keep draining so that two peers never deadlock on full windows
                    self.drain();
                    self.w
                        .wait(
                            vec![Key::Writable(self.conn, self.side), Key::Readable(self.conn, self.side)],
                            None,
                        )
                        .await;
                }
                Wr::Err(_) => {
                    self.send_failed = true;
                    return false;
                }
            }
        }
        true
    }
    /// move everything readable into `got`, without blocking
    pub fn drain(&mut self) -> bool {
        let mut any = false;
        while self.end.is_none() {
            match self.w.read(self.conn, self.side, 1 << 20) {
                Rd::Data(d) => {
                    self.got.extend(d);
                    any = true;
                }
                Rd::Eof => self.end = Some(ConnEnd::Eof),
                Rd::Err(_) => self.end = Some(ConnEnd::Reset),
                Rd::Block => break,
            }
        }
        any
    }
    /// wait for more bytes or the end; false on end
    pub async fn more(&mut self) -> bool {
        loop {
            if self.drain() {
                return true;
            }
            if self.end.is_some() {
                return false;
            }
            self.w.wait(vec![Key::Readable(self.conn, self.side)], None).await;
        }
    }
    /// as `more`, but gives up at `deadline` (returns false, end stays None)
    pub async fn more_until(&mut self, deadline: u64) -> bool {
        loop {
            if self.drain() {
                return true;
            }
            if self.end.is_some() || self.w.now() >= deadline {
                return false;
            }
            self.w
                .wait(vec![Key::Readable(self.conn, self.side)], Some(deadline))
                .await;
        }
    }
    pub async fn read_to_end(&mut self) {
        while self.more().await {}
    }
    pub fn half_close(&self) {
        self.w.shutdown_write(self.conn, self.side);
    }
    pub fn close(&self) {
        self.w.m().close_side(self.conn, self.side);
    }
    pub fn abort(&self) {
        self.w.abort(self.conn, self.side);
    }
}

pub type Shared<T> = Rc<RefCell<T>>;
pub fn shared<T>(t: T) -> Shared<T> {
    Rc::new(RefCell::new(t))
}
#[allow(dead_code)]
pub type Map<K, V> = HashMap<K, V>;

impl Inner {
    /// drop everything that may refer back to the world
    pub fn clear(&mut self) {
        self.new_tasks.clear();
        self.procs.clear();
    }
}
