//! The Lunatic 0.9 host ABI (and the little of WASI that guests use), implemented on the simulated
//! world.  Semantics follow lunatic-*-api 0.9.2.

use crate::choice::{Rng, S};
use crate::world::*;
use anyhow::{anyhow, Result};
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::Arc;
use wasmtime::*;

pub struct IdMap<T> {
    next: u64,
    map: BTreeMap<u64, T>,
}
impl<T> Default for IdMap<T> {
    fn default() -> Self {
        IdMap {
            next: 0,
            map: BTreeMap::new(),
        }
    }
}
impl<T> IdMap<T> {
    fn add(&mut self, t: T) -> u64 {
        let id = self.next;
        self.next += 1;
        self.map.insert(id, t);
        id
    }
    fn get(&self, id: u64) -> Option<&T> {
        self.map.get(&id)
    }
    fn get_mut(&mut self, id: u64) -> Option<&mut T> {
        self.map.get_mut(&id)
    }
    fn remove(&mut self, id: u64) -> Option<T> {
        self.map.remove(&id)
    }
}

pub struct PState {
    pub w: World,
    pub pid: Pid,
    guest: Option<Arc<Guest>>,
    streams: IdMap<SHandle>,
    procs: IdMap<Pid>,
    errors: IdMap<String>,
    listeners: IdMap<usize>,
    dns: IdMap<Vec<u16>>,
    configs: IdMap<()>,
    scratch: Option<Msg>,
    rng: Rng,
    root: bool,
}
unsafe impl Send for PState {}
unsafe impl Sync for PState {}

impl Drop for PState {
    fn drop(&mut self) {
        let held: Vec<ConnId> = self.streams.map.values().map(|s| s.conn).collect();
        let mut m = self.w.m();
        let p = &mut m.procs[self.pid];
        if p.held.is_empty() {
            p.held = held;
        }
    }
}

impl ResourceLimiter for PState {
    fn memory_growing(&mut self, _current: usize, desired: usize, _max: Option<usize>) -> bool {
        let mut m = self.w.m();
        if desired > m.wat_limit {
            m.procs[self.pid].oom = true;
            *m.probes.entry("memory_limit".into()).or_insert(0) += 1;
            return false;
        }
        let p = m.fault.oom;
        if !self.root && p > 0 && m.ch.chance(S::Fault, p, 256) {
            *m.faults.entry("alloc_failure".into()).or_insert(0) += 1;
            m.procs[self.pid].oom = true;
            return false;
        }
        true
    }
    fn table_growing(&mut self, _c: u32, _d: u32, _m: Option<u32>) -> bool {
        true
    }
}

/// a compiled guest, shared by all runs and threads
pub struct Guest {
    pub engine: Engine,
    pub pre: InstancePre<PState>,
}

type Fut<'a, T> = Box<dyn Future<Output = std::result::Result<T, Trap>> + Send + 'a>;

fn mem(c: &mut Caller<'_, PState>) -> std::result::Result<Memory, Trap> {
    c.get_export("memory")
        .and_then(|e| e.into_memory())
        .ok_or_else(|| Trap::new("no memory"))
}
fn rd(c: &mut Caller<'_, PState>, ptr: u32, len: u32) -> std::result::Result<Vec<u8>, Trap> {
    let m = mem(c)?;
    m.data(&*c)
        .get(ptr as usize..ptr as usize + len as usize)
        .map(|s| s.to_vec())
        .ok_or_else(|| Trap::new("guest pointer out of bounds"))
}
fn wr(c: &mut Caller<'_, PState>, ptr: u32, data: &[u8]) -> std::result::Result<(), Trap> {
    let m = mem(c)?;
    m.write(&mut *c, ptr as usize, data)
        .map_err(|_| Trap::new("guest pointer out of bounds"))
}
fn bad(what: &str) -> Trap {
    Trap::new(format!("bad resource id: {}", what))
}

/// scheduling point + crash point
async fn point(w: &World, pid: Pid, root: bool) -> std::result::Result<(), Trap> {
    if !root {
        let kill = {
            let mut m = w.m();
            let k = m.fault.kill;
            k > 0 && m.kills < m.fault.max_kills && !m.spare.contains(&pid) && m.ch.chance(S::Fault, k, 4096)
        };
        if kill {
            let mut m = w.m();
            m.kills += 1;
            *m.faults.entry("kill").or_insert(0) += 1;
            m.procs[pid].killed = true;
            m.tr(|| format!("FAULT kill p{}", pid));
            return Err(Trap::new("killed by fault injection"));
        }
    }
    w.preempt().await;
    Ok(())
}

macro_rules! data_msg {
    ($c:expr, $what:expr) => {
        match $c.data_mut().scratch.as_mut() {
            Some(m @ Msg::Data { .. }) => m,
            _ => return Err(Trap::new(concat!("no data message in scratch: ", $what))),
        }
    };
}

pub fn engine() -> Result<Engine> {
    let mut cfg = Config::new();
    cfg.async_support(true);
    cfg.consume_fuel(true);
    cfg.wasm_simd(true);
    cfg.cranelift_opt_level(OptLevel::Speed);
    cfg.memory_init_cow(true);
    cfg.allocation_strategy(InstanceAllocationStrategy::Pooling {
        strategy: PoolingAllocationStrategy::NextAvailable,
        instance_limits: InstanceLimits {
            count: 1200,
            size: 1 << 20,
            memories: 1,
            memory_pages: 2048,
            tables: 2,
            table_elements: 20000,
            ..Default::default()
        },
    });
    cfg.static_memory_maximum_size(2048 * 65536);
    cfg.static_memory_guard_size(65536);
    cfg.dynamic_memory_guard_size(65536);
    cfg.async_stack_size(1 << 20);
    cfg.max_wasm_stack(512 << 10);
    Engine::new(&cfg)
}


fn new_state(w: World, pid: Pid, guest: Option<Arc<Guest>>, root: bool) -> PState {
    let seed = w.word(S::Rand) as u64;
    PState {
        w,
        pid,
        guest,
        streams: Default::default(),
        procs: Default::default(),
        errors: Default::default(),
        listeners: Default::default(),
        dns: Default::default(),
        configs: Default::default(),
        scratch: None,
        rng: Rng::new(seed),
        root,
    }
}

impl Guest {
    pub fn load(engine: &Engine, wasm: &[u8]) -> Result<Guest> {
        let module = Module::new(engine, wasm)?;
        let mut linker: Linker<PState> = Linker::new(engine);
        register(&mut linker)?;
        let world = World::new(crate::choice::Choices::seeded(0), false);
        world.add_proc(None);
        let mut st = Store::new(engine, new_state(world, 0, None, true));
        for imp in module.imports() {
            if linker.get(&mut st, imp.module(), imp.name()).is_none() {
                if let ExternType::Func(ft) = imp.ty() {
                    let name = format!("{}::{}", imp.module(), imp.name());
                    linker.func_new(imp.module(), imp.name(), ft, move |_, _, _| {
                        Err(Trap::new(format!("unsupported import {}", name)))
                    })?;
                }
            }
        }
        let pre = linker.instantiate_pre(&mut st, &module)?;
        Ok(Guest {
            engine: engine.clone(),
            pre,
        })
    }
}

const FUEL_SLICE: u64 = 20_000_000;

/// Start a guest process running `func(params)`.
pub fn spawn(w: &World, guest: &Arc<Guest>, parent: Option<Pid>, func: String, params: Vec<Val>) -> Pid {
    let pid = w.add_proc(parent);
    let state = new_state(w.clone(), pid, Some(guest.clone()), parent.is_none());
    let g = guest.clone();
    let w2 = w.clone();
    w.trace(|| format!("spawn p{} parent={:?}", pid, parent));
    let fut = async move {
        let w = w2;
        let end = {
            let mut store = Store::new(&g.engine, state);
            store.limiter(|s| s);
            store.add_fuel(FUEL_SLICE).unwrap();
            store.out_of_fuel_async_yield(u64::MAX, FUEL_SLICE);
            let r: Result<()> = async {
                let inst = g.pre.instantiate_async(&mut store).await?;
                let f = inst
                    .get_func(&mut store, &func)
                    .ok_or_else(|| anyhow!("function {} not found", func))?;
                f.call_async(&mut store, &params, &mut []).await?;
                Ok(())
            }
            .await;
            let end = match r {
                Ok(()) => End::Normal,
                Err(e) => {
                    let killed = w.i().procs[pid].killed;
                    match e.downcast_ref::<Trap>() {
                        _ if killed => End::Killed,
                        Some(t) if t.i32_exit_status().is_some() => match t.i32_exit_status().unwrap() {
                            0 => End::Normal,
                            c => End::Exit(c),
                        },
                        Some(t) => {
                            let s = t.to_string();
                            End::Trap(s.lines().next().unwrap_or("").to_string())
                        }
                        None => End::Trap(e.to_string()),
                    }
                }
            };
            let held: Vec<ConnId> = store.data().streams.map.values().map(|s| s.conn).collect();
            {
                let mut m = w.m();
                m.procs[pid].held = held;
            }
            // resources are released before anybody learns about the end
            drop(store);
            w.flush_closes();
            end
        };
        let held = std::mem::take(&mut w.m().procs[pid].held);
        w.end_proc(pid, end, held);
    };
    let t = w.spawn_task(format!("p{}", pid), Some(pid), Box::pin(fut));
    w.m().procs[pid].task = t;
    pid
}

/// an error resource is handed to the guest
fn err_out(c: &mut Caller<'_, PState>, e: &str, ptr: u32) -> std::result::Result<u32, Trap> {
    let id = c.data_mut().errors.add(e.to_string());
    wr(c, ptr, &id.to_le_bytes())?;
    Ok(1)
}

fn register(l: &mut Linker<PState>) -> Result<()> {
    // ---- sim ----------------------------------------------------------------------------------
    l.func_wrap("sim", "observe", |mut c: Caller<'_, PState>, ptr: u32, len: u32| {
        let data = rd(&mut c, ptr, len)?;
        let (w, pid) = (c.data().w.clone(), c.data().pid);
        let mut m = w.m();
        m.tr(|| format!("p{} observes {}", pid, show(&data)));
        let (step, time) = (m.step, m.now);
        m.obs.push(Obs { step, time, pid, data });
        m.wake(Key::Note);
        Ok::<(), Trap>(())
    })?;
    l.func_wrap("sim", "config", |mut c: Caller<'_, PState>, ptr: u32, cap: u32| {
        let cfg = c.data().w.i().config.clone();
        let n = cfg.len().min(cap as usize);
        wr(&mut c, ptr, &cfg[..n])?;
        Ok::<u32, Trap>(cfg.len() as u32)
    })?;

    // ---- errors -------------------------------------------------------------------------------
    l.func_wrap("lunatic::error", "string_size", |c: Caller<'_, PState>, id: u64| {
        c.data().errors.get(id).map(|s| s.len() as u32).ok_or_else(|| bad("error"))
    })?;
    l.func_wrap("lunatic::error", "to_string", |mut c: Caller<'_, PState>, id: u64, ptr: u32| {
        let s = c.data().errors.get(id).cloned().ok_or_else(|| bad("error"))?;
        wr(&mut c, ptr, s.as_bytes())
    })?;
    l.func_wrap("lunatic::error", "drop", |mut c: Caller<'_, PState>, id: u64| {
        c.data_mut().errors.remove(id).map(|_| ()).ok_or_else(|| bad("error"))
    })?;

    // ---- messages -----------------------------------------------------------------------------
    l.func_wrap("lunatic::message", "create_data", |mut c: Caller<'_, PState>, tag: i64, _cap: u64| {
        let old = c.data_mut().scratch.replace(Msg::Data {
            tag,
            buf: vec![],
            pos: 0,
            res: vec![],
        });
        drop(old);
        c.data().w.clone().flush_closes();
    })?;
    l.func_wrap("lunatic::message", "write_data", |mut c: Caller<'_, PState>, ptr: u32, len: u32| {
        let d = rd(&mut c, ptr, len)?;
        match data_msg!(c, "write_data") {
            Msg::Data { buf, .. } => buf.extend(d),
            _ => unreachable!(),
        }
        Ok::<u32, Trap>(len)
    })?;
    l.func_wrap("lunatic::message", "read_data", |mut c: Caller<'_, PState>, ptr: u32, len: u32| {
        let d = match data_msg!(c, "read_data") {
            Msg::Data { buf, pos, .. } => {
                if *pos > buf.len() {
                    return Err(Trap::new("Reading outside message buffer"));
                }
                let n = (buf.len() - *pos).min(len as usize);
                let d = buf[*pos..*pos + n].to_vec();
                *pos += n;
                d
            }
            _ => unreachable!(),
        };
        wr(&mut c, ptr, &d)?;
        Ok::<u32, Trap>(d.len() as u32)
    })?;
    l.func_wrap("lunatic::message", "seek_data", |mut c: Caller<'_, PState>, i: u64| {
        match data_msg!(c, "seek_data") {
            Msg::Data { pos, .. } => *pos = i as usize,
            _ => unreachable!(),
        }
        Ok::<(), Trap>(())
    })?;
    l.func_wrap("lunatic::message", "get_tag", |c: Caller<'_, PState>| {
        c.data().scratch.as_ref().map(|m| m.tag()).ok_or_else(|| Trap::new("get_tag: no message"))
    })?;
    l.func_wrap("lunatic::message", "data_size", |mut c: Caller<'_, PState>| {
        match data_msg!(c, "data_size") {
            Msg::Data { buf, .. } => Ok::<u64, Trap>(buf.len() as u64),
            _ => unreachable!(),
        }
    })?;
    l.func_wrap("lunatic::message", "push_process", |mut c: Caller<'_, PState>, id: u64| {
        let p = c.data_mut().procs.remove(id).ok_or_else(|| bad("process"))?;
        match data_msg!(c, "push_process") {
            Msg::Data { res, .. } => {
                res.push(Res::Proc(p));
                Ok::<u64, Trap>(res.len() as u64 - 1)
            }
            _ => unreachable!(),
        }
    })?;
    l.func_wrap("lunatic::message", "take_process", |mut c: Caller<'_, PState>, i: u64| {
        let p = match data_msg!(c, "take_process") {
            Msg::Data { res, .. } => match res.get_mut(i as usize) {
                Some(r @ Res::Proc(_)) => match std::mem::replace(r, Res::None) {
                    Res::Proc(p) => p,
                    _ => unreachable!(),
                },
                _ => return Err(bad("take_process")),
            },
            _ => unreachable!(),
        };
        Ok::<u64, Trap>(c.data_mut().procs.add(p))
    })?;
    l.func_wrap("lunatic::message", "push_tcp_stream", |mut c: Caller<'_, PState>, id: u64| {
        let s = c.data_mut().streams.remove(id).ok_or_else(|| bad("stream"))?;
        match data_msg!(c, "push_tcp_stream") {
            Msg::Data { res, .. } => {
                res.push(Res::Stream(s));
                Ok::<u64, Trap>(res.len() as u64 - 1)
            }
            _ => unreachable!(),
        }
    })?;
    l.func_wrap("lunatic::message", "take_tcp_stream", |mut c: Caller<'_, PState>, i: u64| {
        let p = match data_msg!(c, "take_tcp_stream") {
            Msg::Data { res, .. } => match res.get_mut(i as usize) {
                Some(r @ Res::Stream(_)) => match std::mem::replace(r, Res::None) {
                    Res::Stream(p) => p,
                    _ => unreachable!(),
                },
                _ => return Err(bad("take_tcp_stream")),
            },
            _ => unreachable!(),
        };
        let pid = c.data().pid;
        c.data().w.m().procs[pid].took.push(p.conn);
        Ok::<u64, Trap>(c.data_mut().streams.add(p))
    })?;
    l.func_wrap1_async("lunatic::message", "send", |mut c: Caller<'_, PState>, id: u64| -> Fut<'_, ()> {
        Box::new(async move {
            let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
            point(&w, pid, root).await?;
            let msg = c.data_mut().scratch.take().ok_or_else(|| Trap::new("send: no message"))?;
            let to = *c.data().procs.get(id).ok_or_else(|| bad("process"))?;
            w.trace(|| format!("p{} sends to p{}", pid, to));
            w.post(to, msg);
            Ok(())
        })
    })?;
    l.func_wrap2_async(
        "lunatic::message",
        "send_receive_skip_search",
        |mut c: Caller<'_, PState>, id: u64, timeout: u32| -> Fut<'_, u32> {
            Box::new(async move {
                let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
                point(&w, pid, root).await?;
                let msg = c.data_mut().scratch.take().ok_or_else(|| Trap::new("send: no message"))?;
                let tag = msg.tag();
                let to = *c.data().procs.get(id).ok_or_else(|| bad("process"))?;
                // only messages that arrive from now on are looked at
                let skip = w.i().procs[pid].mailbox.len();
                w.trace(|| format!("p{} requests p{}", pid, to));
                w.post(to, msg);
                let tags = if tag == 0 { vec![] } else { vec![tag] };
                let deadline = if timeout == 0 { None } else { Some(w.now() + timeout as u64 * MS) };
                match pop(&w, pid, &tags, skip, deadline).await {
                    Some(m) => {
                        point(&w, pid, root).await?;
                        c.data_mut().scratch.replace(m);
                        Ok(0)
                    }
                    None => Ok(9027),
                }
            })
        },
    )?;
    l.func_wrap3_async(
        "lunatic::message",
        "receive",
        |mut c: Caller<'_, PState>, tptr: u32, tlen: u32, timeout: u32| -> Fut<'_, u32> {
            Box::new(async move {
                let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
                point(&w, pid, root).await?;
                let tags: Vec<i64> = if tlen > 0 {
                    rd(&mut c, tptr, tlen * 8)?
                        .chunks_exact(8)
                        .map(|x| i64::from_le_bytes(x.try_into().unwrap()))
                        .collect()
                } else {
                    vec![]
                };
                let deadline = if timeout == 0 { None } else { Some(w.now() + timeout as u64 * MS) };
                match pop(&w, pid, &tags, 0, deadline).await {
                    Some(m) => {
                        let r = matches!(m, Msg::LinkDied(_)) as u32;
                        c.data_mut().scratch.replace(m);
                        Ok(r)
                    }
                    None => Ok(9027),
                }
            })
        },
    )?;

    // ---- networking ---------------------------------------------------------------------------
    l.func_wrap(
        "lunatic::networking",
        "resolve",
        |mut c: Caller<'_, PState>, ptr: u32, len: u32, _timeout: u32, out: u32| {
            let name = rd(&mut c, ptr, len)?;
            let name = String::from_utf8_lossy(&name).to_string();
            match name.rsplit(':').next().and_then(|p| p.parse::<u16>().ok()) {
                Some(port) => {
                    let id = c.data_mut().dns.add(vec![port]);
                    wr(&mut c, out, &id.to_le_bytes())?;
                    Ok::<u32, Trap>(0)
                }
                None => err_out(&mut c, "failed to lookup address information", out),
            }
        },
    )?;
    l.func_wrap("lunatic::networking", "drop_dns_iterator", |mut c: Caller<'_, PState>, id: u64| {
        c.data_mut().dns.remove(id).map(|_| ()).ok_or_else(|| bad("dns"))
    })?;
    l.func_wrap(
        "lunatic::networking",
        "resolve_next",
        |mut c: Caller<'_, PState>, id: u64, ty: u32, addr: u32, port: u32, _f: u32, _s: u32| {
            let next = c.data_mut().dns.get_mut(id).ok_or_else(|| bad("dns"))?.pop();
            match next {
                Some(p) => {
                    wr(&mut c, ty, &4u32.to_le_bytes())?;
                    wr(&mut c, addr, &[127, 0, 0, 1])?;
                    wr(&mut c, port, &p.to_le_bytes())?;
                    Ok::<u32, Trap>(0)
                }
                None => Ok(1),
            }
        },
    )?;
    l.func_wrap6_async(
        "lunatic::networking",
        "tcp_bind",
        |mut c: Caller<'_, PState>, _ty: u32, _addr: u32, port: u32, _f: u32, _s: u32, out: u32| -> Fut<'_, u32> {
            Box::new(async move {
                let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
                point(&w, pid, root).await?;
                match w.listen(port as u16, Some(pid)) {
                    Ok(l) => {
                        let id = c.data_mut().listeners.add(l);
                        wr(&mut c, out, &id.to_le_bytes())?;
                        Ok(0)
                    }
                    Err(e) => err_out(&mut c, e, out),
                }
            })
        },
    )?;
    l.func_wrap("lunatic::networking", "drop_tcp_listener", |mut c: Caller<'_, PState>, id: u64| {
        let l = c.data_mut().listeners.remove(id).ok_or_else(|| bad("listener"))?;
        c.data().w.m().listeners[l].open = false;
        Ok::<(), Trap>(())
    })?;
    l.func_wrap("lunatic::networking", "tcp_local_addr", |mut c: Caller<'_, PState>, id: u64, out: u32| {
        let l = *c.data().listeners.get(id).ok_or_else(|| bad("listener"))?;
        let port = c.data().w.i().listeners[l].port;
        let d = c.data_mut().dns.add(vec![port]);
        wr(&mut c, out, &d.to_le_bytes())?;
        Ok::<u32, Trap>(0)
    })?;
    l.func_wrap3_async(
        "lunatic::networking",
        "tcp_accept",
        |mut c: Caller<'_, PState>, lid: u64, out: u32, peer: u32| -> Fut<'_, u32> {
            Box::new(async move {
                let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
                let li = *c.data().listeners.get(lid).ok_or_else(|| bad("listener"))?;
                point(&w, pid, root).await?;
                loop {
                    let has = !w.i().listeners[li].backlog.is_empty();
                    if has {
                        let fail = {
                            let mut m = w.m();
                            let p = m.fault.accept_fail;
                            p > 0 && m.ch.chance(S::Fault, p, 64)
                        };
                        if fail {
                            w.fault("accept_error");
                            w.trace(|| "FAULT accept error".into());
                            wr(&mut c, peer, &0u64.to_le_bytes())?;
                            return err_out(&mut c, "Too many open files (os error 24)", out);
                        }
                        let conn = w.try_accept(li).unwrap();
                        let tok = w.token(conn, 1);
                        let port = w.i().conns[conn].port;
                        let id = c.data_mut().streams.add(tok);
                        let d = c.data_mut().dns.add(vec![port]);
                        wr(&mut c, out, &id.to_le_bytes())?;
                        wr(&mut c, peer, &d.to_le_bytes())?;
                        return Ok(0);
                    }
                    w.wait(vec![Key::Accept(li)], None).await;
                }
            })
        },
    )?;
    l.func_wrap7_async(
        "lunatic::networking",
        "tcp_connect",
        |mut c: Caller<'_, PState>,
         _ty: u32,
         _addr: u32,
         port: u32,
         _f: u32,
         _s: u32,
         _timeout: u32,
         out: u32|
         -> Fut<'_, u32> {
            Box::new(async move {
                let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
                point(&w, pid, root).await?;
                match w.connect(port as u16, None) {
                    Ok(conn) => {
                        let tok = w.token(conn, 0);
                        w.m().procs[pid].took.push(conn);
                        let id = c.data_mut().streams.add(tok);
                        wr(&mut c, out, &id.to_le_bytes())?;
                        Ok(0)
                    }
                    Err(e) => err_out(&mut c, e, out),
                }
            })
        },
    )?;
    l.func_wrap("lunatic::networking", "drop_tcp_stream", |mut c: Caller<'_, PState>, id: u64| {
        let s = c.data_mut().streams.remove(id).ok_or_else(|| bad("stream"))?;
        drop(s);
        c.data().w.clone().flush_closes();
        Ok::<(), Trap>(())
    })?;
    l.func_wrap("lunatic::networking", "clone_tcp_stream", |mut c: Caller<'_, PState>, id: u64| {
        let s = c.data().streams.get(id).cloned().ok_or_else(|| bad("stream"))?;
        Ok::<u64, Trap>(c.data_mut().streams.add(s))
    })?;
    l.func_wrap5_async(
        "lunatic::networking",
        "tcp_write_vectored",
        |mut c: Caller<'_, PState>, sid: u64, vecs: u32, n: u32, timeout: u32, out: u32| -> Fut<'_, u32> {
            Box::new(async move {
                let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
                let s = c.data().streams.get(sid).cloned().ok_or_else(|| bad("stream"))?;
                let table = rd(&mut c, vecs, n * 8)?;
                let mut data = vec![];
                for v in table.chunks_exact(8) {
                    let p = u32::from_le_bytes(v[0..4].try_into().unwrap());
                    let l = u32::from_le_bytes(v[4..8].try_into().unwrap());
                    data.extend(rd(&mut c, p, l)?);
                }
                point(&w, pid, root).await?;
                let deadline = if timeout == 0 { None } else { Some(w.now() + timeout as u64 * MS) };
                loop {
                    let r = w.write(s.conn, s.side, &data);
                    match r {
                        Wr::Ok(k) => {
                            wr(&mut c, out, &(k as u64).to_le_bytes())?;
                            return Ok(0);
                        }
                        Wr::Err(e) => return err_out(&mut c, e, out),
                        Wr::Block => {
                            if deadline.map(|d| w.now() >= d).unwrap_or(false) {
                                return Ok(9027);
                            }
                            w.wait(vec![Key::Writable(s.conn, s.side)], deadline).await;
                        }
                    }
                }
            })
        },
    )?;
    l.func_wrap5_async(
        "lunatic::networking",
        "tcp_read",
        |mut c: Caller<'_, PState>, sid: u64, ptr: u32, len: u32, timeout: u32, out: u32| -> Fut<'_, u32> {
            Box::new(async move {
                let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
                let s = c.data().streams.get(sid).cloned().ok_or_else(|| bad("stream"))?;
                point(&w, pid, root).await?;
                let deadline = if timeout == 0 { None } else { Some(w.now() + timeout as u64 * MS) };
                loop {
                    let r = w.read(s.conn, s.side, len as usize);
                    match r {
                        Rd::Data(d) => {
                            wr(&mut c, ptr, &d)?;
                            wr(&mut c, out, &(d.len() as u64).to_le_bytes())?;
                            return Ok(0);
                        }
                        Rd::Eof => {
                            w.trace(|| format!("p{} reads end of conn={}", pid, s.conn));
                            wr(&mut c, out, &0u64.to_le_bytes())?;
                            return Ok(0);
                        }
                        Rd::Err(e) => {
                            w.trace(|| format!("p{} read error conn={}", pid, s.conn));
                            return err_out(&mut c, e, out);
                        }
                        Rd::Block => {
                            if deadline.map(|d| w.now() >= d).unwrap_or(false) {
                                return Ok(9027);
                            }
                            w.wait(vec![Key::Readable(s.conn, s.side)], deadline).await;
                        }
                    }
                }
            })
        },
    )?;
    l.func_wrap("lunatic::networking", "tcp_flush", |mut c: Caller<'_, PState>, sid: u64, out: u32| {
        c.data().streams.get(sid).ok_or_else(|| bad("stream"))?;
        wr(&mut c, out, &0u64.to_le_bytes())?;
        Ok::<u32, Trap>(0)
    })?;

    // ---- processes ----------------------------------------------------------------------------
    l.func_wrap8_async(
        "lunatic::process",
        "spawn",
        |mut c: Caller<'_, PState>,
         link: i64,
         _config: i64,
         _module: i64,
         fptr: u32,
         flen: u32,
         pptr: u32,
         plen: u32,
         out: u32|
         -> Fut<'_, u32> {
            Box::new(async move {
                let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
                point(&w, pid, root).await?;
                let func = String::from_utf8(rd(&mut c, fptr, flen)?).map_err(|_| Trap::new("spawn: name"))?;
                let params: Vec<Val> = rd(&mut c, pptr, plen)?
                    .chunks_exact(17)
                    .map(|ch| {
                        let v = u128::from_le_bytes(ch[1..].try_into().unwrap());
                        match ch[0] {
                            0x7F => Ok(Val::I32(v as i32)),
                            0x7E => Ok(Val::I64(v as i64)),
                            0x7B => Ok(Val::V128(v)),
                            _ => Err(Trap::new("Unsupported type ID")),
                        }
                    })
                    .collect::<std::result::Result<_, _>>()?;
                let guest = c.data().guest.clone().unwrap();
                let child = spawn(&w, &guest, Some(pid), func, params);
                if link != 0 {
                    w.link(pid, child, link, link);
                }
                let id = c.data_mut().procs.add(child);
                wr(&mut c, out, &id.to_le_bytes())?;
                Ok(0)
            })
        },
    )?;
    l.func_wrap("lunatic::process", "drop_process", |mut c: Caller<'_, PState>, id: u64| {
        c.data_mut().procs.remove(id).map(|_| ()).ok_or_else(|| bad("process"))
    })?;
    l.func_wrap("lunatic::process", "clone_process", |mut c: Caller<'_, PState>, id: u64| {
        let p = *c.data().procs.get(id).ok_or_else(|| bad("process"))?;
        Ok::<u64, Trap>(c.data_mut().procs.add(p))
    })?;
    l.func_wrap1_async("lunatic::process", "sleep_ms", |c: Caller<'_, PState>, ms: u64| -> Fut<'_, ()> {
        Box::new(async move {
            let (w, pid, root) = (c.data().w.clone(), c.data().pid, c.data().root);
            point(&w, pid, root).await?;
            w.sleep(ms * MS).await;
            Ok(())
        })
    })?;
    l.func_wrap("lunatic::process", "die_when_link_dies", |c: Caller<'_, PState>, v: u32| {
        let pid = c.data().pid;
        c.data().w.m().procs[pid].die_when_link_dies = v != 0;
    })?;
    l.func_wrap("lunatic::process", "this", |mut c: Caller<'_, PState>| {
        let pid = c.data().pid;
        c.data_mut().procs.add(pid)
    })?;
    l.func_wrap("lunatic::process", "id", |mut c: Caller<'_, PState>, id: u64, out: u32| {
        let p = *c.data().procs.get(id).ok_or_else(|| bad("process"))?;
        let u = (p as u128 + 1) << 64 | (p as u128 + 1);
        wr(&mut c, out, &u.to_le_bytes())
    })?;
    l.func_wrap("lunatic::process", "link", |c: Caller<'_, PState>, tag: i64, id: u64| {
        let p = *c.data().procs.get(id).ok_or_else(|| bad("process"))?;
        c.data().w.link(c.data().pid, p, tag, tag);
        Ok::<(), Trap>(())
    })?;
    l.func_wrap("lunatic::process", "unlink", |c: Caller<'_, PState>, id: u64| {
        let p = *c.data().procs.get(id).ok_or_else(|| bad("process"))?;
        c.data().w.unlink(c.data().pid, p);
        Ok::<(), Trap>(())
    })?;
    l.func_wrap("lunatic::process", "create_config", |mut c: Caller<'_, PState>| {
        c.data_mut().configs.add(()) as i64
    })?;
    l.func_wrap("lunatic::process", "drop_config", |mut c: Caller<'_, PState>, id: u64| {
        c.data_mut().configs.remove(id);
    })?;

    // ---- registry -----------------------------------------------------------------------------
    l.func_wrap("lunatic::registry", "put", |mut c: Caller<'_, PState>, ptr: u32, len: u32, id: u64| {
        let name = String::from_utf8_lossy(&rd(&mut c, ptr, len)?).to_string();
        let p = *c.data().procs.get(id).ok_or_else(|| bad("process"))?;
        c.data().w.m().registry.insert(name, p);
        Ok::<(), Trap>(())
    })?;
    l.func_wrap("lunatic::registry", "get", |mut c: Caller<'_, PState>, ptr: u32, len: u32, out: u32| {
        let name = String::from_utf8_lossy(&rd(&mut c, ptr, len)?).to_string();
        let p = c.data().w.i().registry.get(&name).copied();
        match p {
            Some(p) => {
                let id = c.data_mut().procs.add(p);
                wr(&mut c, out, &id.to_le_bytes())?;
                Ok::<u32, Trap>(0)
            }
            None => Ok(1),
        }
    })?;
    l.func_wrap("lunatic::registry", "remove", |mut c: Caller<'_, PState>, ptr: u32, len: u32| {
        let name = String::from_utf8_lossy(&rd(&mut c, ptr, len)?).to_string();
        c.data().w.m().registry.remove(&name);
        Ok::<(), Trap>(())
    })?;

    // ---- WASI ---------------------------------------------------------------------------------
    let wasi = "wasi_snapshot_preview1";
    l.func_wrap(wasi, "clock_time_get", |mut c: Caller<'_, PState>, id: u32, _p: u64, out: u32| {
        let t = {
            let m = c.data().w.i();
            if id == 0 {
                m.now + m.wall_base
            } else {
                m.now
            }
        };
        wr(&mut c, out, &t.to_le_bytes())?;
        Ok::<u32, Trap>(0)
    })?;
    l.func_wrap(wasi, "random_get", |mut c: Caller<'_, PState>, ptr: u32, len: u32| {
        let d: Vec<u8> = (0..len).map(|_| c.data_mut().rng.next() as u8).collect();
        wr(&mut c, ptr, &d)?;
        Ok::<u32, Trap>(0)
    })?;
    l.func_wrap(wasi, "sched_yield", |_: Caller<'_, PState>| 0u32)?;
    for n in ["environ_get", "args_get"] {
        l.func_wrap(wasi, n, |_: Caller<'_, PState>, _a: u32, _b: u32| 0u32)?;
    }
    for n in ["environ_sizes_get", "args_sizes_get"] {
        l.func_wrap(wasi, n, |mut c: Caller<'_, PState>, a: u32, b: u32| {
            wr(&mut c, a, &0u32.to_le_bytes())?;
            wr(&mut c, b, &0u32.to_le_bytes())?;
            Ok::<u32, Trap>(0)
        })?;
    }
    l.func_wrap(wasi, "proc_exit", |_: Caller<'_, PState>, code: u32| -> std::result::Result<(), Trap> {
        Err(Trap::i32_exit(code as i32))
    })?;
    l.func_wrap(wasi, "fd_write", |mut c: Caller<'_, PState>, _fd: u32, iov: u32, n: u32, out: u32| {
        let table = rd(&mut c, iov, n * 8)?;
        let mut total = 0u32;
        let mut data = vec![];
        for v in table.chunks_exact(8) {
            let p = u32::from_le_bytes(v[0..4].try_into().unwrap());
            let l = u32::from_le_bytes(v[4..8].try_into().unwrap());
            data.extend(rd(&mut c, p, l)?);
            total += l;
        }
        wr(&mut c, out, &total.to_le_bytes())?;
        let pid = c.data().pid;
        let mut m = c.data().w.m();
        if m.procs[pid].stderr.len() < 4096 {
            m.procs[pid].stderr.extend(data);
        }
        Ok::<u32, Trap>(0)
    })?;
    Ok(())
}

async fn pop(w: &World, pid: Pid, tags: &[i64], skip: usize, deadline: Option<u64>) -> Option<Msg> {
    loop {
        let found = {
            let mut m = w.m();
            let mb = &mut m.procs[pid].mailbox;
            let idx = (skip.min(mb.len())..mb.len()).find(|i| tags.is_empty() || tags.contains(&mb[*i].tag()));
            idx.map(|i| mb.remove(i).unwrap())
        };
        if found.is_some() {
            return found;
        }
        if deadline.map(|d| w.now() >= d).unwrap_or(false) {
            return None;
        }
        w.wait(vec![Key::Mailbox(pid)], deadline).await;
    }
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(160) {
        match c {
            b'\n' => s.push_str("\\n"),
            b'\r' => s.push_str("\\r"),
            32..=126 => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    if b.len() > 160 {
        s.push_str(&format!("…({} bytes)", b.len()));
    }
    s
}
