//! Exploring, minimising, replaying, reporting.

use crate::choice::*;
use crate::host::{engine, Guest};
use crate::util::*;
use crate::world::*;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

/// what a scenario says about one run
#[derive(Default, Clone, Debug)]
pub struct Report {
    pub viol: Vec<Violation>,
    /// (known-finding key, detail): failures of a kind that may be listed as known
    pub known: Vec<(String, String)>,
    pub nontrivial: bool,
    pub case: String,
}
impl Report {
    pub fn fail(&mut self, class: &str, detail: impl Into<String>) {
        self.viol.push(Violation {
            class: class.to_string(),
            detail: detail.into(),
        });
    }
}

pub struct Ctx {
    pub guests: BTreeMap<&'static str, Arc<Guest>>,
}
impl Ctx {
    pub fn guest(&self, n: &str) -> &Arc<Guest> {
        self.guests.get(n).expect("guest not loaded")
    }
    pub fn load(names: &[&'static str], root: &Path) -> anyhow::Result<Ctx> {
        let e = engine()?;
        let mut guests = BTreeMap::new();
        for n in names {
            let p = root.join(format!("target/wasm/{}.wasm", n));
            let wasm = std::fs::read(&p).map_err(|e| anyhow::anyhow!("{}: {}", p.display(), e))?;
            guests.insert(*n, Arc::new(Guest::load(&e, &wasm)?));
        }
        Ok(Ctx { guests })
    }
}

pub type ScenarioFn = fn(&World, &Ctx) -> Report;

pub struct Prop {
    pub id: &'static str,
    pub guests: &'static [&'static str],
    pub run: ScenarioFn,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    /// runs in the quick tier (an upper bound; time may end it earlier)
    pub quick_runs: u64,
}

pub struct RunOut {
    pub rep: Report,
    pub tape: Tape,
    pub sig: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub now: u64,
    pub steps: u64,
    pub trace: Vec<String>,
    pub conns: usize,
    pub procs: usize,
    pub digest: u64,
}

pub fn one(p: &Prop, ctx: &Ctx, ch: Choices, trace: bool) -> RunOut {
    let w = World::new(ch, trace);
    let rep = (p.run)(&w, ctx);
    let out = {
        let mut m = w.m();
        let mut d = m.sig;
        for o in &m.obs {
            d = mix(d ^ o.step ^ hash_bytes(&o.data));
        }
        for c in &m.conns {
            d = mix(d ^ c.pipes[0].written ^ mix(c.pipes[1].written) ^ c.closed_at[1]);
        }
        d = mix(d ^ m.now ^ m.step);
        RunOut {
            rep,
            tape: m.ch.tape(),
            sig: m.sig,
            faults: std::mem::take(&mut m.faults),
            probes: std::mem::take(&mut m.probes),
            now: m.now,
            steps: m.step,
            trace: std::mem::take(&mut m.trace),
            conns: m.conns.len(),
            procs: m.procs.len(),
            digest: d,
        }
    };
    bury();
    w.m().clear();
    out
}

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(prop.as_bytes())) ^ i.wrapping_mul(0x9E3779B97F4A7C15))
}

fn tape_json(t: &Tape) -> J {
    J::Arr(
        t.0.iter()
            .map(|v| J::Arr(v.iter().map(|x| J::Int(*x as i64)).collect()))
            .collect(),
    )
}

struct Mini<'a> {
    p: &'a Prop,
    ctx: &'a Ctx,
    class: String,
    best: Tape,
    tries: u64,
    until: Instant,
}
impl Mini<'_> {
    fn trim(mut t: Tape) -> Tape {
        for s in t.0.iter_mut() {
            while s.last() == Some(&0) {
                s.pop();
            }
        }
        t
    }
    fn attempt(&mut self, t: Tape) -> bool {
        let t = Self::trim(t);
        if t == self.best || Instant::now() > self.until {
            return false;
        }
        self.tries += 1;
        let o = one(self.p, self.ctx, Choices::replay(&t), false);
        if o.rep.viol.iter().any(|v| v.class == self.class) || o.rep.known.iter().any(|k| k.0 == self.class) {
            // keep what was actually consumed
            let mut used = o.tape;
            for i in 0..NSTREAMS {
                let n = used.0[i].len().min(t.0[i].len());
                used.0[i].truncate(n);
            }
            self.best = Self::trim(used);
            true
        } else {
            false
        }
    }
    fn weight(t: &Tape) -> u64 {
        t.0.iter().map(|s| s.len() as u64 + s.iter().map(|v| 32 - v.leading_zeros() as u64).sum::<u64>()).sum()
    }
    fn go(&mut self) {
        loop {
            let before = Self::weight(&self.best);
            for s in [1usize, 2, 3, 0] {
                // cut the tail
                let mut keep = 0usize;
                loop {
                    let n = self.best.0[s].len();
                    if keep >= n {
                        break;
                    }
                    let mut t = self.best.clone();
                    t.0[s].truncate(keep);
                    if self.attempt(t) {
                        break;
                    }
                    keep = if keep == 0 { (n / 8).max(1) } else { keep + (n / 8).max(1) };
                }
                // zero blocks, delete blocks (delete only where positions may shift: workload)
                let mut size = self.best.0[s].len().next_power_of_two().max(1);
                while size >= 1 {
                    let mut at = 0;
                    while at < self.best.0[s].len() {
                        let end = (at + size).min(self.best.0[s].len());
                        let mut t = self.best.clone();
                        if t.0[s][at..end].iter().any(|v| *v != 0) {
                            for v in &mut t.0[s][at..end] {
                                *v = 0;
                            }
                            self.attempt(t);
                        }
                        if end <= self.best.0[s].len() && size <= 32 {
                            let mut t = self.best.clone();
                            t.0[s].drain(at..end);
                            if self.attempt(t) {
                                continue;
                            }
                        }
                        at += size;
                        if Instant::now() > self.until {
                            return;
                        }
                    }
                    size /= 2;
                }
                // smaller values
                for i in 0..self.best.0[s].len() {
                    if i >= self.best.0[s].len() {
                        break;
                    }
                    let v = self.best.0[s][i];
                    if v == 0 {
                        continue;
                    }
                    let (mut lo, mut hi) = (0u32, v);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut t = self.best.clone();
                        if i >= t.0[s].len() {
                            break;
                        }
                        t.0[s][i] = mid;
                        if self.attempt(t) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        if Instant::now() > self.until {
                            return;
                        }
                    }
                    if i < self.best.0[s].len() && self.best.0[s][i] == hi && hi > 1 {
                        let mut t = self.best.clone();
                        t.0[s][i] = hi - 1;
                        self.attempt(t);
                    }
                }
            }
            if Self::weight(&self.best) >= before || Instant::now() > self.until {
                return;
            }
        }
    }
}

fn replay_json(p: &Prop, seed: u64, index: u64, rseed: u64, o: &RunOut, v: &Violation, orig: &Tape, tries: u64) -> J {
    J::Obj(vec![
        ("property".into(), J::s(p.id)),
        ("verif_seed".into(), J::Int(seed as i64)),
        ("run_index".into(), J::Int(index as i64)),
        ("run_seed".into(), J::s(format!("{:016x}", rseed))),
        ("violation".into(), J::s(v.class.clone())),
        ("detail".into(), J::s(v.detail.clone())),
        ("case".into(), J::s(o.rep.case.clone())),
        ("digest".into(), J::s(format!("{:016x}", o.digest))),
        (
            "minimised_from".into(),
            J::Arr(orig.0.iter().map(|v| J::Int(v.len() as i64)).collect()),
        ),
        ("minimise_runs".into(), J::Int(tries as i64)),
        (
            "faults".into(),
            J::Obj(o.faults.iter().map(|(k, v)| (k.to_string(), J::Int(*v as i64))).collect()),
        ),
        ("streams".into(), J::s("workload, schedule, faults, randomness")),
        ("tape".into(), tape_json(&o.tape)),
        (
            "trace".into(),
            J::Arr(o.trace.iter().map(|l| J::s(l.clone())).collect()),
        ),
    ])
}

pub fn replay(props: &[Prop], file: &str, root: &Path) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let j = match J::parse(&text) {
        Some(j) => j,
        None => {
            eprintln!("not a replay file");
            return 2;
        }
    };
    let id = j.get("property").map(|x| x.str().to_string()).unwrap_or_default();
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => return 2,
    };
    let ctx = match Ctx::load(p.guests, root) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let mut t = Tape::default();
    for (i, s) in j.get("tape").map(|x| x.arr().to_vec()).unwrap_or_default().iter().enumerate().take(NSTREAMS) {
        t.0[i] = s.arr().iter().map(|x| x.int() as u32).collect();
    }
    let o = one(p, &ctx, Choices::replay(&t), true);
    for l in &o.trace {
        println!("{}", l);
    }
    println!("case: {}", o.rep.case);
    let same_trace = j.get("trace").map(|x| x.arr().iter().map(|l| l.str().to_string()).collect::<Vec<_>>()) == Some(o.trace.clone());
    let want = j.get("violation").map(|x| x.str().to_string()).unwrap_or_default();
    let digest = format!("{:016x}", o.digest);
    println!(
        "digest {} ({})",
        digest,
        if same_trace && j.get("digest").map(|d| d.str().to_string()) == Some(digest.clone()) {
            "identical execution"
        } else {
            "execution differs from the recorded one"
        }
    );
    match o.rep.viol.iter().find(|v| v.class == want).or(o.rep.viol.first()) {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        None => {
            println!("no violation on this tree");
            0
        }
    }
}

#[derive(Default)]
struct Stats {
    runs: u64,
    nontrivial: HashSet<u64>,
    sigs: HashSet<u64>,
    seeds: HashSet<u64>,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    sim_ns: u128,
    steps: u128,
    max_steps: u64,
    conns: u64,
    procs: u64,
    samples: Vec<String>,
    known: BTreeMap<String, (u64, String)>,
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub secs: u64,
    pub threads: usize,
    pub start: u64,
}

/// keys of the entries of known-findings.txt for this property that are not repaired
fn known_list(root: &Path, id: &str) -> Vec<String> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(root.join("known-findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.split_whitespace();
                let p = it.next().and_then(|x| x.strip_prefix("property=")).unwrap_or("");
                let k = it.next().and_then(|x| x.strip_prefix("key=")).unwrap_or("");
                if p == id && !k.is_empty() {
                    v.push(k.to_string());
                }
            }
        }
    }
    v
}

pub fn explore(p: &Prop, root: &Path, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let ctx = match Ctx::load(p.guests, root) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot load guests: {:#}", e);
            return 2;
        }
    };
    let known = known_list(root, p.id);
    let next = AtomicU64::new(o.start);
    let stop = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let found: Mutex<Option<(u64, u64, Tape, Violation)>> = Mutex::new(None);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let t1 = Instant::now();
    let deadline = t1 + Duration::from_secs(o.secs);
    std::panic::set_hook(Box::new(|i| eprintln!("harness panic: {}", i)));
    std::thread::scope(|sc| {
        for _ in 0..o.threads {
            sc.spawn(|| {
                let mut st = Stats::default();
                loop {
                    if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= o.start + o.runs {
                        break;
                    }
                    let rs = run_seed(o.seed, p.id, i);
                    let began = Instant::now();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        one(p, &ctx, Choices::seeded(rs), false)
                    }));
                    if let (Ok(o), true) = (&r, began.elapsed() > Duration::from_secs(3)) {
                        if std::env::var_os("SIM_SLOW").is_some() {
                            eprintln!("slow run {}: {:?}, {} steps, {} processes, {}", i, began.elapsed(), o.steps, o.procs, o.rep.case.chars().take(1500).collect::<String>());
                        }
                    }
                    let out = match r {
                        Ok(r) => r,
                        Err(_) => {
                            *harness.lock().unwrap() = Some(format!("run {} seed {:016x}", i, rs));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    };
                    st.runs += 1;
                    st.seeds.insert(rs);
                    st.sigs.insert(out.sig);
                    if out.rep.nontrivial {
                        let mut h = out.sig;
                        for v in &out.tape.0[0] {
                            h = mix(h ^ *v as u64);
                        }
                        if st.nontrivial.insert(h) && st.samples.len() < 2 {
                            st.samples.push(format!("run {} seed {:016x}: {}", i, rs, out.rep.case));
                        }
                    }
                    for (k, v) in &out.faults {
                        *st.faults.entry(k.to_string()).or_insert(0) += v;
                        *st.fault_runs.entry(k.to_string()).or_insert(0) += 1;
                    }
                    for (k, v) in &out.probes {
                        *st.probes.entry(k.clone()).or_insert(0) += v;
                    }
                    st.sim_ns += out.now as u128;
                    st.steps += out.steps as u128;
                    st.max_steps = st.max_steps.max(out.steps);
                    st.conns += out.conns as u64;
                    st.procs += out.procs as u64;
                    let mut viol = out.rep.viol.clone();
                    for (k, d) in &out.rep.known {
                        if known.contains(k) {
                            let e = st.known.entry(k.clone()).or_insert((0, d.clone()));
                            e.0 += 1;
                        } else {
                            viol.push(Violation {
                                class: k.clone(),
                                detail: d.clone(),
                            });
                        }
                    }
                    if let Some(v) = viol.into_iter().next() {
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map(|x| i < x.0).unwrap_or(true) {
                            *f = Some((i, rs, out.tape, v));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                let mut g = stats.lock().unwrap();
                g.runs += st.runs;
                g.nontrivial.extend(st.nontrivial);
                g.sigs.extend(st.sigs);
                g.seeds.extend(st.seeds);
                for (a, b) in [
                    (&mut g.faults as *mut BTreeMap<String, u64>, st.faults),
                    (&mut g.fault_runs as *mut _, st.fault_runs),
                    (&mut g.probes as *mut _, st.probes),
                ] {
                    for (k, v) in b {
                        // three distinct fields of the locked struct
                        *unsafe { &mut *a }.entry(k).or_insert(0) += v;
                    }
                }
                g.sim_ns += st.sim_ns;
                g.steps += st.steps;
                g.max_steps = g.max_steps.max(st.max_steps);
                g.conns += st.conns;
                g.procs += st.procs;
                g.samples.extend(st.samples);
                for (k, v) in st.known {
                    let e = g.known.entry(k).or_insert((0, v.1.clone()));
                    e.0 += v.0;
                }
            });
        }
    });
    let explore_s = t1.elapsed().as_secs_f64();
    if let Some(h) = harness.into_inner().unwrap() {
        eprintln!("harness error in {}", h);
        return 2;
    }
    let g = stats.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, rs, tape, v)) = found.into_inner().unwrap() {
        violations = 1;
        let mut m = Mini {
            p,
            ctx: &ctx,
            class: v.class.clone(),
            best: Mini::trim(tape.clone()),
            tries: 0,
            until: Instant::now() + Duration::from_secs(if o.tier == "thorough" { 120 } else { 40 }),
        };
        // a "known" key that is not listed is reported under its own class, unminimised classes
        // included, so let the minimiser see both kinds
        m.go();
        let best = m.best.clone();
        let tries = m.tries;
        let mut fin = one(p, &ctx, Choices::replay(&best), true);
        let mut vv = fin.rep.viol.iter().find(|x| x.class == v.class).cloned();
        if vv.is_none() {
            if let Some((k, d)) = fin.rep.known.iter().find(|x| x.0 == v.class) {
                vv = Some(Violation {
                    class: k.clone(),
                    detail: d.clone(),
                });
            }
        }
        if vv.is_none() {
            // cannot happen if runs are deterministic; never hide it
            eprintln!("warning: minimised run did not reproduce; reporting the original");
            fin = one(p, &ctx, Choices::replay(&tape), true);
            vv = Some(v.clone());
        }
        let vv = vv.unwrap();
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path: PathBuf = dir.join(format!("{}-{:016x}.json", p.id, rs));
        let _ = std::fs::write(&path, replay_json(p, o.seed, i, rs, &fin, &vv, &tape, tries).text());
        println!("run {} (seed {:016x}) violates {}: {}", i, rs, p.id, vv.class);
        println!("  {}", vv.detail);
        println!("  case: {}", fin.rep.case);
        println!(
            "  minimised from {:?} to {:?} choices in {} runs; {} trace lines",
            tape.0.iter().map(|x| x.len()).collect::<Vec<_>>(),
            best.0.iter().map(|x| x.len()).collect::<Vec<_>>(),
            tries,
            fin.trace.len()
        );
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    }
    for (k, (n, d)) in &g.known {
        println!("KNOWN-FINDING: property={} {}: {} ({} runs)", p.id, k, d.chars().take(300).collect::<String>(), n);
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_h = |x: f64| (x / explore_s.max(0.001) * 3600.0) as i64;
    let mut samples: Vec<J> = g.samples.iter().take(6).map(|s| J::s(s.clone())).collect();
    if samples.is_empty() {
        samples.push(J::s("none"));
    }
    let cov = J::Obj(vec![
        ("evaluations".into(), J::Int(g.runs as i64)),
        ("distinct_nontrivial".into(), J::Int(g.nontrivial.len() as i64)),
        ("rule".into(), J::s(p.rule)),
        ("samples".into(), J::Arr(samples)),
        ("runs_per_hour".into(), J::Int(per_h(g.runs as f64))),
        ("distinct_seeds".into(), J::Int(g.seeds.len() as i64)),
        ("seeds_per_hour".into(), J::Int(per_h(g.seeds.len() as f64))),
        ("simulated_seconds".into(), J::Num(g.sim_ns as f64 / 1e9)),
        ("scheduler_steps".into(), J::Int(g.steps as i64)),
        ("max_steps_in_a_run".into(), J::Int(g.max_steps as i64)),
        ("connections".into(), J::Int(g.conns as i64)),
        ("processes".into(), J::Int(g.procs as i64)),
        (
            "distinct_interleavings".into(),
            J::Int(g.sigs.len() as i64),
        ),
        (
            "interleaving_measure".into(),
            J::s("hash of the sequence of tasks (processes and peers) the scheduler ran"),
        ),
        (
            "faults_injected".into(),
            J::Obj(g.faults.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect()),
        ),
        (
            "runs_with_fault".into(),
            J::Obj(g.fault_runs.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect()),
        ),
        ("probes".into(), J::map(&g.probes)),
        (
            "known_findings_seen".into(),
            J::Obj(g.known.iter().map(|(k, v)| (k.clone(), J::Int(v.0 as i64))).collect()),
        ),
        ("real_components".into(), J::s(p.real)),
        ("stub_components".into(), J::s(p.stub)),
        ("worker_threads".into(), J::Int(o.threads as i64)),
        ("explore_wall_s".into(), J::Num(explore_s)),
    ]);
    let ev = J::Obj(vec![
        ("property".into(), J::s(p.id)),
        ("tier".into(), J::s(o.tier.clone())),
        ("seed".into(), J::Int(o.seed as i64)),
        ("level".into(), J::s("exploration")),
        ("coverage".into(), cov),
        (
            "assumptions".into(),
            J::Arr(vec![
                J::s("the simulated host behaves as lunatic 0.9: streams, mailboxes, links, traps"),
                J::s("a clean batch of sampled runs is evidence, not proof"),
            ]),
        ),
        ("wall_s".into(), J::Num(wall)),
        ("violations".into(), J::Int(violations)),
    ]);
    let _ = std::fs::create_dir_all(root.join("evidence"));
    if let Err(e) = std::fs::write(root.join(format!("evidence/{}.json", p.id)), ev.text()) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{} {} {}: {} runs ({} distinct non-trivial, {} interleavings) in {:.1}s, {:.0} simulated s, max {} steps",
        p.id,
        o.tier,
        if code == 0 { "ok" } else { "VIOLATED" },
        g.runs,
        g.nontrivial.len(),
        g.sigs.len(),
        explore_s,
        g.sim_ns as f64 / 1e9,
        g.max_steps
    );
    code
}

/// runs every seed twice, on different threads, and compares everything that was recorded
pub fn determinism(p: &Prop, root: &Path, seed: u64, n: u64, threads: usize) -> i32 {
    let ctx = match Ctx::load(p.guests, root) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{:#}", e);
            return 2;
        }
    };
    let pass = |threads: usize| -> Vec<u64> {
        let res = Mutex::new(vec![0u64; n as usize]);
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let o = one(p, &ctx, Choices::seeded(run_seed(seed, p.id, i)), true);
                    let mut h = o.digest;
                    for l in &o.trace {
                        h = mix(h ^ hash_bytes(l.as_bytes()));
                    }
                    // replaying the recorded choices must give the same execution
                    let r = one(p, &ctx, Choices::replay(&o.tape), true);
                    let mut h2 = r.digest;
                    for l in &r.trace {
                        h2 = mix(h2 ^ hash_bytes(l.as_bytes()));
                    }
                    if h != h2 {
                        h = !0;
                    }
                    res.lock().unwrap()[i as usize] = h;
                });
            }
        });
        res.into_inner().unwrap()
    };
    let a = pass(threads);
    let b = pass(1 + threads / 2);
    let bad = (0..n as usize).filter(|i| a[*i] != b[*i] || a[*i] == !0).count();
    let all = a.iter().fold(0u64, |h, x| mix(h ^ x));
    println!("{} determinism: {} seeds, {} differ, digest {:016x}", p.id, n, bad, all);
    (bad > 0) as i32 * 2
}
