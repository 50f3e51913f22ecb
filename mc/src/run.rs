//! The exploration engine: enumerates every case of every stage of a property on all
//! cores, watches for hangs, crashes and memory blow-ups, and writes the evidence.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// Counters one worker accumulates while exploring.
#[derive(Default, Clone)]
pub struct Cx {
    /// distinct model states / configurations visited
    pub states: u64,
    /// implementation steps taken (calls of the code under test that were compared)
    pub transitions: u64,
    /// complete model traces replayed against the implementation
    pub traces: u64,
    pub extra: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    want_sample: bool,
}

impl Cx {
    pub fn bump(&mut self, key: &'static str, by: u64) {
        *self.extra.entry(key).or_default() += by;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 4 {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 400 {
                let mut cut = 400;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Cx) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.extra {
            *self.extra.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

pub struct Stage {
    pub name: &'static str,
    pub bounds: String,
    pub n: u64,
    /// sizes far beyond ordinary use: slowness there is not a wrong result, so a case that takes
    /// very long ends its stage (recorded as incomplete) instead of being reported
    pub soft: bool,
    pub run: Box<dyn Fn(u64, &mut Cx) -> Res + Send + Sync>,
}

pub fn stage(
    name: &'static str,
    bounds: impl Into<String>,
    n: u64,
    run: impl Fn(u64, &mut Cx) -> Res + Send + Sync + 'static,
) -> Stage {
    Stage { name, bounds: bounds.into(), n, soft: false, run: Box::new(run) }
}

impl Stage {
    pub fn soft(mut self) -> Stage {
        self.soft = true;
        self
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        PANIC_MSG.with(|p| *p.borrow_mut() = msg);
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

pub fn run_case(st: &Stage, idx: u64, cx: &mut Cx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (st.run)(idx, cx))) {
        Ok(r) => r.map_err(|m| if m.chars().count() > 6000 { m.chars().take(6000).collect::<String>() + "…" } else { m }),
        Err(_) => {
            rand::mc_oracle::set(None);
            Err(format!("panic: {}", last_panic()))
        }
    }
}

struct Slot {
    stage: AtomicU64,
    idx: AtomicU64,
    /// milliseconds since start at which the case began, 0 = idle
    since: AtomicU64,
}

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
}

pub struct Report<'a> {
    pub prop: &'a str,
    pub tier: Tier,
    pub verif: &'a str,
    pub assumptions: Vec<String>,
    pub known: Vec<String>,
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn write_replay(rep: &Report, stage: &str, idx: u64, msg: &str) -> String {
    let dir = format!("{}/evidence/replay", rep.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}.json", rep.prop, rep.tier.name());
    let v = serde_json::json!({
        "property": rep.prop, "tier": rep.tier.name(), "stage": stage, "index": idx, "what": msg,
        "replay_cmd": format!("{}/check replay {path}", rep.verif),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

#[allow(clippy::too_many_arguments)]
pub fn write_evidence(rep: &Report, total: &Cx, per_stage: &[serde_json::Value], exhaustive: bool, wall: f64, violations: u64) {
    let mut samples = total.samples.clone();
    // keep a spread of samples
    if samples.len() > 12 {
        let step = samples.len() / 12 + 1;
        samples = samples.into_iter().step_by(step).collect();
    }
    let mut cov = serde_json::json!({
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "exhaustive": exhaustive,
        "stages": per_stage,
        "samples": samples,
    });
    for (k, v) in &total.extra {
        cov[*k] = serde_json::json!(v);
    }
    let ev = serde_json::json!({
        "property": rep.prop, "tier": rep.tier.name(), "seed": seed(), "level": "model_checking",
        "coverage": cov, "assumptions": rep.assumptions, "wall_s": wall, "violations": violations,
        "known_findings": rep.known,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", rep.verif));
    let path = format!("{}/evidence/{}.json", rep.verif, rep.prop);
    std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
}

/// Run every stage to the end (or the first violation). Returns the process exit code.
pub fn explore(rep: &Report, stages: Vec<Stage>) -> i32 {
    let start = Instant::now();
    // what earlier processes of this exploration covered, if a stage of extreme sizes was stopped
    let mut total = Cx::default();
    let mut per_stage: Vec<serde_json::Value> = vec![];
    let (mut first, mut before) = (0, 0.0);
    if let Ok(path) = std::env::var("MC_RESUME") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&path).expect("what was covered")).expect("what was covered");
        let _ = std::fs::remove_file(&path);
        first = v["next"].as_u64().unwrap() as usize;
        before = v["wall"].as_f64().unwrap();
        total.states = v["states"].as_u64().unwrap();
        total.transitions = v["transitions"].as_u64().unwrap();
        total.traces = v["traces"].as_u64().unwrap();
        for (k, n) in v["extra"].as_object().unwrap() {
            total.extra.insert(Box::leak(k.clone().into_boxed_str()), n.as_u64().unwrap());
        }
        total.samples = v["samples"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
        per_stage = v["per_stage"].as_array().unwrap().clone();
    }
    // extreme sizes are given up when the whole takes much longer than it does here
    let patience = rep.tier.pick(420.0, 20_000.0);
    let case_limit = Duration::from_secs(rep.tier.pick(40, 120));
    let rss_limit: u64 = rep.tier.pick(14, 20) << 30;
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..threads)
            .map(|_| Slot { stage: AtomicU64::new(0), idx: AtomicU64::new(0), since: AtomicU64::new(0) })
            .collect(),
    );
    let slot_path = format!("{}/evidence/slots-{}", rep.verif, rep.prop);
    let _ = std::fs::create_dir_all(format!("{}/evidence", rep.verif));
    let slot_file = Arc::new(std::fs::File::create(&slot_path).expect("slot file"));
    let names: Arc<Vec<(&'static str, bool)>> = Arc::new(stages.iter().map(|s| (s.name, s.soft)).collect());
    // what the finished stages covered, for the watchdog
    let so_far: Arc<Mutex<(Cx, Vec<serde_json::Value>)>> = Arc::new(Mutex::new((total.clone(), per_stage.clone())));
    let found: Arc<Mutex<Option<(usize, u64, String)>>> = Arc::default();
    let done = Arc::new(AtomicBool::new(false));

    // watchdog
    {
        let slots = Arc::clone(&slots);
        let names = Arc::clone(&names);
        let done = Arc::clone(&done);
        let prop = rep.prop.to_string();
        let verif = rep.verif.to_string();
        let tier = rep.tier;
        let so_far = Arc::clone(&so_far);
        let found = Arc::clone(&found);
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(100));
                if done.load(Ordering::SeqCst) {
                    return;
                }
                let now = start.elapsed().as_millis() as u64;
                let oldest = slots
                    .iter()
                    .filter(|s| s.since.load(Ordering::SeqCst) != 0)
                    .min_by_key(|s| s.since.load(Ordering::SeqCst));
                let Some(s) = oldest else { continue };
                let age = now.saturating_sub(s.since.load(Ordering::SeqCst));
                let soft = names[s.stage.load(Ordering::SeqCst) as usize].1;
                let limit = if soft { case_limit / 2 } else { case_limit };
                let too_long = age > limit.as_millis() as u64;
                let too_big = rss_bytes() > rss_limit;
                if too_long || too_big {
                    if let Some((si, idx, msg)) = found.lock().unwrap().clone() {
                        let rep = Report { prop: &prop, tier, verif: &verif, assumptions: vec![], known: vec![] };
                        std::process::exit(report(&rep, names[si].0, idx, &msg, so_far.lock().unwrap().clone(), start.elapsed().as_secs_f64() + before));
                    }
                    let at = s.stage.load(Ordering::SeqCst) as usize;
                    let (name, soft) = names[at];
                    let idx = s.idx.load(Ordering::SeqCst);
                    if soft {
                        println!("{prop} {name}: stopped at case {idx}, which takes very long");
                        let (cx, mut per_stage) = so_far.lock().unwrap().clone();
                        per_stage.push(serde_json::json!({"stage": name, "stopped_at_case": idx}));
                        let part = serde_json::json!({
                            "next": at + 1, "states": cx.states, "transitions": cx.transitions, "traces": cx.traces, "extra": cx.extra,
                            "samples": cx.samples, "per_stage": per_stage, "wall": start.elapsed().as_secs_f64() + before,
                        });
                        let path = format!("{verif}/evidence/part-{prop}");
                        std::fs::write(&path, part.to_string()).expect("write what was covered");
                        use std::os::unix::process::CommandExt;
                        let e = std::process::Command::new(std::env::current_exe().expect("own path")).args(std::env::args_os().skip(1)).env("MC_RESUME", &path).exec();
                        println!("cannot go on: {e}");
                        std::process::exit(2);
                    }
                    let msg = if too_long {
                        format!("no result after {} s (the explored cases take milliseconds)", age / 1000)
                    } else {
                        format!("memory grew beyond {} GB", rss_limit >> 30)
                    };
                    let rep = Report { prop: &prop, tier, verif: &verif, assumptions: vec![], known: vec![] };
                    std::process::exit(report(&rep, name, idx, &msg, so_far.lock().unwrap().clone(), start.elapsed().as_secs_f64() + before));
                }
            }
        });
    }

    let budget: Option<f64> = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok());
    let mut complete = first == 0;
    for (si, st) in stages.iter().enumerate().skip(first) {
        if st.soft && start.elapsed().as_secs_f64() + before > patience {
            println!("{} {}: left out, the exploration takes very long", rep.prop, st.name);
            complete = false;
            continue;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let merged: Mutex<Cx> = Mutex::new(Cx::default());
        let chunk = (st.n / (threads as u64 * 64)).clamp(1, 512);
        let ran = AtomicU64::new(0);
        let slowest = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for w in 0..threads {
                let (next, stop, merged, ran, slowest) = (&next, &stop, &merged, &ran, &slowest);
                let found = Arc::clone(&found);
                let slots = Arc::clone(&slots);
                let slot_file = Arc::clone(&slot_file);
                std::thread::Builder::new()
                    .stack_size(128 << 20)
                    .spawn_scoped(sc, move || {
                        let mut cx = Cx { want_sample: w == 0, ..Cx::default() };
                        let slot = &slots[w];
                        slot.stage.store(si as u64, Ordering::SeqCst);
                        let mut mine = 0u64;
                        'outer: loop {
                            let lo = next.fetch_add(chunk, Ordering::SeqCst);
                            if lo >= st.n {
                                break;
                            }
                            for idx in lo..(lo + chunk).min(st.n) {
                                if stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                slot.idx.store(idx, Ordering::SeqCst);
                                slot.since.store((start.elapsed().as_millis() as u64).max(1), Ordering::SeqCst);
                                let mut rec = [0u8; 16];
                                rec[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                rec[8..].copy_from_slice(&idx.to_le_bytes());
                                let _ = slot_file.write_at(&rec, w as u64 * 16);
                                if w == 0 && (mine == 3 || mine % 4001 == 4000) {
                                    cx.want_sample = true;
                                }
                                let began = Instant::now();
                                let r = run_case(st, idx, &mut cx);
                                slowest.fetch_max(began.elapsed().as_millis() as u64, Ordering::Relaxed);
                                mine += 1;
                                if let Err(msg) = r {
                                    let mut f = found.lock().unwrap();
                                    if f.as_ref().is_none_or(|(_, i, _)| idx < *i) {
                                        *f = Some((si, idx, msg));
                                    }
                                    stop.store(true, Ordering::SeqCst);
                                    break 'outer;
                                }
                            }
                            if st.soft && t0.elapsed() > case_limit {
                                break;
                            }
                            if budget.is_some_and(|b| start.elapsed().as_secs_f64() > b) {
                                break;
                            }
                        }
                        slot.since.store(0, Ordering::SeqCst);
                        let _ = slot_file.write_at(&[0u8; 16], w as u64 * 16);
                        ran.fetch_add(mine, Ordering::SeqCst);
                        merged.lock().unwrap().merge(cx);
                    })
                    .expect("spawn worker");
            }
        });
        let cx = merged.into_inner().unwrap();
        let ran = ran.load(Ordering::SeqCst);
        if ran < st.n {
            complete = false;
        }
        let row = serde_json::json!({
            "stage": st.name, "bounds": st.bounds, "cases": ran, "of": st.n,
            "states": cx.states, "transitions": cx.transitions, "wall_s": t0.elapsed().as_secs_f64(),
        });
        per_stage.push(row);
        let mut line = String::new();
        let _ = write!(
            line,
            "{} {:<24} cases {}/{} states {} transitions {} {:.2}s (slowest case {:.2}s{})",
            rep.prop, st.name, ran, st.n, cx.states, cx.transitions, t0.elapsed().as_secs_f64(),
            slowest.load(Ordering::Relaxed) as f64 / 1000.0, if st.soft { ", far beyond ordinary sizes" } else { "" }
        );
        println!("{line}");
        total.merge(cx);
        *so_far.lock().unwrap() = (total.clone(), per_stage.clone());
        if found.lock().unwrap().is_some() {
            break;
        }
    }
    done.store(true, Ordering::SeqCst);
    let _ = std::fs::remove_file(&slot_path);
    let wall = start.elapsed().as_secs_f64() + before;
    for k in &rep.known {
        println!("KNOWN-FINDING: property={} {k}", rep.prop);
    }
    let found = found.lock().unwrap().clone();
    match found {
        Some((si, idx, msg)) => report(rep, stages[si].name, idx, &msg, (total, per_stage), wall),
        None => {
            write_evidence(rep, &total, &per_stage, complete, wall, 0);
            println!("{}: held on everything explored ({:.1}s)", rep.prop, wall);
            0
        }
    }
}

/// Report a violation; the exit code.
fn report(rep: &Report, name: &str, idx: u64, msg: &str, (mut total, per_stage): (Cx, Vec<serde_json::Value>), wall: f64) -> i32 {
    println!("stage {name} case {idx}: {msg}");
    let path = write_replay(rep, name, idx, msg);
    total.samples.insert(0, format!("VIOLATING {name} {idx}: {msg}"));
    write_evidence(rep, &total, &per_stage, false, wall, 1);
    println!("VIOLATION property={} replay={path}", rep.prop);
    1
}

/// Mixed-radix helper.
pub fn digit(idx: &mut u64, radix: u64) -> u64 {
    let d = *idx % radix;
    *idx /= radix;
    d
}

pub fn ipow(b: u64, e: u32) -> u64 {
    b.pow(e)
}

/// All sequences over `radix` symbols with length in `lo..=hi`, indexable.
#[derive(Clone, Copy)]
pub struct Seqs {
    pub radix: u64,
    pub lo: u32,
    pub hi: u32,
}
impl Seqs {
    pub fn count(&self) -> u64 {
        (self.lo..=self.hi).map(|l| ipow(self.radix, l)).sum()
    }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        let mut l = self.lo;
        while i >= ipow(self.radix, l) {
            i -= ipow(self.radix, l);
            l += 1;
        }
        (0..l).map(|_| digit(&mut i, self.radix) as usize).collect()
    }
}

/// Every size up to `dense`, then the sizes around round and power-of-two limits up to `max`.
pub fn sizes(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=dense).collect();
    for c in [64, 100, 128, 200, 250, 256, 300, 400, 500, 512, 600, 700, 800, 900, 1000, 1024, 1500, 2000, 2048, 3000, 4096, 5000, 8192, 10000, 16384, 32768, 65536] {
        v.extend([c - 1, c, c + 1]);
    }
    v.retain(|n| *n <= max);
    v.sort_unstable();
    v.dedup();
    v
}

/// Sizes far beyond those of `sizes`.
pub fn huge(tier: Tier) -> Vec<usize> {
    let mut v = vec![
        1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 8193, 10_000, 16_384, 16_385, 32_767, 32_768, 32_769, 50_000, 65_534, 65_535, 65_536, 65_537, 70_000,
        100_000, 131_071, 131_072, 131_073,
    ];
    if tier == Tier::Thorough {
        v.extend([1500, 2000, 2047, 3000, 6000, 7000, 8191, 9999, 10_001, 12_000, 16_383, 20_000, 30_000, 40_000, 65_533, 65_538, 80_000, 99_999, 100_001, 200_000, 262_143, 262_144, 262_145, 300_000]);
    }
    v.sort_unstable();
    v
}
