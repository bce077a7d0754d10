//! Seeded search over plans: generate, execute, minimise, write replay and evidence.

use crate::ctx::{Ctx, Res, Viol};
use crate::rng::{mix, Rng};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Typed<P> {
    pub id: &'static str,
    /// directed + random runs per tier
    pub runs: (u64, u64),
    pub gen: fn(&mut Rng, u64, Tier) -> P,
    pub valid: fn(&P) -> bool,
    pub exec: fn(&P, &mut Ctx) -> Res,
    /// non-trivial by `rule`?
    pub nontrivial: fn(&Ctx) -> bool,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

pub enum Outcome {
    Ok,
    Bad(Viol),
    /// the harness itself is at fault
    Broken(String),
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn runs(&self, t: Tier) -> u64;
    fn meta(&self) -> (&'static str, &'static [&'static str], &'static [&'static str], &'static [&'static str]);
    fn go(&self, seed: u64, idx: u64, tier: Tier) -> (Outcome, Ctx);
    fn plan(&self, seed: u64, idx: u64, tier: Tier) -> Value;
    fn replay(&self, plan: &Value, log: bool) -> Option<(Outcome, Ctx)>;
    fn nontrivial(&self, c: &Ctx) -> bool;
}

thread_local! {
    static PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let (file, line) = i.location().map_or(("?", 0), |l| (l.file(), l.line()));
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let own = file.starts_with("src/") || file.contains("/verif/sim/");
        PANIC.with(|p| *p.borrow_mut() = Some((format!("{msg} at {file}:{line}"), own)));
    }));
}

fn guarded<P>(exec: fn(&P, &mut Ctx) -> Res, p: &P, log: bool) -> (Outcome, Ctx) {
    let mut ctx = Ctx::new(log);
    let r = catch_unwind(AssertUnwindSafe(|| exec(p, &mut ctx)));
    let o = match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(v)) => {
            for b in v.class.bytes() {
                ctx.h(b as u64);
            }
            Outcome::Bad(v)
        }
        Err(_) => {
            let (m, own) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if own {
                Outcome::Broken(m)
            } else {
                ctx.h(0xdead);
                Outcome::Bad(Viol { class: "panic".into(), detail: format!("the library panicked: {m}") })
            }
        }
    };
    (o, ctx)
}

fn rng_for(id: &str, seed: u64, idx: u64) -> Rng {
    let mut h = mix(seed);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    Rng::new(mix(h ^ mix(idx)))
}

impl<P> Typed<P> {
    /// The plan of this index: the first valid one its generator makes.
    fn make(&self, seed: u64, idx: u64, tier: Tier) -> P {
        let mut rng = rng_for(self.id, seed, idx);
        let mut p = (self.gen)(&mut rng, idx, tier);
        for _ in 0..20 {
            if (self.valid)(&p) {
                break;
            }
            p = (self.gen)(&mut rng, idx, tier);
        }
        p
    }
}

impl<P: Serialize + DeserializeOwned + 'static> Prop for Typed<P> {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => self.runs.0,
            Tier::Thorough => self.runs.1,
        }
    }
    fn meta(&self) -> (&'static str, &'static [&'static str], &'static [&'static str], &'static [&'static str]) {
        (self.rule, self.real, self.stub, self.assumptions)
    }
    fn go(&self, seed: u64, idx: u64, tier: Tier) -> (Outcome, Ctx) {
        let p = self.make(seed, idx, tier);
        if !(self.valid)(&p) {
            return (
                Outcome::Broken(format!("generator made an invalid plan: {}", serde_json::to_string(&p).unwrap())),
                Ctx::new(false),
            );
        }
        guarded(self.exec, &p, false)
    }
    fn plan(&self, seed: u64, idx: u64, tier: Tier) -> Value {
        serde_json::to_value(self.make(seed, idx, tier)).unwrap()
    }
    fn replay(&self, plan: &Value, log: bool) -> Option<(Outcome, Ctx)> {
        let p: P = serde_json::from_value(plan.clone()).ok()?;
        if !(self.valid)(&p) {
            return None;
        }
        Some(guarded(self.exec, &p, log))
    }
    fn nontrivial(&self, c: &Ctx) -> bool {
        (self.nontrivial)(c)
    }
}

// ------------------------------------------------------------------------------------ minimising

fn size(v: &Value) -> (usize, u128) {
    match v {
        Value::Array(a) => a.iter().map(size).fold((a.len() + 1, 0), |x, y| (x.0 + y.0, x.1 + y.1)),
        Value::Object(o) => o.values().map(size).fold((1, 0), |x, y| (x.0 + y.0, x.1 + y.1)),
        Value::Number(n) => (1, n.as_i64().map_or(n.as_u64().unwrap_or(0) as u128, |i| i.unsigned_abs() as u128)),
        Value::Bool(b) => (1, *b as u128),
        _ => (1, 0),
    }
}

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

pub fn minimise(p: &dyn Prop, plan: Value, class: &str) -> (Value, u64) {
    let t0 = Instant::now();
    let mut best = plan;
    let mut tries = 0u64;
    let mut test = |v: &Value| -> bool {
        tries += 1;
        matches!(p.replay(v, false), Some((Outcome::Bad(x), _)) if x.class == class)
    };
    let budget = |t: &Instant| t.elapsed() < Duration::from_secs(40);
    loop {
        let before = size(&best);
        // drop parts of arrays, big ones first
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for path in &ps {
            let Some(Value::Array(a)) = at(&mut best, path) else { continue };
            let mut chunk = a.len().div_ceil(2).max(1);
            loop {
                let mut i = 0;
                loop {
                    let mut c = best.clone();
                    let Some(Value::Array(a)) = at(&mut c, path) else { break };
                    if i >= a.len() || !budget(&t0) {
                        break;
                    }
                    let e = (i + chunk).min(a.len());
                    a.drain(i..e);
                    if test(&c) {
                        best = c;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.div_ceil(2);
            }
        }
        // simplify leaves and options
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for path in ps {
            if !budget(&t0) {
                break;
            }
            let mut b = best.clone();
            let Some(v) = at(&mut b, &path) else { continue };
            let v = v.clone();
            let mut cands: Vec<Value> = vec![];
            match &v {
                Value::Null => continue,
                Value::Bool(true) => cands.push(Value::Bool(false)),
                Value::Bool(false) => {}
                Value::String(_) => match path.last().map(|s| s.as_str()) {
                    Some("fe") => cands.extend([json!("Dt"), json!("Poll")]),
                    Some("clk") => cands.push(json!("U32")),
                    _ => {}
                },
                Value::Number(n) => {
                    cands.push(Value::Null);
                    if let Some(x) = n.as_u64() {
                        for c in [0, 1, 1_000_000, x / 2, x - x / 4, x / 1000 * 1000, x.saturating_sub(1)] {
                            if c < x && !cands.contains(&json!(c)) {
                                cands.push(json!(c));
                            }
                        }
                        // clear single bits
                        for i in 0..64 {
                            if x >> i & 1 == 1 && x > 16 {
                                cands.push(json!(x & !(1 << i)));
                            }
                        }
                    } else if let Some(x) = n.as_i64() {
                        for c in [0, -x, x / 2, x + 1] {
                            cands.push(json!(c));
                        }
                    }
                }
                _ => cands.push(Value::Null),
            }
            for c in cands {
                let mut t = best.clone();
                *at(&mut t, &path).unwrap() = c.clone();
                if size(&t) < size(&best) && test(&t) || (c.is_string() && c != v && test(&t)) {
                    best = t;
                    break;
                }
            }
        }
        if size(&best) >= before || !budget(&t0) {
            return (best, tries);
        }
    }
}

// ------------------------------------------------------------------------------------ search

#[derive(Default)]
struct Acc {
    runs: u64,
    faults: BTreeMap<&'static str, u64>,
    counts: BTreeMap<&'static str, u64>,
    sim_ns: u128,
    seen: HashSet<u64>,
    sched: HashSet<u64>,
    nontrivial: HashSet<u64>,
    hashes: Vec<(u64, u64)>,
    broken: Option<(u64, String)>,
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub out: PathBuf,
    pub runs: Option<u64>,
    pub threads: usize,
}

/// Every hash in index order, folded: equal for equal seeds whatever the worker count.
pub fn digest(p: &dyn Prop, o: &Opts) -> u64 {
    let n = o.runs.unwrap_or(p.runs(o.tier));
    let acc = search(p, o, n).0;
    let mut h = acc.hashes;
    h.sort();
    h.iter().fold(0, |a, (i, x)| mix(a ^ mix(*i) ^ *x))
}

fn search(p: &dyn Prop, o: &Opts, n: u64) -> (Acc, Option<(u64, Viol)>) {
    let next = AtomicU64::new(0);
    let minbad = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Acc::default());
    let bad: Mutex<Option<(u64, Viol)>> = Mutex::new(None);
    let busy: Vec<(AtomicU64, AtomicU64)> =
        (0..o.threads).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
    let done = AtomicU64::new(0);
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for w in 0..o.threads {
            let (next, minbad, total, bad, busy, done) = (&next, &minbad, &total, &bad, &busy, &done);
            s.spawn(move || {
                let mut acc = Acc::default();
                loop {
                    let idx = next.fetch_add(1, Ordering::SeqCst);
                    if idx >= n || idx > minbad.load(Ordering::SeqCst) {
                        break;
                    }
                    busy[w].0.store(t0.elapsed().as_secs(), Ordering::SeqCst);
                    busy[w].1.store(idx, Ordering::SeqCst);
                    let (out, ctx) = p.go(o.seed, idx, o.tier);
                    busy[w].1.store(u64::MAX, Ordering::SeqCst);
                    acc.runs += 1;
                    acc.sim_ns += ctx.sim_ns;
                    for (k, v) in &ctx.faults {
                        *acc.faults.entry(k).or_default() += v;
                    }
                    for (k, v) in &ctx.counts {
                        *acc.counts.entry(k).or_default() += v;
                    }
                    acc.seen.insert(ctx.hash);
                    acc.sched.insert(ctx.sched);
                    if p.nontrivial(&ctx) {
                        acc.nontrivial.insert(ctx.hash);
                    }
                    acc.hashes.push((idx, ctx.hash));
                    match out {
                        Outcome::Ok => {}
                        Outcome::Broken(m) => {
                            acc.broken = Some((idx, m));
                            minbad.fetch_min(idx, Ordering::SeqCst);
                            break;
                        }
                        Outcome::Bad(v) => {
                            minbad.fetch_min(idx, Ordering::SeqCst);
                            let mut b = bad.lock().unwrap();
                            if b.as_ref().is_none_or(|x| idx < x.0) {
                                *b = Some((idx, v));
                            }
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                t.runs += acc.runs;
                t.sim_ns += acc.sim_ns;
                for (k, v) in acc.faults {
                    *t.faults.entry(k).or_default() += v;
                }
                for (k, v) in acc.counts {
                    *t.counts.entry(k).or_default() += v;
                }
                t.seen.extend(acc.seen);
                t.sched.extend(acc.sched);
                t.nontrivial.extend(acc.nontrivial);
                t.hashes.extend(acc.hashes);
                if t.broken.is_none() {
                    t.broken = acc.broken;
                }
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        // hang watch: a run takes milliseconds (seconds for the poll-counter wrap)
        let (busy, done) = (&busy, &done);
        s.spawn(move || {
            while done.load(Ordering::SeqCst) < o.threads as u64 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_secs();
                for b in busy {
                    let idx = b.1.load(Ordering::SeqCst);
                    if idx != u64::MAX && now.saturating_sub(b.0.load(Ordering::SeqCst)) > HANG_S
                        && b.1.load(Ordering::SeqCst) == idx
                    {
                        let plan = p.plan(o.seed, idx, o.tier);
                        let v = Viol { class: "hang".into(), detail: format!("a call into the library did not return within {HANG_S} s") };
                        let path = write_replay(p, o, idx, &plan, &v, 0, None);
                        println!("{}", v.detail);
                        println!("VIOLATION property={} replay={}", p.id(), path.display());
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    (total.into_inner().unwrap(), bad.into_inner().unwrap())
}

pub const HANG_S: u64 = 180;

fn write_replay(p: &dyn Prop, o: &Opts, idx: u64, plan: &Value, v: &Viol, tries: u64, ctx: Option<&Ctx>) -> PathBuf {
    let dir = o.out.join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-{}-{}.json", p.id(), o.seed, idx));
    let mut m = Map::new();
    m.insert("property".into(), json!(p.id()));
    m.insert("seed".into(), json!(o.seed));
    m.insert("index".into(), json!(idx));
    m.insert("tier".into(), json!(format!("{:?}", o.tier).to_lowercase()));
    m.insert("class".into(), json!(v.class));
    m.insert("detail".into(), json!(v.detail));
    m.insert("minimising_executions".into(), json!(tries));
    if let Some(c) = ctx {
        m.insert("history_hash".into(), json!(format!("{:016x}", c.hash)));
        m.insert("history".into(), json!(c.log));
    }
    m.insert("plan".into(), plan.clone());
    std::fs::write(&path, serde_json::to_string_pretty(&Value::Object(m)).unwrap()).unwrap();
    path
}

pub fn check(p: &dyn Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let n = o.runs.unwrap_or(p.runs(o.tier));
    let (acc, bad) = search(p, o, n);
    if let Some((i, m)) = &acc.broken {
        if bad.as_ref().is_none_or(|b| b.0 > *i) {
            eprintln!("HARNESS ERROR property={} index={i}: {m}", p.id());
            return 2;
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    let mut code = 0;
    let mut violation = Value::Null;
    if let Some((idx, v)) = &bad {
        let plan = p.plan(o.seed, *idx, o.tier);
        let (min, tries) = minimise(p, plan, &v.class);
        let Some((Outcome::Bad(v2), ctx)) = p.replay(&min, true) else {
            eprintln!("HARNESS ERROR property={}: minimised plan does not fail", p.id());
            return 2;
        };
        let path = write_replay(p, o, *idx, &min, &v2, tries, Some(&ctx));
        // a fresh process has to reproduce it exactly
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", path.to_str().unwrap()])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        if st.ok().and_then(|s| s.code()) != Some(1) {
            eprintln!("HARNESS ERROR property={}: replay of {} differs", p.id(), path.display());
            return 2;
        }
        println!("seed={} index={} class={}", o.seed, idx, v2.class);
        println!("{}", v2.detail);
        println!("VIOLATION property={} replay={}", p.id(), path.display());
        violation = json!({"class": v2.class, "detail": v2.detail, "replay": path.to_str(), "index": idx});
        code = 1;
    }

    // determinism: execute a sample again and compare everything observed
    let mut rechecked = 0u64;
    let mut byidx = acc.hashes.clone();
    byidx.sort();
    let stride = (byidx.len() / 150).max(1);
    let td = Instant::now();
    for (i, h) in byidx.iter().step_by(stride) {
        if td.elapsed() > Duration::from_secs(8) {
            break;
        }
        let (_, c) = p.go(o.seed, *i, o.tier);
        rechecked += 1;
        if c.hash != *h {
            eprintln!("HARNESS ERROR property={}: index {i} is not deterministic", p.id());
            return 2;
        }
    }

    let mut samples = vec![];
    for i in [0, 1, 2].iter().map(|k| (n / 7) * k + k) {
        if i >= n {
            continue;
        }
        let plan = p.plan(o.seed, i, o.tier);
        if let Some((out, ctx)) = p.replay(&plan, true) {
            let mut lg = ctx.log.unwrap_or_default();
            lg.truncate(12);
            let mut txt = serde_json::to_string(&plan).unwrap();
            if txt.len() > 3000 {
                txt.truncate(3000);
                txt.push_str(" ...");
            }
            samples.push(json!({
                "index": i, "plan": txt, "history": lg,
                "outcome": match out { Outcome::Ok => "held".to_string(), Outcome::Bad(v) => v.class, Outcome::Broken(m) => m },
            }));
        }
    }
    let (rule, real, stub, assumptions) = p.meta();
    let ev = json!({
        "property": p.id(),
        "tier": format!("{:?}", o.tier).to_lowercase(),
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": acc.runs,
            "distinct_nontrivial": acc.nontrivial.len(),
            "rule": rule,
            "samples": samples,
            "distinct_histories": acc.seen.len(),
            "distinct_schedules": acc.sched.len(),
            "distinctness_measure": "64-bit hash over every edge, interrupt, poll, tick and fault time (schedules), plus everything reported (histories)",
            "simulated_seconds": (acc.sim_ns / 1_000_000) as f64 / 1e3,
            "seeds_per_hour": (acc.runs as f64 / search_s.max(1e-6) * 3600.0) as u64,
            "faults_injected": acc.faults,
            "observed": acc.counts,
            "determinism_rechecked_runs": rechecked,
            "real_components": real,
            "stub_components": stub,
            "exhaustive": false,
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": bad.is_some() as u64,
        "violation": violation,
    });
    let dir = o.out.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if code == 0 {
        println!(
            "OK property={} runs={} distinct={} simulated={:.0}s wall={:.1}s",
            p.id(), acc.runs, acc.seen.len(), acc.sim_ns as f64 / 1e9, t0.elapsed().as_secs_f64()
        );
    }
    code
}

/// 1: reproduced exactly; 0: no violation; 2: something else.
pub fn replay(props: &[Box<dyn Prop>], file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap_or_default().to_string();
    let Some(p) = props.iter().find(|p| p.id() == id) else {
        eprintln!("no such property");
        return 2;
    };
    if v["class"] == "hang" {
        let (f, id) = (file.to_path_buf(), id.clone());
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(HANG_S));
            println!("VIOLATION property={id} replay={}", f.display());
            std::process::exit(1);
        });
    }
    match p.replay(&v["plan"], true) {
        None => {
            eprintln!("the plan is not valid for this version of the harness");
            2
        }
        Some((Outcome::Ok, _)) => {
            println!("no violation");
            0
        }
        Some((Outcome::Broken(m), _)) => {
            eprintln!("HARNESS ERROR {m}");
            2
        }
        Some((Outcome::Bad(x), c)) => {
            for l in c.log.unwrap_or_default() {
                println!("  {l}");
            }
            println!("{}: {}", x.class, x.detail);
            println!("VIOLATION property={id} replay={}", file.display());
            let same = v["class"] == x.class.as_str()
                && v["detail"] == x.detail.as_str()
                && v["history_hash"] == format!("{:016x}", c.hash);
            if same {
                1
            } else {
                eprintln!("differs from the recorded violation");
                2
            }
        }
    }
}
