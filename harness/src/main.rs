//! Replays behaviours of the specification into the real file system.
//!
//!   conform replay CONFIG.json  < TLC output   (summary on stdout)
//!   conform rerun REPLAY.json                  (one saved behaviour)
//!   conform record CONFIG.json                 (runs for spec/Trace.tla)
mod bulk;
mod grid;
mod model;
mod record;
mod space;
mod util;
mod world;

use model::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap as Map, HashSet};
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{atomic::*, mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;
use world::*;

#[derive(Clone, Deserialize, Serialize)]
struct Config {
    shape: Shape,
    variants: Vec<Variant>,
    /// how many variants each behaviour is replayed with (0: all)
    #[serde(default)]
    per_trace: usize,
    /// all variants must behave alike: differing outcomes break the property
    #[serde(default)]
    differential: bool,
    /// label patterns that break the property
    classes: Vec<String>,
    /// operations a behaviour must contain (with success) to count
    #[serde(default)]
    focus: Vec<String>,
    seed: u64,
    #[serde(default)]
    threads: usize,
    #[serde(default)]
    only: Vec<usize>,
    /// replay only one in `sample` behaviours of the exhaustive mode
    #[serde(default)]
    sample: usize,
    replay_dir: String,
    name: String,
    #[serde(default)]
    budget_s: u64,
    #[serde(default)]
    hang_s: u64,
    #[serde(default)]
    known: Vec<Known>,
}
#[derive(Clone, Deserialize, Serialize)]
struct Known {
    class: String,
    contains: String,
    what: String,
}

#[derive(Clone, Deserialize, Serialize)]
struct Replay {
    config: String,
    class: String,
    detail: String,
    step: usize,
    variant: Variant,
    shape: Shape,
    seed: u64,
    world: serde_json::Value,
    steps: Vec<Step>,
}

struct Job {
    idx: usize,
    steps: Vec<Step>,
}

fn glob(p: &str, s: &str) -> bool {
    match p.split_once('*') {
        None => p == s,
        Some((a, rest)) => {
            if !s.starts_with(a) {
                return false;
            }
            let t = &s[a.len()..];
            if rest.is_empty() {
                return true;
            }
            (0..=t.len()).any(|i| t.is_char_boundary(i) && glob(rest, &t[i..]))
        }
    }
}

fn labels(d: &Diff, failed: bool, upgraded: bool) -> Vec<String> {
    let mut v = vec![d.class.clone()];
    if failed {
        v.push(format!("failed/{}", d.class));
    }
    if upgraded {
        v.push(format!("upgraded/{}", d.class));
    }
    v
}

/// step at which it diverged, the divergence, its labels
type Outcome = Option<(usize, Diff, Vec<String>, serde_json::Value)>;

fn run(pat: &Pattern, var: &Variant, shape: &Shape, seed: u64, steps: &[Step], at: &AtomicUsize) -> Outcome {
    let mut world: Option<World> = None;
    let mut desc = serde_json::Value::Null;
    let mut cur = 0;
    let mut out: Outcome = None;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let w = world.insert(World::new(pat, var, shape, seed));
        desc = w.describe();
        let mut before: Option<&State> = None;
        for (n, st) in steps.iter().enumerate() {
            cur = n;
            at.store(n, Ordering::Relaxed);
            if let Err(d) = w.step(st, before, n + 1, n + 1 == steps.len()) {
                let l = labels(&d, w.last_op_failed && !d.class.starts_with("accept") && !d.class.starts_with("error"), w.upgraded);
                out = Some((n, d, l, desc.clone()));
                return;
            }
            before = st.s.as_ref();
        }
    }));
    if let Err(e) = r {
        let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let op = if world.is_none() { "new".to_string() } else { steps[cur].op.o.clone() };
        let place = PLACE.with(|p| p.borrow().clone());
        let d = Diff { class: format!("panic:{op}"), detail: format!("panic at {place}: {msg}") };
        let up = world.as_ref().map(|w| w.upgraded).unwrap_or(false);
        let l = labels(&d, false, up);
        out = Some((cur, d, l, desc));
    }
    let _ = catch_unwind(AssertUnwindSafe(|| drop(world)));
    out
}

thread_local!(static PLACE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

#[derive(Default, Serialize)]
struct Summary {
    traces: usize,
    replays: usize,
    steps: usize,
    distinct: usize,
    nontrivial: usize,
    ops: Map<String, usize>,
    variants: Map<String, usize>,
    violations: Vec<(String, String, String)>,
    known: Map<String, usize>,
    other: Map<String, usize>,
    other_example: Map<String, String>,
    samples: Vec<String>,
    truncated: bool,
    wall_s: f64,
}

fn short(s: &Step) -> String {
    let o = &s.op;
    let mut t = o.o.clone();
    if o.fd > 0 {
        t += &format!(" {}", o.fd);
    }
    if !o.p.is_empty() {
        t += &format!(" {:?}", o.p.join("/"));
    }
    if o.fd2 > 0 {
        t += &format!(" -> {} {:?}", o.fd2, o.p2.join("/"));
    }
    if !o.bs.is_empty() {
        t += &format!(" {:?}", o.bs);
    }
    if ["seek", "setsize", "setmeta", "setlim", "renum"].contains(&o.o.as_str()) {
        t += &format!(" {}", o.to);
    }
    format!("{t} = {}{:?}", s.r.e, s.r.v)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PLACE.with(|p| *p.borrow_mut() = l);
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&a[2]),
        Some("rerun") => rerun(&a[2]),
        Some("record") => record::record(&a[2]),
        _ => {
            eprintln!("usage: conform replay CONFIG < TLC output | conform rerun FILE");
            std::process::exit(2)
        }
    }
}

fn rerun(file: &str) {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let pat = Pattern::new();
    println!("{}", r.world);
    for (i, s) in r.steps.iter().enumerate() {
        println!("{:3} {}", i + 1, short(s));
    }
    match run(&pat, &r.variant, &r.shape, r.seed, &r.steps, &AtomicUsize::new(0)) {
        None => println!("no divergence"),
        Some((n, d, l, _)) => {
            println!("step {}: {} {:?}\n  {}", n + 1, d.class, l, d.detail);
            std::process::exit(1)
        }
    }
}

fn replay(cfg: &str) {
    let cfg: Arc<Config> = Arc::new(serde_json::from_str(&std::fs::read_to_string(cfg).unwrap()).unwrap());
    let start = Instant::now();
    let pat = Arc::new(Pattern::new());
    let sum = Arc::new(Mutex::new(Summary::default()));
    let seen = Arc::new(Mutex::new((HashSet::<u64>::new(), HashSet::<u64>::new())));
    let stop = Arc::new(AtomicBool::new(false));
    let nth = cfg.threads.max(1);
    let progress = Arc::new(std::fs::File::create(format!("{}/{}.at", cfg.replay_dir, cfg.name)).unwrap());
    let mut tx = vec![];
    let mut th = vec![];
    // per thread: time of the start of the current replay (ms, 0: idle), step
    let clocks: Arc<Vec<(AtomicU64, AtomicUsize)>> = Arc::new((0..nth).map(|_| (AtomicU64::new(0), AtomicUsize::new(0))).collect());
    let current: Arc<Vec<Mutex<Option<(Variant, u64, Vec<Step>)>>>> = Arc::new((0..nth).map(|_| Mutex::new(None)).collect());
    for k in 0..nth {
        let (t, rx) = mpsc::sync_channel::<Job>(64);
        tx.push(t);
        let (cfg, pat, sum, seen, stop, progress, clocks, current) =
            (cfg.clone(), pat.clone(), sum.clone(), seen.clone(), stop.clone(), progress.clone(), clocks.clone(), current.clone());
        // a canister has a stack of 1 MB
        th.push(std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            for job in rx {
                if stop.load(Ordering::Relaxed) {
                    continue;
                }
                let mut rng = Rng::new(cfg.seed ^ (job.idx as u64).wrapping_mul(0x1234_5678_9abc_def1));
                // count
                {
                    use std::hash::{DefaultHasher, Hash, Hasher};
                    let mut h = DefaultHasher::new();
                    let mut nt = cfg.focus.is_empty();
                    for s in &job.steps {
                        serde_json::to_string(&s.op).unwrap().hash(&mut h);
                        s.r.e.hash(&mut h);
                        if cfg.focus.iter().any(|f| glob(f, &format!("{}:{}", s.op.o, s.r.e))) {
                            nt = true;
                        }
                    }
                    let mut x = seen.lock().unwrap();
                    let new = x.0.insert(h.finish());
                    if nt {
                        x.1.insert(h.finish());
                    }
                    let mut m = sum.lock().unwrap();
                    m.traces += 1;
                    for s in &job.steps {
                        *m.ops.entry(format!("{}:{}", s.op.o, s.r.e)).or_default() += 1;
                    }
                    if nt && new && m.samples.len() < 2 {
                        m.samples.push(job.steps.iter().take(40).map(short).collect::<Vec<_>>().join("; "));
                    }
                }
                let picks: Vec<usize> = if cfg.per_trace == 0 {
                    (0..cfg.variants.len()).collect()
                } else {
                    let total: u64 = cfg.variants.iter().map(|v| v.weight.max(1)).sum();
                    (0..cfg.per_trace)
                        .map(|_| {
                            let mut x = rng.below(total);
                            cfg.variants.iter().position(|v| {
                                let w = v.weight.max(1);
                                if x < w { true } else { x -= w; false }
                            }).unwrap()
                        })
                        .collect()
                };
                let common = rng.next();
                let mut outs: Vec<(usize, Option<(usize, String)>)> = vec![];
                for vi in picks {
                    let var = &cfg.variants[vi];
                    let seed = if cfg.differential { common } else { rng.next() };
                    let _ = progress.write_at(format!("{:12}\n", job.idx).as_bytes(), k as u64 * 13);
                    *current[k].lock().unwrap() = Some((var.clone(), seed, vec![]));
                    clocks[k].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                    let out = run(&pat, var, &cfg.shape, seed, &job.steps, &clocks[k].1);
                    clocks[k].0.store(0, Ordering::Relaxed);
                    let mut m = sum.lock().unwrap();
                    m.replays += 1;
                    *m.variants.entry(format!("{}{}", var.backend, if var.cs > 0 { format!("/{}K", var.cs) } else { String::new() })).or_default() += 1;
                    m.steps += out.as_ref().map(|o| o.0 + 1).unwrap_or(job.steps.len());
                    if cfg.differential {
                        let this = out.as_ref().map(|o| (o.0, o.1.class.clone()));
                        let first = outs.first().map(|x| x.1.clone());
                        outs.push((vi, this.clone()));
                        if let Some(first) = first {
                            if first != this {
                                // keep the replay of the one that left the specification
                                let (v, other) = if this.is_some() { (vi, outs[0].0) } else { (outs[0].0, vi) };
                                let file = format!("{}/{}-{}-{}.json", cfg.replay_dir, cfg.name, job.idx, v);
                                let o = run(&pat, &cfg.variants[v], &cfg.shape, common, &job.steps, &clocks[k].1);
                                let (n, d, _, desc) = o.unwrap_or((0, Diff { class: "differs".into(), detail: "not reproduced".into() }, vec![], serde_json::Value::Null));
                                let d = Diff { detail: format!("{} -- {} gives {:?}, {} gives {:?}", d.detail,
                                    serde_json::to_string(&cfg.variants[outs[0].0]).unwrap(), first,
                                    serde_json::to_string(&cfg.variants[vi]).unwrap(), this), ..d };
                                save(&cfg, &file, n, &d, &cfg.variants[v], common, serde_json::json!({"world": desc, "other": cfg.variants[other]}), &job.steps);
                                m.violations.push((format!("differs/{}", d.class), d.detail, file));
                                if m.violations.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                                break;
                            }
                        }
                    }
                    if let Some((n, d, l, desc)) = out {
                        if let Some(kf) = cfg.known.iter().find(|kf| glob(&kf.class, &d.class) && d.detail.contains(&kf.contains)) {
                            *m.known.entry(kf.what.clone()).or_default() += 1;
                        } else if l.iter().any(|x| cfg.classes.iter().any(|c| glob(c, x))) {
                            let file = format!("{}/{}-{}-{}.json", cfg.replay_dir, cfg.name, job.idx, vi);
                            save(&cfg, &file, n, &d, var, seed, desc, &job.steps);
                            m.violations.push((d.class, d.detail, file));
                            if m.violations.len() >= 3 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        } else {
                            *m.other.entry(d.class.clone()).or_default() += 1;
                            if m.other_example.len() < 20 && !m.other_example.contains_key(&d.class) {
                                let file = format!("{}/other-{}-{}-{}.json", cfg.replay_dir, cfg.name, job.idx, vi);
                                save(&cfg, &file, n, &d, var, seed, desc, &job.steps);
                                m.other_example.insert(d.class.clone(), format!("{} [{file}]", d.detail));
                            }
                        }
                    }
                }
            }
        }).unwrap());
    }
    // watchdog
    {
        let (clocks, cfg, sum) = (clocks.clone(), cfg.clone(), sum.clone());
        let limit = if cfg.hang_s == 0 { 60 } else { cfg.hang_s } * 1000;
        let stop = stop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = start.elapsed().as_millis() as u64;
            if cfg.budget_s > 0 && now > cfg.budget_s * 1000 {
                stop.store(true, Ordering::Relaxed);
            }
            for (k, c) in clocks.iter().enumerate() {
                let t = c.0.load(Ordering::Relaxed);
                if t > 0 && now > t + limit {
                    // leave the rest to the caller, who repeats this behaviour alone
                    let _ = sum;
                    println!("HANG thread {k} step {}", c.1.load(Ordering::Relaxed) + 1);
                    std::process::exit(97);
                }
            }
        });
    }
    let stdin = std::io::stdin().lock();
    let mut tail: Vec<String> = vec![];
    let mut steps: Vec<Step> = vec![];
    let mut idx = 0usize;
    let mut lines = 0usize;
    let send = |steps: Vec<Step>, idx: &mut usize| {
        if steps.is_empty() {
            return;
        }
        *idx += 1;
        if !cfg.only.is_empty() && !cfg.only.contains(idx) {
            return;
        }
        if !stop.load(Ordering::Relaxed) {
            let _ = tx[*idx % nth].send(Job { idx: *idx, steps });
        }
    };
    for l in stdin.lines() {
        let Ok(l) = l else { break };
        if !l.starts_with("\"{") {
            tail.push(l);
            if tail.len() > 400 {
                tail.remove(40);
            }
            continue;
        }
        lines += 1;
        if stop.load(Ordering::Relaxed) {
            continue;
        }
        let inner: String = match serde_json::from_str(&l) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let line: Line = match serde_json::from_str(&inner) {
            Ok(x) => x,
            Err(e) => {
                tail.push(format!("BADLINE {e}: {inner}"));
                continue;
            }
        };
        if line.l == 0 {
            if cfg.sample > 1 && lines % cfg.sample != 0 {
                continue;
            }
            let n = line.h.len();
            let v: Vec<Step> = line.h.into_iter().enumerate().map(|(i, x)| Step { op: x.op, r: x.r, s: if i + 1 == n { Some(line.s.clone()) } else { None } }).collect();
            send(v, &mut idx);
        } else {
            if line.l == 1 {
                send(std::mem::take(&mut steps), &mut idx);
            }
            let x = line.h.into_iter().last().unwrap();
            steps.push(Step { op: x.op, r: x.r, s: Some(line.s) });
        }
    }
    send(steps, &mut idx);
    drop(tx);
    for t in th {
        let _ = t.join();
    }
    let mut m = std::mem::take(&mut *sum.lock().unwrap());
    let x = seen.lock().unwrap();
    m.distinct = x.0.len();
    m.nontrivial = x.1.len();
    m.truncated = stop.load(Ordering::Relaxed);
    m.wall_s = start.elapsed().as_secs_f64();
    let out = serde_json::json!({"summary": m, "tlc": tail, "lines": lines});
    println!("{out}");
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

#[allow(clippy::too_many_arguments)]
fn save(cfg: &Config, file: &str, n: usize, d: &Diff, var: &Variant, seed: u64, world: serde_json::Value, steps: &[Step]) {
    let r = Replay {
        config: cfg.name.clone(),
        class: d.class.clone(),
        detail: d.detail.clone(),
        step: n + 1,
        variant: var.clone(),
        shape: cfg.shape.clone(),
        seed,
        world,
        steps: steps[..=n].to_vec(),
    };
    let _ = std::fs::write(file, serde_json::to_string(&r).unwrap());
}
