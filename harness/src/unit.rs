//! Units of exploration and the runner that distributes them over worker processes.
use mcrt::rt::{self, Opts, Report};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Unit {
    pub name: String,
    pub props: Vec<&'static str>,
    pub what: &'static str,
    pub bound: (u8, u8),
    pub faults: (u8, u8),
    /// wall-clock cap per worker in seconds
    pub secs: (u64, u64),
    pub shards: (u32, u32),
    pub shard_depth: usize,
    /// explored only in the thorough tier
    pub deep: bool,
    pub tweak: fn(&mut Opts),
    pub run: Box<dyn Fn(Tier)>,
}
fn notweak(_: &mut Opts) {}

pub fn unit(name: impl Into<String>, props: &[&'static str], run: impl Fn(Tier) + 'static) -> Unit {
    Unit {
        name: name.into(),
        props: props.to_vec(),
        what: "",
        bound: (2, 3),
        faults: (0, 0),
        secs: (25, 300),
        shards: (1, 1),
        shard_depth: 1,
        deep: false,
        tweak: notweak,
        run: Box::new(run),
    }
}
impl Unit {
    pub fn bound(mut self, q: u8, t: u8) -> Unit {
        self.bound = (q, t);
        self
    }
    pub fn faults(mut self, q: u8, t: u8) -> Unit {
        self.faults = (q, t);
        self
    }
    pub fn secs(mut self, q: u64, t: u64) -> Unit {
        self.secs = (q, t);
        self
    }
    pub fn shards(mut self, q: u32, t: u32) -> Unit {
        self.shards = (q, t);
        self
    }
    pub fn sdepth(mut self, d: usize) -> Unit {
        self.shard_depth = d;
        self
    }
    pub fn deep(mut self) -> Unit {
        self.deep = true;
        self
    }
    pub fn tweak(mut self, f: fn(&mut Opts)) -> Unit {
        self.tweak = f;
        self
    }
    pub fn what(mut self, w: &'static str) -> Unit {
        self.what = w;
        self
    }
    /// Quick checks leave out variants of a unit that only repeat what others of the property cover.
    fn quick_for(&self, prop: &str) -> bool {
        if self.props[0] == prop || prop == "ALL" {
            return true;
        }
        let lis = self.name.contains("-lis");
        !self.name.ends_with("-seg")
            && match prop {
                "C13" | "C14" => lis,
                "C11" | "C15" => !lis,
                _ => true,
            }
    }
    fn opts(&self, t: Tier) -> Opts {
        let q = t == Tier::Quick;
        let mut o = Opts {
            max_preempt: if q { self.bound.0 } else { self.bound.1 },
            max_fault: if q { self.faults.0 } else { self.faults.1 },
            time_budget: Duration::from_secs(if q { self.secs.0 } else { self.secs.1 }),
            known,
            op_tick: crate::api::U,
            ..Opts::default()
        };
        (self.tweak)(&mut o);
        o
    }
    fn nshards(&self, t: Tier) -> u32 {
        if t == Tier::Quick {
            self.shards.0
        } else {
            self.shards.1
        }
    }
}

// -------------------------------------------------------------------------- known findings

#[derive(Clone)]
pub struct Known {
    pub prop: String,
    pub tag: String,
    pub text: String,
}
static mut KNOWN: Vec<Known> = Vec::new();
/// Lines: `known: property=C06 tag=[x-y] free text`, `fixed: ...` and comments.
pub fn load_known(root: &Path) {
    let s = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (prop, r) = r.split_once(" tag=").expect("bad known_findings line");
            let (tag, text) = r.split_once("] ").expect("bad known_findings line");
            unsafe {
                #[allow(static_mut_refs)]
                KNOWN.push(Known { prop: prop.into(), tag: format!("{tag}]"), text: text.into() });
            }
        }
    }
}
#[allow(static_mut_refs)]
fn known(m: &str) -> Option<&'static str> {
    unsafe { KNOWN.iter().find(|k| m.contains(&k.tag)).map(|k| k.tag.as_str()) }
}

// -------------------------------------------------------------------------- worker side

const SHM: usize = 1 << 20;

fn map_shm(p: &str) -> *mut u8 {
    unsafe {
        let c = std::ffi::CString::new(p).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
        assert!(fd >= 0);
        libc::ftruncate(fd, SHM as i64);
        let m = libc::mmap(std::ptr::null_mut(), SHM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        libc::close(fd);
        m as *mut u8
    }
}

fn hex(p: &[u8]) -> String {
    // choices are small numbers: run-length encoded "value*count"
    let mut s = String::new();
    let mut i = 0;
    while i < p.len() {
        let mut j = i;
        while j < p.len() && p[j] == p[i] {
            j += 1;
        }
        if !s.is_empty() {
            s.push(' ');
        }
        if j - i > 1 {
            s += &format!("{}*{}", p[i], j - i);
        } else {
            s += &format!("{}", p[i]);
        }
        i = j;
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for t in s.split_whitespace() {
        match t.split_once('*') {
            Some((a, n)) => {
                for _ in 0..n.parse::<usize>().unwrap() {
                    v.push(a.parse().unwrap())
                }
            }
            None => v.push(t.parse().unwrap()),
        }
    }
    v
}

fn leak_run(u: Unit) -> &'static Unit {
    Box::leak(Box::new(u))
}

pub fn worker(u: Unit, t: Tier, shard: u32, n: u32, secs: Option<u64>, bound: Option<u8>, shm: &str) {
    rt::init(Some(map_shm(shm)));
    let mut o = u.opts(t);
    o.shard = (shard, n);
    o.shard_depth = u.shard_depth;
    if let Some(s) = secs {
        o.time_budget = Duration::from_secs(s);
    }
    if let Some(b) = bound {
        o.max_preempt = b;
    }
    let u = leak_run(u);
    let r: Report = rt::explore(&o, &move || (u.run)(t));
    let v = json!({
        "executions": r.executions, "completed": r.completed, "pruned": r.pruned,
        "transitions": r.transitions, "states": r.states, "nodes": r.nodes,
        "max_events": r.max_events, "max_choices": r.max_choices,
        "outcomes": r.outcomes.values().cloned().collect::<Vec<_>>(),
        "outcome_total": r.outcome_total,
        "completed_bound": r.completed_bound, "capped": r.capped,
        "known": r.known, "wall": r.wall, "error": r.error, "faults": r.faults_injected,
        "violation": r.violation.as_ref().map(|v| json!({"msg": v.msg, "path": hex(&v.path), "bound": v.bound})),
    });
    println!("RESULT {v}");
}

pub fn replay_path(u: Unit, t: Tier, bound: u8, path: &[u8], verbose: bool) -> Result<Option<String>, String> {
    rt::init(None);
    let o = u.opts(t);
    let u = leak_run(u);
    rt::replay(&o, bound, path, verbose, &move || (u.run)(t))
}

// -------------------------------------------------------------------------- parent side

struct Job {
    unit: usize,
    shard: u32,
    n: u32,
    secs: u64,
}
#[derive(Clone)]
struct JobOut {
    unit: usize,
    shard: u32,
    v: Value,
}

pub struct Args {
    pub prop: String,
    pub tier: Tier,
    pub root: PathBuf,
    pub jobs: usize,
    pub only: Option<String>,
}

fn tier_s(t: Tier) -> &'static str {
    if t == Tier::Quick {
        "quick"
    } else {
        "thorough"
    }
}

fn run_child(args: &[String], limit: Duration) -> (Option<i32>, Option<i32>, bool, String) {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe).args(args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut so = c.stdout.take().unwrap();
    let th = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let mut killed = false;
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            killed = true;
            break c.wait().unwrap();
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let out = th.join().unwrap();
    (st.code(), st.signal(), killed, out)
}

fn read_shm_path(p: &str) -> Vec<u8> {
    let b = std::fs::read(p).unwrap_or_default();
    if b.len() < 8 {
        return vec![];
    }
    let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
    b[8..8 + n.min(b.len() - 8)].to_vec()
}

fn do_job(j: &Job, us: &[Unit], a: &Args) -> JobOut {
    let u = &us[j.unit];
    let shm = format!("/dev/shm/mc-{}-{}-{}", std::process::id(), j.unit, j.shard);
    let shm = if Path::new("/dev/shm").is_dir() { shm } else { format!("/tmp/mc-{}-{}-{}", std::process::id(), j.unit, j.shard) };
    let args: Vec<String> = vec![
        "worker".into(),
        u.name.clone(),
        tier_s(a.tier).into(),
        j.shard.to_string(),
        j.n.to_string(),
        j.secs.to_string(),
        shm.clone(),
    ];
    let limit = Duration::from_secs(j.secs * 2 + 60);
    let (code, sig, killed, out) = run_child(&args, limit);
    let mut v = None;
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("RESULT ") {
            v = serde_json::from_str::<Value>(r).ok();
        }
    }
    let v = match v {
        Some(v) if code == Some(0) => v,
        _ => {
            // crashed or hung: confirm by replaying the choices it was exploring
            let path = read_shm_path(&shm);
            let bound = if a.tier == Tier::Quick { u.bound.0 } else { u.bound.1 };
            let mut confirmed = false;
            let mut what = String::new();
            if code != Some(3) && code != Some(4) {
                let rargs: Vec<String> = vec![
                    "replaypath".into(),
                    u.name.clone(),
                    tier_s(a.tier).into(),
                    "255".into(),
                    hex(&path),
                ];
                let (c2, s2, k2, _) = run_child(&rargs, Duration::from_secs(30));
                confirmed = if killed { k2 } else { s2.is_some() && s2 == sig };
                what = if killed {
                    "hang: the code under test loops without reaching a scheduling point".into()
                } else {
                    format!("crash: the process died with signal {sig:?} (memory corruption, stack overflow or abort)")
                };
                let _ = c2;
            }
            if confirmed {
                json!({"executions":0,"violation":{"msg":what,"path":hex(&path),"bound":bound,"crash":true}})
            } else {
                json!({"executions":0,"error":format!("worker ended abnormally: code {code:?} signal {sig:?} killed {killed}; {}", out.chars().take(400).collect::<String>())})
            }
        }
    };
    let _ = std::fs::remove_file(&shm);
    JobOut { unit: j.unit, shard: j.shard, v }
}

pub fn check(us: Vec<Unit>, a: Args) -> i32 {
    let t0 = Instant::now();
    let mut us: Vec<Unit> = us
        .into_iter()
        .filter(|u| {
            (a.prop == "ALL" || u.props.contains(&&*a.prop))
                && (a.tier == Tier::Thorough || !u.deep && (a.only.is_some() || u.quick_for(&a.prop)))
                && a.only.as_ref().map_or(true, |o| u.name.contains(o))
        })
        .collect();
    if us.is_empty() {
        eprintln!("no units for {}", a.prop);
        return 2;
    }
    // what the property is mainly decided by comes first
    us.sort_by_key(|u| u.props[0] != a.prop);
    let mut jobs = Vec::new();
    for (i, u) in us.iter().enumerate() {
        let n = u.nshards(a.tier);
        for s in 0..n {
            let secs = if a.tier == Tier::Quick { u.secs.0 } else { u.secs.1 };
            jobs.push(Job { unit: i, shard: s, n, secs });
        }
    }
    // scale the time caps down so that the whole check stays within its budget
    let budget: f64 = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if a.tier == Tier::Quick { 55.0 } else { 780.0 });
    let deadline = t0 + Duration::from_secs_f64(budget);
    let total = jobs.len();
    let queue = Arc::new(Mutex::new(jobs.into_iter().collect::<std::collections::VecDeque<_>>()));
    let results: Arc<Mutex<Vec<JobOut>>> = Arc::new(Mutex::new(Vec::new()));
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    std::thread::scope(|sc| {
        for _ in 0..a.jobs.min(total) {
            let (q, r, us, a, stop) = (queue.clone(), results.clone(), &us, &a, stop.clone());
            sc.spawn(move || loop {
                let j = {
                    let mut q = q.lock().unwrap();
                    match q.pop_front() {
                        None => return,
                        Some(mut j) => {
                            let left = deadline.saturating_duration_since(Instant::now()).as_secs_f64();
                            // fair share of what is left for the remaining jobs
                            let rem = q.len() as f64 + 1.0;
                            let share = left * (a.jobs as f64) / rem;
                            let cap = share.max(left.min(3.0)).max(1.0);
                            j.secs = (j.secs as f64).min(cap * 3.0).min(left.max(1.0)).max(1.0) as u64;
                            j
                        }
                    }
                };
                if stop.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                let o = do_job(&j, us, a);
                if !o.v["violation"].is_null() {
                    stop.store(true, std::sync::atomic::Ordering::Relaxed);
                }
                if std::env::var("MC_V").is_ok() {
                    let v = &o.v;
                    eprintln!(
                        "{:50} {:2}/{:<2} exec {:>9} done {:>8} states {:>8} outc {:>6} bound {} {} {:.1}s {}{}",
                        us[o.unit].name,
                        o.shard,
                        j.n,
                        v["executions"],
                        v["completed"],
                        v["states"],
                        v["outcome_total"],
                        v["completed_bound"],
                        if v["capped"] == true { "CAPPED" } else { "" },
                        v["wall"].as_f64().unwrap_or(0.0),
                        if v["known"].as_object().map_or(false, |m| !m.is_empty()) { format!("known {}", v["known"]) } else { String::new() },
                        if !v["error"].is_null() { format!("ERROR {}", v["error"]) } else if !v["violation"].is_null() { format!("VIOLATION {}", v["violation"]["msg"]) } else { String::new() },
                    );
                }
                r.lock().unwrap().push(o);
            });
        }
    });
    let mut results = results.lock().unwrap().clone();
    results.sort_by_key(|o| (o.unit, o.shard));
    let skipped = total - results.len();
    let mut sum: BTreeMap<&str, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors = Vec::new();
    let mut viol = None;
    let mut per_unit = Vec::new();
    let mut samples = Vec::new();
    let mut capped = 0;
    for (i, u) in us.iter().enumerate() {
        let rs: Vec<&JobOut> = results.iter().filter(|o| o.unit == i).collect();
        let mut execs = 0;
        let mut done = 0;
        let mut outc = 0;
        let mut cb = i64::MAX;
        let mut cap = false;
        for o in &rs {
            let v = &o.v;
            for k in ["executions", "completed", "pruned", "transitions", "states", "nodes", "faults", "outcome_total"] {
                *sum.entry(k).or_insert(0) += v[k].as_u64().unwrap_or(0);
            }
            execs += v["executions"].as_u64().unwrap_or(0);
            done += v["completed"].as_u64().unwrap_or(0);
            outc += v["outcome_total"].as_u64().unwrap_or(0);
            cb = cb.min(v["completed_bound"].as_i64().unwrap_or(-1));
            cap |= v["capped"] == true;
            if let Some(m) = v["known"].as_object() {
                for (k, n) in m {
                    *known_hits.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                }
            }
            if let Some(e) = v["error"].as_str() {
                errors.push(format!("{}: {e}", u.name));
            }
            if !v["violation"].is_null() && viol.is_none() {
                viol = Some((u, v["violation"].clone()));
            }
            if samples.len() < 40 {
                if let Some(os) = v["outcomes"].as_array() {
                    if let Some(s) = os.first().and_then(|x| x.as_str()) {
                        samples.push(json!({"unit": u.name, "outcome": s.chars().take(300).collect::<String>()}));
                    }
                }
            }
        }
        if cap {
            capped += 1;
        }
        if !rs.is_empty() && done == 0 && errors.is_empty() && viol.is_none() {
            errors.push(format!("{}: vacuous, no execution completed", u.name));
        }
        per_unit.push(json!({"unit": u.name, "what": u.what, "executions": execs, "complete_traces": done,
            "distinct_outcomes": outc, "preemption_bound_completed": if cb == i64::MAX { -1 } else { cb }, "capped": cap}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let gs = |k: &str| sum.get(k).copied().unwrap_or(0);
    #[allow(static_mut_refs)]
    let knowns: Vec<Known> = unsafe { KNOWN.clone() };
    let ev = json!({
        "property": a.prop,
        "tier": tier_s(a.tier),
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": gs("states").max(gs("nodes")),
            "transitions": gs("transitions"),
            "executions": gs("executions"),
            "schedules": gs("completed"),
            "pruned_equivalent": gs("pruned"),
            "decision_points": gs("nodes"),
            "fault_choices_taken": gs("faults"),
            "distinct_outcomes": gs("outcome_total"),
            "traces_validated_against_impl": gs("completed"),
            "binding": "stateless exploration of the real code compiled from /repo's working tree; every trace is an execution of the implementation",
            "exhaustive": capped == 0 && skipped == 0,
            "units_total": us.len(),
            "units_capped_by_time": capped,
            "jobs_not_started": skipped,
            "units": per_unit,
            "samples": samples,
        },
        "assumptions": [
            "sequentially consistent interleavings of the intercepted operations (atomics, locks, channels, epoch pins); publication of table objects is additionally checked for a happens-before edge",
            "crossbeam, parking_lot, event-listener, async-lock, futures-util and std locks are replaced by models of their documented contracts"
        ],
        "known_findings_hit": known_hits,
        "violations": if viol.is_some() { 1 } else { 0 },
        "wall_s": wall,
    });
    let evp = a.root.join("evidence").join(format!("{}.json", a.prop));
    let _ = std::fs::create_dir_all(a.root.join("evidence"));
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for k in &knowns {
        if k.prop == a.prop {
            println!(
                "KNOWN-FINDING: property={} {} {} (reached {} times in this run)",
                k.prop,
                k.tag,
                k.text,
                known_hits.get(&k.tag).copied().unwrap_or(0)
            );
        }
    }
    println!(
        "{} {}: {} units, {} executions ({} complete, {} pruned), {} transitions, {} distinct outcomes, {} capped, {:.1}s",
        a.prop,
        tier_s(a.tier),
        us.len(),
        gs("executions"),
        gs("completed"),
        gs("pruned"),
        gs("transitions"),
        gs("outcome_total"),
        capped,
        wall
    );
    if let Some((u, v)) = viol {
        let dir = a.root.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}.json", a.prop));
        let msg = v["msg"].as_str().unwrap_or("");
        let rp = json!({"property": a.prop, "unit": u.name, "tier": tier_s(a.tier), "bound": v["bound"],
            "path": v["path"], "msg": msg, "how": "/verif/replay.sh <this file>"});
        std::fs::write(&p, serde_json::to_string_pretty(&rp).unwrap()).unwrap();
        println!("unit {}: {}", u.name, msg);
        println!("VIOLATION property={} replay={}", a.prop, p.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {e}");
        }
        return 2;
    }
    0
}

pub fn replay_file(us: Vec<Unit>, p: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
    let name = v["unit"].as_str().unwrap();
    let t = if v["tier"] == "quick" { Tier::Quick } else { Tier::Thorough };
    let u = us.into_iter().find(|u| u.name == name).expect("unknown unit");
    let path = unhex(v["path"].as_str().unwrap());
    match replay_path(u, t, v["bound"].as_u64().unwrap_or(255) as u8, &path, true) {
        Ok(Some(m)) => {
            println!("VIOLATION property={} replay={p}", v["property"].as_str().unwrap_or("?"));
            println!("{m}");
            1
        }
        Ok(None) => {
            println!("no violation in this execution");
            0
        }
        Err(e) => {
            println!("ERROR {e}");
            2
        }
    }
}

pub fn main(us: Vec<Unit>) {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
    load_known(&root);
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let u = us.into_iter().find(|u| u.name == a[2]).expect("unknown unit");
            worker(u, tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().ok(), None, &a[7]);
        }
        Some("one") => {
            // mc one UNIT [tier] [bound] [secs]
            let u = us.into_iter().find(|u| u.name == a[2]).expect("unknown unit");
            let t = tier(a.get(3).map(|s| s.as_str()).unwrap_or("quick"));
            let b = a.get(4).and_then(|s| s.parse().ok());
            let s = a.get(5).and_then(|s| s.parse().ok());
            worker(u, t, 0, 1, s, b, &format!("/tmp/mc-one-{}", std::process::id()));
            let _ = std::fs::remove_file(format!("/tmp/mc-one-{}", std::process::id()));
        }
        Some("replaypath") => {
            let u = us.into_iter().find(|u| u.name == a[2]).expect("unknown unit");
            let r = replay_path(u, tier(&a[3]), a[4].parse().unwrap(), &unhex(&a[5]), std::env::var("MC_V").is_ok());
            println!("{r:?}");
        }
        Some("replay") => std::process::exit(replay_file(us, &a[2])),
        Some("list") => {
            for u in us {
                println!("{:55} {:?} bound {:?} faults {:?} shards {:?}{}", u.name, u.props, u.bound, u.faults, u.shards, if u.deep { " deep" } else { "" });
            }
        }
        Some("check") => {
            let t = a.get(3).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
            let jobs = std::env::var("MC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
            let code = check(us, Args { prop: a[2].clone(), tier: tier(&t), root, jobs, only: std::env::var("MC_ONLY").ok() });
            std::process::exit(code);
        }
        _ => {
            eprintln!("usage: mc check PROP [tier] | replay FILE | list | one UNIT [tier] [bound] [secs]");
            std::process::exit(2);
        }
    }
}
// The runner only reads names and bounds from its threads.
unsafe impl Sync for Unit {}
