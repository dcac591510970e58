//! Controlled scheduler and bounded exhaustive explorer.
use crate::alloc::{self, sys};
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, Instant as RealInstant};

pub const MAXT: usize = 6;
pub type VC = [u32; MAXT];
const STACK: usize = 512 * 1024;

#[derive(Clone, Debug)]
pub struct Opts {
    /// preemptions: the explorer completes bounds 0, 1, .. `max_preempt`
    pub max_preempt: u8,
    /// explore only `max_preempt` directly instead of iterating from 0
    pub direct: bool,
    /// budget of fault/deviation choices (cancellation, injected panic, spurious CAS failure ...)
    pub max_fault: u8,
    pub time_budget: Duration,
    /// maximum number of events in one execution before it is called "no progress"
    pub horizon: u64,
    /// reference counts of the entry pointer are scheduling points
    pub arc_points: bool,
    /// weak compare-exchange may fail spuriously (costs one fault)
    pub weak_cas: bool,
    /// pushes to the read-record queue commute (its order only feeds the recency policy)
    pub read_chan_commutes: bool,
    pub shard: (u32, u32),
    pub shard_depth: usize,
    pub max_visited: usize,
    /// every block allocated during an execution must be freed by its end
    pub leak_check: bool,
    /// check happens-before publication of epoch-protected objects
    pub race_check: bool,
    /// report known findings and go on
    pub known: fn(&str) -> Option<&'static str>,
    /// nanoseconds the clock advances on every harness operation
    pub op_tick: u64,
    /// one message in the write-record queue stands for this many: its capacity is reached
    /// after `384 / chan_weight` writes
    pub chan_weight: usize,
    /// the same for the channel of read records, which drops what does not fit
    pub read_weight: usize,
}

fn no_known(_: &str) -> Option<&'static str> {
    None
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_preempt: 2,
            direct: false,
            max_fault: 0,
            time_budget: Duration::from_secs(60),
            horizon: std::env::var("MC_HORIZON").ok().and_then(|s| s.parse().ok()).unwrap_or(400_000),
            arc_points: false,
            weak_cas: false,
            read_chan_commutes: true,
            shard: (0, 1),
            shard_depth: 0,
            max_visited: 24_000_000,
            leak_check: true,
            race_check: true,
            known: no_known,
            op_tick: 1_000,
            chan_weight: 1,
            read_weight: 1,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub path: Vec<u8>,
    pub bound: u8,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub executions: u64,
    pub completed: u64,
    pub pruned: u64,
    pub transitions: u64,
    pub states: u64,
    pub max_events: u64,
    pub max_choices: usize,
    pub outcomes: BTreeMap<u64, String>,
    pub outcome_total: u64,
    pub completed_bound: i32,
    pub capped: bool,
    pub violation: Option<Violation>,
    pub known: BTreeMap<String, u64>,
    pub wall: f64,
    pub error: Option<String>,
    pub faults_injected: u64,
    /// decision points created (nodes of the choice tree)
    pub nodes: u64,
}

#[derive(Clone, Copy)]
struct Choice {
    chosen: u8,
    n: u8,
    kind: u8, // 0 free sched, 1 preemptive sched, 2 data, 3 fault
}

#[derive(Clone, Copy)]
struct Cond {
    f: unsafe fn(*const ()) -> bool,
    p: *const (),
}

struct Thread {
    sp: usize,
    finished: bool,
    cond: Option<Cond>,
    ymark: Option<u64>,
    spins: u32,
    sleep_until: Option<Duration>,
    nev: u64,
    vc: VC,
    pend: VC,
    relf: VC,
    hash: u64,
    entry: Option<Box<dyn FnOnce()>>,
    nopre: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum End {
    Done,
    Pruned,
    Violation,
    Error,
}

#[derive(Clone, Copy)]
pub struct Obj {
    addr: usize,
    gen: u32,
    pub tid: u8,
    pub clk: u32,
    w: u64,
    r: u64,
    vc: VC,
}

pub struct Table {
    v: Vec<Obj>,
    mask: usize,
    n: usize,
}

impl Table {
    fn new(bits: u32) -> Table {
        let o = Obj { addr: 0, gen: 0, tid: 0, clk: 0, w: 0, r: 0, vc: [0; MAXT] };
        Table { v: vec![o; 1 << bits], mask: (1 << bits) - 1, n: 0 }
    }
    #[inline]
    fn get(&mut self, addr: usize, gen: u32) -> (&mut Obj, bool) {
        if self.n * 2 > self.v.len() {
            self.grow(gen);
        }
        let mut i = (addr >> 2).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
        loop {
            i &= self.mask;
            let o = unsafe { self.v.get_unchecked(i) };
            if o.gen != gen {
                self.n += 1;
                let o = unsafe { self.v.get_unchecked_mut(i) };
                *o = Obj { addr, gen, tid: 0, clk: 0, w: 0, r: 0, vc: [0; MAXT] };
                return (o, true);
            }
            if o.addr == addr {
                return (unsafe { self.v.get_unchecked_mut(i) }, false);
            }
            i += 1;
        }
    }
    fn find(&self, addr: usize, gen: u32) -> Option<&Obj> {
        let mut i = (addr >> 2).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
        loop {
            i &= self.mask;
            let o = &self.v[i];
            if o.gen != gen {
                return None;
            }
            if o.addr == addr {
                return Some(o);
            }
            i += 1;
        }
    }
    fn grow(&mut self, gen: u32) {
        sys(|| {
            let old = std::mem::take(&mut self.v);
            let nl = old.len() * 2;
            let e = Obj { addr: 0, gen: 0, tid: 0, clk: 0, w: 0, r: 0, vc: [0; MAXT] };
            self.v = vec![e; nl];
            self.mask = nl - 1;
            self.n = 0;
            for o in old {
                if o.gen == gen {
                    let d = self.get(o.addr, gen).0;
                    *d = o;
                }
            }
        })
    }
}

struct Visited {
    t: Vec<u64>,
    n: usize,
    max: usize,
}

impl Visited {
    fn new(max: usize) -> Self {
        Visited { t: vec![0; 1 << 12], n: 0, max }
    }
    /// true: already visited with at most `used` preemptions.
    fn check(&mut self, key: u64, used: u8) -> bool {
        let key = (key | 0x100) & !0xFF;
        let mask = self.t.len() - 1;
        let mut i = (key >> 12) as usize & mask;
        loop {
            let e = self.t[i];
            if e == 0 {
                break;
            }
            if e & !0xFF == key {
                if (e & 0xFF) as u8 <= used {
                    return true;
                }
                self.t[i] = key | used as u64;
                return false;
            }
            i = (i + 1) & mask;
        }
        if self.n >= self.max {
            return false;
        }
        self.t[i] = key | used as u64;
        self.n += 1;
        if self.n * 2 > self.t.len() {
            let old = std::mem::take(&mut self.t);
            self.t = vec![0; old.len() * 2];
            let mask = self.t.len() - 1;
            for e in old {
                if e != 0 {
                    let mut i = (e >> 12) as usize & mask;
                    while self.t[i] != 0 {
                        i = (i + 1) & mask;
                    }
                    self.t[i] = e;
                }
            }
        }
        false
    }
}

struct Engine {
    active: bool,
    verbose: bool,
    opts: Opts,
    bound: u8,
    th: Vec<Thread>,
    cur: usize,
    alive: usize,
    root_sp: usize,
    stacks: Vec<usize>,
    path: Vec<Choice>,
    pos: usize,
    /// replay mode: choices beyond the recorded ones take 0 and nothing is pruned
    replay: bool,
    preempts: u8,
    faults: u8,
    fp: u64,
    data_hash: u64,
    nev: u64,
    gen: u32,
    objs: Table,
    pubs: Table,
    visited: Visited,
    end: End,
    msg: Option<String>,
    last_panic: Option<String>,
    clock: Duration,
    op_index: u64,
    outcome: u64,
    outcome_txt: Option<String>,
    shm: *mut u8,
    uuid: u64,
    faults_injected: u64,
    nodes: u64,
    maxev: u64,
}

static mut ENG: Option<Box<Engine>> = None;

pub const SHM_LEN: usize = 1 << 20;

#[inline(always)]
fn e() -> &'static mut Engine {
    unsafe { ENG.as_mut().unwrap_unchecked() }
}

/// Object addresses for engine-level pseudo objects.
pub static CLOCK_OBJ: u8 = 0;
pub static PIN_OBJ: u64 = 0;
pub static UUID_OBJ: u32 = 0;

std::arch::global_asm!(
    ".global mcrt_switch",
    "mcrt_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
);
extern "C" {
    fn mcrt_switch(save: *mut usize, to: usize);
}

#[inline(always)]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 32)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h, s.len() as u64)
}

pub const CLOCK_ORIGIN: Duration = Duration::from_secs(10_000_000_000);

pub fn init(shm: Option<*mut u8>) {
    alloc::init();
    let dummy: *mut u8 = Box::leak(vec![0u8; SHM_LEN].into_boxed_slice()).as_mut_ptr();
    let mut stacks = Vec::new();
    for _ in 0..MAXT {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                STACK + 4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            ) as usize;
            libc::mprotect(p as *mut _, 4096, libc::PROT_NONE);
            stacks.push(p + 4096 + STACK);
        }
    }
    let eng = Engine {
        active: false,
        verbose: false,
        opts: Opts::default(),
        bound: 0,
        th: Vec::with_capacity(MAXT),
        cur: 0,
        alive: 0,
        root_sp: 0,
        stacks,
        path: Vec::with_capacity(1 << 16),
        pos: 0,
        replay: false,
        preempts: 0,
        faults: 0,
        fp: 0,
        data_hash: 0,
        nev: 0,
        gen: 0,
        objs: Table::new(12),
        pubs: Table::new(12),
        visited: Visited::new(0),
        end: End::Done,
        msg: None,
        last_panic: None,
        clock: CLOCK_ORIGIN,
        op_index: 0,
        outcome: 0,
        outcome_txt: None,
        shm: shm.unwrap_or(dummy),
        uuid: 0,
        faults_injected: 0,
        nodes: 0,
        maxev: 0,
    };
    unsafe {
        ENG = Some(Box::new(eng));
    }
    std::panic::set_hook(Box::new(|info| {
        sys(|| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".to_string()
            };
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                    format!("{}:{}", f, l.line())
                })
                .unwrap_or_default();
            let m = format!("{m} ({loc})");
            if unsafe { ENG.is_some() } {
                if e().verbose {
                    eprintln!("    panic: {m}");
                }
                if !e().active {
                    eprintln!("panic outside execution: {m}");
                }
                e().last_panic = Some(m);
            } else {
                eprintln!("panic: {m}");
            }
        })
    }));
    // Warm lazily allocated globals of std that could otherwise land in the arena.
    let _ = std::panic::catch_unwind(|| {
        if std::hint::black_box(true) {
            std::panic::resume_unwind(Box::new(1u8));
        }
    });
    let _ = std::thread::current();
    let _ = std::panic::catch_unwind(|| std::thread::panicking());
}

// ---------------------------------------------------------------------------------------------
// queries used by the shims

#[inline(always)]
pub fn active() -> bool {
    unsafe { ENG.is_some() && e().active }
}
#[inline(always)]
pub fn cur() -> usize {
    if unsafe { ENG.is_some() } {
        e().cur
    } else {
        0
    }
}
#[inline(always)]
fn multi() -> bool {
    active() && e().th.len() > 1
}
pub fn opts() -> &'static Opts {
    &e().opts
}
pub fn verbose() -> bool {
    e().verbose
}

// ---------------------------------------------------------------------------------------------
// events

#[inline]
fn bump(tid: usize, h: u64) {
    let en = e();
    let t = &mut en.th[tid];
    en.fp = en.fp.wrapping_sub(mix(tid as u64 + 1, t.hash)).wrapping_add(mix(tid as u64 + 1, h));
    t.hash = h;
    t.nev += 1;
    t.vc[tid] += 1;
    en.nev += 1;
}

#[inline]
fn horizon_check() {
    let en = e();
    if en.nev > en.maxev {
        fail_str("no progress: execution exceeded its horizon (livelock or unbounded spin)");
    }
}

#[inline]
fn join(a: &mut VC, b: &VC) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

#[inline(always)]
fn live_check(addr: usize) {
    if !alloc::is_live(addr) {
        fail_str("use after free: atomic or lock access to memory that was already freed");
    }
}

pub fn ev_read(addr: usize, acq: bool) {
    if !active() {
        return;
    }
    live_check(addr);
    if e().th.len() <= 1 {
        e().nev += 1;
        horizon_check();
        return;
    }
    let en = e();
    let c = en.cur;
    let gen = en.gen;
    let (o, _) = en.objs.get(addr, gen);
    let h = mix(mix(en.th[c].hash, o.w), 0x11);
    o.r = o.r.wrapping_add(h);
    let vc = o.vc;
    let t = &mut en.th[c];
    if acq {
        join(&mut t.vc, &vc);
    } else {
        join(&mut t.pend, &vc);
    }
    bump(c, h);
    horizon_check();
}

/// `rmw`: the operation read the previous value (release sequences continue).
pub fn ev_write(addr: usize, rmw: bool, acq: bool, rel: bool) {
    if !active() {
        return;
    }
    live_check(addr);
    if e().th.len() <= 1 {
        e().nev += 1;
        horizon_check();
        return;
    }
    let en = e();
    let c = en.cur;
    let gen = en.gen;
    let (o, _) = en.objs.get(addr, gen);
    let h = mix(mix(mix(en.th[c].hash, o.w), o.r), 0x22);
    o.w = h;
    o.r = 0;
    let t = &mut en.th[c];
    if rmw {
        if acq {
            join(&mut t.vc, &o.vc);
        } else {
            join(&mut t.pend, &o.vc);
        }
    }
    t.vc[c] += 1;
    if rel {
        if rmw {
            join(&mut o.vc, &t.vc);
        } else {
            o.vc = t.vc;
        }
    } else {
        if !rmw {
            o.vc = t.relf;
        } else {
            join(&mut o.vc, &t.relf);
        }
    }
    bump(c, h);
    horizon_check();
}

/// A write that commutes with other commuting writes of the same object (e.g. queue pushes whose
/// order is irrelevant), but not with plain writes.
pub fn ev_commuting_write(addr: usize) {
    ev_read(addr, false);
}

pub fn ev_fence(acq: bool, rel: bool) {
    if !multi() {
        return;
    }
    let en = e();
    let t = &mut en.th[en.cur];
    if acq {
        let p = t.pend;
        join(&mut t.vc, &p);
    }
    if rel {
        t.relf = t.vc;
    }
}

/// Fold a data value into the current thread's history.
pub fn ev_data(x: u64) {
    if !multi() {
        if active() {
            e().data_hash = mix(e().data_hash, x);
        }
        return;
    }
    let en = e();
    let c = en.cur;
    let h = mix(en.th[c].hash, x ^ 0x3333_0000_0000_0000);
    bump(c, h);
}

/// Record that the new object at `addr` is published by the current thread.
pub fn publish(addr: usize) {
    if !active() || !e().opts.race_check {
        return;
    }
    let en = e();
    let c = en.cur;
    let clk = if multi() { en.th[c].vc[c] } else { 0 };
    let gen = en.gen;
    let (o, _) = en.pubs.get(addr, gen);
    o.tid = c as u8;
    o.clk = clk;
}

/// Run `f` without the publication check; preemption inside keeps the check off only for the
/// current thread.
pub fn no_race_check(f: impl FnOnce()) {
    let c = cur();
    unsafe {
        let old = NO_RACE[c];
        NO_RACE[c] = true;
        f();
        NO_RACE[c] = old;
    }
}
static mut NO_RACE: [bool; MAXT] = [false; MAXT];

/// A dereference of an epoch-protected object: must be live and published before.
#[inline]
pub fn deref(addr: usize) {
    if !active() {
        return;
    }
    if !alloc::is_live(addr) {
        fail_str("use after free: dereference of a table pointer whose memory was already freed");
    }
    if !multi() || !e().opts.race_check {
        return;
    }
    let en = e();
    let c = en.cur;
    if unsafe { NO_RACE[c] } {
        return;
    }
    if let Some(o) = en.pubs.find(addr, en.gen) {
        if o.tid as usize != c && en.th[c].vc[o.tid as usize] < o.clk {
            fail_str("unpublished read: a table object is dereferenced without a happens-before edge from its creation");
        }
    }
}

// ---------------------------------------------------------------------------------------------
// failing

pub fn fail_str(m: &str) -> ! {
    if !active() {
        panic!("{}", m);
    }
    let en = e();
    sys(|| en.msg = Some(m.to_string()));
    en.end = End::Violation;
    leave();
}

pub fn fail(m: String) -> ! {
    fail_str(&m)
}

fn error(m: String) -> ! {
    let en = e();
    sys(|| en.msg = Some(m.clone()));
    en.end = End::Error;
    leave();
}

fn leave() -> ! {
    let en = e();
    let mut dummy = 0usize;
    unsafe {
        mcrt_switch(&mut dummy, en.root_sp);
    }
    unreachable!()
}

// ---------------------------------------------------------------------------------------------
// choices

fn shm_sync(en: &Engine) {
    // mirrors the chosen alternatives so that a crash can be replayed
    unsafe {
        let n = en.path.len().min(SHM_LEN - 8);
        *(en.shm as *mut u32) = n as u32;
    }
}

fn shm_put(en: &Engine, i: usize, c: u8) {
    unsafe {
        if i < SHM_LEN - 8 {
            *en.shm.add(8 + i) = c;
        }
    }
}

fn take(n: usize, kind: u8) -> usize {
    let en = e();
    debug_assert!(n >= 2 && n < 256);
    let i = en.pos;
    en.pos += 1;
    if i < en.path.len() {
        let c = en.path[i];
        if en.replay {
            // kinds are not recorded in a replay file
            en.path[i] = Choice { chosen: c.chosen, n: n as u8, kind };
            if c.chosen as usize >= n {
                error(format!("replay divergence at choice {i}: {} of {n}", c.chosen));
            }
        } else if c.n as usize != n || c.kind != kind {
            error(format!(
                "replay divergence at choice {i}: recorded {}/{} now {}/{}",
                c.n, c.kind, n, kind
            ));
        }
        return c.chosen as usize;
    }
    if en.opts.shard.1 > 1 && i == en.opts.shard_depth {
        let mut h = 0x5555u64;
        for c in &en.path[..i] {
            h = mix(h, c.chosen as u64);
        }
        if h % en.opts.shard.1 as u64 != en.opts.shard.0 as u64 && !en.replay {
            en.end = End::Pruned;
            leave();
        }
    }
    if !en.replay && kind < 2 && !std::thread::panicking() {
        let key = mix(mix(en.fp, en.data_hash), (en.cur as u64) << 8 | en.faults as u64) ^ (kind as u64) << 60;
        if sys(|| en.visited.check(key, en.preempts)) {
            en.end = End::Pruned;
            leave();
        }
    }
    en.nodes += 1;
    sys(|| en.path.push(Choice { chosen: 0, n: n as u8, kind }));
    shm_put(en, i, 0);
    shm_sync(en);
    0
}

/// Abandon the execution if an equivalent state was explored before (outside a decision point).
#[inline]
fn prune_check(tag: u64) {
    let en = e();
    if en.replay || en.pos < en.path.len() || en.visited.max == 0 || std::thread::panicking() {
        return;
    }
    let key = mix(mix(en.fp, en.data_hash), (en.cur as u64) << 8 | en.faults as u64) ^ tag << 56;
    if sys(|| en.visited.check(key, en.preempts)) {
        en.end = End::Pruned;
        leave();
    }
}

/// Cost-free nondeterministic choice by the harness or environment.
pub fn choose(n: usize) -> usize {
    assert!(n > 0 && n < 256);
    if n == 1 {
        return 0;
    }
    if !active() {
        panic!("choose outside an execution");
    }
    let c = take(n, 2);
    ev_data(c as u64 + 1);
    c
}

/// Choice whose non-zero alternatives cost one unit of the fault budget.
pub fn choose_fault(n: usize) -> usize {
    if n <= 1 || !active() {
        return 0;
    }
    let en = e();
    if en.faults >= en.opts.max_fault {
        return 0;
    }
    let c = take(n, 3);
    if c > 0 {
        en.faults += 1;
        en.faults_injected += 1;
        ev_data(c as u64 + 101);
    }
    c
}

// ---------------------------------------------------------------------------------------------
// scheduling

#[inline]
fn eligible(en: &Engine, i: usize) -> bool {
    let t = &en.th[i];
    if t.finished {
        return false;
    }
    if let Some(c) = t.cond {
        if !unsafe { (c.f)(c.p) } {
            return false;
        }
    }
    if let Some(m) = t.ymark {
        if en.nev - t.nev <= m {
            if let Some(d) = t.sleep_until {
                return en.clock >= d;
            }
            return false;
        }
    }
    true
}

fn schedule() {
    let en = e();
    let cur = en.cur;
    let mut list = [0u8; MAXT];
    let mut n = 0;
    let cur_ok = eligible(en, cur);
    if cur_ok {
        list[0] = cur as u8;
        n = 1;
    }
    // fast path: a running thread without budget continues
    if cur_ok && (en.preempts >= en.bound || en.th[cur].nopre > 0) {
        en.th[cur].cond = None;
        if en.fp & 7 == 0 {
            prune_check(2);
        }
        return;
    }
    if cur_ok && std::thread::panicking() {
        en.th[cur].cond = None;
        return;
    }
    let nt = en.th.len();
    for k in 1..nt {
        let i = (cur + k) % nt;
        if eligible(en, i) && (cur_ok || en.th[i].ymark.is_none()) {
            list[n] = i as u8;
            n += 1;
        }
    }
    // A thread that gave way or slept goes before a thread that is ready only at the price of a
    // preemption: two threads that poll may not keep a third one from running.
    let ready = n;
    if !cur_ok && (n == 0 || en.preempts < en.bound) {
        for k in 1..nt {
            let i = (cur + k) % nt;
            if en.th[i].ymark.is_some() && eligible(en, i) {
                list[n] = i as u8;
                n += 1;
            }
        }
    }
    if n == 0 {
        // yielders whose turn has not come, then sleepers
        for k in 0..nt {
            let i = (cur + k) % nt;
            let t = &en.th[i];
            if !t.finished && t.ymark.is_some() && t.sleep_until.is_none() {
                list[n] = i as u8;
                n += 1;
            }
        }
        if n == 0 {
            let mut best: Option<(Duration, usize)> = None;
            for i in 0..nt {
                let t = &en.th[i];
                if !t.finished {
                    if let Some(d) = t.sleep_until {
                        if best.map_or(true, |b| d < b.0) {
                            best = Some((d, i));
                        }
                    }
                }
            }
            if let Some((d, i)) = best {
                en.clock = en.clock.max(d);
                list[0] = i as u8;
                n = 1;
            }
        }
        if n == 0 {
            let blocked: Vec<usize> =
                sys(|| (0..nt).filter(|&i| !en.th[i].finished).collect());
            let m = sys(|| format!("deadlock: threads {blocked:?} are blocked forever"));
            fail_str(&m);
        }
    }
    let idx = if n == 1 {
        0
    } else {
        let kind = if cur_ok { 1 } else { 0 };
        let c = take(n, kind);
        if if kind == 1 { c > 0 } else { ready > 0 && c >= ready } {
            en.preempts += 1;
        }
        c
    };
    let next = list[idx] as usize;
    if n == 1 && next != cur {
        prune_check(3 + next as u64);
    }
    if en.verbose && next != cur {
        eprintln!("  [{}] switch T{cur} -> T{next}{}", en.nev, if cur_ok { " (preempt)" } else { "" });
        if cur_ok && std::env::var_os("MC_BT").is_some() {
            sys(|| eprintln!("{}", std::backtrace::Backtrace::force_capture()));
        }
    }
    switch_to(next);
}

fn switch_to(next: usize) {
    let en = e();
    let cur = en.cur;
    en.th[next].cond = None;
    en.th[next].ymark = None;
    en.th[next].sleep_until = None;
    if next == cur {
        return;
    }
    en.cur = next;
    let to = en.th[next].sp;
    unsafe {
        mcrt_switch(&mut en.th[cur].sp, to);
    }
}

/// Scheduling point before a visible operation.
#[inline]
pub fn point() {
    if !active() {
        return;
    }
    if let Some(m) = alloc::take_fault() {
        fail_str(m);
    }
    if e().alive <= 1 {
        return;
    }
    schedule();
}

unsafe fn call_cond<F: Fn() -> bool>(p: *const ()) -> bool {
    (*(p as *const F))()
}

/// Wait until `f` holds. Acts as a scheduling point. When it returns, `f` holds.
pub fn block_until<F: Fn() -> bool>(f: F) {
    if !active() {
        if f() {
            return;
        }
        panic!("mcrt: would block forever (single-threaded)");
    }
    let en = e();
    if en.alive <= 1 {
        if f() {
            return;
        }
        fail_str("deadlock: the only remaining thread waits for something nobody will do");
    }
    let c = en.cur;
    en.th[c].cond = Some(Cond { f: call_cond::<F>, p: &f as *const F as *const () });
    schedule();
    en.th[c].cond = None;
}

/// A spin hint: gives way once in 64 calls of a thread, enough for a thread that only spins.
pub fn spin() {
    if !active() {
        return;
    }
    let en = e();
    let c = en.cur;
    en.th[c].spins += 1;
    if en.th[c].spins % 64 == 0 {
        yield_now();
    }
}

/// Give way until some other thread makes a step.
pub fn yield_now() {
    if !active() {
        return;
    }
    let en = e();
    en.nev += 1;
    horizon_check();
    if en.alive <= 1 {
        return;
    }
    let c = en.cur;
    en.th[c].nev += 1;
    en.th[c].ymark = Some(en.nev - en.th[c].nev);
    schedule();
}

pub fn sleep(d: Duration) {
    if !active() {
        if unsafe { ENG.is_some() } {
            e().clock += d;
        }
        return;
    }
    let en = e();
    en.nev += 1;
    horizon_check();
    let dl = en.clock + d;
    if en.alive > 1 {
        let c = en.cur;
        en.th[c].nev += 1;
        en.th[c].ymark = Some(en.nev - en.th[c].nev);
        en.th[c].sleep_until = Some(dl);
        schedule();
    }
    if en.clock < dl {
        en.clock = dl;
    }
    ev_write(&CLOCK_OBJ as *const u8 as usize, true, false, false);
}

extern "C" fn thread_main() -> ! {
    {
        let f = e().th[e().cur].entry.take().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        if let Err(p) = r {
            std::mem::forget(p);
            let en = e();
            let m = sys(|| format!("T{} panicked: {}", en.cur, en.last_panic.clone().unwrap_or_default()));
            fail_str(&m);
        }
        if let Some(m) = alloc::take_fault() {
            fail_str(m);
        }
    }
    let en = e();
    let c = en.cur;
    en.th[c].finished = true;
    en.alive -= 1;
    if c == 0 {
        en.end = End::Done;
        leave();
    }
    // completion is a release on the thread's own pseudo object, joined by `join`
    schedule();
    unreachable!()
}

fn new_thread(f: Box<dyn FnOnce()>) -> usize {
    let en = e();
    let id = en.th.len();
    if id >= MAXT {
        error("too many threads".into());
    }
    let top = en.stacks[id];
    unsafe {
        // layout: r15 r14 r13 r12 rbx rbp ret ; rsp%16==8 on entry of thread_main
        let sp = top - 24 - 7 * 8;
        let p = sp as *mut usize;
        for i in 0..6 {
            *p.add(i) = 0;
        }
        *p.add(6) = thread_main as *const () as usize;
        *p.add(7) = 0;
        *p.add(8) = 0;
        let parent = if id == 0 { [0; MAXT] } else { en.th[en.cur].vc };
        let ph = if id == 0 { 0 } else { en.th[en.cur].hash };
        let mut vc = parent;
        vc[id] = 1;
        let h = mix(ph, 0x7777 + id as u64);
        let t = Thread {
            sp,
            finished: false,
            cond: None,
            ymark: None,
            spins: 0,
            sleep_until: None,
            nev: 0,
            vc,
            pend: [0; MAXT],
            relf: [0; MAXT],
            hash: h,
            entry: Some(f),
            nopre: 0,
        };
        sys(|| en.th.push(t));
        en.fp = en.fp.wrapping_add(mix(id as u64 + 1, h));
        en.alive += 1;
        if id > 0 {
            // the parent's later events do not happen before the child
            let c = en.cur;
            en.th[c].vc[c] += 1;
        }
    }
    id
}

/// Start a model thread. It is not run before the current thread reaches a scheduling point.
pub fn spawn(f: impl FnOnce() + 'static) -> usize {
    if !active() {
        panic!("spawn outside an execution");
    }
    new_thread(Box::new(f))
}

pub fn is_finished(tid: usize) -> bool {
    e().th[tid].finished
}

pub fn join_thread(tid: usize) {
    block_until(|| e().th[tid].finished);
    let en = e();
    let v = en.th[tid].vc;
    let h = en.th[tid].hash;
    let c = en.cur;
    join(&mut en.th[c].vc, &v);
    let h = mix(en.th[c].hash, h);
    bump(c, h);
}

/// Run a closure during which the current thread is not preempted.
pub fn no_preempt<R>(f: impl FnOnce() -> R) -> R {
    if !active() {
        return f();
    }
    let c = e().cur;
    e().th[c].nopre += 1;
    let r = f();
    e().th[c].nopre -= 1;
    r
}

/// Run all closures concurrently and wait for all of them.
pub fn par(fs: Vec<Box<dyn FnOnce()>>) {
    let c = e().cur;
    e().th[c].nopre += 1;
    let mut ids = [0usize; MAXT];
    let mut n = 0;
    for f in fs {
        ids[n] = new_thread(f);
        n += 1;
    }
    e().th[c].nopre -= 1;
    block_until(|| ids[..n].iter().all(|&t| e().th[t].finished));
    for &t in &ids[..n] {
        join_thread(t);
    }
}

// ---------------------------------------------------------------------------------------------
// clock, history, ids

pub fn now() -> Duration {
    if !unsafe { ENG.is_some() } {
        return CLOCK_ORIGIN;
    }
    ev_read(&CLOCK_OBJ as *const u8 as usize, false);
    e().clock
}

/// Clock value without an event.
pub fn peek_now() -> Duration {
    e().clock
}

pub fn advance(d: Duration) {
    point();
    e().clock += d;
    ev_write(&CLOCK_OBJ as *const u8 as usize, true, false, false);
}

/// Beginning of a harness operation: the clock ticks; returns a position in the global order.
pub fn op_begin() -> u64 {
    point();
    let en = e();
    en.clock += Duration::from_nanos(en.opts.op_tick);
    en.op_index += 1;
    let i = en.op_index;
    ev_write(&CLOCK_OBJ as *const u8 as usize, true, false, false);
    i
}

pub fn op_end() -> u64 {
    let en = e();
    en.op_index += 1;
    let i = en.op_index;
    ev_read(&CLOCK_OBJ as *const u8 as usize, false);
    i
}

pub fn next_uuid() -> u64 {
    if !unsafe { ENG.is_some() } {
        return 0;
    }
    point();
    ev_write(&UUID_OBJ as *const u32 as usize, true, false, false);
    let en = e();
    en.uuid += 1;
    en.uuid
}

/// Describe the observable result of this execution (for outcome statistics).
pub fn outcome(s: impl FnOnce() -> String) {
    sys(|| {
        let s = s();
        let en = e();
        en.outcome = mix(en.outcome, hash_str(&s));
        en.outcome_txt = Some(match en.outcome_txt.take() {
            None => s,
            Some(o) => format!("{o}; {s}"),
        });
    })
}

/// Note shown when a violation is replayed.
pub fn log(s: impl FnOnce() -> String) {
    if active() && e().verbose {
        sys(|| {
            let s = s();
            eprintln!("  [{}] T{} {}", e().nev, e().cur, s);
        })
    }
}

// ---------------------------------------------------------------------------------------------
// exploration

fn run_once(h: &(dyn Fn() + 'static)) {
    alloc::reset();
    crate::epoch::reset();
    unsafe { NO_RACE = [false; MAXT] };
    let en = e();
    for mut t in en.th.drain(..) {
        std::mem::forget(t.entry.take());
    }
    en.cur = 0;
    en.alive = 0;
    en.pos = 0;
    en.preempts = 0;
    en.faults = 0;
    en.fp = 0;
    en.data_hash = 0;
    en.nev = 0;
    en.gen = en.gen.wrapping_add(1);
    if en.gen == 0 {
        en.gen = 1;
        en.objs = Table::new(12);
        en.pubs = Table::new(12);
    }
    en.objs.n = 0;
    en.pubs.n = 0;
    en.end = End::Done;
    en.msg = None;
    en.last_panic = None;
    en.clock = CLOCK_ORIGIN;
    en.op_index = 0;
    en.outcome = 0;
    en.outcome_txt = None;
    en.uuid = 0;
    en.maxev = en.opts.horizon;
    let hp: &'static (dyn Fn() + 'static) = unsafe { std::mem::transmute(h) };
    let id = new_thread(Box::new(move || hp()));
    debug_assert_eq!(id, 0);
    en.active = true;
    unsafe {
        alloc::IN_EXEC = true;
        let to = en.th[0].sp;
        mcrt_switch(&mut en.root_sp, to);
        alloc::IN_EXEC = false;
    }
    en.active = false;
    if en.end == End::Done {
        if let Some(m) = alloc::take_fault() {
            en.end = End::Violation;
            en.msg = Some(m.to_string());
        } else if crate::epoch::pending() != 0 {
            en.end = End::Violation;
            en.msg = Some("leak: deferred destructions never ran although no guard is held".into());
        } else if en.opts.leak_check {
            let (n, b) = alloc::live();
            if n != 0 {
                en.end = End::Violation;
                en.msg = Some(format!("leak: {n} blocks ({b} bytes) still allocated at the end"));
            }
        }
    }
}

pub fn explore(opts: &Opts, h: &(dyn Fn() + 'static)) -> Report {
    let t0 = RealInstant::now();
    let mut rep = Report { completed_bound: -1, ..Default::default() };
    e().opts = opts.clone();
    e().replay = false;
    e().verbose = false;
    e().faults_injected = 0;
    e().nodes = 0;
    let mut seen: HashMap<u64, ()> = HashMap::new();
    // determinism self-check: the default execution twice
    let mut sig = None;
    for _ in 0..2 {
        e().path.clear();
        e().visited = Visited::new(0);
        e().bound = opts.max_preempt;
        let shard = e().opts.shard;
        e().opts.shard = (0, 1);
        run_once(h);
        e().opts.shard = shard;
        let s = (e().fp, e().nev, e().path.len(), e().outcome, e().end as u8, e().data_hash);
        if let Some(p) = sig {
            if p != s {
                rep.error = Some(format!("harness is not deterministic: {p:?} vs {s:?}"));
                return rep;
            }
        }
        sig = Some(s);
    }
    let first = if opts.direct { opts.max_preempt } else { 0 };
    'bounds: for bound in first..=opts.max_preempt {
        e().bound = bound;
        e().path.clear();
        e().visited = Visited::new(opts.max_visited);
        loop {
            run_once(h);
            let en = e();
            rep.executions += 1;
            rep.transitions += en.nev;
            rep.max_events = rep.max_events.max(en.nev);
            rep.max_choices = rep.max_choices.max(en.path.len());
            match en.end {
                End::Pruned => rep.pruned += 1,
                End::Done => {
                    rep.completed += 1;
                    rep.outcome_total += 1;
                    let o = en.outcome;
                    if seen.len() < 2_000_000 && seen.insert(o, ()).is_none() && rep.outcomes.len() < 12 {
                        rep.outcomes.insert(o, en.outcome_txt.clone().unwrap_or_default());
                    }
                }
                End::Error => {
                    rep.error = en.msg.take();
                    break 'bounds;
                }
                End::Violation => {
                    let m = en.msg.take().unwrap_or_default();
                    if let Some(k) = (opts.known)(&m) {
                        *rep.known.entry(k.to_string()).or_insert(0) += 1;
                    } else {
                        let path: Vec<u8> = en.path.iter().map(|c| c.chosen).collect();
                        // must reproduce
                        let saved = en.path.clone();
                        en.visited = Visited::new(0);
                        let shard = en.opts.shard;
                        en.opts.shard = (0, 1);
                        run_once(h);
                        en.opts.shard = shard;
                        en.path = saved;
                        if en.end != End::Violation || en.msg.as_deref() != Some(&m) {
                            rep.error = Some(format!("violation did not reproduce: {m} / {:?}", en.msg));
                        } else {
                            rep.violation = Some(Violation { msg: m, path, bound });
                        }
                        break 'bounds;
                    }
                }
            }
            // backtrack
            loop {
                let i = en.path.len();
                match en.path.last_mut() {
                    None => break,
                    Some(c) if c.chosen + 1 < c.n => {
                        c.chosen += 1;
                        let ch = c.chosen;
                        shm_put(en, i - 1, ch);
                        break;
                    }
                    Some(_) => {
                        en.path.pop();
                    }
                }
            }
            shm_sync(en);
            if en.path.is_empty() {
                break;
            }
            if rep.executions % 64 == 0 && t0.elapsed() > opts.time_budget {
                rep.capped = true;
                rep.states += en.visited.n as u64;
                break 'bounds;
            }
        }
        rep.completed_bound = bound as i32;
        rep.states += e().visited.n as u64;
    }
    rep.outcome_total = seen.len() as u64;
    rep.faults_injected = e().faults_injected;
    rep.nodes = e().nodes;
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

/// Re-run one recorded choice sequence. Returns the violation message, if any.
pub fn replay(opts: &Opts, bound: u8, path: &[u8], verbose: bool, h: &(dyn Fn() + 'static)) -> Result<Option<String>, String> {
    e().opts = opts.clone();
    e().opts.shard = (0, 1);
    e().replay = true;
    e().verbose = verbose;
    e().bound = bound;
    e().visited = Visited::new(0);
    e().path = path.iter().map(|&c| Choice { chosen: c, n: 0, kind: 9 }).collect();
    shm_sync(e());
    run_once(h);
    e().replay = false;
    e().verbose = false;
    match e().end {
        End::Violation => Ok(e().msg.take()),
        End::Error => Err(e().msg.take().unwrap_or_default()),
        _ => Ok(None),
    }
}
