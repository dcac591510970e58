//! Uniform driver over the three cache flavours: builds a cache from a `Cfg`, executes an `Op`
//! on it, and records everything observable (results, callback calls, listener calls).
use mcrt::rt::{self, op_begin, op_end};
use moka::future::Cache as FCache;
use moka::notification::RemovalCause;
use moka::ops::compute::{CompResult, Op as MOp};
use moka::policy::EvictionPolicy;
use moka::sync::{Cache as SCache, SegmentedCache};
use moka::{Entry, Expiry};
use std::cell::UnsafeCell;
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::time::Duration;

/// Time unit of all harnesses: the resolution at which moka stores per-entry deadlines.
pub const U: u64 = 4096;
pub fn us(n: u64) -> Duration {
    Duration::from_nanos(n * U)
}
/// Current model time in units since the start of the execution.
pub fn now_u() -> u64 {
    let d = rt::peek_now() - rt::CLOCK_ORIGIN;
    (d.as_nanos() / U as u128) as u64
}
pub fn to_u(d: Duration) -> u64 {
    (d.as_nanos() / U as u128) as u64
}
/// Durations of decades are all the same.
pub const FAR: u64 = 1 << 49;
pub fn nf(n: u64) -> u64 {
    if n >= FAR / 2 {
        FAR
    } else {
        n
    }
}
fn to_uf(d: Duration) -> u64 {
    nf((d.as_nanos() / U as u128).min(FAR as u128) as u64)
}

pub type K = u32;
#[derive(Debug)]
pub struct VI {
    pub id: u32,
    pub w: u32,
    pub magic: u32,
}
impl Drop for VI {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            rt::fail_str("value dropped twice or corrupted");
        }
        self.magic = 0xdead;
    }
}
const MAGIC: u32 = 0x51AB_1E5A;
#[derive(Clone, Debug)]
pub struct V(pub Arc<VI>);
impl V {
    pub fn new(id: u32, w: u32) -> V {
        V(Arc::new(VI { id, w, magic: MAGIC }))
    }
    pub fn id(&self) -> u32 {
        if self.0.magic != MAGIC {
            rt::fail_str("use after free: a returned value was already destroyed");
        }
        self.0.id
    }
}
impl Default for V {
    fn default() -> V {
        let (id, w) = cur_rec().map_or((0, 1), |r| (g().recs[r].op.id, g().recs[r].op.w));
        g().default_called += 1;
        V::new(id, w)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HM {
    Mix,
    /// all keys have the same hash
    Same,
    /// same bucket area, different hash
    Near,
    /// high bits spread over hash-table segments / cache segments in order of the key
    Spread,
}
#[derive(Clone)]
pub struct Hs(pub HM);
pub struct H(u64, HM);
impl BuildHasher for Hs {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(0, self.0)
    }
}
impl Hasher for H {
    fn finish(&self) -> u64 {
        match self.1 {
            HM::Mix => rt::mix(self.0, 0x1234_5678),
            HM::Same => 0x0123_4567_89AB_CDEF,
            HM::Near => 0x0123_4567_89AB_0000 + self.0,
            HM::Spread => (self.0.reverse_bits()) ^ self.0,
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0 << 8 | *x as u64;
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = x as u64;
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flav {
    S,
    G(usize),
    F,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lis {
    No,
    Log,
    /// takes several scheduling steps (async: pends)
    Slow(usize),
    /// gives way to the other threads
    Yield,
    /// every call whose index has its bit set panics
    Panic(u32),
    /// calls back into the cache for another key
    Re,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans {
    /// unchanged (create: none)
    Same,
    No,
    In(u64),
    /// the longest duration there is
    Far,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct ExpScript {
    pub create: &'static [Ans],
    pub update: &'static [Ans],
    pub read: &'static [Ans],
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub flav: Flav,
    pub cap: Option<u64>,
    pub weigher: bool,
    pub lru: bool,
    /// set the default policy explicitly
    pub lfu: bool,
    /// segmented: built from an ordinary builder by `segments`
    pub via_segments: bool,
    pub ttl: Option<u64>,
    pub tti: Option<u64>,
    pub exp: Option<ExpScript>,
    pub lis: Lis,
    pub closures: bool,
    pub init_cap: Option<usize>,
    pub hm: HM,
    pub named: bool,
}
impl Cfg {
    pub fn new(flav: Flav) -> Cfg {
        Cfg {
            flav,
            cap: None,
            weigher: false,
            lru: false,
            lfu: false,
            via_segments: false,
            ttl: None,
            tti: None,
            exp: None,
            lis: Lis::No,
            closures: false,
            init_cap: Some(64),
            hm: HM::Mix,
            named: false,
        }
    }
    pub fn cap(mut self, c: u64) -> Cfg {
        self.cap = Some(c);
        self
    }
    /// capacity times n
    pub fn capx(mut self, n: u64) -> Cfg {
        self.cap = self.cap.map(|c| c * n);
        self
    }
    pub fn weigher(mut self) -> Cfg {
        self.weigher = true;
        self
    }
    pub fn lru(mut self) -> Cfg {
        self.lru = true;
        self
    }
    pub fn ttl(mut self, c: u64) -> Cfg {
        self.ttl = Some(c);
        self
    }
    pub fn tti(mut self, c: u64) -> Cfg {
        self.tti = Some(c);
        self
    }
    pub fn lis(mut self, l: Lis) -> Cfg {
        self.lis = l;
        self
    }
    pub fn exp(mut self, e: ExpScript) -> Cfg {
        self.exp = Some(e);
        self
    }
    pub fn closures(mut self) -> Cfg {
        self.closures = true;
        self
    }
    pub fn hm(mut self, h: HM) -> Cfg {
        self.hm = h;
        self
    }
    pub fn flav(mut self, f: Flav) -> Cfg {
        self.flav = f;
        self
    }
    pub fn init_cap(mut self, n: usize) -> Cfg {
        self.init_cap = Some(n);
        self
    }
}

#[derive(Clone)]
pub enum C {
    S(SCache<K, V, Hs>),
    G(SegmentedCache<K, V, Hs>),
    F(FCache<K, V, Hs>),
}

/// Single-threaded interior mutability; the engine runs one thread at a time.
pub struct Sh<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Sh<T> {}
unsafe impl<T> Send for Sh<T> {}
impl<T> Sh<T> {
    pub const fn new(t: T) -> Self {
        Sh(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn g(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Notif {
    pub k: u32,
    pub id: u32,
    pub cause: RemovalCause,
    pub b: u64,
    pub e: u64,
    pub t: u64,
    /// harness operation (rec index) in progress on the calling thread
    pub by: Option<usize>,
    pub panicked: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CbK {
    Create,
    Update,
    Read,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Cb {
    pub kind: CbK,
    pub k: u32,
    pub id: u32,
    pub at: u64,
    pub dur: Option<u64>,
    pub lm: Option<u64>,
    pub ans: Option<u64>,
    pub by: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub op: Op,
    pub tid: usize,
    pub start: u64,
    pub end: u64,
    pub t0: u64,
    pub t1: u64,
    pub res: Res,
    /// (begin, end) of every run of the initializer or compute closure; end==0: did not finish
    pub runs: Vec<(u64, u64)>,
    /// stamp at which the closure future returned pending; 0: it is not pending
    pub parked: u64,
    /// value passed to the compute closure
    pub seen: Option<Option<u32>>,
    /// entry passed to the compute closure
    pub seen_e: Option<(u32, u32, bool, bool)>,
    /// values shown to the replace condition
    pub conds: Vec<u32>,
    pub done: bool,
}
pub struct G {
    pub recs: Vec<Rec>,
    pub cur: [Option<usize>; rt::MAXT],
    pub notif: [Vec<Notif>; 2],
    pub cbs: [Vec<Cb>; 2],
    pub weighed: [Vec<(u32, u32)>; 2],
    pub default_called: u32,
    pub lis_calls: u32,
    pub lis_active: Vec<u32>,
    pub lis_stack: Vec<(usize, usize)>,
    pub memo: Vec<((usize, CbK, u32), usize)>,
    pub preds: Vec<(u32, u32)>,
    pub re_cache: Option<*const C>,
    pub seq: u64,
    pub active_fn: Vec<u32>,
    /// (key, operation that was delivering the earlier one)
    pub overlap: Vec<(u32, Option<usize>)>,
    pub async_lis_yield: usize,
    pub frozen: bool,
    /// two caches run the same operations: callback answers are shared per operation id
    pub lockstep: bool,
}
static STATE: Sh<G> = Sh::new(G {
    recs: Vec::new(),
    cur: [None; rt::MAXT],
    notif: [Vec::new(), Vec::new()],
    cbs: [Vec::new(), Vec::new()],
    weighed: [Vec::new(), Vec::new()],
    default_called: 0,
    lis_calls: 0,
    lis_active: Vec::new(),
    lis_stack: Vec::new(),
    memo: Vec::new(),
    preds: Vec::new(),
    re_cache: None,
    seq: 0,
    active_fn: Vec::new(),
    overlap: Vec::new(),
    async_lis_yield: 0,
    frozen: false,
    lockstep: false,
});
pub fn g() -> &'static mut G {
    STATE.g()
}
pub fn sys<R>(f: impl FnOnce() -> R) -> R {
    mcrt::alloc::sys(f)
}
/// Clear all recorded state; must be the first thing an execution does.
pub fn begin() {
    sys(|| {
        let s = g();
        s.recs.clear();
        s.cur = [None; rt::MAXT];
        for i in 0..2 {
            s.notif[i].clear();
            s.cbs[i].clear();
            s.weighed[i].clear();
        }
        s.default_called = 0;
        s.lis_calls = 0;
        s.lis_active.clear();
        s.lis_stack.clear();
        s.memo.clear();
        s.preds.clear();
        s.re_cache = None;
        s.seq = 0;
        s.active_fn.clear();
        s.overlap.clear();
        s.frozen = false;
        s.lockstep = false;
    })
}
pub fn stamp() -> u64 {
    // shares the numbering of op_begin/op_end
    op_end()
}

/// The weigher panics when it meets a value of this weight.
pub const BAD_W: u32 = 77;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    Get,
    Has,
    Ins,
    Rem,
    Inv,
    InvAll,
    InvIf,
    Iter,
    Pend,
    Adv,
    GetWith,
    GetWithIf,
    OptGetWith,
    TryGetWith,
    OrDefault,
    OrInsert,
    OrInsertWith,
    OrInsertWithIf,
    OrOpt,
    OrTry,
    Upsert,
    Compute,
    TryCompute,
    /// future only: and_try_compute_if_nobody_else
    TryComputeNE,
    /// future only: try_get_with::<_, ()>
    TryGetUnit,
    Counts,
    Nop,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Put,
    Rem,
    Nop,
    Err,
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pr {
    All,
    No,
    Key(u32),
    /// value id less than
    Lt(u32),
    Heavy,
    /// matches values whose id is even
    Even,
}
impl Pr {
    pub fn eval(self, k: u32, id: u32, w: u32) -> bool {
        match self {
            Pr::All => true,
            Pr::No => false,
            Pr::Key(x) => k == x,
            Pr::Lt(x) => id < x,
            Pr::Heavy => w > 1,
            Pr::Even => id % 2 == 0,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub f: F,
    pub k: u32,
    pub w: u32,
    pub id: u32,
    pub by_ref: bool,
    pub act: Act,
    pub cond: bool,
    pub pr: Pr,
    /// scheduling steps (async: polls that pend) inside closures
    pub y: usize,
    /// clock advance for Adv
    pub d: u64,
    /// the condition of a conditional load panics at this call (1: the first)
    pub cp: u8,
    /// the closure calls the cache: other keys of its own, reads of every key
    pub re: bool,
}
pub fn op(f: F, k: u32) -> Op {
    Op { f, k, w: 1, id: 0, by_ref: false, act: Act::Put, cond: false, pr: Pr::All, y: 0, d: 0, cp: 0, re: false }
}
impl Op {
    pub fn w(mut self, w: u32) -> Op {
        self.w = w;
        self
    }
    pub fn id(mut self, id: u32) -> Op {
        self.id = id;
        self
    }
    pub fn r(mut self) -> Op {
        self.by_ref = true;
        self
    }
    pub fn act(mut self, a: Act) -> Op {
        self.act = a;
        self
    }
    pub fn cond(mut self, c: bool) -> Op {
        self.cond = c;
        self
    }
    pub fn pr(mut self, p: Pr) -> Op {
        self.pr = p;
        self
    }
    pub fn y(mut self, y: usize) -> Op {
        self.y = y;
        self
    }
    pub fn d(mut self, d: u64) -> Op {
        self.d = d;
        self
    }
    pub fn re(mut self) -> Op {
        self.re = true;
        self
    }
    pub fn cp(mut self, n: u8) -> Op {
        self.cp = n;
        self
    }
    /// the weigher panics on this value
    pub fn bad_weight(&self, cfg: &Cfg) -> bool {
        cfg.weigher && self.w == BAD_W
    }
    pub fn is_load(&self) -> bool {
        matches!(
            self.f,
            F::GetWith
                | F::GetWithIf
                | F::OptGetWith
                | F::TryGetWith
                | F::TryGetUnit
                | F::OrDefault
                | F::OrInsert
                | F::OrInsertWith
                | F::OrInsertWithIf
                | F::OrOpt
                | F::OrTry
        )
    }
    pub fn is_compute(&self) -> bool {
        matches!(self.f, F::Upsert | F::Compute | F::TryCompute | F::TryComputeNE)
    }
}
pub fn adv(d: u64) -> Op {
    op(F::Adv, 0).d(d)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct En {
    pub k: u32,
    pub id: u32,
    pub fresh: bool,
    pub repl: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CK {
    StillNone,
    Unchanged,
    Inserted,
    Replaced,
    Removed,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unit,
    B(bool),
    V(Option<u32>),
    /// entry returned by an entry selector
    E(En),
    OptE(Option<En>),
    Comp(CK, Option<En>),
    Err(u32),
    L(Vec<(u32, u32)>),
    N(u64, u64),
    Panic,
    Cancelled,
    PredErr,
    Running,
}

pub fn en(e: &Entry<K, V>) -> En {
    En { k: *e.key(), id: e.value().id(), fresh: e.is_fresh(), repl: e.is_old_value_replaced() }
}
fn ov(v: Option<V>) -> Res {
    Res::V(v.map(|v| v.id()))
}

// ---------------------------------------------------------------------------------- building

fn tid() -> usize {
    rt::cur()
}
pub fn cur_rec() -> Option<usize> {
    g().cur[tid()]
}

static STEP: u64 = 0;
/// A key with two overlapping notifications. What an abandoned (cancelled) operation had begun to
/// deliver is finished later, without the key lock, and is not counted.
pub fn overlapped() -> Option<u32> {
    g().overlap.iter().find(|(_, by)| !by.is_some_and(|r| g().recs[r].res == Res::Cancelled)).map(|x| x.0)
}
/// one schedulable step without any other effect
pub fn step() {
    rt::point();
    rt::ev_write(&STEP as *const u64 as usize, true, false, false);
}
/// the closure gives way to the other threads
pub const GIVE: usize = 100;
fn steps(n: usize) {
    if n == GIVE {
        return rt::yield_now();
    }
    for _ in 0..n {
        step();
    }
}

fn lis_enter(inst: usize, k: u32, id: u32, cause: RemovalCause) -> (usize, bool) {
    let b = stamp();
    let s = g();
    let pmask = s.lis_calls;
    s.lis_calls += 1;
    let by = cur_rec();
    rt::log(|| format!("listener({k}, v{id}, {cause:?})"));
    if cause.was_evicted() != matches!(cause, RemovalCause::Expired | RemovalCause::Size) {
        rt::fail("C13: was_evicted is wrong".into());
    }
    sys(|| {
        if s.lis_active.contains(&k) {
            let prev = s.notif[inst].iter().filter(|n| n.k == k && n.e == 0).map(|n| n.by).collect::<Vec<_>>();
            s.overlap.extend(prev.into_iter().map(|by| (k, by)));
        }
        s.lis_active.push(k);
        s.notif[inst].push(Notif { k, id, cause, b, e: 0, t: now_u(), by, panicked: false });
    });
    let _ = pmask;
    (s.notif[inst].len() - 1, false)
}
fn lis_exit(inst: usize, i: usize) {
    let e = stamp();
    let s = g();
    let k = s.notif[inst][i].k;
    s.notif[inst][i].e = e;
    if let Some(p) = s.lis_active.iter().rposition(|&x| x == k) {
        s.lis_active.remove(p);
    }
}

fn listener(inst: usize, lis: Lis) -> impl Fn(Arc<K>, V, RemovalCause) + Send + Sync + 'static {
    move |k: Arc<K>, v: V, c: RemovalCause| {
        let n = g().lis_calls;
        let (i, _) = lis_enter(inst, *k, v.id(), c);
        match lis {
            Lis::Slow(n) => steps(n),
            Lis::Yield => rt::yield_now(),
            Lis::Panic(m) => {
                if n < 32 && m >> n & 1 == 1 {
                    g().notif[inst][i].panicked = true;
                    lis_exit(inst, i);
                    // neither message nor payload must be allocated lazily by the runtime
                    panic!("listener panics");
                }
            }
            Lis::Re => reenter(*k),
            _ => {}
        }
        lis_exit(inst, i);
    }
}

fn reenter(k: u32) {
    if let Some(c) = g().re_cache {
        let c = unsafe { &*c };
        let other = k ^ 1;
        if other >= 100 {
            return;
        }
        match c {
            C::S(c) => {
                let _ = c.get(&other);
                let _ = c.contains_key(&k);
                let _ = c.get(&k);
                c.insert(100 + k, V::new(9000 + g().lis_calls, 1));
            }
            C::G(c) => {
                let _ = c.get(&other);
                let _ = c.contains_key(&k);
                let _ = c.get(&k);
                c.insert(100 + k, V::new(9000 + g().lis_calls, 1));
            }
            C::F(_) => {}
        }
    }
}

fn alistener(
    inst: usize,
    lis: Lis,
) -> impl Fn(Arc<K>, V, RemovalCause) -> moka::notification::ListenerFuture + Send + Sync + 'static {
    move |k: Arc<K>, v: V, c: RemovalCause| {
        let n = g().lis_calls;
        Box::pin(async move {
            let (i, _) = lis_enter(inst, *k, v.id(), c);
            // dropped while pending: the notification was cut short
            struct Cut(usize, usize);
            impl Drop for Cut {
                fn drop(&mut self) {
                    let s = g();
                    if s.notif[self.0][self.1].e == 0 {
                        let k = s.notif[self.0][self.1].k;
                        if let Some(p) = s.lis_active.iter().rposition(|&x| x == k) {
                            s.lis_active.remove(p);
                        }
                    }
                }
            }
            let _cut = Cut(inst, i);
            match lis {
                Lis::Slow(n) => mcrt::fut::YieldFuture(n).await,
                Lis::Yield => mcrt::fut::YieldFuture(1).await,
                Lis::Panic(m) => {
                    if n < 32 && m >> n & 1 == 1 {
                        g().notif[inst][i].panicked = true;
                        lis_exit(inst, i);
                        panic!("listener panics");
                    }
                }
                Lis::Re => {
                    if let Some(c) = g().re_cache {
                        let c = unsafe { &*c };
                        let other = *k ^ 1;
                        if let (C::F(c), true) = (c, other < 100) {
                            let _ = c.get(&other).await;
                            let _ = c.contains_key(&*k);
                            let _ = c.get(&*k).await;
                            c.insert(100 + *k, V::new(9000 + g().lis_calls, 1)).await;
                        }
                    }
                }
                _ => {}
            }
            lis_exit(inst, i);
        })
    }
}

struct Exp(usize, ExpScript);
impl Exp {
    fn ask(&self, kind: CbK, k: u32, opts: &'static [Ans], dur: Option<Duration>) -> Option<Duration> {
        let step = cur_rec().unwrap_or(usize::MAX);
        let step = if g().lockstep && step != usize::MAX { g().recs[step].op.id as usize } else { step };
        let c = match g().memo.iter().find(|m| m.0 == (step, kind, k)) {
            Some(m) => m.1,
            None => {
                let c = rt::choose(opts.len());
                sys(|| g().memo.push(((step, kind, k), c)));
                c
            }
        };
        match opts[c] {
            Ans::Same => dur,
            Ans::No => None,
            Ans::In(n) => Some(us(n)),
            Ans::Far => Some(Duration::MAX),
        }
    }
    fn log(&self, kind: CbK, k: u32, v: &V, at: MI, dur: Option<Duration>, lm: Option<MI>, ans: Option<Duration>) {
        let f = |i: MI| to_u(i.mc_since_origin());
        let cb = Cb {
            kind,
            k,
            id: v.id(),
            at: f(at),
            dur: dur.map(to_uf),
            lm: lm.map(f),
            ans: ans.map(to_uf),
            by: cur_rec(),
        };
        rt::log(|| format!("expiry {cb:?}"));
        sys(|| g().cbs[self.0].push(cb));
    }
}
type MI = mcrt::time::Instant;
impl Expiry<K, V> for Exp {
    fn expire_after_create(&self, k: &K, v: &V, at: MI) -> Option<Duration> {
        let a = self.ask(CbK::Create, *k, self.1.create, None);
        self.log(CbK::Create, *k, v, at, None, None, a);
        a
    }
    fn expire_after_read(&self, k: &K, v: &V, at: MI, d: Option<Duration>, lm: MI) -> Option<Duration> {
        let a = self.ask(CbK::Read, *k, self.1.read, d);
        self.log(CbK::Read, *k, v, at, d, Some(lm), a);
        a
    }
    fn expire_after_update(&self, k: &K, v: &V, at: MI, d: Option<Duration>) -> Option<Duration> {
        let a = self.ask(CbK::Update, *k, self.1.update, d);
        self.log(CbK::Update, *k, v, at, d, None, a);
        a
    }
}

fn weigher(inst: usize) -> impl Fn(&K, &V) -> u32 + Send + Sync + 'static {
    move |k, v| {
        if v.0.w == BAD_W {
            panic!("the weigher panics");
        }
        sys(|| g().weighed[inst].push((*k, v.id())));
        v.0.w
    }
}

macro_rules! common {
    ($b:expr, $c:expr, $inst:expr) => {{
        let mut b = $b;
        let c = $c;
        if let Some(n) = c.cap {
            b = b.max_capacity(n);
        }
        if c.weigher {
            b = b.weigher(weigher($inst));
        }
        if c.lru {
            b = b.eviction_policy(EvictionPolicy::lru());
        }
        if c.lfu {
            b = b.eviction_policy(EvictionPolicy::tiny_lfu());
        }
        if let Some(n) = c.ttl {
            b = b.time_to_live(us(n));
        }
        if let Some(n) = c.tti {
            b = b.time_to_idle(us(n));
        }
        if let Some(e) = c.exp {
            b = b.expire_after(Exp($inst, e));
        }
        if c.closures {
            b = b.support_invalidation_closures();
        }
        if let Some(n) = c.init_cap {
            b = b.initial_capacity(n);
        }
        if c.named {
            b = b.name("nm");
        }
        b
    }};
}

pub fn build(c: &Cfg) -> C {
    build_i(c, 0)
}
pub fn build_i(c: &Cfg, inst: usize) -> C {
    let hs = Hs(c.hm);
    match c.flav {
        Flav::S => {
            let mut b = common!(SCache::<K, V, _>::builder(), c, inst);
            if c.lis != Lis::No {
                b = b.eviction_listener(listener(inst, c.lis));
            }
            C::S(b.build_with_hasher(hs))
        }
        Flav::G(n) if c.via_segments => {
            let mut b = common!(SCache::<K, V, _>::builder(), c, inst);
            if c.lis != Lis::No {
                b = b.eviction_listener(listener(inst, c.lis));
            }
            C::G(b.segments(n).build_with_hasher(hs))
        }
        Flav::G(n) => {
            let mut b = common!(SegmentedCache::<K, V, _>::builder(n), c, inst);
            if c.lis != Lis::No {
                b = b.eviction_listener(listener(inst, c.lis));
            }
            C::G(b.build_with_hasher(hs))
        }
        Flav::F => {
            let mut b = common!(FCache::<K, V, _>::builder(), c, inst);
            match c.lis {
                Lis::No => {}
                // also exercises the adapter for synchronous listeners
                Lis::Log => b = b.eviction_listener(listener(inst, c.lis)),
                _ => b = b.async_eviction_listener(alistener(inst, c.lis)),
            }
            C::F(b.build_with_hasher(hs))
        }
    }
}

// ---------------------------------------------------------------------------------- execution

fn fn_begin(rid: usize, k: u32) {
    let b = stamp();
    sys(|| {
        let s = g();
        s.recs[rid].runs.push((b, 0));
        s.active_fn.push(k);
    });
    rt::log(|| format!("closure of op {rid} begins"));
}
fn fn_end(rid: usize, k: u32) {
    let e = stamp();
    sys(|| {
        let s = g();
        if let Some(r) = s.recs[rid].runs.last_mut() {
            r.1 = e;
            if s.recs[rid].parked != 0 {
                s.recs[rid].runs.last_mut().unwrap().1 = s.recs[rid].parked;
            }
        }
        if let Some(p) = s.active_fn.iter().position(|&x| x == k) {
            s.active_fn.remove(p);
        }
    });
    rt::log(|| format!("closure of op {rid} ends"));
}
/// Marks the end of a closure run also when it panics or its future is dropped.
struct Run(usize, u32);
impl Run {
    fn new(rid: usize, k: u32) -> Run {
        fn_begin(rid, k);
        Run(rid, k)
    }
}
impl Drop for Run {
    fn drop(&mut self) {
        fn_end(self.0, self.1)
    }
}

fn value(o: &Op) -> V {
    V::new(o.id, o.w)
}
/// What a closure with `re` does: reads its own and another checked key, writes, loads, computes
/// and removes keys that only it uses, and runs the maintenance.
fn re_closure(o: &Op) {
    let Some(c) = g().re_cache else { return };
    let c = unsafe { &*c };
    macro_rules! go {
        ($c:expr) => {{
            let c = $c;
            let k = o.k;
            let b = 1000 * o.id;
            let _ = c.get(&k);
            let _ = c.contains_key(&(k ^ 1));
            c.insert(b + 100, V::new(9000 + o.id, 1));
            let v = c.get_with(b + 200, || V::new(9100 + o.id, 1));
            re_expect(v.id(), 9100 + o.id);
            let e = c.entry(b + 300).and_upsert_with(|_| V::new(9200 + o.id, 1));
            re_expect(e.value().id(), 9200 + o.id);
            c.run_pending_tasks();
            let r = c.remove(&(b + 200)).map(|v| v.id());
            re_expect(r.unwrap_or(0), 9100 + o.id);
        }};
    }
    match c {
        C::S(c) => go!(c),
        C::G(c) => go!(c),
        C::F(_) => {}
    }
}
async fn re_aclosure(o: &Op) {
    let Some(c) = g().re_cache else { return };
    let c = unsafe { &*c };
    let C::F(c) = c else { return };
    let k = o.k;
    let b = 1000 * o.id;
    let _ = c.get(&k).await;
    let _ = c.contains_key(&(k ^ 1));
    c.insert(b + 100, V::new(9000 + o.id, 1)).await;
    let v = c.get_with(b + 200, async { V::new(9100 + o.id, 1) }).await;
    re_expect(v.id(), 9100 + o.id);
    let e = c.entry(b + 300).and_upsert_with(|_| async { V::new(9200 + o.id, 1) }).await;
    re_expect(e.value().id(), 9200 + o.id);
    c.run_pending_tasks().await;
    let r = c.remove(&(b + 200)).await.map(|v| v.id());
    re_expect(r.unwrap_or(0), 9100 + o.id);
}
fn re_expect(got: u32, want: u32) {
    if got != want {
        crate::seq::fail(sys(|| format!("C01: a closure that calls the cache got value {got} for a key that only it uses, it stored {want}")));
    }
}
fn init_v(rid: usize, o: &Op) -> V {
    let _r = Run::new(rid, o.k);
    if o.re {
        re_closure(o);
    }
    steps(o.y);
    if o.act == Act::Panic {
        panic!("initializer panics");
    }
    value(o)
}
fn init_o(rid: usize, o: &Op) -> Option<V> {
    let v = init_v(rid, o);
    if o.act == Act::Put {
        Some(v)
    } else {
        None
    }
}
fn init_r(rid: usize, o: &Op) -> Result<V, u32> {
    let v = init_v(rid, o);
    if o.act == Act::Put {
        Ok(v)
    } else {
        Err(o.id)
    }
}
/// Pends `.1` times. A closure future that is dropped while pending ended with its last poll.
struct Ay(usize, usize);
impl std::future::Future for Ay {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.1 == 0 {
            g().recs[self.0].parked = 0;
            std::task::Poll::Ready(())
        } else {
            self.1 -= 1;
            g().recs[self.0].parked = stamp();
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }
}
async fn ainit_v(rid: usize, o: &Op) -> V {
    let _r = Run::new(rid, o.k);
    if o.re {
        re_aclosure(o).await;
    }
    Ay(rid, if o.y == GIVE { 1 } else { o.y }).await;
    if o.act == Act::Panic {
        panic!("initializer panics");
    }
    value(o)
}
async fn ainit_o(rid: usize, o: &Op) -> Option<V> {
    let v = ainit_v(rid, o).await;
    if o.act == Act::Put {
        Some(v)
    } else {
        None
    }
}
async fn ainit_r(rid: usize, o: &Op) -> Result<V, u32> {
    let v = ainit_v(rid, o).await;
    if o.act == Act::Put {
        Ok(v)
    } else {
        Err(o.id)
    }
}
fn seen(rid: usize, e: &Option<Entry<K, V>>) {
    let r = &mut g().recs[rid];
    r.seen = Some(e.as_ref().map(|e| e.value().id()));
    r.seen_e = e.as_ref().map(|e| (*e.key(), e.value().id(), e.is_fresh(), e.is_old_value_replaced()));
    rt::log(|| format!("closure of op {rid} sees {:?}", r.seen));
}
fn comp(rid: usize, o: &Op, e: Option<Entry<K, V>>) -> Result<MOp<V>, u32> {
    let _r = Run::new(rid, o.k);
    seen(rid, &e);
    if o.re {
        re_closure(o);
    }
    steps(o.y);
    match o.act {
        Act::Put => Ok(MOp::Put(value(o))),
        Act::Rem => Ok(MOp::Remove),
        Act::Nop => Ok(MOp::Nop),
        Act::Err => Err(o.id),
        Act::Panic => panic!("compute closure panics"),
    }
}
async fn acomp(rid: usize, o: &Op, e: Option<Entry<K, V>>) -> Result<MOp<V>, u32> {
    let _r = Run::new(rid, o.k);
    seen(rid, &e);
    if o.re {
        re_aclosure(o).await;
    }
    Ay(rid, if o.y == GIVE { 1 } else { o.y }).await;
    match o.act {
        Act::Put => Ok(MOp::Put(value(o))),
        Act::Rem => Ok(MOp::Remove),
        Act::Nop => Ok(MOp::Nop),
        Act::Err => Err(o.id),
        Act::Panic => panic!("compute closure panics"),
    }
}
fn cres(r: CompResult<K, V>) -> Res {
    let (k, e) = match &r {
        CompResult::StillNone(_) => (CK::StillNone, None),
        CompResult::Unchanged(e) => (CK::Unchanged, Some(en(e))),
        CompResult::Inserted(e) => (CK::Inserted, Some(en(e))),
        CompResult::ReplacedWith(e) => (CK::Replaced, Some(en(e))),
        CompResult::Removed(e) => (CK::Removed, Some(en(e))),
    };
    Res::Comp(k, e)
}
fn cond(rid: usize, o: &Op, v: &V) -> bool {
    sys(|| g().recs[rid].conds.push(v.id()));
    if o.cp != 0 && g().recs[rid].conds.len() == o.cp as usize {
        panic!("the condition panics");
    }
    o.cond
}
fn opt_e(e: Option<Entry<K, V>>) -> Res {
    Res::OptE(e.as_ref().map(en))
}

macro_rules! exec_sync {
    ($c:expr, $o:expr, $rid:expr) => {{
        let c = $c;
        let o: &Op = $o;
        let rid: usize = $rid;
        let k = o.k;
        match o.f {
            F::Get => ov(c.get(&k)),
            F::Has => Res::B(c.contains_key(&k)),
            F::Ins => {
                c.insert(k, value(o));
                Res::Unit
            }
            F::Rem => ov(c.remove(&k)),
            F::Inv => {
                c.invalidate(&k);
                Res::Unit
            }
            F::InvAll => {
                c.invalidate_all();
                Res::Unit
            }
            F::InvIf => {
                let p = o.pr;
                match c.invalidate_entries_if(move |k, v| p.eval(*k, v.id(), v.0.w)) {
                    Ok(_) => Res::Unit,
                    Err(_) => Res::PredErr,
                }
            }
            F::Iter => iter_res(c.iter().map(|(k, v)| (*k, v.id()))),
            F::Pend => {
                c.run_pending_tasks();
                Res::Unit
            }
            F::Counts => Res::N(c.entry_count(), c.weighted_size()),
            F::GetWith => {
                if o.by_ref {
                    Res::V(Some(c.get_with_by_ref(&k, || init_v(rid, o)).id()))
                } else {
                    Res::V(Some(c.get_with(k, || init_v(rid, o)).id()))
                }
            }
            #[allow(deprecated)]
            F::GetWithIf => {
                Res::V(Some(c.get_with_if(k, || init_v(rid, o), |v| cond(rid, o, v)).id()))
            }
            F::OptGetWith => {
                if o.by_ref {
                    ov(c.optionally_get_with_by_ref(&k, || init_o(rid, o)))
                } else {
                    ov(c.optionally_get_with(k, || init_o(rid, o)))
                }
            }
            F::TryGetWith => {
                let r = if o.by_ref {
                    c.try_get_with_by_ref(&k, || init_r(rid, o))
                } else {
                    c.try_get_with(k, || init_r(rid, o))
                };
                match r {
                    Ok(v) => ov(Some(v)),
                    Err(e) => Res::Err(*e),
                }
            }
            F::TryGetUnit => match c.try_get_with(k, || init_r(rid, o).map_err(|_| ())) {
                Ok(v) => ov(Some(v)),
                Err(_) => Res::Err(0),
            },
            F::OrDefault => {
                if o.by_ref {
                    Res::E(en(&c.entry_by_ref(&k).or_default()))
                } else {
                    Res::E(en(&c.entry(k).or_default()))
                }
            }
            F::OrInsert => {
                if o.by_ref {
                    Res::E(en(&c.entry_by_ref(&k).or_insert(value(o))))
                } else {
                    Res::E(en(&c.entry(k).or_insert(value(o))))
                }
            }
            F::OrInsertWith => {
                if o.by_ref {
                    Res::E(en(&c.entry_by_ref(&k).or_insert_with(|| init_v(rid, o))))
                } else {
                    Res::E(en(&c.entry(k).or_insert_with(|| init_v(rid, o))))
                }
            }
            F::OrInsertWithIf => {
                if o.by_ref {
                    Res::E(en(&c.entry_by_ref(&k).or_insert_with_if(|| init_v(rid, o), |v| cond(rid, o, v))))
                } else {
                    Res::E(en(&c.entry(k).or_insert_with_if(|| init_v(rid, o), |v| cond(rid, o, v))))
                }
            }
            F::OrOpt => {
                if o.by_ref {
                    opt_e(c.entry_by_ref(&k).or_optionally_insert_with(|| init_o(rid, o)))
                } else {
                    opt_e(c.entry(k).or_optionally_insert_with(|| init_o(rid, o)))
                }
            }
            F::OrTry => {
                let r = if o.by_ref {
                    c.entry_by_ref(&k).or_try_insert_with(|| init_r(rid, o))
                } else {
                    c.entry(k).or_try_insert_with(|| init_r(rid, o))
                };
                match r {
                    Ok(e) => Res::E(en(&e)),
                    Err(e) => Res::Err(*e),
                }
            }
            F::Upsert => {
                let f = |e: Option<Entry<K, V>>| {
                    let _r = Run::new(rid, o.k);
                    seen(rid, &e);
                    steps(o.y);
                    if o.act == Act::Panic {
                        panic!("upsert closure panics");
                    }
                    value(o)
                };
                if o.by_ref {
                    Res::E(en(&c.entry_by_ref(&k).and_upsert_with(f)))
                } else {
                    Res::E(en(&c.entry(k).and_upsert_with(f)))
                }
            }
            F::Compute => {
                let f = |e| match comp(rid, o, e) {
                    Ok(x) => x,
                    Err(_) => MOp::Nop,
                };
                if o.by_ref {
                    cres(c.entry_by_ref(&k).and_compute_with(f))
                } else {
                    cres(c.entry(k).and_compute_with(f))
                }
            }
            F::TryCompute | F::TryComputeNE => {
                let r = if o.by_ref {
                    c.entry_by_ref(&k).and_try_compute_with(|e| comp(rid, o, e))
                } else {
                    c.entry(k).and_try_compute_with(|e| comp(rid, o, e))
                };
                match r {
                    Ok(x) => cres(x),
                    Err(e) => Res::Err(e),
                }
            }
            F::Adv | F::Nop => Res::Unit,
        }
    }};
}
fn iter_res(it: impl Iterator<Item = (u32, u32)>) -> Res {
    let mut it = it;
    let mut l = Vec::new();
    while let Some(x) = it.next() {
        l.push(x);
    }
    Res::L(l)
}

pub async fn exec_async(c: &FCache<K, V, Hs>, o: &Op, rid: usize) -> Res {
    let k = o.k;
    match o.f {
        F::Get => ov(c.get(&k).await),
        F::Has => Res::B(c.contains_key(&k)),
        F::Ins => {
            c.insert(k, value(o)).await;
            Res::Unit
        }
        F::Rem => ov(c.remove(&k).await),
        F::Inv => {
            c.invalidate(&k).await;
            Res::Unit
        }
        F::InvAll => {
            c.invalidate_all();
            Res::Unit
        }
        F::InvIf => {
            let p = o.pr;
            match c.invalidate_entries_if(move |k, v| p.eval(*k, v.id(), v.0.w)) {
                Ok(_) => Res::Unit,
                Err(_) => Res::PredErr,
            }
        }
        F::Iter => iter_res(c.iter().map(|(k, v)| (*k, v.id()))),
        F::Pend => {
            c.run_pending_tasks().await;
            Res::Unit
        }
        F::Counts => Res::N(c.entry_count(), c.weighted_size()),
        F::GetWith => {
            if o.by_ref {
                Res::V(Some(c.get_with_by_ref(&k, ainit_v(rid, o)).await.id()))
            } else {
                Res::V(Some(c.get_with(k, ainit_v(rid, o)).await.id()))
            }
        }
        #[allow(deprecated)]
        F::GetWithIf => Res::V(Some(c.get_with_if(k, ainit_v(rid, o), |v| cond(rid, o, v)).await.id())),
        F::OptGetWith => {
            if o.by_ref {
                ov(c.optionally_get_with_by_ref(&k, ainit_o(rid, o)).await)
            } else {
                ov(c.optionally_get_with(k, ainit_o(rid, o)).await)
            }
        }
        F::TryGetWith => {
            let r = if o.by_ref {
                c.try_get_with_by_ref(&k, ainit_r(rid, o)).await
            } else {
                c.try_get_with(k, ainit_r(rid, o)).await
            };
            match r {
                Ok(v) => ov(Some(v)),
                Err(e) => Res::Err(*e),
            }
        }
        F::TryGetUnit => match c.try_get_with(k, async { ainit_r(rid, o).await.map_err(|_| ()) }).await {
            Ok(v) => ov(Some(v)),
            Err(_) => Res::Err(0),
        },
        F::OrDefault => {
            if o.by_ref {
                Res::E(en(&c.entry_by_ref(&k).or_default().await))
            } else {
                Res::E(en(&c.entry(k).or_default().await))
            }
        }
        F::OrInsert => {
            if o.by_ref {
                Res::E(en(&c.entry_by_ref(&k).or_insert(value(o)).await))
            } else {
                Res::E(en(&c.entry(k).or_insert(value(o)).await))
            }
        }
        F::OrInsertWith => {
            if o.by_ref {
                Res::E(en(&c.entry_by_ref(&k).or_insert_with(ainit_v(rid, o)).await))
            } else {
                Res::E(en(&c.entry(k).or_insert_with(ainit_v(rid, o)).await))
            }
        }
        F::OrInsertWithIf => {
            if o.by_ref {
                Res::E(en(&c.entry_by_ref(&k).or_insert_with_if(ainit_v(rid, o), |v| cond(rid, o, v)).await))
            } else {
                Res::E(en(&c.entry(k).or_insert_with_if(ainit_v(rid, o), |v| cond(rid, o, v)).await))
            }
        }
        F::OrOpt => {
            if o.by_ref {
                opt_e(c.entry_by_ref(&k).or_optionally_insert_with(ainit_o(rid, o)).await)
            } else {
                opt_e(c.entry(k).or_optionally_insert_with(ainit_o(rid, o)).await)
            }
        }
        F::OrTry => {
            let r = if o.by_ref {
                c.entry_by_ref(&k).or_try_insert_with(ainit_r(rid, o)).await
            } else {
                c.entry(k).or_try_insert_with(ainit_r(rid, o)).await
            };
            match r {
                Ok(e) => Res::E(en(&e)),
                Err(e) => Res::Err(*e),
            }
        }
        F::Upsert => {
            let f = |e: Option<Entry<K, V>>| async move {
                let _r = Run::new(rid, o.k);
                seen(rid, &e);
                mcrt::fut::YieldFuture(o.y).await;
                if o.act == Act::Panic {
                    panic!("upsert closure panics");
                }
                value(o)
            };
            if o.by_ref {
                Res::E(en(&c.entry_by_ref(&k).and_upsert_with(f).await))
            } else {
                Res::E(en(&c.entry(k).and_upsert_with(f).await))
            }
        }
        F::Compute => {
            let f = |e| async move {
                match acomp(rid, o, e).await {
                    Ok(x) => x,
                    Err(_) => MOp::Nop,
                }
            };
            if o.by_ref {
                cres(c.entry_by_ref(&k).and_compute_with(f).await)
            } else {
                cres(c.entry(k).and_compute_with(f).await)
            }
        }
        F::TryCompute => {
            let r = if o.by_ref {
                c.entry_by_ref(&k).and_try_compute_with(|e| acomp(rid, o, e)).await
            } else {
                c.entry(k).and_try_compute_with(|e| acomp(rid, o, e)).await
            };
            match r {
                Ok(x) => cres(x),
                Err(e) => Res::Err(e),
            }
        }
        F::TryComputeNE => {
            let r = if o.by_ref {
                c.entry_by_ref(&k).and_try_compute_if_nobody_else(|e| acomp(rid, o, e)).await
            } else {
                c.entry(k).and_try_compute_if_nobody_else(|e| acomp(rid, o, e)).await
            };
            match r {
                Ok(x) => cres(x),
                Err(e) => Res::Err(e),
            }
        }
        F::Adv | F::Nop => Res::Unit,
    }
}

fn rec_begin(o: &Op) -> usize {
    let start = op_begin();
    let t0 = now_u();
    let s = g();
    let rid = s.recs.len();
    sys(|| {
        s.recs.push(Rec {
            op: *o,
            tid: tid(),
            start,
            end: u64::MAX,
            t0,
            t1: u64::MAX,
            res: Res::Running,
            runs: Vec::new(),
            parked: 0,
            seen: None,
            seen_e: None,
            conds: Vec::new(),
            done: false,
        })
    });
    rt::log(|| format!("op {rid}: {:?} k={} id={} w={} act={:?} d={} pr={:?} cond={}", o.f, o.k, o.id, o.w, o.act, o.d, o.pr, o.cond));
    rid
}
fn rec_end(rid: usize, res: &Res) {
    let e = op_end();
    let r = &mut g().recs[rid];
    r.end = e;
    r.t1 = now_u();
    r.done = true;
    sys(|| r.res = res.clone());
    rt::log(|| format!("op {rid} -> {res:?}"));
}

/// Execute one operation; everything observable is in `g().recs[returned index]`.
pub fn run(c: &C, o: &Op) -> usize {
    run_c(c, o, |_| false)
}
/// As `run`; the operation's future is dropped at a pending point when `cancel(n)` says so.
pub fn run_c(c: &C, o: &Op, cancel: impl FnMut(usize) -> bool) -> usize {
    let rid = rec_begin(o);
    if o.f == F::Adv {
        rt::advance(us(o.d));
    }
    let t = tid();
    let outer = g().cur[t];
    g().cur[t] = Some(rid);
    let res = catch_unwind(AssertUnwindSafe(|| match c {
        C::S(c) => exec_sync!(c, o, rid),
        C::G(c) => exec_sync!(c, o, rid),
        C::F(c) => match mcrt::fut::block_on_cancel(exec_async(c, o, rid), cancel) {
            Some(r) => r,
            None => Res::Cancelled,
        },
    }));
    let res = match res {
        Ok(r) => r,
        Err(p) => {
            drop(p);
            Res::Panic
        }
    };
    g().cur[t] = outer;
    rec_end(rid, &res);
    rid
}
pub fn res(rid: usize) -> &'static Res {
    &g().recs[rid].res
}
/// Execute an operation without recording it as an operation of the history.
pub fn quiet(c: &C, o: &Op) -> Res {
    let rid = run(c, o);
    let r = sys(|| g().recs[rid].res.clone());
    r
}
pub fn counts(c: &C) -> (u64, u64) {
    match c {
        C::S(c) => (c.entry_count(), c.weighted_size()),
        C::G(c) => (c.entry_count(), c.weighted_size()),
        C::F(c) => (c.entry_count(), c.weighted_size()),
    }
}
