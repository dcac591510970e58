//! Concurrent programs on the real caches: every schedule within the bounds is executed and the
//! recorded history is checked, key by key, for a sequential explanation.
use crate::api::*;
use crate::seq::fail;
use mcrt::rt;
use moka::notification::RemovalCause as RC;

#[derive(Clone, Copy, Debug, PartialEq)]
enum SK {
    /// the current value is exactly this
    Read(u32),
    Has(bool),
    Write(u32),
    /// removes; the removed value is this (0: there was none)
    Take(u32),
    TakeAny,
    /// an invalidation: what matches is hidden
    HideAll,
    HideIf(Pr),
    /// there is no current value (conditional replacement: anything)
    Miss(bool),
    /// a compute begins, seeing this
    CBegin(u32),
    /// a compute ends without a change
    CEnd,
    CWrite(u32),
    CTake(u32),
    CTakeAny,
    /// takes effect or not (cancelled operations)
    Opt,
}
#[derive(Clone, Copy, Debug)]
struct St {
    rid: usize,
    k: SK,
    lo: u64,
    hi: u64,
    t0: u64,
    t1: u64,
    /// step that must come first
    pred: usize,
    /// another one: what the previous initializer of the key stored is stored before the next
    /// initializer may find the key absent
    pred2: usize,
    /// may be skipped (the operation was cancelled)
    opt: bool,
}
const NOP: usize = 99;
const R: u8 = 1;
const X: u8 = 2;
const E: u8 = 4;
const S: u8 = 8;
fn bit(c: RC) -> u8 {
    match c {
        RC::Replaced => R,
        RC::Explicit => X,
        RC::Expired => E,
        RC::Size => S,
    }
}

pub struct Hist<'a> {
    cfg: &'a Cfg,
    k: u32,
    st: Vec<St>,
    n: Vec<&'a Notif>,
    memo: Vec<u64>,
    lis: bool,
    /// every notification has been delivered (maintenance has settled)
    settled: bool,
    nodes: u64,
    /// see `weak_tag`
    weak: u8,
}
/// Histories that only known defects explain are reported under the tag of the defect.
const DEAD_READ: u8 = 1;
const OLD_DEADLINE: u8 = 2;
const INV_RACE: u8 = 4;
const PRED_RACE: u8 = 8;
/// may this operation have run maintenance itself?
fn due(r: &Rec) -> bool {
    recs().iter().any(|a| a.op.f == F::Adv && a.op.d >= 1 << 16 && a.start < r.end)
}
/// a read that found this value overlapped an invalidate_all
fn inv_race(id: u32) -> bool {
    recs().iter().any(|r| {
        let hit = match &r.res {
            Res::V(Some(x)) => *x == id,
            Res::E(e) | Res::OptE(Some(e)) | Res::Comp(_, Some(e)) => e.id == id,
            _ => r.seen == Some(Some(id)),
        };
        hit && recs().iter().any(|q| q.op.f == F::InvAll && overlap(q, r))
    })
}
/// the write of this value overlapped an invalidate_all
fn inv_write_race(id: u32) -> bool {
    recs().iter().any(|r| r.op.id == id && !matches!(r.op.f, F::Get | F::Has | F::Rem | F::Inv) && recs().iter().any(|q| q.op.f == F::InvAll && overlap(q, r)))
}
fn weak_tag(w: u8) -> &'static str {
    if w & DEAD_READ != 0 {
        "[dead-value-read-during-overwrite]"
    } else if w & PRED_RACE != 0 {
        "[predicate-retired-during-read]"
    } else if w & INV_RACE != 0 {
        "[read-races-invalidate-all]"
    } else {
        "[old-deadline-during-overwrite]"
    }
}
#[derive(Clone, Copy)]
struct S0 {
    mask: u64,
    cur: u32,
    hid: u32,
    hidc: u8,
    j: u8,
    comp: bool,
}

fn fam(o: &Op) -> u32 {
    match o.f {
        F::GetWith | F::GetWithIf | F::OrDefault | F::OrInsert | F::OrInsertWith | F::OrInsertWithIf => 1,
        F::OptGetWith | F::OrOpt => 2,
        F::TryGetWith | F::OrTry => 3,
        F::TryGetUnit => 4,
        _ => 0,
    }
}
pub fn recs() -> &'static Vec<Rec> {
    &g().recs
}
fn overlap(a: &Rec, b: &Rec) -> bool {
    a.start < b.end && b.start < a.end
}
fn cond_panicked(r: &Rec) -> bool {
    r.op.cp != 0 && r.conds.len() >= r.op.cp as usize
}
fn produced(r: &Rec) -> bool {
    r.op.act == Act::Put || matches!(r.op.f, F::OrDefault | F::OrInsert)
}

impl<'a> Hist<'a> {
    fn step(&mut self, rid: usize, k: SK, lo: u64, hi: u64, pred: usize, opt: bool) -> usize {
        let r = &recs()[rid];
        self.st.push(St { rid, k, lo, hi, t0: r.t0, t1: r.t1, pred, pred2: NOP, opt });
        self.st.len() - 1
    }
    /// Decompose every operation that concerns this key; checks what needs no search.
    fn build(&mut self) -> Result<(), String> {
        let k = self.k;
        for (rid, r) in recs().iter().enumerate() {
            let o = &r.op;
            let mine = o.k == k;
            let (lo, hi) = (r.start, r.end);
            let canc = r.res == Res::Cancelled;
            if r.res == Res::Panic && o.act != Act::Panic && !o.bad_weight(self.cfg) && !cond_panicked(r) {
                return Err(format!("C18: operation {:?} on key {} panicked", o.f, o.k));
            }
            match o.f {
                F::Adv | F::Nop | F::Pend | F::Counts => {}
                F::InvAll => {
                    self.step(rid, SK::HideAll, lo, hi, NOP, false);
                }
                F::InvIf => {
                    if r.res == Res::Unit {
                        self.step(rid, SK::HideIf(o.pr), lo, hi, NOP, false);
                    }
                }
                F::Iter => {
                    if let Res::L(l) = &r.res {
                        let mut it = l.iter().filter(|x| x.0 == k);
                        let v = it.next().map_or(0, |x| x.1);
                        if it.next().is_some() {
                            return Err(format!("C15: the iterator yielded key {k} twice: {l:?}"));
                        }
                        self.step(rid, SK::Read(v), lo, hi, NOP, false);
                    }
                }
                _ if !mine => {}
                F::Get => {
                    if !canc {
                        let Res::V(v) = r.res else { return Err(format!("get returned {:?}", r.res)) };
                        self.step(rid, SK::Read(v.unwrap_or(0)), lo, hi, NOP, false);
                    }
                }
                F::Has => {
                    let Res::B(b) = r.res else { return Err(format!("contains_key returned {:?}", r.res)) };
                    self.step(rid, SK::Has(b), lo, hi, NOP, false);
                }
                F::Ins if r.res == Res::Panic => {}
                F::Ins => {
                    self.step(rid, SK::Write(o.id), lo, hi, NOP, canc);
                }
                F::Inv => {
                    self.step(rid, SK::TakeAny, lo, hi, NOP, canc);
                }
                F::Rem => {
                    if canc {
                        self.step(rid, SK::TakeAny, lo, hi, NOP, true);
                    } else {
                        let Res::V(v) = r.res else { return Err(format!("remove returned {:?}", r.res)) };
                        match v {
                            Some(v) => self.step(rid, SK::Take(v), lo, hi, NOP, false),
                            None => self.step(rid, SK::Take(0), lo, hi, NOP, false),
                        };
                    }
                }
                _ if o.is_load() => self.load(rid, r)?,
                _ => self.compute(rid, r)?,
            }
        }
        for m in 0..self.st.len() {
            if !matches!(self.st[m].k, SK::Miss(_)) {
                continue;
            }
            let r = &recs()[self.st[m].rid];
            let Some(&(b, _)) = r.runs.first() else { continue };
            // the latest earlier initializer of the same kind
            let prev = (0..self.st.len())
                .filter(|&w| matches!(self.st[w].k, SK::Write(_)) && !self.st[w].opt && self.st[w].rid != self.st[m].rid)
                .filter_map(|w| {
                    let q = &recs()[self.st[w].rid];
                    let &(pb, _) = q.runs.first()?;
                    (q.op.k == r.op.k && fam(&q.op) == fam(&r.op) && fam(&r.op) != 0 && pb < b).then_some((pb, w))
                })
                .max();
            if let Some((_, w)) = prev {
                self.st[m].pred2 = w;
            }
        }
        Ok(())
    }
    fn load(&mut self, rid: usize, r: &Rec) -> Result<(), String> {
        let o = &r.op;
        let (lo, hi) = (r.start, r.end);
        let cond = matches!(o.f, F::GetWithIf | F::OrInsertWithIf) && o.cond;
        let hidden_init = matches!(o.f, F::OrDefault | F::OrInsert);
        if r.runs.len() > 1 {
            return Err(format!("C03: the initializer of one call ran {} times", r.runs.len()));
        }
        let run = r.runs.first().copied();
        let can_fail = matches!(o.f, F::OptGetWith | F::OrOpt | F::TryGetWith | F::OrTry | F::TryGetUnit);
        if r.res == Res::Cancelled {
            if let Some((b, _)) = run {
                let m = self.step(rid, SK::Miss(cond), lo, b, NOP, false);
                if produced(r) {
                    self.step(rid, SK::Write(o.id), b, hi, m, true);
                }
            } else if hidden_init {
                self.step(rid, SK::Write(o.id), lo, hi, NOP, true);
            }
            return Ok(());
        }
        let (got, fresh) = match &r.res {
            Res::V(Some(v)) => (Some(*v), *v == o.id),
            Res::E(e) | Res::OptE(Some(e)) => {
                if e.k != o.k || e.fresh != (e.id == o.id) {
                    return Err(format!("C20: {:?} on key {} with value v{} returned {e:?}", o.f, o.k, o.id));
                }
                if e.repl && !(e.fresh && cond) {
                    return Err(format!("C20: {:?} on key {} with value v{} returned {e:?}", o.f, o.k, o.id));
                }
                (Some(e.id), e.fresh)
            }
            Res::V(None) | Res::OptE(None) | Res::Err(_) if can_fail => (None, false),
            Res::Panic => (None, false),
            x => return Err(format!("{:?} returned {x:?}", o.f)),
        };
        if let (Some((b, e)), true) = (run, true) {
            // this call ran its initializer
            let m = self.step(rid, SK::Miss(cond), lo, b, NOP, false);
            match (got, fresh) {
                (Some(_), true) => {
                    self.step(rid, SK::Write(o.id), e, hi, m, false);
                }
                (Some(v), false) => {
                    return Err(format!("C03: a call ran its initializer to completion but returned v{v} of another call"));
                }
                (None, _) => {
                    let ok = match &r.res {
                        Res::Panic => o.act == Act::Panic || o.bad_weight(self.cfg),
                        Res::Err(x) => o.act != Act::Put && (*x == o.id || o.f == F::TryGetUnit),
                        _ => o.act != Act::Put,
                    };
                    if !ok {
                        return Err(format!("C04: the initializer of this {:?} ran but the call ended with {:?}", o.f, r.res));
                    }
                }
            }
        } else if fresh {
            if !hidden_init {
                return Err("C03: a value was stored without running the initializer".into());
            }
            let m = self.step(rid, SK::Miss(cond), lo, hi, NOP, false);
            self.step(rid, SK::Write(o.id), lo, hi, m, false);
        } else if let Some(v) = got {
            // read, or handed over by an overlapping call that ran its initializer
            let shared = recs().iter().enumerate().any(|(i, q)| {
                i != rid && q.op.k == o.k && q.op.id == v && fam(&q.op) == fam(o) && overlap(q, r) && q.res != Res::Cancelled
            });
            // ... or that found somebody else's value after announcing itself
            let relayed = recs().iter().enumerate().any(|(i, q)| {
                i != rid && q.op.k == o.k && fam(&q.op) == fam(o) && overlap(q, r) && matches!(&q.res, Res::V(Some(x)) | Res::E(En { id: x, .. }) | Res::OptE(Some(En { id: x, .. })) if *x == v)
            });
            if !shared && !relayed {
                self.step(rid, SK::Read(v), lo, hi, NOP, false);
            }
        } else if r.res == Res::Panic && (cond_panicked(r) || hidden_init && o.bad_weight(self.cfg)) {
            if cond_panicked(r) {
                let v = *r.conds.last().unwrap();
                self.step(rid, SK::Read(v), lo, hi, NOP, false);
            }
        } else {
            // an error or absence without an own run: must come from an overlapping call
            let want = &r.res;
            let ok = recs().iter().enumerate().any(|(i, q)| {
                i != rid
                    && q.op.k == o.k
                    && fam(&q.op) == fam(o)
                    && overlap(q, r)
                    && q.runs.len() == 1
                    && q.op.act != Act::Put
                    && match (want, &q.res) {
                        (Res::Err(a), Res::Err(b)) => a == b,
                        (Res::Err(_), _) => false,
                        (_, Res::V(None) | Res::OptE(None)) => true,
                        _ => false,
                    }
            });
            if !ok {
                return Err(format!("C04: {:?} ended with {:?} although neither its own nor an overlapping initializer did", o.f, r.res));
            }
        }
        Ok(())
    }
    fn compute(&mut self, rid: usize, r: &Rec) -> Result<(), String> {
        let o = &r.op;
        let (lo, hi) = (r.start, r.end);
        if r.runs.len() > 1 {
            return Err(format!("C05: the closure ran {} times", r.runs.len()));
        }
        let canc = r.res == Res::Cancelled;
        let Some((b, e)) = r.runs.first().copied() else {
            if canc {
                return Ok(());
            }
            if o.f == F::TryComputeNE {
                // somebody else is computing
                let v = match &r.res {
                    Res::Comp(CK::StillNone, None) => 0,
                    Res::Comp(CK::Unchanged, Some(e)) => e.id,
                    x => return Err(format!("C05: the closure did not run but the result is {x:?}")),
                };
                let other = recs().iter().enumerate().any(|(i, q)| i != rid && q.op.k == o.k && q.op.is_compute() && overlap(q, r));
                if !other {
                    return Err("C05: the closure did not run although no other compute was in progress".into());
                }
                self.step(rid, SK::Read(v), lo, hi, NOP, false);
                return Ok(());
            }
            return Err("C05: the closure did not run".into());
        };
        let seen = r.seen.unwrap_or(None).unwrap_or(0);
        let had = seen != 0;
        let rd = self.step(rid, SK::CBegin(seen), lo, b, NOP, false);
        let bad = |w: &str| Err(format!("C05: {:?} {:?} on key {} saw v{seen} and returned {:?}, expected {w}", o.f, o.act, o.k, r.res));
        if canc {
            // windows stay exclusive; the decision is applied or not
            match o.act {
                Act::Put => self.step(rid, SK::CWrite(o.id), b, hi, rd, true),
                Act::Rem => self.step(rid, SK::CTakeAny, b, hi, rd, true),
                _ => self.step(rid, SK::CEnd, b, hi, rd, false),
            };
            return Ok(());
        }
        let put = o.f == F::Upsert || o.act == Act::Put;
        match o.act {
            _ if put && o.bad_weight(self.cfg) => {
                if r.res != Res::Panic {
                    return bad("a panic");
                }
                self.step(rid, SK::CEnd, b, hi, rd, false);
            }
            Act::Panic => {
                if r.res != Res::Panic {
                    return bad("a panic");
                }
                self.step(rid, SK::CEnd, b, hi, rd, false);
            }
            Act::Err if matches!(o.f, F::TryCompute | F::TryComputeNE) => {
                if r.res != Res::Err(o.id) {
                    return bad("its error");
                }
                self.step(rid, SK::CEnd, e, hi, rd, false);
            }
            _ if put => {
                let x = En { k: o.k, id: o.id, fresh: true, repl: had };
                let want = if o.f == F::Upsert {
                    Res::E(x)
                } else {
                    Res::Comp(if had { CK::Replaced } else { CK::Inserted }, Some(x))
                };
                if r.res != want {
                    return bad("the stored value");
                }
                self.step(rid, SK::CWrite(o.id), e, hi, rd, false);
            }
            Act::Rem => match &r.res {
                Res::Comp(CK::StillNone, None) => {
                    self.step(rid, SK::CTake(0), e, hi, rd, false);
                }
                Res::Comp(CK::Removed, Some(x)) if !x.fresh && !x.repl && x.k == o.k => {
                    self.step(rid, SK::CTake(x.id), e, hi, rd, false);
                }
                _ => return bad("Removed or StillNone"),
            },
            _ => {
                let want = if had {
                    Res::Comp(CK::Unchanged, Some(En { k: o.k, id: seen, fresh: false, repl: false }))
                } else {
                    Res::Comp(CK::StillNone, None)
                };
                if r.res != want {
                    return bad("no change");
                }
                self.step(rid, SK::CEnd, e, hi, rd, false);
            }
        }
        Ok(())
    }

    /// the earliest and the latest instant at which this value may reach its deadline, as far as a step can tell
    fn life(&self, w: &Rec, id: u32, s: &St) -> Option<(u64, u64)> {
        let Some(e) = self.cfg.exp else {
            return self.cfg.ttl.map(|t| (w.t0.saturating_add(t), w.t1.saturating_add(t)));
        };
        let (Ans::In(a), Ans::In(b)) = (e.create[0], e.update[0]) else { return None };
        let (mut lo, mut hi) = (w.t0 + a.min(b), w.t1 + a.max(b));
        let Ans::In(m) = e.read[0] else { return Some((lo, hi)) };
        let hits: Vec<&Rec> = recs()
            .iter()
            .enumerate()
            .filter(|(i, r)| *i != s.rid && r.start < s.hi && r.op.k == self.k && r.op.f != F::Rem)
            .map(|(_, r)| r)
            .filter(|r| match &r.res {
                Res::V(Some(x)) => *x == id,
                Res::E(e) | Res::OptE(Some(e)) | Res::Comp(_, Some(e)) => e.id == id,
                _ => r.seen == Some(Some(id)),
            })
            .collect();
        let done = |r: &Rec| r.op.f == F::Get && r.end < s.lo;
        // a completed read replaces a deadline, unless that may have passed before the read got so far
        if hits.iter().any(|r| done(r) && r.start > w.end) {
            hi = 0;
            if hits.iter().any(|r| done(r) && r.start > w.end && r.t1 < lo) {
                lo = u64::MAX;
            }
        }
        for r in &hits {
            if !hits.iter().any(|r2| done(r2) && r.end < r2.start && r2.t1 < r.t0 + m) {
                lo = lo.min(r.t0 + m);
            }
            if !hits.iter().any(|r2| done(r2) && r.end < r2.start) {
                hi = hi.max(r.t1 + m);
            }
        }
        Some((lo, hi))
    }
    fn writer(&self, id: u32) -> Option<&'static Rec> {
        recs().iter().find(|r| r.op.id == id && !matches!(r.op.f, F::Get | F::Has | F::Rem | F::Inv))
    }
    /// Does this value fit next to the heaviest values ever written to the other keys? (The
    /// predecessors of a removed value may still be counted.)
    fn fits(&self, cap: u64, w: &Rec) -> bool {
        let cap = match self.cfg.flav {
            Flav::G(n) => cap / n as u64,
            _ => cap,
        };
        let weight = |r: &Rec| if self.cfg.weigher { r.op.w as u64 } else { 1 };
        let writes = |r: &Rec| !matches!(r.op.f, F::Get | F::Has | F::Rem | F::Inv | F::Adv | F::Nop | F::Pend | F::Counts | F::InvAll | F::InvIf | F::Iter);
        let heaviest = |k: u32| recs().iter().filter(|r| r.op.k == k && writes(r)).map(weight).max().unwrap_or(0);
        let removals = self.cfg.ttl.is_some()
            || self.cfg.tti.is_some()
            || self.cfg.exp.is_some()
            || recs().iter().any(|r| match r.op.f {
                F::InvAll | F::InvIf => true,
                F::Rem | F::Inv => r.op.k == self.k,
                _ => r.op.k == self.k && r.op.act == Act::Rem,
            });
        let mut keys: Vec<u32> = recs().iter().filter(|r| writes(r)).map(|r| r.op.k).collect();
        keys.sort();
        keys.dedup();
        let others: u64 = keys.iter().filter(|&&k| k != self.k).map(|&k| heaviest(k)).sum();
        others + weight(w) + if removals { heaviest(self.k) } else { 0 } <= cap
    }
    /// may the time or capacity policy have ended this value's life before the end of this step?
    fn vanish(&self, id: u32, s: &St) -> u8 {
        let mut c = 0;
        let w = self.writer(id);
        if self.cfg.cap.is_some_and(|cap| w.is_none_or(|w| !self.fits(cap, w))) {
            c |= S;
        }
        let Some(w) = w else { return c };
        // a predicate covers what is written at the instant of its registration
        if recs().iter().any(|r| {
            r.op.f == F::InvIf && r.res == Res::Unit && r.start < s.hi && w.t0 <= r.t1 && w.end > r.start && r.op.pr.eval(self.k, id, w.op.w)
        }) {
            c |= X | R;
        }
        if let Some((mut from, _)) = self.life(w, id, s) {
            if self.weak & OLD_DEADLINE != 0 {
                from = self.rivals(w).filter_map(|r| Some(self.life(r, id, s)?.0)).fold(from, u64::min);
            }
            if s.t1 >= from {
                c |= E;
            }
        }
        if let Some(t) = self.cfg.tti {
            // completed accesses postpone it
            let mut last = w.t0;
            for r in recs().iter() {
                if r.end < s.lo && r.op.k == self.k && matches!(r.op.f, F::Get) && r.res == Res::V(Some(id)) {
                    last = last.max(r.t0);
                }
            }
            if s.t1 >= last + t {
                c |= E;
            }
        }
        c
    }
    /// operations on this key that overlap the one that wrote a value
    fn rivals<'b>(&'b self, w: &'b Rec) -> impl Iterator<Item = &'static Rec> + 'b {
        recs().iter().filter(move |r| r.op.k == self.k && overlap(r, w))
    }
    /// another operation that writes this key overlaps the step
    fn overwriting(&self, s: &St) -> bool {
        recs().iter().enumerate().any(|(i, r)| {
            i != s.rid
                && r.op.k == self.k
                && r.start < s.hi
                && r.end > s.lo
                && match r.op.f {
                    F::Ins | F::OrDefault | F::OrInsert => true,
                    _ => !r.runs.is_empty() && r.op.act == Act::Put,
                }
        })
    }
    /// known defect: a dead value is read while it is being overwritten
    fn dead_read(&self, id: u32, st: &St) -> bool {
        self.weak & DEAD_READ != 0 && id != 0 && self.overwriting(st)
            || self.weak & PRED_RACE != 0
                && id != 0
                && recs().iter().any(|r| r.op.f == F::InvIf)
                && recs().iter().enumerate().any(|(i, r)| (r.op.f == F::Pend || due(r) && i != st.rid) && r.start < st.hi && r.end > st.lo)
    }
    /// known defect: the deadline of the overwritten value is applied to the new one
    /// until the operation that writes it is about to return
    fn early_gone(&self, id: u32, st: &St) -> bool {
        // a value whose write overlaps invalidate_entries_if may count as covered until the
        // predicate has been processed
        let pred = self.writer(id).is_some_and(|w| {
            recs().iter().any(|r| r.op.f == F::InvIf && r.res == Res::Unit && overlap(r, w) && r.start < st.hi && r.op.pr.eval(self.k, id, w.op.w))
        });
        pred || self.weak & OLD_DEADLINE != 0 && self.writer(id).is_some_and(|w| w.start < st.hi && w.end > st.lo)
    }
    /// must this value be dead during the whole step?
    fn must_dead(&self, id: u32, s: &St) -> bool {
        if self.dead_read(id, s) {
            return false;
        }
        let Some(w) = self.writer(id) else { return false };
        if let Some((_, mut from)) = self.life(w, id, s) {
            if self.weak & OLD_DEADLINE != 0 {
                from = self.rivals(w).filter_map(|r| Some(self.life(r, id, s)?.1)).fold(from, u64::max);
            }
            if s.t0 >= from {
                return true;
            }
        }
        if let Some(t) = self.cfg.tti {
            let mut last = w.t1;
            for (i, r) in recs().iter().enumerate() {
                if i != s.rid && r.start < s.hi && r.op.k == self.k {
                    let hit = match &r.res {
                        Res::V(Some(x)) => *x == id,
                        Res::E(e) | Res::OptE(Some(e)) | Res::Comp(_, Some(e)) => e.id == id,
                        _ => r.seen == Some(Some(id)),
                    };
                    if hit && r.op.f != F::Rem {
                        last = last.max(r.t1);
                    }
                }
            }
            if s.t0 >= last.saturating_add(t) {
                return true;
            }
        }
        false
    }
    /// the value may be covered by an invalidation that overlaps the notification (cause only)
    fn inv_near(&self, n: &Notif) -> bool {
        recs().iter().any(|r| matches!(r.op.f, F::InvAll | F::InvIf) && r.start < n.e.max(n.b))
    }
    fn depart(&self, s: &mut S0, id: u32, causes: u8, by: Option<&St>) -> bool {
        if !self.lis {
            return true;
        }
        let Some(n) = self.n.get(s.j as usize) else {
            // a panicking listener is not called again
            let hi = by.map_or(u64::MAX, |b| recs()[b.rid].end);
            if g().notif[0].iter().any(|n| n.panicked && n.b < hi) {
                return true;
            }
            if self.weak & INV_RACE != 0 && by.is_none() && inv_race(id) {
                return true;
            }
            // not delivered yet: only possible for lazily removed or cancelled ones
            return match by {
                None => !self.settled,
                Some(b) => !self.settled && recs()[b.rid].res == Res::Cancelled,
            };
        };
        if n.id != id {
            return false;
        }
        let mut c = causes;
        if causes & (R | X) != 0 && (self.cfg.ttl.is_some() || self.cfg.tti.is_some() || self.cfg.exp.is_some()) {
            let d = self.vanish(id, &St { t1: n.t, lo: n.b, ..self.st[0] });
            c |= d & E;
        }
        if causes & R != 0 && self.inv_near(n) {
            c |= X;
        }
        if c & bit(n.cause) == 0 {
            return false;
        }
        if let Some(b) = by {
            let r = &recs()[b.rid];
            if n.b < r.start || (r.res != Res::Cancelled && (n.e == 0 || n.e > r.end)) {
                // a later operation may deliver what a cancelled one left behind
                let left_behind = self.cfg.flav == Flav::F && recs().iter().any(|q| q.res == Res::Cancelled && q.op.k == self.k);
                if !left_behind {
                    return false;
                }
            }
        }
        s.j += 1;
        true
    }
    /// the value leaves the map because a write or removal touches the key
    fn clear(&self, s: &mut S0, causes: u8, st: &St) -> bool {
        if s.cur != 0 {
            let id = s.cur;
            s.cur = 0;
            self.depart(s, id, causes, Some(st))
        } else if s.hid != 0 {
            let id = s.hid;
            let mut c = s.hidc;
            // an invalidate_all that is still in progress may or may not count
            if recs().iter().any(|r| r.op.f == F::InvAll && r.start < st.hi && r.end > st.lo) {
                c |= causes & R;
            }
            s.hid = 0;
            s.hidc = 0;
            self.depart(s, id, c, None)
        } else {
            true
        }
    }
    fn apply(&self, s: &mut S0, st: &St) -> bool {
        match st.k {
            SK::Read(x) => {
                s.cur == x && (x == 0 || !self.must_dead(x, st))
                    || x != 0 && s.cur == 0 && s.hid == x && self.dead_read(x, st)
                    || x == 0 && self.early_gone(s.cur, st)
            }
            SK::Has(b) => {
                (s.cur != 0) == b && (!b || !self.must_dead(s.cur, st))
                    || b && s.cur == 0 && s.hid != 0 && self.dead_read(s.hid, st)
                    || !b && self.early_gone(s.cur, st)
            }
            SK::Write(x) => {
                let ok = self.clear(s, R, st);
                s.cur = x;
                ok
            }
            SK::Take(x) => {
                if x == 0 && s.cur != 0 && self.early_gone(s.cur, st) {
                    return self.clear(s, X | E, st);
                }
                if x != 0 && s.cur == 0 && s.hid == x && self.dead_read(x, st) {
                    s.hidc |= X;
                    return self.clear(s, X, st);
                }
                s.cur == x && (x == 0 || !self.must_dead(x, st)) && self.clear(s, X, st)
            }
            SK::TakeAny => self.clear(s, X, st),
            SK::HideAll => {
                if s.cur != 0 {
                    s.hid = s.cur;
                    s.hidc = X | if self.cfg.cap.is_some() { S } else { 0 };
                    s.cur = 0;
                } else if s.hid != 0 {
                    // both ended its life
                    s.hidc |= X;
                }
                true
            }
            SK::HideIf(p) => {
                if s.cur != 0 {
                    let w = self.writer(s.cur).map_or(1, |r| r.op.w);
                    if p.eval(self.k, s.cur, w) {
                        s.hid = s.cur;
                        s.hidc = X | R | if self.cfg.cap.is_some() { S } else { 0 };
                        s.cur = 0;
                    }
                } else if s.hid != 0 {
                    s.hidc |= X;
                }
                true
            }
            SK::Miss(cond) => s.cur == 0 || cond || self.early_gone(s.cur, st),
            SK::CBegin(x) => {
                let seen = s.cur == x && (x == 0 || !self.must_dead(x, st))
                    || x != 0 && s.cur == 0 && s.hid == x && self.dead_read(x, st)
                    || x == 0 && self.early_gone(s.cur, st);
                if s.comp || !seen {
                    return false;
                }
                s.comp = true;
                true
            }
            SK::CEnd => {
                s.comp = false;
                true
            }
            SK::CWrite(x) => {
                s.comp = false;
                let ok = self.clear(s, R, st);
                s.cur = x;
                ok
            }
            SK::CTake(x) => {
                s.comp = false;
                if x == 0 && s.cur != 0 && self.weak & OLD_DEADLINE != 0 && self.early_gone(s.cur, st) {
                    // removes what it took for dead
                    return self.clear(s, X | E, st);
                }
                s.cur == x && self.clear(s, X, st)
            }
            SK::CTakeAny => {
                s.comp = false;
                self.clear(s, X, st)
            }
            SK::Opt => true,
        }
    }
    fn search(&mut self, s: S0) -> bool {
        self.nodes += 1;
        let n = self.st.len();
        if s.mask.count_ones() as usize == n {
            let mut s = s;
            if self.lis {
                if s.hid != 0 && self.settled {
                    let (id, c) = (s.hid, s.hidc);
                    s.hid = 0;
                    // a lazily removed value
                    if !self.depart(&mut s, id, c, None) {
                        return false;
                    }
                }
                if s.cur != 0 && ((s.j as usize) < self.n.len() || (self.settled && timed(self.cfg))) {
                    // the last value itself may have been dropped by a policy
                    let id = s.cur;
                    let c = self.vanish(id, &St { lo: u64::MAX, t1: u64::MAX / 2, ..self.st[0] });
                    if c == 0 || !self.depart(&mut s, id, c, None) {
                        return false;
                    }
                }
                return s.j as usize == self.n.len();
            }
            return true;
        }
        let key = rt::mix(rt::mix(s.mask, (s.cur as u64) << 32 | s.hid as u64), (s.hidc as u64) << 12 | (s.j as u64) << 4 | s.comp as u64);
        if self.memo.contains(&key) {
            return false;
        }
        for i in 0..n {
            if s.mask >> i & 1 == 1 {
                continue;
            }
            let st = self.st[i];
            if [st.pred, st.pred2].iter().any(|&p| p != NOP && s.mask >> p & 1 == 0) {
                continue;
            }
            if (0..n).any(|t| t != i && s.mask >> t & 1 == 0 && self.st[t].hi < st.lo) {
                continue;
            }
            let mut nx = s;
            nx.mask |= 1 << i;
            let mut a = nx;
            if self.apply(&mut a, &st) && self.search(a) {
                return true;
            }
            // a policy ended the value's life before this step
            if nx.cur != 0 {
                let c = self.vanish(nx.cur, &st);
                if c != 0 {
                    let mut a = nx;
                    a.hid = a.cur;
                    a.hidc = c;
                    a.cur = 0;
                    if self.apply(&mut a, &st) && self.search(a) {
                        return true;
                    }
                }
            }
            if st.opt {
                let mut a = nx;
                a.comp = if matches!(st.k, SK::CWrite(_) | SK::CTakeAny | SK::CEnd) { false } else { a.comp };
                if self.search(a) {
                    return true;
                }
            }
        }
        self.memo.push(key);
        false
    }
}

fn show(cfg: &Cfg, k: u32, st: &[St]) -> String {
    let mut s = String::new();
    for r in recs().iter() {
        if r.op.k == k || matches!(r.op.f, F::InvAll | F::InvIf | F::Iter) {
            s += &format!(" T{} [{}..{}] {:?}", r.tid, r.start, r.end, r.op.f);
            if r.op.id != 0 {
                s += &format!(" v{}", r.op.id);
            }
            if r.op.is_compute() || r.op.is_load() {
                s += &format!(" {:?}", r.op.act);
            }
            s += &format!(" -> {:?}", r.res);
            if let Some(x) = r.seen {
                s += &format!(" (saw {x:?})");
            }
            s += ";";
        }
    }
    if cfg.lis != Lis::No {
        s += " listener:";
        for n in g().notif[0].iter().filter(|n| n.k == k) {
            s += &format!(" v{} {:?} [{}..{}]", n.id, n.cause, n.b, n.e);
        }
    }
    let _ = st;
    s
}

/// The tag put in front of an unexplainable history.
fn classify(cfg: &Cfg, k: u32) -> &'static str {
    let mut t = "C01";
    for r in recs().iter() {
        match r.op.f {
            F::InvAll => return "C08",
            F::InvIf => return "C09",
            _ if r.op.k != k => {}
            _ if r.op.is_compute() => t = "C05",
            _ if r.op.is_load() && t == "C01" => t = "C03",
            _ => {}
        }
    }
    if cfg.lis != Lis::No && t == "C01" {
        t = "C13";
    }
    t
}

/// Check the recorded history of all keys up to `maxk`.
pub fn check_history(cfg: &Cfg, maxk: u32, settled: bool) {
    let r = sys(|| check_history_(cfg, maxk, settled));
    if let Err(e) = r {
        fail(e);
    }
}
/// The expiry callbacks an operation made are about its own key and value, carry a time inside the
/// operation that is not before the value was written, and are made exactly when the operation says.
fn check_callbacks(cfg: &Cfg) -> Result<(), String> {
    let cbs = &g().cbs[0];
    if cfg.exp.is_none() {
        return Ok(());
    }
    for (rid, r) in recs().iter().enumerate() {
        if !r.done || matches!(r.res, Res::Cancelled | Res::Panic | Res::Running) {
            continue;
        }
        let (mut reads, mut writes) = (0, 0);
        for c in cbs.iter().filter(|c| c.by == Some(rid)) {
            let e = |m: &str| Err(format!("C07: {m}: {c:?} made by {r:?}"));
            if c.k != r.op.k {
                return e("an expiry callback for another key");
            }
            if c.at < r.t0 || c.at > r.t1 {
                return e("an expiry callback with a time outside the operation");
            }
            if c.kind == CbK::Read {
                reads += 1;
                if c.lm.is_none_or(|t| t > c.at) {
                    return e("a read callback with a read time before the write time");
                }
                if r.op.f == F::Get && r.res != Res::V(Some(c.id)) {
                    return e("a read callback for a value that was not returned");
                }
            } else {
                writes += 1;
                if c.id != r.op.id {
                    return e("an expiry callback for another value");
                }
                if c.kind == CbK::Create && c.dur.is_some() {
                    return e("a create callback with a duration");
                }
            }
        }
        let (wr, ww): (Option<usize>, Option<usize>) = match (r.op.f, &r.res) {
            (F::Get, Res::V(x)) => (Some(x.is_some() as usize), Some(0)),
            (F::Has | F::Inv | F::InvAll | F::InvIf | F::Iter | F::Pend | F::Counts | F::Adv | F::Rem, _) => (Some(0), Some(0)),
            (F::Ins, _) => (Some(0), Some(1)),
            (F::Upsert, Res::E(_)) => (None, Some(1)),
            (F::Compute | F::TryCompute | F::TryComputeNE, Res::Comp(ck, _)) => (None, Some(matches!(ck, CK::Inserted | CK::Replaced) as usize)),
            (f, Res::V(Some(_)) | Res::E(_) | Res::OptE(Some(_))) if fam(&r.op) != 0 && f != F::OrInsert && f != F::OrDefault => {
                (None, Some((!r.runs.is_empty()) as usize))
            }
            _ => (None, None),
        };
        if wr.is_some_and(|n| n != reads) || ww.is_some_and(|n| n != writes) {
            return Err(format!("C07: {r:?} made {reads} read and {writes} write callbacks"));
        }
    }
    Ok(())
}

fn check_history_(cfg: &Cfg, maxk: u32, settled: bool) -> Result<(), String> {
    if let Some(k) = overlapped() {
        return Err(format!("C14: two notifications for key {k} overlapped"));
    }
    // initializers of one family never overlap
    let rs = recs();
    for (i, a) in rs.iter().enumerate() {
        for b in rs[..i].iter() {
            if a.op.k == b.op.k && fam(&a.op) != 0 && fam(&a.op) == fam(&b.op) {
                for x in &a.runs {
                    for y in &b.runs {
                        if x.0 < y.1 && y.0 < x.1 {
                            return Err(format!("C03: two initializers for key {} ran at the same time", a.op.k));
                        }
                    }
                }
            }
        }
    }
    check_callbacks(cfg)?;
    for k in 1..=maxk {
        let lis = cfg.lis != Lis::No;
        let n: Vec<&Notif> = if lis { g().notif[0].iter().filter(|n| n.k == k).collect() } else { Vec::new() };
        if !lis && !g().notif[0].is_empty() {
            return Err("C13: a notification without a listener".into());
        }
        let mut seen = [false; 64];
        for x in &n {
            let i = (x.id as usize) & 63;
            if seen[i] {
                return Err(format!("C13: v{} was reported twice;{}", x.id, show(cfg, k, &[])));
            }
            seen[i] = true;
        }
        let mut h = Hist { cfg, k, st: Vec::new(), n, memo: Vec::new(), lis, settled, nodes: 0, weak: 0 };
        h.build().map_err(|e| format!("{e};{}", show(cfg, k, &[])))?;
        if h.st.is_empty() {
            if !h.n.is_empty() {
                return Err(format!("C13: notifications for key {k} that was never written"));
            }
            continue;
        }
        assert!(h.st.len() < 60);
        let s = S0 { mask: 0, cur: 0, hid: 0, hidc: 0, j: 0, comp: false };
        if !h.search(s) {
            for w in [DEAD_READ, OLD_DEADLINE, INV_RACE, PRED_RACE, DEAD_READ | PRED_RACE, DEAD_READ | OLD_DEADLINE, DEAD_READ | INV_RACE] {
                if w & OLD_DEADLINE != 0 && cfg.exp.is_none() {
                    continue;
                }
                h.weak = w;
                h.memo.clear();
                if h.search(s) {
                    return Err(format!("C06: {} no order of the operations on key {k} explains this history:{}", weak_tag(w), show(cfg, k, &h.st)));
                }
            }
            h.weak = 0;
            h.memo.clear();
            // without the listener the history may be fine
            let mut tag = classify(cfg, k);
            if lis {
                h.lis = false;
                h.memo.clear();
                if h.search(s) {
                    tag = "C13";
                }
            }
            return Err(format!("{tag}: no order of the operations on key {k} explains this history:{}", show(cfg, k, &h.st)));
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
pub struct CO {
    pub keys: u32,
    /// run maintenance after the prelude
    pub pre_pend: bool,
    /// futures may be dropped at their pending points
    pub cancel: bool,
    /// threads own clones of the handle
    pub own: bool,
    /// at the end nobody calls `run_pending_tasks`: time passes and a key is read
    pub auto: bool,
}
impl Default for CO {
    fn default() -> CO {
        CO { keys: 1, pre_pend: true, cancel: false, own: false, auto: false }
    }
}

/// One concurrent program: prelude, threads in parallel, quiescence, checks.
pub fn conc(cfg: &Cfg, co: CO, pre: &[Op], th: &[Vec<Op>]) {
    begin();
    let c = build(cfg);
    g().re_cache = Some(&c as *const C);
    let mut id = 0;
    for o in pre {
        id += 1;
        run(&c, &o.id(id));
    }
    if co.pre_pend {
        run(&c, &op(F::Pend, 0));
    }
    let mut fs: Vec<Box<dyn FnOnce()>> = Vec::new();
    for (t, ops) in th.iter().enumerate() {
        let ops: Vec<Op> = ops.iter().enumerate().map(|(i, o)| o.id((t as u32 + 1) * 10 + i as u32 + 1)).collect();
        let cp = &c as *const C;
        let own = if co.own { Some(c.clone()) } else { None };
        fs.push(Box::new(move || {
            let c = match &own {
                Some(c) => c,
                None => unsafe { &*cp },
            };
            for o in &ops {
                if co.cancel && o.f != F::Adv {
                    run_c(c, o, |_| rt::choose_fault(2) == 1);
                } else {
                    run(c, o);
                }
            }
        }));
    }
    rt::par(fs);
    quiesce(cfg, co, &c);
    g().re_cache = None;
}

fn timed(cfg: &Cfg) -> bool {
    cfg.ttl.is_some() || cfg.tti.is_some() || cfg.exp.is_some()
}
/// No lock or waiter is left behind: every key that was loaded, computed or (with a listener) written
/// can be loaded, computed and removed once more, and answers like a fresh one.
fn probe(cfg: &Cfg, co: CO, c: &C) {
    for k in 1..=co.keys {
        let mut fams = [false; 4];
        for r in recs().iter().filter(|r| r.op.k == k) {
            match r.op.f {
                F::GetWith | F::GetWithIf | F::OrDefault | F::OrInsert | F::OrInsertWith | F::OrInsertWithIf => fams[0] = true,
                F::OptGetWith | F::OrOpt => fams[1] = true,
                F::TryGetWith | F::OrTry | F::TryGetUnit => fams[2] = true,
                F::Upsert | F::Compute | F::TryCompute | F::TryComputeNE => fams[3] = true,
                _ => {}
            }
        }
        let locks = cfg.lis != Lis::No;
        if fams == [false; 4] && !locks {
            continue;
        }
        let mut id = 800 + 10 * k;
        let mut go = |f| {
            id += 1;
            // (a writer that waits for room takes a long time)
            if rt::opts().chan_weight > 1 {
                run(c, &op(F::Pend, 0));
            }
            run(c, &op(f, k).id(id));
        };
        if locks {
            go(F::Ins);
        }
        go(F::Rem);
        for (i, f) in [F::GetWith, F::OptGetWith, F::TryGetWith, F::Compute].into_iter().enumerate() {
            if fams[i] {
                go(f);
                go(F::Rem);
            }
        }
    }
}
pub fn quiesce(cfg: &Cfg, co: CO, c: &C) {
    let settle = || {
        if co.auto {
            run(c, &adv(1 << 17));
            run(c, &op(F::Get, 99));
        } else {
            run(c, &op(F::Pend, 0));
        }
    };
    settle();
    settle();
    let cnt = counts(c);
    let notes = g().notif[0].len();
    let mut live = (0u64, 0u64);
    let mut out = String::new();
    for k in 1..=co.keys {
        let rid = run(c, &op(F::Get, k));
        if let Res::V(Some(id)) = g().recs[rid].res {
            live.0 += 1;
            let w = recs().iter().find(|r| r.op.id == id).map_or(1, |r| r.op.w);
            live.1 += if cfg.weigher { w as u64 } else { 1 };
        }
    }
    let _ = notes;
    let timed = timed(cfg);
    if timed {
        // every deadline passes and every timer ticks
        let long = cfg.exp.is_some_and(|e| [e.create, e.update, e.read].iter().any(|a| a.iter().any(|a| matches!(a, Ans::In(n) if *n > 1 << 18))));
        run(c, &op(F::Adv, 0).d(if long { 1 << 22 } else { 1 << 20 }));
        settle();
        settle();
    }
    let last = counts(c);
    probe(cfg, co, c);
    check_history(cfg, co.keys, true);
    if timed && last != (0, 0) {
        fail(sys(|| format!("C21: entry_count and weighted_size are {last:?} after every entry has expired and maintenance has run")));
    }
    if cfg.lis != Lis::Re && !recs().iter().any(|r| r.op.re) {
        let races = (1..=co.keys).filter(|&k| recs().iter().any(|r| r.op.k == k && r.op.id != 0 && inv_race(r.op.id))).count() as u64;
        // such an entry also keeps those behind it
        if !timed && races > 0 && cnt.0 > live.0 && cnt.0 <= co.keys as u64 {
            fail(sys(|| format!("C11: [read-races-invalidate-all] entry_count and weighted_size are {cnt:?} after maintenance, the entries in the cache amount to {live:?}")));
        }
        // a dead entry whose write overlapped invalidate_all may be queued behind later ones
        let races = (1..=co.keys).any(|k| recs().iter().any(|r| r.op.k == k && r.op.id != 0 && inv_write_race(r.op.id)));
        if !timed && races && live.0 > 0 && cnt.0 > live.0 && cnt.0 <= co.keys as u64 {
            fail(sys(|| format!("C11: [write-races-invalidate-all] entry_count and weighted_size are {cnt:?} after maintenance, the entries in the cache amount to {live:?}")));
        }
        if (!timed && cnt != live) || cnt.0 < live.0 || cnt.1 < live.1 {
            fail(sys(|| format!("C11: entry_count and weighted_size are {cnt:?} after maintenance, the entries in the cache amount to {live:?}")));
        }
        if let Some(cap) = cfg.cap {
            if cnt.1 > cap {
                fail(sys(|| format!("C10: weighted_size {} is over the capacity {cap} after maintenance", cnt.1)));
            }
        }
    }
    rt::outcome(|| {
        for r in recs().iter() {
            out += &format!("{:?}", r.res);
            if let Some(s) = r.seen {
                out += &format!("~{s:?}");
            }
            out += ",";
        }
        for n in &g().notif[0] {
            out += &format!(" {}:{:?}", n.id, n.cause);
        }
        out
    });
}

// ---------------------------------------------------------------------------------- programs

use crate::unit::*;
pub type Prog = Vec<Op>;

/// all sequences over `a` of the given lengths
pub fn seqs(a: &[Op], min: usize, max: usize) -> Vec<Prog> {
    let mut out = Vec::new();
    let mut cur: Vec<Prog> = vec![vec![]];
    for l in 0..=max {
        if l >= min {
            out.extend(cur.iter().filter(|p| !p.is_empty()).cloned());
        }
        let mut nx = Vec::new();
        for p in &cur {
            for o in a {
                let mut q = p.clone();
                q.push(*o);
                nx.push(q);
            }
        }
        cur = nx;
    }
    out
}
fn pick(n: usize) -> usize {
    if n <= 16 {
        return rt::choose(n);
    }
    let hi = rt::choose(n.div_ceil(16));
    let lo = rt::choose(16.min(n - hi * 16));
    hi * 16 + lo
}

/// Every combination of a prelude and one program per thread. Threads with the same program list
/// are interchangeable: only one order of each combination is explored.
pub fn programs(
    name: impl Into<String>,
    props: &[&'static str],
    cfgs: Vec<Cfg>,
    co: CO,
    pres: Vec<Prog>,
    quick: Vec<Vec<Prog>>,
    thorough: Vec<Vec<Prog>>,
) -> Unit {
    unit(name, props, move |t| {
        let sets = if t == Tier::Quick { &quick } else { &thorough };
        let cfg = &cfgs[rt::choose(cfgs.len())];
        let pre = sys(|| pres[rt::choose(pres.len())].clone());
        let mut idx: Vec<usize> = sys(Vec::new);
        for (i, s) in sets.iter().enumerate() {
            let same = i > 0 && sets[i - 1].len() == s.len() && sets[i - 1] == *s;
            let lo = if same { idx[i - 1] } else { 0 };
            let x = lo + pick(s.len() - lo);
            sys(|| idx.push(x));
        }
        let th: Vec<Prog> = sys(|| idx.iter().zip(sets).map(|(&i, s)| s[i].clone()).collect());
        conc(cfg, co, &pre, &th);
        sys(|| drop((pre, idx, th)));
    })
    .sdepth(4)
}
/// The segmented cache repeats the same code per segment: one preemption less in quick checks.
fn less_for_seg(mut u: Unit) -> Unit {
    if u.name.ends_with("-seg") && u.bound.0 > 1 {
        u.bound.0 -= 1;
    }
    u
}

pub fn flavs() -> [(&'static str, Flav); 3] {
    [("sync", Flav::S), ("seg", Flav::G(2)), ("future", Flav::F)]
}


fn one(v: &[Op]) -> Vec<Prog> {
    v.iter().map(|o| vec![*o]).collect()
}
fn cross(a: &[Prog], b: &[Prog]) -> Vec<Prog> {
    let mut v = Vec::new();
    for x in a {
        for y in b {
            let mut p = x.clone();
            p.extend(y);
            v.push(p);
        }
    }
    v
}

pub static E_WHEEL: ExpScript = ExpScript { create: &[Ans::In(1 << 19)], update: &[Ans::In(1 << 19)], read: &[Ans::Same] };
pub static E_WHEEL_R: ExpScript = ExpScript { create: &[Ans::In(1 << 20)], update: &[Ans::In(1 << 21)], read: &[Ans::In(3 << 19)] };
pub static E_FIX: ExpScript = ExpScript { create: &[Ans::In(4)], update: &[Ans::In(4)], read: &[Ans::Same] };

/// One write fills the queue of write records.
fn full1(o: &mut rt::Opts) {
    o.chan_weight = 384;
}
fn full2(o: &mut rt::Opts) {
    o.chan_weight = 192;
}

pub fn units() -> Vec<Unit> {
    let mut v = Vec::new();
    let mut add = |u: Unit| v.push(less_for_seg(u));
    for (fname, f) in flavs() {
        let fut = f == Flav::F;
        let (get, has, ins, rem, inv, pend) = (op(F::Get, 1), op(F::Has, 1), op(F::Ins, 1), op(F::Rem, 1), op(F::Inv, 1), op(F::Pend, 0));
        let pres = vec![vec![], vec![ins]];
        let c0 = Cfg::new(f);
        let lis = |l: Lis| Cfg::new(f).lis(l);
        // ---- plain reads and writes of one key
        let a = [get, has, ins, rem, inv, pend];
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            let props: &[&str] = if l == Lis::No { &["C01", "C11"] } else { &["C13", "C14"] };
            add(programs(
                format!("conc-rw{ln}-{fname}"),
                props,
                vec![lis(l)],
                CO::default(),
                pres.clone(),
                vec![one(&a), seqs(&a, 2, 2)],
                vec![seqs(&a, 2, 2), seqs(&a, 2, 2)],
            )
            .bound(2, 3)
            .shards(4, 16)
            .what("all pairs of threads over get/contains/insert/remove/invalidate/maintenance"));
            add(programs(
                format!("conc-rw3{ln}-{fname}"),
                props,
                vec![lis(l)],
                CO::default(),
                pres.clone(),
                vec![one(&[get, ins, rem]), one(&[get, ins, rem]), one(&[get, ins, rem])],
                vec![one(&a), one(&a), one(&a)],
            )
            .bound(2, 4)
            .shards(4, 16)
            .what("all triples of threads, one operation each"));
        }
        // ---- two keys that collide
        let i2 = op(F::Ins, 2);
        let r2 = op(F::Rem, 2);
        let g2 = op(F::Get, 2);
        add(programs(
            format!("conc-collide-{fname}"),
            &["C01", "C02", "C11"],
            vec![c0.hm(HM::Same), c0.hm(HM::Near)],
            CO { keys: 2, ..CO::default() },
            vec![vec![], vec![ins, i2], vec![ins, rem]],
            vec![seqs(&[ins, rem], 1, 2), seqs(&[i2, r2, g2], 1, 2)],
            vec![seqs(&[ins, rem, get], 1, 2), seqs(&[i2, r2, g2], 1, 2)],
        )
        .bound(2, 3)
        .shards(2, 16)
        .what("keys with equal hash codes and neighbouring buckets"));
        // ---- growth and compaction of the table: 16 buckets in the segment of these keys
        let twelve: Prog = (1..=12).map(|k| op(F::Ins, k)).collect();
        let full: Prog = [&twelve[..], &[op(F::Rem, 12)]].concat();
        let dead: Prog = (1..=4).map(|k| op(F::Ins, k)).chain([op(F::Rem, 3), op(F::Rem, 4)]).collect();
        let dead2: Prog = (1..=4).map(|k| op(F::Ins, k)).chain([op(F::Rem, 1), op(F::Rem, 2)]).collect();
        // 512 buckets that shrink with the 52nd tombstone
        let big = |n: u32| -> Prog { (1..=57).map(|k| op(F::Ins, k)).chain((5..5 + n).map(|k| op(F::Rem, k))).collect() };
        for (hn, hm) in [("same", HM::Same), ("near", HM::Near)] {
            for (n, pres, cap, keys, a, b, what) in [
                ("grow", vec![twelve.clone(), full.clone()], 1, 15, 14, 15, "operations while the table of the segment is expanded"),
                ("gc", vec![dead.clone(), dead2.clone()], 1, 6, 5, 6, "operations while tombstones are collected"),
                ("shrink", vec![big(51), big(52)], 15_900, 58, 57, 58, "operations while the table of the segment shrinks"),
            ] {
                if n == "shrink" && hn == "same" {
                    continue;
                }
                let (ia, ra, ga, ib, gb) = (op(F::Ins, a), op(F::Rem, a), op(F::Get, a), op(F::Ins, b), op(F::Get, b));
                // (an iterator walks over all the buckets of the other segments)
                let it = if n == "shrink" { op(F::Get, 2) } else { op(F::Iter, 0) };
                let (i3, r2, g2, u2) = (op(F::Ins, 3), op(F::Rem, 2), op(F::Get, 2), op(F::Upsert, 2));
                add(programs(
                    format!("conc-{n}-{hn}-{fname}"),
                    if n == "shrink" { &["C02", "C17"] } else { &["C02", "C01", "C15", "C17"] },
                    vec![c0.hm(hm).init_cap(cap)],
                    CO { keys, ..CO::default() },
                    pres,
                    vec![
                        vec![vec![ia], vec![ia, ra], vec![ra, ia]],
                        vec![vec![ib, ga], vec![ib], vec![ia], vec![r2], vec![rem, ins], vec![i3], vec![get, g2], vec![ga, gb], vec![u2], vec![it]],
                    ],
                    vec![seqs(&[ia, ra, ga], 1, 2), seqs(&[ib, ia, r2, ins, i3, u2, g2, it], 1, 2)],
                )
                .bound(if n == "shrink" { 1 } else { 2 }, 3)
                .shards(4, 16)
                .what(what));
                add(programs(
                    format!("conc-{n}3-{hn}-{fname}"),
                    if n == "shrink" { &["C02"] } else { &["C02", "C15"] },
                    vec![c0.hm(hm).init_cap(cap)],
                    CO { keys, ..CO::default() },
                    vec![match n {
                        "grow" => twelve.clone(),
                        "gc" => dead.clone(),
                        _ => big(51),
                    }],
                    vec![vec![vec![ia]], vec![vec![ib], vec![r2]], vec![vec![r2], vec![i3], vec![it], vec![g2]]],
                    vec![seqs(&[ia, ra], 1, 2), seqs(&[ib, r2, ins], 1, 1), seqs(&[r2, i3, it, g2, u2], 1, 2)],
                )
                .bound(1, 2)
                .shards(4, 16)
                .what(what));
            }
        }
        // ---- loads
        let ld = |f: F| op(f, 1).y(1);
        let mut loads = vec![
            ld(F::GetWith),
            ld(F::TryGetWith),
            ld(F::TryGetWith).act(Act::Err),
            ld(F::OptGetWith).act(Act::Nop),
            ld(F::OrInsertWith).r(),
            ld(F::OrTry),
            ld(F::OrInsert),
            ld(F::OrDefault).r(),
            ld(F::GetWithIf).cond(true),
        ];
        let others = vec![get, ins, rem, inv];
        add(programs(
            format!("conc-load-{fname}"),
            &["C03", "C01"],
            vec![c0],
            CO::default(),
            pres.clone(),
            vec![one(&loads), [one(&loads), one(&others), cross(&one(&[ins, rem]), &one(&loads[..2]))].concat()],
            vec![seqs(&loads, 1, 1), [seqs(&loads, 1, 2), cross(&one(&others), &one(&loads)), cross(&one(&loads), &one(&others))].concat()],
        )
        .bound(2, 3)
        .shards(4, 16)
        .what("initializers racing with initializers, reads and writes"));
        add(programs(
            format!("conc-load3-{fname}"),
            &["C03"],
            vec![c0],
            CO::default(),
            vec![vec![]],
            vec![one(&loads[..1]), one(&loads[..1]), one(&[loads[0], ins, rem])],
            vec![one(&loads[..5]), one(&loads[..5]), one(&[loads[0], loads[1], ins, rem, get])],
        )
        .bound(2, 3)
        .shards(2, 16)
        .what("three callers"));
        loads.extend([
            ld(F::OptGetWith),
            ld(F::OrOpt).act(Act::Nop).r(),
            ld(F::OrOpt),
            ld(F::OrTry).act(Act::Err).r(),
            ld(F::TryGetUnit).act(Act::Err),
            ld(F::GetWith).act(Act::Panic),
            ld(F::TryGetWith).act(Act::Panic),
            ld(F::OptGetWith).act(Act::Panic),
            ld(F::OrInsertWith).act(Act::Panic),
        ]);
        add(programs(
            format!("conc-fail-{fname}"),
            &["C04", "C03"],
            vec![c0],
            CO::default(),
            vec![vec![]],
            vec![one(&loads), one(&loads)],
            vec![one(&loads), [seqs(&loads, 1, 2)].concat()],
        )
        .bound(2, 3)
        .shards(4, 16)
        .what("failing, absent and panicking initializers with waiters"));
        // panics in the caller's other callbacks: the condition, the weigher
        let cw = c0.weigher();
        let bad = [
            op(F::GetWithIf, 1).cond(true).cp(1),
            op(F::GetWithIf, 1).cond(true).cp(2),
            op(F::OrInsertWithIf, 1).cond(true).cp(2).r(),
            ld(F::GetWith).w(BAD_W),
            ld(F::TryGetWith).w(BAD_W),
            op(F::OrInsert, 1).w(BAD_W),
            op(F::Upsert, 1).w(BAD_W),
            op(F::Compute, 1).w(BAD_W),
            op(F::Ins, 1).w(BAD_W),
        ];
        let after = [ld(F::GetWith), ld(F::GetWithIf).cond(true), ld(F::TryGetWith), op(F::Compute, 1), op(F::Upsert, 1), get, ins, rem];
        add(programs(
            format!("conc-fail-cb-{fname}"),
            &["C04", "C05"],
            vec![cw],
            CO::default(),
            pres.clone(),
            vec![one(&bad), one(&after)],
            vec![cross(&one(&bad), &one(&after)), one(&after)],
        )
        .bound(2, 3)
        .shards(2, 8)
        .what("panics in conditions and weighers"));
        add(programs(
            format!("conc-fail-cb-seq-{fname}"),
            &["C04", "C05"],
            vec![cw],
            CO::default(),
            pres.clone(),
            vec![cross(&one(&bad), &one(&after))],
            vec![cross(&cross(&one(&bad), &one(&bad)), &one(&after))],
        )
        .bound(0, 0)
        .what("panics in conditions and weighers, then another call on the key"));
        let fails = [loads[2], loads[3], ld(F::GetWith).act(Act::Panic), ld(F::TryGetUnit).act(Act::Err)];
        add(programs(
            format!("conc-fail3-{fname}"),
            &["C04", "C03"],
            vec![c0],
            CO::default(),
            vec![vec![]],
            vec![one(&fails[..3]), one(&[loads[0], loads[1], loads[2]]), one(&[loads[0], loads[3]])],
            vec![one(&fails), one(&loads[..6]), one(&loads[..6])],
        )
        .bound(2, 3)
        .shards(4, 16)
        .what("a failing initializer with two waiters"));
        // ---- computes
        let mut comps = vec![
            op(F::Upsert, 1),
            op(F::Upsert, 1).y(1).r(),
            op(F::Compute, 1).y(1),
            op(F::Compute, 1).act(Act::Rem),
            op(F::Compute, 1).act(Act::Nop).y(1),
            op(F::TryCompute, 1).act(Act::Err).y(1),
            op(F::Upsert, 1).act(Act::Panic).y(1),
        ];
        if fut {
            comps.push(op(F::TryComputeNE, 1).y(1));
            comps.push(op(F::TryComputeNE, 1).act(Act::Rem));
        }
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            add(programs(
                format!("conc-compute{ln}-{fname}"),
                if l == Lis::No { &["C05", "C01"] } else { &["C05", "C13"] },
                vec![lis(l)],
                CO::default(),
                pres.clone(),
                vec![one(&comps), [one(&comps), one(&[get, ins, rem, inv, ld(F::GetWith)]), vec![vec![ins, rem], vec![rem, ins], vec![ins, get]]].concat()],
                vec![seqs(&comps, 1, 1), [seqs(&comps, 1, 2), seqs(&[get, ins, rem, inv, ld(F::GetWith)], 1, 2)].concat()],
            )
            .bound(2, 3)
            .shards(4, 16)
            .what("read-modify-write against computes, reads, writes and loads"));
        }
        add(programs(
            format!("conc-compute3-{fname}"),
            &["C05"],
            vec![c0],
            CO::default(),
            pres.clone(),
            vec![one(&comps[1..4]), one(&comps[1..4]), one(&[comps[1], ins, rem])],
            vec![one(&comps), one(&comps), one(&[comps[1], comps[3], ins, rem])],
        )
        .bound(1, 3)
        .shards(2, 16)
        .what("three threads"));
        // ---- callers queue behind an initializer that gives way
        {
            let gv = |f, a| op(f, 1).act(a).y(GIVE);
            let q = [gv(F::GetWith, Act::Put), gv(F::GetWith, Act::Panic), gv(F::TryGetWith, Act::Err), gv(F::TryGetWith, Act::Put), gv(F::OptGetWith, Act::Nop)];
            add(programs(
                format!("conc-load-queue-{fname}"),
                &["C03", "C04", "C18"],
                vec![c0],
                CO::default(),
                vec![vec![]],
                vec![one(&[q[0], q[1], q[3]]), one(&[q[0], q[3]]), one(&[q[1], q[2], q[4]]), one(&[q[0], q[3], rem])],
                vec![one(&q), one(&q), one(&q), one(&[q[0], q[2], q[3], q[4], rem, ins])],
            )
            .bound(1, 2)
            .shards(8, 16)
            .what("four callers, the initializer gives way to the others"));
            let qc = [
                gv(F::Upsert, Act::Put),
                gv(F::Compute, Act::Put),
                gv(F::Compute, Act::Rem),
                gv(F::Compute, Act::Nop),
                gv(F::TryCompute, Act::Err),
                gv(F::Compute, Act::Panic),
            ];
            add(programs(
                format!("conc-compute-queue-{fname}"),
                &["C05", "C04", "C18"],
                vec![c0],
                CO::default(),
                vec![vec![], vec![ins]],
                vec![one(&[qc[0], qc[4], qc[5]]), one(&[qc[0], qc[2]]), one(&[qc[1]]), one(&[qc[0], rem])],
                vec![one(&qc), one(&qc), one(&qc[..3]), one(&[qc[0], qc[1], qc[2], rem, ins])],
            )
            .bound(1, 2)
            .shards(8, 16)
            .what("four compute closures queue, each gives way to the others"));
        }
        // ---- closures that call the cache
        {
            let (l, l2) = (op(F::GetWith, 1).re(), op(F::GetWith, 2).re());
            let (t, t2) = (op(F::TryGetWith, 1).re(), op(F::TryGetWith, 2).act(Act::Err).re());
            let cs = [op(F::Upsert, 1).re(), op(F::Compute, 1).re(), op(F::Compute, 1).act(Act::Rem).re()];
            let u2 = op(F::Upsert, 2).re();
            let near = |l: Lis| Cfg::new(f).lis(l).hm(HM::Near);
            add(programs(
                format!("conc-reclosure-{fname}"),
                &["C03", "C18", "C05", "C04"],
                vec![near(Lis::No), near(Lis::Log)],
                CO { keys: 2, ..CO::default() },
                vec![vec![], vec![ins, i2]],
                vec![one(&[l, t, cs[0], cs[1], cs[2]]), one(&[l, l2, t2, u2, ins, rem, i2, pend])],
                vec![one(&[l, t, cs[0], cs[1], cs[2]]), seqs(&[l, l2, t2, u2, ins, rem, i2, pend], 1, 2)],
            )
            .bound(1, 2)
            .shards(4, 16)
            .what("initializers and compute closures that read, write, load, compute and maintain in the cache"));
        }
        // ---- invalidation of everything
        let ia = op(F::InvAll, 0);
        let it = op(F::Iter, 0);
        let up = op(F::Upsert, 1);
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            add(programs(
                format!("conc-invall{ln}-{fname}"),
                &["C08", "C11"],
                vec![lis(l)],
                CO::default(),
                vec![vec![], vec![ins]],
                vec![vec![vec![ia], vec![ia, ins], vec![ia, get], vec![ins, ia], vec![ia, ia]], seqs(&[get, has, ins, rem, up, pend, it], 1, 2)],
                vec![seqs(&[ia, ins, get, pend], 1, 2), seqs(&[get, has, ins, rem, up, pend, it, ia], 1, 2)],
            )
            .bound(2, 3)
            .shards(4, 16)
            .what("invalidate_all against everything"));
            let cfg = lis(l).closures();
            let (k1, ev) = (op(F::InvIf, 0).pr(Pr::All), op(F::InvIf, 0).pr(Pr::Even));
            add(programs(
                format!("conc-invif{ln}-{fname}"),
                &["C09", "C11"],
                vec![cfg],
                CO::default(),
                vec![vec![], vec![ins]],
                vec![vec![vec![k1], vec![k1, get], vec![ins, k1], vec![k1, ev], vec![k1, pend]], seqs(&[get, has, ins, rem, up, pend, it], 1, 2)],
                vec![seqs(&[k1, ev, ins, get, pend], 1, 2), seqs(&[get, has, ins, rem, up, pend, it, k1], 1, 2)],
            )
            .bound(2, 3)
            .shards(4, 16)
            .what("invalidate_entries_if against everything"));
        }
        // ---- listeners that take time, panic or call back
        let la = [ins, rem, inv, pend];
        add(programs(
            format!("conc-lis-slow-{fname}"),
            &["C14", "C13", "C18"],
            vec![lis(Lis::Slow(1))],
            CO::default(),
            pres.clone(),
            vec![seqs(&la, 1, 2), seqs(&[ins, rem, up, get], 1, 2)],
            vec![seqs(&[ins, rem, inv, up, pend], 2, 2), seqs(&[ins, rem, up, get], 2, 2)],
        )
        .bound(1, 2)
        .shards(4, 16)
        .what("slow listener"));
        add(programs(
            format!("conc-lis-queue-{fname}"),
            &["C14", "C13"],
            vec![lis(Lis::Yield)],
            CO::default(),
            vec![vec![ins]],
            vec![one(&[ins, rem]), one(&[ins, rem]), one(&[ins, rem]), one(&[ins, rem])],
            vec![one(&[ins, rem]), one(&[ins, rem, up]), one(&[ins, rem]), one(&[ins, rem, inv])],
        )
        .bound(2, 3)
        .shards(8, 16)
        .what("four threads queue for one key behind a listener that gives way"));
        add(programs(
            format!("conc-lis-panic-{fname}"),
            &["C14", "C18"],
            vec![lis(Lis::Panic(1)), lis(Lis::Panic(2))],
            CO::default(),
            pres.clone(),
            vec![seqs(&la, 1, 2), seqs(&[ins, rem, up], 1, 2)],
            vec![seqs(&la, 2, 2), seqs(&[ins, rem, up, get, ia], 2, 2)],
        )
        .bound(1, 2)
        .shards(4, 16)
        .what("panicking listener"));
        add(programs(
            format!("conc-lis-reenter-{fname}"),
            &["C18", "C14"],
            vec![lis(Lis::Re)],
            CO { keys: 2, ..CO::default() },
            vec![vec![ins], vec![ins, i2]],
            vec![seqs(&la, 1, 2), seqs(&[ins, i2, r2], 1, 2)],
            vec![seqs(&la, 2, 2), seqs(&[ins, i2, r2], 2, 2)],
        )
        .bound(1, 2)
        .shards(2, 16)
        .what("listener that calls back into the cache"));
        // ---- expiration while other threads work
        let d = adv(4);
        for (tn, cfg) in [("ttl", { let mut c = c0; c.ttl = Some(4); c }), ("tti", { let mut c = c0; c.tti = Some(4); c }), ("exp", c0.exp(E_FIX))] {
            for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
                add(programs(
                    format!("conc-time-{tn}{ln}-{fname}"),
                    if tn == "exp" { &["C07", "C21"] } else { &["C06", "C21"] },
                    vec![cfg.lis(l)],
                    CO::default(),
                    vec![vec![ins]],
                    vec![vec![vec![d], vec![d, ins], vec![d, pend], vec![ins, d], vec![d, rem]], seqs(&[get, ins, rem, up, pend, has], 1, 2)],
                    vec![seqs(&[d, ins, pend, get], 1, 2), seqs(&[get, ins, rem, up, pend, has, it, d], 1, 2)],
                )
                .bound(2, 3)
                .shards(2, 16)
                .what("entries expire while other threads work"));
            }
        }
        // ---- reads whose records are dropped, because maintenance is under way and their channel is full
        {
            let d = adv(10);
            static E_EXT: ExpScript = ExpScript { create: &[Ans::In(16)], update: &[Ans::In(16)], read: &[Ans::In(16)] };
            for (n, cfg) in [("tti", c0.tti(16)), ("tti-lis", c0.tti(16).lis(Lis::Log)), ("exp", c0.exp(E_EXT)), ("exp-lis", c0.exp(E_EXT).lis(Lis::Log))] {
                add(programs(
                    format!("conc-fullread-{n}-{fname}"),
                    if n.starts_with("exp") { &["C07", "C18"] } else { &["C06", "C18"] },
                    vec![cfg],
                    CO::default(),
                    vec![vec![ins, pend]],
                    vec![vec![vec![pend], vec![get, pend], vec![pend, pend]], vec![vec![get, d, get, d, get], vec![get, get, d, has], vec![get, d, get, d, up], vec![get, get, d, rem]]],
                    vec![seqs(&[pend, get, ins], 1, 2), [cross(&seqs(&[get, d], 2, 3), &one(&[get, has, rem, up, it])), vec![vec![get, d, get, d, get]]].concat()],
                )
                .bound(2, 3)
                .shards(2, 16)
                .tweak(|o| o.read_weight = 384)
                .what("reads whose records do not fit into their channel"));
            }
        }
        // ---- timers fire while other threads work (deadlines some ticks of the timer wheel apart)
        let far = adv(1 << 20);
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            add(programs(
                format!("conc-wheel{ln}-{fname}"),
                &["C07", "C21", "C06"],
                vec![c0.exp(E_WHEEL).lis(l), c0.exp(E_WHEEL_R).lis(l)],
                CO::default(),
                vec![vec![ins, pend, far], vec![ins, pend]],
                vec![vec![vec![pend], vec![far], vec![far, pend]], seqs(&[get, ins, rem, up, far], 1, 2)],
                vec![seqs(&[pend, far, ins], 1, 2), seqs(&[get, ins, rem, up, pend, has, it, far], 1, 2)],
            )
            .bound(2, 3)
            .shards(4, 16)
            .what("timers fire while other threads work"));
        }
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            let cl = [
                ld(F::GetWith),
                ld(F::OrInsertWithIf).cond(true),
                ld(F::TryGetWith).act(Act::Err),
                op(F::Upsert, 1),
                op(F::Compute, 1).act(Act::Put),
                op(F::Compute, 1).act(Act::Rem),
                op(F::Compute, 1).act(Act::Nop),
                op(F::InvIf, 0).pr(Pr::All),
                ia,
            ];
            add(programs(
                format!("conc-wheel-load{ln}-{fname}"),
                &["C07", "C05", "C03"],
                vec![c0.exp(E_WHEEL).lis(l).closures()],
                CO::default(),
                vec![vec![ins, pend, far], vec![ins, pend]],
                vec![vec![vec![pend], vec![far], vec![far, pend]], one(&cl)],
                vec![vec![vec![pend], vec![far], vec![far, pend], vec![far, ins], vec![far, get]], [one(&cl), cross(&one(&cl), &one(&[far, get])), cross(&one(&[ins]), &one(&cl))].concat()],
            )
            .bound(2, 3)
            .shards(4, 16)
            .what("timers fire while other threads load and compute"));
        }
        // ---- maintenance is due, and the operations themselves run it
        let due = adv(1 << 17);
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            let c0 = c0.lis(l);
            add(programs(
                format!("conc-auto{ln}-{fname}"),
                &["C11", "C10", "C13", "C01", "C18"],
                vec![c0, c0.cap(1).lru(), c0.cap(3).weigher(), { let mut c = c0; c.ttl = Some(1 << 17); c }],
                CO { keys: 2, pre_pend: false, ..CO::default() },
                vec![vec![ins, due], vec![ins, i2, pend, due]],
                vec![vec![vec![get], vec![ins], vec![rem], vec![ins, due], vec![get, due], vec![g2, i2]], vec![vec![get], vec![up], vec![i2], vec![inv], vec![ia], vec![ia, i2], vec![pend]]],
                vec![seqs(&[get, ins, rem, i2, due], 1, 2), seqs(&[get, up, i2, inv, ia, pend, ins], 1, 2)],
            )
            .bound(2, 2)
            .shards(4, 16)
            .what("operations that find maintenance due and run it themselves"));
            add(programs(
                format!("conc-auto-end{ln}-{fname}"),
                &["C24", "C18"],
                vec![c0, c0.cap(1).lru(), c0.closures(), { let mut c = c0; c.ttl = Some(1 << 17); c }],
                CO { keys: 2, pre_pend: false, auto: true, ..CO::default() },
                vec![vec![], vec![ins, i2, pend, due]],
                vec![vec![vec![get], vec![ins], vec![rem], vec![due, get]], vec![vec![get], vec![up], vec![i2], vec![inv], vec![ia], vec![op(F::InvIf, 0).pr(Pr::All)], vec![pend], vec![due, i2]]],
                vec![seqs(&[get, ins, rem, i2, due], 1, 2), seqs(&[get, up, i2, inv, ia, op(F::InvIf, 0).pr(Pr::All), pend, due], 1, 2)],
            )
            .bound(2, 3)
            .shards(4, 16)
            .what("maintenance comes with the operations; nobody calls run_pending_tasks at the end"));
            if fut {
                add(programs(
                    format!("conc-auto-cancel{ln}-{fname}"),
                    &["C24", "C16"],
                    vec![c0.cap(1).lru(), { let mut c = c0; c.ttl = Some(1 << 17); c }],
                    CO { keys: 2, pre_pend: false, auto: true, cancel: true, ..CO::default() },
                    vec![vec![ins, i2, due]],
                    vec![vec![vec![get], vec![ins], vec![rem], vec![pend], vec![get, get]], vec![vec![get], vec![up], vec![i2], vec![inv], vec![pend]]],
                    vec![seqs(&[get, ins, rem, pend, due], 1, 2), seqs(&[get, up, i2, inv, pend], 1, 2)],
                )
                .bound(1, 2)
                .faults(1, 2)
                .shards(4, 16)
                .what("an operation is dropped while it runs due maintenance; nobody calls run_pending_tasks afterwards"));
            }
        }
        // ---- counts under concurrent writes of one key with different weights
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            let (w0, w3, w5) = (op(F::Ins, 1).w(0), op(F::Ins, 1).w(3), op(F::Upsert, 1).w(5));
            add(programs(
                format!("conc-cnt{ln}-{fname}"),
                &["C11", "C21", "C01"],
                vec![{ let mut c = c0.weigher().lis(l); c.cap = Some(20); c }, { let mut c = c0.weigher().lis(l); c.ttl = Some(4); c }],
                CO::default(),
                vec![vec![], vec![ins, pend], vec![ins, w3, pend]],
                vec![seqs(&[w3, rem, pend, adv(4)], 1, 2), seqs(&[w5, w0, rem, ia], 1, 1)],
                vec![seqs(&[w3, w0, rem, pend, adv(4)], 1, 2), seqs(&[w5, w0, rem, inv, ia, pend], 1, 2)],
            )
            .bound(1, 3)
            .shards(2, 16)
            .what("one key written with different weights, removed and expired by two threads"));
        }
        // ---- capacity
        for (cn, cfg) in [("lru", c0.cap(1).lru()), ("lfu", c0.cap(1)), ("weigh", c0.cap(3).weigher())] {
            for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
                let h2 = op(F::Ins, 2).w(2);
                let h1 = op(F::Ins, 1).w(3);
                add(programs(
                    format!("conc-cap-{cn}{ln}-{fname}"),
                    &["C10", "C11", "C13"],
                    vec![cfg.lis(l)],
                    CO { keys: 2, ..CO::default() },
                    vec![vec![], vec![ins]],
                    vec![seqs(&[h2, r2, pend, g2], 1, 2), seqs(&[ins, h1, rem, pend], 1, 2)],
                    vec![seqs(&[h2, r2, pend, g2], 2, 2), seqs(&[ins, h1, rem, get, up, pend], 2, 2)],
                )
                .bound(1, 2)
                .shards(2, 16)
                .what("a full cache"));
            }
        }
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            let (w1, w5, u1) = (op(F::Ins, 1).w(1), op(F::Ins, 1).w(5), op(F::Upsert, 1).w(2));
            let cap = c0.weigher().lis(l);
            add(programs(
                format!("conc-big{ln}-{fname}"),
                &["C12", "C10", "C11", "C13"],
                vec![cap.cap(3), cap.cap(3).lru()],
                CO::default(),
                vec![vec![], vec![w5], vec![w1, pend], vec![w1, pend, w5]],
                vec![seqs(&[w1, w5, u1, pend], 1, 2), vec![vec![pend], vec![w1]]],
                vec![seqs(&[w1, w5, u1, pend, get], 1, 2), seqs(&[w1, w5, pend, rem], 1, 2)],
            )
            .bound(1, 3)
            .shards(2, 16)
            .what("values too heavy for the cache and lighter ones under the same key"));
        }
        // ---- iteration
        let i3 = op(F::Ins, 3);
        add(programs(
            format!("conc-iter-{fname}"),
            &["C15"],
            vec![c0, c0.hm(HM::Spread), c0.hm(HM::Same)],
            CO { keys: 3, ..CO::default() },
            vec![vec![], vec![ins, i2], vec![ins, i2, i3]],
            vec![vec![vec![it]], seqs(&[ins, rem, i2, r2, ia, op(F::Upsert, 2)], 1, 2)],
            vec![vec![vec![it], vec![it, it]], seqs(&[ins, rem, i2, r2, i3, ia, op(F::Upsert, 2)], 2, 2)],
        )
        .bound(2, 3)
        .shards(2, 8)
        .what("iterator against concurrent writes"));
        // ---- handles
        add(programs(
            format!("conc-own-{fname}"),
            &["C17"],
            vec![lis(Lis::Log), c0.cap(1)],
            CO { own: true, keys: 2, ..CO::default() },
            vec![vec![ins]],
            vec![seqs(&[ins, rem, get], 1, 1), seqs(&[ins, i2, ld(F::GetWith)], 1, 2)],
            vec![seqs(&[ins, rem, get], 1, 2), seqs(&[ins, i2, ld(F::GetWith), up], 1, 2)],
        )
        .bound(1, 2)
        .shards(2, 16)
        .tweak(|o| o.arc_points = true)
        .what("threads own and drop their handles; every reference-count operation is a scheduling point"));
        // ---- the queue of write records is full
        for (wn, w) in [("1", full1 as fn(&mut rt::Opts)), ("2", full2)] {
            let base = [ins, rem, inv];
            let fl: Vec<Cfg> = vec![c0, lis(Lis::Log)];
            add(programs(
                format!("conc-full{wn}-{fname}"),
                &["C18", "C11"],
                fl.clone(),
                CO { keys: 2, ..CO::default() },
                vec![vec![], vec![ins]],
                vec![seqs(&[ins, rem, pend], 1, 2), [seqs(&[i2, up], 1, 2), vec![vec![i2, r2], vec![pend], vec![get, i2]]].concat()],
                vec![seqs(&[ins, rem, inv, pend, get], 1, 2), seqs(&[i2, up, r2, pend], 1, 3)],
            )
            .bound(2, 3)
            .shards(4, 16)
            .tweak(w)
            .what("writers wait for room in the queue of write records"));
            add(programs(
                format!("conc-full{wn}-3-{fname}"),
                &["C18"],
                fl,
                CO { keys: 2, ..CO::default() },
                vec![vec![ins]],
                vec![one(&base), one(&base), vec![vec![i2], vec![i2, i2], vec![pend]]],
                vec![seqs(&base, 1, 2), one(&base), seqs(&[i2, r2, pend], 1, 2)],
            )
            .bound(2, 3)
            .shards(4, 16)
            .tweak(w)
            .what("three writers and a queue of write records with room for one or two"));
            let slow: Vec<Cfg> = vec![lis(Lis::Slow(1)), lis(Lis::Re)];
            add(programs(
                format!("conc-full{wn}-lis-{fname}"),
                &["C18", "C14"],
                slow,
                CO { keys: 2, ..CO::default() },
                vec![vec![ins]],
                vec![seqs(&[ins, rem], 1, 2), vec![vec![i2], vec![i2, i2], vec![ins, i2], vec![pend, i2]]],
                vec![seqs(&[ins, rem, inv], 1, 2), seqs(&[i2, ins, pend, r2], 1, 2)],
            )
            .bound(1, 2)
            .shards(4, 16)
            .tweak(w)
            .what("slow and re-entrant listeners while the queue of write records is full"));
            // maintenance removes the very keys whose writers wait for room
            let e = adv(20);
            add(programs(
                format!("conc-full{wn}-evict-{fname}"),
                &["C18", "C13"],
                vec![lis(Lis::Log).ttl(16), lis(Lis::Log).cap(1).lru(), lis(Lis::Log).closures()],
                CO { keys: 2, ..CO::default() },
                vec![vec![ins, pend, e], vec![ins, pend, ia]],
                vec![vec![vec![pend], vec![i2], vec![i2, pend]], vec![vec![rem], vec![i2, rem], vec![i2, inv], vec![ins, ins], vec![i2, up]]],
                vec![seqs(&[pend, i2, ins, rem], 1, 2), cross(&one(&[ins, i2, r2]), &one(&[ins, rem, inv, up, ld(F::GetWith), op(F::Compute, 1).act(Act::Rem)]))],
            )
            .bound((wn == "1") as u8, 2)
            .shards(4, 16)
            .tweak(w)
            .what("maintenance removes the keys whose writers wait for room in the queue"));
            if fut {
                for (ln, l) in [("", Lis::No), ("-lis", Lis::Slow(1))] {
                    add(programs(
                        format!("conc-full{wn}-cancel{ln}-{fname}"),
                        &["C16", "C18"],
                        if l == Lis::No { vec![lis(l)] } else { vec![lis(l), lis(l).cap(1).lru()] },
                        CO { cancel: true, keys: 2, ..CO::default() },
                        vec![vec![ins]],
                        vec![seqs(&[ins, rem], 1, 2), [vec![vec![i2], vec![i2, i2], vec![i2, pend], vec![pend]], one(&[up, rem])].concat()],
                        vec![seqs(&[ins, rem, inv, up], 1, 2), seqs(&[i2, r2, pend, get], 1, 2)],
                    )
                    .bound(1, 2)
                    .faults(1, 2)
                    .shards(4, 16)
                    .tweak(w)
                    .what("writers waiting for room are dropped"));
                }
            }
        }
        // ---- cancellation
        if fut {
            let upn = op(F::Upsert, 1).y(1);
            let canc = vec![ins, rem, inv, get, pend, ld(F::GetWith), ld(F::TryGetWith).act(Act::Err), upn, op(F::Compute, 1).act(Act::Rem).y(1), op(F::TryComputeNE, 1).y(1)];
            let more = vec![ld(F::OptGetWith), ld(F::OrInsertWith), ld(F::GetWithIf).cond(true), op(F::Upsert, 1).act(Act::Panic).y(1), ld(F::GetWith).act(Act::Panic)];
            let all = [&canc[..], &more[..]].concat();
            let slow = |n| lis(Lis::Slow(n));
            let co = CO { cancel: true, ..CO::default() };
            let co2 = CO { cancel: true, keys: 2, ..CO::default() };
            // one task, cancelled again and again
            let some = [ins, rem, upn, pend, get, ld(F::GetWith)];
            add(programs(
                format!("conc-cancel-seq-{fname}"),
                &["C16"],
                vec![c0, slow(1), slow(2)],
                co,
                pres.clone(),
                vec![seqs(&canc, 2, 2)],
                vec![seqs(&all, 2, 3)],
            )
            .bound(0, 0)
            .faults(3, 4)
            .shards(4, 16)
            .what("one task after the other is dropped at one of its pending points"));
            add(programs(
                format!("conc-cancel-seq3-{fname}"),
                &["C16"],
                vec![slow(2)],
                co,
                vec![vec![ins]],
                vec![seqs(&some[..4], 3, 3)],
                vec![seqs(&some, 3, 4)],
            )
            .bound(0, 0)
            .faults(3, 4)
            .shards(4, 16)
            .what("one task after the other is dropped at one of its pending points"));
            add(programs(
                format!("conc-cancel-cap-{fname}"),
                &["C16", "C11"],
                vec![slow(1).cap(1).lru(), slow(2).cap(1), slow(1).cap(3).weigher()],
                co2,
                vec![vec![], vec![ins]],
                vec![seqs(&[ins, rem, i2.w(2), r2, pend], 2, 3)],
                vec![seqs(&[ins, rem, upn.w(2), i2.w(2), r2, pend], 3, 4)],
            )
            .bound(0, 0)
            .faults(2, 3)
            .shards(4, 16)
            .what("the maintenance of a full cache is dropped while the listener is pending"));
            let d = adv(4);
            add(programs(
                format!("conc-cancel-time-{fname}"),
                &["C16", "C11"],
                vec![{ let mut c = slow(1); c.ttl = Some(4); c }, { let mut c = slow(2); c.tti = Some(4); c }, slow(1).exp(E_FIX), slow(1).closures()],
                co,
                vec![vec![ins]],
                vec![seqs(&[ins, rem, upn, d, pend, ia], 2, 3)],
                vec![seqs(&[ins, rem, upn, d, pend, ia, get], 3, 4)],
            )
            .bound(0, 0)
            .faults(2, 3)
            .shards(4, 16)
            .what("the maintenance that removes expired or invalidated entries is dropped while the listener is pending"));
            add(programs(
                format!("conc-cancel-wheel-{fname}"),
                &["C16", "C21"],
                vec![slow(1).exp(E_WHEEL), slow(2).exp(E_WHEEL)],
                co2,
                vec![vec![ins, i2, pend], vec![ins, i2]],
                vec![cross(&one(&[far]), &seqs(&[ins, rem, upn, far, pend, get, i2], 1, 2))],
                vec![cross(&one(&[far]), &seqs(&[ins, rem, upn, far, pend, get, i2, ia], 2, 3))],
            )
            .bound(0, 0)
            .faults(2, 3)
            .shards(4, 16)
            .what("the maintenance that removes expired entries by their timers is dropped while the listener is pending"));
            add(programs(
                format!("conc-cancel-invif-{fname}"),
                &["C16", "C09"],
                vec![slow(1).closures()],
                co,
                vec![vec![ins]],
                vec![seqs(&[ins, op(F::InvIf, 0).pr(Pr::All), pend, upn], 2, 3)],
                vec![seqs(&[ins, op(F::InvIf, 0).pr(Pr::All), op(F::InvIf, 0).pr(Pr::Even), pend, upn, get], 3, 4)],
            )
            .bound(0, 0)
            .faults(2, 3)
            .shards(2, 16)
            .what("the scan of a predicate is dropped while the listener is pending"));
            for (ln, l) in [("", Lis::No), ("-lis", Lis::Slow(1))] {
                add(programs(
                    format!("conc-cancel{ln}-{fname}"),
                    &["C16", "C04"],
                    vec![lis(l)],
                    co,
                    pres.clone(),
                    vec![one(&all), one(&canc)],
                    vec![seqs(&canc, 1, 2), one(&all)],
                )
                .bound(2, 3)
                .faults(2, 2)
                .shards(4, 16)
                .what("every pending future may be dropped"));
            }
            let few = [ins, rem, upn, ld(F::GetWith), pend];
            add(programs(
                format!("conc-cancel3-{fname}"),
                &["C16", "C04"],
                vec![c0, slow(1)],
                co,
                vec![vec![ins], vec![]],
                vec![one(&few), one(&few), one(&[upn, ins, ld(F::GetWith)])],
                vec![one(&canc), one(&few), one(&canc)],
            )
            .bound(1, 2)
            .faults(1, 2)
            .shards(4, 16)
            .what("three tasks"));
            for (cn, cfg) in [("cap", slow(1).cap(1).lru()), ("ttl", { let mut c = slow(1); c.ttl = Some(4); c }), ("wheel", slow(1).exp(E_WHEEL))] {
                let z = match cn {
                    "cap" => i2,
                    "ttl" => d,
                    _ => far,
                };
                add(programs(
                    format!("conc-cancel-maint-{cn}-{fname}"),
                    &["C16", "C18"],
                    vec![cfg],
                    co2,
                    vec![vec![ins]],
                    vec![vec![vec![z, pend], vec![z, pend, pend]], seqs(&[ins, rem, pend, z, upn], 1, 2)],
                    vec![vec![vec![z, pend], vec![z, pend, pend], vec![pend, z, pend]], seqs(&[ins, rem, pend, z, upn, i2, ld(F::GetWith)], 1, 3)],
                )
                .bound(1, 2)
                .faults(1, 2)
                .shards(4, 16)
                .what("a maintenance run is dropped while another task writes"));
            }
        }
    }
    v
}
