//! Reference model of a cache without a capacity bound, for operations performed one after another.
//! It is deliberately boring: a map of entries with write time, access time and per-entry deadline.
//! Anything the model leaves open (maintenance timing) is an explicit set of allowed outcomes.
use crate::api::*;
use moka::notification::RemovalCause as RC;

pub const NK: usize = 8;

#[derive(Clone, Copy, Debug)]
pub struct ME {
    pub id: u32,
    pub w: u32,
    pub wt: u64,
    pub at: u64,
    pub dl: Option<u64>,
}
/// a value that has left the map (or is dead in it)
#[derive(Clone, Copy, Debug)]
pub struct Gone {
    pub k: u32,
    pub id: u32,
    pub w: u32,
    pub notified: bool,
}
pub struct Model {
    pub cfg: Cfg,
    /// the most recent value stored for each key and not known to have left the map
    pub cur: [Option<ME>; NK],
    pub gone: Vec<Gone>,
    pub va: Option<u64>,
    pub preds: Vec<(Pr, u64)>,
    pub inserted: u64,
    pub inserted_w: u64,
    pub notified: u64,
    pub notified_w: u64,
    pub ni: usize,
    pub ci: usize,
    pub inst: usize,
}
type R = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn min_o(a: Option<u64>, b: Option<u64>) -> Option<u64> {
    match (a, b) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, None) => a,
        (None, b) => b,
    }
}

impl Model {
    pub fn new(cfg: &Cfg, inst: usize) -> Model {
        Model {
            cfg: *cfg,
            cur: [None; NK],
            gone: Vec::new(),
            va: None,
            preds: Vec::new(),
            inserted: 0,
            inserted_w: 0,
            notified: 0,
            notified_w: 0,
            ni: 0,
            ci: 0,
            inst,
        }
    }
    /// when the time-based policies end this entry's life
    pub fn deadline(&self, e: &ME) -> Option<u64> {
        min_o(
            e.dl,
            min_o(self.cfg.ttl.map(|t| e.wt.saturating_add(t)), self.cfg.tti.map(|t| e.at.saturating_add(t))),
        )
    }
    pub fn expired(&self, e: &ME, now: u64) -> bool {
        self.deadline(e).map_or(false, |d| d <= now)
    }
    pub fn invalidated(&self, k: u32, e: &ME) -> (bool, bool) {
        let all = self.va.map_or(false, |t| e.wt < t);
        let pr = self.preds.iter().any(|(p, t)| e.wt < *t && p.eval(k, e.id, e.w));
        (all, pr)
    }
    pub fn live(&self, k: u32, now: u64) -> Option<ME> {
        let e = self.cur[k as usize]?;
        let (a, p) = self.invalidated(k, &e);
        if self.expired(&e, now) || a || p {
            None
        } else {
            Some(e)
        }
    }
    pub fn live_count(&self, now: u64) -> (u64, u64) {
        let mut n = (0, 0);
        for k in 0..NK as u32 {
            if let Some(e) = self.live(k, now) {
                n.0 += 1;
                n.1 += e.w as u64;
            }
        }
        n
    }
    /// causes with which a value that is not live may be reported
    fn dead_causes(&self, k: u32, e: &ME, now: u64, overwritten: bool) -> Vec<RC> {
        let mut v = Vec::new();
        if self.expired(e, now) {
            v.push(RC::Expired);
        }
        let (a, p) = self.invalidated(k, e);
        if a || p {
            v.push(RC::Explicit);
        }
        // the predicate of invalidate_entries_if is not consulted when the value is overwritten
        if p && overwritten && v == [RC::Explicit] && !a {
            v.push(RC::Replaced);
        }
        v
    }
    fn next_cb(&mut self, kind: CbK, rec: usize) -> Option<Cb> {
        let cb = g().cbs[self.inst].get(self.ci)?.clone();
        if cb.kind == kind && cb.by == Some(rec) {
            self.ci += 1;
            Some(cb)
        } else {
            None
        }
    }
    /// A live entry is read: recency is refreshed, the read callback answers.
    fn read(&mut self, k: u32, rid: usize, now: u64) -> R {
        let e = self.cur[k as usize].unwrap();
        let mut dl = e.dl;
        if self.cfg.exp.is_some() {
            let want = self.deadline(&e).map(|d| nf(d - now));
            let cb = self.next_cb(CbK::Read, rid);
            ensure!(cb.is_some(), "C07: expire_after_read was not called on a hit of key {k}");
            let cb = cb.unwrap();
            ensure!(
                cb.k == k && cb.id == e.id && cb.at == now && cb.dur == want && cb.lm == Some(e.wt),
                "C07: expire_after_read({cb:?}) but key {k} value v{} now {now} remaining {want:?} modified {}", e.id, e.wt
            );
            if cb.ans != want {
                dl = cb.ans.map(|d| now.saturating_add(d));
            }
        }
        let m = self.cur[k as usize].as_mut().unwrap();
        m.dl = dl;
        m.at = now;
        Ok(())
    }
    /// A value is stored. Returns whether a live value was replaced.
    fn store(&mut self, k: u32, id: u32, w: u32, rid: usize, now: u64, ops_end: u64) -> Result<bool, String> {
        let w = if self.cfg.weigher { w } else { 1 };
        let live = self.live(k, now);
        let old = self.cur[k as usize];
        let mut dl = None;
        if self.cfg.exp.is_some() {
            match old {
                Some(e) if live.is_some() => {
                    let up = ME { wt: now, at: now, ..e };
                    let want = self.deadline(&up).map(|d| nf(d - now));
                    let cb = self.next_cb(CbK::Update, rid);
                    ensure!(cb.is_some(), "C07: expire_after_update was not called when live key {k} was updated");
                    let cb = cb.unwrap();
                    ensure!(
                        cb.k == k && cb.id == id && cb.at == now && cb.dur == want,
                        "C07: expire_after_update({cb:?}) but key {k} value v{id} now {now} remaining {want:?}"
                    );
                    dl = if cb.ans == want { e.dl } else { cb.ans.map(|d| now.saturating_add(d)) };
                }
                Some(e) => {
                    // Dead but possibly still in memory: a creation or an update.
                    if let Some(cb) = self.next_cb(CbK::Create, rid) {
                        ensure!(cb.k == k && cb.id == id && cb.at == now, "C07: expire_after_create({cb:?}) but key {k} value v{id} now {now}");
                        dl = cb.ans.map(|d| now.saturating_add(d));
                    } else if let Some(cb) = self.next_cb(CbK::Update, rid) {
                        ensure!(cb.k == k && cb.id == id && cb.at == now, "C07: expire_after_update({cb:?}) but key {k} value v{id} now {now}");
                        let up = ME { wt: now, at: now, ..e };
                        let rem = self.deadline(&up).and_then(|d| d.checked_sub(now)).map(nf);
                        ensure!(cb.dur == rem, "C07: expire_after_update({cb:?}) but remaining is {rem:?}");
                        let past = self.deadline(&up).map_or(false, |d| d <= now);
                        dl = if cb.ans == rem && !past { e.dl } else { cb.ans.map(|d| now.saturating_add(d)) };
                    } else {
                        return Err(format!("C07: no expiry callback when key {k} was stored"));
                    }
                }
                None => {
                    let cb = self.next_cb(CbK::Create, rid);
                    ensure!(cb.is_some(), "C07: expire_after_create was not called when key {k} was created");
                    let cb = cb.unwrap();
                    ensure!(cb.k == k && cb.id == id && cb.at == now, "C07: expire_after_create({cb:?}) but key {k} value v{id} now {now}");
                    dl = cb.ans.map(|d| now.saturating_add(d));
                }
            }
        }
        let _ = ops_end;
        if let Some(e) = old {
            self.leave(k, e, rid, now, if live.is_some() { Some(RC::Replaced) } else { None })?;
        }
        self.cur[k as usize] = Some(ME { id, w, wt: now, at: now, dl });
        self.inserted += 1;
        self.inserted_w += w as u64;
        Ok(live.is_some())
    }
    /// The entry leaves the map in operation `rid`. `cause`: why, if it was live.
    fn leave(&mut self, k: u32, e: ME, rid: usize, now: u64, cause: Option<RC>) -> R {
        self.cur[k as usize] = None;
        let mut g0 = Gone { k, id: e.id, w: e.w, notified: false };
        if self.cfg.lis != Lis::No {
            // a live value must be reported in this very operation; a dead one now or earlier
            let n = g().notif[self.inst].get(self.ni).cloned();
            let allowed = match cause {
                Some(c) => vec![c],
                None => self.dead_causes(k, &e, now, true),
            };
            match n {
                Some(n) if n.k == k && n.id == e.id => {
                    ensure!(allowed.contains(&n.cause), "C13: key {k} value v{} left with cause {:?}, expected one of {allowed:?}", e.id, n.cause);
                    let r = &g().recs[rid];
                    ensure!(n.b > r.start && n.e != 0 && n.e < r.end, "C14: the notification for v{} was not delivered within the operation", e.id);
                    self.ni += 1;
                    self.notified += 1;
                    self.notified_w += e.w as u64;
                    g0.notified = true;
                }
                _ => {
                    return Err(format!("C13: key {k} value v{} left the cache in this operation without a notification (got {n:?})", e.id));
                }
            }
        }
        self.gone.push(g0);
        Ok(())
    }
    /// Notifications that maintenance produced: only for values that are dead.
    fn drain_notifs(&mut self, now: u64) -> R {
        while let Some(n) = g().notif[self.inst].get(self.ni).cloned() {
            self.ni += 1;
            if let Some(x) = self.gone.iter().find(|x| x.id == n.id) {
                return Err(format!("C13: v{} of key {} was reported twice ({:?}; notified before: {})", n.id, n.k, n.cause, x.notified));
            }
            let ok = (n.k as usize) < NK && self.cur[n.k as usize].map_or(false, |e| e.id == n.id);
            ensure!(ok, "C13: notification {n:?} for a value that was never in the cache under that key");
            let e = self.cur[n.k as usize].unwrap();
            ensure!(
                self.live(n.k, now).is_none(),
                "C13: notification {n:?} for a value that is still live (now {now}, {e:?})"
            );
            let a = self.dead_causes(n.k, &e, now, false);
            ensure!(a.contains(&n.cause), "C13: key {} value v{} reported as {:?}, expected one of {a:?}", n.k, n.id, n.cause);
            self.cur[n.k as usize] = None;
            self.gone.push(Gone { k: n.k, id: n.id, w: e.w, notified: true });
            self.notified += 1;
            self.notified_w += e.w as u64;
        }
        Ok(())
    }
    fn want(&self, rid: usize, got: &Res, want: &Res) -> R {
        ensure!(got == want, "result of {:?} on key {} is {got:?}, expected {want:?}", g().recs[rid].op.f, g().recs[rid].op.k);
        Ok(())
    }

    /// Check operation `rid` (already executed) against the model and advance the model.
    pub fn apply(&mut self, rid: usize) -> R {
        let r = &g().recs[rid];
        let o = &r.op;
        let k = o.k;
        let now = r.t0;
        let live = self.live(k, now);
        let got = &r.res;
        let ends = r.end;
        let ran = r.runs.len();
        match o.f {
            F::Adv | F::Nop => {}
            F::Get => {
                self.want(rid, got, &Res::V(live.map(|e| e.id)))?;
                if live.is_some() {
                    self.read(k, rid, now)?;
                }
            }
            F::Has => self.want(rid, got, &Res::B(live.is_some()))?,
            F::Ins => {
                if o.bad_weight(&self.cfg) {
                    ensure!(*got == Res::Panic, "insert ended with {got:?} although the weigher panicked");
                    return Ok(());
                }
                ensure!(*got == Res::Unit, "insert ended with {got:?}");
                self.store(k, o.id, o.w, rid, now, ends)?;
            }
            F::Rem | F::Inv => {
                if o.f == F::Rem {
                    self.want(rid, got, &Res::V(live.map(|e| e.id)))?;
                }
                self.take_out(k, rid, now, live.is_some())?;
            }
            F::InvAll => {
                ensure!(*got == Res::Unit, "invalidate_all ended with {got:?}");
                self.va = Some(now);
            }
            F::InvIf => {
                if self.cfg.closures {
                    ensure!(*got == Res::Unit, "C23: invalidate_entries_if failed although closures are enabled");
                    self.preds.push((o.pr, now));
                } else {
                    ensure!(*got == Res::PredErr, "C23: invalidate_entries_if succeeded although closures are not enabled");
                }
            }
            F::Iter => {
                let mut want: Vec<(u32, u32)> = Vec::new();
                for k in 0..NK as u32 {
                    if let Some(e) = self.live(k, now) {
                        want.push((k, e.id));
                    }
                }
                match got {
                    Res::L(l) => {
                        let mut l2 = l.clone();
                        l2.sort();
                        ensure!(l2 == want, "C15: iteration yields {l2:?}, the live entries are {want:?}");
                    }
                    _ => return Err(format!("C15: iteration ended with {got:?}")),
                }
            }
            F::Pend => ensure!(*got == Res::Unit, "run_pending_tasks ended with {got:?}"),
            F::Counts => {}
            _ if o.is_load() => {
                let conditional = matches!(o.f, F::GetWithIf | F::OrInsertWithIf);
                let replace = conditional && o.cond && live.is_some();
                let entry_form = matches!(o.f, F::OrDefault | F::OrInsert | F::OrInsertWith | F::OrInsertWithIf | F::OrOpt | F::OrTry);
                if conditional {
                    // evaluated at least once on a live value, never on anything but the stored one
                    let id = live.map(|e| e.id);
                    ensure!(r.conds.iter().all(|c| Some(*c) == id), "C20: replace_if was shown {:?}, stored is {id:?}", r.conds);
                    ensure!(live.is_none() || !r.conds.is_empty(), "C20: replace_if was not consulted");
                } else {
                    ensure!(r.conds.is_empty(), "bug in the harness");
                }
                let hit = live.is_some() && !replace;
                if conditional && live.is_some() && (o.cp == 1 || o.cp == 2 && o.cond) {
                    ensure!(*got == Res::Panic && ran == 0, "C04: the condition panicked but the call ended with {got:?}");
                    return Ok(());
                }
                let runs_init = matches!(o.f, F::OrDefault | F::OrInsert) == false;
                if hit {
                    ensure!(ran == 0, "C03: the initializer ran although a live value was present");
                    let e = live.unwrap();
                    let x = En { k, id: e.id, fresh: false, repl: false };
                    let want = if !entry_form {
                        Res::V(Some(e.id))
                    } else if o.f == F::OrOpt {
                        Res::OptE(Some(x))
                    } else {
                        Res::E(x)
                    };
                    self.want(rid, got, &want).map_err(|e| format!("C20: {e}"))?;
                    self.read(k, rid, now)?;
                } else {
                    if runs_init {
                        ensure!(ran == 1, "C03: the initializer ran {ran} times on a miss");
                    }
                    let put = o.act == Act::Put || matches!(o.f, F::OrDefault | F::OrInsert);
                    let can_fail = matches!(o.f, F::OptGetWith | F::OrOpt | F::TryGetWith | F::OrTry | F::TryGetUnit);
                    if o.act == Act::Panic && runs_init {
                        ensure!(*got == Res::Panic, "C04: the initializer's panic was not propagated: {got:?}");
                    } else if (put || !can_fail) && o.bad_weight(&self.cfg) {
                        ensure!(*got == Res::Panic, "C04: the weigher panicked but the call ended with {got:?}");
                    } else if put || !can_fail {
                        let replaced = self.store(k, o.id, o.w, rid, now, ends)?;
                        let x = En { k, id: o.id, fresh: true, repl: replaced };
                        let want = if !entry_form {
                            Res::V(Some(o.id))
                        } else if o.f == F::OrOpt {
                            Res::OptE(Some(x))
                        } else {
                            Res::E(x)
                        };
                        self.want(rid, got, &want).map_err(|e| format!("C20: {e}"))?;
                    } else {
                        let want = match o.f {
                            F::OptGetWith => Res::V(None),
                            F::OrOpt => Res::OptE(None),
                            F::TryGetUnit => Res::Err(0),
                            _ => Res::Err(o.id),
                        };
                        self.want(rid, got, &want).map_err(|e| format!("C04: {e}"))?;
                    }
                }
            }
            _ => {
                // computes
                ensure!(ran == 1, "C05: the closure ran {ran} times");
                let sid = live.map(|e| e.id);
                ensure!(r.seen == Some(sid), "C05: the closure saw {:?}, the live value is {sid:?}", r.seen);
                if let Some(e) = live {
                    ensure!(r.seen_e == Some((k, e.id, false, false)), "C20: the closure got entry {:?}", r.seen_e);
                    self.read(k, rid, now)?;
                }
                let entry = live.map(|e| En { k, id: e.id, fresh: false, repl: false });
                match o.act {
                    Act::Put if o.bad_weight(&self.cfg) => {
                        ensure!(*got == Res::Panic, "C05: the weigher panicked but the call ended with {got:?}")
                    }
                    Act::Panic => ensure!(*got == Res::Panic, "C05: the closure's panic was not propagated: {got:?}"),
                    Act::Err if matches!(o.f, F::TryCompute | F::TryComputeNE) => {
                        self.want(rid, got, &Res::Err(o.id)).map_err(|e| format!("C05: {e}"))?
                    }
                    _ if o.f == F::Upsert => {
                        let replaced = self.store(k, o.id, o.w, rid, now, ends)?;
                        let x = En { k, id: o.id, fresh: true, repl: replaced };
                        self.want(rid, got, &Res::E(x)).map_err(|e| format!("C20: {e}"))?;
                    }
                    Act::Put => {
                        let replaced = self.store(k, o.id, o.w, rid, now, ends)?;
                        let x = En { k, id: o.id, fresh: true, repl: replaced };
                        let ck = if replaced { CK::Replaced } else { CK::Inserted };
                        self.want(rid, got, &Res::Comp(ck, Some(x))).map_err(|e| format!("C05: {e}"))?;
                    }
                    Act::Rem => {
                        let want = match entry {
                            Some(x) => Res::Comp(CK::Removed, Some(x)),
                            None => Res::Comp(CK::StillNone, None),
                        };
                        self.want(rid, got, &want).map_err(|e| format!("C05: {e}"))?;
                        self.take_out(k, rid, now, live.is_some())?;
                    }
                    _ => {
                        let want = match entry {
                            Some(x) => Res::Comp(CK::Unchanged, Some(x)),
                            None => Res::Comp(CK::StillNone, None),
                        };
                        self.want(rid, got, &want).map_err(|e| format!("C05: {e}"))?;
                    }
                }
            }
        }
        // callbacks that nothing accounts for
        if let Some(cb) = g().cbs[self.inst].get(self.ci) {
            return Err(format!("C07: unexpected expiry callback {cb:?}"));
        }
        self.drain_notifs(g().recs[rid].t1)?;
        ensure!(overlapped().is_none(), "C14: two notifications for one key overlap");
        Ok(())
    }
    fn take_out(&mut self, k: u32, rid: usize, now: u64, live: bool) -> R {
        if let Some(e) = self.cur[k as usize] {
            if live {
                self.leave(k, e, rid, now, Some(RC::Explicit))?;
            } else if self.cfg.lis != Lis::No {
                self.leave(k, e, rid, now, None)?;
            } else {
                self.cur[k as usize] = None;
                self.gone.push(Gone { k, id: e.id, w: e.w, notified: false });
            }
        }
        Ok(())
    }
    /// Counters after maintenance has settled.
    pub fn check_counts(&self, n: u64, w: u64, now: u64, all_removed: bool) -> R {
        let (ln, lw) = self.live_count(now);
        let (dn, dw) = self.dead_count(now);
        if all_removed && self.dead_count(now) == (0, 0) {
            ensure!(n == ln, "C11: entry_count is {n} but {ln} entries are live and everything else should be gone");
            ensure!(w == lw, "C11: weighted_size is {w} but the live entries weigh {lw}");
        } else {
            ensure!(n >= ln && n <= ln + dn, "C11: entry_count is {n}, live entries {ln}, expired ones possibly still held {dn}");
            ensure!(w >= lw && w <= lw + dw, "C11: weighted_size is {w}, live weight {lw}, possibly still held {dw}");
        }
        if self.cfg.lis != Lis::No {
            let pn = self.inserted - self.notified;
            let pw = self.inserted_w - self.notified_w;
            ensure!(n == pn, "C11: entry_count is {n} but {} values were stored and {} reported as gone", self.inserted, self.notified);
            ensure!(w == pw, "C11: weighted_size is {w} but the stored and not yet reported values weigh {pw}");
        }
        Ok(())
    }
    /// dead values that may still be in memory because their timer has not ticked yet
    fn dead_count(&self, now: u64) -> (u64, u64) {
        let mut n = (0, 0);
        // the idle queue is in order of processed accesses: a live entry may stand before an expired one
        let any_live = self.fresh(now);
        for k in 0..NK as u32 {
            if let Some(e) = self.cur[k as usize] {
                if self.live(k, now).is_none() {
                    let (a, p) = self.invalidated(k, &e);
                    let by_deque = a
                        || p
                        || self.cfg.ttl.map_or(false, |t| e.wt + t <= now)
                        || (!any_live && self.cfg.tti.map_or(false, |t| e.at + t <= now));
                    if !by_deque {
                        n.0 += 1;
                        n.1 += e.w as u64;
                    }
                }
            }
        }
        n
    }
    /// Is there an entry that expiration leaves in memory? (Predicates are applied after expiration.)
    fn fresh(&self, now: u64) -> bool {
        (0..NK as u32).any(|k| self.cur[k as usize].is_some_and(|e| !self.expired(&e, now) && !self.invalidated(k, &e).0))
    }
    fn may_linger(&self, e: &ME, k: u32, now: u64) -> bool {
        let (a, p) = self.invalidated(k, e);
        let ttl = self.cfg.ttl.map_or(false, |t| e.wt + t <= now) || e.dl.map_or(false, |d| d <= now);
        !a && !p && !ttl && self.fresh(now)
    }
    /// every dead value has been reported
    pub fn check_all_reported(&self, now: u64) -> R {
        if self.cfg.lis == Lis::No {
            return Ok(());
        }
        for k in 0..NK as u32 {
            if let Some(e) = self.cur[k as usize] {
                ensure!(self.live(k, now).is_some() || self.may_linger(&e, k, now), "C13: key {k} value v{} is gone but was never reported", e.id);
            }
        }
        for x in &self.gone {
            ensure!(x.notified, "C13: v{} left the cache but was never reported", x.id);
        }
        Ok(())
    }
}
