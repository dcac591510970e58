//! Exhaustive operation sequences on the real caches against the reference model.
use crate::api::*;
use crate::model::*;
use crate::unit::*;
use mcrt::rt;

/// One letter of an alphabet.
#[derive(Clone, Copy, Debug)]
pub enum L {
    O(Op),
    /// the next operation runs `delta` units from the earliest pending deadline
    ToDl(i64),
}
pub fn o(f: F, k: u32) -> L {
    L::O(op(f, k))
}

pub fn fail_at(step: usize, e: String) -> ! {
    let m = sys(|| format!("step {step}: {e}"));
    rt::fail_str(&m)
}
/// puts the property tag first
pub fn fail(e: String) -> ! {
    rt::fail_str(&e)
}

pub const SECS2: u64 = 2_300_000_000 / U + 1;

pub fn life(cfg: &Cfg, alpha: &[L], depth: usize, prelude: &[L]) {
    begin();
    let c = build(cfg);
    let mut m = Model::new(cfg, 0);
    let mut step = 0u32;
    let mut one = |l: L, m: &mut Model, step: &mut u32| {
        *step += 1;
        let op = match l {
            L::O(op) => op.id(*step),
            L::ToDl(d) => {
                let now = now_u();
                let mut best: Option<u64> = None;
                for k in 0..NK as u32 {
                    if let Some(e) = m.live(k, now) {
                        if let Some(d) = m.deadline(&e).filter(|d| *d < FAR / 2) {
                            best = Some(best.map_or(d, |b| b.min(d)));
                        }
                    }
                }
                let t = match best {
                    Some(b) => b as i64 + d,
                    None => 0,
                };
                // one tick for the advance itself, one for the next operation
                let d = (t - now as i64 - 2).max(0) as u64;
                adv(d)
            }
        };
        let rid = run(&c, &op);
        if let Err(e) = m.apply(rid) {
            fail(e);
        }
    };
    for l in prelude {
        one(*l, &mut m, &mut step);
    }
    for _ in 0..depth {
        let i = rt::choose(alpha.len());
        one(alpha[i], &mut m, &mut step);
    }
    finish(cfg, &c, &mut m);
    rt::outcome(|| format!("live {:?} gone {:?}", m.live_count(now_u()), m.gone.iter().map(|g| (g.k, g.id)).collect::<Vec<_>>()));
}

fn settle(c: &C, m: &mut Model) -> (u64, u64, u64) {
    let rid = run(c, &op(F::Pend, 0));
    if let Err(e) = m.apply(rid) {
        fail(e);
    }
    let (n, w) = counts(c);
    (n, w, g().recs[rid].t0)
}

pub fn finish(cfg: &Cfg, c: &C, m: &mut Model) {
    let (n, w, now) = settle(c, m);
    if let Err(e) = m.check_counts(n, w, now, false) {
        fail(e);
    }
    // let every timer tick
    if cfg.exp.is_some() {
        run(c, &adv(SECS2));
        let (n, w, now) = settle(c, m);
        if let Err(e) = m.check_counts(n, w, now, true).and_then(|_| m.check_all_reported(now)) {
            fail(e);
        }
    } else if let Err(e) = m.check_counts(n, w, now, true).and_then(|_| m.check_all_reported(now)) {
        fail(e);
    }
    // what is live must still be readable
    for k in 0..4 {
        let rid = run(c, &op(F::Has, k));
        if let Err(e) = m.apply(rid) {
            fail(e);
        }
    }
    // empty it: by one of two routes
    if (cfg.tti.is_some() || cfg.ttl.is_some()) && rt::choose(2) == 1 {
        run(c, &adv(cfg.tti.unwrap_or(0).max(cfg.ttl.unwrap_or(0))));
        let (n, w, now) = settle(c, m);
        if n != 0 || w != 0 {
            fail(format!("C21: entry_count {n} and weighted_size {w} after everything has expired"));
        }
        if let Err(e) = m.check_all_reported(now) {
            fail(e);
        }
    }
    let rid = run(c, &op(F::InvAll, 0));
    let _ = m.apply(rid);
    let (n, w, now) = settle(c, m);
    if n != 0 || w != 0 {
        fail(format!("C11: entry_count {n} and weighted_size {w} after everything was invalidated"));
    }
    if let Err(e) = m.check_all_reported(now) {
        fail(e);
    }
}

static BASIC: &[L] = &[];

pub fn al(v: Vec<L>) -> &'static [L] {
    Box::leak(v.into_boxed_slice())
}

fn flavs() -> [(&'static str, Flav); 3] {
    [("sync", Flav::S), ("seg", Flav::G(2)), ("future", Flav::F)]
}

pub static E_LIFE: ExpScript = ExpScript {
    create: &[Ans::No, Ans::In(4)],
    update: &[Ans::Same, Ans::No, Ans::In(4)],
    read: &[Ans::Same, Ans::In(6)],
};

static E_ZERO: ExpScript = ExpScript {
    create: &[Ans::In(3), Ans::In(0), Ans::Far],
    update: &[Ans::Same, Ans::In(0), Ans::In(1)],
    read: &[Ans::Same, Ans::In(1)],
};

/// A unit whose executions have one thread: nothing to preempt.
fn lu(name: impl Into<String>, props: &[&'static str], run: impl Fn(Tier) + 'static) -> Unit {
    unit(name, props, run).bound(0, 0)
}

pub fn units() -> Vec<Unit> {
    let mut v = Vec::new();
    let _ = BASIC;
    for (fname, f) in flavs() {
        // --- time-to-live / time-to-idle
        let base = vec![
            o(F::Ins, 1),
            o(F::Get, 1),
            o(F::Ins, 2),
            o(F::Has, 1),
            o(F::Pend, 0),
            L::ToDl(-1),
            L::ToDl(0),
            L::O(adv(2)),
            o(F::Rem, 1),
            o(F::Iter, 0),
        ];
        let full = {
            let mut b = base.clone();
            b.extend([o(F::Upsert, 1), o(F::GetWith, 1), o(F::InvAll, 0), o(F::Get, 2)]);
            b
        };
        for (tn, ttl, tti) in [("ttl", Some(9), None), ("tti", None, Some(7)), ("both", Some(12), Some(7))] {
            for (ln, lis) in [("", Lis::No), ("-lis", Lis::Log)] {
                let mut cfg = Cfg::new(f).lis(lis);
                cfg.ttl = ttl;
                cfg.tti = tti;
                let (a, fa) = (al(base.clone()), al(full.clone()));
                v.push(
                    lu(format!("life-time-{tn}{ln}-{fname}"), &["C06", "C21", "C11", "C13"], move |t| {
                        life(&cfg, a, if t == Tier::Quick { 5 } else { 6 }, &[])
                    })
                    .shards(1, 4)
                    .what("all sequences over insert/get/contains/remove/iterate/maintenance/clock steps at deadlines"),
                );
                v.push(
                    lu(format!("life-time-full-{tn}{ln}-{fname}"), &["C06"], move |t| {
                        life(&cfg, fa, if t == Tier::Quick { 4 } else { 6 }, &[])
                    })
                    .shards(1, 8)
                    .what("same with loads, computes and invalidation"),
                );
            }
        }
        // --- per-entry expiry
        let ex = vec![
            o(F::Ins, 1),
            o(F::Get, 1),
            o(F::Upsert, 1),
            o(F::Pend, 0),
            L::ToDl(-1),
            L::ToDl(0),
            o(F::Has, 1),
            o(F::GetWith, 1),
            o(F::Rem, 1),
            L::O(adv(SECS2)),
        ];
        for (tn, ttl, tti) in [("", None, None), ("-ttl", Some(9), None), ("-tti", None, Some(5)), ("-both", Some(9), Some(5))] {
            for (ln, lis) in [("", Lis::No), ("-lis", Lis::Log)] {
                let mut cfg = Cfg::new(f).lis(lis).exp(E_LIFE);
                cfg.ttl = ttl;
                cfg.tti = tti;
                let a = al(ex.clone());
                v.push(
                    lu(format!("life-expiry{tn}{ln}-{fname}"), &["C07", "C21", "C11", "C13"], move |t| {
                        life(&cfg, a, if t == Tier::Quick { 4 } else { 5 }, &[])
                    })
                    .shards(1, 4)
                    .what("all sequences x all callback answers"),
                );
            }
        }
        for (tn, ttl) in [("", None), ("-ttl", Some(2))] {
            let mut cfg = Cfg::new(f).lis(Lis::Log).exp(E_ZERO);
            cfg.ttl = ttl;
            let a = al(ex.clone());
            v.push(
                lu(format!("life-expiry-zero{tn}-{fname}"), &["C07", "C21", "C13"], move |t| life(&cfg, a, if t == Tier::Quick { 4 } else { 5 }, &[]))
                    .shards(1, 4)
                    .what("all sequences x answers of no time at all and of all time"),
            );
        }
        // --- invalidation
        let inv = vec![
            o(F::Ins, 1),
            L::O(op(F::Ins, 2).w(2)),
            o(F::InvAll, 0),
            o(F::Get, 1),
            o(F::Pend, 0),
            o(F::Iter, 0),
            o(F::Has, 2),
            o(F::Upsert, 1),
            o(F::Rem, 1),
            o(F::GetWith, 2),
            L::O(op(F::Compute, 1).act(Act::Rem)),
        ];
        for (ln, lis) in [("", Lis::No), ("-lis", Lis::Log)] {
            let cfg = Cfg::new(f).lis(lis).weigher();
            let a = al(inv.clone());
            v.push(
                lu(format!("life-invall{ln}-{fname}"), &["C08", "C11", "C13", "C15"], move |t| {
                    life(&cfg, a, if t == Tier::Quick { 5 } else { 6 }, &[])
                })
                .shards(1, 4)
                .what("all sequences with invalidate_all"),
            );
            let mut cfgt = cfg;
            cfgt.ttl = Some(8);
            v.push(
                lu(format!("life-invall-ttl{ln}-{fname}"), &["C08"], move |t| {
                    life(&cfgt, al_join(a, &[L::ToDl(0), L::ToDl(-1)]), if t == Tier::Quick { 4 } else { 5 }, &[])
                })
                .shards(1, 4),
            );
        }
        let pr = vec![
            o(F::Ins, 1),
            L::O(op(F::Ins, 2).w(2)),
            L::O(op(F::InvIf, 0).pr(Pr::Key(1))),
            L::O(op(F::InvIf, 0).pr(Pr::Heavy)),
            L::O(op(F::InvIf, 0).pr(Pr::Even)),
            o(F::Pend, 0),
            o(F::Get, 1),
            o(F::Has, 2),
            o(F::Iter, 0),
            o(F::Upsert, 1),
            o(F::Rem, 2),
            o(F::GetWith, 1),
        ];
        for (ln, lis) in [("", Lis::No), ("-lis", Lis::Log)] {
            let cfg = Cfg::new(f).lis(lis).weigher().closures();
            let a = al(pr.clone());
            v.push(
                lu(format!("life-pred{ln}-{fname}"), &["C09", "C11", "C13", "C15"], move |t| {
                    life(&cfg, a, if t == Tier::Quick { 5 } else { 6 }, &[])
                })
                .shards(1, 4)
                .what("all sequences with invalidate_entries_if"),
            );
        }
        // --- every selector form
        let mut sel = Vec::new();
        for r in [false, true] {
            let x = |p: Op| L::O(if r { p.r() } else { p });
            for f in [F::GetWith, F::OptGetWith, F::TryGetWith, F::OrDefault, F::OrInsert, F::OrInsertWith, F::OrOpt, F::OrTry, F::Upsert] {
                sel.push(x(op(f, 1)));
            }
            for f in [F::OptGetWith, F::TryGetWith, F::OrOpt, F::OrTry] {
                sel.push(x(op(f, 1).act(Act::Nop)));
            }
            for f in [F::Compute, F::TryCompute] {
                for a in [Act::Put, Act::Rem, Act::Nop] {
                    sel.push(x(op(f, 1).act(a)));
                }
            }
            sel.push(x(op(F::TryCompute, 1).act(Act::Err)));
            for c in [false, true] {
                sel.push(x(op(F::OrInsertWithIf, 1).cond(c)));
            }
            if f == Flav::F {
                sel.push(x(op(F::TryComputeNE, 1)));
                sel.push(x(op(F::TryComputeNE, 1).act(Act::Rem)));
                sel.push(x(op(F::TryComputeNE, 1).act(Act::Err)));
            }
        }
        for c in [false, true] {
            sel.push(L::O(op(F::GetWithIf, 1).cond(c)));
        }
        sel.push(L::O(op(F::TryGetUnit, 1)));
        sel.push(L::O(op(F::TryGetUnit, 1).act(Act::Nop)));
        for f in [F::GetWith, F::OptGetWith, F::TryGetWith, F::OrInsertWith, F::Compute, F::Upsert] {
            sel.push(L::O(op(f, 1).act(Act::Panic)));
        }
        sel.extend([o(F::Ins, 1), o(F::Rem, 1), o(F::InvAll, 0), L::O(adv(6)), o(F::Get, 1)]);
        for (ln, lis) in [("", Lis::No), ("-lis", Lis::Log)] {
            let mut cfg = Cfg::new(f).lis(lis);
            cfg.ttl = Some(6);
            let a = al(sel.clone());
            v.push(
                lu(format!("life-select{ln}-{fname}"), &["C20", "C05", "C04"], move |t| {
                    life(&cfg, a, if t == Tier::Quick { 3 } else { 4 }, &[])
                })
                .shards(1, 8)
                .what("all sequences over every entry/get_with form on present, absent, expired and invalidated keys"),
            );
            let cfg = Cfg::new(f).lis(lis).exp(E_LIFE);
            v.push(
                lu(format!("life-select-exp{ln}-{fname}"), &["C20", "C07"], move |t| {
                    life(&cfg, a, if t == Tier::Quick { 2 } else { 3 }, &[])
                })
                .shards(1, 4),
            );
        }
    }
    v
}

fn al_join(a: &[L], b: &[L]) -> &'static [L] {
    let mut v = a.to_vec();
    v.extend(b);
    // called once per execution: cache the result
    static CACHE: Sh<Vec<(usize, &'static [L])>> = Sh::new(Vec::new());
    sys(|| {
        let key = a.as_ptr() as usize;
        if let Some(x) = CACHE.g().iter().find(|x| x.0 == key) {
            return x.1;
        }
        let l: &'static [L] = Box::leak(v.clone().into_boxed_slice());
        CACHE.g().push((key, l));
        l
    })
}
