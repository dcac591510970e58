//! One entry worn by tens of thousands of updates (or reads): every wrap-around of the per-entry
//! generation counters (12 and 16 bits), to one and the other side, then each way of losing the entry.
use crate::api::*;
use crate::model::*;
use crate::seq::fail;
use crate::unit::*;
use mcrt::rt;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Last {
    Crowd,
    Deadline,
    InvAll,
    InvIf,
    Rem,
}

fn wear(cfg: &Cfg, by: &[F], ns: &[u32], every: &[u32], lasts: &[Last]) {
    begin();
    let c = build(cfg);
    let f = by[rt::choose(by.len())];
    let n = ns[rt::choose(ns.len())];
    let ev = every[rt::choose(every.len())];
    let last = lasts[rt::choose(lasts.len())];
    let go = |f, k, id| {
        let r = run(&c, &op(f, k).id(id));
        res(r)
    };
    go(F::Ins, 1, 1);
    if let Some(t) = cfg.ttl.or(cfg.tti) {
        assert!(t > 1 << 18);
    }
    let mut live = 1;
    let mut notified = 0;
    for i in 0..n {
        let r = go(f, 1, i + 2);
        if f == F::Get {
            if *r != Res::V(Some(1)) {
                fail(format!("C06: read {i} of a live entry gives {r:?}"));
            }
        } else {
            live = i + 2;
        }
        if i % ev == ev - 1 {
            go(F::Pend, 0, 0);
        }
        if f != F::Get {
            let g = g();
            if g.notif[0].len() != 1 || g.notif[0][0].id != live - 1 {
                fail(format!("C13: update {i} replaced v{} and notified {:?}", live - 1, g.notif[0]));
            }
            notified += 1;
            g.notif[0].clear();
        }
        let g = g();
        g.recs.clear();
        g.cbs[0].clear();
        g.weighed[0].clear();
        g.memo.clear();
    }
    go(F::Pend, 0, 0);
    if counts(&c) != (1, 1) {
        fail(format!("C11: (entry_count, weighted_size) is {:?} after {n} updates of one entry", counts(&c)));
    }
    run(&c, &adv(1));
    let tag = match last {
        Last::Crowd => {
            // two newer entries: the worn one is the least recently used
            for k in [2, 3] {
                go(F::Ins, k, 900_000 + k);
            }
            go(F::Pend, 0, 0);
            "C12"
        }
        Last::Deadline => {
            adv_to(&c, cfg);
            go(F::Pend, 0, 0);
            "C21"
        }
        Last::InvAll => {
            go(F::InvAll, 0, 0);
            go(F::Pend, 0, 0);
            "C08"
        }
        Last::InvIf => {
            run(&c, &op(F::InvIf, 0).pr(Pr::All));
            go(F::Pend, 0, 0);
            "C09"
        }
        Last::Rem => {
            go(F::Rem, 1, 0);
            go(F::Pend, 0, 0);
            "C11"
        }
    };
    let left = if last == Last::Crowd { 2 } else { 0 };
    if counts(&c) != (left, left) {
        fail(format!("{tag}: {last:?} after {n} x {f:?} (maintenance every {ev}): {:?} entries in memory, must be {left}", counts(&c)));
    }
    let x = &g().notif[0];
    if x.len() != 1 || x[0].id != live {
        fail(format!("{tag}: {last:?} after {n} x {f:?} (maintenance every {ev}): notified {x:?}, must be v{live}"));
    }
    if *go(F::Has, 1, 0) != Res::B(false) {
        fail(format!("{tag}: {last:?} after {n} x {f:?} (maintenance every {ev}): the entry is still there"));
    }
    rt::outcome(|| format!("{f:?} {n} {ev} {last:?} {notified}"));
}

/// past the deadline and one tick of the timers
fn adv_to(c: &C, cfg: &Cfg) {
    let d = cfg.ttl.or(cfg.tti).unwrap_or(LONG) + (1 << 18);
    run(c, &adv(d));
}

const LONG: u64 = 1 << 40;
static E_WEAR: ExpScript = ExpScript { create: &[Ans::In(LONG)], update: &[Ans::In(LONG)], read: &[Ans::In(LONG)] };

pub fn units() -> Vec<Unit> {
    use Last::*;
    let mut v = Vec::new();
    const N16: &[u32] = &[1, 65533, 65534, 65535, 65536, 65537];
    const N12: &[u32] = &[1, 4093, 4094, 4095, 4096, 4097];
    const ALL: &[u32] = &[1, 4094, 4095, 4096, 4097, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 131071, 131072, 131073];
    for (fname, fl) in [("sync", Flav::S), ("future", Flav::F)] {
        let base = Cfg::new(fl).lis(Lis::Log).closures();
        let big = |o: &mut mcrt::rt::Opts| {
            o.horizon = u64::MAX as _;
            o.op_tick = 0;
        };
        let lru = base.cap(2).lru();
        v.push(
            unit(format!("wear-lru-{fname}"), &["C12", "C11"], move |t| {
                let q = t == Tier::Quick;
                wear(&lru, if q { &[F::Ins] } else { &[F::Ins, F::Upsert, F::Get] }, if q { N16 } else { ALL }, if q { &[50] } else { &[1, 50, 1 << 30] }, if q { &[Crowd] } else { &[Crowd, Rem] })
            })
            .bound(0, 0)
            .shards(8, 16)
            .sdepth(2)
            .tweak(big)
            .what("every wrap-around of the per-entry generation counters x maintenance frequency, then eviction"),
        );
        for (n, cfg, by) in [("ttl", base.ttl(LONG), &[F::Ins][..]), ("tti", base.tti(LONG), &[F::Get, F::Ins]), ("exp", base.exp(E_WEAR), &[F::Get, F::Ins])] {
            v.push(
                unit(format!("wear-{n}-{fname}"), &["C21", "C08", "C09"], move |t| {
                    let q = t == Tier::Quick;
                    let ns = if !q { ALL } else if n == "exp" { N12 } else { N16 };
                    wear(&cfg, by, ns, if q { &[50, 1 << 30] } else { &[1, 50, 1 << 30] }, if q { &[Deadline, InvAll] } else { &[Deadline, InvAll, InvIf, Rem] })
                })
                .bound(0, 0)
                .shards(4, 16)
                .sdepth(2)
                .tweak(big)
                .what("every wrap-around of the per-entry generation counters x maintenance frequency, then expiry or invalidation"),
            );
        }
    }
    v
}
