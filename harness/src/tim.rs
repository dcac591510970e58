//! Deadlines and clock jumps on and around the boundaries of every level of the timer wheel.
use crate::api::*;
use crate::model::*;
use crate::seq::{al, fail, o, L};
use crate::unit::*;
use mcrt::rt;

/// one tick of the finest level in units
const T0: u64 = 1 << 18;
const T1: u64 = 1 << 24;
const T2: u64 = 1 << 30;
const T3: u64 = 1 << 35;
const T4: u64 = 1 << 37;

static E_TIM: ExpScript = ExpScript {
    create: &[Ans::In(1), Ans::In(T0), Ans::In(T1 - 1), Ans::In(T1), Ans::In(T2 + 3), Ans::In(T3), Ans::In(T4 - 1), Ans::In(T4 + T3 + 5), Ans::In(T4 * 56), Ans::Far],
    update: &[Ans::Same, Ans::No, Ans::In(T0 - 1), Ans::In(T1 + T0), Ans::In(T3 + 1), Ans::In(T4 * 3), Ans::Far],
    read: &[Ans::Same, Ans::In(2), Ans::In(T2)],
};
static E_TIM_Q: ExpScript = ExpScript {
    create: &[Ans::In(1), Ans::In(T0), Ans::In(T1), Ans::In(T2 + 3), Ans::In(T3), Ans::In(T4 + T3 + 5), Ans::Far],
    update: &[Ans::Same, Ans::No, Ans::In(T0 - 1), Ans::In(T1 + T0), Ans::In(T4 * 3), Ans::Far],
    read: &[Ans::Same, Ans::In(T2)],
};

fn overdue(m: &Model, now: u64) {
    for k in 0..NK as u32 {
        if let Some(e) = m.cur[k as usize] {
            if let Some(d) = m.deadline(&e) {
                if d + T0 <= now {
                    fail(format!("C21: key {k} value v{} expired at {d} and is still in memory after maintenance at {now} (a tick is {T0})", e.id));
                }
            }
        }
    }
}

/// `step` with the model; maintenance checks lateness.
fn play(c: &C, m: &mut Model, l: L, id: u32) {
    let op = match l {
        L::O(x) => x.id(id),
        L::ToDl(d) => {
            let now = now_u();
            let best = (0..NK as u32).filter_map(|k| m.cur[k as usize].and_then(|e| m.deadline(&e))).filter(|t| *t < FAR / 2 && *t as i64 + d > now as i64).min();
            match best {
                Some(b) => adv((b as i64 + d - now as i64 - 2).max(0) as u64),
                None => return,
            }
        }
    };
    let rid = run(c, &op);
    if let Err(e) = m.apply(rid) {
        fail(e);
    }
    if op.f == F::Pend {
        overdue(m, g().recs[rid].t0);
        let (n, w) = counts(c);
        let held = (0..NK).filter(|k| m.cur[*k].is_some()).count() as u64;
        if n != held || w != held {
            fail(format!("C11: entry_count {n}, weighted_size {w}, but {held} values are stored and not reported"));
        }
    }
}

fn timers(cfg: &Cfg, phases: &[u64], alpha: &[L], depth: usize) {
    begin();
    let c = build(cfg);
    let mut m = Model::new(cfg, 0);
    let ph = phases[rt::choose(phases.len())];
    if ph > 0 {
        play(&c, &mut m, L::O(adv(ph)), 0);
    }
    let pend = L::O(op(F::Pend, 0));
    play(&c, &mut m, L::O(op(F::Ins, 1)), 1);
    if rt::choose(2) == 0 {
        play(&c, &mut m, pend, 0);
    }
    for i in 0..depth {
        let l = alpha[rt::choose(alpha.len())];
        play(&c, &mut m, l, i as u32 + 2);
    }
    play(&c, &mut m, pend, 0);
    // every remaining deadline in turn: never early, at most a tick late
    for _ in 0..4 {
        play(&c, &mut m, L::ToDl(-1), 0);
        play(&c, &mut m, pend, 0);
        play(&c, &mut m, L::ToDl(T0 as i64), 0);
        play(&c, &mut m, pend, 0);
    }
    rt::outcome(|| format!("{:?}", m.gone.iter().map(|x| x.id).collect::<Vec<_>>()));
}

pub fn units() -> Vec<Unit> {
    let mut v = Vec::new();
    for (fname, f) in [("sync", Flav::S), ("future", Flav::F)] {
        let cfg = Cfg::new(f).lis(Lis::Log).exp(E_TIM);
        let cfgq = Cfg::new(f).lis(Lis::Log).exp(E_TIM_Q);
        let a = al(vec![
            o(F::Pend, 0),
            L::ToDl(-1),
            L::ToDl(0),
            L::ToDl(T0 as i64),
            L::O(adv(T0 - 1)),
            L::O(adv(T1)),
            L::O(adv(T2 - T0)),
            L::O(adv(T4 - 7)),
            o(F::Ins, 2),
            o(F::Ins, 1),
            o(F::Get, 1),
            o(F::Rem, 1),
        ]);
        v.push(
            unit(format!("timer-{fname}"), &["C21", "C07"], move |t| {
                if t == Tier::Quick {
                    timers(&cfgq, &[0, T0 - 2, T4 - 3], a, 3)
                } else {
                    timers(&cfg, &[0, T0 - 2, T1 - 3, T2 - 1, T4 - 3], a, 4)
                }
            })
            .bound(0, 0)
            .shards(4, 16)
            .sdepth(2)
            .what("all sequences of deadlines, updates, reads and clock jumps around the boundaries of every timer level"),
        );
        // the cache-wide limits next to the timers
        for (n, ttl, tti) in [("ttl", Some(T1), None), ("tti", None, Some(T1))] {
            let mut cq = cfgq;
            cq.ttl = ttl;
            cq.tti = tti;
            v.push(
                unit(format!("timer-{n}-{fname}"), &["C21"], move |t| timers(&cq, &[0, T0 - 2], a, if t == Tier::Quick { 2 } else { 4 }))
                    .bound(0, 0)
                    .shards(2, 16)
                    .sdepth(2),
            );
        }
    }
    v
}
