//! Hundreds of keys come and go in one cache, each in the same way: after the tables have reached their
//! working size, the memory in use must not grow with the number of keys that were there once.
use crate::api::*;
use crate::many::{E_LIFE20, LIFE};
use crate::seq::fail;
use crate::unit::*;
use mcrt::rt;

/// 1 day, 10 days and the longest duration, which keep their timers on different levels of the wheel
const DAY: u64 = 86_400 * 244_140;
static E_DAY: ExpScript = ExpScript { create: &[Ans::In(DAY)], update: &[Ans::In(DAY)], read: &[Ans::Same] };
static E_TEN: ExpScript = ExpScript { create: &[Ans::In(10 * DAY)], update: &[Ans::In(10 * DAY)], read: &[Ans::In(DAY)] };
static E_FAR: ExpScript = ExpScript { create: &[Ans::Far], update: &[Ans::Far], read: &[Ans::Same] };
static E_OFF: ExpScript = ExpScript { create: &[Ans::In(LIFE)], update: &[Ans::No], read: &[Ans::No] };
static E_MIN: ExpScript = ExpScript { create: &[Ans::In(1 << 22)], update: &[Ans::In(DAY)], read: &[Ans::In(1 << 24)] };

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Do(Op),
    /// maintenance after each of the two
    Twice(Op, Op),
    /// passes its deadline
    Late,
    /// stays, until it has to make room
    Stay,
}

fn churn(cfg: &Cfg, puts: &[Op], outs: &[Out], cancel: bool) {
    begin();
    let c = build(cfg);
    let put = puts[rt::choose(puts.len())];
    let out = outs[rt::choose(outs.len())];
    let every = [1, 7][rt::choose(2)];
    const N: u32 = 630;
    let mut max = [0usize; 3];
    let go = |o: Op| {
        let rid = if cancel { run_c(&c, &o, |n| n == 1) } else { run(&c, &o) };
        let panicked = g().recs[rid].res == Res::Panic;
        if panicked && o.act != Act::Panic {
            fail(format!("C18: {o:?} panicked"));
        }
    };
    for i in 0..N {
        let mut o = put;
        if o.k == 1 {
            o.k = i + 1;
        }
        go(o.id(i + 1));
        match out {
            Out::Do(mut x) => {
                if x.k == 1 {
                    x.k = i + 1;
                }
                go(x.id(10_000 + i));
                if cfg.ttl.is_some() || cfg.tti.is_some() || cfg.exp.is_some() {
                    run(&c, &adv(LIFE / 16));
                }
            }
            Out::Twice(mut x, mut y) => {
                x.k = i + 1;
                y.k = i + 1;
                run(&c, &op(F::Pend, 0));
                go(x.id(10_000 + i));
                run(&c, &op(F::Pend, 0));
                run(&c, &adv(LIFE / 16));
                go(y);
            }
            Out::Late => {
                run(&c, &adv(LIFE));
            }
            Out::Stay => {}
        }
        if i % every == every - 1 {
            run(&c, &op(F::Pend, 0));
            run(&c, &op(F::Pend, 0));
            let m = &mut max[(i * 3 / N) as usize];
            *m = (*m).max(mcrt::alloc::live().0);
        }
        mcrt::alloc::sys(|| {
            let g = g();
            g.recs.clear();
            g.cbs[0].clear();
            g.weighed[0].clear();
            g.memo.clear();
            g.notif[0].clear();
            g.preds.clear();
        });
    }
    if max[2] > max[1] + 40 {
        fail(format!(
            "C17: {} more blocks of memory are in use after {} more keys came ({put:?}) and went ({out:?}), maintenance every {every} keys",
            max[2] - max[1],
            N / 3
        ));
    }
    rt::outcome(|| format!("{max:?}"));
}

pub fn units() -> Vec<Unit> {
    let mut v = Vec::new();
    for (fname, fl) in [("sync", Flav::S), ("seg", Flav::G(2)), ("future", Flav::F)] {
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            let o = |f, a| op(f, 1).act(a);
            let mut puts = vec![
                op(F::Ins, 1),
                op(F::GetWith, 1),
                op(F::GetWith, 1).r(),
                o(F::GetWith, Act::Panic),
                o(F::OptGetWith, Act::Nop),
                op(F::OptGetWith, 1),
                o(F::TryGetWith, Act::Err),
                op(F::TryGetWith, 1),
                op(F::GetWithIf, 1).cond(true),
                op(F::OrInsert, 1),
                op(F::OrDefault, 1),
                op(F::OrInsertWith, 1).r(),
                o(F::OrOpt, Act::Nop).r(),
                o(F::OrTry, Act::Err).r(),
                op(F::Upsert, 1),
                o(F::Upsert, Act::Panic),
                op(F::Compute, 1),
                o(F::Compute, Act::Nop),
                o(F::Compute, Act::Rem),
                op(F::TryCompute, 1),
                o(F::TryCompute, Act::Err),
            ];
            if fl == Flav::F {
                puts.extend([op(F::TryComputeNE, 1), o(F::TryComputeNE, Act::Err), o(F::TryComputeNE, Act::Nop), o(F::TryComputeNE, Act::Panic)]);
            }
            let outs = vec![
                Out::Do(op(F::Rem, 1)),
                Out::Do(op(F::Inv, 1)),
                Out::Do(o(F::Compute, Act::Rem)),
                Out::Do(op(F::InvAll, 0)),
                Out::Do(op(F::InvIf, 0).pr(Pr::All)),
            ];
            let some = vec![op(F::Ins, 1), op(F::GetWith, 1), op(F::Upsert, 1), op(F::Compute, 1)];
            let pend: Vec<Op> = puts.iter().filter(|p| p.f != F::Ins && p.f != F::OrInsert && p.f != F::OrDefault).map(|p| p.y(1)).collect();
            let base = Cfg::new(fl).lis(l).hm(HM::Near).closures().init_cap(1);
            let far = vec![
                Out::Twice(op(F::Get, 1), op(F::Rem, 1)),
                Out::Twice(op(F::Ins, 1), op(F::Rem, 1)),
                Out::Do(op(F::Rem, 1)),
                Out::Do(op(F::InvAll, 0)),
                Out::Do(op(F::InvIf, 0).pr(Pr::All)),
            ];
            let mut cfgs = vec![
                ("all", base, puts.clone(), outs, false),
                ("ttl", base.ttl(LIFE), some.clone(), vec![Out::Late, Out::Do(op(F::Ins, 1)), Out::Do(op(F::Rem, 1))], false),
                ("tti", base.tti(LIFE), some.clone(), vec![Out::Late, Out::Do(op(F::Get, 1))], false),
                ("exp", base.exp(E_LIFE20), some.clone(), vec![Out::Late, Out::Do(op(F::Rem, 1)), Out::Do(op(F::InvAll, 0))], false),
                ("exp-day", base.exp(E_DAY), some[..2].to_vec(), far.clone(), false),
                ("exp-ten", base.exp(E_TEN), some[..2].to_vec(), far.clone(), false),
                ("exp-far", base.exp(E_FAR), some[..2].to_vec(), far.clone(), false),
                ("exp-off", base.exp(E_OFF), some[..2].to_vec(), far.clone(), false),
                ("exp-min", base.exp(E_MIN), some[..2].to_vec(), far.clone(), false),
                ("lru", base.cap(2).lru(), some.clone(), vec![Out::Stay, Out::Do(op(F::Get, 1)), Out::Do(op(F::Rem, 1))], false),
                ("lfu", base.cap(2), some.clone(), vec![Out::Stay, Out::Do(op(F::Get, 1)), Out::Do(op(F::Ins, 1))], false),
            ];
            if fl == Flav::F {
                cfgs.push(("cancel", base, pend, vec![Out::Do(op(F::Rem, 1)), Out::Do(o(F::Compute, Act::Rem)), Out::Do(op(F::InvAll, 0))], true));
            }
            for (n, cfg, puts, outs, cancel) in cfgs {
                v.push(
                    unit(format!("churn-{n}{ln}-{fname}"), if cancel { &["C17", "C16"] } else { &["C17"] }, move |_| churn(&cfg, &puts, &outs, cancel))
                        .bound(0, 0)
                        .shards(if n == "all" { 4 } else { 1 }, 4)
                        .sdepth(2)
                        .tweak(|o| o.horizon = 20_000_000)
                        .what("630 keys come and go in each way: the memory in use does not grow"),
                );
            }
        }
    }
    v
}
