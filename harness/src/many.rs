//! More entries than one batch of maintenance: hundreds of entries leave at once, with something happening to
//! one of them at the edge of a batch while maintenance is half way through.
use crate::api::*;
use crate::seq::fail;
use crate::unit::*;
use mcrt::rt;
use moka::notification::RemovalCause as RC;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    /// every deadline passes
    Time,
    /// the deadlines of the older half pass
    Half,
    InvAll,
    /// every second entry
    Even,
    /// two predicates, the second one registered while the scan for the first is under way
    Two,
    /// one heavy entry needs the room of all but ten
    Heavy,
    /// weightless entries are older than the ten whose weight counts; a new heavy entry needs the room of eight
    Light,
    /// the same, and the newest of the ten becomes heavier
    Grow,
}
use Why::*;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Meanwhile {
    Nothing,
    Over(u32),
    Read(u32),
    Rem(u32),
    New,
}

struct E {
    k: u32,
    id: u32,
    w: u64,
    t: u64,
    /// overwritten or removed: reported with one of these causes
    left: &'static [RC],
}

fn many(cfg: &Cfg, whys: &[Why], ns: &[u32], mean: &[Meanwhile]) {
    use Meanwhile::*;
    begin();
    let n = ns[rt::choose(ns.len())];
    let why = whys[rt::choose(whys.len())];
    let mut cfg = *cfg;
    if why == Why::Heavy {
        cfg = cfg.cap(n as u64).lru().weigher();
    }
    let light = matches!(why, Light | Grow);
    let room = light || why == Heavy;
    if light {
        cfg = cfg.cap(10).weigher();
    }
    let c = build(&cfg);
    let m = mean[rt::choose(mean.len())];
    let late = m != Nothing && rt::choose(2) == 1;
    let what = || format!("{n} entries, {why:?}, {m:?} {}", if late { "after one maintenance run" } else { "before maintenance" });
    let mut es: Vec<E> = Vec::new();
    let go = |o: Op| {
        let rid = run(&c, &o);
        if g().recs[rid].res == Res::Panic {
            fail(format!("C18: {o:?} panicked: {}", what()));
        }
        rid
    };
    let put = |es: &mut Vec<E>, k: u32, id: u32, w: u32| {
        let rid = go(op(F::Ins, k).id(id).w(w));
        es.push(E { k, id, w: w as u64, t: g().recs[rid].t0, left: &[] });
    };
    for k in 1..=n {
        put(&mut es, k, k, !light as u32);
    }
    if light {
        for k in 4001..=4010 {
            put(&mut es, k, k, 1);
        }
    }
    for _ in 0..3 {
        go(op(F::Pend, 0));
    }
    if counts(&c) != if light { (n as u64 + 10, 10) } else { (n as u64, n as u64) } {
        fail(format!("C11: (entry_count, weighted_size) is {:?} with {n} entries", counts(&c)));
    }
    let ttl = cfg.ttl.or(cfg.tti).unwrap_or(LIFE);
    let mut bulk = u64::MAX;
    match why {
        Why::Time => {
            let rid = go(adv(ttl + (1 << 19)));
            bulk = g().recs[rid].t0;
        }
        Why::Half => {
            let mid = es[n as usize / 2].t;
            go(adv(mid + ttl - now_u()));
        }
        Why::InvAll => {
            let rid = go(op(F::InvAll, 0));
            bulk = g().recs[rid].t0;
        }
        Why::Even | Why::Two => {
            let rid = go(op(F::InvIf, 0).pr(Pr::Even));
            bulk = g().recs[rid].t0;
        }
        Why::Heavy => put(&mut es, 5000, 5000, n - 10),
        Light => put(&mut es, 5000, 5000, 8),
        Grow => {
            es.pop();
            put(&mut es, 4010, 5010, 9);
        }
    }
    if late || why == Why::Two {
        go(op(F::Pend, 0));
    }
    if why == Why::Two {
        go(op(F::InvIf, 0).pr(Pr::Lt(n / 3)));
    }
    let timed = matches!(why, Why::Time | Why::Half);
    let of = |e: &E| match why {
        Why::Time => e.t < bulk,
        Why::Half => e.t + ttl <= now_u(),
        Why::InvAll => e.t < bulk,
        Why::Even => e.t < bulk && e.id % 2 == 0,
        Why::Two => e.t < bulk && (e.id % 2 == 0 || e.id < n / 3),
        Heavy | Light | Grow => false,
    };
    let mut touched = 0;
    match m {
        Nothing => {}
        Over(k) | Rem(k) if k <= n => {
            touched = k;
            let e = es.iter_mut().find(|e| e.k == k).unwrap();
            e.left = match why {
                _ if timed => &[RC::Expired, RC::Replaced, RC::Explicit],
                _ if room => &[RC::Size, RC::Replaced, RC::Explicit],
                _ => &[RC::Replaced, RC::Explicit],
            };
            if let Over(_) = m {
                put(&mut es, k, 6001, !light as u32);
            } else {
                go(op(F::Rem, k));
            }
        }
        Read(k) if k <= n => {
            touched = k;
            let e = es.iter().find(|e| e.k == k).unwrap();
            let dead = of(e);
            let rid = go(op(F::Get, k));
            let r = &g().recs[rid].res;
            if !room && *r != Res::V((!dead).then_some(k)) {
                fail(format!("{}: key {k} reads {r:?}: {}", if timed { "C06" } else { "C08" }, what()));
            }
        }
        New => put(&mut es, 5001, 6003, !light as u32),
        _ => {}
    }
    go(op(F::Pend, 0));
    let first = counts(&c);
    for _ in 0..5 {
        go(op(F::Pend, 0));
    }
    // without a listener nothing bounds the time of a run, which does all there is to do for these
    if cfg.lis == Lis::No && !matches!(why, Why::Half | Why::Even | Why::Two) && first != counts(&c) {
        let t = if room { "C10" } else { "C11" };
        fail(format!("{t}: one maintenance run leaves (entry_count, weighted_size) {first:?}, later ones {:?}: {}", counts(&c), what()));
    }
    // contents and reports
    let (mut cnt, mut ws) = (0, 0);
    let mut last_live = 0;
    let notif = &g().notif[0];
    let mut by_id = vec![0usize; 7000];
    for (i, x) in notif.iter().enumerate() {
        if by_id[x.id as usize] != 0 {
            fail(format!("C13: v{} of key {} was reported twice: {}", x.id, x.k, what()));
        }
        by_id[x.id as usize] = i + 1;
    }
    let tag = match why {
        Why::Time | Why::Half => "C21",
        Why::InvAll => "C08",
        Why::Even | Why::Two => "C09",
        Heavy | Light | Grow => "C12",
    };
    for e in &es {
        let rep = (by_id[e.id as usize] > 0).then(|| &notif[by_id[e.id as usize] - 1]);
        if !e.left.is_empty() {
            if cfg.lis != Lis::No && !rep.is_some_and(|r| r.k == e.k && e.left.contains(&r.cause)) {
                fail(format!("C13: v{} of key {} was replaced or removed, reported {rep:?}: {}", e.id, e.k, what()));
            }
            continue;
        }
        let rid = run(&c, &op(F::Get, e.k));
        let has = g().recs[rid].res == Res::V(Some(e.id));
        if light {
            if !has && e.k > 4008 && e.k != 5001 {
                fail(format!("C12: key {} was evicted although older entries make enough room: {}", e.k, what()));
            }
            if has && (4001..=4008).contains(&e.k) {
                fail(format!("C10: key {} was not evicted: {}", e.k, what()));
            }
        } else if why == Why::Heavy {
            if !has && m == Nothing && e.k > n - 10 {
                fail(format!("C12: key {} was evicted although older entries make enough room: {}", e.k, what()));
            }
            if !has && touched != 0 && e.k == touched && e.k > n - 10 {
                fail(format!("C12: key {}, just used, was evicted: {}", e.k, what()));
            }
        } else {
            let gone = of(e);
            // deadlines close to the instants of the checks decide nothing
            let vague = why == Why::Half && (e.t + ttl + 8 > g().recs[rid].t0 || e.k == touched);
            if vague && gone == has {
                continue;
            }
            if gone == has {
                fail(format!("{tag}: key {} with v{} is {}: {}", e.k, e.id, if has { "still there" } else { "gone" }, what()));
            }
        }
        if cfg.lis != Lis::No {
            let cause = match why {
                Why::Time | Why::Half => RC::Expired,
                _ if room => RC::Size,
                _ => RC::Explicit,
            };
            match rep {
                Some(_) if has => fail(format!("C13: v{} of key {} is in the cache and was reported: {}", e.id, e.k, what())),
                Some(r) if r.cause != cause || r.k != e.k => fail(format!("C13: v{} of key {} was reported as {r:?}: {}", e.id, e.k, what())),
                None if !has && why != Why::Half => fail(format!("C13: v{} of key {} left without a report: {}", e.id, e.k, what())),
                _ => {}
            }
        }
        if has {
            cnt += 1;
            ws += if cfg.weigher { e.w } else { 1 };
            last_live = e.k;
        }
    }
    // timers may be late by a tick
    let exact = !(why == Why::Half);
    if exact && counts(&c) != (cnt, ws) {
        fail(format!("C11: (entry_count, weighted_size) is {:?}, contents {:?}: {}", counts(&c), (cnt, ws), what()));
    }
    if cfg.cap.is_some_and(|cap| counts(&c).1 > cap) {
        fail(format!("C10: {:?}: {}", counts(&c), what()));
    }
    rt::outcome(|| format!("{n} {why:?} {m:?} {cnt} {last_live}"));
}

pub const LIFE: u64 = 1 << 20;
pub static E_LIFE20: ExpScript = ExpScript { create: &[Ans::In(LIFE)], update: &[Ans::In(LIFE)], read: &[Ans::Same] };

pub fn units() -> Vec<Unit> {
    use Meanwhile::*;
    let mut v = Vec::new();
    const QN: &[u32] = &[384, 385, 800];
    const TN: &[u32] = &[64, 383, 384, 385, 767, 768, 769, 1200];
    const QM: &[Meanwhile] = &[Nothing, Over(1), Over(385), Read(384), Rem(385), Rem(386), New];
    const TM: &[Meanwhile] = &[Nothing, Over(1), Over(2), Over(383), Over(384), Over(385), Over(386), Read(1), Read(384), Read(385), Rem(1), Rem(384), Rem(385), Rem(386), Rem(387), New];
    for (fname, fl) in [("sync", Flav::S), ("seg", Flav::G(2)), ("future", Flav::F)] {
        for (ln, l) in [("", Lis::No), ("-lis", Lis::Log)] {
            let base = Cfg::new(fl).lis(l).closures();
            for (n, cfg, whys, props) in [
                ("ttl", base.ttl(LIFE), &[Time, Half][..], &["C21", "C11"][..]),
                ("tti", base.tti(LIFE), &[Time, Half, InvAll], &["C21", "C11"]),
                ("exp", base.exp(E_LIFE20), &[Time, Half], &["C21", "C11"]),
                ("inv", base, &[InvAll], &["C08", "C11"]),
                ("pred", base, &[Even, Two], &["C09", "C11"]),
                ("heavy", base, &[Heavy], &["C12", "C10"]),
                ("light-lru", base.lru(), &[Light, Grow], &["C10", "C12"]),
                ("light-lfu", base, &[Grow], &["C10", "C12"]),
            ] {
                if (n == "heavy" || n.starts_with("light")) && matches!(fl, Flav::G(_)) {
                    continue;
                }
                let mut props = props.to_vec();
                if l == Lis::Log {
                    props.push("C13");
                }
                v.push(
                    unit(format!("many-{n}{ln}-{fname}"), &props, move |t| {
                        let q = t == Tier::Quick;
                        many(&cfg, whys, if q && fl != Flav::S { QN } else { TN }, if q && fl != Flav::S { QM } else { TM })
                    })
                    .bound(0, 0)
                    .shards(2, 8)
                    .sdepth(2)
                    .tweak(|o| o.horizon = 20_000_000)
                    .what("hundreds of entries leave at once, more than one batch of maintenance, x what happens at the edges of the batches"),
                );
            }
        }
    }
    v
}
