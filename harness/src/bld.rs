//! Every combination of the builder's settings over small domains, each followed by a probe sequence.
use crate::api::*;
use crate::model::*;
use crate::seq::fail;
use crate::unit::*;
use mcrt::rt;
use moka::future::Cache as FCache;
use moka::policy::EvictionPolicy;
use moka::sync::{Cache as SCache, SegmentedCache};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

static E_B: ExpScript = ExpScript { create: &[Ans::In(40)], update: &[Ans::In(50)], read: &[Ans::Same] };

fn pick<T: Copy>(v: &[T]) -> T {
    v[rt::choose(v.len())]
}

fn matrix(f: Flav, via_segments: bool, small: bool) {
    begin();
    let mut cfg = Cfg::new(f);
    cfg.via_segments = via_segments;
    cfg.cap = pick(&[None, Some(0), Some(1), Some(6)]);
    cfg.weigher = pick(&[false, true]);
    let pol = pick(&[0u8, 1, 2]);
    cfg.lru = pol == 1;
    cfg.lfu = pol == 2;
    cfg.ttl = pick(&[None, Some(30)]);
    cfg.tti = pick(&[None, Some(20)]);
    cfg.lis = pick(&[Lis::No, Lis::Log]);
    cfg.exp = pick(&[None, Some(E_B)]);
    cfg.closures = pick(&[false, true]);
    cfg.named = pick(&[false, true]);
    cfg.init_cap = pick(if small { &[None, Some(1)] } else { &[None, Some(0), Some(1), Some(100)] });
    let c = build(&cfg);
    reports(&cfg, &c);
    match cfg.cap {
        None | Some(6) => probe_big(&cfg, &c),
        Some(0) => {
            for k in 1..3 {
                run(&c, &op(F::Ins, k).id(k));
                run(&c, &op(F::Pend, 0));
                let rid = run(&c, &op(F::Get, k));
                if g().recs[rid].res != Res::V(None) || counts(&c) != (0, 0) {
                    fail(format!("C23: a cache of capacity 0 stores something ({:?}, {:?})", g().recs[rid].res, counts(&c)));
                }
            }
        }
        _ => probe_one(&cfg, &c),
    }
}

fn reports(cfg: &Cfg, c: &C) {
    let (p, name, segs) = match c {
        C::S(c) => (c.policy(), c.name().map(|s| s.to_string()), 1),
        C::G(c) => (c.policy(), c.name().map(|s| s.to_string()), match cfg.flav { Flav::G(n) => n.next_power_of_two(), _ => 0 }),
        C::F(c) => (c.policy(), c.name().map(|s| s.to_string()), 1),
    };
    let want = if cfg.named { Some("nm".to_string()) } else { None };
    if name != want {
        fail(format!("C23: name() is {name:?}, configured {want:?}"));
    }
    if p.max_capacity() != cfg.cap {
        fail(format!("C23: policy().max_capacity() is {:?}, configured {:?}", p.max_capacity(), cfg.cap));
    }
    if p.time_to_live() != cfg.ttl.map(us) || p.time_to_idle() != cfg.tti.map(us) {
        fail(format!("C23: policy() reports ttl {:?} tti {:?}, configured {:?} {:?} units", p.time_to_live(), p.time_to_idle(), cfg.ttl, cfg.tti));
    }
    if p.num_segments() != segs {
        fail(format!("C23: policy().num_segments() is {}, expected {segs}", p.num_segments()));
    }
    if counts(c) != (0, 0) {
        fail(format!("C23: a new cache reports {:?}", counts(c)));
    }
}

/// Nothing is evicted for size: the whole reference model applies.
fn probe_big(cfg: &Cfg, c: &C) {
    let mut m = Model::new(cfg, 0);
    let mut id = 0;
    let mut go = |m: &mut Model, x: Op| {
        id += 1;
        let rid = run(c, &x.id(id));
        if let Err(e) = m.apply(rid) {
            fail(format!("C23: {e}"));
        }
        if x.f == F::Pend {
            let (n, w) = counts(c);
            if let Err(e) = m.check_counts(n, w, g().recs[rid].t0, false) {
                fail(format!("C23: {e}"));
            }
        }
    };
    // per segment, capacity 6 means at least 3 x weight 1 with two segments
    let segmented = matches!(cfg.flav, Flav::G(n) if n > 1) && cfg.cap.is_some();
    let w2 = if segmented { 1 } else { 2 };
    for x in [
        op(F::Ins, 1),
        op(F::Ins, 2).w(w2),
        op(F::Pend, 0),
        op(F::Get, 1),
        op(F::Has, 2),
        op(F::Ins, 1).w(1),
        op(F::GetWith, 2),
        op(F::Iter, 0),
        op(F::Pend, 0),
        op(F::InvIf, 0).pr(Pr::Key(1)),
        op(F::Get, 1),
        op(F::Pend, 0),
        op(F::Rem, 2),
        op(F::Upsert, 2),
        op(F::Has, 1),
        op(F::Iter, 0),
        adv(6),
        op(F::Get, 2),
        adv(12),
        op(F::Has, 2),
        op(F::Get, 2),
        adv(18),
        op(F::Has, 2),
        op(F::Pend, 0),
        op(F::Ins, 2),
        op(F::InvAll, 0),
        op(F::Has, 2),
        op(F::Iter, 0),
        op(F::Pend, 0),
    ] {
        go(&mut m, x);
    }
    if counts(c) != (0, 0) {
        fail(format!("C23: {:?} left after invalidate_all and maintenance", counts(c)));
    }
    if cfg.cap == Some(6) {
        if cfg.weigher {
            // heavier than any capacity share
            run(c, &op(F::Ins, 3).w(7).id(90));
            run(c, &op(F::Pend, 0));
            if counts(c) != (0, 0) {
                fail(format!("C23: an entry of weight 7 is kept with capacity 6: {:?}", counts(c)));
            }
            if cfg.lis != Lis::No && !g().notif[0].iter().any(|n| n.id == 90 && n.cause == moka::notification::RemovalCause::Size) {
                fail("C23: the entry that was too heavy was not reported with cause Size".into());
            }
        }
        // the share of a segment is rounded up
        let max = match cfg.flav {
            Flav::G(n) => {
                let n = n.next_power_of_two() as u64;
                6u64.div_ceil(n) * n
            }
            _ => 6,
        };
        for k in 10..20 {
            run(c, &op(F::Ins, k).id(100 + k));
            run(c, &op(F::Pend, 0));
        }
        let (n, w) = counts(c);
        if n > max || w > max || n == 0 || n != w {
            fail(format!("C23: {n} entries of weight {w} after inserting ten of weight 1, capacity 6"));
        }
        if matches!(cfg.flav, Flav::S | Flav::F) && n != 6 {
            fail(format!("C23: {n} entries after inserting ten, capacity 6"));
        }
    } else {
        for k in 10..20 {
            run(c, &op(F::Ins, k).id(100 + k));
        }
        run(c, &op(F::Pend, 0));
        if counts(c) != (10, 10) {
            fail(format!("C23: {:?} after inserting ten entries without a capacity", counts(c)));
        }
    }
}

/// Capacity one: the policy decides who stays.
fn probe_one(cfg: &Cfg, c: &C) {
    run(c, &op(F::Ins, 1).id(1));
    run(c, &op(F::Pend, 0));
    run(c, &op(F::Ins, 2).id(2));
    run(c, &op(F::Pend, 0));
    let has = |k| {
        let rid = run(c, &op(F::Has, k));
        g().recs[rid].res == Res::B(true)
    };
    let (a, b) = (has(1), has(2));
    if matches!(cfg.flav, Flav::G(n) if n > 1) {
        // one entry per segment
        if cfg.lru && !b {
            fail("C23: under LRU the newest entry is gone".into());
        }
        return;
    }
    if (a, b) != (!cfg.lru, cfg.lru) {
        fail(format!("C23: capacity 1, keys 1 and 2 inserted: present {:?}, LRU policy: {}", (a, b), cfg.lru));
    }
    if counts(c) != (1, 1) {
        fail(format!("C23: capacity 1 but counts {:?}", counts(c)));
    }
    if cfg.lis != Lis::No {
        let n = &g().notif[0];
        let id = if cfg.lru { 1 } else { 2 };
        if n.len() != 1 || n[0].id != id || n[0].cause != moka::notification::RemovalCause::Size {
            fail(format!("C23: notifications {n:?}, expected v{id} with cause Size"));
        }
    }
}

const YEARS_1000: u64 = 1000 * 365 * 24 * 3600;

/// Out-of-range durations are rejected when building; anything else is accepted.
fn limits(f: Flav) {
    begin();
    let d = [
        Duration::ZERO,
        Duration::from_nanos(1),
        Duration::from_secs(YEARS_1000 - 1),
        Duration::from_secs(YEARS_1000),
        Duration::from_secs(YEARS_1000) + Duration::from_nanos(1),
        Duration::from_secs(YEARS_1000 + 1),
        Duration::MAX,
    ];
    let i = rt::choose(d.len() + 1);
    let j = rt::choose(d.len() + 1);
    let h = rt::choose(2) == 1;
    let too_long = |x: usize| x >= 5;
    let want_panic = too_long(i) || too_long(j);
    macro_rules! set {
        ($b:expr) => {{
            let mut b = $b;
            if i > 0 {
                b = b.time_to_live(d[i - 1]);
            }
            if j > 0 {
                b = b.time_to_idle(d[j - 1]);
            }
            b
        }};
    }
    macro_rules! try_build {
        ($b:expr, $w:ident) => {{
            let r = catch_unwind(AssertUnwindSafe(|| {
                if h {
                    C::$w(set!($b).build_with_hasher(Hs(HM::Mix)))
                } else {
                    let c = set!($b).build();
                    let p = c.policy();
                    if p.time_to_live() != (i > 0).then(|| d[i - 1]) || p.time_to_idle() != (j > 0).then(|| d[j - 1]) {
                        fail(format!("C23: policy() reports {p:?}"));
                    }
                    build(&Cfg::new(f))
                }
            }));
            r.ok()
        }};
    }
    let c = match f {
        Flav::S => try_build!(SCache::<K, V, _>::builder(), S),
        Flav::G(n) => try_build!(SegmentedCache::<K, V, _>::builder(n), G),
        Flav::F => try_build!(FCache::<K, V, _>::builder(), F),
    };
    if c.is_none() != want_panic {
        fail(format!("C23: building with time_to_live {:?} and time_to_idle {:?} {}", i.checked_sub(1).map(|i| d[i]), j.checked_sub(1).map(|j| d[j]), if c.is_none() { "panics" } else { "is accepted" }));
    }
    if let (Some(c), true) = (c, h) {
        // a limit of more than half of the range is as good as none, one of zero or 1 ns ends at once
        run(&c, &op(F::Ins, 1).id(1));
        let rid = run(&c, &op(F::Get, 1));
        let short = |x: usize| x == 1 || x == 2;
        let want = if short(i) || short(j) { Res::V(None) } else { Res::V(Some(1)) };
        if g().recs[rid].res != want {
            fail(format!("C23: with limits #{i} and #{j} get gives {:?}, expected {want:?}", g().recs[rid].res));
        }
        run(&c, &op(F::Pend, 0));
    }
    let _ = EvictionPolicy::default();
}

pub fn units() -> Vec<Unit> {
    let mut v = Vec::new();
    for (n, f, via) in [("sync", Flav::S, false), ("seg1", Flav::G(1), false), ("seg2", Flav::G(2), false), ("seg2via", Flav::G(2), true), ("seg3", Flav::G(3), false), ("seg4via", Flav::G(4), true), ("future", Flav::F, false)] {
        v.push(
            unit(format!("build-{n}"), &["C23"], move |t| matrix(f, via, false))
                .bound(0, 0)
                .shards(4, 8)
                .sdepth(3)
                .what("every combination of capacity, weigher, policy, time limits, expiry, listener, closures, name and initial capacity"),
        );
    }
    for (n, f) in [("sync", Flav::S), ("seg2", Flav::G(2)), ("future", Flav::F)] {
        v.push(unit(format!("build-limits-{n}"), &["C23"], move |_| limits(f)).bound(0, 0).what("time limits on and around the documented maximum"));
    }
    for (n, f) in [("sync", 0), ("seg", 1), ("future", 2)] {
        v.push(unit(format!("build-new-{n}"), &["C23"], move |_| new(f)).bound(0, 0).what("caches made by `new`"));
    }
    v
}

/// `new(capacity)` and `new(capacity, segments)`: bounded, otherwise with the defaults
fn new(flav: u32) {
    begin();
    let cap = pick(&[0u64, 1, 5, 100]);
    macro_rules! go {
        ($c:expr, $segs:expr, $w:path, $i:expr) => {{
            let c = $c;
            let p = c.policy();
            if p.max_capacity() != Some(cap) || p.num_segments() != $segs || p.time_to_live().is_some() || p.time_to_idle().is_some() || c.name().is_some() {
                fail(format!("C23: new({cap}) reports {p:?}, name {:?}", c.name()));
            }
            let per = cap.div_ceil($segs as u64);
            for k in 0..8u32 {
                $w(c.insert(k, k + 10));
                if cap == 0 && $w(c.get(&k)).is_some() {
                    fail("C23: a cache of capacity 0 stores something".into());
                }
            }
            $w(c.run_pending_tasks());
            let n = c.iter().count() as u64;
            // the first entry of each segment is always admitted
            if c.entry_count() != n || c.weighted_size() != n || n > per * $segs as u64 || (cap == 100 && n != 8) || (cap > 0 && n == 0) {
                fail(format!("C23: new({cap}) keeps {n} of 8 entries and reports {} and {}", c.entry_count(), c.weighted_size()));
            }
            for k in 0..8u32 {
                let v = $w(c.get(&k));
                if v.is_some_and(|v| v != k + 10) || v.is_some() != c.contains_key(&k) {
                    fail(format!("C23: new({cap}) answers {v:?} for key {k}"));
                }
            }
            if $w(c.get_with(3, $i)) == 33 && cap == 100 {
                fail("C23: get_with replaced a present value".into());
            }
            if c.invalidate_entries_if(|_, _| true).is_ok() {
                fail("C23: new() supports invalidation closures".into());
            }
        }};
    }
    fn id<T>(x: T) -> T {
        x
    }
    match flav {
        0 => go!(SCache::<u32, u32>::new(cap), 1, id, || 33),
        1 => {
            let n = pick(&[1usize, 2, 4]);
            go!(SegmentedCache::<u32, u32>::new(cap, n), n, id, || 33)
        }
        _ => go!(FCache::<u32, u32>::new(cap), 1, mcrt::fut::block_on, async { 33 }),
    }
}
