//! Two caches driven in lock step by the same operation sequence: everything observable must agree.
use crate::api::*;
use crate::seq::{al, fail, o, L, SECS2};
use crate::unit::*;
use mcrt::rt;

/// What the pair is compared on.
#[derive(Clone, Copy)]
pub struct Eq {
    pub tag: &'static str,
    pub a: Cfg,
    pub b: Cfg,
    /// maintenance runs after every operation
    pub settle: bool,
}

fn same_res(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Res::L(x), Res::L(y)) => {
            let (mut x, mut y) = (x.clone(), y.clone());
            x.sort();
            y.sort();
            x == y
        }
        _ => a == b,
    }
}

struct Pair {
    c: [C; 2],
    e: Eq,
    ni: usize,
}
impl Pair {
    fn both(&mut self, op: &Op) {
        rt::advance(us(1));
        if op.f == F::Adv {
            rt::advance(us(op.d));
        }
        let op = if op.f == F::Adv { op.d(0) } else { *op };
        let nb = [g().cbs[0].len(), g().cbs[1].len()];
        let a = run(&self.c[0], &op);
        let b = run(&self.c[1], &op);
        let t = self.e.tag;
        let (x, y) = (&g().recs[a], &g().recs[b]);
        if !same_res(&x.res, &y.res) {
            fail(format!("{t}: {:?} on key {} gives {:?} on {:?} but {:?} on {:?}", op.f, op.k, x.res, self.e.a.flav, y.res, self.e.b.flav));
        }
        if x.runs.len() != y.runs.len() || x.seen_e != y.seen_e || x.conds != y.conds {
            fail(format!(
                "{t}: closures of {:?} on key {}: {} runs, saw {:?} {:?} against {} runs, saw {:?} {:?}",
                op.f, op.k, x.runs.len(), x.seen_e, x.conds, y.runs.len(), y.seen_e, y.conds
            ));
        }
        let f = |i: usize| sys(|| g().cbs[i][nb[i]..].iter().map(|c| (c.kind, c.k, c.id, c.at, c.dur, c.lm, c.ans)).collect::<Vec<_>>());
        let (ca, cb) = (f(0), f(1));
        if ca != cb {
            fail(format!("{t}: expiry callbacks of {:?} on key {}: {ca:?} against {cb:?}", op.f, op.k));
        }
        if self.e.settle && op.f != F::Pend {
            self.pend();
        } else if op.f == F::Pend {
            self.compare();
        }
    }
    fn pend(&mut self) {
        run(&self.c[0], &op(F::Pend, 0));
        run(&self.c[1], &op(F::Pend, 0));
        self.compare();
    }
    /// notifications (per key in order) and counts
    fn compare(&mut self) {
        let t = self.e.tag;
        let f = |i: usize| {
            let mut v = g().notif[i][self.ni..].iter().map(|n| (n.k, n.id, format!("{:?}", n.cause))).collect::<Vec<_>>();
            v.sort_by_key(|x| x.0);
            v
        };
        let (na, nb) = (f(0), f(1));
        if na != nb {
            fail(format!("{t}: notifications {na:?} against {nb:?}"));
        }
        self.ni = g().notif[0].len();
        let (x, y) = (counts(&self.c[0]), counts(&self.c[1]));
        if x != y {
            fail(format!("{t}: (entry_count, weighted_size) {x:?} against {y:?}"));
        }
    }
}

pub fn lock(e: &Eq, alpha: &[L], depth: usize) {
    begin();
    g().lockstep = true;
    let c = [build_i(&e.a, 0), build_i(&e.b, 1)];
    if e.tag == "C19" {
        policy_eq(e, &c);
    }
    let mut p = Pair { c, e: *e, ni: 0 };
    for step in 0..depth {
        let i = rt::choose(alpha.len());
        if let L::O(op) = alpha[i] {
            p.both(&op.id(step as u32 + 1));
        }
    }
    p.pend();
    p.both(&op(F::Iter, 0).id(100));
    for k in 0..4 {
        p.both(&op(F::Get, k).id(101 + k));
    }
    p.both(&adv(SECS2).id(110));
    p.pend();
    p.both(&op(F::Iter, 0).id(111));
    p.both(&op(F::InvAll, 0).id(112));
    p.pend();
    if counts(&p.c[0]) != (0, 0) {
        fail(format!("{}: {:?} left after invalidate_all", e.tag, counts(&p.c[0])));
    }
    rt::outcome(|| format!("{:?}", g().notif[0].iter().map(|n| (n.k, n.id, n.cause)).collect::<Vec<_>>()));
}

/// Any number of segments: keys that spread evenly over the segments fill the whole capacity, nothing
/// beyond it is kept, and every operation finds each key in the segment that holds it.
fn fill(via: bool, lru: bool) {
    let n = 1 + rt::choose(9);
    let m = 1 + rt::choose(3) as u32;
    let segs = n.next_power_of_two() as u32;
    let total = segs * m;
    begin();
    let mut cfg = Cfg::new(Flav::G(n)).cap(total as u64).hm(HM::Spread).lis(Lis::Log);
    cfg.via_segments = via;
    cfg.lru = lru;
    let c = build(&cfg);
    let has = |k: u32| *res(run(&c, &op(F::Get, k))) == Res::V(Some(k + 1));
    for k in 0..total {
        run(&c, &op(F::Ins, k).id(k + 1));
    }
    run(&c, &op(F::Pend, 0));
    run(&c, &op(F::Pend, 0));
    for k in 0..total {
        if !has(k) {
            fail(format!("C19: {n} segments, capacity {total}: key {k} of {total} evenly spread keys was dropped"));
        }
    }
    if counts(&c) != (total as u64, total as u64) || !g().notif[0].is_empty() {
        fail(format!("C19: {n} segments: {total} entries, counts are {:?}, notifications {:?}", counts(&c), g().notif[0]));
    }
    match res(run(&c, &op(F::Iter, 0))) {
        Res::L(l) if l.len() == total as usize => {}
        x => fail(format!("C19: {n} segments: the iterator yields {x:?} of {total} entries")),
    }
    if lru {
        for k in total..2 * total {
            run(&c, &op(F::Ins, k).id(k + 1));
        }
        run(&c, &op(F::Pend, 0));
        run(&c, &op(F::Pend, 0));
        if let Some(k) = (total..2 * total).find(|&k| !has(k)) {
            fail(format!("C19: {n} segments, least-recently-used: the newer key {k} was dropped"));
        }
        if counts(&c) != (total as u64, total as u64) || g().notif[0].len() != total as usize {
            fail(format!("C19: {n} segments, capacity {total}: counts {:?}, {} evictions", counts(&c), g().notif[0].len()));
        }
        run(&c, &op(F::InvAll, 0));
    } else {
        for k in 0..total {
            let r = res(run(&c, &op(F::Rem, k)));
            if *r != Res::V(Some(k + 1)) {
                fail(format!("C19: {n} segments: remove of key {k} gives {r:?}"));
            }
        }
    }
    run(&c, &op(F::Pend, 0));
    if counts(&c) != (0, 0) {
        fail(format!("C19: {n} segments: {:?} left", counts(&c)));
    }
}

fn policy_eq(e: &Eq, c: &[C; 2]) {
    if let (C::S(a), C::G(b)) = (&c[0], &c[1]) {
        let (p, q) = (a.policy(), b.policy());
        if p.time_to_live() != q.time_to_live() || p.time_to_idle() != q.time_to_idle() || a.name() != b.name() {
            fail(format!("C19: policies differ: {p:?} {:?} against {q:?} {:?}", a.name(), b.name()));
        }
        if q.max_capacity() != e.b.cap {
            fail(format!("C19: policy().max_capacity() is {:?}, configured {:?}", q.max_capacity(), e.b.cap));
        }
        if let Flav::G(n) = e.b.flav {
            if q.num_segments() != n {
                fail(format!("C19: policy().num_segments() is {}, configured {n}", q.num_segments()));
            }
        }
    }
}

static E_EQ: ExpScript = ExpScript { create: &[Ans::No, Ans::In(4)], update: &[Ans::Same, Ans::In(4)], read: &[Ans::Same, Ans::In(6)] };

fn letters(cfg: &Cfg) -> Vec<L> {
    let mut v = vec![
        o(F::Ins, 1),
        L::O(op(F::Ins, 2).w(2)),
        o(F::Get, 1),
        o(F::Rem, 1),
        o(F::Inv, 2),
        o(F::Upsert, 1),
        o(F::GetWith, 2),
        o(F::Iter, 0),
        o(F::InvAll, 0),
        o(F::Has, 2),
    ];
    if cfg.ttl.is_some() || cfg.tti.is_some() || cfg.exp.is_some() {
        v.push(L::O(adv(3)));
        v.push(L::O(adv(4)));
    }
    if cfg.exp.is_some() {
        v.push(L::O(adv(SECS2)));
    }
    if cfg.cap.is_some() {
        v.push(o(F::Ins, 3));
        v.push(o(F::Get, 3));
        v.push(L::O(op(F::Ins, 1).w(3)));
    }
    if cfg.closures {
        v.push(L::O(op(F::InvIf, 0).pr(Pr::Key(1))));
        v.push(L::O(op(F::InvIf, 0).pr(Pr::Heavy)));
        v.push(L::O(op(F::InvIf, 0).pr(Pr::Even)));
    }
    v
}
/// every form, for the sequences over forms
fn forms() -> Vec<L> {
    let mut sel = Vec::new();
    for r in [false, true] {
        let x = |p: Op| L::O(if r { p.r() } else { p });
        for f in [F::GetWith, F::OptGetWith, F::TryGetWith, F::OrDefault, F::OrInsert, F::OrInsertWith, F::OrOpt, F::OrTry, F::Upsert] {
            sel.push(x(op(f, 1)));
        }
        for f in [F::OptGetWith, F::TryGetWith, F::OrOpt, F::OrTry] {
            sel.push(x(op(f, 1).act(Act::Nop)));
        }
        for f in [F::Compute, F::TryCompute] {
            for a in [Act::Put, Act::Rem, Act::Nop] {
                sel.push(x(op(f, 1).act(a)));
            }
        }
        sel.push(x(op(F::TryCompute, 1).act(Act::Err)));
        for c in [false, true] {
            sel.push(x(op(F::OrInsertWithIf, 1).cond(c)));
        }
    }
    for c in [false, true] {
        sel.push(L::O(op(F::GetWithIf, 1).cond(c)));
    }
    sel.push(L::O(op(F::TryGetUnit, 1)));
    for f in [F::GetWith, F::OptGetWith, F::TryGetWith, F::OrInsertWith, F::Compute, F::Upsert] {
        sel.push(L::O(op(f, 1).act(Act::Panic)));
    }
    sel.extend([o(F::Ins, 1), o(F::Rem, 1), o(F::InvAll, 0), L::O(adv(5)), o(F::Get, 1)]);
    sel
}

fn tick0(o: &mut rt::Opts) {
    o.op_tick = 0;
}

pub fn units() -> Vec<Unit> {
    let mut v = Vec::new();
    for (name, via, lru) in [("lru", false, true), ("lfu", false, false), ("via", true, true)] {
        v.push(
            unit(format!("seg-fill-{name}"), &["C19", "C10"], move |_| fill(via, lru))
                .bound(0, 0)
                .what("1 to 9 segments x 1 to 3 entries per segment, filled exactly and beyond"),
        );
    }
    let base = Cfg::new(Flav::S).lis(Lis::Log);
    let mut cfgs: Vec<(&'static str, Cfg)> = vec![
        ("plain", base),
        ("nolis", base.lis(Lis::No).weigher()),
        ("ttl", base.ttl(6)),
        ("tti", base.tti(5)),
        ("both", base.ttl(8).tti(5)),
        ("exp", base.exp(E_EQ)),
        ("exp-both", base.exp(E_EQ).ttl(8).tti(5)),
        ("pred", base.weigher().closures()),
        ("pred-ttl", base.lis(Lis::No).weigher().closures().ttl(7)),
    ];
    let caps: Vec<(&'static str, Cfg)> = vec![
        ("lru2", base.cap(2).lru()),
        ("lfu2", base.cap(2)),
        ("lruw", base.cap(3).lru().weigher()),
        ("lfuw", base.cap(3).weigher()),
        ("lru-ttl", base.cap(2).lru().ttl(6)),
        ("lfu-exp", base.cap(2).exp(E_EQ)),
        ("zero", base.cap(0)),
    ];
    for (n, c) in caps.iter() {
        cfgs.push((n, *c));
    }
    for (n, c) in &cfgs {
        let capped = c.cap.is_some();
        // --- asynchronous against synchronous
        for settle in [true, false] {
            if capped && !settle {
                continue;
            }
            let e = Eq { tag: "C22", a: *c, b: c.flav(Flav::F), settle };
            let mut a = letters(c);
            if !settle {
                a.push(o(F::Pend, 0));
            }
            let a = al(a);
            let d = if c.exp.is_some() { (3, 4) } else { (4, 5) };
            v.push(
                unit(format!("eq-fut-{n}{}", if settle { "" } else { "-lazy" }), &["C22"], move |t| lock(&e, a, if t == Tier::Quick { d.0 } else { d.1 }))
                    .bound(0, 0)
                    .shards(1, 8)
                    .tweak(tick0)
                    .what("all sequences on the asynchronous and the synchronous cache in lock step"),
            );
        }
        let e = Eq { tag: "C22", a: *c, b: c.flav(Flav::F), settle: true };
        let f = al(forms());
        v.push(
            unit(format!("eq-fut-forms-{n}"), &["C22"], move |t| lock(&e, f, if t == Tier::Quick { 2 } else { 3 }))
                .bound(0, 0)
                .shards(1, 4)
                .tweak(tick0)
                .what("all sequences of entry/get_with forms in lock step"),
        );
        // --- segmented against unsegmented
        for nseg in [1usize, 2, 4] {
            for settle in [true, false] {
                // idle entries leave in queue order, and the queues are per segment
                if !settle && (capped || nseg == 1 || c.tti.is_some()) {
                    continue;
                }
                // capacity is per segment: with one hash for all keys they share a segment
                let (a, b) = if capped && nseg > 1 {
                    (c.hm(HM::Same), c.hm(HM::Same).flav(Flav::G(nseg)).cap(c.cap.unwrap() * nseg as u64))
                } else {
                    (c.hm(HM::Spread), c.hm(HM::Spread).flav(Flav::G(nseg)))
                };
                let e = Eq { tag: "C19", a, b, settle };
                let mut al0 = letters(c);
                al0.push(L::O(op(F::Ins, 3)));
                al0.push(L::O(op(F::Get, 2)));
                if !settle {
                    al0.push(o(F::Pend, 0));
                }
                let a = al(al0);
                let d = if c.exp.is_some() { (3, 4) } else { (4, 5) };
                let d = if nseg == 2 { d } else { (d.0 - 1, d.1) };
                v.push(
                    unit(format!("eq-seg{nseg}-{n}{}", if settle { "" } else { "-lazy" }), &["C19"], move |t| lock(&e, a, if t == Tier::Quick { d.0 } else { d.1 }))
                        .bound(0, 0)
                        .shards(1, 8)
                        .tweak(tick0)
                        .what("all sequences on the segmented and the unsegmented cache in lock step"),
                );
            }
        }
        let e = Eq { tag: "C19", a: c.hm(HM::Same), b: c.hm(HM::Same).flav(Flav::G(2)).capx(2), settle: true };
        v.push(
            unit(format!("eq-seg-forms-{n}"), &["C19"], move |t| lock(&e, f, if t == Tier::Quick { 2 } else { 3 }))
                .bound(0, 0)
                .shards(1, 4)
                .tweak(tick0)
                .what("all sequences of entry/get_with forms in lock step"),
        );
    }
    v
}
