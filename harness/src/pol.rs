//! Bounded caches, one thread: an exact reference of the eviction policies when maintenance runs after
//! every step (C12), and conservation laws when it runs anywhere (C10, C11, C13).
use crate::api::*;
use crate::seq::{al, fail, o, L};
use crate::unit::*;
use mcrt::rt;
use moka::notification::RemovalCause as RC;

const NK: usize = 8;
/// The popularity estimator ages after this many counted accesses (smallest table).
const SAMPLE: u32 = 1280;

/// Reference policy: recency list (front = least recently used) and popularity counters.
struct Pol {
    cfg: Cfg,
    cap: u64,
    order: Vec<(u32, u32, u64)>,
    freq: [u32; NK],
    size: u32,
    on: bool,
}
impl Pol {
    fn ws(&self) -> u64 {
        self.order.iter().map(|e| e.2).sum()
    }
    fn pos(&self, k: u32) -> Option<usize> {
        self.order.iter().position(|e| e.0 == k)
    }
    fn asked(&mut self, k: u32) {
        if self.on && self.freq[k as usize] < 15 {
            self.freq[k as usize] += 1;
            self.size += 1;
            if self.size >= SAMPLE {
                let odd = self.freq.iter().map(|f| f & 1).sum::<u32>();
                self.freq.iter_mut().for_each(|f| *f >>= 1);
                self.size = (self.size >> 1) - odd;
            }
        }
    }
    fn touch(&mut self, k: u32) {
        if let Some(i) = self.pos(k) {
            let e = self.order.remove(i);
            self.order.push(e);
        }
    }
    /// A value is stored and maintenance runs. Returns the values that leave by size.
    fn put(&mut self, k: u32, id: u32, w: u64) -> Vec<u32> {
        let mut out = Vec::new();
        if let Some(i) = self.pos(k) {
            self.order.remove(i);
            self.order.push((k, id, w));
        } else if self.ws() + w <= self.cap {
            self.order.push((k, id, w));
        } else if w > self.cap {
            out.push(id);
        } else if self.cfg.lru {
            self.order.push((k, id, w));
        } else {
            let cf = self.freq[k as usize];
            let (mut vw, mut vf, mut n) = (0, 0, 0);
            while vw < w && vf <= cf && n < self.order.len() {
                vw += self.order[n].2;
                vf += self.freq[self.order[n].0 as usize];
                n += 1;
            }
            if vw >= w && cf > vf {
                out.extend(self.order.drain(..n).map(|e| e.1));
                self.order.push((k, id, w));
            } else {
                out.push(id);
            }
        }
        while self.ws() > self.cap {
            out.push(self.order.remove(0).1);
        }
        self.enable();
        out
    }
    fn enable(&mut self) {
        if !self.cfg.lru && self.cap > 0 && self.ws() >= self.cap / 2 {
            self.on = true;
        }
    }
}

/// Every step is followed by maintenance; contents, counts and notifications are compared exactly.
pub fn exact(cfg: &Cfg, prelude: &[L], alpha: &[L], depth: usize, after: &[L]) {
    begin();
    let c = build(cfg);
    let mut p = Pol { cfg: *cfg, cap: cfg.cap.unwrap(), order: Vec::new(), freq: [0; NK], size: 0, on: false };
    let mut ni = 0;
    let mut step = 0;
    for i in 0..depth + prelude.len() + after.len() {
        let l = if i < prelude.len() {
            prelude[i]
        } else if i < prelude.len() + depth {
            alpha[rt::choose(alpha.len())]
        } else {
            after[i - prelude.len() - depth]
        };
        let L::O(x) = l else { continue };
        step += 1;
        let x = x.id(step);
        one(&mut p, &c, &x, &mut ni, i >= prelude.len() && !matches!(x.f, F::Get));
    }
    audit(&p, &c);
    rt::outcome(|| format!("{:?}", p.order));
}

fn one(p: &mut Pol, c: &C, x: &Op, ni: &mut usize, look: bool) {
    let rid = run(c, x);
    run(c, &op(F::Pend, 0));
    let k = x.k;
    let w = if p.cfg.weigher { x.w as u64 } else { 1 };
    let had = p.pos(k).map(|i| p.order[i].1);
    let got = &g().recs[rid].res;
    let mut want: Vec<(u32, RC)> = Vec::new();
    let mut puts = false;
    match x.f {
        F::Get => {
            if *got != Res::V(had) {
                fail(format!("C12: get({k}) gives {got:?}, the policy keeps {had:?}"));
            }
            // y: repeated
            for _ in 0..=x.y {
                p.asked(k);
            }
            for _ in 0..x.y {
                run(c, &op(F::Get, k).id(x.id));
            }
            run(c, &op(F::Pend, 0));
            p.touch(k);
        }
        F::Ins => puts = true,
        F::GetWith | F::OrInsertWith => {
            p.asked(k);
            if had.is_some() {
                p.touch(k);
            } else {
                puts = true;
            }
        }
        F::Upsert => {
            if had.is_some() {
                p.asked(k);
                p.touch(k);
            } else {
                p.asked(k);
            }
            puts = true;
        }
        F::Rem | F::Inv => {
            if let Some(i) = p.pos(k) {
                want.push((p.order.remove(i).1, RC::Explicit));
            }
        }
        F::InvAll => {
            want.extend(p.order.drain(..).map(|e| (e.1, RC::Explicit)));
        }
        _ => {}
    }
    if puts {
        if let Some(id) = had {
            want.push((id, RC::Replaced));
        }
        want.extend(p.put(k, x.id, w).into_iter().map(|i| (i, RC::Size)));
    }
    p.enable();
    let t = if p.cap == 0 { "C10" } else { "C12" };
    if p.cfg.lis != Lis::No {
        let mut n: Vec<_> = g().notif[0][*ni..].iter().map(|n| (n.id, n.cause)).collect();
        *ni = g().notif[0].len();
        n.sort_by_key(|x| x.0);
        want.sort_by_key(|x| x.0);
        if n != want {
            fail(format!("{t}: {:?} on key {k} (weight {w}): reported {n:?}, the policy drops {want:?}; kept {:?}, popularity {:?}", x.f, p.order, p.freq));
        }
    }
    let (n, ws) = counts(c);
    if n != p.order.len() as u64 || ws != p.ws() {
        fail(format!("{t}: after {:?} on key {k} (weight {w}) counts are {:?}, the policy keeps {:?} popularity {:?}", x.f, (n, ws), p.order, p.freq));
    }
    if look {
        audit(p, c);
    }
}
/// which keys are in the cache (does not count as use)
fn audit(p: &Pol, c: &C) {
    for k in 1..NK as u32 {
        let rid = run(c, &op(F::Has, k));
        if g().recs[rid].res != Res::B(p.pos(k).is_some()) {
            fail(format!("C12: contains_key({k}) is {:?}, the policy keeps {:?} popularity {:?}", g().recs[rid].res, p.order, p.freq));
        }
    }
}

/// LRU with maintenance only where the sequence says so: what leaves then is the shortest run of least recently
/// used entries that brings the weight within the capacity. Reads have maintenance on either side.
pub fn batch(cfg: &Cfg, alpha: &[L], depth: usize) {
    begin();
    let c = build(cfg);
    let mut p = Pol { cfg: *cfg, cap: cfg.cap.unwrap(), order: Vec::new(), freq: [0; NK], size: 0, on: false };
    let mut ni = 0;
    let mut want: Vec<(u32, RC)> = Vec::new();
    for i in 0..=depth {
        let L::O(x) = (if i == depth { o(F::Pend, 0) } else { alpha[rt::choose(alpha.len())] }) else { continue };
        let x = x.id(i as u32 + 1);
        let k = x.k;
        let mut settle = |p: &mut Pol, want: &mut Vec<(u32, RC)>| {
            run(&c, &op(F::Pend, 0));
            let all: Vec<_> = p.order.clone();
            // heavier than the capacity: never admitted
            p.order.retain(|e| e.2 <= p.cap);
            want.extend(all.iter().filter(|e| e.2 > p.cap).map(|e| (e.1, RC::Size)));
            while p.ws() > p.cap {
                want.push((p.order.remove(0).1, RC::Size));
            }
            if p.cfg.lis != Lis::No {
                let mut n: Vec<_> = g().notif[0][ni..].iter().map(|n| (n.id, n.cause)).collect();
                ni = g().notif[0].len();
                n.sort_by_key(|x| x.0);
                want.sort_by_key(|x| x.0);
                if n != *want {
                    fail(format!("C12: reported {n:?}, the policy drops {want:?} and keeps {:?}", p.order));
                }
                want.clear();
            }
            let now = counts(&c);
            if now != (p.order.len() as u64, p.ws()) {
                fail(format!("C12: counts are {now:?}, the policy keeps {:?}", p.order));
            }
            audit(p, &c);
        };
        if matches!(x.f, F::Get | F::Pend) {
            settle(&mut p, &mut want);
        }
        if x.f == F::Pend {
            continue;
        }
        let had = p.pos(k).map(|i| p.order[i].1);
        let rid = run(&c, &x);
        match x.f {
            F::Ins => {
                if let Some(i) = p.pos(k) {
                    want.push((p.order.remove(i).1, RC::Replaced));
                }
                p.order.push((k, x.id, x.w as u64));
            }
            F::Rem | F::Inv => {
                if let Some(i) = p.pos(k) {
                    want.push((p.order.remove(i).1, RC::Explicit));
                }
            }
            _ => {
                let got = &g().recs[rid].res;
                if *got != Res::V(had) {
                    fail(format!("C12: get({k}) gives {got:?}, the policy keeps {had:?}"));
                }
                p.touch(k);
                settle(&mut p, &mut want);
            }
        }
    }
    rt::outcome(|| format!("{:?}", p.order));
}

/// Maintenance only where the sequence says so: nothing is lost, doubled or over capacity.
pub fn conserve(cfg: &Cfg, alpha: &[L], depth: usize) {
    begin();
    let c = build(cfg);
    let mut last: [Option<(u32, u32)>; NK] = [None; NK];
    let mut stored: Vec<(u32, u32, u32)> = Vec::new();
    for step in 0..depth {
        let L::O(x) = alpha[rt::choose(alpha.len())] else { continue };
        let x = x.id(step as u32 + 1);
        let rid = run(&c, &x);
        let r = &g().recs[rid];
        let ki = x.k as usize;
        let w = if cfg.weigher { x.w } else { 1 };
        // the latest value or nothing
        let ok = |id: u32| last[ki].is_some_and(|l| l.0 == id);
        match (x.f, &r.res) {
            (F::Get, Res::V(Some(id))) | (F::Rem, Res::V(Some(id))) if !ok(*id) => {
                fail(format!("C01: {:?}({}) gives v{id}, the latest is {:?}", x.f, x.k, last[ki]))
            }
            (F::GetWith, Res::V(Some(id))) if *id != x.id && !ok(*id) => fail(format!("C01: get_with({}) gives v{id}, the latest is {:?}", x.k, last[ki])),
            (F::Iter, Res::L(l)) => {
                for (i, (k, id)) in l.iter().enumerate() {
                    if last[*k as usize].map(|x| x.0) != Some(*id) || l[..i].iter().any(|x| x.0 == *k) {
                        fail(format!("C15: iteration yields {l:?}, the latest values are {last:?}"));
                    }
                }
            }
            _ => {}
        }
        let puts = match x.f {
            F::Ins | F::Upsert => true,
            F::GetWith => r.res == Res::V(Some(x.id)),
            _ => false,
        };
        if puts {
            last[ki] = Some((x.id, w));
            stored.push((x.k, x.id, w));
        }
        if matches!(x.f, F::Rem | F::Inv) {
            last[ki] = None;
        }
        if x.f == F::InvAll {
            last = [None; NK];
        }
        if x.f == F::Pend {
            settle_check(cfg, &c, &last, &stored);
        }
    }
    run(&c, &op(F::Pend, 0));
    settle_check(cfg, &c, &last, &stored);
    run(&c, &op(F::InvAll, 0));
    run(&c, &op(F::Pend, 0));
    let n = counts(&c);
    if n != (0, 0) {
        fail(format!("C11: (entry_count, weighted_size) is {n:?} after everything was invalidated"));
    }
    if cfg.lis != Lis::No {
        for (k, id, _) in &stored {
            let n = g().notif[0].iter().filter(|n| n.id == *id).count();
            if n != 1 {
                fail(format!("C13: v{id} of key {k} was reported {n} times"));
            }
        }
    }
    rt::outcome(|| format!("{:?}", last));
}

fn settle_check(cfg: &Cfg, c: &C, last: &[Option<(u32, u32)>; NK], stored: &[(u32, u32, u32)]) {
    let rid = run(c, &op(F::Iter, 0));
    let Res::L(l) = &g().recs[rid].res else { return };
    let (n, ws) = counts(c);
    let mut sum = 0u64;
    for (k, id) in l {
        match last[*k as usize] {
            Some((i, w)) if i == *id => sum += w as u64,
            x => fail(format!("C01: key {k} holds v{id}, the latest is {x:?}")),
        }
    }
    let cap = cfg.cap.unwrap();
    if sum > cap {
        fail(format!("C10: the entries {l:?} weigh {sum} after maintenance, the capacity is {cap}"));
    }
    if ws > cap {
        fail(format!("C10: weighted_size is {ws} after maintenance, the capacity is {cap}"));
    }
    if (n, ws) != (l.len() as u64, sum) {
        fail(format!("C11: (entry_count, weighted_size) is {:?}, the entries {l:?} weigh {sum}", (n, ws)));
    }
    if cfg.lis != Lis::No {
        for (k, id, _) in stored {
            let inside = l.iter().any(|x| x.1 == *id);
            let ns = g().notif[0].iter().filter(|n| n.id == *id).collect::<Vec<_>>();
            if ns.len() != !inside as usize {
                fail(format!("C13: v{id} of key {k}, {} the cache, was reported {} times", if inside { "in" } else { "out of" }, ns.len()));
            }
            if let Some(n) = ns.first() {
                // replaced: a later value was stored in that very operation; explicit: removed there
                let ok = match n.cause {
                    RC::Size => true,
                    RC::Replaced => n.by.is_some_and(|r| g().recs[r].op.k == *k && g().recs[r].op.id != *id && matches!(g().recs[r].op.f, F::Ins | F::Upsert | F::GetWith)),
                    RC::Explicit => n.by.is_some_and(|r| matches!(g().recs[r].op.f, F::Rem | F::Inv) && g().recs[r].op.k == *k || matches!(g().recs[r].op.f, F::Pend | F::Ins | F::Upsert | F::GetWith | F::Get)),
                    RC::Expired => false,
                };
                if !ok {
                    fail(format!("C13: v{id} of key {k} was reported as {:?}", n.cause));
                }
            }
        }
    }
}

pub fn units() -> Vec<Unit> {
    let mut v = Vec::new();
    for (fname, f) in [("sync", Flav::S), ("seg", Flav::G(1)), ("future", Flav::F)] {
        for (ln, lis) in [("-lis", Lis::Log), ("", Lis::No)] {
            let b = Cfg::new(f).lis(lis);
            let more = |v: &mut Vec<L>| {
                v.extend([o(F::Has, 1), o(F::Iter, 0)]);
            };
            // --- LRU, one per entry
            let mut a = vec![o(F::Ins, 1), o(F::Ins, 2), o(F::Ins, 3), o(F::Ins, 4), o(F::Get, 1), o(F::Get, 2), o(F::GetWith, 3), o(F::Rem, 2), o(F::Upsert, 1)];
            more(&mut a);
            let a = al(a);
            for cap in [1u64, 2, 3] {
                let cfg = b.cap(cap).lru();
                v.push(
                    unit(format!("pol-lru{cap}{ln}-{fname}"), &["C12"], move |t| exact(&cfg, &[], a, if t == Tier::Quick { 5 } else { 6 }, &[]))
                        .bound(0, 0)
                        .shards(1, 4)
                        .what("all sequences with maintenance after each step against the exact LRU reference"),
                );
            }
            // --- LRU, weights
            let mut a = vec![
                L::O(op(F::Ins, 1).w(1)),
                L::O(op(F::Ins, 1).w(3)),
                L::O(op(F::Ins, 2).w(2)),
                L::O(op(F::Ins, 2).w(0)),
                L::O(op(F::Ins, 3).w(4)),
                L::O(op(F::Ins, 3).w(5)),
                L::O(op(F::Upsert, 1).w(2)),
                o(F::Get, 1),
                o(F::Get, 2),
                o(F::Inv, 2),
                o(F::InvAll, 0),
            ];
            more(&mut a);
            let a = al(a);
            let cfg = b.cap(4).lru().weigher();
            v.push(
                unit(format!("pol-lruw{ln}-{fname}"), &["C12", "C10"], move |t| exact(&cfg, &[], a, if t == Tier::Quick { 4 } else { 6 }, &[]))
                    .bound(0, 0)
                    .shards(1, 8)
                    .what("the same with weights from 0 to over capacity"),
            );
            // --- TinyLFU
            let full = al(vec![o(F::Ins, 1), o(F::Ins, 2), o(F::Ins, 3)]);
            let a = al(vec![
                o(F::Get, 1),
                o(F::Get, 2),
                o(F::Get, 4),
                o(F::Get, 5),
                o(F::Ins, 4),
                o(F::Ins, 5),
                o(F::Ins, 1),
                o(F::GetWith, 4),
                o(F::Rem, 2),
                L::O(op(F::Get, 3).y(16)),
                o(F::Has, 4),
            ]);
            let cfg = b.cap(3);
            v.push(
                unit(format!("pol-lfu{ln}-{fname}"), &["C12"], move |t| exact(&cfg, full, a, if t == Tier::Quick { 5 } else { 6 }, &[]))
                    .bound(0, 0)
                    .shards(1, 4)
                    .what("all sequences on a full cache against the exact TinyLFU admission reference"),
            );
            let fullw = al(vec![L::O(op(F::Ins, 1).w(2)), L::O(op(F::Ins, 2).w(2)), L::O(op(F::Ins, 3).w(1))]);
            let a = al(vec![
                o(F::Get, 1),
                o(F::Get, 2),
                o(F::Get, 4),
                L::O(op(F::Get, 4).y(2)),
                L::O(op(F::Ins, 4).w(1)),
                L::O(op(F::Ins, 4).w(3)),
                L::O(op(F::Ins, 4).w(6)),
                L::O(op(F::Ins, 4).w(5)),
                L::O(op(F::Ins, 2).w(3)),
                L::O(op(F::Ins, 2).w(0)),
                o(F::Rem, 2),
            ]);
            let cfg = b.cap(5).weigher();
            v.push(
                unit(format!("pol-lfuw{ln}-{fname}"), &["C12", "C10"], move |t| exact(&cfg, fullw, a, if t == Tier::Quick { 5 } else { 6 }, &[]))
                    .bound(0, 0)
                    .shards(1, 4)
                    .what("the same with weights"),
            );
            // --- weights around the largest one
            const M: u32 = u32::MAX;
            let fullh = al(vec![L::O(op(F::Ins, 1).w(M)), L::O(op(F::Ins, 2).w(M - 1)), L::O(op(F::Ins, 3).w(3))]);
            let a = al(vec![
                L::O(op(F::Get, 4).y(2)),
                o(F::Get, 1),
                L::O(op(F::Ins, 4).w(M)),
                L::O(op(F::Ins, 4).w(2)),
                L::O(op(F::Ins, 1).w(1)),
                L::O(op(F::Ins, 3).w(M)),
                L::O(op(F::Upsert, 2).w(M)),
                o(F::Rem, 2),
                o(F::InvAll, 0),
            ]);
            for lru in [false, true] {
                let mut cfg = b.cap(2 * M as u64 + 3).weigher();
                cfg.lru = lru;
                v.push(
                    unit(format!("pol-huge-{}{ln}-{fname}", if lru { "lru" } else { "lfu" }), &["C12", "C10", "C11"], move |t| exact(&cfg, fullh, a, if t == Tier::Quick { 4 } else { 5 }, &[]))
                        .bound(0, 0)
                        .shards(1, 4)
                        .what("the same with weights around the largest one"),
                );
            }
            // --- several steps between maintenance runs
            for (n, cap, ws) in [("", 3u64, [1u32, 2, 3, 0]), ("huge-", M as u64 + 2, [M, M - 1, M, 1]), ("sum-", 2 * M as u64, [M, 1, M, M])] {
                let i = |k: u32, w: u32| L::O(op(F::Ins, k).w(w));
                let a = al(vec![i(1, ws[0]), i(2, ws[1]), i(3, ws[2]), i(4, ws[3]), i(1, ws[1]), i(2, ws[0]), o(F::Get, 1), o(F::Rem, 2), o(F::Pend, 0)]);
                let cfg = b.cap(cap).lru().weigher();
                v.push(
                    unit(format!("pol-batch-{n}lru{ln}-{fname}"), &["C12", "C10", "C11"], move |t| batch(&cfg, a, if t == Tier::Quick { 5 } else { 7 }))
                        .bound(0, 0)
                        .shards(1, 8)
                        .what("all sequences with maintenance at any point: the shortest run of least recently used entries leaves"),
                );
            }
            // --- nothing fits
            let a = al(vec![o(F::Ins, 1), L::O(op(F::Ins, 2).w(0)), o(F::Get, 1), o(F::GetWith, 1), o(F::Upsert, 2), o(F::Has, 1)]);
            let cfg = b.cap(0);
            v.push(unit(format!("pol-zero{ln}-{fname}"), &["C10"], move |t| zero(&cfg, a, if t == Tier::Quick { 4 } else { 6 })).bound(0, 0));
            // --- maintenance anywhere
            let a = vec![
                L::O(op(F::Ins, 1).w(1)),
                L::O(op(F::Ins, 1).w(3)),
                L::O(op(F::Ins, 2).w(2)),
                L::O(op(F::Ins, 2).w(0)),
                L::O(op(F::Ins, 3).w(4)),
                L::O(op(F::Ins, 3).w(5)),
                L::O(op(F::Upsert, 1).w(2)),
                o(F::Get, 1),
                o(F::Rem, 1),
                o(F::Inv, 2),
                o(F::Pend, 0),
                o(F::GetWith, 2),
            ];
            for lru in [false, true] {
                let mut cfg = b.cap(4).weigher();
                cfg.lru = lru;
                let mut aa = a.clone();
                aa.push(o(F::InvAll, 0));
                let a = al(aa);
                v.push(
                    unit(format!("cap-seq-{}{ln}-{fname}", if lru { "lru" } else { "lfu" }), &["C10", "C11", "C13"], move |t| {
                        conserve(&cfg, a, if t == Tier::Quick { 5 } else { 6 })
                    })
                    .bound(0, 0)
                    .shards(2, 8)
                    .what("all sequences with maintenance at any point: capacity, counts, one report per departure"),
                );
            }
        }
    }
    // --- aging of the popularity estimator: saturate it up to its sample size and one to each side of it
    for (fname, f) in [("sync", Flav::S), ("future", Flav::F)] {
        let cfg = Cfg::new(f).lis(Lis::Log).cap(2);
        v.push(
            unit(format!("pol-aging-{fname}"), &["C12"], move |_| {
                let r = rt::choose(4);
                let d = rt::choose(3);
                let n = rt::choose(16);
                aging(&cfg, [0, 1, 8, 15][r], n as u32, d as u32)
            })
            .bound(0, 0)
            .shards(4, 4)
            .sdepth(2)
            .what("resident popularity x newcomer popularity x accesses just below, at and above the aging threshold"),
        );
    }
    v
}

/// A capacity of zero stores nothing.
fn zero(cfg: &Cfg, alpha: &[L], depth: usize) {
    begin();
    let c = build(cfg);
    for step in 0..depth {
        let L::O(x) = alpha[rt::choose(alpha.len())] else { continue };
        let rid = run(&c, &x.id(step as u32 + 1));
        let r = &g().recs[rid].res;
        let ok = match x.f {
            F::Get => *r == Res::V(None),
            F::Has => *r == Res::B(false),
            F::GetWith => *r == Res::V(Some(step as u32 + 1)),
            _ => *r != Res::Panic,
        };
        if !ok {
            fail(format!("C10: {:?} gives {r:?} in a cache of capacity 0", x.f));
        }
        run(&c, &op(F::Pend, 0));
        if counts(&c) != (0, 0) {
            fail(format!("C10: (entry_count, weighted_size) is {:?} in a cache of capacity 0", counts(&c)));
        }
    }
}

fn aging(cfg: &Cfg, res: u32, newc: u32, delta: u32) {
    begin();
    let c = build(cfg);
    for k in [1, 2] {
        run(&c, &op(F::Ins, k).id(k));
    }
    run(&c, &op(F::Pend, 0));
    let mut hits = 0;
    let mut ask = |k: u32, n: u32| {
        for _ in 0..n {
            run(&c, &op(F::Get, k));
            hits += 1;
            if hits % 32 == 0 {
                run(&c, &op(F::Pend, 0));
            }
        }
    };
    ask(1, res);
    ask(2, 15);
    // other keys, each counted up to saturation
    let fill = SAMPLE - 1 - res - 15 - newc + delta;
    for i in 0..fill / 15 {
        ask(1000 + i, 15);
    }
    ask(999, fill % 15);
    ask(4, newc);
    ask(1, 1);
    ask(2, 1);
    run(&c, &op(F::Pend, 0));
    let mut aged = false;
    // accesses counted: res + 15 + fill + newc + 1 (key 1; key 2 is saturated unless aged)
    let (mut f1, mut f4) = (res, newc);
    let total = res + 15 + fill + newc;
    if total >= SAMPLE {
        // the last of the newcomer's accesses that came after the aging are not halved
        let over = total - SAMPLE;
        if over <= newc {
            f4 = ((newc - over) >> 1) + over;
            f1 >>= 1;
            aged = true;
        } else {
            return; // not generated
        }
    }
    let _ = aged;
    if f1 < 15 {
        f1 += 1;
        if !aged && total + 1 >= SAMPLE {
            f1 >>= 1;
            f4 >>= 1;
        }
    }
    // order: key 1 was used before key 2, so it is the victim
    run(&c, &op(F::Ins, 4).id(4));
    run(&c, &op(F::Pend, 0));
    let rid = run(&c, &op(F::Has, 4));
    let admitted = g().recs[rid].res == Res::B(true);
    rt::outcome(|| format!("{admitted}"));
    if admitted != (f4 > f1) {
        fail(format!("C12: the newcomer (popularity {f4}, asked {newc} times) was {}admitted against the resident (popularity {f1}, asked {} times)", if admitted { "" } else { "not " }, res + 1));
    }
}
