//! Nobody calls `run_pending_tasks`: maintenance has to come with the ordinary operations.
use crate::api::*;
use crate::seq::fail;
use crate::unit::*;
use mcrt::rt;

/// 300 ms, rounded up
const GAP: u64 = 73_243;

#[derive(Clone, Copy, Debug)]
enum B {
    /// insert that many new keys
    Put(u32),
    /// overwrite the newest key that many times
    Over(u32),
    Hit(u32),
    Miss(u32),
    Rem,
    /// removes a key that is not there
    RemNone,
    Load,
    Upsert,
    Has,
    Iter,
    InvAll,
    InvIf,
    Adv(u64),
}

#[derive(Clone, Copy)]
struct Ev {
    put: bool,
    t: u64,
    k: u32,
    write: bool,
}

struct M {
    evs: Vec<Ev>,
    /// so many events have been applied for certain
    must: usize,
    /// number of events before each `get`
    gets: Vec<usize>,
    /// no maintenance can have run later than this
    last: u64,
    next: u32,
    ttl: Option<u64>,
}
impl M {
    /// live keys after the first `j` events, at `now`
    fn state(&self, j: usize, now: u64) -> Vec<u32> {
        let mut v: Vec<(u32, u64)> = Vec::new();
        for e in &self.evs[..j] {
            if e.k == 0 {
                v.clear();
            } else {
                v.retain(|x| x.0 != e.k);
                if e.put {
                    v.push((e.k, e.t));
                }
            }
        }
        v.into_iter().filter(|x| self.ttl.is_none_or(|t| now < x.1 + t)).map(|x| x.0).collect()
    }
    fn newest(&self, now: u64) -> u32 {
        self.state(self.evs.len(), now).last().copied().unwrap_or(0)
    }
}

fn auto(cfg: &Cfg, alpha: &[B], depth: usize) {
    begin();
    let c = build(cfg);
    let mut m = M { evs: Vec::new(), must: 0, gets: Vec::new(), last: now_u(), next: 1, ttl: cfg.ttl };
    let mut id = 0;
    for _ in 0..depth {
        let l = alpha[rt::choose(alpha.len())];
        let (n, f) = match l {
            B::Put(n) | B::Over(n) => (n, F::Ins),
            B::Hit(n) | B::Miss(n) => (n, F::Get),
            B::Rem | B::RemNone => (1, F::Rem),
            B::Load => (1, F::GetWith),
            B::Upsert => (1, F::Upsert),
            B::Has => (1, F::Has),
            B::Iter => (1, F::Iter),
            B::InvAll => (1, F::InvAll),
            B::InvIf => (1, F::InvIf),
            B::Adv(d) => {
                run(&c, &adv(d));
                continue;
            }
        };
        for i in 0..n {
            let now = now_u();
            let k = match l {
                B::Put(_) | B::Load | B::Upsert => {
                    m.next += 1;
                    m.next - 1
                }
                B::Over(_) | B::Hit(_) | B::Rem | B::Has => m.newest(now),
                B::Miss(_) | B::RemNone => 5000,
                _ => 0,
            };
            if k == 0 && !matches!(l, B::Iter | B::InvAll | B::InvIf) {
                continue;
            }
            id += 1;
            let before = m.evs.len();
            let rid = run(&c, &op(f, k).id(id).pr(Pr::All));
            let (t0, t1) = (g().recs[rid].t0, g().recs[rid].t1);
            // deadlines that pass within the operation leave its outcome open
            if m.ttl.is_some_and(|t| m.evs.iter().any(|e| e.put && e.t + t + 4 >= t0 && e.t + t <= t1 + 4)) {
                return;
            }
            match l {
                B::Put(_) | B::Over(_) | B::Load | B::Upsert => m.evs.push(Ev { put: true, t: t1, k, write: true }),
                B::Rem => m.evs.push(Ev { put: false, t: t1, k, write: true }),
                B::InvAll | B::InvIf => m.evs.push(Ev { put: false, t: t1, k: 0, write: false }),
                _ => {}
            }
            let trig = m.evs.len() > before && m.evs[before].write || f == F::Get;
            let due = trig && t0 >= m.last + GAP;
            if due {
                m.must = before;
            }
            if f == F::Get {
                m.gets.push(before);
                if m.gets.len() >= 65 {
                    m.must = m.must.max(m.gets[m.gets.len() - 65]);
                }
            }
            let w: Vec<usize> = (0..m.evs.len()).filter(|&i| m.evs[i].write).collect();
            if w.len() > 64 {
                m.must = m.must.max(w[w.len() - 65] + 1);
            }
            m.last = t1;
            let cnt = counts(&c);
            let ok = match cfg.cap {
                Some(cap) => {
                    let stored = m.evs.len() - m.must;
                    let n = match &c {
                        _ if i + 1 < n => 0,
                        C::S(c) => c.iter().count(),
                        C::G(c) => c.iter().count(),
                        C::F(c) => c.iter().count(),
                    };
                    cnt.0 <= cap && n as u64 <= cap + stored as u64
                }
                None if cfg.ttl.is_some() && due => (before..=m.evs.len()).any(|j| m.state(j, t0).len() as u64 == cnt.0),
                None if cfg.ttl.is_some() => cnt.0 <= m.evs.len() as u64,
                None => (m.must..=m.evs.len()).any(|j| m.state(j, t0).len() as u64 == cnt.0),
            };
            if !ok || cnt.0 != cnt.1 {
                fail(sys(|| {
                    format!(
                        "C24: after {l:?} entry_count and weighted_size are {cnt:?}; {} of the {} writes and invalidations must have been processed{}, {} entries are live",
                        m.must,
                        m.evs.len(),
                        if due { " (300 ms have passed)" } else { "" },
                        m.state(m.evs.len(), t1).len()
                    )
                }));
            }
            if due && cfg.lis != Lis::No && cfg.cap.is_none() {
                let puts = m.evs.iter().filter(|e| e.put).count();
                let live = m.state(m.evs.len(), t1).len();
                let n = g().notif[0].len();
                if n != puts - live {
                    fail(sys(|| format!("C24: after {l:?} (300 ms have passed) {n} departures of {} were reported", puts - live)));
                }
            }
        }
    }
    rt::outcome(|| format!("{:?} {} {}", counts(&c), m.must, m.evs.len()));
}

fn al(v: Vec<B>) -> &'static [B] {
    Box::leak(v.into_boxed_slice())
}
pub fn units() -> Vec<Unit> {
    let mut v = Vec::new();
    for (fname, f) in [("sync", Flav::S), ("seg1", Flav::G(1)), ("future", Flav::F)] {
        let base = [B::Put(1), B::Put(63), B::Over(64), B::Hit(1), B::Hit(63), B::Miss(2), B::Rem, B::RemNone, B::Load, B::Upsert, B::Has, B::InvAll, B::Adv(GAP), B::Adv(GAP / 2)];
        let c = Cfg::new(f);
        let timed: Vec<B> = base.iter().copied().filter(|b| !matches!(b, B::Hit(1) | B::RemNone | B::Upsert)).collect();
        let inv: Vec<B> = base.iter().copied().map(|b| if matches!(b, B::InvAll) { B::InvIf } else { b }).collect();
        for (n, cfg, a) in [
            ("plain", c, al(base.to_vec())),
            ("lis", c.lis(Lis::Log), al(base.to_vec())),
            ("pred-lis", c.closures().lis(Lis::Log), al(inv)),
            ("ttl-lis", c.ttl(GAP + 1000).lis(Lis::Log), al(timed.clone())),
            ("lru", c.cap(3).lru(), al(timed.clone())),
            ("lfu", c.cap(70), al(timed.clone())),
        ] {
            v.push(
                unit(format!("auto-{n}-{fname}"), &["C24"], move |t| auto(&cfg, a, if t == Tier::Quick { 4 } else { 6 }))
                    .bound(0, 0)
                    .shards(1, 16)
                    .sdepth(2)
                    .what("maintenance comes with the operations: after 64 records or 300 ms"),
            );
        }
    }
    v
}
