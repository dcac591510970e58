//! An iterator is opened, and between its steps the cache is used.
use crate::api::*;
use crate::model::*;
use crate::seq::*;
use crate::unit::*;
use mcrt::rt;

type It<'a> = Box<dyn Iterator<Item = (u32, u32)> + 'a>;

fn open(c: &C) -> It<'_> {
    match c {
        C::S(c) => Box::new(c.iter().map(|(k, v)| (*k, v.id()))),
        C::G(c) => Box::new(c.iter().map(|(k, v)| (*k, v.id()))),
        C::F(c) => Box::new(c.iter().map(|(k, v)| (*k, v.id()))),
    }
}
/// the `for` loop form
fn open_into(c: &C) -> It<'_> {
    match c {
        C::S(c) => Box::new(c.into_iter().map(|(k, v)| (*k, v.id()))),
        C::G(c) => Box::new(c.into_iter().map(|(k, v)| (*k, v.id()))),
        C::F(c) => Box::new(c.into_iter().map(|(k, v)| (*k, v.id()))),
    }
}

/// `{:?}` shows what `iter` yields
fn views(c: &C) {
    struct M(Vec<(std::sync::Arc<u32>, V)>);
    impl std::fmt::Debug for M {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_map().entries(self.0.iter().map(|(k, v)| (k, v))).finish()
        }
    }
    let (shown, want) = match c {
        C::S(c) => (format!("{c:?}"), M(c.iter().collect())),
        C::G(c) => (format!("{c:?}"), M(c.iter().collect())),
        C::F(c) => (format!("{c:?}"), M(c.iter().collect())),
    };
    let want = format!("{want:?}");
    if shown != want {
        fail(sys(|| format!("C15: the cache shows itself as {shown}, the iterator yields {want}")));
    }
}

fn steps(cfg: &Cfg, pre: &[L], alpha: &[L], budget: usize) {
    begin();
    let c = build(cfg);
    let mut m = Model::new(cfg, 0);
    let mut id = 0;
    let mut play = |m: &mut Model, l: L| {
        id += 1;
        let op = match l {
            L::O(x) => x.id(id),
            L::ToDl(d) => {
                let now = now_u();
                let best = (0..NK as u32).filter_map(|k| m.live(k, now).and_then(|e| m.deadline(&e))).filter(|t| *t < FAR / 2).min();
                adv(best.map_or(0, |b| (b as i64 + d - now as i64 - 2).max(0) as u64))
            }
        };
        let rid = run(&c, &op);
        if let Err(e) = m.apply(rid) {
            fail(e);
        }
    };
    for l in pre {
        play(&mut m, *l);
    }
    let mut it = if rt::choose(2) == 0 { open(&c) } else { open_into(&c) };
    let live = |m: &Model| -> [u32; NK] {
        let now = now_u();
        std::array::from_fn(|k| m.live(k as u32, now).map_or(0, |e| e.id))
    };
    let mut stable = live(&m);
    let mut seen = [0u32; NK];
    let mut left = budget;
    let mut nexts = 0;
    loop {
        let l = if left > 0 { rt::choose(alpha.len() + 1) } else { 0 };
        if l > 0 {
            left -= 1;
            play(&mut m, alpha[l - 1]);
            let now = live(&m);
            for k in 0..NK {
                if now[k] != stable[k] {
                    stable[k] = 0;
                }
            }
            continue;
        }
        run(&c, &op(F::Nop, 0));
        let now = live(&m);
        for k in 0..NK {
            if now[k] != stable[k] {
                stable[k] = 0;
            }
        }
        nexts += 1;
        match it.next() {
            Some((k, v)) => {
                if seen[k as usize] != 0 {
                    fail(sys(|| format!("C15: the iterator yielded key {k} twice, with v{} and v{v}", seen[k as usize])));
                }
                seen[k as usize] = v;
                if now[k as usize] != v {
                    fail(sys(|| match now[k as usize] {
                        0 => format!("C15: the iterator yielded v{v} of key {k}, which is dead"),
                        x => format!("C15: the iterator yielded v{v} of key {k}, the current value is v{x}"),
                    }));
                }
            }
            None => {
                for k in 0..NK {
                    if stable[k] != 0 && seen[k] != stable[k] {
                        fail(sys(|| format!("C15: the iterator ended after {nexts} steps without v{} of key {k}, which was live and untouched all the time", stable[k])));
                    }
                }
                if it.next().is_some() {
                    fail("C15: the iterator went on after its end".into());
                }
                break;
            }
        }
        // it may also be dropped half-way
        if left == 0 && nexts == 2 && rt::choose(2) == 1 {
            break;
        }
    }
    drop(it);
    views(&c);
    finish(cfg, &c, &mut m);
    rt::outcome(|| format!("{seen:?} {nexts} live {:?}", live(&m)));
}

pub fn units() -> Vec<Unit> {
    let mut v = Vec::new();
    static E: ExpScript = ExpScript { create: &[Ans::In(9)], update: &[Ans::In(6)], read: &[Ans::In(12)] };
    for (fname, f) in [("sync", Flav::S), ("seg", Flav::G(2)), ("future", Flav::F)] {
        let pre = al(vec![o(F::Ins, 1), o(F::Ins, 2), o(F::Ins, 3)]);
        let base = vec![
            o(F::Ins, 1),
            o(F::Ins, 2),
            o(F::Ins, 4),
            o(F::Rem, 1),
            o(F::Inv, 3),
            o(F::Get, 2),
            o(F::InvAll, 0),
            o(F::Pend, 0),
            L::O(op(F::InvIf, 0).pr(Pr::Even)),
            L::O(op(F::Compute, 2).act(Act::Rem)),
            L::O(op(F::Compute, 3).act(Act::Put)),
        ];
        let mut timed = base.clone();
        timed.extend([L::ToDl(-1), L::ToDl(0), L::ToDl(1)]);
        let c = Cfg::new(f).closures();
        for (n, cfg, a) in [
            ("same", c.hm(HM::Same), al(base.clone())),
            ("near-lis", c.hm(HM::Near).lis(Lis::Log), al(base.clone())),
            ("spread", c.hm(HM::Spread), al(base.clone())),
            ("ttl", c.hm(HM::Near).ttl(8), al(timed.clone())),
            ("tti", c.hm(HM::Mix).tti(8), al(timed.clone())),
            ("exp", c.hm(HM::Spread).exp(E), al(timed.clone())),
        ] {
            v.push(
                unit(format!("iter-step-{n}-{fname}"), &["C15"], move |t| steps(&cfg, pre, a, if t == Tier::Quick { 3 } else { 5 }))
                    .bound(0, 0)
                    .shards(1, 16)
                    .sdepth(2)
                    .what("operations and clock steps between the steps of an iterator"),
            );
        }
    }
    v
}
