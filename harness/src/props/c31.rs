//! What is left of nodes and engines that were dropped.

use crate::anynode::{self, Any, Kind};
use crate::heap::Group;
use crate::runner::*;
use crate::util::*;
use crate::world::*;
use proptest::prelude::*;
use rawdio::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub world: World,
    pub max: usize,
    pub sizes: Vec<usize>,
    /// In which order things are dropped.
    pub order: u64,
    /// Collect notifications only at the end.
    pub neglect: bool,
    /// How often the history is rendered in one engine.
    pub rounds: usize,
    /// So many more nodes, dropped at once.
    #[serde(default)]
    pub crowd: usize,
}

pub struct P;

fn shuffled<T>(mut v: Vec<T>, seed: u64) -> Vec<T> {
    let mut r = Prng::new(seed);
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    v
}

#[allow(dead_code)] // They are there to be dropped.
enum Thing {
    Context(Box<dyn rawdio::Context>),
    Process(Box<dyn rawdio::AudioProcess + Send>),
    Node(Any),
}

/// Wait until no more than that is held, at most so long; what is held then.
fn wait_for(group: &Group, held: i64, limit: Duration) -> i64 {
    let t0 = Instant::now();
    loop {
        let now = group.held();
        if now <= held || t0.elapsed() > limit {
            return now;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

/// An engine from its creation to its end.
fn life(p: &Plan, how: &How, order: u64) {
    let mut eng = engine(p.sr, max_channels(p), how.max_frames);
    eng.ctx.start();
    let (heard, nodes) = render_in(&mut eng, p, how, &mut |_| {});
    drop(heard);
    let Eng { ctx, pro, .. } = eng;
    let mut things: Vec<Thing> = nodes.into_iter().flatten().map(Thing::Node).collect();
    things.push(Thing::Context(ctx));
    things.push(Thing::Process(pro));
    for thing in shuffled(things, order) {
        drop(thing);
    }
}

/// The least that is held while the engine goes through a cycle of its command queue.
fn held_by(eng: &mut Eng, group: &Group, collect: bool) -> i64 {
    let mut out: Planar = vec![vec![]];
    let mut least = i64::MAX;
    for _ in 0..QUIET {
        eng.ctx.start();
        eng.block(&[], 1, &mut out, 1);
        out[0].clear();
        if collect {
            eng.ctx.process_notifications();
        }
        least = least.min(group.held());
    }
    least
}

const SCOPE: Scope = Scope { wide: false, ties: true, rewire: true, drops: true, cancels: true };

const QUIET: usize = 40;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C31";
    const RULE: &'static str = "histories of all node kinds, as engines that are created and dropped, and several times in one engine; non-trivial: at least three nodes and audible";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 15_000 } else { 400_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            strategy(&anynode::ALL, 1..6, 1..4, 600),
            prop::sample::select(vec![16usize, 64, 300]),
            prop::collection::vec(prop_oneof![1usize..40, 1usize..400], 1..4),
            any::<u64>(),
            any::<bool>(),
            5usize..8,
            prop_oneof![60 => Just(0usize), 1 => 400usize..950],
        )
            .prop_map(|(world, max, sizes, order, neglect, rounds, crowd)| Case { world, max, sizes, order, neglect, rounds, crowd })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let p = plan(&k.world, &SCOPE);
        let frames: usize = p.phases.iter().map(|x| x.1).sum();
        let how = How { sizes: k.sizes.clone(), neglect: k.neglect, ..How::plain(k.max) };
        let fresh = render(&p, &how);
        let tol = tolerance(&p);

        // The same with other samples, tables and impulses.
        let mut other = plan(&k.world, &SCOPE);
        for s in &mut other.specs {
            s.data = 1 + k.order % 1000;
        }

        let group = Group::new();
        let none = group.held();
        life(&p, &how, k.order);
        let once = wait_for(&group, none, Duration::from_millis(100));
        life(&other, &how, k.order);
        let twice = wait_for(&group, once, Duration::from_secs(8));
        if twice > once {
            return Err(format!("an engine of {} nodes and all that was made for it were dropped, but {} bytes are still held", p.specs.len(), twice - once));
        }

        // One engine, in which the same is made and dropped again and again.
        let mut eng = engine(p.sr, max_channels(&p), k.max);
        eng.ctx.start();
        // An application that never collects keeps a small record of each recorder and meter.
        let records = p.specs.iter().filter(|s| matches!(s.kind, Kind::Rec | Kind::Meter)).count() as i64;
        let mut passed = 0;
        let mut held: Vec<i64> = Vec::with_capacity(k.rounds);
        for round in 0..k.rounds {
            let (heard, nodes) = render_in(&mut eng, &p, &How { shift: passed, ..how.clone() }, &mut |_| {});
            passed += frames + 1;
            same_heard(&fresh, &heard, tol, false).map_err(|e| format!("{e} after the same was rendered {round} times in this engine; {} Hz", p.sr))?;
            drop(heard);
            for n in shuffled(nodes, k.order ^ round as u64) {
                drop(n);
            }
            if k.crowd > 0 {
                let crowd: Vec<Gain> = (0..k.crowd).map(|_| Gain::new(eng.ctx.as_mut(), 1)).collect();
                eng.block(&[], 1, &mut vec![vec![]], 1);
                passed += 1;
                drop(crowd);
            }
            let mut now = held_by(&mut eng, &group, true);
            passed += QUIET;
            if let Some(&last) = held.last() {
                // (The nodes are destroyed by a thread of its own.)
                let t0 = Instant::now();
                while now > last && t0.elapsed() < Duration::from_secs(1) {
                    std::thread::sleep(Duration::from_micros(200));
                    now = now.min(group.held());
                }
            } else {
                std::thread::sleep(Duration::from_millis(1));
                now = now.min(group.held());
            }
            held.push(now);
        }
        if held.windows(2).skip(1).all(|w| w[1] > w[0]) {
            return Err(format!("{} nodes were made and dropped {} times, and what is held grows each time: {held:?} bytes", p.specs.len(), k.rounds));
        }

        // The same without ever collecting.
        if records > 0 {
            let mut held = vec![];
            for _ in 0..k.rounds {
                let nodes: Vec<Any> = p.specs.iter().filter(|s| matches!(s.kind, Kind::Rec | Kind::Meter)).map(|s| Any::new(s, eng.ctx.as_mut())).collect();
                for n in &nodes {
                    if let Any::Rec(r) = n {
                        r.borrow_mut().record_now();
                    }
                    n.with(|n| n.connect_to_input());
                    eng.block(&[], 1, &mut vec![vec![]], k.max);
                }
                drop(nodes);
                let mut now = held_by(&mut eng, &group, false);
                let t0 = Instant::now();
                while held.last().is_some_and(|&last| now > last + 1000 * records) && t0.elapsed() < Duration::from_secs(1) {
                    std::thread::sleep(Duration::from_micros(200));
                    now = now.min(group.held());
                }
                held.push(now);
            }
            if held.windows(2).skip(1).all(|w| w[1] > w[0] + 1000 * records) {
                return Err(format!("{records} recorders and meters were made and dropped {} times, without collecting from them, and what is held grows each time: {held:?} bytes", k.rounds));
            }
        }

        let mut o = Outcome::new(p.specs.len() >= 3 && audible(&fresh.out));
        for s in &p.specs {
            o.label(true, anynode::name(s.kind));
        }
        o.label(p.phases.iter().any(|x| x.0.iter().any(|i| matches!(i, Item::Drop(_)))), "drops while rendering");
        o.label(k.crowd > 512, "more than 512 nodes dropped at once");
        o.label(held.last() > held.get(1), "held more at the end");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "memory is that of the global allocator, allocated by the thread of the case and freed by any; a first life of the engine may leave caches".into(),
            "in a living engine growth is a leak when it happens in each of at least three further rounds".into(),
            "the thread that destroys nodes is given 8 s (1 s in a living engine)".into(),
        ]
    }
}
