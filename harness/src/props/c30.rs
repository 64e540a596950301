//! Rendering, once commands are taken in, leaves the heap alone and does not wait.

use crate::anynode::{self, Kind};
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub world: World,
    pub max: usize,
    pub sizes: Vec<usize>,
    /// Phases are this many times longer.
    pub long: usize,
    /// Notifications are collected only at the end.
    pub neglect: bool,
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C30";
    const RULE: &'static str = "whole-engine histories under a counting allocator; non-trivial: audible, at least three actions and twenty calls without new commands";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 24_000 } else { 500_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            strategy(&anynode::ALL, 1..8, 1..5, 600),
            prop_oneof![60 => prop::sample::select(vec![1usize, 16, 64, 300]), 1 => prop::sample::select(vec![1024usize, 4096])],
            prop::collection::vec(prop_oneof![9 => 1usize..20, 9 => 1usize..100, 9 => 1usize..600, 1 => 600usize..5000], 1..4),
            prop_oneof![6 => Just(1usize), 1 => Just(12usize), 1 => Just(40usize)],
            any::<bool>(),
        )
            .prop_map(|(world, max, sizes, long, neglect)| Case { world, max, sizes, long, neglect })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let mut w = k.world.clone();
        for p in &mut w.phases {
            p.1 = p.1.saturating_mul(k.long as u16);
        }
        let p = plan(&w, &Scope { wide: true, ties: true, rewire: true, drops: true, cancels: true });
        let how = How { sizes: k.sizes.clone(), count: true, neglect: k.neglect, ..How::plain(k.max) };
        let h = render(&p, &how);
        // The kernel may make a thread wait for memory of its own accord, but not every time.
        if h.waits > 0 && (0..6).all(|_| render(&p, &how).waits > 0) {
            return Err("rendering waits for another thread, each time it is tried".into());
        }
        // A recorder hands over its recording in a queue, which grows by one piece for every 31 messages.
        let recorders = p.specs.iter().filter(|s| s.kind == Kind::Rec).count();
        let messages = p.items() + p.total() / 4096;
        let spare = recorders * (1 + messages / 31);
        if h.allocs > spare || h.frees > 0 {
            let (f, c) = h.heap.unwrap();
            return Err(format!("{} allocations and {} frees while rendering; first at frame {f}: {} and {}", h.allocs, h.frees, c.allocs, c.frees));
        }
        // Taking in commands may release their messages, but no audio data.
        if h.max_free > 30_000 {
            return Err(format!("{} bytes freed at once while rendering", h.max_free));
        }
        let mut o = Outcome::new(p.items() >= 3 && h.steady_calls >= 20 && audible(&h.out));
        o.label(k.neglect, "notifications uncollected");
        o.label(k.long > 1, "long");
        for s in &p.specs {
            o.label(true, anynode::name(s.kind));
        }
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "recorders may grow the queue that hands over recordings (one allocation per 31 messages)".into(),
            "waiting that does happen in these runs is seen (as the thread giving up the processor, or as a hang); a lock that happens to be free is not".into(),
        ]
    }
}
