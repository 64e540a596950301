//! One history rendered in different calls and with different maximum block sizes.

use crate::anynode;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub world: World,
    pub max_a: usize,
    pub sizes: Vec<usize>,
    pub max_b: usize,
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "graphs of up to 7 nodes of all kinds with automation, events, recordings, meters, re-wiring, in phases rendered whole and in pieces; non-trivial: at least two calls per phase on average, something scheduled, and audible";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 400_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            strategy(&anynode::ALL, 1..7, 1..4, 1500),
            prop_oneof![60 => prop::sample::select(vec![64usize, 512, 1600]), 1 => Just(8192usize)],
            prop::collection::vec(prop_oneof![2 => Just(1usize), 3 => 1usize..20, 3 => 1usize..300, 1 => 1usize..1600], 1..5),
            prop_oneof![60 => prop::sample::select(vec![1usize, 3, 7, 32, 64, 100]), 1 => Just(2048usize)],
        )
            .prop_map(|(world, max_a, sizes, max_b)| Case { world, max_a, sizes, max_b })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let p = plan(&k.world, &Scope { ties: true, rewire: true, cancels: true, ..Default::default() });
        let a = render(&p, &How::plain(k.max_a));
        let b = render(&p, &How { sizes: k.sizes.clone(), ..How::plain(k.max_b) });
        same_heard(&a, &b, tolerance(&p), false).map_err(|e| {
            format!(
                "{e} when rendered in calls of {:?} frames with blocks of at most {}, instead of {} calls with at most {}; {} Hz",
                k.sizes,
                k.max_b,
                p.phases.len(),
                k.max_a,
                p.sr
            )
        })?;
        let mut o = Outcome::new(p.scheduled() > 0 && audible(&a.out) && p.total() > 2 * k.sizes[0].min(k.max_b) * p.phases.len());
        o.label(a.recs.iter().any(|r| r.iter().any(|c| !c.is_empty())), "recorded");
        o.label(a.meters.iter().any(|m| !m.is_empty()), "metered");
        o.label(p.edges.len() > 4, "more than four connections");
        for s in &p.specs {
            o.label(true, anynode::name(s.kind));
        }
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "changes without a time are made at the same frame in both renderings".into(),
            "equal to 1e-4 (1e-3 with oscillators at rates whose frame times are rounded), as rounding differs with the grouping of frames; scheduled times away from frame borders unless exact at the sample rate".into(),
        ]
    }
}
