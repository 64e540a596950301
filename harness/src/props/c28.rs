//! Anything goes, as long as it is well-formed: no panic, no hang, nothing but finite samples.

use crate::anynode;
use crate::runner::*;
use crate::util::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub world: World,
    pub max: usize,
    pub sizes: Vec<usize>,
    pub rough: u64,
    /// Kind of input signal.
    pub signal: u8,
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C28";
    const RULE: &'static str = "whole-engine histories over full setting ranges with drops, re-wiring, cancels, ties, odd host calls and odd signals; non-trivial: at least five actions and audible";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 1_000_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            prop_oneof![60 => strategy(&anynode::ALL, 1..9, 1..6, 900), 1 => strategy(&anynode::ALL, 60..250, 1..3, 100)],
            prop_oneof![60 => prop::sample::select(vec![1usize, 16, 64, 300]), 1 => prop::sample::select(vec![1024usize, 4096])],
            prop::collection::vec(prop_oneof![20 => 1usize..40, 20 => 1usize..400, 1 => 400usize..5000], 1..4),
            any::<u64>(),
            0u8..8,
        )
            .prop_map(|(mut world, max, sizes, rough, signal)| {
                // The filters' own default frequency has to lie below half the sample rate.
                world.sr = world.sr.max(8192);
                Case { world, max, sizes, rough, signal }
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let mut p = plan(&k.world, &Scope { wide: true, ties: true, rewire: true, drops: true, cancels: true });
        for d in &mut p.audio {
            for (f, v) in d.iter_mut().enumerate() {
                *v = match k.signal {
                    0 => 0.0,
                    1 => if f % 2 == 0 { 1.0 } else { -1.0 },
                    2 => *v * 1e-40,
                    3 => *v * 1e-20,
                    4 => *v * 1e3,
                    5 => (f % 100 == 3) as u8 as f32,
                    _ => *v,
                };
            }
        }
        let h = render(&p, &How { sizes: k.sizes.clone(), rough: Some(k.rough), ..How::plain(k.max) });
        all_finite("output", &h.out)?;
        for r in &h.recs {
            all_finite("recording", r)?;
        }
        if let Some(m) = h.meters.iter().flatten().find(|m| !m.1.is_finite() || m.1 < 0.0) {
            return Err(format!("a meter reported {}", m.1));
        }
        let mut o = Outcome::new(p.items() >= 5 && audible(&h.out));
        o.label(p.phases.iter().flat_map(|x| &x.0).any(|i| matches!(i, Item::Drop(_))), "drops");
        o.label(p.phases.iter().flat_map(|x| &x.0).any(|i| matches!(i, Item::Connect(_) | Item::Disconnect(_))), "re-wiring");
        o.label(p.specs.len() > 100, "more than 100 nodes");
        for s in &p.specs {
            o.label(true, anynode::name(s.kind));
        }
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec!["the preconditions in DESIGN.md (no cycles, channel counts the engine was made for, settings in their documented ranges)".into()]
    }
}
