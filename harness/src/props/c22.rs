//! Sampler playback without loops against the playback model.

use crate::runner::*;
use crate::samplersim as sim;
use proptest::strategy::BoxedStrategy;

pub struct P;

impl Prop for P {
    type Case = sim::Case;
    const ID: &'static str = "C22";
    const RULE: &'static str = "histories of starts and stops, timed and immediate, early and late, spaced from nothing to beyond a fade; non-trivial: at least two starts and frames heard outside fades";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 1_500_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<sim::Case> {
        sim::strategy(false)
    }

    fn run(k: &sim::Case) -> CaseResult {
        let s = sim::run(k)?;
        Ok(sim::outcome(&s, s.starts >= 2 && s.audible > s.in_fade))
    }

    fn assumptions() -> Vec<String> {
        vec![
            "a fade lasts at most 50 ms; during one any gain from 0 to 1 is accepted, which only rises in a lone fade-in and only falls in a lone fade-out; playback from the very start of the sample has no fade-in".into(),
            "at most the event capacity of events between two blocks; sample rate of the sample equals the engine's".into(),
        ]
    }
}
