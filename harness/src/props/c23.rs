//! Looping sampler playback against the playback model, and long runs of loops whose borders fall
//! between frames against the ideal position.

use crate::runner::*;
use crate::samplersim as sim;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

pub struct P;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    History(sim::Case),
    /// A loop from `a` over `n` frames (64ths), the sample being a ramp.
    Between { sr: usize, a: u32, n: u32, from: u16, frames: u32, block: usize },
}

fn between(sr: usize, a: f64, n: f64, from: usize, frames: usize, block: usize) -> CaseResult {
    let len = (a + n).ceil() as usize + 4;
    let fade = (sr as f64 * 0.05).ceil() as usize;
    let value = |i: usize| (i + 1) as f32;
    let ramp: Planar = vec![(0..len).map(value).collect()];
    let from = from.min((a + n).floor() as usize - 1);
    let mut eng = engine(sr, 1, block.min(64));
    let mut s = Sampler::new(eng.ctx.as_ref(), from_planar(&ramp, len, sr));
    s.node.connect_to_output();
    eng.live();
    s.enable_loop(Timestamp::from_seconds(a / sr as f64), Timestamp::from_seconds((a + n) / sr as f64));
    s.start_from_position_at_time(moment(0.0, sr), Timestamp::from_seconds(from as f64 / sr as f64));
    let mut out: Planar = vec![vec![]];
    let mut left = frames;
    while left > 0 {
        let b = block.min(left);
        eng.block(&vec![], 0, &mut out, b);
        left -= b;
    }
    let first = a + n - from as f64;
    let mut repeats = 0usize;
    for f in 0..frames {
        let (ideal, into) = if (f as f64) < first {
            (from as f64 + f as f64, f as f64)
        } else {
            let r = (f as f64 - first) % n;
            repeats = ((f as f64 - first) / n) as usize + 1;
            (a + r, r)
        };
        // Near a border playback may be on either side of it, or fading.
        let near = into < 2.0 || (f as f64) < first && first - (f as f64) < 2.0 || (f as f64) >= first && n - into < 2.0;
        let fading = n + 2.0 > fade as f64 && into <= fade as f64 + 2.0 || f <= fade + 1;
        if near || fading {
            continue;
        }
        let got = out[0][f] as f64 - 1.0;
        if (got - ideal).abs() > 1.51 {
            return Err(format!(
                "frame {f}, repetition {repeats}, plays sample position {got}, expected {ideal} (+-1.5); loop {a}..{} from {from} at {sr} Hz",
                a + n
            ));
        }
    }
    let mut o = Outcome::new(repeats > 3);
    o.label(true, "loop borders between frames");
    o.label(repeats > 100, "more than 100 repetitions between frames");
    Ok(o)
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "histories of starts, stops, loops enabled, changed and cancelled, and long runs of loops with borders between frames; non-trivial: looped back at least once";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 1_500_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let between = (
            prop::sample::select(vec![200usize, 1000, 1024, 44100, 48000]),
            0u32..20_000,
            prop_oneof![2 => 300u32..2000, 2 => 300u32..20_000],
            0u16..300,
            prop_oneof![4 => 100u32..4_000, 1 => 4_000u32..60_000],
            1usize..300,
        )
            .prop_map(|(sr, a, n, from, frames, block)| Case::Between { sr, a, n, from, frames, block });
        prop_oneof![20 => sim::strategy(true).prop_map(Case::History), 1 => between].boxed()
    }

    fn run(k: &Case) -> CaseResult {
        match k {
            Case::History(k) => {
                let s = sim::run(k)?;
                Ok(sim::outcome(&s, s.loops > 0))
            }
            Case::Between { sr, a, n, from, frames, block } => {
                between(*sr, *a as f64 / 64.0, *n as f64 / 64.0, *from as usize, *frames as usize, *block)
            }
        }
    }

    fn assumptions() -> Vec<String> {
        vec![
            "a fade lasts at most 50 ms; during one any gain from 0 to 1 is accepted, which only rises in a lone fade-in and only falls in a lone fade-out; playback from the very start of the sample has no fade-in".into(),
            "at most the event capacity of events between two blocks; sample rate of the sample equals the engine's".into(),
            "where loop borders fall between frames, the position may be off by 1.5 frames, without accumulating".into(),
        ]
    }
}
