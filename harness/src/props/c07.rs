//! The engine clock, start and stop.

use crate::auto::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Start,
    Stop,
    Block(usize),
    /// Set the gain this many (and a half) frames after the current clock.
    SetAhead(u16, f64),
    SampleAhead(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub max_frames: usize,
    pub seed: u64,
    pub ops: Vec<Op>,
    /// Frames that passed before.
    #[serde(default)]
    pub before: u64,
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "histories of start, stop, blocks of 0 to 65536 frames, timed gain changes and sampler starts at any sample rate; non-trivial: renders both stopped and started with an event pending across a stop";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 20_000 } else { 500_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let block = prop_oneof![
            1 => Just(0usize),
            10 => 1usize..30,
            10 => 1usize..600,
            2 => prop::sample::select(vec![441usize, 480, 512, 1000, 1023, 1024]),
        ];
        let op = prop_oneof![
            2 => Just(Op::Start),
            2 => Just(Op::Stop),
            8 => block.prop_map(Op::Block),
            3 => (0u16..800, 0.0f64..2.0).prop_map(|(a, v)| Op::SetAhead(a, v)),
            1 => (0u16..800).prop_map(Op::SampleAhead),
        ];
        let ops = prop_oneof![
            200 => prop::collection::vec(op.clone(), 2..40),
            1 => (prop::collection::vec(op, 2..10), prop::collection::vec(20000usize..65536, 1..60)).prop_map(|(mut ops, big)| {
                ops.insert(0, Op::Start);
                ops.extend(big.into_iter().map(Op::Block));
                ops
            }),
        ];
        (
            prop_oneof![3 => prop::sample::select(vec![8000usize, 22050, 44100, 48000, 88200, 96000, 192000]), 2 => 1000usize..200_000],
            prop::sample::select(vec![1usize, 7, 32, 64, 128, 512]),
            any::<u64>(),
            ops,
            prop_oneof![
                2000 => Just(0u64),
                50 => (20u32..27, any::<u32>()).prop_map(|(b, r)| (1u64 << b) + (r as u64 % (1 << b))),
                1 => (0u64..5000).prop_map(|n| (1 << 32) - 2500 + n),
            ],
        )
            .prop_map(|(sr, max_frames, seed, mut ops, before)| {
                if seed % 3 != 0 {
                    ops.insert(0, Op::Start);
                }
                Case { sr, max_frames: if before > 1 << 28 { 4096 } else if before > 1 << 22 { max_frames.max(64) } else { max_frames }, seed, ops, before }
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        // (The engine made without options has some sample rate; the one it states.)
        let mut eng = default_engine();
        if eng.sr != k.sr || eng.ctx.maximum_frame_count() != k.max_frames {
            eng = engine(k.sr, 1, k.max_frames);
        }
        if eng.sr != k.sr || eng.ctx.get_sample_rate() != k.sr || eng.ctx.maximum_frame_count() != k.max_frames {
            return Err(format!("the engine states a sample rate of {} and blocks of up to {}", eng.ctx.get_sample_rate(), eng.ctx.maximum_frame_count()));
        }
        if k.before > 0 {
            eng.ctx.start();
            eng.idle(k.before);
            eng.ctx.stop();
        }
        let mut g = Gain::new(eng.ctx.as_ref(), 1);
        let mix = Gain::new(eng.ctx.as_ref(), 1);
        // A click in a sampler: its own voice fades in, so only frames at and around it are read.
        let len = 4096;
        let mut s = Sampler::new(eng.ctx.as_ref(), OwnedAudioBuffer::sine(len, 1, k.sr, 100.0, 1.0));
        g.node.connect_to_input();
        g.node.connect_to(&mix.node);
        mix.node.connect_to_output();
        let mut sampler_start: Option<usize> = None;
        let mut model = Model::new(1.0);
        let (mut started, mut playing) = (false, false);
        let mut total = k.before as usize;
        let mut pending_last = -1.0f64;
        let input = vec![vec![1.0f32; 1]];
        let mut o = Outcome::default();
        let (mut crossed, mut ran, mut n_block) = (false, false, 0);
        for (step, op) in k.ops.iter().enumerate() {
            match op {
                Op::Start => {
                    eng.ctx.start();
                    started = true;
                }
                Op::Stop => {
                    eng.ctx.stop();
                    started = false;
                }
                Op::SetAhead(a, v) => {
                    let t = total as f64 + *a as f64 + 0.5;
                    if t != pending_last {
                        let c = Change { kind: Kind::Set, value: *v, start: t, end: t };
                        c.apply(g.gain(), k.sr);
                        model.submit(c);
                        pending_last = t;
                    }
                }
                Op::SampleAhead(a) => {
                    if sampler_start.is_none() {
                        s.start_from_position_at_time(Timestamp::from_seconds((total as f64 + *a as f64 + 0.5) / k.sr as f64), Timestamp::zero());
                        sampler_start = Some(total + *a as usize);
                        s.node.connect_to(&mix.node);
                    }
                }
                Op::Block(n) => {
                    playing = started;
                    n_block += 1;
                    let mut out = vec![vec![]; 1];
                    eng.pos = 0;
                    let long = vec![vec![input[0][0]; *n]];
                    eng.block(&long, 1, &mut out, *n);
                    if playing {
                        for f in 0..*n {
                            let t = total + f;
                            let want = model.at(t as f64);
                            let got = out[0][f] as f64;
                            let quiet = sampler_start.is_none_or(|s| t < s);
                            if quiet && !((got - want).abs() <= 1e-6) {
                                return Err(format!("frame {t} of the time line: {got}, the schedule says {want}"));
                            }
                            // Long after its fade the sampler plays at its exact place.
                            if let Some(s0) = sampler_start {
                                if t > s0 + 1 + 2000.min(k.sr / 20) && t + 4 < s0 + len {
                                    let at = |x: usize| (std::f64::consts::TAU * 100.0 * x as f64 / k.sr as f64).sin();
                                    let x = t - s0;
                                    let lo = at(x - 1).min(at(x)).min(at(x + 1));
                                    let hi = at(x - 1).max(at(x)).max(at(x + 1));
                                    let v = got - want;
                                    if v < lo - 2e-3 || v > hi + 2e-3 {
                                        return Err(format!("frame {t}: the sampler scheduled at {s0} plays {v}, expected {lo}..{hi}"));
                                    }
                                    o.label(true, "sampler event");
                                }
                            }
                        }
                        total += n;
                        ran |= *n > 0;
                    } else {
                        if let Some(f) = out[0].iter().position(|&v| v != 0.0) {
                            return Err(format!("operation {step}: frame {f} of a block rendered while stopped is {}", out[0][f]));
                        }
                        crossed |= *n > 0 && !model.pending().is_empty();
                    }
                }
            }
            let now = eng.ctx.current_time().as_seconds();
            let want = total as f64 / k.sr as f64;
            if (now - want).abs() > 5e-10 {
                return Err(format!("operation {step} ({op:?}): the clock reads {now} s, {total} frames are {want} s"));
            }
        }
        let _ = playing;
        o.nontrivial = crossed && ran;
        o.label(total > 1_000_000, "over a million frames");
        o.label(total > 1 << 32, "over 2^32 frames");
        o.label(n_block > 0 && !ran, "never ran");
        o.labels.dedup();
        Ok(o)
    }
}
