//! Convolution against direct convolution in f64.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Impulse {
    Noise,
    /// A few spikes at seeded places, always including the last sample.
    Spikes,
    /// Each channel silent but for a stretch of its own, or altogether.
    Patches,
    Decay,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub ch: usize,
    pub max_frames: usize,
    pub impulse: Impulse,
    pub len: usize,
    pub frames: usize,
    pub sizes: Vec<usize>,
    /// The input is silent from this share of the run on.
    pub silence_after: u8,
    /// Frame gap, wet (else dry), value.
    pub sets: Vec<(u16, bool, f64)>,
    pub seed: u64,
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "impulses of 1 to a few thousand frames, any calls, wet/dry changed during play; non-trivial: more than one call or engine block and a run longer than the impulse";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 40_000 } else { 500_000 }
    }

    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let long = if t == Tier::Quick { 3000usize } else { 9000 };
        let len = prop_oneof![4 => 1usize..40, 3 => 1usize..400, 1 => 1..long, 1 => prop::sample::select(vec![1usize, 2, 16, 17, 49, 64, 65, 193, 256, 257])];
        let val = prop_oneof![2 => 0.0f64..1.0, 1 => Just(0.0), 1 => Just(1.0)];
        (
            (prop::sample::select(vec![44100usize, 48000, 65536]), 1usize..4, prop::sample::select(vec![1usize, 5, 16, 64, 256])),
            prop_oneof![2 => Just(Impulse::Noise), 2 => Just(Impulse::Spikes), 2 => Just(Impulse::Patches), 1 => Just(Impulse::Decay)],
            len,
            prop_oneof![3 => 1usize..600, 1 => 1..long],
            prop::collection::vec(prop_oneof![1usize..8, 1usize..300], 1..5),
            prop_oneof![2 => Just(100u8), 1 => 0u8..100],
            prop::collection::vec((0u16..300, any::<bool>(), val), 0..5),
            (any::<u64>(), large()),
        )
            .prop_map(|((sr, ch, max_frames), impulse, len, frames, sizes, silence_after, sets, (seed, large))| Case {
                sr,
                ch: if large { ch * 5 } else { ch },
                max_frames: if large { max_frames.max(16) * 16 } else { max_frames },
                impulse,
                len,
                frames,
                sizes: if large { sizes.iter().map(|s| s * 16).collect() } else { sizes },
                silence_after,
                sets,
                seed,
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        // Bound the work: one-frame engine blocks with a long impulse cost a transform per frame.
        let frames = if k.max_frames < 16 || k.sizes.iter().all(|s| *s < 16) { k.frames.min(2_000_000 / (k.len + 64)).max(1) } else { k.frames };
        let mut r = Prng::new(k.seed);
        let h: Planar = (0..k.ch)
            .map(|_| {
                let mut v = vec![0.0f32; k.len];
                match k.impulse {
                    Impulse::Noise => v.iter_mut().for_each(|x| *x = r.sym() as f32),
                    Impulse::Decay => v.iter_mut().enumerate().for_each(|(i, x)| *x = (r.sym() * (-6.0 * i as f64 / k.len as f64).exp()) as f32),
                    Impulse::Patches => {
                        let (a, b) = (r.below(k.len + 1), r.below(k.len + 1));
                        v[a.min(b)..a.max(b)].iter_mut().for_each(|x| *x = r.sym() as f32);
                    }
                    Impulse::Spikes => {
                        for _ in 0..1 + r.below(3) {
                            let i = r.below(k.len);
                            v[i] = 0.25 + r.unit() as f32;
                        }
                        v[k.len - 1] = -0.75;
                    }
                }
                v
            })
            .collect();
        let mut x = noise_planar(k.seed ^ 5, k.ch, frames);
        let quiet = frames * k.silence_after as usize / 100;
        for c in &mut x {
            c[quiet.min(frames)..].fill(0.0);
        }
        let mut eng = engine(k.sr, k.ch, k.max_frames);
        let mut n = Convolution::new(eng.ctx.as_ref(), k.ch, from_planar(&h, k.len, k.sr));
        n.node.connect_to_input();
        n.node.connect_to_output();
        eng.ctx.start();
        let mut plan = vec![];
        let mut at = 0usize;
        for (gap, wet, v) in &k.sets {
            at += *gap as usize;
            let t = moment((at as f64 - 0.5).max(0.0), k.sr);
            if *wet {
                n.wet().set_value_at_time(*v, t);
            } else {
                n.dry().set_value_at_time(*v, t);
            }
            plan.push((at, *wet, *v));
        }
        let blocks = partition(frames, &k.sizes);
        let out = eng.render(&x, k.ch, k.ch, &blocks);
        for c in 0..k.ch {
            let mag: f64 = h[c].iter().map(|v| (*v as f64).powi(2)).sum::<f64>().sqrt();
            let (mut wet, mut dry) = (1.0, 0.0);
            let mut next = 0;
            for f in 0..frames {
                while next < plan.len() && plan[next].0 <= f {
                    if plan[next].1 {
                        wet = plan[next].2;
                    } else {
                        dry = plan[next].2;
                    }
                    next += 1;
                }
                let m = k.len.min(f + 1);
                let y: f64 = (0..m).map(|i| h[c][i] as f64 * x[c][f - i] as f64).sum();
                let want = y * wet + x[c][f] as f64 * dry;
                let got = out[c][f] as f64;
                // Noise of a single-precision transform, relative to the energies involved.
                let tol = wet * 2e-6 * mag.max(0.1) * ((k.len + k.max_frames) as f64).sqrt() + 1e-6;
                if !((got - want).abs() <= tol) {
                    return Err(format!("channel {c} frame {f}: {got}, direct convolution gives {want} (tolerance {tol:e}, wet {wet}, dry {dry})"));
                }
            }
        }
        let mut o = Outcome::new((blocks.len() > 1 || frames > k.max_frames) && frames > k.len);
        o.label(k.len > k.max_frames, "impulse longer than an engine block");
        o.label(k.len > 1000, "long impulse");
        o.label(!plan.is_empty(), "wet/dry changed");
        o.label(quiet < frames, "tail after silence");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec!["as many input channels as impulse channels; equality up to single-precision transform noise".into()]
    }
}
