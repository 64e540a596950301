//! The waveshaper against its shaping function, allowing only what linear interpolation in a table can cost.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Shape {
    Tanh,
    Soft(f64),
    Hard(f64),
    Linear(f32, f32),
    Cubic(f32),
    Square,
    Sine(f32),
    Abs,
    Step(f32),
}

fn f(s: Shape, x: f64) -> f64 {
    match s {
        Shape::Tanh => 2.0 * (x / 2.0).tanh(),
        Shape::Soft(t) => {
            if x <= t {
                x
            } else {
                t + (x - t) / (1.0 + ((x - t) / (1.0 - t)).powi(2))
            }
        }
        Shape::Hard(t) => x.max(-t).min(t),
        Shape::Linear(a, b) => a as f64 * x + b as f64,
        Shape::Cubic(a) => a as f64 * x * x * x - x,
        Shape::Square => x * x,
        Shape::Sine(k) => (k as f64 * x).sin(),
        Shape::Abs => x.abs(),
        Shape::Step(t) => if x < t as f64 { -0.5 } else { 0.5 },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub ch: usize,
    pub max_frames: usize,
    pub shape: Shape,
    pub amp: f32,
    pub frames: usize,
    pub sizes: Vec<usize>,
    /// Special samples placed at seeded places.
    pub special: Vec<f32>,
    /// Frame gap, overdrive (else mix), value.
    pub sets: Vec<(u16, bool, f64)>,
    pub seed: u64,
}

pub struct P;

/// Distance between neighbouring table entries.
const H: f64 = 2.0 / 510.0;

/// What interpolating linearly between entries can be off by around `x`.
fn slack(s: Shape, x: f64) -> f64 {
    if let Shape::Step(t) = s {
        // An entry just past the step, and as much of it as the distance leaves.
        let d = (x - t as f64).abs() / H;
        return if d < 1.001 { 1.2 * (1.0 - d).max(0.0) + 0.05 } else { 0.0 };
    }
    let mut m = 0.0f64;
    for i in 0..=64 {
        let a = (x - H + i as f64 * H / 64.0).clamp(-1.0, 1.0 - H);
        let (p, q) = (f(s, a), f(s, a + H));
        m = m.max((f(s, x) - (p + (q - p) * (x - a) / H)).abs());
    }
    1.2 * m
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "built-in and custom shapes, inputs to beyond full scale, overdrive and mix changed during play; non-trivial: some frame is wet and nonzero";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 50_000 } else { 600_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let unit = prop_oneof![3 => 0.0f64..1.0, 1 => Just(0.0), 1 => Just(1.0), 1 => Just(0.5)];
        let shape = prop_oneof![
            2 => Just(Shape::Tanh),
            3 => unit.clone().prop_map(Shape::Soft),
            2 => prop_oneof![3 => 0.0f64..1.2, 1 => Just(0.0), 1 => Just(1.0), 1 => Just(0.5)].prop_map(Shape::Hard),
            2 => (-2.0f32..2.0, -1.0f32..1.0).prop_map(|(a, b)| Shape::Linear(a, b)),
            1 => (-3.0f32..3.0).prop_map(Shape::Cubic),
            1 => Just(Shape::Square),
            1 => (0.5f32..20.0).prop_map(Shape::Sine),
            1 => Just(Shape::Abs),
            1 => (-1.0f32..1.0).prop_map(Shape::Step),
        ];
        let special = prop::sample::select(vec![1.0f32, -1.0, 0.0, 0.5, -0.5, 1.0001, -1.0001, 0.9999, -0.9999, 4.0, -4.0, 1e30, -1e30, 1e-20]);
        (
            (prop::sample::select(vec![44100usize, 48000, 96000]), 1usize..4, prop::sample::select(vec![1usize, 16, 64, 100])),
            shape,
            prop::sample::select(vec![0.1f32, 0.5, 1.0, 1.0, 3.0]),
            1usize..300,
            prop::collection::vec(prop_oneof![1usize..8, 1usize..150], 1..4),
            prop::collection::vec(special, 0..12),
            prop::collection::vec((0u16..120, any::<bool>(), unit), 0..5),
            (any::<u64>(), large()),
        )
            .prop_map(|((sr, ch, max_frames), shape, amp, frames, sizes, special, sets, (seed, large))| Case {
                sr,
                ch: if large { ch * 5 } else { ch },
                max_frames: if large { max_frames * 40 } else { max_frames },
                shape,
                amp,
                frames: if large { frames * 30 } else { frames },
                sizes: if large { sizes.iter().map(|s| s * 32).collect() } else { sizes },
                special,
                sets,
                seed,
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let mut eng = engine(k.sr, k.ch, k.max_frames);
        let ctx = eng.ctx.as_ref();
        let mut n = match k.shape {
            Shape::Tanh => Waveshaper::tanh(ctx, k.ch),
            Shape::Soft(t) => Waveshaper::soft_saturator(ctx, k.ch, Level::from_linear(t)),
            Shape::Hard(t) => Waveshaper::hard_clip(ctx, k.ch, Level::from_linear(t)),
            s => Waveshaper::new(ctx, k.ch, &move |x| f(s, x as f64) as f32),
        };
        n.node.connect_to_input();
        n.node.connect_to_output();
        eng.live();
        let mut at = 0;
        let mut plan = vec![];
        for (gap, od, v) in &k.sets {
            at += *gap as usize;
            let t = moment((at as f64 - 0.5).max(0.0), k.sr);
            if *od {
                n.overdrive().set_value_at_time(*v, t);
            } else {
                n.mix().set_value_at_time(*v, t);
            }
            plan.push((at, *od, *v));
        }
        let mut x = noise_planar(k.seed, k.ch, k.frames);
        let mut r = Prng::new(k.seed ^ 3);
        x.iter_mut().for_each(|c| c.iter_mut().for_each(|v| *v *= k.amp));
        for s in &k.special {
            let c = r.below(k.ch);
            x[c][r.below(k.frames)] = *s;
        }
        let out = eng.render(&x, k.ch, k.ch, &partition(k.frames, &k.sizes));
        let mut o = Outcome::default();
        for c in 0..k.ch {
            let (mut od, mut mix) = (0.0, 1.0);
            let mut next = 0;
            for fr in 0..k.frames {
                while next < plan.len() && plan[next].0 <= fr {
                    if plan[next].1 {
                        od = plan[next].2;
                    } else {
                        mix = plan[next].2;
                    }
                    next += 1;
                }
                let v = x[c][fr] as f64;
                let g = 10f64.powf(12.0 * od / 20.0);
                let d = (v * g).clamp(-1.0, 1.0);
                let want = f(k.shape, d) / g * mix + v * (1.0 - mix);
                let got = out[c][fr] as f64;
                let steep = match k.shape {
                    Shape::Step(_) => 1.0,
                    Shape::Sine(q) => q as f64,
                    _ => 3.0,
                };
                let tol = (slack(k.shape, d) + 1e-6 * steep + 3e-6) / g * mix + 3e-7 * v.abs();
                if !((got - want).abs() <= tol) {
                    return Err(format!(
                        "channel {c} frame {fr}: input {v} gives {got}, {:?} gives {want} (overdrive {od}, mix {mix}, tolerance {tol:e})",
                        k.shape
                    ));
                }
                o.nontrivial |= mix > 0.0 && want != 0.0;
            }
        }
        o.label(matches!(k.shape, Shape::Soft(_)), "soft saturator");
        o.label(k.amp > 1.0 || k.special.iter().any(|s| s.abs() > 1.0), "beyond full scale");
        o.label(!plan.is_empty(), "overdrive/mix changed");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec!["tolerance: what linear interpolation between entries of a 511-point table can cost at that input".into()]
    }
}
