//! The compressor against its static curve and an f64 envelope follower.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Settings {
    pub threshold: f64,
    pub ratio: f64,
    pub knee: f64,
    pub wet: f64,
    pub dry: f64,
    pub attack: f64,
    pub release: f64,
}

/// A level of the input, in dB relative to a landmark of the curve.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Lvl {
    /// Landmark (0 threshold, 1 lower knee border, 2 upper knee border), distance in dB.
    Near(u8, f64),
    Db(f64),
    Lin(f32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub ch: usize,
    pub max_frames: usize,
    pub sizes: Vec<usize>,
    /// Whether attack and release are zero, so that the envelope is the rectified input.
    pub instant: bool,
    /// Settings in force from each frame on.
    pub settings: Vec<(u16, Settings)>,
    /// Runs of a level: frames, level, and whether each channel has it at half.
    pub runs: Vec<(u16, Lvl)>,
    pub seed: u64,
    /// The first settings are those of a new compressor, left alone.
    #[serde(default)]
    pub fresh: bool,
}

pub struct P;

fn settings() -> BoxedStrategy<Settings> {
    (
        prop_oneof![2 => -60.0f64..12.0, 1 => -128.0f64..24.0, 2 => prop::sample::select(vec![0.0, -6.0, -12.0, -20.0, -128.0, 24.0])],
        prop_oneof![3 => 1.0f64..20.0, 1 => Just(1.0), 1 => Just(f64::MAX), 1 => 20.0f64..1e6],
        prop_oneof![2 => 0.0f64..24.0, 2 => Just(0.0), 1 => Just(24.0), 1 => 0.0f64..0.01],
        prop_oneof![2 => Just(1.0), 1 => 0.0f64..3.98, 1 => Just(0.0)],
        prop_oneof![2 => Just(0.0), 1 => 0.0f64..3.98, 1 => Just(1.0)],
        prop_oneof![2 => 0.01f64..50.0, 1 => Just(0.0), 1 => prop::sample::select(vec![1.0, 20.0])],
        prop_oneof![2 => 0.01f64..200.0, 1 => Just(0.0), 1 => prop::sample::select(vec![10.0, 100.0])],
    )
        .prop_map(|(threshold, ratio, knee, wet, dry, attack, release)| Settings { threshold, ratio, knee, wet, dry, attack, release })
        .boxed()
}

/// Gain in dB at a level in dB: textbook soft-knee curve.
fn curve(x: f64, t: f64, r: f64, w: f64) -> f64 {
    let y = if x <= t - w / 2.0 {
        x
    } else if x >= t + w / 2.0 {
        t + (x - t) / r
    } else {
        let e = x - t + w / 2.0;
        x + (1.0 / r - 1.0) * e * e / (2.0 * w)
    };
    y - x
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "levels at and around threshold and knee borders and elsewhere, settings changed during play; non-trivial: some frame is reduced by more than 0.1 dB";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 160_000 } else { 2_000_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let lvl = prop_oneof![
            3 => (0u8..3, prop_oneof![2 => Just(0.0), 1 => -0.01f64..0.01, 2 => -6.0f64..6.0]).prop_map(|(a, b)| Lvl::Near(a, b)),
            3 => (-140.0f64..40.0).prop_map(Lvl::Db),
            1 => prop::sample::select(vec![0.0f32, 1.0, 0.5, 0.1, 1e-12, 1e-38, 1e6, 1e30]).prop_map(Lvl::Lin),
        ];
        (
            prop::sample::select(vec![8000usize, 44100, 48000, 96000]),
            1usize..4,
            prop::sample::select(vec![16usize, 64]),
            prop::collection::vec(1usize..150, 1..4),
            prop::bool::weighted(0.6),
            prop::collection::vec((prop_oneof![2 => Just(0u16), 1 => 0u16..200], settings()), 1..4),
            prop::collection::vec((1u16..80, lvl), 1..12),
            (any::<u64>(), prop::bool::weighted(0.2), large()),
        )
            .prop_map(|(sr, ch, max_frames, sizes, instant, settings, runs, (seed, fresh, large))| Case {
                sr,
                ch: if large { ch * 5 } else { ch },
                max_frames: if large { max_frames * 16 } else { max_frames },
                sizes: if large { sizes.iter().map(|s| s * 24).collect() } else { sizes },
                instant: instant && !fresh,
                settings,
                runs: if large { runs.into_iter().map(|(n, l)| (n * 8, l)).collect() } else { runs },
                seed,
                fresh,
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let mut eng = engine(k.sr, k.ch, k.max_frames);
        let mut n = Compressor::new(eng.ctx.as_ref(), k.ch);
        n.node.connect_to_input();
        n.node.connect_to_output();
        eng.live();
        let mut at = 0usize;
        let mut plan = vec![];
        for (gap, s) in &k.settings {
            at = if plan.is_empty() { 0 } else { at + *gap as usize };
            let mut s = s.clone();
            if k.instant {
                s.attack = 0.0;
                s.release = 0.0;
            }
            if k.fresh && plan.is_empty() {
                plan.push((at, Settings { threshold: 0.0, ratio: 3.0, knee: 0.0, wet: 1.0, dry: 0.0, attack: 1.0, release: 10.0 }));
                continue;
            }
            let t = moment((at as f64 - 0.5).max(0.0), k.sr);
            n.threshold().set_value_at_time(s.threshold, t);
            n.ratio().set_value_at_time(s.ratio, t);
            n.knee().set_value_at_time(s.knee, t);
            n.wet().set_value_at_time(s.wet, t);
            n.dry().set_value_at_time(s.dry, t);
            n.attack().set_value_at_time(s.attack, t);
            n.release().set_value_at_time(s.release, t);
            plan.push((at, s));
        }
        // Input: each run at one level with random signs; other channels at a random share of it.
        let s0 = &plan[0].1;
        let mut r = Prng::new(k.seed);
        let mut data: Planar = vec![vec![]; k.ch];
        let mut stays_equal = true;
        for (len, l) in &k.runs {
            let lin = match l {
                Lvl::Lin(x) => *x as f64,
                Lvl::Db(d) => 10f64.powf(d / 20.0),
                Lvl::Near(m, d) => {
                    let base = s0.threshold + [0.0, -0.5, 0.5][*m as usize % 3] * s0.knee;
                    10f64.powf((base + d) / 20.0)
                }
            };
            let shares: Vec<f64> = (0..k.ch).map(|c| if c == 0 || r.below(2) == 0 { 1.0 } else { r.unit() }).collect();
            stays_equal &= shares.iter().all(|s| *s == 1.0);
            for _ in 0..*len {
                for c in 0..k.ch {
                    data[c].push((lin * shares[c] * if r.below(2) == 0 { 1.0 } else { -1.0 }) as f32);
                }
            }
        }
        let frames = data[0].len();
        let out = eng.render(&data, k.ch, k.ch, &partition(frames, &k.sizes));
        let mut o = Outcome::default();
        let mut env = vec![0.0f64; k.ch];
        // How far times rounded to a nanosecond may shift it.
        let mut off = vec![0.0f64; k.ch];
        let mut cur = 0;
        for f in 0..frames {
            while cur + 1 < plan.len() && plan[cur + 1].0 <= f {
                cur += 1;
            }
            let s = &plan[cur].1;
            let coef = |ms: f64| if ms <= 0.0 { 0.0 } else { (-1.0 / (k.sr as f64 * ms / 1000.0)).exp() };
            for c in 0..k.ch {
                let x = data[c][f].abs() as f64;
                let ms = if env[c] < x { s.attack } else { s.release };
                let a = coef(ms);
                let da = if ms <= 0.0 { 0.0 } else { a / (k.sr as f64 * ms / 1000.0) * 1e-6 / ms };
                off[c] = a * off[c] + da * (env[c] - x).abs();
                env[c] = a * env[c] + (1.0 - a) * x;
            }
            let level = env.iter().sum::<f64>() / k.ch as f64;
            let shift = if level > 0.0 { off.iter().sum::<f64>() / k.ch as f64 / level } else { 0.0 };
            let db = if level <= 0.0 { -128.0 } else { (20.0 * level.log10()).max(-128.0) };
            let g = curve(db, s.threshold as f32 as f64, s.ratio, s.knee as f32 as f64);
            let gain = if g <= -128.0 { 0.0 } else { 10f64.powf(g / 20.0) };
            // How far single-precision arithmetic may shift the envelope, relative.
            let slack = if k.instant { 0.0 } else { 1.2e-7 * k.sr as f64 * plan.iter().map(|p| p.1.attack.max(p.1.release)).fold(0.0, f64::max) / 1000.0 };
            for c in 0..k.ch {
                let x = data[c][f] as f64;
                let want = x * gain * s.wet + x * s.dry;
                let got = out[c][f] as f64;
                if !got.is_finite() {
                    return Err(format!("channel {c} frame {f}: {got} at level {db:.3} dB with {s:?}"));
                }
                // Near the silence floor single precision cannot hold the envelope.
                let tol = x.abs() * (s.wet * gain * (3e-5 + 3.0 * slack + 1.5 * shift) + s.wet * 4e-7 + s.dry * 1e-6) + 1e-37;
                let vague = !k.instant && level < 1e-30;
                if !vague && (got - want).abs() > tol {
                    return Err(format!(
                        "channel {c} frame {f}: {got}, expected {want} (level {db:.5} dB, gain {g:.5} dB, tolerance {tol:e}) with {s:?}"
                    ));
                }
            }
            o.nontrivial |= g < -0.1;
        }
        o.label(stays_equal, "all channels alike");
        o.label(k.fresh, "as made");
        o.label(k.instant, "instant envelope");
        o.label(plan.iter().any(|p| p.1.knee == 0.0), "hard knee");
        o.label(k.runs.iter().any(|r| matches!(r.1, Lvl::Near(_, d) if d == 0.0)), "exactly on a landmark");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "the detector averages the channels' one-pole envelopes, its time constants being the attack and release times".into(),
            "attack up to 50 ms, release up to 200 ms where the envelope is compared; single precision of the follower is allowed for".into(),
        ]
    }
}
