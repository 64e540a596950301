//! Biquad filters against the audio-EQ cookbook difference equations evaluated in f64.

use crate::anynode::biquad_type;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Set {
    /// Frames since the previous change.
    pub gap: u16,
    /// 0 frequency, 1 q, 2 shelf gain, 3 gain.
    pub what: u8,
    /// Position in a logarithmic range.
    pub pos: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Signal {
    Noise,
    Impulse,
    Step,
    Sine(f64),
    /// Noise that stops.
    Burst,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: usize,
    pub sr: usize,
    pub ch: usize,
    pub max_frames: usize,
    pub frames: usize,
    pub sizes: Vec<usize>,
    pub signal: Signal,
    /// Amplitude 2^exp per channel.
    pub exps: Vec<i8>,
    pub seed: u64,
    pub sets: Vec<Set>,
}

pub struct P;

fn log_range(pos: f64, lo: f64, hi: f64) -> f64 {
    lo * (hi / lo).powf(pos)
}

fn value(what: u8, pos: f64, sr: usize) -> f64 {
    if pos < 0.0 {
        return 0.0;
    }
    match what % 4 {
        0 => log_range(pos, 20.0, (0.49 * sr as f64).min(20_000.0)),
        1 => log_range(pos, 0.1, 10.0),
        2 => log_range(pos, 0.01, 100.0),
        _ => log_range(pos, 0.01, 100.0),
    }
}

/// Cookbook coefficients b0 b1 b2 a1 a2.
fn cookbook(kind: usize, sr: f64, f: f64, q: f64, shelf: f64) -> [f64; 5] {
    let w = 2.0 * std::f64::consts::PI * f / sr;
    let (s, c) = w.sin_cos();
    let alpha = s / (2.0 * q);
    let a = shelf.sqrt();
    let k = 2.0 * a.sqrt() * (s / 2.0 * 2f64.sqrt());
    let (b, d) = match kind {
        0 => ([(1.0 - c) / 2.0, 1.0 - c, (1.0 - c) / 2.0], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        1 => ([(1.0 + c) / 2.0, -(1.0 + c), (1.0 + c) / 2.0], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        2 => ([alpha, 0.0, -alpha], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        3 => ([1.0, -2.0 * c, 1.0], [1.0 + alpha, -2.0 * c, 1.0 - alpha]),
        4 => (
            [a * ((a + 1.0) - (a - 1.0) * c + k), 2.0 * a * ((a - 1.0) - (a + 1.0) * c), a * ((a + 1.0) - (a - 1.0) * c - k)],
            [(a + 1.0) + (a - 1.0) * c + k, -2.0 * ((a - 1.0) + (a + 1.0) * c), (a + 1.0) + (a - 1.0) * c - k],
        ),
        _ => (
            [a * ((a + 1.0) + (a - 1.0) * c + k), -2.0 * a * ((a - 1.0) + (a + 1.0) * c), a * ((a + 1.0) + (a - 1.0) * c - k)],
            [(a + 1.0) - (a - 1.0) * c + k, 2.0 * ((a - 1.0) - (a + 1.0) * c), (a + 1.0) - (a - 1.0) * c - k],
        ),
    };
    [b[0] / d[0], b[1] / d[0], b[2] / d[0], d[1] / d[0], d[2] / d[0]]
}

fn signal(k: &Case, c: usize) -> Vec<f32> {
    let amp = 2f64.powi(k.exps[c % k.exps.len()] as i32);
    let mut r = Prng::new(k.seed + c as u64 * 31);
    (0..k.frames)
        .map(|i| {
            (amp * match &k.signal {
                Signal::Noise => r.sym(),
                Signal::Impulse => (i == (k.seed % 7) as usize) as u8 as f64,
                Signal::Step => 1.0,
                Signal::Sine(p) => (i as f64 * p).sin(),
                Signal::Burst => if i < k.frames / 4 { r.sym() } else { 0.0 },
            }) as f32
        })
        .collect()
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "all filter types, settings changed during play, signals of amplitude 2^-60..2^6; non-trivial: reference output not all zero over at least 8 frames";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 80_000 } else { 1_500_000 }
    }

    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let gap = prop_oneof![2 => Just(0u16), 1 => 0u16..300, 1 => 0u16..3];
        let pos = prop_oneof![4 => 0.0f64..1.0, 1 => Just(0.0), 1 => Just(1.0)];
        // Position below zero: the gain is zero.
        let pos = prop_oneof![15 => pos, 1 => Just(-1.0)];
        let set = (gap, 0u8..4, pos).prop_map(|(gap, what, pos)| if pos < 0.0 { Set { gap, what: 3, pos } } else { Set { gap, what, pos } });
        let signal = prop_oneof![
            3 => Just(Signal::Noise),
            2 => Just(Signal::Impulse),
            2 => Just(Signal::Step),
            1 => (0.0001f64..3.0).prop_map(Signal::Sine),
            1 => Just(Signal::Burst),
        ];
        let long = if t == Tier::Quick { 4000usize } else { 20_000 };
        (
            (0usize..6, prop::sample::select(vec![8000usize, 44100, 48000, 65536, 96000, 192000]), 1usize..4, prop::sample::select(vec![16usize, 64, 512])),
            prop_oneof![3 => 8usize..600, 1 => 8..long],
            prop::collection::vec(prop_oneof![1usize..20, 1usize..300], 1..4),
            signal,
            prop::collection::vec(prop_oneof![2 => -12i8..6, 1 => -60i8..-12], 1..4),
            any::<u64>(),
            (prop::collection::vec(set, 0..8), large()),
        )
            .prop_map(|((kind, sr, ch, max_frames), frames, sizes, signal, exps, seed, (sets, large))| Case {
                kind,
                sr,
                ch: if large { ch * 5 } else { ch },
                max_frames: if large { max_frames * 16 } else { max_frames },
                frames: if large { frames * 4 } else { frames },
                sizes: if large { sizes.iter().map(|s| s * 24).collect() } else { sizes },
                signal,
                exps,
                seed,
                sets,
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let mut eng = engine(k.sr, k.ch, k.max_frames);
        let mut n = Biquad::new(eng.ctx.as_ref(), k.ch, biquad_type(k.kind));
        n.node.connect_to_input();
        n.node.connect_to_output();
        eng.live();
        let mut at = 0usize;
        let mut plan: Vec<(usize, usize, f64)> = vec![];
        for s in &k.sets {
            at += s.gap as usize;
            let v = value(s.what, s.pos, k.sr);
            let t = moment((at as f64 - 0.5).max(0.0), k.sr);
            match s.what % 4 {
                0 => n.frequency().set_value_at_time(v, t),
                1 => n.q().set_value_at_time(v, t),
                2 => n.shelf_gain().set_value_at_time(v, t),
                _ => n.gain().set_value_at_time(v, t),
            }
            plan.push((at, (s.what % 4) as usize, v));
        }
        let data: Planar = (0..k.ch).map(|c| signal(k, c)).collect();
        let out = eng.render(&data, k.ch, k.ch, &partition(k.frames, &k.sizes));
        let mut o = Outcome::default();
        for c in 0..k.ch {
            let mut p = [1000f64, 1.0 / 2f64.sqrt(), 1.0, 1.0];
            let mut w = cookbook(k.kind, k.sr as f64, p[0] as f32 as f64, p[1] as f32 as f64, 1.0);
            let (mut x1, mut x2, mut y1, mut y2) = (0f64, 0f64, 0f64, 0f64);
            let mut peak = 0f64;
            let mut next = 0;
            let mut heard = 0;
            for f in 0..k.frames {
                let mut dirty = false;
                while next < plan.len() && plan[next].0 <= f {
                    p[plan[next].1] = plan[next].2;
                    dirty = true;
                    next += 1;
                }
                if dirty {
                    w = cookbook(k.kind, k.sr as f64, p[0] as f32 as f64, p[1] as f32 as f64, p[2] as f32 as f64);
                }
                let x = data[c][f] as f64;
                let y = w[0] * x + w[1] * x1 + w[2] * x2 - w[3] * y1 - w[4] * y2;
                x2 = x1;
                x1 = x;
                y2 = y1;
                y1 = y;
                peak = peak.max(y.abs());
                let want = y * p[3];
                let got = out[c][f] as f64;
                // f32 output, and rounding noise of the recursion relative to the loudest output and input.
                let tol = 3e-7 * want.abs() + 2e-8 * (peak + x.abs()) * p[3];
                if !((got - want).abs() <= tol) {
                    return Err(format!(
                        "type {} channel {c} frame {f}: {got:e}, the cookbook equation gives {want:e} (frequency {} q {} shelf {} gain {} at {} Hz)",
                        k.kind, p[0], p[1], p[2], p[3], k.sr
                    ));
                }
                heard += (want != 0.0) as usize;
            }
            o.nontrivial |= heard >= 8;
        }
        o.label(!k.sets.is_empty() && plan.iter().any(|p| p.0 > 0), "setting changed while playing");
        o.label(k.exps.iter().any(|e| *e < -20), "very quiet signal");
        o.label(k.frames > 2000, "long");
        o.label(k.sets.iter().any(|s| s.pos < 0.0), "muted for a while");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "frequency below 0.49 of the sample rate, shelf gain between -40 and 40 dB".into(),
            "shelves have slope 1; band pass has 0 dB peak gain".into(),
        ]
    }
}
