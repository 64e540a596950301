//! The oscillator against a cyclic table reader in double precision.

use crate::auto::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wave {
    Table { len: usize, seed: u64 },
    Sine,
    Harmonics { gains: Vec<f64> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub max_frames: usize,
    pub frames: usize,
    pub sizes: Vec<usize>,
    pub channels: usize,
    pub wave: Wave,
    pub frequency: f64,
    pub freq_steps: Vec<Step>,
    pub gain_steps: Vec<Step>,
    /// Restart the sum of the clock: stop and start again before this call.
    pub pause: Option<u8>,
}

pub struct P;

pub fn table(w: &Wave) -> Vec<f64> {
    let sine = |n: usize, h: usize, i: usize| (std::f64::consts::TAU * ((h * i) % n) as f64 / n as f64).sin();
    match w {
        Wave::Table { len, seed } => {
            let mut r = Prng::new(*seed);
            (0..*len).map(|_| r.sym()).collect()
        }
        // The shape itself is what is specified; any table size gives it within rounding.
        Wave::Sine => (0..8192).map(|i| sine(8192, 1, i)).collect(),
        Wave::Harmonics { gains } => {
            (0..8192).map(|i| gains.iter().enumerate().map(|(h, g)| g * sine(8192, h + 1, i)).sum()).collect()
        }
    }
}

fn frequency() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => 20.0f64..20000.0,
        2 => 20.0f64..1000.0,
        2 => prop::sample::select(vec![20.0f64, 100.0, 440.0, 1000.0, 3000.0, 6000.0, 7350.0, 8000.0, 12000.0, 11025.0, 16000.0, 20000.0]),
        1 => (1u32..200).prop_map(|k| (48000.0 / k as f64).clamp(20.0, 20000.0)),
    ]
    .boxed()
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "tables of 3 to 4096 points, sine and harmonic sets, frequencies 20 to 20000 Hz (also exact fractions of the sample rate) with frequency and gain automation; non-trivial: the phase wraps at least once";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 32_000 } else { 600_000 }
    }

    fn assumptions() -> Vec<String> {
        vec!["the oscillator's initial frequency lies in its documented range".into()]
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let wave = prop_oneof![
            6 => (prop_oneof![3usize..12, 3usize..4096, prop::sample::select(vec![4usize, 16, 100, 1024])], any::<u64>()).prop_map(|(len, seed)| Wave::Table { len, seed }),
            1 => Just(Wave::Sine),
            1 => prop::collection::vec(0.0f64..1.0, 0..12).prop_map(|gains| Wave::Harmonics { gains }),
        ];
        let fsteps = prop::collection::vec((step(), frequency()).prop_map(|(mut s, f)| {
            s.value = f;
            s
        }), 0..5);
        // Muted now and then, so that the phase has to go on unheard.
        let gsteps = prop::collection::vec((step(), prop::bool::weighted(0.3)).prop_map(|(mut s, mute)| {
            if mute {
                s.value = 0.0;
            }
            s
        }), 0..5).prop_map(|mut steps| {
            // No curve of constant ratio starts or ends at zero.
            if steps.iter().any(|s| s.value == 0.0) {
                steps.iter_mut().filter(|s| s.kind == Kind::Exp).for_each(|s| s.kind = Kind::Lin);
            }
            steps
        });
        (
            (super::c11::rates(), super::c11::max_frames(), 1usize..1500, super::c11::block_sizes(), 1usize..4),
            (wave, frequency(), fsteps, gsteps, prop::option::weighted(0.2, 0u8..10), large()),
        )
            .prop_map(|((sr, max_frames, frames, sizes, channels), (wave, frequency, freq_steps, gain_steps, pause, large))| Case {
                sr,
                max_frames: if large { max_frames * 16 } else { max_frames },
                frames: if large { frames * 8 } else { frames },
                sizes: if large { sizes.iter().map(|s| s * 24).collect() } else { sizes },
                channels: if large { channels * 5 } else { channels },
                wave, frequency, freq_steps, gain_steps, pause,
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let blocks = partition(k.frames, &k.sizes);
        let starts = call_starts(&blocks);
        let pow2 = k.sr.is_power_of_two();
        let fplan = lay_out(&k.freq_steps, &starts, pow2, false);
        let gplan = lay_out(&k.gain_steps, &starts, pow2, false);
        let tab = table(&k.wave);
        let mut eng = engine(k.sr, k.channels, k.max_frames);
        let ctx = eng.ctx.as_ref();
        let mut osc = match &k.wave {
            Wave::Table { .. } => Oscillator::new(ctx, k.frequency, k.channels, tab.clone()),
            Wave::Sine => Oscillator::sine(ctx, k.frequency, k.channels),
            Wave::Harmonics { gains } => {
                let l: Vec<Level> = gains.iter().map(|&g| Level::from_linear(g)).collect();
                Oscillator::with_harmonics(ctx, k.frequency, k.channels, &l)
            }
        };
        osc.node.connect_to_output();
        eng.ctx.start();
        let (mut fm, mut gm) = (Model::new(k.frequency), Model::new(1.0));
        let mut out: Planar = vec![vec![]; k.channels];
        let n = tab.len();
        let steep = (0..n).map(|i| (tab[i] - tab[(i + 1) % n]).abs()).fold(0.0, f64::max) * n as f64;
        let amp = tab.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        let (mut phase, mut wraps, mut slack) = (0.0f64, 0u64, 5e-7 * 2e4 / k.sr as f64 * f64::from(!fplan.is_empty()) + 1e-13);
        for (b, &frames) in blocks.iter().enumerate() {
            for s in fplan.iter().filter(|s| s.call == b) {
                s.change.apply(osc.frequency(), k.sr);
                fm.submit(s.change);
            }
            for s in gplan.iter().filter(|s| s.call == b) {
                s.change.apply(osc.gain(), k.sr);
                gm.submit(s.change);
            }
            if k.pause == Some(b as u8) {
                eng.ctx.stop();
                let mut o = vec![vec![]; k.channels];
                let pos = eng.pos;
                eng.block(&[], 0, &mut o, 5);
                eng.pos = pos;
                eng.ctx.start();
            }
            eng.block(&[], 0, &mut out, frames);
            for f in starts[b]..starts[b + 1] {
                let (freq, ftol) = fm.at_tol(f as f64, if pow2 { 0.0 } else { 1e-4 });
                let timing = (ftol - 4e-6 * freq.max(1.0)).max(0.0);
                let (gain, gtol) = gm.at_tol(f as f64, 1e-4);
                // The frequency reaches the oscillator in single precision.
                phase += (freq as f32) as f64 / k.sr as f64;
                slack += 1e-15 + if fm.ramping(f as f64) { (timing + freq * 1e-10) / k.sr as f64 } else { 0.0 };
                wraps += phase as u64;
                phase -= phase.floor();
                let x = phase * n as f64;
                let (i, w) = (x.floor() as usize % n, x - x.floor());
                let v = (1.0 - w) * tab[i] + w * tab[(i + 1) % n];
                let want = v * gain;
                let tol = (steep * slack + 2e-6 * amp.max(v.abs())) * gain.abs() + gtol * v.abs() + 1e-9;
                for c in 0..k.channels {
                    let got = out[c][f] as f64;
                    if !((got - want).abs() <= tol) {
                        return Err(format!("channel {c} frame {f}: {got}, the table at phase {phase} ({freq} Hz, gain {gain}) gives {want} (tolerance {tol:e})"));
                    }
                    if out[c][f] != out[0][f] {
                        return Err(format!("channel {c} differs from channel 0 at frame {f}"));
                    }
                }
            }
        }
        let mut o = Outcome::new(wraps > 0);
        o.label(!fplan.is_empty(), "frequency automation");
        o.label(slack * steep > 0.01, "loose tolerance");
        o.label(k.gain_steps.iter().any(|s| s.value == 0.0), "muted");
        o.label(k.pause.is_some_and(|p| (p as usize) < blocks.len()), "paused");
        Ok(o)
    }
}
