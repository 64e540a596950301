//! Any kind of node behind one interface, built from a generated description.

use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Gain,
    Pan,
    Mixer,
    Osc,
    Biquad,
    Comp,
    Conv,
    Shaper,
    Adsr,
    Meter,
    Rec,
    Sampler,
}

pub const ALL: [Kind; 12] = [
    Kind::Gain,
    Kind::Pan,
    Kind::Mixer,
    Kind::Osc,
    Kind::Biquad,
    Kind::Comp,
    Kind::Conv,
    Kind::Shaper,
    Kind::Adsr,
    Kind::Meter,
    Kind::Rec,
    Kind::Sampler,
];

/// Description of a node; `seed` decides its tables, samples, shapes and settings.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    pub kind: Kind,
    pub ch: usize,
    pub seed: u64,
    /// Other audio data of the same shape.
    #[serde(default)]
    pub data: u64,
    /// The same audio data but for one value: the last (1) or one in the middle (2).
    #[serde(default)]
    pub nudge: u8,
}

pub fn spec(kinds: &'static [Kind], max_ch: usize) -> BoxedStrategy<Spec> {
    (prop::sample::select(kinds), prop_oneof![60 => 1..=max_ch, 1 => max_ch + 1..=8], 0u64..1_000_000).prop_map(|(kind, ch, seed)| Spec { kind, ch, seed, data: 0, nudge: 0 }).boxed()
}

pub enum Any {
    Gain(Gain),
    Pan(Pan),
    Mixer(Mixer),
    Osc(Oscillator),
    Biquad(Biquad),
    Comp(Compressor),
    Conv(Convolution),
    Shaper(Waveshaper),
    Adsr(Adsr),
    Meter(Rc<RefCell<Envelope>>),
    Rec(Rc<RefCell<Recorder>>),
    Sampler(Sampler),
}

pub fn biquad_type(i: usize) -> BiquadFilterType {
    [
        BiquadFilterType::LowPass,
        BiquadFilterType::HighPass,
        BiquadFilterType::BandPass,
        BiquadFilterType::Notch,
        BiquadFilterType::LowShelf,
        BiquadFilterType::HighShelf,
    ][i % 6]
}

/// (name, minimum, maximum) of a node kind's parameters; infinite bounds mean unbounded.
pub fn parameters(kind: Kind) -> &'static [(&'static str, f64, f64)] {
    const INF: f64 = f64::INFINITY;
    match kind {
        Kind::Gain => &[("gain", -INF, INF)],
        Kind::Pan => &[("pan", -1.0, 1.0)],
        Kind::Osc => &[("frequency", 20.0, 20_000.0), ("gain", -INF, INF)],
        Kind::Biquad => &[("frequency", 20.0, 20_000.0), ("q", 0.1, 10.0), ("shelf-gain", 0.0, 100_000.0), ("gain", 0.0, 100_000.0)],
        Kind::Comp => &[
            ("attack", 0.0, 1_000.0),
            ("release", 0.0, 10_000.0),
            ("ratio", 1.0, f64::MAX),
            ("threshold", -128.0, 24.0),
            ("knee", 0.0, 24.0),
            ("wet", 0.0, 3.981071705534973),
            ("dry", 0.0, 3.981071705534973),
        ],
        Kind::Conv => &[("wet", 0.0, 1.0), ("dry", 0.0, 1.0)],
        Kind::Shaper => &[("overdrive", 0.0, 1.0), ("mix", 0.0, 1.0)],
        Kind::Mixer | Kind::Adsr | Kind::Meter | Kind::Rec | Kind::Sampler => &[],
    }
}

impl Any {
    pub fn new(s: &Spec, ctx: &mut dyn Context) -> Any {
        let mut r = Prng::new(s.seed);
        let mut other = Prng::new(s.seed ^ s.data << 32);
        let sr = ctx.get_sample_rate();
        // The value that is another one.
        let other_at = |n: usize| match s.nudge {
            0 => n,
            1 => n - 1,
            _ => n / 2,
        };
        match s.kind {
            Kind::Gain => Any::Gain(Gain::new(ctx, s.ch)),
            Kind::Pan => Any::Pan(Pan::new(ctx, 2)),
            Kind::Mixer => {
                let mut m = Mixer::new(ctx, s.ch, s.ch);
                for i in 0..s.ch {
                    for o in 0..s.ch {
                        m.set_level(i, o, Level::from_linear(r.unit()));
                    }
                }
                Any::Mixer(m)
            }
            Kind::Osc => {
                let f = 20.0 * 1000f64.powf(r.unit());
                // Smooth, so that rounding of the phase stays small.
                let n = 16 + r.below(100);
                let (mut a, mut b) = (r.unit(), r.unit());
                if s.data != 0 {
                    (a, b) = (other.unit(), other.unit());
                }
                if s.seed % 16 == 3 {
                    // Harmonics, the higher the weaker.
                    let mut h: Vec<f64> = (1..=1 + n / 8).map(|i| other.unit() / (i * i) as f64).collect();
                    let at = other_at(h.len());
                    if let Some(h) = h.get_mut(at) {
                        *h += 0.01;
                    }
                    let h: Vec<Level> = h.into_iter().map(Level::from_linear).collect();
                    return Any::Osc(Oscillator::with_harmonics(ctx, f, s.ch, &h));
                }
                let wave = |x: f64| (x.sin() + a * (2.0 * x).sin() + b * (3.0 * x).cos()) / 3.0;
                let mut t: Vec<f64> = (0..n).map(|i| wave(i as f64 / n as f64 * std::f64::consts::TAU)).collect();
                if let Some(t) = t.get_mut(other_at(n)) {
                    *t += 0.01;
                }
                Any::Osc(Oscillator::new(ctx, f, s.ch, t))
            }
            Kind::Biquad => Any::Biquad(Biquad::new(ctx, s.ch, biquad_type(r.below(6)))),
            Kind::Comp => Any::Comp(Compressor::new(ctx, s.ch)),
            Kind::Conv => {
                let n = 1 + r.below(150);
                let r = if s.data == 0 { &mut r } else { &mut other };
                let mut p: Planar = (0..s.ch).map(|_| (0..n).map(|_| (r.sym() / 8.0) as f32).collect()).collect();
                if let Some(v) = p.last_mut().unwrap().get_mut(other_at(n)) {
                    *v += 0.1;
                }
                Any::Conv(Convolution::new(ctx, s.ch, from_planar(&p, n, sr)))
            }
            Kind::Shaper => {
                let t = Level::from_linear(0.1 + 0.8 * r.unit() + s.nudge as f64 * 0.003);
                Any::Shaper(match r.below(4) {
                    0 => Waveshaper::tanh(ctx, s.ch),
                    1 => Waveshaper::soft_saturator(ctx, s.ch, t),
                    2 => Waveshaper::hard_clip(ctx, s.ch, t),
                    _ => Waveshaper::new(ctx, s.ch, &|x| x * x * x),
                })
            }
            Kind::Adsr => Any::Adsr(Adsr::new(ctx, s.ch, sr)),
            Kind::Meter => {
                let f = [20.0, 60.0, 100.0, 441.0][r.below(4)];
                Any::Meter(Envelope::new(ctx, s.ch, Duration::from_micros(r.below(5000) as u64), Duration::from_micros(r.below(50_000) as u64), f))
            }
            Kind::Rec => Any::Rec(Recorder::new(ctx, s.ch, sr)),
            Kind::Sampler => {
                let n = 1 + r.below(6000);
                let mut p = noise_planar(s.seed ^ s.data << 32, s.ch, n);
                if let Some(v) = p.last_mut().unwrap().get_mut(other_at(n)) {
                    *v += 0.1;
                }
                Any::Sampler(Sampler::new_with_event_capacity(ctx, from_planar(&p, n, sr), 1024))
            }
        }
    }

    pub fn with<T>(&self, f: impl FnOnce(&GraphNode) -> T) -> T {
        match self {
            Any::Gain(n) => f(&n.node),
            Any::Pan(n) => f(&n.node),
            Any::Mixer(n) => f(&n.node),
            Any::Osc(n) => f(&n.node),
            Any::Biquad(n) => f(&n.node),
            Any::Comp(n) => f(&n.node),
            Any::Conv(n) => f(&n.node),
            Any::Shaper(n) => f(&n.node),
            Any::Adsr(n) => f(&n.node),
            Any::Meter(n) => f(&n.borrow().node),
            Any::Rec(n) => f(&n.borrow().node),
            Any::Sampler(n) => f(&n.node),
        }
    }

    pub fn ins(kind: Kind, ch: usize) -> usize {
        match kind {
            Kind::Osc | Kind::Sampler => 0,
            Kind::Pan => 2,
            _ => ch,
        }
    }

    pub fn outs(kind: Kind, ch: usize) -> usize {
        match kind {
            Kind::Rec => 0,
            Kind::Pan => 2,
            _ => ch,
        }
    }

    /// Parameter `i` of `parameters(kind)`.
    pub fn param(&mut self, i: usize) -> &mut AudioParameter {
        match (self, i) {
            (Any::Gain(n), 0) => n.gain(),
            (Any::Pan(n), 0) => n.pan(),
            (Any::Osc(n), 0) => n.frequency(),
            (Any::Osc(n), 1) => n.gain(),
            (Any::Biquad(n), 0) => n.frequency(),
            (Any::Biquad(n), 1) => n.q(),
            (Any::Biquad(n), 2) => n.shelf_gain(),
            (Any::Biquad(n), 3) => n.gain(),
            (Any::Comp(n), 0) => n.attack(),
            (Any::Comp(n), 1) => n.release(),
            (Any::Comp(n), 2) => n.ratio(),
            (Any::Comp(n), 3) => n.threshold(),
            (Any::Comp(n), 4) => n.knee(),
            (Any::Comp(n), 5) => n.wet(),
            (Any::Comp(n), 6) => n.dry(),
            (Any::Conv(n), 0) => n.wet(),
            (Any::Conv(n), 1) => n.dry(),
            (Any::Shaper(n), 0) => n.overdrive(),
            (Any::Shaper(n), 1) => n.mix(),
            _ => panic!("harness: no such parameter"),
        }
    }
}

pub fn name(k: Kind) -> &'static str {
    match k {
        Kind::Gain => "gain",
        Kind::Pan => "pan",
        Kind::Mixer => "mixer",
        Kind::Osc => "oscillator",
        Kind::Biquad => "biquad",
        Kind::Comp => "compressor",
        Kind::Conv => "convolution",
        Kind::Shaper => "waveshaper",
        Kind::Adsr => "adsr",
        Kind::Meter => "meter",
        Kind::Rec => "recorder",
        Kind::Sampler => "sampler",
    }
}
