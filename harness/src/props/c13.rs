//! Requesting a value outside a parameter's range is the same as requesting the nearest value in it.

use crate::anynode::{parameters, Any, Kind as Node, Spec};
use crate::auto::{Change, Kind};
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    pub param: u8,
    pub kind: u8,
    /// Position relative to the range: below 0 is under it, above 1 over it.
    pub at: f64,
    pub call: u8,
    pub start: u16,
    pub dur: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub spec: Spec,
    pub sr: usize,
    pub max_frames: usize,
    pub frames: usize,
    pub sizes: Vec<usize>,
    pub reqs: Vec<Req>,
}

pub struct P;

/// The requested value, and its distance class from the range.
fn value(at: f64, lo: f64, hi: f64) -> f64 {
    if at < -50.0 {
        return -f64::MAX;
    }
    if at > 50.0 {
        return f64::MAX;
    }
    let span = if hi > 1e30 { 20.0 } else { hi - lo };
    lo + at * span
}

/// Output and, per call, the reported values.
fn render(k: &Case, clamp: bool) -> Result<(Planar, bool), String> {
    let table = parameters(k.spec.kind);
    let ch = if k.spec.kind == Node::Pan { 2 } else { k.spec.ch };
    let mut eng = engine(k.sr, k.spec.ch.max(2), k.max_frames);
    let mut n = Any::new(&k.spec, eng.ctx.as_mut());
    n.with(|g| {
        g.connect_to_input();
        g.connect_to_output();
    });
    eng.live();
    let data = noise_planar(k.spec.seed ^ 77, ch, k.frames);
    let mut out: Planar = vec![vec![]; ch];
    let blocks = partition(k.frames, &k.sizes);
    let mut outside = false;
    for (i, b) in blocks.iter().enumerate() {
        for r in k.reqs.iter().filter(|r| r.call as usize % blocks.len() == i) {
            let p = r.param as usize % table.len();
            let (_, lo, hi) = table[p];
            if lo.is_infinite() {
                continue;
            }
            let raw = value(r.at, lo, hi);
            outside |= raw < lo || raw > hi;
            let kind = match r.kind % 4 {
                0 => Kind::Now,
                1 => Kind::Set,
                2 => Kind::Lin,
                _ => {
                    if lo > 0.0 {
                        Kind::Exp
                    } else {
                        Kind::Lin
                    }
                }
            };
            let start = r.start as f64 + 0.5;
            Change { kind, value: if clamp { raw.clamp(lo, hi) } else { raw }, start, end: start + r.dur as f64 }.apply(n.param(p), k.sr);
        }
        eng.block(&data, ch, &mut out, *b);
        for (p, (name, lo, hi)) in table.iter().enumerate() {
            let v = n.param(p).get_value().load(Ordering::SeqCst);
            let slack = 1e-9 * lo.abs().max(if *hi > 1e30 { 0.0 } else { hi.abs() });
            if !lo.is_infinite() && !(v >= lo - slack && v <= hi + slack) {
                return Err(format!("{name} reports {v}, outside {lo}..{hi}, after frame {}", eng.pos));
            }
        }
    }
    // With nothing pending: any value in range takes effect, its ends included, and exactly.
    let mut r = Prng::new(k.spec.seed ^ k.frames as u64);
    let mut rest: Planar = vec![vec![]; ch];
    for (p, (name, lo, hi)) in table.iter().enumerate() {
        if lo.is_infinite() {
            continue;
        }
        n.param(p).cancel_scheduled_changes();
        let at = r.unit();
        let inside = value(at, *lo, *hi);
        for (ask, want) in [(*lo, *lo), (*hi, *hi), (inside, inside), (value(at - 1.5, *lo, *hi), *lo)] {
            if ask > 1e30 {
                continue;
            }
            if clamp && ask != want {
                n.param(p).set_value_now(want);
            } else {
                n.param(p).set_value_now(ask);
            }
            eng.block(&[], ch, &mut rest, 1);
            let v = n.param(p).get_value().load(Ordering::SeqCst);
            if !((v - want).abs() <= 1e-12 * want.abs()) {
                return Err(format!("{name} was set to {ask} and reports {v}; its range is {lo}..{hi}"));
            }
        }
        // Back to something harmless.
        n.param(p).set_value_now(inside);
        eng.block(&[], ch, &mut rest, 1);
    }
    Ok((out, outside))
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "each parameter of each node kind set/ramped to values in, at and beyond its range, compared with an engine given the clamped values; non-trivial: a value beyond the range was requested";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 40_000 } else { 400_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        const KINDS: &[Node] = &[Node::Pan, Node::Osc, Node::Biquad, Node::Comp, Node::Conv, Node::Shaper];
        let at = prop_oneof![3 => 0.0f64..1.0, 3 => -2.0f64..0.0, 3 => 1.0f64..4.0, 1 => Just(0.0), 1 => Just(1.0), 1 => Just(-100.0), 1 => Just(100.0), 1 => -0.01f64..0.0, 1 => 1.0f64..1.01];
        let req = (any::<u8>(), any::<u8>(), at, any::<u8>(), 0u16..600, prop_oneof![0u16..300, 0u16..8])
            .prop_map(|(param, kind, at, call, start, dur)| Req { param, kind, at, call, start, dur });
        (
            crate::anynode::spec(KINDS, 2),
            prop::sample::select(vec![44100usize, 48000, 65536]),
            prop_oneof![60 => prop::sample::select(vec![16usize, 64]), 1 => prop::sample::select(vec![512usize, 4096])],
            40usize..600,
            prop_oneof![30 => prop::collection::vec(1usize..120, 1..5), 10 => Just(vec![1usize]), 1 => Just(vec![600usize])],
            prop::collection::vec(req, 1..10),
        )
            .prop_map(|(spec, sr, max_frames, frames, sizes, reqs)| Case { spec, sr, max_frames, frames, sizes, reqs })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let (a, outside) = render(k, false)?;
        let (b, _) = render(k, true)?;
        for c in 0..a.len() {
            if let Some(f) = (0..k.frames).find(|&f| a[c][f].to_bits() != b[c][f].to_bits()) {
                return Err(format!("channel {c} frame {f}: {} with the requested values, {} with the clamped ones", a[c][f], b[c][f]));
            }
        }
        let mut o = Outcome::new(outside);
        o.label(k.reqs.iter().any(|r| r.at.abs() > 50.0), "extreme request");
        o.label(k.sizes == [1], "one frame per call");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "the ranges are those the node kinds declare in their constructors, held as a table by the harness".into(),
            "exponential ramps only on parameters whose range excludes zero".into(),
        ]
    }
}
