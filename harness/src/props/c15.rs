//! Gain and pan laws, sample by sample, under automation.

use crate::auto::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub max_frames: usize,
    pub frames: usize,
    pub sizes: Vec<usize>,
    pub pan: bool,
    pub channels: usize,
    pub seed: u64,
    pub steps: Vec<Step>,
}

pub struct P;

/// One automated gain or pan over `data`; returns (values of the parameter, tolerance) and output.
fn render(k: &Case, data: &Planar, mirror: bool) -> (Vec<(f64, f64)>, Planar) {
    let blocks = partition(k.frames, &k.sizes);
    let starts = call_starts(&blocks);
    let mut plan = lay_out(&k.steps, &starts, k.sr.is_power_of_two(), false);
    if k.pan {
        for s in &mut plan {
            if s.change.kind == Kind::Exp {
                s.change.kind = Kind::Lin;
            }
            s.change.value = (s.change.value - 2.0).clamp(-1.0, 1.0);
            if mirror {
                s.change.value = -s.change.value;
            }
        }
    }
    let mut eng = engine(k.sr, k.channels, k.max_frames);
    enum N {
        G(Gain),
        P(Pan),
    }
    let mut n = if k.pan { N::P(Pan::new(eng.ctx.as_ref(), 2)) } else { N::G(Gain::new(eng.ctx.as_ref(), k.channels)) };
    match &n {
        N::G(g) => {
            g.node.connect_to_input();
            g.node.connect_to_output();
        }
        N::P(g) => {
            g.node.connect_to_input();
            g.node.connect_to_output();
        }
    }
    eng.live();
    let mut model = Model::new(if k.pan { 0.0 } else { 1.0 });
    let mut out: Planar = vec![vec![]; k.channels];
    let mut vals = vec![];
    for (b, &frames) in blocks.iter().enumerate() {
        for s in plan.iter().filter(|s| s.call == b) {
            match &mut n {
                N::G(g) => s.change.apply(g.gain(), k.sr),
                N::P(g) => s.change.apply(g.pan(), k.sr),
            }
            model.submit(s.change);
        }
        eng.block(data, k.channels, &mut out, frames);
        for f in starts[b]..starts[b + 1] {
            vals.push(model.at_tol(f as f64, 1e-4));
        }
    }
    (vals, out)
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "gain (1-8 channels) and pan nodes over random signals under automation; non-trivial: the parameter leaves its default while audio plays";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 24_000 } else { 800_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            (super::c11::rates(), super::c11::max_frames(), 1usize..1200, super::c11::block_sizes()),
            (any::<bool>(), 1usize..9, any::<u64>(), prop::collection::vec(step(), 0..8), large()),
        )
            .prop_map(|((sr, max_frames, frames, sizes), (pan, ch, seed, steps, large))| Case {
                sr,
                max_frames: if large { max_frames * 16 } else { max_frames },
                frames: if large { frames * 8 } else { frames },
                sizes: if large { sizes.iter().map(|s| s * 24).collect() } else { sizes },
                pan,
                channels: if pan { 2 } else if large { ch * 4 } else { ch },
                seed,
                steps,
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let data = noise_planar(k.seed, k.channels, k.frames);
        let (vals, out) = render(k, &data, false);
        for f in 0..k.frames {
            let (p, tol) = vals[f];
            for c in 0..k.channels {
                let law = match (k.pan, c) {
                    (false, _) => p,
                    (true, 0) => (1.0 - p).min(1.0),
                    (true, _) => (1.0 + p).min(1.0),
                };
                let want = data[c][f] as f64 * law;
                let got = out[c][f] as f64;
                if !((got - want).abs() <= (tol + 1e-6 * law.abs()) * data[c][f].abs() as f64 + 1e-30) {
                    return Err(format!("channel {c} frame {f}: {got} for input {} at {p}, expected {want}", data[c][f]));
                }
                // Transparent at the centre or at unity: bit for bit.
                let exact = if k.pan { 0.0 } else { 1.0 };
                if f < k.frames && vals[..=f].iter().all(|v| v.0 == exact) && got != data[c][f] as f64 {
                    return Err(format!("channel {c} frame {f}: {got} instead of the unchanged input {}", data[c][f]));
                }
            }
        }
        if k.pan {
            let swapped = vec![data[1].clone(), data[0].clone()];
            let (_, m) = render(k, &swapped, true);
            let m = vec![m[1].clone(), m[0].clone()];
            close("mirrored pan", &m, &out, 1e-6)?;
        }
        let moved = vals.iter().any(|v| v.0 != if k.pan { 0.0 } else { 1.0 });
        let mut o = Outcome::new(moved);
        o.label(k.pan, "pan");
        o.label(!k.pan, "gain");
        Ok(o)
    }
}
