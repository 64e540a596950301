//! Cancelling automation: exactly the named changes disappear.

use crate::auto::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum What {
    All,
    /// Ending after a time relative to the cancelling call's start; `edge` picks the end of a
    /// pending change instead, if there is one.
    After { delta: u16, sub: u8, edge: bool },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Cancel {
    pub call: u8,
    pub param: u8,
    pub what: What,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub max_frames: usize,
    pub sizes: Vec<usize>,
    pub frames: usize,
    pub steps: Vec<Vec<Step>>,
    pub cancels: Vec<Cancel>,
    /// Cancel before or after submitting the changes of the same call.
    pub cancel_first: bool,
}

pub struct P;

fn param<'a>(i: usize, a: &'a mut Gain, b: &'a mut Gain, c: &'a mut Compressor) -> &'a mut AudioParameter {
    match i {
        0 => a.gain(),
        1 => b.gain(),
        2 => c.wet(),
        _ => c.dry(),
    }
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "schedules on four parameters of three nodes with cancellations of all changes or those ending after a time, at and around the ends of pending changes; non-trivial: a cancellation finds a change to remove";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 80_000 } else { 500_000 }
    }

    fn assumptions() -> Vec<String> {
        vec!["a ramp that has begun is not a pending change: it runs to its end".into()]
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let steps = prop::collection::vec(
            step().prop_map(|mut s| {
                s.value = s.value.min(1.0);
                s.lead = s.lead.max(0) * 2;
                if s.kind == Kind::Now {
                    s.kind = Kind::Set;
                }
                s
            }),
            0..10,
        );
        let what = prop_oneof![
            1 => Just(What::All),
            3 => (prop_oneof![0u16..40, 0u16..400], 0u8..16, any::<bool>()).prop_map(|(delta, sub, edge)| What::After { delta, sub, edge }),
        ];
        let cancel = (0u8..24, 0u8..4, what).prop_map(|(call, param, what)| Cancel { call, param, what });
        (
            super::c11::rates(),
            super::c11::max_frames(),
            super::c11::block_sizes(),
            1usize..900,
            prop::collection::vec(steps, 4),
            prop::collection::vec(cancel, 1..6),
            any::<bool>(),
        )
            .prop_map(|(sr, max_frames, sizes, frames, steps, cancels, cancel_first)| Case { sr, max_frames, sizes, frames, steps, cancels, cancel_first })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let blocks = partition(k.frames, &k.sizes);
        let starts = call_starts(&blocks);
        let pow2 = k.sr.is_power_of_two();
        let mut plans: Vec<Vec<Submitted>> = k.steps.iter().map(|s| lay_out(s, &starts, pow2, false)).collect();
        // Its default is 0, from where no exponential ramp can start.
        for s in &mut plans[3] {
            if s.change.kind == Kind::Exp {
                s.change.kind = Kind::Lin;
            }
        }
        let mut eng = engine(k.sr, 1, k.max_frames);
        let mut a = Gain::new(eng.ctx.as_ref(), 1);
        let mut b = Gain::new(eng.ctx.as_ref(), 1);
        let mut c = Compressor::new(eng.ctx.as_ref(), 1);
        a.node.connect_to_input();
        a.node.connect_to_output();
        a.node.connect_to(&b.node);
        b.node.connect_to(&c.node);
        eng.live();
        let input = vec![vec![1.0f32; k.frames]];
        let initial: Vec<f64> = (0..4).map(|i| param(i, &mut a, &mut b, &mut c).get_value().load(Ordering::Acquire)).collect();
        let mut models: Vec<Model> = initial.iter().map(|&v| Model::new(v)).collect();
        let mut out: Planar = vec![vec![]];
        let mut o = Outcome::default();
        for (n_call, &n) in blocks.iter().enumerate() {
            for pass in 0..2 {
                if (pass == 0) == k.cancel_first {
                    for q in k.cancels.iter().filter(|q| q.call as usize % blocks.len() == n_call) {
                        let i = q.param as usize;
                        let p = param(i, &mut a, &mut b, &mut c);
                        let before = models[i].pending().len();
                        match q.what {
                            What::All => {
                                p.cancel_scheduled_changes();
                                models[i].cancel_all();
                            }
                            What::After { delta, sub, edge } => {
                                let pend = models[i].pending();
                                let t = if edge && !pend.is_empty() {
                                    pend[delta as usize % pend.len()].when()
                                } else if pow2 {
                                    starts[n_call] as f64 + delta as f64 + sub as f64 / 16.0
                                } else {
                                    starts[n_call] as f64 + delta as f64 + 0.1
                                };
                                p.cancel_scheduled_changes_ending_after(moment(t, k.sr));
                                models[i].cancel_ending_after(t);
                            }
                        }
                        let gone = before - models[i].pending().len();
                        o.nontrivial |= gone > 0;
                        o.label(gone > 0 && models[i].pending().is_empty() && before > 1, "several removed");
                        o.label(gone > 0 && !models[i].pending().is_empty(), "some kept");
                        o.label(models[i].ramping(starts[n_call] as f64), "during a ramp");
                    }
                } else {
                    for i in 0..4 {
                        for s in plans[i].iter().filter(|s| s.call == n_call) {
                            s.change.apply(param(i, &mut a, &mut b, &mut c), k.sr);
                            models[i].submit(s.change);
                        }
                    }
                }
            }
            eng.block(&input, 1, &mut out, n);
            for i in 0..4 {
                let (mut want, mut tol) = (0.0, 0.0);
                for f in starts[n_call]..starts[n_call + 1] {
                    (want, tol) = models[i].at_tol(f as f64, 1e-4);
                    if i == 0 && !((out[0][f] as f64 - want).abs() <= tol) {
                        return Err(format!("frame {f}: gain is {}, the remaining schedule says {want}", out[0][f]));
                    }
                }
                let rep = param(i, &mut a, &mut b, &mut c).get_value().load(Ordering::Acquire);
                if !((rep - want).abs() <= tol) {
                    return Err(format!("parameter {i} after frame {}: {rep}, the remaining schedule says {want}", starts[n_call + 1]));
                }
            }
        }
        Ok(o)
    }
}
