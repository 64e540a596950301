//! Parameter automation against a closed-form reference, sample by sample.

use crate::auto::*;
use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub max_frames: usize,
    pub frames: usize,
    pub sizes: Vec<usize>,
    pub signed: bool,
    pub steps: Vec<Step>,
    pub order: u64,
}

pub struct P;

pub fn rates() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => prop::sample::select(vec![1024usize, 8192, 32768, 65536]),
        2 => prop::sample::select(vec![8000usize, 22050, 44100, 48000, 96000, 192000]),
    ]
    .boxed()
}

pub fn block_sizes() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        1 => Just(vec![1usize]),
        2 => Just(vec![64usize]),
        1 => Just(vec![4096usize]),
        4 => prop::collection::vec(prop_oneof![1usize..8, 1usize..200, prop::sample::select(vec![32usize, 64, 100, 128])], 1..5),
    ]
    .boxed()
}

pub fn max_frames() -> BoxedStrategy<usize> {
    prop_oneof![20 => prop::sample::select(vec![16usize, 37, 64, 100, 128, 256]), 1 => prop::sample::select(vec![512usize, 1024, 4096])].boxed()
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "schedules of immediate, timed, linear and exponential changes in successive windows, submitted in any order ahead of, at or after their time, up to 40 changes; non-trivial: at least three changes take effect within the rendered range";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 900_000 }
    }

    fn assumptions() -> Vec<String> {
        vec!["windows of one parameter's changes do not overlap; exponential ramps run between positive values; at sample rates that are no power of two, times lie strictly between frames (frame times are rounded to 2^-32 s)".into()]
    }

    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let n = if t == Tier::Quick { 2000 } else { 6000 };
        // Many changes waiting at once, several of them for one moment.
        let crowd = (prop::collection::vec(step(), 21..70), 0u8..16, 0usize..12).prop_map(|(mut steps, sub, sets)| {
            for (i, s) in steps.iter_mut().enumerate() {
                s.sub = sub;
                s.gap = if i % 3 == 0 { s.gap % 4 } else { 0 };
                s.dur %= 30;
                s.lead = if s.lead < 30 { 127 } else { s.lead };
                if i % 12 < sets && s.kind != Kind::Now {
                    s.kind = Kind::Set;
                }
            }
            steps
        });
        // Now and then hundreds within a frame or two.
        let flood = (prop::collection::vec(step(), 150..700), 0u8..16, any::<bool>()).prop_map(|(mut steps, sub, all)| {
            for (i, s) in steps.iter_mut().enumerate() {
                s.sub = sub;
                s.gap = (i > 0 && i % 300 == 0) as u16 * (s.gap % 4);
                s.dur %= 1 + (i % 100 == 0) as u16 * 30;
                s.lead = 127;
                if all || s.kind == Kind::Now {
                    s.kind = Kind::Set;
                }
            }
            steps
        });
        let steps = prop_oneof![1000 => prop::collection::vec(step(), 1..40), 200 => crowd, 2 => flood];
        (rates(), max_frames(), 1usize..n, block_sizes(), any::<bool>(), steps, any::<u64>())
            .prop_map(|(sr, max_frames, frames, sizes, signed, mut steps, order)| {
                if signed {
                    for s in &mut steps {
                        if s.kind == Kind::Exp {
                            s.kind = Kind::Lin;
                        }
                    }
                }
                Case { sr, max_frames, frames, sizes, signed, steps, order }
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let blocks = partition(k.frames, &k.sizes);
        let starts = call_starts(&blocks);
        let changes = lay_out(&k.steps, &starts, k.sr.is_power_of_two(), k.signed);
        let mut eng = engine(k.sr, 1, k.max_frames);
        let mut gain = Gain::new(eng.ctx.as_ref(), 1);
        gain.node.connect_to_input();
        gain.node.connect_to_output();
        eng.live();
        let input = vec![vec![1.0f32; k.frames]];
        let mut model = Model::new(1.0);
        let mut out: Planar = vec![vec![]];
        let mut rng = Prng::new(k.order);
        let mut used = 0;
        let mut o = Outcome::default();
        for (b, &n) in blocks.iter().enumerate() {
            // Submit this call's changes in a generated order (equal times keep theirs).
            let mut now: Vec<Change> = changes.iter().filter(|s| s.call == b).map(|s| s.change).collect();
            // (`when` falls into classes; those of one class take its places in order.)
            let order: Vec<Change> = now.clone();
            for i in (1..now.len()).rev() {
                now.swap(i, rng.below(i + 1));
            }
            let mut next = vec![0; now.len()];
            for i in 0..now.len() {
                // The first of this class not yet used.
                let class = (0..order.len()).find(|j| order[*j].when() == now[i].when()).unwrap();
                let from = next[class].max(class);
                let j = (from..order.len()).find(|j| order[*j].when() == now[i].when()).unwrap();
                next[class] = j + 1;
                now[i] = order[j];
            }
            for c in &now {
                used += 1;
                o.label(c.start < starts[b] as f64 && c.kind != Kind::Now, "late");
                c.apply(gain.gain(), k.sr);
                model.submit(*c);
            }
            eng.block(&input, 1, &mut out, n);
            let (mut want, mut tol) = (0.0, 0.0);
            for f in starts[b]..starts[b + 1] {
                (want, tol) = model.at_tol(f as f64, 1e-4);
                let got = out[0][f] as f64;
                if !((got - want).abs() <= tol) {
                    return Err(format!("frame {f}: gain is {got}, schedule says {want}; changes {:?}", &changes[..changes.len().min(12)]));
                }
            }
            let rep = gain.gain().get_value().load(Ordering::Acquire);
            if !((rep - want).abs() <= tol) {
                return Err(format!("reported value after frame {} is {rep}, schedule says {want}", starts[b + 1]));
            }
        }
        o.nontrivial = used >= 3;
        o.label(used > 16, ">16 changes");
        o.label(
            {
                let mut v: Vec<i64> = changes.iter().map(|s| s.change.when().ceil() as i64).collect();
                v.sort();
                v.windows(101).any(|w| w[0] == w[100])
            },
            "more than a hundred in one frame",
        );
        o.label(
            (0..blocks.len()).any(|b| {
                let v: Vec<f64> = changes.iter().filter(|s| s.call == b).map(|s| s.change.when()).collect();
                v.len() > 20 && v.windows(2).any(|w| w[0] == w[1])
            }),
            ">20 at once, with ties",
        );
        o.label(changes.iter().any(|s| s.change.kind == Kind::Exp), "exponential");
        o.label(changes.windows(2).any(|w| w[0].change.start.ceil() == w[1].change.start.ceil()), "two in one frame");
        Ok(o)
    }
}
