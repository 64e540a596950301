//! One history submitted in different ways, and moved in time.

use crate::anynode;
use crate::runner::*;
use crate::util::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub world: World,
    pub max: usize,
    pub sizes: Vec<usize>,
    pub order: u64,
    pub shift: usize,
    /// Instead of the world.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tied: Option<Tied>,
}

/// Many events for one node, each batch of them for one moment: they take effect in the order submitted.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tied {
    /// ADSR, sampler, recorder.
    pub kind: u8,
    pub batches: u16,
    pub each: u16,
    /// Batches for the start of the call, or a moment within it.
    pub at: u8,
    pub seed: u64,
}

pub struct P;

const CALL: usize = 60;

fn tied(k: &Tied) -> CaseResult {
    // The sampler's fade is 50 frames long.
    let mut eng = engine(1000, 1, 64);
    let frames = (k.batches as usize + 2) * CALL;
    let input = vec![vec![0.5f32; frames]];
    let sample: Vec<f32> = (0..4000).map(|f| f as f32 / 4096.0).collect();
    let mut adsr = (k.kind == 0).then(|| Adsr::new(eng.ctx.as_ref(), 1, 1000));
    let mut sampler = (k.kind == 1).then(|| Sampler::new_with_event_capacity(eng.ctx.as_ref(), from_planar(&[sample.clone()], 4000, 1000), k.each as usize + 8));
    let recorder = (k.kind == 2).then(|| Recorder::new(eng.ctx.as_mut(), 1, 1000));
    if let Some(n) = &mut adsr {
        n.node.connect_to_input();
        n.node.connect_to_output();
    }
    if let Some(n) = &sampler {
        n.node.connect_to_output();
    }
    if let Some(n) = &recorder {
        n.borrow().node.connect_to_input();
    }
    eng.ctx.start();
    let mut r = Prng::new(k.seed);
    let mut out: Planar = vec![vec![]];
    let (mut ons, mut offs) = (0, 0);
    for batch in 0..k.batches as usize {
        // A recorder only starts at once.
        let at = if k.kind == 2 { 0 } else { k.at as usize % 6 };
        // A sampler catches up with a start in the past.
        let when = match at {
            0 if k.kind == 1 => Timestamp::from_seconds((batch * CALL) as f64 / 1000.0),
            0 => Timestamp::zero(),
            _ => Timestamp::from_seconds(((batch * CALL + at) as f64 + 0.2) / 1000.0),
        };
        let (mut on, mut from) = (false, 0);
        for _ in 0..k.each {
            on = r.below(2) == 0;
            from = r.below(3000);
            match (&mut adsr, &mut sampler, &recorder) {
                (Some(n), ..) if on => n.note_on_at_time(when),
                (Some(n), ..) => n.note_off_at_time(when),
                (_, Some(n), _) if on => n.start_from_position_at_time(when, Timestamp::from_samples(from as f64, 1000)),
                (_, Some(n), _) => n.stop_at_time(when),
                (_, _, Some(n)) if on => n.borrow_mut().record_now(),
                (_, _, Some(n)) => n.borrow_mut().stop_record_now(),
                _ => {}
            }
        }
        if on {
            ons += 1;
        } else {
            offs += 1;
        }
        eng.block(&input, 1, &mut out, CALL);
        eng.ctx.process_notifications();
        let last = out.first().and_then(|c| c.last().copied()).unwrap_or(0.0);
        // An event between two frames takes effect at the first after it.
        let begun = if at == 0 { 0 } else { at + 1 };
        let (got, want) = match k.kind {
            0 => (last as f64, if on { 0.5 } else { 0.0 }),
            1 => (last as f64, if on { sample[from + CALL - 1 - begun] as f64 } else { 0.0 }),
            _ => (recorder.as_ref().unwrap().borrow().is_recording() as u8 as f64, on as u8 as f64),
        };
        let slack = if k.kind == 1 { 1.5 / 4096.0 } else { 1e-6 };
        if (got - want).abs() > slack {
            return Err(format!(
                "after {} events for one moment, batch {batch}, the last of which is {}, the {} is at {got}, expected {want}",
                k.each,
                if on { "on" } else { "off" },
                ["ADSR", "sampler", "recorder"][k.kind as usize % 3],
            ));
        }
        if let Some(n) = &recorder {
            n.borrow_mut().take_recording();
        }
    }
    let mut o = Outcome::new(ons > 1 && offs > 1);
    o.label(true, "many events at the same times");
    Ok(o)
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C26";
    const RULE: &'static str = "graphs of all node kinds with scheduled automation and events, submitted phase by phase, all ahead in a shuffled order, and with every time shifted; non-trivial: at least three scheduled items and audible";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 24_000 } else { 400_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let tied = (0u8..3, prop_oneof![4 => (2u16..40, 1u16..40), 1 => (70u16..90, 700u16..1000)], any::<u8>(), any::<u64>())
            .prop_map(|(kind, (batches, each), at, seed)| Tied { kind, batches, each, at, seed });
        (
            strategy(&anynode::ALL, 1..6, 1..4, 1200),
            prop_oneof![60 => prop::sample::select(vec![16usize, 64, 300]), 1 => prop::sample::select(vec![1024usize, 4096])],
            prop::collection::vec(prop_oneof![20 => 1usize..40, 20 => 1usize..400, 1 => 400usize..5000], 1..4),
            any::<u64>(),
            prop_oneof![1 => Just(0usize), 3 => 1usize..300, 1 => 300usize..20_000, 1 => (20u32..25, any::<u32>()).prop_map(|(b, r)| (1usize << b) + (r as usize % (1 << b)))],
            prop_oneof![100 => Just(None), 1 => tied.prop_map(Some)],
        )
            .prop_map(|(mut world, max, sizes, order, shift, tied)| {
                if tied.is_some() {
                    // Not looked at.
                    world.nodes.clear();
                    world.phases.clear();
                }
                Case { world, max, sizes, order, shift, tied }
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        if let Some(t) = &k.tied {
            return tied(t);
        }
        let p = plan(&k.world, &Scope::default());
        let how = How { sizes: k.sizes.clone(), ..How::plain(k.max) };
        let a = render(&p, &how);
        let b = render(&p, &How { ahead: Some(k.order), ..how.clone() });
        same_heard(&a, &b, 4e-6, false).map_err(|e| format!("{e} when everything scheduled is submitted at the start in another order; {} Hz", p.sr))?;
        let c = render(&p, &How { shift: k.shift, ..how.clone() });
        same_heard(&a, &c, tolerance(&p), false).map_err(|e| format!("{e} when everything happens {} frames later; {} Hz", k.shift, p.sr))?;
        let mut o = Outcome::new(p.scheduled() >= 3 && audible(&a.out));
        o.label(k.shift > 0, "shifted");
        o.label(k.shift >= 1 << 20, "shifted by more than a million frames");
        o.label(k.order != 0 && p.scheduled() >= 3, "re-ordered");
        for s in &p.specs {
            o.label(true, anynode::name(s.kind));
        }
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "the times of one queue are distinct, and automation windows of one parameter do not overlap".into(),
            "a shifted history is compared with its nodes created at the shifted start; equal to 1e-4 (1e-3 with oscillators at rates whose frame times are rounded)".into(),
        ]
    }
}
