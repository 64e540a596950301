//! The envelope meter against a follower over the whole input.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub ch: usize,
    pub max_frames: usize,
    pub attack_us: u64,
    pub release_us: u64,
    /// Notification interval in 64ths of a frame.
    pub interval: u32,
    /// Frames per call, and whether the application collects after it.
    pub calls: Vec<(u16, bool)>,
    /// Repeats the calls.
    pub rounds: u8,
    pub shape: u8,
    pub seed: u64,
    /// Halvings of the signal.
    #[serde(default)]
    pub quiet: u8,
}

pub struct P;

const CAPACITY: usize = 64;

/// The envelope: one-pole with separate rates for rising and falling.
fn follow(x: &[f32], sr: usize, attack_us: u64, release_us: u64) -> Vec<f64> {
    let coef = |us: u64| if us == 0 { 0.0 } else { (-1.0 / (sr as f64 * us as f64 * 1e-6)).exp() };
    let (a, r) = (coef(attack_us), coef(release_us));
    let mut y = 0.0f64;
    x.iter()
        .map(|v| {
            let v = v.abs() as f64;
            let c = if y < v { a } else { r };
            y = y * c + v * (1.0 - c);
            y
        })
        .collect()
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C25";
    const RULE: &'static str = "signals, attack and release times, notification rates, block sizes and collection patterns; non-trivial: at least two notification intervals reported";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 600_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let us = prop_oneof![1 => Just(0u64), 3 => 1u64..2000, 3 => 2000u64..200_000, 1 => 200_000u64..3_000_000];
        let interval = prop_oneof![
            100 => Just(64u32),
            200 => 64u32..640,
            300 => (1u32..2000).prop_map(|n| n * 64),
            300 => 640u32..64_000,
            1 => 64_000u32..10_000_000,
        ];
        let calls = prop::collection::vec((prop_oneof![1 => Just(1u16), 3 => 1u16..40, 3 => 1u16..600], prop::bool::weighted(0.8)), 1..8);
        (
            prop::sample::select(vec![1000usize, 1024, 44100, 48000]),
            1usize..5,
            prop::sample::select(vec![1usize, 2, 16, 64, 512]),
            (us.clone(), us),
            interval,
            calls,
            prop_oneof![1500 => 1u8..6, 500 => 6u8..30, 1 => Just(255u8)],
            0u8..5,
            (any::<u64>(), large(), prop_oneof![3 => Just(0u8), 1 => 1u8..24]),
        )
            .prop_map(|(sr, ch, max_frames, (attack_us, release_us), interval, calls, rounds, shape, (seed, large, quiet))| {
                // Now and then for long, rather than often.
                let long = rounds == 255 || interval >= 64_000;
                let large = large && !long;
                let rounds = if long { 1 + (seed % 4) as u8 } else { rounds };
                let calls: Vec<(u16, bool)> = if long { calls.into_iter().map(|(n, _)| (n.saturating_mul(100), true)).collect() } else { calls };
                Case {
                sr,
                ch: if large { ch * 16 } else { ch },
                max_frames: if large { max_frames * 8 } else { max_frames },
                attack_us,
                release_us,
                interval,
                calls: if large { calls.into_iter().map(|(n, c)| (n * 8, c)).collect() } else { calls },
                rounds,
                shape,
                seed,
                quiet,
                }
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let calls: Vec<(u16, bool)> = (0..k.rounds).flat_map(|_| k.calls.clone()).collect();
        let total: usize = calls.iter().map(|c| c.0 as usize).sum();
        let mut input = noise_planar(k.seed, k.ch, total);
        let scale = 0.5f64.powi(k.quiet as i32);
        for (c, d) in input.iter_mut().enumerate() {
            for (f, v) in d.iter_mut().enumerate() {
                match k.shape {
                    // Bursts, so that attacks and releases both show.
                    1 => *v *= ((f / (20 + 10 * c)) % 3 == 0) as u8 as f32,
                    // Rare single peaks.
                    2 => *v *= (mix64(k.seed ^ (f as u64 * 31 + c as u64)) % 97 == 0) as u8 as f32,
                    3 => *v = *v * 0.1 + 0.5,
                    _ => {}
                }
                *v *= scale as f32;
            }
        }
        let freq = k.sr as f64 * 64.0 / k.interval as f64;
        let interval = k.sr as f64 / freq;
        if interval * 64.0 != k.interval as f64 && (interval * 64.0).round() == k.interval as f64 && k.interval % 64 == 0 {
            // A whole number of frames, but the rate does not say so exactly.
            return Ok(Outcome::default());
        }
        let mut ends = vec![];
        loop {
            let e = (ends.len() + 1) as f64 * interval;
            if (e - e.round()).abs() < 1e-4 && interval * 64.0 != k.interval as f64 {
                // Too close to a border to tell.
                break;
            }
            if e.ceil() as usize > total {
                break;
            }
            ends.push(e.ceil() as usize);
        }
        let sure = ends.len();
        let cut = (sure + 1) as f64 * interval;
        let limit = if (cut.floor() as usize) < total { cut.floor() as usize } else { total };

        let mut eng = engine(k.sr, k.ch, k.max_frames);
        let env = Envelope::new(eng.ctx.as_mut(), k.ch, Duration::from_micros(k.attack_us), Duration::from_micros(k.release_us), freq);
        env.borrow().node.connect_to_input();
        eng.ctx.start();

        let level: Vec<Vec<f64>> = input.iter().map(|d| follow(d, k.sr, k.attack_us, k.release_us)).collect();
        let mut from = 0;
        let mut want: Vec<(usize, f64)> = vec![];
        let mut upto = vec![];
        for e in &ends {
            for c in 0..k.ch {
                want.push((c, level[c][from..*e].iter().cloned().fold(0.0, f64::max)));
            }
            from = *e;
            upto.push(from);
        }
        let mut out: Planar = vec![];
        let (mut seen, mut frame, mut overflowed, mut exact, mut after) = (0, 0, false, 0, false);
        for (i, (n, collect)) in calls.iter().enumerate() {
            eng.block(&input, k.ch, &mut out, *n as usize);
            frame += *n as usize;
            if frame > limit {
                break;
            }
            if !collect && i + 1 < calls.len() {
                continue;
            }
            eng.ctx.process_notifications();
            let got: Vec<(usize, f64)> = env.borrow_mut().take_notifications().iter().map(|x| (x.channel_index(), x.peak_level() as f64)).collect();
            let due = upto.iter().filter(|e| **e <= frame).count() * k.ch;
            let expect = &want[seen..due];
            seen = due;
            // The follower runs in single precision: slow times lose digits.
            let slow = 1.0 - (-1.0 / (k.sr as f64 * k.attack_us.max(k.release_us).max(1) as f64 * 1e-6)).exp();
            let near = |g: &(usize, f64), w: &(usize, f64)| g.0 == w.0 && (g.1 - w.1).abs() <= 1e-6 * scale + 3e-7 / slow * w.1.max(0.01 * scale);
            if expect.len() <= CAPACITY {
                if got.len() != expect.len() {
                    return Err(format!("at frame {frame} {} levels were reported for {} expected; interval {interval} frames, {} channels", got.len(), expect.len(), k.ch));
                }
                for (g, w) in got.iter().zip(expect) {
                    if !near(g, w) {
                        return Err(format!(
                            "at frame {frame} the report (channel, level) is {g:?}, expected {w:?}; interval {interval} frames, ends {:?}",
                            &ends[..ends.len().min(20)]
                        ));
                    }
                }
                exact += got.len();
                after |= overflowed && !got.is_empty();
            } else {
                overflowed = true;
                // What was not dropped comes in order.
                let mut w = expect.iter();
                for g in &got {
                    if !w.any(|w| near(g, w)) {
                        return Err(format!("at frame {frame} the report {g:?} is none of those due"));
                    }
                }
                if got.len() < CAPACITY {
                    return Err(format!("only {} reports were kept", got.len()));
                }
            }
        }
        let mut o = Outcome::new(exact >= 2 * k.ch);
        o.label(overflowed, "uncollected for longer than the channel holds");
        o.label(total > 300_000, "more than 300 000 frames");
        o.label(interval > 65_536.0, "reports more than 65 536 frames apart");
        o.label(k.quiet > 8, "a quiet signal");
        o.label(after, "collected again after an overflow");
        o.label(interval < k.max_frames as f64, "several reports per block");
        o.label(k.ch > 1 && calls.iter().any(|c| (c.0 as usize) < k.ch), "blocks of fewer frames than channels");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "notification rates up to the sample rate; report k covers the frames up to the first at or after k intervals".into(),
            "at least 64 uncollected reports are kept; beyond that the newest may be dropped".into(),
            "levels to a millionth of the signal's plus what single precision loses with slow times (about 0.4 % per 100 000 frames)".into(),
        ]
    }
}
