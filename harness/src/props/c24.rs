//! Recordings against the input that was playing between their start and stop.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Record,
    StopNow,
    /// Stop so many frames after the border of the call it is submitted in (earlier: in the past).
    StopAt(i32),
    /// Let the node collect what the engine sent.
    Poll,
    /// Poll, then take the recording.
    Take,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub ch: usize,
    pub in_ch: usize,
    pub max_frames: usize,
    /// Per call: what is done before it (repeated so often) and its frames, in a few pieces.
    pub calls: Vec<(Vec<(Op, u8)>, u32)>,
    pub piece: usize,
    pub sub: u8,
    /// Other recorders: made before the one under test, recording, and before which call they are dropped.
    #[serde(default)]
    pub others: Vec<(bool, bool, u8)>,
    pub seed: u64,
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C24";
    const RULE: &'static str = "histories of recording, stopping (timed, in advance and late), polling and taking; non-trivial: a recording of at least one frame was taken after its stop";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 24_000 } else { 300_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            5 => Just(Op::Record),
            2 => Just(Op::StopNow),
            3 => prop_oneof![3 => 0i32..400, 2 => 0i32..12_000, 1 => -300i32..0].prop_map(Op::StopAt),
            1 => Just(Op::Poll),
            2 => Just(Op::Take),
        ];
        let times = prop_oneof![30 => Just(1u8), 1 => 1u8..100];
        let frames = prop_oneof![8 => 1u32..300, 6 => 1u32..6_000, 1 => 4090u32..4102, 1 => 6_000u32..30_000];
        let call = (prop::collection::vec((op, times), 0..4), frames);
        let calls = prop_oneof![
            2500 => prop::collection::vec(call.clone(), 1..12),
            250 => prop::collection::vec(call, 12..60),
            // Left alone for long.
            250 => (40_000u32..180_000, 1u32..100).prop_map(|(n, m)| vec![
                (vec![(Op::Record, 1)], n),
                (vec![(Op::StopNow, 1)], m),
                (vec![(Op::Take, 1)], 1),
            ]),
            // For very long.
            1 => (900_000u32..1_600_000, 1u32..100).prop_map(|(n, m)| vec![
                (vec![(Op::Record, 1)], n),
                (vec![(Op::StopNow, 1)], m),
                (vec![(Op::Take, 1)], 1),
            ]),
        ];
        (
            prop::sample::select(vec![1024usize, 8000, 44100, 65536]),
            prop_oneof![60 => 1usize..4, 1 => 4usize..20],
            prop_oneof![60 => 1usize..4, 1 => 4usize..20],
            prop_oneof![2 => prop::sample::select(vec![32usize, 64, 100]), 2 => Just(512usize), 1 => Just(5000usize)],
            calls,
            prop_oneof![1 => 1usize..64, 3 => 64usize..1024, 2 => 1024usize..6000],
            0u8..8,
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((any::<bool>(), any::<bool>(), 0u8..12), 1..4)],
            any::<u64>(),
        )
            .prop_map(|(sr, ch, in_ch, max_frames, calls, piece, sub, others, seed)| Case { sr, ch, in_ch, max_frames, calls, piece, sub, others, seed })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let total: usize = k.calls.iter().map(|c| c.1 as usize).sum();
        let input = noise_planar(k.seed, k.in_ch, total);
        let mut eng = engine(k.sr, k.ch.max(k.in_ch), k.max_frames);
        let other = |eng: &mut Eng, o: &(bool, bool, u8)| {
            let rec = Recorder::new(eng.ctx.as_mut(), 1, k.sr);
            if o.1 {
                rec.borrow_mut().record_now();
            }
            (rec, o.2 as usize)
        };
        let mut others: Vec<_> = k.others.iter().filter(|o| o.0).map(|o| other(&mut eng, o)).collect();
        let rec = Recorder::new(eng.ctx.as_mut(), k.ch, k.sr);
        rec.borrow().node.connect_to_input();
        others.extend(k.others.iter().filter(|o| !o.0).map(|o| other(&mut eng, o)));
        eng.live();
        // Sixteenths of a frame; on rates that are no power of two keep clear of the border.
        let sub = if k.sr.is_power_of_two() { k.sub as i64 % 8 } else { 2 };

        // (key, sequence, frame from which it applies, records)
        let mut pending: Vec<(i64, usize, i64, bool)> = vec![];
        let mut recording = false;
        let mut seq = 0;
        // Frame indices recorded and not yet taken; how many of them are certainly there to take.
        let mut held: Vec<usize> = vec![];
        let (mut taken, mut whole_takes, mut longest, mut stops_ahead, mut flooded) = (0usize, 0, 0, 0, false);
        let mut polled_state = false;
        let (mut unpolled, mut most_unpolled) = (0usize, 0);

        let mut frame = 0usize;
        let mut out: Planar = vec![];
        let ending = (vec![(Op::StopNow, 1)], 1u32);
        let collect = (vec![(Op::Take, 1)], 0u32);
        for (call, (ops, frames)) in k.calls.iter().chain([&ending, &collect]).enumerate() {
            others.retain(|o| o.1 != call);
            for (op, times) in ops {
                flooded |= *times > 32;
                for _ in 0..*times {
                    match op {
                        Op::Record => {
                            rec.borrow_mut().record_now();
                            pending.push((if aged() { i64::MIN } else { 0 }, seq, -1, true));
                        }
                        Op::StopNow => {
                            rec.borrow_mut().stop_record_now();
                            pending.push((if aged() { i64::MIN } else { 0 }, seq, -1, false));
                        }
                        Op::StopAt(d) => {
                            let at = (frame as i64 + *d as i64).max(0);
                            rec.borrow_mut().stop_record_at_time(moment(at as f64 + sub as f64 / 16.0, k.sr));
                            pending.push((at * 16 + sub, seq, at, false));
                        }
                        Op::Poll | Op::Take => {
                            eng.ctx.process_notifications();
                            unpolled = 0;
                            polled_state = recording;
                        }
                    }
                    seq += 1;
                    if *op != Op::Take {
                        continue;
                    }
                    let got = rec.borrow_mut().take_recording();
                    let n = got.as_ref().map_or(0, |g| g.frame_count());
                    let must = if recording { held.len().saturating_sub(65536) } else { held.len() };
                    if n < must || n > held.len() {
                        return Err(format!(
                            "at frame {frame} {n} frames were taken; {} have been recorded since the last take, {}",
                            held.len(),
                            if recording { "still recording" } else { "and recording has stopped" }
                        ));
                    }
                    if let Some(got) = &got {
                        if got.channel_count() != k.ch || got.sample_rate() != k.sr {
                            return Err(format!("recording has {} channels at {} Hz", got.channel_count(), got.sample_rate()));
                        }
                        let got = to_planar(got);
                        for c in 0..k.ch {
                            for (i, f) in held[..n].iter().enumerate() {
                                let want = input.get(c).map_or(0.0, |d| d[*f]);
                                if got[c][i] != want {
                                    return Err(format!(
                                        "taken at frame {frame}: channel {c} position {i} is {}, the input at frame {f} was {want}",
                                        got[c][i]
                                    ));
                                }
                            }
                        }
                    }
                    taken += n;
                    whole_takes += (n > 0 && !recording) as usize;
                    longest = longest.max(n);
                    held.drain(..n);
                }
            }
            if rec.borrow().is_recording() != polled_state {
                return Err(format!("at frame {frame} is_recording is {}, expected {polled_state}", !polled_state));
            }
            pending.sort_by_key(|p| (p.0, p.1));
            stops_ahead += pending.iter().filter(|p| p.2 > frame as i64).count();
            for f in frame..frame + *frames as usize {
                while pending.first().is_some_and(|p| p.2 <= f as i64) {
                    recording = pending.remove(0).3;
                }
                if recording {
                    held.push(f);
                    unpolled += 1;
                }
            }
            most_unpolled = most_unpolled.max(unpolled);
            for b in partition(*frames as usize, &[k.piece]) {
                eng.block(&input, k.in_ch, &mut out, b);
            }
            frame += *frames as usize;
        }
        if !held.is_empty() {
            return Err(format!("{} recorded frames were never delivered", held.len()));
        }
        let mut o = Outcome::new(taken > 0 && whole_takes > 0);
        o.label(longest > 4096, "recording longer than one internal buffer");
        o.label(most_unpolled > 33 * 4096, "more than 33 internal buffers uncollected");
        o.label(longest > 1_000_000, "recording of more than a million frames");
        o.label(stops_ahead > 0, "stop ahead of time");
        o.label(!k.others.is_empty(), "among other recorders, some of them dropped");
        o.label(flooded, "more than 32 submissions at once");
        o.label(whole_takes > 1, "several recordings taken");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "'now' means the start of the next rendered block; a timed stop acts at the frame containing its time".into(),
            "while still recording, what can be taken may lag by buffered frames, and the rest must follow in order".into(),
        ]
    }
}
