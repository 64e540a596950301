//! Generated sampler histories and the reference playback model (C22, C23).
//!
//! The model knows which sample index must sound at each frame; where a fade is allowed the gain
//! of a contribution may be anything from 0 to 1.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Start,
    StartNow,
    Stop,
    StopNow,
    Enable,
    EnableNow,
    /// A region with no frames, which must change nothing: ends `b` frames before its start.
    EnableEmpty,
    Cancel,
    CancelNow,
    /// Cancel everything, then stop and cancel the loop, so that the state is known.
    CancelAll,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Op {
    pub gap: u16,
    pub kind: Kind,
    /// Start position or loop start.
    pub a: u16,
    /// Loop length.
    pub b: u16,
    /// Calls ahead of the one it falls in (negative: late).
    pub lead: i8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub ch: usize,
    pub len: usize,
    pub max_frames: usize,
    pub sizes: Vec<usize>,
    pub ops: Vec<Op>,
    pub tail: u16,
    /// Sixteenths of a frame past the border, on power-of-two rates.
    pub sub: u8,
    pub shuffle: u64,
    pub seed: u64,
    /// Frames of the sample before those that are played from other positions than its start.
    #[serde(default, skip_serializing_if = "none")]
    pub base: u32,
}

fn none(n: &u32) -> bool {
    *n == 0
}

/// An operation with its time in frames (negative: now), in submission order.
#[derive(Clone, Copy, Debug)]
struct Sub {
    call: usize,
    seq: usize,
    frame: i64,
    /// Position in event order; events without a time have time zero.
    key: i64,
    op: Op,
}

pub struct Voice {
    idx: i64,
    /// Frames since the fade-in began; large when there is none.
    age: usize,
}

/// A contribution that may have any gain from 0 to 1.
#[derive(Clone, Copy, Debug)]
struct Part {
    idx: i64,
    /// Frames since the fade began.
    age: usize,
    out: bool,
}

#[derive(Default)]
pub struct Seen {
    pub starts: usize,
    pub restarts: usize,
    pub in_fade: usize,
    pub loops: usize,
    pub max_run: usize,
    pub short_loops: usize,
    pub changed_loop: bool,
    pub cancelled_loop: bool,
    pub stopped_looping: bool,
    pub late: bool,
    pub audible: usize,
}

/// Per frame: exact index (or silence), and the indices that may add any share of themselves.
type Plan = Vec<(Option<i64>, Vec<Part>)>;

const NO_FADE: usize = 1 << 40;

/// Follow the history; Err(i) names a submission outside the domain.
fn follow(subs: &[Sub], starts: &[usize], fade: usize, len: usize, base: i64) -> Result<(Plan, Seen), usize> {
    let total = *starts.last().unwrap();
    let calls = starts.len() - 1;
    let mut plan: Plan = Vec::with_capacity(total);
    let mut seen = Seen::default();
    // (key, seq, index into subs); only what has been submitted.
    let mut pending: Vec<(i64, usize, usize)> = vec![];
    let mut active: Option<Voice> = None;
    let mut dying: Vec<(i64, usize)> = vec![];
    let mut lp: Option<(i64, i64)> = None;
    let mut run = 0;
    for call in 0..calls {
        for (i, s) in subs.iter().enumerate().filter(|(_, s)| s.call == call) {
            if s.op.kind == Kind::CancelAll {
                pending.clear();
            }
            let pos = pending.iter().position(|p| (p.0, p.1) > (s.key, s.seq)).unwrap_or(pending.len());
            pending.insert(pos, (s.key, s.seq, i));
            seen.late |= s.frame >= 0 && s.frame < starts[call] as i64;
        }
        for f in starts[call] as i64..starts[call + 1] as i64 {
            while pending.first().is_some_and(|p| subs[p.2].frame <= f) {
                let i = pending.remove(0).2;
                let (t, op) = (subs[i].frame, subs[i].op);
                let pass = |v: Option<Voice>, dying: &mut Vec<(i64, usize)>| {
                    if let Some(v) = v {
                        dying.push((v.idx, 0));
                    }
                };
                match op.kind {
                    Kind::Start | Kind::StartNow => {
                        let p = if op.kind == Kind::Start { base + op.a as i64 + (f - t) } else { 0 };
                        if lp.is_some_and(|(_, e)| p >= e) {
                            return Err(i);
                        }
                        seen.starts += 1;
                        seen.restarts += active.is_some() as usize;
                        if active.as_ref().map(|v| v.idx) != Some(p) {
                            pass(active.take(), &mut dying);
                            active = Some(Voice { idx: p, age: if p == 0 { NO_FADE } else { 0 } });
                        }
                    }
                    Kind::Stop | Kind::StopNow | Kind::CancelAll => {
                        seen.stopped_looping |= active.is_some() && lp.is_some();
                        pass(active.take(), &mut dying);
                        if op.kind == Kind::CancelAll {
                            lp = None;
                        }
                    }
                    Kind::Enable | Kind::EnableNow => {
                        let a = base + op.a as i64;
                        let e = a + 1 + op.b as i64;
                        if active.as_ref().is_some_and(|v| v.idx >= e) {
                            return Err(i);
                        }
                        seen.changed_loop |= lp.is_some() && active.is_some();
                        lp = Some((a, e));
                    }
                    Kind::EnableEmpty => continue,
                    Kind::Cancel | Kind::CancelNow => {
                        seen.cancelled_loop |= lp.is_some() && active.is_some();
                        lp = None;
                    }
                }
                run = 0;
            }
            if let (Some(v), Some((a, e))) = (&mut active, lp) {
                if v.idx == e {
                    seen.loops += 1;
                    run += 1;
                    seen.max_run = seen.max_run.max(run);
                    let n = (e - a) as usize;
                    if n + 2 <= fade {
                        // Shorter than a fade: repeats without one.
                        seen.short_loops += 1;
                        v.idx = a;
                    } else {
                        dying.push((v.idx, 0));
                        // About as long as a fade: with or without one.
                        let age = if a != 0 { 0 } else if n <= fade + 1 { v.age } else { NO_FADE };
                        *v = Voice { idx: a, age };
                    }
                }
            }
            let mut some = vec![];
            let mut exact = None;
            if let Some(v) = &active {
                if v.idx < len as i64 {
                    if v.age > fade {
                        exact = Some(v.idx);
                    } else {
                        some.push(Part { idx: v.idx, age: v.age, out: false });
                    }
                    seen.audible += 1;
                }
            }
            dying.retain(|d| d.1 <= fade + 1);
            some.extend(dying.iter().filter(|d| d.0 < len as i64).map(|d| Part { idx: d.0, age: d.1, out: true }));
            seen.in_fade += !some.is_empty() as usize;
            plan.push((exact, some));
            if let Some(v) = &mut active {
                v.idx += 1;
                v.age += 1;
            }
            for d in &mut dying {
                d.0 += 1;
                d.1 += 1;
            }
        }
    }
    Ok((plan, seen))
}

pub fn run(k: &Case) -> Result<Seen, String> {
    let pow2 = k.sr.is_power_of_two();
    let span: usize = k.ops.iter().map(|o| o.gap as usize).sum::<usize>() + k.tail as usize + 1;
    let blocks = partition(span, &k.sizes);
    let mut starts = vec![0];
    for b in &blocks {
        starts.push(starts.last().unwrap() + b);
    }
    let calls = blocks.len() as i64;
    let mut subs: Vec<Sub> = vec![];
    let mut t = 0i64;
    let mut r = Prng::new(k.shuffle);
    let sub16 = if pow2 { k.sub as i64 % 8 } else { 2 };
    for op in &k.ops {
        t += op.gap as i64;
        let home = starts.iter().rposition(|s| *s as i64 <= t).unwrap() as i64;
        let call = (home - op.lead as i64).max(0).min(calls - 1) as usize;
        let now = matches!(op.kind, Kind::StartNow | Kind::StopNow | Kind::EnableNow | Kind::CancelNow | Kind::CancelAll);
        let call = if now { home.min(calls - 1) as usize } else { call };
        subs.push(Sub { call, seq: if k.shuffle == 0 { subs.len() } else { r.below(1 << 40) }, frame: if now { -1 } else { t }, key: if now { if aged() { i64::MIN } else { 0 } } else { t * 16 + sub16 }, op: *op });
    }
    subs.sort_by_key(|s| (s.call, s.seq));
    let len = k.base as usize + k.len;
    let fade = (k.sr as f64 * 0.05).ceil() as usize;
    let (plan, seen) = loop {
        for (i, s) in subs.iter_mut().enumerate() {
            s.seq = i;
        }
        match follow(&subs, &starts, fade, len, k.base as i64) {
            Ok(v) => break v,
            Err(i) => {
                subs.remove(i);
            }
        }
    };
    let mut sample = noise_planar(k.seed, k.ch, k.len);
    if k.base > 0 {
        let start = noise_planar(!k.seed, k.ch, len.min(1 << 16));
        for (all, start) in sample.iter_mut().zip(start) {
            let mut d = vec![0.0; len];
            d[..start.len()].copy_from_slice(&start);
            d[k.base as usize..].copy_from_slice(all);
            *all = d;
        }
    }
    let mut eng = engine(k.sr, k.ch.max(2), k.max_frames);
    let mut n = Sampler::new_with_event_capacity(eng.ctx.as_ref(), from_planar(&sample, len, k.sr), 4096);
    n.node.connect_to_output();
    eng.live();
    let sub = sub16 as f64 / 16.0;
    let at = |f: i64| moment(f as f64 + sub, k.sr);
    let pos = |f: i64| Timestamp::from_seconds(f as f64 / k.sr as f64);
    let mut out: Planar = vec![vec![]; k.ch];
    for (c, b) in blocks.iter().enumerate() {
        for s in subs.iter().filter(|s| s.call == c) {
            let place = k.base as i64 + s.op.a as i64;
            let (a, e) = (pos(place), pos(place + 1 + s.op.b as i64));
            match s.op.kind {
                Kind::Start => n.start_from_position_at_time(at(s.frame), a),
                Kind::StartNow => n.start_now(),
                Kind::Stop => n.stop_at_time(at(s.frame)),
                Kind::StopNow => n.stop_now(),
                Kind::Enable => n.enable_loop_at_time(at(s.frame), a, e),
                Kind::EnableEmpty => n.enable_loop_at_time(at(s.frame), a, pos((place - s.op.b as i64).max(0))),
                Kind::EnableNow => n.enable_loop(a, e),
                Kind::Cancel => n.cancel_loop_at_time(at(s.frame)),
                Kind::CancelNow => n.cancel_loop(),
                Kind::CancelAll => {
                    n.cancel_all();
                    n.stop_now();
                    n.cancel_loop();
                }
            }
        }
        eng.block(&vec![], 0, &mut out, *b);
    }
    for c in 0..k.ch {
        for f in 0..span {
            let got = out[c][f];
            let (exact, some) = &plan[f];
            let base = exact.map(|i| sample[c][i as usize]).unwrap_or(0.0);
            let (mut lo, mut hi) = (base, base);
            for i in some {
                let v = sample[c][i.idx as usize];
                lo += v.min(0.0);
                hi += v.max(0.0);
            }
            if !(got >= lo - 2e-6 && got <= hi + 2e-6) {
                let what = match sample[c].iter().position(|v| *v == got) {
                    Some(i) => format!("sample frame {i}"),
                    None => format!("{got}"),
                };
                let history: Vec<String> = subs.iter().map(|s| format!("call {} frame {} {:?} {} {}", s.call, s.frame, s.op.kind, s.op.a, s.op.b)).collect();
                return Err(format!(
                    "channel {c} frame {f} plays {what}; expected sample frame {exact:?} plus fading frames {some:?} ({lo}..{hi}); fade {fade} frames, sample {} frames, history {history:?}",
                    len
                ));
            }
        }
        // A lone fade is monotonic.
        for f in 1..span {
            let (None, [p], None, [q]) = (plan[f - 1].0, &plan[f - 1].1[..], plan[f].0, &plan[f].1[..]) else { continue };
            let (u, v) = (sample[c][p.idx as usize] as f64, sample[c][q.idx as usize] as f64);
            if q.idx != p.idx + 1 || q.age != p.age + 1 || p.out != q.out || u.abs() < 0.02 || v.abs() < 0.02 {
                continue;
            }
            let (g, h) = (out[c][f - 1] as f64 / u, out[c][f] as f64 / v);
            if if p.out { h > g + 1e-3 } else { h < g - 1e-3 } {
                return Err(format!(
                    "channel {c} frame {f}: {} frames into a fade {} the gain goes from {g} to {h}",
                    q.age,
                    if p.out { "out" } else { "in" }
                ));
            }
        }
    }
    Ok(seen)
}

pub fn strategy(loops: bool) -> BoxedStrategy<Case> {
    let kind = if loops {
        prop_oneof![
            4 => Just(Kind::Start),
            2 => Just(Kind::StartNow),
            2 => Just(Kind::Stop),
            1 => Just(Kind::StopNow),
            5 => Just(Kind::Enable),
            3 => Just(Kind::EnableNow),
            1 => Just(Kind::EnableEmpty),
            2 => Just(Kind::Cancel),
            1 => Just(Kind::CancelNow),
            1 => Just(Kind::CancelAll),
        ]
        .boxed()
    } else {
        prop_oneof![6 => Just(Kind::Start), 2 => Just(Kind::StartNow), 4 => Just(Kind::Stop), 1 => Just(Kind::StopNow), 1 => Just(Kind::CancelAll)].boxed()
    };
    let gap = prop_oneof![2 => Just(0u16), 2 => 0u16..5, 3 => 0u16..120, 1 => 0u16..700];
    let a = prop_oneof![3 => Just(0u16), 3 => 0u16..100, 1 => 0u16..900];
    let b = prop_oneof![2 => 0u16..12, 2 => 0u16..200, 1 => 0u16..600];
    let lead = prop_oneof![4 => 0i8..30, 1 => -4i8..0];
    let op = (gap, kind, a, b, lead).prop_map(|(gap, kind, a, b, lead)| Op { gap, kind, a, b, lead });
    (
        (prop::sample::select(vec![200usize, 400, 1000, 1024, 2048, 44100]), prop_oneof![60 => 1usize..3, 1 => 3usize..12]),
        prop_oneof![2 => 1usize..60, 3 => 1usize..800, 1 => 1usize..3000],
        prop_oneof![60 => prop::sample::select(vec![1usize, 16, 64]), 1 => prop::sample::select(vec![512usize, 4096])],
        prop_oneof![60 => prop::collection::vec(prop_oneof![1usize..12, 1usize..200], 1..4), 1 => prop::collection::vec(200usize..6000, 1..3)],
        prop_oneof![
            12 => prop::collection::vec(op.clone(), 1..14),
            // All ahead of the first block.
            1 => prop::collection::vec(op, 14..60).prop_map(|ops| ops.into_iter().map(|o| Op { gap: o.gap.min(60), lead: i8::MAX, ..o }).collect::<Vec<_>>()),
        ],
        prop_oneof![3 => 0u16..400, 1 => 0u16..4000],
        0u8..8,
        prop_oneof![2 => Just(0u64), 1 => any::<u64>()],
        (
            any::<u64>(),
            prop_oneof![
                2000 => Just(0u32),
                2 => 1u32..100_000,
                1 => 100_000u32..20_000_000,
                1 => 0u32..1000].prop_map(|n| if n % 3 == 1 && n > 50 { (1 << 24) + n } else { n }),
        ),
    )
        .prop_map(|((sr, ch), len, max_frames, sizes, ops, tail, sub, shuffle, (seed, base))| Case {
            base,
            sr,
            ch: if base > 100_000 { ch.min(2) } else { ch },
            len,
            max_frames,
            sizes,
            ops,
            tail,
            sub,
            shuffle,
            seed,
        })
        .boxed()
}

pub fn outcome(s: &Seen, nontrivial: bool) -> Outcome {
    let mut o = Outcome::new(nontrivial);
    o.label(s.restarts > 0, "restarted while playing");
    o.label(s.late, "submitted late");
    o.label(s.loops > 0, "looped");
    o.label(s.max_run > 20, "more than 20 repetitions");
    o.label(s.short_loops > 0, "loop shorter than a fade");
    o.label(s.changed_loop, "loop changed while playing");
    o.label(s.cancelled_loop, "loop cancelled while playing");
    o.label(s.stopped_looping, "stopped while looping");
    o
}
