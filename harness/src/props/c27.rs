//! One thread changes things while another renders: every call has to sound like the state after
//! some number of the changes, no fewer than were issued before it, no more than were issued by its
//! end, and never fewer than the call before.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    Add,
    Drop(u8),
    Gain(u8, u8),
    Connect(u8, u8),
    Disconnect(u8),
    ToInput(u8),
    ToOutput(u8),
    Start,
    Stop,
    /// Collect notifications.
    Poll,
    Yield,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Stream {
    /// Both gains to the next number, one after the other.
    Gains,
    Level,
    Record,
    StopRecord,
    Take,
    Play,
    StopPlay,
    NoteOn,
    NoteOff,
    Yield,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum History {
    Graph(Vec<(Op, u16)>),
    Streams(Vec<(Stream, u16)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub max: usize,
    pub call: usize,
    pub rest: u16,
    pub history: History,
}

fn spin(n: u16) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}

/// What was seen in one call: changes known to be issued before it, possibly issued by its end, output.
struct Call {
    lo: usize,
    hi: usize,
    out: Planar,
}

#[derive(Default)]
struct Shared {
    running: AtomicBool,
    finish: AtomicBool,
    begun: AtomicUsize,
    done: AtomicUsize,
    frames_begun: AtomicUsize,
    frames_done: AtomicUsize,
}

/// Lets the rendering thread end, whatever happens to this one.
struct Finish(Arc<Shared>);
impl Drop for Finish {
    fn drop(&mut self) {
        self.0.finish.store(true, SeqCst);
    }
}

/// Render until told to finish, and a few calls more.
fn renderer(mut pro: Box<dyn AudioProcess + Send>, s: Arc<Shared>, k: &Case, out_ch: usize) -> std::thread::JoinHandle<Vec<Call>> {
    let (sr, n, rest) = (k.sr, k.call, k.rest);
    std::thread::spawn(move || {
        let mut calls = vec![];
        let mut input = OwnedAudioBuffer::new(n, 2, sr);
        input.get_channel_data_mut(SampleLocation::channel(0)).fill(1.0);
        let (mut extra, mut frame) = (0, 0usize);
        s.running.store(true, SeqCst);
        while extra < 4 + 3000 / n {
            extra += s.finish.load(SeqCst) as usize;
            for (i, v) in input.get_channel_data_mut(SampleLocation::channel(1)).iter_mut().enumerate() {
                *v = (frame + i) as f32;
            }
            let mut o = OwnedAudioBuffer::new(n, out_ch, sr);
            let lo = s.done.load(SeqCst);
            s.frames_begun.fetch_add(n, SeqCst);
            pro.process(&input, &mut o);
            s.frames_done.fetch_add(n, SeqCst);
            let hi = s.begun.load(SeqCst);
            calls.push(Call { lo, hi, out: to_planar(&o) });
            frame += n;
            if extra == 0 {
                spin(rest);
            }
        }
        calls
    })
}

/// The clock as read from the controlling thread.
struct Clock {
    last: f64,
    reads: usize,
    stops: bool,
}

impl Clock {
    fn read(&mut self, ctx: &dyn Context, s: &Shared, sr: usize) -> Result<(), String> {
        let before = s.frames_done.load(SeqCst);
        let t = ctx.current_time().as_seconds() * sr as f64;
        let after = s.frames_begun.load(SeqCst);
        if t < self.last {
            return Err(format!("the clock went from frame {} back to {t}", self.last));
        }
        if t > after as f64 + 0.5 || (!self.stops && t < before as f64 - 0.5) {
            return Err(format!("the clock shows frame {t} when {before} to {after} frames had been rendered"));
        }
        self.last = t;
        self.reads += 1;
        Ok(())
    }
}

/// Whether the observations are those of the states, in order, each within its bounds.
fn in_order<T: PartialEq + std::fmt::Debug>(what: &str, states: &[T], seen: impl Iterator<Item = (usize, usize, usize, T)>) -> Result<(), String> {
    let mut at = 0;
    for (call, lo, hi, v) in seen {
        let from = at.max(lo);
        let hi = hi.min(states.len() - 1);
        match (from..=hi).find(|k| states[*k] == v) {
            Some(k) => at = k,
            None => {
                let all: Vec<_> = states.iter().take(hi + 1).skip(lo).take(12).collect();
                return Err(format!(
                    "{what}: call {call} sounds as {v:?}; {lo} changes were issued before it and {hi} by its end, giving {all:?}; an earlier call had taken in {at}"
                ));
            }
        }
    }
    Ok(())
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C27";
    const RULE: &'static str = "histories of changes issued on one thread while another renders; non-trivial: at least three calls were rendered with some but not all of the changes issued, and something sounded";
    const MULTI: bool = true;
    const SCHEDULED: bool = true;
    const WORKERS: usize = 4;

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 7_000 } else { 300_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let op = prop_oneof![
            2 => Just(Op::Add),
            1 => any::<u8>().prop_map(Op::Drop),
            8 => (any::<u8>(), 0u8..4).prop_map(|(a, v)| Op::Gain(a, v)),
            6 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Connect(a, b)),
            2 => any::<u8>().prop_map(Op::Disconnect),
            1 => any::<u8>().prop_map(Op::ToInput),
            1 => any::<u8>().prop_map(Op::ToOutput),
            1 => Just(Op::Start),
            1 => Just(Op::Stop),
            1 => Just(Op::Poll),
            2 => Just(Op::Yield),
        ];
        let stream = prop_oneof![
            6 => Just(Stream::Gains),
            3 => Just(Stream::Level),
            3 => Just(Stream::Record),
            3 => Just(Stream::StopRecord),
            2 => Just(Stream::Take),
            2 => Just(Stream::Play),
            2 => Just(Stream::StopPlay),
            2 => Just(Stream::NoteOn),
            2 => Just(Stream::NoteOff),
            3 => Just(Stream::Yield),
        ];
        let burst = prop_oneof![30 => Just(Stream::Gains), 1 => stream.clone()];
        let pause = prop_oneof![2 => Just(0u16), 3 => 0u16..300, 3 => 0u16..5_000];
        let history = prop_oneof![
            24 => prop::collection::vec((op.clone(), pause.clone()), 5..80).prop_map(History::Graph),
            24 => prop::collection::vec((stream.clone(), pause.clone()), 5..120).prop_map(History::Streams),
            // Bursts, with many changes to a call.
            1 => prop::collection::vec((op, Just(0u16)), 400..1500).prop_map(History::Graph),
            1 => prop::collection::vec((burst, Just(0u16)), 300..700).prop_map(History::Streams),
        ];
        (
            prop::sample::select(vec![1024usize, 8192, 22050]),
            prop::sample::select(vec![8usize, 64]),
            prop_oneof![1 => Just(1usize), 3 => 2usize..64, 1 => 64usize..300],
            pause,
            history,
        )
            .prop_map(|(sr, max, call, rest, history)| {
                let many = match &history {
                    History::Graph(v) => v.len(),
                    History::Streams(v) => v.len(),
                };
                (sr, max, call, if many >= 300 { 20_000 } else { rest }, history)
            })
            .prop_map(|(sr, max, call, rest, history)| Case { sr, max, call, rest, history })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        match &k.history {
            History::Graph(ops) => graph(k, ops),
            History::Streams(ops) => streams(k, ops),
        }
    }

    fn assumptions() -> Vec<String> {
        vec![
            "interleavings are those the operating system and generated pauses produce; a saved case is a history, run again under new interleavings".into(),
            "changes of the graph and of parameters share one order; a node's own events have one order each".into(),
        ]
    }
}

const MOST: usize = 8;

struct Model {
    /// Rank, gain, in use.
    nodes: Vec<(f64, bool)>,
    edges: Vec<(usize, usize)>,
    input: Option<usize>,
    output: Option<usize>,
    started: bool,
}

impl Model {
    /// The constant this sounds as.
    fn sound(&self) -> f32 {
        let Some(o) = self.output.filter(|_| self.started) else {
            return 0.0;
        };
        let mut v = vec![0.0; self.nodes.len()];
        for i in 0..self.nodes.len() {
            let mut x = if self.input == Some(i) { 1.0 } else { 0.0 };
            for e in self.edges.iter().filter(|e| e.1 == i) {
                x += v[e.0];
            }
            v[i] = x * self.nodes[i].0;
        }
        v[o] as f32
    }
}

fn graph(k: &Case, ops: &[(Op, u16)]) -> CaseResult {
    let mut eng = engine(k.sr, 2, k.max);
    let mut m = Model { nodes: vec![(1.0, true); 2], edges: vec![(0, 1)], input: Some(0), output: Some(1), started: true };
    let mut nodes: Vec<Option<Gain>> = (0..2).map(|_| Some(Gain::new(eng.ctx.as_ref(), 1))).collect();
    let node = |nodes: &Vec<Option<Gain>>, i: usize, f: &mut dyn FnMut(&GraphNode)| f(&nodes[i].as_ref().unwrap().node);
    node(&nodes, 0, &mut |n| n.connect_to_input());
    node(&nodes, 1, &mut |n| n.connect_to_output());
    node(&nodes, 0, &mut |a| node(&nodes, 1, &mut |b| a.connect_to(b)));
    eng.ctx.start();
    let s = Arc::new(Shared::default());
    let mut states = vec![m.sound()];
    let thread = renderer(std::mem::replace(&mut eng.pro, Box::new(Nothing)), s.clone(), k, 1);
    let guard = Finish(s.clone());
    while !s.running.load(SeqCst) {
        std::thread::yield_now();
    }
    let stops = ops.iter().any(|o| matches!(o.0, Op::Stop));
    let mut clock = Clock { last: 0.0, reads: 0, stops };
    let r = (|| -> Result<(), String> {
        for (op, pause) in ops {
            let live: Vec<usize> = (0..m.nodes.len()).filter(|i| m.nodes[*i].1).collect();
            let pick = |a: u8| live.get(a as usize % live.len().max(1)).copied();
            s.begun.store(states.len(), SeqCst);
            match *op {
                Op::Add => {
                    if m.nodes.len() < MOST {
                        nodes.push(Some(Gain::new(eng.ctx.as_ref(), 1)));
                        m.nodes.push((1.0, true));
                    }
                }
                Op::Drop(a) => {
                    if let Some(i) = pick(a) {
                        nodes[i] = None;
                        m.nodes[i].1 = false;
                        m.edges.retain(|e| e.0 != i && e.1 != i);
                        m.input = m.input.filter(|x| *x != i);
                        m.output = m.output.filter(|x| *x != i);
                    }
                }
                Op::Gain(a, v) => {
                    if let Some(i) = pick(a) {
                        nodes[i].as_mut().unwrap().gain().set_value_now(v as f64);
                        m.nodes[i].0 = v as f64;
                    }
                }
                Op::Connect(a, b) => {
                    if let (Some(a), Some(b)) = (pick(a), pick(b)) {
                        let (a, b) = (a.min(b), a.max(b));
                        if a != b && !m.edges.contains(&(a, b)) {
                            node(&nodes, a, &mut |a| node(&nodes, b, &mut |b| a.connect_to(b)));
                            m.edges.push((a, b));
                        }
                    }
                }
                Op::Disconnect(a) => {
                    if !m.edges.is_empty() {
                        let (a, b) = m.edges.remove(a as usize % m.edges.len());
                        node(&nodes, a, &mut |a| node(&nodes, b, &mut |b| a.disconnect_from_node(b)));
                    }
                }
                Op::ToInput(a) => {
                    if let Some(i) = pick(a) {
                        node(&nodes, i, &mut |n| n.connect_to_input());
                        m.input = Some(i);
                    }
                }
                Op::ToOutput(a) => {
                    if let Some(i) = pick(a) {
                        node(&nodes, i, &mut |n| n.connect_to_output());
                        m.output = Some(i);
                    }
                }
                Op::Start => {
                    eng.ctx.start();
                    m.started = true;
                }
                Op::Stop => {
                    eng.ctx.stop();
                    m.started = false;
                }
                Op::Poll => eng.ctx.process_notifications(),
                Op::Yield => std::thread::yield_now(),
            }
            states.push(m.sound());
            s.done.store(states.len() - 1, SeqCst);
            spin(*pause);
            clock.read(eng.ctx.as_ref(), &s, k.sr)?;
        }
        Ok(())
    })();
    drop(guard);
    let calls = thread.join().map_err(|_| "rendering panicked".to_string())?;
    r?;
    for (i, c) in calls.iter().enumerate() {
        if c.out[0].iter().any(|v| *v != c.out[0][0]) {
            return Err(format!("call {i} does not sound as one state: {:?}", &c.out[0][..c.out[0].len().min(20)]));
        }
    }
    in_order("graph", &states, calls.iter().enumerate().map(|(i, c)| (i, c.lo, c.hi, c.out[0][0])))?;
    let all = states.len() - 1;
    let between = calls.iter().filter(|c| c.lo < all && c.hi > 0).count();
    let mut o = Outcome::new(between >= 3 && calls.iter().any(|c| c.out[0][0] != 0.0));
    let mut kinds: Vec<u32> = calls.iter().filter(|c| c.lo < all && c.hi > 0).map(|c| c.out[0][0].to_bits()).collect();
    kinds.dedup();
    o.label(kinds.len() > 3, "more than three states heard while changes were made");
    o.label(calls.iter().any(|c| c.hi > c.lo), "changes issued during a call");
    o.label(stops, "stopped and started");
    o.label(true, "graph");
    Ok(o)
}

struct Nothing;
impl AudioProcess for Nothing {
    fn process(&mut self, _: &dyn AudioBuffer, _: &mut dyn AudioBuffer) {}
}

fn streams(k: &Case, ops: &[(Stream, u16)]) -> CaseResult {
    let mut eng = engine(k.sr, 6, k.max);
    let ctx = eng.ctx.as_mut();
    let inp = Gain::new(ctx, 2);
    let bus = Gain::new(ctx, 6);
    let (mut g1, mut g2) = (Gain::new(ctx, 1), Gain::new(ctx, 1));
    let mut mixer = Mixer::new(ctx, 1, 1);
    let rec = Recorder::new(ctx, 1, k.sr);
    // The meter follows at once, so each report is the last frame of its window.
    let meter = Envelope::new(ctx, 1, Duration::ZERO, Duration::ZERO, k.sr as f64 / 16.0);
    let mut dc = OwnedAudioBuffer::new(20_000, 1, k.sr);
    dc.get_channel_data_mut(SampleLocation::channel(0)).fill(1.0);
    let mut sampler = Sampler::new_with_event_capacity(ctx, dc, 1024);
    sampler.enable_loop(Timestamp::zero(), secs(20_000.0, k.sr));
    let mut adsr = Adsr::new(ctx, 1, k.sr);
    let quick = Duration::from_secs_f64(10.0 / k.sr as f64);
    adsr.set_adsr(quick, quick, Level::from_linear(0.5), quick);
    g1.gain().set_value_now(0.0);
    g2.gain().set_value_now(0.0);
    for (c, n) in [(1, &g1.node), (2, &g2.node), (3, &mixer.node), (5, &adsr.node)] {
        inp.node.connect_channels_to(n, 0, 0, 1);
        n.connect_channels_to(&bus.node, 0, c, 1);
    }
    sampler.node.connect_channels_to(&bus.node, 0, 4, 1);
    inp.node.connect_channels_to(&rec.borrow().node, 1, 0, 1);
    inp.node.connect_channels_to(&meter.borrow().node, 1, 0, 1);
    inp.node.connect_channels_to(&bus.node, 0, 0, 1);
    inp.node.connect_to_input();
    bus.node.connect_to_output();
    ctx.start();
    let s = Arc::new(Shared::default());
    let thread = renderer(std::mem::replace(&mut eng.pro, Box::new(Nothing)), s.clone(), k, 6);
    let guard = Finish(s.clone());
    while s.frames_done.load(SeqCst) == 0 {
        std::thread::yield_now();
    }
    // States after so many operations: both gains, the mixer's level, whether recording.
    let mut gains = vec![(0.0f32, 0.0f32)];
    let mut levels = vec![0.0f32];
    let mut records = vec![false];
    // Two changes to an operation: the index into `gains` runs at twice that of the others.
    let (mut play, mut note) = (false, false);
    let mut clock = Clock { last: 0.0, reads: 0, stops: false };
    let mut taken: Vec<f32> = vec![];
    let mut peaks: Vec<f32> = vec![];
    let mut value = 0f64;
    let read = g1.gain().get_value();
    let r = (|| -> Result<(), String> {
        for (op, pause) in ops {
            s.begun.store(levels.len(), SeqCst);
            let (a, b) = *gains.last().unwrap();
            let (mut mid, mut end) = ((a, b), (a, b));
            let mut l = *levels.last().unwrap();
            let mut rc = *records.last().unwrap();
            match op {
                Stream::Gains => {
                    g1.gain().set_value_now(a as f64 + 1.0);
                    g2.gain().set_value_now(b as f64 + 1.0);
                    mid = (a + 1.0, b);
                    end = (a + 1.0, b + 1.0);
                }
                Stream::Level => {
                    l += 1.0;
                    mixer.set_level(0, 0, Level::from_linear(l as f64));
                }
                Stream::Record => {
                    rec.borrow_mut().record_now();
                    rc = true;
                }
                Stream::StopRecord => {
                    rec.borrow_mut().stop_record_now();
                    rc = false;
                }
                Stream::Take => {
                    eng.ctx.process_notifications();
                    if let Some(b) = rec.borrow_mut().take_recording() {
                        taken.extend(&to_planar(&b)[0]);
                    }
                    peaks.extend(meter.borrow_mut().take_notifications().iter().map(|n| n.peak_level()));
                }
                Stream::Play => {
                    sampler.start_now();
                    play = true;
                }
                Stream::StopPlay => {
                    sampler.stop_now();
                    play = false;
                }
                Stream::NoteOn => {
                    adsr.note_on_at_time(Timestamp::zero());
                    note = true;
                }
                Stream::NoteOff => {
                    adsr.note_off_at_time(Timestamp::zero());
                    note = false;
                }
                Stream::Yield => std::thread::yield_now(),
            }
            gains.push(mid);
            gains.push(end);
            levels.push(l);
            records.push(rc);
            s.done.store(levels.len() - 1, SeqCst);
            spin(*pause);
            clock.read(eng.ctx.as_ref(), &s, k.sr)?;
            let v = read.load(SeqCst);
            if v < value || v > end.0 as f64 {
                return Err(format!("the parameter reads {v} after {value}; it was set to {} last", end.0));
            }
            value = v;
        }
        Ok(())
    })();
    drop(guard);
    let calls = thread.join().map_err(|_| "rendering panicked".to_string())?;
    r?;
    if read.load(SeqCst) != gains.last().unwrap().0 as f64 {
        return Err(format!("the parameter reads {} in the end, set to {:?}", read.load(SeqCst), gains.last().unwrap()));
    }
    rec.borrow_mut().stop_record_now();
    // Nothing renders any more: what was recorded last stays with the engine unless a stop came.
    let stopped = !*records.last().unwrap();
    eng.ctx.process_notifications();
    if let Some(b) = rec.borrow_mut().take_recording() {
        taken.extend(&to_planar(&b)[0]);
    }
    for (i, c) in calls.iter().enumerate() {
        if (1..3).any(|o| c.out[o].iter().any(|v| *v != c.out[o][0])) {
            return Err(format!("in call {i} a gain changed midway: {:?} {:?}", c.out[1], c.out[2]));
        }
        if c.out[0].iter().any(|v| *v != 1.0) {
            return Err(format!("call {i} lost the input"));
        }
    }
    in_order("gains", &gains, calls.iter().enumerate().map(|(i, c)| (i, c.lo * 2, c.hi * 2, (c.out[1][0], c.out[2][0]))))?;
    // A node's own events are taken in block by block.
    let pieces = || {
        calls.iter().enumerate().flat_map(|(i, c)| {
            let n = c.out[0].len();
            (0..n.div_ceil(k.max)).map(move |p| (i, c, p * k.max, ((p + 1) * k.max).min(n)))
        })
    };
    for (i, c, a, b) in pieces() {
        if c.out[3][a..b].iter().any(|v| *v != c.out[3][a]) {
            return Err(format!("in call {i} the mixer changed within a block: {:?}", &c.out[3][a..b]));
        }
    }
    in_order("mixer", &levels, pieces().map(|(i, c, a, _)| (i, c.lo, c.hi, c.out[3][a])))?;
    // Recorded blocks: the input is the frame number.
    let total: usize = calls.iter().map(|c| c.out[0].len()).sum();
    let mut on = vec![false; total];
    let mut last = -1.0;
    for v in &taken {
        if *v <= last || *v as usize >= total {
            return Err(format!("the recording has frame {v} after frame {last}"));
        }
        on[*v as usize] = true;
        last = *v;
    }
    let known = if stopped { total } else { last as usize };
    let mut seen = vec![];
    for (i, c, a, b) in pieces() {
        let (a, b) = (i * k.call + a, i * k.call + b);
        if b > known {
            break;
        }
        if (a..b).any(|f| on[f] != on[a]) {
            return Err(format!("recording covers frames {a} to {b} in part"));
        }
        seen.push((i, c.lo, c.hi, on[a]));
    }
    in_order("recording", &records, seen.into_iter())?;
    // Reports come in order, each the last frame of a window of 16.
    for w in peaks.windows(2) {
        if w[1] <= w[0] {
            return Err(format!("meter reports {} after {}", w[1], w[0]));
        }
    }
    if let Some(p) = peaks.iter().find(|p| (**p as usize + 1) % 16 != 0) {
        return Err(format!("a meter report of {p} is no end of a window"));
    }
    // In the end, what was last said holds.
    let end = calls.last().unwrap();
    let at = |o: usize| *end.out[o].last().unwrap();
    let want = if play { 1.0 } else { 0.0 };
    if (at(4) - want).abs() > 1e-3 {
        return Err(format!("the sampler ends at {}, expected {want}", at(4)));
    }
    let want = if note { 0.5 } else { 0.0 };
    if (at(5) - want).abs() > 0.02 {
        return Err(format!("the envelope ends at {}, expected {want}", at(5)));
    }
    let all = levels.len() - 1;
    let between = calls.iter().filter(|c| c.lo < all && c.hi > 0).count();
    let mut o = Outcome::new(between >= 3 && (at(1) > 0.0 || at(3) > 0.0));
    o.label(!taken.is_empty(), "recorded");
    o.label(!peaks.is_empty(), "meter read");
    o.label(calls.iter().any(|c| c.hi > c.lo), "changes issued during a call");
    o.label(true, "streams");
    Ok(o)
}
