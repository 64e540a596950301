//! Whole-engine histories: graphs of any node kinds with automation, events, recordings, meters and
//! graph changes, described abstractly, laid out on a time line, and rendered in different ways.

use crate::anynode::{self, Any, Kind, Spec};
use crate::auto;
use crate::heap;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

/// Something done to a node; what it is depends on the kind of node.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Act {
    pub node: u8,
    pub verb: u8,
    pub gap: u16,
    pub dur: u16,
    pub v: f64,
    pub sub: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Desc {
    pub spec: Spec,
    /// Targets among later nodes, and channel offsets.
    pub to: Vec<(u8, u8)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub sr: usize,
    pub nodes: Vec<Desc>,
    /// Bus that sounds: channels.
    pub bus: usize,
    pub in_node: u8,
    pub in_ch: usize,
    pub phases: Vec<(Vec<Act>, u16)>,
    pub seed: u64,
}

/// What a history may contain.
#[derive(Clone, Copy, Debug, Default)]
pub struct Scope {
    /// Settings over their whole range, rather than moderate ones.
    pub wide: bool,
    /// Events with equal times.
    pub ties: bool,
    /// Connections made and removed, inputs re-assigned.
    pub rewire: bool,
    /// Nodes dropped.
    pub drops: bool,
    /// Cancelling of automation and playback.
    pub cancels: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Edge {
    pub from: usize,
    pub to: usize,
    pub src: usize,
    pub dst: usize,
    pub n: usize,
}

#[derive(Clone, Copy, Debug)]
pub enum Item {
    Param(usize, usize, auto::Change),
    CancelParam(usize, usize, Option<f64>),
    Note(usize, bool, f64),
    AdsrSet(usize, [f64; 4]),
    Start(usize, f64, f64),
    StartNow(usize),
    Stop(usize, f64),
    StopNow(usize),
    Loop(usize, Option<f64>, f64, f64),
    Unloop(usize, f64),
    CancelPlay(usize),
    Record(usize),
    StopRecNow(usize),
    StopRec(usize, f64),
    Level(usize, usize, usize, f64),
    Connect(usize),
    Disconnect(usize),
    Drop(usize),
    ToInput(usize),
}

impl Item {
    /// The time of a scheduled item.
    pub fn time(&self) -> Option<f64> {
        match *self {
            Item::Param(_, _, c) if c.kind != auto::Kind::Now => Some(c.start),
            Item::Note(_, _, t) | Item::Start(_, t, _) | Item::Stop(_, t) | Item::Unloop(_, t) | Item::StopRec(_, t) => Some(t),
            Item::Loop(_, t, _, _) => t,
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub sr: usize,
    pub specs: Vec<Spec>,
    pub edges: Vec<Edge>,
    /// Edges present from the start.
    pub initial: Vec<bool>,
    pub input: Option<usize>,
    pub output: usize,
    pub in_ch: usize,
    pub out_ch: usize,
    pub settings: Vec<Vec<f64>>,
    pub phases: Vec<(Vec<Item>, usize)>,
    pub audio: Planar,
}

impl Plan {
    pub fn total(&self) -> usize {
        self.phases.iter().map(|p| p.1).sum()
    }
    pub fn items(&self) -> usize {
        self.phases.iter().map(|p| p.0.len()).sum()
    }
    pub fn scheduled(&self) -> usize {
        self.phases.iter().flat_map(|p| &p.0).filter(|i| i.time().is_some()).count()
    }
}

pub fn acts(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Act>> {
    let act = (
        any::<u8>(),
        any::<u8>(),
        prop_oneof![2 => Just(0u16), 3 => 0u16..60, 3 => 0u16..500],
        prop_oneof![1 => Just(0u16), 3 => 0u16..60, 3 => 0u16..800],
        prop_oneof![1 => Just(0.0), 1 => Just(1.0), 8 => 0.0f64..1.0],
        0u8..16,
    )
        .prop_map(|(node, verb, gap, dur, v, sub)| Act { node, verb, gap, dur, v, sub });
    prop::collection::vec(act, n).boxed()
}

/// Many things at once for one node.
fn crowd() -> BoxedStrategy<Vec<Act>> {
    (any::<u8>(), any::<(u8, u8)>(), acts(18..60))
        .prop_map(|(node, verbs, mut acts)| {
            for (i, a) in acts.iter_mut().enumerate() {
                a.node = node;
                // (236 and above change the graph.)
                a.verb = [verbs.0 % 236, verbs.0 % 236, verbs.1 % 236, a.verb % 236][i % 4];
                a.gap %= 4;
                a.dur %= 6;
            }
            acts
        })
        .boxed()
}

pub fn strategy(kinds: &'static [Kind], nodes: std::ops::Range<usize>, phases: std::ops::Range<usize>, frames: u16) -> BoxedStrategy<World> {
    let desc = (anynode::spec(kinds, 3), prop::collection::vec((any::<u8>(), any::<u8>()), 0..3)).prop_map(|(spec, to)| Desc { spec, to });
    let frames = prop_oneof![1 => 1u16..20, 4 => 1u16..frames];
    (
        prop::sample::select(vec![1024usize, 8192, 44100, 48000, 65536]),
        prop::collection::vec(desc, nodes),
        prop_oneof![60 => 1usize..4, 1 => 4usize..13],
        any::<u8>(),
        prop_oneof![60 => 1usize..4, 1 => 4usize..13],
        prop::collection::vec((prop_oneof![16 => acts(0..8), 1 => crowd()], frames), phases),
        any::<u64>(),
    )
        .prop_map(|(sr, nodes, bus, in_node, in_ch, phases, seed)| World { sr, nodes, bus, in_node, in_ch, phases, seed })
        .boxed()
}

/// Value range used for a parameter, and whether it is spread by ratio.
fn range(kind: Kind, p: usize, sr: usize, wide: bool) -> (f64, f64, bool) {
    let nyq = sr as f64 * 0.5;
    match (kind, p) {
        (Kind::Gain, _) => {
            if wide {
                (-100.0, 100.0, false)
            } else {
                (0.05, 1.5, false)
            }
        }
        (Kind::Pan, _) => (-1.0, 1.0, false),
        (Kind::Osc, 0) => (20.0, if wide || sr.is_power_of_two() { 20_000.0 } else { 2_000.0 }, true),
        (Kind::Osc, _) => (0.0, 1.0, false),
        (Kind::Biquad, 0) => (if wide { 20.0 } else { (sr as f64 * 0.006).max(20.0) }, (nyq * 0.9).min(20_000.0), true),
        (Kind::Biquad, 1) => {
            if wide {
                (0.1, 10.0, true)
            } else {
                (0.3, 4.0, true)
            }
        }
        (Kind::Biquad, 2) => {
            if wide {
                (1e-3, 1e3, true)
            } else {
                (0.25, 4.0, true)
            }
        }
        (Kind::Biquad, _) => (0.0, 2.0, false),
        (Kind::Comp, 0) => (0.0, if wide { 1000.0 } else { 30.0 }, false),
        (Kind::Comp, 1) => (0.0, if wide { 10_000.0 } else { 100.0 }, false),
        (Kind::Comp, 2) => (1.0, if wide { 1e6 } else { 20.0 }, true),
        (Kind::Comp, 3) => {
            if wide {
                (-128.0, 24.0, false)
            } else {
                (-60.0, 0.0, false)
            }
        }
        (Kind::Comp, 4) => (0.0, 24.0, false),
        (Kind::Comp, _) => (0.0, if wide { 3.98 } else { 1.5 }, false),
        _ => (0.0, 1.0, false),
    }
}

fn value(kind: Kind, p: usize, sr: usize, wide: bool, v: f64) -> f64 {
    let (lo, hi, ratio) = range(kind, p, sr, wide);
    if ratio {
        lo * (hi / lo).powf(v)
    } else {
        lo + (hi - lo) * v
    }
}

/// Fill in a generated description into a concrete plan.
pub fn plan(w: &World, sc: &Scope) -> Plan {
    let mut specs: Vec<Spec> = w.nodes.iter().map(|d| d.spec).collect();
    for s in &mut specs {
        if s.kind == Kind::Pan {
            s.ch = 2;
        }
    }
    let bus = specs.len();
    specs.push(Spec { kind: Kind::Gain, ch: w.bus, seed: w.seed % 1000, data: 0, nudge: 0 });
    let outs = |i: usize| Any::outs(specs[i].kind, specs[i].ch);
    let ins = |i: usize| Any::ins(specs[i].kind, specs[i].ch);
    let mut edges: Vec<Edge> = vec![];
    let mut initial = vec![];
    for i in 0..bus {
        if outs(i) == 0 {
            continue;
        }
        let later: Vec<usize> = (i + 1..=bus).filter(|j| ins(*j) > 0).collect();
        let mut add = |j: usize, off: u8, first: bool, edges: &mut Vec<Edge>| {
            if edges.iter().any(|e| e.from == i && e.to == j) {
                return;
            }
            let (so, di) = (outs(i), ins(j));
            let src = off as usize % so;
            let dst = (off as usize / 8) % di;
            let (src, dst) = if off < 128 && so <= di { (0, 0) } else { (src, dst) };
            let n = (so - src).min(di - dst);
            edges.push(Edge { from: i, to: j, src, dst, n });
            initial.push(first);
        };
        for (k, (t, off)) in w.nodes[i].to.iter().enumerate() {
            // With re-wiring, some connections come only later.
            let first = !(sc.rewire && k > 0 && off % 2 == 1);
            add(later[*t as usize % later.len()], *off, first, &mut edges);
        }
        if !w.nodes[i].to.iter().any(|_| true) {
            add(bus, 0, true, &mut edges);
        }
    }
    let takers: Vec<usize> = (0..=bus).filter(|j| ins(*j) > 0).collect();
    let input = takers.get(w.in_node as usize % (takers.len() + 1)).copied();
    let settings: Vec<Vec<f64>> = specs
        .iter()
        .map(|s| {
            let mut r = Prng::new(s.seed ^ 0xabc);
            (0..anynode::parameters(s.kind).len()).map(|p| value(s.kind, p, w.sr, sc.wide, r.unit())).collect()
        })
        .collect();

    let pow2 = w.sr.is_power_of_two();
    // Where the next item of each node's queue, and of each parameter, may begin.
    let mut cursor = vec![0f64; specs.len()];
    let mut pcursor: Vec<Vec<f64>> = settings.iter().map(|s| vec![0f64; s.len()]).collect();
    let mut connected = initial.clone();
    let mut gone = vec![false; specs.len()];
    let mut phases = vec![];
    let mut t0 = 0usize;
    for (acts, frames) in &w.phases {
        let mut items: Vec<Item> = vec![];
        let now = t0 as f64;
        for a in acts {
            let i = a.node as usize % specs.len();
            if gone[i] {
                continue;
            }
            let s = specs[i];
            let frac = if pow2 { a.sub as f64 / 16.0 } else { 0.1 + 0.3 * a.sub as f64 / 16.0 };
            // Graph changes, rarely.
            if a.verb >= 236 {
                let k = a.dur as usize;
                if a.verb >= 252 && sc.drops && i != bus {
                    gone[i] = true;
                    for (e, c) in edges.iter().zip(connected.iter_mut()) {
                        if e.from == i || e.to == i {
                            *c = false;
                        }
                    }
                    items.push(Item::Drop(i));
                    continue;
                }
                if sc.rewire && a.verb >= 248 {
                    let j = takers[k % takers.len()];
                    if !gone[j] {
                        items.push(Item::ToInput(j));
                    }
                    continue;
                }
                if sc.rewire && !edges.is_empty() {
                    let e = k % edges.len();
                    if !gone[edges[e].from] && !gone[edges[e].to] {
                        items.push(if connected[e] { Item::Disconnect(e) } else { Item::Connect(e) });
                        connected[e] = !connected[e];
                    }
                    continue;
                }
            }
            let np = settings[i].len();
            if np > 0 {
                let p = a.verb as usize % np;
                let k = (a.verb as usize / 8) % 8;
                if sc.cancels && k == 7 {
                    items.push(Item::CancelParam(i, p, if a.dur % 2 == 0 { None } else { Some(now + a.gap as f64 + frac) }));
                    // Later ramps start wherever the value was left.
                    continue;
                }
                let v = value(s.kind, p, w.sr, sc.wide, a.v);
                if k == 0 {
                    if pcursor[i][p] <= now {
                        items.push(Item::Param(i, p, auto::Change { kind: auto::Kind::Now, value: v, start: now, end: now }));
                        pcursor[i][p] = now + 1.0;
                    }
                    continue;
                }
                let (lo, ..) = range(s.kind, p, w.sr, sc.wide);
                let kind = match k {
                    1 | 2 => auto::Kind::Set,
                    3 | 4 if lo > 0.0 => auto::Kind::Exp,
                    _ => auto::Kind::Lin,
                };
                let from = pcursor[i][p].max(now);
                let start = from.floor() + a.gap as f64 + frac;
                let start = if start <= from { start + 1.0 } else { start };
                // Where times are rounded, steep ramps magnify that.
                let least = if pow2 || sc.wide { 1.0 } else { 16.0 };
                let end = if kind == auto::Kind::Set { start } else { start + least + a.dur as f64 };
                pcursor[i][p] = end + 1.0;
                items.push(Item::Param(i, p, auto::Change { kind, value: v, start, end }));
                continue;
            }
            let from = cursor[i].max(now);
            let t = from.floor() + a.gap as f64 + frac;
            let t = if t <= from && !(sc.ties && cursor[i] > now) { t + 1.0 } else { t.max(from) };
            let frames = |k: f64| k * a.v;
            let verb = a.verb as usize / 3;
            match s.kind {
                Kind::Adsr => match verb % 8 {
                    0..=4 => {
                        cursor[i] = t;
                        items.push(Item::Note(i, a.sub % 3 != 0, t));
                    }
                    _ => {
                        if cursor[i] <= now {
                            items.push(Item::AdsrSet(i, [a.gap as f64, a.dur as f64, a.v, a.dur as f64 * 0.7]));
                        }
                    }
                },
                Kind::Sampler => match verb % 16 {
                    0..=6 => {
                        cursor[i] = t;
                        items.push(Item::Start(i, t, frames(2000.0).floor()));
                    }
                    7..=8 => {
                        cursor[i] = t;
                        items.push(Item::Stop(i, t));
                    }
                    9..=11 => {
                        cursor[i] = t;
                        let a0 = frames(1500.0).floor();
                        items.push(Item::Loop(i, Some(t), a0, a0 + 1.0 + a.dur as f64));
                    }
                    12 => {
                        cursor[i] = t;
                        items.push(Item::Unloop(i, t));
                    }
                    13 => items.push(Item::StartNow(i)),
                    14 => items.push(if sc.cancels && a.dur % 2 == 0 { Item::CancelPlay(i) } else { Item::StopNow(i) }),
                    _ => items.push(Item::Loop(i, None, a.gap as f64, (a.gap + a.dur) as f64 + 1.0)),
                },
                Kind::Rec => match verb % 4 {
                    0..=1 => items.push(Item::Record(i)),
                    2 => items.push(Item::StopRecNow(i)),
                    _ => {
                        cursor[i] = t;
                        items.push(Item::StopRec(i, t));
                    }
                },
                Kind::Mixer => items.push(Item::Level(i, a.gap as usize % s.ch, a.dur as usize % s.ch, a.v)),
                _ => {}
            }
        }
        phases.push((items, *frames as usize));
        t0 += *frames as usize;
    }
    Plan {
        sr: w.sr,
        edges,
        initial,
        input,
        output: bus,
        in_ch: w.in_ch,
        out_ch: w.bus,
        settings,
        audio: noise_planar(w.seed, w.in_ch, t0),
        phases,
        specs,
    }
}

/// How a plan is rendered.
#[derive(Clone, Debug)]
pub struct How {
    pub max_frames: usize,
    pub sizes: Vec<usize>,
    /// Frames rendered before anything is set up; all times move with it.
    pub shift: usize,
    /// Submit scheduled items before the first phase, in this shuffled order.
    pub ahead: Option<u64>,
    /// Instead of dropping a node, remove its connections.
    pub keep_dropped: bool,
    /// Count heap operations in calls that have no new commands to take in.
    pub count: bool,
    /// Disturb the host side: calls of no frames, other channel counts, stopping and starting.
    pub rough: Option<u64>,
    /// Collect notifications only at the end.
    pub neglect: bool,
}

impl How {
    pub fn plain(max_frames: usize) -> How {
        How { max_frames, sizes: vec![], shift: 0, ahead: None, keep_dropped: false, count: false, rough: None, neglect: false }
    }
}

#[derive(Debug, Default)]
pub struct Heard {
    pub out: Planar,
    /// Per recorder, everything it recorded.
    pub recs: Vec<Planar>,
    /// Per meter, the reports.
    pub meters: Vec<Vec<(usize, f32)>>,
    /// Heap operations in steady calls, and the first such call.
    pub heap: Option<(usize, heap::Counts)>,
    pub steady_calls: usize,
    pub allocs: usize,
    pub frees: usize,
    /// Times rendering gave up the processor to wait for something.
    pub waits: i64,
    /// Largest block freed in any call.
    pub max_free: usize,
}

fn apply(items: &[Item], nodes: &mut [Option<Any>], p: &Plan, shift: f64, keep_dropped: bool, kept: &mut Vec<Any>) {
    let sr = p.sr;
    let at = |t: f64| moment(t + shift, sr);
    let pos = |t: f64| secs(t, sr);
    for it in items {
        match *it {
            Item::Param(i, q, c) => {
                if let Some(n) = &mut nodes[i] {
                    auto::Change { start: c.start + shift, end: c.end + shift, ..c }.apply(n.param(q), sr);
                }
            }
            Item::CancelParam(i, q, t) => {
                if let Some(n) = &mut nodes[i] {
                    match t {
                        None => n.param(q).cancel_scheduled_changes(),
                        Some(t) => n.param(q).cancel_scheduled_changes_ending_after(at(t)),
                    }
                }
            }
            Item::Note(i, on, t) => {
                if let Some(Any::Adsr(n)) = &mut nodes[i] {
                    if on {
                        n.note_on_at_time(at(t))
                    } else {
                        n.note_off_at_time(at(t))
                    }
                }
            }
            Item::AdsrSet(i, [a, d, s, r]) => {
                if let Some(Any::Adsr(n)) = &mut nodes[i] {
                    let f = |x: f64| Duration::from_secs_f64(x / sr as f64);
                    n.set_adsr(f(a), f(d), Level::from_linear(s), f(r));
                }
            }
            Item::Record(i) | Item::StopRecNow(i) | Item::StopRec(i, _) => {
                if let Some(Any::Rec(n)) = &nodes[i] {
                    let mut n = n.borrow_mut();
                    match *it {
                        Item::Record(_) => n.record_now(),
                        Item::StopRec(_, t) => n.stop_record_at_time(at(t)),
                        _ => n.stop_record_now(),
                    }
                }
            }
            Item::Level(i, a, b, v) => {
                if let Some(Any::Mixer(n)) = &mut nodes[i] {
                    n.set_level(a, b, Level::from_linear(v));
                }
            }
            Item::Connect(e) => connect(nodes, &p.edges[e]),
            Item::Disconnect(e) => disconnect(nodes, &p.edges[e]),
            Item::ToInput(i) => {
                if let Some(n) = &nodes[i] {
                    n.with(|n| n.connect_to_input());
                }
            }
            Item::Drop(i) => {
                if keep_dropped {
                    for e in p.edges.iter().filter(|e| e.from == i || e.to == i) {
                        disconnect(nodes, e);
                    }
                    kept.extend(nodes[i].take());
                } else {
                    nodes[i] = None;
                }
            }
            Item::Start(i, ..) | Item::StartNow(i) | Item::Stop(i, _) | Item::StopNow(i) | Item::Loop(i, ..) | Item::Unloop(i, _) | Item::CancelPlay(i) => {
                if let Some(Any::Sampler(n)) = &mut nodes[i] {
                    match *it {
                        Item::Start(_, t, a) => n.start_from_position_at_time(at(t), pos(a)),
                        Item::StartNow(_) => n.start_now(),
                        Item::Stop(_, t) => n.stop_at_time(at(t)),
                        Item::StopNow(_) => n.stop_now(),
                        Item::Loop(_, Some(t), a, b) => n.enable_loop_at_time(at(t), pos(a), pos(b)),
                        Item::Loop(_, None, a, b) => n.enable_loop(pos(a), pos(b)),
                        Item::Unloop(_, t) => n.cancel_loop_at_time(at(t)),
                        _ => n.cancel_all(),
                    }
                }
            }
        }
    }
}

fn connect(nodes: &[Option<Any>], e: &Edge) {
    if let (Some(a), Some(b)) = (&nodes[e.from], &nodes[e.to]) {
        a.with(|a| b.with(|b| a.connect_channels_to(b, e.src, e.dst, e.n)));
    }
}

fn disconnect(nodes: &[Option<Any>], e: &Edge) {
    if let (Some(a), Some(b)) = (&nodes[e.from], &nodes[e.to]) {
        a.with(|a| b.with(|b| a.disconnect_from_node(b)));
    }
}

pub fn max_channels(p: &Plan) -> usize {
    p.specs.iter().map(|s| s.ch).max().unwrap().max(p.in_ch).max(p.out_ch)
}

pub fn render(p: &Plan, how: &How) -> Heard {
    render_with(p, how, &mut |_| {})
}

/// `between` runs before every call.
pub fn render_with(p: &Plan, how: &How, between: &mut dyn FnMut(&dyn Context)) -> Heard {
    let mut eng = engine(p.sr, max_channels(p), how.max_frames);
    eng.ctx.start();
    let mut sink: Planar = vec![vec![]; p.out_ch];
    if how.shift < 1 << 20 {
        for n in partition(how.shift, &[how.max_frames]) {
            eng.block(&[], p.in_ch, &mut sink, n);
        }
    } else {
        eng.idle(how.shift as u64);
    }
    render_in(&mut eng, p, how, between).0
}

/// Render in an engine that is running and has rendered as many frames as `how` shifts all times by; the nodes that are left.
pub fn render_in(eng: &mut Eng, p: &Plan, how: &How, between: &mut dyn FnMut(&dyn Context)) -> (Heard, Vec<Option<Any>>) {
    let max_ch = max_channels(p);
    let mut h = Heard { out: vec![vec![]; p.out_ch], ..Default::default() };
    let mut sink: Planar = vec![vec![]; p.out_ch];
    let mut nodes: Vec<Option<Any>> = p.specs.iter().map(|s| Some(Any::new(s, eng.ctx.as_mut()))).collect();
    for (i, n) in nodes.iter_mut().enumerate() {
        for (q, v) in p.settings[i].iter().enumerate() {
            n.as_mut().unwrap().param(q).set_value_now(*v);
        }
    }
    for (e, on) in p.edges.iter().zip(&p.initial) {
        if *on {
            connect(&nodes, e);
        }
    }
    if let Some(i) = p.input {
        nodes[i].as_ref().unwrap().with(|n| n.connect_to_input());
    }
    nodes[p.output].as_ref().unwrap().with(|n| n.connect_to_output());
    let shift = how.shift as f64;
    let mut kept = vec![];
    if let Some(order) = how.ahead {
        let mut timed: Vec<Item> = p.phases.iter().flat_map(|x| &x.0).filter(|i| i.time().is_some()).copied().collect();
        let mut r = Prng::new(order);
        if order != 0 {
            for i in (1..timed.len()).rev() {
                timed.swap(i, r.below(i + 1));
            }
        }
        apply(&timed, &mut nodes, p, shift, how.keep_dropped, &mut kept);
    }
    let rec_of = |k: usize| p.specs[..k].iter().filter(|s| s.kind == Kind::Rec).count();
    let met_of = |k: usize| p.specs[..k].iter().filter(|s| s.kind == Kind::Meter).count();
    h.recs = p.specs.iter().filter(|s| s.kind == Kind::Rec).map(|s| vec![vec![]; s.ch]).collect();
    h.meters = vec![vec![]; met_of(p.specs.len())];
    let collect = |eng: &mut Eng, nodes: &[Option<Any>], h: &mut Heard| {
        eng.ctx.process_notifications();
        for (i, n) in nodes.iter().enumerate() {
            match n {
                Some(Any::Rec(r)) => {
                    if let Some(b) = r.borrow_mut().take_recording() {
                        for (c, d) in to_planar(&b).into_iter().enumerate() {
                            h.recs[rec_of(i)][c].extend(d);
                        }
                    }
                }
                Some(Any::Meter(m)) => {
                    h.meters[met_of(i)].extend(m.borrow_mut().take_notifications().iter().map(|x| (x.channel_index(), x.peak_level())));
                }
                _ => {}
            }
        }
    };
    let mut rough = how.rough.map(Prng::new);
    let mut frame = 0;
    for (items, frames) in &p.phases {
        match how.ahead {
            Some(_) => {
                let rest: Vec<Item> = items.iter().filter(|i| i.time().is_none()).copied().collect();
                apply(&rest, &mut nodes, p, shift, how.keep_dropped, &mut kept);
            }
            None => apply(items, &mut nodes, p, shift, how.keep_dropped, &mut kept),
        }
        for (c, n) in partition(*frames, &how.sizes).into_iter().enumerate() {
            between(eng.ctx.as_ref());
            if let Some(r) = &mut rough {
                disturb(r, eng, max_ch);
            }
            let mut input = OwnedAudioBuffer::new(n, p.in_ch, p.sr);
            for (k, d) in p.audio.iter().enumerate() {
                input.get_channel_data_mut(SampleLocation::channel(k)).copy_from_slice(&d[frame..frame + n]);
            }
            let mut o = OwnedAudioBuffer::new(n, p.out_ch, p.sr);
            for k in 0..p.out_ch {
                o.get_channel_data_mut(SampleLocation::channel(k)).fill(7.25);
            }
            let before = if how.count { heap::waits() } else { 0 };
            let ((), counts) = heap::counted(|| eng.pro.process(&input, &mut o));
            if how.count {
                h.waits += heap::waits() - before;
            }
            h.max_free = h.max_free.max(counts.max_free);
            if how.count && c > 0 {
                h.steady_calls += 1;
                h.allocs += counts.allocs as usize;
                h.frees += counts.frees as usize;
                if (counts.allocs > 0 || counts.frees > 0) && h.heap.is_none() {
                    h.heap = Some((frame, counts));
                }
            }
            for (k, d) in h.out.iter_mut().enumerate() {
                d.extend_from_slice(o.get_channel_data(SampleLocation::channel(k)));
            }
            frame += n;
        }
        if !how.neglect {
            collect(eng, &nodes, &mut h);
        }
    }
    // What recorders still hold comes out when they stop.
    for n in nodes.iter().flatten() {
        if let Any::Rec(r) = n {
            r.borrow_mut().stop_record_now();
        }
    }
    eng.block(&[], p.in_ch, &mut sink, 1);
    collect(eng, &nodes, &mut h);
    (h, nodes)
}

fn disturb(r: &mut Prng, eng: &mut Eng, max_ch: usize) {
    match r.below(20) {
        0 => eng.ctx.stop(),
        1..=3 => eng.ctx.start(),
        4..=7 => {
            // Any number of frames and channels, up to what the engine was made for.
            let n = [0, 1, 7, 50][r.below(4)];
            let i = OwnedAudioBuffer::new(n, r.below(max_ch + 1), eng.sr);
            let mut o = OwnedAudioBuffer::new(n, r.below(max_ch + 1), eng.sr);
            eng.pro.process(&i, &mut o);
        }
        8 => eng.ctx.process_notifications(),
        _ => {}
    }
}

/// The same output, recordings and reports, to within rounding.
pub fn same_heard(a: &Heard, b: &Heard, tol: f32, skip_meters: bool) -> Result<(), String> {
    close_rel("output", &b.out, &a.out, tol)?;
    for (i, (x, y)) in a.recs.iter().zip(&b.recs).enumerate() {
        close_rel(&format!("recording {i}"), y, x, tol)?;
    }
    if skip_meters {
        return Ok(());
    }
    for (i, (x, y)) in a.meters.iter().zip(&b.meters).enumerate() {
        if x.len() != y.len() {
            return Err(format!("meter {i} gave {} reports instead of {}", y.len(), x.len()));
        }
        for (j, (u, v)) in x.iter().zip(y).enumerate() {
            if u.0 != v.0 || !((u.1 - v.1).abs() <= tol * (1.0 + u.1.abs())) {
                return Err(format!("meter {i} report {j} is {v:?} instead of {u:?}"));
            }
        }
    }
    Ok(())
}

/// Within `tol` of one or of the value.
pub fn close_rel(what: &str, got: &[Vec<f32>], want: &[Vec<f32>], tol: f32) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} channels instead of {}", got.len(), want.len()));
    }
    for c in 0..want.len() {
        if got[c].len() != want[c].len() {
            return Err(format!("{what}: channel {c} has {} frames instead of {}", got[c].len(), want[c].len()));
        }
        for f in 0..want[c].len() {
            let (g, w) = (got[c][f], want[c][f]);
            if !((g - w).abs() <= tol * w.abs().max(1.0)) && g.to_bits() != w.to_bits() {
                return Err(format!("{what}: channel {c} frame {f} is {g:?} instead of {w:?}"));
            }
        }
    }
    Ok(())
}

/// Rounding of times matters to oscillators, which add up their frequency.
pub fn tolerance(p: &Plan) -> f32 {
    if p.sr.is_power_of_two() || p.specs.iter().all(|s| s.kind != Kind::Osc) {
        1e-4
    } else {
        1e-3
    }
}

pub fn audible(p: &Planar) -> bool {
    p.iter().flatten().any(|x| x.abs() > 1e-4)
}
