//! Parameter automation: generated schedules and the reference evaluation of them.

use proptest::prelude::*;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Now,
    Set,
    Lin,
    Exp,
}

/// A change of one parameter; times in frames.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Change {
    pub kind: Kind,
    pub value: f64,
    pub start: f64,
    pub end: f64,
}

impl Change {
    pub fn apply(&self, p: &mut AudioParameter, sr: usize) {
        let t = |f: f64| crate::util::moment(f, sr);
        match self.kind {
            Kind::Now => p.set_value_now(self.value),
            Kind::Set => p.set_value_at_time(self.value, t(self.start)),
            Kind::Lin => p.linear_ramp_to_value(self.value, t(self.start), t(self.end)),
            Kind::Exp => p.exponential_ramp_to_value(self.value, t(self.start), t(self.end)),
        }
    }

    /// Time line position the change ends at (an immediate change counts as "in the past").
    pub fn when(&self) -> f64 {
        match self.kind {
            Kind::Now => if crate::util::aged() { -1.0 } else { 0.0 },
            Kind::Set => self.start,
            _ => self.end,
        }
    }

    fn begins(&self) -> f64 {
        if self.kind == Kind::Now { 0.0 } else { self.start }
    }
}

#[derive(Clone, Copy)]
struct Segment {
    kind: Kind,
    t0: f64,
    v0: f64,
    t1: f64,
    v1: f64,
}

/// Reference evaluation in closed form; fed changes as they are submitted.
pub struct Model {
    pending: Vec<Change>,
    seg: Segment,
}

impl Model {
    pub fn new(initial: f64) -> Self {
        Model { pending: vec![], seg: Segment { kind: Kind::Set, t0: 0.0, v0: initial, t1: 0.0, v1: initial } }
    }

    pub fn submit(&mut self, c: Change) {
        let at = self.pending.iter().position(|p| p.when() > c.when()).unwrap_or(self.pending.len());
        self.pending.insert(at, c);
    }

    pub fn cancel_all(&mut self) {
        self.pending.clear();
    }

    pub fn cancel_ending_after(&mut self, t: f64) {
        self.pending.retain(|p| p.when() <= t);
    }

    fn eval(&self, t: f64) -> f64 {
        let s = &self.seg;
        if t >= s.t1 {
            return s.v1;
        }
        let x = (t - s.t0) / (s.t1 - s.t0);
        match s.kind {
            Kind::Exp => s.v0 * (s.v1 / s.v0).powf(x),
            _ => s.v0 + (s.v1 - s.v0) * x,
        }
    }

    /// Value at frame `t` (frames must be visited in order).
    pub fn at(&mut self, t: f64) -> f64 {
        while self.pending.first().is_some_and(|c| c.begins() <= t) {
            let c = self.pending.remove(0);
            let v0 = self.eval(t);
            let t1 = if c.when() <= t { t } else { c.when() };
            self.seg = Segment { kind: c.kind, t0: t, v0, t1, v1: c.value };
        }
        self.eval(t)
    }

    /// Value at `t`, and what a timing error of `dt` frames could make of it.
    pub fn at_tol(&mut self, t: f64, dt: f64) -> (f64, f64) {
        let v = self.at(t);
        let s = &self.seg;
        let slope = if t >= s.t1 { 0.0 } else { ((s.v1 - s.v0) / (s.t1 - s.t0)).abs() };
        let steep = match s.kind {
            Kind::Exp => (s.v0 / s.v1).max(s.v1 / s.v0),
            _ => 1.0,
        };
        (v, slope * dt * steep + 4e-6 * v.abs().max(1.0))
    }

    /// Whether a ramp is under way at `t`.
    pub fn ramping(&self, t: f64) -> bool {
        t < self.seg.t1
    }

    pub fn pending(&self) -> &[Change] {
        &self.pending
    }
}

/// One generated step of a schedule: a gap, a change, and how far ahead (or behind) it is submitted.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Step {
    pub gap: u16,
    pub sub: u8,
    pub kind: Kind,
    pub dur: u16,
    pub value: f64,
    /// Calls before (positive) or after (negative) the call in which it begins.
    pub lead: i8,
}

pub fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![3 => Just(Kind::Set), 3 => Just(Kind::Lin), 2 => Just(Kind::Exp), 1 => Just(Kind::Now)].boxed()
}

pub fn step() -> BoxedStrategy<Step> {
    let gap = prop_oneof![2 => Just(0u16), 2 => 0u16..4, 3 => 0u16..80, 1 => 0u16..1000];
    let dur = prop_oneof![1 => Just(0u16), 1 => 1u16..4, 4 => 1u16..150, 1 => 1u16..2000];
    let value = prop_oneof![4 => 0.05f64..4.0, 1 => prop::sample::select(vec![0.25f64, 0.5, 1.0, 2.0])];
    let lead = prop_oneof![3 => 1i8..40, 2 => 0i8..2, 1 => -3i8..0];
    (gap, 0u8..16, kind(), dur, value, lead)
        .prop_map(|(gap, sub, kind, dur, value, lead)| Step { gap, sub, kind, dur, value, lead })
        .boxed()
}

/// A change together with the index of the call before which it is submitted.
#[derive(Clone, Copy, Debug)]
pub struct Submitted {
    pub call: usize,
    pub change: Change,
}

/// Lay out steps on the time line: windows follow one another, and nothing is submitted so
/// late that it would reach back past a window that has begun.
/// `starts`: first frame of each call, plus the end. `sixteenths`: whether times may lie anywhere
/// (exact on power-of-two rates) or only midway between frames.
pub fn lay_out(steps: &[Step], starts: &[usize], sixteenths: bool, signed: bool) -> Vec<Submitted> {
    let calls = starts.len() - 1;
    let call_of = |t: f64| -> i64 {
        match starts.iter().position(|&s| s as f64 > t) {
            Some(i) => i as i64 - 1,
            None => calls as i64,
        }
    };
    let mut out: Vec<Submitted> = vec![];
    let mut t = 0.0f64;
    for s in steps {
        let frac = if sixteenths { s.sub as f64 / 16.0 } else { 0.25 + s.sub as f64 / 32.0 };
        let start = (t + s.gap as f64).floor() + frac;
        let start = if start < t { start + 1.0 } else { start };
        if start > *starts.last().unwrap() as f64 {
            break;
        }
        let end = match s.kind {
            Kind::Now | Kind::Set => start,
            _ => (start + s.dur as f64).floor() + if sixteenths { (s.sub as f64 * 7.0 % 16.0) / 16.0 } else { frac },
        };
        let end = end.max(start);
        t = end;
        let value = if signed && s.kind != Kind::Exp { s.value - 2.0 } else { s.value };
        let call = (call_of(start) - s.lead as i64).max(0).min(calls as i64 - 1) as usize;
        out.push(Submitted { call, change: Change { kind: s.kind, value, start, end } });
    }
    // A change may come late only while no later window has been entered.
    for i in (0..out.len()).rev() {
        for j in i + 1..out.len() {
            let next_start = call_of(out[j].change.start).max(0) as usize;
            let tied = out[i].change.when() == out[j].change.when();
            let limit = if tied { out[j].call } else { next_start.max(out[j].call) };
            if out[i].call > limit {
                out[i].call = limit;
            }
        }
    }
    // Immediate changes take effect at the call they are made in: turn them into ones whose
    // window is the start of that call, and drop those that would meet anything else there.
    let snapshot = out.clone();
    let mut i = 0;
    out.retain(|s| {
        let k = i;
        i += 1;
        if s.change.kind != Kind::Now {
            return true;
        }
        let at = starts[s.call] as f64;
        !snapshot.iter().enumerate().any(|(j, o)| {
            j != k
                && o.change.kind != Kind::Now
                && ((o.call == s.call && o.change.start <= at)
                    || (o.call <= s.call && o.change.start <= at && o.change.end > at))
        })
    });
    out
}

pub fn call_starts(blocks: &[usize]) -> Vec<usize> {
    let mut v = vec![0];
    for b in blocks {
        v.push(v.last().unwrap() + b);
    }
    v
}
