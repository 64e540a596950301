//! Timestamp algebra on the fixed-point time line.

use crate::runner::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::Timestamp;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub a: f64,
    pub b: f64,
    pub c: f64,
    pub rate: u32,
    pub samples: i64,
    pub beats: f64,
    pub tempo: f64,
    pub steps: u16,
    pub step: u32,
}

/// One step of the time line.
const RES: f64 = 1.0 / 4294967296.0;

pub struct P;

fn near(what: &str, got: f64, want: f64, tol: f64) -> Result<(), String> {
    if (got - want).abs() <= tol {
        Ok(())
    } else {
        Err(format!("{what}: {got:?} instead of {want:?} (tolerance {tol:e})"))
    }
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "three times of magnitude up to 2^29 s (all scales), rates, tempos, up to 2000 increments; non-trivial: all three times non-zero and distinct";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 10_000_000 } else { 30_000_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let time = prop_oneof![
            2 => -1000.0f64..1000.0,
            2 => (-1.0f64..1.0, 0i32..30).prop_map(|(m, e)| m * 2f64.powi(e)),
            2 => (-1.0f64..1.0, 0i32..34).prop_map(|(m, e)| m * 2f64.powi(-e)),
            1 => (-1000i64..1000).prop_map(|n| n as f64 / 44_100.0),
            1 => Just(0.0)
        ];
        let rate = prop_oneof![prop::sample::select(vec![44_100u32, 48_000, 96_000, 32_768]), 1u32..384_001];
        (time.clone(), time.clone(), time, rate, prop_oneof![-1000i64..1000, -(1i64 << 35)..(1i64 << 35)], -1e6f64..1e6, 1.0f64..1000.0, prop_oneof![20 => 0u16..20, 1 => 0u16..2000], prop_oneof![Just(1u32), 0u32..100_000])
            .prop_map(|(a, b, c, rate, samples, beats, tempo, steps, step)| Case { a, b, c, rate, samples, beats, tempo, steps, step })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let t = Timestamp::from_seconds;
        let sr = k.rate as usize;
        let (a, b, c) = (t(k.a), t(k.b), t(k.c));
        // Conversions lose less than one step (values are beyond f64's exact range only above 2^21 s).
        let fl = |x: f64| x.abs() * 2.3e-16;
        for (x, ts) in [(k.a, a), (k.b, b), (k.c, c)] {
            near("seconds round trip", ts.as_seconds(), x, RES + fl(x))?;
            near("as samples", ts.as_samples(sr), x * sr as f64, (RES + 2.0 * fl(x)) * sr as f64)?;
            near("as beats", ts.as_beats(k.tempo), x * k.tempo / 60.0, (RES + 4.0 * fl(x)) * k.tempo / 60.0)?;
            if x >= 0.0 {
                near("from duration", Timestamp::from_duration(std::time::Duration::from_secs_f64(x)).as_seconds(), x, 1.1e-9 + fl(x))?;
            }
            if t(ts.as_seconds()) != ts && x.abs() < 1e6 {
                return Err(format!("{x}: converting to seconds and back changes the time"));
            }
        }
        let n = k.samples.clamp(-(1i64 << 29) * sr as i64, (1i64 << 29) * sr as i64) as f64;
        let ns = n / sr as f64;
        near("samples round trip", Timestamp::from_samples(n, sr).as_samples(sr), n, (RES + 2.0 * fl(ns)) * sr as f64)?;
        near("from samples", Timestamp::from_samples(n, sr).as_seconds(), ns, RES + fl(ns))?;
        let bs = k.beats * 60.0 / k.tempo;
        near("from beats", Timestamp::from_beats(k.beats, k.tempo).as_seconds(), bs, RES + 4.0 * fl(bs))?;
        near("beats round trip", Timestamp::from_beats(k.beats, k.tempo).as_beats(k.tempo), k.beats, (RES + 6.0 * fl(bs)) * k.tempo / 60.0)?;
        // Algebra is exact.
        if a + b != b + a || (a + b) + c != a + (b + c) || (a + b) - b != a || a - a != Timestamp::zero() || a + Timestamp::zero() != a {
            return Err("addition and subtraction are not exact".into());
        }
        if Timestamp::default() != Timestamp::zero() || Timestamp::zero().as_seconds() != 0.0 {
            return Err("zero".into());
        }
        // Order.
        for (x, y, p, q) in [(k.a, k.b, a, b), (k.b, k.c, b, c), (k.a, k.c, a, c)] {
            if (x <= y && p > q) || (x >= y && p < q) {
                return Err(format!("order of {x} and {y} reversed"));
            }
            if (y - x).abs() > 2.0 * RES + fl(x) + fl(y) && (p == q || (p < q) != (x < y) || p.partial_cmp(&q) != Some(p.cmp(&q)) || (p.max(q) == p) != (x > y)) {
                return Err(format!("{x} and {y} not told apart"));
            }
            if (p == q) != (p.cmp(&q) == std::cmp::Ordering::Equal) || p.as_seconds() == q.as_seconds() && p != q && x.abs() < 1e6 {
                return Err("equality and order disagree".into());
            }
            if (p + c < q + c) != (p < q) {
                return Err("addition does not keep order".into());
            }
        }
        near("sum", (a + b).as_seconds(), a.as_seconds() + b.as_seconds(), fl(k.a) + fl(k.b))?;
        near("difference", (a - b).as_seconds(), a.as_seconds() - b.as_seconds(), fl(k.a) + fl(k.b))?;
        // Increments.
        // Exactly so when the increment is a whole number of steps.
        let whole = (k.c * 4294967296.0).trunc() / 4294967296.0;
        if a.incremented_by_seconds(whole) != a + t(whole) || a.incremented_by_seconds(RES) - a != t(RES) {
            return Err(format!("{} incremented by {whole} s or by one step of the time line is not their sum", k.a));
        }
        near("increment by seconds", a.incremented_by_seconds(k.b).as_seconds(), k.a + k.b, 2.0 * RES + 2.0 * (fl(k.a) + fl(k.b)))?;
        near("increment by beats", a.incremented_by_beats(k.beats, k.tempo).as_seconds(), k.a + bs, 2.0 * RES + 4.0 * (fl(k.a) + fl(bs)))?;
        let step = k.step as usize;
        let mut x = a;
        for i in 0..k.steps as usize {
            let y = x.incremented_by_samples(step, sr);
            if y < x || (y == x) != (step == 0) {
                return Err(format!("increment {i} by {step} samples does not advance"));
            }
            x = y;
        }
        let total = step * k.steps as usize;
        let once = a.incremented_by_samples(total, sr);
        let secs = total as f64 / sr as f64;
        near("increment by samples", once.as_seconds(), a.as_seconds() + secs, RES + 2.0 * (fl(k.a) + fl(secs)))?;
        near("repeated increments", (x - once).as_seconds(), 0.0, RES * (k.steps as f64 + 1.0))?;
        let mut o = Outcome::new(k.a != 0.0 && k.b != 0.0 && k.c != 0.0 && k.a != k.b && k.b != k.c);
        o.label(k.a.abs() > 1e6, "above a million seconds");
        o.label(k.a.abs() < 1e-6, "below a microsecond");
        o.label(k.steps > 100, "over 100 increments");
        Ok(o)
    }
}
