//! Level conversions.

use crate::runner::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::Level;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub db1: f64,
    pub db2: f64,
    pub lin1: f64,
    pub lin2: f64,
}

const FLOOR: f64 = -128.0;

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "pairs of dB values in -400..200 and of gains 0..1e6, dense around the floor; non-trivial: both dB values above the floor and distinct";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 10_000_000 } else { 60_000_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let db = prop_oneof![4 => -128.0f64..100.0, 1 => -400.0f64..200.0, 1 => -130.0f64..-126.0, 1 => prop::sample::select(vec![-128.0f64, -127.999999, -128.000001, 0.0, -6.0, -1000.0])];
        let lin = prop_oneof![2 => 0.0f64..2.0, 2 => (0.1f64..10.0, -16i32..6).prop_map(|(m, e)| m * 10f64.powi(e)), 1 => 1e-10f64..1e-6, 1 => prop::sample::select(vec![0.0f64, 1.0, 1e-9, 3.9810717e-7])];
        (db.clone(), db, lin.clone(), lin).prop_map(|(db1, db2, lin1, lin2)| Case { db1, db2, lin1, lin2 }).boxed()
    }

    fn run(k: &Case) -> CaseResult {
        for db in [k.db1, k.db2] {
            let l = Level::from_db(db);
            if db > FLOOR {
                let want = 10f64.powf(db / 20.0);
                if (l.as_linear() - want).abs() > want * 1e-12 {
                    return Err(format!("{db} dB is {}, expected {want}", l.as_linear()));
                }
                if (l.as_db() - db).abs() > 1e-9 * db.abs().max(1.0) {
                    return Err(format!("{db} dB comes back as {}", l.as_db()));
                }
                let f = Level::from_db_f32(db as f32).as_linear();
                if db as f32 > FLOOR as f32 && (f - want).abs() > want * 1e-5 {
                    return Err(format!("{db} dB (f32) is {f}"));
                }
            } else if l.as_linear() != 0.0 || l.as_db() != FLOOR || !l.is_zero() {
                return Err(format!("{db} dB is at or below the floor, but converts to {} / {} dB", l.as_linear(), l.as_db()));
            }
            let single = Level::from_db_f32(db as f32);
            if db as f32 <= FLOOR as f32 && (single.as_linear() != 0.0 || single.as_db() != FLOOR) {
                return Err(format!("{db} dB (f32) is at or below the floor, but converts to {}", single.as_linear()));
            }
            if (l.as_linear_f32() as f64 - l.as_linear()).abs() > 1e-7 * l.as_linear() {
                return Err(format!("{db} dB: f32 gain"));
            }
        }
        if k.db1 < k.db2 {
            let (a, b) = (Level::from_db(k.db1), Level::from_db(k.db2));
            if a > b || a.as_linear() > b.as_linear() || a.as_db() > b.as_db() {
                return Err(format!("dB to gain is not monotone between {} and {}", k.db1, k.db2));
            }
            let (a, b) = (Level::from_db_f32(k.db1 as f32), Level::from_db_f32(k.db2 as f32));
            if a > b || a.as_db() > b.as_db() {
                return Err(format!("dB (f32) to gain is not monotone between {} and {}", k.db1, k.db2));
            }
        }
        for lin in [k.lin1, k.lin2] {
            let l = Level::from_linear(lin);
            let db = l.as_db();
            if l.as_linear() != lin {
                return Err(format!("gain {lin} comes back as {}", l.as_linear()));
            }
            if !(db >= FLOOR) {
                return Err(format!("gain {lin} is {db} dB, below the silence floor"));
            }
            let want = (20.0 * lin.log10()).max(FLOOR);
            // Between -180 dB and the floor only the floor is acceptable; above it the formula.
            if (db - want).abs() > 1e-9 {
                return Err(format!("gain {lin} is {db} dB, expected {want}"));
            }
            if db > FLOOR + 1e-9 {
                let back = Level::from_db(db).as_linear();
                if (back - lin).abs() > lin * 1e-9 {
                    return Err(format!("gain {lin} comes back as {back} through dB"));
                }
            }
            if l.is_zero() != (lin <= f64::EPSILON) || l.is_unity() != ((lin - 1.0).abs() <= 3e-16) && (lin - 1.0).abs() > 1e-9 {
                return Err(format!("gain {lin}: is_zero/is_unity"));
            }
            let (lo, hi) = (Level::from_linear(k.lin1.min(k.lin2) * 0.5), Level::from_linear(k.lin1.max(k.lin2) * 0.9));
            if lo <= hi && l.clamp(&lo, &hi).as_linear() != lin.clamp(lo.as_linear(), hi.as_linear()) {
                return Err(format!("clamping gain {lin}"));
            }
        }
        let (a, b) = (Level::from_linear(k.lin1), Level::from_linear(k.lin2));
        if k.lin1 < k.lin2 && (a.as_db() > b.as_db() || a >= b) {
            return Err(format!("gain to dB is not monotone between {} ({} dB) and {} ({} dB)", k.lin1, a.as_db(), k.lin2, b.as_db()));
        }
        if Level::unity().as_db() != 0.0 || Level::unity().as_linear() != 1.0 || Level::zero().as_db() != FLOOR || !Level::unity().is_unity() {
            return Err("unity or zero".into());
        }
        let mut o = Outcome::new(k.db1 > FLOOR && k.db2 > FLOOR && k.db1 != k.db2);
        o.label((1e-10..1e-6).contains(&k.lin1), "near the floor");
        Ok(o)
    }
}
