//! Sample-rate conversion against exact linear interpolation.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub src_rate: u32,
    pub dst_rate: u32,
    pub src_len: u32,
    pub dst_len: u32,
    pub ch: u8,
    pub src_at: (u8, u8),
    pub dst_at: (u8, u8),
    pub seed: u64,
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "rate pairs 1..384000 (common rates favoured), lengths to 2^20 frames (quick: 1 in 40 cases that long), offsets in source and destination; non-trivial: rates differ and at least 8 output frames come from inside the source";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 1_500_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let rate = prop_oneof![
            4 => prop::sample::select(vec![8_000u32, 11_025, 16_000, 22_050, 32_000, 44_100, 48_000, 88_200, 96_000, 192_000]),
            1 => 1u32..384_000,
            1 => 1u32..16
        ];
        let len = prop_oneof![30 => 1u32..64, 10 => 1u32..3000, 1 => 100_000u32..(1 << 20)];
        (rate.clone(), rate, any::<bool>(), len.clone(), len, 1u8..4, (0u8..2, 0u8..5), (0u8..2, 0u8..5), any::<u64>())
            .prop_map(|(a, b, eq, n, m, ch, s, d, seed)| Case {
                src_rate: a,
                dst_rate: if eq && seed % 4 == 0 { a } else { b },
                src_len: n,
                // Mostly as long as the converted source.
                dst_len: if seed % 3 != 0 { ((n as f64 * b as f64 / a as f64).ceil() as u32).clamp(1, 1 << 20) } else { m },
                ch,
                src_at: s,
                dst_at: d,
                seed,
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let ch = k.ch as usize;
        let (sc, so) = (k.src_at.0 as usize, k.src_at.1 as usize);
        let (dc, d_o) = (k.dst_at.0 as usize, k.dst_at.1 as usize);
        let (n, m) = (k.src_len as usize, k.dst_len as usize);
        let sm = noise_planar(k.seed, ch + sc, n + so);
        let dm = noise_planar(k.seed ^ 99, ch + dc, m + d_o);
        let s = from_planar(&sm, n + so, k.src_rate as usize);
        let mut d = from_planar(&dm, m + d_o, k.dst_rate as usize);
        d.sample_rate_convert_from(&s, SampleLocation::new(sc, so), SampleLocation::new(dc, d_o), ch);
        let got = to_planar(&d);
        let mut inside = 0;
        for c in 0..ch + dc {
            for f in 0..m + d_o {
                let g = got[c][f] as f64;
                if c < dc || f < d_o {
                    if got[c][f] != dm[c][f] {
                        return Err(format!("channel {c} frame {f} outside the destination changed"));
                    }
                    continue;
                }
                let row = &sm[sc + c - dc][so..];
                // Exact position: (f - d_o) * src / dst.
                let num = (f - d_o) as u64 * k.src_rate as u64;
                let (q, r) = ((num / k.dst_rate as u64) as usize, num % k.dst_rate as u64);
                let a = row[q.min(n - 1)] as f64;
                let b = row[(q + 1).min(n - 1)] as f64;
                let w = r as f64 / k.dst_rate as f64;
                let want = a + (b - a) * w;
                if q + 1 < n {
                    inside += 1;
                }
                let exact = k.src_rate == k.dst_rate;
                if (exact && got[c][f] != row[q.min(n - 1)]) || !((g - want).abs() <= 1e-5) {
                    return Err(format!("channel {c} frame {f} is {g}, interpolating at {q}+{w:.6} gives {want}"));
                }
            }
        }
        let mut o = Outcome::new(k.src_rate != k.dst_rate && inside >= 8);
        o.label(k.src_rate == k.dst_rate, "same rate");
        o.label(m > 100_000, "long");
        o.label(k.src_rate < k.dst_rate, "up");
        o.label(k.src_rate > k.dst_rate, "down");
        Ok(o)
    }
}
