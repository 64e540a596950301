//! Mixing kernels against scalar arithmetic, at every length and alignment.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub len: u16,
    pub ch: u8,
    pub src_off: u8,
    pub dst_off: u8,
    pub src_tail: u8,
    pub dst_tail: u8,
    pub seed: u64,
    /// 0 add, 1 add with gain, 2 apply gains, 3 constant gains; internal: 4 add with gains, 5 sum,
    /// 6 subtract, 7 multiply by gains, 8 by a value, 9 add, 10 add with gain
    pub op: u8,
    pub gain: f32,
    /// 0 unit range, 1 wide range of magnitudes, 2 sparse
    pub data: u8,
}

fn data(kind: u8, seed: u64, n: usize) -> Vec<f32> {
    let mut r = Prng::new(seed);
    (0..n)
        .map(|_| match kind {
            0 => r.sym() as f32,
            1 => (r.sym() * 2f64.powi(r.below(60) as i32 - 40)) as f32,
            _ => if r.below(4) == 0 { r.sym() as f32 } else { 0.0 },
        })
        .collect()
}

#[cfg(rawdio_verif)]
fn kernel(k: &Case, s: &OwnedAudioBuffer, sl: SampleLocation, gains: &[f32], d: &mut OwnedAudioBuffer, dl: SampleLocation, n: usize) {
    let place = |shift: u64, data: &[f32]| {
        let mut room = vec![0.0f32; data.len() + 16];
        let at = (0..16).find(|a| (room.as_ptr() as usize / 4 + a) % 16 == shift as usize % 16).unwrap();
        room[at..at + data.len()].copy_from_slice(data);
        (room, at)
    };
    // Half the time all three alike.
    let alike = k.seed % 2 == 0;
    let (gr, ga) = place(if alike { k.seed / 2 } else { k.seed / 32 }, gains);
    let gains = &gr[ga..ga + n];
    for c in 0..k.ch as usize {
        let (xr, xa) = place(if alike { k.seed / 2 } else { k.seed / 512 }, &s.get_channel_data(sl.with_channel(c))[..n]);
        let x = &xr[xa..xa + n];
        let target = &mut d.get_channel_data_mut(dl.with_channel(c))[..n];
        let (mut yr, ya) = place(k.seed / 2, target);
        let y = &mut yr[ya..ya + n];
        match k.op {
            4 => rawdio::verif::mix_into_with_gains(x, y, gains),
            5 => rawdio::verif::mix(x, gains, y),
            6 => rawdio::verif::subtract_from(x, y),
            7 => rawdio::verif::multiply(y, gains),
            8 => rawdio::verif::multiply_by_value(y, k.gain),
            9 => rawdio::verif::mix_into(x, y),
            _ => rawdio::verif::mix_into_with_gain(x, y, k.gain),
        }
        target.copy_from_slice(y);
    }
}
#[cfg(not(rawdio_verif))]
fn kernel(_: &Case, _: &OwnedAudioBuffer, _: SampleLocation, _: &[f32], _: &mut OwnedAudioBuffer, _: SampleLocation, _: usize) {}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "regions of 0..600 samples at every frame offset modulo 64 bytes of source and destination, magnitudes 2^-40..2^20; non-trivial: at least 17 samples (one full vector and a remainder)";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 1_500_000 } else { 20_000_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (
            (prop_oneof![0u16..40, sizes16(0..600, u16::MAX)], sizes8(1..4, 24), 0u8..33, 0u8..33, 0u8..20, 0u8..20),
            (any::<u64>(), if cfg!(rawdio_verif) { 0u8..11 } else { 0u8..4 }, prop_oneof![Just(0.0f32), Just(1.0), Just(-1.0), -4.0f32..4.0, -1e-3f32..1e-3, (-2.0f32..2.0, -100i32..60).prop_map(|(g, e)| g * 2f32.powi(e))], 0u8..3),
        )
            .prop_map(|((len, ch, src_off, dst_off, src_tail, dst_tail), (seed, op, gain, data))| Case {
                len, ch, src_off, dst_off, src_tail, dst_tail, seed, op, gain, data,
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let n = k.len as usize;
        let ch = k.ch as usize;
        let (so, d_o) = (k.src_off as usize, k.dst_off as usize);
        let sn = so + n + k.src_tail as usize;
        let dn = d_o + n + k.dst_tail as usize;
        let sm: Planar = (0..ch).map(|c| data(k.data, k.seed + c as u64, sn)).collect();
        let dm: Planar = (0..ch).map(|c| data(k.data, k.seed ^ (0x9999 + c as u64), dn)).collect();
        let s = from_planar(&sm, sn, 48_000);
        let mut d = from_planar(&dm, dn, 48_000);
        let (sl, dl) = (SampleLocation::frame(so), SampleLocation::frame(d_o));
        let mut gains = data(0, k.seed ^ 31, n);
        if k.op == 3 {
            gains.fill(k.gain);
        }
        match k.op {
            0 => d.add_from(&s, sl, dl, ch, n),
            1 => d.add_from_with_gain(&s, sl, dl, ch, n, k.gain),
            2 | 3 => MutableBorrowedAudioBuffer::slice_frames(&mut d, d_o, n).apply_gain(&gains),
            _ => {
                // The kernels themselves, at alignments of their own.
                kernel(k, &s, sl, &gains, &mut d, dl, n);
            }
        }
        let got = to_planar(&d);
        for c in 0..ch {
            for f in 0..dn {
                let old = dm[c][f] as f64;
                let inside = f >= d_o && f < d_o + n;
                if !inside {
                    if got[c][f] != dm[c][f] {
                        return Err(format!("channel {c} frame {f} outside the region changed from {} to {}", dm[c][f], got[c][f]));
                    }
                    continue;
                }
                let x = sm[c][f - d_o + so] as f64;
                let (want, size) = match k.op {
                    0 => (old + x, old.abs() + x.abs()),
                    1 => (old + x * k.gain as f64, old.abs() + (x * k.gain as f64).abs()),
                    4 => (old + x * gains[f - d_o] as f64, old.abs() + x.abs()),
                    5 => (x + gains[f - d_o] as f64, x.abs() + gains[f - d_o].abs() as f64),
                    6 => (old - x, old.abs() + x.abs()),
                    8 => (old * k.gain as f64, (old * k.gain as f64).abs()),
                    9 => (old + x, old.abs() + x.abs()),
                    10 => (old + x * k.gain as f64, old.abs() + (x * k.gain as f64).abs()),
                    // Gains this close to 0 or 1 may be taken as such.
                    _ => (old * gains[f - d_o] as f64, old.abs() * gains[f - d_o].abs().max(1.0) as f64),
                };
                let err = (got[c][f] as f64 - want).abs();
                // (What is denormal may be flushed.)
                if !(err <= size * 3e-7 + 2e-38) {
                    return Err(format!("channel {c} frame {f} is {}, expected {want}", got[c][f]));
                }
            }
        }
        let mut o = Outcome::new(n >= 17);
        o.label(k.op > 3, "kernels of the library's inside");
        o.label(so % 16 == d_o % 16, "same alignment");
        o.label(so % 16 != d_o % 16, "different alignment");
        Ok(o)
    }
}
