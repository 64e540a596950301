//! Interleaved transfer, on owned buffers and views, with matching and mismatched counts.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ch: u8,
    pub frames: u16,
    /// Stated channel and frame counts.
    pub sch: u8,
    pub sframes: u16,
    pub extra: u8,
    pub seed: u64,
    /// Channel / frame offsets of the views around the buffer (0: none).
    pub view: (u8, u8),
    pub margin: (u8, u8),
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "random shapes, stated counts equal to or different from them, data longer than needed, owned buffers and views; non-trivial: at least 2 channels and 2 frames transferred";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 2_000_000 } else { 20_000_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (sizes8(1..7, 40), sizes16(0..80, 9000))
            .prop_flat_map(|(ch, frames)| {
                (
                    Just(ch),
                    Just(frames),
                    prop_oneof![2 => Just(ch), 2 => sizes8(0..9, 40)],
                    prop_oneof![2 => Just(frames), 2 => sizes16(0..100, 9000)],
                    prop_oneof![Just(0u8), 0u8..20],
                    any::<u64>(),
                    prop_oneof![Just((0u8, 0u8)), (0u8..3, 0u8..9)],
                    (0u8..3, 0u8..9),
                )
            })
            .prop_map(|(ch, frames, sch, sframes, extra, seed, view, margin)| Case { ch, frames, sch, sframes, extra, seed, view, margin })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let (ch, fr) = (k.ch as usize, k.frames as usize);
        let (sc, sf) = (k.sch as usize, k.sframes as usize);
        let (oc, of) = (k.view.0 as usize, k.view.1 as usize);
        let (tc, tf) = (ch + oc + k.margin.0 as usize, fr + of + k.margin.1 as usize);
        let (nc, nf) = (ch.min(sc), fr.min(sf));

        // In: fill.
        let data = grid(k.seed, sc * sf + k.extra as usize);
        let before = grid_planar(k.seed ^ 77, tc, tf);
        let mut root = from_planar(&before, tf, 44_100);
        {
            let mut a = MutableBorrowedAudioBuffer::slice_channels(&mut root, oc, ch);
            let mut v = MutableBorrowedAudioBuffer::slice_frames(&mut a, of, fr);
            if k.view == (0, 0) && k.margin == (0, 0) {
                let mut owned = from_planar(&before, tf, 44_100);
                owned.fill_from_interleaved(&data, sc, sf);
                v.fill_from_interleaved(&data, sc, sf);
                same("view and owned buffer", &to_planar(&owned), &to_planar(&v))?;
            } else {
                v.fill_from_interleaved(&data, sc, sf);
            }
        }
        let mut want = before.clone();
        for c in 0..nc {
            for f in 0..nf {
                want[oc + c][of + f] = data[f * sc + c];
            }
        }
        same("filled from interleaved", &to_planar(&root), &want)?;

        // Out: copy, into a slice with other contents.
        let old = grid(k.seed ^ 5, sc * sf + k.extra as usize);
        let mut out = old.clone();
        {
            let a = BorrowedAudioBuffer::slice_channels(&root, oc, ch);
            let v = BorrowedAudioBuffer::slice_frames(&a, of, fr);
            v.copy_to_interleaved(&mut out, sc, sf);
        }
        let mut wout = old;
        for c in 0..nc {
            for f in 0..nf {
                wout[f * sc + c] = want[oc + c][of + f];
            }
        }
        if let Some(i) = (0..out.len()).find(|i| out[*i] != wout[*i]) {
            return Err(format!("copied to interleaved: position {i} is {}, expected {}", out[i], wout[i]));
        }
        let mut o = Outcome::new(nc >= 2 && nf >= 2);
        o.label(sc != ch, "channel counts differ");
        o.label(sf != fr, "frame counts differ");
        o.label(sc == ch && sf == fr, "round trip");
        Ok(o)
    }
}
