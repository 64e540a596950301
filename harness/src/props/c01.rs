//! Buffers, nested views and constructors against a planar model.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum View {
    Frames(u16, u16),
    Channels(u16, u16),
    Both(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set { ch: u16, fr: u16, v: i8 },
    AddSample { ch: u16, fr: u16, v: i8 },
    FillChannel { ch: u16, v: i8 },
    FillAll { v: i8 },
    Clear,
    Copy(Move),
    Add(Move),
    AddGain(Move, i8),
    Duplicate { ch: u16, fr: u16, to: u16, n: u16 },
    ApplyGain { seed: u64, kind: u8 },
    FillSlice { ch: u16, fr: u16, seed: u64 },
    /// Clearing, copying in place, or gain, of a range of channels and frames. (Internal to the library.)
    Range { what: u8, ch: u16, fr: u16, nc: u16, nf: u16, to: u16, v: i8 },
    FromBuffer,
    Extended { frames: u16, seed: u64, views: Vec<View> },
    Padded { extra: u16 },
    FromSlice { frames: u16, channels: u8, seed: u64 },
    Step { frames: u16, channels: u8, from: u16, to: u16 },
    Sine { frames: u16, channels: u8, freq: u16, amp: i8 },
    Noise { frames: u16, channels: u8 },
}

/// A transfer between a separate source (its shape, content and view) and the target view.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Move {
    pub ch: u8,
    pub frames: u16,
    pub seed: u64,
    pub src_views: Vec<View>,
    pub src_mut: bool,
    pub sc: u16,
    pub sf: u16,
    pub dc: u16,
    pub df: u16,
    pub nc: u16,
    pub nf: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ch: u8,
    pub frames: u16,
    pub sr: u32,
    pub seed: u64,
    pub ops: Vec<(Vec<View>, Op)>,
}

/// Region of the root a chain of views selects.
#[derive(Clone, Copy, Debug)]
struct Region {
    c: usize,
    f: usize,
    nc: usize,
    nf: usize,
}

fn idx(raw: u16, n: usize) -> usize {
    raw as usize % n.max(1)
}

fn narrow(r: Region, v: &View) -> (Region, usize, usize) {
    match v {
        View::Frames(a, b) => {
            let o = *a as usize % (r.nf + 1);
            let n = *b as usize % (r.nf - o + 1);
            (Region { f: r.f + o, nf: n, ..r }, o, n)
        }
        View::Channels(a, b) => {
            let o = *a as usize % (r.nc + 1);
            let n = *b as usize % (r.nc - o + 1);
            (Region { c: r.c + o, nc: n, ..r }, o, n)
        }
        View::Both(a, b) => {
            let n = *a as usize % (r.nf + 1);
            let m = *b as usize % (r.nc + 1);
            (Region { nf: n, nc: m, ..r }, n, m)
        }
    }
}

fn with_mut(b: &mut dyn AudioBuffer, r: Region, vs: &[View], f: &mut dyn FnMut(&mut dyn AudioBuffer, Region)) {
    match vs.split_first() {
        None => f(b, r),
        Some((v, rest)) => {
            let (nr, x, y) = narrow(r, v);
            let mut s = match v {
                View::Frames(..) => MutableBorrowedAudioBuffer::slice_frames(b, x, y),
                View::Channels(..) => MutableBorrowedAudioBuffer::slice_channels(b, x, y),
                View::Both(..) => MutableBorrowedAudioBuffer::slice_channels_and_frames(b, x, y),
            };
            with_mut(&mut s, nr, rest, f)
        }
    }
}

fn with_ref(b: &dyn AudioBuffer, r: Region, vs: &[View], f: &mut dyn FnMut(&dyn AudioBuffer, Region)) {
    match vs.split_first() {
        None => f(b, r),
        Some((v, rest)) => {
            let (nr, x, y) = narrow(r, v);
            let s = match v {
                View::Frames(..) => BorrowedAudioBuffer::slice_frames(b, x, y),
                View::Channels(..) => BorrowedAudioBuffer::slice_channels(b, x, y),
                View::Both(..) => BorrowedAudioBuffer::slice_channels_and_frames(b, x, y),
            };
            with_ref(&s, nr, rest, f)
        }
    }
}

/// Everything readable through a buffer equals the region of the model.
fn reads(what: &str, b: &dyn AudioBuffer, m: &Planar, r: Region, sr: usize) -> Result<(), String> {
    if b.channel_count() != r.nc || b.frame_count() != r.nf || b.sample_rate() != sr {
        return Err(format!(
            "{what}: shape {}x{} @{} instead of {}x{} @{sr}",
            b.channel_count(), b.frame_count(), b.sample_rate(), r.nc, r.nf
        ));
    }
    let want = r.nf as f64 / sr as f64;
    if (b.length_in_seconds() - want).abs() > 1e-12 || (b.duration().as_secs_f64() - want).abs() > 1e-8 {
        return Err(format!("{what}: duration"));
    }
    for c in 0..r.nc {
        let row = &m[r.c + c][r.f..r.f + r.nf];
        for from in [0, r.nf / 3, r.nf] {
            let d = b.get_channel_data(SampleLocation::new(c, from));
            if d != &row[from..] {
                return Err(format!("{what}: channel {c} from frame {from} reads {} values that differ from the model's {}", d.len(), r.nf - from));
            }
        }
        if b.channel_is_silent(c) != row.iter().all(|x| *x == 0.0) {
            return Err(format!("{what}: silence of channel {c}"));
        }
        for f in 0..r.nf {
            if b.get_sample(SampleLocation::new(c, f)) != row[f] {
                return Err(format!("{what}: sample {c}/{f}"));
            }
        }
    }
    let mut n = 0;
    for l in b.frame_iter() {
        if (l.channel, l.frame) != (n / r.nf.max(1), n % r.nf.max(1)) {
            return Err(format!("{what}: iteration visits {l:?} as number {n}"));
        }
        n += 1;
    }
    if n != r.nc * r.nf {
        return Err(format!("{what}: iteration visits {n} of {} samples", r.nc * r.nf));
    }
    Ok(())
}

fn whole(m: &Planar, frames: usize) -> Region {
    Region { c: 0, f: 0, nc: m.len(), nf: frames }
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "random buffer shapes (also empty), sequences of up to 12 operations each through up to 3 nested views; non-trivial: at least one operation through a proper view touched at least one sample";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 400_000 } else { 20_000_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let view = prop_oneof![
            (any::<u16>(), any::<u16>()).prop_map(|(a, b)| View::Frames(a, b)),
            (any::<u16>(), any::<u16>()).prop_map(|(a, b)| View::Channels(a, b)),
            (any::<u16>(), any::<u16>()).prop_map(|(a, b)| View::Both(a, b)),
        ];
        let views = prop::collection::vec(view, 0..=3);
        let mv = (
            (sizes8(1..5, 24), sizes16(0..150, u16::MAX), any::<u64>(), views.clone(), any::<bool>()),
            (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()),
        )
            .prop_map(|((ch, frames, seed, src_views, src_mut), (sc, sf, dc, df, nc, nf))| Move {
                ch, frames, seed, src_views, src_mut, sc, sf, dc, df, nc, nf,
            });
        let op = prop_oneof![
            2 => (any::<u16>(), any::<u16>(), any::<i8>()).prop_map(|(ch, fr, v)| Op::Set { ch, fr, v }),
            2 => (any::<u16>(), any::<u16>(), any::<i8>()).prop_map(|(ch, fr, v)| Op::AddSample { ch, fr, v }),
            2 => (any::<u16>(), any::<i8>()).prop_map(|(ch, v)| Op::FillChannel { ch, v }),
            1 => any::<i8>().prop_map(|v| Op::FillAll { v }),
            1 => Just(Op::Clear),
            4 => mv.clone().prop_map(Op::Copy),
            4 => mv.clone().prop_map(Op::Add),
            3 => (mv, any::<i8>()).prop_map(|(m, g)| Op::AddGain(m, g)),
            3 => (any::<u16>(), any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(ch, fr, to, n)| Op::Duplicate { ch, fr, to, n }),
            2 => (any::<u64>(), 0u8..5).prop_map(|(seed, kind)| Op::ApplyGain { seed, kind }),
            2 => (any::<u16>(), any::<u16>(), any::<u64>()).prop_map(|(ch, fr, seed)| Op::FillSlice { ch, fr, seed }),
            4 => (0u8..3, any::<(u16, u16, u16, u16)>(), any::<u16>(), prop_oneof![Just(0i8), Just(8i8), any::<i8>()]).prop_map(|(what, (ch, fr, nc, nf), to, v)| Op::Range { what, ch, fr, nc, nf, to, v }),
            1 => Just(Op::FromBuffer),
            1 => (sizes16(0..100, 20_000), any::<u64>(), views.clone()).prop_map(|(frames, seed, views)| Op::Extended { frames, seed, views }),
            1 => sizes16(0..100, 20_000).prop_map(|extra| Op::Padded { extra }),
            1 => (sizes16(0..100, 20_000), sizes8(1..5, 24), any::<u64>()).prop_map(|(frames, channels, seed)| Op::FromSlice { frames, channels, seed }),
            1 => (sizes16(0..100, 20_000), sizes8(1..5, 24), sizes16(0..110, 20_000), sizes16(0..110, 20_000)).prop_map(|(frames, channels, from, to)| Op::Step { frames, channels, from, to }),
            1 => (sizes16(0..100, 20_000), sizes8(1..5, 24), 0u16..20000, any::<i8>()).prop_map(|(frames, channels, freq, amp)| Op::Sine { frames, channels, freq, amp }),
            1 => (sizes16(0..100, 20_000), sizes8(0..5, 24)).prop_map(|(frames, channels)| Op::Noise { frames, channels }),
        ];
        (sizes8(0..6, 40), sizes16(0..200, u16::MAX), prop_oneof![Just(44_100u32), Just(48_000), Just(1), 1u32..200_000], any::<u64>(), prop::collection::vec((views, op), 1..12))
            .prop_map(|(ch, frames, sr, seed, ops)| Case { ch, frames, sr, seed, ops })
            .boxed()
    }

    fn run(case: &Case) -> CaseResult {
        let sr = case.sr as usize;
        let mut frames = case.frames as usize;
        let mut m = grid_planar(case.seed, case.ch as usize, frames);
        let mut b = OwnedAudioBuffer::new(frames, m.len(), sr);
        reads("new buffer", &b, &vec![vec![0.0; frames]; m.len()], whole(&m, frames), sr)?;
        for c in 0..m.len() {
            for f in 0..frames {
                b.set_sample(SampleLocation::new(c, f), m[c][f]);
            }
        }
        let mut touched_view = false;
        let mut out = Outcome::default();
        for (step, (views, op)) in case.ops.iter().enumerate() {
            let what = format!("after step {step} ({op:?} through {views:?})");
            let root = whole(&m, frames);
            let mut err: Option<String> = None;
            let mut replaced: Option<(OwnedAudioBuffer, Planar, usize)> = None;
            let mut noise = false;
            with_mut(&mut b, root, views, &mut |v, r| {
                let val = |x: i8| x as f32 / 8.0;
                let some = r.nc > 0 && r.nf > 0;
                let mut t = false;
                match op {
                    Op::Set { ch, fr, v: x } if some => {
                        let (c, f) = (idx(*ch, r.nc), idx(*fr, r.nf));
                        v.set_sample(SampleLocation::new(c, f), val(*x));
                        m[r.c + c][r.f + f] = val(*x);
                        t = true;
                    }
                    Op::AddSample { ch, fr, v: x } if some => {
                        let (c, f) = (idx(*ch, r.nc), idx(*fr, r.nf));
                        v.add_sample(SampleLocation::new(c, f), val(*x));
                        m[r.c + c][r.f + f] += val(*x);
                        t = true;
                    }
                    Op::FillChannel { ch, v: x } if r.nc > 0 => {
                        let c = idx(*ch, r.nc);
                        v.fill_channel_with_value(c, val(*x));
                        m[r.c + c][r.f..r.f + r.nf].fill(val(*x));
                        t = some;
                    }
                    Op::FillAll { v: x } => {
                        v.fill_with_value(val(*x));
                        for c in 0..r.nc {
                            m[r.c + c][r.f..r.f + r.nf].fill(val(*x));
                        }
                        t = some;
                    }
                    Op::Clear => {
                        v.clear();
                        for c in 0..r.nc {
                            m[r.c + c][r.f..r.f + r.nf].fill(0.0);
                        }
                        t = some;
                    }
                    #[cfg(rawdio_verif)]
                    Op::Range { what, ch, fr, nc, nf, to, v: x } => {
                        let (c, f) = (*ch as usize % (r.nc + 1), *fr as usize % (r.nf + 1));
                        let (nc, nf) = (*nc as usize % (r.nc - c + 1), *nf as usize % (r.nf - f + 1));
                        let to = *to as usize % (r.nf - nf + 1);
                        let range = rawdio::verif::SampleRange::new(c, f, nc, nf);
                        if !v.range_is_valid(&range)
                            || v.range_is_valid(&rawdio::verif::SampleRange::new(c, f, r.nc - c + 1, nf))
                            || v.range_is_valid(&rawdio::verif::SampleRange::new(c, f, nc, r.nf - f + 1))
                        {
                            err = Some(format!("{range_what} of {} by {}: wrong about what lies within", r.nc, r.nf, range_what = format!("channels {c}+{nc}, frames {f}+{nf}")));
                            return;
                        }
                        match what {
                            0 => v.clear_range(&range),
                            1 => v.copy_within(&range, to),
                            _ => v.apply_gain_value(&range, val(*x)),
                        }
                        for row in &mut m[r.c + c..r.c + c + nc] {
                            let row = &mut row[r.f..r.f + r.nf];
                            match what {
                                0 => row[f..f + nf].fill(0.0),
                                1 => row.copy_within(f..f + nf, to),
                                _ => row[f..f + nf].iter_mut().for_each(|y| *y *= val(*x)),
                            }
                        }
                        t = nc > 0 && nf > 0;
                    }
                    Op::Copy(mv) | Op::Add(mv) | Op::AddGain(mv, _) => {
                        let sm = grid_planar(mv.seed, mv.ch as usize, mv.frames as usize);
                        let mut sb = from_planar(&sm, mv.frames as usize, sr);
                        let sroot = whole(&sm, mv.frames as usize);
                        let mut go = |s: &dyn AudioBuffer, sreg: Region| {
                            if let Err(e) = reads("source view", s, &sm, sreg, sr) {
                                err = Some(e);
                                return;
                            }
                            if sreg.nc == 0 || r.nc == 0 {
                                return;
                            }
                            let (sc, dc) = (idx(mv.sc, sreg.nc), idx(mv.dc, r.nc));
                            let (sf, df) = (mv.sf as usize % (sreg.nf + 1), mv.df as usize % (r.nf + 1));
                            let nc = mv.nc as usize % ((sreg.nc - sc).min(r.nc - dc) + 1);
                            let nf = mv.nf as usize % ((sreg.nf - sf).min(r.nf - df) + 1);
                            let (sl, dl) = (SampleLocation::new(sc, sf), SampleLocation::new(dc, df));
                            match op {
                                Op::Copy(_) => v.copy_from(s, sl, dl, nc, nf),
                                Op::Add(_) => v.add_from(s, sl, dl, nc, nf),
                                Op::AddGain(_, g) => v.add_from_with_gain(s, sl, dl, nc, nf, val(*g)),
                                _ => unreachable!(),
                            }
                            for c in 0..nc {
                                for f in 0..nf {
                                    let x = sm[sreg.c + sc + c][sreg.f + sf + f];
                                    let y = &mut m[r.c + dc + c][r.f + df + f];
                                    match op {
                                        Op::Copy(_) => *y = x,
                                        Op::Add(_) => *y += x,
                                        Op::AddGain(_, g) => *y += x * val(*g),
                                        _ => unreachable!(),
                                    }
                                }
                            }
                            t = nc > 0 && nf > 0;
                        };
                        if mv.src_mut {
                            with_mut(&mut sb, sroot, &mv.src_views, &mut |s, reg| go(s, reg));
                        } else {
                            with_ref(&sb, sroot, &mv.src_views, &mut |s, reg| go(s, reg));
                        }
                    }
                    Op::Duplicate { ch, fr, to, n } if r.nc > 0 => {
                        let (c, to) = (idx(*ch, r.nc), idx(*to, r.nc));
                        let f = *fr as usize % (r.nf + 1);
                        let n = *n as usize % (r.nf - f + 1);
                        v.duplicate_channel(SampleLocation::new(c, f), to, n);
                        let part = m[r.c + c][r.f + f..r.f + f + n].to_vec();
                        m[r.c + to][r.f + f..r.f + f + n].copy_from_slice(&part);
                        t = n > 0 && c != to;
                    }
                    Op::ApplyGain { seed, kind } => {
                        let mut g = grid(*seed, r.nf);
                        match kind {
                            0 => g.fill(0.0),
                            1 => g.fill(1.0),
                            2 => g.fill(0.5),
                            3 => {
                                // All ones or zeroes but for one frame.
                                g.fill(if seed & 1 == 0 { 1.0 } else { 0.0 });
                                if r.nf > 0 {
                                    let i = (*seed >> 8) as usize % r.nf;
                                    g[i] = 0.25;
                                }
                            }
                            _ => {}
                        }
                        v.apply_gain(&g);
                        for c in 0..r.nc {
                            for f in 0..r.nf {
                                m[r.c + c][r.f + f] *= g[f];
                            }
                        }
                        t = some;
                    }
                    Op::FillSlice { ch, fr, seed } if r.nc > 0 => {
                        let c = idx(*ch, r.nc);
                        let f = *fr as usize % (r.nf + 1);
                        let d = grid(*seed, r.nf - f);
                        v.fill_from_slice(&d, SampleLocation::new(c, f));
                        m[r.c + c][r.f + f..r.f + r.nf].copy_from_slice(&d);
                        t = f < r.nf;
                    }
                    Op::FromBuffer => {
                        let nb = OwnedAudioBuffer::from_buffer(v);
                        let nm = (0..r.nc).map(|c| m[r.c + c][r.f..r.f + r.nf].to_vec()).collect();
                        replaced = Some((nb, nm, r.nf));
                        t = some;
                    }
                    _ => {}
                }
                touched_view |= t && !views.is_empty() && (r.nc < root.nc || r.nf < root.nf);
                if err.is_none() {
                    err = reads(&format!("{what}: view"), v, &m, r, sr).err();
                }
            });
            if let Some(e) = err {
                return Err(e);
            }
            reads(&what, &b, &m, whole(&m, frames), sr)?;
            match op {
                Op::Extended { frames: n, seed, views } => {
                    let n = *n as usize;
                    let em = grid_planar(*seed, m.len(), n);
                    let eb = from_planar(&em, n, sr);
                    let mut res: Option<Result<OwnedAudioBuffer, ()>> = None;
                    let mut reg = whole(&em, n);
                    // Keep only frame views: the channel counts must agree.
                    let fv: Vec<View> = views.iter().filter(|v| matches!(v, View::Frames(..))).cloned().collect();
                    with_ref(&eb, reg, &fv, &mut |s, r| {
                        reg = r;
                        res = Some(Ok(b.extended_with_buffer(s)));
                    });
                    let nm: Planar = (0..m.len()).map(|c| [&m[c][..], &em[c][reg.f..reg.f + reg.nf]].concat()).collect();
                    replaced = Some((res.unwrap().unwrap(), nm, frames + reg.nf));
                }
                Op::Padded { extra } => {
                    let n = frames + *extra as usize;
                    let nm = m.iter().map(|r| { let mut r = r.clone(); r.resize(n, 0.0); r }).collect();
                    replaced = Some((b.padded_to_length(n), nm, n));
                }
                Op::FromSlice { frames: n, channels, seed } => {
                    let d = grid(*seed, *n as usize);
                    let nb = OwnedAudioBuffer::from_slice(&d, *channels as usize, sr);
                    replaced = Some((nb, vec![d; *channels as usize], *n as usize));
                }
                Op::Step { frames: n, channels, from, to } => {
                    let n = *n as usize;
                    let range = *from as usize..*to as usize;
                    let nb = OwnedAudioBuffer::step(n, *channels as usize, sr, range.clone());
                    let row: Vec<f32> = (0..n).map(|i| if range.contains(&i) { 1.0 } else { 0.0 }).collect();
                    replaced = Some((nb, vec![row; *channels as usize], n));
                }
                Op::Sine { frames: n, channels, freq, amp } => {
                    let n = *n as usize;
                    let a = *amp as f64 / 8.0;
                    let nb = OwnedAudioBuffer::sine(n, *channels as usize, sr, *freq as f64, a);
                    let p = to_planar(&nb);
                    if p.len() != *channels as usize || nb.frame_count() != n {
                        return Err(format!("{what}: shape of the sine"));
                    }
                    for c in 0..p.len() {
                        for i in 0..n {
                            let w = a * (std::f64::consts::TAU * *freq as f64 * (i as f64 / sr as f64)).sin();
                            if (p[c][i] as f64 - w).abs() > 1e-4 * a.abs().max(1e-3) || p[c][i] != p[0][i] {
                                return Err(format!("{what}: sine channel {c} frame {i} is {}, expected {w}", p[c][i]));
                            }
                        }
                    }
                    replaced = Some((nb, p, n));
                }
                Op::Noise { frames: n, channels } => {
                    let nb = OwnedAudioBuffer::white_noise(*n as usize, *channels as usize, sr);
                    let p = to_planar(&nb);
                    if p.iter().flatten().any(|x| !(-1.0..=1.0).contains(x)) || p.len() != *channels as usize {
                        return Err(format!("{what}: noise out of range"));
                    }
                    noise = true;
                    let _ = (nb, p);
                }
                _ => {}
            }
            out.label(noise, "noise");
            if let Some((nb, nm, n)) = replaced {
                out.label(true, "constructed");
                b = nb;
                m = nm;
                frames = n;
                reads(&what, &b, &m, whole(&m, frames), sr)?;
            }
        }
        out.nontrivial = touched_view;
        out.label(case.ops.iter().any(|(v, _)| v.len() >= 2), "nested views");
        out.label(frames == 0, "no frames");
        Ok(out)
    }
}
