//! ADSR envelopes judged by what the documentation of the four settings promises.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Settings {
    /// Frames.
    pub attack: f64,
    pub decay: f64,
    pub sustain: f64,
    pub release: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Section {
    pub settings: Settings,
    /// Gap in frames before each event, and whether it is a note-on.
    pub events: Vec<(u16, bool)>,
    /// Whether the settings are made one by one.
    pub single: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub ch: usize,
    pub max_frames: usize,
    pub sizes: Vec<usize>,
    pub sections: Vec<Section>,
    /// Seed of the order events are submitted in; 0 keeps it.
    pub shuffle: u64,
    /// Sixteenths of a frame past the frame border (power-of-two rates only).
    pub sub: u8,
    /// Stretches of silence and signal in the input, frames each; empty: always signal.
    #[serde(default)]
    pub rests: Vec<u16>,
}

pub struct P;

struct Ev {
    frame: usize,
    on: bool,
}

/// Check one section of the envelope `e`, idle at its start.
fn judge(e: &[f32], evs: &[Ev], s: &Settings, o: &mut Outcome) -> Result<(), String> {
    let n = e.len();
    let fail = |f: usize, what: String| Err(format!("frame {f} of the section: envelope {:?}; {what}; settings {s:?}", e[f]));
    let sus = s.sustain as f32;
    for (f, v) in e.iter().enumerate() {
        if !(*v >= 0.0 && *v <= 1.0) {
            return fail(f, "outside 0..1".into());
        }
    }
    let first = evs.iter().position(|v| v.on);
    let start = first.map(|i| evs[i].frame).unwrap_or(n);
    if let Some(f) = (0..start).find(|&f| e[f] != 0.0) {
        return fail(f, "not silent before the first note".into());
    }
    let Some(first) = first else { return Ok(()) };
    // Windows between events with a different time (of simultaneous ones the last decides, in order).
    let mut i = first;
    // What the note is doing at the start of the window: frame of the peak reached, release start.
    let mut release_from: Option<(usize, bool)> = None;
    while i < evs.len() {
        let a = evs[i].frame;
        // Note-offs of an idle or releasing note change nothing.
        let b = evs.get(i + 1).map(|v| v.frame).unwrap_or(n);
        let before = if a > 0 { e[a - 1] } else { 0.0 };
        if evs[i].on {
            release_from = None;
            // Attack, decay, sustain within a..b.
            let up = s.attack.ceil() as usize + 2;
            let down = s.decay.ceil() as usize + 2;
            let mut peak = None;
            for f in a..b {
                let prev = if f > 0 { e[f - 1] } else { 0.0 };
                match peak {
                    None => {
                        if e[f] < prev {
                            return fail(f, format!("falls from {prev} before reaching full level after the note-on at {a}"));
                        }
                        if f == a && e[f] == 0.0 && before == 0.0 {
                            return fail(f, format!("the note-on at {a} has no effect in its first frame"));
                        }
                        if e[f] == 1.0 {
                            peak = Some(f);
                            if before == 0.0 && ((f + 1 - a) as f64) < s.attack - 2.0 {
                                return fail(f, format!("full level {} frames after the note-on, the attack time is {} frames", f + 1 - a, s.attack));
                            }
                        } else if f + 1 - a > up {
                            return fail(f, format!("full level not reached {} frames after the note-on at {a}", f + 1 - a));
                        }
                    }
                    Some(p) => {
                        if e[f] > prev {
                            return fail(f, format!("rises from {prev} after the full level at {p}"));
                        }
                        if e[f] < sus {
                            return fail(f, "below the sustain level before the note-off".into());
                        }
                        if f - p > down && e[f] != sus {
                            return fail(f, format!("sustain level not reached {} frames after the full level at {p}", f - p));
                        }
                        if e[f] == sus && prev > sus && sus < 0.999 && ((f - p) as f64) < s.decay - 2.0 {
                            return fail(f, format!("sustain level reached {} frames after the full level, the decay time is {} frames", f - p, s.decay));
                        }
                        if e[f] == sus && prev == sus {
                            o.label(true, "sustained");
                        }
                    }
                }
            }
            if b > a && peak.is_none() {
                o.label(true, "attack cut short");
            }
        } else {
            let steady = i > 0 && evs[i - 1].on && before == sus && sus < 1.0 && a >= 2 && e[a - 2] == sus;
            let (from, steady) = match release_from {
                Some(r) => r,
                None => (a, steady),
            };
            release_from = Some((from, steady));
            let gone = s.release.ceil() as usize + 2;
            for f in a..b {
                let prev = if f > 0 { e[f - 1] } else { 0.0 };
                if e[f] > prev {
                    return fail(f, format!("rises from {prev} after the note-off at {from}"));
                }
                if f + 1 - from > gone && e[f] != 0.0 {
                    return fail(f, format!("not silent {} frames after the note-off at {from}", f + 1 - from));
                }
                if steady && e[f] == 0.0 && prev > 0.0 && ((f + 1 - from) as f64) < s.release - 2.0 {
                    return fail(f, format!("silent {} frames after the note-off at {from}, the release time is {} frames", f + 1 - from, s.release));
                }
                if e[f] == 0.0 && prev > 0.0 {
                    o.label(true, "released to silence");
                }
            }
        }
        i += 1;
    }
    Ok(())
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "sections of settings with note histories, ended in silence, events submitted ahead and in any order, up to several hundred; non-trivial: a note was heard";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 80_000 } else { 1_500_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let time = || prop_oneof![3 => 1.0f64..200.0, 1 => Just(0.0), 1 => 1.0f64..3.0, 1 => (0u16..300).prop_map(|x| x as f64), 1 => 200.0f64..1500.0];
        let sustain = prop_oneof![3 => 0.0f64..1.0, 2 => Just(0.0), 2 => Just(1.0), 1 => Just(0.5), 1 => 0.0f64..0.001];
        let settings =
            (time(), time(), sustain, time()).prop_map(|(attack, decay, sustain, release)| Settings { attack, decay, sustain, release });
        let gap = prop_oneof![2 => Just(0u16), 3 => 0u16..50, 3 => 0u16..400, 1 => 0u16..3000];
        let ev = (gap, prop::bool::weighted(0.55));
        let events = prop_oneof![8 => prop::collection::vec(ev.clone(), 0..8), 1 => prop::collection::vec((0u16..30, any::<bool>()), 30..300)];
        let section = (settings, events, any::<bool>()).prop_map(|(settings, events, single)| Section { settings, events, single });
        (
            prop::sample::select(vec![8000usize, 44100, 48000, 65536]),
            prop_oneof![60 => 1usize..3, 1 => 3usize..12],
            prop_oneof![60 => prop::sample::select(vec![1usize, 16, 64]), 1 => prop::sample::select(vec![512usize, 4096])],
            prop_oneof![60 => prop::collection::vec(prop_oneof![1usize..20, 1usize..400], 1..4), 1 => prop::collection::vec(400usize..6000, 1..4)],
            prop::collection::vec(section, 1..4),
            prop_oneof![1 => Just(0u64), 1 => any::<u64>()],
            0u8..16,
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![1u16..30, 1u16..400], 1..6)],
        )
            .prop_map(|(sr, ch, max_frames, sizes, sections, shuffle, sub, rests)| Case { sr, ch, max_frames, sizes, sections, shuffle, sub, rests })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let mut eng = engine(k.sr, k.ch.max(2), k.max_frames);
        let mut n = Adsr::new(eng.ctx.as_ref(), k.ch, k.sr);
        n.node.connect_to_input();
        n.node.connect_to_output();
        // A second envelope with the same history, whose input rests now and then.
        let mut rested = (!k.rests.is_empty()).then(|| {
            let mut eng = engine(k.sr, k.ch.max(2), k.max_frames);
            let n = Adsr::new(eng.ctx.as_ref(), k.ch, k.sr);
            n.node.connect_to_input();
            n.node.connect_to_output();
            eng.live();
            (eng, n)
        });
        eng.live();
        let mut o = Outcome::default();
        let mut sent = 0;
        for (si, sec) in k.sections.iter().enumerate() {
            let s = &sec.settings;
            let dur = |frames: f64| Duration::from_secs_f64(frames / k.sr as f64);
            for n in std::iter::once(&mut n).chain(rested.as_mut().map(|r| &mut r.1)) {
                if sec.single {
                    n.set_release_time(dur(s.release));
                    n.set_sustain_level(Level::from_linear(s.sustain));
                    n.set_attack_time(dur(s.attack));
                    n.set_decay_time(dur(s.decay));
                } else {
                    n.set_adsr(dur(s.attack), dur(s.decay), Level::from_linear(s.sustain), dur(s.release));
                }
            }
            // The first note of a section comes after its settings (both take effect in order at one frame).
            let base = eng.pos;
            let mut t = 0usize;
            let mut evs: Vec<Ev> = vec![];
            for (gap, on) in &sec.events {
                t += *gap as usize;
                evs.push(Ev { frame: t, on: *on });
            }
            // A final note-off ends the section.
            t += 20;
            evs.push(Ev { frame: t, on: false });
            let frames = t + s.release.ceil() as usize + 30;
            let sub = if k.sr.is_power_of_two() { k.sub as f64 / 16.0 } else { 0.5 };
            let mut order: Vec<usize> = (0..evs.len()).collect();
            if k.shuffle != 0 {
                // Any order that keeps simultaneous events in theirs.
                let mut r = Prng::new(k.shuffle);
                let mut keyed: Vec<(u64, usize)> = vec![];
                let mut key = 0;
                for (i, e) in evs.iter().enumerate() {
                    if i == 0 || evs[i - 1].frame != e.frame {
                        key = r.next();
                    }
                    keyed.push((key, i));
                }
                keyed.sort();
                order = keyed.into_iter().map(|x| x.1).collect();
            }
            for i in order {
                let at = moment(base as f64 + evs[i].frame as f64 + sub, k.sr);
                for n in std::iter::once(&mut n).chain(rested.as_mut().map(|r| &mut r.1)) {
                    if evs[i].on {
                        n.note_on_at_time(at);
                    } else {
                        n.note_off_at_time(at);
                    }
                }
                sent += 1;
            }
            let data: Planar = (0..k.ch).map(|c| vec![if c == 0 { 1.0 } else { -0.5 }; base + frames]).collect();
            let mut out: Planar = vec![vec![]; k.ch];
            for b in partition(frames, &k.sizes) {
                eng.block(&data, k.ch, &mut out, b);
            }
            if let Some((eng, _)) = &mut rested {
                let mut turns = k.rests.iter().cycle();
                let (mut left, mut on) = (0, true);
                let open: Vec<bool> = (0..base + frames)
                    .map(|_| {
                        if left == 0 {
                            left = *turns.next().unwrap();
                            on = !on;
                        }
                        left -= 1;
                        on
                    })
                    .collect();
                let data: Planar = data.iter().map(|d| d.iter().zip(&open).map(|(v, on)| if *on { *v } else { 0.0 }).collect()).collect();
                let mut heard: Planar = vec![vec![]; k.ch];
                for b in partition(frames, &k.sizes) {
                    eng.block(&data, k.ch, &mut heard, b);
                }
                for c in 0..k.ch {
                    for f in 0..frames {
                        let want = if open[base + f] { out[c][f] } else { 0.0 };
                        if heard[c][f] != want {
                            return Err(format!("section {si} channel {c} frame {f}: {} with rests in the input, the envelope without them gives {want}", heard[c][f]));
                        }
                    }
                }
                o.label(true, "rests in the input");
            }
            for c in 1..k.ch {
                if let Some(f) = (0..frames).find(|&f| out[c][f] != out[0][f] * -0.5) {
                    return Err(format!("channel {c} frame {f}: {} where channel 0 has the envelope at {}", out[c][f], out[0][f]));
                }
            }
            judge(&out[0], &evs, s, &mut o).map_err(|e| format!("section {si}: {e}"))?;
            o.nontrivial |= out[0].iter().any(|v| *v > 0.0);
            o.label(s.sustain == 0.0, "sustain zero");
        }
        o.label(sent > 32, "many notes ahead");
        o.label(k.shuffle != 0, "submitted out of order");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec![
            "settings change between notes, not during one; sustain level within 0..1".into(),
            "stage lengths are compared with a leeway of two frames".into(),
        ]
    }
}
