//! The same history rendered twice, with other engines at work the second time.

use crate::anynode;
use crate::runner::*;
use crate::util::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Pair(Pair),
    Crowd(Crowd),
    Fresh(Fresh),
}

/// A history rendered in a process of its own, and in one that has rendered others before.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fresh {
    pub world: World,
    pub before: Vec<World>,
    pub max: usize,
    pub sizes: Vec<usize>,
    /// The first engine has the same nodes and settings, at another sample rate.
    pub twin: bool,
    /// ... or at the same one, with audio data that differs in one value.
    #[serde(default)]
    pub near: u8,
}

/// Engines on several threads, each with a chain of gains that is taken apart and put together.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    pub threads: usize,
    pub rounds: usize,
    pub nodes: usize,
    pub rewires: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    pub world: World,
    pub other: World,
    pub max: usize,
    pub sizes: Vec<usize>,
    /// Whether the other engine runs on a thread of its own.
    pub concurrent: bool,
    /// The other engine has the same nodes and settings, at another sample rate.
    pub twin: bool,
    /// ... or at the same one, with audio data that differs in one value.
    #[serde(default)]
    pub near: u8,
}

pub struct P;

struct Stop(Arc<AtomicBool>);
impl Drop for Stop {
    fn drop(&mut self) {
        self.0.store(true, Ordering::SeqCst);
    }
}

fn bits(what: &str, a: &Planar, b: &Planar) -> Result<(), String> {
    for c in 0..a.len() {
        if a[c].len() != b[c].len() {
            return Err(format!("{what}: channel {c} has {} frames, then {}", a[c].len(), b[c].len()));
        }
        if let Some(f) = (0..a[c].len()).find(|&f| a[c][f].to_bits() != b[c][f].to_bits() && a[c][f] != b[c][f]) {
            return Err(format!("{what}: channel {c} frame {f} is {:?} the first time and {:?} the second", a[c][f], b[c][f]));
        }
    }
    Ok(())
}

fn ones(frames: usize) -> OwnedAudioBuffer {
    let data = vec![1.0f32; frames];
    OwnedAudioBuffer::from_slice(&data, 1, 1024)
}

fn twin_of(w: &World, near: u8) -> World {
    let mut t = w.clone();
    if near > 0 {
        for s in &mut t.nodes {
            s.spec.nudge = near;
        }
        return t;
    }
    t.sr = [1024, 8192, 44100, 48000, 65536].into_iter().find(|r| *r != w.sr && (*r > 8000 || w.seed % 2 == 0)).unwrap();
    t
}

fn scope(drops: bool) -> Scope {
    Scope { wide: true, ties: true, rewire: true, cancels: true, drops }
}

type Bits = Vec<Vec<u32>>;

/// What was heard, bit for bit (with one zero).
#[derive(Serialize, Deserialize)]
struct Print {
    out: Bits,
    recs: Vec<Bits>,
    meters: Vec<Vec<(usize, u32)>>,
}

fn one_zero(x: f32) -> u32 {
    (x + 0.0).to_bits()
}

/// The part of [`Fresh`] done by the other process: the last history as it sounds there.
pub fn child(text: &str) -> String {
    let k: Fresh = serde_json::from_str(text).expect("case");
    let how = How { sizes: k.sizes.clone(), ..How::plain(k.max) };
    for w in &k.before {
        render(&plan(w, &scope(true)), &How { sizes: k.sizes.clone(), ..How::plain(16) });
    }
    let h = render(&plan(&k.world, &scope(false)), &how);
    let p = |p: &Planar| p.iter().map(|c| c.iter().map(|x| one_zero(*x)).collect()).collect::<Bits>();
    let print = Print {
        out: p(&h.out),
        recs: h.recs.iter().map(p).collect(),
        meters: h.meters.iter().map(|m| m.iter().map(|(c, x)| (*c, one_zero(*x))).collect()).collect(),
    };
    serde_json::to_string(&print).unwrap()
}

fn in_a_process(k: &Fresh) -> Result<Print, String> {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("own path");
    let mut p = Command::new(exe).args(["child", "C29"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("a process");
    p.stdin.take().unwrap().write_all(serde_json::to_string(k).unwrap().as_bytes()).expect("to write to the process");
    let mut text = String::new();
    p.stdout.take().unwrap().read_to_string(&mut text).expect("to read from the process");
    let s = p.wait().expect("the process");
    if !s.success() {
        return Err(format!("the process rendering the history ended with {s}: {}", text.chars().take(300).collect::<String>()));
    }
    serde_json::from_str(&text).map_err(|e| format!("the process rendering the history gave no result: {e}"))
}

fn fresh(k: &Fresh) -> CaseResult {
    let mut k = k.clone();
    if k.twin {
        k.before.insert(0, twin_of(&k.world, k.near));
    }
    let alone = in_a_process(&Fresh { before: vec![], ..k.clone() })?;
    let after = in_a_process(&k)?;
    let differ = |what: &str, a: &Bits, b: &Bits| -> Result<(), String> {
        for c in 0..a.len().max(b.len()) {
            let (a, b) = (a.get(c).ok_or("channels")?, b.get(c).ok_or("channels")?);
            if a.len() != b.len() {
                return Err(format!("{what}: {} frames in a fresh process, {} after other engines", a.len(), b.len()));
            }
            if let Some(f) = (0..a.len()).find(|&f| a[f] != b[f]) {
                return Err(format!("{what}: channel {c} frame {f} is {:?} in a fresh process and {:?} after other engines", f32::from_bits(a[f]), f32::from_bits(b[f])));
            }
        }
        Ok(())
    };
    differ("output", &alone.out, &after.out)?;
    if alone.recs.len() != after.recs.len() {
        return Err("a different number of recordings".into());
    }
    for (i, (a, b)) in alone.recs.iter().zip(&after.recs).enumerate() {
        differ(&format!("recording {i}"), a, b)?;
    }
    if alone.meters != after.meters {
        return Err("meter reports differ between a fresh process and one with engines before".into());
    }
    let p = plan(&k.world, &scope(false));
    let heard = alone.out.iter().flatten().any(|b| f32::from_bits(*b) != 0.0);
    let mut o = Outcome::new(heard && p.edges.len() > 1 && p.items() > 0);
    o.label(true, "in fresh processes");
    o.label(k.twin && k.near == 0, "among engines of the same nodes at another sample rate");
    o.label(k.twin && k.near > 0, "among engines of nodes with almost the same data");
    Ok(o)
}

fn crowd(k: &Crowd) -> CaseResult {
    let gate = Arc::new(std::sync::Barrier::new(k.threads));
    let threads: Vec<_> = (0..k.threads)
        .map(|t| {
            let (k, gate) = (k.clone(), gate.clone());
            std::thread::spawn(move || catching(|| -> Result<(), String> {
                gate.wait();
                for round in 0..k.rounds {
                    let mut eng = engine(1024, 1, 4);
                    let mut nodes: Vec<Gain> = (0..k.nodes).map(|_| Gain::new(eng.ctx.as_ref(), 1)).collect();
                    for n in nodes.iter_mut() {
                        n.gain().set_value_now(2.0);
                    }
                    nodes[0].node.connect_to_input();
                    nodes[k.nodes - 1].node.connect_to_output();
                    for i in 0..k.nodes - 1 {
                        nodes[i].node.connect_to(&nodes[i + 1].node);
                    }
                    eng.ctx.start();
                    let want = (1u32 << k.nodes) as f32;
                    let input = ones(2);
                    for rewire in 0..=k.rewires {
                        let mut o = OwnedAudioBuffer::new(2, 1, 1024);
                        eng.pro.process(&input, &mut o);
                        let got = o.get_sample(SampleLocation::new(0, 1));
                        if got != want {
                            return Err(format!("engine {round} of thread {t} gives {got} after {rewire} changes, alone it gives {want}"));
                        }
                        for i in 0..k.nodes - 1 {
                            nodes[i].node.disconnect_from_node(&nodes[i + 1].node);
                            nodes[i].node.connect_to(&nodes[i + 1].node);
                        }
                    }
                }
                Ok(())
            }))
        })
        .collect();
    let all: Vec<_> = threads.into_iter().map(|t| t.join()).collect();
    for r in all {
        r.map_err(|_| "an engine panicked while others were in use on other threads".to_string())???;
    }
    let mut o = Outcome::new(true);
    o.label(true, "engines on up to eight threads");
    Ok(o)
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C29";
    const MULTI: bool = true;
    const SCHEDULED: bool = true;
    const RULE: &'static str = "graphs of all node kinds with automation, events and re-wiring rendered twice, alone and among other engines; non-trivial: audible, more than one connection, and something done";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 25_000 } else { 300_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let pair = (
            strategy(&anynode::ALL, 1..8, 1..4, 800),
            strategy(&anynode::ALL, 1..4, 1..3, 300),
            prop::sample::select(vec![16usize, 64, 300]),
            prop::collection::vec(prop_oneof![1usize..40, 1usize..400], 1..4),
            prop::bool::weighted(0.3),
            prop::bool::weighted(0.4),
            0u8..3,
        )
            .prop_map(|(world, other, max, sizes, concurrent, twin, near)| Case::Pair(Pair { world, other, max, sizes, concurrent, twin, near }));
        let crowd = (2usize..9, 1usize..40, 2usize..13, 0usize..60).prop_map(|(threads, rounds, nodes, rewires)| Case::Crowd(Crowd { threads, rounds, nodes, rewires }));
        let fresh = (
            strategy(&anynode::ALL, 1..8, 1..4, 800),
            prop::collection::vec(strategy(&anynode::ALL, 1..4, 1..3, 300), 0..3),
            prop::sample::select(vec![16usize, 64, 300]),
            prop::collection::vec(prop_oneof![1usize..40, 1usize..400], 1..4),
            prop::bool::weighted(0.7),
            0u8..3,
        )
            .prop_map(|(world, before, max, sizes, twin, near)| Case::Fresh(Fresh { world, before, max, sizes, twin, near }));
        prop_oneof![200 => pair, 1 => crowd, 20 => fresh].boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let k = match k {
            Case::Crowd(k) => return crowd(k),
            Case::Fresh(k) => return fresh(k),
            Case::Pair(k) => k,
        };
        let p = plan(&k.world, &scope(false));
        let mut other = k.other.clone();
        if k.twin {
            other = twin_of(&k.world, k.near);
        }
        let q = plan(&other, &scope(true));
        let how = How { sizes: k.sizes.clone(), ..How::plain(k.max) };
        let other = How { sizes: k.sizes.clone(), ..How::plain(16) };
        let a = render(&p, &how);
        let b = if k.concurrent {
            let stop = Arc::new(AtomicBool::new(false));
            let _guard = Stop(stop.clone());
            let (q, other) = (q.clone(), other.clone());
            let t = std::thread::spawn(move || {
                for _ in 0..20 {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    render(&q, &other);
                }
            });
            let b = render(&p, &how);
            drop(_guard);
            t.join().map_err(|_| "the other engine panicked".to_string())?;
            b
        } else {
            let mut n = 0;
            render_with(&p, &how, &mut |_: &dyn Context| {
                n += 1;
                if n % 5 == 1 && n < 30 {
                    render(&q, &other);
                }
            })
        };
        bits("output", &a.out, &b.out)?;
        for (i, (x, y)) in a.recs.iter().zip(&b.recs).enumerate() {
            bits(&format!("recording {i}"), x, y)?;
        }
        if a.meters != b.meters && a.meters.iter().flatten().all(|m| m.1.is_finite()) {
            return Err("meter reports differ".into());
        }
        let mut o = Outcome::new(audible(&a.out) && p.edges.len() > 1 && p.items() > 0);
        o.label(k.twin && k.near == 0, "among engines of the same nodes at another sample rate");
        o.label(k.twin && k.near > 0, "among engines of nodes with almost the same data");
        o.label(k.concurrent, "with an engine on another thread");
        o.label((0..p.specs.len()).any(|i| p.edges.iter().filter(|e| e.to == i).count() > 2), "more than two connections into one node");
        Ok(o)
    }

    fn assumptions() -> Vec<String> {
        vec!["bit for bit, except that zeros may differ in sign".into()]
    }
}
