//! Nodes dropped at any time: the rest plays on as if only their connections had gone, and the
//! rendering thread neither destroys nor waits.

use crate::anynode;
use crate::heap;
use crate::runner::*;
use crate::util::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};
use std::time::Instant;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    World { world: World, max: usize, sizes: Vec<usize> },
    Mass(Mass),
}

/// Many nodes around one that is heard, dropped in groups.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mass {
    pub count: usize,
    /// Kind of the nodes: 0 sampler, 1 convolution, 2 oscillator, 3 gain, each with a big table.
    pub kind: u8,
    /// Connected: 0 not, 1 into the bus, 2 from the source, 3 both, 4 to the next.
    pub links: u8,
    /// Nodes dropped before each block.
    pub groups: Vec<usize>,
    /// Milliseconds between setting up and dropping.
    pub pause: u8,
    pub seed: u64,
}

pub struct P;

const TABLE: usize = 8192;

enum Any {
    S(Sampler),
    C(Convolution),
    O(Oscillator),
    G(Gain),
}

impl Any {
    fn node(&self) -> &GraphNode {
        match self {
            Any::S(n) => &n.node,
            Any::C(n) => &n.node,
            Any::O(n) => &n.node,
            Any::G(n) => &n.node,
        }
    }
}

fn cpu() -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// Longest time a call spent waiting, and the rest of the verdict.
fn mass(k: &Mass) -> Result<f64, String> {
    let sr = 1024;
    // A gain's table is its parameter's buffer.
    let mut eng = engine(sr, 1, if k.kind == 3 { TABLE } else { 32 });
    let source = Gain::new(eng.ctx.as_ref(), 1);
    let bus = Gain::new(eng.ctx.as_ref(), 1);
    source.node.connect_to_input();
    source.node.connect_to(&bus.node);
    bus.node.connect_to_output();
    let table = grid_planar(k.seed, 1, TABLE);
    let mut nodes: Vec<Option<Any>> = (0..k.count)
        .map(|_| {
            Some(match k.kind {
                0 => Any::S(Sampler::new(eng.ctx.as_ref(), from_planar(&table, TABLE, sr))),
                1 => Any::C(Convolution::new(eng.ctx.as_ref(), 1, from_planar(&table, TABLE, sr))),
                2 => Any::O(Oscillator::new(eng.ctx.as_ref(), 100.0, 1, table[0].iter().map(|x| *x as f64).collect())),
                _ => Any::G(Gain::new(eng.ctx.as_ref(), 1)),
            })
        })
        .collect();
    let takes = k.kind == 1 || k.kind == 3;
    for i in 0..k.count {
        let n = nodes[i].as_ref().unwrap();
        // Nothing here sounds: silent samplers, nodes without input, or not leading to the bus.
        if (k.links == 1 || k.links == 3) && k.kind != 2 && !(k.links == 3 && takes) {
            n.node().connect_to(&bus.node);
        }
        if (k.links == 2 || k.links == 3) && takes {
            source.node.connect_to(n.node());
        }
        if k.links == 4 && takes && i + 1 < k.count {
            n.node().connect_to(nodes[i + 1].as_ref().unwrap().node());
        }
    }
    eng.ctx.start();
    let total = (k.groups.len() + 2) * 32;
    let input = grid_planar(k.seed ^ 1, 1, total);
    let mut out: Planar = vec![vec![]];
    eng.block(&input, 1, &mut out, 32);
    std::thread::sleep(std::time::Duration::from_millis(k.pause as u64));
    let mut r = Prng::new(k.seed);
    let mut waited = 0f64;
    let mut worst = 0;
    let mut left: Vec<usize> = (0..k.count).collect();
    for g in k.groups.iter().chain([&k.count]) {
        for _ in 0..(*g).min(left.len()) {
            let i = left.swap_remove(r.below(left.len()));
            nodes[i] = None;
        }
        let mut i = OwnedAudioBuffer::new(32, 1, sr);
        i.get_channel_data_mut(SampleLocation::origin()).copy_from_slice(&input[0][eng.pos..eng.pos + 32]);
        let mut o = OwnedAudioBuffer::new(32, 1, sr);
        let (wall, busy) = (Instant::now(), cpu());
        let ((), counts) = heap::counted(|| eng.pro.process(&i, &mut o));
        waited = waited.max(wall.elapsed().as_secs_f64() - (cpu() - busy));
        worst = worst.max(counts.max_free);
        eng.pos += 32;
        out[0].extend_from_slice(o.get_channel_data(SampleLocation::origin()));
    }
    if worst >= TABLE * 4 {
        return Err(format!("the rendering thread freed {worst} bytes at once: it destroyed a dropped node"));
    }
    let want: Planar = vec![input[0][..out[0].len()].to_vec()];
    same("the nodes that remain", &out, &want)?;
    Ok(waited)
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "whole-engine histories with drops against the same with only the connections removed, and up to 480 nodes dropped in groups; non-trivial: something was dropped and the rest audible";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 250_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let world = (
            strategy(&anynode::ALL, 2..9, 2..6, 500),
            prop::sample::select(vec![16usize, 64, 300]),
            prop::collection::vec(prop_oneof![1usize..40, 1usize..400], 1..4),
            prop::collection::vec((any::<prop::sample::Index>(), any::<u8>(), 0usize..8), 1..4),
        )
            .prop_map(|(mut world, max, sizes, drops)| {
                // Make sure of some drops.
                for (at, node, pos) in drops {
                    let n = world.phases.len();
                    let acts = &mut world.phases[at.index(n)].0;
                    acts.insert(pos.min(acts.len()), Act { node, verb: 255, gap: 0, dur: 0, v: 0.0, sub: 0 });
                }
                Case::World { world, max, sizes }
            });
        let group = prop_oneof![3 => 1usize..4, 2 => 1usize..40, 1 => 100usize..700];
        let mass = (
            prop_oneof![2 => 1usize..20, 1 => 20usize..480],
            0u8..4,
            0u8..5,
            prop::collection::vec(group, 0..6),
            0u8..3,
            any::<u64>(),
        )
            .prop_map(|(count, kind, links, groups, pause, seed)| {
                let count = if kind == 1 { count.min(40) } else { count };
                Case::Mass(Mass { count, kind, links, groups, pause, seed })
            });
        // More drops at once than fit on the way to the collector.
        let flood = (500usize..1000, any::<u64>()).prop_map(|(count, seed)| Case::Mass(Mass { count, kind: 3, links: 0, groups: vec![], pause: 0, seed }));
        prop_oneof![100 => world, 6 => mass, 1 => flood].boxed()
    }

    fn run(k: &Case) -> CaseResult {
        match k {
            Case::World { world, max, sizes } => {
                let p = plan(world, &Scope { ties: true, rewire: true, cancels: true, drops: true, ..Default::default() });
                let how = How { sizes: sizes.clone(), ..How::plain(*max) };
                let a = render(&p, &how);
                let b = render(&p, &How { keep_dropped: true, ..how });
                same_heard(&b, &a, 1e-6, false).map_err(|e| format!("{e}: dropping nodes rather than removing their connections"))?;
                let dropped: Vec<usize> = p.phases.iter().flat_map(|x| &x.0).filter_map(|i| if let Item::Drop(i) = i { Some(*i) } else { None }).collect();
                let mut o = Outcome::new(!dropped.is_empty() && audible(&a.out));
                o.label(dropped.iter().any(|i| p.edges.iter().any(|e| e.from == *i || e.to == *i)), "connected node dropped");
                o.label(p.input.is_some_and(|i| dropped.contains(&i)), "node with the system input dropped");
                o.label(dropped.len() > 1, "several dropped");
                Ok(o)
            }
            Case::Mass(k) => {
                let mut waited = mass(k)?;
                // A wait must repeat to count.
                for _ in 0..3 {
                    if waited < 0.2 {
                        break;
                    }
                    waited = waited.min(mass(k)?);
                }
                if waited >= 0.2 {
                    return Err(format!("rendering waited {waited:.3} s after dropping nodes"));
                }
                let mut o = Outcome::new(true);
                o.label(k.count > 100, "more than 100 nodes dropped");
                o.label(k.count > 512, "more than 512 nodes dropped at once");
                Ok(o)
            }
        }
    }

    fn assumptions() -> Vec<String> {
        vec![
            "fewer than 1000 nodes, of which fewer than 500 rendered with connections (the engine's buffers)".into(),
            "destruction on the rendering thread shows as a free of the node's 32 kB table there".into(),
            "waiting: a render call spends 0.2 s or more off the processor in four repetitions".into(),
        ]
    }
}
