//! Routing: arbitrary histories of graph edits against a reference mixer of the whole graph.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    AddGain { ch: u8, rank: u16 },
    AddMixer { inp: u8, out: u8, rank: u16, seed: u64 },
    AddOsc { out: u8, rank: u16, v: i8 },
    Connect { a: u8, b: u8 },
    ConnectCh { a: u8, b: u8, sc: u8, dc: u8, n: u8 },
    Disconnect { a: u8, b: u8 },
    /// Disconnect the k-th existing connection's nodes.
    DisconnectEdge { k: u8 },
    Drop { a: u8 },
    ToInput { a: u8 },
    ToOutput { a: u8 },
    SetGain { a: u8, e: i8 },
    SetLevel { a: u8, i: u8, o: u8, e: i8 },
    Block { n: u16, in_ch: u8, out_ch: u8 },
    /// Nodes made and dropped at once, calls of no frames in between.
    Churn { n: u32 },
    /// So many nodes at once; each feeds one up to `fan` places on, and the last sounds.
    Tree { n: u16, fan: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub sr: usize,
    pub max_ch: usize,
    pub max_frames: usize,
    pub seed: u64,
    /// Nodes at one time.
    #[serde(default = "few")]
    pub most: usize,
    pub ops: Vec<Op>,
}

fn few() -> usize {
    14
}

enum Kind {
    Gain(Gain, f64),
    Mixer(Mixer, usize, usize, Vec<f64>),
    Osc(Oscillator, usize, f64, f64),
}

struct Node {
    id: u32,
    rank: (u16, u32),
    ins: usize,
    outs: usize,
    kind: Kind,
}

impl Node {
    fn node(&self) -> &GraphNode {
        match &self.kind {
            Kind::Gain(g, _) => &g.node,
            Kind::Mixer(m, ..) => &m.node,
            Kind::Osc(o, ..) => &o.node,
        }
    }
}

#[derive(Clone, Debug)]
struct Edge {
    from: u32,
    to: u32,
    sc: usize,
    dc: usize,
    n: usize,
}

pub struct P;

fn gain_of(e: i8) -> f64 {
    // Powers of two, zero, unity and negative gains.
    match e.rem_euclid(9) {
        0 => 0.0,
        1 | 2 => 1.0,
        3 => 0.5,
        4 => 2.0,
        5 => 0.25,
        6 => -1.0,
        7 => -0.5,
        _ => 0.75,
    }
}

fn level_of(e: i8) -> f64 {
    gain_of(e).abs()
}

/// For the macro, which wants something with a node.
struct Has<'a> {
    node: &'a GraphNode,
}

fn op(many: bool) -> BoxedStrategy<Op> {
    let a = move || if many { 0u8..255 } else { 0u8..16 };
    prop_oneof![
        3 => (sizes8(1..7, 32), any::<u16>()).prop_map(|(ch, rank)| Op::AddGain { ch, rank }),
        2 => (1u8..7, 1u8..7, any::<u16>(), any::<u64>()).prop_map(|(inp, out, rank, seed)| Op::AddMixer { inp, out, rank, seed }),
        2 => (sizes8(1..7, 32), any::<u16>(), 1i8..64).prop_map(|(out, rank, v)| Op::AddOsc { out, rank, v }),
        6 => (a(), a()).prop_map(|(a, b)| Op::Connect { a, b }),
        5 => (a(), a(), sizes8(0..7, 31), sizes8(0..7, 31), sizes8(1..7, 32)).prop_map(|(a, b, sc, dc, n)| Op::ConnectCh { a, b, sc, dc, n }),
        1 => (a(), a()).prop_map(|(a, b)| Op::Disconnect { a, b }),
        2 => a().prop_map(|k| Op::DisconnectEdge { k }),
        1 => a().prop_map(|a| Op::Drop { a }),
        2 => a().prop_map(|a| Op::ToInput { a }),
        3 => a().prop_map(|a| Op::ToOutput { a }),
        2 => (a(), any::<i8>()).prop_map(|(a, e)| Op::SetGain { a, e }),
        2 => (a(), 0u8..7, 0u8..7, any::<i8>()).prop_map(|(a, i, o, e)| Op::SetLevel { a, i, o, e }),
        5 => (prop_oneof![Just(0u16), 1u16..20, sizes16(1..150, 5000)], sizes8(0..9, 40), sizes8(0..9, 40)).prop_map(|(n, in_ch, out_ch)| Op::Block { n, in_ch, out_ch }),
    ]
    .boxed()
}

fn wide_op() -> BoxedStrategy<Op> {
    let (a, c) = (|| 0u8..16, || 1u8..33);
    prop_oneof![
        2 => (c(), any::<u16>()).prop_map(|(ch, rank)| Op::AddGain { ch, rank }),
        1 => (c(), any::<u16>(), 1i8..64).prop_map(|(out, rank, v)| Op::AddOsc { out, rank, v }),
        4 => (a(), a()).prop_map(|(a, b)| Op::Connect { a, b }),
        4 => (a(), a(), 0u8..32, 0u8..32, c()).prop_map(|(a, b, sc, dc, n)| Op::ConnectCh { a, b, sc, dc, n }),
        1 => a().prop_map(|k| Op::DisconnectEdge { k }),
        1 => a().prop_map(|a| Op::ToInput { a }),
        2 => a().prop_map(|a| Op::ToOutput { a }),
        1 => (a(), any::<i8>()).prop_map(|(a, e)| Op::SetGain { a, e }),
        4 => (1u16..40, c(), c()).prop_map(|(n, in_ch, out_ch)| Op::Block { n, in_ch, out_ch }),
    ]
    .boxed()
}

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "histories of up to 60 graph edits (add, connect, connect channels, disconnect, drop, assign input/output, gains) and blocks with varying channel counts; non-trivial: some rendered block has a node with two incoming connections or a channel subset upstream of the output, and audible output";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 50_000 } else { 1_500_000 }
    }

    fn assumptions() -> Vec<String> {
        vec![
            "graphs are acyclic, channel ranges lie within the nodes and the engine's channel maximum, and no two connections between the same nodes name the same source and destination channel".into(),
            "node kinds: gain, mixer, constant oscillator (their processing is exact)".into(),
        ]
    }

    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let n = if t == Tier::Quick { 60 } else { 150 };
        // Now and then a large graph: chains, fans, and what was generated on top.
        let many = (20u8..120, 1u8..20, prop::collection::vec((any::<u8>(), any::<u8>()), 0..80), prop::collection::vec(op(true), 0..60)).prop_map(|(n, fan, extra, ops)| {
            // A tree in which every node but the last feeds one up to `fan` places on, and more.
            let mut all: Vec<Op> = (0..n).map(|_| Op::AddGain { ch: 2, rank: 30000 }).collect();
            for i in 0..n - 1 {
                all.push(Op::Connect { a: i, b: (i / fan * fan + fan).min(n - 1) });
            }
            all.extend(extra.into_iter().map(|(a, b)| Op::ConnectCh { a, b, sc: b % 2, dc: a % 2, n: 1 }));
            all.push(Op::ToInput { a: 0 });
            all.push(Op::ToOutput { a: n - 1 });
            all.push(Op::Block { n: 20, in_ch: 2, out_ch: 2 });
            all.extend(ops);
            all.push(Op::Block { n: 20, in_ch: 2, out_ch: 2 });
            all
        });
        // Or one of many channels throughout.
        let wide = (9u8..33, prop::collection::vec(wide_op(), 4..30)).prop_map(|(ch, ops)| {
            let mut all: Vec<Op> = (0..4).map(|i| Op::AddGain { ch, rank: 10000 * i }).collect();
            all.extend([(0, 3), (1, 3), (0, 2), (2, 3)].map(|(a, b)| Op::Connect { a, b }));
            all.extend([Op::AddOsc { out: ch, rank: 100, v: 9 }, Op::Connect { a: 4, b: 3 }, Op::ToInput { a: 0 }, Op::ToOutput { a: 3 }]);
            all.push(Op::Block { n: 12, in_ch: ch, out_ch: ch });
            all.extend(ops);
            all.push(Op::Block { n: 12, in_ch: ch, out_ch: ch });
            (ch as usize, all)
        });
        // Or one that sees many nodes come and go.
        let churn = (60_000u32..90_000, 1u32..300, prop::collection::vec(op(false), 0..30)).prop_map(|(n, m, ops)| {
            let mut all: Vec<Op> = (0..5).map(|i| Op::AddGain { ch: 2, rank: 10000 * i }).collect();
            all.extend([(0, 1), (1, 2), (0, 3), (2, 3)].map(|(a, b)| Op::Connect { a, b }));
            all.extend([Op::ToInput { a: 0 }, Op::ToOutput { a: 3 }, Op::Block { n: 12, in_ch: 2, out_ch: 2 }, Op::Churn { n }]);
            all.extend([Op::AddOsc { out: 2, rank: 100, v: 9 }, Op::Connect { a: 5, b: 2 }, Op::SetGain { a: 1, e: 3 }]);
            all.push(Op::Block { n: 12, in_ch: 2, out_ch: 2 });
            all.extend(ops);
            all.push(Op::Churn { n: m });
            all.push(Op::Block { n: 12, in_ch: 2, out_ch: 2 });
            all
        });
        // Or a very large one.
        let tree = (400u16..950, 1u8..20, prop::collection::vec(op(true), 0..20)).prop_map(|(n, fan, ops)| {
            let mut all = vec![Op::Tree { n, fan }, Op::Block { n: 20, in_ch: 2, out_ch: 2 }];
            all.extend(ops);
            all.push(Op::Block { n: 20, in_ch: 2, out_ch: 2 });
            all
        });
        let few_ops = prop::collection::vec(op(false), 4..n);
        let ops = prop_oneof![
            3600 => few_ops.prop_map(|o| (0usize, 14usize, o)),
            1 => churn.prop_map(|o| (0usize, 14usize, o)),
            2 => tree.prop_map(|o| (0usize, 1000usize, o)),
            60 => many.prop_map(|o| (0usize, 150usize, o)),
            120 => wide.prop_map(|(ch, o)| (ch, 14usize, o)),
        ];
        (
            prop::sample::select(vec![8000usize, 44100, 48000]),
            prop_oneof![60 => 1usize..7, 1 => 7usize..33],
            prop_oneof![60 => prop::sample::select(vec![8usize, 16, 64]), 1 => prop::sample::select(vec![512usize, 4096])],
            any::<u64>(),
            ops,
        )
            .prop_map(|(sr, max_ch, max_frames, seed, (at_least, most, mut ops))| {
                let max_ch = max_ch.max(at_least);
                // Start from something that can sound.
                let head = vec![
                    Op::AddGain { ch: 2, rank: 30000 },
                    Op::AddGain { ch: 3, rank: 40000 },
                    Op::AddOsc { out: 2, rank: 100, v: 5 },
                    Op::ToInput { a: 0 },
                    Op::ToOutput { a: 1 },
                    Op::Connect { a: 0, b: 1 },
                ];
                if seed % 4 != 0 && at_least == 0 && !ops.iter().any(|o| matches!(o, Op::Churn { .. } | Op::Tree { .. })) {
                    ops.splice(0..0, head);
                }
                ops.push(Op::Block { n: 9, in_ch: 2, out_ch: max_ch as u8 });
                Case { sr, max_ch, max_frames, seed, most, ops }
            })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        history(k)
    }
}


fn history(k: &Case) -> CaseResult {
    let mut eng = engine(k.sr, k.max_ch, k.max_frames);
    let mut nodes: Vec<Node> = vec![];
    let mut edges: Vec<Edge> = vec![];
    let (mut input, mut output): (Option<u32>, Option<u32>) = (None, None);
    let mut next = 0u32;
    let mut o = Outcome::default();
    let span: usize = k.ops.iter().map(|o| if let Op::Block { n, .. } = o { *n as usize } else { 0 }).sum();
    let wide = k.ops.iter().map(|o| if let Op::Block { in_ch, .. } = o { *in_ch as usize } else { 0 }).max().unwrap_or(0);
    let data = grid_planar(k.seed, wide.max(8), span.max(9000));
    eng.ctx.start();
    let cap = |c: u8| (c as usize).min(k.max_ch);
    let max_nodes = k.most;
    for (step, op) in k.ops.iter().enumerate() {
        let pick = |i: u8, nodes: &Vec<Node>| if nodes.is_empty() { None } else { Some(i as usize % nodes.len()) };
        match op {
            Op::AddGain { ch, rank } if nodes.len() < max_nodes => {
                let ch = cap(*ch);
                let g = Gain::new(eng.ctx.as_ref(), ch);
                nodes.push(Node { id: next, rank: (*rank, next), ins: ch, outs: ch, kind: Kind::Gain(g, 1.0) });
                next += 1;
            }
            Op::AddMixer { inp, out, rank, seed } if nodes.len() < max_nodes => {
                let (i, u) = (cap(*inp), cap(*out));
                let mut m = Mixer::new(eng.ctx.as_ref(), i, u);
                let mut mat = vec![0.0; i * u];
                let mut r = Prng::new(*seed);
                for x in 0..i {
                    for y in 0..u {
                        let g = level_of(r.below(9) as i8);
                        if r.below(3) == 0 && g != 0.0 {
                            m.set_level(x, y, Level::from_linear(g));
                            mat[y * i + x] = g;
                        }
                    }
                }
                nodes.push(Node { id: next, rank: (*rank, next), ins: i, outs: u, kind: Kind::Mixer(m, i, u, mat) });
                next += 1;
            }
            Op::AddOsc { out, rank, v } if nodes.len() < max_nodes => {
                let u = cap(*out);
                let v = *v as f64 / 64.0;
                let osc = Oscillator::new(eng.ctx.as_ref(), 440.0, u, vec![v; 4]);
                nodes.push(Node { id: next, rank: (*rank, next), ins: 0, outs: u, kind: Kind::Osc(osc, u, v, 1.0) });
                next += 1;
            }
            Op::Connect { a, b } => {
                if let (Some(a), Some(b)) = (pick(*a, &nodes), pick(*b, &nodes)) {
                    let (a, b) = if nodes[a].rank < nodes[b].rank { (a, b) } else { (b, a) };
                    let e = Edge { from: nodes[a].id, to: nodes[b].id, sc: 0, dc: 0, n: nodes[a].outs };
                    if a != b && !clashes(&edges, &e) {
                        if step % 3 == 0 {
                            let (a, b) = (Has { node: nodes[a].node() }, Has { node: nodes[b].node() });
                            connect_nodes!(a => b);
                        } else {
                            nodes[a].node().connect_to(nodes[b].node());
                        }
                        edges.push(e);
                    }
                }
            }
            Op::ConnectCh { a, b, sc, dc, n } => {
                if let (Some(a), Some(b)) = (pick(*a, &nodes), pick(*b, &nodes)) {
                    let (a, b) = if nodes[a].rank < nodes[b].rank { (a, b) } else { (b, a) };
                    if a != b && nodes[b].ins > 0 {
                        let sc = *sc as usize % nodes[a].outs;
                        let dc = *dc as usize % nodes[b].ins;
                        let n = (*n as usize).min(nodes[a].outs - sc).min(nodes[b].ins - dc);
                        let e = Edge { from: nodes[a].id, to: nodes[b].id, sc, dc, n };
                        if !clashes(&edges, &e) {
                            nodes[a].node().connect_channels_to(nodes[b].node(), sc, dc, n);
                            edges.push(e);
                        }
                    }
                }
            }
            Op::Tree { n, fan } => {
                let (n, fan, first) = (*n as usize, *fan as usize, nodes.len());
                for _ in 0..n {
                    let ch = cap(2);
                    nodes.push(Node { id: next, rank: (30000, next), ins: ch, outs: ch, kind: Kind::Gain(Gain::new(eng.ctx.as_ref(), ch), 1.0) });
                    next += 1;
                }
                for i in 0..n - 1 {
                    let (a, b) = (first + i, first + (i / fan * fan + fan).min(n - 1));
                    nodes[a].node().connect_to(nodes[b].node());
                    edges.push(Edge { from: nodes[a].id, to: nodes[b].id, sc: 0, dc: 0, n: nodes[a].outs });
                }
                nodes[first].node().connect_to_input();
                nodes[first + n - 1].node().connect_to_output();
                (input, output) = (Some(nodes[first].id), Some(nodes[first + n - 1].id));
            }
            Op::Churn { n } => {
                for i in 0..*n {
                    let g = Gain::new(eng.ctx.as_ref(), 1);
                    if let (Some(b), 0) = (nodes.first(), i % 64) {
                        b.node().connect_to(&g.node);
                    }
                    drop(g);
                    if i % 256 == 255 {
                        eng.block(&data, 0, &mut vec![], 0);
                    }
                }
                o.label(*n > 65_536, "many nodes come and gone");
            }
            Op::Disconnect { a, b } => {
                if let (Some(a), Some(b)) = (pick(*a, &nodes), pick(*b, &nodes)) {
                    nodes[a].node().disconnect_from_node(nodes[b].node());
                    let (x, y) = (nodes[a].id, nodes[b].id);
                    edges.retain(|e| !(e.from == x && e.to == y));
                }
            }
            Op::DisconnectEdge { k } => {
                if !edges.is_empty() {
                    let e = edges[*k as usize % edges.len()].clone();
                    let f = |id: u32| nodes.iter().position(|n| n.id == id).unwrap();
                    nodes[f(e.from)].node().disconnect_from_node(nodes[f(e.to)].node());
                    let before = edges.len();
                    edges.retain(|x| !(x.from == e.from && x.to == e.to));
                    o.label(before - edges.len() > 1, "several connections between two nodes removed");
                }
            }
            Op::Drop { a } => {
                if let Some(a) = pick(*a, &nodes) {
                    let n = nodes.remove(a);
                    o.label(edges.iter().any(|e| e.from == n.id || e.to == n.id), "connected node dropped");
                    edges.retain(|e| e.from != n.id && e.to != n.id);
                    if input == Some(n.id) {
                        input = None;
                    }
                    if output == Some(n.id) {
                        output = None;
                    }
                    drop(n);
                }
            }
            Op::ToInput { a } => {
                if let Some(a) = pick(*a, &nodes) {
                    if step % 3 == 0 {
                        let a = Has { node: nodes[a].node() };
                        connect_nodes!("input" => a);
                    } else {
                        nodes[a].node().connect_to_input();
                    }
                    input = Some(nodes[a].id);
                }
            }
            Op::ToOutput { a } => {
                if let Some(a) = pick(*a, &nodes) {
                    if step % 3 == 0 {
                        let a = Has { node: nodes[a].node() };
                        connect_nodes!(a => "output");
                    } else {
                        nodes[a].node().connect_to_output();
                    }
                    output = Some(nodes[a].id);
                }
            }
            Op::SetGain { a, e } => {
                if let Some(a) = pick(*a, &nodes) {
                    match &mut nodes[a].kind {
                        Kind::Gain(g, v) => {
                            *v = gain_of(*e);
                            g.gain().set_value_now(*v);
                        }
                        Kind::Osc(g, _, _, v) => {
                            *v = gain_of(*e);
                            g.gain().set_value_now(*v);
                        }
                        _ => {}
                    }
                }
            }
            Op::SetLevel { a, i, o, e } => {
                if let Some(a) = pick(*a, &nodes) {
                    if let Kind::Mixer(m, ins, outs, mat) = &mut nodes[a].kind {
                        let (i, o) = (*i as usize % *ins, *o as usize % *outs);
                        mat[o * *ins + i] = level_of(*e);
                        m.set_level(i, o, Level::from_linear(level_of(*e)));
                    }
                }
            }
            Op::Block { n, in_ch, out_ch } => {
                let n = *n as usize;
                let (ic, oc) = (*in_ch as usize, *out_ch as usize);
                let mut out: Planar = vec![vec![]; oc];
                let pos = eng.pos;
                eng.block(&data, ic, &mut out, n);
                // Reference: nodes in rank order.
                let mut order: Vec<usize> = (0..nodes.len()).collect();
                order.sort_by_key(|&i| nodes[i].rank);
                let mut res: std::collections::HashMap<u32, (Vec<Vec<f64>>, f64)> = Default::default();
                for &i in &order {
                    let nd = &nodes[i];
                    let mut x = vec![vec![0.0f64; n]; nd.ins];
                    let mut mag = 0.0f64;
                    if input == Some(nd.id) {
                        for c in 0..nd.ins.min(ic).min(k.max_ch) {
                            for f in 0..n {
                                x[c][f] += data[c].get(pos + f).copied().unwrap_or(0.0) as f64;
                            }
                        }
                        mag += 1.0;
                    }
                    for e in edges.iter().filter(|e| e.to == nd.id) {
                        let (y, m) = &res[&e.from];
                        mag += m;
                        for j in 0..e.n {
                            if e.dc + j < nd.ins && e.sc + j < y.len() {
                                for f in 0..n {
                                    x[e.dc + j][f] += y[e.sc + j][f];
                                }
                            }
                        }
                    }
                    let y = match &nd.kind {
                        Kind::Gain(_, g) => x.iter().map(|c| c.iter().map(|v| v * g).collect()).collect(),
                        Kind::Osc(_, u, v, g) => vec![vec![v * g; n]; *u],
                        Kind::Mixer(_, ins, outs, mat) => (0..*outs)
                            .map(|oc| (0..n).map(|f| (0..*ins).map(|ic| mat[oc * ins + ic] * x[ic][f]).sum()).collect())
                            .collect(),
                    };
                    let m = match &nd.kind {
                        Kind::Gain(_, g) => mag * g.abs(),
                        Kind::Osc(_, _, v, g) => (v * g).abs(),
                        Kind::Mixer(_, ins, ..) => mag * 2.0 * *ins as f64,
                    };
                    res.insert(nd.id, (y, m));
                }
                let silent = (vec![], 0.0);
                let (want, mag) = output.map(|id| &res[&id]).unwrap_or(&silent);
                let tol = 1e-5 * mag.max(1.0);
                let mut heard = false;
                for c in 0..oc {
                    for f in 0..n {
                        let w = if c < k.max_ch { want.get(c).map(|d| d[f]).unwrap_or(0.0) } else { 0.0 };
                        let g = out[c][f] as f64;
                        heard |= w != 0.0;
                        if !((g - w).abs() <= tol) {
                            return Err(format!("operation {step}: output channel {c} frame {f} is {g}, the connections give {w}; connections {edges:?}, input {input:?}, output {output:?}"));
                        }
                    }
                }
                if heard {
                    // Does what is heard pass a node with several or partial connections?
                    let mut up = vec![output.unwrap()];
                    let mut i = 0;
                    let mut interesting = false;
                    while i < up.len() {
                        let inc: Vec<&Edge> = edges.iter().filter(|e| e.to == up[i]).collect();
                        let outs = |id: u32| nodes.iter().find(|n| n.id == id).unwrap().outs;
                        interesting |= inc.len() > 1 || inc.iter().any(|e| e.sc != 0 || e.dc != 0 || e.n != outs(e.from));
                        interesting |= input == Some(up[i]) && !inc.is_empty();
                        for e in inc {
                            if !up.contains(&e.from) {
                                up.push(e.from);
                            }
                        }
                        i += 1;
                    }
                    o.nontrivial |= interesting;
                    o.label(up.len() > 16, "more than 16 nodes heard");
                    o.label(nodes.len() > 400, "more than 400 nodes");
                    o.label(up.iter().any(|i| edges.iter().filter(|e| e.to == *i).count() > 16), "more than 16 connections into one node heard");
                    o.label(up.iter().any(|i| edges.iter().filter(|e| e.to == *i && e.dc + e.n > 8).count() > 1), "more than eight channels mixed");
                    o.label(n > k.max_frames, "block beyond the maximum");
                    o.label(input.is_some_and(|i| up.contains(&i) && edges.iter().any(|e| e.to == i)), "system input mixed with connections");
                }
            }
            _ => {}
        }
    }
    Ok(o)
}

fn clashes(edges: &[Edge], e: &Edge) -> bool {
    edges.iter().any(|x| {
        x.from == e.from
            && x.to == e.to
            && (0..x.n).any(|i| (0..e.n).any(|j| x.sc + i == e.sc + j && x.dc + i == e.dc + j))
    })
}
