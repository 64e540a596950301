//! The mixer against its gain matrix.

use crate::runner::*;
use crate::util::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Lvl {
    Zero,
    Unity,
    Lin(f64),
    Db(f64),
}

impl Lvl {
    /// The same, but so much quieter.
    fn quieter(self, by: f64) -> Lvl {
        match self {
            l if by == 1.0 => l,
            l => Lvl::Lin(l.gain() * by),
        }
    }
    fn level(&self) -> Level {
        match self {
            Lvl::Zero => Level::zero(),
            Lvl::Unity => Level::unity(),
            Lvl::Lin(x) => Level::from_linear(*x),
            Lvl::Db(x) => Level::from_db(*x),
        }
    }
    fn gain(&self) -> f64 {
        match self {
            Lvl::Zero => 0.0,
            Lvl::Unity => 1.0,
            Lvl::Lin(x) => *x,
            Lvl::Db(x) => 10f64.powf(x / 20.0),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Preset {
    New,
    Splitter,
    Unity,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub preset: Preset,
    pub ins: usize,
    pub outs: usize,
    pub max_frames: usize,
    pub seed: u64,
    /// Per call: frames, and the changes made before it.
    pub calls: Vec<(usize, Vec<(u8, u8, Lvl)>)>,
    /// Number of changes repeated before the first call.
    pub flood: u16,
    /// All levels are so many powers of two lower.
    #[serde(default)]
    pub quiet: i32,
}

pub struct P;

impl Prop for P {
    type Case = Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "mixers up to 8x8 with up to a few hundred level changes between calls; non-trivial: at least two levels set and audible output";

    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 40_000 } else { 1_000_000 }
    }

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let lvl = prop_oneof![
            1 => Just(Lvl::Zero),
            2 => Just(Lvl::Unity),
            3 => (0.0f64..2.0).prop_map(Lvl::Lin),
            1 => prop::sample::select(vec![1e-4, 1e-3, 0.99, 0.999, 1.001, 1.01, 4.0, 100.0]).prop_map(Lvl::Lin),
            2 => (-70.0f64..12.0).prop_map(Lvl::Db),
        ];
        let change = (any::<u8>(), any::<u8>(), lvl);
        let call = (
            prop_oneof![100 => 1usize..20, 100 => 1usize..200, 1 => 200usize..6000],
            prop_oneof![4 => prop::collection::vec(change.clone(), 0..6), 1 => prop::collection::vec(change, 0..120)],
        );
        let preset = prop_oneof![4 => Just(Preset::New), 1 => Just(Preset::Splitter), 1 => Just(Preset::Unity)];
        (
            preset,
            1usize..9,
            1usize..9,
            prop_oneof![60 => prop::sample::select(vec![16usize, 64, 100]), 1 => prop::sample::select(vec![512usize, 4096])],
            any::<u64>(),
            prop::collection::vec(call, 1..8),
            prop_oneof![9 => Just(0u16), 1 => 0u16..1500],
            prop_oneof![4 => Just(0i32), 1 => 8i32..25],
        )
            .prop_map(|(preset, ins, outs, max_frames, seed, calls, flood, quiet)| Case { preset, ins, outs, max_frames, seed, calls, flood, quiet })
            .boxed()
    }

    fn run(k: &Case) -> CaseResult {
        let mut eng = engine(48000, 8, k.max_frames);
        let ctx = eng.ctx.as_ref();
        let (mut m, ins, outs) = match k.preset {
            Preset::New => (Mixer::new(ctx, k.ins, k.outs), k.ins, k.outs),
            Preset::Splitter => (Mixer::mono_to_stereo_splitter(ctx), 1, 2),
            Preset::Unity => (Mixer::unity(ctx, k.ins), k.ins, k.ins),
        };
        let mut mat = vec![vec![0.0f64; ins]; outs];
        match k.preset {
            Preset::New => {}
            Preset::Splitter => {
                mat[0][0] = 1.0;
                mat[1][0] = 1.0;
            }
            Preset::Unity => (0..ins).for_each(|i| mat[i][i] = 1.0),
        }
        m.node.connect_to_input();
        m.node.connect_to_output();
        eng.live();
        let mut r = Prng::new(k.seed);
        let total: usize = k.calls.iter().map(|c| c.0).sum();
        let data = noise_planar(k.seed, ins, total);
        let mut o = Outcome::default();
        let quiet = 0.5f64.powi(k.quiet);
        let mut set = 0;
        for i in 0..k.flood {
            let (x, y, v) = (r.below(ins), r.below(outs), (0.5 + i as f64 / 4000.0) * quiet);
            m.set_level(x, y, Level::from_linear(v));
            mat[y][x] = v;
            set += 1;
        }
        for (n, changes) in &k.calls {
            for (x, y, l) in changes {
                let (x, y) = (*x as usize % ins, *y as usize % outs);
                let l = l.quieter(quiet);
                m.set_level(x, y, l.level());
                mat[y][x] = l.gain();
                set += 1;
                let back = m.gain_matrix.get_level(x, y).as_linear();
                if (back - l.gain()).abs() > 1e-9 * l.gain() {
                    return Err(format!("level {x}->{y} was set to {l:?} and reads {back}"));
                }
            }
            let mut out: Planar = vec![vec![]; outs];
            let pos = eng.pos;
            eng.block(&data, ins, &mut out, *n);
            for y in 0..outs {
                let mag: f64 = mat[y].iter().sum();
                for f in 0..*n {
                    let want: f64 = (0..ins).map(|x| mat[y][x] * data[x][pos + f] as f64).sum();
                    let got = out[y][f] as f64;
                    if !((got - want).abs() <= 2e-6 * mag.max(1e-3 * quiet) + 3e-15) {
                        return Err(format!("output {y} frame {}: {got}, the matrix row {:?} gives {want}", pos + f, mat[y]));
                    }
                    o.nontrivial |= set >= 2 && want != 0.0;
                }
            }
            o.label(changes.len() > 32, ">32 changes between two calls");
        }
        o.label(k.quiet > 0, "quiet");
        o.label(k.flood > 32, "flood");
        o.label(!matches!(k.preset, Preset::New), "preset");
        Ok(o)
    }
}
