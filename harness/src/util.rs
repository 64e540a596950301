//! Data expansion from generated seeds, an engine wrapper, comparisons.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rawdio::prelude::*;
use std::sync::atomic::Ordering;
use std::time::Duration;

pub fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Deterministic expansion of a generated seed into bulk data.
#[derive(Clone)]
pub struct Prng(pub u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(mix64(seed ^ 0x5bd1e995))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix64(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn sym(&mut self) -> f64 {
        self.unit() * 2.0 - 1.0
    }
}

/// Samples k/64, k in -64..=64, never zero: sums of a few and products with powers of two are exact.
pub fn grid(seed: u64, n: usize) -> Vec<f32> {
    let mut r = Prng::new(seed);
    (0..n)
        .map(|_| {
            let k = r.below(128) as i64 - 64;
            let k = if k >= 0 { k + 1 } else { k };
            k as f32 / 64.0
        })
        .collect()
}

pub fn noise(seed: u64, n: usize) -> Vec<f32> {
    let mut r = Prng::new(seed);
    (0..n).map(|_| r.sym() as f32).collect()
}

/// Sizes most cases keep to, and rarely far larger ones.
pub fn sizes16(small: std::ops::Range<u16>, large: u16) -> BoxedStrategy<u16> {
    let top = small.end;
    prop_oneof![300 => small, 1 => top..=large].boxed()
}

/// The same for channel counts.
pub fn sizes8(small: std::ops::Range<u8>, large: u8) -> BoxedStrategy<u8> {
    let top = small.end;
    prop_oneof![100 => small, 1 => top..=large].boxed()
}

/// Whether a case has many channels, long calls and large engine blocks.
pub fn large() -> BoxedStrategy<bool> {
    prop::bool::weighted(0.01).boxed()
}

pub type Planar = Vec<Vec<f32>>;

pub fn grid_planar(seed: u64, ch: usize, n: usize) -> Planar {
    (0..ch).map(|c| grid(seed.wrapping_add(c as u64 * 7919), n)).collect()
}

pub fn noise_planar(seed: u64, ch: usize, n: usize) -> Planar {
    (0..ch).map(|c| noise(seed.wrapping_add(c as u64 * 7919), n)).collect()
}

pub fn to_planar(b: &dyn AudioBuffer) -> Planar {
    (0..b.channel_count())
        .map(|c| if b.frame_count() == 0 { vec![] } else { b.get_channel_data(SampleLocation::channel(c)).to_vec() })
        .collect()
}

pub fn from_planar(p: &[Vec<f32>], frames: usize, sr: usize) -> OwnedAudioBuffer {
    let mut b = OwnedAudioBuffer::new(frames, p.len(), sr);
    for (c, d) in p.iter().enumerate() {
        if !d.is_empty() {
            b.get_channel_data_mut(SampleLocation::channel(c)).copy_from_slice(d);
        }
    }
    b
}

fn thread_count() -> usize {
    std::fs::read_to_string("/proc/self/status")
        .ok()
        .and_then(|s| s.lines().find_map(|l| l.strip_prefix("Threads:").and_then(|v| v.trim().parse().ok())))
        .unwrap_or(0)
}

/// Each engine keeps a collector thread for a while after it is dropped; do not let them pile up.
fn throttle() {
    thread_local!(static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
    let n = N.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n % 16 != 0 {
        return;
    }
    let own = crate::runner::WAITING_OWN.with(|w| w.borrow().clone());
    while thread_count() > 2500 {
        if let Some(o) = &own {
            o.store(true, Ordering::SeqCst);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    if let Some(o) = &own {
        o.store(false, Ordering::SeqCst);
    }
}

pub struct Eng {
    pub ctx: Box<dyn Context>,
    pub pro: Box<dyn AudioProcess + Send>,
    pub sr: usize,
    pub pos: usize,
    life: u64,
    life_call: usize,
    uptime: f64,
}

thread_local! {
    static UPTIME: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static LIVED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static EPOCH: std::cell::Cell<f64> = const { std::cell::Cell::new(0.0) };
}

/// How many frames (about) engines made from now on have rendered before they are handed out.
/// and how many calls nodes live through before their histories begin.
pub fn set_uptime(frames: u64, lived: u64) {
    UPTIME.with(|u| u.set(frames));
    LIVED.with(|u| u.set(lived));
    EPOCH.with(|e| e.set(0.0));
}

/// How many frames engines have rendered when the histories begin.
pub fn epoch() -> f64 {
    EPOCH.with(|e| e.get())
}

/// Whether something happens before the history begins; what is for "now", time zero, is then for before it.
pub fn aged() -> bool {
    UPTIME.with(|u| u.get()) + LIVED.with(|u| u.get()) > 0
}

/// A time on the engine's time line, in frames from where the history began.
pub fn moment(frames: f64, sr: usize) -> Timestamp {
    Timestamp::from_seconds((epoch() + frames) / sr as f64)
}

pub fn engine(sr: usize, max_ch: usize, max_frames: usize) -> Eng {
    let mut eng = young_engine(sr, max_ch, max_frames);
    // The time it takes depends on how many blocks those are.
    let most = (max_frames as u64) << if UPTIME.with(|u| u.get()) < 1 << 30 { 18 } else { 26 };
    let uptime = UPTIME.with(|u| u.get()).min(most);
    if uptime > 0 {
        eng.ctx.start();
        eng.idle(uptime);
        eng.ctx.stop();
    }
    eng.life = LIVED.with(|l| l.get());
    eng.life_call = if eng.life % 2 == 1 { 1 } else { max_frames.min(64) };
    eng.uptime = uptime as f64;
    EPOCH.with(|e| e.set(eng.uptime));
    eng
}

fn young_engine(sr: usize, max_ch: usize, max_frames: usize) -> Eng {
    throttle();
    let (ctx, pro) = create_engine_with_options(
        EngineOptions::default()
            .with_sample_rate(sr)
            .with_maximum_channel_count(max_ch)
            .with_maximum_frame_count(max_frames),
    );
    Eng { ctx, pro, sr, pos: 0, life: 0, life_call: 0, uptime: 0.0 }
}

pub fn default_engine() -> Eng {
    throttle();
    let (ctx, pro) = create_engine();
    let sr = ctx.get_sample_rate();
    Eng { ctx, pro, sr, pos: 0, life: 0, life_call: 0, uptime: 0.0 }
}

impl Eng {
    /// Start, and let the nodes live through some calls of silence before the history begins.
    pub fn live(&mut self) {
        self.ctx.start();
        let input = OwnedAudioBuffer::new(self.life_call, 1, self.sr);
        let mut out = OwnedAudioBuffer::new(self.life_call, 1, self.sr);
        for _ in 0..self.life {
            self.pro.process(&input, &mut out);
        }
        let lived = self.life as f64 * self.life_call as f64;
        EPOCH.with(|e| e.set(self.uptime + lived));
        self.life = 0;
    }

    /// Render one call of `n` frames; input channel data is taken from `input[..][self.pos..]` (silence past its end).
    pub fn block(&mut self, input: &[Vec<f32>], in_ch: usize, out: &mut Planar, n: usize) {
        let mut i = OwnedAudioBuffer::new(n, in_ch, self.sr);
        for c in 0..in_ch.min(input.len()) {
            if n > 0 && self.pos < input[c].len() {
                let m = n.min(input[c].len() - self.pos);
                i.get_channel_data_mut(SampleLocation::channel(c))[..m].copy_from_slice(&input[c][self.pos..self.pos + m]);
            }
        }
        let mut o = OwnedAudioBuffer::new(n, out.len(), self.sr);
        // Stale contents of the host's buffer must not matter.
        for c in 0..out.len() {
            if n > 0 {
                o.get_channel_data_mut(SampleLocation::channel(c)).fill(7.25);
            }
        }
        self.pro.process(&i, &mut o);
        for c in 0..out.len() {
            if n > 0 {
                out[c].extend_from_slice(o.get_channel_data(SampleLocation::channel(c)));
            }
        }
        self.pos += n;
    }

    /// Let time pass: that many frames in long calls, of which nothing is looked at.
    pub fn idle(&mut self, frames: u64) {
        const CALL: u64 = 1 << 24;
        let mut left = frames;
        while left > 0 {
            let n = left.min(CALL) as usize;
            // Without channels calls of any length cost nothing.
            let input = OwnedAudioBuffer::new(n, 0, self.sr);
            let mut out = OwnedAudioBuffer::new(n, 0, self.sr);
            self.pro.process(&input, &mut out);
            left -= n as u64;
        }
    }

    /// Render `blocks` calls after starting; returns the planar output.
    pub fn render(&mut self, input: &[Vec<f32>], in_ch: usize, out_ch: usize, blocks: &[usize]) -> Planar {
        let mut out: Planar = vec![vec![]; out_ch];
        for &b in blocks {
            self.block(input, in_ch, &mut out, b);
        }
        out
    }
}

/// Split `total` into calls by cycling through `sizes` (each at least 1).
pub fn partition(total: usize, sizes: &[usize]) -> Vec<usize> {
    let mut v = vec![];
    let mut left = total;
    let mut i = 0;
    while left > 0 {
        let s = if sizes.is_empty() { left } else { sizes[i % sizes.len()].max(1) };
        let s = s.min(left);
        v.push(s);
        left -= s;
        i += 1;
    }
    v
}

pub fn same(what: &str, got: &[Vec<f32>], want: &[Vec<f32>]) -> Result<(), String> {
    close(what, got, want, 0.0)
}

/// Every sample within `tol` (0: equal as numbers, -0 equals 0).
pub fn close(what: &str, got: &[Vec<f32>], want: &[Vec<f32>], tol: f32) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} channels instead of {}", got.len(), want.len()));
    }
    for c in 0..want.len() {
        if got[c].len() != want[c].len() {
            return Err(format!("{what}: channel {c} has {} frames instead of {}", got[c].len(), want[c].len()));
        }
        for f in 0..want[c].len() {
            let (g, w) = (got[c][f], want[c][f]);
            let ok = if tol == 0.0 { g == w } else { (g - w).abs() <= tol };
            if !ok {
                return Err(format!("{what}: channel {c} frame {f} is {g:?}, expected {w:?} (tolerance {tol})"));
            }
        }
    }
    Ok(())
}

pub fn all_finite(what: &str, p: &[Vec<f32>]) -> Result<(), String> {
    for (c, d) in p.iter().enumerate() {
        if let Some(f) = d.iter().position(|x| !x.is_finite()) {
            return Err(format!("{what}: channel {c} frame {f} is {}", d[f]));
        }
    }
    Ok(())
}

pub fn secs(frames: f64, sr: usize) -> Timestamp {
    Timestamp::from_seconds(frames / sr as f64)
}
