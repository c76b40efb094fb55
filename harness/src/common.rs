//! Shared drivers and generators.
use crate::engine::{sut, Res, Tier};
use crate::refmodel::{self, RefConfig, CLASSES1, CLASSES2};
use crate::rng::Rng;
use crate::signal;
use rusty_chromaprint::{Configuration, Fingerprinter};

pub fn fingerprint(cfg: &Configuration, rate: u32, channels: u32, data: &[i16]) -> Res<Vec<u32>> {
    sut("fingerprint", || {
        let mut p = Fingerprinter::new(cfg);
        p.start(rate, channels)
            .map_err(|e| format!("start({rate}, {channels}) failed: {e}"))?;
        p.consume(data);
        p.finish();
        Ok(p.fingerprint().to_vec())
    })?
    .map_err(crate::engine::Stop::Violation)
}

/// Fingerprint of interleaved data handed over in the given pieces (frames).
pub fn fingerprint_split(
    cfg: &Configuration,
    rate: u32,
    channels: u32,
    data: &[i16],
    pieces: &[usize],
) -> Res<Vec<u32>> {
    sut("fingerprint in pieces", || {
        let mut p = Fingerprinter::new(cfg);
        p.start(rate, channels)
            .map_err(|e| format!("start({rate}, {channels}) failed: {e}"))?;
        let mut at = 0;
        for k in pieces {
            let to = at + k * channels as usize;
            p.consume(&data[at..to]);
            at = to;
        }
        assert!(at == data.len(), "harness: pieces do not cover the data");
        p.finish();
        Ok(p.fingerprint().to_vec())
    })?
    .map_err(crate::engine::Stop::Violation)
}

pub struct Both {
    pub r: RefConfig,
    pub s: Configuration,
}

pub fn preset(id: u8) -> Both {
    Both {
        r: refmodel::preset(id),
        s: refmodel::sut_preset(id),
    }
}

pub fn any_preset(rng: &mut Rng) -> Both {
    preset(rng.below(5) as u8)
}

/// A preset with its frame, filter, interpolation or silence settings replaced.
/// `small`: frames of at most 512 samples, so that a few thousand samples make many items.
pub fn custom(rng: &mut Rng, small: bool, silence: bool) -> Both {
    let one = rng.chance(0.4);
    let mut s = if one {
        Configuration::preset_test1()
    } else {
        Configuration::preset_test2()
    };
    let mut r = refmodel::preset(if one { 0 } else { 1 });
    debug_assert!(std::ptr::eq(
        r.classes,
        if one { &CLASSES1 } else { &CLASSES2 }
    ));
    let frame = if small {
        if rng.chance(0.03) {
            rng.range(2, 15)
        } else if rng.chance(0.7) {
            1usize << rng.range(5, 9)
        } else {
            rng.range(16, 300)
        }
    } else {
        match rng.below(4) {
            _ if rng.chance(0.05) => 1usize << rng.range(14, 16),
            0 => 1usize << rng.range(9, 13),
            1 => rng.range(400, 1500),
            _ => 1usize << rng.range(10, 12),
        }
    };
    let overlap = match rng.below(6) {
        0 => 0,
        1 => frame / 2,
        2 => frame - frame / 3,
        3 if small => frame - 1,
        4 => frame - (frame / 8).max(1),
        _ => rng.range(0, frame - (frame / 16).max(1)),
    };
    let overlap = overlap.min(frame - 1);
    let mut with = vec![];
    if rng.chance(0.9) {
        s = s.with_frame_size(frame).with_frame_overlap(overlap);
        r.frame = frame;
        r.overlap = overlap;
        with.push(format!("frame {frame}/{overlap}"));
    } else {
        // shrink to something cheap in any case
        let f = if small { 128 } else { 2048 };
        s = s.with_frame_size(f).with_frame_overlap(f / 2);
        r.frame = f;
        r.overlap = f / 2;
        with.push(format!("frame {f}/{}", f / 2));
    }
    if rng.chance(0.5) {
        let n = if rng.chance(0.06) {
            rng.logrange(16, 300)
        } else {
            *rng.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 8, 9, 12, 16])
        };
        let mut c: Vec<f64> = (0..n).map(|_| (rng.range(1, 40) as f64) / 20.0).collect();
        if n > 1 && rng.chance(0.1) {
            // unused rows, at either end too
            c[rng.below(n)] = 0.0;
        }
        s = s.with_coefficients(c.clone());
        r.coefs = c;
        with.push(format!("{n} coefficients"));
    }
    if rng.chance(0.4) {
        let i = rng.chance(0.7);
        s = s.with_interpolation(i);
        r.interpolate = i;
        with.push(format!("interpolation {i}"));
    }
    if silence && rng.chance(0.3) {
        let t = *rng.pick(&[0u32, 1, 10, 50, 200, 5000]);
        s = s.with_removed_silence(t);
        r.silence = Some(t);
        with.push(format!("silence {t}"));
    }
    r.name = format!("{} with {}", r.name, with.join(", "));
    Both { r, s }
}

pub const COMMON_RATES: &[u32] = &[
    8000, 11024, 11026, 12000, 16000, 18900, 22050, 24000, 32000, 37800, 44056, 44100, 47250,
    48000, 50000, 64000, 88200, 96000, 176_400, 192_000, 352_800, 384_000, 705_600, 768_000,
    33_075, 55_125, 5512, 5513, 1001, 1002, 2000, 4000, 6000, 7350, 9600, 11_127,
];

/// A rate other than 11025 Hz.
pub fn other_rate(rng: &mut Rng, hi: usize) -> u32 {
    loop {
        let r = match rng.below(4) {
            0 | 1 => *rng.pick(COMMON_RATES),
            2 => rng.logrange(1001, 200_000) as u32,
            _ => rng.logrange(1001, hi) as u32,
        };
        if r != 11025 && r as usize <= hi {
            return r;
        }
    }
}

pub fn any_rate(rng: &mut Rng) -> u32 {
    if rng.chance(0.35) {
        11025
    } else {
        other_rate(rng, 400_000)
    }
}

pub fn any_channels(rng: &mut Rng) -> u32 {
    match rng.below(10) {
        0..=2 => 1,
        3..=4 => 2,
        5..=7 => rng.range(3, 8) as u32,
        8 => rng.range(9, 40) as u32,
        _ => *rng.pick(&[64u32, 100, 128, 255, 256, 257]),
    }
}

/// Input frames at `rate` that make about `items` items of configuration `r`.
pub fn frames_for(r: &RefConfig, rate: u32, items: usize) -> usize {
    let n = r.delay() + items * r.hop() + r.hop() / 2 + 40;
    (n as f64 * f64::from(rate) / 11025.0) as usize + 40
}

/// A stream: interleaved data with its layout.
pub struct Stream {
    pub rate: u32,
    pub channels: u32,
    pub data: Vec<i16>,
    pub what: String,
}

impl Stream {
    pub fn frames(&self) -> usize {
        self.data.len() / self.channels as usize
    }
    pub fn describe(&self) -> String {
        format!(
            "{} frames of {} at {} Hz, {} channel(s)",
            self.frames(),
            self.what,
            self.rate,
            self.channels
        )
    }
}

pub fn stream(rng: &mut Rng, rate: u32, channels: u32, frames: usize, kinds: &[&str]) -> Stream {
    let (data, what) = if channels == 1 {
        let k = *rng.pick(kinds);
        (signal::generate(rng, k, frames, rate), k.to_string())
    } else {
        signal::interleave(rng, frames, channels as usize, rate, kinds)
    };
    Stream {
        rate,
        channels,
        data,
        what,
    }
}

/// Any configuration with any stream: presets take seconds of audio, custom ones less.
/// `cap` bounds the total number of interleaved samples.
pub fn config_and_stream(rng: &mut Rng, cap: usize, kinds: &[&str]) -> (Both, Stream) {
    let both = if rng.chance(0.4) {
        any_preset(rng)
    } else {
        let small = rng.chance(0.7);
        custom(rng, small, true)
    };
    let mut rate = any_rate(rng);
    let mut channels = any_channels(rng);
    let items = rng.logrange(1, 60);
    while frames_for(&both.r, rate, items) * channels as usize > cap {
        if channels > 2 {
            channels = (channels / 2).max(2);
        } else if rate > 48_000 {
            rate = 48_000;
        } else if channels > 1 {
            channels = 1;
        } else {
            rate = 11025;
            break;
        }
    }
    let mut frames = frames_for(&both.r, rate, items).min(cap / channels as usize);
    // often enough cross the internal batch boundary, or sit right at it
    if rng.chance(0.3) && 200_000 * channels as usize <= cap {
        frames = frames
            .max(rng.range(1, 6) * 32768 + rng.below(5))
            .saturating_sub(2);
    }
    let s = stream(rng, rate, channels, frames, kinds);
    (both, s)
}

pub fn thorough(t: Tier) -> bool {
    t == Tier::Thorough
}

pub fn first_diff(a: &[u32], b: &[u32]) -> String {
    if a.len() != b.len() {
        let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
        return format!("{} vs {} items (first {k} agree)", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("item {i} of {}: {:08x} vs {:08x}", a.len(), a[i], b[i]),
        None => "equal".into(),
    }
}

pub fn distinct(fp: &[u32]) -> usize {
    let mut v = fp.to_vec();
    v.sort_unstable();
    v.dedup();
    v.len()
}
