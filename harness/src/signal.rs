//! Workload generator: a zoo of i16 signals, from musical to hostile.
use crate::rng::Rng;

pub const KINDS: &[&str] = &[
    "silence",
    "dc",
    "white",
    "sine",
    "chirp",
    "melody",
    "square",
    "impulses",
    "extreme",
    "lsb",
    "gated",
    "ramp",
    "music+noise",
    "near_silence",
    "sparse",
    "am",
];

/// Kinds whose chroma is rich enough that fingerprints vary from item to item.
pub const RICH: &[&str] = &[
    "white",
    "melody",
    "music+noise",
    "lsb",
    "gated",
    "extreme",
    "am",
    "impulses",
];

fn clip(v: f64) -> i16 {
    v.round().clamp(-32768.0, 32767.0) as i16
}

pub fn melody(rng: &mut Rng, n: usize, rate: u32, amp: f64, noise: f64) -> Vec<i16> {
    let mut out = Vec::with_capacity(n);
    let rate = f64::from(rate);
    let mut voices: Vec<(f64, f64, f64)> = vec![]; // (freq, phase, amp)
    let mut left = 0usize;
    while out.len() < n {
        if left == 0 {
            left = (rng.frange(0.05, 0.6) * rate) as usize + 1;
            let k = rng.range(1, 5);
            voices = (0..k)
                .map(|_| {
                    let midi =
                        rng.irange(30, 100) as f64 + if rng.chance(0.2) { rng.f() } else { 0.0 };
                    (
                        440.0 * 2f64.powf((midi - 69.0) / 12.0),
                        rng.f() * 6.28,
                        rng.frange(0.1, 1.0) / k as f64,
                    )
                })
                .collect();
        }
        left -= 1;
        let t = out.len() as f64 / rate;
        let mut s = 0.0;
        for (f, p, a) in &voices {
            if *f < rate / 2.0 {
                s += a * (2.0 * std::f64::consts::PI * f * t + p).sin();
            }
        }
        s += noise * (rng.f() * 2.0 - 1.0);
        out.push(clip(s * amp));
    }
    out
}

pub fn generate(rng: &mut Rng, kind: &str, n: usize, rate: u32) -> Vec<i16> {
    let fr = f64::from(rate);
    let tau = 2.0 * std::f64::consts::PI;
    match kind {
        "silence" => vec![0; n],
        "dc" => vec![*rng.pick(&[1i16, -1, 7, 1000, 32767, -32768]); n],
        "white" => {
            let a = rng.logrange(2, 32767) as i64;
            (0..n).map(|_| rng.irange(-a, a) as i16).collect()
        }
        "lsb" => {
            let a = rng.range(1, 6) as i64;
            (0..n).map(|_| rng.irange(-a, a) as i16).collect()
        }
        "sine" => {
            let f = rng.frange(20.0, (fr / 2.0).min(6000.0));
            let a = rng.logrange(1, 32767) as f64;
            (0..n)
                .map(|i| clip(a * (tau * f * i as f64 / fr).sin()))
                .collect()
        }
        "chirp" => {
            let (f0, f1) = (
                rng.frange(20.0, 500.0),
                rng.frange(500.0, (fr / 2.0).min(5000.0)),
            );
            let a = rng.logrange(50, 32767) as f64;
            let d = n as f64 / fr;
            (0..n)
                .map(|i| {
                    let t = i as f64 / fr;
                    clip(a * (tau * (f0 * t + (f1 - f0) * t * t / (2.0 * d))).sin())
                })
                .collect()
        }
        "melody" => {
            let a = rng.logrange(30, 32767) as f64;
            melody(rng, n, rate, a, 0.0)
        }
        "music+noise" => {
            let (a, z) = (rng.logrange(30, 32767) as f64, rng.frange(0.01, 0.8));
            melody(rng, n, rate, a, z)
        }
        "square" => {
            let p = rng.logrange(2, (rate / 20) as usize).max(2);
            (0..n)
                .map(|i| {
                    if (i / (p / 2).max(1)) % 2 == 0 {
                        32767
                    } else {
                        -32768
                    }
                })
                .collect()
        }
        "impulses" => {
            let mut v = vec![0i16; n];
            let mut i = rng.below(2000);
            while i < n {
                v[i] = rng.irange(-32768, 32767) as i16;
                i += rng.logrange(1, 8000);
            }
            v
        }
        "extreme" => (0..n)
            .map(|_| if rng.chance(0.5) { i16::MIN } else { i16::MAX })
            .collect(),
        "gated" => {
            let mut v = melody(rng, n, rate, 20000.0, 0.05);
            let mut i = 0;
            while i < n {
                let on = rng.logrange(200, (rate as usize) * 4);
                let off = rng.logrange(200, (rate as usize) * 4);
                let lo = (i + on).min(n);
                let hi = (lo + off).min(n);
                v[lo..hi].fill(0);
                i = hi.max(i + 1);
            }
            v
        }
        "ramp" => {
            let s = rng.range(1, 3000) as i64;
            let mut a = rng.irange(-32768, 32767);
            (0..n)
                .map(|_| {
                    a += s;
                    if a > 32767 {
                        a -= 65536;
                    }
                    a as i16
                })
                .collect()
        }
        "near_silence" => {
            // energy around the level at which a feature vector counts as silent
            let mut v = vec![0i16; n];
            let p = rng.frange(0.0005, 0.3);
            for x in v.iter_mut() {
                if rng.chance(p) {
                    *x = rng.irange(-2, 2) as i16;
                }
            }
            v
        }
        "sparse" => {
            let mut v = vec![0i16; n];
            let a = rng.below(n.max(1));
            let b = (a + rng.logrange(1, n.max(2))).min(n);
            let seg = melody(rng, b - a, rate, 15000.0, 0.1);
            v[a..b].copy_from_slice(&seg);
            v
        }
        "am" => {
            let m = rng.frange(0.1, 8.0);
            let v = melody(rng, n, rate, 30000.0, 0.02);
            v.iter()
                .enumerate()
                .map(|(i, &x)| clip(f64::from(x) * (0.5 + 0.5 * (tau * m * i as f64 / fr).sin())))
                .collect()
        }
        _ => unreachable!("{kind}"),
    }
}

/// A channel layout for a mono signal: what each interleaved channel carries.
pub fn interleave(
    rng: &mut Rng,
    n: usize,
    channels: usize,
    rate: u32,
    kinds: &[&str],
) -> (Vec<i16>, String) {
    let kind = *rng.pick(kinds);
    let base = generate(rng, kind, n, rate);
    let mut out = vec![0i16; n * channels];
    let mode = rng.below(4);
    for c in 0..channels {
        for i in 0..n {
            out[i * channels + c] = match mode {
                0 => base[i],
                1 => {
                    if c % 2 == 0 {
                        base[i]
                    } else {
                        base[i].saturating_neg()
                    }
                }
                2 => base[(i + c * 37) % n.max(1)],
                _ => base[i].saturating_add(((i * 7919 + c * 104_729) % 7) as i16 - 3),
            };
        }
    }
    (
        out,
        format!(
            "{kind}/{}",
            ["same", "antiphase", "delayed", "dithered"][mode]
        ),
    )
}

/// Randomly splits 0..n (in frames) into chunk lengths. `style` names the distribution.
pub fn split(rng: &mut Rng, n: usize) -> (Vec<usize>, &'static str) {
    let mut v = vec![];
    let mut left = n;
    let style = *rng.pick(&[
        "whole",
        "fixed",
        "random",
        "boundary",
        "tiny_then_rest",
        "empties",
        "around_buffer",
    ]);
    match style {
        "whole" => v.push(n),
        "fixed" => {
            let c = rng.logrange(if n > 200_000 { 100 } else { 1 }, 40_000);
            while left > 0 {
                let k = c.min(left);
                v.push(k);
                left -= k;
            }
        }
        "boundary" => {
            // pieces that straddle or exactly hit powers of two and frame sizes
            while left > 0 {
                let c = *rng.pick(&[
                    1usize, 1023, 1024, 1365, 2048, 4095, 4096, 4097, 8192, 16384, 32767, 32768,
                    32769,
                ]);
                let k = c.min(left);
                v.push(k);
                left -= k;
            }
        }
        "around_buffer" => {
            while left > 0 {
                let c = 32768 + rng.range(0, 6) - 3;
                let k = c.min(left);
                v.push(k);
                left -= k;
            }
        }
        "tiny_then_rest" => {
            for _ in 0..rng.range(1, 50) {
                let k = rng.range(0, 3).min(left);
                v.push(k);
                left -= k;
            }
            v.push(left);
        }
        "empties" => {
            while left > 0 {
                if rng.chance(0.4) {
                    v.push(0);
                }
                let k = rng.logrange(1, 20_000).min(left);
                v.push(k);
                left -= k;
            }
            v.push(0);
        }
        _ => {
            while left > 0 {
                let k = rng.logrange(1, 60_000).min(left);
                v.push(k);
                left -= k;
            }
        }
    }
    (v, style)
}
