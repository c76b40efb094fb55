//! Independent reference of the Chromaprint fingerprint (written from the published algorithm, not
//! from the code under test): plain windows, direct sums instead of an integral image, an own FFT,
//! an exact-rational resampler. Every classifier value is kept, so that a comparison can tell a
//! real disagreement from a value that sits on a quantizer threshold to within rounding.

pub const RATE: u32 = 11025;

#[derive(Clone, Debug)]
pub struct RefConfig {
    pub name: String,
    pub classes: &'static [(u8, usize, usize, usize, [f64; 3]); 16],
    pub coefs: Vec<f64>,
    pub frame: usize,
    pub overlap: usize,
    pub interpolate: bool,
    /// Leading samples are dropped until the moving average of |sample| exceeds this.
    pub silence: Option<u32>,
}

impl RefConfig {
    pub fn hop(&self) -> usize {
        self.frame - self.overlap
    }
    pub fn maxw(&self) -> usize {
        self.classes.iter().map(|c| c.3).max().unwrap()
    }
    /// Samples at 11025 Hz that precede the first item (beyond its own hop).
    pub fn delay(&self) -> usize {
        (self.coefs.len() - 1 + self.maxw() - 1) * self.hop() + self.overlap
    }
    /// Number of items for n samples at 11025 Hz.
    pub fn items(&self, n: usize) -> usize {
        n.saturating_sub(self.delay()) / self.hop()
    }
}

// kind, first note, notes, rows, thresholds
pub static CLASSES1: [(u8, usize, usize, usize, [f64; 3]); 16] = [
    (0, 0, 3, 15, [2.10543, 2.45354, 2.69414]),
    (1, 0, 4, 14, [-0.345922, 0.0463746, 0.446251]),
    (1, 4, 4, 11, [-0.392132, 0.0291077, 0.443391]),
    (3, 0, 4, 14, [-0.192851, 0.00583535, 0.204053]),
    (2, 8, 2, 4, [-0.0771619, -0.00991999, 0.0575406]),
    (5, 6, 2, 15, [-0.710437, -0.518954, -0.330402]),
    (1, 9, 2, 16, [-0.353724, -0.0189719, 0.289768]),
    (3, 4, 2, 10, [-0.128418, -0.0285697, 0.0591791]),
    (3, 9, 2, 16, [-0.139052, -0.0228468, 0.0879723]),
    (2, 1, 3, 6, [-0.133562, 0.00669205, 0.155012]),
    (3, 3, 6, 2, [-0.0267, 0.00804829, 0.0459773]),
    (2, 8, 1, 10, [-0.0972417, 0.0152227, 0.129003]),
    (3, 4, 4, 14, [-0.141434, 0.00374515, 0.149935]),
    (5, 4, 2, 15, [-0.64035, -0.466999, -0.285493]),
    (5, 9, 2, 3, [-0.322792, -0.254258, -0.174278]),
    (2, 1, 8, 4, [-0.0741375, -0.00590933, 0.0600357]),
];
pub static CLASSES2: [(u8, usize, usize, usize, [f64; 3]); 16] = [
    (0, 4, 3, 15, [1.98215, 2.35817, 2.63523]),
    (4, 4, 6, 15, [-1.03809, -0.651211, -0.282167]),
    (1, 0, 4, 16, [-0.298702, 0.119262, 0.558497]),
    (3, 8, 2, 12, [-0.105439, 0.0153946, 0.135898]),
    (3, 4, 4, 8, [-0.142891, 0.0258736, 0.200632]),
    (4, 0, 3, 5, [-0.826319, -0.590612, -0.368214]),
    (1, 2, 2, 9, [-0.557409, -0.233035, 0.0534525]),
    (2, 7, 3, 4, [-0.0646826, 0.00620476, 0.0784847]),
    (2, 6, 2, 16, [-0.192387, -0.029699, 0.215855]),
    (2, 1, 3, 2, [-0.0397818, -0.00568076, 0.0292026]),
    (5, 10, 1, 15, [-0.53823, -0.369934, -0.190235]),
    (3, 6, 2, 10, [-0.124877, 0.0296483, 0.139239]),
    (2, 1, 1, 14, [-0.101475, 0.0225617, 0.231971]),
    (3, 5, 6, 4, [-0.0799915, -0.00729616, 0.063262]),
    (1, 9, 2, 12, [-0.272556, 0.019424, 0.302559]),
    (3, 4, 2, 14, [-0.164292, -0.0321188, 0.0846339]),
];

/// Reference counterpart of the five presets (AcoustID algorithm ids 0..=4).
pub fn preset(id: u8) -> RefConfig {
    let coefs = vec![0.25, 0.75, 1.0, 0.75, 0.25];
    let base = RefConfig {
        name: format!("preset_test{}", id + 1),
        classes: if id == 0 { &CLASSES1 } else { &CLASSES2 },
        coefs,
        frame: 4096,
        overlap: 4096 - 1365,
        interpolate: id == 2,
        silence: (id == 3).then_some(50),
    };
    if id == 4 {
        RefConfig {
            frame: 2048,
            overlap: 1024,
            ..base
        }
    } else {
        base
    }
}

pub fn sut_preset(id: u8) -> rusty_chromaprint::Configuration {
    use rusty_chromaprint::Configuration as C;
    match id {
        0 => C::preset_test1(),
        1 => C::preset_test2(),
        2 => C::preset_test3(),
        3 => C::preset_test4(),
        4 => C::preset_test5(),
        _ => unreachable!(),
    }
}

struct Spectrum {
    n: usize,
    cos: Vec<f64>,
    sin: Vec<f64>,
}

impl Spectrum {
    fn new(n: usize) -> Self {
        let a = |i: usize| 2.0 * std::f64::consts::PI * i as f64 / n as f64;
        Self {
            n,
            cos: (0..n).map(|i| a(i).cos()).collect(),
            sin: (0..n).map(|i| a(i).sin()).collect(),
        }
    }
    /// |DFT|^2 at bins lo..hi (indexed from 0).
    fn power(&self, x: &[f64], lo: usize, hi: usize) -> Vec<f64> {
        let n = self.n;
        let mut out = vec![0.0; hi];
        if n.is_power_of_two() && n >= 8 {
            let bits = n.trailing_zeros();
            let mut re: Vec<f64> = vec![0.0; n];
            let mut im: Vec<f64> = vec![0.0; n];
            for (i, v) in x.iter().enumerate() {
                re[i.reverse_bits() >> (usize::BITS - bits)] = *v;
            }
            let mut len = 2;
            while len <= n {
                let step = n / len;
                for s in (0..n).step_by(len) {
                    for k in 0..len / 2 {
                        let (c, d) = (self.cos[k * step], -self.sin[k * step]);
                        let (i, j) = (s + k, s + k + len / 2);
                        let (tr, ti) = (re[j] * c - im[j] * d, re[j] * d + im[j] * c);
                        re[j] = re[i] - tr;
                        im[j] = im[i] - ti;
                        re[i] += tr;
                        im[i] += ti;
                    }
                }
                len *= 2;
            }
            for b in lo..hi {
                out[b] = re[b] * re[b] + im[b] * im[b];
            }
        } else {
            for b in lo..hi {
                let (mut re, mut im, mut k) = (0.0, 0.0, 0usize);
                for v in x {
                    re += v * self.cos[k];
                    im -= v * self.sin[k];
                    k += b;
                    while k >= n {
                        k -= n;
                    }
                }
                out[b] = re * re + im * im;
            }
        }
        out
    }
}

pub struct RefItem {
    pub bits: u32,
    pub values: [f64; 16],
    /// The item depends on a feature row whose norm is within rounding of the silence cut-off.
    pub ambiguous: bool,
    /// Smallest norm of the (unnormalized) feature rows the item depends on.
    pub min_norm: f64,
    /// Extra tolerance: the item depends on a sample whose resampling phase hinges on rounding.
    pub slack: f64,
}

/// Normalized 12-band chroma rows of samples at 11025 Hz (already scaled by 1/32767).
pub fn rows(cfg: &RefConfig, x: &[f64]) -> (Vec<[f64; 12]>, Vec<f64>) {
    let n = cfg.frame;
    let hop = cfg.hop();
    let lo = ((n as f64 * 28.0 / f64::from(RATE)).round() as usize).max(1);
    let hi = ((n as f64 * 3520.0 / f64::from(RATE)).round() as usize).min(n / 2);
    let window: Vec<f64> = (0..n)
        .map(|i| 0.54 - 0.46 * (2.0 * std::f64::consts::PI * i as f64 / (n as f64 - 1.0)).cos())
        .collect();
    let sp = Spectrum::new(n);
    let mut raw: Vec<[f64; 12]> = vec![];
    let mut at = 0;
    while at + n <= x.len() {
        let frame: Vec<f64> = (0..n).map(|i| x[at + i] * window[i]).collect();
        let p = if lo < hi {
            sp.power(&frame, lo, hi)
        } else {
            vec![]
        };
        let mut c = [0.0; 12];
        for b in lo..hi {
            let f = b as f64 * f64::from(RATE) / n as f64;
            let oct = (f / 27.5).log2();
            let note = 12.0 * (oct - oct.floor());
            let k = (note.floor() as usize).min(11);
            let frac = note - note.floor();
            if cfg.interpolate {
                // linear split between the two bands whose centres surround the bin
                if frac < 0.5 {
                    let a = 0.5 + frac;
                    c[k] += p[b] * a;
                    c[(k + 11) % 12] += p[b] * (1.0 - a);
                } else if frac > 0.5 {
                    let a = 1.5 - frac;
                    c[k] += p[b] * a;
                    c[(k + 1) % 12] += p[b] * (1.0 - a);
                } else {
                    c[k] += p[b];
                }
            } else {
                c[k] += p[b];
            }
        }
        raw.push(c);
        at += hop;
    }
    let l = cfg.coefs.len();
    let mut rows = vec![];
    let mut norms = vec![];
    for r in 0..(raw.len() + 1).saturating_sub(l) {
        let mut v = [0.0; 12];
        for (j, w) in cfg.coefs.iter().enumerate() {
            for b in 0..12 {
                v[b] += w * raw[r + j][b];
            }
        }
        let norm = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        norms.push(norm);
        if norm < 0.01 {
            v = [0.0; 12];
        } else {
            for x in &mut v {
                *x /= norm;
            }
        }
        rows.push(v);
    }
    (rows, norms)
}

pub fn fingerprint(cfg: &RefConfig, x: &[f64]) -> Vec<RefItem> {
    let (rows, norms) = rows(cfg, x);
    let maxw = cfg.maxw();
    let mut out = vec![];
    for t in 0..(rows.len() + 1).saturating_sub(maxw) {
        let area = |r0: usize, r1: usize, c0: usize, c1: usize| -> f64 {
            let mut s = 0.0;
            for row in &rows[t + r0..t + r1] {
                for v in &row[c0..c1] {
                    s += v;
                }
            }
            s
        };
        let mut bits = 0u32;
        let mut values = [0.0; 16];
        for (i, &(kind, y, h, w, th)) in cfg.classes.iter().enumerate() {
            let (a, b) = match kind {
                0 => (area(0, w, y, y + h), 0.0),
                1 => (area(0, w, y + h / 2, y + h), area(0, w, y, y + h / 2)),
                2 => (area(w / 2, w, y, y + h), area(0, w / 2, y, y + h)),
                3 => (
                    area(0, w / 2, y + h / 2, y + h) + area(w / 2, w, y, y + h / 2),
                    area(0, w / 2, y, y + h / 2) + area(w / 2, w, y + h / 2, y + h),
                ),
                4 => {
                    let q = h / 3;
                    (
                        area(0, w, y + q, y + 2 * q),
                        area(0, w, y, y + q) + area(0, w, y + 2 * q, y + h),
                    )
                }
                5 => {
                    let q = w / 3;
                    (
                        area(q, 2 * q, y, y + h),
                        area(0, q, y, y + h) + area(2 * q, w, y, y + h),
                    )
                }
                _ => unreachable!(),
            };
            let v = (1.0 + a).ln() - (1.0 + b).ln();
            values[i] = v;
            let level = th.iter().filter(|t| v >= **t).count();
            bits = (bits << 2) | [0u32, 1, 3, 2][level];
        }
        let ambiguous = norms[t..t + maxw].iter().any(|n| (n - 0.01).abs() < 1e-7);
        let min_norm = norms[t..t + maxw].iter().fold(f64::MAX, |a, b| a.min(*b));
        out.push(RefItem {
            bits,
            values,
            ambiguous,
            min_norm,
            slack: 0.0,
        });
    }
    out
}

#[derive(Default, Debug)]
pub struct Compared {
    pub items: usize,
    pub exact: usize,
    pub excused: usize,
}

/// Compares a fingerprint with the reference. A 2-bit field may differ only if the reference value
/// lies within `eps` of a threshold between the two levels.
pub fn compare(
    cfg: &RefConfig,
    reference: &[RefItem],
    fp: &[u32],
    eps: f64,
) -> Result<Compared, String> {
    let mut c = Compared::default();
    if reference.len() < fp.len() {
        return Err(format!(
            "expected at most {} items, got {}",
            reference.len(),
            fp.len()
        ));
    }
    for (i, (r, &g)) in reference.iter().zip(fp).enumerate() {
        c.items += 1;
        if r.bits == g {
            c.exact += 1;
            continue;
        }
        if r.ambiguous {
            c.excused += 1;
            continue;
        }
        for k in 0..16 {
            let sh = 30 - 2 * k;
            let (a, b) = ((r.bits >> sh) & 3, (g >> sh) & 3);
            if a != b {
                let ungray = [0u32, 1, 3, 2];
                let (la, lb) = (ungray[a as usize], ungray[b as usize]);
                let th = cfg.classes[k].4;
                let near = la.abs_diff(lb) == 1
                    && (r.values[k] - th[la.min(lb) as usize]).abs() < eps + r.slack;
                if !near {
                    return Err(format!(
                        "item {i} of {}: got {g:08x}, reference {:08x}; classifier {k} has value {} (level {la}), got level {lb}",
                        fp.len(), r.bits, r.values[k]
                    ));
                }
            }
        }
        c.excused += 1;
    }
    Ok(c)
}

/// Average of the channels of each interleaved frame, truncated toward zero.
pub fn downmix(data: &[i16], channels: usize) -> Vec<i16> {
    data.chunks_exact(channels)
        .map(|f| (f.iter().map(|&s| i64::from(s)).sum::<i64>() / channels as i64) as i16)
        .collect()
}

pub fn scale(x: &[i16]) -> Vec<f64> {
    x.iter().map(|&s| f64::from(s) / 32767.0).collect()
}

// ---------------------------------------------------------------------------------------------
// Resampling: 16-tap Blackman-windowed sinc, 128 phases, nearest phase. Positions are exact
// rationals k*R/11025, so there is no accumulated rounding and no tie between phases.
// Output k is centred on input position k*R/11025 (the first output is k = 1); the input is
// surrounded by silence on both sides.

/// Fewest and most samples at 11025 Hz that n input samples may have become: the end of the stream
/// may or may not be extended by the support of the interpolation kernel.
pub fn resampled_bounds(n: usize, rate: u32) -> (usize, usize) {
    if rate == RATE {
        return (n, n);
    }
    let (r, q) = (u128::from(rate), u128::from(RATE));
    let ceil_t = (r + q - 1) / q;
    let lo = (n as u128).saturating_sub(34 + 2 * ceil_t) * q / r;
    let hi = (n as u128 * q).div_ceil(r) + 1;
    (lo.saturating_sub(1) as usize, hi as usize)
}

/// The outputs, and the (ascending) indices of the outputs whose phase hinges on the rounding of an
/// accumulated position: each output may add up to 3.7e-12 input samples (half a unit in the last
/// place below 65536) to it.
pub fn resample_marked(x: &[f64], rate: u32) -> (Vec<f64>, Vec<usize>) {
    if rate == RATE {
        return (x.to_vec(), vec![]);
    }
    let mut marked = vec![];
    const TAPS: usize = 16;
    const PH: usize = 128;
    let ratio = f64::from(RATE) / f64::from(rate);
    let cutoff: f32 = if ratio >= 1.0 {
        0.8f32
    } else {
        0.8f32 * ratio as f32
    };
    let tot = TAPS * PH;
    let pi = std::f64::consts::PI;
    let proto: Vec<f64> = (0..tot)
        .map(|i| {
            let f = i as f64 / tot as f64;
            let w = 0.42 - 0.5 * (2.0 * pi * f).cos() + 0.08 * (4.0 * pi * f).cos();
            let t = (i as f64 - (tot / 2) as f64) * f64::from(cutoff) / PH as f64;
            w * if t == 0.0 {
                1.0
            } else {
                (pi * t).sin() / (pi * t)
            }
        })
        .collect();
    let sum = proto.iter().sum::<f64>() / PH as f64;
    // taps of one phase, contiguous
    let mut table = vec![[0.0f64; TAPS]; PH];
    for (ph, row) in table.iter_mut().enumerate() {
        for (j, v) in row.iter_mut().enumerate() {
            *v = proto[PH * j + (PH - 1 - ph)] / sum;
        }
    }
    let n = x.len() as i64;
    let (r, q) = (i64::from(rate), i64::from(RATE));
    let total = resampled_bounds(x.len(), rate).1;
    let mut y = Vec::with_capacity(total);
    let (mut fl, mut rem) = (-8i64, 0i64);
    for k in 0..total {
        rem += r;
        fl += rem / q;
        rem %= q;
        // nearest of 128 phases; 2*128*rem is never an odd multiple of q as q is odd
        let mut ph = (2 * PH as i64 * rem + q) / (2 * q);
        let off = (2 * PH as i64 * rem) % (2 * q) - q;
        if (off.abs() as f64) / (2.0 * q as f64) < PH as f64 * 3.7e-12 * (k + 1) as f64 {
            marked.push(k);
        }
        let mut at = fl;
        if ph >= PH as i64 {
            ph -= PH as i64;
            at += 1;
        }
        let taps = &table[ph as usize];
        let mut s = 0.0;
        if at >= 0 && at + TAPS as i64 <= n {
            for (v, w) in x[at as usize..at as usize + TAPS].iter().zip(taps) {
                s += v * w;
            }
        } else {
            for (j, w) in taps.iter().enumerate() {
                let i = at + j as i64;
                if i >= 0 && i < n {
                    s += x[i as usize] * w;
                }
            }
        }
        y.push(s);
    }
    (y, marked)
}

// ---------------------------------------------------------------------------------------------
// Leading silence: samples are dropped until the average level of the last (up to) 55 samples
// exceeds the threshold; levels and averages are integers.

/// Index of the first sample that is kept, and whether that index hinges on a rounding.
pub fn silence_end(x: &[f64], threshold: u32) -> (usize, bool) {
    let mut amb = false;
    let mut levels: Vec<u64> = vec![];
    for (i, v) in x.iter().enumerate() {
        let l = v.abs() * 32767.0;
        let frac = l - l.floor();
        if (frac - 0.5).abs() < 1e-6 {
            amb = true;
        }
        levels.push(l.round() as u64);
        let w = &levels[levels.len().saturating_sub(55)..];
        let avg = w.iter().sum::<u64>() / w.len() as u64;
        if avg > u64::from(threshold) {
            return (i, amb);
        }
    }
    (x.len(), amb)
}

// ---------------------------------------------------------------------------------------------

/// What the fingerprint of a mono stream has to be.
pub struct Expected {
    pub items: Vec<RefItem>,
    /// Fewest and most items.
    pub lo: usize,
    pub hi: usize,
    /// The start of the audible part hinges on a rounding: nothing can be said.
    pub unsure: bool,
    pub audible_from: usize,
}

pub fn expected(cfg: &RefConfig, mono: &[i16], rate: u32) -> Expected {
    let (y, marked) = resample_marked(&scale(mono), rate);
    let (lo, hi) = resampled_bounds(mono.len(), rate);
    let (start, mut unsure) = match cfg.silence {
        Some(t) => silence_end(&y, t),
        None => (0, false),
    };
    let start = start.min(y.len());
    if cfg.silence.is_some() && marked.first().is_some_and(|&m| m <= start) {
        unsure = true;
    }
    let mut items = fingerprint(cfg, &y[start..]);
    // one sample taken half a phase off changes a frame's spectrum by about 0.02/sqrt(frame)
    let span = cfg.frame + (cfg.coefs.len() + cfg.maxw() - 2) * cfg.hop();
    for (i, it) in items.iter_mut().enumerate() {
        let at = start + i * cfg.hop();
        let k = marked.partition_point(|&m| m < at);
        if marked.get(k).is_some_and(|&m| m < at + span) {
            it.slack = 0.1 / (cfg.frame as f64).sqrt();
        }
    }
    Expected {
        items,
        lo: cfg.items(lo.saturating_sub(start)),
        hi: cfg.items(hi.saturating_sub(start)),
        unsure,
        audible_from: start,
    }
}

impl Expected {
    pub fn check(&self, cfg: &RefConfig, fp: &[u32], eps: f64) -> Result<Compared, String> {
        if fp.len() < self.lo || fp.len() > self.hi {
            return Err(format!(
                "expected {}..={} items, got {}",
                self.lo,
                self.hi,
                fp.len()
            ));
        }
        compare(cfg, &self.items, fp, eps)
    }
}
