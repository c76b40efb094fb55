//! Hostile call sequences, and isolation of everything that runs at the same time.
use crate::common::*;
use crate::engine::{sut, take_panic, Obs, Prop, Res, Stop, Tier};
use crate::refmodel::RefConfig;
use crate::rng::{hash_u32s, Rng};
use crate::{ensure, refmodel, signal};
use rusty_chromaprint::{match_fingerprints, Configuration, FingerprintCompressor, Fingerprinter};
use std::sync::{Barrier, Mutex};

/// How much one case may do.
#[derive(Clone, Copy, PartialEq)]
enum Size {
    Full,
    Small,
    /// For the interpreter.
    Tiny,
}

fn size() -> Size {
    if cfg!(miri) {
        Size::Tiny
    } else if std::env::var("MON_SMALL").is_ok() {
        Size::Small
    } else {
        Size::Full
    }
}

struct Hostile {
    cfg: Configuration,
    frame: usize,
    hop: usize,
    what: String,
}

fn hostile_config(rng: &mut Rng, sz: Size) -> Hostile {
    if sz != Size::Tiny && rng.chance(0.25) {
        let id = rng.below(5) as u8;
        let r = refmodel::preset(id);
        return Hostile {
            cfg: refmodel::sut_preset(id),
            frame: r.frame,
            hop: r.hop(),
            what: r.name,
        };
    }
    let base = rng.below(5) as u8;
    let frame = match rng.below(5) {
        _ if sz == Size::Tiny => *rng.pick(&[2usize, 3, 7, 16, 20, 31, 32]),
        0 => rng.range(2, 9),
        1 => *rng.pick(&[127usize, 251, 257, 1009, 1021, 4093, 8191]),
        2 => 1usize << rng.range(1, 13),
        3 => rng.range(2, 9000),
        _ => rng.range(2, 500),
    };
    let overlap = match rng.below(4) {
        _ if sz == Size::Tiny => frame - rng.range(1, 4.min(frame)),
        0 => 0,
        1 => frame - 1,
        2 => rng.below(frame),
        _ => frame / 2,
    };
    let n = match rng.below(4) {
        _ if sz == Size::Tiny => rng.range(1, 5),
        0 => 1,
        1 => rng.range(1, 9),
        2 => 8,
        _ => rng.range(1, 40),
    };
    let extreme = rng.chance(0.15);
    let coefs: Vec<f64> = (0..n)
        .map(|_| {
            if extreme {
                *rng.pick(&[0.0, 1e-300, 1e-9, 1.0, 1e9, 1e100])
            } else {
                rng.frange(0.0, 1.0)
            }
        })
        .collect();
    let mut cfg = refmodel::sut_preset(base)
        .with_frame_size(frame)
        .with_frame_overlap(overlap)
        .with_coefficients(coefs)
        .with_interpolation(rng.chance(0.5));
    let mut what = format!(
        "preset_test{} with frame {frame}/{overlap}, {n} coefficients",
        base + 1
    );
    if rng.chance(0.3) {
        let t = *rng.pick(&[0u32, 1, 50, 32_766, 32_767, 32_768, u32::MAX]);
        cfg = cfg.with_removed_silence(t);
        what += &format!(", silence {t}");
    }
    Hostile {
        cfg,
        frame,
        hop: frame - overlap,
        what,
    }
}

fn hostile_session(rng: &mut Rng, sz: Size, obs: &mut Obs) -> Res<Vec<u32>> {
    let h = hostile_config(rng, sz);
    let mut log: Vec<String> = vec![h.what.clone()];
    let what = |log: &Vec<String>| {
        log.iter()
            .rev()
            .take(12)
            .rev()
            .cloned()
            .collect::<Vec<_>>()
            .join("; ")
    };
    let mut p = sut(&h.what, || Fingerprinter::new(&h.cfg))?;
    let mut started = false;
    let mut rate = 0u32;
    let mut channels = 0u32;
    let (mut budget, ops) = match sz {
        Size::Full => (60_000_000f64, rng.range(4, 30)),
        Size::Small => (6_000_000f64, rng.range(4, 20)),
        Size::Tiny => (4_000_000f64, rng.range(3, 7)),
    };
    let per_item = h.frame as f64 * 14.0 + 3000.0;
    for k in 0..ops {
        let op = if k == 0 { 0 } else { rng.below(10) };
        match op {
            0 | 1 => {
                let r = match rng.below(6) {
                    // (a low rate makes for a lot of resampled output)
                    _ if sz == Size::Tiny => {
                        *rng.pick(&[11025u32, 11025, 11025, 768_000, 5_000_000, u32::MAX, 1000])
                    }
                    0 => 11025,
                    1 => *rng.pick(COMMON_RATES),
                    2 => *rng.pick(&[
                        0u32,
                        1,
                        999,
                        1000,
                        1001,
                        u32::MAX,
                        u32::MAX - 1,
                        1 << 31,
                        1 << 24,
                    ]),
                    3 => rng.u32(),
                    _ => rng.logrange(1001, 1_000_000) as u32,
                };
                let c = match rng.below(6) {
                    0 => 0,
                    1 | 2 => 1,
                    3 => 2,
                    4 => rng.range(3, 9) as u32,
                    _ if sz == Size::Tiny => 3,
                    _ => *rng.pick(&[255u32, 256, 1000, 65_535, 65_536, 65_537, 200_000, u32::MAX]),
                };
                log.push(format!("start({r}, {c})"));
                let ok = sut(&what(&log), || {
                    p.start(r, c).map_err(|e| format!("{e} {e:?}"))
                })?;
                if ok.is_ok() {
                    started = true;
                    rate = r;
                    channels = c;
                    obs.count("streams started", 1);
                } else {
                    obs.count("starts refused", 1);
                }
            }
            2..=6 if started => {
                let ratio = 11025.0 / f64::from(rate);
                let most = match sz {
                    Size::Full => 150_000usize,
                    Size::Small => 80_000,
                    Size::Tiny => 120,
                };
                let mut n = match rng.below(5) {
                    0..=3 if sz == Size::Tiny => rng.range(20, 80),
                    0 => rng.below(4),
                    1 if sz != Size::Tiny => {
                        *rng.pick(&[32_767usize, 32_768, 32_769, 65_536, 65_537])
                    }
                    _ => rng.logrange(1, most),
                };
                n = n.min((3 * most / channels as usize).max(1));
                if channels == u32::MAX {
                    n = 0;
                }
                let cost =
                    |n: usize| n as f64 * (ratio / h.hop as f64 * per_item + 100.0 * ratio + 5.0);
                while n > 0 && cost(n) > budget / 2.0 {
                    n /= 2;
                }
                budget -= cost(n);
                let total = n * channels as usize;
                let kind = *rng.pick(signal::KINDS);
                let data = signal::generate(rng, kind, total, rate.clamp(2000, 400_000));
                log.push(format!("consume {n} frames of {kind}"));
                sut(&what(&log), || p.consume(&data))?;
                obs.count("frames", n);
                obs.count("pieces", 1);
                obs.class(kind);
            }
            7 if started => {
                log.push("finish".into());
                sut(&what(&log), || p.finish())?;
                obs.count("finishes", 1);
            }
            8 => {
                log.push("read".into());
                let s = sut(&what(&log), || {
                    p.fingerprint().iter().fold(0u32, |a, b| a ^ b)
                })?;
                std::hint::black_box(s);
            }
            9 if rng.chance(0.2) => {
                log.push("another".into());
                p = sut(&what(&log), || Fingerprinter::new(&h.cfg))?;
                started = false;
            }
            _ => {}
        }
    }
    if started {
        log.push("finish".into());
        sut(&what(&log), || p.finish())?;
    }
    let fp = sut(&what(&log), || p.fingerprint().to_vec())?;
    obs.count("items", fp.len());
    if !fp.is_empty() {
        obs.nontrivial(hash_u32s(&fp));
    }
    obs.sample(|| what(&log));
    let _ = sut("accessors", || {
        (
            h.cfg.delay(),
            h.cfg.id(),
            h.cfg.item_duration_in_seconds(),
            h.cfg.sample_rate(),
        )
    })?;
    Ok(fp)
}

fn hostile_items(rng: &mut Rng, most: usize) -> Vec<u32> {
    let n = match rng.below(4) {
        0 => rng.below(4),
        _ => rng.logrange(1, most),
    };
    let mode = rng.below(4);
    let mut c = rng.u32();
    (0..n)
        .map(|_| match mode {
            0 => rng.u32(),
            1 => *rng.pick(&[0u32, u32::MAX, 1, 1 << 31, 0x1f, 0xffff_ffe0]),
            2 => {
                if rng.chance(0.3) {
                    c ^= 1 << rng.below(32);
                }
                c
            }
            _ => c,
        })
        .collect()
}

fn hostile(rng: &mut Rng, sz: Size, obs: &mut Obs) -> Res {
    let fp = hostile_session(rng, sz, obs)?;
    let most = match sz {
        Size::Full => 20_000,
        Size::Small => 4000,
        Size::Tiny => 40,
    };
    let mut pool = vec![fp.clone()];
    for _ in 0..rng.range(1, 3) {
        pool.push(hostile_items(rng, most));
    }
    if fp.len() > 4 {
        let a = rng.below(fp.len());
        let b = rng.range(a, fp.len());
        let mut part = fp[a..b].to_vec();
        part.extend(hostile_items(rng, 30));
        pool.push(part);
    }
    let h = hostile_config(rng, sz);
    for a in &pool {
        let z = sut("compress", || {
            FingerprintCompressor::from(&h.cfg).compress(a)
        })?;
        ensure!(
            z.len() >= 4,
            "{} items were compressed to {} bytes",
            a.len(),
            z.len()
        );
        obs.count("compressed", 1);
        let b = rng.pick(&pool).clone();
        // all pairs of equal items are listed: bound that
        if a.len() as f64 * b.len() as f64 > if sz == Size::Tiny { 4e3 } else { 4e8 } {
            continue;
        }
        if let Ok(s) = sut(&format!("match {} with {} items", a.len(), b.len()), || {
            match_fingerprints(a, &b, &h.cfg)
        })? {
            for s in s {
                ensure!(
                    s.score.is_finite(),
                    "score {} for {} and {} items",
                    s.score,
                    a.len(),
                    b.len()
                );
                sut("segment times", || {
                    (
                        s.start1(&h.cfg),
                        s.end1(&h.cfg),
                        s.start2(&h.cfg),
                        s.end2(&h.cfg),
                        s.duration(&h.cfg),
                    )
                })?;
                obs.count("segments", 1);
            }
            obs.count("matched", 1);
        }
    }
    Ok(())
}

/// More samples in one stream than 32 bits can count.
fn endless(rng: &mut Rng, obs: &mut Obs) -> Res {
    let channels = *rng.pick(&[40_000u32, 65_535, 65_536, 100_003]);
    let frames = 64;
    let piece: Vec<i16> = (0..frames * channels as usize)
        .map(|i| (i * 7919 >> 3) as i16)
        .collect();
    let cfg = Configuration::preset_test2()
        .with_frame_size(256)
        .with_frame_overlap(128);
    sut("feed more than 2^32 samples", || {
        let mut p = Fingerprinter::new(&cfg);
        p.start(11025, channels).map(|()| {
            let mut fed = 0u64;
            while fed < (1 << 32) + (1 << 24) {
                p.consume(&piece);
                fed += piece.len() as u64;
            }
            p.finish();
            p.fingerprint().len()
        })
    })?
    .map_err(|e| Stop::Violation(format!("start was refused: {e}")))?;
    obs.count("streams of more than 2^32 samples", 1);
    Ok(())
}

/// One stream of very many items, and fingerprints of up to millions of items.
fn giant(rng: &mut Rng, sz: Size, obs: &mut Obs) -> Res {
    let h = hostile_config(rng, Size::Tiny);
    let frame = match sz {
        Size::Tiny => 16,
        _ => *rng.pick(&[2usize, 3, 8, 16, 16, 32]),
    };
    let hop = rng.range(1, 2.min(frame - 1));
    let cfg = h.cfg.with_frame_size(frame).with_frame_overlap(frame - hop);
    let most = match sz {
        Size::Full => 300_000,
        Size::Small => 30_000,
        Size::Tiny => 330,
    };
    let want = most / 2 + rng.below(most / 2);
    let n = cfg.delay() + want * hop;
    let kind = *rng.pick(signal::KINDS);
    let rate = if sz == Size::Tiny { 11025 } else { *rng.pick(&[11025u32, 11025, 9000]) };
    let data = signal::generate(rng, kind, n, rate);
    let what = format!("a stream of {n} frames of {kind} at {rate} Hz, frames of {frame} every {hop}");
    let fp = sut(&what, || {
        let mut p = Fingerprinter::new(&cfg);
        p.start(rate, 1).map(|()| {
            for d in data.chunks(100_000) {
                p.consume(d);
            }
            p.finish();
            p.fingerprint().to_vec()
        })
    })?
    .map_err(|e| Stop::Violation(format!("start was refused: {e}")))?;
    obs.count("items", fp.len());
    obs.max("items of one stream", fp.len() as f64);
    let z = sut("compress", || FingerprintCompressor::from(&cfg).compress(&fp))?;
    std::hint::black_box(z.len());
    if sz == Size::Tiny {
        return Ok(());
    }
    let n = match sz {
        Size::Full if rng.chance(0.3) => rng.logrange(70_000, 5_000_000),
        Size::Full => rng.logrange(70_000, 524_285),
        _ => rng.logrange(1000, 70_000),
    };
    let mode = rng.below(3);
    let a: Vec<u32> = (0..n)
        .map(|i| match mode {
            0 => rng.u32(),
            1 => *rng.pick(&[0u32, u32::MAX, 1 << 31, 0xffff_ffe0]),
            _ => 0x8000_0000u32.wrapping_mul(i as u32),
        })
        .collect();
    let z = sut(&format!("compress {n} items"), || {
        FingerprintCompressor::from(&cfg).compress(&a)
    })?;
    std::hint::black_box(z.len());
    obs.count("compressed", 1);
    obs.max("items compressed", n as f64);
    // (few equal items: all pairs of them are listed)
    let b: Vec<u32> = match rng.below(3) {
        0 => a[n / 2..n.min(n / 2 + 100)].to_vec(),
        1 => (0..500).map(|_| rng.u32()).collect(),
        _ if mode == 0 && n < 600_000 => a.iter().map(|v| v ^ (1 << (n % 19))).collect(),
        _ => vec![],
    };
    let (x, y) = if rng.chance(0.5) { (&a, &b) } else { (&b, &a) };
    let r = sut(
        &format!("match {} with {} items", x.len(), y.len()),
        || match_fingerprints(x, y, &cfg).map(|s| s.len()),
    )?;
    if r.is_ok() {
        obs.count("matched", 1);
    }
    Ok(())
}

pub fn c09(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    if idx == 0 && size() == Size::Full {
        endless(rng, obs)?;
    }
    if idx % 120 == 8 {
        return giant(rng, size(), obs);
    }
    hostile(rng, size(), obs)
}

pub fn c10(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let sz = if size() == Size::Full {
        Size::Small
    } else {
        size()
    };
    if sz == Size::Tiny && idx % 4 == 3 || sz != Size::Tiny && idx % 120 == 8 {
        return giant(rng, sz, obs);
    }
    hostile(rng, sz, obs)
}

// ---------------------------------------------------------------------------------------------

struct Session {
    both: Both,
    st: Stream,
    pieces: Vec<usize>,
    fp: Vec<u32>,
    packed: Vec<u8>,
    other: Vec<u32>,
    segs: Vec<(usize, usize, usize, u64)>,
}

fn seg_keys(a: &[u32], b: &[u32], c: &Configuration) -> Vec<(usize, usize, usize, u64)> {
    match match_fingerprints(a, b, c) {
        Ok(v) => v
            .iter()
            .map(|s| (s.offset1, s.offset2, s.items_count, s.score.to_bits()))
            .collect(),
        Err(_) => vec![(usize::MAX, 0, 0, 0)],
    }
}

/// Runs a session from scratch, piece by piece; `pause` is called between the calls.
fn run_session(s: &Session, rng: &mut Rng, pause: &mut dyn FnMut(&mut Rng)) -> Result<(), String> {
    let mut p = Fingerprinter::new(&s.both.s);
    p.start(s.st.rate, s.st.channels)
        .map_err(|e| e.to_string())?;
    let mut at = 0;
    for k in &s.pieces {
        let to = at + k * s.st.channels as usize;
        p.consume(&s.st.data[at..to]);
        at = to;
        pause(rng);
    }
    p.finish();
    pause(rng);
    compare_session(s, p.fingerprint())
}

fn compare_session(s: &Session, fp: &[u32]) -> Result<(), String> {
    if fp != s.fp {
        return Err(format!(
            "{} ({}): fingerprint differs: {}",
            s.st.describe(),
            s.both.r.name,
            first_diff(&s.fp, fp)
        ));
    }
    if FingerprintCompressor::from(&s.both.s).compress(fp) != s.packed {
        return Err(format!(
            "{} ({}): compressed form differs",
            s.st.describe(),
            s.both.r.name
        ));
    }
    if seg_keys(fp, &s.other, &s.both.s) != s.segs {
        return Err(format!(
            "{} ({}): segments differ",
            s.st.describe(),
            s.both.r.name
        ));
    }
    Ok(())
}

/// Configuration `r` on top of its preset.
fn rebuild(id: u8, r: &RefConfig) -> Configuration {
    let base = preset(id);
    let mut s = base.s;
    if r.frame != base.r.frame || r.overlap != base.r.overlap {
        s = s.with_frame_size(r.frame).with_frame_overlap(r.overlap);
    }
    if r.coefs != base.r.coefs {
        s = s.with_coefficients(r.coefs.clone());
    }
    if r.interpolate != base.r.interpolate {
        s = s.with_interpolation(r.interpolate);
    }
    if r.silence != base.r.silence {
        s = s.with_removed_silence(r.silence.unwrap_or(0));
    }
    s
}

/// The same configuration with one thing changed.
fn sibling(rng: &mut Rng, b: &Both) -> Both {
    let mut r = b.r.clone();
    let id = b.s.id();
    match rng.below(5) {
        0 | 1 => {
            // as many coefficients, most of them the same
            let n = r.coefs.len();
            for _ in 0..rng.range(1, n) {
                let k = rng.below(n);
                r.coefs[k] = rng.range(1, 60) as f64 / 20.0;
            }
        }
        2 => r.overlap = rng.range(r.overlap / 2, r.overlap),
        3 => r.interpolate = !r.interpolate,
        _ => r.silence = Some(*rng.pick(&[1u32, 60, 700, 4000])),
    }
    r.name = format!("{}, one thing changed", r.name);
    let s = rebuild(id, &r);
    Both { r, s }
}

/// `mon solo`: one session, read from stdin, in a process of its own.
pub fn solo() -> i32 {
    use std::io::Read;
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).expect("stdin");
    let nl = b.iter().position(|c| *c == b'\n').expect("a header");
    let head = String::from_utf8_lossy(&b[..nl]).to_string();
    let h: Vec<f64> = head.split(' ').map(|x| x.parse().expect("a number")).collect();
    let id = h[0] as u8;
    let mut r = preset(id).r;
    r.frame = h[1] as usize;
    r.overlap = h[2] as usize;
    r.interpolate = h[3] != 0.0;
    r.silence = (h[4] >= 0.0).then_some(h[4] as u32);
    r.coefs = h[7..].to_vec();
    let data: Vec<i16> = b[nl + 1..]
        .chunks_exact(2)
        .map(|c| i16::from_le_bytes([c[0], c[1]]))
        .collect();
    let cfg = rebuild(id, &r);
    match fingerprint(&cfg, h[5] as u32, h[6] as u32, &data) {
        Ok(fp) => {
            println!("{fp:?}");
            println!("{:?}", FingerprintCompressor::from(&cfg).compress(&fp));
            println!("{:?}", seg_keys(&fp, &fp[fp.len() / 3..], &cfg));
            0
        }
        Err(_) => 9,
    }
}

/// The same session in a fresh process must give the same results.
fn compare_solo(s: &Session) -> Res {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let r = &s.both.r;
    let mut head = format!(
        "{} {} {} {} {} {} {}",
        s.both.s.id(),
        r.frame,
        r.overlap,
        u8::from(r.interpolate),
        r.silence.map_or(-1, i64::from),
        s.st.rate,
        s.st.channels
    );
    for c in &r.coefs {
        head.push_str(&format!(" {c}"));
    }
    head.push('\n');
    let mut input = head.into_bytes();
    input.extend(s.st.data.iter().flat_map(|v| v.to_le_bytes()));
    let mut child = Command::new(std::env::current_exe().expect("own path"))
        .arg("solo")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let mut pipe = child.stdin.take().unwrap();
    let feeder = std::thread::spawn(move || {
        let _ = pipe.write_all(&input);
    });
    let out = child.wait_with_output().expect("wait");
    let _ = feeder.join();
    let segs = sut("match", || {
        seg_keys(&s.fp, &s.fp[s.fp.len() / 3..], &s.both.s)
    })?;
    let want = format!("{:?}\n{:?}\n{segs:?}\n", s.fp, s.packed);
    ensure!(
        out.status.success(),
        "{} ({}): works among other sessions, but not in a process of its own ({})",
        s.st.describe(),
        r.name,
        out.status
    );
    ensure!(
        out.stdout == want.as_bytes(),
        "{} ({}): another result than in a process of its own",
        s.st.describe(),
        r.name
    );
    Ok(())
}

/// Many fingerprinters alive at once, fed in turns, dropped and replaced.
fn crowd(rng: &mut Rng, obs: &mut Obs) -> Res {
    let both = preset(*rng.pick(&[0u8, 1, 2, 4]));
    let f = 1usize << rng.range(3, 6);
    let cfg = both.s.with_frame_size(f).with_frame_overlap(f / 2);
    let n = rng.logrange(20, 400);
    let len = 3000;
    let rates = [11025u32, 11025, 22050, 8000];
    let streams: Vec<Vec<i16>> = (0..8)
        .map(|_| {
            let k = *rng.pick(signal::RICH);
            signal::generate(rng, k, len, 11025)
        })
        .collect();
    let mut want = vec![];
    for s in &streams {
        for r in &rates {
            want.push(fingerprint(&cfg, *r, 1, s)?);
        }
    }
    // (fingerprinter, stream, rate, samples fed)
    let mut live: Vec<(Fingerprinter, usize, usize, usize)> = vec![];
    let mut most = 0;
    let mut started = 0;
    while started < n || !live.is_empty() {
        if started < n && (live.len() < n / 2 || rng.chance(0.5)) {
            let (s, r) = (rng.below(8), rng.below(4));
            let p = sut("start", || {
                let mut p = Fingerprinter::new(&cfg);
                p.start(rates[r], 1).map(|()| p).map_err(|e| e.to_string())
            })?
            .map_err(Stop::Violation)?;
            live.push((p, s, r, 0));
            started += 1;
            most = most.max(live.len());
        }
        let k = rng.below(live.len());
        let (p, s, r, at) = &mut live[k];
        let q = rng.range(1, 1500).min(len - *at);
        sut("consume", || p.consume(&streams[*s][*at..*at + q]))?;
        *at += q;
        if *at == len {
            sut("finish", || p.finish())?;
            let got = sut("fingerprint", || p.fingerprint().to_vec())?;
            let w = &want[*s * 4 + *r];
            ensure!(
                got == *w,
                "one of {most} fingerprinters at work gives another fingerprint than alone: {}",
                crate::common::first_diff(&got, w)
            );
            live.swap_remove(k);
        }
    }
    obs.max("fingerprinters alive at once", most as f64);
    Ok(())
}

pub fn c11(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let tsan = std::env::var("MON_SMALL").is_ok();
    let n = rng.range(2, 6);
    let mut all = vec![];
    let (cap, most) = if tsan { (60_000, 8) } else { (120_000, 16) };
    for _ in 0..n {
        let how = if all.is_empty() { 0 } else { rng.below(10) };
        let (both, mut st) = if how < 5 {
            config_and_stream(rng, cap, signal::RICH)
        } else if how < 7 {
            // nearly the same configuration: caches with too small a key show
            let first: &Session = &all[0];
            let b = sibling(rng, &first.both);
            let s = if rng.chance(0.5) {
                stream(
                    rng,
                    first.st.rate,
                    first.st.channels,
                    first.st.frames(),
                    signal::RICH,
                )
            } else {
                Stream {
                    rate: first.st.rate,
                    channels: first.st.channels,
                    data: first.st.data.clone(),
                    what: first.st.what.clone(),
                }
            };
            obs.count("sessions with nearly the same configuration", 1);
            (b, s)
        } else {
            // the same kind of session with other audio: state that leaks fits in unnoticed
            let first: &Session = &all[0];
            let b = Both {
                r: first.both.r.clone(),
                s: first.both.s.clone(),
            };
            let f = first.st.frames();
            let s = stream(rng, first.st.rate, first.st.channels, f, signal::RICH);
            (b, s)
        };
        let keep = st.frames().min(cap / st.channels as usize);
        st.data.truncate(keep * st.channels as usize);
        let (mut pieces, _) = signal::split(rng, st.frames());
        if pieces.len() > 40 {
            let rest: usize = pieces.drain(39..).sum();
            pieces.push(rest);
        }
        let fp = fingerprint(&both.s, st.rate, st.channels, &st.data)?;
        let k = rng.below(fp.len() + 1);
        let mut other = fp[k..].to_vec();
        other.extend(fp.iter().map(|v| v ^ 0x0101));
        other.truncate(300);
        let (packed, segs) = sut("compress and match", || {
            (
                FingerprintCompressor::from(&both.s).compress(&fp),
                seg_keys(&fp, &other, &both.s),
            )
        })?;
        if distinct(&fp) > 1 {
            obs.nontrivial(hash_u32s(&fp));
        }
        all.push(Session {
            both,
            st,
            pieces,
            fp,
            packed,
            other,
            segs,
        });
    }
    if !tsan || idx % 8 == 0 {
        let k = rng.below(n);
        compare_solo(&all[k])?;
        obs.count("sessions repeated in a process of their own", 1);
    }
    // interleaved in one thread
    let mut live: Vec<(usize, Fingerprinter, usize, usize)> = vec![];
    let mut queue: Vec<usize> = (0..n).flat_map(|i| [i, i]).collect();
    for i in (1..queue.len()).rev() {
        queue.swap(i, rng.below(i + 1));
    }
    let mut switches = 0usize;
    let mut lastp = usize::MAX;
    while !live.is_empty() || !queue.is_empty() {
        if !queue.is_empty() && (live.is_empty() || (live.len() < 6 && rng.chance(0.4))) {
            let i = queue.pop().unwrap();
            let s = &all[i];
            let p = sut("start", || {
                let mut p = Fingerprinter::new(&s.both.s);
                p.start(s.st.rate, s.st.channels)
                    .map(|()| p)
                    .map_err(|e| e.to_string())
            })?
            .map_err(Stop::Violation)?;
            live.push((i, p, 0, 0));
            continue;
        }
        let k = rng.below(live.len());
        if k != lastp {
            switches += 1;
            lastp = k;
        }
        let (i, p, piece, at) = &mut live[k];
        let s = &all[*i];
        if *piece < s.pieces.len() {
            let to = *at + s.pieces[*piece] * s.st.channels as usize;
            sut("consume", || p.consume(&s.st.data[*at..to]))?;
            *at = to;
            *piece += 1;
        } else {
            sut("interleaved", || {
                p.finish();
                compare_session(s, p.fingerprint())
            })?
            .map_err(|e| {
                Stop::Violation(format!(
                    "{e} when interleaved with {} other sessions",
                    n - 1
                ))
            })?;
            live.remove(k);
            obs.count("interleaved sessions", 1);
        }
    }
    obs.count("switches between sessions", switches);
    if !tsan && idx % 16 == 3 {
        crowd(rng, obs)?;
    }
    // at the same time in several threads
    let threads = rng.range(2, 4);
    let barrier = Barrier::new(threads);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let done = Mutex::new(0usize);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let mut r = Rng::new(rng.u64());
            let (all, barrier, errors, done) = (&all, &barrier, &errors, &done);
            sc.spawn(move || {
                barrier.wait();
                for round in 0..2 {
                    let s = &all[(t * round + r.below(all.len())) % all.len()];
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut pause = |r: &mut Rng| match r.below(most) {
                            0 => std::thread::yield_now(),
                            1 => std::thread::sleep(std::time::Duration::from_micros(
                                r.below(200) as u64
                            )),
                            _ => {}
                        };
                        run_session(s, &mut r, &mut pause)
                    }));
                    match res {
                        Ok(Ok(())) => *done.lock().unwrap() += 1,
                        Ok(Err(e)) => errors.lock().unwrap().push(e),
                        Err(_) => errors
                            .lock()
                            .unwrap()
                            .push(format!("panicked: {}", take_panic().unwrap_or_default())),
                    }
                }
            });
        }
    });
    let e = errors.into_inner().unwrap();
    ensure!(e.is_empty(), "with {threads} threads at work: {}", e[0]);
    obs.count("concurrent sessions", *done.lock().unwrap());
    obs.sample(|| {
        format!(
            "{n} sessions, {switches} switches, {threads} threads; first: {} ({})",
            all[0].st.describe(),
            all[0].both.r.name
        )
    });
    Ok(())
}

/// CPU time of this thread in seconds.
fn cpu() -> f64 {
    #[cfg(not(miri))]
    {
        #[repr(C)]
        struct Ts {
            s: i64,
            ns: i64,
        }
        extern "C" {
            fn clock_gettime(clock: i32, ts: *mut Ts) -> i32;
        }
        let mut t = Ts { s: 0, ns: 0 };
        if unsafe { clock_gettime(3, &mut t) } == 0 {
            return t.s as f64 + t.ns as f64 * 1e-9;
        }
    }
    0.0
}

/// Least CPU time of `times` runs.
fn cost(times: usize, n: usize, work: &mut dyn FnMut(usize) -> Res<()>) -> Res<f64> {
    let mut best = f64::INFINITY;
    for _ in 0..times {
        let t = cpu();
        work(n)?;
        best = best.min(cpu() - t);
    }
    Ok(best)
}

pub fn c36(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    const FACTOR: f64 = 5.0;
    let kind = idx % 8;
    // (pairs of unrelated items that agree by chance are quadratic in number, with a small factor)
    let grow = if kind == 6 { 12 } else { 40 };
    let both = match rng.below(3) {
        0 => any_preset(rng),
        _ => custom(rng, true, kind == 3),
    };
    let cfg = match kind {
        3 => both.s.clone().with_removed_silence(60),
        _ => both.s.clone(),
    };
    let channels = match kind {
        0..=3 => *rng.pick(&[1usize, 1, 2, 2, 3, 6]),
        _ => 1,
    };
    let rate = *rng.pick(&[11025u32, 11025, 44100, 48000, 8000, 192_000]);
    let len = 1 << 16;
    let amp = if kind == 3 { 40 } else { 9000 };
    let base: Vec<i16> = (0..len * channels)
        .map(|_| rng.irange(-amp, amp) as i16)
        .collect();
    // what grows: frames in one piece, frames in small pieces, the same with reads in between, quiet
    // frames in front, streams, items to compress, items to match, sessions after a long one
    let (what, most) = [
        ("frames in one piece", 24_000_000 / channels),
        ("frames in small pieces", 24_000_000 / channels),
        ("frames in small pieces with reads in between", 24_000_000 / channels),
        ("quiet frames in front", 24_000_000 / channels),
        ("streams on one fingerprinter", 200_000),
        ("items to compress", 8_000_000),
        ("items to match with unrelated ones", 120_000),
        ("fingerprinters", 20_000),
    ][kind];
    let step = rng.logrange(1, 3000);
    let whole: Vec<i16> = if matches!(kind, 0 | 3) {
        base.iter().copied().cycle().take(most * channels).collect()
    } else {
        vec![]
    };
    let items: Vec<u32> = if matches!(kind, 5 | 6) {
        (0..2 * most).map(|_| rng.u32()).collect()
    } else {
        vec![]
    };
    let mut old = Fingerprinter::new(&cfg);
    let ch = channels as u32;
    let mut made = 0usize;
    let mut work = |n: usize| -> Res<()> {
        sut(what, || -> Result<(), String> {
            match kind {
                0 | 3 => {
                    let mut p = Fingerprinter::new(&cfg);
                    p.start(rate, ch).map_err(|e| e.to_string())?;
                    p.consume(&whole[..n * channels]);
                    p.finish();
                    made = made.max(p.fingerprint().len());
                }
                1 | 2 => {
                    let mut p = Fingerprinter::new(&cfg);
                    p.start(rate, ch).map_err(|e| e.to_string())?;
                    let mut left = n;
                    let mut at = 0;
                    while left > 0 {
                        let k = step.min(left).min(len - at);
                        p.consume(&base[at * channels..(at + k) * channels]);
                        at = (at + k) % len;
                        left -= k;
                        if kind == 2 {
                            made = made.max(p.fingerprint().len());
                        }
                    }
                    p.finish();
                    made = made.max(p.fingerprint().len());
                }
                4 => {
                    for _ in 0..n {
                        old.start(rate, ch).map_err(|e| e.to_string())?;
                        old.consume(&base[..step.min(400)]);
                        if step % 2 == 0 {
                            old.finish();
                        }
                    }
                }
                5 => {
                    made = FingerprintCompressor::from(&cfg).compress(&items[..n]).len();
                }
                6 => {
                    made = match_fingerprints(&items[..n], &items[most..most + n], &cfg)
                        .map_err(|e| e.to_string())?
                        .len();
                }
                _ => {
                    for _ in 0..n {
                        let p = Fingerprinter::new(&cfg);
                        made = made.max(p.fingerprint().len());
                    }
                }
            }
            Ok(())
        })?
        .map_err(Stop::Violation)
    };
    // a size that takes some milliseconds
    let mut n = 100.min(most / grow);
    while n < most / grow && cost(1, n, &mut work)? < 0.004 {
        n = (n * 2).min(most / grow);
    }
    let mut small = cost(2, n, &mut work)?;
    let mut large = cost(1, n * grow, &mut work)?;
    // (what takes no time does not matter)
    if large > 0.1 && large > small * grow as f64 * FACTOR {
        small = small.max(cost(5, n, &mut work)?);
        large = large.min(cost(3, n * grow, &mut work)?);
        ensure!(
            large < 0.1 || large <= small * grow as f64 * FACTOR,
            "{}, {rate} Hz, {channels} channel(s): {n} {what} take {:.1} ms of CPU time, {grow} times as many {:.1} ms",
            both.r.name,
            small * 1e3,
            large * 1e3
        );
    }
    obs.max(
        "largest ratio of CPU time per unit",
        large / small / grow as f64,
    );
    if std::env::var("MON_TELL").is_ok() {
        println!("{:.2} {what} {} {large:.3}", large / small / grow as f64, both.r.name);
    }
    obs.count(what, 1);
    obs.nontrivial(n as u64 ^ (idx as u64) << 32);
    obs.class(what.to_string());
    obs.sample(|| {
        format!(
            "{what}, {}, {rate} Hz: {n} in {:.2} ms, {} in {:.2} ms",
            both.r.name,
            small * 1e3,
            n * grow,
            large * 1e3
        )
    });
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C09", rule: "random call sequences with extreme configurations, sample rates, channel counts and samples, whose results are compressed and matched, in a build with overflow checks and debug assertions; non-trivial: a distinct fingerprint", quick: 3000, thorough: 150_000, min_nontrivial: 150, must_observe: &["streams started", "starts refused", "frames", "items", "segments", "compressed"], assumptions: &["one call using more than 90 s of CPU time counts as not returning"], case: c09 },
    Prop { id: "C10", rule: "random call sequences with extreme configurations and inputs, in an AddressSanitizer build and (small ones) in the Miri interpreter; non-trivial: a distinct fingerprint", quick: 1500, thorough: 60_000, min_nontrivial: 0, must_observe: &["streams started", "frames", "compressed"], assumptions: &["the sanitizer sees only what the executions reach"], case: c10 },
    Prop { id: "C11", rule: "2 to 6 sessions (often alike, or with one setting changed) run alone, one of them also in a fresh process, interleaved call by call in one thread and concurrently in 2 to 4 threads, also in a ThreadSanitizer build; fingerprint, compressed form and segments must be the same each time; non-trivial: a distinct fingerprint", quick: 1000, thorough: 20_000, min_nontrivial: 300, must_observe: &["interleaved sessions", "concurrent sessions", "switches between sessions", "sessions with nearly the same configuration", "sessions repeated in a process of their own"], assumptions: &[], case: c11 },
    Prop { id: "C36", rule: "CPU time of the calling thread for n and 40 n units of work (frames in one piece and in small ones, quiet frames, streams, fingerprinters, items to compress and to match); more than 5 times as much per unit, in repeated measurements, is a violation; non-trivial: a distinct size", quick: 160, thorough: 2400, min_nontrivial: 40, must_observe: &["frames in one piece", "frames in small pieces", "frames in small pieces with reads in between", "quiet frames in front", "streams on one fingerprinter", "items to compress", "items to match with unrelated ones", "fingerprinters"], assumptions: &["a factor of 5 separates linear work with caches of all sizes from work that grows faster"], case: c36 },
];
