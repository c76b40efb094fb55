//! Fingerprinting: conformance, streaming, reuse.
use crate::common::*;
use crate::engine::{sut, violation, Obs, Prop, Res, Stop, Tier};
use crate::refmodel;
use crate::rng::{hash_bytes, hash_i16s, hash_u32s, Rng};
use crate::signal::{self, KINDS, RICH};
use crate::{alloc, ensure};
use rusty_chromaprint::{Configuration, Fingerprinter, ResetError};

const EPS: f64 = 1e-7;

fn conform(both: &Both, st: &Stream, obs: &mut Obs) -> Res {
    let mono = refmodel::downmix(&st.data, st.channels as usize);
    let e = refmodel::expected(&both.r, &mono, st.rate);
    let fp = fingerprint(&both.s, st.rate, st.channels, &st.data)?;
    if e.unsure {
        obs.count("cases whose audible start hinges on rounding", 1);
        return Ok(());
    }
    match e.check(&both.r, &fp, EPS) {
        Ok(c) => {
            obs.count("items compared with the reference", c.items);
            obs.count("items equal", c.exact);
            obs.count("items excused (value on a threshold)", c.excused);
            if c.items >= 1 && distinct(&fp) >= 2 {
                obs.nontrivial(hash_u32s(&fp));
            }
            // excuses are for isolated values; a run of them is a disagreement
            ensure!(
                c.excused <= 2 + c.items / 20,
                "{} of {} items needed the rounding excuse: {}, {}",
                c.excused,
                c.items,
                both.r.name,
                st.describe()
            );
            Ok(())
        }
        Err(m) => violation(format!("{}, {}: {m}", both.r.name, st.describe())),
    }
}

pub fn c01(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let long = idx % 40 == 7;
    let both = match idx % 10 {
        i @ 0..=4 => preset(i as u8),
        5 => custom(rng, false, true),
        _ => custom(rng, true, true),
    };
    let items = if long {
        rng.range(300, 700)
    } else {
        rng.logrange(1, 120)
    };
    let mut n =
        frames_for(&both.r, 11025, items).min(if thorough(tier) { 3_000_000 } else { 1_200_000 });
    if rng.chance(0.1) {
        n = both.r.delay() + both.r.hop() * rng.range(1, 3) + 1 - rng.range(0, 2);
    } else if rng.chance(0.06) {
        // what is left over after the internal blocks: nearly nothing, or about a frame
        let rest = *rng.pick(&[0, both.r.frame, both.r.hop(), both.r.overlap, 32_768]);
        n = (rng.range(1, 4) * 32_768 + rest + 2).saturating_sub(rng.range(0, 4));
    }
    let both = if idx % 80 == 68 {
        // very many items
        let mut b = preset(*rng.pick(&[0u8, 1, 2]));
        let hop = rng.range(1, 4);
        let frame = hop + *rng.pick(&[4usize, 12, 28]);
        b.s = b.s.with_frame_size(frame).with_frame_overlap(frame - hop);
        b.r.frame = frame;
        b.r.overlap = frame - hop;
        b.r.name = format!("{} with frame {frame}/{}", b.r.name, frame - hop);
        n = b.r.delay() + hop * rng.logrange(5000, if thorough(tier) { 300_000 } else { 70_000 });
        b
    } else {
        both
    };
    let kind = KINDS[(idx / 3) % KINDS.len()];
    let st = Stream {
        rate: 11025,
        channels: 1,
        data: signal::generate(rng, kind, n, 11025),
        what: kind.into(),
    };
    obs.class(format!("signal {kind}"));
    obs.class(if idx % 10 < 5 {
        both.r.name.clone()
    } else {
        "custom configuration".into()
    });
    obs.sample(|| format!("{}: {}", both.r.name, st.describe()));
    conform(&both, &st, obs)
}

pub fn c02(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let both = match idx % 8 {
        0 | 1 => any_preset(rng),
        2 => custom(rng, false, false),
        _ => custom(rng, true, false),
    };
    let top = if rng.chance(0.1) {
        30_000_000
    } else {
        1_000_000
    };
    let rate = if idx % 2 == 0 {
        // (every rate with every kind of configuration and signal)
        COMMON_RATES[(idx / 2 + idx / (2 * COMMON_RATES.len())) % COMMON_RATES.len()]
    } else if idx % 10 == 5 {
        rng.logrange(1_000_000, 30_000_000) as u32
    } else {
        other_rate(rng, top)
    };
    let both = if rate > 1_000_000 {
        custom(rng, true, false)
    } else {
        both
    };
    let cap = if thorough(tier) { 6_000_000 } else { 2_500_000 };
    let items = rng.logrange(2, 300);
    let mut n = frames_for(&both.r, rate, items).min(cap);
    if rng.chance(0.4) {
        // several internal batches, with a remainder
        n = n.max(32768 * rng.range(1, 5) + rng.range(1, 32767));
    }
    if n > 1_500_000 && idx % 8 < 3 && !thorough(tier) {
        n = 1_500_000;
    }
    // resampled to at most ~600k samples
    n = n.min((600_000.0 * f64::from(rate) / 11025.0) as usize);
    let kind = KINDS[(idx / 2) % KINDS.len()];
    let st = Stream {
        rate,
        channels: 1,
        data: signal::generate(rng, kind, n, rate),
        what: kind.into(),
    };
    obs.class(match rate {
        1001..=11024 => "rate below 11025 Hz",
        11026..=48000 => "rate up to 48 kHz",
        48001..=192_000 => "rate up to 192 kHz",
        _ => "rate above 192 kHz",
    });
    obs.class(if n > 32768 {
        "several batches"
    } else {
        "one batch"
    });
    obs.sample(|| format!("{}: {}", both.r.name, st.describe()));
    conform(&both, &st, obs)
}

const CHANNEL_LIST: &[u32] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127,
    128, 129, 200, 255, 256, 257, 300, 511, 512, 1000, 1024, 4096, 32767, 32768, 32769, 40000,
    65535, 65536, 65537, 70001, 131_072, 200_000,
];

pub fn c03(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let channels = if idx % 2 == 0 {
        CHANNEL_LIST[(idx / 2) % CHANNEL_LIST.len()]
    } else {
        rng.range(2, 12) as u32
    };
    let both = if channels <= 8 && rng.chance(0.3) {
        any_preset(rng)
    } else {
        custom(rng, true, true)
    };
    let rate = if channels <= 8 && rng.chance(0.5) {
        any_rate(rng).min(96_000)
    } else {
        11025
    };
    let cap = 6_000_000 / channels as usize + 1;
    let small_frame = both.r.delay() + 3 * both.r.hop() <= cap;
    let both = if small_frame {
        both
    } else {
        // the smallest configuration that still makes items from few frames
        let s = Configuration::preset_test2()
            .with_frame_size(16)
            .with_frame_overlap(15)
            .with_coefficients(vec![1.0]);
        let mut r = refmodel::preset(1);
        r.frame = 16;
        r.overlap = 15;
        r.coefs = vec![1.0];
        r.name = "preset_test2 with frame 16/15, 1 coefficient".into();
        Both { r, s }
    };
    let mut n = frames_for(&both.r, rate, rng.logrange(2, 60))
        .min(cap)
        .max(8);
    if channels <= 16 && rng.chance(0.4) {
        n = n.max(32768 + rng.range(1, 33_000));
    }
    let kinds = if rng.chance(0.5) {
        &["lsb", "near_silence", "extreme"][..]
    } else {
        RICH
    };
    let st = if channels == 1 || rng.chance(0.6) {
        stream(rng, rate, channels, n, kinds)
    } else {
        // independent channels, at rounding level or at full scale
        let c = channels as usize;
        let mut data = vec![0i16; n * c];
        let mode = rng.below(5);
        if mode < 3 {
            for v in &mut data {
                *v = match mode {
                    0 => rng.irange(-3, 3) as i16,
                    1 => rng.irange(-32768, 32767) as i16,
                    _ => *rng.pick(&[i16::MIN, i16::MAX, i16::MIN, -1, 0]),
                };
            }
        } else {
            // whole frames, or long runs of channels, with one value
            for f in data.chunks_exact_mut(c) {
                let cut = if mode == 3 { c } else { rng.below(c + 1) };
                let (a, b) = f.split_at_mut(cut);
                let v = [
                    i16::MIN,
                    i16::MAX,
                    rng.irange(-32768, 32767) as i16,
                    rng.irange(28_000, 32_767) as i16,
                ];
                a.fill(*rng.pick(&v));
                b.fill(*rng.pick(&v));
            }
        }
        Stream {
            rate,
            channels,
            data,
            what: [
                "independent/small",
                "independent/full",
                "independent/rails",
                "frames of one value",
                "runs of channels with one value",
            ][mode]
                .into(),
        }
    };
    let mono = refmodel::downmix(&st.data, channels as usize);
    let (pieces, style) = signal::split(rng, st.frames());
    let got = fingerprint_split(&both.s, rate, channels, &st.data, &pieces)?;
    let want = fingerprint(&both.s, rate, 1, &mono)?;
    ensure!(
        got == want,
        "{}, {} ({style}): fingerprint differs from that of the averaged mono stream: {}",
        both.r.name,
        st.describe(),
        first_diff(&got, &want)
    );
    // anchor: the average itself, via the reference, where items are cheap
    if both.r.frame <= 128 && rate == 11025 && n < 40_000 {
        conform(&both, &st, obs)?;
    }
    obs.count("items compared", got.len());
    obs.class(format!(
        "channels {}",
        match channels {
            1 => "1",
            2 => "2",
            3..=8 => "3-8",
            9..=64 => "9-64",
            65..=1024 => "65-1024",
            1025..=65536 => "1025-65536",
            _ => "> 65536",
        }
    ));
    obs.max("channels", f64::from(channels));
    if distinct(&got) >= 2 {
        obs.nontrivial(hash_u32s(&got) ^ u64::from(channels));
    }
    obs.sample(|| format!("{}: {}", both.r.name, st.describe()));
    Ok(())
}

pub fn c04(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let (both, st) = if idx % 75 == 31 {
        // one enormous piece
        let both = any_preset(rng);
        let n = rng.logrange(
            1_000_000,
            if thorough(tier) {
                30_000_000
            } else {
                9_000_000
            },
        );
        let channels = *rng.pick(&[1u32, 1, 2, 3]);
        let rate = *rng.pick(&[11025u32, 11025, 44100, 48000]);
        let st = stream(rng, rate, channels, n / channels as usize, RICH);
        (both, st)
    } else {
        config_and_stream(rng, if thorough(tier) { 4_000_000 } else { 900_000 }, RICH)
    };
    obs.max("samples in one piece", st.data.len() as f64);
    let whole = fingerprint(&both.s, st.rate, st.channels, &st.data)?;
    for _ in 0..3 {
        let (mut pieces, mut style) = signal::split(rng, st.frames());
        if rng.chance(0.1) && st.frames() < 300_000 {
            pieces = vec![1; st.frames()];
            style = "single frames";
        }
        obs.class(format!("split {style}"));
        let got = fingerprint_split(&both.s, st.rate, st.channels, &st.data, &pieces)?;
        ensure!(
            got == whole,
            "{}, {}: {} pieces ({style}: {:?}..) give a different fingerprint than one: {}",
            both.r.name,
            st.describe(),
            pieces.len(),
            &pieces[..pieces.len().min(6)],
            first_diff(&got, &whole)
        );
        obs.count("pieces", pieces.len());
        if distinct(&whole) >= 2 && pieces.len() >= 2 {
            obs.nontrivial(hash_u32s(&whole) ^ hash_bytes(pieces.len() as u64, style.as_bytes()));
        }
    }
    obs.count("items", whole.len());
    obs.sample(|| format!("{}: {}", both.r.name, st.describe()));
    Ok(())
}

pub fn c05(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let both = if rng.chance(0.35) {
        any_preset(rng)
    } else {
        custom(rng, true, true)
    };
    let many = idx % 24 == 5;
    let both = if many {
        let mut b = preset(*rng.pick(&[0u8, 1, 2, 4]));
        let f = 1usize << rng.range(3, 7);
        b.s = b.s.with_frame_size(f).with_frame_overlap(f / 2);
        b.r.frame = f;
        b.r.overlap = f / 2;
        b
    } else {
        both
    };
    let sessions = if many {
        rng.logrange(20, 1100)
    } else {
        rng.range(2, if thorough(tier) { 9 } else { 5 })
    };
    obs.max("sessions of one object", sessions as f64);
    let mut p = sut("new", || Fingerprinter::new(&both.s))?;
    let mut history = vec![];
    let mut last: Option<Stream> = None;
    for k in 0..sessions {
        let st = if last.is_some() && rng.chance(0.15) {
            last.take().unwrap() // the same stream once more
        } else {
            let rate = if rng.chance(if many { 0.9 } else { 0.4 }) {
                *rng.pick(&[11025u32, 11025, 44100, 8000, 22050])
            } else {
                any_rate(rng).min(100_000)
            };
            let mut channels = any_channels(rng).min(16);
            let n = match rng.below(5) {
                _ if many => {
                    channels = channels.min(3);
                    frames_for(&both.r, rate.min(48_000), 0) / 2 + rng.below(600)
                }
                0 => rng.below(50),
                1 => frames_for(&both.r, rate, 0) / 2,
                2 => rng.range(1, 2) * 32768 + rng.below(3) - 1,
                _ => frames_for(&both.r, rate, rng.range(1, 25)),
            };
            if n * channels as usize > 1_500_000 {
                channels = 1;
            }
            let kinds = if rng.chance(0.15) {
                &["silence", "near_silence", "sparse"][..]
            } else {
                RICH
            };
            stream(rng, rate, channels, n, kinds)
        };
        // possibly failing attempts first
        let fails = rng.below(3);
        for _ in 0..fails {
            let (r, c) = *rng.pick(&[(0u32, 1u32), (1000, 2), (44100, 0), (0, 0), (999, 1)]);
            let res = sut("failing start", || p.start(r, c).is_err())?;
            ensure!(res, "start({r}, {c}) succeeded");
        }
        let ok = sut("start", || {
            p.start(st.rate, st.channels).map_err(|e| e.to_string())
        })?;
        ensure!(
            ok.is_ok(),
            "session {k}: start({}, {}) failed: {:?}",
            st.rate,
            st.channels,
            ok
        );
        let empty = sut("fingerprint", || p.fingerprint().len())?;
        ensure!(
            empty == 0,
            "{}: after restarting, the fingerprint still has {empty} items (history: {})",
            both.r.name,
            tail(&history)
        );
        let (pieces, _) = signal::split(rng, st.frames());
        let abandon = k + 1 < sessions && rng.chance(0.35);
        let stop_at = if abandon {
            rng.below(pieces.len() + 1)
        } else {
            pieces.len()
        };
        let mut at = 0;
        sut("consume", || {
            for q in &pieces[..stop_at] {
                let to = at + q * st.channels as usize;
                p.consume(&st.data[at..to]);
                at = to;
            }
        })?;
        if abandon {
            history.push(format!("{} abandoned after {} samples", st.describe(), at));
            obs.count("abandoned sessions", 1);
            last = Some(st);
            continue;
        }
        let got = sut("finish", || {
            for _ in 0..=rng.below(2) {
                p.finish();
            }
            p.fingerprint().to_vec()
        })?;
        let want = fingerprint(&both.s, st.rate, st.channels, &st.data)?;
        ensure!(
            got == want,
            "{}: session {k} ({}) differs from a fresh fingerprinter: {} (history: {})",
            both.r.name,
            st.describe(),
            first_diff(&got, &want),
            tail(&history)
        );
        if k > 0 && !want.is_empty() {
            obs.nontrivial(hash_u32s(&want) ^ hash_bytes(k as u64, both.r.name.as_bytes()));
            obs.count("reused sessions with items", 1);
        }
        history.push(st.describe());
        last = Some(st);
    }
    obs.sample(|| format!("{}: {}", both.r.name, tail(&history)));
    Ok(())
}

/// The latest entries of a history.
fn tail(history: &[String]) -> String {
    let k = history.len().saturating_sub(8);
    let mut t = history[k..].join(" | ");
    if k > 0 {
        t = format!("{k} more | {t}");
    }
    t
}

/// A long stream of small frames, read after every few samples.
fn c06_dense(rng: &mut Rng, tier: Tier, obs: &mut Obs) -> Res {
    let mut both = preset(*rng.pick(&[0u8, 1]));
    let frame = *rng.pick(&[8usize, 12, 16, 32]);
    let hop = rng.range(1, 4);
    both.s = both
        .s
        .with_frame_size(frame)
        .with_frame_overlap(frame - hop);
    both.r.frame = frame;
    both.r.overlap = frame - hop;
    let items = if thorough(tier) && rng.chance(0.2) {
        rng.logrange(20_000, 400_000)
    } else {
        rng.logrange(3000, 40_000)
    };
    let n = both.r.delay() + items * hop + 40;
    let kind = *rng.pick(RICH);
    let data = signal::generate(rng, kind, n, 11025);
    let mut p = sut("new", || Fingerprinter::new(&both.s))?;
    let ok = sut("start", || p.start(11025, 1).is_ok())?;
    ensure!(ok, "start(11025, 1) failed");
    let mut shadow: Vec<u32> = vec![];
    let mut at = 0;
    let most = *rng.pick(&[2usize, 8, 64]);
    let mut reads = 0usize;
    let mut check = |p: &Fingerprinter, at: usize, all: bool| -> Res {
        let bad = sut("fingerprint", || {
            let fp = p.fingerprint();
            if fp.len() < shadow.len() {
                return Some(fp.len());
            }
            let lo = if all {
                0
            } else {
                shadow.len().saturating_sub(200)
            };
            if fp[lo..shadow.len()] != shadow[lo..] {
                return Some(fp.len());
            }
            shadow.extend_from_slice(&fp[shadow.len()..]);
            None
        })?;
        ensure!(
            bad.is_none(),
            "frames of {frame} samples every {hop}: after {at} samples of {kind} the {} items read before became other {} items",
            shadow.len(),
            bad.unwrap_or(0)
        );
        Ok(())
    };
    while at < n {
        let k = rng.range(1, most).min(n - at);
        sut("consume", || p.consume(&data[at..at + k]))?;
        at += k;
        reads += 1;
        check(&p, at, reads.is_multiple_of(512))?;
    }
    sut("finish", || p.finish())?;
    check(&p, at, true)?;
    let whole = fingerprint(&both.s, 11025, 1, &data)?;
    ensure!(
        whole == shadow,
        "frames of {frame} samples every {hop}: read while streaming, the fingerprint differs: {}",
        first_diff(&shadow, &whole)
    );
    obs.count("fingerprint reads", reads);
    obs.max("items of one fingerprint", shadow.len() as f64);
    obs.nontrivial(hash_u32s(&shadow));
    Ok(())
}

pub fn c06(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    if idx % 16 == 9 {
        return c06_dense(rng, tier, obs);
    }
    let (both, st) = config_and_stream(rng, if thorough(tier) { 3_000_000 } else { 700_000 }, RICH);
    let mut p = sut("new", || Fingerprinter::new(&both.s))?;
    let e = sut("fingerprint", || p.fingerprint().len())?;
    ensure!(e == 0, "a new fingerprinter already has {e} items");
    let r = sut("start", || p.start(st.rate, st.channels).is_ok())?;
    ensure!(r, "start({}, {}) failed", st.rate, st.channels);
    let (pieces, style) = signal::split(rng, st.frames());
    let mut prev: Vec<u32> = vec![];
    let mut at = 0;
    let step = (pieces.len() / 400).max(1);
    let mut grew = 0;
    let mut reads = 0;
    for (k, q) in pieces.iter().enumerate() {
        let to = at + q * st.channels as usize;
        sut("consume", || p.consume(&st.data[at..to]))?;
        at = to;
        if k % step == 0 {
            let now = sut("fingerprint", || p.fingerprint().to_vec())?;
            let again = sut("fingerprint", || p.fingerprint().to_vec())?;
            reads += 2;
            ensure!(
                now == again,
                "two reads of the fingerprint differ: {}",
                first_diff(&now, &again)
            );
            ensure!(
                now.len() >= prev.len() && now[..prev.len()] == prev[..],
                "{}, {} ({style}): consuming piece {k} changed items already published: {}",
                both.r.name,
                st.describe(),
                first_diff(&prev, &now[..now.len().min(prev.len())])
            );
            grew += usize::from(now.len() > prev.len());
            if rng.chance(0.2) {
                sut("consume nothing", || p.consume(&[]))?;
                let after = sut("fingerprint", || p.fingerprint().to_vec())?;
                ensure!(after == now, "consuming nothing changed the fingerprint");
            }
            prev = now;
        }
    }
    let mut seen = prev;
    for k in 0..3 {
        sut("finish", || p.finish())?;
        let now = sut("fingerprint", || p.fingerprint().to_vec())?;
        ensure!(
            now.len() >= seen.len() && now[..seen.len()] == seen[..],
            "{}, {}: finish changed items already published: {}",
            both.r.name,
            st.describe(),
            first_diff(&seen, &now[..now.len().min(seen.len())])
        );
        ensure!(
            k == 0 || now.len() == seen.len(),
            "{}, {}: finishing {} times gives {} items instead of {}",
            both.r.name,
            st.describe(),
            k + 1,
            now.len(),
            seen.len()
        );
        seen = now;
    }
    // none of the reads, empty pieces and extra finishes made a difference
    let plain = fingerprint_split(
        &both.s,
        st.rate,
        st.channels,
        &st.data,
        &pieces
            .iter()
            .copied()
            .filter(|q| *q > 0)
            .collect::<Vec<_>>(),
    )?;
    ensure!(
        plain == seen,
        "{}, {} ({style}): reading, empty pieces or repeated finishing changed the fingerprint: {}",
        both.r.name,
        st.describe(),
        first_diff(&seen, &plain)
    );
    if rng.chance(0.4) {
        // going on after a finish only ever adds
        let frames = st.frames().min(rng.logrange(1, 60_000));
        let mut done = 0;
        while done < frames {
            let q = rng.logrange(1, 20_000).min(frames - done);
            sut("consume after finish", || {
                p.consume(&st.data[done * st.channels as usize..(done + q) * st.channels as usize])
            })?;
            done += q;
            if rng.chance(0.2) {
                sut("finish", || p.finish())?;
            }
            let now = sut("fingerprint", || p.fingerprint().to_vec())?;
            ensure!(
                now.len() >= seen.len() && now[..seen.len()] == seen[..],
                "{}, {}: going on after a finish changed items already published: {}",
                both.r.name,
                st.describe(),
                first_diff(&seen, &now[..now.len().min(seen.len())])
            );
            seen = now;
        }
        obs.count("streams continued after a finish", 1);
    }
    obs.count("fingerprint reads", reads);
    obs.count("observed growth steps", grew);
    obs.count("items", seen.len());
    obs.class(format!("split {style}"));
    if distinct(&seen) >= 2 {
        obs.nontrivial(hash_u32s(&seen) ^ pieces.len() as u64);
    }
    obs.sample(|| {
        format!(
            "{}: {} ({style}), {grew} growth steps",
            both.r.name,
            st.describe()
        )
    });
    Ok(())
}

/// Streams of very many items: counts at powers of two, round numbers and next to them.
fn c07_long(rng: &mut Rng, tier: Tier, obs: &mut Obs) -> Res {
    let mut both = preset(*rng.pick(&[0u8, 1]));
    let hop = rng.range(1, 8);
    let frame = hop + *rng.pick(&[4usize, 7, 24]);
    both.s = both
        .s
        .with_frame_size(frame)
        .with_frame_overlap(frame - hop);
    both.r.frame = frame;
    both.r.overlap = frame - hop;
    let most = if thorough(tier) { 400_000 } else { 70_000 };
    for _ in 0..3 {
        let items = match rng.below(4) {
            0 => 1usize << rng.range(8, 16),
            1 => 1000 * rng.range(1, 60),
            2 => (1 << rng.range(7, 13)) * rng.range(1, 9),
            _ => rng.logrange(300, most),
        };
        let items = (items + rng.below(3)).saturating_sub(1);
        let mut n = both.r.delay() + items * hop + rng.below(hop);
        if rng.chance(0.4) {
            // just before or after the end of an internal block
            n = (rng.range(1, 8) * 32_768 + 3) - rng.range(0, 5);
        }
        let items = both.r.items(n);
        let data = signal::generate(rng, "white", n, 11025);
        let fp = fingerprint(&both.s, 11025, 1, &data)?;
        ensure!(
            fp.len() == items,
            "frames of {frame} samples every {hop}: {n} samples make {} items, expected {items}",
            fp.len()
        );
        obs.max("items of one stream", items as f64);
        obs.count("native counts checked", 1);
        obs.nontrivial(hash_u32s(&fp));
    }
    Ok(())
}

pub fn c07(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    if idx % 16 == 15 {
        return c07_long(rng, tier, obs);
    }
    let both = match idx % 10 {
        i @ 0..=4 => preset(i as u8),
        5 => custom(rng, false, false),
        _ => custom(rng, true, false),
    };
    let r = &both.r;
    let d = sut("delay", || both.s.delay())?;
    ensure!(
        d == r.delay(),
        "{}: delay() is {d}, expected {}",
        r.name,
        r.delay()
    );
    let item = sut("item_duration_in_seconds", || {
        both.s.item_duration_in_seconds()
    })?;
    let want = r.hop() as f64 / 11025.0;
    ensure!(
        (f64::from(item) - want).abs() <= want * 1e-6,
        "{}: item duration {item}, expected {want}",
        r.name
    );
    let sr = sut("sample_rate", || both.s.sample_rate())?;
    ensure!(sr == 11025, "sample_rate() is {sr}");
    if idx % 8 == 1 {
        // what is reported for configurations too big to feed here
        for _ in 0..20 {
            let hop = rng.logrange(1, 3_000_000);
            let overlap = rng.logrange(1, 60_000_000) - 1;
            let k = rng.range(1, 40);
            let b = preset(rng.below(5) as u8);
            let c = sut("configuration", || {
                b.s.with_frame_size(hop + overlap)
                    .with_frame_overlap(overlap)
                    .with_coefficients(vec![1.0; k])
            })?;
            let want = (k - 1 + b.r.maxw() - 1) * hop + overlap;
            ensure!(
                c.delay() == want,
                "frames of {} samples every {hop}, {k} coefficients: delay() is {}, expected {want}",
                hop + overlap,
                c.delay()
            );
            let want = hop as f64 / 11025.0;
            let item = f64::from(c.item_duration_in_seconds());
            ensure!(
                (item - want).abs() <= want * 1e-6,
                "a hop of {hop} samples: item duration {item}, expected {want}"
            );
            obs.count("reports of huge configurations", 1);
        }
    }
    // preset 4 drops leading silence: use audible signals from the first sample on
    let loud = |rng: &mut Rng, n: usize| -> Vec<i16> {
        (0..n)
            .map(|_| (rng.irange(2000, 30000) * if rng.chance(0.5) { 1 } else { -1 }) as i16)
            .collect()
    };
    // exact counts around the boundaries at the native rate
    let hop = r.hop();
    for _ in 0..4 {
        let k = rng.logrange(1, 80).min(2_000_000 / hop.max(1) + 1);
        let n = (r.delay() + k * hop + rng.range(0, 2))
            .saturating_sub(1)
            .saturating_sub(if rng.chance(0.2) { rng.below(hop) } else { 0 });
        let data = loud(rng, n);
        let fp = fingerprint(&both.s, 11025, 1, &data)?;
        ensure!(
            fp.len() == r.items(n),
            "{}: {n} samples make {} items, expected {}",
            r.name,
            fp.len(),
            r.items(n)
        );
        obs.count("native counts checked", 1);
        obs.nontrivial(hash_bytes(n as u64, r.name.as_bytes()));
    }
    for n in [0usize, 1, r.delay(), (r.delay() + hop).saturating_sub(1)] {
        let data = loud(rng, n);
        let fp = fingerprint(&both.s, 11025, 1, &data)?;
        ensure!(
            fp.len() == r.items(n),
            "{}: {n} samples make {} items, expected {}",
            r.name,
            fp.len(),
            r.items(n)
        );
    }
    // other rates, and progress before finish
    let rate = any_rate(rng).min(200_000);
    let channels = *rng.pick(&[1u32, 1, 2, 3]);
    let n = frames_for(r, rate, rng.range(1, 40))
        .min(1_200_000)
        .max(rng.below(100_000));
    let n = n.min(900_000usize.max((400_000.0 * f64::from(rate) / 11025.0) as usize));
    let mono = loud(rng, n);
    let data: Vec<i16> = mono
        .iter()
        .flat_map(|s| std::iter::repeat_n(*s, channels as usize))
        .collect();
    let (pieces, _) = signal::split(rng, n);
    // the resampler fades in, so a silence-removing configuration may drop a few samples
    let onset = if r.silence.is_some() && rate != 11025 {
        120
    } else {
        0
    };
    let mut p = sut("new", || Fingerprinter::new(&both.s))?;
    let ok = sut("start", || p.start(rate, channels).is_ok())?;
    ensure!(ok, "start({rate}, {channels}) failed");
    let mut at = 0;
    let step = (pieces.len() / 200).max(1);
    for (k, q) in pieces.iter().enumerate() {
        sut("consume", || {
            p.consume(&data[at * channels as usize..(at + q) * channels as usize])
        })?;
        at += q;
        if k % step == 0 {
            let len = sut("fingerprint", || p.fingerprint().len())?;
            let (lo, _) = refmodel::resampled_bounds(at.saturating_sub(32768), rate);
            let lo = lo.saturating_sub(onset);
            let (_, hi) = refmodel::resampled_bounds(at, rate);
            ensure!(
                len >= r.items(lo) && len <= r.items(hi),
                "{}: after {at} frames at {rate} Hz there are {len} items, expected {}..={} (at most 32768 frames held back)",
                r.name,
                r.items(lo),
                r.items(hi)
            );
            obs.count("progress checks", 1);
        }
    }
    let len = sut("finish", || {
        p.finish();
        p.fingerprint().len()
    })?;
    let (lo, hi) = refmodel::resampled_bounds(n, rate);
    let lo = lo.saturating_sub(onset);
    ensure!(
        len >= r.items(lo) && len <= r.items(hi),
        "{}: {n} frames at {rate} Hz make {len} items, expected {}..={}",
        r.name,
        r.items(lo),
        r.items(hi)
    );
    obs.count("resampled counts checked", usize::from(rate != 11025));
    obs.class(if idx % 10 < 5 {
        r.name.clone()
    } else {
        "custom configuration".into()
    });
    obs.sample(|| format!("{}: {n} frames at {rate} Hz -> {len} items", r.name));
    Ok(())
}

pub fn c08(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let both = if rng.chance(0.5) {
        any_preset(rng)
    } else {
        custom(rng, true, false)
    };
    let rate = match idx % 8 {
        0 => rng.below(1001) as u32,
        1 => *rng.pick(&[
            0u32,
            1,
            999,
            1000,
            1001,
            1002,
            11024,
            11025,
            11026,
            u32::MAX,
            u32::MAX - 1,
            1 << 31,
            65535,
            65536,
            65537,
        ]),
        2 => rng.u32(),
        3 => *rng.pick(COMMON_RATES),
        4 => 1001 + rng.below(20) as u32,
        _ => rng.logrange(1001, u32::MAX as usize) as u32,
    };
    let channels = match rng.below(5) {
        0 => 0,
        1 => *rng.pick(&[u32::MAX, 65535, 65536, 1 << 20]),
        _ => any_channels(rng),
    };
    let mut p = sut("new", || Fingerprinter::new(&both.s))?;
    // an ongoing calculation, which a refused start must not disturb
    let running = rng.chance(0.6);
    let (rate0, channels0) = if rng.chance(0.5) {
        (11025, 1)
    } else {
        (any_rate(rng).min(96_000), *rng.pick(&[1u32, 2, 3, 6]))
    };
    let n = frames_for(&both.r, rate0, rng.range(2, 12)).min(900_000 / channels0 as usize);
    let st = stream(rng, rate0, channels0, n, RICH);
    let cut = if n > 40_000 && rng.chance(0.3) {
        // an internal block about to be full, or just started
        let k = rng.range(1, n / 32_768);
        let off = *rng.pick(&[1usize, 2, 4, 64, 1000]);
        (k * 32_768 + rng.below(off))
            .saturating_sub(rng.below(off + 1))
            .min(n)
    } else if n > 40_000 && rng.chance(0.5) {
        rng.range(32_768, n)
    } else {
        rng.below(n + 1)
    };
    let cut_at = cut * channels0 as usize;
    let mut before = vec![];
    if running {
        let ok = sut("start", || p.start(rate0, channels0).is_ok())?;
        ensure!(ok, "start({rate0}, {channels0}) failed");
        sut("consume", || p.consume(&st.data[..cut_at]))?;
        before = sut("fingerprint", || p.fingerprint().to_vec())?;
    }
    let res = sut("start", || match p.start(rate, channels) {
        Ok(()) => Ok(()),
        Err(e) => {
            let text = format!("{e}");
            let dbg = format!("{e:?}");
            Err((
                match e {
                    ResetError::NoChannels => 1,
                    ResetError::SampleRateTooLow => 2,
                    ResetError::CannotResample(_) => 3,
                },
                text,
                dbg,
            ))
        }
    })?;
    let (bad_rate, bad_channels) = (rate <= 1000, channels == 0);
    match &res {
        Ok(()) => {
            ensure!(
                !bad_rate && !bad_channels,
                "start({rate}, {channels}) was accepted"
            );
            obs.class("accepted");
            // it has to be usable
            let left = sut("fingerprint", || p.fingerprint().len())?;
            ensure!(
                left == 0,
                "start({rate}, {channels}) left {left} items behind"
            );
            let c = channels as usize;
            let frames = if c > 100_000 {
                0
            } else {
                (rng.logrange(1, 40_000)).min(400_000 / c + 1)
            };
            let data: Vec<i16> = (0..frames * c).map(|_| rng.u32() as i16).collect();
            sut("consume", || {
                p.consume(&data);
                p.finish();
                p.fingerprint().len()
            })?;
        }
        Err((k, text, _)) => {
            ensure!(
                bad_rate || bad_channels,
                "start({rate}, {channels}) was refused: {text}"
            );
            ensure!(
                (*k == 1 && bad_channels) || (*k == 2 && bad_rate),
                "start({rate}, {channels}) was refused for the wrong reason: {text}"
            );
            ensure!(
                !text.trim().is_empty(),
                "the error of start({rate}, {channels}) has no text"
            );
            obs.class(if *k == 1 {
                "refused: no channels"
            } else {
                "refused: rate too low"
            });
            if running {
                let now = sut("fingerprint", || p.fingerprint().to_vec())?;
                ensure!(
                    now == before,
                    "a refused start({rate}, {channels}) changed the fingerprint: {}",
                    first_diff(&before, &now)
                );
                let got = sut("continue", || {
                    p.consume(&st.data[cut_at..]);
                    p.finish();
                    p.fingerprint().to_vec()
                })?;
                let want = fingerprint(&both.s, rate0, channels0, &st.data)?;
                ensure!(
                    got == want,
                    "{}: a refused start({rate}, {channels}) after {cut} samples disturbed the running calculation: {}",
                    both.r.name,
                    first_diff(&got, &want)
                );
                obs.count("running calculations continued after a refusal", 1);
            }
        }
    }
    obs.nontrivial(u64::from(rate) << 32 | u64::from(channels));
    obs.sample(|| format!("start({rate}, {channels}) -> {res:?}"));
    Ok(())
}

/// Deterministic noise-like music, block by block, so that excerpts can be regenerated.
struct Endless {
    seed: u64,
}
const BLOCK: usize = 4096;
impl Endless {
    fn block(&self, b: usize, out: &mut Vec<i16>) {
        let mut r = Rng::new(hash_bytes(self.seed, &(b as u64 / 3).to_le_bytes()));
        let amp = r.logrange(200, 12_000) as i64;
        let f = r.frange(0.01, 0.9);
        let mut r2 = Rng::new(hash_bytes(self.seed ^ 0x5555, &(b as u64).to_le_bytes()));
        let mut ph = r2.f() * 6.28;
        let silent = r.chance(0.05);
        for _ in 0..BLOCK {
            ph += f;
            let v = r2.irange(-amp / 3, amp / 3) as f64 + amp as f64 * ph.sin();
            out.push(if silent { 0 } else { v as i16 });
        }
    }
    fn range(&self, from: usize, to: usize) -> Vec<i16> {
        let mut v = vec![];
        let b0 = from / BLOCK;
        for b in b0..to.div_ceil(BLOCK) {
            self.block(b, &mut v);
        }
        v[from - b0 * BLOCK..to - b0 * BLOCK].to_vec()
    }
}

pub fn c13(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    // (configuration, rate, input frames)
    let mul = *rng.pick(&[1u32, 1, 1, 2, 4]);
    let huge = idx < 4;
    let (both, total) = if huge {
        let c = match idx {
            0 => {
                // many items: one per 4 samples
                let mut r = refmodel::preset(1);
                r.frame = 64;
                r.overlap = 60;
                r.name = "preset_test2 with frame 64/60".into();
                (
                    Both {
                        r,
                        s: Configuration::preset_test2()
                            .with_frame_size(64)
                            .with_frame_overlap(60),
                    },
                    9_000_000,
                )
            }
            1 => (
                preset(4),
                if thorough(tier) {
                    140_000_000
                } else {
                    70_000_000
                },
            ),
            2 => (preset(0), 20_000_000),
            _ => (preset(1), 30_000_000),
        };
        c
    } else if rng.chance(0.5) {
        (
            preset(*rng.pick(&[0u8, 1, 2, 4])),
            rng.logrange(300_000, 3_000_000),
        )
    } else {
        (custom(rng, true, false), rng.logrange(50_000, 600_000))
    };
    let mul = if huge { 1 } else { mul };
    let rate = 11025 * mul;
    let r = &both.r;
    let both_s = &both.s;
    let sig = Endless { seed: rng.u64() };
    let mut p = sut("new", || Fingerprinter::new(both_s))?;
    let ok = sut("start", || p.start(rate, 1).is_ok())?;
    ensure!(ok, "start({rate}, 1) failed");
    let mut at = 0;
    let mut buf = vec![];
    while at < total {
        buf.clear();
        for k in 0..64 {
            sig.block(at / BLOCK + k, &mut buf);
        }
        let take = buf.len().min(total - at);
        sut("consume", || p.consume(&buf[..take]))?;
        at += take;
    }
    let fp = sut("finish", || {
        p.finish();
        p.fingerprint().to_vec()
    })?;
    drop(p);
    let (lo, hi) = refmodel::resampled_bounds(total, rate);
    ensure!(
        fp.len() >= r.items(lo) && fp.len() <= r.items(hi),
        "{}: {total} frames at {rate} Hz make {} items, expected {}..={}",
        r.name,
        fp.len(),
        r.items(lo),
        r.items(hi)
    );
    // excerpts: some at fixed interesting places, some anywhere
    let probes = if huge { 24 } else { 6 };
    if mul == 1 && (huge || rng.chance(0.2)) {
        // every single item, against excerpts of a few thousand items
        let step = rng.range(2000, 6000);
        let mut first = 0;
        while first < fp.len() {
            let count = step.min(fp.len() - first);
            let from = first * r.hop();
            let excerpt = sig.range(from, from + r.delay() + count * r.hop());
            let part = fingerprint(both_s, rate, 1, &excerpt)?;
            let silent = r.silence.is_some();
            ensure!(
                part.len() == count || silent,
                "{}: an excerpt of {} frames makes {} items",
                r.name,
                excerpt.len(),
                part.len()
            );
            if part.len() == count {
                for (i, (g, w)) in fp[first..].iter().zip(&part).enumerate() {
                    if g == w {
                        continue;
                    }
                    let e = &excerpt[i * r.hop()..][..r.delay() + r.hop()];
                    let e = refmodel::expected(r, e, rate);
                    refmodel::compare(r, &e.items[..1], &[*g], EPS)
                        .and(refmodel::compare(r, &e.items[..1], &[*w], EPS))
                        .map_err(|m| {
                            Stop::Violation(format!(
                                "{}: item {} of a {}-item stream is {g:08x}, but {w:08x} in an excerpt of it ({m})",
                                r.name,
                                first + i,
                                fp.len()
                            ))
                        })?;
                    obs.count("items excused (value on a threshold)", 1);
                }
                obs.count("items of whole streams compared", count);
            }
            first += count;
        }
    }
    // items whose feature rows reach back before the excerpt's first (distorted) resampled samples
    let skip = if mul == 1 {
        0
    } else {
        (16 / r.hop() + 2) + r.coefs.len() + 16
    };
    for q in 0..probes {
        let want = rng.range(1, 24);
        let count = (want + skip).min(fp.len());
        if count <= skip {
            break;
        }
        let first = match q {
            0 => fp.len() - count,
            1 => fp.len() / 2,
            2..=6 if huge => [254usize, 4095, 65535, 1 << 17, 1 << 20][q - 2],
            _ => rng.below(fp.len() - count + 1),
        };
        let first = first.min(fp.len() - count);
        let from = first * r.hop() * mul as usize;
        let len = (r.delay() + count * r.hop()) * mul as usize + if mul == 1 { 0 } else { 64 };
        if from + len > total {
            continue;
        }
        let excerpt = sig.range(from, from + len);
        let e = refmodel::expected(r, &excerpt, rate);
        let part = fingerprint(both_s, rate, 1, &excerpt)?;
        let n = part.len().min(count);
        ensure!(
            n + 1 >= count,
            "{}: an excerpt of {len} frames makes only {} items",
            r.name,
            part.len()
        );
        // the long stream against the excerpt, and both against the reference of the excerpt
        for (i, (g, w)) in fp[first..first + n]
            .iter()
            .zip(&part[..n])
            .enumerate()
            .skip(skip)
        {
            if g != w && r.silence.is_none() {
                refmodel::compare(r, &e.items[i..i + 1], &[*g], EPS)
                    .and(refmodel::compare(r, &e.items[i..i + 1], &[*w], EPS))
                    .map_err(|m| {
                        Stop::Violation(format!(
                            "{}, {rate} Hz: item {} of a {}-item stream is {g:08x}, but {w:08x} when only its surroundings are fingerprinted ({m})",
                            r.name,
                            first + i,
                            fp.len()
                        ))
                    })?;
                obs.count("items excused (value on a threshold)", 1);
            } else if g != w {
                return violation(format!(
                    "{}: item {} is {g:08x}, but {w:08x} in an excerpt",
                    r.name,
                    first + i
                ));
            }
        }
        obs.count("excerpts compared", 1);
        obs.count("items compared with an excerpt", n.saturating_sub(skip));
        obs.nontrivial(hash_u32s(&part) ^ first as u64);
    }
    obs.max("items in one stream", fp.len() as f64);
    obs.max(
        "hours of audio in one stream",
        total as f64 / f64::from(rate) / 3600.0,
    );
    obs.class(format!("rate {rate}"));
    obs.sample(|| {
        format!(
            "{}: {total} frames at {rate} Hz, {} items",
            r.name,
            fp.len()
        )
    });
    Ok(())
}

pub fn c14(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let both = if rng.chance(0.5) {
        any_preset(rng)
    } else {
        custom(rng, true, false)
    };
    let r = &both.r;
    let rate = any_rate(rng).min(200_000);
    let channels = *rng.pick(&[1u32, 1, 2, 5]);
    let n = frames_for(r, rate, rng.logrange(2, 40)).min(1_000_000);
    // polarity: exact
    let mut st = stream(rng, rate, channels, n, KINDS);
    for v in &mut st.data {
        *v = (*v).max(-32767);
    }
    let inv: Vec<i16> = st.data.iter().map(|v| -v).collect();
    let a = fingerprint(&both.s, rate, channels, &st.data)?;
    let b = fingerprint(&both.s, rate, channels, &inv)?;
    ensure!(
        a == b,
        "{}, {}: inverting the polarity changes the fingerprint: {}",
        r.name,
        st.describe(),
        first_diff(&a, &b)
    );
    obs.count("inverted streams compared", 1);
    // volume
    if r.silence.is_none() {
        let g = *rng.pick(&[2i32, 3, 4, 5, 7, 8, 16, 20, 31]);
        let kind = *rng.pick(&["melody", "music+noise", "white", "am", "chirp", "ramp"]);
        let base: Vec<i16> = signal::generate(rng, kind, n, rate)
            .iter()
            .map(|v| (f64::from(*v) / f64::from(g)) as i16)
            .collect();
        let loud: Vec<i16> = base.iter().map(|v| (i32::from(*v) * g) as i16).collect();
        let a = fingerprint(&both.s, rate, 1, &base)?;
        let b = fingerprint(&both.s, rate, 1, &loud)?;
        ensure!(
            a.len() == b.len(),
            "{}: gain {g} changes the number of items: {} vs {}",
            r.name,
            a.len(),
            b.len()
        );
        let mut e = None;
        for i in 0..a.len() {
            if a[i] != b[i] {
                let e = e.get_or_insert_with(|| refmodel::expected(r, &base, rate));
                if e.items[i].min_norm < 0.02 {
                    obs.count("items next to silence skipped", 1);
                    continue;
                }
                let one = &e.items[i..i + 1];
                if let Err(m) = refmodel::compare(r, one, &a[i..i + 1], EPS).and(refmodel::compare(
                    r,
                    one,
                    &b[i..i + 1],
                    EPS,
                )) {
                    return violation(format!(
                        "{}, {n} frames of {kind} at {rate} Hz: item {i} is {:08x}, but {:08x} when {g} times as loud ({m})",
                        r.name, a[i], b[i]
                    ));
                }
                obs.count("items excused (value on a threshold)", 1);
            }
            obs.count("items compared across volumes", 1);
        }
        obs.class(format!("gain {g}"));
        obs.class(format!("signal {kind}"));
        if distinct(&a) >= 2 {
            obs.nontrivial(hash_u32s(&a) ^ g as u64);
        }
    }
    let _ = idx;
    obs.sample(|| format!("{}: {}", r.name, st.describe()));
    Ok(())
}

/// More quiet samples in front than 32 bits can count.
fn c16_endless(rng: &mut Rng, obs: &mut Obs) -> Res {
    let both = preset(3);
    let quiet: Vec<i16> = (0..1 << 20)
        .map(|i| if i % 2 == 0 { 50 } else { -50 })
        .collect();
    let rounds = 4097;
    let n = frames_for(&both.r, 11025, 20);
    let body = signal::generate(rng, "music+noise", n, 11025);
    let mut near = quiet[quiet.len() - 1000..].to_vec();
    near.extend(&body);
    let want = fingerprint(&both.s, 11025, 1, &near)?;
    let got = sut("feed hours of quiet audio", || {
        let mut p = Fingerprinter::new(&both.s);
        p.start(11025, 1).map(|()| {
            for _ in 0..rounds {
                p.consume(&quiet);
            }
            p.consume(&body);
            p.finish();
            p.fingerprint().to_vec()
        })
    })?
    .map_err(|e| Stop::Violation(format!("start was refused: {e}")))?;
    ensure!(
        got == want && !got.is_empty(),
        "{rounds} times 2^20 quiet samples in front change the fingerprint: {}",
        first_diff(&want, &got)
    );
    obs.count("streams with more than 2^32 quiet samples", 1);
    obs.nontrivial(hash_u32s(&got));
    Ok(())
}

pub fn c16(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    if idx == 0 {
        return c16_endless(rng, obs);
    }
    let (both, t) = if idx % 3 == 0 {
        (preset(3), 50u32)
    } else {
        let t = *rng.pick(&[
            0u32,
            1,
            2,
            5,
            49,
            50,
            51,
            100,
            300,
            1000,
            5000,
            20_000,
            32_767,
            40_000,
            u32::MAX,
        ]);
        let mut b = custom(rng, true, false);
        b.s = b.s.with_removed_silence(t);
        b.r.silence = Some(t);
        b.r.name = format!("{}, silence {t}", b.r.name);
        (b, t)
    };
    let mut plain = both.r.clone();
    plain.silence = None;
    let native = rng.chance(0.7);
    let rate = if native {
        11025
    } else {
        *rng.pick(&[8000u32, 22050, 44100, 48000])
    };
    let channels = *rng.pick(&[1u32, 1, 2, 3]);
    let lead = match rng.below(5) {
        0 => 0,
        1 => rng.below(200),
        2 => 32768 - 60 + rng.below(120),
        _ => rng.logrange(1, 120_000),
    };
    let body = frames_for(&both.r, rate, rng.range(1, 20));
    // quiet part: below, at or around the threshold
    let q = i64::from(t.min(32_767));
    let mode = rng.below(6);
    let mut mono: Vec<i16> = vec![];
    for i in 0..lead {
        let v: i64 = match mode {
            0 => 0,
            1 => rng.irange(-q / 2, q / 2),
            2 => q * if i % 2 == 0 { 1 } else { -1 },
            3 => {
                if i % 97 == 0 {
                    (q * 20).min(32_767)
                } else {
                    0
                }
            }
            4 => rng.irange(-q, q + q / 10 + 1),
            _ => (q + 1).min(32_767) * i64::from(i % 60 > 5),
        };
        mono.push(v.clamp(-32768, 32767) as i16);
    }
    let kind = *rng.pick(&["music+noise", "white", "extreme", "gated", "lsb"]);
    mono.extend(signal::generate(rng, kind, body, rate));
    let data: Vec<i16> = mono
        .iter()
        .flat_map(|s| std::iter::repeat_n(*s, channels as usize))
        .collect();
    let e = refmodel::expected(&both.r, &mono, rate);
    let (pieces, style) = signal::split(rng, mono.len());
    let got = fingerprint_split(&both.s, rate, channels, &data, &pieces)?;
    obs.class(format!(
        "quiet part {}",
        [
            "digital silence",
            "half the threshold",
            "at the threshold",
            "clicks",
            "around",
            "just above with gaps"
        ][mode]
    ));
    if e.unsure {
        obs.count("cases whose audible start hinges on rounding", 1);
        return Ok(());
    }
    let what = format!(
        "{}: {lead} quiet + {body} {kind} frames at {rate} Hz ({style})",
        both.r.name
    );
    let c = e
        .check(&both.r, &got, EPS)
        .map_err(|m| Stop::Violation(format!("{what}; audible from {}: {m}", e.audible_from)))?;
    ensure!(
        c.excused <= 2 + c.items / 20,
        "{what}: {} of {} items needed the rounding excuse",
        c.excused,
        c.items
    );
    obs.count("items compared with the reference", c.items);
    if e.audible_from > 0 {
        obs.count("streams with removed silence", 1);
    }
    // a prefix of digital silence makes no difference
    if native {
        let extra = rng.logrange(60, 50_000);
        let from = e.audible_from.saturating_sub(54);
        let tail = &mono[from..];
        let a = fingerprint(&both.s, 11025, 1, tail)?;
        let mut padded = vec![0i16; extra];
        padded.extend_from_slice(tail);
        let b = fingerprint(&both.s, 11025, 1, &padded)?;
        // the average over the first few samples of `tail` alone may already exceed the threshold
        if refmodel::silence_end(&refmodel::scale(tail), t).0
            == refmodel::silence_end(&refmodel::scale(&padded), t)
                .0
                .wrapping_sub(extra)
        {
            ensure!(
                a == b,
                "{what}: {extra} samples of leading silence change the fingerprint: {}",
                first_diff(&a, &b)
            );
            obs.count("padded streams compared", 1);
        }
    }
    if !got.is_empty() && e.audible_from > 0 {
        obs.nontrivial(hash_u32s(&got) ^ e.audible_from as u64);
    }
    obs.sample(|| what);
    Ok(())
}

/// Hours of silence, then noise.
fn long_silence(rng: &mut Rng, obs: &mut Obs) -> Res {
    let both = if rng.chance(0.4) {
        preset(*rng.pick(&[0u8, 1, 2, 4]))
    } else {
        let mut b = custom(rng, true, false);
        let f = *rng.pick(&[16usize, 32, 64, 100]);
        let o = f - rng.range(1, 4);
        b.r.frame = f;
        b.r.overlap = o;
        b.s = b.s.with_frame_size(f).with_frame_overlap(o);
        b
    };
    let r = &both.r;
    let (most, rate) = if r.frame > 1000 {
        (20_000, *rng.pick(&[11025u32, 11025, 8000]))
    } else {
        (400_000, *rng.pick(&[11025u32, 11025, 44100]))
    };
    let want = rng.range(most / 4, most);
    // (a whole number of items, so that what follows is at its start)
    let n = (r.delay() + want * r.hop()).div_ceil(r.hop()) * r.hop();
    let tail = signal::generate(rng, "music+noise", frames_for(r, 11025, 12).min(300_000), 11025);
    let level = *rng.pick(&[0i16, 0, 0, 1]);
    let quiet: Vec<i16> = (0..30_000).map(|i| level * (i % 1000 == 0) as i16).collect();
    let fp = sut("a long silence", || {
        let mut p = Fingerprinter::new(&both.s);
        p.start(rate, 1).unwrap();
        let mut left = n;
        while left > 0 {
            let k = left.min(quiet.len());
            p.consume(&quiet[..k]);
            left -= k;
        }
        let silent = p.fingerprint().len();
        p.consume(&tail);
        p.finish();
        (silent, p.fingerprint().to_vec())
    })?;
    let (silent, fp) = fp;
    let konst = refmodel::fingerprint(r, &vec![0.0; r.delay() + r.hop()])[0].bits;
    if std::ptr::eq(r.classes, &refmodel::CLASSES1) {
        // (the constant of the statement is that of the other classifiers)
    } else {
        ensure!(konst == 627_964_279, "the reference says {konst}");
    }
    for (i, g) in fp[..silent].iter().enumerate() {
        ensure!(
            *g == konst,
            "{}: {n} silent frames at {rate} Hz: item {i} is {g} instead of {konst}",
            r.name
        );
    }
    obs.count("silent items", silent);
    obs.max("items of one silence", silent as f64);
    if rate == 11025 {
        // (its first frames see the silence before)
        let e = refmodel::expected(r, &tail, rate);
        let off = n / r.hop();
        ensure!(
            fp.len() >= off + e.items.len(),
            "{}: {} items instead of {}",
            r.name,
            fp.len(),
            off + e.items.len()
        );
        let got = &fp[off..off + e.items.len()];
        refmodel::compare(r, &e.items, got, EPS).map_err(|m| {
            Stop::Violation(format!("{}: after {n} silent frames: {m}", r.name))
        })?;
        obs.count("items compared after a gap", got.len());
    }
    obs.nontrivial(hash_u32s(&fp));
    Ok(())
}

pub fn c17(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    if idx % 50 == 5 {
        return long_silence(rng, obs);
    }
    // digital silence, or signals too weak to count: one constant item, whatever the layout
    let both = match idx % 6 {
        0 => preset(0),
        1 => preset(1),
        2 => preset(2),
        3 => preset(4),
        _ => custom(rng, true, false),
    };
    let r = &both.r;
    let konst = if std::ptr::eq(r.classes, &refmodel::CLASSES1) {
        let z = refmodel::fingerprint(r, &vec![0.0; r.delay() + r.hop()]);
        z[0].bits
    } else {
        627_964_279
    };
    let rate = any_rate(rng).min(200_000);
    let channels = any_channels(rng).min(64);
    let n = frames_for(r, rate, rng.logrange(1, 60)).min(3_000_000 / channels as usize);
    let cancel = channels >= 2 && rng.chance(0.4);
    let mut data = vec![0i16; n * channels as usize];
    if cancel {
        // channels that cancel out are silence, too
        for f in data.chunks_exact_mut(channels as usize) {
            let v = rng.irange(-30_000, 30_000) as i16;
            f[0] = v;
            f[1] = -v;
        }
    }
    let (pieces, _) = signal::split(rng, n);
    let got = fingerprint_split(&both.s, rate, channels, &data, &pieces)?;
    for (i, g) in got.iter().enumerate() {
        ensure!(
            *g == konst,
            "{}: {n} silent frames at {rate} Hz, {channels} channel(s): item {i} of {} is {g} instead of {konst}",
            r.name,
            got.len()
        );
    }
    let (lo, hi) = refmodel::resampled_bounds(n, rate);
    ensure!(
        got.len() >= r.items(lo) && got.len() <= r.items(hi),
        "{}: {n} silent frames at {rate} Hz make {} items",
        r.name,
        got.len()
    );
    obs.count("silent items", got.len());
    if !got.is_empty() {
        obs.nontrivial(hash_bytes(n as u64, r.name.as_bytes()) ^ u64::from(rate));
    }
    // near silence: whatever the energy, it is either the constant or what the reference says
    let kind = *rng.pick(&["near_silence", "lsb", "impulses", "sparse", "gated"]);
    let m = frames_for(r, 11025, rng.range(1, 30)).min(400_000);
    let mut q = signal::generate(rng, kind, m, 11025);
    if rng.chance(0.5) {
        for v in &mut q {
            *v = (*v).clamp(-3, 3);
        }
    }
    let st = Stream {
        rate: 11025,
        channels: 1,
        data: q,
        what: format!("{kind} (quiet)"),
    };
    conform(&both, &st, obs)?;
    // after silence the same audio gives the same items again
    let gap = r.frame + (r.coefs.len() + 17) * r.hop();
    let gap = gap.div_ceil(r.hop()) * r.hop();
    let tail = signal::generate(
        rng,
        "music+noise",
        frames_for(r, 11025, 6).min(300_000),
        11025,
    );
    let pre = (r.hop() * rng.range(1, 40)).min(200_000) / r.hop() * r.hop();
    let mut long = signal::generate(rng, "white", pre, 11025);
    long.extend(vec![0i16; gap]);
    let off = long.len() / r.hop();
    long.extend_from_slice(&tail);
    let a = fingerprint(&both.s, 11025, 1, &tail)?;
    let b = fingerprint(&both.s, 11025, 1, &long)?;
    let e = refmodel::expected(r, &tail, 11025);
    for i in 0..a.len() {
        let g = b.get(off + i).copied();
        ensure!(
            g.is_some(),
            "{}: {} items instead of at least {}",
            r.name,
            b.len(),
            off + i + 1
        );
        if g != Some(a[i]) {
            let one = &e.items[i..i + 1];
            if let Err(m) = refmodel::compare(r, one, &[g.unwrap()], EPS).and(refmodel::compare(
                r,
                one,
                &a[i..=i],
                EPS,
            )) {
                return violation(format!(
                    "{}: item {i} after a gap of silence is {:08x} instead of {:08x} ({m})",
                    r.name,
                    g.unwrap(),
                    a[i]
                ));
            }
        }
        obs.count("items compared after a gap", 1);
    }
    obs.sample(|| {
        format!(
            "{}: {n} silent frames at {rate} Hz, {channels} channel(s), cancelling: {cancel}",
            r.name
        )
    });
    Ok(())
}

pub fn c12(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let both = if idx % 3 == 0 {
        any_preset(rng)
    } else {
        custom(rng, true, true)
    };
    let rate = if rng.chance(0.5) {
        11025
    } else {
        *rng.pick(&[8000u32, 44100, 48000, 96000, 192_000, 5000])
    };
    let channels = *rng.pick(&[1u32, 2, 2, 6]);
    let c = channels as usize;
    // the workload's own data is allocated before measuring
    let block = rng.logrange(1, 60_000);
    let data: Vec<i16> = (0..block * c)
        .map(|_| rng.irange(-12_000, 12_000) as i16)
        .collect();
    let big: Vec<i16> = (0..400_000 / c * c)
        .map(|_| rng.irange(-12_000, 12_000) as i16)
        .collect();
    let total = (if thorough(tier) {
        40_000_000
    } else {
        4_000_000
    } / c)
        .min((both.r.hop() as f64 * 60_000.0 * f64::from(rate) / 11025.0) as usize);
    let (mut samples, mut frames, mut all_items, mut top) = (0, 0, 0, 0);
    let start_live = alloc::thread_live();
    let mut p = sut("new", || Fingerprinter::new(&both.s))?;
    let mut settled = 0;
    let mut items0 = 0;
    let mut bound = 0;
    for session in 0..3 {
        let ok = sut("start", || p.start(rate, channels).is_ok())?;
        ensure!(ok, "start({rate}, {channels}) failed");
        // warm-up: enough to fill every buffer once
        let warm = 80_000.max((both.r.delay() as f64 * 1.2 * f64::from(rate) / 11025.0) as usize);
        let mut fed = 0;
        while fed < warm {
            let k = block.min(warm - fed).max(1);
            sut("consume", || p.consume(&data[..k * c]))?;
            fed += k;
        }
        if session == 0 {
            settled = alloc::thread_live() - start_live;
            items0 = sut("fingerprint", || p.fingerprint().len())?;
            // doubling growth of vectors: twice the settled amount, plus some slack
            bound = settled + 600_000;
        }
        alloc::reset_peak();
        let mut calls = 0;
        while fed < total && calls < 400_000 {
            sut("consume", || p.consume(&data))?;
            fed += block;
            calls += 1;
            if calls % 7 == 0 && fed + 400_000 / c < total {
                sut("consume", || p.consume(&big))?;
                fed += 400_000 / c;
            }
            if calls % 64 == 0 {
                let items = sut("fingerprint", || p.fingerprint().len())?;
                let live = alloc::thread_live() - start_live;
                let allowed = bound + ((items + items0) * 4 * 3) as isize;
                ensure!(
                    live <= allowed,
                    "{}: {live} bytes are held after {fed} frames at {rate} Hz ({items} items); {settled} sufficed after the first {warm}, allowed {allowed}",
                    both.r.name
                );
                samples += 1;
            }
        }
        let items = sut("finish", || {
            p.finish();
            p.fingerprint().len()
        })?;
        let peak = alloc::thread_peak() - start_live;
        let allowed = 2 * bound + ((items + items0) * 4 * 4) as isize;
        ensure!(
            peak <= allowed,
            "{}: up to {peak} bytes were held while consuming {fed} frames at {rate} Hz ({items} items), allowed {allowed}",
            both.r.name
        );
        top = top.max(peak);
        frames += fed;
        all_items += items;
    }
    // many short streams: what one leaves behind must not add up
    let sizes = [alloc::thread_live() - start_live, 0, 0];
    let mut after = sizes;
    for round in 0..3 {
        for k in 0..120 {
            let (r, ch) = if k % 5 == 0 { (11025, 1) } else { (rate, c) };
            sut("short session", || {
                p.start(r, ch as u32).map_err(|e| e.to_string())?;
                p.consume(&data[..data.len().min(3000) / ch * ch]);
                if k % 3 != 0 {
                    p.finish();
                }
                Ok::<(), String>(())
            })?
            .map_err(Stop::Violation)?;
        }
        let _ = sut("start", || p.start(rate, channels).is_ok())?;
        after[round] = alloc::thread_live() - start_live;
    }
    ensure!(
        after[2] <= after[1] && after[1] <= after[0].max(sizes[0]),
        "{}: the memory held grows with every stream: {after:?} bytes after 120, 240 and 360 short streams",
        both.r.name
    );
    obs.count("short streams", 360);
    sut("drop", || drop(p))?;
    let left = alloc::thread_live() - start_live;
    ensure!(
        left < 4096,
        "{}: {left} bytes were not released",
        both.r.name
    );
    obs.count("memory samples", samples);
    obs.max("peak bytes", top as f64);
    obs.count("frames", frames);
    obs.count("items", all_items);
    obs.nontrivial(hash_bytes(block as u64, both.r.name.as_bytes()));
    obs.class(format!("rate {rate}"));
    obs.sample(|| {
        format!(
            "{} at {rate} Hz x {channels}, blocks of {block}: settled {settled} bytes",
            both.r.name
        )
    });
    Ok(())
}

pub fn c32(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    // builders: order does not matter, the last value wins, only the named setting changes
    let id = (idx % 5) as u8;
    let mut r = refmodel::preset(id);
    let mut s = if idx % 11 == 0 {
        r = refmodel::preset(1);
        sut("default", Configuration::default)?
    } else {
        sut("preset", || refmodel::sut_preset(id))?
    };
    let mut rid = if idx % 11 == 0 { 1 } else { id };
    ensure!(s.id() == rid, "preset {} has id {}", r.name, s.id());
    let (frame, overlap);
    {
        let f = *rng.pick(&[64usize, 100, 128, 200, 256, 333, 512]);
        frame = f;
        overlap = rng.range(0, f - 8);
    }
    #[derive(Clone, Debug)]
    enum Op {
        Id(u8),
        Coefs(Vec<f64>),
        Interp(bool),
        Frame(usize),
        Overlap(usize),
        Silence(u32),
    }
    let mut ops = vec![Op::Frame(frame), Op::Overlap(overlap)];
    for _ in 0..rng.below(3) {
        ops.push(Op::Id(rng.u32() as u8));
    }
    if rng.chance(0.5) {
        let k = if rng.chance(0.15) {
            rng.logrange(8, 400)
        } else {
            rng.range(1, 8)
        };
        let mut c: Vec<f64> = (0..k).map(|_| rng.range(1, 20) as f64 / 10.0).collect();
        if k > 1 && rng.chance(0.4) {
            // some of them zero: at the start, at the end, anywhere
            let n = rng.range(1, k - 1);
            match rng.below(3) {
                0 => c[..n].fill(0.0),
                1 => c[k - n..].fill(0.0),
                _ => (0..n).for_each(|_| c[rng.below(k - 1)] = 0.0),
            }
            obs.count("configurations with zero coefficients", 1);
        }
        ops.push(Op::Coefs(c));
    }
    if rng.chance(0.5) {
        ops.push(Op::Interp(rng.chance(0.5)));
    }
    if rng.chance(0.4) {
        ops.push(Op::Silence(*rng.pick(&[0u32, 10, 50, 700])));
    }
    // in a random order, with any other values (overwritten later on) in between
    for i in (1..ops.len()).rev() {
        let j = rng.below(i + 1);
        ops.swap(i, j);
    }
    for _ in 0..rng.below(6) {
        let extra = match rng.below(6) {
            0 => Op::Frame(*rng.pick(&[0usize, 1, 2, 30, 1024, 65_536, usize::MAX])),
            1 => Op::Overlap(*rng.pick(&[0usize, 1, 2730, 4095, 4096, 70_000, usize::MAX])),
            2 => Op::Coefs(rng.pick(&[vec![], vec![3.0], vec![1.0; 20]]).clone()),
            3 => Op::Interp(rng.chance(0.5)),
            4 => Op::Silence(rng.u32() >> rng.below(32)),
            _ => Op::Id(rng.u32() as u8),
        };
        // only where a later one of its kind replaces it
        let kind = std::mem::discriminant(&extra);
        if let Some(last) = ops.iter().rposition(|o| std::mem::discriminant(o) == kind) {
            ops.insert(rng.below(last + 1), extra);
        }
    }
    for o in &ops {
        s = sut("builder", || match o.clone() {
            Op::Id(v) => s.with_id(v),
            Op::Coefs(v) => s.with_coefficients(v),
            Op::Interp(v) => s.with_interpolation(v),
            Op::Frame(v) => s.with_frame_size(v),
            Op::Overlap(v) => s.with_frame_overlap(v),
            Op::Silence(v) => s.with_removed_silence(v),
        })?;
        match o.clone() {
            Op::Id(v) => rid = v,
            Op::Coefs(v) => r.coefs = v,
            Op::Interp(v) => r.interpolate = v,
            Op::Frame(v) => r.frame = v,
            Op::Overlap(v) => r.overlap = v,
            Op::Silence(v) => r.silence = Some(v),
        }
        if rng.chance(0.3) {
            s = sut("clone", || s.clone())?;
        }
    }
    ensure!(
        s.id() == rid,
        "id is {} after {ops:?}, expected {rid}",
        s.id()
    );
    ensure!(
        s.delay() == r.delay(),
        "delay is {} after {ops:?}, expected {}",
        s.delay(),
        r.delay()
    );
    let want = r.hop() as f64 / 11025.0;
    ensure!(
        (f64::from(s.item_duration_in_seconds()) - want).abs() < want * 1e-6,
        "item duration is {} after {ops:?}",
        s.item_duration_in_seconds()
    );
    r.name = format!("{} {ops:?}", r.name);
    let n = frames_for(&r, 11025, rng.range(3, 40));
    let st = stream(rng, 11025, 1, n, RICH);
    let both = Both { r, s };
    // the configuration is only read: a printer made from it, or from a clone, does not change it
    conform(&both, &st, obs)?;
    let again = fingerprint(&both.s.clone(), 11025, 1, &st.data)?;
    let first = fingerprint(&both.s, 11025, 1, &st.data)?;
    ensure!(
        first == again,
        "{}: a clone of the configuration gives another fingerprint",
        both.r.name
    );
    let c = sut("compress", || {
        rusty_chromaprint::FingerprintCompressor::from(&both.s).compress(&first)
    })?;
    ensure!(
        c[0] == rid,
        "{}: compressed header names algorithm {}, expected {rid}",
        both.r.name,
        c[0]
    );
    obs.class(format!("preset {id}"));
    obs.count("builder calls", ops.len());
    obs.nontrivial(hash_u32s(&first) ^ hash_i16s(&st.data));
    obs.sample(|| both.r.name.clone());
    Ok(())
}

/// The same sound sampled at different rates: fingerprints stay close.
pub fn c33(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let both = preset([0u8, 1, 2, 4][idx % 4]);
    let secs = rng.frange(8.0, 20.0);
    // tones well inside the analysed band, defined in continuous time
    let mut notes = vec![];
    let mut t = 0.0;
    while t < secs {
        let d = rng.frange(0.15, 0.7);
        for _ in 0..rng.range(1, 4) {
            notes.push((
                t,
                t + d,
                440.0 * 2f64.powf(rng.irange(-24, 24) as f64 / 12.0),
                rng.f() * 6.28,
                rng.frange(0.3, 1.0),
            ));
        }
        t += d;
    }
    let amp = rng.frange(1500.0, 7000.0);
    let render = |rate: u32| -> Vec<i16> {
        let n = (secs * f64::from(rate)) as usize;
        let mut v = vec![0f64; n];
        for (a, b, f, p, g) in &notes {
            let lo = (a * f64::from(rate)).ceil() as usize;
            let hi = ((b * f64::from(rate)).ceil() as usize).min(n);
            for (i, x) in v.iter_mut().enumerate().take(hi).skip(lo) {
                let t = i as f64 / f64::from(rate);
                // short fades, so that no click spreads over the spectrum
                let fade = ((t - a) / 0.01).min((b - t) / 0.01).clamp(0.0, 1.0);
                *x += g * fade * (2.0 * std::f64::consts::PI * f * t + p).sin();
            }
        }
        v.iter()
            .map(|x| (x * amp).clamp(-32_767.0, 32_767.0) as i16)
            .collect()
    };
    let base = fingerprint(&both.s, 11025, 1, &render(11025))?;
    let rates = [
        8000u32, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 192_000,
    ];
    for k in 0..2 {
        let rate = if k == 0 {
            rates[(idx / 4) % rates.len()]
        } else {
            rng.range(8000, 192_000) as u32
        };
        let other = fingerprint(&both.s, rate, 1, &render(rate))?;
        ensure!(
            base.len().abs_diff(other.len()) <= 1,
            "{secs:.2} s make {} items at 11025 Hz but {} at {rate} Hz",
            base.len(),
            other.len()
        );
        let n = base.len().min(other.len());
        let bits: u32 = base
            .iter()
            .zip(&other)
            .map(|(a, b)| (a ^ b).count_ones())
            .sum();
        let mean = f64::from(bits) / n as f64;
        obs.max("mean differing bits per item", mean);
        obs.class(format!(
            "rate {}",
            if k == 0 {
                rate.to_string()
            } else {
                "random".into()
            }
        ));
        ensure!(
            mean < 3.0,
            "{}: {secs:.2} s of the same sound differ by {mean:.2} bits per item between 11025 Hz and {rate} Hz",
            both.r.name
        );
        obs.count("items compared across rates", n);
        obs.nontrivial(hash_u32s(&other) ^ u64::from(rate));
    }
    obs.sample(|| format!("{}: {secs:.2} s, {} notes", both.r.name, notes.len()));
    Ok(())
}

/// Feeds something that has to be refused with a panic.
fn refused_piece(p: &mut Fingerprinter, data: &[i16], what: &str) -> Res {
    let refused = sut("consume", || {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.consume(data))).is_err()
    })?;
    crate::engine::take_panic();
    ensure!(refused, "{what} was accepted");
    Ok(())
}

pub fn c34(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let (both, st) = config_and_stream(rng, 1_500_000, RICH);
    let (rate, channels) = (st.rate, st.channels);
    let ch = channels as usize;
    let mut p = sut("new", || Fingerprinter::new(&both.s))?;
    // before there is any stream
    let early = idx % 3 == 0 || channels == 1;
    if early {
        let n = rng.logrange(1, 100_000).min(st.data.len());
        if rng.chance(0.5) {
            let (r, c) = *rng.pick(&[(44100u32, 0u32), (1000, 2), (0, 0), (5, 1)]);
            let ok = sut("start", || p.start(r, c).is_ok())?;
            ensure!(!ok, "start({r}, {c}) was accepted");
        }
        for _ in 0..rng.range(1, 3) {
            refused_piece(
                &mut p,
                &st.data[..n],
                &format!("a piece of {n} samples before any stream was started"),
            )?;
        }
        let left = sut("fingerprint", || p.fingerprint().len())?;
        ensure!(left == 0, "{left} items without any stream");
        obs.count("pieces before a start refused", 1);
    }
    let want = fingerprint(&both.s, rate, channels, &st.data)?;
    let ok = sut("start", || p.start(rate, channels).is_ok())?;
    ensure!(ok, "start({rate}, {channels}) failed");
    let frames = st.frames();
    let mut at = 0;
    let steps = rng.range(1, 5);
    for k in 0..=steps {
        // a piece that ends inside a frame
        if ch > 1 && st.data.len() > at * ch {
            let rest = st.data.len() - at * ch;
            let mut n = match rng.below(4) {
                0 => rng.range(1, ch - 1),
                1 => rest,
                _ => rng.logrange(1, rest),
            };
            if n % ch == 0 {
                n -= rng.range(1, ch - 1);
            }
            let before = sut("fingerprint", || p.fingerprint().to_vec())?;
            refused_piece(
                &mut p,
                &st.data[at * ch..at * ch + n],
                &format!("a piece of {n} samples of {channels} channels"),
            )?;
            let after = sut("fingerprint", || p.fingerprint().to_vec())?;
            ensure!(
                before == after,
                "a refused piece changed the fingerprint from {} to {} items",
                before.len(),
                after.len()
            );
            obs.count("pieces of broken frames refused", 1);
            obs.max("samples of a refused piece", n as f64);
        }
        let to = if k == steps {
            frames
        } else {
            rng.range(at, frames)
        };
        sut("consume", || p.consume(&st.data[at * ch..to * ch]))?;
        at = to;
    }
    let got = sut("finish", || {
        p.finish();
        p.fingerprint().to_vec()
    })?;
    ensure!(
        got == want,
        "{}, {}: {} items after refused pieces, {} without, first difference at {:?}",
        both.r.name,
        st.describe(),
        got.len(),
        want.len(),
        got.iter().zip(&want).position(|(a, b)| a != b)
    );
    obs.count("streams continued", 1);
    if distinct(&got) > 1 {
        obs.nontrivial(hash_u32s(&got));
    }
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", rule: "random audio (16 signal families) at 11025 Hz through every preset and through random custom configurations, compared item by item with an independent reference implementation; non-trivial: at least two different items", quick: 9600, thorough: 480000, min_nontrivial: 2700, must_observe: &["items equal"], assumptions: &["the reference in refmodel.rs states the algorithm correctly", "a 2-bit field whose reference value is within 1e-7 of a threshold may fall on either side"], case: c01 },
    Prop { id: "C02", rule: "random audio at rates from 1001 Hz to 30 MHz, single and multiple internal batches, compared with the reference fingerprint of an exact-rational reference resampler; non-trivial: at least two different items", quick: 1200, thorough: 24000, min_nontrivial: 172, must_observe: &["items equal"], assumptions: &["refmodel::resample states the intended resampler", "the stream's last samples may or may not be extended by the kernel's support"], case: c02 },
    Prop { id: "C03", rule: "interleaved streams with 1 to 200000 channels (correlated, antiphase, independent, rounding-level and full-scale), random splits, compared with the mono stream of channel averages and partly with the reference; non-trivial: at least two different items", quick: 2400, thorough: 120000, min_nontrivial: 576, must_observe: &["items compared", "items compared with the reference"], assumptions: &["data is a whole number of frames"], case: c03 },
    Prop { id: "C04", rule: "random configuration and stream, three random splits into pieces (single frames, empty pieces, pieces around 32768, frame-size multiples, ...) against one piece; non-trivial: at least two pieces and two different items", quick: 1500, thorough: 75000, min_nontrivial: 900, must_observe: &["items", "pieces"], assumptions: &["every piece is a whole number of frames"], case: c04 },
    Prop { id: "C05", rule: "2-9 consecutive streams of different rate, layout and length on one fingerprinter, some abandoned half-way, some starts refused first, each compared with a fresh fingerprinter; non-trivial: a session after the first that has items", quick: 2080, thorough: 104000, min_nontrivial: 864, must_observe: &["reused sessions with items", "abandoned sessions"], assumptions: &[], case: c05 },
    Prop { id: "C06", rule: "the fingerprint is read after every (or every n-th) piece of a random split and after each of three finishes; non-trivial: at least two different items", quick: 3000, thorough: 150000, min_nontrivial: 900, must_observe: &["observed growth steps", "fingerprint reads"], assumptions: &[], case: c06 },
    Prop { id: "C07", rule: "item counts for lengths at and around every boundary at 11025 Hz (exact), at other rates (to within the resampler's edge), and while streaming (at most 32768 frames held back); delay() and item duration against the formula; non-trivial: a distinct (configuration, length)", quick: 2400, thorough: 120000, min_nontrivial: 2880, must_observe: &["native counts checked", "progress checks", "resampled counts checked"], assumptions: &["at other rates the end of the stream may or may not be extended by the kernel's support"], case: c07 },
    Prop { id: "C08", rule: "start() with rates and channel counts from all of u32, on fresh fingerprinters and in the middle of a calculation that is continued after a refusal; non-trivial: a distinct (rate, channels)", quick: 7200, thorough: 360000, min_nontrivial: 4320, must_observe: &["running calculations continued after a refusal"], assumptions: &[], case: c08 },
    Prop { id: "C12", rule: "live and peak heap bytes (counting allocator) while millions of frames are consumed in three sessions on one fingerprinter, then dropped; non-trivial: a distinct configuration and block size", quick: 144, thorough: 7200, min_nontrivial: 108, must_observe: &["memory samples", "items"], assumptions: &["a fixed working set plus 12 to 16 bytes per item (vector doubling) is what bounded means"], case: c12 },
    Prop { id: "C13", rule: "streams of up to 140 million samples (hours; more than 2 million items); items at fixed and random positions, and every single item of the longest streams, compared with a fresh fingerprint of just their surroundings; non-trivial: a distinct excerpt", quick: 384, thorough: 19200, min_nontrivial: 810, must_observe: &["items compared with an excerpt", "items of whole streams compared"], assumptions: &["a 2-bit field whose reference value is within 1e-7 of a threshold may fall on either side"], case: c13 },
    Prop { id: "C14", rule: "streams and their inverted copies (exact equality), and streams and their copies scaled by 2..31 without clipping; non-trivial: at least two different items", quick: 4800, thorough: 240000, min_nontrivial: 1440, must_observe: &["items compared across volumes", "inverted streams compared"], assumptions: &["a 2-bit field whose reference value is within 1e-7 of a threshold may fall on either side", "items next to silence (feature norm below 0.02) are excluded from the volume comparison"], case: c14 },
    Prop { id: "C16", rule: "silence-removing configurations (preset_test4 and thresholds from 0 to u32::MAX) on streams with quiet starts below, at, around and above the threshold, compared with the reference and with padded copies; non-trivial: silence was removed and items remain", quick: 6000, thorough: 300000, min_nontrivial: 810, must_observe: &["streams with removed silence", "padded streams compared"], assumptions: &["levels that sit on a rounding boundary are skipped"], case: c16 },
    Prop { id: "C17", rule: "digital silence and cancelling channels at any rate and layout, near-silent signals against the reference, and audio after a silent gap (also of hours) against the same audio alone; non-trivial: at least one silent item", quick: 3600, thorough: 180000, min_nontrivial: 1620, must_observe: &["silent items", "items compared after a gap"], assumptions: &[], case: c17 },
    Prop { id: "C32", rule: "random sequences of builder calls on every preset and the default, in random order, with repeated settings and clones; accessors and fingerprint against the reference configuration; non-trivial: a distinct fingerprint", quick: 20000, thorough: 1000000, min_nontrivial: 10800, must_observe: &["builder calls"], assumptions: &[], case: c32 },
    Prop { id: "C34", rule: "pieces that end inside a frame, of one sample to everything, at random points of random streams, and pieces before any stream; the stream then goes on and is compared with one without them; non-trivial: a distinct fingerprint with at least two different items", quick: 900, thorough: 40_000, min_nontrivial: 300, must_observe: &["pieces before a start refused", "pieces of broken frames refused", "streams continued"], assumptions: &[], case: c34 },
    Prop { id: "C33", rule: "random chords rendered in continuous time and sampled at 8 kHz to 192 kHz, compared with the 11025 Hz rendering; non-trivial: a distinct fingerprint", quick: 480, thorough: 24000, min_nontrivial: 360, must_observe: &["items compared across rates"], assumptions: &["fewer than 3 of 32 bits per item on average counts as close"], case: c33 },
];
