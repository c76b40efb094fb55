//! Compression, matching and their combination with fingerprinting.
use crate::common::*;
use crate::engine::{sut, violation, Obs, Prop, Res, Tier};
use crate::rng::{hash_u32s, Rng};
use crate::{ensure, refcodec, refmatch, refmodel, signal};
use rusty_chromaprint::{match_fingerprints, Configuration, FingerprintCompressor, MatchError};

// ---------------------------------------------------------------------------------------------
// Fingerprint generators

/// Any sequence of 32-bit items.
fn any_items(rng: &mut Rng, n: usize) -> (Vec<u32>, &'static str) {
    let mode = *rng.pick(&[
        "uniform",
        "sparse",
        "dense",
        "constant",
        "walk",
        "one bit",
        "gaps",
        "extremes",
        "gray walk",
        "repeats",
    ]);
    let mut cur = rng.u32();
    let v = (0..n)
        .map(|i| match mode {
            "uniform" => rng.u32(),
            "sparse" => (0..rng.below(4)).fold(0, |a, _| a | 1 << rng.below(32)),
            "dense" => !(0..rng.below(4)).fold(0, |a, _| a | 1 << rng.below(32)),
            "constant" => cur,
            "walk" => {
                for _ in 0..rng.below(5) {
                    cur ^= 1 << rng.below(32);
                }
                cur
            }
            // successive differences are a single bit anywhere
            "one bit" => {
                cur ^= 1 << (i * 7 % 32);
                cur
            }
            // differences with every possible distance between set bits
            "gaps" => {
                let a = rng.below(32);
                let b = rng.below(32);
                cur ^= 1 << a | 1 << b;
                cur
            }
            "extremes" => *rng.pick(&[
                0u32,
                u32::MAX,
                1,
                1 << 31,
                0x8000_0001,
                0x5555_5555,
                0xAAAA_AAAA,
            ]),
            "gray walk" => {
                if rng.chance(0.6) {
                    let k = 2 * rng.below(16);
                    cur ^= 1 << (k + rng.below(2));
                }
                cur
            }
            _ => {
                if rng.chance(0.1) {
                    cur = rng.u32();
                }
                cur
            }
        })
        .collect();
    (v, mode)
}

fn any_len(rng: &mut Rng, tier: Tier) -> usize {
    match rng.below(12) {
        0 => rng.below(4),
        1 => rng.range(4, 20),
        2 => *rng.pick(&[255usize, 256, 257, 65535, 65536, 65537, 65280, 511, 512]),
        3 if thorough(tier) => rng.logrange(65_000, 2_000_000),
        3 => rng.logrange(20_000, 150_000),
        _ => rng.logrange(1, 5000),
    }
}

fn codec_case(
    rng: &mut Rng,
    idx: usize,
    tier: Tier,
) -> (Configuration, u8, Vec<u32>, &'static str) {
    let (fp, mode) = if idx == 0 {
        // more than 16 bits and close to 24 bits of items
        let n = if thorough(tier) {
            (1 << 24) - 1
        } else {
            (1 << 20) + 12_345
        };
        (
            (0..n as u32)
                .map(|i| i.wrapping_mul(0x9E37_79B9) & 0x8421_0081)
                .collect(),
            "counter",
        )
    } else if idx == 1 {
        (
            vec![
                0x1234_5678;
                if thorough(tier) {
                    (1 << 24) - 1
                } else {
                    1 << 22
                }
            ],
            "constant",
        )
    } else if idx == 2 {
        (vec![], "empty")
    } else if idx == 66 {
        // more than 2^23 items, few of which differ from the one before
        let n = *rng.pick(&[
            (1 << 23) + 1,
            10_000_000,
            12_582_912,
            16_700_000,
            (1 << 24) - 1,
        ]);
        let mut fp = vec![0u32; n];
        let mut cur = 0;
        let mut next = 0;
        for (i, x) in fp.iter_mut().enumerate() {
            if i == next {
                cur = rng.u32();
                next += rng.range(1, 60_000);
            }
            *x = cur;
        }
        (fp, "sparse, more than 2^23")
    } else if idx < 66 {
        // single bits and single gaps, systematically
        let k = (idx - 3) as u32;
        let v = if k < 32 {
            vec![1u32 << k]
        } else {
            (0..32u32).map(|j| 1 << j | 1 << (k - 32).min(31)).collect()
        };
        (v, "systematic")
    } else {
        let n = any_len(rng, tier);
        any_items(rng, n)
    };
    let id = if rng.chance(0.5) {
        rng.below(5) as u8
    } else {
        rng.u32() as u8
    };
    let cfg = if rng.chance(0.3) {
        refmodel::sut_preset(id % 5)
    } else {
        refmodel::sut_preset(rng.below(5) as u8).with_id(id)
    };
    let id = cfg.id();
    (cfg, id, fp, mode)
}

fn show(fp: &[u32]) -> String {
    let s: Vec<String> = fp.iter().take(6).map(|x| format!("{x:08x}")).collect();
    format!(
        "{} items [{}{}]",
        fp.len(),
        s.join(" "),
        if fp.len() > 6 { " .." } else { "" }
    )
}

pub fn c18(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let (cfg, id, fp, mode) = codec_case(rng, idx, tier);
    let c = sut("compress", || {
        FingerprintCompressor::from(&cfg).compress(&fp)
    })?;
    let d = match refcodec::decode(&c) {
        Ok(d) => d,
        Err(m) => {
            return violation(format!(
                "{mode}, {}: the compressed form does not decode: {m}",
                show(&fp)
            ))
        }
    };
    ensure!(
        d.id == id,
        "{}: algorithm {} instead of {id}",
        show(&fp),
        d.id
    );
    ensure!(
        d.items == fp,
        "{mode}, {}: decodes to something else: {}",
        show(&fp),
        first_diff(&fp, &d.items)
    );
    // a different fingerprint has a different compressed form; the result depends on nothing else
    let mut other = fp.clone();
    if other.is_empty() || rng.chance(0.2) {
        other.push(rng.u32());
    } else {
        let k = rng.below(other.len());
        other[k] ^= 1 << rng.below(32);
    }
    let compressor = FingerprintCompressor::from(&cfg);
    let (c2, c3) = sut("compress", || {
        (compressor.compress(&other), compressor.compress(&fp))
    })?;
    ensure!(
        c2 != c,
        "two different fingerprints have the same compressed form: {}",
        show(&fp)
    );
    ensure!(
        c3 == c,
        "compressing the same fingerprint twice gives different bytes: {}",
        show(&fp)
    );
    obs.count("items", fp.len());
    obs.count("exceptional values", d.exceptions);
    obs.class(mode);
    obs.max("items in one fingerprint", fp.len() as f64);
    obs.nontrivial(hash_u32s(&fp));
    obs.sample(|| format!("{mode}, id {id}: {} -> {} bytes", show(&fp), c.len()));
    Ok(())
}

pub fn c19(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let (cfg, id, fp, mode) = codec_case(rng, idx, tier);
    let c = sut("compress", || {
        FingerprintCompressor::from(&cfg).compress(&fp)
    })?;
    let want = refcodec::encode(id, &fp);
    if c != want {
        let at = c.iter().zip(&want).position(|(a, b)| a != b);
        return violation(format!(
            "{mode}, id {id}, {}: {} bytes instead of {}, first difference at {at:?}: {:02x?} instead of {:02x?}",
            show(&fp),
            c.len(),
            want.len(),
            at.map(|i| &c[i..(i + 8).min(c.len())]),
            at.map(|i| &want[i..(i + 8).min(want.len())])
        ));
    }
    obs.count("bytes compared", c.len());
    obs.class(mode);
    obs.max("items in one fingerprint", fp.len() as f64);
    obs.nontrivial(hash_u32s(&fp) ^ u64::from(id));
    obs.sample(|| {
        format!(
            "{mode}, id {id}: {} -> {:02x?}..",
            show(&fp),
            &c[..c.len().min(10)]
        )
    });
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Matching

/// Copies `src` with every bit flipped with probability p. `keep`: never touch the upper 12 bits.
fn noisy(rng: &mut Rng, src: &[u32], p: f64, keep: bool) -> Vec<u32> {
    src.iter()
        .map(|x| {
            let mut y = *x;
            for b in 0..if keep { 20 } else { 32 } {
                if p > 0.0 && rng.chance(p) {
                    y ^= 1 << b;
                }
            }
            y
        })
        .collect()
}

/// A fingerprint that changes slowly, like real ones.
fn music(rng: &mut Rng, n: usize) -> Vec<u32> {
    let mut cur = rng.u32();
    (0..n)
        .map(|_| {
            let k = if rng.chance(0.1) { 12 } else { rng.below(4) };
            for _ in 0..k {
                cur ^= 1 << rng.below(32);
            }
            cur
        })
        .collect()
}

fn base_items(rng: &mut Rng, n: usize) -> Vec<u32> {
    let mut v = match rng.below(4) {
        0 => (0..n).map(|_| rng.u32()).collect(),
        1 => any_items(rng, n).0,
        _ => music(rng, n),
    };
    if n > 0 && rng.chance(0.15) {
        // silence, or another item with a meaning of its own, here and there or as a long pause
        let x = *rng.pick(&[627_964_279u32, 627_964_279, 627_964_279, 0, u32::MAX, 1]);
        if rng.chance(0.5) {
            for _ in 0..rng.range(1, 3) {
                let lo = rng.below(n);
                let hi = (lo + rng.logrange(1, 150)).min(n);
                v[lo..hi].fill(x);
            }
        } else {
            for _ in 0..rng.range(1, 1 + n / 8) {
                let k = rng.below(n);
                v[k] = x;
            }
        }
    }
    v
}

fn uniform_items(rng: &mut Rng, n: usize) -> Vec<u32> {
    (0..n).map(|_| rng.u32()).collect()
}

/// Long fingerprints: hours of audio, with what they have in common far into one or both of them.
fn long_pair(rng: &mut Rng) -> (Vec<u32>, Vec<u32>, String) {
    let huge = rng.chance(0.02);
    // (with much in common, voting takes its time)
    let vast = huge && rng.chance(0.5);
    let n = if vast {
        rng.range(60_000, 250_000)
    } else if huge {
        rng.range(40_000, 524_285)
    } else {
        rng.logrange(2500, 40_000)
    };
    let a = uniform_items(rng, n);
    let (b, mode) = match rng.below(4) {
        3 if !huge || vast => {
            // long stretches of nearly the same quality, with short marks between them
            let mut b = vec![];
            let p = rng.frange(0.0, 0.2);
            while b.len() < n {
                let k = rng.logrange(200, n / 2).min(n - b.len());
                let at = b.len();
                let q = (p + rng.frange(-0.03, 0.03)).max(0.0);
                b.extend(noisy(rng, &a[at..at + k], q, true));
                let k = rng.range(4, 40).min(n - b.len());
                let at = b.len();
                let q = rng.frange(0.2, 0.5);
                b.extend(noisy(rng, &a[at..at + k], q, true));
            }
            (b, "long stretches")
        }
        0 if !huge || vast => {
            // the noise level changes all along
            let mut b = uniform_items(rng, rng.clone().below(3000));
            let skip = rng.below(2000);
            let top = rng.frange(0.1, 0.5);
            let mut at = skip;
            while at < n {
                let k = rng.range(12, 200).min(n - at);
                let p = rng.frange(0.0, top);
                b.extend(noisy(rng, &a[at..at + k], p, true));
                at += k;
            }
            (b, "long, varying noise")
        }
        1 if !huge || vast => {
            // one stretch in common, anywhere
            let m = rng.logrange(60, if vast { n } else { 30_000 }).min(n);
            let k = rng.logrange(40, m);
            let mut b = uniform_items(rng, m);
            let s1 = *rng.pick(&[0, n - k, rng.clone().below(n - k + 1)]);
            let s2 = *rng.pick(&[0, m - k, rng.clone().below(m - k + 1)]);
            let c = noisy(
                rng,
                &a[s1..s1 + k],
                *rng.clone().pick(&[0.0, 0.01, 0.03]),
                false,
            );
            b[s2..s2 + k].copy_from_slice(&c);
            (b, "long, one stretch")
        }
        _ => {
            // only a few items in common, often at the very ends
            let m = rng.range(3, 80);
            let k = rng.range(3, m.min(20));
            let mut b = uniform_items(rng, m);
            let s1 = *rng.pick(&[0, n - k, n - k, rng.clone().below(n - k + 1)]);
            let s2 = *rng.pick(&[0, m - k, rng.clone().below(m - k + 1)]);
            b[s2..s2 + k].copy_from_slice(&a[s1..s1 + k]);
            (b, "long, a few items")
        }
    };
    if rng.chance(0.5) {
        (a, b, mode.to_string())
    } else {
        (b, a, format!("{mode}, swapped"))
    }
}

/// Two fingerprints with related stretches.
fn pair(rng: &mut Rng, max: usize) -> (Vec<u32>, Vec<u32>, String) {
    if rng.chance(0.008) {
        return long_pair(rng);
    }
    let n1 = rng.logrange(1, max);
    let n2 = rng.logrange(1, max);
    let mode = *rng.pick(&[
        "unrelated",
        "excerpt",
        "edited",
        "noisy copy",
        "varying noise",
        "self",
        "low entropy",
        "tiny",
        "periodic",
        "jumps",
        "reversed roles",
    ]);
    let (a, b) = match mode {
        "unrelated" => (base_items(rng, n1), base_items(rng, n2)),
        "self" => {
            let a = base_items(rng, n1);
            (a.clone(), a)
        }
        "excerpt" | "reversed roles" => {
            let a = base_items(rng, n1);
            let lo = rng.below(n1);
            let hi = rng.range(lo, n1);
            let p = rng.frange(0.0, 0.2);
            let keep = rng.chance(0.5);
            let pre = rng.below(n2 + 1);
            let mut b = base_items(rng, pre);
            b.extend(noisy(rng, &a[lo..hi], p, keep));
            let post = rng.below(n2 + 1);
            b.extend(base_items(rng, post));
            if mode == "excerpt" {
                (a, b)
            } else {
                (b, a)
            }
        }
        "edited" => {
            // stretches of the same timeline replaced by something else
            let a = base_items(rng, n1);
            let mut b = a.clone();
            for _ in 0..rng.range(1, 6) {
                let lo = rng.below(n1);
                let hi = (lo + rng.logrange(1, 120)).min(n1);
                let r = base_items(rng, hi - lo);
                b[lo..hi].copy_from_slice(&r);
            }
            (a, b)
        }
        "noisy copy" => {
            let a = base_items(rng, n1);
            let p = rng.frange(0.0, 0.45);
            let keep = rng.chance(0.6);
            let b = noisy(rng, &a, p, keep);
            (a, b)
        }
        "varying noise" | "jumps" => {
            // the noise level changes in steps: boundaries and merges
            let a = base_items(rng, n1);
            let mut b = vec![];
            while b.len() < n1 {
                let k = rng.logrange(3, 150).min(n1 - b.len());
                let p = if mode == "jumps" {
                    *rng.pick(&[0.0, 0.02, 0.3, 0.5])
                } else {
                    rng.frange(0.0, 0.5)
                };
                let part = noisy(rng, &a[b.len()..b.len() + k], p, true);
                b.extend(part);
            }
            (a, b)
        }
        "low entropy" => {
            let k = rng.range(1, 6);
            let alphabet: Vec<u32> = (0..k).map(|_| rng.u32()).collect();
            let (n1, n2) = (n1.min(600), n2.min(600));
            (
                (0..n1).map(|_| *rng.pick(&alphabet)).collect(),
                (0..n2).map(|_| *rng.pick(&alphabet)).collect(),
            )
        }
        "tiny" => {
            let x = rng.u32();
            let (k1, k2) = (rng.below(6), rng.below(6));
            (
                (0..k1)
                    .map(|_| {
                        if rng.chance(0.7) {
                            x ^ (1 << rng.below(20))
                        } else {
                            rng.u32()
                        }
                    })
                    .collect(),
                (0..k2)
                    .map(|_| if rng.chance(0.7) { x } else { rng.u32() })
                    .collect(),
            )
        }
        _ => {
            let k = rng.range(1, 50);
            let unit = base_items(rng, k);
            let (n1, n2) = (n1.min(1500), n2.min(1500));
            let sh = rng.below(k);
            (
                (0..n1).map(|i| unit[i % k]).collect(),
                (0..n2).map(|i| unit[(i + sh) % k]).collect(),
            )
        }
    };
    (a, b, mode.to_string())
}

pub struct Seg {
    pub o1: usize,
    pub o2: usize,
    pub n: usize,
    pub score: f64,
}

fn run_match(a: &[u32], b: &[u32], cfg: &Configuration) -> Res<Result<Vec<Seg>, u8>> {
    sut("match_fingerprints", || {
        match match_fingerprints(a, b, cfg) {
            Ok(v) => Ok(v
                .iter()
                .map(|s| Seg {
                    o1: s.offset1,
                    o2: s.offset2,
                    n: s.items_count,
                    score: s.score,
                })
                .collect()),
            Err(MatchError::FingerprintTooLong { index }) => Err(index),
        }
    })
}

fn matched(a: &[u32], b: &[u32], cfg: &Configuration) -> Res<Vec<Seg>> {
    match run_match(a, b, cfg)? {
        Ok(v) => Ok(v),
        Err(i) => violation(format!(
            "fingerprints of {} and {} items were refused (index {i})",
            a.len(),
            b.len()
        )),
    }
}

fn show_segs(s: &[Seg]) -> String {
    s.iter()
        .map(|s| format!("({}, {}, {}, {:.3})", s.o1, s.o2, s.n, s.score))
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn c20(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let (a, b, mode) = pair(rng, if thorough(tier) { 6000 } else { 2000 });
    let cfg = refmodel::sut_preset((idx % 5) as u8);
    let segs = matched(&a, &b, &cfg)?;
    let ctx = || {
        format!(
            "{mode}, {} x {} items: {}",
            a.len(),
            b.len(),
            show_segs(&segs)
        )
    };
    let mut end1 = 0;
    let mut end2 = 0;
    for s in &segs {
        ensure!(s.n >= 1, "empty segment; {}", ctx());
        ensure!(
            s.o1.checked_add(s.n).is_some_and(|e| e <= a.len()),
            "segment leaves the first fingerprint; {}",
            ctx()
        );
        ensure!(
            s.o2.checked_add(s.n).is_some_and(|e| e <= b.len()),
            "segment leaves the second fingerprint; {}",
            ctx()
        );
        ensure!(
            s.o1 as isize - s.o2 as isize == segs[0].o1 as isize - segs[0].o2 as isize,
            "segments follow different alignments; {}",
            ctx()
        );
        ensure!(
            s.o1 >= end1 && s.o2 >= end2,
            "segments overlap or are out of order; {}",
            ctx()
        );
        end1 = s.o1 + s.n;
        end2 = s.o2 + s.n;
        let bits: u64 = (0..s.n)
            .map(|k| u64::from((a[s.o1 + k] ^ b[s.o2 + k]).count_ones()))
            .sum();
        let mean = bits as f64 / s.n as f64;
        ensure!(
            s.score.is_finite() && (s.score - mean).abs() < 1e-6,
            "score {} but the items differ by {mean} bits on average; {}",
            s.score,
            ctx()
        );
        ensure!(
            mean < 10.0,
            "a segment differs by {mean} bits per item on average; {}",
            ctx()
        );
        obs.count("segments checked", 1);
    }
    // the same call again, and with another configuration, gives the same answer
    let again = matched(&a, &b, &refmodel::sut_preset(((idx + 1) % 5) as u8))?;
    ensure!(
        show_segs(&segs) == show_segs(&again),
        "the segments depend on something else than the items: {} vs {}",
        show_segs(&segs),
        show_segs(&again)
    );
    obs.class(mode.clone());
    obs.max("segments in one result", segs.len() as f64);
    if segs.len() > 1 {
        obs.count("results with several segments", 1);
    }
    if !segs.is_empty() {
        obs.nontrivial(hash_u32s(&a) ^ hash_u32s(&b).rotate_left(7));
    }
    obs.sample(ctx);
    Ok(())
}

pub fn c21(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let (a, b, mode) = if idx % 15_000 == 40 {
        // competing alignments with many thousands of pairs each, in fingerprints of many hours
        let n = rng.range(20_000, 524_285);
        let a = uniform_items(rng, n);
        let k1 = rng.range(2500, n.min(100_000) / 3);
        let k2 = (k1 as f64 * rng.frange(0.3, 1.9)) as usize;
        let k2 = k2.min(n / 3);
        let (s1, s2) = (rng.below(n - k1), rng.below(n - k2));
        let (lead, gap) = (rng.below(3000), rng.below(100));
        let mut b = uniform_items(rng, lead);
        b.extend(&a[s1..s1 + k1]);
        b.extend(uniform_items(rng, gap));
        b.extend(&a[s2..s2 + k2]);
        if rng.chance(0.5) {
            (a, b, "two long copies".to_string())
        } else {
            (b, a, "two long copies, swapped".to_string())
        }
    } else if idx % 2 == 0 {
        // competing alignments: two shifted copies of different strength
        let n = rng.range(200, if thorough(tier) { 3000 } else { 1200 });
        let a: Vec<u32> = (0..n).map(|_| rng.u32()).collect();
        let k1 = rng.range(5, n / 3);
        let k2 = (k1 as f64 * rng.frange(0.3, 1.2)) as usize + 1;
        let k2 = k2.min(n / 3);
        let m = k1 + k2 + rng.below(100);
        let mut b: Vec<u32> = (0..m).map(|_| rng.u32()).collect();
        let (s1, s2) = (rng.below(n - k1), rng.below(n - k2));
        let (p1, p2) = (rng.frange(0.0, 0.2), rng.frange(0.0, 0.2));
        let keep = rng.chance(0.7);
        let c1 = noisy(rng, &a[s1..s1 + k1], p1, keep);
        let c2 = noisy(rng, &a[s2..s2 + k2], p2, keep);
        b[..k1].copy_from_slice(&c1);
        b[k1..k1 + k2].copy_from_slice(&c2);
        if rng.chance(0.5) {
            (a, b, "two copies".to_string())
        } else {
            (b, a, "two copies, swapped".to_string())
        }
    } else {
        pair(rng, if thorough(tier) { 5000 } else { 1500 })
    };
    let cfg = Configuration::default();
    let segs = matched(&a, &b, &cfg)?;
    let (votes, best) = refmatch::best_alignments(&a, &b);
    if best.is_empty() {
        ensure!(
            segs.is_empty(),
            "{mode}: no alignment has two common prefixes, but there are segments {}",
            show_segs(&segs)
        );
        obs.count("pairs without any alignment", 1);
    }
    if let Some(s) = segs.first() {
        let d = s.o1 as isize - s.o2 as isize;
        if !best.contains(&d) {
            let v = refmatch::votes(&a, &b).get(&d).copied().unwrap_or(0);
            return violation(format!(
                "{mode}, {} x {} items: segments follow alignment {d} with {v} common prefixes, but {:?} has {votes}",
                a.len(),
                b.len(),
                &best[..best.len().min(4)]
            ));
        }
        obs.count("alignments checked", 1);
        obs.nontrivial(hash_u32s(&a) ^ hash_u32s(&b).rotate_left(7));
    } else if best.len() == 1 {
        // nothing reported: then nothing on the best alignment may be similar throughout
        let (o1, o2, n) = refmatch::overlap(a.len(), b.len(), best[0]);
        let bits: Vec<u32> = (0..n)
            .map(|k| (a[o1 + k] ^ b[o2 + k]).count_ones())
            .collect();
        ensure!(
            n == 0 || bits.iter().any(|x| *x >= 10),
            "{mode}: alignment {} is similar throughout, but no segment is reported",
            best[0]
        );
        obs.count("empty results checked", 1);
    }
    obs.class(mode.clone());
    obs.max("votes of the best alignment", f64::from(votes));
    obs.sample(|| {
        format!(
            "{mode}, {} x {} items, best {:?} with {votes} votes, segments {}",
            a.len(),
            b.len(),
            best.first(),
            show_segs(&segs)
        )
    });
    Ok(())
}

pub fn c22(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let cfg = refmodel::sut_preset((idx % 5) as u8);
    let cover = |segs: &[Seg], lo: usize, hi: usize| -> usize {
        segs.iter()
            .map(|s| (s.o1 + s.n).min(hi).saturating_sub(s.o1.max(lo)))
            .sum()
    };
    if idx % 3 == 0 {
        // a fingerprint matches itself completely
        let n = match rng.below(6) {
            0 => rng.range(2, 40),
            1 if idx < 30 => *rng.pick(&[65536usize, 131_072, 300_000, 524_285]),
            2 if idx < 200 => rng.logrange(60_000, 524_285),
            _ => rng.logrange(2, 20_000),
        };
        let mut a = if n > 20_000 {
            (0..n).map(|_| rng.u32()).collect()
        } else {
            base_items(rng, n)
        };
        // a constant or periodic one has many equally good alignments; keep it unambiguous
        let uniq = n.min(64);
        let mut cur = rng.u32();
        for (i, x) in a.iter_mut().enumerate() {
            if i % (n / uniq).max(1) == 0 {
                cur = cur
                    .wrapping_mul(0x9E37_79B1)
                    .wrapping_add(0x1234_5677 + i as u32);
                *x = cur;
            }
        }
        if n <= 20_000 {
            let (_, best) = refmatch::best_alignments(&a, &a);
            if best != [0] {
                obs.count("ambiguous self matches skipped", 1);
                return Ok(());
            }
        }
        let segs = matched(&a, &a, &cfg)?;
        ensure!(
            segs.len() == 1
                && segs[0].o1 == 0
                && segs[0].o2 == 0
                && segs[0].n == n
                && segs[0].score == 0.0,
            "a {n}-item fingerprint compared with itself gives {}",
            show_segs(&segs)
        );
        obs.count("self matches", 1);
        obs.max("items in one fingerprint", n as f64);
        obs.nontrivial(hash_u32s(&a));
        obs.sample(|| format!("self, {n} items"));
    } else {
        // a shared stretch, the rest unrelated
        let big = rng.chance(0.05);
        let n1 = if big {
            rng.range(50_000, 400_000)
        } else {
            rng.range(60, if thorough(tier) { 8000 } else { 3000 })
        };
        let n2 = if rng.chance(0.3) {
            rng.range(60, 300)
        } else if big {
            rng.range(60, 250_000)
        } else {
            rng.range(60, 3000)
        };
        let k = rng.range(50, n1.min(n2));
        let (s1, s2) = (
            *rng.pick(&[0, n1 - k, (n1 - k) / 2, rng.clone().below(n1 - k + 1)]),
            *rng.pick(&[0, n2 - k, (n2 - k) / 2, rng.clone().below(n2 - k + 1)]),
        );
        let mut a: Vec<u32> = (0..n1).map(|_| rng.u32()).collect();
        let b: Vec<u32> = (0..n2).map(|_| rng.u32()).collect();
        let p = *rng.pick(&[0.0, 0.0, 0.01, 0.03, 0.06]);
        let copy = noisy(rng, &b[s2..s2 + k], p, false);
        a[s1..s1 + k].copy_from_slice(&copy);
        // unrelated items can agree by accident; demand a clear vote for the planted alignment
        let planted = s1 as isize - s2 as isize;
        if !big {
            let (_, best) = refmatch::best_alignments(&a, &b);
            if best != [planted] {
                obs.count("planted stretches without a clear vote skipped", 1);
                return Ok(());
            }
        } else if (k as f64) * (1.0 - p).powi(12)
            < 100.0 + (n1 as f64 * n2 as f64 / 4096.0 / (n1 + n2) as f64) * 4.0
        {
            return Ok(());
        }
        let segs = matched(&a, &b, &cfg)?;
        let got = cover(&segs, s1, s1 + k);
        ensure!(
            segs.iter().all(|s| s.o1 as isize - s.o2 as isize == planted) && got + 12 >= k,
            "{n1} x {n2} items share {k} items at {s1}/{s2} (bit noise {p}), but only {got} are covered by {}",
            show_segs(&segs)
        );
        // and little beyond them
        let total: usize = segs.iter().map(|s| s.n).sum();
        ensure!(
            total <= got + 24 || segs.iter().all(|s| s.score < 10.0) && total <= k + k / 2 + 24,
            "{n1} x {n2} items share {k} items at {s1}/{s2}, but {total} are reported: {}",
            show_segs(&segs)
        );
        obs.count("planted stretches found", 1);
        obs.max("items in one fingerprint", n1.max(n2) as f64);
        obs.nontrivial(hash_u32s(&a) ^ k as u64);
        obs.sample(|| {
            format!(
                "{n1} x {n2} items share {k} at {s1}/{s2}, noise {p}: {}",
                show_segs(&segs)
            )
        });
    }
    Ok(())
}

pub fn c23(rng: &mut Rng, _idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let (a, b, mode) = pair(rng, if thorough(tier) { 5000 } else { 1500 });
    let cfg = Configuration::default();
    let segs = matched(&a, &b, &cfg)?;
    let got: Vec<refmatch::RefSegment> = segs
        .iter()
        .map(|s| refmatch::RefSegment {
            offset1: s.o1,
            offset2: s.o2,
            len: s.n,
            score: s.score,
        })
        .collect();
    let (_, best) = refmatch::best_alignments(&a, &b);
    if best.is_empty() {
        ensure!(
            segs.is_empty(),
            "{mode}: segments without any alignment: {}",
            show_segs(&segs)
        );
        return Ok(());
    }
    let mut allowed = vec![];
    let mut open = false;
    for d in best.iter().take(400) {
        if let Some(s) = segs.first() {
            if s.o1 as isize - s.o2 as isize != *d {
                continue;
            }
        }
        match refmatch::segmentations(&a, &b, *d) {
            refmatch::Outcome::TooMany => open = true,
            refmatch::Outcome::All(v) => {
                if v.iter().any(|v| refmatch::same(v, &got)) {
                    obs.count("results equal to the reference", 1);
                    obs.count("segments", got.len());
                    obs.max("segments in one result", got.len() as f64);
                    if v.len() > 1 {
                        obs.count("results with ties", 1);
                    }
                    obs.class(mode.clone());
                    if got.len() > 1 {
                        obs.count("results with several segments", 1);
                    }
                    if !got.is_empty() {
                        obs.nontrivial(hash_u32s(&a) ^ hash_u32s(&b).rotate_left(7));
                    }
                    obs.sample(|| {
                        format!(
                            "{mode}, {} x {} items: {}",
                            a.len(),
                            b.len(),
                            show_segs(&segs)
                        )
                    });
                    return Ok(());
                }
                allowed.extend(v);
            }
        }
    }
    if open || best.len() > 400 {
        obs.count("undecided (too many ties)", 1);
        return Ok(());
    }
    violation(format!(
        "{mode}, {} x {} items: segments {} are none of the {} the rules allow, e.g. {}",
        a.len(),
        b.len(),
        show_segs(&segs),
        allowed.len(),
        allowed
            .first()
            .map(|v| v
                .iter()
                .map(|s| format!("({}, {}, {}, {:.3})", s.offset1, s.offset2, s.len, s.score))
                .collect::<Vec<_>>()
                .join(" "))
            .unwrap_or_default()
    ))
}

pub fn c24(rng: &mut Rng, _idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let (a, b, mode) = pair(rng, if thorough(tier) { 5000 } else { 1500 });
    let (_, best) = refmatch::best_alignments(&a, &b);
    if best.len() > 1 {
        obs.count("pairs with several best alignments skipped", 1);
        return Ok(());
    }
    let cfg = Configuration::default();
    let x = matched(&a, &b, &cfg)?;
    let y = matched(&b, &a, &cfg)?;
    let ok = x.len() == y.len()
        && x.iter().zip(&y).all(|(s, t)| {
            s.o1 == t.o2 && s.o2 == t.o1 && s.n == t.n && (s.score - t.score).abs() < 1e-9
        });
    ensure!(
        ok,
        "{mode}, {} x {} items: {} one way round, {} the other",
        a.len(),
        b.len(),
        show_segs(&x),
        show_segs(&y)
    );
    // items that follow what both fingerprints have in common do not matter for the alignment as
    // long as they bring no common prefix: the segments stay where they are
    obs.count("pairs compared both ways", 1);
    obs.class(mode.clone());
    if !x.is_empty() {
        obs.nontrivial(hash_u32s(&a) ^ hash_u32s(&b).rotate_left(7));
    }
    // flipping the same bit everywhere in both is invisible
    let mask = rng.u32();
    let am: Vec<u32> = a.iter().map(|v| v ^ mask).collect();
    let bm: Vec<u32> = b.iter().map(|v| v ^ mask).collect();
    let z = matched(&am, &bm, &cfg)?;
    ensure!(
        show_segs(&x) == show_segs(&z),
        "{mode}: flipping the same bits in all items changes {} to {}",
        show_segs(&x),
        show_segs(&z)
    );
    obs.count("pairs compared under a bit mask", 1);
    obs.sample(|| format!("{mode}, {} x {} items: {}", a.len(), b.len(), show_segs(&x)));
    Ok(())
}

pub fn c25(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    const MAX: usize = (1 << 19) - 3; // longest accepted
    let cfg = refmodel::sut_preset((idx % 5) as u8);
    if idx < 24 {
        let big = |rng: &mut Rng, n: usize| -> Vec<u32> { (0..n).map(|_| rng.u32()).collect() };
        let lens = [
            MAX - 1,
            MAX,
            MAX + 1,
            MAX + 2,
            (1 << 19) - 1,
            1 << 19,
            (1 << 19) + 1,
            700_000,
            1 << 20,
            (1 << 20) + 5,
            1_500_000,
            MAX,
        ];
        let n = lens[idx % 12];
        let swap = idx >= 12;
        let k = rng.range(0, 300);
        let long = big(rng, n);
        let short = big(rng, k);
        let r = if swap {
            run_match(&short, &long, &cfg)?
        } else {
            run_match(&long, &short, &cfg)?
        };
        let want = u8::from(swap);
        match r {
            Ok(s) => {
                ensure!(
                    n <= MAX,
                    "a fingerprint of {n} items was accepted ({} segments)",
                    s.len()
                );
                obs.count("longest accepted", usize::from(n == MAX));
            }
            Err(i) => {
                ensure!(n > MAX, "a fingerprint of {n} items was refused");
                ensure!(
                    i == want,
                    "fingerprint {want} ({n} items) is too long, but {i} is named"
                );
                obs.count("refused", 1);
            }
        }
        obs.nontrivial(n as u64 * 2 + u64::from(swap));
        if n > MAX {
            let r = run_match(&long, &long, &cfg)?;
            ensure!(r.is_err(), "two fingerprints of {n} items were accepted");
            let text = sut("error text", || {
                if swap {
                    match_fingerprints(&short, &long, &cfg)
                } else {
                    match_fingerprints(&long, &short, &cfg)
                }
                .err()
                .map(|e| format!("{e}"))
                .unwrap_or_default()
            })?;
            let named: Vec<&str> = text
                .split(|c: char| !c.is_ascii_digit())
                .filter(|t| *t == "0" || *t == "1")
                .collect();
            ensure!(
                !named.is_empty() && named.iter().all(|t| *t == want.to_string()),
                "fingerprint {want} ({n} items) is too long, but the message is {text:?}"
            );
            let two = run_match(&long, &long, &cfg)?;
            ensure!(
                two.err() == Some(0),
                "both fingerprints are too long, but the first one is not named"
            );
        } else {
            // the longest ones still match correctly, at their very end
            let tail = long[n - k.max(80)..].to_vec();
            let s = if swap {
                matched(&tail, &long, &cfg)?
            } else {
                matched(&long, &tail, &cfg)?
            };
            let at = n - tail.len();
            ensure!(
                s.len() == 1
                    && s[0].n == tail.len()
                    && s[0].score == 0.0
                    && (if swap { s[0].o2 } else { s[0].o1 }) == at,
                "the last {} of {n} items were not found: {}",
                tail.len(),
                show_segs(&s)
            );
            obs.count("matches at the length limit", 1);
            // both of them that long, with a stretch in common that is far apart or not at all
            let mut other = big(rng, MAX);
            let q = 3000;
            let (i, j) = *rng.pick(&[(n - q, MAX - q), (n - q, 0), (0, MAX - q), (0, 0)]);
            other[j..j + q].copy_from_slice(&long[i..i + q]);
            let (s, want) = if swap {
                (
                    matched(&other, &long, &cfg)?,
                    j as isize - i as isize,
                )
            } else {
                (
                    matched(&long, &other, &cfg)?,
                    i as isize - j as isize,
                )
            };
            ensure!(
                !s.is_empty() && s.iter().all(|s| s.o1 as isize - s.o2 as isize == want),
                "{q} common items of fingerprints of {n} and {MAX} items, at a distance of {want}, were not found"
            );
            obs.count("two fingerprints at the length limit", 1);
        }
        obs.sample(|| format!("{n} items, swapped: {swap}"));
        return Ok(());
    }
    // degenerate inputs
    let n = rng.below(5);
    let m = rng.below(5);
    let x = rng.u32();
    let a: Vec<u32> = (0..n)
        .map(|_| if rng.chance(0.6) { x } else { rng.u32() })
        .collect();
    let b: Vec<u32> = (0..m)
        .map(|_| if rng.chance(0.6) { x } else { rng.u32() })
        .collect();
    let s = matched(&a, &b, &cfg)?;
    ensure!(
        n > 0 && m > 0 || s.is_empty(),
        "segments for an empty fingerprint: {}",
        show_segs(&s)
    );
    if refmatch::best_alignments(&a, &b).1.is_empty() {
        ensure!(
            s.is_empty(),
            "{a:08x?} x {b:08x?}: segments {} without two common prefixes",
            show_segs(&s)
        );
    }
    for s in &s {
        ensure!(
            s.n >= 1 && s.o1 + s.n <= n && s.o2 + s.n <= m,
            "{a:08x?} x {b:08x?}: {}",
            show_segs(std::slice::from_ref(s))
        );
    }
    obs.count("degenerate pairs", 1);
    obs.nontrivial(hash_u32s(&a) ^ hash_u32s(&b).rotate_left(9));
    Ok(())
}

pub fn c26(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let both = if rng.chance(0.5) {
        any_preset(rng)
    } else {
        let small = rng.chance(0.5);
        custom(rng, small, false)
    };
    let n = match idx {
        _ if idx % 97 == 5 => rng.range(200_000, 524_000),
        _ if idx % 7 == 0 => rng.range(60, 200_000),
        _ => rng.range(60, 4000),
    };
    let k = rng.range(40, 60.max(n / 2).min(3000));
    let mut a: Vec<u32> = (0..n).map(|_| rng.u32()).collect();
    let m = k + rng.below(500);
    let b: Vec<u32> = (0..m).map(|_| rng.u32()).collect();
    let (s1, s2) = (rng.below(n - k + 1), rng.below(m - k + 1));
    a[s1..s1 + k].copy_from_slice(&b[s2..s2 + k]);
    let (x, y) = if rng.chance(0.5) { (&a, &b) } else { (&b, &a) };
    // seconds per item
    let item = both.r.hop() as f64 / 11025.0;
    let rows: Vec<(usize, usize, usize, [f32; 5])> = sut("match_fingerprints", || {
        match_fingerprints(x, y, &both.s)
            .map(|v| {
                v.iter()
                    .map(|s| {
                        (
                            s.offset1,
                            s.offset2,
                            s.items_count,
                            [
                                s.start1(&both.s),
                                s.end1(&both.s),
                                s.start2(&both.s),
                                s.end2(&both.s),
                                s.duration(&both.s),
                            ],
                        )
                    })
                    .collect()
            })
            .unwrap_or_default()
    })?;
    ensure!(
        !rows.is_empty() || k < 45,
        "a shared stretch of {k} items was not found"
    );
    for (o1, o2, n, t) in &rows {
        let want = [
            *o1 as f64 * item,
            (o1 + n) as f64 * item,
            *o2 as f64 * item,
            (o2 + n) as f64 * item,
            *n as f64 * item,
        ];
        for (name, (g, w)) in ["start1", "end1", "start2", "end2", "duration"]
            .iter()
            .zip(t.iter().zip(want))
        {
            ensure!(
                g.is_finite() && (f64::from(*g) - w).abs() <= 1e-5 + w * 1e-6,
                "{}: {name} of segment ({o1}, {o2}, {n}) is {g}, expected {w}",
                both.r.name
            );
        }
        obs.count("segments checked", 1);
        obs.max("seconds", want[1].max(want[3]));
        obs.nontrivial(hash_u32s(x) ^ *o1 as u64);
    }
    obs.class(if both.r.name.contains("with") {
        "custom configuration".to_string()
    } else {
        both.r.name.clone()
    });
    obs.sample(|| format!("{}: {rows:?}", both.r.name));
    Ok(())
}

pub fn c15(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    // a clip of a recording is found where it was taken from
    let both = preset([0u8, 1, 2, 4][idx % 4]);
    let cfg = &both.s;
    let item = both.r.hop() as f64 / 11025.0;
    let rates = [11025u32, 16000, 22050, 32000, 44100, 48000];
    let rate = if matches!(idx % 8, 2 | 5) {
        *rng.pick(&rates[..3])
    } else {
        *rng.pick(&rates)
    };
    let fr = f64::from(rate);
    let song = idx % 8 == 5;
    let z = rng.frange(0.05, 0.4);
    let deep = idx % 8 == 2;
    let (track, secs, len, from) = if deep {
        // far into a long recording, and far into the clip's file
        let secs = rng.frange(100.0, 200.0);
        let track = signal::melody(rng, (secs * fr) as usize, rate, 9000.0, z);
        let len = rng.frange(18.0, 30.0);
        let from = rng.frange(secs / 2.0, secs - len);
        (track, secs, len, from)
    } else if song {
        // sections that come again, and a long clip that spans several
        let parts: Vec<Vec<i16>> = (0..3)
            .map(|_| {
                let k = (rng.frange(20.0, 35.0) * fr) as usize;
                signal::melody(rng, k, rate, 9000.0, z)
            })
            .collect();
        let order: &[usize] = *rng.pick(&[
            &[0, 1, 2, 0][..],
            &[0, 1, 0, 2],
            &[2, 0, 1, 2, 1],
            &[1, 0, 1, 2],
        ]);
        let track: Vec<i16> = order
            .iter()
            .flat_map(|k| parts[*k].iter().copied())
            .collect();
        let secs = track.len() as f64 / fr;
        let len = rng.frange(45.0, 60.0);
        // a whole number of items in: otherwise a section that comes again could fit better
        let from = (rng.frange(0.0, secs - len) / item).floor() * item;
        (track, secs, len, from)
    } else {
        let secs = rng.frange(45.0, 80.0);
        let track = signal::melody(rng, (secs * fr) as usize, rate, 9000.0, z);
        let len = rng.frange(18.0, 30.0);
        let from = rng.frange(0.0, secs - len);
        (track, secs, len, from)
    };
    let (f, t) = ((from * fr).round() as usize, ((from + len) * fr) as usize);
    let gain = rng.frange(0.2, 2.5);
    let noise = 9000.0 * gain * *rng.pick(&[0.0, 0.01, 0.02]);
    let mut clip: Vec<i16> = track[f..t]
        .iter()
        .map(|v| {
            (f64::from(*v) * gain + noise * (rng.f() * 2.0 - 1.0)).clamp(-32_768.0, 32_767.0) as i16
        })
        .collect();
    // something else around it
    let pre = deep || rng.chance(0.5);
    let lead = if pre {
        let k = if deep {
            (rng.frange(40.0, 120.0) * fr) as usize
        } else {
            let s = rng.frange(2.0, 15.0);
            let s = if song { (s / item).round() * item } else { s };
            (s * fr).round() as usize
        };
        signal::melody(rng, k, rate, 9000.0, 0.1)
    } else {
        vec![]
    };
    let lead_secs = lead.len() as f64 / fr;
    clip.splice(0..0, lead);
    let channels = *rng.pick(&[1usize, 2]);
    let data: Vec<i16> = clip
        .iter()
        .flat_map(|v| std::iter::repeat_n(*v, channels))
        .collect();
    let a = fingerprint(cfg, rate, 1, &track)?;
    let b = fingerprint(cfg, rate, channels as u32, &data)?;
    let segs = matched(&a, &b, cfg)?;
    let d = from - lead_secs;
    // the part of the clip whose items see nothing but the clip
    let window = both.r.delay() as f64 / 11025.0 + 2.0 * item;
    let usable = len - window;
    let good: f64 = segs
        .iter()
        .filter(|s| ((s.o1 as f64 - s.o2 as f64) * item - d).abs() < 2.0 * item)
        .map(|s| {
            let lo = (s.o1 as f64 * item).max(from);
            let hi = ((s.o1 + s.n) as f64 * item).min(from + usable);
            (hi - lo).max(0.0)
        })
        .sum();
    let share = good / usable;
    let worst = segs.iter().map(|s| s.score).fold(0.0, f64::max);
    obs.max("lowest share of a clip found (negated)", -share);
    obs.max("worst score", worst);
    ensure!(
        share >= 0.7,
        "{}: a clip of {len:.1} s at {from:.2} s (rate {rate}, gain {gain:.2}, noise {noise:.0}, lead {lead_secs:.1} s) was found to {:.0} % only: {} (item {item:.4} s)",
        both.r.name,
        share * 100.0,
        show_segs(&segs)
    );
    obs.count("clips found", 1);
    obs.count(
        "clips of recordings with repeated sections",
        usize::from(song),
    );
    obs.class(both.r.name.clone());
    obs.nontrivial(hash_u32s(&b));
    obs.sample(|| {
        format!(
            "{}: {len:.1} s at {from:.2} s of {secs:.1} s, rate {rate}: {}",
            both.r.name,
            show_segs(&segs)
        )
    });
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C15", rule: "synthetic music, a clip of it with another volume, channel layout, noise and unrelated music in front; non-trivial: a distinct clip fingerprint", quick: 360, thorough: 18000, min_nontrivial: 216, must_observe: &["clips found"], assumptions: &["70 % of the usable part of the clip at an offset within two items counts as found"], case: c15 },
    Prop { id: "C18", rule: "item sequences of ten families and 0 to 16777215 items, any algorithm id; compressed, decoded with an independent strict decoder and compared; non-trivial: a distinct sequence", quick: 5000, thorough: 250000, min_nontrivial: 2700, must_observe: &["exceptional values", "items"], assumptions: &["refcodec.rs states the published format"], case: c18 },
    Prop { id: "C19", rule: "item sequences as for C18, compared byte by byte with an independent encoder; non-trivial: a distinct (sequence, id)", quick: 15000, thorough: 750000, min_nontrivial: 8100, must_observe: &["bytes compared"], assumptions: &["refcodec.rs states the published format"], case: c19 },
    Prop { id: "C20", rule: "pairs of eleven families (excerpts, edits, varying noise, low entropy, tiny, ...), every reported segment recomputed from the items; non-trivial: at least one segment", quick: 300000, thorough: 15000000, min_nontrivial: 72000, must_observe: &["segments checked", "results with several segments"], assumptions: &[], case: c20 },
    Prop { id: "C21", rule: "pairs with competing alignments, alignment of the segments against brute-force votes; non-trivial: at least one segment", quick: 180000, thorough: 9000000, min_nontrivial: 43200, must_observe: &["alignments checked", "pairs without any alignment", "empty results checked"], assumptions: &["equally good alignments may be chosen freely"], case: c21 },
    Prop { id: "C22", rule: "fingerprints against themselves and against unrelated ones with a planted shared stretch of at least 50 items, up to the length limit; non-trivial: a distinct pair", quick: 7200, thorough: 360000, min_nontrivial: 2880, must_observe: &["self matches", "planted stretches found"], assumptions: &["pairs whose planted alignment is not the clear winner of the vote are skipped"], case: c22 },
    Prop { id: "C23", rule: "pairs of eleven families, segments against an independent integer reference of smoothing, boundaries, scores and merging; non-trivial: at least one segment", quick: 300000, thorough: 15000000, min_nontrivial: 72000, must_observe: &["results equal to the reference", "results with several segments"], assumptions: &["every resolution of an exact tie is accepted", "pairs with more than 512 tie resolutions are undecided"], case: c23 },
    Prop { id: "C24", rule: "pairs of eleven families matched both ways round and under a common bit mask; non-trivial: at least one segment", quick: 200000, thorough: 10000000, min_nontrivial: 43200, must_observe: &["pairs compared both ways", "pairs compared under a bit mask"], assumptions: &["pairs with several equally good alignments are skipped"], case: c24 },
    Prop { id: "C25", rule: "lengths around 2^19 on either side, the longest accepted ones matched at their end, and pairs of 0 to 4 items; non-trivial: a distinct length or pair", quick: 100000, thorough: 5000000, min_nontrivial: 18000, must_observe: &["refused", "longest accepted", "matches at the length limit", "degenerate pairs"], assumptions: &[], case: c25 },
    Prop { id: "C26", rule: "matches under presets and custom frame settings, all five time accessors of every segment against item counts; non-trivial: a distinct segment", quick: 54000, thorough: 2700000, min_nontrivial: 27000, must_observe: &["segments checked"], assumptions: &["single-precision rounding is allowed"], case: c26 },
];
