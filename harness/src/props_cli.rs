//! The command line tools, driven as real processes on files written for each case.
use crate::common::*;
use crate::engine::{sut, Obs, Prop, Res, Stop, Tier};
use crate::rng::{hash_u32s, Rng};
use crate::{ensure, refcodec, signal, wav};
use rusty_chromaprint::{match_fingerprints, Configuration, Segment};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

// ---------------------------------------------------------------------------------------------
// Processes and files

/// A file that goes away with the value.
struct Scratch(PathBuf);
static FILE_NO: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    fn path(ext: &str) -> Res<Scratch> {
        let dir = std::env::var("MON_SCRATCH")
            .map_err(|_| Stop::Harness("MON_SCRATCH is not set".into()))?;
        let n = FILE_NO.fetch_add(1, Ordering::Relaxed);
        let name = if ext.is_empty() {
            format!("f{n}")
        } else {
            format!("f{n}.{ext}")
        };
        Ok(Scratch(PathBuf::from(dir).join(name)))
    }
    fn new(ext: &str, data: &[u8]) -> Res<Scratch> {
        let s = Self::path(ext)?;
        std::fs::write(&s.0, data)
            .map_err(|e| Stop::Harness(format!("cannot write {}: {e}", s.0.display())))?;
        Ok(s)
    }
    fn arg(&self) -> String {
        self.0.to_string_lossy().into_owned()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

struct Run {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
    t0: f64,
    t1: f64,
    what: String,
}

fn now() -> f64 {
    SystemTime::now()
        .duration_since(UNIX_EPOCH)
        .map(|d| d.as_secs_f64())
        .unwrap_or(0.0)
}

fn child_cpu_s(pid: u32) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else {
        return 0.0;
    };
    let Some(p) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[p + 2..].split(' ').collect();
    let g = |i: usize| f.get(i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

fn tool(env: &str, args: &[String]) -> Res<Run> {
    let bin = std::env::var(env).map_err(|_| Stop::Harness(format!("{env} is not set")))?;
    let what = args.join(" ");
    let t0 = now();
    let mut ch = Command::new(&bin)
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .env("LANG", "C")
        // (UNIX time does not depend on it)
        .env("TZ", "XYZ-5")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| Stop::Harness(format!("cannot run {bin}: {e}")))?;
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let ho = std::thread::spawn(move || {
        let mut v = vec![];
        so.read_to_end(&mut v).map(|_| v)
    });
    let he = std::thread::spawn(move || {
        let mut v = vec![];
        se.read_to_end(&mut v).map(|_| v)
    });
    let start = Instant::now();
    let mut nap = 1;
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return Err(Stop::Harness(format!("wait: {e}"))),
        }
        // logical progress (CPU time used) decides, a generous wall clock only gives up
        let cpu = child_cpu_s(ch.id());
        if cpu > 90.0 || start.elapsed() > Duration::from_secs(300) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(if cpu > 90.0 {
                Stop::Violation(format!(
                    "`{what}` used {cpu:.0} s of CPU time without finishing"
                ))
            } else {
                Stop::Harness(format!(
                    "`{what}` did not finish in time ({cpu:.0} s of CPU time)"
                ))
            });
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    };
    let out = ho
        .join()
        .ok()
        .and_then(Result::ok)
        .ok_or_else(|| Stop::Harness("stdout".into()))?;
    let err = he
        .join()
        .ok()
        .and_then(Result::ok)
        .ok_or_else(|| Stop::Harness("stderr".into()))?;
    let out = String::from_utf8(out)
        .map_err(|_| Stop::Violation(format!("`{what}` printed invalid UTF-8")))?;
    let r = Run {
        code: status.code(),
        signal: status.signal(),
        out,
        err: String::from_utf8_lossy(&err).into_owned(),
        t0,
        t1: now(),
        what,
    };
    if r.signal == Some(9) {
        // the sandbox ends processes when memory runs out
        return Err(Stop::Harness(format!("`{}` was killed", r.what)));
    }
    Ok(r)
}

impl Run {
    fn no_crash(&self) -> Res {
        ensure!(
            self.signal.is_none()
                && matches!(self.code, Some(0..=2))
                && !self.err.contains("panicked at"),
            "`{}` ended with {:?}/signal {:?}: {}",
            self.what,
            self.code,
            self.signal,
            self.err.chars().take(400).collect::<String>()
        );
        Ok(())
    }
    /// The decoding library panicked on a malformed header, which is none of the tools' doing.
    fn decoder_crash(&self) -> bool {
        let place = self.err.split("panicked at ").nth(1).unwrap_or("");
        let place = place.split_whitespace().next().unwrap_or("");
        (self.code == Some(101)
            && ["symphonia-format-", "symphonia-bundle-", "symphonia-codec-"]
                .iter()
                .any(|l| place.contains(l)))
            || (self.code == Some(101)
                && place.contains("symphonia-core-")
                && place.contains("units.rs"))
            || (self.signal == Some(6) && self.err.contains("memory allocation of "))
    }
    fn success(&self) -> Res {
        self.no_crash()?;
        ensure!(
            self.code == Some(0),
            "`{}` failed ({:?}): {}",
            self.what,
            self.code,
            self.err.chars().take(400).collect::<String>()
        );
        Ok(())
    }
    /// Ended with an error message instead of a result.
    fn refused(&self) -> Res {
        self.no_crash()?;
        ensure!(
            self.code != Some(0),
            "`{}` reported success; output: {}",
            self.what,
            self.out.chars().take(200).collect::<String>()
        );
        ensure!(
            !self.err.trim().is_empty(),
            "`{}` failed without a message",
            self.what
        );
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Audio files

struct Audio {
    file: Scratch,
    rate: u32,
    channels: u32,
    /// What a decoder gets out of the file.
    data: Vec<i16>,
    what: String,
}

impl Audio {
    fn frames(&self) -> usize {
        self.data.len() / self.channels as usize
    }
}

fn audio(rng: &mut Rng, rate: u32, channels: u32, frames: usize) -> Res<Audio> {
    let st = stream(rng, rate, channels, frames, signal::RICH);
    write_audio(rng, rate, channels, st.data, &st.what)
}

/// Digital silence over a part of the audio (its length stays).
fn with_silence(rng: &mut Rng, rate: u32, ch: usize, data: &mut [i16]) -> &'static str {
    let n = data.len() / ch;
    let k = ((rng.frange(0.01, 4.0) * f64::from(rate)) as usize).min(n);
    let (lo, what) = match rng.below(8) {
        0..=3 => (0, ", silent at the start"),
        4 | 5 => (n - k, ", silent at the end"),
        6 => (rng.below(n - k + 1), ", with a silent gap"),
        _ if rng.chance(0.3) => {
            data.fill(0);
            return ", all silent";
        }
        _ => {
            let c = rng.below(ch);
            for f in data.chunks_exact_mut(ch) {
                f[c] = 0;
            }
            return ", with a silent channel";
        }
    };
    data[lo * ch..(lo + k) * ch].fill(0);
    what
}

fn write_audio(
    rng: &mut Rng,
    rate: u32,
    channels: u32,
    mut data: Vec<i16>,
    what: &str,
) -> Res<Audio> {
    let quiet = if rng.chance(0.3) {
        with_silence(rng, rate, channels as usize, &mut data)
    } else {
        ""
    };
    let mut kind = rng.below(13);
    if matches!(kind, 7 | 10) && channels > 2 || matches!(kind, 11 | 12) && data.is_empty() {
        kind = 6;
    }
    let ch = channels as usize;
    let (bytes, ext, name) = match kind {
        0 | 1 => (
            wav::wav16(rate, channels as u16, &data),
            "wav",
            "16-bit WAV".to_string(),
        ),
        2 => {
            for v in data.iter_mut() {
                *v &= !0xff;
            }
            (
                wav::wav_pcm(rate, channels as u16, 8, &data),
                "wav",
                "8-bit WAV".into(),
            )
        }
        3 => {
            let b = *rng.pick(&[24u16, 32]);
            (
                wav::wav_pcm(rate, channels as u16, b, &data),
                "wav",
                format!("{b}-bit WAV"),
            )
        }
        8 => (
            wav::wav_float(rate, channels as u16, &data),
            "wav",
            "float WAV".into(),
        ),
        9 => (
            wav::aiff(rate, channels as u16, &data),
            "aiff",
            "AIFF".into(),
        ),
        10 => (wav::caf(rate, channels, &data), "caf", "CAF".into()),
        11 => {
            let block = rng.logrange(16, 25_000 / ch);
            (
                wav::ogg_flac(rate, ch, &data, block, rng.u32()),
                "ogg",
                format!("Ogg FLAC, blocks of {block}"),
            )
        }
        7 => {
            // several tracks, the first of which counts
            let block = rng.logrange(64, 20_000);
            let other = signal::generate(rng, "white", (data.len() / ch).max(1), rate);
            let more = rng.chance(0.7);
            let video = rng.chance(0.5);
            let mut tracks: Vec<(u32, usize, &[i16])> = vec![(rate, ch, &data)];
            if more {
                tracks.push((rate, 1, &other));
            }
            (
                wav::mkv(&tracks, block, video),
                "mkv",
                format!(
                    "MKV of {} FLAC tracks, blocks of {block}, video {video}",
                    tracks.len()
                ),
            )
        }
        12 => {
            let frames = data.len() / ch;
            let mut blocks = vec![];
            let mut sum = 0;
            while sum < frames && blocks.len() < 2000 {
                let hi = *rng.pick(&[100usize, 2000, 60_000]);
                blocks.push(rng.logrange(16, hi));
                sum += blocks[blocks.len() - 1];
            }
            blocks.push(4096);
            (
                wav::flac_variable(rate, ch, &data, &blocks),
                "flac",
                format!("FLAC, varying blocks, first {}", blocks[0]),
            )
        }
        _ => {
            let block = *rng.pick(&[16usize, 192, 576, 1152, 4096, 4608, 16384, 65535]);
            let block = if block == 16 && data.len() > 200_000 {
                192
            } else {
                block
            };
            (
                wav::flac16(rate, ch, &data, block),
                "flac",
                format!("FLAC, blocks of {block}"),
            )
        }
    };
    // the extension is a hint only
    let ext = if rng.chance(0.1) { "" } else { ext };
    let file = Scratch::new(ext, &bytes)?;
    Ok(Audio {
        file,
        rate,
        channels,
        what: format!(
            "{name}, {} frames of {what}{quiet} at {rate} Hz, {channels} channel(s)",
            data.len() / ch
        ),
        data,
    })
}

fn cli_rate(rng: &mut Rng) -> u32 {
    *rng.pick(&[
        11025u32, 11025, 11025, 8000, 16000, 22050, 44100, 48000, 32000, 96000, 12345, 176_400,
        192_000, 1001, 12_000, 24_000, 88_200, 64_000, 37_800, 11_024, 11_026, 6000, 4000, 2000,
    ])
}

// ---------------------------------------------------------------------------------------------
// Output of fpcalc

#[derive(Clone, Copy, PartialEq, Debug)]
enum Format {
    Text,
    Json,
    Plain,
}

#[derive(Clone, Debug)]
struct Opts {
    algorithm: Option<u8>,
    raw: bool,
    signed: bool,
    format: Format,
    explicit_format: bool,
    ts: bool,
    length: Option<usize>,
    chunk: Option<usize>,
    overlap: bool,
}

impl Opts {
    fn random(rng: &mut Rng) -> Opts {
        let format = *rng.pick(&[Format::Text, Format::Text, Format::Json, Format::Plain]);
        Opts {
            algorithm: if rng.chance(0.2) {
                None
            } else {
                Some(rng.below(5) as u8)
            },
            raw: rng.chance(0.6),
            signed: rng.chance(0.4),
            format,
            explicit_format: format != Format::Text || rng.chance(0.3),
            ts: rng.chance(0.25),
            length: None,
            chunk: None,
            overlap: false,
        }
    }
    fn config(&self) -> Both {
        preset(self.algorithm.unwrap_or(1))
    }
    fn args(&self, rng: &mut Rng, file: &str) -> Vec<String> {
        let mut groups: Vec<Vec<String>> = vec![];
        let mut opt = |rng: &mut Rng, short: &str, long: &str, v: Option<String>| {
            let flag = if rng.chance(0.5) { short } else { long };
            groups.push(std::iter::once(flag.to_string()).chain(v).collect());
        };
        if let Some(a) = self.algorithm {
            opt(rng, "-a", "--algorithm", Some(a.to_string()));
        }
        if self.raw {
            opt(rng, "-R", "--raw", None);
        }
        if self.signed {
            opt(rng, "-s", "--signed", None);
        }
        if self.explicit_format {
            let f = match self.format {
                Format::Text => "text",
                Format::Json => "json",
                Format::Plain => "plain",
            };
            opt(rng, "-F", "--output-format", Some(f.into()));
        }
        if self.ts {
            opt(rng, "-T", "--ts", None);
        }
        if let Some(l) = self.length {
            opt(rng, "-l", "--length", Some(l.to_string()));
        }
        if let Some(c) = self.chunk {
            opt(rng, "-C", "--chunk", Some(c.to_string()));
        }
        if self.overlap {
            opt(rng, "-o", "--overlap", None);
        }
        groups.push(vec![file.to_string()]);
        for i in (1..groups.len()).rev() {
            let j = rng.below(i + 1);
            groups.swap(i, j);
        }
        groups.concat()
    }
}

#[derive(Debug)]
struct Shown {
    timestamp: Option<f64>,
    duration: Option<f64>,
    /// Comma-separated items, or the compressed form.
    fp: String,
}

/// One flat JSON object: keys with numbers, strings or arrays of integers.
fn json_object(line: &str) -> Option<Vec<(String, String)>> {
    let inner = line.trim().strip_prefix('{')?.strip_suffix('}')?;
    let b = inner.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let ws = |i: &mut usize| {
        while *i < b.len() && b[*i] == b' ' {
            *i += 1;
        }
    };
    let string = |i: &mut usize| -> Option<String> {
        if b.get(*i)? != &b'"' {
            return None;
        }
        let from = *i + 1;
        let to = from + inner[from..].find('"')?;
        if inner[from..to].contains('\\') {
            return None;
        }
        *i = to + 1;
        Some(inner[from..to].to_string())
    };
    loop {
        ws(&mut i);
        let k = string(&mut i)?;
        ws(&mut i);
        if b.get(i)? != &b':' {
            return None;
        }
        i += 1;
        ws(&mut i);
        let v = match b.get(i)? {
            b'"' => format!("\"{}", string(&mut i)?),
            b'[' => {
                let to = i + inner[i..].find(']')?;
                let items: Vec<&str> = inner[i + 1..to].split(',').map(str::trim).collect();
                if items != [""]
                    && !items
                        .iter()
                        .all(|s| s.parse::<i64>().is_ok_and(|v| v.to_string() == *s))
                {
                    return None;
                }
                i = to + 1;
                format!("[{}", items.join(","))
            }
            _ => {
                let to = inner[i..].find(',').map_or(inner.len(), |k| i + k);
                let s = inner[i..to].trim();
                s.parse::<f64>().ok()?;
                if !s
                    .bytes()
                    .all(|c| c.is_ascii_digit() || c == b'.' || c == b'-')
                {
                    return None;
                }
                i = to;
                s.to_string()
            }
        };
        out.push((k, v));
        ws(&mut i);
        match b.get(i) {
            None => return Some(out),
            Some(b',') => i += 1,
            _ => return None,
        }
    }
}

fn parse(o: &Opts, run: &Run) -> Res<Vec<Shown>> {
    let bad = |why: &str| {
        Stop::Violation(format!(
            "`{}`: {why}; output: {}",
            run.what,
            run.out.chars().take(300).collect::<String>()
        ))
    };
    let mut v = vec![];
    if run.out.is_empty() {
        return Ok(v);
    }
    ensure!(
        run.out.ends_with('\n'),
        "`{}`: the output does not end with a newline",
        run.what
    );
    let body = &run.out[..run.out.len() - 1];
    match o.format {
        Format::Plain => {
            for l in body.split('\n') {
                v.push(Shown {
                    timestamp: None,
                    duration: None,
                    fp: l.to_string(),
                });
            }
        }
        Format::Json => {
            for l in body.split('\n') {
                let obj = json_object(l).ok_or_else(|| bad("not a JSON object per line"))?;
                let get = |k: &str| obj.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str());
                let ts = get("timestamp")
                    .map(|s| s.parse::<f64>().map_err(|_| bad("bad timestamp")))
                    .transpose()?;
                if ts.is_some() != (o.chunk.unwrap_or(0) > 0) {
                    return Err(bad("a timestamp is given exactly for chunks"));
                }
                let dur = get("duration")
                    .ok_or_else(|| bad("no duration"))?
                    .parse::<f64>()
                    .map_err(|_| bad("bad duration"))?;
                let fp = get("fingerprint").ok_or_else(|| bad("no fingerprint"))?;
                let fp = fp
                    .strip_prefix(if o.raw { '[' } else { '"' })
                    .ok_or_else(|| bad("wrong kind of fingerprint"))?;
                if obj.len() != 2 + usize::from(ts.is_some()) {
                    return Err(bad("unexpected keys"));
                }
                v.push(Shown {
                    timestamp: ts,
                    duration: Some(dur),
                    fp: fp.to_string(),
                });
            }
        }
        Format::Text => {
            for (i, para) in body.split("\n\n").enumerate() {
                let mut lines: Vec<&str> = para.split('\n').collect();
                let ts = if o.ts {
                    if lines.is_empty() {
                        return Err(bad("nothing in a result"));
                    }
                    let l = lines.remove(0);
                    Some(
                        l.strip_prefix("TIMESTAMP=")
                            .and_then(|s| s.parse::<f64>().ok())
                            .ok_or_else(|| bad(&format!("result {i} has no TIMESTAMP")))?,
                    )
                } else {
                    None
                };
                let [d, f] = lines[..] else {
                    return Err(bad(&format!("result {i} has {} lines", lines.len())));
                };
                let dur = d
                    .strip_prefix("DURATION=")
                    .and_then(|s| s.parse::<f64>().ok())
                    .ok_or_else(|| bad("no DURATION"))?;
                let fp = f
                    .strip_prefix("FINGERPRINT=")
                    .ok_or_else(|| bad("no FINGERPRINT"))?;
                v.push(Shown {
                    timestamp: ts,
                    duration: Some(dur),
                    fp: fp.to_string(),
                });
            }
        }
    }
    Ok(v)
}

fn render(o: &Opts, items: &[u32]) -> String {
    if o.raw {
        let s: Vec<String> = items
            .iter()
            .map(|x| {
                if o.signed {
                    (*x as i32).to_string()
                } else {
                    x.to_string()
                }
            })
            .collect();
        s.join(",")
    } else {
        refcodec::base64url(&refcodec::encode(o.algorithm.unwrap_or(1), items))
    }
}

/// A stretch of the file that one result has to describe.
struct Want {
    from: usize,
    to: usize,
}

fn check_results(
    a: &Audio,
    o: &Opts,
    run: &Run,
    want: &[Want],
    overlap: f64,
    obs: &mut Obs,
) -> Res {
    let cfg = o.config().s;
    let got = parse(o, run)?;
    ensure!(
        got.len() == want.len(),
        "`{}` on {}: {} results, expected {}",
        run.what,
        a.what,
        got.len(),
        want.len()
    );
    let rate = f64::from(a.rate);
    let ch = a.channels as usize;
    let mut last = f64::MIN;
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        let fp = fingerprint(&cfg, a.rate, a.channels, &a.data[w.from * ch..w.to * ch])?;
        let exp = render(o, &fp);
        ensure!(
            g.fp == exp,
            "`{}` on {}: result {k} is not the fingerprint of frames {}..{} ({} items): printed {:.60}, expected {exp:.60}",
            run.what, a.what, w.from, w.to, fp.len(), g.fp
        );
        obs.count("items printed", fp.len());
        obs.count("results compared", 1);
        obs.class(format!(
            "{:?}{}{}",
            o.format,
            if o.raw { " raw" } else { " compressed" },
            if o.raw && o.signed { " signed" } else { "" }
        ));
        if distinct(&fp) > 1 {
            obs.nontrivial(hash_u32s(&fp));
        }
        if let Some(d) = g.duration {
            let e = (w.to - w.from) as f64 / rate;
            let tol = if o.format == Format::Json {
                0.00501
            } else {
                1e-6 + e * 1e-9
            };
            ensure!(
                (d - e).abs() <= tol,
                "`{}` on {}: duration {d} of result {k}, expected {e}",
                run.what,
                a.what
            );
            obs.count("durations compared", 1);
        }
        if let Some(t) = g.timestamp {
            if o.ts {
                let (lo, hi) = (run.t0 - overlap - 1.0, run.t1 + 1.0);
                ensure!(
                    t >= lo && t <= hi,
                    "`{}`: timestamp {t} of result {k} is not between {lo} and {hi}",
                    run.what
                );
                ensure!(
                    k == 1 || t + 0.02 >= last,
                    "`{}`: timestamps go back from {last} to {t}",
                    run.what
                );
                last = t;
            } else {
                let e = w.from as f64 / rate;
                ensure!(
                    (t - e).abs() <= 0.0051 + 1e-6 * k as f64,
                    "`{}` on {}: timestamp {t} of result {k}, expected {e}",
                    run.what,
                    a.what
                );
            }
            obs.count("timestamps compared", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c27(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let mut o = Opts::random(rng);
    let mut rate = cli_rate(rng);
    let mut channels = *rng.pick(&[1u32, 1, 2, 2, 2, 3, 4, 6, 8]);
    let mut secs = rng.frange(0.2, 8.0);
    match idx % 10 {
        // around the default limit of two minutes
        0 => {
            rate = *rng.pick(&[8000, 11025]);
            channels = 1;
            secs = rng.frange(117.0, 124.0);
            if rng.chance(0.3) {
                o.length = Some(*rng.pick(&[0usize, 119, 121, usize::MAX, usize::MAX / 2]));
            }
        }
        5 if idx % 20 == 5 => {
            // far longer than the default limit
            rate = *rng.pick(&[1001u32, 2000, 8000]);
            channels = 1;
            secs = rng.frange(130.0, 5_000_000.0 / f64::from(rate));
            o.length = Some(*rng.pick(&[0usize, 130, 300, 599, 600, 601, 1800, 3600, 5000]));
        }
        6 if idx % 60 == 16 => {
            // an ordinary song
            rate = *rng.pick(&[44100u32, 44100, 48000, 96000]);
            channels = if rate == 96000 { 1 } else { 2 };
            secs = rng.frange(115.0, 160.0);
            if rng.chance(0.4) {
                o.length = Some(*rng.pick(&[0usize, 121, 150]));
            }
        }
        1..=4 => {
            o.length = Some(*rng.pick(&[
                0usize, 1, 1, 2, 3, 4, 5, 6, 7, 8, 120, 1000, usize::MAX, (1 << 32) + 1, (1 << 31) + 2,
                (1 << 16) + 1, 257,
            ]));
            secs = rng.frange(1.0, 8.5);
        }
        _ => {}
    }
    if rng.chance(0.06) {
        o.chunk = Some(0);
    }
    let mut frames = (secs * f64::from(rate)) as usize + 1;
    if rng.chance(0.15) {
        // whole seconds exactly, give or take a frame
        frames = ((secs as usize + 1) * rate as usize + rng.below(3)).saturating_sub(1);
    }
    let a = audio(rng, rate, channels, frames)?;
    let limit = o.length.unwrap_or(120);
    let n = if limit == 0 {
        a.frames()
    } else {
        a.frames().min(limit.saturating_mul(rate as usize))
    };
    if n < a.frames() {
        obs.count("files cut by the length limit", 1);
    }
    let args = o.args(rng, &a.file.arg());
    let run = tool("MON_FPCALC", &args)?;
    run.success()?;
    obs.sample(|| format!("fpcalc {} on {}", run.what, a.what));
    check_results(&a, &o, &run, &[Want { from: 0, to: n }], 0.0, obs)
}

fn chunked(rng: &mut Rng, idx: usize, overlap: bool, obs: &mut Obs) -> Res {
    let mut o = Opts::random(rng);
    o.overlap = overlap;
    let long = idx % 30 == 11;
    // chunks of millions of frames
    let huge = idx % 60 == 27;
    let rate = if huge {
        *rng.pick(&[44100u32, 48000, 96000])
    } else if long {
        *rng.pick(&[1001u32, 1002, 2000])
    } else {
        cli_rate(rng)
    };
    let channels = if long || huge {
        1
    } else {
        *rng.pick(&[1u32, 1, 2, 2, 3, 6])
    };
    let c = if huge {
        *rng.pick(&[30usize, 60, 100, 119, 120])
    } else if long {
        // hundreds of chunks, and chunks of many minutes
        *rng.pick(&[1usize, 2, 10, 60, 119, 120, 121, 300, 600, 1000])
    } else {
        *rng.pick(&[1usize, 1, 2, 3, 3, 4, 5, 7, 10, 12, 15])
    };
    // (chunks longer than any file)
    let c = if !long && !huge && rng.chance(0.04) {
        *rng.pick(&[(1usize << 32) + c, (1 << 31) + c, (1 << 16) + c, 256 + c])
    } else {
        c
    };
    o.chunk = Some(c);
    let most = if huge {
        250.0 * 48_000.0 / f64::from(rate)
    } else if long {
        rng.frange(100.0, 500.0) * if c > 10 { 4.0 } else { 1.0 }
    } else if rate > 50_000 || channels > 3 {
        12.0
    } else {
        25.0
    };
    let mut frames = (rng.frange(0.1, most) * f64::from(rate)) as usize + 1;
    if huge {
        frames = frames.max(c * rate as usize + rng.below(rate as usize));
    } else if c < 200 && rng.chance(0.35) {
        let k = rng.range(1, (most as usize / c).max(1));
        frames = (k * c * rate as usize + rng.below(5))
            .saturating_sub(2)
            .max(1);
    }
    let d = if overlap {
        let t = o.config().r;
        (t.delay() * rate as usize).div_ceil(11025)
    } else {
        0
    };
    if overlap && c < 200 && rng.chance(0.25) {
        // ends within a few frames of a chunk with its overlap
        let k = rng.range(1, 4);
        frames = (k * c * rate as usize + d + rng.below(5))
            .saturating_sub(2)
            .max(1);
    }
    if rng.chance(0.25) {
        let secs = frames / rate as usize;
        o.length = Some(rng.range(1, secs + 2));
    } else if long || rng.chance(0.5) {
        o.length = Some(0);
    }
    let a = audio(rng, rate, channels, frames)?;
    let limit = o.length.unwrap_or(120);
    let n = if limit == 0 {
        a.frames()
    } else {
        a.frames().min(limit * rate as usize)
    };
    let size = c * rate as usize;
    let mut want = vec![];
    for k in 0.. {
        let to = (k + 1) * size + d;
        want.push(Want {
            from: k * size,
            to: to.min(n),
        });
        if to >= n {
            break;
        }
    }
    let args = o.args(rng, &a.file.arg());
    let run = tool("MON_FPCALC", &args)?;
    run.success()?;
    if want.len() > 1 {
        obs.count("files of several chunks", 1);
    }
    obs.max("chunks of one file", want.len() as f64);
    obs.class(format!("{} chunks", want.len().min(10)));
    obs.sample(|| format!("fpcalc {} on {}: {} chunks", run.what, a.what, want.len()));
    check_results(&a, &o, &run, &want, d as f64 / f64::from(rate), obs)
}

pub fn c28(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    chunked(rng, idx, false, obs)
}

pub fn c29(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    chunked(rng, idx, true, obs)
}

// ---------------------------------------------------------------------------------------------
// Live streams

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    fn ioctl(fd: i32, request: u64, ...) -> i32;
}
const FIONREAD: u64 = 0x541B;
const O_NONBLOCK: i32 = 0o4000;
const ENXIO: i32 = 6;
const EPIPE: i32 = 32;

/// The number of bytes in a pipe, or less than 0.
fn waiting(fd: i32) -> i32 {
    let mut n: i32 = 0;
    // SAFETY: FIONREAD stores one int
    match unsafe { ioctl(fd, FIONREAD, &mut n as *mut i32) } {
        0 => n,
        _ => -1,
    }
}

/// fpcalc reading from a named pipe that the monitor fills step by step.
struct Live {
    child: std::process::Child,
    pipe: Option<std::fs::File>,
    stdout: std::process::ChildStdout,
    out: Vec<u8>,
    thread: Option<std::thread::JoinHandle<()>>,
    err: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
    what: String,
    t0: f64,
    start: Instant,
    _fifo: Scratch,
}

impl Drop for Live {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Live {
    fn open(rng: &mut Rng, o: &Opts) -> Res<Live> {
        use std::os::unix::fs::OpenOptionsExt;
        let fifo = Scratch::path("wav")?;
        let c = std::ffi::CString::new(fifo.arg()).map_err(|e| Stop::Harness(e.to_string()))?;
        // SAFETY: a null-terminated path that outlives the call
        if unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 {
            return Err(Stop::Harness("mkfifo failed".into()));
        }
        let bin = std::env::var("MON_FPCALC")
            .map_err(|_| Stop::Harness("MON_FPCALC is not set".into()))?;
        let args = o.args(rng, &fifo.arg());
        let t0 = now();
        let mut child = Command::new(&bin)
            .args(&args)
            .env("RUST_BACKTRACE", "0")
            .env("LANG", "C")
            // (UNIX time does not depend on it)
            .env("TZ", "XYZ-5")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| Stop::Harness(format!("cannot run {bin}: {e}")))?;
        let err = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let stdout = child.stdout.take().unwrap();
        let mut se = child.stderr.take().unwrap();
        let to = err.clone();
        let thread = std::thread::spawn(move || {
            let mut b = [0u8; 4096];
            while let Ok(n) = se.read(&mut b) {
                if n == 0 {
                    break;
                }
                to.lock().unwrap().extend_from_slice(&b[..n]);
            }
        });
        let mut l = Live {
            child,
            pipe: None,
            stdout,
            out: vec![],
            thread: Some(thread),
            err,
            what: args.join(" "),
            t0,
            start: Instant::now(),
            _fifo: fifo,
        };
        loop {
            match std::fs::OpenOptions::new()
                .write(true)
                .custom_flags(O_NONBLOCK)
                .open(&l._fifo.0)
            {
                Ok(f) => {
                    l.pipe = Some(f);
                    return Ok(l);
                }
                Err(e) if e.raw_os_error() == Some(ENXIO) => {}
                Err(e) => return Err(Stop::Harness(format!("cannot open the pipe: {e}"))),
            }
            if let Ok(Some(s)) = l.child.try_wait() {
                return Err(Stop::Violation(format!(
                    "`{}` ended ({s}) without opening the stream: {}",
                    l.what,
                    l.errors()
                )));
            }
            l.patience()?;
        }
    }
    fn errors(&self) -> String {
        String::from_utf8_lossy(&self.err.lock().unwrap())
            .chars()
            .take(300)
            .collect()
    }
    /// A moment, unless the case has taken too long (which decides nothing).
    fn patience(&mut self) -> Res {
        self.pump()?;
        if self.start.elapsed() > Duration::from_secs(300) {
            return Err(Stop::Harness(format!("`{}` takes too long", self.what)));
        }
        let cpu = child_cpu_s(self.child.id());
        ensure!(
            cpu <= 90.0,
            "`{}` used {cpu:.0} s of CPU time without finishing",
            self.what
        );
        std::thread::sleep(Duration::from_millis(2));
        Ok(())
    }
    /// Takes what the program has printed so far.
    fn pump(&mut self) -> Res {
        use std::os::fd::AsRawFd;
        loop {
            let n = waiting(self.stdout.as_raw_fd());
            if n <= 0 {
                return Ok(());
            }
            let old = self.out.len();
            self.out.resize(old + n as usize, 0);
            self.stdout
                .read_exact(&mut self.out[old..])
                .map_err(|e| Stop::Harness(format!("stdout: {e}")))?;
        }
    }
    /// Whether the program waits for more: everything written was read and it sleeps.
    fn starving(&self) -> bool {
        use std::os::fd::AsRawFd;
        let Some(p) = &self.pipe else { return false };
        if waiting(p.as_raw_fd()) != 0 || waiting(self.stdout.as_raw_fd()) != 0 {
            return false;
        }
        let stat =
            std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        stat.rfind(')')
            .is_some_and(|p| stat[p + 1..].trim_start().starts_with('S'))
    }
    /// The same for so long that it is no moment between two steps.
    fn settled(&self) -> bool {
        let cpu = child_cpu_s(self.child.id());
        for _ in 0..25 {
            if !self.starving() {
                return false;
            }
            std::thread::sleep(Duration::from_millis(4));
        }
        cpu == child_cpu_s(self.child.id())
    }
    /// Writes bytes; false if the program does not want any more.
    fn feed(&mut self, mut b: &[u8]) -> Res<bool> {
        use std::io::Write;
        while !b.is_empty() {
            let Some(p) = &mut self.pipe else {
                return Ok(false);
            };
            match p.write(b) {
                Ok(n) => b = &b[n..],
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    if matches!(self.child.try_wait(), Ok(Some(_))) {
                        return Ok(false);
                    }
                    self.patience()?;
                }
                Err(e) if e.raw_os_error() == Some(EPIPE) => return Ok(false),
                Err(e) => return Err(Stop::Harness(format!("writing to the pipe: {e}"))),
            }
        }
        Ok(true)
    }
    /// Complete results printed so far.
    fn results(&mut self, o: &Opts) -> Res<usize> {
        self.pump()?;
        let text = String::from_utf8_lossy(&self.out);
        Ok(text
            .split_inclusive('\n')
            .filter(|l| l.ends_with('\n'))
            .filter(|l| o.format != Format::Text || l.starts_with("FINGERPRINT="))
            .count())
    }
    /// Waits for the program to end by itself and collects what it printed.
    fn finish(mut self) -> Res<Run> {
        let status = loop {
            match self.child.try_wait() {
                Ok(Some(s)) => break s,
                Ok(None) => self.patience()?,
                Err(e) => return Err(Stop::Harness(format!("wait: {e}"))),
            }
        };
        self.stdout
            .read_to_end(&mut self.out)
            .map_err(|e| Stop::Harness(format!("stdout: {e}")))?;
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
        let out = String::from_utf8(self.out.clone())
            .map_err(|_| Stop::Violation(format!("`{}` printed invalid UTF-8", self.what)))?;
        let r = Run {
            code: status.code(),
            signal: status.signal(),
            out,
            err: String::from_utf8_lossy(&self.err.lock().unwrap()).into_owned(),
            t0: self.t0,
            t1: now(),
            what: self.what.clone(),
        };
        if r.signal == Some(9) {
            return Err(Stop::Harness(format!("`{}` was killed", r.what)));
        }
        Ok(r)
    }
    /// Largest resident size so far, in KiB.
    fn peak_kib(&self) -> f64 {
        std::fs::read_to_string(format!("/proc/{}/status", self.child.id()))
            .unwrap_or_default()
            .lines()
            .find_map(|l| l.strip_prefix("VmHWM:"))
            .and_then(|v| v.split_whitespace().next()?.parse().ok())
            .unwrap_or(0.0)
    }
}

/// How much of a stream beyond what a result needs may have to arrive before it is printed
/// (the decoder reads ahead).
const READ_AHEAD: usize = 128 << 10;

pub fn c35(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let mut o = Opts::random(rng);
    let kind = idx % 5;
    o.ts = matches!(kind, 0 | 1);
    if o.ts && o.format == Format::Plain {
        o.format = Format::Text;
    }
    o.explicit_format = o.format != Format::Text;
    let bits = *rng.pick(&[16u16, 24, 32]);
    let rate = *rng.pick(&[8000u32, 11025, 22050, 44100, 48000]);
    let channels = *rng.pick(&[1u32, 2]);
    let bpf = channels as usize * usize::from(bits) / 8;
    let second = rate as usize * bpf;
    let d = |o: &Opts| {
        if o.overlap && o.chunk.is_some() {
            (o.config().r.delay() * rate as usize).div_ceil(11025)
        } else {
            0
        }
    };
    if kind != 4 {
        o.overlap = rng.chance(0.4);
        // chunks are longer than what is read ahead
        let least = 2 * READ_AHEAD / second + 1;
        o.chunk = Some(least + rng.below(3));
    }
    if kind == 4 {
        o.overlap = rng.chance(0.5);
        o.chunk = *rng.pick(&[None, Some(1), Some(7), Some(1 << 40)]);
    }
    o.length = Some(0);
    let size = o.chunk.unwrap_or(0) * rate as usize;
    let overlap = d(&o);
    let frames = if kind == 4 {
        (rng.range(5, 7) << 20) / bpf
    } else {
        let chunks = rng.range(1, 4);
        chunks * size + overlap + rng.below(size)
    };
    if kind == 3 {
        let secs = frames / rate as usize;
        o.length = Some(rng.range(1, secs.max(1)));
        if rng.chance(0.4) {
            o.chunk = None;
        }
    }
    let overlap = d(&o);
    let (size, endless) = (o.chunk.unwrap_or(0) * rate as usize, kind == 3);
    let st = stream(rng, rate, channels, frames, signal::RICH);
    let mut bytes = wav::wav_pcm(rate, channels as u16, bits, &st.data);
    if endless || kind == 4 {
        bytes[4..8].copy_from_slice(&0x7fff_ff24u32.to_le_bytes());
        bytes[40..44].copy_from_slice(&0x7fff_ff00u32.to_le_bytes());
    }
    let head = 44;
    let n = match o.length {
        Some(l) if l > 0 => frames.min(l * rate as usize),
        _ => frames,
    };
    let mut want = vec![];
    for k in 0.. {
        let to = (k + 1) * size + overlap;
        let to = if size == 0 { n } else { to.min(n) };
        want.push(Want { from: k * size, to });
        if to >= n {
            break;
        }
    }
    let mut live = Live::open(rng, &o)?;
    let mut at = 0;
    let mut moments = vec![(live.t0, f64::MAX)];
    if kind == 4 {
        // the same stretch of audio again and again
        let base = live.feed(&bytes[..head])?;
        ensure!(base, "`{}` closed the stream", live.what);
        let mut peaks = vec![];
        for round in 0..5 {
            let go = live.feed(&bytes[head..])?;
            ensure!(go, "`{}` closed the stream: {}", live.what, live.errors());
            while !live.settled() {
                live.patience()?;
            }
            peaks.push(live.peak_kib());
            if round == 0 && rng.chance(0.3) {
                std::thread::sleep(Duration::from_millis(20));
            }
        }
        ensure!(peaks[0] > 0.0, "harness: no memory figures");
        let grown = peaks[4] - peaks[0];
        ensure!(
            grown < 6.0 * 1024.0,
            "`{}`: {grown:.0} KiB more memory after {} more bytes of audio",
            live.what,
            (bytes.len() - head) * 4
        );
        obs.max("KiB of growth", grown);
        obs.count("long streams", 1);
        obs.nontrivial(rng.u64());
        // (the header announces more than what was fed)
        live.pipe = None;
        let r = live.finish()?;
        r.success()?;
        ensure!(!r.out.is_empty(), "`{}` printed nothing", r.what);
        return Ok(());
    }
    // every result but the last is due before the stream ends
    let end = head + n * bpf;
    for (k, w) in want.iter().enumerate() {
        let due = head + w.to * bpf;
        if due + READ_AHEAD > end {
            break;
        }
        if due > at {
            let go = live.feed(&bytes[at..due])?;
            ensure!(go, "`{}` closed the stream: {}", live.what, live.errors());
            at = due;
        }
        let lo = now();
        let to = (due + READ_AHEAD).max(at);
        let go = live.feed(&bytes[at..to])?;
        ensure!(go, "`{}` closed the stream: {}", live.what, live.errors());
        at = to;
        loop {
            // (nothing of the output is outstanding while the program sleeps)
            let idle = live.settled();
            let have = live.results(&o)?;
            if have > k {
                break;
            }
            ensure!(
                !idle,
                "`{}` on {}: waits for more audio with only {have} results, although chunk {k} and {READ_AHEAD} bytes beyond it have arrived",
                live.what,
                st.what
            );
            live.patience()?;
        }
        obs.count("results before the end of the stream", 1);
        if o.ts {
            while !live.settled() {
                live.patience()?;
            }
            let hi = now();
            if k == 0 {
                moments[0].1 = hi;
            }
            moments.push((lo, hi));
            std::thread::sleep(Duration::from_millis(30));
        }
    }
    let go = at >= end || live.feed(&bytes[at..end])?;
    ensure!(go, "`{}` closed the stream: {}", live.what, live.errors());
    if endless {
        // the limit: it has to end by itself
        let go = live.feed(&vec![7u8; READ_AHEAD / bpf * bpf])?;
        while go && !matches!(live.child.try_wait(), Ok(Some(_))) {
            ensure!(
                !live.settled(),
                "`{}` on {}: waits for more audio after {} seconds, its limit",
                live.what,
                st.what,
                n / rate as usize
            );
            live.patience()?;
        }
        obs.count("streams ended at the limit", 1);
    }
    live.pipe = None;
    let fifo = Scratch::path("none")?;
    let run = live.finish()?;
    run.success()?;
    let what = format!("a stream of {}", st.what);
    let a = Audio {
        file: fifo,
        rate,
        channels,
        data: st.data,
        what,
    };
    let secs = overlap as f64 / f64::from(rate);
    check_results(&a, &o, &run, &want, secs, obs)?;
    if o.ts {
        for (k, (g, (lo, hi))) in parse(&o, &run)?.iter().zip(&moments).enumerate() {
            let Some(t) = g.timestamp else { continue };
            let t = if k > 0 { t + secs } else { t };
            ensure!(
                t >= lo - 0.011 && t <= hi + 0.011,
                "`{}`: timestamp of result {k} (less the overlap) is {t}, but the chunk began between {lo} and {hi}",
                run.what
            );
            obs.count("moments compared", 1);
        }
    }
    Ok(())
}

fn file_bytes(a: &Audio) -> Res<Vec<u8>> {
    std::fs::read(&a.file.0).map_err(|e| Stop::Harness(format!("cannot read back: {e}")))
}

/// fpcalc must refuse the file or print the fingerprint of the first samples of `data`.
fn prefix_or_refusal(
    rng: &mut Rng,
    obs: &mut Obs,
    f: &Scratch,
    what: &str,
    rate: u32,
    ch: usize,
    data: &[i16],
) -> Res {
    let algorithm = rng.below(5) as u8;
    let args: Vec<String> = ["-R", "-l", "0", "-a", &algorithm.to_string(), &f.arg()]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let r = tool("MON_FPCALC", &args)?;
    r.no_crash()?;
    if r.code == Some(0) {
        let o = Opts {
            algorithm: Some(algorithm),
            raw: true,
            signed: false,
            format: Format::Text,
            explicit_format: false,
            ts: false,
            length: Some(0),
            chunk: None,
            overlap: false,
        };
        let got = parse(&o, &r)?;
        ensure!(got.len() <= 1, "`{}`: {} results", r.what, got.len());
        if let Some(g) = got.first() {
            let n = (g.duration.unwrap_or(0.0) * f64::from(rate)).round() as usize;
            ensure!(
                n <= data.len() / ch,
                "`{}` on {what}: {n} frames of {}",
                r.what,
                data.len() / ch
            );
            let fp = fingerprint(&o.config().s, rate, ch as u32, &data[..n * ch])?;
            ensure!(
                g.fp == render(&o, &fp),
                "`{}` on {what}: not the fingerprint of the first {n} frames",
                r.what
            );
            obs.count("truncated files with a prefix fingerprint", 1);
            // the other program decodes the same samples
            if rng.chance(0.4) {
                let cfg = Configuration::preset_test1();
                let fp = fingerprint(&cfg, rate, ch as u32, &data[..n * ch])?;
                let want = sut("match", || {
                    match_fingerprints(&fp, &fp, &cfg).map_err(|_| ())
                })?
                .map_err(|_| Stop::Violation("the library refused two fingerprints".into()))?;
                let c = tool("MON_COMPARE", &[f.arg(), f.arg()])?;
                c.success()?;
                let what = format!("compare of {what} with itself");
                check_table(&what, &c, &want, 1365.0 / 11025.0, obs)?;
                obs.count("damaged files compared", 1);
            }
        }
    } else {
        r.refused()?;
        ensure!(
            r.out.is_empty(),
            "`{}` failed but printed {:.100}",
            r.what,
            r.out
        );
        obs.count("truncated files refused", 1);
    }
    Ok(())
}

pub fn c30(rng: &mut Rng, idx: usize, _t: Tier, obs: &mut Obs) -> Res {
    let rate = cli_rate(rng);
    let channels = *rng.pick(&[1u32, 2]);
    let exts = [
        "wav", "flac", "mp3", "ogg", "mkv", "mp4", "aac", "aiff", "caf", "",
    ];
    let good = audio(rng, 11025, 1, 40_000)?.file;
    let both_tools = |obs: &mut Obs, path: &str, refuse: bool| -> Res {
        let r = tool("MON_FPCALC", &[path.to_string()])?;
        if refuse {
            r.refused()?;
            ensure!(
                r.out.is_empty(),
                "`{}` failed but printed {:.100}",
                r.what,
                r.out
            );
        } else {
            r.no_crash()?;
        }
        let c = tool("MON_COMPARE", &[path.to_string(), path.to_string()])?;
        if refuse {
            c.refused()?;
            ensure!(
                c.out.is_empty(),
                "`{}` failed but printed {:.100}",
                c.what,
                c.out
            );
            // one usable file does not help
            let usable = good.arg();
            for pair in [
                [path.to_string(), usable.clone()],
                [usable, path.to_string()],
            ] {
                let c = tool("MON_COMPARE", &pair)?;
                c.refused()?;
                ensure!(
                    c.out.is_empty(),
                    "`{}` failed but printed {:.100}",
                    c.what,
                    c.out
                );
            }
        } else {
            c.no_crash()?;
        }
        obs.count("unusable files", 1);
        Ok(())
    };
    let kind = idx % 10;
    obs.nontrivial(idx as u64 ^ rng.u64());
    match kind {
        0 => {
            // arguments that make no sense
            let a = audio(rng, rate, channels, 3000)?;
            let f = a.file.arg();
            let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
            let bad: Vec<Vec<String>> = vec![
                s(&["-a", "5", &f]),
                s(&["-a", "-1", &f]),
                s(&["-a", "x", &f]),
                s(&["-a", "256", &f]),
                s(&["-a", "", &f]),
                s(&["-a", &f]),
                s(&["--algorithm=99", &f]),
                s(&["-F", "xml", &f]),
                s(&["-F", "JSON", &f]),
                s(&["-l", "x", &f]),
                s(&["--length=-1", &f]),
                s(&["--chunk=-3", &f]),
                s(&["-C", "1.5", &f]),
                s(&["-l", "99999999999999999999999", &f]),
                s(&["--no-such-option", &f]),
                s(&[]),
                s(&[&f, &f]),
                s(&["-R"]),
            ];
            let args = rng.pick(&bad).clone();
            let r = tool("MON_FPCALC", &args)?;
            r.refused()?;
            ensure!(
                r.out.is_empty(),
                "`{}` failed but printed {:.100}",
                r.what,
                r.out
            );
            // and huge ones that do
            let huge = *rng.pick(&[
                "18446744073709551615",
                "9223372036854775807",
                "4294967296",
                "1000000000000",
            ]);
            let mut args = s(&["-R", rng.pick(&["-l", "-C"]), huge, &f]);
            if rng.chance(0.5) {
                args.insert(0, "-o".into());
            }
            let r = tool("MON_FPCALC", &args)?;
            r.success()?;
            let fp = fingerprint(&preset(1).s, rate, channels, &a.data)?;
            let items: Vec<String> = fp.iter().map(u32::to_string).collect();
            ensure!(
                r.out
                    .contains(&format!("FINGERPRINT={}\n", items.join(","))),
                "`{}`: wrong output {:.200}",
                r.what,
                r.out
            );
            // the comparison tool wants two files and says so
            let n = *rng.pick(&[0usize, 1, 3]);
            let c = tool("MON_COMPARE", &vec![f.clone(); n])?;
            c.refused()?;
            ensure!(
                c.out.is_empty(),
                "compare with {n} files printed {:.100}",
                c.out
            );
            obs.count("rejected arguments", 1);
        }
        1 => {
            let dir = std::env::var("MON_SCRATCH").unwrap_or_default();
            let missing = Scratch::path("wav")?;
            let p = match rng.below(3) {
                0 => missing.arg(),
                1 => dir,
                _ => format!("{dir}/no/such/dir/x.wav"),
            };
            both_tools(obs, &p, true)?;
        }
        2 => {
            let n = *rng.pick(&[0usize, 1, 3, 4, 11, 43, 44, 500, 20_000, 200_000]);
            // zero bytes or text hold no sync marker of any format; noise may contain one
            let (d, refuse): (Vec<u8>, bool) = match rng.below(3) {
                0 => (vec![0u8; n], true),
                1 => ((0..n).map(|_| b"abc \n"[rng.below(5)]).collect(), true),
                _ => ((0..n).map(|_| rng.u32() as u8).collect(), n < 44),
            };
            let f = Scratch::new(rng.pick(&exts), &d)?;
            both_tools(obs, &f.arg(), refuse)?;
        }
        3 => {
            // headers that promise too much, too little or nonsense
            let data = signal::generate(rng, "white", 20_000, rate);
            let (bad_rate, ch, bits) = match rng.below(6) {
                // (a rate of 0 trips an assertion of the decoder library, not of the tools)
                0 | 1 => (rng.range(1, 1000) as u32, 1u16, 16u16),
                2 => (*rng.pick(&[1_000_000_000u32, u32::MAX, 1 << 31]), 1, 16),
                3 => (rate, 0, 16),
                4 => (rate, 1, *rng.pick(&[0u16, 1, 12, 64, 65535])),
                _ => (rate, *rng.pick(&[33u16, 255, 65535]), 16),
            };
            let mut b = vec![];
            wav::header(&mut b, bad_rate, ch, bits, data.len() * 2);
            for s in &data {
                b.extend_from_slice(&s.to_le_bytes());
            }
            let refuse = bad_rate <= 1000;
            let f = Scratch::new("wav", &b)?;
            both_tools(obs, &f.arg(), refuse)?;
        }
        4 | 5 => {
            // a file that ends early: an error, or the fingerprint of what was there
            let frames = (rng.frange(0.5, 8.0) * f64::from(rate)) as usize;
            let a = audio(rng, rate, channels, frames)?;
            let b = file_bytes(&a)?;
            let keep = match rng.below(4) {
                0 => rng.below(200.min(b.len())),
                _ => rng.below(b.len()),
            };
            let ext = a
                .file
                .0
                .extension()
                .and_then(|e| e.to_str())
                .unwrap_or("")
                .to_string();
            let f = Scratch::new(&ext, &b[..keep])?;
            let what = format!("{} cut to {keep} of {} bytes", a.what, b.len());
            prefix_or_refusal(rng, obs, &f, &what, rate, channels as usize, &a.data)?;
            tool("MON_COMPARE", &[f.arg(), a.file.arg()])?.no_crash()?;
        }
        7 => {
            // the container announces another number of channels than the encoded audio has
            let frames = (rng.frange(0.3, 4.0) * f64::from(rate)) as usize + 1;
            let data = signal::generate(rng, "melody", frames * channels as usize, rate);
            let announced = match rng.below(3) {
                0 => 3,
                1 => 6,
                _ => 3 - channels as usize,
            };
            let b = wav::mkv_announcing(
                &[(rate, channels as usize, &data)],
                rng.range(100, 5000),
                rng.chance(0.3),
                Some(announced),
            );
            let f = Scratch::new("mkv", &b)?;
            both_tools(obs, &f.arg(), true)?;
            obs.count("files with contradictory channels", 1);
        }
        8 => {
            // damage that checksums do not give away
            let n = rng.range(2000, 30_000);
            let data = signal::generate(rng, "white", n * channels as usize, rate);
            let ch = channels as usize;
            let (mut b, ext, head) = match rng.below(6) {
                0 => (wav::wav16(rate, channels as u16, &data), "wav", 44),
                1 => (wav::wav_float(rate, channels as u16, &data), "wav", 44),
                2 => (wav::aiff(rate, channels as u16, &data), "aiff", 54),
                3 => (wav::caf(rate, channels, &data), "caf", 68),
                4 => (
                    wav::mkv(&[(rate, ch, &data)], 1000, rng.chance(0.3)),
                    "mkv",
                    520,
                ),
                _ => (wav::flac_mutant(rng, rate, ch, &data, 1152), "flac", 0),
            };
            if head > 0 {
                for _ in 0..rng.range(1, 4) {
                    let i = rng.below(head);
                    b[i] = if rng.chance(0.5) {
                        b[i] ^ 1 << rng.below(8)
                    } else {
                        *rng.pick(&[0u8, 1, 2, 3, 4, 8, 0x7f, 0x80, 0xff])
                    };
                }
            }
            let f = Scratch::new(ext, &b)?;
            let mut args = vec![f.arg()];
            if rng.chance(0.5) {
                args.extend(["-C".to_string(), "1".to_string()]);
                if rng.chance(0.5) {
                    args.push("-o".into());
                }
            }
            let r = tool("MON_FPCALC", &args)?;
            let c = tool("MON_COMPARE", &[f.arg(), f.arg()])?;
            for t in [&r, &c] {
                if t.decoder_crash() {
                    obs.count("failures inside the decoding library", 1);
                } else {
                    t.no_crash()?;
                    obs.count("files with altered headers survived", 1);
                }
            }
        }
        9 => {
            // a packet the decoder rejects: fpcalc gives up, compare leaves it out
            let ch = channels as usize;
            let block = 1152;
            let blocks = if rng.chance(0.3) {
                rng.range(100, 500)
            } else {
                rng.range(3, 40)
            };
            let k = rng.below(blocks);
            let data = signal::generate(rng, "melody", block * blocks * ch, rate);
            let b = wav::flac_reserved(rate, ch, &data, block, k);
            let f = Scratch::new("flac", &b)?;
            let r = tool("MON_FPCALC", &[f.arg(), "-l".into(), "0".into()])?;
            r.refused()?;
            ensure!(
                r.out.is_empty(),
                "`{}` failed but printed {:.100}",
                r.what,
                r.out
            );
            // compared with the same audio without that packet
            let mut rest = data.clone();
            rest.drain(k * block * ch..(k + 1) * block * ch);
            let whole = Scratch::new("wav", &wav::wav16(rate, channels as u16, &rest))?;
            let c = tool("MON_COMPARE", &[f.arg(), whole.arg()])?;
            c.success()?;
            let cfg = Configuration::preset_test1();
            let fp = fingerprint(&cfg, rate, channels, &rest)?;
            let want = sut("match", || {
                match_fingerprints(&fp, &fp, &cfg).map_err(|_| ())
            })?
            .map_err(|_| Stop::Violation("the library refused two fingerprints".into()))?;
            let item = 1365.0 / 11025.0;
            check_table(
                "compare of a file with a rejected packet",
                &c,
                &want,
                item,
                obs,
            )?;
            obs.count("files with a rejected packet", 1);
            // the stream cannot be continued: an unsupported frame, or another one follows
            let (b, ext, data) = if rng.chance(0.5) {
                let mono = signal::generate(rng, "melody", block * blocks, rate);
                (
                    wav::flac_unsupported(rate, &mono, block, k),
                    "flac",
                    (mono, 1),
                )
            } else {
                let mut b = wav::ogg_flac(rate, ch, &data, block, 7);
                b.extend(wav::ogg_flac(rate, ch, &data, block, 8));
                (b, "ogg", ([&data[..], &data[..]].concat(), ch))
            };
            let f = Scratch::new(ext, &b)?;
            let what = format!("{ext} file of a stream that cannot be continued");
            prefix_or_refusal(rng, obs, &f, &what, rate, data.1, &data.0)?;
            tool("MON_COMPARE", &[f.arg(), f.arg()])?.no_crash()?;
            obs.count("streams that cannot be continued", 1);
        }
        _ => {
            // damaged content
            let frames = (rng.frange(0.3, 4.0) * f64::from(rate)) as usize;
            let data = signal::generate(rng, "melody", frames, rate);
            let (mut b, ext, head) = match rng.below(3) {
                0 => (wav::flac16(rate, 1, &data, 1152), "flac", 42),
                1 => (wav::wav16(rate, 1, &data), "wav", 44),
                _ => (
                    // many small blocks: much of the damage hits the container
                    wav::mkv(&[(rate, 1, &data)], rng.range(16, 60), rng.chance(0.3)),
                    "mkv",
                    400,
                ),
            };
            for _ in 0..rng.range(1, 30) {
                let i = head + rng.below(b.len() - head);
                b[i] ^= 1 << rng.below(8);
            }
            let f = Scratch::new(ext, &b)?;
            let r = tool("MON_FPCALC", &[f.arg()])?;
            if ext == "mkv" && r.decoder_crash() {
                obs.count("failures inside the decoding library", 1);
                return Ok(());
            }
            r.no_crash()?;
            if r.code == Some(0) {
                obs.count("damaged files with a result", 1);
            } else {
                r.refused()?;
                obs.count("damaged files refused", 1);
            }
            let c = tool("MON_COMPARE", &[f.arg(), f.arg()])?;
            if ext != "mkv" || !c.decoder_crash() {
                c.no_crash()?;
            }
        }
    }
    Ok(())
}

fn clock(s: &str) -> Option<f64> {
    let p: Vec<&str> = s.trim().split(':').collect();
    let [h, m, s] = p[..] else { return None };
    if m.len() != 2 || s.len() != 5 || s.as_bytes()[2] != b'.' {
        return None;
    }
    let (h, m, s) = (
        h.parse::<u32>().ok()?,
        m.parse::<u32>().ok()?,
        s.parse::<f64>().ok()?,
    );
    if m > 59 || s >= 60.0 {
        return None;
    }
    Some(f64::from(h) * 3600.0 + f64::from(m) * 60.0 + s)
}

/// The output of compare has to be the table of the segments.
fn check_table(what: &str, run: &Run, want: &[Segment], item: f64, obs: &mut Obs) -> Res {
    let lines: Vec<&str> = run.out.lines().collect();
    ensure!(
        lines.len() == 2 + want.len(),
        "{what}: {} rows, expected {}",
        lines.len().saturating_sub(2),
        want.len()
    );
    ensure!(
        lines[0].contains('#') && ["File 1", "File 2", "Duration", "Score"].windows(2).all(|w| matches!((lines[0].find(w[0]), lines[0].find(w[1])), (Some(a), Some(b)) if a < b)),
        "compare: unexpected heading {:?}", lines[0]
    );
    ensure!(
        lines[1].bytes().all(|c| c == b'-' || c == b'+'),
        "compare: unexpected second line {:?}",
        lines[1]
    );
    for (k, (l, w)) in lines[2..].iter().zip(want).enumerate() {
        let bad = || Stop::Violation(format!("{what}: row {k} is {l:?}, expected segment {w:?}"));
        let cells: Vec<&str> = l.split('|').map(str::trim).collect();
        let [no, one, two, dur, score] = cells[..] else {
            return Err(bad());
        };
        let range = |s: &str| -> Option<(f64, f64)> {
            let (x, y) = s.split_once(" -- ")?;
            Some((clock(x)?, clock(y)?))
        };
        let (s1, e1) = range(one).ok_or_else(bad)?;
        let (s2, e2) = range(two).ok_or_else(bad)?;
        let d = clock(dur).ok_or_else(bad)?;
        let score: f64 = score.parse().map_err(|_| bad())?;
        let close = |x: f64, items: usize| {
            let e = items as f64 * item;
            (x - e).abs() <= 0.0051 + e * 1e-6
        };
        let (o1, o2, len) = (w.offset1, w.offset2, w.items_count);
        let ok = no == (k + 1).to_string()
            && close(s1, o1)
            && close(e1, o1 + len)
            && close(s2, o2)
            && close(e2, o2 + len)
            && close(d, len)
            && (score - w.score).abs() <= 0.0051;
        if !ok {
            return Err(bad());
        }
        obs.count("rows compared", 1);
        if e1.max(e2) >= 7200.0 {
            obs.count("times past two hours", 1);
        } else if e1.max(e2) >= 3600.0 {
            obs.count("times past one hour", 1);
        } else if e1.max(e2) >= 60.0 {
            obs.count("times past one minute", 1);
        }
        obs.nontrivial(hash_u32s(&[
            o1 as u32,
            o2 as u32,
            len as u32,
            (w.score * 1e6) as u32,
        ]));
    }
    Ok(())
}

pub fn c31(rng: &mut Rng, idx: usize, tier: Tier, obs: &mut Obs) -> Res {
    let cfg = Configuration::preset_test1();
    let item = 1365.0 / 11025.0;
    let (rate, total) = if idx % 60 == 7 {
        (1001u32, rng.frange(3500.0, 4000.0)) // more than an hour
    } else if idx % 120 == 27 {
        (11025, rng.frange(40.0, 300.0))
    } else {
        (
            *rng.pick(&[8000u32, 11025, 11025, 16000, 22050, 44100]),
            rng.frange(5.0, 70.0),
        )
    };
    let fr = f64::from(rate);
    let n = (total * fr) as usize;
    let z = rng.frange(0.0, 0.4);
    let mut first = signal::melody(rng, n, rate, 9000.0, z);
    if idx % 120 == 27 {
        // several hours, with what matters at the end
        let lead = if thorough(tier) && idx < 120 {
            40_000.0
        } else {
            rng.frange(7250.0, 8500.0)
        };
        let mut x = rng.u32();
        let mut v: Vec<i16> = (0..(lead * fr) as usize)
            .map(|_| {
                x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                (x >> 18) as i16 - 8192
            })
            .collect();
        v.append(&mut first);
        first = v;
    }
    let second: Vec<i16> = match rng.below(5) {
        _ if idx % 120 == 27 => first[first.len() - n / 2..].to_vec(),
        0 => signal::melody(rng, n / 2, rate, 9000.0, 0.2),
        1 => first.clone(),
        _ => {
            // stretches of the first with other things in between
            let mut v = vec![];
            for _ in 0..rng.range(1, 3) {
                if rng.chance(0.6) {
                    let k = (rng.frange(0.5, 6.0) * fr) as usize;
                    v.extend(signal::melody(rng, k, rate, 9000.0, 0.1));
                }
                let from = rng.below(n);
                let to = rng.range(from, n);
                v.extend(&first[from..to]);
            }
            v
        }
    };
    let a = write_audio(rng, rate, 1, first, "music")?;
    let ch = *rng.pick(&[1u32, 2]);
    let second: Vec<i16> = second
        .iter()
        .flat_map(|v| std::iter::repeat_n(*v, ch as usize))
        .collect();
    if second.is_empty() {
        return Ok(());
    }
    let b = write_audio(rng, rate, ch, second, "music with parts of the first")?;
    let fa = fingerprint(&cfg, a.rate, a.channels, &a.data)?;
    let fb = fingerprint(&cfg, b.rate, b.channels, &b.data)?;
    let want = sut("match", || {
        match_fingerprints(&fa, &fb, &cfg).map_err(|_| ())
    })?
    .map_err(|_| Stop::Violation("the library refused two fingerprints".into()))?;
    let r = tool("MON_COMPARE", &[a.file.arg(), b.file.arg()])?;
    r.success()?;
    let what = format!("compare {} with {}", a.what, b.what);
    check_table(&what, &r, &want, item, obs)?;
    if want.len() > 1 {
        obs.count("tables of several rows", 1);
    }
    obs.sample(|| format!("compare {} with {}: {} rows", a.what, b.what, want.len()));
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C27", rule: "WAV (8, 16, 24, 32 bit), FLAC and multi-track Matroska files of 1 to 8 channels, every output format, algorithm and length limit; the printed result against the library on the same samples; non-trivial: a distinct fingerprint with at least two different items", quick: 500, thorough: 15_000, min_nontrivial: 200, must_observe: &["results compared", "durations compared", "files cut by the length limit"], assumptions: &["the decoder library returns the samples the files were written from"], case: c27 },
    Prop { id: "C28", rule: "files split into chunks of 1 to 7 s with lengths at and around multiples of the chunk; every chunk against the library on its frames; non-trivial: a distinct fingerprint with at least two different items", quick: 300, thorough: 10_000, min_nontrivial: 200, must_observe: &["files of several chunks", "durations compared", "timestamps compared"], assumptions: &["the decoder library returns the samples the files were written from"], case: c28 },
    Prop { id: "C29", rule: "files split into overlapping chunks; every chunk against the library on its frames and those of the overlap; non-trivial: a distinct fingerprint with at least two different items", quick: 300, thorough: 10_000, min_nontrivial: 200, must_observe: &["files of several chunks", "durations compared", "timestamps compared"], assumptions: &["the decoder library returns the samples the files were written from"], case: c29 },
    Prop { id: "C30", rule: "missing, empty, random, truncated, damaged files, nonsensical headers, packets the decoder rejects, containers that contradict the audio, and arguments; exit status, messages and output of both tools; non-trivial: every case is a distinct file or command line", quick: 1000, thorough: 30_000, min_nontrivial: 400, must_observe: &["unusable files", "rejected arguments", "truncated files with a prefix fingerprint", "truncated files refused", "damaged files with a result", "files with contradictory channels", "files with altered headers survived", "files with a rejected packet", "streams that cannot be continued", "damaged files compared"], assumptions: &["a wall-clock timeout of a tool that used little CPU time is inconclusive"], case: c30 },
    Prop { id: "C31", rule: "pairs of files sharing stretches, up to more than an hour long; the printed table against the library's segments; non-trivial: a distinct row", quick: 240, thorough: 8000, min_nontrivial: 120, must_observe: &["rows compared", "tables of several rows", "times past one hour", "times past one minute"], assumptions: &["times may be rounded either way at half a hundredth of a second"], case: c31 },
    Prop { id: "C35", rule: "fpcalc on a named pipe that is filled step by step: results due must be out when everything written was read, timestamps within the moments of the monitor's clock, memory by the high-water mark; non-trivial: a distinct fingerprint with at least two different items", quick: 200, thorough: 4000, min_nontrivial: 100, must_observe: &["results before the end of the stream", "streams ended at the limit", "long streams", "moments compared"], assumptions: &["a program that has read everything and sleeps, using no CPU time for 0.1 s, waits for more input", "the decoder reads ahead no more than 128 KiB"], case: c35 },
];
