//! Minimal writers for audio files: WAV (8/16/24/32 bit PCM, float), AIFF, CAF, FLAC with verbatim
//! subframes, Matroska with several FLAC tracks; and ways to damage them.

pub fn wav16(rate: u32, channels: u16, data: &[i16]) -> Vec<u8> {
    wav_pcm(rate, channels, 16, data)
}

/// PCM of 8, 16, 24 or 32 bits whose high 16 (8) bits are the samples.
pub fn wav_pcm(rate: u32, channels: u16, bits: u16, data: &[i16]) -> Vec<u8> {
    let mut b = Vec::new();
    header(
        &mut b,
        rate,
        channels,
        bits,
        data.len() * usize::from(bits) / 8,
    );
    for s in data {
        match bits {
            8 => b.push(((s >> 8) as u8) ^ 0x80),
            16 => b.extend_from_slice(&s.to_le_bytes()),
            24 => b.extend_from_slice(&(i32::from(*s) << 8).to_le_bytes()[..3]),
            _ => b.extend_from_slice(&(i32::from(*s) << 16).to_le_bytes()),
        }
    }
    b
}

/// 32-bit float WAV.
pub fn wav_float(rate: u32, channels: u16, data: &[i16]) -> Vec<u8> {
    let mut b = Vec::new();
    header(&mut b, rate, channels, 32, data.len() * 4);
    b[20] = 3;
    for s in data {
        b.extend_from_slice(&(f32::from(*s) / 32768.0).to_le_bytes());
    }
    b
}

/// 16-bit AIFF.
pub fn aiff(rate: u32, channels: u16, data: &[i16]) -> Vec<u8> {
    let mut comm = channels.to_be_bytes().to_vec();
    comm.extend_from_slice(&((data.len() / usize::from(channels)) as u32).to_be_bytes());
    comm.extend_from_slice(&16u16.to_be_bytes());
    // the rate as an extended float
    let e = 31 - rate.leading_zeros();
    comm.extend_from_slice(&(16383 + e as u16).to_be_bytes());
    comm.extend_from_slice(&(u64::from(rate) << (63 - e)).to_be_bytes());
    let mut ssnd = vec![0u8; 8];
    for s in data {
        ssnd.extend_from_slice(&s.to_be_bytes());
    }
    let mut body = b"AIFF".to_vec();
    for (id, c) in [(b"COMM", &comm), (b"SSND", &ssnd)] {
        body.extend_from_slice(id);
        body.extend_from_slice(&(c.len() as u32).to_be_bytes());
        body.extend_from_slice(c);
    }
    let mut b = b"FORM".to_vec();
    b.extend_from_slice(&(body.len() as u32).to_be_bytes());
    b.extend(body);
    b
}

/// 16-bit CAF, mono or stereo.
pub fn caf(rate: u32, channels: u32, data: &[i16]) -> Vec<u8> {
    let mut b = b"caff\0\x01\0\0desc".to_vec();
    b.extend_from_slice(&32u64.to_be_bytes());
    b.extend_from_slice(&f64::from(rate).to_be_bytes());
    b.extend_from_slice(b"lpcm");
    for v in [2, channels * 2, 1, channels, 16] {
        b.extend_from_slice(&v.to_be_bytes());
    }
    b.extend_from_slice(b"data");
    b.extend_from_slice(&(4 + data.len() as u64 * 2).to_be_bytes());
    b.extend_from_slice(&0u32.to_be_bytes());
    for s in data {
        b.extend_from_slice(&s.to_le_bytes());
    }
    b
}

pub fn header(b: &mut Vec<u8>, rate: u32, channels: u16, bits: u16, size: usize) {
    b.extend_from_slice(b"RIFF");
    b.extend_from_slice(&((size + 36) as u32).to_le_bytes());
    b.extend_from_slice(b"WAVEfmt ");
    b.extend_from_slice(&16u32.to_le_bytes());
    b.extend_from_slice(&1u16.to_le_bytes());
    b.extend_from_slice(&channels.to_le_bytes());
    b.extend_from_slice(&rate.to_le_bytes());
    let block = channels.wrapping_mul(bits) / 8;
    b.extend_from_slice(&rate.wrapping_mul(u32::from(block)).to_le_bytes());
    b.extend_from_slice(&block.to_le_bytes());
    b.extend_from_slice(&bits.to_le_bytes());
    b.extend_from_slice(b"data");
    b.extend_from_slice(&(size as u32).to_le_bytes());
}

struct Bits {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u64, w: u32) {
        for i in (0..w).rev() {
            self.acc = self.acc << 1 | (v >> i & 1);
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
}

fn crc8(d: &[u8]) -> u8 {
    let mut c = 0u8;
    for b in d {
        c ^= b;
        for _ in 0..8 {
            c = if c & 0x80 != 0 { c << 1 ^ 7 } else { c << 1 };
        }
    }
    c
}
fn crc16(d: &[u8]) -> u16 {
    let mut c = 0u16;
    for b in d {
        c ^= u16::from(*b) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 {
                c << 1 ^ 0x8005
            } else {
                c << 1
            };
        }
    }
    c
}

fn utf8ish(v: u64, out: &mut Vec<u8>) {
    if v < 0x80 {
        out.push(v as u8);
    } else if v < 0x800 {
        out.push(0xC0 | (v >> 6) as u8);
        out.push(0x80 | (v & 63) as u8);
    } else if v < 0x10000 {
        out.push(0xE0 | (v >> 12) as u8);
        out.push(0x80 | (v >> 6 & 63) as u8);
        out.push(0x80 | (v & 63) as u8);
    } else {
        if v < 0x20_0000 {
            out.push(0xF0 | (v >> 18) as u8);
        } else {
            out.push(0xF8 | (v >> 24) as u8);
            out.push(0x80 | (v >> 18 & 63) as u8);
        }
        out.push(0x80 | (v >> 12 & 63) as u8);
        out.push(0x80 | (v >> 6 & 63) as u8);
        out.push(0x80 | (v & 63) as u8);
    }
}

/// Stream info and frames of 16-bit FLAC with verbatim subframes and a fixed block size
/// (16..=65535); 1..=8 channels.
fn flac_parts(rate: u32, channels: usize, data: &[i16], block: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    flac_blocks(rate, channels, data, &[block])
}

/// The same with blocks of different sizes, if there are several: they are used in turns, the
/// last one until the end.
fn flac_blocks(
    rate: u32,
    channels: usize,
    data: &[i16],
    blocks: &[usize],
) -> (Vec<u8>, Vec<Vec<u8>>) {
    let variable = blocks.len() > 1;
    let frames = data.len() / channels;
    let mut s = Bits {
        out: vec![],
        acc: 0,
        n: 0,
    };
    s.put(*blocks.iter().min().unwrap() as u64, 16);
    s.put(*blocks.iter().max().unwrap() as u64, 16);
    s.put(0, 24);
    s.put(0, 24);
    s.put(u64::from(rate), 20);
    s.put(channels as u64 - 1, 3);
    s.put(15, 5);
    s.put(frames as u64, 36);
    let mut info = s.out;
    info.extend([0u8; 16]); // no MD5
    let mut out = vec![];
    let mut at = 0;
    let mut no = 0u64;
    while at < frames {
        let len = blocks[(no as usize).min(blocks.len() - 1)].min(frames - at);
        let sync = if variable { 0xF9 } else { 0xF8 };
        let mut h = vec![0xFF, sync, 0x70, ((channels as u8 - 1) << 4) | 0b1000];
        utf8ish(if variable { at as u64 } else { no }, &mut h);
        h.extend_from_slice(&((len - 1) as u16).to_be_bytes());
        let c = crc8(&h);
        h.push(c);
        for ch in 0..channels {
            h.push(0b0000_0010);
            for i in at..at + len {
                h.extend_from_slice(&data[i * channels + ch].to_be_bytes());
            }
        }
        let c = crc16(&h);
        h.extend_from_slice(&c.to_be_bytes());
        out.push(h);
        at += len;
        no += 1;
    }
    (info, out)
}

pub fn flac_variable(rate: u32, channels: usize, data: &[i16], blocks: &[usize]) -> Vec<u8> {
    let (info, frames) = flac_blocks(rate, channels, data, blocks);
    let mut f = b"fLaC".to_vec();
    f.extend_from_slice(&[0x80, 0, 0, 34]);
    f.extend(info);
    f.extend(frames.concat());
    f
}

pub fn flac16(rate: u32, channels: usize, data: &[i16], block: usize) -> Vec<u8> {
    let (info, frames) = flac_parts(rate, channels, data, block);
    let mut f = b"fLaC".to_vec();
    f.extend_from_slice(&[0x80, 0, 0, 34]);
    f.extend(info);
    f.extend(frames.concat());
    f
}

/// FLAC with changes inside the frames but correct checksums, so that only the decoder notices.
pub fn flac_mutant(
    rng: &mut crate::rng::Rng,
    rate: u32,
    channels: usize,
    data: &[i16],
    block: usize,
) -> Vec<u8> {
    let (mut info, mut frames) = flac_parts(rate, channels, data, block);
    if rng.chance(0.3) {
        let i = rng.below(info.len());
        info[i] ^= 1 << rng.below(8);
    }
    for _ in 0..rng.range(1, 3) {
        let k = rng.below(frames.len());
        let f = &mut frames[k];
        let n = f.len();
        let mut head = 5;
        while head < 12 && crc8(&f[..head]) != f[head] {
            head += 1;
        }
        for _ in 0..rng.range(1, 4) {
            let i = match rng.below(3) {
                0 => rng.range(2, head - 1),
                1 => head + 1,
                _ => rng.range(head + 1, (head + 20).min(n - 3)),
            };
            f[i] = match rng.below(3) {
                0 => *rng.pick(&[0u8, 1, 2, 4, 0x7f, 0x80, 0xff]),
                _ => f[i] ^ 1 << rng.below(8),
            };
        }
        f[head] = crc8(&f[..head]);
        let c = crc16(&f[..n - 2]);
        f[n - 2..].copy_from_slice(&c.to_be_bytes());
    }
    let mut f = b"fLaC".to_vec();
    f.extend_from_slice(&[0x80, 0, 0, 34]);
    f.extend(info);
    f.extend(frames.concat());
    f
}

/// FLAC whose frame `k` has subframes of a reserved type, with correct checksums.
pub fn flac_reserved(rate: u32, channels: usize, data: &[i16], block: usize, k: usize) -> Vec<u8> {
    let (info, mut frames) = flac_parts(rate, channels, data, block);
    let f = &mut frames[k];
    let n = f.len();
    // sync and description, number (one byte below 128), length
    let mut head = if k < 128 { 7 } else { 8 };
    while crc8(&f[..head]) != f[head] {
        head += 1;
    }
    f[head + 1] = 0b0000_0100;
    let c = crc16(&f[..n - 2]);
    f[n - 2..].copy_from_slice(&c.to_be_bytes());
    let mut f = b"fLaC".to_vec();
    f.extend_from_slice(&[0x80, 0, 0, 34]);
    f.extend(info);
    f.extend(frames.concat());
    f
}

/// FLAC whose frame `k` needs something Symphonia does not support (a negative prediction shift).
pub fn flac_unsupported(rate: u32, data: &[i16], block: usize, k: usize) -> Vec<u8> {
    let (info, mut frames) = flac_parts(rate, 1, data, block);
    let f = &mut frames[k];
    // sync and description, number (one byte below 128), length
    let mut head = if k < 128 { 7 } else { 8 };
    while crc8(&f[..head]) != f[head] {
        head += 1;
    }
    let mut s = Bits {
        out: vec![],
        acc: 0,
        n: 0,
    };
    // linear prediction of order 1; first sample, precision, shift, coefficient, then one
    // partition of residuals of zero bits
    for (v, w) in [
        (0x40, 8),
        (5, 16),
        (1, 4),
        (16, 5),
        (1, 2),
        (0, 2),
        (0, 4),
        (15, 4),
        (0, 5),
        (0, 6),
    ] {
        s.put(v, w);
    }
    f.truncate(head + 1);
    f.extend(s.out);
    let c = crc16(f);
    f.extend_from_slice(&c.to_be_bytes());
    let mut f = b"fLaC".to_vec();
    f.extend_from_slice(&[0x80, 0, 0, 34]);
    f.extend(info);
    f.extend(frames.concat());
    f
}

fn ogg_page(
    out: &mut Vec<u8>,
    flags: u8,
    granule: u64,
    serial: u32,
    seq: &mut u32,
    packets: &[&[u8]],
) {
    let mut lacing = vec![];
    for p in packets {
        lacing.extend(std::iter::repeat_n(255u8, p.len() / 255));
        lacing.push((p.len() % 255) as u8);
    }
    assert!(lacing.len() <= 255);
    let mut page = b"OggS\0".to_vec();
    page.push(flags);
    page.extend(granule.to_le_bytes());
    page.extend(serial.to_le_bytes());
    page.extend(seq.to_le_bytes());
    page.extend([0u8; 4]);
    page.push(lacing.len() as u8);
    page.extend(lacing);
    for p in packets {
        page.extend_from_slice(p);
    }
    let mut c = 0u32;
    for b in &page {
        c ^= u32::from(*b) << 24;
        for _ in 0..8 {
            c = if c >> 31 != 0 {
                c << 1 ^ 0x04C1_1DB7
            } else {
                c << 1
            };
        }
    }
    page[22..26].copy_from_slice(&c.to_le_bytes());
    out.extend(page);
    *seq += 1;
}

/// FLAC in Ogg; packets must stay below 60,000 bytes.
pub fn ogg_flac(rate: u32, channels: usize, data: &[i16], block: usize, serial: u32) -> Vec<u8> {
    let (info, frames) = flac_parts(rate, channels, data, block);
    let mut out = vec![];
    let mut seq = 0;
    let mut first = b"\x7fFLAC\x01\x00\x00\x01fLaC".to_vec();
    first.extend_from_slice(&[0, 0, 0, 34]);
    first.extend(info);
    ogg_page(&mut out, 2, 0, serial, &mut seq, &[&first]);
    let mut comment = vec![0x84, 0, 0, 9, 1, 0, 0, 0];
    comment.extend(b"w\0\0\0\0");
    ogg_page(&mut out, 0, 0, serial, &mut seq, &[&comment]);
    let total = data.len() / channels;
    let mut at = 0;
    for (k, f) in frames.iter().enumerate() {
        at = (at + block).min(total);
        let last = k + 1 == frames.len();
        ogg_page(
            &mut out,
            if last { 4 } else { 0 },
            at as u64,
            serial,
            &mut seq,
            &[f],
        );
    }
    out
}

fn ebml(id: u32, body: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = id
        .to_be_bytes()
        .into_iter()
        .skip_while(|b| *b == 0)
        .collect();
    v.extend_from_slice(&(0x0100_0000_0000_0000u64 | body.len() as u64).to_be_bytes());
    v.extend_from_slice(body);
    v
}
fn ebml_uint(id: u32, v: u64) -> Vec<u8> {
    ebml(id, &v.to_be_bytes())
}

/// Matroska file with several FLAC tracks (mono or stereo), their blocks interleaved; `video` puts
/// a track of an unknown codec in front.
pub fn mkv(tracks: &[(u32, usize, &[i16])], block: usize, video: bool) -> Vec<u8> {
    mkv_announcing(tracks, block, video, None)
}

/// The same with another number of channels in the container than in the encoded audio.
pub fn mkv_announcing(
    tracks: &[(u32, usize, &[i16])],
    block: usize,
    video: bool,
    announced: Option<usize>,
) -> Vec<u8> {
    let mut head = vec![];
    for (id, v) in [(0x4286u32, 1u64), (0x42F7, 1), (0x42F2, 4), (0x42F3, 8)] {
        head.extend(ebml_uint(id, v));
    }
    head.extend(ebml(0x4282, b"matroska"));
    head.extend(ebml_uint(0x4287, 4));
    head.extend(ebml_uint(0x4285, 2));
    let mut info = ebml_uint(0x002A_D7B1, 1_000_000);
    info.extend(ebml(0x4D80, b"w"));
    info.extend(ebml(0x5741, b"w"));
    // tracks are numbered upwards or downwards; the order of their entries is what counts
    let (number, video_number): (Box<dyn Fn(usize) -> u64>, u64) = if block % 2 == 0 {
        (Box::new(|k| k as u64 + 1), 100)
    } else {
        (Box::new(|k| 60 - k as u64), 2)
    };
    let mut list = vec![];
    if video {
        let mut t = ebml_uint(0xD7, video_number);
        t.extend(ebml_uint(0x73C5, video_number));
        t.extend(ebml_uint(0x83, 1));
        t.extend(ebml(0x86, b"V_UNKNOWN"));
        list.extend(ebml(0xAE, &t));
    }
    let mut blocks: Vec<Vec<Vec<u8>>> = vec![];
    for (k, (rate, channels, data)) in tracks.iter().enumerate() {
        let (si, frames) = flac_parts(*rate, *channels, data, block);
        let mut t = ebml_uint(0xD7, number(k));
        t.extend(ebml_uint(0x73C5, number(k)));
        t.extend(ebml_uint(0x83, 2));
        t.extend(ebml(0x86, b"A_FLAC"));
        let mut private = b"fLaC".to_vec();
        private.extend_from_slice(&[0x80, 0, 0, 34]);
        private.extend(si);
        t.extend(ebml(0x63A2, &private));
        let mut a = ebml(0xB5, &f64::from(*rate).to_be_bytes());
        a.extend(ebml_uint(0x9F, announced.unwrap_or(*channels) as u64));
        a.extend(ebml_uint(0x6264, 16));
        t.extend(ebml(0xE1, &a));
        list.extend(ebml(0xAE, &t));
        blocks.push(frames);
    }
    let mut cluster = ebml_uint(0xE7, 0);
    let most = blocks.iter().map(Vec::len).max().unwrap_or(0);
    for i in 0..most {
        if video {
            cluster.extend(ebml(
                0xA3,
                &[0x80 | video_number as u8, 0, 0, 0x80, 1, 2, 3],
            ));
        }
        for (k, b) in blocks.iter().enumerate() {
            if let Some(f) = b.get(i) {
                let mut s = vec![0x80 | number(k) as u8, 0, 0, 0x80];
                s.extend_from_slice(f);
                cluster.extend(ebml(0xA3, &s));
            }
        }
    }
    let mut seg = ebml(0x1549_A966, &info);
    seg.extend(ebml(0x1654_AE6B, &list));
    seg.extend(ebml(0x1F43_B675, &cluster));
    let mut out = ebml(0x1A45_DFA3, &head);
    out.extend(ebml(0x1853_8067, &seg));
    out
}
