//! Independent encoder and decoder of the compressed fingerprint format (as published for
//! Chromaprint): 4-byte header (algorithm, 24-bit big-endian item count), then all 3-bit values,
//! then all 5-bit exceptions, each stream packed least significant bit first and padded with zero
//! bits to a whole byte. Items are XORed with their predecessor; each set bit is written as the
//! distance from the previous set bit (1-based); 0 ends an item; 7 or more is 7 plus an exception.

struct BitWriter {
    out: Vec<u8>,
    bits: usize,
}
impl BitWriter {
    fn put(&mut self, v: u32, width: usize) {
        for i in 0..width {
            if self.bits % 8 == 0 {
                self.out.push(0);
            }
            if v >> i & 1 == 1 {
                *self.out.last_mut().unwrap() |= 1 << (self.bits % 8);
            }
            self.bits += 1;
        }
    }
}

pub fn encode(id: u8, fp: &[u32]) -> Vec<u8> {
    let n = fp.len();
    let mut normal = BitWriter {
        out: vec![],
        bits: 0,
    };
    let mut exc = BitWriter {
        out: vec![],
        bits: 0,
    };
    let mut prev = 0u32;
    for &item in fp {
        let mut x = item ^ prev;
        prev = item;
        let mut last = 0;
        while x != 0 {
            let pos = x.trailing_zeros() + 1;
            x &= x - 1;
            let d = pos - last;
            last = pos;
            if d >= 7 {
                normal.put(7, 3);
                exc.put(d - 7, 5);
            } else {
                normal.put(d, 3);
            }
        }
        normal.put(0, 3);
    }
    let mut out = vec![id, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    out.extend(normal.out);
    out.extend(exc.out);
    out
}

struct BitReader<'a> {
    data: &'a [u8],
    pos: usize,
}
impl BitReader<'_> {
    fn get(&mut self, width: usize) -> Option<u32> {
        let mut v = 0;
        for i in 0..width {
            let byte = *self.data.get(self.pos / 8)?;
            v |= u32::from(byte >> (self.pos % 8) & 1) << i;
            self.pos += 1;
        }
        Some(v)
    }
    /// Bytes touched so far.
    fn bytes(&self) -> usize {
        self.pos.div_ceil(8)
    }
    fn padding_is_zero(&self) -> bool {
        self.pos % 8 == 0 || self.data[self.pos / 8] >> (self.pos % 8) == 0
    }
}

pub struct Decoded {
    pub id: u8,
    pub items: Vec<u32>,
    pub exceptions: usize,
}

/// Strict decoder: every byte has to be accounted for.
pub fn decode(data: &[u8]) -> Result<Decoded, String> {
    if data.len() < 4 {
        return Err(format!("{} bytes are too few for a header", data.len()));
    }
    let n = (data[1] as usize) << 16 | (data[2] as usize) << 8 | data[3] as usize;
    let body = &data[4..];
    let mut r = BitReader { data: body, pos: 0 };
    let mut deltas: Vec<Vec<u32>> = Vec::with_capacity(n);
    let mut exceptions = 0;
    for i in 0..n {
        let mut d = vec![];
        loop {
            let v = r
                .get(3)
                .ok_or_else(|| format!("normal bits end inside item {i} of {n}"))?;
            if v == 0 {
                break;
            }
            exceptions += usize::from(v == 7);
            d.push(v);
        }
        deltas.push(d);
    }
    if !r.padding_is_zero() {
        return Err("non-zero padding behind the normal bits".into());
    }
    let mut e = BitReader {
        data: &body[r.bytes()..],
        pos: 0,
    };
    let mut items = Vec::with_capacity(n);
    let mut prev = 0u32;
    for (i, d) in deltas.iter().enumerate() {
        let mut x = 0u32;
        let mut pos = 0;
        for &v in d {
            pos += v;
            if v == 7 {
                pos += e
                    .get(5)
                    .ok_or_else(|| format!("exception bits end inside item {i} of {n}"))?;
            }
            if pos > 32 {
                return Err(format!("item {i}: bit position {pos} is out of range"));
            }
            x |= 1 << (pos - 1);
        }
        prev ^= x;
        items.push(prev);
    }
    if exceptions > 0 && !e.padding_is_zero() {
        return Err("non-zero padding behind the exception bits".into());
    }
    if r.bytes() + e.bytes() != body.len() {
        return Err(format!(
            "{} trailing bytes",
            body.len() - r.bytes() - e.bytes()
        ));
    }
    Ok(Decoded {
        id: data[0],
        items,
        exceptions,
    })
}

pub fn base64url(data: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for c in data.chunks(3) {
        let v = u32::from(c[0]) << 16
            | u32::from(*c.get(1).unwrap_or(&0)) << 8
            | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..=c.len() {
            s.push(A[(v >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    s
}
