//! Independent reference of the fingerprint matcher. All decisions are taken on exact integers;
//! where the answer hinges on an exact tie, every resolution of the tie is accepted.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct RefSegment {
    pub offset1: usize,
    pub offset2: usize,
    pub len: usize,
    pub score: f64,
}

/// How often items of both fingerprints agree in their upper 12 bits, per alignment (i - j).
pub fn votes(a: &[u32], b: &[u32]) -> HashMap<isize, u32> {
    let mut by: HashMap<u32, Vec<usize>> = HashMap::new();
    for (j, x) in b.iter().enumerate() {
        by.entry(x >> 20).or_default().push(j);
    }
    let mut v = HashMap::new();
    for (i, x) in a.iter().enumerate() {
        for j in by.get(&(x >> 20)).map(|v| v.as_slice()).unwrap_or(&[]) {
            *v.entry(i as isize - *j as isize).or_insert(0) += 1;
        }
    }
    v
}

/// Alignments with the most votes, provided there are at least two.
pub fn best_alignments(a: &[u32], b: &[u32]) -> (u32, Vec<isize>) {
    let v = votes(a, b);
    let max = v.values().copied().max().unwrap_or(0);
    if max < 2 {
        return (max, vec![]);
    }
    let mut d: Vec<isize> = v
        .into_iter()
        .filter(|(_, c)| *c == max)
        .map(|(d, _)| d)
        .collect();
    d.sort_unstable();
    (max, d)
}

pub fn overlap(a: usize, b: usize, diag: isize) -> (usize, usize, usize) {
    let o1 = diag.max(0) as usize;
    let o2 = (-diag).max(0) as usize;
    (o1, o2, (a - o1).min(b - o2))
}

/// Sums of a centred window of odd width over the signal mirrored at its ends.
fn box_sum(x: &[i64], w: usize) -> Vec<i64> {
    let n = x.len() as i64;
    let h = (w / 2) as i64;
    let at = |i: i64| {
        let m = i.rem_euclid(2 * n);
        x[if m < n { m } else { 2 * n - 1 - m } as usize]
    };
    let mut out = Vec::with_capacity(x.len());
    let mut s: i64 = (-h..=h).map(at).sum();
    for i in 0..n {
        out.push(s);
        s += at(i + h + 1) - at(i - h);
    }
    out
}

pub enum Outcome {
    /// Every segmentation the rules allow.
    All(Vec<Vec<RefSegment>>),
    TooMany,
}

const LIMIT: usize = 512;

pub fn segmentations(a: &[u32], b: &[u32], diag: isize) -> Outcome {
    let (o1, o2, n) = overlap(a.len(), b.len(), diag);
    let bits: Vec<i64> = (0..n)
        .map(|i| i64::from((a[o1 + i] ^ b[o2 + i]).count_ones()))
        .collect();
    // sigma 8 as three box filters: widths 15, 15, 17. Scaled by 15*15*17.
    let smooth = box_sum(&box_sum(&box_sum(&bits, 15), 15), 17);
    let scale = 15 * 15 * 17i64;
    // twice the absolute gradient, scaled
    let g: Vec<i64> = (0..n)
        .map(|i| {
            if n == 1 {
                0
            } else if i == 0 {
                2 * (smooth[1] - smooth[0]).abs()
            } else if i == n - 1 {
                2 * (smooth[n - 1] - smooth[n - 2]).abs()
            } else {
                (smooth[i + 1] - smooth[i - 1]).abs()
            }
        })
        .collect();
    // all possible lists of boundaries
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for i in 1..n.saturating_sub(1) {
        // 0.15 * 2 * scale = 1147.5, never met exactly
        if (g[i] as f64) <= 0.3 * scale as f64 {
            continue;
        }
        if g[i] < g[i - 1] || g[i] < g[i + 1] {
            continue;
        }
        let tie = g[i] == g[i - 1] || g[i] == g[i + 1];
        let mut more = vec![];
        for l in &mut lists {
            if l.last().is_some_and(|p| p + 1 >= i) {
                continue;
            }
            if tie {
                more.push(l.clone());
            }
            l.push(i);
        }
        lists.extend(more);
        if lists.len() > LIMIT {
            return Outcome::TooMany;
        }
    }
    let mut all: Vec<Vec<RefSegment>> = vec![];
    for mut l in lists {
        l.push(n);
        let mut variants: Vec<Vec<(usize, usize, i64)>> = vec![vec![]]; // begin, end, bit sum
        let mut begin = 0;
        for end in l {
            let sum: i64 = bits[begin..end].iter().sum();
            let len = (end - begin) as i64;
            if len > 0 && sum < 10 * len {
                let mut more = vec![];
                for v in &mut variants {
                    let mut merge = (false, false); // may, must
                    if let Some(&(b0, e0, s0)) = v.last() {
                        if e0 == begin {
                            let d = (s0 as f64 / (e0 - b0) as f64 - sum as f64 / len as f64).abs();
                            merge = (d < 0.7 + 1e-9, d < 0.7 - 1e-9);
                        }
                    }
                    if merge.0 && !merge.1 {
                        more.push({
                            let mut c = v.clone();
                            c.push((begin, end, sum));
                            c
                        });
                    }
                    if merge.0 {
                        let last = v.last_mut().unwrap();
                        last.1 = end;
                        last.2 += sum;
                    } else {
                        v.push((begin, end, sum));
                    }
                }
                variants.extend(more);
                if variants.len() > LIMIT {
                    return Outcome::TooMany;
                }
            }
            begin = end;
        }
        for v in variants {
            all.push(
                v.into_iter()
                    .map(|(b, e, s)| RefSegment {
                        offset1: o1 + b,
                        offset2: o2 + b,
                        len: e - b,
                        score: s as f64 / (e - b) as f64,
                    })
                    .collect(),
            );
        }
        if all.len() > LIMIT * 2 {
            return Outcome::TooMany;
        }
    }
    Outcome::All(all)
}

pub fn same(a: &[RefSegment], b: &[RefSegment]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.offset1 == y.offset1
                && x.offset2 == y.offset2
                && x.len == y.len
                && (x.score - y.score).abs() < 1e-6
        })
}
