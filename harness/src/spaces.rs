//! Bounded operand spaces.  Each function enumerates its space completely.
use crate::model::{nd, Bv};
use std::collections::HashSet;

pub const M: u64 = u64::MAX;
pub const A13: &[u64] = &[
    0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, M >> 1, 1 << 63, (1 << 63) + 1, M - 1, M,
    0x0123_4567_89ab_cdef,
];
pub const A20: &[u64] = &[
    0, 1, 2, 3, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, M >> 1, (M >> 1) - 1,
    1 << 63, (1 << 63) + 1, 0x5555_5555_5555_5555, 0xffff_ffff_0000_0000, M - 1, M, 0x0123_4567_89ab_cdef, 1 << 62,
];
pub const A9: &[u64] = &[0, 1, 0xffff_ffff, 0x1_0000_0000, M >> 1, 1 << 63, (1 << 63) + 1, M - 1, M];
pub const A7: &[u64] = &[0, 1, 0x1_0000_0000, M >> 1, 1 << 63, M - 1, M];
pub const A6: &[u64] = &[0, 1, 0x1_0000_0000, M >> 1, 1 << 63, M];
pub const A5: &[u64] = &[0, 1, M >> 1, 1 << 63, M];
pub const A4: &[u64] = &[0, 1, 1 << 63, M];
pub const A3: &[u64] = &[0, 1, M];
pub const A2: &[u64] = &[0, M];

pub fn dedup(v: Vec<Bv>) -> Vec<Bv> {
    let mut s = HashSet::new();
    v.into_iter().filter(|x| s.insert(x.clone())).collect()
}

/// every value of the width
pub fn all(w: usize) -> Vec<Bv> {
    assert!(w <= 20);
    (0..1u64 << w).map(|v| Bv::from_digits(w, &[v])).collect()
}

/// every combination of digits from the alphabet (cut to the width)
pub fn digits(w: usize, al: &[u64]) -> Vec<Bv> {
    let n = nd(w);
    let total = al.len().pow(n as u32);
    let mut v = Vec::with_capacity(total);
    for mut k in 0..total {
        let mut d = Vec::with_capacity(n);
        for _ in 0..n {
            d.push(al[k % al.len()]);
            k /= al.len();
        }
        v.push(Bv::from_digits(w, &d));
    }
    dedup(v)
}

/// bit positions around every boundary that can matter
pub fn positions(w: usize) -> Vec<usize> {
    let mut p: Vec<usize> = vec![0, 1, 2, 7, 8, 15, 16, 31, 32, 33, w / 2, w.saturating_sub(3), w.saturating_sub(2), w - 1];
    let mut k = 64;
    while k <= w + 1 {
        p.extend([k - 2, k - 1, k, k + 1]);
        k += 64;
    }
    p.retain(|x| *x < w);
    p.sort();
    p.dedup();
    p
}

pub fn pow2(w: usize, i: usize) -> Bv {
    Bv::zero(w).with(i, true)
}

/// ones in the bits [i, j)
pub fn run(w: usize, i: usize, j: usize) -> Bv {
    let mut r = Bv::zero(w);
    for k in i..j {
        r.put(k, true);
    }
    r
}

fn patterns(w: usize) -> Vec<Bv> {
    let n = nd(w);
    let rep = |d: u64| Bv::from_digits(w, &vec![d; n]);
    vec![
        rep(0x5555_5555_5555_5555),
        rep(0xaaaa_aaaa_aaaa_aaaa),
        rep(0x0123_4567_89ab_cdef),
        rep(0xffff_ffff_0000_0000),
        rep(0x0000_0000_ffff_ffff),
        rep(0x8000_0000_0000_0001),
        rep(0x00ff_00ff_00ff_00ff),
        Bv::from_digits(w, &(0..n as u64).map(|i| 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(i + 1)).collect::<Vec<_>>()),
        Bv::from_digits(w, &(0..n).map(|i| if i % 2 == 0 { 0 } else { M }).collect::<Vec<_>>()),
        Bv::from_digits(w, &(0..n).map(|i| if i % 2 == 0 { M } else { 0 }).collect::<Vec<_>>()),
        Bv::from_digits(w, &(0..n as u64).map(|i| i + 1).collect::<Vec<_>>()),
    ]
}

/// few values that sit on every boundary
pub fn tiny(w: usize) -> Vec<Bv> {
    let o = Bv::one(w);
    let mut v = vec![
        Bv::zero(w),
        o.clone(),
        o.add(&o),
        Bv::ones(w),
        Bv::ones(w).sub(&o),
        pow2(w, w - 1),
        pow2(w, w - 1).sub(&o),
        pow2(w, w - 1).add(&o),
        pow2(w, w / 2),
        pow2(w, w / 2).sub(&o),
    ];
    let mut k = 64;
    while k < w {
        v.extend([pow2(w, k), pow2(w, k).sub(&o), pow2(w, k).add(&o), pow2(w, k).neg(), pow2(w, k - 1)]);
        k += 64;
    }
    v.extend(patterns(w));
    dedup(v)
}

/// powers of two and neighbours at every boundary position, plus patterns
pub fn edges(w: usize) -> Vec<Bv> {
    let o = Bv::one(w);
    let mut v = tiny(w);
    for i in positions(w) {
        let x = pow2(w, i);
        v.extend([x.clone(), x.sub(&o), x.add(&o), x.not(), x.neg()]);
    }
    dedup(v)
}

/// edges plus every run of ones between boundary positions
pub fn runs(w: usize) -> Vec<Bv> {
    let mut v = edges(w);
    let p = positions(w);
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            let x = run(w, p[i], p[j]);
            v.push(x.not());
            v.push(x);
        }
        v.push(run(w, p[i], w));
    }
    dedup(v)
}

/// for every bit length in steps: smallest, largest, and three patterned values
pub fn bylen(w: usize, step: usize) -> Vec<Bv> {
    let mut v = vec![Bv::zero(w)];
    let o = Bv::one(w);
    let n = nd(w);
    let mut l = 1;
    while l <= w {
        let top = pow2(w, l - 1);
        v.push(top.clone());
        v.push(run(w, 0, l));
        v.push(top.or(&o));
        for d in [0x5555_5555_5555_5555u64, 0x9e37_79b9_7f4a_7c15, 0xffff_ffff_0000_0001] {
            v.push(Bv::from_digits(w, &vec![d; n]).and(&run(w, 0, l)).or(&top));
        }
        l += step;
    }
    dedup(v)
}

/// one digit differs from a background of all-zero or all-one digits, at every
/// digit position; and the backgrounds themselves
pub fn sparse1(w: usize) -> Vec<Bv> {
    let n = nd(w);
    let mut v = Vec::new();
    for bg in [0u64, M] {
        v.push(Bv::from_digits(w, &vec![bg; n]));
        for i in 0..n {
            for x in [1u64, !bg, 1 << 63] {
                let mut d = vec![bg; n];
                d[i] = x;
                v.push(Bv::from_digits(w, &d));
            }
        }
    }
    dedup(v)
}

/// like `sparse1`, two digits that differ, at every pair of positions
pub fn sparse2(w: usize) -> Vec<Bv> {
    let n = nd(w);
    let mut v = sparse1(w);
    for bg in [0u64, M] {
        for i in 0..n {
            for j in i + 1..n {
                for (x, y) in [(1u64, 1u64), (!bg, !bg), (1 << 63, 1), (1, 1 << 63), (M - 1, M >> 1)] {
                    let mut d = vec![bg; n];
                    d[i] = x;
                    d[j] = y;
                    v.push(Bv::from_digits(w, &d));
                }
            }
        }
    }
    dedup(v)
}

/// low digits all-zero or all-one up to every digit position, the opposite above
pub fn steps(w: usize) -> Vec<Bv> {
    let n = nd(w);
    let mut v = Vec::new();
    for i in 0..=n {
        let lo: Vec<u64> = (0..n).map(|k| if k < i { M } else { 0 }).collect();
        let a = Bv::from_digits(w, &lo);
        v.push(a.not());
        v.push(a);
    }
    dedup(v)
}

/// bit lengths at and around every digit boundary and mid-digit: smallest,
/// largest and three patterned values
pub fn lens(w: usize) -> Vec<Bv> {
    let n = nd(w);
    let mut ls = vec![1, 2, 32];
    for k in 1..=n {
        ls.extend([64 * k - 1, 64 * k, 64 * k + 1, 64 * k + 32]);
    }
    ls.retain(|l| *l <= w);
    ls.push(w);
    ls.sort();
    ls.dedup();
    let mut v = vec![Bv::zero(w)];
    for l in ls {
        let top = pow2(w, l - 1);
        v.push(top.clone());
        v.push(run(w, 0, l));
        for d in [0x9e37_79b9_7f4a_7c15u64, 0xffff_ffff_0000_0001] {
            v.push(Bv::from_digits(w, &vec![d; n]).and(&run(w, 0, l)).or(&top));
        }
        // a high half of ones over a low half of zeros
        v.push(run(w, l / 2, l));
    }
    dedup(v)
}

/// 64n and its neighbours, for every digit count in the range
pub fn around(lo: usize, hi: usize) -> Vec<usize> {
    (lo..=hi).flat_map(|n| [64 * n - 1, 64 * n, 64 * n + 1]).collect()
}

/// at most k values, evenly spaced over the list, first and last included
pub fn thin(v: Vec<Bv>, k: usize) -> Vec<Bv> {
    let n = v.len();
    if n <= k {
        return v
    }
    (0..k).map(|i| v[i * (n - 1) / (k - 1)].clone()).collect()
}

/// digit counts far beyond everyday use, around powers of two
pub const HUGE: &[usize] = &[48, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256, 257];

/// widths beyond 16-bit numbers
pub const GIANT: &[usize] = &[65535, 65536, 65537, 65599, 131_073];
pub fn giant(w: usize) -> Vec<Bv> {
    let n = (w + 63) / 64;
    let x = Bv::from_digits(w, &(1..=n as u64).map(|i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect::<Vec<_>>());
    let one = Bv::one(w);
    let half = 65536.min(w - 1);
    dedup(vec![Bv::ones(w), one.clone(), pow2(w, w - 1), pow2(w, half), pow2(w, half).sub(&one), x.lshr(70), x.lshr(w - 200), x.lshr(w / 2), x])
}

/// a few values of very many digits
pub fn huge(w: usize, k: usize) -> Vec<Bv> {
    let mut v = thin(dedup([sparse1(w), steps(w)].concat()), k / 2);
    v.extend(thin(lens(w), k / 2));
    v.extend(patterns(w));
    dedup(v)
}

/// values whose digits all differ, with either sign; no digit repeats, so a
/// digit that is lost, moved or changed shows
pub fn dense(w: usize) -> Vec<Bv> {
    let n = nd(w);
    let x = Bv::from_digits(w, &(1..=n as u64).map(|i| {
        let z = i.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z ^ (z >> 27)
    }).collect::<Vec<_>>());
    let g = Bv::from_digits(w, &(1..=n as u64).map(|i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect::<Vec<_>>());
    dedup(vec![x.with(w - 1, false), x.with(w - 1, true), g.not(), g])
}

/// 64n and a width inside the last digit, for every digit count in the range
pub fn ladder(lo: usize, hi: usize) -> Vec<usize> {
    (lo..=hi).flat_map(|n| [64 * n - (n * 37) % 64, 64 * n]).collect()
}
