//! C01..C04: modular arithmetic against the mathematical definition.
use crate::engine::*;
use crate::model::{nd, Bv};
use crate::ops::{G, K};
use crate::spaces::*;

/// Operand pairs shared by all binary operations. `prim`: the primary forms,
/// `full`: every form (wrappers, operators, consuming variants).
pub fn binary(env: &Env, prim: &[usize], full: &[usize]) {
    let th = env.thorough;
    for w in 1..=(if th { 10 } else { 7 }) {
        let v = vals(all(w));
        env.pairs(&format!("all pairs, width {}", w), if w <= 6 { full } else { prim }, &v, &v);
    }
    for w in 1..=(if th { 400 } else { 200 }) {
        let v = vals(if th && w <= 200 { edges(w) } else { tiny(w) });
        env.pairs(&format!("boundary pairs, width {}", w), if w <= 200 { full } else { prim }, &v, &v);
    }
    for (w, al) in [(192usize, A4), (191, A4), (256, A3), (320, A2), (384, A2)] {
        let v = vals(digits(w, al));
        env.pairs(&format!("digit alphabet, width {}", w), full, &v, &v);
    }
    for w in [63usize, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 384, 448, 512, 513] {
        let v = vals(edges(w));
        env.pairs(&format!("boundary pairs, width {}", w), if w <= 130 { full } else { prim }, &v, &v);
    }
    for w in [65usize, 66, 96, 100, 126, 127, 128] {
        let v = vals(digits(w, if th { A20 } else { A13 }));
        env.pairs(&format!("digit alphabet, width {}", w), full, &v, &v);
    }
    for w in [129usize, 160, 191, 192] {
        let al = match (th, w) {
            (true, 192) => A20,
            (true, _) | (false, 192) => A13,
            _ => A7,
        };
        let v = vals(digits(w, al));
        env.pairs(&format!("digit alphabet, width {}", w), prim, &v, &v);
    }
    for w in [193usize, 255, 256] {
        let v = vals(digits(w, if th && w == 256 { A9 } else if th { A7 } else if w == 256 { A5 } else { A4 }));
        env.pairs(&format!("digit alphabet, width {}", w), prim, &v, &v);
    }
    for w in [257usize, 320] {
        let v = vals(digits(w, if th { A5 } else { A3 }));
        env.pairs(&format!("digit alphabet, width {}", w), prim, &v, &v);
    }
    for (w, al) in [(384usize, if th { A4 } else { A3 }), (448, if th { A3 } else { A2 }), (512, A2)] {
        let v = vals(digits(w, al));
        env.pairs(&format!("digit alphabet, width {}", w), prim, &v, &v);
    }
    for w in [640usize, 1023, 1024, 1025, 2048, 4097] {
        let v = vals(tiny(w));
        let n = v.len().min(if th { 400 } else if w < 2000 { 60 } else { 30 });
        env.pairs(&format!("boundary pairs, width {}", w), prim, &v[..n], &v[..n]);
    }
    many_digits(env, prim);
    // one digit: every pair of bit lengths
    for w in [16usize, 31, 32, 33, 48, 62, 63, 64, 65] {
        let v = vals(bylen(w, 1));
        env.pairs(&format!("every pair of bit lengths, width {}", w), prim, &v, &v);
    }
    for w in [33usize, 63, 64] {
        let v = vals(dedup([digits(w, A20), runs(w)].concat()));
        env.pairs(&format!("digit alphabet and runs, width {}", w), prim, &v, &v);
    }
    // very many digits
    for &n in HUGE {
        for w in [64 * n, 64 * n - 1] {
            let v = vals(huge(w, if th { 60 } else if n < 200 { 24 } else { 14 }));
            env.pairs(&format!("very many digits, width {}", w), prim, &v, &v);
        }
    }
    // every digit count
    for w in ladder(5, if th { 200 } else { 140 }) {
        let mut l = dense(w);
        l.extend([Bv::ones(w), l[0].lshr(w / 2), l[1].lshr(w / 3 + 5), l[3].shl(w / 2)]);
        let v = vals(dedup(l));
        env.pairs(&format!("digits that all differ, width {}", w), prim, &v, &v);
    }
    for &w in GIANT {
        let v = vals(giant(w));
        env.pairs(&format!("beyond 16-bit widths, width {}", w), prim, &v, &v);
    }
}

/// Pairs of values of many digits: every digit count up to 33 (thorough 48),
/// every position of the digits that stand out.
fn many_digits(env: &Env, prim: &[usize]) {
    let th = env.thorough;
    for n in 5..=(if th { 48 } else { 33 }) {
        let mut ws = vec![64 * n];
        if n <= 17 || th {
            ws.push(64 * n - 1);
            ws.push(64 * n - 63);
        }
        for w in ws {
            let mut l = sparse1(w);
            if n <= 17 || th {
                l.extend(steps(w));
            }
            let v = vals(dedup(l));
            env.pairs(&format!("one digit stands out, every position, width {}", w), prim, &v, &v);
        }
    }
    for n in 5..=(if th { 11 } else { 7 }) {
        let v = vals(sparse2(64 * n));
        env.pairs(&format!("two digits stand out, every pair of positions, width {}", 64 * n), prim, &v, &v);
    }
    for n in 8..=(if th { 40 } else { 20 }) {
        // two digits against one
        let (x, y) = (vals(sparse2(64 * n)), vals(steps(64 * n)));
        env.pairs(&format!("two digits stand out against step values, width {}", 64 * n), prim, &x, &y);
        env.pairs(&format!("step values against two digits that stand out, width {}", 64 * n), prim, &y, &x);
    }
}

/// Unary operations of a group.
pub fn unary(env: &Env, ops: &[usize]) {
    let th = env.thorough;
    for w in 1..=(if th { 18 } else { 13 }) {
        env.singles(&format!("all values, width {}", w), ops, &vals(all(w)));
    }
    for w in 1..=(if th { 500 } else { 330 }) {
        env.singles(&format!("runs, width {}", w), ops, &vals(if w <= 260 || th { runs(w) } else { edges(w) }));
    }
    for w in [127usize, 128, 192, 191] {
        env.singles(&format!("digit alphabet, width {}", w), ops, &vals(digits(w, A20)));
    }
    for (w, al) in [(256usize, A13), (320, A7), (384, A5), (448, A4), (512, A3), (576, A3)] {
        env.singles(&format!("digit alphabet, width {}", w), ops, &vals(digits(w, al)));
    }
    for w in [1023usize, 1024, 1025, 2047, 2048, 2049, 4097] {
        env.singles(&format!("boundary values, width {}", w), ops, &vals(tiny(w)));
    }
    for n in 5..=(if th { 66 } else { 40 }) {
        for w in [64 * n, 64 * n - 1, 64 * n - 63] {
            let mut l = if n <= 20 || th { sparse2(w) } else { sparse1(w) };
            l.extend(steps(w));
            l.extend(lens(w));
            env.singles(&format!("digits that stand out, bit lengths and steps, width {}", w), ops, &vals(dedup(l)));
        }
    }
    for &n in HUGE {
        for w in [64 * n, 64 * n - 1, 64 * n - 63] {
            env.singles(&format!("very many digits, width {}", w), ops, &vals(huge(w, if th { 200 } else { 60 })));
        }
    }
    for w in ladder(5, if th { 260 } else { 140 }) {
        let mut l = dense(w);
        for i in 0..nd(w) {
            l.extend([l[0].lshr(64 * i), l[1].shl(64 * i), l[2].not().shl(64 * i).not()]);
        }
        env.singles(&format!("digits that all differ, width {}", w), ops, &vals(dedup(l)));
    }
    for &w in GIANT {
        let mut v = giant(w);
        v.extend(v.clone().iter().map(|x| x.not()));
        env.singles(&format!("beyond 16-bit widths, width {}", w), ops, &vals(dedup(v)));
    }
}

/// Unequal widths and other refused calls for the operations of a group.
pub fn refused(env: &Env, ops: &[usize]) {
    let ws = [1usize, 2, 8, 63, 64, 65, 127, 128, 129, 192, 256, 257];
    let mut l = Vec::new();
    for w in ws {
        for b in [Bv::zero(w), Bv::one(w), Bv::ones(w), pow2(w, w - 1), pow2(w, w / 2)] {
            l.push(b);
        }
    }
    let v = vals(dedup(l));
    env.pairs("operands of every pair of boundary widths", ops, &v, &v);
}

fn split(env: &Env, g: G) -> (Vec<usize>, Vec<usize>, Vec<usize>) {
    let full = env.pick(|o| o.g == g && o.k == K::AB);
    let prim = env.pick(|o| o.g == g && o.k == K::AB && !o.derived);
    let un = env.pick(|o| o.g == g && o.k == K::A);
    (prim, full, un)
}

pub fn add(env: &Env) {
    let (prim, full, mut un) = split(env, G::Add);
    un.extend(env.pick(|o| o.k == K::A && o.name.contains("abs")));
    refused(env, &full);
    unary(env, &un);
    binary(env, &prim, &full);
}

pub fn mul(env: &Env) {
    let (prim, full, _) = split(env, G::Mul);
    refused(env, &full);
    binary(env, &prim, &full);
    for w in [100usize, 128, 150, 192, 250, 256, 320] {
        let v = vals(bylen(w, if env.thorough { 1 } else if w > 200 { 3 } else { 2 }));
        env.pairs(&format!("every pair of bit lengths, width {}", w), &prim, &v, &v);
    }
    for w in [448usize, 512, 577, 640, 1024, 2048] {
        let v = vals(bylen(w, if env.thorough { 5 } else { w / 20 + 1 }));
        env.pairs(&format!("pairs of bit lengths, width {}", w), &prim, &v, &v);
    }
    for n in 5..=(if env.thorough { 34 } else { 18 }) {
        for w in [64 * n, 64 * n - 20] {
            let v = vals(lens(w));
            env.pairs(&format!("bit lengths around every digit boundary, width {}", w), &prim, &v, &v);
        }
    }
}

/// Dividends built as q*d + r, so that every quotient shape meets every
/// divisor shape with the remainders at the ends of their range.
fn by_quotient(env: &Env, name: &str, ops: &[usize], w: usize, qs: &[Bv], ds: &[Bv]) {
    let w2 = 2 * w + 64;
    env.space(format!("{}, width {} [{} quotients x {} divisors x up to 5 remainders]", name, w, qs.len(), ds.len()), (qs.len() * ds.len()) as u64);
    let dv: Vec<Val> = ds.iter().cloned().filter(|d| !d.is_zero()).map(Val::new).collect();
    let wq: Vec<Bv> = qs.iter().map(|q| q.zresize(w2)).collect();
    env.par(dv.len(), |t, i| {
        let d = &dv[i];
        let d2 = d.bv.zresize(w2);
        let one = Bv::one(w);
        let rs = dedup(vec![Bv::zero(w), one.clone(), d.bv.lshr(1), d.bv.sub(&one), d.bv.sub(&one).sub(&one)]);
        for q in &wq {
            if q.bitlen() + d.bv.bitlen() > w + 1 {
                continue
            }
            let m = q.mul(&d2);
            for r in &rs {
                if r.ucmp(&d.bv) != std::cmp::Ordering::Less {
                    continue
                }
                let n = m.add(&r.zresize(w2));
                if n.bitlen() > w {
                    continue
                }
                let nv = Val::new(n.zresize(w));
                t.tuple(ops, &nv, d, 0);
            }
        }
    });
}

fn division(env: &Env, g: G) {
    let th = env.thorough;
    let (prim, full, _) = split(env, g);
    refused(env, &full);
    binary(env, &prim, &full);
    // one form that returns both results is enough for the wide sweeps
    let pair = env.pick(|o| o.g == g && o.name.ends_with("rem_assign") && o.name.contains("divrem"));
    let pair2 = env.pick(|o| o.g == g && o.name.contains("rem") && o.name.contains("div") && o.name.contains("_assign") && !o.derived && o.name.contains("remdiv"));
    let both: Vec<usize> = pair.iter().chain(pair2.iter()).copied().collect();
    for w in [100usize, 128, 192, 250, 256, 320] {
        let v = vals(bylen(w, if th { 1 } else if w > 200 { 4 } else { 3 }));
        env.pairs(&format!("every pair of bit lengths, width {}", w), if w <= 192 { &both } else { &pair }, &v, &v);
    }
    for w in [448usize, 512, 577, 1024] {
        let v = vals(bylen(w, if th { 7 } else { w / 14 + 1 }));
        env.pairs(&format!("pairs of bit lengths, width {}", w), &pair, &v, &v);
    }
    for (w, al) in [(128usize, A13), (192, if th { A13 } else { A6 }), (256, if th { A6 } else { A4 }), (320, if th { A4 } else { A3 })] {
        let v = digits(w, al);
        by_quotient(env, "quotient and divisor from the digit alphabet", &pair, w, &v, &v);
    }
    for w in [129usize, 192, 200, 256, 320, 512] {
        let v = bylen(w, if th { 3 } else { w / 24 + 1 });
        by_quotient(env, "quotient and divisor of every bit length", &pair, w, &v, &v);
    }
    for n in 5..=(if th { 24 } else { 16 }) {
        let w = 64 * n;
        let v = vals(lens(w));
        env.pairs(&format!("bit lengths around every digit boundary, width {}", w), &pair, &v, &v);
        let l = sparse1(w);
        by_quotient(env, "quotient and divisor with one digit that stands out", &pair, w, &l, &l);
    }
    for n in 4..=(if th { 8 } else { 6 }) {
        let (x, y) = (sparse2(64 * n), sparse1(64 * n));
        by_quotient(env, "quotient with two digits that stand out, divisor with one", &pair, 64 * n, &x, &y);
        by_quotient(env, "quotient with one digit that stands out, divisor with two", &pair, 64 * n, &y, &x);
    }
}

pub fn udiv(env: &Env) {
    division(env, G::UDiv)
}
pub fn sdiv(env: &Env) {
    division(env, G::SDiv)
}
