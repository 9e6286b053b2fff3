//! The whole interface over boundary spaces; C22 runs it in every build.
use crate::engine::*;
use crate::model::Bv;
use crate::ops::{G, K};
use crate::spaces::*;

pub fn table(env: &Env, what: &str) {
    let th = env.thorough;
    let ab = env.pick(|o| o.k == K::AB);
    let a = env.pick(|o| o.k == K::A);
    let sp = env.pick(|o| matches!(o.k, K::AS | K::AP));
    let aw = env.pick(|o| o.k == K::AW);
    let dv = env.pick(|o| matches!(o.g, G::UDiv | G::SDiv | G::Mul) && !o.derived);
    for w in 1..=(if th { 6 } else { 4 }) {
        let v = vals(all(w));
        env.pairs(&format!("{}: all pairs, width {}", what, w), &ab, &v, &v);
    }
    let ws: Vec<usize> = if th { (1..=200).chain([255, 256, 257, 319, 320, 321, 384, 448, 512, 513]).collect() } else { vec![1, 2, 7, 8, 31, 32, 33, 62, 63, 64, 65, 66, 96, 126, 127, 128, 129, 130, 190, 191, 192, 193, 194, 255, 256, 257, 320, 384, 512, 513] };
    for &w in &ws {
        let v = vals(tiny(w));
        env.pairs(&format!("{}: boundary pairs, width {}", what, w), &ab, &v, &v);
        env.singles(&format!("{}: boundary values, width {}", what, w), &a, &vals(edges(w)));
        let mut ps = positions(w);
        ps.extend([w, w + 1, usize::MAX]);
        env.params(&format!("{}: amounts and positions, width {}", what, w), &sp, &v, &ps);
        let mut tw: Vec<usize> = ws.iter().copied().filter(|x| !th || x % 7 == w % 7 || [1, 64, 65, 128, 129, 192, 256].contains(x)).collect();
        tw.push(w);
        env.params(&format!("{}: target widths, width {}", what, w), &aw, &vals(vec![Bv::ones(w), pow2(w, w - 1), Bv::one(w)]), &tw);
    }
    let mut l = Vec::new();
    for &w in &ws {
        if th && w % 5 != 0 && w > 10 && !(60..70).contains(&w) && !(124..132).contains(&w) {
            continue
        }
        l.extend([Bv::zero(w), Bv::ones(w)]);
    }
    let v = vals(dedup(l));
    env.pairs(&format!("{}: operands of every pair of widths", what), &ab, &v, &v);
    // many digits
    let ms = around(7, if th { 34 } else { 20 });
    for &w in &ms {
        let v = vals(thin(dedup([steps(w), sparse1(w), lens(w)].concat()), if th { 60 } else { 24 }));
        env.pairs(&format!("{}: many digits, width {}", what, w), &ab, &v, &v);
        env.singles(&format!("{}: many digits, width {}", what, w), &a, &v);
        let mut ps = positions(w);
        ps.extend([w, usize::MAX]);
        env.params(&format!("{}: many digits, amounts and positions, width {}", what, w), &sp, &v[..v.len().min(12)], &ps);
        env.params(&format!("{}: many digits, target widths, width {}", what, w), &aw, &vals(vec![Bv::ones(w), pow2(w, w - 1)]), &ms);
    }
    // every digit count (the allocator's view: C14, C15)
    if what != "swept" {
        let ls = ladder(14, if th { 200 } else { 140 });
        for &w in &ls {
            let d = dense(w);
            let v = vals(vec![d[0].clone(), d[1].clone(), Bv::ones(w), Bv::one(w), d[2].lshr(w / 2)]);
            env.pairs(&format!("{}: every digit count, width {}", what, w), &ab, &v, &v);
            env.singles(&format!("{}: every digit count, width {}", what, w), &a, &v);
            let ps = [0, 1, 63, 64, 70, w / 2, w - 65, w - 64, w - 1, w];
            env.params(&format!("{}: every digit count, amounts and positions, width {}", what, w), &sp, &v[..2], &ps);
            let mut ts = vec![1, 64, 65, 129, w - 64, w - 63, w - 1, w, w + 1, w + 64, 2 * w, w / 2, w / 2 + 1, w / 3];
            ts.extend(ls.iter().skip(w % 8).step_by(8));
            env.params(&format!("{}: every digit count, target widths, width {}", what, w), &aw, &v[..2], &ts);
        }
        let v = vals(ls.iter().flat_map(|&w| dense(w).into_iter().skip(1).take(1)).collect());
        let cp = env.pick(|o| o.g == G::Copy && o.k == K::AB);
        env.pairs(&format!("{}: copies between every pair of digit counts", what), &cp, &v, &v);
    }
    for (w, al) in [(128usize, if th { A13 } else { A9 }), (192, if th { A6 } else { A4 }), (256, A3)] {
        let v = vals(digits(w, al));
        env.pairs(&format!("{}: digit alphabet, width {}", what, w), &dv, &v, &v);
    }
    for w in [192usize, 256, 320, 448] {
        let v = vals(bylen(w, if th { 5 } else { 16 }));
        env.pairs(&format!("{}: pairs of bit lengths, width {}", what, w), &dv, &v, &v);
    }
}


/// C22: everything the build configuration could influence.
pub fn config(env: &Env) {
    let th = env.thorough;
    table(env, "swept");
    // text
    let maxn = if th { 400 } else { 140 };
    env.space(format!("35 radices x every length up to {} x 13 digit shapes", maxn), 35 * maxn as u64 * 13);
    env.par(35 * maxn, |t, k| {
        let radix = 2 + (k % 35) as u32;
        for s in super::text::shapes(radix, 1 + k / 35) {
            super::text::parse_case(t, &s, radix as u8);
        }
    });
    super::text::error_cases(env);
    for w in 1..=(if th { 330 } else { 200 }) {
        let v = edges(w);
        env.space(format!("print and parse back: boundary values, width {}", w), v.len() as u64);
        env.par(v.len(), |t, i| super::text::roundtrip(t, &v[i]));
    }
    super::hist::cycles(env);
    super::simple::construct(env);
    #[cfg(feature = "full")]
    {
        super::serde_p::error_cases(env);
        super::tokens::tokens(env);
        let ws: Vec<usize> = (1..=330).collect();
        env.space("random values of every width up to 330 from three generator streams", ws.len() as u64 * 3);
        env.par(ws.len(), |t, i| {
            let w = ws[i];
            for m in [u64::MAX, 0x9e37_79b9_7f4a_7c15, 0] {
                let s: Vec<u64> = (0..9u64).map(|k| m.wrapping_mul(k + 1)).collect();
                super::rand_p::case(t, w, &s, &[Bv::ones(w), Bv::zero(w)]);
            }
        });
    }
}
