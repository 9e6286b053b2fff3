//! C05..C11, C13, C20, C21: one API call at a time, whole bounded spaces.
use super::arith::{binary, refused, unary};
use crate::engine::*;
use crate::model::{nd, Bv};
use crate::obs;
use crate::ops::{G, K};
use crate::spaces::*;
use apint::{ApInt, BitPos, BitWidth, Int, Radix, ShiftAmount, UInt, Width};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// parameters that must be refused by an operation bounded by `w`
pub fn beyond(w: usize) -> Vec<usize> {
    let mut v = vec![w, w + 1, w + 2, w + 31, w + 63, w + 64, w + 65, 2 * w, nd(w) * 64, nd(w) * 64 + 1, 128 + w, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1,
        (1 << 32) + w - 1, 1 << 38, (1usize << 63) - 1, 1 << 63, (1usize << 63) + 1, usize::MAX - 63, usize::MAX - 64, usize::MAX - 1, usize::MAX];
    v.retain(|x| *x >= w);
    v.sort();
    v.dedup();
    v
}

fn basis(w: usize) -> Vec<Bv> {
    let mut v = tiny(w);
    for i in 0..w {
        let x = pow2(w, i);
        v.push(x.not());
        v.push(x);
    }
    dedup(v)
}

pub fn shifts(env: &Env) {
    let th = env.thorough;
    let full = env.pick(|o| o.g == G::Shift);
    let prim = env.pick(|o| o.g == G::Shift && !o.derived);
    for w in 1..=(if th { 14 } else { 10 }) {
        let mut ps: Vec<usize> = (0..w).collect();
        ps.extend(beyond(w));
        env.params(&format!("all values and amounts, width {}", w), if w <= 8 { &full } else { &prim }, &vals(all(w)), &ps);
    }
    for w in 1..=(if th { 330 } else { 200 }) {
        let ps: Vec<usize> = (0..w).collect();
        env.params(&format!("every single bit and its complement, every amount, width {}", w), &prim, &vals(basis(w)), &ps);
        let mut ps = beyond(w);
        ps.extend(positions(w));
        env.params(&format!("boundary values and refused amounts, width {}", w), &full, &vals(tiny(w)), &ps);
    }
    for w in [255usize, 256, 257, 319, 320, 321, 384, 447, 448, 449, 512, 513] {
        let ps: Vec<usize> = (0..w).collect();
        let v = vals(if th { runs(w) } else { edges(w) });
        env.params(&format!("boundary values, every amount, width {}", w), &prim, &v, &ps);
    }
    for (w, al) in [(127usize, A13), (128, A13), (191, A9), (192, A9), (256, A6), (320, A4), (384, A3), (512, A2)] {
        let ps: Vec<usize> = (0..w).collect();
        env.params(&format!("digit alphabet, every amount, width {}", w), &prim, &vals(digits(w, al)), &ps);
    }
    for w in [1023usize, 1024, 1025, 2048, 4097] {
        let mut ps = positions(w);
        ps.extend(beyond(w));
        env.params(&format!("boundary values, boundary amounts, width {}", w), &prim, &vals(tiny(w)), &ps);
    }
    for n in 5..=(if th { 48 } else { 33 }) {
        for w in [64 * n, 64 * n - 1, 64 * n - 63] {
            let mut l = sparse1(w);
            l.extend(steps(w));
            l.extend(tiny(w));
            let mut ps = positions(w);
            ps.extend([w, w + 1, usize::MAX]);
            env.params(&format!("digits that stand out, boundary amounts, width {}", w), &prim, &vals(dedup(l)), &ps);
        }
    }
    for &n in HUGE {
        for w in [64 * n, 64 * n - 1] {
            let mut ps = vec![0usize, 1, 31, 63, 64, 65, 127, 128, 129, 1000, 2047, 2048, 2049, w / 2, w - 129, w - 128, w - 65, w - 64, w - 63, w - 1, w, w + 1, usize::MAX];
            ps.extend((1..16).map(|k| k * (n / 16) * 64 + k));
            env.params(&format!("very many digits, width {}", w), &prim, &vals(huge(w, 24)), &ps);
        }
    }
    for &w in GIANT {
        let mut ps = vec![0usize, 1, 63, 64, 65, 255, 256, 257, 16383, 16384, 32767, 32768, 32769, 65472, 65535, 65536, 65537, 65600, w - 64, w - 1, w, w + 1, w + 65536, usize::MAX];
        ps.sort();
        ps.dedup();
        env.params(&format!("beyond 16-bit widths, width {}", w), &prim, &vals(giant(w)), &ps);
    }
    for w in ladder(5, if th { 140 } else { 70 }) {
        let ps: Vec<usize> = (0..w).collect();
        env.params(&format!("digits that all differ, every amount, width {}", w), &prim, &vals(dense(w)), &ps);
    }
    for n in 3..=(if th { 12 } else { 7 }) {
        let w = 64 * n;
        let ps: Vec<usize> = (0..w).collect();
        env.params(&format!("two digits stand out, every amount, width {}", w), &prim, &vals(sparse2(w)), &ps);
    }
    env.par(1, |t, _| {
        for s in [0usize, 1, 63, 64, 65, 1 << 40, usize::MAX] {
            t.guarded("ShiftAmount/BitPos conversions", || {
                if ShiftAmount::from(s).to_usize() != s || BitPos::from(s).to_usize() != s || BitPos::new(s).map(|p| p.to_usize()).ok() != Some(s) {
                    env.fail(format!("ShiftAmount/BitPos of {}", s), "conversion changed the number");
                }
            });
        }
    });
}

pub fn bitwise(env: &Env) {
    let th = env.thorough;
    let bin_p = env.pick(|o| o.g == G::Bit && o.k == K::AB && !o.derived);
    let bin_f = env.pick(|o| o.g == G::Bit && o.k == K::AB);
    let un = env.pick(|o| o.g == G::Bit && o.k == K::A);
    let at = env.pick(|o| o.g == G::Bit && o.k == K::AP);
    refused(env, &bin_f);
    binary(env, &bin_p, &bin_f);
    unary(env, &un);
    for w in 1..=(if th { 14 } else { 10 }) {
        let mut ps: Vec<usize> = (0..w).collect();
        ps.extend(beyond(w));
        env.params(&format!("all values and positions, width {}", w), &at, &vals(all(w)), &ps);
    }
    for w in 1..=(if th { 600 } else { 330 }) {
        let mut ps: Vec<usize> = (0..w).collect();
        ps.extend(beyond(w));
        env.params(&format!("every position, width {}", w), &at, &vals(if w < 200 { edges(w) } else { tiny(w) }), &ps);
    }
    for w in [1023usize, 1024, 1025, 2048, 4097] {
        let mut ps: Vec<usize> = (0..w).collect();
        ps.extend(beyond(w));
        env.params(&format!("every position, width {}", w), &at, &vals(tiny(w)[..8].to_vec()), &ps);
    }
    for w in ladder(6, if th { 140 } else { 70 }) {
        let ps: Vec<usize> = (0..w).collect();
        env.params(&format!("digits that all differ, every position, width {}", w), &at, &vals(dense(w)[..2].to_vec()), &ps);
    }
    for &w in GIANT {
        let mut ps: Vec<usize> = [0usize, 256, 4096, 16384, 32768, 65472, 65536, 65600, w - 64, w].iter().flat_map(|p| [p.saturating_sub(1), *p, p + 1]).collect();
        ps.extend(beyond(w));
        env.params(&format!("beyond 16-bit widths, width {}", w), &at, &vals(giant(w)), &ps);
    }
}

pub fn counts(env: &Env) {
    let ops = env.pick(|o| o.g == G::Count);
    unary(env, &ops);
    for w in 1..=(if env.thorough { 200 } else { 131 }) {
        let mut v = Vec::new();
        for i in 0..w {
            for j in i + 1..=w {
                let x = run(w, i, j);
                v.push(x.not());
                v.push(x);
            }
        }
        env.singles(&format!("every run of ones and its complement, width {}", w), &ops, &vals(dedup(v)));
    }
    for w in [191usize, 192, 193, 255, 256, 257, 320, 512, 513, 1024, 1025] {
        env.singles(&format!("every single bit and its complement, width {}", w), &ops, &vals(basis(w)));
    }
    for w in ladder(5, if env.thorough { 140 } else { 40 }) {
        let d = dense(w);
        let v = (0..w).flat_map(|i| [pow2(w, i), pow2(w, i).not(), d[0].lshr(i), d[1].lshr(i).not(), d[0].shl(i), d[1].not().shl(i).not()]).collect();
        env.singles(&format!("every single bit, every number of leading and trailing bits, width {}", w), &ops, &vals(dedup(v)));
    }
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// The same value reached along different routes through the public API.
fn routes(v: &Bv) -> Vec<(&'static str, ApInt)> {
    let w = v.w;
    let bw = |n: usize| BitWidth::new(n).unwrap();
    let b = |x: &Bv| obs::build(x);
    let mut r: Vec<(&'static str, ApInt)> = vec![("array/truncate", b(v))];
    // set bit by bit
    let mut x = ApInt::zero(bw(w));
    for i in 0..w {
        if v.get(i) {
            x.set_bit_at(i).unwrap()
        }
    }
    r.push(("set bits", x));
    let mut x = ApInt::all_set(bw(w));
    for i in 0..w {
        if !v.get(i) {
            x.unset_bit_at(i).unwrap()
        }
    }
    r.push(("unset bits", x));
    // truncated from a wider value whose cut bits are all ones
    for extra in [1usize, 37, 64, 130] {
        let wide = v.zresize(w + extra).or(&run(w + extra, w, w + extra));
        let mut y = ApInt::zero(bw(w + extra));
        for i in 0..w + extra {
            if wide.get(i) {
                y.set_bit_at(i).unwrap()
            }
        }
        r.push(("truncate", y.clone().into_truncate(w).unwrap()));
        r.push(("zero_resize", y.clone().into_zero_resize(w)));
        r.push(("sign_resize", y.into_sign_resize(w)));
    }
    r.push(("not not", b(&v.not()).into_bitnot()));
    r.push(("neg neg", b(&v.neg()).into_wrapping_neg()));
    r.push(("0 - (-v)", ApInt::zero(bw(w)).into_wrapping_sub(&b(&v.neg())).unwrap()));
    r.push(("MAX + (v+1)", ApInt::all_set(bw(w)).into_wrapping_add(&b(&v.add(&Bv::one(w)))).unwrap()));
    r.push(("inc of v-1", b(&v.sub(&Bv::one(w))).into_wrapping_inc()));
    r.push(("dec of v+1", b(&v.add(&Bv::one(w))).into_wrapping_dec()));
    r.push(("(-v) * -1", b(&v.neg()).into_wrapping_mul(&ApInt::all_set(bw(w))).unwrap()));
    r.push(("v & ones", b(v).into_bitand(&ApInt::all_set(bw(w))).unwrap()));
    r.push(("~v ^ ones", b(&v.not()).into_bitxor(&ApInt::all_set(bw(w))).unwrap()));
    let mut z = ApInt::all_set(bw(w));
    z.assign(&b(v));
    r.push(("assign", z));
    r.push(("clone", b(v).clone()));
    let mut f = b(&v.not());
    f.flip_all();
    r.push(("flip_all", f));
    if w > 1 && !v.msb() {
        // v = (v << 1) >> 1
        r.push(("shl lshr", b(v).into_wrapping_shl(1).unwrap().into_wrapping_lshr(1).unwrap()));
    }
    if w > 1 {
        let m = b(&v.zresize(w).ashr(0));
        r.push(("ashr 0", m.into_wrapping_ashr(0).unwrap()));
    }
    r
}

fn route_check(env: &Env, name: &str, vs: &[Bv]) {
    env.space(format!("{} [{} values, each built along about 28 routes, compared pairwise]", name, vs.len()), vs.len() as u64);
    env.par(vs.len(), |t, i| {
        let v = &vs[i];
        t.states += 1;
        let key = format!("equality and hash of {:?} built along different routes", v);
        let ok = t.guarded(&key, || {
            let rs = routes(v);
            let base_h = h(&rs[0].1);
            let (bi, bu) = (h(&Int::from(rs[0].1.clone())), h(&UInt::from(rs[0].1.clone())));
            for (n, x) in &rs {
                // a route that produces another value is another property's business
                if obs::bits(x).ok().as_ref() != Some(v) {
                    continue
                }
                for (m, y) in &rs {
                    if obs::bits(y).ok().as_ref() != Some(v) {
                        continue
                    }
                    if x != y || !(x == y) {
                        env.fail(format!("{:?}: {} vs {}", v, n, m), "same value and width but unequal");
                        return false
                    }
                }
                if h(x) != base_h || h(&Int::from(x.clone())) != bi || h(&UInt::from(x.clone())) != bu {
                    env.fail(format!("{:?}: {}", v, n), "equal values hash differently");
                    return false
                }
            }
            true
        });
        if ok == Some(true) {
            t.traces += 1;
        }
    });
}

pub fn compare(env: &Env) {
    let th = env.thorough;
    let full = env.pick(|o| o.g == G::Cmp);
    let prim = env.pick(|o| o.g == G::Cmp && !o.derived);
    refused(env, &full);
    binary(env, &prim, &full);
    // neighbours that differ in one bit, in two bits of different digits, or by one
    for w in (1..=(if th { 400 } else { 260 })).chain([512, 513, 1024, 2049]) {
        let base = vals(if w <= 200 { edges(w) } else { tiny(w) });
        env.space(format!("pairs that differ in one bit or by one, width {}", w), (base.len() * (w + 2)) as u64);
        let ops = if w <= 130 { &full } else { &prim };
        env.par(base.len(), |t, i| {
            let x = &base[i];
            let one = Bv::one(w);
            let mut ns = vec![x.bv.add(&one), x.bv.sub(&one), x.bv.clone()];
            for k in 0..w {
                ns.push(x.bv.with(k, !x.bv.get(k)));
            }
            for n in ns {
                let y = Val::new(n);
                t.tuple(ops, x, &y, 0);
                t.tuple(ops, &y, x, 0);
            }
        });
    }
    for w in 1..=8 {
        route_check(env, &format!("all values, width {}", w), &all(w));
    }
    for w in (9..=200).chain([255, 256, 257, 320, 511, 512, 513]) {
        route_check(env, &format!("boundary values, width {}", w), &tiny(w));
    }
    for n in 9..=(if th { 40 } else { 33 }) {
        for w in [64 * n - 1, 64 * n] {
            route_check(env, &format!("digits that stand out, width {}", w), &thin(dedup([steps(w), lens(w)].concat()), 60));
        }
    }
}

pub fn casts(env: &Env) {
    let th = env.thorough;
    let full = env.pick(|o| o.g == G::Cast);
    let prim = env.pick(|o| o.g == G::Cast && !o.derived);
    let small: Vec<usize> = (1..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 193]).collect();
    for w in 1..=(if th { 12 } else { 8 }) {
        env.params(&format!("all values to small and boundary widths, width {}", w), &full, &vals(all(w)), &small);
    }
    let top = if th { 400 } else { 260 };
    let targets: Vec<usize> = (1..=top).collect();
    for w in 1..=top {
        let v = vals(tiny(w));
        env.params(&format!("every target width up to {}, width {}", top, w), &prim, &v, &targets);
    }
    let bws = [1usize, 2, 7, 8, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 319, 320, 321, 384, 448, 512, 513, 640, 1024, 1025];
    for w in bws {
        env.params(&format!("boundary widths, width {}", w), &full, &vals(edges(w)), &bws);
        env.params(&format!("runs, boundary widths, width {}", w), &prim, &vals(if w <= 320 { runs(w) } else { tiny(w) }), &bws);
    }
    for (w, al) in [(128usize, A13), (192, A9), (256, A5), (320, A4), (384, A3)] {
        env.params(&format!("digit alphabet, boundary widths, width {}", w), &prim, &vals(digits(w, al)), &bws);
    }
    let big = [1usize, 64, 65, 128, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097];
    for w in big {
        env.params(&format!("large widths, width {}", w), &prim, &vals(tiny(w)), &big);
    }
    let hw: Vec<usize> = HUGE.iter().flat_map(|n| [64 * n - 1, 64 * n]).chain([1, 64, 65, 128, 500, 1024, 2048]).collect();
    let ls = ladder(5, if th { 140 } else { 100 });
    for &w in &ls {
        env.params(&format!("every digit count to every digit count, width {}", w), &prim, &vals(dense(w)), &ls);
    }
    for &w in &hw {
        env.params(&format!("very large widths, width {}", w), &prim, &vals(if w > 64 { huge(w, 12) } else { tiny(w) }), &hw);
    }
    let gw: Vec<usize> = GIANT.iter().copied().chain([1, 64, 65, 128, 300, 1024, 32768]).collect();
    for &w in &gw {
        env.params(&format!("beyond 16-bit widths, width {}", w), &prim, &vals(if w > 65536 { giant(w) } else { thin(tiny(w), 12) }), &gw);
    }
    // every pair of digit counts up to 40
    let ws = around(1, if th { 66 } else { 40 });
    for &w in &ws {
        let n = nd(w);
        let mut l = vec![Bv::zero(w), Bv::ones(w), pow2(w, w - 1), pow2(w, w - 1).not(), tiny(w).pop().unwrap(), Bv::from_digits(w, &vec![0x9e37_79b9_7f4a_7c15; n])];
        if n > 1 {
            // sign bit of the lower digits only, and of the top digit only
            l.push(Bv::from_digits(w, &(0..n).map(|i| if i + 1 < n { 1 << 63 } else { 1 }).collect::<Vec<_>>()));
            l.push(pow2(w, 64 * (n - 1) - 1));
        }
        env.params(&format!("every digit count and its neighbours, width {}", w), &prim, &vals(dedup(l)), &ws);
    }
}

pub fn prims(env: &Env) {
    let ops = env.pick(|o| o.g == G::Prim);
    unary(env, &ops);
    for w in (1..=(if env.thorough { 600 } else { 330 })).chain([1024, 2049]) {
        let one = Bv::one(w);
        let mut v = Vec::new();
        for k in [0usize, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192] {
            if k < w {
                let x = pow2(w, k);
                v.extend([x.clone(), x.sub(&one), x.add(&one), x.neg(), x.neg().sub(&one), x.neg().add(&one), x.not()]);
                // small value with one far bit set
                for f in positions(w) {
                    v.push(x.with(f, true));
                    v.push(x.neg().with(f, false));
                }
            }
        }
        env.singles(&format!("values around every primitive's limits, width {}", w), &ops, &vals(dedup(v)));
    }
}

fn expect_val(env: &Env, t: &mut Thr, key: String, want: Bv, f: impl FnOnce() -> ApInt) {
    t.states += 1;
    if let Some(x) = t.guarded(&key, f) {
        match obs::mismatch(&x, &want) {
            None => t.traces += 1,
            Some(m) => env.fail(key, m),
        }
    }
}

pub fn construct(env: &Env) {
    let th = env.thorough;
    // every width: the named constants
    let ws: Vec<usize> = (1..=(if th { 17000 } else { 4200 })).chain([8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537, 131_071, 131_072, 131_073, 1 << 20]).collect();
    env.space("named constants at every width up to 4200 (thorough 17000) and powers of two", ws.len() as u64);
    env.par(ws.len(), |t, i| {
        let w = ws[i];
        let bw = BitWidth::new(w).unwrap();
        let min = pow2(w, w - 1);
        let max = min.not();
        macro_rules! c {
            ($e:expr, $v:expr) => {
                expect_val(env, t, format!("{} at width {}", stringify!($e), w), $v, || $e)
            };
        }
        c!(ApInt::zero(bw), Bv::zero(w));
        c!(ApInt::one(bw), Bv::one(w));
        c!(ApInt::all_unset(bw), Bv::zero(w));
        c!(ApInt::all_set(bw), Bv::ones(w));
        c!(ApInt::unsigned_min_value(bw), Bv::zero(w));
        c!(ApInt::unsigned_max_value(bw), Bv::ones(w));
        c!(ApInt::signed_min_value(bw), min.clone());
        c!(ApInt::signed_max_value(bw), max.clone());
        c!(Int::zero(bw).into_apint(), Bv::zero(w));
        c!(Int::all_unset(bw).into_apint(), Bv::zero(w));
        c!(Int::all_set(bw).into_apint(), Bv::ones(w));
        c!(Int::min_value(bw).into_apint(), min.clone());
        c!(Int::max_value(bw).into_apint(), max.clone());
        c!(UInt::zero(bw).into_apint(), Bv::zero(w));
        c!(UInt::one(bw).into_apint(), Bv::one(w));
        c!(UInt::all_unset(bw).into_apint(), Bv::zero(w));
        c!(UInt::all_set(bw).into_apint(), Bv::ones(w));
        c!(UInt::min_value(bw).into_apint(), Bv::zero(w));
        c!(UInt::max_value(bw).into_apint(), Bv::ones(w));
        if w == 1 {
            if Int::one(bw).is_some() {
                env.fail("Int::one at width 1", "not None although 1 is not representable");
            }
        } else {
            c!(Int::one(bw).unwrap().into_apint(), Bv::one(w));
        }
        t.guarded(&format!("BitWidth {}", w), || {
            if bw.to_usize() != w || BitWidth::from(w) != bw {
                env.fail(format!("BitWidth {}", w), "does not report its number");
            }
        });
    });
    env.par(1, |t, _| {
        t.guarded("BitWidth::new(0)", || {
            if BitWidth::new(0).is_ok() {
                env.fail("BitWidth::new(0)", "accepted");
            }
            for (b, n) in [(BitWidth::w1(), 1usize), (BitWidth::w8(), 8), (BitWidth::w16(), 16), (BitWidth::w32(), 32), (BitWidth::w64(), 64), (BitWidth::w128(), 128)] {
                if b.to_usize() != n {
                    env.fail(format!("BitWidth::w{}", n), "wrong width");
                }
            }
            for r in 0..=255u8 {
                let ok = (2..=36).contains(&r);
                match Radix::new(r) {
                    Ok(x) if ok && x.to_u8() == r => {}
                    Err(_) if !ok => {}
                    _ => env.fail(format!("Radix::new({})", r), "accepted or refused wrongly"),
                }
            }
        });
        for b in [false, true] {
            let v = Bv::from_digits(1, &[b as u64]);
            expect_val(env, t, format!("from_bool({})", b), v.clone(), || ApInt::from_bool(b));
            expect_val(env, t, format!("ApInt::from({})", b), v.clone(), || ApInt::from(b));
            expect_val(env, t, format!("Int::from({})", b), v.clone(), || Int::from(b).into_apint());
            expect_val(env, t, format!("Int::from_bool({})", b), v.clone(), || Int::from_bool(b).into_apint());
            expect_val(env, t, format!("UInt::from({})", b), v.clone(), || UInt::from(b).into_apint());
            expect_val(env, t, format!("UInt::from_bool({})", b), v, || UInt::from_bool(b).into_apint());
        }
    });
    macro_rules! prim {
        ($list:expr, $u:ident, $i:ident, $n:literal, $fu:ident, $fi:ident) => {{
            let l: Vec<$u> = $list;
            env.space(concat!("from ", stringify!($u), " and ", stringify!($i)), l.len() as u64);
            env.par(l.len(), |t, k| {
                let x: $u = l[k];
                let y = x as $i;
                let v = Bv::from_u128($n, x as u128);
                expect_val(env, t, format!("ApInt::{}({})", stringify!($fu), x), v.clone(), || ApInt::$fu(x));
                expect_val(env, t, format!("ApInt::{}({})", stringify!($fi), y), v.clone(), || ApInt::$fi(y));
                expect_val(env, t, format!("ApInt::from({}{})", x, stringify!($u)), v.clone(), || ApInt::from(x));
                expect_val(env, t, format!("ApInt::from({}{})", y, stringify!($i)), v.clone(), || ApInt::from(y));
                expect_val(env, t, format!("UInt::{}({})", stringify!($fu), x), v.clone(), || UInt::$fu(x).into_apint());
                expect_val(env, t, format!("UInt::from({})", x), v.clone(), || UInt::from(x).into_apint());
                expect_val(env, t, format!("Int::{}({})", stringify!($fi), y), v.clone(), || Int::$fi(y).into_apint());
                expect_val(env, t, format!("Int::from({})", y), v, || Int::from(y).into_apint());
            });
        }};
    }
    prim!((0..=u8::MAX).collect(), u8, i8, 8, from_u8, from_i8);
    prim!((0..=u16::MAX).collect(), u16, i16, 16, from_u16, from_i16);
    prim!(runs(32).iter().map(|b| b.d[0] as u32).chain((0..16u32).flat_map(|i| (0..16u32).map(move |j| (i * 0x1111_1111) ^ (j << (2 * i))))).collect(), u32, i32, 32, from_u32, from_i32);
    // 32 bits: every combination of the upper and lower 12 bits (thorough: every value)
    let n = match (th, env.prop == "C22") {
        (true, false) => 1usize << 32,
        (_, true) => 1 << 18,
        _ => 1 << 24,
    };
    env.space("from u32 and i32 (thorough: all 2^32)", n as u64);
    env.par(n >> 12, |t, hi| {
        for lo in 0..1usize << 12 {
            let x = if th { (hi << 12 | lo) as u32 } else { ((hi << 20) | lo) as u32 };
            t.states += 1;
            let ok = t.guarded("from u32 and i32", || {
                let raw = |a: &ApInt| a.width().to_usize() == 32 && a.resize_to_u128() == x as u128;
                raw(&ApInt::from_u32(x)) && raw(&ApInt::from_i32(x as i32)) && raw(&ApInt::from(x)) && raw(&ApInt::from(x as i32))
                    && raw(&UInt::from(x).into_apint()) && raw(&Int::from(x as i32).into_apint())
            });
            if ok == Some(true) {
                t.traces += 1;
            } else {
                env.fail(format!("from u32/i32 {}", x), "not the value given");
            }
        }
    });
    prim!(runs(64).iter().map(|b| b.d[0]).chain(A20.iter().copied()).collect(), u64, i64, 64, from_u64, from_i64);
    prim!(runs(128).iter().chain(digits(128, A20).iter()).map(|b| b.lo128()).collect(), u128, i128, 128, from_u128, from_i128);
    macro_rules! arr {
        ($($n:literal $al:expr;)*) => {$({
            let l = { let mut l = runs(64 * $n); l.extend(digits_of($n, $al)); dedup(l) };
            env.space(format!("from arrays of {} digits", $n), l.len() as u64);
            env.par(l.len(), |t, k| {
                let v = &l[k];
                let mut u = [0u64; $n];
                let mut s = [0i64; $n];
                // big-endian: the first array element is the most significant
                for i in 0..$n { u[i] = v.d[$n - 1 - i]; s[i] = v.d[$n - 1 - i] as i64; }
                expect_val(env, t, format!("ApInt::from([u64; {}]) {:?}", $n, v), v.clone(), || ApInt::from(u));
                expect_val(env, t, format!("ApInt::from([i64; {}]) {:?}", $n, v), v.clone(), || ApInt::from(s));
                expect_val(env, t, format!("UInt::from([u64; {}]) {:?}", $n, v), v.clone(), || UInt::from(u).into_apint());
                expect_val(env, t, format!("Int::from([i64; {}]) {:?}", $n, v), v.clone(), || Int::from(s).into_apint());
            });
        })*};
    }
    fn digits_of(n: usize, al: &[u64]) -> Vec<Bv> {
        if n <= 8 { digits(64 * n, al) } else { vec![] }
    }
    arr! { 2 A20; 3 A13; 4 A9; 5 A6; 6 A4; 7 A3; 8 A3; 16 A2; 32 A2; }
}

/// every operation on every kind of refused input, and operands of every width
pub fn errors(env: &Env) {
    crate::ops::WORDS.store(true, std::sync::atomic::Ordering::Relaxed);
    let ab = env.pick(|o| o.k == K::AB);
    let ws: Vec<usize> = if env.thorough { (1..=140).chain([191, 192, 193, 255, 256, 257, 320, 512]).collect() } else { (1..=9).chain([31, 32, 33]).chain(60..=70).chain(124..=132).chain([191, 192, 193, 256, 257, 320, 512]).collect() };
    let mut l = Vec::new();
    for &w in &ws {
        for b in [Bv::zero(w), Bv::one(w), Bv::ones(w), pow2(w, w - 1), pow2(w, w / 2)] {
            l.push(b);
        }
    }
    let v = vals(dedup(l));
    env.pairs("operands of every pair of widths", &ab, &v, &v);
    // division by zero, every dividend shape
    let dv = env.pick(|o| matches!(o.g, G::UDiv | G::SDiv));
    for w in (1..=200).chain([255, 256, 257, 320, 512, 513, 1024]) {
        env.pairs(&format!("division by zero, width {}", w), &dv, &vals(edges(w)), &vals(vec![Bv::zero(w)]));
    }
    for w in 1..=8 {
        env.pairs(&format!("division by zero, all dividends of width {}", w), &dv, &vals(all(w)), &vals(vec![Bv::zero(w)]));
    }
    let sh = env.pick(|o| matches!(o.k, K::AS | K::AP));
    for w in (1..=(if env.thorough { 400 } else { 200 })).chain([255, 256, 257, 320, 512, 513, 1024, 2048]) {
        let mut ps = beyond(w);
        ps.extend([0, w - 1, w / 2]);
        env.params(&format!("refused amounts and positions, width {}", w), &sh, &vals(tiny(w)), &ps);
    }
    let ca = env.pick(|o| o.k == K::AW);
    let ws: Vec<usize> = (1..=140).chain([191, 192, 193, 256, 320]).collect();
    for &w in &ws {
        env.params(&format!("refused target widths, width {}", w), &ca, &vals(vec![Bv::zero(w), Bv::ones(w), pow2(w, w - 1), pow2(w, w / 2)]), &ws);
    }
    let pr = env.pick(|o| o.g == G::Prim);
    for w in 1..=200 {
        env.singles(&format!("unrepresentable values, width {}", w), &pr, &vals(edges(w)));
    }
    super::text::error_cases(env);
    #[cfg(feature = "full")]
    super::serde_p::error_cases(env);
    // constructors that are documented to refuse
    env.par(1, |t, _| {
        t.guarded("BitWidth::new(0) and Radix::new", || {
            match BitWidth::new(0) {
                Err(e) if matches!(e.kind(), apint::ErrorKind::InvalidBitWidth(0)) && crate::ops::words(&e).is_none() => {}
                x => env.fail("BitWidth::new(0)", format!("{:?}", x)),
            }
            for r in (0..=1u8).chain(37..=255) {
                match Radix::new(r) {
                    Err(e) if matches!(e.kind(), apint::ErrorKind::InvalidRadix(x) if *x == r) && crate::ops::words(&e).is_none() => {}
                    x => env.fail(format!("Radix::new({})", r), format!("{:?}", x)),
                }
            }
        });
    });
}

/// wrappers, operators and consuming forms against the model
pub fn forms(env: &Env) {
    let th = env.thorough;
    let ab = env.pick(|o| o.k == K::AB && o.derived);
    let a = env.pick(|o| o.k == K::A && o.derived);
    let s = env.pick(|o| matches!(o.k, K::AS | K::AP) && o.derived);
    let c = env.pick(|o| o.k == K::AW && o.derived);
    refused(env, &ab);
    for w in 1..=(if th { 8 } else { 6 }) {
        let v = vals(all(w));
        env.pairs(&format!("all pairs, width {}", w), &ab, &v, &v);
    }
    for w in (1..=(if th { 260 } else { 140 })).chain([191, 192, 193, 255, 256, 257, 320, 384, 512]) {
        let v = vals(if w <= 70 || (120..=130).contains(&w) || (th && w < 150) { edges(w) } else { tiny(w) });
        env.pairs(&format!("boundary pairs, width {}", w), &ab, &v, &v);
        let mut ps: Vec<usize> = (0..w).collect();
        ps.extend(beyond(w));
        env.params(&format!("boundary values, every amount and position, width {}", w), &s, &v, &ps);
    }
    for n in 6..=(if th { 40 } else { 24 }) {
        for w in [64 * n, 64 * n - 1] {
            let v = vals(thin(dedup([steps(w), lens(w)].concat()), 48));
            env.pairs(&format!("many digits, width {}", w), &ab, &v, &v);
            let mut ps = positions(w);
            ps.extend([w, usize::MAX]);
            env.params(&format!("many digits, boundary amounts and positions, width {}", w), &s, &v, &ps);
        }
    }
    for (w, al) in [(128usize, A9), (127, A9), (192, if th { A6 } else { A4 }), (256, A3)] {
        let v = vals(digits(w, al));
        env.pairs(&format!("digit alphabet, width {}", w), &ab, &v, &v);
    }
    unary(env, &a);
    let ws: Vec<usize> = (1..=130).chain([191, 192, 193, 256, 257, 320]).chain(around(6, if th { 40 } else { 24 })).collect();
    for &w in &ws {
        env.params(&format!("every target width, width {}", w), &c, &vals(tiny(w)), &ws);
    }
}

/// copies: equal to the source, independent of it afterwards
pub fn copies(env: &Env) {
    let th = env.thorough;
    let ab = env.pick(|o| o.g == G::Copy && o.k == K::AB);
    let a = env.pick(|o| o.g == G::Copy && o.k == K::A);
    unary(env, &a);
    let mut l = Vec::new();
    for w in (1..=(if th { 200 } else { 70 })).chain([96, 100, 120, 126, 127, 128, 129, 130, 160, 190, 191, 192, 193, 194, 255, 256, 257, 320, 321, 384, 448, 512, 513, 1024, 2048]) {
        for b in [Bv::zero(w), Bv::ones(w), pow2(w, w - 1), pow2(w, w / 2), tiny(w).pop().unwrap()] {
            l.push(b);
        }
    }
    for w in around(8, if th { 66 } else { 40 }).into_iter().chain(ladder(41, 140)) {
        l.extend([Bv::ones(w), tiny(w).pop().unwrap()]);
    }
    let v = vals(dedup(l));
    env.pairs("assignment between every pair of widths", &ab, &v, &v);
    for w in 1..=6 {
        let v = vals(all(w));
        env.pairs(&format!("all pairs, width {}", w), &ab, &v, &v);
    }
    for (w, al) in [(128usize, A9), (192, A5), (256, A3)] {
        let v = vals(digits(w, al));
        env.pairs(&format!("digit alphabet, width {}", w), &ab, &v, &v);
    }
    // independence: after every kind of copy, every operation on one side must
    // leave the other side alone
    let mutators: Vec<usize> = env.pick(|o| !o.query);
    let ws: Vec<usize> = vec![1, 2, 8, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 256, 320, 512];
    let kinds = ["clone", "clone_from(same width)", "clone_from(other width)", "assign(same width)", "assign(other width)", "strict_assign"];
    let cells: Vec<(usize, usize)> = (0..ws.len()).flat_map(|i| (0..kinds.len()).map(move |k| (i, k))).collect();
    env.space(format!("independence of copies: {} widths x {} kinds of copy x {} mutating operations x values x operands x both directions", ws.len(), kinds.len(), mutators.len()), cells.len() as u64);
    env.par(cells.len(), |t, ci| {
        let (wi, k) = cells[ci];
        let w = ws[wi];
        let src = tiny(w);
        let rhs: Vec<Val> = vals(vec![Bv::one(w), Bv::ones(w), pow2(w, w / 2)]);
        for sv in src.iter().take(if th { 40 } else { 14 }) {
            for &oi in &mutators {
                for (bi, b) in rhs.iter().enumerate() {
                    let op = &env.ops[oi];
                    if op.k != K::AB && bi > 0 {
                        break
                    }
                    for dir in 0..2 {
                        let p = match op.k {
                            K::AS | K::AP => w / 2,
                            K::AW => [w, w, 2 * w, (w + 1) / 2][((bi + dir) % 4) as usize],
                            _ => 0,
                        };
                        let key = format!("{} of {:?}, then {} (p={}, b={:?}) on the {}", kinds[k], sv, op.name, p, b.bv, ["copy", "original"][dir]);
                        t.states += 1;
                        let r = t.guarded(&key, || {
                            let orig = obs::build(sv);
                            let mut copy;
                            let other = |w2: usize| ApInt::all_set(BitWidth::new(w2).unwrap());
                            match k {
                                0 => copy = orig.clone(),
                                1 => {
                                    copy = other(w);
                                    copy.clone_from(&orig)
                                }
                                2 => {
                                    copy = other(if w <= 64 { w + 130 } else { 7 });
                                    copy.clone_from(&orig)
                                }
                                3 => {
                                    copy = other(w);
                                    copy.assign(&orig)
                                }
                                4 => {
                                    copy = other(if w <= 64 { w + 130 } else { w + 64 });
                                    copy.assign(&orig)
                                }
                                _ => {
                                    copy = other(w);
                                    copy.strict_assign(&orig).unwrap()
                                }
                            }
                            if let Some(m) = obs::mismatch(&copy, sv) {
                                return Some(format!("copy: {}", m))
                            }
                            let (subject, witness) = if dir == 0 { (copy, orig) } else { (orig, copy) };
                            let mut regs = crate::ops::Regs { a: None, b: None, ia: None, ib: None, ua: None, ub: None };
                            let bb = b.ap.clone();
                            match op.ty {
                                crate::ops::Ty::Ap => {
                                    regs.a = Some(subject);
                                    regs.b = Some(bb)
                                }
                                crate::ops::Ty::In => {
                                    regs.ia = Some(Int::from(subject));
                                    regs.ib = Some(Int::from(bb))
                                }
                                crate::ops::Ty::Un => {
                                    regs.ua = Some(UInt::from(subject));
                                    regs.ub = Some(UInt::from(bb))
                                }
                            }
                            // an operation that panics (operators on refused input) is fine here
                            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.imp)(&mut regs, p)));
                            drop(regs);
                            obs::mismatch(&witness, sv).map(|m| format!("the other side changed: {}", m))
                        });
                        match r {
                            Some(None) => t.traces += 1,
                            Some(Some(m)) => env.fail(key, m),
                            None => {}
                        }
                        if t.stopped() {
                            return
                        }
                    }
                }
            }
        }
    });
}
