//! C14, C15: memory safety (fenced allocator, leak accounting) and allocation
//! discipline.
use super::sweep::table;
use crate::alloc::{counters, Fence};
use crate::engine::*;
use crate::model::Bv;
use crate::obs;
use crate::ops::{G, K};
use crate::spaces::*;
use apint::{ApInt, BitWidth, Int, UInt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

/// Runs the closure under the fenced allocator; nothing may stay allocated.
fn sealed<R>(t: &mut Thr, key: &str, f: impl Fn() -> R) {
    t.states += 1;
    t.record_text(key);
    let (mut c0, mut c1, mut panicked);
    let mut n = 0;
    loop {
        t.trans += 1;
        c0 = counters();
        let r = {
            let _f = Fence::on();
            catch_unwind(AssertUnwindSafe(|| drop(f())))
        };
        // panic payloads are the harness's to free
        panicked = r.is_err();
        drop(r);
        c1 = counters();
        n += 1;
        // what is kept once is not lost; what is lost is lost every time
        if panicked || n == 4 || (c1.live <= c0.live && c1.blocks <= c0.blocks) {
            break
        }
    }
    t.idle();
    if panicked {
        t.fail(key.into(), format!("panicked: {}", panic_msg()));
    } else if c1.live > c0.live || c1.blocks > c0.blocks {
        t.fail(key.into(), format!("leaked {} block(s), {} byte(s)", c1.blocks - c0.blocks, c1.live - c0.live));
    } else {
        t.traces += 1;
    }
}

pub fn safety(env: &Env) {
    env.fence.store(true, SeqCst);
    table(env, "fenced");
    // text, storage formats, random values, constructors
    let mut l: Vec<(String, u8)> = Vec::new();
    for radix in 2..=36u8 {
        for n in [1usize, 5, 10, 12, 13, 14, 20, 21, 22, 32, 33, 40, 41, 63, 64, 65, 127, 128, 129, 200, 257] {
            let m = std::char::from_digit(radix as u32 - 1, 36).unwrap();
            l.push((m.to_string().repeat(n), radix));
            l.push((format!("1{}", "0".repeat(n - 1)), radix));
            l.push((format!("{}!", "1".repeat(n)), radix));
            l.push((format!("0{}_1", "0".repeat(n - 1)), radix));
        }
        l.push(("".into(), radix));
        l.push(("_".into(), radix));
        l.push(("é1".into(), radix));
    }
    env.space("fenced: text to integer", l.len() as u64);
    env.par(l.len(), |t, i| {
        let (s, r) = &l[i];
        let key = super::text::parse_key(s, *r);
        sealed(t, &key, || ApInt::from_str_radix(*r, s.as_str()));
    });
    let docs = super::serde_p::docs();
    env.space("fenced: stored text forms", docs.len() as u64);
    env.par(docs.len(), |t, i| {
        let s = &docs[i].0;
        sealed(t, &format!("load text form {}", s), || serde_json::from_str::<ApInt>(s));
    });
    let ws: Vec<usize> = (1..=(if env.thorough { 400 } else { 200 })).chain(around(4, if env.thorough { 260 } else { 140 })).collect();
    env.space("fenced: constructors, stores, loads, formats and random values", ws.len() as u64);
    env.par(ws.len(), |t, i| {
        let w = ws[i];
        let bw = BitWidth::new(w).unwrap();
        sealed(t, &format!("constructors of width {}", w), || {
            (ApInt::zero(bw), ApInt::one(bw), ApInt::all_set(bw), ApInt::signed_min_value(bw), ApInt::signed_max_value(bw), ApInt::unsigned_max_value(bw), Int::min_value(bw), UInt::max_value(bw))
        });
        for v in if w <= 520 { tiny(w) } else { dense(w) } {
            let a = obs::build(&v);
            sealed(t, &format!("store and load {:?}", v), || {
                let s = serde_json::to_string(&a).unwrap();
                let b = bincode::serialize(&a).unwrap();
                let x = serde_json::from_str::<ApInt>(&s).unwrap();
                let y = bincode::deserialize::<ApInt>(&b).unwrap();
                (s.len(), b.len(), x, y)
            });
            sealed(t, &format!("format {:?}", v), || format!("{:b} {:x} {:X} {:?}", a, a, a, a));
        }
        let st: Vec<u64> = (0..2 * (w as u64 / 64 + 2)).map(|k| 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(k + 1)).collect();
        sealed(t, &format!("random of width {}", w), || {
            let mut s = super::rand_p::Script::new(&st);
            let mut a = ApInt::random_with_width_using(bw, &mut s);
            a.randomize_using(&mut s);
            a
        });
        let n = (w + 63) / 64;
        for k in (0..n).filter(|k| n < 12 || *k < 3 || n - k < 3 || *k == n / 2) {
            sealed(t, &format!("random of width {}, generator panics at draw {}", w, k), || {
                let mut s = super::rand_p::Script::new(&st);
                s.panic_at = k;
                let r = catch_unwind(AssertUnwindSafe(|| ApInt::random_with_width_using(bw, &mut s)));
                // the payload of a panic! with a literal owns nothing
                if let Err(p) = r {
                    drop(p);
                }
            });
        }
    });
    // array constructors of every offered size
    macro_rules! arr { ($($n:literal)*) => { env.par(1, |t, _| { $(
        sealed(t, concat!("from [u64; ", stringify!($n), "]"), || (ApInt::from([u64::MAX; $n]), ApInt::from([-1i64; $n]), UInt::from([1u64; $n]), Int::from([1i64; $n])));
    )* }) } }
    arr!(2 3 4 5 6 7 8 16 32);
    // histories: sequences of width changes, copies and assignments on live objects
    let ws = [1usize, 8, 63, 64, 65, 127, 128, 129, 192, 193, 256];
    let n = ws.len();
    env.space("fenced: chains of four width changes, assignments, clones and swaps between objects of 11 widths", (n * n * n * n) as u64);
    env.par(n * n, |t, i| {
        for j in 0..n * n {
            let (w0, w1, w2, w3) = (ws[i % n], ws[i / n], ws[j % n], ws[j / n]);
            sealed(t, &format!("chain of widths {} {} {} {}", w0, w1, w2, w3), || {
                let bw = |w| BitWidth::new(w).unwrap();
                let mut a = ApInt::all_set(bw(w0));
                a.sign_resize(w1);
                let mut b = a.clone();
                b.zero_resize(w2);
                a.assign(&b);
                b.clone_from(&a);
                a.zero_resize(w3);
                let c = std::mem::replace(&mut b, a.clone());
                let mut v = vec![a, b, c];
                v.swap(0, 2);
                v[1].sign_resize(w0);
                v.truncate(2);
                let i = Int::from(v.pop().unwrap());
                let u = i.clone().into_unsigned();
                (v, i, u)
            });
        }
    });
    env.note("fenced_allocations", crate::alloc::FENCED.load(SeqCst).to_string());
}

pub fn discipline(env: &Env) {
    env.check_alloc.store(true, SeqCst);
    if std::mem::size_of::<ApInt>() != 16 || std::mem::size_of::<Int>() != 16 || std::mem::size_of::<UInt>() != 16 {
        env.fail("size of an integer object", format!("{} bytes", std::mem::size_of::<ApInt>()));
    }
    table(env, "counted");
    let ab = env.pick(|o| o.k == K::AB && o.g != G::Fmt);
    let a = env.pick(|o| o.k == K::A && o.g != G::Fmt);
    for w in 1..=64 {
        let v = vals(edges(w));
        env.pairs(&format!("counted: boundary pairs, width {}", w), &ab, &v, &v);
    }
    for w in 1..=(if env.thorough { 12 } else { 8 }) {
        env.singles(&format!("counted: all values, width {}", w), &a, &vals(all(w)));
    }
    // constructors
    let ws: Vec<usize> = (1..=(if env.thorough { 1000 } else { 400 })).chain(around(7, if env.thorough { 520 } else { 260 })).collect();
    env.space("counted: constructors of every width", ws.len() as u64);
    env.par(ws.len(), |t, i| {
        let w = ws[i];
        t.states += 1;
        let bw = BitWidth::new(w).unwrap();
        let want = if w <= 64 { 0 } else { 8 * ((w + 63) / 64) as i64 };
        let st: Vec<u64> = (0..w as u64 / 64 + 2).map(|k| 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(k + 1)).collect();
        let fs: Vec<(&str, Box<dyn Fn() -> ApInt>)> = vec![
            ("zero", Box::new(move || ApInt::zero(bw))),
            ("one", Box::new(move || ApInt::one(bw))),
            ("all_set", Box::new(move || ApInt::all_set(bw))),
            ("signed_min_value", Box::new(move || ApInt::signed_min_value(bw))),
            ("signed_max_value", Box::new(move || ApInt::signed_max_value(bw))),
            ("unsigned_max_value", Box::new(move || ApInt::unsigned_max_value(bw))),
            ("random", Box::new(move || ApInt::random_with_width_using(bw, &mut super::rand_p::Script::new(&st)))),
        ];
        let mut ok = true;
        for (n, f) in fs {
            let key = format!("{} of width {}", n, w);
            let r = t.guarded(&key, || {
                let c0 = counters();
                let a = f();
                let c1 = counters();
                drop(a);
                let c2 = counters();
                (c1.live - c0.live, c1.allocs - c0.allocs, c2.live - c0.live)
            });
            if let Some((live, allocs, left)) = r {
                if live != want || left != 0 || (w <= 64 && allocs != 0) {
                    ok = false;
                    t.fail(key, format!("holds {} heap bytes ({} allocations, {} bytes left after drop), expected {}", live, allocs, left, want));
                }
            }
        }
        if ok {
            t.traces += 1;
        }
    });
}
