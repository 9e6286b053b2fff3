//! C19: random integers as a function of the generator's answers.
use crate::engine::*;
use crate::model::{nd, Bv};
use crate::obs;
use crate::spaces::*;
use apint::{ApInt, BitWidth, Int, UInt};
use rand::{Error, RngCore};

/// A generator whose answers are chosen by the explorer.
pub struct Script<'a> {
    pub ans: &'a [u64],
    pub used: usize,
    /// calls through anything but next_u64
    pub other: usize,
    pub panic_at: usize,
}
impl<'a> Script<'a> {
    pub fn new(ans: &'a [u64]) -> Script<'a> {
        Script { ans, used: 0, other: 0, panic_at: usize::MAX }
    }
}
impl RngCore for Script<'_> {
    fn next_u32(&mut self) -> u32 {
        self.other += 1;
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.used == self.panic_at {
            panic!("generator failed")
        }
        let r = self.ans[self.used % self.ans.len()];
        self.used += 1;
        r
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.other += 1;
        for c in d.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&b[..n]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Also used for the constructors: every form, from the same stream.
pub fn case(t: &mut Thr, w: usize, stream: &[u64], old: &[Bv]) {
    t.states += 1;
    let n = nd(w);
    let want = Bv::from_digits(w, &stream[..n]);
    let key = format!("random width {} from generator answers {:x?}", w, &stream[..n]);
    let fence = t.env.fence.load(std::sync::atomic::Ordering::Relaxed);
    let r = t.guarded(&key, || {
        let bw = BitWidth::new(w).unwrap();
        let mk = |f: &mut dyn FnMut(&mut Script) -> ApInt| {
            let mut s = Script::new(stream);
            let a = {
                let _f = if fence { Some(crate::alloc::Fence::on()) } else { None };
                f(&mut s)
            };
            (a, s.used)
        };
        let mut l: Vec<(String, ApInt, usize)> = Vec::new();
        let (a, u) = mk(&mut |s| ApInt::random_with_width_using(bw, s));
        l.push(("random_with_width_using".into(), a, u));
        let (a, u) = mk(&mut |s| Int::random_with_width_using(bw, s).into_apint());
        l.push(("Int::random_with_width_using".into(), a, u));
        let (a, u) = mk(&mut |s| UInt::random_with_width_using(bw, s).into_apint());
        l.push(("UInt::random_with_width_using".into(), a, u));
        for o in old {
            let b = obs::build(o);
            let (a, u) = mk(&mut |s| {
                let mut x = b.clone();
                x.randomize_using(s);
                x
            });
            l.push((format!("randomize_using on {:?}", o), a, u));
            let (a, u) = mk(&mut |s| {
                let mut x = Int::from(b.clone());
                x.randomize_using(s);
                x.into_apint()
            });
            l.push((format!("Int::randomize_using on {:?}", o), a, u));
            let (a, u) = mk(&mut |s| {
                let mut x = UInt::from(b.clone());
                x.randomize_using(s);
                x.into_apint()
            });
            l.push((format!("UInt::randomize_using on {:?}", o), a, u));
        }
        for (n2, a, used) in &l {
            if let Some(m) = obs::mismatch(a, &want) {
                return Some(format!("{}: {}", n2, m))
            }
            // drawing ahead is allowed only when nothing later depends on it;
            // exactly the digits needed keeps a shared generator reproducible
            if *used != n {
                return Some(format!("{}: drew {} numbers for {} digits", n2, used, n))
            }
        }
        None
    });
    match r {
        Some(None) => t.traces += 1,
        Some(Some(m)) => t.fail(key, m),
        None => {}
    }
}

pub fn random(env: &Env) {
    let th = env.thorough;
    for w in 1..=(if th { 640 } else { 600 }) {
        let n = nd(w);
        let al: &[u64] = match n {
            1 | 2 => A20,
            3 => A20,
            4 => if th { A13 } else { A9 },
            5 => if th { A6 } else { A4 },
            6 => if th { A5 } else { A3 },
            _ => A2,
        };
        // the answers are 64-bit words whatever the width
        let st = digits(n * 64, al);
        let st = if st.len() > 2000 && w % 64 != 0 && w % 64 != 1 && w % 64 != 63 { st.into_iter().step_by(7).collect() } else { st };
        let old = [Bv::zero(w), Bv::ones(w), tiny(w).pop().unwrap()];
        env.space(format!("width {}: generator answers over an alphabet of {} words", w, al.len()), st.len() as u64);
        env.par(st.len(), |t, i| {
            let mut s: Vec<u64> = st[i].d.to_vec();
            s.extend([0x1111, 0x2222, 0x3333]);
            case(t, w, &s, &old);
        });
    }
    for w in around(10, if th { 130 } else { 66 }).into_iter().chain(ladder(67, 140)).chain([64 * 128, 64 * 256 - 1, 64 * 256, 64 * 257]) {
        let st = sparse1(64 * nd(w));
        let old = [Bv::zero(w), Bv::ones(w)];
        env.space(format!("width {}: one word of the answers stands out, every position", w), st.len() as u64);
        env.par(st.len(), |t, i| {
            let mut s: Vec<u64> = st[i].d.to_vec();
            s.extend([0x1111, 0x2222, 0x3333]);
            case(t, w, &s, &old);
        });
    }
    for &w in GIANT {
        let st = giant(64 * nd(w));
        let old = [Bv::ones(w)];
        env.space(format!("width {}: beyond 16-bit widths", w), st.len() as u64);
        env.par(st.len(), |t, i| {
            let mut s: Vec<u64> = st[i].d.to_vec();
            s.extend([0x1111, 0x2222, 0x3333]);
            case(t, w, &s, &old);
        });
    }
    // one random bit at every position of the answers
    for w in [1usize, 2, 8, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 512, 1024, 1025] {
        let n = nd(w);
        let old = [Bv::ones(w)];
        env.space(format!("width {}: one bit set or cleared at every position of the generator's answers", w), 2 * n as u64 * 64);
        env.par(n * 128, |t, i| {
            let mut s = vec![if i & 1 == 0 { 0u64 } else { u64::MAX }; n];
            let k = i / 2;
            s[k / 64] ^= 1 << (k % 64);
            s.push(0x5555);
            case(t, w, &s, &old);
        });
    }
    // sequences from one shared generator
    let ws = [1usize, 8, 64, 65, 128, 129, 192];
    env.space("sequences of three draws of different widths from one generator", (ws.len() * ws.len() * ws.len()) as u64);
    env.par(ws.len() * ws.len() * ws.len(), |t, i| {
        let l = [ws[i % 7], ws[i / 7 % 7], ws[i / 49]];
        t.states += 1;
        let key = format!("three draws of widths {:?}", l);
        let stream: Vec<u64> = (0..16u64).map(|k| 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(k + 3)).collect();
        let r = t.guarded(&key, || {
            let mut s = Script::new(&stream);
            let mut at = 0;
            for (k, &w) in l.iter().enumerate() {
                let want = Bv::from_digits(w, &stream[at..at + nd(w)]);
                at += nd(w);
                let a = if k == 1 {
                    let mut x = ApInt::all_set(BitWidth::new(w).unwrap());
                    x.randomize_using(&mut s);
                    x
                } else {
                    ApInt::random_with_width_using(BitWidth::new(w).unwrap(), &mut s)
                };
                if let Some(m) = obs::mismatch(&a, &want) {
                    return Some(format!("draw {}: {}", k, m))
                }
            }
            None
        });
        match r {
            Some(None) => t.traces += 1,
            Some(Some(m)) => t.fail(key, m),
            None => {}
        }
    });
    // the self-seeding forms: any value is right, but it must be a value of the width
    let ws: Vec<usize> = (1..=200).chain([255, 256, 257, 320, 512, 513]).collect();
    env.space("self-seeded forms: width and canonical form", ws.len() as u64);
    env.par(ws.len(), |t, i| {
        let w = ws[i];
        t.states += 1;
        let key = format!("self-seeded random width {}", w);
        let r = t.guarded(&key, || {
            let bw = BitWidth::new(w).unwrap();
            for _ in 0..8 {
                let mut x = ApInt::all_set(bw);
                x.randomize();
                let mut y = Int::from(ApInt::all_set(bw));
                y.randomize();
                let mut z = UInt::from(ApInt::zero(bw));
                z.randomize();
                for a in [ApInt::random_with_width(bw), x, y.into_apint(), z.into_apint(), Int::random_with_width(bw).into_apint(), UInt::random_with_width(bw).into_apint()] {
                    let v = match obs::bits(&a) {
                        Ok(v) => v,
                        Err(e) => return Some(e),
                    };
                    if v.w != w {
                        return Some(format!("width {}", v.w))
                    }
                    if let Some(m) = obs::mismatch(&a, &v) {
                        return Some(m)
                    }
                }
            }
            None
        });
        match r {
            Some(None) => t.traces += 1,
            Some(Some(m)) => t.fail(key, m),
            None => {}
        }
    });
}
