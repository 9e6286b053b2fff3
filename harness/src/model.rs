//! Reference model: a bit vector of a fixed width.  Deliberately boring: every
//! operation is written from its mathematical definition and nothing here is
//! derived from the code under test.
use smallvec::SmallVec;
use std::cmp::Ordering;

pub type Dv = SmallVec<[u64; 8]>;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bv {
    pub w: usize,
    /// little-endian 64-bit digits, ceil(w/64) of them, bits >= w are zero
    pub d: Dv,
}

pub fn nd(w: usize) -> usize {
    (w + 63) / 64
}

impl std::fmt::Debug for Bv {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}:0x{}", self.w, self.hex())
    }
}

impl Bv {
    pub fn zero(w: usize) -> Bv {
        Bv { w, d: SmallVec::from_elem(0, nd(w)) }
    }
    pub fn ones(w: usize) -> Bv {
        let mut r = Bv { w, d: SmallVec::from_elem(u64::MAX, nd(w)) };
        r.mask();
        r
    }
    /// digits beyond the width are cut, missing ones are zero
    pub fn from_digits(w: usize, ds: &[u64]) -> Bv {
        let mut r = Bv::zero(w);
        for (i, x) in r.d.iter_mut().enumerate() {
            if i < ds.len() {
                *x = ds[i];
            }
        }
        r.mask();
        r
    }
    pub fn from_u128(w: usize, v: u128) -> Bv {
        Bv::from_digits(w, &[v as u64, (v >> 64) as u64])
    }
    pub fn from_i128(w: usize, v: i128) -> Bv {
        let fill = if v < 0 { u64::MAX } else { 0 };
        let mut r = Bv { w, d: SmallVec::from_elem(fill, nd(w)) };
        r.d[0] = v as u64;
        if r.d.len() > 1 {
            r.d[1] = ((v as u128) >> 64) as u64;
        }
        r.mask();
        r
    }
    pub fn mask(&mut self) {
        let e = self.w % 64;
        if e != 0 {
            let n = self.d.len();
            self.d[n - 1] &= (1u64 << e) - 1;
        }
    }
    pub fn get(&self, i: usize) -> bool {
        i < self.w && (self.d[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn put(&mut self, i: usize, v: bool) {
        if v {
            self.d[i / 64] |= 1 << (i % 64)
        } else {
            self.d[i / 64] &= !(1 << (i % 64))
        }
    }
    pub fn with(&self, i: usize, v: bool) -> Bv {
        let mut r = self.clone();
        r.put(i, v);
        r
    }
    pub fn msb(&self) -> bool {
        self.get(self.w - 1)
    }
    pub fn is_zero(&self) -> bool {
        self.d.iter().all(|x| *x == 0)
    }
    pub fn bitlen(&self) -> usize {
        for i in (0..self.d.len()).rev() {
            if self.d[i] != 0 {
                return i * 64 + 64 - self.d[i].leading_zeros() as usize
            }
        }
        0
    }
    pub fn count_ones(&self) -> usize {
        (0..self.w).filter(|i| self.get(*i)).count()
    }
    pub fn trailing_zeros(&self) -> usize {
        (0..self.w).find(|i| self.get(*i)).unwrap_or(self.w)
    }
    pub fn lo128(&self) -> u128 {
        let hi = if self.d.len() > 1 { self.d[1] } else { 0 };
        (self.d[0] as u128) | ((hi as u128) << 64)
    }
    pub fn fits_u(&self, bits: usize) -> bool {
        self.bitlen() <= bits
    }
    /// fits a signed two's complement number of `bits` bits
    pub fn fits_s(&self, bits: usize) -> bool {
        let s = self.msb();
        (bits.min(self.w) - 1..self.w).all(|i| self.get(i) == s)
    }
    pub fn hex(&self) -> String {
        let mut s = String::new();
        for x in self.d.iter().rev() {
            s.push_str(&format!("{:016x}", x));
        }
        let t = s.trim_start_matches('0');
        if t.is_empty() { "0".into() } else { t.into() }
    }
    pub fn parse(s: &str) -> Bv {
        let (w, h) = s.split_once(":0x").expect("bv syntax");
        let w: usize = w.parse().unwrap();
        let mut r = Bv::zero(w);
        for (i, c) in h.bytes().rev().enumerate() {
            let v = (c as char).to_digit(16).unwrap() as u64;
            if i / 16 < r.d.len() {
                r.d[i / 16] |= v << (4 * (i % 16));
            }
        }
        r
    }
    // --- arithmetic modulo 2^w
    pub fn add(&self, o: &Bv) -> Bv {
        let mut r = self.clone();
        let mut c = 0u128;
        for i in 0..r.d.len() {
            let s = r.d[i] as u128 + o.d[i] as u128 + c;
            r.d[i] = s as u64;
            c = s >> 64;
        }
        r.mask();
        r
    }
    pub fn not(&self) -> Bv {
        let mut r = self.clone();
        for x in r.d.iter_mut() {
            *x = !*x
        }
        r.mask();
        r
    }
    pub fn one(w: usize) -> Bv {
        let mut r = Bv::zero(w);
        r.d[0] = 1;
        r
    }
    pub fn neg(&self) -> Bv {
        self.not().add(&Bv::one(self.w))
    }
    pub fn sub(&self, o: &Bv) -> Bv {
        // a - b = ~(~a + b)
        self.not().add(o).not()
    }
    pub fn mul(&self, o: &Bv) -> Bv {
        let n = self.d.len();
        let mut r = Bv::zero(self.w);
        for i in 0..n {
            let mut c = 0u128;
            if self.d[i] == 0 {
                continue
            }
            for j in 0..n - i {
                let t = self.d[i] as u128 * o.d[j] as u128
                    + r.d[i + j] as u128
                    + c;
                r.d[i + j] = t as u64;
                c = t >> 64;
            }
        }
        r.mask();
        r
    }
    pub fn and(&self, o: &Bv) -> Bv {
        self.zip(o, |x, y| x & y)
    }
    pub fn or(&self, o: &Bv) -> Bv {
        self.zip(o, |x, y| x | y)
    }
    pub fn xor(&self, o: &Bv) -> Bv {
        self.zip(o, |x, y| x ^ y)
    }
    fn zip(&self, o: &Bv, f: impl Fn(u64, u64) -> u64) -> Bv {
        let mut r = self.clone();
        for i in 0..r.d.len() {
            r.d[i] = f(r.d[i], o.d[i]);
        }
        r
    }
    pub fn ucmp(&self, o: &Bv) -> Ordering {
        for i in (0..self.d.len()).rev() {
            if self.d[i] != o.d[i] {
                return self.d[i].cmp(&o.d[i])
            }
        }
        Ordering::Equal
    }
    pub fn scmp(&self, o: &Bv) -> Ordering {
        match (self.msb(), o.msb()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => self.ucmp(o),
        }
    }
    fn shl1_or(&mut self, bit: bool) {
        let mut c = bit as u64;
        for x in self.d.iter_mut() {
            let n = *x >> 63;
            *x = (*x << 1) | c;
            c = n;
        }
    }
    /// (quotient, remainder) of the unsigned division, `o != 0`
    pub fn udivrem(&self, o: &Bv) -> (Bv, Bv) {
        assert!(!o.is_zero());
        if self.w <= 128 {
            let (n, d) = (self.lo128(), o.lo128());
            return (Bv::from_u128(self.w, n / d), Bv::from_u128(self.w, n % d))
        }
        // shift-and-subtract with one spare digit of head-room, starting at the
        // first position where the quotient can have a bit
        let w2 = nd(self.w) * 64 + 64;
        let d2 = Bv::from_digits(w2, &o.d);
        let mut q = Bv::zero(self.w);
        let (nb, db) = (self.bitlen(), o.bitlen());
        if nb < db {
            return (q, self.clone())
        }
        let top = nb - db + 1;
        let mut r = Bv::from_digits(w2, &self.d).shr_digits(top);
        for i in (0..top).rev() {
            r.shl1_or(self.get(i));
            if r.ucmp(&d2) != Ordering::Less {
                let mut borrow = false;
                for k in 0..r.d.len() {
                    let (x, b1) = r.d[k].overflowing_sub(d2.d[k]);
                    let (x, b2) = x.overflowing_sub(borrow as u64);
                    r.d[k] = x;
                    borrow = b1 || b2;
                }
                q.put(i, true);
            }
        }
        (q, Bv::from_digits(self.w, &r.d))
    }
    fn shr_digits(&self, s: usize) -> Bv {
        let mut r = Bv::zero(self.w);
        let (k, b) = (s / 64, s % 64);
        for i in 0..r.d.len() {
            let lo = if i + k < r.d.len() { self.d[i + k] } else { 0 };
            let hi = if i + k + 1 < r.d.len() { self.d[i + k + 1] } else { 0 };
            r.d[i] = if b == 0 { lo } else { (lo >> b) | (hi << (64 - b)) };
        }
        r
    }
    pub fn abs(&self) -> Bv {
        if self.msb() { self.neg() } else { self.clone() }
    }
    /// truncating signed division; MIN / -1 wraps
    pub fn sdivrem(&self, o: &Bv) -> (Bv, Bv) {
        let (q, r) = self.abs().udivrem(&o.abs());
        (
            if self.msb() != o.msb() { q.neg() } else { q },
            if self.msb() { r.neg() } else { r },
        )
    }
    pub fn shl(&self, s: usize) -> Bv {
        let mut r = Bv::zero(self.w);
        for i in s..self.w {
            if self.get(i - s) {
                r.put(i, true)
            }
        }
        r
    }
    pub fn lshr(&self, s: usize) -> Bv {
        let mut r = Bv::zero(self.w);
        for i in 0..self.w - s.min(self.w) {
            if self.get(i + s) {
                r.put(i, true)
            }
        }
        r
    }
    pub fn ashr(&self, s: usize) -> Bv {
        let m = self.msb();
        let mut r = Bv::zero(self.w);
        for i in 0..self.w {
            let b = if i + s < self.w { self.get(i + s) } else { m };
            if b {
                r.put(i, true)
            }
        }
        r
    }
    pub fn zresize(&self, w: usize) -> Bv {
        Bv::from_digits(w, &self.d)
    }
    pub fn sresize(&self, w: usize) -> Bv {
        let mut r = Bv::from_digits(w, &self.d);
        if w > self.w && self.msb() {
            for i in self.w..w {
                r.put(i, true)
            }
        }
        r
    }
    pub fn to_u128(&self, bits: usize) -> u128 {
        let v = self.lo128();
        if bits == 128 { v } else { v & ((1u128 << bits) - 1) }
    }
    /// low `bits` bits after sign extension to `bits`, as a signed number
    pub fn to_i128(&self, bits: usize) -> i128 {
        let v = self.sresize(bits);
        let x = v.lo128() as i128;
        if bits < 128 { (x << (128 - bits)) >> (128 - bits) } else { x }
    }
    pub fn radix_string(&self, radix: u32, upper: bool) -> String {
        if self.is_zero() {
            return "0".into()
        }
        let digit = |x: u32| {
            let c = std::char::from_digit(x, radix).unwrap();
            if upper { c.to_ascii_uppercase() } else { c }
        };
        let mut out = Vec::new();
        if radix == 2 || radix == 16 {
            // groups of bits
            let k = if radix == 2 { 1 } else { 4 };
            for i in 0..(self.bitlen() + k - 1) / k {
                out.push(digit((self.d[i * k / 64] >> (i * k % 64)) as u32 % radix));
            }
            return out.iter().rev().collect()
        }
        // repeated division, several digits at a time
        let (mut base, mut k) = (radix as u64, 1);
        while base * (radix as u64) < 1 << 32 {
            base *= radix as u64;
            k += 1;
        }
        let mut d = self.d.clone();
        let mut n = d.len();
        while n > 0 {
            let mut rem = 0u64;
            for x in d[..n].iter_mut().rev() {
                let hi = (rem << 32) | *x >> 32;
                let lo = ((hi % base) << 32) | (*x & 0xffff_ffff);
                *x = (hi / base) << 32 | lo / base;
                rem = lo % base;
            }
            while n > 0 && d[n - 1] == 0 {
                n -= 1;
            }
            for _ in 0..k {
                out.push(digit((rem % radix as u64) as u32));
                rem /= radix as u64;
            }
        }
        while out.last() == Some(&'0') {
            out.pop();
        }
        out.iter().rev().collect()
    }
}
