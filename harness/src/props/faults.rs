//! C24: faults of the environment at every point where it is called.
use crate::alloc::counters;
use crate::engine::*;
use crate::model::{nd, Bv};
use crate::obs;
use crate::spaces::*;
use apint::{ApInt, BitWidth};
use serde::de::{self, DeserializeSeed, Deserializer, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A text sink that fails at the n-th call or after n bytes.
struct Sink {
    out: String,
    calls: usize,
    fail_call: usize,
    fail_byte: usize,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.calls == self.fail_call {
            return Err(std::fmt::Error)
        }
        self.calls += 1;
        if self.out.len() + s.len() > self.fail_byte {
            let n = self.fail_byte - self.out.len();
            self.out.push_str(&s[..n]);
            return Err(std::fmt::Error)
        }
        self.out.push_str(s);
        Ok(())
    }
}

#[derive(Debug, PartialEq, Clone)]
pub struct Fault(String);
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Fault {}
impl ser::Error for Fault {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Fault(m.to_string())
    }
}
impl de::Error for Fault {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Fault(m.to_string())
    }
}

/// A store that refuses its n-th call, and otherwise records them.
struct Store {
    n: usize,
    fail: usize,
    human: bool,
    log: Vec<String>,
}
impl Store {
    fn tick(&mut self, s: String) -> Result<(), Fault> {
        if self.n == self.fail {
            return Err(Fault("injected".into()))
        }
        self.n += 1;
        self.log.push(s);
        Ok(())
    }
}
macro_rules! nope { ($($f:ident($($t:ty),*);)*) => { $(fn $f(self $(, _: $t)*) -> Result<(), Fault> { Err(Fault(format!("unexpected {}", stringify!($f)))) })* } }
impl<'a> ser::Serializer for &'a mut Store {
    type Ok = ();
    type Error = Fault;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = ser::Impossible<(), Fault>;
    type SerializeMap = ser::Impossible<(), Fault>;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), Fault>;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_u64(self, v: u64) -> Result<(), Fault> {
        self.tick(format!("{}", v))
    }
    nope! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
           serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_f32(f32); serialize_f64(f64);
           serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
           serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Fault> {
        Err(Fault("unexpected some".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Fault> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Fault> {
        Err(Fault("unexpected variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, Fault> {
        self.tick("[".into())?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, Fault> {
        self.tick("(".into())?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Fault> {
        self.tick("<".into())?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fault> {
        Err(Fault("unexpected variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fault> {
        Err(Fault("unexpected map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Fault> {
        self.tick("{".into())?;
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fault> {
        Err(Fault("unexpected variant".into()))
    }
}
macro_rules! elems { ($($tr:ident $f:ident;)*) => { $(impl<'a> ser::$tr for &'a mut Store {
    type Ok = ();
    type Error = Fault;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fault> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), Fault> { self.tick("end".into()) }
})* } }
elems! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; }
impl<'a> ser::SerializeStruct for &'a mut Store {
    type Ok = ();
    type Error = Fault;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Fault> {
        self.tick(k.into())?;
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), Fault> {
        self.tick("end".into())
    }
}

/// A source that holds a value and refuses its n-th call.
#[derive(Clone, Copy, PartialEq)]
enum At {
    Top,
    Width,
    WidthNum,
    Digits,
    Digit(usize),
    Key(usize),
}
struct Source<'v> {
    v: &'v Bv,
    n: std::cell::Cell<usize>,
    fail: usize,
    human: bool,
    /// keys in reverse order (text form)
    rev: bool,
}
impl Source<'_> {
    fn tick(&self) -> Result<(), Fault> {
        if self.n.get() == self.fail {
            return Err(Fault("injected".into()))
        }
        self.n.set(self.n.get() + 1);
        Ok(())
    }
}
#[derive(Clone, Copy)]
struct De<'s, 'v>(&'s Source<'v>, At);
impl<'de, 's, 'v> Deserializer<'de> for De<'s, 'v> {
    type Error = Fault;
    fn is_human_readable(&self) -> bool {
        self.0.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Fault> {
        self.0.tick()?;
        let s = self.0;
        match self.1 {
            At::Top if s.human => vis.visit_map(Map(s, 0)),
            At::Top => vis.visit_seq(Seq(s, At::Top, 0)),
            At::Width if s.human => vis.visit_seq(Seq(s, At::Width, 0)),
            At::Width | At::WidthNum => vis.visit_u64(s.v.w as u64),
            At::Digits => vis.visit_seq(Seq(s, At::Digits, 0)),
            At::Digit(i) => vis.visit_u64(s.v.d[i]),
            At::Key(i) => vis.visit_str(["width", "digits"][i]),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Seq<'s, 'v>(&'s Source<'v>, At, usize);
impl<'de, 's, 'v> de::SeqAccess<'de> for Seq<'s, 'v> {
    type Error = Fault;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Fault> {
        self.0.tick()?;
        let i = self.2;
        self.2 += 1;
        let at = match (self.1, i) {
            (At::Top, 0) => At::Width,
            (At::Top, 1) => At::Digits,
            (At::Width, 0) => At::WidthNum,
            (At::Digits, i) if i < self.0.v.d.len() => At::Digit(i),
            _ => return Ok(None),
        };
        seed.deserialize(De(self.0, at)).map(Some)
    }
}
struct Map<'s, 'v>(&'s Source<'v>, usize);
impl<'de, 's, 'v> de::MapAccess<'de> for Map<'s, 'v> {
    type Error = Fault;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Fault> {
        self.0.tick()?;
        if self.1 >= 2 {
            return Ok(None)
        }
        let k = if self.0.rev { 1 - self.1 } else { self.1 };
        seed.deserialize(De(self.0, At::Key(k))).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Fault> {
        self.0.tick()?;
        let k = if self.0.rev { 1 - self.1 } else { self.1 };
        self.1 += 1;
        seed.deserialize(De(self.0, [At::Width, At::Digits][k]))
    }
}

fn case(t: &mut Thr, v: &Bv) {
    t.states += 1;
    let key = format!("faults around {:?}", v);
    let n = std::cell::Cell::new(0u64);
    let st: Vec<u64> = (0..80u64).map(|k| 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(k + 1)).collect();
    let once = || {
        let a = obs::build(v);
        let c0 = counters();
        // --- printing into a sink that fails
        for f in 0..3 {
            let want = v.radix_string([2, 16, 16][f], f == 2);
            let put = |s: &mut Sink| match f {
                0 => write!(s, "{:b}", a),
                1 => write!(s, "{:x}", a),
                _ => write!(s, "{:X}", a),
            };
            let mut total = 0;
            for k in 0.. {
                let mut s = Sink { out: String::new(), calls: 0, fail_call: k, fail_byte: usize::MAX };
                let r = put(&mut s);
                n.set(n.get() + 1);
                if s.calls < k {
                    // no fault happened
                    if r.is_err() || s.out != want {
                        return Some(format!("printed {:?} ({:?}) instead of {}", s.out, r, want))
                    }
                    total = s.calls;
                    break
                }
                match r {
                    Ok(()) if s.calls == k && s.out == want => {
                        total = k;
                        break
                    }
                    Ok(()) => return Some(format!("sink refused write {} but printing reported success after {:?}", k, s.out)),
                    Err(_) => {
                        if !want.starts_with(&s.out) {
                            return Some(format!("wrote {:?} before the fault, which is not a prefix of {}", s.out, want))
                        }
                    }
                }
                if k > 2 * v.w + 1000 {
                    return Some("printing does not come to an end".into())
                }
            }
            let _ = total;
            let step = if want.len() > 64 { 13 } else { 1 };
            let mut k = 0;
            while k < want.len() {
                let mut s = Sink { out: String::new(), calls: 0, fail_call: usize::MAX, fail_byte: k };
                let r = put(&mut s);
                n.set(n.get() + 1);
                if r.is_ok() {
                    return Some(format!("sink full after {} bytes but printing reported success", k))
                }
                if s.out != want[..k] {
                    return Some(format!("wrote {:?} before the fault at byte {}, expected {:?}", s.out, k, &want[..k]))
                }
                k += step;
            }
        }
        if let Some(m) = obs::mismatch(&a, v) {
            return Some(format!("after failed printing: {}", m))
        }
        // --- storing into a store that refuses the k-th call
        for human in [false, true] {
            let mut full = Store { n: 0, fail: usize::MAX, human, log: vec![] };
            if let Err(e) = a.serialize(&mut full) {
                return Some(format!("store failed without a fault: {}", e))
            }
            for k in 0..full.n {
                let mut s = Store { n: 0, fail: k, human, log: vec![] };
                n.set(n.get() + 1);
                match a.serialize(&mut s) {
                    Ok(()) => return Some(format!("store refused call {} of {} but storing reported success", k, full.n)),
                    Err(e) if e != Fault("injected".into()) => return Some(format!("the store's error became {:?}", e)),
                    Err(_) => {
                        if s.log[..] != full.log[..k] {
                            return Some(format!("calls before the fault differ: {:?} / {:?}", s.log, &full.log[..k]))
                        }
                    }
                }
            }
        }
        if let Some(m) = obs::mismatch(&a, v) {
            return Some(format!("after failed stores: {}", m))
        }
        drop(a);
        // --- loading from a source that refuses the k-th call
        for (human, rev) in [(false, false), (true, false), (true, true)] {
            let src = Source { v, n: std::cell::Cell::new(0), fail: usize::MAX, human, rev };
            match ApInt::deserialize(De(&src, At::Top)) {
                Ok(b) => {
                    if let Some(m) = obs::mismatch(&b, v) {
                        return Some(format!("loaded: {}", m))
                    }
                }
                Err(e) => return Some(format!("load failed without a fault: {}", e)),
            }
            let total = src.n.get();
            for k in 0..total {
                let src = Source { v, n: std::cell::Cell::new(0), fail: k, human, rev };
                n.set(n.get() + 1);
                let c1 = counters();
                match ApInt::deserialize(De(&src, At::Top)) {
                    Ok(b) => return Some(format!("source refused call {} of {} but loading gave {:?}", k, total, obs::bits(&b))),
                    Err(e) if e != Fault("injected".into()) => return Some(format!("the source's error became {:?}", e)),
                    Err(_) => {}
                }
                let c2 = counters();
                if c1.live < c2.live {
                    return Some(format!("failed load at call {} leaked {} bytes", k, c2.live - c1.live))
                }
            }
        }
        // --- a generator that panics at the k-th draw
        for k in 0..nd(v.w) {
            n.set(n.get() + 1);
            let mut s = super::rand_p::Script::new(&st);
            s.panic_at = k;
            let r = catch_unwind(AssertUnwindSafe(|| ApInt::random_with_width_using(BitWidth::new(v.w).unwrap(), &mut s)));
            if let Ok(x) = r {
                return Some(format!("generator failed at draw {} but a value came out: {:?}", k, obs::bits(&x)))
            }
            let mut a = obs::build(v);
            let mut s = super::rand_p::Script::new(&st);
            s.panic_at = k;
            let r = catch_unwind(AssertUnwindSafe(|| a.randomize_using(&mut s)));
            if r.is_ok() {
                return Some(format!("generator failed at draw {} but randomizing reported success", k))
            }
            // what is left must still be a proper value of that width
            let seen = match obs::bits(&a) {
                Ok(b) if b.w == v.w => b,
                other => return Some(format!("after a failing generator: {:?}", other)),
            };
            if let Some(m) = obs::mismatch(&a, &seen) {
                return Some(format!("after a failing generator: {}", m))
            }
        }
        let c3 = counters();
        if c3.live > c0.live {
            return Some(format!("{} bytes leaked", c3.live - c0.live))
        }
        None
    };
    let r = t.guarded(&key, || {
        // what is kept once (a cache) is not lost; what is lost is lost every time
        let mut r = once();
        for _ in 0..3 {
            match &r {
                Some(m) if m.contains("leaked") => r = once(),
                _ => break,
            }
        }
        r
    });
    t.trans += n.get();
    match r {
        Some(None) => t.traces += 1,
        Some(Some(m)) => t.fail(key, m),
        None => {}
    }
}

pub fn faults(env: &Env) {
    let th = env.thorough;
    for w in 1..=(if th { 12 } else { 9 }) {
        let v = all(w);
        env.space(format!("all values, width {}, a fault at every call of the environment", w), v.len() as u64);
        env.par(v.len(), |t, i| case(t, &v[i]));
    }
    for w in (1..=(if th { 1100 } else { 520 })).chain([255, 256, 257, 320, 512, 513, 1024]) {
        let v = if w < (if th { 520 } else { 260 }) { edges(w) } else { tiny(w) };
        env.space(format!("boundary values, width {}, a fault at every call of the environment", w), v.len() as u64);
        env.par(v.len(), |t, i| case(t, &v[i]));
    }
    for (w, al) in [(128usize, A20), (192, if th { A13 } else { A9 }), (256, A6), (320, A4), (384, A3)] {
        let v = digits(w, al);
        env.space(format!("digit alphabet, width {}, a fault at every call of the environment", w), v.len() as u64);
        env.par(v.len(), |t, i| case(t, &v[i]));
    }
    env.sample("sink refusing write 1 while printing 128:0x1_0000000000000000 in hexadecimal");
    env.sample("source refusing its 5th call while loading 129:0x1ff..ff from the text form with keys reversed");
}
