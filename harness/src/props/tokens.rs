//! C18 for formats in general: an in-memory format that delivers any token at
//! any place, in both the human-readable and the compact mode.
use crate::engine::*;
use crate::model::Bv;
use crate::obs;
use crate::spaces::*;
use apint::{ApInt, BitWidth};
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Bool(bool),
    /// an unsigned number, delivered in the given number of bytes
    U(u8, u64),
    U128(u128),
    I(u8, i64),
    F(f64),
    Char(char),
    /// a string, delivered: 0 transient, 1 borrowed, 2 owned
    Str(u8, String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Tok>),
    Unit,
    New(Box<Tok>),
    Seq(Vec<Tok>),
    Map(Vec<(Tok, Tok)>),
    /// the format itself fails here
    Fail,
}
use Tok::*;

#[derive(Debug)]
pub struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

#[derive(Clone, Copy)]
struct Mode {
    human: bool,
    /// what sequences say about their length: 0 exact, 1 nothing, 2 zero, 3 a lot
    hint: u8,
}
struct D<'a>(&'a Tok, Mode);
struct Items<'a>(&'a [Tok], Mode, usize);
struct Pairs<'a>(&'a [(Tok, Tok)], Mode, usize);

fn hint(m: Mode, n: usize) -> Option<usize> {
    match m.hint {
        0 => Option::Some(n),
        1 => Option::None,
        2 => Option::Some(0),
        _ => Option::Some(usize::MAX),
    }
}
impl<'de: 'a, 'a> SeqAccess<'de> for Items<'de>
where
    'a: 'de,
{
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        let Option::Some(t) = self.0.get(self.2) else { return Ok(Option::None) };
        self.2 += 1;
        s.deserialize(D(t, self.1)).map(Option::Some)
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.1, self.0.len() - self.2)
    }
}
impl<'de> MapAccess<'de> for Pairs<'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        let Option::Some(t) = self.0.get(self.2) else { return Ok(Option::None) };
        s.deserialize(D(&t.0, self.1)).map(Option::Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        let t = &self.0[self.2];
        self.2 += 1;
        s.deserialize(D(&t.1, self.1))
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.1, self.0.len() - self.2)
    }
}
impl<'de> Deserializer<'de> for D<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Bool(b) => v.visit_bool(*b),
            U(1, x) => v.visit_u8(*x as u8),
            U(2, x) => v.visit_u16(*x as u16),
            U(4, x) => v.visit_u32(*x as u32),
            U(_, x) => v.visit_u64(*x),
            U128(x) => v.visit_u128(*x),
            I(1, x) => v.visit_i8(*x as i8),
            I(2, x) => v.visit_i16(*x as i16),
            I(4, x) => v.visit_i32(*x as i32),
            I(_, x) => v.visit_i64(*x),
            F(x) => v.visit_f64(*x),
            Char(c) => v.visit_char(*c),
            Str(0, s) => v.visit_str(&s.clone()),
            Str(1, s) => v.visit_borrowed_str(s),
            Str(_, s) => v.visit_string(s.clone()),
            Bytes(b) => v.visit_bytes(b),
            None => v.visit_none(),
            Some(t) => v.visit_some(D(t, self.1)),
            Unit => v.visit_unit(),
            New(t) => v.visit_newtype_struct(D(t, self.1)),
            Seq(s) => v.visit_seq(Items(s, self.1, 0)),
            Map(m) => v.visit_map(Pairs(m, self.1, 0)),
            Fail => Err(E("the format failed".into())),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.1.human
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// The number in the fewest bytes (as CBOR or MessagePack deliver it) or in eight.
fn num(x: u64, narrow: bool) -> Tok {
    let n = if !narrow || x >> 32 != 0 {
        8
    } else if x >> 16 != 0 {
        4
    } else if x >> 8 != 0 {
        2
    } else {
        1
    };
    U(n, x)
}
fn stored(v: &Bv, human: bool, narrow: bool, strs: u8, swap: bool) -> Tok {
    let ds = Seq(v.d.iter().map(|x| num(*x, narrow)).collect());
    if human {
        let mut m = vec![(Str(strs, "width".into()), Seq(vec![num(v.w as u64, narrow)])), (Str(strs, "digits".into()), ds)];
        if swap {
            m.swap(0, 1);
        }
        Map(m)
    } else {
        Seq(vec![num(v.w as u64, narrow), ds])
    }
}

enum Want {
    Val(Bv),
    Bad,
    Any,
}

fn load(t: &mut Thr, tok: &Tok, m: Mode, want: &Want) {
    t.states += 1;
    let key = format!("load {} tokens (length hints {}) {:?}", if m.human { "human-readable" } else { "compact" }, ["exact", "absent", "zero", "huge"][m.hint as usize], tok);
    let fence = t.env.fence.load(std::sync::atomic::Ordering::Relaxed);
    let r = t.guarded(&key, || {
        crate::alloc::set_limit(1 << 26);
        let _f = if fence { Option::Some(crate::alloc::Fence::on()) } else { Option::None };
        let r = ApInt::deserialize(D(tok, m));
        crate::alloc::set_limit(usize::MAX);
        match (want, r) {
            (Want::Val(v), Ok(a)) => obs::mismatch(&a, v),
            (Want::Val(v), Err(e)) => Option::Some(format!("refused although it means {:?}: {}", v, e)),
            (Want::Bad, Ok(a)) => Option::Some(format!("accepted as {:?}", obs::bits(&a))),
            (_, Err(e)) if e.0.is_empty() => Option::Some("refused without a reason".into()),
            _ => Option::None,
        }
    });
    crate::alloc::set_limit(usize::MAX);
    super::serde_p::finish(t, key, r);
}

fn wrong() -> Vec<Tok> {
    vec![
        Bool(false), Bool(true), I(1, -1), I(8, -1), I(8, i64::MIN), F(1.0), F(64.0), F(f64::NAN), Char('1'), Char('\u{1}'), Str(0, "1".into()), Str(1, "64".into()), Str(2, "".into()),
        Bytes(vec![1]), Bytes(vec![]), None, Unit, Map(vec![]), Map(vec![(Str(1, "width".into()), U(8, 64))]), Fail,
    ]
}
/// tokens on which nothing is claimed but an answer
fn odd() -> Vec<Tok> {
    vec![I(8, 1), I(1, 1), U128(1), U128(u128::MAX), Some(Box::new(U(8, 1))), New(Box::new(U(8, 1))), Some(Box::new(Unit)), New(Box::new(Unit))]
}

/// Every single substitution in a stored form.
fn damages(v: &Bv, human: bool) -> Vec<(Tok, Want)> {
    let mut l = Vec::new();
    let full = stored(v, human, false, 1, false);
    let digit = |i: usize, t: Tok| {
        let mut f = full.clone();
        match &mut f {
            Map(m) => {
                if let Seq(s) = &mut m[1].1 {
                    s[i] = t
                }
            }
            Seq(s) => {
                if let Seq(s) = &mut s[1] {
                    s[i] = t
                }
            }
            _ => {}
        }
        f
    };
    let part = |i: usize, t: Tok| {
        let mut f = full.clone();
        match &mut f {
            Map(m) => m[i].1 = t,
            Seq(s) => s[i] = t,
            _ => {}
        }
        f
    };
    for t in wrong() {
        // whole, digits, each digit, width
        l.push((t.clone(), Want::Bad));
        l.push((part(1, t.clone()), Want::Bad));
        for i in 0..v.d.len() {
            l.push((digit(i, t.clone()), Want::Bad));
        }
        l.push((part(0, t.clone()), Want::Bad));
        if human {
            l.push((part(0, Seq(vec![t.clone()])), Want::Bad));
            for i in 0..2 {
                let Map(mut m) = full.clone() else { unreachable!() };
                m[i].0 = t.clone();
                l.push((Map(m), Want::Bad));
            }
        }
    }
    for t in odd() {
        l.push((t.clone(), Want::Any));
        l.push((part(1, t.clone()), Want::Any));
        for i in 0..v.d.len() {
            l.push((digit(i, t.clone()), Want::Any));
        }
        l.push((part(0, t.clone()), Want::Any));
    }
    for t in [U(8, 1), U(1, 1), U(8, 64), Seq(vec![]), Seq(vec![U(8, 1)]), Seq(vec![Fail])] {
        l.push((t, Want::Bad));
    }
    for x in [0u64, 1, u64::MAX] {
        l.push((part(1, U(8, x)), Want::Bad));
    }
    for i in 0..v.d.len() {
        l.push((digit(i, Seq(vec![])), Want::Bad));
        l.push((digit(i, Seq(vec![U(8, 0)])), Want::Bad));
    }
    // lengths
    for n in 0..v.d.len() + 3 {
        if n != v.d.len() {
            l.push((part(1, Seq(vec![U(8, 0); n])), Want::Bad));
        }
    }
    // widths that do not fit the digits
    for w in [0u64, 1, 63, 64, 65, 127, 128, 129, 192, 193, 1 << 32, 1 << 62, u64::MAX] {
        if w == 0 || w.div_ceil(64) != v.d.len() as u64 {
            l.push((part(0, if human { Seq(vec![U(8, w)]) } else { U(8, w) }), Want::Bad));
        }
    }
    match &full {
        Map(m) => {
            l.push((part(0, Seq(vec![])), Want::Bad));
            l.push((part(0, Seq(vec![Seq(vec![U(8, 64)])])), Want::Bad));
            for i in 0..2 {
                l.push((Map(vec![m[i].clone()]), Want::Bad));
                for s in ["", "Width", "digit", "digits ", "len", "widths"] {
                    for k in 0..3 {
                        let mut x = m.clone();
                        x[i].0 = Str(k, s.into());
                        l.push((Map(x), Want::Bad));
                        let mut x = m.clone();
                        x.insert(2 * i, (Str(k, s.into()), Unit));
                        l.push((Map(x), Want::Bad));
                    }
                }
                for j in 0..3 {
                    let mut x = m.clone();
                    x.insert(j, m[i].clone());
                    l.push((Map(x), Want::Bad));
                }
                for t in [U(8, i as u64), Bytes(if i == 0 { b"width".to_vec() } else { b"digits".to_vec() })] {
                    let mut x = m.clone();
                    x[i].0 = t;
                    l.push((Map(x), Want::Any));
                }
            }
            // swapped names
            let x = vec![(m[0].0.clone(), m[1].1.clone()), (m[1].0.clone(), m[0].1.clone())];
            if v.d.len() != 1 {
                l.push((Map(x), Want::Any));
            }
            l.push((Map(vec![]), Want::Bad));
        }
        Seq(s) => {
            l.push((Seq(vec![s[0].clone()]), Want::Bad));
            l.push((Seq(vec![s[1].clone()]), Want::Bad));
            l.push((Seq(vec![s[1].clone(), s[0].clone()]), Want::Bad));
            l.push((part(0, Seq(vec![s[0].clone()])), Want::Bad));
        }
        _ => {}
    }
    l
}

// ---------------------------------------------------------------------------
// the writing side of the in-memory format

/// Collects tokens, checks announced lengths, and may fail at the n-th call.
#[derive(Clone, Copy)]
struct W<'a> {
    human: bool,
    left: &'a std::cell::Cell<usize>,
}
impl W<'_> {
    fn tick(self) -> Result<(), E> {
        match self.left.get() {
            0 => Err(E("the format failed".into())),
            n => Ok(self.left.set(n - 1)),
        }
    }
}
struct Part<'a> {
    w: W<'a>,
    said: Option<usize>,
    items: Vec<Tok>,
    pairs: Vec<(Tok, Tok)>,
    map: bool,
    key: Option<Tok>,
}
impl<'a> Part<'a> {
    fn new(w: W<'a>, said: Option<usize>, map: bool) -> Result<Part<'a>, E> {
        w.tick()?;
        Ok(Part { w, said, items: vec![], pairs: vec![], map, key: Option::None })
    }
    fn item<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.w.tick()?;
        self.items.push(v.serialize(self.w)?);
        Ok(())
    }
    fn fin(self) -> Result<Tok, E> {
        self.w.tick()?;
        let n = self.items.len() + self.pairs.len();
        match self.said {
            Option::Some(k) if k != n => Err(E(format!("announced {} elements and wrote {}", k, n))),
            _ => Ok(if self.map { Map(self.pairs) } else { Seq(self.items) }),
        }
    }
}
macro_rules! scalar { ($($f:ident($t:ty) $v:ident => $e:expr;)*) => { $(fn $f(self, $v: $t) -> Result<Tok, E> { self.tick()?; Ok($e) })* } }
impl<'a> ser::Serializer for W<'a> {
    type Ok = Tok;
    type Error = E;
    type SerializeSeq = Part<'a>;
    type SerializeTuple = Part<'a>;
    type SerializeTupleStruct = Part<'a>;
    type SerializeTupleVariant = ser::Impossible<Tok, E>;
    type SerializeMap = Part<'a>;
    type SerializeStruct = Part<'a>;
    type SerializeStructVariant = ser::Impossible<Tok, E>;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    scalar! {
        serialize_bool(bool) v => Bool(v);
        serialize_i8(i8) v => I(1, v as i64);
        serialize_i16(i16) v => I(2, v as i64);
        serialize_i32(i32) v => I(4, v as i64);
        serialize_i64(i64) v => I(8, v);
        serialize_u8(u8) v => U(1, v as u64);
        serialize_u16(u16) v => U(2, v as u64);
        serialize_u32(u32) v => U(4, v as u64);
        serialize_u64(u64) v => U(8, v);
        serialize_u128(u128) v => U128(v);
        serialize_f32(f32) v => F(v as f64);
        serialize_f64(f64) v => F(v);
        serialize_char(char) v => Char(v);
        serialize_str(&str) v => Str(1, v.into());
        serialize_bytes(&[u8]) v => Bytes(v.to_vec());
    }
    fn serialize_none(self) -> Result<Tok, E> {
        self.tick()?;
        Ok(None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Tok, E> {
        self.tick()?;
        Ok(Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Tok, E> {
        self.tick()?;
        Ok(Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok, E> {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Tok, E> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Tok, E> {
        self.tick()?;
        Ok(New(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tok, E> {
        Err(E("no variants".into()))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Part<'a>, E> {
        Part::new(self, n, false)
    }
    fn serialize_tuple(self, n: usize) -> Result<Part<'a>, E> {
        Part::new(self, Option::Some(n), false)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Part<'a>, E> {
        Part::new(self, Option::Some(n), false)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("no variants".into()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Part<'a>, E> {
        Part::new(self, n, true)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Part<'a>, E> {
        Part::new(self, Option::Some(n), true)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("no variants".into()))
    }
}
macro_rules! seqlike { ($($tr:ident $f:ident;)*) => { $(
    impl ser::$tr for Part<'_> {
        type Ok = Tok;
        type Error = E;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
            self.item(v)
        }
        fn end(self) -> Result<Tok, E> {
            self.fin()
        }
    }
)* } }
seqlike! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; }
impl ser::SerializeStruct for Part<'_> {
    type Ok = Tok;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.w.tick()?;
        let x = v.serialize(self.w)?;
        self.pairs.push((Str(1, k.into()), x));
        Ok(())
    }
    fn end(self) -> Result<Tok, E> {
        self.fin()
    }
}
impl ser::SerializeMap for Part<'_> {
    type Ok = Tok;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        self.w.tick()?;
        self.key = Option::Some(k.serialize(self.w)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.w.tick()?;
        let x = v.serialize(self.w)?;
        self.pairs.push((self.key.take().ok_or_else(|| E("value without a name".into()))?, x));
        Ok(())
    }
    fn end(self) -> Result<Tok, E> {
        self.fin()
    }
}

/// Written and read back; and with the format failing at every point.
fn write_read(t: &mut Thr, v: &Bv, human: bool, fail: bool) {
    t.states += 1;
    let key = format!("write {} tokens and read them back {:?}", if human { "human-readable" } else { "compact" }, v);
    let r = t.guarded(&key, || {
        let left = std::cell::Cell::new(usize::MAX);
        let w = W { human, left: &left };
        let a = obs::build(v);
        let tok = match a.serialize(w) {
            Ok(x) => x,
            Err(e) => return Option::Some(format!("not written: {}", e)),
        };
        let steps = usize::MAX - left.get();
        match ApInt::deserialize(D(&tok, Mode { human, hint: 0 })) {
            Ok(b) => {
                if let Option::Some(m) = obs::mismatch(&b, v) {
                    return Option::Some(format!("{:?} read back: {}", tok, m))
                }
            }
            Err(e) => return Option::Some(format!("{:?} refused: {}", tok, e)),
        }
        if fail {
            for k in 0..steps {
                left.set(k);
                if let Ok(x) = a.serialize(w) {
                    return Option::Some(format!("format failed at step {} of {} but {:?} is reported as written", k, steps, x))
                }
            }
        }
        obs::mismatch(&a, v).map(|m| format!("writing changed the value: {}", m))
    });
    super::serde_p::finish(t, key, r);
}

pub fn tokens(env: &Env) {
    let mut vals = Vec::new();
    for w in [1usize, 2, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 256, 320, 1024] {
        vals.extend(edges(w));
    }
    vals.extend((1..=6).flat_map(all));
    vals.extend(digits(192, A7));
    env.space("values x both modes x number widths x string kinds x field orders x length hints of an in-memory format", vals.len() as u64 * 64);
    env.par(vals.len(), |t, i| {
        let v = &vals[i];
        let want = Want::Val(v.clone());
        for h in 0..4 {
            for narrow in [false, true] {
                for strs in 0..3 {
                    for swap in [false, true] {
                        load(t, &stored(v, true, narrow, strs, swap), Mode { human: true, hint: h }, &want);
                    }
                }
                load(t, &stored(v, false, narrow, 0, false), Mode { human: false, hint: h }, &want);
            }
        }
    });
    env.space("values x both modes written to the in-memory format and read back, the format failing at every step", vals.len() as u64 * 2);
    env.par(vals.len(), |t, i| {
        for human in [false, true] {
            write_read(t, &vals[i], human, true);
        }
    });
    let mut jobs = Vec::new();
    for w in [1usize, 64, 65, 128, 129, 192, 320] {
        for v in [Bv::zero(w), Bv::ones(w)] {
            for human in [false, true] {
                for (tok, want) in damages(&v, human) {
                    jobs.push((tok, want, human));
                }
            }
        }
    }
    env.space("every single substitution, loss, repetition or failure in stored forms x length hints", jobs.len() as u64 * 4);
    env.par(jobs.len(), |t, i| {
        for h in 0..4 {
            load(t, &jobs[i].0, Mode { human: jobs[i].2, hint: h }, &jobs[i].1);
        }
    });
    // widths on their own
    env.par(1, |t, _| {
        for human in [false, true] {
            let m = Mode { human, hint: 0 };
            let wrap = |x: Tok| if human { Seq(vec![x]) } else { x };
            let mut l: Vec<(Tok, Option<Option<usize>>)> = Vec::new();
            for w in [1usize, 2, 63, 64, 65, 255, 256, 65535, 65536, 1 << 32, usize::MAX] {
                for narrow in [false, true] {
                    l.push((wrap(num(w as u64, narrow)), Option::Some(Option::Some(w))));
                }
            }
            l.push((wrap(U(8, 0)), Option::Some(Option::None)));
            l.push((wrap(U(1, 0)), Option::Some(Option::None)));
            for x in wrong() {
                l.push((wrap(x), Option::Some(Option::None)));
            }
            for x in odd() {
                l.push((wrap(x), Option::None));
            }
            for (tok, want) in l {
                t.states += 1;
                let key = format!("load width from {} tokens {:?}", if human { "human-readable" } else { "compact" }, tok);
                let r = t.guarded(&key, || match (BitWidth::deserialize(D(&tok, m)), want) {
                    (Ok(b), Option::Some(Option::Some(w))) if b.to_usize() == w => Option::None,
                    (Err(_), Option::Some(Option::None)) => Option::None,
                    (_, Option::None) => Option::None,
                    (x, _) => Option::Some(format!("answered {:?}", x.map(|b| b.to_usize()))),
                });
                super::serde_p::finish(t, key, r);
            }
        }
    });
}
