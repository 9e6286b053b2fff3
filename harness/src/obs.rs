//! Observing and building values of the implementation through its public API.
use crate::model::{nd, Bv};
use apint::{ApInt, BitWidth, Width};

#[cfg(feature = "full")]
pub use full::*;
#[cfg(not(feature = "full"))]
pub use bare::*;

/// Without serde: the printed value and equality with an object made from
/// digits; narrow values bit by bit through the accessor.
#[cfg(not(feature = "full"))]
mod bare {
    use super::*;
    pub fn raw(_: &ApInt) -> Option<(usize, Vec<u64>)> {
        None
    }
    pub fn raw_eq(a: &ApInt, e: &Bv) -> bool {
        if a.width().to_usize() != e.w {
            return false
        }
        match build_array(e) {
            Some(b) if e.w > 16 => *a == b && (if e.w <= 64 { a.resize_to_u64() == e.d[0] } else { format!("{:x}", a) == e.hex() }),
            _ => bits(a).ok().as_ref() == Some(e) && *a == build_bits(e),
        }
    }
}

#[cfg(feature = "full")]
mod full {
use super::*;
use serde::ser::{self, Serialize};
use smallvec::SmallVec;
/// Serializer that collects every scalar in the order it is written.  The
/// compact form of an `ApInt` is `(width, [digits])`, little endian.
pub struct Scalars {
    pub v: SmallVec<[u64; 20]>,
}
#[derive(Debug)]
pub struct NotScalar;
impl std::fmt::Display for NotScalar {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "unexpected shape")
    }
}
impl std::error::Error for NotScalar {}
impl ser::Error for NotScalar {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        NotScalar
    }
}
macro_rules! bad { ($($f:ident($($t:ty),*);)*) => { $(fn $f(self $(, _: $t)*) -> Result<(), NotScalar> { Err(NotScalar) })* } }
impl<'a> ser::Serializer for &'a mut Scalars {
    type Ok = ();
    type Error = NotScalar;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = ser::Impossible<(), NotScalar>;
    type SerializeMap = ser::Impossible<(), NotScalar>;
    type SerializeStruct = ser::Impossible<(), NotScalar>;
    type SerializeStructVariant = ser::Impossible<(), NotScalar>;
    fn is_human_readable(&self) -> bool {
        false
    }
    #[inline]
    fn serialize_u64(self, v: u64) -> Result<(), NotScalar> {
        self.v.push(v);
        Ok(())
    }
    bad! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
           serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_f32(f32); serialize_f64(f64);
           serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
           serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), NotScalar> {
        Err(NotScalar)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), NotScalar> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), NotScalar> {
        Err(NotScalar)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, NotScalar> {
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, NotScalar> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, NotScalar> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, NotScalar> {
        Err(NotScalar)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, NotScalar> {
        Err(NotScalar)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, NotScalar> {
        Err(NotScalar)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, NotScalar> {
        Err(NotScalar)
    }
}
impl<'a> ser::SerializeSeq for &'a mut Scalars {
    type Ok = ();
    type Error = NotScalar;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NotScalar> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), NotScalar> {
        Ok(())
    }
}
impl<'a> ser::SerializeTuple for &'a mut Scalars {
    type Ok = ();
    type Error = NotScalar;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NotScalar> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), NotScalar> {
        Ok(())
    }
}
impl<'a> ser::SerializeTupleStruct for &'a mut Scalars {
    type Ok = ();
    type Error = NotScalar;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), NotScalar> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), NotScalar> {
        Ok(())
    }
}

/// Raw (width, digits) as the implementation stores them.
pub fn raw(a: &ApInt) -> Option<(usize, SmallVec<[u64; 20]>)> {
    let mut s = Scalars { v: SmallVec::new() };
    a.serialize(&mut s).ok()?;
    if s.v.is_empty() {
        return None
    }
    Some((s.v[0] as usize, s.v[1..].into()))
}

/// Does the stored state equal the canonical representation of `e`?
#[inline]
pub fn raw_eq(a: &ApInt, e: &Bv) -> bool {
    let mut s = Scalars { v: SmallVec::new() };
    if a.serialize(&mut s).is_err() {
        return false
    }
    s.v.len() == e.d.len() + 1 && s.v[0] == e.w as u64 && s.v[1..] == e.d[..]
}

}

/// Value as seen through width() and get_bit_at() of every bit.
pub fn bits(a: &ApInt) -> Result<Bv, String> {
    let w = a.width().to_usize();
    let mut r = Bv::zero(w);
    for i in 0..w {
        match a.get_bit_at(i) {
            Ok(b) => r.put(i, b),
            Err(e) => return Err(format!("get_bit_at({}) on width {}: {}", i, w, e)),
        }
    }
    Ok(r)
}

/// How a value differs from its expectation, after a second look through other
/// parts of the API (so that a broken observer is not taken for a broken value).
pub fn confirm(a: &ApInt, e: &Bv) -> Option<String> {
    let seen = match bits(a) {
        Ok(b) => b,
        Err(m) => return Some(m),
    };
    if seen != *e {
        return Some(format!("value {:?} instead of {:?}", seen, e))
    }
    let fresh = build(e);
    if !(*a == fresh) || !(fresh == *a) || *a != fresh {
        return Some(format!(
            "has the bits of {:?} but does not compare equal to it (stored {:x?})",
            e,
            raw(a)
        ))
    }
    None
}

/// fast check with confirmation on the slow path
#[inline]
pub fn mismatch(a: &ApInt, e: &Bv) -> Option<String> {
    if raw_eq(a, e) {
        None
    } else {
        confirm(a, e)
    }
}

fn build_array(e: &Bv) -> Option<ApInt> {
    macro_rules! arr { ($($n:literal)*) => { $( if e.d.len() <= $n {
        let mut x = [0u64; $n];
        for (i, d) in e.d.iter().enumerate() { x[$n - 1 - i] = *d; }
        return ApInt::from(x).into_truncate(BitWidth::new(e.w).ok()?).ok();
    } )* } }
    if e.w <= 64 {
        return ApInt::from_u64(e.d[0]).into_truncate(e.w).ok()
    }
    arr!(2 3 4 5 6 7 8 16 32);
    None
}

fn build_bits(e: &Bv) -> ApInt {
    let mut r = ApInt::zero(BitWidth::new(e.w).unwrap_or_else(|_| panic!("{} the width {}", crate::engine::LIB, e.w)));
    for i in 0..e.w {
        if e.get(i) {
            r.set_bit_at(i).unwrap_or_else(|_| panic!("{} to set bit {} of width {}", crate::engine::LIB, i, e.w));
        }
    }
    r
}

/// Builds a value; prefers array constructor + truncation and falls back to
/// setting bits one by one when that does not give the wanted value.
pub fn build(e: &Bv) -> ApInt {
    if let Ok(Some(a)) = std::panic::catch_unwind(|| build_array(e)) {
        if raw_eq(&a, e) || bits(&a).ok().as_ref() == Some(e) {
            return a
        }
    }
    let _ = nd(e.w);
    build_bits(e)
}
