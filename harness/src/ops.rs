//! The operation table: every public operation of the three integer types in
//! every form it is offered in, next to what it must do according to the model.
use crate::model::Bv;
use apint::{ApInt, Error, ErrorKind, Int, Result, UInt, Width};
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum G {
    Add,
    Mul,
    UDiv,
    SDiv,
    Shift,
    Bit,
    Count,
    Cmp,
    Cast,
    Prim,
    Copy,
    Fmt,
}

/// What an operation takes besides its first operand.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    A,
    AB,
    /// shift amount
    AS,
    /// bit position
    AP,
    /// target width
    AW,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Ap,
    In,
    Un,
}

/// Error, reduced to what callers can rely on.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Er {
    Unmatch(usize, usize),
    BitAccess(usize, usize),
    Shift(usize, usize),
    Trunc(usize, usize),
    Ext(usize, usize),
    DivZero(String, Bv),
    Unrep(Bv, String),
    Other(String),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Unit,
    B(bool),
    N(usize),
    U(u128),
    I(i128),
    S(String),
    O(Option<Ordering>),
    E(Er),
    Panic,
}

/// Also look at what an error says in words (C13).
pub static WORDS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// The message of an error names the numbers it is about, and it prints.
pub fn words(e: &Error) -> Option<String> {
    let m = e.message();
    let n: Vec<usize> = match e.kind() {
        ErrorKind::UnmatchingBitwidth(a, b) => vec![a.to_usize(), b.to_usize()],
        ErrorKind::InvalidBitAccess { pos, width } => vec![pos.to_usize(), width.to_usize()],
        ErrorKind::InvalidShiftAmount { shift_amount, width } => vec![shift_amount.to_usize(), width.to_usize()],
        ErrorKind::TruncationBitWidthTooLarge { target, current } | ErrorKind::ExtensionBitWidthTooSmall { target, current } => vec![target.to_usize(), current.to_usize()],
        ErrorKind::InvalidRadix(r) => vec![*r as usize],
        ErrorKind::InvalidBitWidth(w) => vec![*w],
        _ => vec![],
    };
    let said: Vec<&str> = m.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
    if m.is_empty() || n.iter().any(|x| !said.contains(&x.to_string().as_str())) {
        return Some(format!("the message {:?} does not name the numbers {:?}", m, n))
    }
    if e.to_string().is_empty() || e.annotation().map_or(false, str::is_empty) {
        return Some("the error prints as nothing".into())
    }
    None
}

pub fn er(e: &Error) -> Er {
    if WORDS.load(std::sync::atomic::Ordering::Relaxed) {
        if let Some(m) = words(e) {
            return Er::Other(m)
        }
    }
    let bv = |v: &ApInt| crate::obs::bits(v).unwrap_or_else(|_| Bv::zero(1));
    match e.kind() {
        ErrorKind::UnmatchingBitwidth(a, b) => {
            let (a, b) = (a.to_usize(), b.to_usize());
            Er::Unmatch(a.min(b), a.max(b))
        }
        ErrorKind::InvalidBitAccess { pos, width } => Er::BitAccess(pos.to_usize(), width.to_usize()),
        ErrorKind::InvalidShiftAmount { shift_amount, width } => Er::Shift(shift_amount.to_usize(), width.to_usize()),
        ErrorKind::TruncationBitWidthTooLarge { target, current } => Er::Trunc(target.to_usize(), current.to_usize()),
        ErrorKind::ExtensionBitWidthTooSmall { target, current } => Er::Ext(target.to_usize(), current.to_usize()),
        ErrorKind::DivisionByZero { op, lhs } => Er::DivZero(format!("{:?}", op), bv(lhs)),
        ErrorKind::ValueUnrepresentable { value, destination_ty } => Er::Unrep(bv(value), format!("{:?}", destination_ty)),
        k => Er::Other(format!("{:?}", k)),
    }
}

pub struct Regs {
    pub a: Option<ApInt>,
    pub b: Option<ApInt>,
    pub ia: Option<Int>,
    pub ib: Option<Int>,
    pub ua: Option<UInt>,
    pub ub: Option<UInt>,
}

/// expected result: out, and what the operands must be afterwards
pub struct Exp {
    pub out: Out,
    pub a: Bv,
    pub b: Option<Bv>,
}

pub type Imp = fn(&mut Regs, usize) -> Out;
pub type Mod = fn(&Bv, &Bv, usize) -> Exp;

#[derive(Clone, Copy)]
pub struct Op {
    pub name: &'static str,
    pub g: G,
    pub k: K,
    pub ty: Ty,
    /// takes its first operand by value: gone after an error
    pub consumes: bool,
    /// operator form: an error is a panic
    pub oper: bool,
    /// a form that is not the primary one (wrappers, operators, into_ ...)
    pub derived: bool,
    /// never changes its operands (takes `&self`)
    pub query: bool,
    /// documented not to allocate, whatever the width
    pub noalloc: bool,
    pub imp: Imp,
    pub model: Mod,
}

fn keep(a: &Bv, out: Out) -> Exp {
    Exp { out, a: a.clone(), b: None }
}
fn set(a: Bv) -> Exp {
    Exp { out: Out::Unit, a, b: None }
}
fn wm(a: &Bv, b: &Bv) -> Option<Exp> {
    if a.w != b.w {
        Some(keep(a, Out::E(Er::Unmatch(a.w.min(b.w), a.w.max(b.w)))))
    } else {
        None
    }
}
fn ru(r: Result<()>) -> Out {
    match r {
        Ok(()) => Out::Unit,
        Err(e) => Out::E(er(&e)),
    }
}
fn rb(r: Result<bool>) -> Out {
    match r {
        Ok(v) => Out::B(v),
        Err(e) => Out::E(er(&e)),
    }
}

// ---- model functions -------------------------------------------------------
macro_rules! mbin {
    ($n:ident, $m:ident) => {
        fn $n(a: &Bv, b: &Bv, _: usize) -> Exp {
            if let Some(e) = wm(a, b) {
                return e
            }
            set(a.$m(b))
        }
    };
}
mbin!(m_add, add);
mbin!(m_sub, sub);
mbin!(m_mul, mul);
mbin!(m_and, and);
mbin!(m_or, or);
mbin!(m_xor, xor);
fn m_neg(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(a.neg())
}
fn m_not(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(a.not())
}
fn m_inc(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(a.add(&Bv::one(a.w)))
}
fn m_dec(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(a.sub(&Bv::one(a.w)))
}
fn m_abs(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(a.abs())
}
fn m_id(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(a.clone())
}
macro_rules! mdiv {
    ($n:ident, $f:ident, $op:literal, |$q:ident, $r:ident| $e:expr) => {
        fn $n(a: &Bv, b: &Bv, _: usize) -> Exp {
            if let Some(e) = wm(a, b) {
                return e
            }
            if b.is_zero() {
                return keep(a, Out::E(Er::DivZero($op.into(), a.clone())))
            }
            let ($q, $r) = a.$f(b);
            let (x, y): (Bv, Option<Bv>) = $e;
            Exp { out: Out::Unit, a: x, b: y }
        }
    };
}
mdiv!(m_udiv, udivrem, "UnsignedDiv", |q, _r| (q, None));
mdiv!(m_urem, udivrem, "UnsignedRem", |_q, r| (r, None));
mdiv!(m_udivrem, udivrem, "UnsignedDivRem", |q, r| (q, Some(r)));
mdiv!(m_uremdiv, udivrem, "UnsignedRemDiv", |q, r| (r, Some(q)));
mdiv!(m_sdiv, sdivrem, "SignedDiv", |q, _r| (q, None));
mdiv!(m_srem, sdivrem, "SignedRem", |_q, r| (r, None));
mdiv!(m_sdivrem, sdivrem, "SignedDivRem", |q, r| (q, Some(r)));
mdiv!(m_sremdiv, sdivrem, "SignedRemDiv", |q, r| (r, Some(q)));
macro_rules! mshift {
    ($n:ident, $f:ident) => {
        fn $n(a: &Bv, _: &Bv, s: usize) -> Exp {
            if s >= a.w {
                return keep(a, Out::E(Er::Shift(s, a.w)))
            }
            set(a.$f(s))
        }
    };
}
mshift!(m_shl, shl);
mshift!(m_lshr, lshr);
mshift!(m_ashr, ashr);
macro_rules! mbit {
    ($n:ident, |$a:ident, $p:ident| $e:expr) => {
        fn $n($a: &Bv, _: &Bv, $p: usize) -> Exp {
            if $p >= $a.w {
                return keep($a, Out::E(Er::BitAccess($p, $a.w)))
            }
            $e
        }
    };
}
mbit!(m_getb, |a, p| keep(a, Out::B(a.get(p))));
mbit!(m_setb, |a, p| set(a.with(p, true)));
mbit!(m_unsetb, |a, p| set(a.with(p, false)));
mbit!(m_flipb, |a, p| set(a.with(p, !a.get(p))));
fn m_ones(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(Bv::ones(a.w))
}
fn m_zero(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(Bv::zero(a.w))
}
fn m_setm(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(a.with(a.w - 1, true))
}
fn m_unsetm(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(a.with(a.w - 1, false))
}
fn m_flipm(a: &Bv, _: &Bv, _: usize) -> Exp {
    set(a.with(a.w - 1, !a.msb()))
}
macro_rules! mq {
    ($n:ident, |$a:ident| $e:expr) => {
        fn $n($a: &Bv, _: &Bv, _: usize) -> Exp {
            keep($a, $e)
        }
    };
}
mq!(m_msb, |a| Out::B(a.msb()));
mq!(m_lsb, |a| Out::B(a.get(0)));
mq!(m_cones, |a| Out::N(a.count_ones()));
mq!(m_czeros, |a| Out::N(a.w - a.count_ones()));
mq!(m_lz, |a| Out::N(a.w - a.bitlen()));
mq!(m_tz, |a| Out::N(a.trailing_zeros()));
mq!(m_isz, |a| Out::B(a.is_zero()));
mq!(m_iseven, |a| Out::B(!a.get(0)));
mq!(m_isodd, |a| Out::B(a.get(0)));
mq!(m_isall, |a| Out::B(a.count_ones() == a.w));
mq!(m_width, |a| Out::N(a.w));
mq!(m_is1u, |a| Out::B(*a == Bv::one(a.w)));
mq!(m_is1s, |a| Out::B(a.w > 1 && *a == Bv::one(a.w)));
mq!(m_isneg, |a| Out::B(a.msb()));
mq!(m_ispos, |a| Out::B(!a.msb()));
mq!(m_signum, |a| Out::I(if a.is_zero() {
    0
} else if a.msb() {
    -1
} else {
    1
}));
macro_rules! mcmp {
    ($n:ident, $f:ident, |$o:ident| $e:expr) => {
        fn $n(a: &Bv, b: &Bv, _: usize) -> Exp {
            if let Some(e) = wm(a, b) {
                return e
            }
            let $o = a.$f(b);
            keep(a, Out::B($e))
        }
    };
}
mcmp!(m_ult, ucmp, |o| o == Ordering::Less);
mcmp!(m_ule, ucmp, |o| o != Ordering::Greater);
mcmp!(m_ugt, ucmp, |o| o == Ordering::Greater);
mcmp!(m_uge, ucmp, |o| o != Ordering::Less);
mcmp!(m_slt, scmp, |o| o == Ordering::Less);
mcmp!(m_sle, scmp, |o| o != Ordering::Greater);
mcmp!(m_sgt, scmp, |o| o == Ordering::Greater);
mcmp!(m_sge, scmp, |o| o != Ordering::Less);
// operators: false / None on different widths instead of an error
macro_rules! mcmpop {
    ($n:ident, $m:ident) => {
        fn $n(a: &Bv, b: &Bv, p: usize) -> Exp {
            if a.w != b.w {
                return keep(a, Out::B(false))
            }
            $m(a, b, p)
        }
    };
}
mcmpop!(m_ult_op, m_ult);
mcmpop!(m_ule_op, m_ule);
mcmpop!(m_ugt_op, m_ugt);
mcmpop!(m_uge_op, m_uge);
mcmpop!(m_slt_op, m_slt);
mcmpop!(m_sle_op, m_sle);
mcmpop!(m_sgt_op, m_sgt);
mcmpop!(m_sge_op, m_sge);
fn m_ucmp_op(a: &Bv, b: &Bv, _: usize) -> Exp {
    keep(a, Out::O(if a.w == b.w { Some(a.ucmp(b)) } else { None }))
}
fn m_scmp_op(a: &Bv, b: &Bv, _: usize) -> Exp {
    keep(a, Out::O(if a.w == b.w { Some(a.scmp(b)) } else { None }))
}
fn m_eq(a: &Bv, b: &Bv, _: usize) -> Exp {
    keep(a, Out::B(a == b))
}
fn m_ne(a: &Bv, b: &Bv, _: usize) -> Exp {
    keep(a, Out::B(a != b))
}
// widths
fn m_trunc(a: &Bv, _: &Bv, w: usize) -> Exp {
    if w > a.w {
        return keep(a, Out::E(Er::Trunc(w, a.w)))
    }
    set(a.zresize(w))
}
fn m_zext(a: &Bv, _: &Bv, w: usize) -> Exp {
    if w < a.w {
        return keep(a, Out::E(Er::Ext(w, a.w)))
    }
    set(a.zresize(w))
}
fn m_sext(a: &Bv, _: &Bv, w: usize) -> Exp {
    if w < a.w {
        return keep(a, Out::E(Er::Ext(w, a.w)))
    }
    set(a.sresize(w))
}
fn m_zres(a: &Bv, _: &Bv, w: usize) -> Exp {
    set(a.zresize(w))
}
fn m_sres(a: &Bv, _: &Bv, w: usize) -> Exp {
    set(a.sresize(w))
}
fn m_assign(_: &Bv, b: &Bv, _: usize) -> Exp {
    set(b.clone())
}
fn m_sassign(a: &Bv, b: &Bv, _: usize) -> Exp {
    if let Some(e) = wm(a, b) {
        return e
    }
    set(b.clone())
}
// primitives
mq!(m_rbool, |a| Out::B(a.get(0)));
macro_rules! mprim {
    ($($ru:ident $ri:ident $tu:ident $ti:ident $tis:ident $n:literal $uty:literal $ity:literal;)*) => {$(
        mq!($ru, |a| Out::U(a.to_u128($n)));
        mq!($ri, |a| Out::I(a.to_i128($n)));
        mq!($tu, |a| if a.fits_u($n) { Out::U(a.to_u128($n)) } else { Out::E(Er::Unrep(a.clone(), $uty.into())) });
        // ApInt: fits when the bits fit the unsigned type of that size
        mq!($ti, |a| if a.fits_u($n) { Out::I(a.to_i128($n)) } else { Out::E(Er::Unrep(a.clone(), $ity.into())) });
        // Int: fits when the signed value fits
        mq!($tis, |a| if a.fits_s($n) { Out::I(a.to_i128($n)) } else { Out::E(Er::Unrep(a.clone(), $ity.into())) });
    )*};
}
mprim! {
    m_ru8 m_ri8 m_tu8 m_ti8 m_tis8 8 "U8" "I8";
    m_ru16 m_ri16 m_tu16 m_ti16 m_tis16 16 "U16" "I16";
    m_ru32 m_ri32 m_tu32 m_ti32 m_tis32 32 "U32" "I32";
    m_ru64 m_ri64 m_tu64 m_ti64 m_tis64 64 "U64" "I64";
    m_ru128 m_ri128 m_tu128 m_ti128 m_tis128 128 "U128" "I128";
}
mq!(m_tbool, |a| if a.fits_u(1) { Out::B(a.get(0)) } else { Out::E(Er::Unrep(a.clone(), "Bool".into())) });
// text
mq!(m_bin, |a| Out::S(a.radix_string(2, false)));
mq!(m_hex, |a| Out::S(a.radix_string(16, false)));
mq!(m_hexu, |a| Out::S(a.radix_string(16, true)));

// ---- the table -------------------------------------------------------------
pub fn table() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    const BASE: Op = Op {
        name: "",
        g: G::Add,
        k: K::A,
        ty: Ty::Ap,
        consumes: false,
        oper: false,
        derived: false,
        query: false,
        noalloc: false,
        imp: |_, _| Out::Unit,
        model: m_id,
    };
    // `&mut self [, param]` returning () or Result<()>
    macro_rules! own {
        // in place with &rhs
        (AB $t:ident $ty:ident $a:ident $b:ident $g:ident $m:ident der=$d:expr, na=$na:expr, $asg:ident, $into:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($asg)), g: G::$g, k: K::AB, ty: Ty::$t, derived: $d, noalloc: $na, model: $m,
                imp: |r, _| ru(r.$a.as_mut().unwrap().$asg(r.$b.as_ref().unwrap())), ..BASE });
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($into)), g: G::$g, k: K::AB, ty: Ty::$t, derived: true, consumes: true, noalloc: $na, model: $m,
                imp: |r, _| { let a = r.$a.take().unwrap(); match a.$into(r.$b.as_ref().unwrap()) { Ok(x) => { r.$a = Some(x); Out::Unit } Err(e) => Out::E(er(&e)) } }, ..BASE });
        };
        // in place with a parameter
        ($k:ident $t:ident $ty:ident $a:ident $g:ident $m:ident der=$d:expr, na=$na:expr, $asg:ident, $into:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($asg)), g: G::$g, k: K::$k, ty: Ty::$t, derived: $d, noalloc: $na, model: $m,
                imp: |r, p| ru(r.$a.as_mut().unwrap().$asg(p)), ..BASE });
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($into)), g: G::$g, k: K::$k, ty: Ty::$t, derived: true, consumes: true, noalloc: $na, model: $m,
                imp: |r, p| { let a = r.$a.take().unwrap(); match a.$into(p) { Ok(x) => { r.$a = Some(x); Out::Unit } Err(e) => Out::E(er(&e)) } }, ..BASE });
        };
    }
    // infallible: fn(&mut self [,p]), fn(self [,p]) -> Self
    macro_rules! inf {
        (mut $t:ident $ty:ident $a:ident $g:ident $m:ident der=$d:expr, na=$na:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::$g, k: K::A, ty: Ty::$t, derived: $d, noalloc: $na, model: $m,
                imp: |r, _| { r.$a.as_mut().unwrap().$f(); Out::Unit }, ..BASE });
        };
        (into $t:ident $ty:ident $a:ident $g:ident $m:ident na=$na:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::$g, k: K::A, ty: Ty::$t, derived: true, consumes: true, noalloc: $na, model: $m,
                imp: |r, _| { let a = r.$a.take().unwrap(); r.$a = Some(a.$f()); Out::Unit }, ..BASE });
        };
        (mutw $t:ident $ty:ident $a:ident $m:ident der=$d:expr, $f:ident, $into:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::Cast, k: K::AW, ty: Ty::$t, derived: $d, model: $m,
                imp: |r, p| { r.$a.as_mut().unwrap().$f(p); Out::Unit }, ..BASE });
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($into)), g: G::Cast, k: K::AW, ty: Ty::$t, derived: true, consumes: true, model: $m,
                imp: |r, p| { let a = r.$a.take().unwrap(); r.$a = Some(a.$into(p)); Out::Unit }, ..BASE });
        };
    }
    // operators
    macro_rules! opr {
        (bin $t:ident $ty:ident $a:ident $b:ident $g:ident $m:ident na=$na:expr, $o:tt, $oa:tt) => {
            v.push(Op { name: concat!(stringify!($ty), " ", stringify!($oa)), g: G::$g, k: K::AB, ty: Ty::$t, derived: true, oper: true, noalloc: $na, model: $m,
                imp: |r, _| { *r.$a.as_mut().unwrap() $oa r.$b.as_ref().unwrap(); Out::Unit }, ..BASE });
            v.push(Op { name: concat!(stringify!($ty), " ", stringify!($o)), g: G::$g, k: K::AB, ty: Ty::$t, derived: true, oper: true, consumes: true, noalloc: $na, model: $m,
                imp: |r, _| { let a = r.$a.take().unwrap(); let x = a $o r.$b.as_ref().unwrap(); r.$a = Some(x); Out::Unit }, ..BASE });
        };
        (shift $t:ident $ty:ident $a:ident $m:ident $o:tt, $oa:tt) => {
            v.push(Op { name: concat!(stringify!($ty), " ", stringify!($oa)), g: G::Shift, k: K::AS, ty: Ty::$t, derived: true, oper: true, noalloc: true, model: $m,
                imp: |r, p| { *r.$a.as_mut().unwrap() $oa p; Out::Unit }, ..BASE });
            v.push(Op { name: concat!(stringify!($ty), " ", stringify!($o)), g: G::Shift, k: K::AS, ty: Ty::$t, derived: true, oper: true, consumes: true, noalloc: true, model: $m,
                imp: |r, p| { let a = r.$a.take().unwrap(); r.$a = Some(a $o p); Out::Unit }, ..BASE });
        };
        (un $t:ident $ty:ident $a:ident $g:ident $m:ident $name:literal, $o:tt) => {
            v.push(Op { name: concat!("unary ", $name, " ", stringify!($ty)), g: G::$g, k: K::A, ty: Ty::$t, derived: true, oper: true, consumes: true, noalloc: true, model: $m,
                imp: |r, _| { let a = r.$a.take().unwrap(); r.$a = Some($o a); Out::Unit }, ..BASE });
        };
    }
    macro_rules! qry {
        (cmp $t:ident $ty:ident $a:ident $b:ident $m:ident der=$d:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::Cmp, k: K::AB, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: $m,
                imp: |r, _| rb(r.$a.as_ref().unwrap().$f(r.$b.as_ref().unwrap())), ..BASE });
        };
        (cmpop $t:ident $ty:ident $a:ident $b:ident $m:ident $o:tt) => {
            v.push(Op { name: concat!(stringify!($ty), " ", stringify!($o)), g: G::Cmp, k: K::AB, ty: Ty::$t, derived: true, query: true, noalloc: true, model: $m,
                imp: |r, _| Out::B(*r.$a.as_ref().unwrap() $o *r.$b.as_ref().unwrap()), ..BASE });
        };
        (b $t:ident $ty:ident $a:ident $g:ident $m:ident der=$d:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::$g, k: K::A, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: $m,
                imp: |r, _| Out::B(r.$a.as_ref().unwrap().$f()), ..BASE });
        };
        (n $t:ident $ty:ident $a:ident $g:ident $m:ident der=$d:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::$g, k: K::A, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: $m,
                imp: |r, _| Out::N(r.$a.as_ref().unwrap().$f()), ..BASE });
        };
        (getb $t:ident $ty:ident $a:ident der=$d:expr) => {
            v.push(Op { name: concat!(stringify!($ty), "::get_bit_at"), g: G::Bit, k: K::AP, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: m_getb,
                imp: |r, p| rb(r.$a.as_ref().unwrap().get_bit_at(p)), ..BASE });
        };
        (bitmut $t:ident $ty:ident $a:ident $m:ident der=$d:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::Bit, k: K::AP, ty: Ty::$t, derived: $d, noalloc: true, model: $m,
                imp: |r, p| ru(r.$a.as_mut().unwrap().$f(p)), ..BASE });
        };
        (ru $t:ident $ty:ident $a:ident $m:ident der=$d:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::Prim, k: K::A, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: $m,
                imp: |r, _| Out::U(r.$a.as_ref().unwrap().$f() as u128), ..BASE });
        };
        (ri $t:ident $ty:ident $a:ident $m:ident der=$d:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::Prim, k: K::A, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: $m,
                imp: |r, _| Out::I(r.$a.as_ref().unwrap().$f() as i128), ..BASE });
        };
        (tu $t:ident $ty:ident $a:ident $m:ident der=$d:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::Prim, k: K::A, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: $m,
                imp: |r, _| match r.$a.as_ref().unwrap().$f() { Ok(x) => Out::U(x as u128), Err(e) => Out::E(er(&e)) }, ..BASE });
        };
        (ti $t:ident $ty:ident $a:ident $m:ident der=$d:expr, $f:ident) => {
            v.push(Op { name: concat!(stringify!($ty), "::", stringify!($f)), g: G::Prim, k: K::A, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: $m,
                imp: |r, _| match r.$a.as_ref().unwrap().$f() { Ok(x) => Out::I(x as i128), Err(e) => Out::E(er(&e)) }, ..BASE });
        };
        (tb $t:ident $ty:ident $a:ident der=$d:expr) => {
            v.push(Op { name: concat!(stringify!($ty), "::try_to_bool"), g: G::Prim, k: K::A, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: m_tbool,
                imp: |r, _| rb(r.$a.as_ref().unwrap().try_to_bool()), ..BASE });
        };
    }

    // everything the three types have in common
    macro_rules! common {
        ($t:ident $ty:ident $a:ident $b:ident $d:expr) => {
            own!(AB $t $ty $a $b Add m_add der=$d, na=true, wrapping_add_assign, into_wrapping_add);
            own!(AB $t $ty $a $b Add m_sub der=$d, na=true, wrapping_sub_assign, into_wrapping_sub);
            own!(AB $t $ty $a $b Mul m_mul der=$d, na=false, wrapping_mul_assign, into_wrapping_mul);
            own!(AB $t $ty $a $b Bit m_and der=$d, na=true, bitand_assign, into_bitand);
            own!(AB $t $ty $a $b Bit m_or der=$d, na=true, bitor_assign, into_bitor);
            own!(AB $t $ty $a $b Bit m_xor der=$d, na=true, bitxor_assign, into_bitxor);
            opr!(bin $t $ty $a $b Add m_add na=true, +, +=);
            opr!(bin $t $ty $a $b Add m_sub na=true, -, -=);
            opr!(bin $t $ty $a $b Mul m_mul na=false, *, *=);
            opr!(bin $t $ty $a $b Bit m_and na=true, &, &=);
            opr!(bin $t $ty $a $b Bit m_or na=true, |, |=);
            opr!(bin $t $ty $a $b Bit m_xor na=true, ^, ^=);
            opr!(shift $t $ty $a m_shl <<, <<=);
            opr!(un $t $ty $a Add m_neg "neg", -);
            opr!(un $t $ty $a Bit m_not "not", !);
            inf!(mut $t $ty $a Add m_neg der=$d, na=true, wrapping_neg);
            inf!(into $t $ty $a Add m_neg na=true, into_wrapping_neg);
            inf!(mut $t $ty $a Bit m_not der=$d, na=true, bitnot);
            inf!(into $t $ty $a Bit m_not na=true, into_bitnot);
            inf!(mut $t $ty $a Bit m_ones der=$d, na=true, set_all);
            inf!(mut $t $ty $a Bit m_zero der=$d, na=true, unset_all);
            inf!(mut $t $ty $a Bit m_not der=$d, na=true, flip_all);
            own!(AS $t $ty $a Shift m_shl der=$d, na=true, wrapping_shl_assign, into_wrapping_shl);
            qry!(getb $t $ty $a der=$d);
            qry!(bitmut $t $ty $a m_setb der=$d, set_bit_at);
            qry!(bitmut $t $ty $a m_unsetb der=$d, unset_bit_at);
            qry!(bitmut $t $ty $a m_flipb der=$d, flip_bit_at);
            qry!(n $t $ty $a Count m_cones der=$d, count_ones);
            qry!(n $t $ty $a Count m_czeros der=$d, count_zeros);
            qry!(n $t $ty $a Count m_lz der=$d, leading_zeros);
            qry!(n $t $ty $a Count m_tz der=$d, trailing_zeros);
            qry!(b $t $ty $a Count m_isz der=$d, is_zero);
            qry!(b $t $ty $a Count m_iseven der=$d, is_even);
            qry!(b $t $ty $a Count m_isodd der=$d, is_odd);
            qry!(b $t $ty $a Count m_isall der=$d, is_all_set);
            qry!(b $t $ty $a Count m_isz der=$d, is_all_unset);
            v.push(Op { name: concat!(stringify!($ty), "::width"), g: G::Count, k: K::A, ty: Ty::$t, derived: $d, query: true, noalloc: true, model: m_width,
                imp: |r, _| Out::N(r.$a.as_ref().unwrap().width().to_usize()), ..BASE });
            qry!(cmpop $t $ty $a $b m_eq ==);
            qry!(cmpop $t $ty $a $b m_ne !=);
            own!(AW $t $ty $a Cast m_trunc der=$d, na=false, truncate, into_truncate);
            qry!(b $t $ty $a Prim m_rbool der=$d, resize_to_bool);
            qry!(tb $t $ty $a der=$d);
            v.push(Op { name: concat!(stringify!($ty), "::clone"), g: G::Copy, k: K::A, ty: Ty::$t, derived: $d, model: m_id,
                imp: |r, _| { let c = r.$a.as_ref().unwrap().clone(); r.$a = Some(c); Out::Unit }, ..BASE });
            v.push(Op { name: concat!(stringify!($ty), "::clone_from"), g: G::Copy, k: K::AB, ty: Ty::$t, derived: $d, model: m_assign,
                imp: |r, _| { r.$a.as_mut().unwrap().clone_from(r.$b.as_ref().unwrap()); Out::Unit }, ..BASE });
            v.push(Op { name: concat!(stringify!($ty), "::assign"), g: G::Copy, k: K::AB, ty: Ty::$t, derived: $d, model: m_assign,
                imp: |r, _| { r.$a.as_mut().unwrap().assign(r.$b.as_ref().unwrap()); Out::Unit }, ..BASE });
            v.push(Op { name: concat!(stringify!($ty), "::strict_assign"), g: G::Copy, k: K::AB, ty: Ty::$t, derived: $d, model: m_sassign,
                imp: |r, _| ru(r.$a.as_mut().unwrap().strict_assign(r.$b.as_ref().unwrap())), ..BASE });
            v.push(Op { name: concat!(stringify!($ty), " {:b}"), g: G::Fmt, k: K::A, ty: Ty::$t, derived: $d, query: true, model: m_bin,
                imp: |r, _| Out::S(format!("{:b}", r.$a.as_ref().unwrap())), ..BASE });
            v.push(Op { name: concat!(stringify!($ty), " {:x}"), g: G::Fmt, k: K::A, ty: Ty::$t, derived: $d, query: true, model: m_hex,
                imp: |r, _| Out::S(format!("{:x}", r.$a.as_ref().unwrap())), ..BASE });
            v.push(Op { name: concat!(stringify!($ty), " {:X}"), g: G::Fmt, k: K::A, ty: Ty::$t, derived: $d, query: true, model: m_hexu,
                imp: |r, _| Out::S(format!("{:X}", r.$a.as_ref().unwrap())), ..BASE });
        };
    }
    common!(Ap ApInt a b false);
    common!(In Int ia ib true);
    common!(Un UInt ua ub true);

    // ApInt only
    inf!(mut Ap ApInt a Add m_inc der=false, na=true, wrapping_inc);
    inf!(into Ap ApInt a Add m_inc na=true, into_wrapping_inc);
    inf!(mut Ap ApInt a Add m_dec der=false, na=true, wrapping_dec);
    inf!(into Ap ApInt a Add m_dec na=true, into_wrapping_dec);
    own!(AS Ap ApInt a Shift m_lshr der=false, na=true, wrapping_lshr_assign, into_wrapping_lshr);
    own!(AS Ap ApInt a Shift m_ashr der=false, na=true, wrapping_ashr_assign, into_wrapping_ashr);
    own!(AB Ap ApInt a b UDiv m_udiv der=false, na=false, wrapping_udiv_assign, into_wrapping_udiv);
    own!(AB Ap ApInt a b UDiv m_urem der=false, na=false, wrapping_urem_assign, into_wrapping_urem);
    own!(AB Ap ApInt a b SDiv m_sdiv der=false, na=false, wrapping_sdiv_assign, into_wrapping_sdiv);
    own!(AB Ap ApInt a b SDiv m_srem der=false, na=false, wrapping_srem_assign, into_wrapping_srem);
    macro_rules! both { ($g:ident $m:ident $f:ident) => {
        v.push(Op { name: concat!("ApInt::", stringify!($f)), g: G::$g, k: K::AB, ty: Ty::Ap, model: $m,
            imp: |r, _| ru(ApInt::$f(r.a.as_mut().unwrap(), r.b.as_mut().unwrap())), ..BASE });
    } }
    both!(UDiv m_udivrem wrapping_udivrem_assign);
    both!(UDiv m_uremdiv wrapping_uremdiv_assign);
    both!(SDiv m_sdivrem wrapping_sdivrem_assign);
    both!(SDiv m_sremdiv wrapping_sremdiv_assign);
    own!(AW Ap ApInt a Cast m_zext der=false, na=false, zero_extend, into_zero_extend);
    own!(AW Ap ApInt a Cast m_sext der=false, na=false, sign_extend, into_sign_extend);
    inf!(mutw Ap ApInt a m_zres der=false, zero_resize, into_zero_resize);
    inf!(mutw Ap ApInt a m_sres der=false, sign_resize, into_sign_resize);
    for_msb(&mut v, BASE);
    qry!(b Ap ApInt a Count m_lsb der=false, lsb);
    qry!(b Ap ApInt a Count m_msb der=false, msb);
    qry!(cmp Ap ApInt a b m_ult der=false, checked_ult);
    qry!(cmp Ap ApInt a b m_ule der=false, checked_ule);
    qry!(cmp Ap ApInt a b m_ugt der=false, checked_ugt);
    qry!(cmp Ap ApInt a b m_uge der=false, checked_uge);
    qry!(cmp Ap ApInt a b m_slt der=false, checked_slt);
    qry!(cmp Ap ApInt a b m_sle der=false, checked_sle);
    qry!(cmp Ap ApInt a b m_sgt der=false, checked_sgt);
    qry!(cmp Ap ApInt a b m_sge der=false, checked_sge);
    qry!(ru Ap ApInt a m_ru8 der=false, resize_to_u8);
    qry!(ru Ap ApInt a m_ru16 der=false, resize_to_u16);
    qry!(ru Ap ApInt a m_ru32 der=false, resize_to_u32);
    qry!(ru Ap ApInt a m_ru64 der=false, resize_to_u64);
    qry!(ru Ap ApInt a m_ru128 der=false, resize_to_u128);
    qry!(ri Ap ApInt a m_ri8 der=false, resize_to_i8);
    qry!(ri Ap ApInt a m_ri16 der=false, resize_to_i16);
    qry!(ri Ap ApInt a m_ri32 der=false, resize_to_i32);
    qry!(ri Ap ApInt a m_ri64 der=false, resize_to_i64);
    qry!(ri Ap ApInt a m_ri128 der=false, resize_to_i128);
    qry!(tu Ap ApInt a m_tu8 der=false, try_to_u8);
    qry!(tu Ap ApInt a m_tu16 der=false, try_to_u16);
    qry!(tu Ap ApInt a m_tu32 der=false, try_to_u32);
    qry!(tu Ap ApInt a m_tu64 der=false, try_to_u64);
    qry!(tu Ap ApInt a m_tu128 der=false, try_to_u128);
    qry!(ti Ap ApInt a m_ti8 der=false, try_to_i8);
    qry!(ti Ap ApInt a m_ti16 der=false, try_to_i16);
    qry!(ti Ap ApInt a m_ti32 der=false, try_to_i32);
    qry!(ti Ap ApInt a m_ti64 der=false, try_to_i64);
    qry!(ti Ap ApInt a m_ti128 der=false, try_to_i128);

    // Int
    inf!(mut In Int ia Count m_abs der=false, na=true, wrapping_abs);
    inf!(into In Int ia Count m_abs na=true, into_abs);
    qry!(b In Int ia Count m_msb der=true, msb);
    qry!(b In Int ia Count m_is1s der=false, is_one);
    qry!(b In Int ia Count m_isneg der=false, is_negative);
    qry!(b In Int ia Count m_ispos der=false, is_positive);
    v.push(Op { name: "Int::signum", g: G::Count, k: K::A, ty: Ty::In, query: true, noalloc: true, model: m_signum,
        imp: |r, _| Out::I(r.ia.as_ref().unwrap().signum() as i128), ..BASE });
    own!(AS In Int ia Shift m_ashr der=true, na=true, wrapping_shr_assign, into_wrapping_shr);
    opr!(shift In Int ia m_ashr >>, >>=);
    own!(AB In Int ia ib SDiv m_sdiv der=true, na=false, wrapping_div_assign, into_wrapping_div);
    own!(AB In Int ia ib SDiv m_srem der=true, na=false, wrapping_rem_assign, into_wrapping_rem);
    opr!(bin In Int ia ib SDiv m_sdiv na=false, /, /=);
    opr!(bin In Int ia ib SDiv m_srem na=false, %, %=);
    own!(AW In Int ia Cast m_sext der=true, na=false, extend, into_extend);
    inf!(mutw In Int ia m_sres der=true, resize, into_resize);
    qry!(cmp In Int ia ib m_slt der=true, checked_lt);
    qry!(cmp In Int ia ib m_sle der=true, checked_le);
    qry!(cmp In Int ia ib m_sgt der=true, checked_gt);
    qry!(cmp In Int ia ib m_sge der=true, checked_ge);
    qry!(cmpop In Int ia ib m_slt_op <);
    qry!(cmpop In Int ia ib m_sle_op <=);
    qry!(cmpop In Int ia ib m_sgt_op >);
    qry!(cmpop In Int ia ib m_sge_op >=);
    v.push(Op { name: "Int::partial_cmp", g: G::Cmp, k: K::AB, ty: Ty::In, derived: true, query: true, noalloc: true, model: m_scmp_op,
        imp: |r, _| Out::O(r.ia.as_ref().unwrap().partial_cmp(r.ib.as_ref().unwrap())), ..BASE });
    qry!(ri In Int ia m_ri8 der=true, resize_to_i8);
    qry!(ri In Int ia m_ri16 der=true, resize_to_i16);
    qry!(ri In Int ia m_ri32 der=true, resize_to_i32);
    qry!(ri In Int ia m_ri64 der=true, resize_to_i64);
    qry!(ri In Int ia m_ri128 der=true, resize_to_i128);
    qry!(ti In Int ia m_tis8 der=false, try_to_i8);
    qry!(ti In Int ia m_tis16 der=false, try_to_i16);
    qry!(ti In Int ia m_tis32 der=false, try_to_i32);
    qry!(ti In Int ia m_tis64 der=false, try_to_i64);
    qry!(ti In Int ia m_tis128 der=false, try_to_i128);
    v.push(Op { name: "Int::into_apint/from", g: G::Copy, k: K::A, ty: Ty::In, derived: true, consumes: true, noalloc: true, model: m_id,
        imp: |r, _| { let a = r.ia.take().unwrap(); r.ia = Some(Int::from(a.into_apint())); Out::Unit }, ..BASE });
    v.push(Op { name: "Int::into_unsigned/into_signed", g: G::Copy, k: K::A, ty: Ty::In, derived: true, consumes: true, noalloc: true, model: m_id,
        imp: |r, _| { let a = r.ia.take().unwrap(); r.ia = Some(a.into_unsigned().into_signed()); Out::Unit }, ..BASE });

    // UInt
    qry!(b Un UInt ua Count m_is1u der=false, is_one);
    own!(AS Un UInt ua Shift m_lshr der=true, na=true, wrapping_shr_assign, into_wrapping_shr);
    opr!(shift Un UInt ua m_lshr >>, >>=);
    own!(AB Un UInt ua ub UDiv m_udiv der=true, na=false, wrapping_div_assign, into_wrapping_div);
    own!(AB Un UInt ua ub UDiv m_urem der=true, na=false, wrapping_rem_assign, into_wrapping_rem);
    opr!(bin Un UInt ua ub UDiv m_udiv na=false, /, /=);
    opr!(bin Un UInt ua ub UDiv m_urem na=false, %, %=);
    own!(AW Un UInt ua Cast m_zext der=true, na=false, extend, into_extend);
    inf!(mutw Un UInt ua m_zres der=true, resize, into_resize);
    qry!(cmp Un UInt ua ub m_ult der=true, checked_lt);
    qry!(cmp Un UInt ua ub m_ule der=true, checked_le);
    qry!(cmp Un UInt ua ub m_ugt der=true, checked_gt);
    qry!(cmp Un UInt ua ub m_uge der=true, checked_ge);
    qry!(cmpop Un UInt ua ub m_ult_op <);
    qry!(cmpop Un UInt ua ub m_ule_op <=);
    qry!(cmpop Un UInt ua ub m_ugt_op >);
    qry!(cmpop Un UInt ua ub m_uge_op >=);
    v.push(Op { name: "UInt::partial_cmp", g: G::Cmp, k: K::AB, ty: Ty::Un, derived: true, query: true, noalloc: true, model: m_ucmp_op,
        imp: |r, _| Out::O(r.ua.as_ref().unwrap().partial_cmp(r.ub.as_ref().unwrap())), ..BASE });
    qry!(ru Un UInt ua m_ru8 der=true, resize_to_u8);
    qry!(ru Un UInt ua m_ru16 der=true, resize_to_u16);
    qry!(ru Un UInt ua m_ru32 der=true, resize_to_u32);
    qry!(ru Un UInt ua m_ru64 der=true, resize_to_u64);
    qry!(ru Un UInt ua m_ru128 der=true, resize_to_u128);
    qry!(tu Un UInt ua m_tu8 der=true, try_to_u8);
    qry!(tu Un UInt ua m_tu16 der=true, try_to_u16);
    qry!(tu Un UInt ua m_tu32 der=true, try_to_u32);
    qry!(tu Un UInt ua m_tu64 der=true, try_to_u64);
    qry!(tu Un UInt ua m_tu128 der=true, try_to_u128);
    v.push(Op { name: "UInt::into_apint/from", g: G::Copy, k: K::A, ty: Ty::Un, derived: true, consumes: true, noalloc: true, model: m_id,
        imp: |r, _| { let a = r.ua.take().unwrap(); r.ua = Some(UInt::from(a.into_apint())); Out::Unit }, ..BASE });
    v.push(Op { name: "UInt::into_signed/into_unsigned", g: G::Copy, k: K::A, ty: Ty::Un, derived: true, consumes: true, noalloc: true, model: m_id,
        imp: |r, _| { let a = r.ua.take().unwrap(); r.ua = Some(a.into_signed().into_unsigned()); Out::Unit }, ..BASE });
    v
}

fn for_msb(v: &mut Vec<Op>, base: Op) {
    macro_rules! m {
        ($t:ident $ty:ident $a:ident $d:expr, $m:ident $f:ident) => {
            v.push(Op {
                name: concat!(stringify!($ty), "::", stringify!($f)),
                g: G::Bit,
                k: K::A,
                ty: Ty::$t,
                derived: $d,
                noalloc: true,
                model: $m,
                imp: |r, _| {
                    r.$a.as_mut().unwrap().$f();
                    Out::Unit
                },
                ..base
            });
        };
    }
    m!(Ap ApInt a false, m_setm set_msb);
    m!(Ap ApInt a false, m_unsetm unset_msb);
    m!(Ap ApInt a false, m_flipm flip_msb);
    m!(In Int ia true, m_setm set_msb);
    m!(In Int ia true, m_unsetm unset_msb);
    m!(In Int ia true, m_flipm flip_msb);
}
