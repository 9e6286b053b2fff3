//! Exploration engine: executes cases on the real code, compares with the
//! model, survives crashes and hangs of the code under test (supervisor
//! process), and writes evidence and replay files.
use crate::alloc::{counters, Fence};
use crate::model::{nd, Bv};
use crate::obs;
use crate::ops::{Er, Exp, Op, Out, Regs, Ty, G, K};
use apint::{ApInt, Int, UInt};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub const MAXT: usize = 64;
pub const SLOT_D: usize = 80;
const TEXT: usize = 512;
/// an operation that has not returned after this long is reported as a hang
const HANG_S: u64 = 30;
/// marks harness panics that mean the library refused something valid
pub const LIB: &str = "the library refused";

#[repr(C)]
pub struct Slot {
    pub seq: AtomicU64,
    pub active: AtomicU32,
    pub op: AtomicU32, // u32::MAX: free text
    pub p: AtomicUsize,
    pub aw: AtomicUsize,
    pub bw: AtomicUsize,
    pub ad: [AtomicU64; SLOT_D],
    pub bd: [AtomicU64; SLOT_D],
    pub tl: AtomicUsize,
    pub text: [u8; TEXT],
}

#[repr(C)]
pub struct Shm {
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub done: AtomicU32,
    /// message of a panic that left the supervised region
    pub el: AtomicUsize,
    pub etext: [u8; TEXT],
    pub slots: [Slot; MAXT],
}

pub fn shm_new() -> &'static Shm {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shm)
    }
}

/// A value together with its prebuilt counterpart in the implementation.
pub struct Val {
    pub bv: Bv,
    pub ap: ApInt,
}
impl Val {
    pub fn new(bv: Bv) -> Val {
        let ap = obs::build(&bv);
        Val { bv, ap }
    }
}
pub fn vals(v: Vec<Bv>) -> Vec<Val> {
    v.into_iter().map(Val::new).collect()
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub detail: String,
    pub op: Option<String>,
    pub a: Option<String>,
    pub b: Option<String>,
    pub p: Option<usize>,
}

pub struct Env {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub ops: Vec<Op>,
    pub shm: &'static Shm,
    pub t0: Instant,
    pub viol: Mutex<Vec<Viol>>,
    pub nviol: AtomicU64,
    pub stop: AtomicBool,
    pub samples: Mutex<Vec<String>>,
    pub spaces: Mutex<Vec<(String, u64)>>,
    pub extra: Mutex<BTreeMap<String, String>>,
    pub assumptions: Mutex<Vec<String>>,
    /// case must not allocate where documented / leave the right footprint
    pub check_alloc: AtomicBool,
    /// fenced allocator around the operation, and leak accounting
    pub fence: AtomicBool,
    pub nthreads: usize,
}

pub struct Thr<'e> {
    pub env: &'e Env,
    pub slot: &'static Slot,
    pub states: u64,
    pub trans: u64,
    pub traces: u64,
}

thread_local! {
    // no heap here: panics happen inside leak-accounted regions
    static PANIC_MSG: RefCell<(usize, [u8; 600])> = const { RefCell::new((0, [0; 600])) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _f = Fence::off();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_PANIC").is_some() {
            eprintln!("panic: {} at {}", m, loc);
        }
        let t = format!("{} ({})", m, loc);
        let _ = PANIC_MSG.try_with(|p| {
            let mut p = p.borrow_mut();
            let n = t.len().min(600);
            p.0 = n;
            p.1[..n].copy_from_slice(&t.as_bytes()[..n]);
        });
    }));
}
pub fn panic_msg() -> String {
    PANIC_MSG.with(|p| String::from_utf8_lossy(&p.borrow().1[..p.borrow().0]).into_owned())
}

impl Drop for Thr<'_> {
    fn drop(&mut self) {
        self.flush();
        self.slot.active.store(0, Relaxed);
    }
}

impl<'e> Thr<'e> {
    pub fn flush(&mut self) {
        self.env.shm.states.fetch_add(self.states, Relaxed);
        self.env.shm.transitions.fetch_add(self.trans, Relaxed);
        self.env.shm.traces.fetch_add(self.traces, Relaxed);
        self.states = 0;
        self.trans = 0;
        self.traces = 0;
    }
    #[inline]
    pub fn record(&self, op: usize, a: &Bv, b: &Bv, p: usize) {
        let s = self.slot;
        s.op.store(op as u32, Relaxed);
        s.p.store(p, Relaxed);
        s.aw.store(a.w, Relaxed);
        s.bw.store(b.w, Relaxed);
        for (i, d) in a.d.iter().take(SLOT_D).enumerate() {
            s.ad[i].store(*d, Relaxed);
        }
        for (i, d) in b.d.iter().take(SLOT_D).enumerate() {
            s.bd[i].store(*d, Relaxed);
        }
        s.seq.store(s.seq.load(Relaxed) + 1, Relaxed);
        s.active.store(1, Relaxed);
    }
    /// Marks a free-form case as running (for crash and hang attribution).
    pub fn record_text(&self, t: &str) {
        let s = self.slot;
        s.op.store(u32::MAX, Relaxed);
        let n = t.len().min(TEXT);
        unsafe {
            std::ptr::copy_nonoverlapping(t.as_ptr(), s.text.as_ptr() as *mut u8, n);
        }
        s.tl.store(n, Relaxed);
        s.seq.store(s.seq.load(Relaxed) + 1, Relaxed);
        s.active.store(1, Relaxed);
    }
    #[inline]
    pub fn idle(&self) {
        self.slot.active.store(0, Relaxed);
    }
    pub fn stopped(&self) -> bool {
        self.env.stop.load(Relaxed)
    }
    pub fn fail(&self, key: String, detail: String) {
        self.env.report(Viol { key, detail, op: None, a: None, b: None, p: None });
    }
    /// Runs a free-form closure with panic capture; a panic is a violation.
    pub fn guarded<R>(&mut self, key: &str, f: impl FnOnce() -> R) -> Option<R> {
        self.record_text(key);
        self.trans += 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        self.idle();
        match r {
            Ok(v) => Some(v),
            Err(_) => {
                self.fail(key.into(), format!("panicked: {}", panic_msg()));
                None
            }
        }
    }
    /// One operation on one operand tuple: execute, observe, compare.
    #[inline]
    pub fn case(&mut self, oi: usize, a: &Val, b: &Val, p: usize) -> bool {
        let op = &self.env.ops[oi];
        self.record(oi, &a.bv, &b.bv, p);
        self.trans += 1;
        let fence = self.env.fence.load(Relaxed);
        let ca = self.env.check_alloc.load(Relaxed);
        let r = run_case(op, a, b, p, fence, ca);
        self.idle();
        match r {
            None => true,
            Some(d) => {
                self.env.report(case_viol(op, &a.bv, &b.bv, p, d));
                false
            }
        }
    }
    /// All given operations on one operand tuple.
    #[inline]
    pub fn tuple(&mut self, ops: &[usize], a: &Val, b: &Val, p: usize) {
        self.states += 1;
        let mut ok = true;
        for &o in ops {
            ok &= self.case(o, a, b, p);
        }
        if ok {
            self.traces += 1;
        }
        if self.states & 0xfff == 0 {
            self.flush();
        }
    }
}

pub fn case_key(op: &Op, a: &Bv, b: &Bv, p: usize) -> String {
    match op.k {
        K::A => format!("{} a={:?}", op.name, a),
        K::AB => format!("{} a={:?} b={:?}", op.name, a, b),
        _ => format!("{} a={:?} p={}", op.name, a, p),
    }
}

fn case_viol(op: &Op, a: &Bv, b: &Bv, p: usize, detail: String) -> Viol {
    Viol {
        key: case_key(op, a, b, p),
        detail,
        op: Some(op.name.into()),
        a: Some(format!("{:?}", a)),
        b: Some(format!("{:?}", b)),
        p: Some(p),
    }
}

fn foot(w: usize) -> i64 {
    if w <= 64 { 0 } else { 8 * nd(w) as i64 }
}

/// May this execution allocate, judging by the documentation?
fn must_not_alloc(op: &Op, a: &Bv, b: &Bv, p: usize) -> bool {
    // refused calls may allocate their error
    if op.g == G::Fmt || (op.k == K::AB && op.g != G::Copy && a.w != b.w) {
        return false
    }
    let resw = if op.k == K::AW { p } else { a.w };
    let inline = a.w <= 64 && (op.k != K::AB || b.w <= 64) && resw <= 64;
    if inline || op.noalloc {
        return true
    }
    match op.g {
        // documented: zero operands and products with a single-digit factor
        G::Mul => a.bitlen() <= 64 || b.bitlen() <= 64,
        // documented for the unsigned in-place pair forms (the others may copy)
        G::UDiv if op.name.ends_with("divrem_assign") || op.name.ends_with("remdiv_assign") => {
            a.bitlen() <= 64 || b.bitlen() <= 64 || {
                // quotient zero, or one between numbers of the same length
                a.bitlen() <= b.bitlen()
            }
        }
        // shrinking or keeping the number of digits: "won't allocate"
        G::Cast => op.name.contains("trunc") && nd(resw) == nd(a.w),
        _ => false,
    }
}

/// Returns a description of the disagreement, if any.  Memory that is kept once
/// (a cache, a pool) is not lost memory: only what grows with every call is.
pub fn run_case(op: &Op, a: &Val, b: &Val, p: usize, fence: bool, check_alloc: bool) -> Option<String> {
    let r = run_case_once(op, a, b, p, fence, check_alloc)?;
    if !r.starts_with(LEAK) && !r.starts_with(FOOT) {
        return Some(r)
    }
    for _ in 0..3 {
        let again = run_case_once(op, a, b, p, fence, check_alloc)?;
        if !again.starts_with(&r[..LEAK.len()]) {
            return None
        }
    }
    Some(r)
}
const LEAK: &str = "leaked ";
const FOOT: &str = "operands hold ";

fn run_case_once(op: &Op, a: &Val, b: &Val, p: usize, fence: bool, check_alloc: bool) -> Option<String> {
    let c0 = counters();
    let f = if fence { Some(Fence::on()) } else { None };
    let mut r = Regs { a: None, b: None, ia: None, ib: None, ua: None, ub: None };
    let ab = op.k == K::AB;
    match op.ty {
        Ty::Ap => {
            r.a = Some(a.ap.clone());
            if ab {
                r.b = Some(b.ap.clone())
            }
        }
        Ty::In => {
            r.ia = Some(Int::from(a.ap.clone()));
            if ab {
                r.ib = Some(Int::from(b.ap.clone()))
            }
        }
        Ty::Un => {
            r.ua = Some(UInt::from(a.ap.clone()));
            if ab {
                r.ub = Some(UInt::from(b.ap.clone()))
            }
        }
    }
    let c1 = counters();
    let out = catch_unwind(AssertUnwindSafe(|| (op.imp)(&mut r, p)));
    let c2 = counters();
    drop(f);
    let out = out.unwrap_or(Out::Panic);
    let ra = r.a.take().or_else(|| r.ia.take().map(|x| x.into_apint())).or_else(|| r.ua.take().map(|x| x.into_apint()));
    let rb = r.b.take().or_else(|| r.ib.take().map(|x| x.into_apint())).or_else(|| r.ub.take().map(|x| x.into_apint()));
    let exp = (op.model)(&a.bv, &b.bv, p);
    let res = judge(op, &exp, &out, ra.as_ref(), rb.as_ref(), &a.bv, &b.bv);
    if res.is_some() {
        return res
    }
    if check_alloc && !matches!(out, Out::E(_) | Out::Panic) {
        if c2.allocs != c1.allocs && must_not_alloc(op, &a.bv, &b.bv, p) {
            return Some(format!("allocated {} time(s) although documented not to allocate here", c2.allocs - c1.allocs))
        }
        if op.g != G::Fmt {
            let want = ra.as_ref().map(|_| foot(exp.a.w)).unwrap_or(0)
                + rb.as_ref().map(|_| foot(b.bv.w)).unwrap_or(0);
            let got = c2.live - c0.live;
            if got != want {
                return Some(format!("operands hold {} heap bytes after the call, their widths need {}", got, want))
            }
        }
    }
    if fence || check_alloc {
        drop(ra);
        drop(rb);
        drop(out);
        drop(exp);
        let c3 = counters();
        if c3.live > c0.live || c3.blocks > c0.blocks {
            return Some(format!("leaked {} block(s), {} byte(s)", c3.blocks - c0.blocks, c3.live - c0.live))
        }
    }
    None
}

/// One step of a history: applies the operation to the given object itself.
/// The new object (None when an error consumed it) with its model value, and
/// the second operand afterwards.
pub type Stepped = (Option<(ApInt, Bv)>, (ApInt, Bv));
pub fn step(op: &Op, a: ApInt, abv: &Bv, b: ApInt, bbv: &Bv, p: usize) -> Result<Stepped, String> {
    let mut r = Regs { a: None, b: None, ia: None, ib: None, ua: None, ub: None };
    match op.ty {
        Ty::Ap => {
            r.a = Some(a);
            r.b = Some(b);
        }
        Ty::In => {
            r.ia = Some(Int::from(a));
            r.ib = Some(Int::from(b));
        }
        Ty::Un => {
            r.ua = Some(UInt::from(a));
            r.ub = Some(UInt::from(b));
        }
    }
    let out = catch_unwind(AssertUnwindSafe(|| (op.imp)(&mut r, p))).unwrap_or(Out::Panic);
    let ra = r.a.take().or_else(|| r.ia.take().map(|x| x.into_apint())).or_else(|| r.ua.take().map(|x| x.into_apint()));
    let rb = r.b.take().or_else(|| r.ib.take().map(|x| x.into_apint())).or_else(|| r.ub.take().map(|x| x.into_apint()));
    let exp = (op.model)(abv, bbv, p);
    if let Some(m) = judge(op, &exp, &out, ra.as_ref(), rb.as_ref(), abv, bbv) {
        return Err(m)
    }
    let eb = exp.b.unwrap_or_else(|| bbv.clone());
    Ok((ra.map(|x| (x, exp.a)), (rb.expect("second operand"), eb)))
}

#[inline]
pub fn judge(op: &Op, exp: &Exp, out: &Out, ra: Option<&ApInt>, rb: Option<&ApInt>, a: &Bv, b: &Bv) -> Option<String> {
    let fails = matches!(exp.out, Out::E(_));
    let same = match (&exp.out, out) {
        (Out::E(_), Out::Panic) if op.oper => true,
        (Out::E(_), _) if op.oper => false,
        (x, y) if x == y => true,
        // two reasons to refuse: either may be named
        (Out::E(Er::Unmatch(..)), Out::E(Er::DivZero(_, l))) => b.is_zero() && *l == *a,
        _ => false,
    };
    if !same {
        let want = if fails && op.oper { Out::Panic } else { exp.out.clone() };
        let extra = if *out == Out::Panic { format!(" [{}]", panic_msg()) } else { String::new() };
        return Some(format!("returned {:?}{} instead of {:?}", out, extra, want))
    }
    match ra {
        Some(x) => {
            if let Some(m) = obs::mismatch(x, &exp.a) {
                return Some(format!("left operand{}: {}", if fails { " not preserved after error" } else { "" }, m))
            }
        }
        None => {
            if !(op.consumes && fails) {
                return Some("operand lost".into())
            }
        }
    }
    if let Some(y) = rb {
        let want = exp.b.as_ref().unwrap_or(b);
        if let Some(m) = obs::mismatch(y, want) {
            return Some(format!("right operand: {}", m))
        }
    }
    None
}

/// A reference the harness hands to its own threads.
pub struct Shared<'a, T: ?Sized>(pub &'a T);
unsafe impl<T: ?Sized> Send for Shared<'_, T> {}
impl<'a, T: ?Sized> Shared<'a, T> {
    pub fn get(&self) -> &'a T {
        self.0
    }
}

impl Env {
    pub fn op(&self, name: &str) -> usize {
        self.ops.iter().position(|o| o.name == name).unwrap_or_else(|| panic!("no op {}", name))
    }
    pub fn group(&self, g: G) -> Vec<usize> {
        (0..self.ops.len()).filter(|i| self.ops[*i].g == g).collect()
    }
    pub fn pick(&self, f: impl Fn(&Op) -> bool) -> Vec<usize> {
        (0..self.ops.len()).filter(|i| f(&self.ops[*i])).collect()
    }
    pub fn report(&self, v: Viol) {
        let n = self.nviol.fetch_add(1, SeqCst);
        let mut g = self.viol.lock().unwrap();
        // one per operation is enough to act on; keep a few in total
        let dup = v.op.is_some() && g.iter().filter(|x| x.op == v.op).count() >= 3;
        if g.len() < 40 && !dup {
            g.push(v);
        }
        if n > 400 {
            self.stop.store(true, SeqCst);
        }
    }
    pub fn fail(&self, key: impl Into<String>, detail: impl Into<String>) {
        self.report(Viol { key: key.into(), detail: detail.into(), op: None, a: None, b: None, p: None });
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 24 {
            g.push(s.into());
        }
    }
    pub fn space(&self, name: impl Into<String>, n: u64) {
        self.spaces.lock().unwrap().push((name.into(), n));
    }
    pub fn note(&self, k: &str, v: impl Into<String>) {
        self.extra.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// Runs `f(thread, i)` for every i < n on all cores.  (Not bound by
    /// `Sync`: whether the types of the library have it is C23's verdict.)
    pub fn par(&self, n: usize, f: impl Fn(&mut Thr, usize)) {
        if n == 0 {
            return
        }
        let next = AtomicUsize::new(0);
        let nt = self.nthreads.min(n);
        let chunk = (n / (nt * 16)).clamp(1, 4096);
        std::thread::scope(|s| {
            for k in 0..nt {
                let (next, f) = (&next, Shared(&f));
                s.spawn(move || { let r = catch_unwind(AssertUnwindSafe(|| {
                    let f = f.get();
                    crate::alloc::set_pool(k);
                    let mut t = Thr { env: self, slot: &self.shm.slots[k], states: 0, trans: 0, traces: 0 };
                    loop {
                        let i0 = next.fetch_add(chunk, Relaxed);
                        if i0 >= n || self.stop.load(Relaxed) {
                            break
                        }
                        for i in i0..(i0 + chunk).min(n) {
                            f(&mut t, i);
                            if self.stop.load(Relaxed) {
                                break
                            }
                        }
                    }
                }));
                if let Err(e) = r {
                    self.escaped();
                    std::panic::resume_unwind(e);
                } });
            }
        });
    }
    /// Keeps the message of a panic no operation was charged with.
    pub fn escaped(&self) {
        if self.shm.el.load(SeqCst) == 0 {
            let m = panic_msg();
            let n = m.len().min(TEXT);
            unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), self.shm.etext.as_ptr() as *mut u8, n) };
            self.shm.el.store(n, SeqCst);
        }
    }
    /// Every pair of the two lists, every operation.
    pub fn pairs(&self, name: &str, ops: &[usize], xs: &[Val], ys: &[Val]) {
        if xs.is_empty() || ys.is_empty() {
            return
        }
        let n = xs.len() as u64 * ys.len() as u64;
        self.space(format!("{} [{} x {} operands, {} operations]", name, xs.len(), ys.len(), ops.len()), n);
        self.sample(format!("{}: {} on a={:?} b={:?}", name, self.ops[ops[0]].name, xs[xs.len() / 2].bv, ys[ys.len() / 3].bv));
        // split along whichever side keeps the threads busy
        let per = (ys.len() + 63) / 64;
        let blocks = (ys.len() + per - 1) / per;
        self.par(xs.len() * blocks, |t, i| {
            let x = &xs[i / blocks];
            let j0 = (i % blocks) * per;
            for y in &ys[j0..(j0 + per).min(ys.len())] {
                t.tuple(ops, x, y, 0);
            }
        });
    }
    /// Every value, every operation without a second operand.
    pub fn singles(&self, name: &str, ops: &[usize], xs: &[Val]) {
        if xs.is_empty() {
            return
        }
        self.space(format!("{} [{} values, {} operations]", name, xs.len(), ops.len()), xs.len() as u64);
        self.sample(format!("{}: {} on a={:?}", name, self.ops[ops[ops.len() / 2]].name, xs[xs.len() / 2].bv));
        let z = Val::new(Bv::zero(1));
        self.par(xs.len(), |t, i| t.tuple(ops, &xs[i], &z, 0));
    }
    /// Every value with every parameter.
    pub fn params(&self, name: &str, ops: &[usize], xs: &[Val], ps: &[usize]) {
        if xs.is_empty() || ps.is_empty() {
            return
        }
        self.space(format!("{} [{} values x {} parameters, {} operations]", name, xs.len(), ps.len(), ops.len()), (xs.len() * ps.len()) as u64);
        self.sample(format!("{}: {} on a={:?} p={}", name, self.ops[ops[0]].name, xs[xs.len() / 2].bv, ps[ps.len() / 2]));
        let z = Val::new(Bv::zero(1));
        self.par(xs.len(), |t, i| {
            for &p in ps {
                t.tuple(ops, &xs[i], &z, p);
            }
        });
    }
}

// ---------------------------------------------------------------------------
// reporting

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Name of the build configuration this binary was made in.
pub fn config() -> String {
    let built = if cfg!(debug_assertions) { "assertions" } else { "no-assertions" };
    let feat = format!(
        "{},{},{}",
        if cfg!(feature = "std") { "std" } else { "no-std" },
        if cfg!(any(feature = "full", feature = "p_serde")) { "serde" } else { "no-serde" },
        if cfg!(any(feature = "full", feature = "p_rand")) { "rand" } else { "no-rand" }
    );
    let opt = std::env::var("VH_OPT").unwrap_or("opt3".into());
    format!("{},{},{}", built, feat, opt)
}

pub fn write_evidence(env: &Env, violations: u64, partial: bool) {
    use serde_json::{json, Value};
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let cfg = config();
    let mut cov = serde_json::Map::new();
    cov.insert("states".into(), json!(env.shm.states.load(SeqCst)));
    cov.insert("transitions".into(), json!(env.shm.transitions.load(SeqCst)));
    cov.insert("traces_validated_against_impl".into(), json!(env.shm.traces.load(SeqCst)));
    cov.insert("exhaustive".into(), json!(!partial && !env.stop.load(SeqCst)));
    cov.insert("rule".into(), json!("states: configurations (operands and parameter, schedule, fault point or reached object state) enumerated, per build configuration; transitions: executions of the real code from them; traces_validated_against_impl: configurations or histories all of whose executions agreed with the model in result and complete post-state"));
    cov.insert("samples".into(), json!(*env.samples.lock().unwrap()));
    let spaces: Vec<Value> = env.spaces.lock().unwrap().iter().map(|(n, c)| json!({"build": cfg, "space": n, "configurations": c})).collect();
    cov.insert("spaces".into(), json!(spaces));
    cov.insert("builds".into(), json!([cfg]));
    for (k, v) in env.extra.lock().unwrap().iter() {
        cov.insert(k.clone(), json!(v));
    }
    let mut ev = json!({
        "property": env.prop,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": *env.assumptions.lock().unwrap(),
        "wall_s": env.t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    // one run per build configuration: add to what the earlier ones covered
    if let Ok(pd) = std::env::var("VH_PARTS") {
        let _ = std::fs::create_dir_all(&pd);
        let pf = format!("{}/{}.json", pd, env.prop);
        if let Some(old) = std::fs::read_to_string(&pf).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
            for k in ["states", "transitions", "traces_validated_against_impl"] {
                let n = old["coverage"][k].as_u64().unwrap_or(0) + ev["coverage"][k].as_u64().unwrap_or(0);
                ev["coverage"][k] = json!(n);
            }
            for k in ["builds", "spaces"] {
                let mut l = old["coverage"][k].as_array().cloned().unwrap_or_default();
                l.extend(ev["coverage"][k].as_array().cloned().unwrap_or_default());
                ev["coverage"][k] = json!(l);
            }
            let both = old["coverage"]["exhaustive"] == json!(true) && ev["coverage"]["exhaustive"] == json!(true);
            ev["coverage"]["exhaustive"] = json!(both);
            for (k, v) in old["coverage"].as_object().into_iter().flatten() {
                if ev["coverage"].get(k).is_none() {
                    ev["coverage"][k] = v.clone();
                }
            }
            ev["wall_s"] = json!(old["wall_s"].as_f64().unwrap_or(0.0) + ev["wall_s"].as_f64().unwrap_or(0.0));
            ev["violations"] = json!(old["violations"].as_u64().unwrap_or(0) + violations);
        }
        std::fs::write(&pf, ev.to_string()).expect("write part");
    }
    std::fs::write(format!("{}/{}.json", dir, env.prop), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn write_replay(env: &Env, v: &Viol) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{:016x}.json", dir, env.prop, hash(&v.key));
    let f = |o: &Option<String>| o.as_ref().map(|s| jstr(s)).unwrap_or("null".into());
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"case\": {},\n \"disagreement\": {},\n \"op\": {},\n \"a\": {},\n \"b\": {},\n \"p\": {},\n \"build\": {},\n \"how\": {}\n}}\n",
        jstr(&env.prop),
        jstr(if env.thorough { "thorough" } else { "quick" }),
        jstr(&v.key),
        jstr(&v.detail),
        f(&v.op),
        f(&v.a),
        f(&v.b),
        v.p.map(|p| p.to_string()).unwrap_or("null".into()),
        jstr(&config()),
        jstr("bash /verif/check.sh --replay <this file> re-executes the case on the current tree (cases without op/a/b are re-executed by re-running the check)")
    );
    std::fs::write(&path, s).expect("write replay");
    path
}

/// Open findings of this property: lines `finding: property=<id> case=<key prefix> -- <what fails>`
fn known(prop: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    txt.lines()
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("finding: property={} case=", prop))?;
            let (k, w) = l.split_once(" -- ")?;
            Some((k.trim().to_string(), w.trim().to_string()))
        })
        .collect()
}


/// Prints the verdict; returns the exit code.
pub fn conclude(env: &Env) -> i32 {
    let v = env.viol.lock().unwrap().clone();
    let known = known(&env.prop);
    let mut seen = vec![false; known.len()];
    let mut new = Vec::new();
    for x in &v {
        match known.iter().position(|(k, _)| x.key == *k) {
            Some(i) => seen[i] = true,
            None => new.push(x),
        }
    }
    for (i, (_, w)) in known.iter().enumerate() {
        if seen[i] {
            println!("KNOWN-FINDING: property={} {}", env.prop, w);
        }
    }
    write_evidence(env, new.len() as u64, false);
    if new.is_empty() {
        println!(
            "OK property={} states={} transitions={} traces={} wall={:.1}s",
            env.prop,
            env.shm.states.load(SeqCst),
            env.shm.transitions.load(SeqCst),
            env.shm.traces.load(SeqCst),
            env.t0.elapsed().as_secs_f64()
        );
        return 0
    }
    for (i, x) in new.iter().enumerate() {
        let path = write_replay(env, x);
        if i == 0 {
            println!("VIOLATION property={} replay={}", env.prop, path);
        }
        if i < 8 {
            println!("  case: {}\n  {}", x.key, x.detail);
        }
    }
    1
}

// ---------------------------------------------------------------------------
// supervisor

pub fn slot_case(env: &Env, s: &Slot) -> (String, Option<(usize, Bv, Bv, usize)>) {
    let o = s.op.load(SeqCst);
    if o == u32::MAX {
        let n = s.tl.load(SeqCst).min(TEXT);
        let t = String::from_utf8_lossy(&s.text[..n]).into_owned();
        return (t, None)
    }
    let g = |w: usize, d: &[AtomicU64; SLOT_D]| {
        let v: Vec<u64> = d.iter().take(nd(w).min(SLOT_D)).map(|x| x.load(SeqCst)).collect();
        Bv::from_digits(w.max(1), &v)
    };
    let a = g(s.aw.load(SeqCst), &s.ad);
    let b = g(s.bw.load(SeqCst), &s.bd);
    let p = s.p.load(SeqCst);
    let op = &env.ops[o as usize];
    (case_key(op, &a, &b, p), Some((o as usize, a, b, p)))
}

/// Runs `f` in a child process and supervises it.  Returns the exit code.
pub fn supervise(env: &Env, f: impl Fn(&Env) -> i32) -> i32 {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // runaway allocation ends in an abort that is charged to the call
            let lim = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let r = catch_unwind(AssertUnwindSafe(|| f(env)));
            let code = match r {
                Ok(c) => c,
                Err(_) => {
                    env.escaped();
                    3
                }
            };
            use std::io::Write;
            let _ = std::io::stdout().flush();
            env.shm.done.store(1, SeqCst);
            libc::_exit(code);
        }
        let mut last = [(0u64, Instant::now()); MAXT];
        loop {
            let mut st = 0;
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                if libc::WIFEXITED(st) {
                    let c = libc::WEXITSTATUS(st);
                    if c == 3 {
                        let n = env.shm.el.load(SeqCst);
                        let m = String::from_utf8_lossy(&env.shm.etext[..n.min(TEXT)]).into_owned();
                        return crash(env, &format!("panic outside a supervised operation: {}", m), m.contains(LIB) || m.contains("repo/src/") || m.contains("on an `Err` value: Error"))
                    }
                    return c
                }
                let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
                let corrupt = [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE].contains(&sig);
                return crash(env, &format!("process died with signal {}", sig), corrupt)
            }
            for (i, s) in env.shm.slots.iter().enumerate() {
                let q = s.seq.load(SeqCst);
                if s.active.load(SeqCst) == 0 || q != last[i].0 {
                    last[i] = (q, Instant::now());
                } else if last[i].1.elapsed().as_secs() >= HANG_S {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                    let (key, c) = slot_case(env, s);
                    let mut v = Viol { key, detail: format!("no answer within {} s", HANG_S), op: None, a: None, b: None, p: None };
                    if let Some((o, a, b, p)) = c {
                        v = case_viol(&env.ops[o], &a, &b, p, v.detail);
                    }
                    env.report(v);
                    return conclude(env)
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
    }
}

/// The child died: find the case that did it by re-running the candidates.
fn crash(env: &Env, how: &str, library: bool) -> i32 {
    let mut cands = Vec::new();
    for s in env.shm.slots.iter() {
        if s.active.load(SeqCst) != 0 {
            cands.push(slot_case(env, s));
        }
    }
    if cands.is_empty() {
        if !library {
            eprintln!("harness error: {} with no operation in flight", how);
            return 3
        }
        // the library failed while operands were being made or dropped
        cands.push(("making operands through the public interface".into(), None));
    }
    let mut culprit = None;
    for (key, c) in &cands {
        if let Some((o, a, b, p)) = c {
            let op = &env.ops[*o];
            if unsafe { in_fork(|| {
                let _ = run_case(op, &Val::new(a.clone()), &Val::new(b.clone()), *p, env.fence.load(SeqCst), false);
            }) } != Some(0)
            {
                culprit = Some(case_viol(op, a, b, *p, how.to_string()));
                break
            }
        }
        let _ = key;
    }
    let v = culprit.unwrap_or_else(|| {
        let keys: Vec<&str> = cands.iter().map(|x| x.0.as_str()).collect();
        Viol { key: keys[0].to_string(), detail: format!("{}; in flight: {}", how, keys.join(" | ")), op: None, a: None, b: None, p: None }
    });
    env.report(v);
    let n = conclude(env);
    write_evidence(env, 1, true);
    n
}

/// Runs `f` in a forked process; exit code, or None when it was killed.
pub unsafe fn in_fork(f: impl FnOnce()) -> Option<i32> {
    let pid = libc::fork();
    if pid == 0 {
        libc::alarm(HANG_S as u32);
        let r = catch_unwind(AssertUnwindSafe(f));
        libc::_exit(if r.is_ok() { 0 } else { 1 });
    }
    let mut st = 0;
    libc::waitpid(pid, &mut st, 0);
    if libc::WIFEXITED(st) { Some(libc::WEXITSTATUS(st)) } else { None }
}
