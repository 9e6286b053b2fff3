//! C23: interference between threads.
//!
//! Every case runs in a process of its own.  Thread A executes one call under
//! the processor's single-step flag; between any two consecutive instructions
//! of that call thread B executes complete calls of its own.  All results on
//! both sides are compared with the model.  The library's first call in the
//! process is among them, so one-time initialisation is preempted as well.
use crate::engine::*;
use crate::model::Bv;
use crate::obs;
use crate::ops::{Out, Regs, Ty, G, K};
use crate::spaces::*;
use apint::{ApInt, Int, UInt};
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

/// Everything the scheduler itself keeps in static memory, in one place, so
/// that it can be told from what the library keeps there.
struct St {
    mode: AtomicU32,
    steps: AtomicU64,
    target: AtomicU64, // MAX: every step
    req: AtomicU32,
    done: AtomicU32,
    asleep: AtomicU32, // threads in a futex wait
    stop: AtomicBool,
    blocked: AtomicBool,
    nblocked: AtomicU64,
    switches: AtomicU64,
    // two switches
    bsteps: AtomicU64,
    btarget: AtomicU64,
    bgo: AtomicU32,
    aback: AtomicU32,
    adone: AtomicU32,
    // writes to static memory
    snap: AtomicUsize,
    writes: [AtomicU64; WRITES],
    nwrites: AtomicUsize,
}
const WRITES: usize = 64;
const EVERY: u32 = 0;
const ONE: u32 = 1;
const TWO: u32 = 2;
const PROFILE: u32 = 3;
static ST: St = St {
    mode: AtomicU32::new(0),
    steps: AtomicU64::new(0),
    target: AtomicU64::new(0),
    req: AtomicU32::new(0),
    done: AtomicU32::new(0),
    asleep: AtomicU32::new(0),
    stop: AtomicBool::new(false),
    blocked: AtomicBool::new(false),
    nblocked: AtomicU64::new(0),
    switches: AtomicU64::new(0),
    bsteps: AtomicU64::new(0),
    btarget: AtomicU64::new(0),
    bgo: AtomicU32::new(0),
    aback: AtomicU32::new(0),
    adone: AtomicU32::new(0),
    snap: AtomicUsize::new(0),
    writes: [const { AtomicU64::new(0) }; WRITES],
    nwrites: AtomicUsize::new(0),
};
thread_local! {
    static IS_B: Cell<bool> = const { Cell::new(false) };
}

/// The writable static memory of the program: the library's and std's (the C
/// library has its own).
fn statics() -> (usize, usize) {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize)
}
/// What is compared after every instruction: static memory, and the blocks
/// that outlive the call they were allocated in.
struct Snap {
    statics: Vec<u8>,
    blocks: Vec<(usize, Vec<u8>)>,
}
/// Does shared memory differ from the snapshot?  Updates the snapshot.
fn shared_changed(s: &mut Snap) -> bool {
    let mut ch = statics_changed(s.statics.as_mut_ptr());
    for (p, c) in s.blocks.iter_mut() {
        unsafe {
            if libc::memcmp(*p as *const _, c.as_ptr() as *const _, c.len()) != 0 {
                ch = true;
                libc::memcpy(c.as_mut_ptr() as *mut _, *p as *const _, c.len());
            }
        }
    }
    ch
}
fn statics_changed(snap: *mut u8) -> bool {
    let (lo, hi) = statics();
    let own = std::ptr::addr_of!(ST) as usize;
    let own = (own, own + std::mem::size_of::<St>());
    let mut ch = false;
    for (x, y) in [(lo, own.0.clamp(lo, hi)), (own.1.clamp(lo, hi), hi)] {
        unsafe {
            if libc::memcmp(x as *const _, snap.add(x - lo) as *const _, y - x) != 0 {
                ch = true;
                libc::memcpy(snap.add(x - lo) as *mut _, x as *const _, y - x);
            }
        }
    }
    ch
}

/// Sleeps until the word changes from `old`, for at most `ms` milliseconds.
fn futex_wait(w: &AtomicU32, old: u32, ms: i64) {
    let ts = libc::timespec { tv_sec: ms / 1000, tv_nsec: ms % 1000 * 1_000_000 };
    ST.asleep.fetch_add(1, SeqCst);
    unsafe { libc::syscall(libc::SYS_futex, w as *const AtomicU32, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, old, &ts as *const libc::timespec) };
    ST.asleep.fetch_sub(1, SeqCst);
}
/// Changes the word and wakes whoever sleeps on it.
fn futex_bump(w: &AtomicU32) {
    w.fetch_add(1, SeqCst);
    if ST.asleep.load(SeqCst) != 0 {
        unsafe { libc::syscall(libc::SYS_futex, w as *const AtomicU32, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1) };
    }
}

/// Waits until B has answered all requests.
fn wait_done(ms: i64) -> bool {
    let want = ST.req.load(SeqCst);
    for _ in 0..(ms + 9) / 10 {
        let d = ST.done.load(SeqCst);
        if d == want {
            return true
        }
        futex_wait(&ST.done, d, 10);
    }
    ST.done.load(SeqCst) == want
}

/// Waits until the word is set, for at most `ms` milliseconds.
fn wait_set(w: &AtomicU32, ms: i64) -> bool {
    for _ in 0..(ms + 9) / 10 {
        if w.load(SeqCst) != 0 {
            return true
        }
        futex_wait(w, 0, 10);
    }
    w.load(SeqCst) != 0
}

/// After every instruction of a stepped call.
extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    // the rest of the call runs at full speed
    let full_speed = || unsafe { (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
    let mode = ST.mode.load(Relaxed);
    if mode == TWO && IS_B.get() {
        // second switch: back to A, which runs to its end
        if ST.bsteps.fetch_add(1, Relaxed) == ST.btarget.load(Relaxed) {
            ST.switches.fetch_add(1, Relaxed);
            futex_bump(&ST.aback);
            if !wait_set(&ST.adone, 30) {
                ST.nblocked.fetch_add(1, Relaxed);
            }
            full_speed();
        }
        return
    }
    let s = ST.steps.fetch_add(1, Relaxed);
    match mode {
        TWO => {
            // first switch: to B
            if s == ST.target.load(Relaxed) {
                ST.switches.fetch_add(1, Relaxed);
                futex_bump(&ST.bgo);
                if !wait_set(&ST.aback, 100) {
                    ST.nblocked.fetch_add(1, Relaxed);
                }
                full_speed();
            }
        }
        PROFILE => {
            if shared_changed(unsafe { &mut *(ST.snap.load(Relaxed) as *mut Snap) }) {
                let n = ST.nwrites.load(Relaxed);
                if n < WRITES {
                    ST.writes[n].store(s, Relaxed);
                    ST.nwrites.store(n + 1, Relaxed);
                }
            }
        }
        _ => {
            if mode == ONE && s != ST.target.load(Relaxed) {
                return
            }
            if ST.blocked.load(Relaxed) {
                // B waits for something A holds: let A go on
                if ST.done.load(SeqCst) != ST.req.load(SeqCst) {
                    return
                }
                ST.blocked.store(false, Relaxed);
            }
            futex_bump(&ST.req);
            ST.switches.fetch_add(1, Relaxed);
            // enough for a busy machine; less once it is clear that calls lock
            if !wait_done(if ST.nblocked.load(Relaxed) < 3 { 100 } else { 10 }) {
                ST.blocked.store(true, Relaxed);
                ST.nblocked.fetch_add(1, Relaxed);
            }
            if mode == ONE {
                full_speed();
            }
        }
    }
}

#[cfg(target_arch = "x86_64")]
fn stepped<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        let r = f();
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        r
    }
}

/// A call whose result can be judged.
#[derive(Clone)]
enum Work {
    Op { oi: usize, a: Bv, b: Bv, p: usize },
    Parse { radix: u8, s: String, v: Bv },
    /// through the readable and the compact format and back
    Serde { v: Bv },
    /// a random value from given generator answers, and a refill
    Rand { v: Bv },
    /// reads of one object that both threads see
    Shared { kind: usize },
}

const KEPT: usize = 9;
const SHARED: [&str; 10] = ["clone", "==", "hash", "count_ones", "{:x}", "+= &x", "/= &x", "serialize", "* &x", "clone, kept"];

fn shared(kind: usize, x: &ApInt, y: &ApInt, v: &Bv) -> Option<String> {
    let (ok, what) = match kind {
        0 => (obs::raw_eq(&x.clone(), v), "clone"),
        1 => (x == y && !(x != y), "=="),
        2 => {
            let h = |a: &ApInt| {
                let mut s = std::collections::hash_map::DefaultHasher::new();
                a.hash(&mut s);
                s.finish()
            };
            (h(x) == h(y), "hash")
        }
        3 => (x.count_ones() == v.count_ones() && x.leading_zeros() == v.w - v.bitlen(), "count"),
        4 => (format!("{:x}", x) == v.radix_string(16, false), "{:x}"),
        5 => {
            let mut a = y.clone();
            a.wrapping_add_assign(x).ok()?;
            (obs::raw_eq(&a, &v.add(v)), "add")
        }
        6 => {
            let mut a = y.clone();
            a.wrapping_udiv_assign(x).ok()?;
            (obs::raw_eq(&a, &Bv::one(v.w)), "div")
        }
        7 => (obs::raw_eq(x, v), "serialize"),
        _ => {
            let mut a = y.clone();
            a.wrapping_mul_assign(x).ok()?;
            (obs::raw_eq(&a, &v.mul(v)), "mul")
        }
    };
    if ok && obs::raw_eq(x, v) { None } else { Some(format!("{} of a shared value gave a wrong answer", what)) }
}

struct Ready {
    w: Work,
    kept: std::cell::RefCell<Vec<ApInt>>,
    a: Option<Val>,
    b: Option<Val>,
}

impl Work {
    fn name(&self, env: &Env) -> String {
        match self {
            Work::Op { oi, a, b, p } => case_key(&env.ops[*oi], a, b, *p),
            Work::Parse { radix, s, .. } => super::text::parse_key(s, *radix),
            Work::Serde { v } => format!("serialize and deserialize {:?}", v),
            Work::Rand { v } => format!("random and randomize {:?}", v),
            Work::Shared { kind } => format!("{} on the shared value", SHARED[*kind]),
        }
    }
    fn ready(&self) -> Ready {
        match self {
            Work::Serde { v } => Ready { w: self.clone(), kept: Default::default(), a: Some(Val::new(v.clone())), b: None },
            Work::Op { a, b, .. } => Ready { w: self.clone(), kept: Default::default(), a: Some(Val::new(a.clone())), b: Some(Val::new(b.clone())) },
            _ => Ready { w: self.clone(), kept: Default::default(), a: None, b: None },
        }
    }
}

impl Ready {
    fn go(&self, env: &Env, step: bool, sh: &(ApInt, ApInt, Bv)) -> Option<String> {
        match &self.w {
            Work::Op { oi, a, b, p } => {
                let op = &env.ops[*oi];
                let (va, vb) = (self.a.as_ref().unwrap(), self.b.as_ref().unwrap());
                if !step {
                    return run_case(op, va, vb, *p, false, false)
                }
                let mut r = Regs { a: None, b: None, ia: None, ib: None, ua: None, ub: None };
                match op.ty {
                    Ty::Ap => {
                        r.a = Some(va.ap.clone());
                        r.b = Some(vb.ap.clone())
                    }
                    Ty::In => {
                        r.ia = Some(Int::from(va.ap.clone()));
                        r.ib = Some(Int::from(vb.ap.clone()))
                    }
                    Ty::Un => {
                        r.ua = Some(UInt::from(va.ap.clone()));
                        r.ub = Some(UInt::from(vb.ap.clone()))
                    }
                }
                let out = stepped(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.imp)(&mut r, *p)))).unwrap_or(Out::Panic);
                let ra = r.a.take().or_else(|| r.ia.take().map(|x| x.into_apint())).or_else(|| r.ua.take().map(|x| x.into_apint()));
                let rb = r.b.take().or_else(|| r.ib.take().map(|x| x.into_apint())).or_else(|| r.ub.take().map(|x| x.into_apint()));
                let exp = (op.model)(a, b, *p);
                judge(op, &exp, &out, ra.as_ref(), rb.as_ref(), a, b)
            }
            Work::Parse { radix, s, v } => {
                let r = if step { stepped(|| ApInt::from_str_radix(*radix, s.as_str())) } else { ApInt::from_str_radix(*radix, s.as_str()) };
                match r {
                    Err(e) => Some(format!("refused: {:?}", e.kind())),
                    Ok(x) => {
                        use apint::Width;
                        obs::mismatch(&x, &v.zresize(x.width().to_usize().max(v.bitlen())))
                    }
                }
            }
            Work::Serde { v } => {
                let (a, va) = (self.a.as_ref().unwrap(), v);
                let f = || -> Option<(ApInt, ApInt)> {
                    let t = serde_json::to_string(&a.ap).ok()?;
                    let b = bincode::serialize(&a.ap).ok()?;
                    Some((serde_json::from_str(&t).ok()?, bincode::deserialize(&b).ok()?))
                };
                match if step { stepped(f) } else { f() } {
                    None => Some("refused".into()),
                    Some((x, y)) => obs::mismatch(&x, va).or_else(|| obs::mismatch(&y, va)),
                }
            }
            Work::Rand { v } => {
                let f = || {
                    let w = apint::BitWidth::new(v.w).unwrap();
                    let x = ApInt::random_with_width_using(w, &mut super::rand_p::Script::new(&v.d));
                    let mut y = ApInt::zero(w);
                    y.randomize_using(&mut super::rand_p::Script::new(&v.d));
                    (x, y)
                };
                let (x, y) = if step { stepped(f) } else { f() };
                obs::mismatch(&x, v).or_else(|| obs::mismatch(&y, v))
            }
            Work::Shared { kind: KEPT } => {
                let mut k = self.kept.borrow_mut();
                k.reserve(1);
                let x = if step { stepped(|| sh.0.clone()) } else { sh.0.clone() };
                k.push(x);
                None
            }
            Work::Shared { kind } => {
                if step {
                    stepped(|| shared(*kind, &sh.0, &sh.1, &sh.2))
                } else {
                    shared(*kind, &sh.0, &sh.1, &sh.2)
                }
            }
        }
    }
}

#[repr(C)]
struct Report {
    steps: AtomicU64,
    switches: AtomicU64,
    blocked: AtomicU64,
    bsteps: AtomicU64,
    writes: [AtomicU64; WRITES],
    nwrites: AtomicUsize,
    len: AtomicUsize,
    text: [u8; 1024],
}

/// When the two threads run.
#[derive(Clone, Copy, PartialEq)]
enum Plan {
    /// B makes a complete call between any two instructions of A's
    Every,
    /// B makes one complete call after this many instructions of A's
    One(u64),
    /// A is stopped after `i` instructions, B after `j`; A finishes, B finishes
    Two { i: u64, j: u64, warm: bool },
    /// A alone: which of its instructions write memory others can see?
    Profile { warm: bool },
    /// many calls, one after the other: which of them write such memory?
    Sweep(Batch),
}

/// Runs in the child.
fn child(env: &Env, job: &Job, rep: &Report, cpu: usize) -> i32 {
    // both threads on one processor: handing over costs one context switch and
    // nobody spins, however busy the machine is
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
    let say = |m: &str| {
        let n = m.len().min(1024);
        unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), rep.text.as_ptr() as *mut u8, n) };
        rep.len.store(n, SeqCst);
    };
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::alarm(400);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    let rec = Box::leak(Box::new(crate::alloc::Rec { n: 0, b: [(0, 0); 1024] }));
    let recp: *mut crate::alloc::Rec = rec;
    let recording = matches!(job.plan, Plan::Profile { .. });
    let _fence = matches!(job.plan, Plan::Two { .. }).then(crate::alloc::Fence::on);
    let v = Bv::from_digits(192, &[0x9e37_79b9_7f4a_7c15, 0x0123_4567_89ab_cdef, 0x7edc_ba98_7654_3210]);
    if recording {
        crate::alloc::record(recp);
    }
    let sh = (obs::build(&v), obs::build(&v), v);
    let a = job.a.ready();
    let b = job.b.ready();
    let shr = &sh;
    let other = crate::engine::Shared(&(shr, &b));
    let bad = std::sync::Mutex::new(None::<String>);
    let mut res = None;
    if let Plan::Sweep(bt) = job.plan {
        return sweep(env, bt, rep, shr, &say)
    }
    let (mode, target) = match job.plan {
        Plan::Every => (EVERY, 0),
        Plan::One(k) => (ONE, k),
        Plan::Two { i, j, .. } => {
            ST.btarget.store(j, SeqCst);
            (TWO, i)
        }
        _ => (PROFILE, 0),
    };
    ST.target.store(target, SeqCst);
    ST.mode.store(mode, SeqCst);
    if let Plan::Two { warm: true, .. } | Plan::Profile { warm: true } = job.plan {
        for x in [&a, &b, &a] {
            res = res.or(x.go(env, false, shr));
        }
    }
    crate::alloc::record(std::ptr::null_mut());
    match job.plan {
        Plan::Profile { .. } => {
            let (lo, hi) = statics();
            let mut blocks: Vec<(usize, Vec<u8>)> = rec.b[..rec.n].iter().map(|(p, n)| (*p, vec![0u8; *n])).collect();
            for x in [&sh.0, &sh.1] {
                blocks.push((x as *const ApInt as usize, vec![0u8; std::mem::size_of::<ApInt>()]));
            }
            let snap = Box::leak(Box::new(Snap { statics: vec![0u8; hi - lo], blocks }));
            shared_changed(snap);
            ST.snap.store(snap as *mut Snap as usize, SeqCst);
            res = res.or(a.go(env, true, shr));
            for (r, w) in rep.writes.iter().zip(&ST.writes) {
                r.store(w.load(SeqCst), SeqCst);
            }
            rep.nwrites.store(ST.nwrites.load(SeqCst), SeqCst);
        }
        Plan::Two { .. } => {
            std::thread::scope(|s| {
                let bad = &bad;
                s.spawn(move || {
                    let (shr, br) = *other.get();
                    crate::alloc::set_pool(1);
                    IS_B.set(true);
                    let _fence = crate::alloc::Fence::on();
                    while !wait_set(&ST.bgo, 10_000) {}
                    let m = br.go(env, true, shr);
                    futex_bump(&ST.aback);
                    if let Some(m) = m {
                        bad.lock().unwrap().get_or_insert(m);
                    }
                });
                res = res.take().or(a.go(env, true, shr));
                futex_bump(&ST.adone);
                futex_bump(&ST.bgo); // if A ended before its switch
            });
            // what the two left behind serves later calls
            for x in [&b, &a, &b] {
                res = res.or(x.go(env, false, shr).map(|m| format!("afterwards: {}", m)));
            }
        }
        _ => std::thread::scope(|s| {
            let bad = &bad;
            s.spawn(move || {
                let (shr, br) = *other.get();
                crate::alloc::set_pool(1);
                loop {
                    if ST.req.load(Acquire) != ST.done.load(Relaxed) {
                        if let Some(m) = br.go(env, false, shr) {
                            bad.lock().unwrap().get_or_insert(m);
                        }
                        futex_bump(&ST.done);
                    } else if ST.stop.load(Relaxed) {
                        break
                    } else {
                        futex_wait(&ST.req, ST.done.load(SeqCst), 10);
                    }
                }
            });
            res = a.go(env, true, shr);
            // let B finish what it waited for
            let t0 = std::time::Instant::now();
            while !wait_done(100) && t0.elapsed().as_secs() < 150 {}
            if !wait_done(1) {
                say("the other thread never came back");
                unsafe { libc::_exit(1) };
            }
            ST.stop.store(true, SeqCst);
        }),
    }
    // clones that were kept are complete values of their own, whoever goes first
    let (_, v) = (0, sh.2.clone());
    let kept: Vec<ApInt> = a.kept.take().into_iter().chain(b.kept.take()).collect();
    let (one, two) = (sh.0, sh.1);
    drop(one);
    for (n, x) in kept.into_iter().enumerate() {
        if n < 8 || n % 64 == 0 {
            res = res.or(obs::mismatch(&x, &v).map(|m| format!("a kept clone: {}", m)));
        }
        drop(x);
    }
    res = res.or(obs::mismatch(&two, &v));
    rep.steps.store(ST.steps.load(SeqCst), SeqCst);
    rep.switches.store(ST.switches.load(SeqCst), SeqCst);
    rep.blocked.store(ST.nblocked.load(SeqCst), SeqCst);
    rep.bsteps.store(ST.bsteps.load(SeqCst), SeqCst);
    if let Some(m) = res {
        say(&format!("preempted call: {}", m));
        return 1
    }
    if let Some(m) = bad.into_inner().unwrap() {
        say(&format!("preempting call: {}", m));
        return 1
    }
    0
}

/// Calls looked at one after the other in one process.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Batch {
    Op { oi: usize, w: usize },
    Parse { radix: u8 },
    Serde { w: usize },
}
fn batch(env: &Env, b: Batch) -> Vec<Work> {
    let th = env.thorough;
    match b {
        Batch::Op { oi, w } => {
            let op = &env.ops[oi];
            let mut v = thin(tiny(w), if th { 40 } else { 20 });
            v.extend([operands(w, G::Add, 0).0, operands(w, G::Add, 0).1.lshr(w / 3)]);
            let v = dedup(v);
            let one = Bv::one(w);
            let mut l = Vec::new();
            for a in &v {
                match op.k {
                    K::A => l.push((a, &one, 0)),
                    K::AB => l.extend(v.iter().map(|b| (a, b, 0))),
                    K::AS | K::AP => l.extend(positions(w).into_iter().map(|p| (a, &one, p))),
                    K::AW => l.extend([1, (w - 1).max(1), w, w + 1, 64, 65, 128, 129, 2 * w, 3 * w].iter().map(|p| (a, &one, *p))),
                }
            }
            // a panic is std's business and writes std's counters
            l.into_iter().filter(|(a, b, p)| !op.oper || !matches!((op.model)(a, b, *p).out, Out::E(_) | Out::Panic)).map(|(a, b, p)| Work::Op { oi, a: a.clone(), b: b.clone(), p }).collect()
        }
        Batch::Parse { radix } => {
            let mut l = Vec::new();
            for w in [1usize, 5, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 256, 320, 512, 640, 1024, 2048] {
                for v in [Bv::ones(w), pow2(w, w - 1), operands(w, G::Add, 0).0] {
                    let s = v.radix_string(radix as u32, false);
                    if s.len() > 1 {
                        l.push(Work::Parse { radix, s: format!("{}_{}", &s[..1], &s[1..]), v: v.clone() });
                    }
                    l.push(Work::Parse { radix, s, v });
                }
            }
            l
        }
        Batch::Serde { w } => thin(tiny(w), if th { 40 } else { 12 }).into_iter().flat_map(|v| [Work::Serde { v: v.clone() }, Work::Rand { v }]).collect(),
    }
}
/// The pages of static memory.
fn protect(on: bool) {
    let (lo, hi) = statics();
    let (lo, hi) = (lo & !4095, (hi + 4095) & !4095);
    let prot = if on { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
    unsafe { libc::mprotect(lo as *mut _, hi - lo, prot) };
}
extern "C" fn on_segv(_: libc::c_int, i: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let (lo, hi) = statics();
    let a = unsafe { (*i).si_addr() } as usize;
    if a < lo & !4095 || a >= (hi + 4095) & !4095 {
        // not ours: die of it
        unsafe { libc::signal(libc::SIGSEGV, libc::SIG_DFL) };
        return
    }
    protect(false);
    ST.nwrites.store(1, SeqCst);
}

/// Runs every call of the batch with the program's static memory write
/// protected and reports the indices of those that run into it.
fn sweep(env: &Env, bt: Batch, rep: &Report, sh: &(ApInt, ApInt, Bv), say: &dyn Fn(&str)) -> i32 {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
    }
    let works = batch(env, bt);
    // does the protection work here?
    protect(true);
    ST.asleep.swap(std::hint::black_box(0), SeqCst);
    if ST.nwrites.load(SeqCst) == 0 {
        return 4
    }
    let mut found = 0;
    for (n, w) in works.iter().enumerate() {
        let r = w.ready();
        if n == 0 || ST.nwrites.load(SeqCst) != 0 {
            ST.nwrites.store(0, SeqCst);
            protect(true);
        }
        if let Some(m) = r.go(env, false, sh) {
            protect(false);
            say(&format!("{}: {}", w.name(env), m));
            return 1
        }
        if ST.nwrites.load(SeqCst) != 0 && found < WRITES {
            rep.writes[found].store(n as u64, SeqCst);
            found += 1;
        }
    }
    protect(false);
    rep.nwrites.store(found, SeqCst);
    rep.steps.store(0, SeqCst);
    rep.bsteps.store(works.len() as u64, SeqCst);
    rep.switches.store(works.len() as u64, SeqCst);
    0
}

struct Job {
    a: Work,
    b: Work,
    plan: Plan,
}

/// Runs the jobs, several processes at a time.
fn schedule(env: &Env, jobs: &[Job], mut each: impl FnMut(usize, &Report)) {
    let cpus: Vec<usize> = unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set);
        (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    };
    let cpus = if cpus.is_empty() { vec![0] } else { cpus };
    let np = env.nthreads.max(1);
    let reps: Vec<&'static Report> = (0..np)
        .map(|_| unsafe {
            let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Report>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            &*(p as *const Report)
        })
        .collect();
    let mut running: Vec<Option<(i32, usize)>> = vec![None; np];
    let mut next = 0;
    let mut found: Option<std::time::Instant> = None;
    loop {
        let mut busy = false;
        for k in 0..np {
            if running[k].is_none() && next < jobs.len() && found.map_or(true, |t| t.elapsed().as_secs() < 10) && !env.stop.load(Relaxed) {
                let j = next;
                next += 1;
                reps[k].len.store(0, SeqCst);
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| child(env, &jobs[j], reps[k], cpus[k % cpus.len()])));
                    unsafe { libc::_exit(r.unwrap_or(3)) };
                }
                running[k] = Some((pid, j));
            }
            busy |= running[k].is_some();
        }
        if !busy {
            break
        }
        let mut st = 0;
        let pid = match found {
            None => unsafe { libc::waitpid(-1, &mut st, 0) },
            Some(t) => unsafe {
                // a verdict is there: what hangs now is not waited for
                let p = libc::waitpid(-1, &mut st, libc::WNOHANG);
                if p == 0 {
                    if t.elapsed().as_secs() > 20 {
                        for r in running.iter().flatten() {
                            libc::kill(r.0, libc::SIGKILL);
                            libc::waitpid(r.0, &mut st, 0);
                        }
                        break
                    }
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    continue
                }
                p
            },
        };
        let Some(k) = running.iter().position(|r| r.map(|x| x.0) == Some(pid)) else { continue };
        let (_, j) = running[k].take().unwrap();
        let job = &jobs[j];
        let key = || format!("{} || {}{}", job.a.name(env), job.b.name(env), match job.plan {
            Plan::Every => String::new(),
            Plan::One(k) => format!(" at step {}", k),
            Plan::Two { i, j, warm } => format!(" stopped after {} and {} steps{}", i, j, if warm { ", warm" } else { "" }),
            Plan::Profile { .. } => " (alone)".into(),
            Plan::Sweep(b) => format!(" (alone, {:?})", b),
        });
        let rep = reps[k];
        let code = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -libc::WTERMSIG(st) };
        let msg = String::from_utf8_lossy(&rep.text[..rep.len.load(SeqCst)]).into_owned();
        env.shm.states.fetch_add(1, Relaxed);
        env.shm.transitions.fetch_add(rep.switches.load(SeqCst), Relaxed);
        match code {
            0 => {
                env.shm.traces.fetch_add(1, Relaxed);
                each(j, rep);
            }
            1 => env.fail(key(), msg),
            4 => {
                eprintln!("harness error: write protection does not work here");
                std::process::exit(3);
            }
            c => env.fail(key(), format!("process ended with {} ({})", c, msg)),
        }
        if env.nviol.load(SeqCst) != 0 {
            found.get_or_insert_with(std::time::Instant::now);
        }
    }
}

fn operands(w: usize, g: G, set: usize) -> (Bv, Bv) {
    let n = (w + 63) / 64;
    let pat = |m: u64| Bv::from_digits(w, &(0..n as u64).map(|i| m.wrapping_mul(i + 1)).collect::<Vec<_>>());
    let x = pat(0x9e37_79b9_7f4a_7c15);
    let y = pat(0xc2b2_ae3d_27d4_eb4f);
    match (g, set) {
        (G::UDiv | G::SDiv, 0) => (x, y.lshr(w / 3).or(&Bv::one(w))),
        (G::UDiv | G::SDiv, _) => (x, y.lshr(w - (w / 4).max(1)).or(&Bv::one(w))),
        (_, 0) => (x, y),
        _ => (Bv::ones(w), pow2(w, w - 1).or(&Bv::one(w))),
    }
}

pub fn threads(env: &Env) {
    let th = env.thorough;
    if !sendsync() {
        env.fail("Send + Sync", "the integer types can no longer be sent to or shared between threads");
    }
    let ops = env.pick(|o| if th { !o.oper } else { !o.derived });
    let widths: &[usize] = if th { &[8, 64, 65, 128, 192, 257] } else { &[64, 128, 257] };
    let op_work = |oi: usize, w: usize, set: usize| {
        let op = &env.ops[oi];
        let (a, b) = operands(w, op.g, set);
        let p = match op.k {
            K::AS => [w / 2, w - 1][set],
            K::AP => w - 1,
            K::AW => {
                if op.name.contains("trunc") {
                    [w / 2, w][set].max(1)
                } else {
                    [w + 1, 2 * w + 1][set]
                }
            }
            _ => 0,
        };
        Work::Op { oi, a, b, p }
    };
    let parse_work = |radix: u8, w: usize| {
        let v = operands(w, G::Add, 0).0;
        Work::Parse { radix, s: v.radix_string(radix as u32, false), v }
    };
    let mut jobs = Vec::new();
    let strong: Vec<usize> = ["ApInt::wrapping_mul_assign", "ApInt::wrapping_udivrem_assign", "ApInt::wrapping_sdiv_assign", "ApInt::wrapping_ashr_assign", "ApInt {:x}", "ApInt::sign_resize"].iter().map(|n| env.op(n)).collect();
    for &w in widths {
        for set in 0..2 {
            for &oi in &ops {
                let a = op_work(oi, w, set);
                // itself, on other operands and on another width
                jobs.push(Job { a: a.clone(), b: op_work(oi, w, 1 - set), plan: Plan::Every });
                jobs.push(Job { a: a.clone(), b: op_work(oi, if w <= 64 { 192 } else { w + 64 }, set), plan: Plan::Every });
                if set == 0 || th {
                    for &s in &strong {
                        if s != oi {
                            jobs.push(Job { a: a.clone(), b: op_work(s, 192, 0), plan: Plan::Every });
                        }
                    }
                    jobs.push(Job { a: a.clone(), b: parse_work(10, 192), plan: Plan::Every });
                }
            }
        }
        for radix in if th { (2..=36).collect() } else { vec![2u8, 8, 10, 16, 36] } {
            let a = parse_work(radix, w);
            jobs.push(Job { a: a.clone(), b: parse_work(radix, w + 64), plan: Plan::Every });
            jobs.push(Job { a: a.clone(), b: parse_work(10, 128), plan: Plan::Every });
            jobs.push(Job { a, b: op_work(strong[1], 192, 0), plan: Plan::Every });
        }
    }
    for &w in widths {
        let (x, y) = operands(w, G::Add, 0);
        jobs.push(Job { a: Work::Serde { v: x.clone() }, b: Work::Serde { v: y.clone() }, plan: Plan::Every });
        jobs.push(Job { a: Work::Rand { v: x.clone() }, b: Work::Rand { v: y.clone() }, plan: Plan::Every });
        jobs.push(Job { a: Work::Serde { v: x.clone() }, b: op_work(strong[1], 192, 0), plan: Plan::Every });
    }
    for x in 0..SHARED.len() {
        for y in 0..SHARED.len() {
            jobs.push(Job { a: Work::Shared { kind: x }, b: Work::Shared { kind: y }, plan: Plan::Every });
        }
    }
    let (mut steps, mut blocked, mut most) = (0u64, 0u64, 0u64);
    let mut per: Vec<u64> = vec![0; jobs.len()];
    schedule(env, &jobs, |j, r| {
        let s = r.steps.load(SeqCst);
        steps += s;
        blocked += r.blocked.load(SeqCst);
        most = most.max(s);
        per[j] = s;
    });
    env.space("pairs of calls; the second runs completely between any two consecutive instructions of the first", jobs.len() as u64);
    env.note("preemption_points", steps.to_string());
    env.note("longest_preempted_call_instructions", most.to_string());
    env.note("switches_on_which_the_other_thread_had_to_wait", blocked.to_string());
    if steps < jobs.len() as u64 && env.nviol.load(SeqCst) == 0 {
        eprintln!("harness error: single stepping does not work here");
        std::process::exit(3);
    }
    for j in jobs.iter().take(2000).step_by(200) {
        env.sample(format!("{} || {}", j.a.name(env), j.b.name(env)));
    }
    if env.nviol.load(SeqCst) != 0 {
        return
    }
    // exactly one preemption, at every instruction
    let lim = if th { 2500 } else { 400 };
    let cap = if th { 150_000 } else { 4_000 };
    let mut single = Vec::new();
    let mut pairs = 0;
    for (j, job) in jobs.iter().enumerate() {
        if per[j] == 0 || per[j] > lim || single.len() as u64 + per[j] > cap {
            continue
        }
        // one representative per operation: the call preempted by itself
        let same = match (&job.a, &job.b) {
            (Work::Op { oi: x, a, .. }, Work::Op { oi: y, b: _, a: a2, .. }) => x == y && a.w == a2.w && (a.w == 128 || th) && !env.ops[*x].query,
            (Work::Parse { .. }, Work::Parse { .. }) => true,
            _ => false,
        };
        if same {
            pairs += 1;
            for k in 0..per[j] {
                single.push(Job { a: job.a.clone(), b: job.b.clone(), plan: Plan::One(k) });
            }
        }
    }
    env.space(format!("{} pairs of calls with exactly one preemption, one schedule per instruction", pairs), single.len() as u64);
    schedule(env, &single, |_, _| {});
    if env.nviol.load(SeqCst) != 0 {
        return
    }
    two_switches(env, &jobs);
}

/// Calls that write static memory, with both threads stopped half-way.
///
/// A call that never writes memory it shares with others cannot disturb
/// another one, however they are interleaved; so the calls that do are found
/// first, by looking at the program's static memory after every instruction.
fn two_switches(env: &Env, jobs: &[Job]) {
    let th = env.thorough;
    // a broad sweep first
    let mut bs: Vec<Batch> = Vec::new();
    let ws: &[usize] = if th { &[1, 2, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 384, 512, 640, 1024, 1025, 2048] } else { &[1, 32, 33, 64, 65, 128, 192, 257, 320, 512, 640, 1024, 1500, 2048] };
    for oi in env.pick(|_| true) {
        bs.extend(ws.iter().map(|w| Batch::Op { oi, w: *w }));
    }
    bs.extend((2..=36).map(|radix| Batch::Parse { radix }));
    bs.extend(ws.iter().map(|w| Batch::Serde { w: *w }));
    let dummy = Work::Shared { kind: 0 };
    let sj: Vec<Job> = bs.iter().map(|b| Job { a: dummy.clone(), b: dummy.clone(), plan: Plan::Sweep(*b) }).collect();
    let mut extra: Vec<Work> = Vec::new();
    let (mut calls, mut nw) = (0, 0);
    schedule(env, &sj, |j, r| {
        calls += r.bsteps.load(SeqCst);
        let n = r.nwrites.load(SeqCst);
        nw += n;
        if n > 0 && extra.len() < 64 {
            let l = batch(env, bs[j]);
            // two of each batch: they are run against each other below
            for k in [r.writes[0].load(SeqCst), r.writes[n - 1].load(SeqCst)] {
                extra.push(l[k as usize].clone());
            }
        }
    });
    env.space("calls of every operation, alone, with static memory write protected", calls);
    env.note("sweep_calls_that_write_shared_memory", nw.to_string());
    let mut works: Vec<(String, &Work)> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for (a, b) in jobs.iter().map(|j| (&j.a, &j.b)).chain(extra.iter().map(|w| (w, w))) {
        for w in [a, b] {
            let n = w.name(env);
            if seen.insert(n.clone()) {
                works.push((n, w));
            }
        }
    }
    let prof: Vec<Job> = works.iter().flat_map(|(_, w)| [false, true].map(|warm| Job { a: (*w).clone(), b: (*w).clone(), plan: Plan::Profile { warm } })).collect();
    let mut found: Vec<(u64, Vec<u64>)> = vec![(0, Vec::new()); prof.len()];
    schedule(env, &prof, |j, r| {
        let n = r.nwrites.load(SeqCst);
        found[j] = (r.steps.load(SeqCst), r.writes[..n].iter().map(|w| w.load(SeqCst)).collect());
    });
    env.space("calls (first of the process, and a later one) whose writes to static memory are looked for after every instruction", prof.len() as u64);
    let writers: Vec<usize> = (0..works.len()).filter(|k| !found[2 * k].1.is_empty() || !found[2 * k + 1].1.is_empty()).collect();
    env.note("calls_that_write_static_memory", writers.len().to_string());
    for k in &writers {
        env.note(&format!("writes static memory: {}", works[*k].0), format!("{} instructions", found[2 * k].1.len().max(found[2 * k + 1].1.len())));
    }
    if writers.is_empty() {
        return
    }
    // a writer against itself, against the same call on other data, and
    // against another writer
    let index: std::collections::HashMap<&str, usize> = works.iter().enumerate().map(|(i, w)| (w.0.as_str(), i)).collect();
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    for (n, k) in writers.iter().enumerate() {
        pairs.push((*k, *k));
        pairs.push((*k, writers[(n + 1) % writers.len()]));
    }
    for j in jobs {
        let (x, y) = (index[j.a.name(env).as_str()], index[j.b.name(env).as_str()]);
        if writers.contains(&x) && writers.contains(&y) && !pairs.contains(&(x, y)) {
            pairs.push((x, y));
        }
    }
    let total: usize = if th { 400_000 } else { 20_000 };
    let each = (total / (2 * pairs.len())).clamp(200, 40_000);
    let mut two = Vec::new();
    for (x, y) in &pairs {
        for warm in [false, true] {
            let ((na, wr), (nb, _)) = (&found[2 * x + warm as usize], &found[2 * y + warm as usize]);
            // around each write, and then anywhere
            let mut is: Vec<u64> = wr.iter().flat_map(|k| [k.saturating_sub(2), k.saturating_sub(1), *k, k + 1]).collect();
            let mut had: std::collections::HashSet<u64> = is.iter().copied().collect();
            let mut uniq = std::collections::HashSet::new();
            is.retain(|i| uniq.insert(*i));
            for i in 0..*na {
                if had.insert(i) {
                    is.push(i);
                }
            }
            let mut left = each;
            let sj = (nb * 8 / each as u64).max(1); // at least 8 stops of A
            for i in is {
                let js = (0..*nb as usize).step_by(sj as usize);
                if left < js.len() || two.len() > total {
                    break
                }
                left -= js.len();
                two.extend(js.map(|j| Job { a: works[*x].1.clone(), b: works[*y].1.clone(), plan: Plan::Two { i, j: j as u64, warm } }));
            }
        }
    }
    env.space(format!("{} pairs of calls that write static memory: first stopped, second stopped, first to its end, second to its end", pairs.len()), two.len() as u64);
    let mut blocked = 0;
    schedule(env, &two, |_, r| blocked += r.blocked.load(SeqCst));
    env.note("two_switch_schedules_on_which_a_thread_had_to_wait", blocked.to_string());
}

/// Are the types Send and Sync?  Decided at run time so that losing it is a
/// verdict and not a failed build.
fn sendsync() -> bool {
    struct P<T>(std::marker::PhantomData<T>);
    trait No {
        fn send(&self) -> bool {
            false
        }
        fn sync(&self) -> bool {
            false
        }
    }
    impl<T> No for &P<T> {}
    impl<T: Send> P<T> {
        fn send(&self) -> bool {
            true
        }
    }
    struct Q<T>(std::marker::PhantomData<T>);
    impl<T> No for &Q<T> {}
    impl<T: Sync> Q<T> {
        fn sync(&self) -> bool {
            true
        }
    }
    macro_rules! both {
        ($($t:ty),*) => { true $( && (&P::<$t>(std::marker::PhantomData)).send() && (&Q::<$t>(std::marker::PhantomData)).sync() )* };
    }
    debug_assert!(!(&P::<std::rc::Rc<u8>>(std::marker::PhantomData)).send());
    both!(ApInt, Int, UInt)
}
