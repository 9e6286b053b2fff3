//! Global allocator of the harness.
//!
//! Always: per-thread counters of allocation events, live blocks and bytes.
//! Inside a `Fence` scope every block of up to one page is placed directly in
//! front of an inaccessible guard page, filled with poison on allocation and on
//! release, checked against the layout it was allocated with, and kept in a
//! FIFO quarantine before reuse.  A breach writes a line starting with
//! `ALLOC-VIOLATION` and aborts; the supervisor attributes it to the case that
//! was running.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub struct Alloc;

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Counters {
    pub allocs: u64,
    pub frees: u64,
    pub live: i64,
    pub blocks: i64,
}

thread_local! {
    static CNT: Cell<Counters> = const { Cell::new(Counters { allocs: 0, frees: 0, live: 0, blocks: 0 }) };
    static FENCE: Cell<bool> = const { Cell::new(false) };
    static POOL: Cell<usize> = const { Cell::new(MAXP - 1) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static REC: Cell<*mut Rec> = const { Cell::new(std::ptr::null_mut()) };
}

pub fn counters() -> Counters {
    CNT.with(|c| c.get())
}

/// Requests above this size are refused (abort) while set: a bug that asks for
/// a huge buffer must not take the machine down.
pub fn set_limit(n: usize) {
    LIMIT.with(|l| l.set(n))
}

/// The blocks a thread has allocated and not released while recording.
pub struct Rec {
    pub n: usize,
    pub b: [(usize, usize); 1024],
}
/// Starts (or, with null, stops) recording into `r`.
pub fn record(r: *mut Rec) {
    REC.with(|x| x.set(r))
}
unsafe fn rec_new(r: *mut Rec, p: *mut u8, n: usize) {
    let r = &mut *r;
    if r.n < r.b.len() {
        r.b[r.n] = (p as usize, n);
        r.n += 1;
    }
}
unsafe fn rec_free(r: *mut Rec, p: *mut u8) {
    let r = &mut *r;
    if let Some(k) = r.b[..r.n].iter().position(|x| x.0 == p as usize) {
        r.n -= 1;
        r.b[k] = r.b[r.n];
    }
}

const PAGE: usize = 4096;
const SLOT: usize = 2 * PAGE;
// every slot costs two memory mappings (limit of the system: 65530)
const SLOTS: usize = 1 << 14;
const CHUNK: u32 = 128; // slots a thread takes at a time
const QUAR: u32 = 512; // minimum length of the quarantine before reuse
const NIL: u32 = u32::MAX;
const P_NEW: u8 = 0xA5;
const P_FREE: u8 = 0xDE;

#[derive(Clone, Copy)]
struct Pool {
    head: u32,
    tail: u32,
    len: u32,
    fresh: u32,
    end: u32,
}

const MAXP: usize = 64;
/// one pool per worker; a worker's pool survives the thread that served it
static mut POOLS: [Pool; MAXP] = [Pool { head: NIL, tail: NIL, len: 0, fresh: 0, end: 0 }; MAXP];

/// Chooses the pool of this thread.  Two live threads must not share one.
pub fn set_pool(k: usize) {
    POOL.with(|p| p.set(k))
}

#[derive(Clone, Copy)]
struct Meta {
    size: u32,
    align: u16,
    state: u16, // 0 never used, 1 live, 2 freed
    next: u32,
}

static BASE: AtomicUsize = AtomicUsize::new(0);
static mut META: *mut Meta = std::ptr::null_mut();
static TAKEN: AtomicUsize = AtomicUsize::new(0);
pub static FENCED: AtomicUsize = AtomicUsize::new(0);

/// Maps the arena.  Must be called before the first `Fence`, from one thread.
pub fn init_fence() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * SLOT + PAGE,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let m = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * std::mem::size_of::<Meta>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(m != libc::MAP_FAILED);
        META = m as *mut Meta;
        BASE.store(p as usize, SeqCst);
    }
}

pub struct Fence(bool);
impl Fence {
    pub fn on() -> Fence {
        Fence(FENCE.with(|f| f.replace(true)))
    }
    pub fn off() -> Fence {
        Fence(FENCE.with(|f| f.replace(false)))
    }
}
impl Drop for Fence {
    fn drop(&mut self) {
        FENCE.with(|f| f.set(self.0))
    }
}

fn die(msg: &str, a: usize, b: usize) -> ! {
    // no allocation in here
    let mut buf = [0u8; 256];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for c in s {
            if n < 250 {
                buf[n] = *c;
                n += 1;
            }
        }
    };
    put(b"ALLOC-VIOLATION ");
    put(msg.as_bytes());
    for v in [a, b] {
        put(b" ");
        let mut t = [0u8; 20];
        let mut i = 20;
        let mut v = v;
        loop {
            i -= 1;
            t[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break
            }
        }
        put(&t[i..]);
    }
    put(b"\n");
    unsafe {
        libc::write(2, buf.as_ptr() as *const _, n);
        libc::abort()
    }
}

unsafe fn body(slot: u32, m: &Meta) -> (*mut u8, *mut u8) {
    let page = BASE.load(Relaxed) + PAGE + slot as usize * SLOT;
    let start = (page + PAGE - m.size as usize) & !(m.align as usize - 1);
    (page as *mut u8, start as *mut u8)
}

unsafe fn check_fill(from: *const u8, to: *const u8, v: u8) -> bool {
    let mut p = from;
    while p < to {
        if *p != v {
            return false
        }
        p = p.add(1);
    }
    true
}

unsafe fn fence_alloc(l: Layout) -> *mut u8 {
    let id = POOL.with(|p| p.get());
    {
        let mut p = POOLS[id];
        let slot;
        if p.len > QUAR {
            slot = p.head;
            let m = &mut *META.add(slot as usize);
            p.head = m.next;
            p.len -= 1;
            let (page, old) = body(slot, m);
            // nothing may have written to it while it was in quarantine
            if !check_fill(old, page.add(PAGE), P_FREE) {
                die("write-after-free size align", m.size as usize, m.align as usize);
            }
        } else {
            if p.fresh == p.end {
                let s = TAKEN.fetch_add(CHUNK as usize, SeqCst);
                if s + CHUNK as usize > SLOTS {
                    die("fence arena exhausted (harness)", s, SLOTS);
                }
                for k in 0..CHUNK as usize {
                    let page = BASE.load(Relaxed) + PAGE + (s + k) * SLOT;
                    if libc::mprotect(page as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
                        die("mprotect failed (harness)", s, k);
                    }
                }
                p.fresh = s as u32;
                p.end = s as u32 + CHUNK;
            }
            slot = p.fresh;
            p.fresh += 1;
        }
        POOLS[id] = p;
        let m = &mut *META.add(slot as usize);
        m.size = l.size() as u32;
        m.align = l.align() as u16;
        m.state = 1;
        let (page, start) = body(slot, m);
        // slack in front of the block (a canary of up to 256 bytes) and the block
        let pre = (start as usize - page as usize).min(256);
        std::ptr::write_bytes(start.sub(pre), P_NEW, pre);
        std::ptr::write_bytes(start, P_NEW, page as usize + PAGE - start as usize);
        FENCED.fetch_add(1, Relaxed);
        start
    }
}

unsafe fn fence_free(ptr: *mut u8, l: Layout) {
    let off = ptr as usize - BASE.load(Relaxed) - PAGE;
    let slot = (off / SLOT) as u32;
    let m = &mut *META.add(slot as usize);
    if m.state != 1 {
        die("double-free size align", l.size(), l.align());
    }
    let (page, start) = body(slot, m);
    if start != ptr {
        die("free of interior pointer", ptr as usize, start as usize);
    }
    if m.size as usize != l.size() || m.align as usize != l.align() {
        die("dealloc layout differs from alloc layout: allocated/freed size", m.size as usize, l.size());
    }
    let pre = (start as usize - page as usize).min(256);
    if !check_fill(start.sub(pre), start, P_NEW) {
        die("write before block size align", l.size(), l.align());
    }
    let endp = page.add(PAGE);
    if !check_fill(start.add(m.size as usize), endp, P_NEW) {
        die("write behind block size align", l.size(), l.align());
    }
    std::ptr::write_bytes(start, P_FREE, endp as usize - start as usize);
    m.state = 2;
    m.next = NIL;
    let id = POOL.with(|p| p.get());
    {
        let mut p = POOLS[id];
        if p.len == 0 {
            p.head = slot;
        } else {
            (*META.add(p.tail as usize)).next = slot;
        }
        p.tail = slot;
        p.len += 1;
        POOLS[id] = p;
    }
}

fn in_arena(p: *mut u8) -> bool {
    let b = BASE.load(Relaxed);
    b != 0 && (p as usize) >= b && (p as usize) < b + SLOTS * SLOT + PAGE
}

unsafe impl GlobalAlloc for Alloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = CNT.try_with(|c| {
            let mut v = c.get();
            v.allocs += 1;
            v.blocks += 1;
            v.live += l.size() as i64;
            c.set(v);
        });
        if l.size() > LIMIT.try_with(|x| x.get()).unwrap_or(usize::MAX) {
            die("allocation request far beyond what the operation can need", l.size(), l.align());
        }
        if FENCE.try_with(|f| f.get()).unwrap_or(false) && l.size() <= PAGE - 256 && l.align() <= 64 && l.size() > 0 {
            return fence_alloc(l)
        }
        let p = System.alloc(l);
        let r = REC.try_with(|r| r.get()).unwrap_or(std::ptr::null_mut());
        if !r.is_null() {
            rec_new(r, p, l.size());
        }
        p
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = CNT.try_with(|c| {
            let mut v = c.get();
            v.frees += 1;
            v.blocks -= 1;
            v.live -= l.size() as i64;
            c.set(v);
        });
        if in_arena(p) {
            fence_free(p, l)
        } else {
            let r = REC.try_with(|r| r.get()).unwrap_or(std::ptr::null_mut());
            if !r.is_null() {
                rec_free(r, p);
            }
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // always move: exposes stale pointers and keeps the accounting simple
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

#[global_allocator]
static A: Alloc = Alloc;
