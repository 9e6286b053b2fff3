mod alloc;
mod engine;
mod model;
mod obs;
mod ops;
mod props;
mod spaces;

use engine::*;
use std::sync::atomic::*;
use std::sync::Mutex;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let mut replay = None;
    let mut nosup = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = args[i + 1].clone();
                i += 1
            }
            "--replay" => {
                replay = Some(args[i + 1].clone());
                i += 1
            }
            "--nosup" => nosup = true,
            "--model" => return model_dump(),
            x => prop = x.to_string(),
        }
        i += 1;
    }
    install_panic_hook();
    alloc::init_fence();
    let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 16);
    let env = Env {
        prop: prop.clone(),
        thorough: tier == "thorough",
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        ops: ops::table(),
        shm: shm_new(),
        t0: std::time::Instant::now(),
        viol: Mutex::new(vec![]),
        nviol: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        samples: Mutex::new(vec![]),
        spaces: Mutex::new(vec![]),
        extra: Mutex::new(Default::default()),
        assumptions: Mutex::new(vec![]),
        check_alloc: AtomicBool::new(false),
        fence: AtomicBool::new(false),
        nthreads: nt,
    };
    let code = if let Some(r) = replay {
        props::replay(&env, &r)
    } else if nosup {
        props::run(&env)
    } else {
        supervise(&env, props::run)
    };
    std::process::exit(code);
}

/// Prints what the model says, for tools/crosscheck.py to compare with Python.
fn model_dump() {
    use model::Bv;
    use std::io::Write;
    let mut o = std::io::BufWriter::new(std::io::stdout().lock());
    let h = |v: &Bv| v.hex();
    for w in (1..=5).chain([31, 63, 64, 65, 127, 128, 129, 192, 193, 256, 320, 511, 1024]) {
        let vs = if w <= 5 { spaces::all(w) } else { spaces::thin(spaces::edges(w), 40) };
        for a in &vs {
            writeln!(o, "u {} {} {} {} {} {} {} {} {}", w, h(a), h(&a.neg()), h(&a.not()), h(&a.abs()), a.count_ones(), a.bitlen(), a.trailing_zeros(), a.msb()).unwrap();
            for r in [2u32, 3, 7, 8, 10, 16, 29, 36] {
                writeln!(o, "r {} {} {} {}", w, h(a), r, a.radix_string(r, false)).unwrap();
            }
            for s in spaces::positions(w) {
                writeln!(o, "s {} {} {} {} {} {}", w, h(a), s, h(&a.shl(s)), h(&a.lshr(s)), h(&a.ashr(s))).unwrap();
            }
            for t in [1usize, 2, 63, 64, 65, 128, 129, 300] {
                writeln!(o, "w {} {} {} {} {}", w, h(a), t, h(&a.zresize(t)), h(&a.sresize(t))).unwrap();
            }
            for b in &vs {
                let z = b.is_zero();
                let (q, r) = if z { (b.clone(), b.clone()) } else { a.udivrem(b) };
                let (sq, sr) = if z { (b.clone(), b.clone()) } else { a.sdivrem(b) };
                writeln!(o, "b {} {} {} {} {} {} {} {} {} {} {} {:?} {:?}", w, h(a), h(b), h(&a.add(b)), h(&a.sub(b)), h(&a.mul(b)), h(&q), h(&r), h(&sq), h(&sr), h(&a.xor(b)), a.ucmp(b), a.scmp(b)).unwrap();
            }
        }
    }
}
