//! C12: histories of operations on the same objects.
use crate::engine::*;
use crate::model::Bv;
use crate::obs;
use crate::ops::{G, K};
use crate::spaces::*;
use apint::{ApInt, BitWidth};
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

/// Everything a user can see of an object, against a fresh object of that value.
fn indistinct(a: &ApInt, v: &Bv, fresh: &ApInt) -> Option<String> {
    if let Some(m) = obs::mismatch(a, v) {
        return Some(m)
    }
    if !(a == fresh) || !(fresh == a) || a != fresh {
        return Some("not equal to a fresh object of the same value and width".into())
    }
    if h(a) != h(fresh) {
        return Some("hash differs from a fresh object of the same value and width".into())
    }
    None
}

struct Act {
    op: usize,
    b: usize, // index into operands
    p: usize,
}

/// Complete reachable state space of objects of small widths: from zero, by
/// every operation with every operand, to a fixpoint.
fn fixpoint(env: &Env, maxw: usize) {
    let ops = env.pick(|_| true);
    let mut seen: HashSet<Bv> = HashSet::new();
    let mut frontier: Vec<(ApInt, Bv)> = Vec::new();
    for w in 1..=maxw {
        let z = Bv::zero(w);
        seen.insert(z.clone());
        frontier.push((ApInt::zero(BitWidth::new(w).unwrap()), z));
    }
    let fresh: HashMap<Bv, Val> = (1..=maxw).flat_map(|w| all(w)).map(|b| (b.clone(), Val::new(b))).collect();
    let operands: Vec<&Val> = fresh.values().collect();
    let mut depth = 0;
    let (mut states, mut trans) = (0u64, 0u64);
    while !frontier.is_empty() && !env.stop.load(std::sync::atomic::Ordering::Relaxed) {
        depth += 1;
        let found: Mutex<Vec<(ApInt, Bv)>> = Mutex::new(Vec::new());
        let count = std::sync::atomic::AtomicU64::new(0);
        env.par(frontier.len(), |t, i| {
            let (obj, v) = &frontier[i];
            t.states += 1;
            let mut ok = true;
            let mut local: HashMap<Bv, ApInt> = HashMap::new();
            let mut go = |t: &mut Thr, oi: usize, b: &Val, p: usize| {
                let op = &env.ops[oi];
                t.record(oi, v, &b.bv, p);
                t.trans += 1;
                count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let r = step(op, obj.clone(), v, b.ap.clone(), &b.bv, p);
                t.idle();
                match r {
                    Err(m) => {
                        ok = false;
                        env.report(Viol { key: format!("reached object: {}", case_key(op, v, &b.bv, p)), detail: m, op: Some(op.name.into()), a: Some(format!("{:?}", v)), b: Some(format!("{:?}", b.bv)), p: Some(p) });
                    }
                    Ok((x, y)) => {
                        for (o, e) in x.into_iter().chain(Some(y)) {
                            if !seen.contains(&e) && !local.contains_key(&e) {
                                local.insert(e, o);
                            }
                        }
                    }
                }
            };
            for &oi in &ops {
                match env.ops[oi].k {
                    K::A => go(t, oi, operands[0], 0),
                    K::AB => {
                        for b in &operands {
                            // operands of other widths are refused: a few are enough
                            if b.bv.w == v.w || b.bv.d[0] <= 1 || env.ops[oi].g == G::Copy {
                                go(t, oi, b, 0)
                            }
                        }
                    }
                    K::AS | K::AP => {
                        for p in 0..=v.w + 1 {
                            go(t, oi, operands[0], p)
                        }
                    }
                    K::AW => {
                        for p in 1..=maxw {
                            go(t, oi, operands[0], p)
                        }
                    }
                }
            }
            if let Some(m) = fresh.get(v).and_then(|f| indistinct(obj, v, &f.ap)) {
                ok = false;
                env.fail(format!("reached object {:?} at depth {}", v, depth), m);
            }
            if ok {
                t.traces += 1;
            }
            found.lock().unwrap().extend(local.into_iter().map(|(e, o)| (o, e)));
        });
        states += frontier.len() as u64;
        trans += count.into_inner();
        let mut next = Vec::new();
        for (o, e) in found.into_inner().unwrap() {
            if seen.insert(e.clone()) {
                next.push((o, e));
            }
        }
        frontier = next;
    }
    env.space(format!("reachable states of objects of widths 1..={} under the whole interface: fixpoint after {} rounds, {} transitions", maxw, depth, trans), states);
    if states as usize != fresh.len() && env.nviol.load(std::sync::atomic::Ordering::Relaxed) == 0 {
        env.fail("reachable states", format!("{} states reached, {} values exist", states, fresh.len()));
    }
    env.note("fixpoint_states", states.to_string());
    env.note("fixpoint_rounds", depth.to_string());
}

/// Two objects that act on each other, to a fixpoint.
fn fixpoint2(env: &Env, w: usize) {
    let ops = env.pick(|o| o.k == K::AB || (o.k == K::A && !o.query && !o.derived));
    type S = ((ApInt, Bv), (ApInt, Bv));
    let mut seen: HashSet<(Bv, Bv)> = HashSet::new();
    let z = Bv::zero(w);
    let z2 = Bv::zero(w);
    seen.insert((z.clone(), z2.clone()));
    let bw = BitWidth::new(w).unwrap();
    let mut frontier: Vec<S> = vec![((ApInt::zero(bw), z), (ApInt::zero(bw), z2))];
    let mut depth = 0;
    let mut states = 0u64;
    while !frontier.is_empty() && !env.stop.load(std::sync::atomic::Ordering::Relaxed) {
        depth += 1;
        let found: Mutex<Vec<S>> = Mutex::new(Vec::new());
        env.par(frontier.len(), |t, i| {
            let s = &frontier[i];
            t.states += 1;
            let mut ok = true;
            for &oi in &ops {
                let op = &env.ops[oi];
                for flip in [false, true] {
                    let ((a, av), (b, bv)) = if flip { (&s.1, &s.0) } else { (&s.0, &s.1) };
                    t.record(oi, av, bv, 0);
                    t.trans += 1;
                    let r = step(op, a.clone(), av, b.clone(), bv, 0);
                    t.idle();
                    match r {
                        Err(m) => {
                            ok = false;
                            env.report(Viol { key: format!("pair of reached objects: {}", case_key(op, av, bv, 0)), detail: m, op: Some(op.name.into()), a: Some(format!("{:?}", av)), b: Some(format!("{:?}", bv)), p: Some(0) });
                        }
                        Ok((Some(x), y)) => {
                            let k = if flip { (y.1.clone(), x.1.clone()) } else { (x.1.clone(), y.1.clone()) };
                            if !seen.contains(&k) {
                                found.lock().unwrap().push(if flip { (y, x) } else { (x, y) });
                            }
                        }
                        _ => {}
                    }
                }
            }
            if ok {
                t.traces += 1;
            }
        });
        states += frontier.len() as u64;
        let mut next = Vec::new();
        for s in found.into_inner().unwrap() {
            if seen.insert((s.0 .1.clone(), s.1 .1.clone())) {
                next.push(s);
            }
        }
        frontier = next;
    }
    env.space(format!("two objects of width {} acting on each other: fixpoint after {} rounds", w, depth), states);
}

/// All sequences up to a depth on one object, without intermediate copies of
/// the object in the last two steps.
fn sequences(env: &Env, name: &str, w: usize, ops: &[usize], depth: usize, inits: &[Bv], casts: &[usize]) {
    // operands per width an object can have on the way
    let mut widths: Vec<usize> = casts.to_vec();
    widths.push(w);
    widths.sort();
    widths.dedup();
    let opnds: HashMap<usize, Vec<Val>> = widths
        .iter()
        .map(|&w| {
            let n = (w + 63) / 64;
            let pat: Vec<u64> = (0..n as u64).map(|i| 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(i + 1) | 1).collect();
            let l = dedup(vec![Bv::one(w), Bv::ones(w), Bv::from_digits(w, &pat), run(w, 0, (w + 1) / 2)]);
            (w, vals(l))
        })
        .collect();
    let acts: HashMap<usize, Vec<Act>> = widths
        .iter()
        .map(|&w| {
            let mut v = Vec::new();
            for &op in ops {
                let nb = opnds[&w].len();
                match env.ops[op].k {
                    K::A => v.push(Act { op, b: 0, p: 0 }),
                    K::AB => (0..nb).for_each(|b| v.push(Act { op, b, p: 0 })),
                    K::AS => {
                        let mut l = vec![0, 1, 63, 64, w / 2, w - 1];
                        l.retain(|x| *x < w);
                        l.sort();
                        l.dedup();
                        l.into_iter().for_each(|p| v.push(Act { op, b: 0, p }))
                    }
                    K::AP => {
                        let mut l = vec![0, w / 2, w - 1];
                        l.dedup();
                        l.into_iter().for_each(|p| v.push(Act { op, b: 0, p }))
                    }
                    K::AW => casts.iter().for_each(|&p| v.push(Act { op, b: 0, p })),
                }
            }
            (w, v)
        })
        .collect();
    let first = &acts[&w];
    let jobs = inits.len() * first.len();
    let n0 = acts.values().map(|v| v.len()).max().unwrap();
    env.space(format!("{}: histories of {} operations, width {}, {} starting values, up to {} actions per step", name, depth, w, inits.len(), n0), jobs as u64);
    env.sample(format!("{}: width {}, {} then any {} further actions, from {:?}", name, w, env.ops[first[0].op].name, depth - 1, inits[0]));

    fn walk(t: &mut Thr, obj: ApInt, v: &Bv, left: usize, acts: &HashMap<usize, Vec<Act>>, opnds: &HashMap<usize, Vec<Val>>, path: &mut Vec<String>, root: &Bv, depth: usize) {
        if left == 0 || t.stopped() {
            return
        }
        let env = t.env;
        let list = &acts[&v.w];
        let last = list.len() - 1;
        let mut obj = Some(obj);
        for (i, act) in list.iter().enumerate() {
            // the last action works on the object itself, the others on copies
            let o = if i == last { obj.take().unwrap() } else { obj.as_ref().unwrap().clone() };
            let op = &env.ops[act.op];
            let b = &opnds[&v.w][act.b];
            t.record(act.op, v, &b.bv, act.p);
            t.trans += 1;
            let r = step(op, o, v, b.ap.clone(), &b.bv, act.p);
            t.idle();
            match r {
                Err(m) => {
                    path.push(case_key(op, v, &b.bv, act.p));
                    env.report(Viol { key: format!("history from {:?}: {}", root, path.join(" ; ")), detail: m, op: Some(op.name.into()), a: Some(format!("{:?}", v)), b: Some(format!("{:?}", b.bv)), p: Some(act.p) });
                    path.pop();
                }
                Ok((Some((x, e)), _)) => {
                    if left == 1 {
                        t.traces += 1;
                    } else {
                        path.push(case_key(op, v, &b.bv, act.p));
                        walk(t, x, &e, left - 1, acts, opnds, path, root, depth);
                        path.pop();
                    }
                }
                Ok((None, _)) => {}
            }
        }
    }
    env.par(jobs, |t, j| {
        let init = &inits[j / first.len()];
        let act = &first[j % first.len()];
        let op = &env.ops[act.op];
        let b = &opnds[&w][act.b];
        t.states += 1;
        t.record(act.op, init, &b.bv, act.p);
        t.trans += 1;
        let r = step(op, obs::build(init), init, b.ap.clone(), &b.bv, act.p);
        t.idle();
        match r {
            Err(m) => env.report(Viol { key: format!("history: {}", case_key(op, init, &b.bv, act.p)), detail: m, op: Some(op.name.into()), a: Some(format!("{:?}", init)), b: Some(format!("{:?}", b.bv)), p: Some(act.p) }),
            Ok((Some((x, e)), _)) => {
                let f = obs::build(&e);
                if let Some(m) = indistinct(&x, &e, &f) {
                    env.fail(format!("history: {}", case_key(op, init, &b.bv, act.p)), m);
                }
                let mut path = vec![case_key(op, init, &b.bv, act.p)];
                walk(t, x, &e, depth - 1, &acts, &opnds, &mut path, init, depth);
            }
            _ => {}
        }
    });
}

/// Long histories: one operation repeated many times (cycles of the state
/// space), the object never copied.
pub fn cycles(env: &Env) {
    let ops = env.pick(|o| !o.query && matches!(o.k, K::A | K::AB | K::AS) && !matches!(o.g, G::Fmt));
    let ws = [1usize, 2, 3, 7, 8, 31, 32, 63, 64, 65, 127, 128, 129, 192, 193, 256];
    let n = if env.thorough { 2000 } else { 300 };
    env.space(format!("{} operations repeated {} times on the same object, {} widths", ops.len(), n, ws.len()), (ops.len() * ws.len()) as u64);
    env.par(ops.len() * ws.len(), |t, i| {
        let w = ws[i % ws.len()];
        let oi = ops[i / ws.len()];
        let op = &env.ops[oi];
        for (b, p) in [(Bv::one(w), 0), (Bv::ones(w), 1.min(w - 1)), (tiny(w).pop().unwrap(), w / 2)] {
            if b.is_zero() {
                continue
            }
            t.states += 1;
            let b = Val::new(b);
            let mut v = tiny(w).pop().unwrap();
            let mut obj = obs::build(&v);
            let mut ok = true;
            for k in 0..n {
                t.record(oi, &v, &b.bv, p);
                t.trans += 1;
                let r = step(op, obj, &v, b.ap.clone(), &b.bv, p);
                t.idle();
                match r {
                    Ok((Some((o, e)), _)) => {
                        obj = o;
                        v = e;
                    }
                    Ok((None, _)) => {
                        ok = false;
                        break
                    }
                    Err(m) => {
                        ok = false;
                        env.report(Viol { key: format!("repetition {}: {}", k, case_key(op, &v, &b.bv, p)), detail: m, op: Some(op.name.into()), a: Some(format!("{:?}", v)), b: Some(format!("{:?}", b.bv)), p: Some(p) });
                        break
                    }
                }
            }
            if ok {
                t.traces += 1;
            }
        }
    });
}

pub fn histories(env: &Env) {
    let th = env.thorough;
    fixpoint(env, if th { 8 } else { 6 });
    for w in 1..=(if th { 6 } else { 4 }) {
        fixpoint2(env, w);
    }
    cycles(env);
    let mutp: Vec<usize> = env.pick(|o| !o.query && !o.derived && !o.name.contains("remdiv") && !matches!(o.g, G::Fmt));
    let mutall: Vec<usize> = env.pick(|o| !o.query && !matches!(o.g, G::Fmt));
    let starts = |w: usize| {
        let n = (w + 63) / 64;
        let pat: Vec<u64> = (0..n as u64).map(|i| 0xc2b2_ae3d_27d4_eb4fu64.wrapping_mul(i + 1)).collect();
        dedup(vec![Bv::zero(w), Bv::ones(w), pow2(w, w - 1), Bv::from_digits(w, &pat)])
    };
    for w in [1usize, 2, 7, 8, 33, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 256, 257, 320] {
        let mut casts = vec![1, 8, 63, 64, 65, 128, 129, w, w + 1, w + 64];
        if w > 1 {
            casts.push(w - 1);
        }
        casts.sort();
        casts.dedup();
        sequences(env, "every form", w, &mutall, 2, &tiny(w)[..tiny(w).len().min(if th { 40 } else { 12 })], &casts);
        let few: Vec<usize> = casts.iter().copied().filter(|c| [1, 64, 65, 128, 129, w].contains(c)).collect();
        if th || [1, 8, 63, 64, 65, 128, 129, 192].contains(&w) {
            sequences(env, "primary forms", w, &mutp, 3, &starts(w), if th { &casts } else { &few });
        }
    }
    for w in [384usize, 512, 513, 640, 1024, 1087, 2048] {
        let casts = vec![64, 65, 512, 513, 1024, 2048, w - 1, w, w + 1];
        sequences(env, "every form, many digits", w, &mutall, 2, &starts(w)[..if th { 4 } else { 2 }], &{ let mut c = casts; c.sort(); c.dedup(); c });
    }
    if th {
        let narrow: Vec<usize> = mutp.iter().copied().filter(|i| {
            let n = env.ops[*i].name;
            ["wrapping_add_assign", "wrapping_sub_assign", "wrapping_mul_assign", "wrapping_neg", "bitnot", "wrapping_shl_assign", "wrapping_lshr_assign", "wrapping_ashr_assign", "wrapping_udiv_assign", "wrapping_srem_assign", "set_all", "set_bit_at", "truncate", "zero_resize", "sign_resize", "::assign", "wrapping_inc"].iter().any(|s| n.ends_with(s))
        }).collect();
        for w in [1usize, 8, 63, 64, 65, 128, 129] {
            sequences(env, "narrow alphabet", w, &narrow, 4, &starts(w)[..2.min(starts(w).len())], &[1, 64, 65, 129, w]);
        }
    }
}
