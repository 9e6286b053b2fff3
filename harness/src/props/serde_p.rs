//! C18: stored forms, in a self-describing text format (serde_json) and in a
//! compact binary format (bincode), including torn and damaged inputs.
use crate::engine::*;
use crate::model::{nd, Bv};
use crate::obs;
use crate::spaces::*;
use apint::{ApInt, BitWidth};

fn json(v: &Bv) -> String {
    let d: Vec<String> = v.d.iter().map(|x| x.to_string()).collect();
    format!("{{\"width\":[{}],\"digits\":[{}]}}", v.w, d.join(","))
}
fn bytes(v: &Bv) -> Vec<u8> {
    let mut b = (v.w as u64).to_le_bytes().to_vec();
    b.extend((v.d.len() as u64).to_le_bytes());
    for x in &v.d {
        b.extend(x.to_le_bytes());
    }
    b
}

/// What a compact buffer means: None when it must be refused.
fn meaning(b: &[u8]) -> Option<Bv> {
    let u = |i: usize| b.get(i..i + 8).map(|s| u64::from_le_bytes(s.try_into().unwrap()));
    let w = u(0)?;
    let n = u(8)?;
    if w == 0 || w > 1 << 20 || n != (w + 63) / 64 {
        return None
    }
    let mut d = Vec::new();
    for i in 0..n as usize {
        d.push(u(16 + 8 * i)?);
    }
    Some(Bv::from_digits(w as usize, &d))
}

fn dirty(w: usize, d: &[u64]) -> bool {
    w % 64 != 0 && d.last().map(|x| x >> (w % 64) != 0).unwrap_or(false)
}

pub fn finish(t: &mut Thr, key: String, r: Option<Option<String>>) {
    match r {
        Some(None) => t.traces += 1,
        Some(Some(m)) => t.fail(key, m),
        None => {}
    }
}

fn round(t: &mut Thr, v: &Bv, torn: bool) {
    t.states += 1;
    let key = format!("store and load {:?}", v);
    let r = t.guarded(&key, || {
        let a = obs::build(v);
        let s = match serde_json::to_string(&a) {
            Ok(s) => s,
            Err(e) => return Some(format!("text form: {}", e)),
        };
        if s != json(v) {
            return Some(format!("text form {} instead of {}", s, json(v)))
        }
        match serde_json::from_str::<ApInt>(&s) {
            Ok(b) => {
                if let Some(m) = obs::mismatch(&b, v) {
                    return Some(format!("text form read back: {}", m))
                }
            }
            Err(e) => return Some(format!("text form {} refused: {}", s, e)),
        }
        let val = serde_json::to_value(&a).ok()?;
        match serde_json::from_value::<ApInt>(val) {
            Ok(b) => {
                if let Some(m) = obs::mismatch(&b, v) {
                    return Some(format!("value tree read back: {}", m))
                }
            }
            Err(e) => return Some(format!("value tree refused: {}", e)),
        }
        let b = match bincode::serialize(&a) {
            Ok(b) => b,
            Err(e) => return Some(format!("compact form: {}", e)),
        };
        if b != bytes(v) {
            return Some(format!("compact form {:02x?} instead of {:02x?}", b, bytes(v)))
        }
        match bincode::deserialize::<ApInt>(&b) {
            Ok(x) => {
                if let Some(m) = obs::mismatch(&x, v) {
                    return Some(format!("compact form read back: {}", m))
                }
            }
            Err(e) => return Some(format!("compact form refused: {}", e)),
        }
        if let Some(m) = obs::mismatch(&a, v) {
            return Some(format!("storing changed the value: {}", m))
        }
        if torn {
            // every torn write
            for k in 0..s.len() {
                if let Ok(x) = serde_json::from_str::<ApInt>(&s[..k]) {
                    return Some(format!("torn text form {:?} accepted as {:?}", &s[..k], obs::bits(&x)))
                }
            }
            for k in 0..b.len() {
                if let Ok(x) = bincode::deserialize::<ApInt>(&b[..k]) {
                    return Some(format!("torn compact form {:02x?} accepted as {:?}", &b[..k], obs::bits(&x)))
                }
            }
        }
        None
    });
    finish(t, key, r);
}

/// A compact buffer that may be damaged.
pub fn damaged(t: &mut Thr, b: &[u8]) {
    t.states += 1;
    let key = format!("load compact form {}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
    let fence = t.env.fence.load(std::sync::atomic::Ordering::Relaxed);
    let r = t.guarded(&key, || {
        crate::alloc::set_limit(1 << 26);
        let _f = if fence { Some(crate::alloc::Fence::on()) } else { None };
        let r = bincode::deserialize::<ApInt>(b);
        crate::alloc::set_limit(usize::MAX);
        match (meaning(b), r) {
            (Some(v), Ok(a)) => obs::mismatch(&a, &v),
            (None, Err(_)) => None,
            (None, Ok(a)) => Some(format!("accepted as {:?}", obs::bits(&a))),
            (Some(v), Err(e)) => {
                let n = v.d.len();
                let d: Vec<u64> = (0..n).map(|i| u64::from_le_bytes(b[16 + 8 * i..24 + 8 * i].try_into().unwrap())).collect();
                // bits above the width: may also be refused
                if dirty(v.w, &d) { None } else { Some(format!("refused although it means {:?}: {}", v, e)) }
            }
        }
    });
    crate::alloc::set_limit(usize::MAX);
    finish(t, key, r);
}

pub enum Doc {
    Good(Bv),
    /// excess bits: reduced value or refusal
    Either(Bv),
    Bad,
    /// no claim beyond answering
    Any,
}

pub fn docs() -> Vec<(String, Doc)> {
    let mut v = Vec::new();
    let widths: [u64; 16] = [0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 1 << 32, 1 << 38, 1 << 63, u64::MAX];
    let dg: [u64; 5] = [0, 1, 1 << 63, u64::MAX, 0x0123_4567_89ab_cdef];
    for w in widths {
        for n in 0..=4usize {
            for k in 0..dg.len().pow(n.min(3) as u32) {
                let mut kk = k;
                let d: Vec<u64> = (0..n)
                    .map(|_| {
                        let x = dg[kk % 5];
                        kk /= 5;
                        x
                    })
                    .collect();
                let ds: Vec<String> = d.iter().map(|x| x.to_string()).collect();
                let ok = w > 0 && w < 1 << 20 && nd(w as usize) == n;
                let mk = || {
                    if !ok {
                        Doc::Bad
                    } else if dirty(w as usize, &d) {
                        Doc::Either(Bv::from_digits(w as usize, &d))
                    } else {
                        Doc::Good(Bv::from_digits(w as usize, &d))
                    }
                };
                v.push((format!("{{\"width\":[{}],\"digits\":[{}]}}", w, ds.join(",")), mk()));
                v.push((format!("{{\"digits\":[{}],\"width\":[{}]}}", ds.join(","), w), mk()));
            }
        }
    }
    for s in [
        "", "null", "true", "0", "1", "-1", "1.5", "\"1\"", "[]", "{}", "[[]]", "[1]", "[[1]]", "[1,[1]]", "[[1],[1]]", "[[64],[1]]", "[64,[1]]", "[[64],[1],[1]]",
        "{\"width\":[64]}", "{\"digits\":[1]}", "{\"width\":[64],\"width\":[64],\"digits\":[1]}", "{\"width\":[64],\"digits\":[1],\"digits\":[1]}",
        "{\"width\":[64],\"digits\":[1],\"width\":[8]}", "{\"digits\":[1],\"digits\":[2],\"width\":[64]}",
        "{\"width\":[64],\"digits\":[1],\"extra\":0}", "{\"extra\":0,\"width\":[64],\"digits\":[1]}", "{\"Width\":[64],\"digits\":[1]}", "{\"\":[64],\"digits\":[1]}",
        "{\"width\":[],\"digits\":[1]}", "{\"width\":null,\"digits\":[1]}", "{\"width\":\"64\",\"digits\":[1]}", "{\"width\":[\"64\"],\"digits\":[1]}",
        "{\"width\":[-1],\"digits\":[1]}", "{\"width\":[1.5],\"digits\":[1]}", "{\"width\":[18446744073709551616],\"digits\":[1]}", "{\"width\":[null],\"digits\":[1]}",
        "{\"width\":[64],\"digits\":null}", "{\"width\":[64],\"digits\":1}", "{\"width\":[64],\"digits\":\"1\"}", "{\"width\":[64],\"digits\":{}}",
        "{\"width\":[64],\"digits\":[-1]}", "{\"width\":[64],\"digits\":[1.5]}", "{\"width\":[64],\"digits\":[18446744073709551616]}", "{\"width\":[64],\"digits\":[null]}",
        "{\"width\":[64],\"digits\":[\"1\"]}", "{\"width\":[64],\"digits\":[[1]]}", "{\"width\":[64],\"digits\":[]}", "{\"width\":[0],\"digits\":[]}", "{\"width\":[0],\"digits\":[0]}",
    ] {
        v.push((s.to_string(), Doc::Bad));
    }
    for s in ["{\"width\":64,\"digits\":[1]}", "{\"width\":[64,64],\"digits\":[1]}"] {
        v.push((s.to_string(), Doc::Any));
    }
    v
}

pub fn doc_case(t: &mut Thr, s: &str, d: &Doc) {
    t.states += 1;
    let key = format!("load text form {}", s);
    let fence = t.env.fence.load(std::sync::atomic::Ordering::Relaxed);
    let r = t.guarded(&key, || {
        crate::alloc::set_limit(1 << 26);
        let _f = if fence { Some(crate::alloc::Fence::on()) } else { None };
        let r = serde_json::from_str::<ApInt>(s);
        crate::alloc::set_limit(usize::MAX);
        match (d, r) {
            (Doc::Good(v), Ok(a)) | (Doc::Either(v), Ok(a)) => obs::mismatch(&a, v),
            (Doc::Good(v), Err(e)) => Some(format!("refused although it means {:?}: {}", v, e)),
            (Doc::Bad, Ok(a)) => Some(format!("accepted as {:?}", obs::bits(&a))),
            _ => None,
        }
    });
    crate::alloc::set_limit(usize::MAX);
    finish(t, key, r);
}

/// What a text means according to an independent reading of the syntax.
fn text_meaning(s: &str) -> Doc {
    let Ok(serde_json::Value::Object(m)) = serde_json::from_str::<serde_json::Value>(s) else { return Doc::Bad };
    // (a repeated name is merged by this reading)
    if s.matches("\"width\"").count() > 1 || s.matches("\"digits\"").count() > 1 || s.contains('\\') {
        return Doc::Any
    }
    if m.len() != 2 {
        return Doc::Bad
    }
    let (Some(w), Some(d)) = (m.get("width"), m.get("digits")) else { return Doc::Bad };
    let serde_json::Value::Array(d) = d else { return Doc::Bad };
    let w = match w {
        serde_json::Value::Array(a) if a.len() == 1 => a[0].as_u64(),
        serde_json::Value::Array(a) if a.len() > 1 => return Doc::Any,
        serde_json::Value::Number(_) => return Doc::Any,
        _ => return Doc::Bad,
    };
    let Some(w) = w else { return Doc::Bad };
    let Some(d) = d.iter().map(|x| x.as_u64()).collect::<Option<Vec<u64>>>() else { return Doc::Bad };
    if w == 0 || (w - 1) / 64 + 1 != d.len() as u64 {
        return Doc::Bad
    }
    let v = Bv::from_digits(w as usize, &d);
    if dirty(w as usize, &d) { Doc::Either(v) } else { Doc::Good(v) }
}
fn text_damage(t: &mut Thr, s: &str) {
    doc_case(t, s, &text_meaning(s))
}

/// compact buffers: every combination of width, length and digits
fn frames() -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let widths: [u64; 17] = [0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 1 << 32, 1 << 38, 1 << 63, u64::MAX];
    let lens: [u64; 13] = [0, 1, 2, 3, 4, 5, 1 << 16, 1 << 20, 1 << 32, 1 << 58, 1 << 61, 1 << 63, u64::MAX];
    let dg: [u64; 4] = [0, 1, 1 << 63, u64::MAX];
    for w in widths {
        for l in lens {
            for n in 0..=5usize {
                for k in 0..4usize.pow(n.min(3) as u32) {
                    let mut b = w.to_le_bytes().to_vec();
                    b.extend(l.to_le_bytes());
                    let mut kk = k;
                    for _ in 0..n {
                        b.extend(dg[kk % 4].to_le_bytes());
                        kk /= 4;
                    }
                    v.push(b);
                }
            }
        }
    }
    v
}

pub fn error_cases(env: &Env) {
    let d = docs();
    env.space("text documents, well-formed and not", d.len() as u64);
    env.par(d.len(), |t, i| doc_case(t, &d[i].0, &d[i].1));
    let f = frames();
    env.space("compact buffers, well-formed and not", f.len() as u64);
    env.par(f.len(), |t, i| damaged(t, &f[i]));
}

pub fn serde(env: &Env) {
    let th = env.thorough;
    error_cases(env);
    super::tokens::tokens(env);
    for w in 1..=(if th { 15 } else { 12 }) {
        let v = all(w);
        env.space(format!("all values, width {}, and every torn write", w), v.len() as u64);
        env.par(v.len(), |t, i| round(t, &v[i], true));
    }
    for w in 1..=(if th { 1500 } else { 700 }) {
        let v = if w <= 330 || th { edges(w) } else { tiny(w) };
        env.space(format!("boundary values, width {}", w), v.len() as u64);
        env.par(v.len(), |t, i| round(t, &v[i], i < 3));
    }
    for (w, al) in [(128usize, A20), (192, A20), (256, A13), (320, A7), (384, A5), (512, A3)] {
        let v = digits(w, al);
        env.space(format!("digit alphabet, width {}", w), v.len() as u64);
        env.par(v.len(), |t, i| round(t, &v[i], false));
    }
    for w in [1023usize, 1024, 1025, 2048, 4097] {
        let v = tiny(w);
        env.space(format!("boundary values, width {}", w), v.len() as u64);
        env.par(v.len(), |t, i| round(t, &v[i], false));
    }
    for w in ladder(9, if th { 300 } else { 140 }) {
        let v = dense(w);
        env.space(format!("digits that all differ, width {}", w), v.len() as u64);
        env.par(v.len(), |t, i| round(t, &v[i], false));
    }
    for &w in GIANT {
        let v = giant(w);
        env.space(format!("beyond 16-bit widths, width {}", w), v.len() as u64);
        env.par(v.len(), |t, i| round(t, &v[i], false));
    }
    // every single-byte damage of stored values
    let mut l = Vec::new();
    for w in [1usize, 7, 63, 64, 65, 100, 128, 129, 192, 256] {
        for v in [Bv::zero(w), Bv::ones(w), pow2(w, w - 1), tiny(w).pop().unwrap()] {
            l.push(bytes(&v));
        }
    }
    env.space("every one-byte damage (position x 256 values) and every one-byte deletion or insertion of stored compact forms", l.iter().map(|b| b.len() as u64 * 258).sum());
    env.par(l.len(), |t, i| {
        for p in 0..l[i].len() {
            for x in 0..=255u8 {
                let mut b = l[i].clone();
                b[p] = x;
                damaged(t, &b);
            }
            let mut b = l[i].clone();
            b.remove(p);
            damaged(t, &b);
            let mut b = l[i].clone();
            b.insert(p, 0);
            damaged(t, &b);
        }
    });
    // every one-character damage of stored text
    let mut l = Vec::new();
    for w in [1usize, 8, 63, 64, 65, 100, 128, 129, 192, 320] {
        for v in [Bv::zero(w), Bv::one(w), Bv::ones(w), pow2(w, w - 1), tiny(w).pop().unwrap()] {
            l.push(json(&v));
        }
    }
    let chars: Vec<char> = (' '..='~').chain(['\n', '\t', '\0', '\u{e9}', '\u{ff11}']).collect();
    env.space("every one-character replacement, insertion or deletion in stored text forms", l.iter().map(|s| (s.len() * (2 * chars.len() + 1)) as u64).sum());
    env.par(l.len(), |t, i| {
        let s = &l[i];
        for p in 0..=s.len() {
            if p < s.len() {
                text_damage(t, &format!("{}{}", &s[..p], &s[p + 1..]));
            }
            for c in &chars {
                if p < s.len() {
                    text_damage(t, &format!("{}{}{}", &s[..p], c, &s[p + 1..]));
                }
                text_damage(t, &format!("{}{}{}", &s[..p], c, &s[p..]));
            }
            // two neighbours swapped, a stretch repeated
            if p + 1 < s.len() {
                text_damage(t, &format!("{}{}{}{}", &s[..p], &s[p + 1..p + 2], &s[p..p + 1], &s[p + 2..]));
            }
            for q in p + 1..=s.len().min(p + 12) {
                text_damage(t, &format!("{}{}", &s[..q], &s[p..]));
            }
        }
    });
    // widths on their own
    env.space("widths stored on their own", 4100);
    env.par(4100, |t, w| {
        if w == 0 {
            return
        }
        t.states += 1;
        let key = format!("store and load width {}", w);
        let r = t.guarded(&key, || {
            let b = BitWidth::new(w).unwrap();
            let s = serde_json::to_string(&b).unwrap();
            let c = bincode::serialize(&b).unwrap();
            if s != format!("[{}]", w) || c != (w as u64).to_le_bytes() {
                return Some(format!("stored as {} / {:?}", s, c))
            }
            if serde_json::from_str::<BitWidth>(&s).ok() != Some(b) || bincode::deserialize::<BitWidth>(&c).ok() != Some(b) {
                return Some("not read back".into())
            }
            for k in 0..8 {
                if bincode::deserialize::<BitWidth>(&c[..k]).is_ok() {
                    return Some("torn form accepted".into())
                }
            }
            None
        });
        finish(t, key, r);
    });
    env.par(1, |t, _| {
        for s in ["[0]", "[]", "0", "null", "[-1]", "[1.5]", "[\"1\"]", "{}", "\"1\""] {
            let key = format!("load width {}", s);
            let r = t.guarded(&key, || serde_json::from_str::<BitWidth>(s).ok().map(|b| format!("accepted as {:?}", b)));
            finish(t, key, r);
        }
        let r = t.guarded("load compact width 0", || bincode::deserialize::<BitWidth>(&[0u8; 8]).ok().map(|_| "accepted".to_string()));
        finish(t, "load compact width 0".into(), r);
    });
}
