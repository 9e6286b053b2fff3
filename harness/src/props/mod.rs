use crate::engine::*;
pub mod arith;
#[cfg(feature = "full")]
pub mod faults;
pub mod hist;
#[cfg(feature = "full")]
pub mod memory;
#[cfg(feature = "full")]
pub mod rand_p;
#[cfg(feature = "full")]
pub mod serde_p;
#[cfg(feature = "full")]
pub mod tokens;
pub mod simple;
pub mod sweep;
pub mod text;
#[cfg(feature = "full")]
pub mod threads;

pub fn run(env: &Env) -> i32 {
    env.assume("code outside the crate (std allocator interface, serde, rand, smallvec, compiler) behaves as specified");
    env.assume("64-bit little-endian Linux target; pointer width 64");
    match env.prop.as_str() {
        "C01" => arith::add(env),
        "C02" => arith::mul(env),
        "C03" => arith::udiv(env),
        "C04" => arith::sdiv(env),
        "C05" => simple::shifts(env),
        "C06" => simple::bitwise(env),
        "C07" => simple::counts(env),
        "C08" => simple::compare(env),
        "C09" => simple::casts(env),
        "C10" => simple::construct(env),
        "C11" => simple::prims(env),
        "C12" => hist::histories(env),
        "C13" => simple::errors(env),
        #[cfg(feature = "full")]
        "C14" => memory::safety(env),
        #[cfg(feature = "full")]
        "C15" => memory::discipline(env),
        "C16" => text::parse(env),
        "C17" => text::format(env),
        #[cfg(feature = "full")]
        "C18" => serde_p::serde(env),
        #[cfg(feature = "full")]
        "C19" => rand_p::random(env),
        "C20" => simple::forms(env),
        "C21" => simple::copies(env),
        "C22" => sweep::config(env),
        #[cfg(feature = "full")]
        "C23" => threads::threads(env),
        #[cfg(feature = "full")]
        "C24" => faults::faults(env),
        p => {
            eprintln!("unknown property {}", p);
            return 2
        }
    }
    conclude(env)
}

/// Re-executes the case of a replay file: exit 1 when it still disagrees.
pub fn replay(env: &Env, path: &str) -> i32 {
    use crate::model::Bv;
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    println!("property {}: {}", v["property"], v["case"]);
    println!("recorded: {}", v["disagreement"]);
    let (Some(o), Some(a), Some(b)) = (v["op"].as_str(), v["a"].as_str(), v["b"].as_str()) else {
        println!("not a single operation: re-run the check of the property");
        return 2
    };
    let op = &env.ops[env.op(o)];
    let p = v["p"].as_u64().unwrap_or(0) as usize;
    let r = run_case(op, &Val::new(Bv::parse(a)), &Val::new(Bv::parse(b)), p, true, v["property"].as_str() == Some("C15"));
    match r {
        None => {
            println!("now: agrees with the model");
            0
        }
        Some(d) => {
            println!("now: {}", d);
            1
        }
    }
}
