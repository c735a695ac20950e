#![allow(dead_code)]
mod engine;
mod field;
mod p_checked;
mod p_interval;
mod p_mod;
mod p_poly;
mod poly;
mod ring;
mod real;
mod rng;
#[cfg(feature = "c17")]
mod h17;
#[cfg(feature = "c21")]
mod h21;
#[cfg(feature = "c22")]
mod h22;
#[cfg(feature = "c23")]
mod h23;
#[cfg(feature = "c27")]
mod h27;
#[cfg(feature = "numbers")]
mod p_numbers;
#[cfg(feature = "numbers")]
mod ran;
#[cfg(feature = "numbers")]
mod p_forms;

#[global_allocator]
static ALLOC: engine::CountingAlloc = engine::CountingAlloc;

#[allow(unused_mut)]
fn props() -> Vec<engine::Prop> {
    let mut v = vec![];
    v.extend(p_interval::props());
    v.extend(p_poly::props());
    v.extend(p_mod::props());
    #[cfg(feature = "c26")]
    v.extend(p_checked::props());
    #[cfg(feature = "c17")]
    v.extend(h17::props());
    #[cfg(feature = "c21")]
    v.extend(h21::props());
    #[cfg(feature = "c22")]
    v.extend(h22::props());
    #[cfg(feature = "c23")]
    v.extend(h23::props());
    #[cfg(feature = "c27")]
    v.extend(h27::props());
    #[cfg(feature = "numbers")]
    v.extend(p_numbers::props());
    #[cfg(feature = "numbers")]
    v.extend(p_forms::props());
    v
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let props = props();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no such property in this build: {}", id);
            std::process::exit(2)
        })
    };
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or_else(|| {
        eprintln!("usage: harness list | run ID | replay ID FILE");
        std::process::exit(2)
    });
    let code = match a(1) {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        "run" => engine::parent(find(a(2))),
        "child" => engine::child(find(a(2)), Some(a(3)), None),
        "only" => engine::child(find(a(2)), None, Some((a(3).to_string(), a(4).parse().unwrap(), a(5).parse().unwrap()))),
        "cache-worker" => p_interval::cache_worker(&args[2..]),
        "replay" => engine::replay(find(a(2)), a(3)),
        _ => 2,
    };
    std::process::exit(code)
}
