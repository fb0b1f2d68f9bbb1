//! Native replay of a counterexample: `replay <harness> <hex bytes>`.
//! Exit 1: the harness's assertion fails on the real code. 0: it holds.
//! 3: the recorded values do not satisfy the harness's preconditions.
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = a.get(2).map(|s| s.as_str()).unwrap_or("");
    let v: Vec<u8> = (0..hex.len() / 2)
        .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
        .collect();
    let f = vh::registry()
        .into_iter()
        .find(|(n, _)| *n == a[1] || n.strip_prefix("vh::") == Some(a[1].as_str()))
        .unwrap_or_else(|| {
            eprintln!("no harness {}", a[1]);
            std::process::exit(4)
        })
        .1;
    // `any` is thread-local state: run the harness on a thread with a big stack
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            vh::nd::load(v);
            f()
        })
        .unwrap()
        .join();
    match r {
        Ok(()) => println!("HOLDS"),
        Err(e) => {
            if e.downcast_ref::<vh::nd::AssumeFailed>().is_some() {
                println!("ASSUME-FAILED");
                std::process::exit(3)
            }
            println!("FAILS");
            std::process::exit(1)
        }
    }
}
