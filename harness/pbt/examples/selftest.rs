//! The runner's own test: SELFTEST=crash|hang|fail|panic makes some cases do that.
use pbt::*;
fn main() {
    let mode = std::env::var("SELFTEST").unwrap_or_default();
    pbt::main(Property {
        id: "SELF",
        rule: "none",
        assumptions: &[],
        legs: vec![leg("one", 2000, 2000, move |s, ctx| {
            let v = s.vec(0, 20, |s| s.below(1000));
            ctx.nontrivial(&v);
            if v.iter().any(|x| *x > 990) && v.len() > 3 {
                match mode.as_str() {
                    "crash" => std::process::abort(),
                    "hang" => loop {
                        std::thread::sleep(std::time::Duration::from_secs(1));
                    },
                    "overflow" => {
                        fn f(n: u64) -> u64 {
                            let a = [n; 100];
                            if n == u64::MAX { 0 } else { f(n + 1) + a[(n % 100) as usize] }
                        }
                        println!("{}", f(0));
                    }
                    "fail" => fail!("bad", "{v:?}"),
                    "panic" => panic!("{v:?}"),
                    _ => {}
                }
            }
            Ok(())
        })],
    })
}
