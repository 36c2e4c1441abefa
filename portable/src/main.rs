//! portable sets                      the instruction sets that can be forced
//! portable run SET SEED FROM TO      the cases of a range
//! portable case SET V V V ...        the case described by these choices
//! portable race SEED                 threads making the first use of the library
//! portable unbounded SET SEED FROM TO  conversions whose buffers are as large as can be
//!
//! One line per case: `= INDEX OUTCOME DIGEST DESCRIPTION`, or `! INDEX WHAT IS WRONG`.

#[cfg(not(feature = "tis"))]
use portable::unbounded;
use portable::{force, race, run, sets, Case};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let one = |i: u64, c: &Case| {
        // Printed beforehand: the case is known even if it does not come back
        println!("> {i}");
        match run(c) {
            Ok(l) => println!("= {i} {l}"),
            Err(e) => println!("! {i} {e}"),
        }
    };
    if a[1] == "sets" {
        println!("sets {:?}", sets());
        println!("= 0 {}", dcv_color_primitives::describe_acceleration());
        return;
    }
    if a[1] == "race" {
        println!("> 0");
        match race(n(2)) {
            Ok(l) => println!("= 0 {l}"),
            Err(e) => println!("! 0 {e}"),
        }
        return;
    }
    force(n(2) as u32);
    match a[1].as_str() {
        #[cfg(not(feature = "tis"))]
        "unbounded" => (n(4)..n(5)).for_each(|i| {
            println!("> {i}");
            match unbounded(&Case::generate(n(3), i)) {
                Ok(l) => println!("= {i} {l}"),
                Err(e) => println!("! {i} {e}"),
            }
        }),
        "run" => (n(4)..n(5)).for_each(|i| one(i, &Case::generate(n(3), i))),
        _ => one(0, &Case(std::array::from_fn(|k| n(3 + k)))),
    }
}
