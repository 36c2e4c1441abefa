//! The cases of ../src/lib.rs for WebAssembly, executed by run.js

use portable::{run, Case};
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

fn text(mut s: String) -> *const u8 {
    s.push('\0');
    Box::leak(s.into_boxed_str()).as_ptr()
}

#[no_mangle]
pub extern "C" fn start() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload();
        let m = m.downcast_ref::<&str>().map(|s| s.to_string()).or(m.downcast_ref::<String>().cloned());
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("{l}:\n{}", m.unwrap_or_default());
        }
    }));
}

#[no_mangle]
pub extern "C" fn panic_message() -> *const u8 {
    text(PANIC.lock().map(|p| p.clone()).unwrap_or_default())
}

fn line(i: u64, c: &Case) -> *const u8 {
    text(match run(c) {
        Ok(l) => format!("= {i} {l}"),
        Err(e) => format!("! {i} {e}"),
    })
}

#[no_mangle]
pub extern "C" fn generated(seed: u64, i: u64) -> *const u8 {
    line(i, &Case::generate(seed, i))
}

static CHOICES: Mutex<[u64; portable::CHOICES]> = Mutex::new([0; portable::CHOICES]);

#[no_mangle]
pub extern "C" fn choose(k: u32, v: u64) {
    CHOICES.lock().unwrap()[k as usize] = v;
}

#[no_mangle]
pub extern "C" fn chosen() -> *const u8 {
    let c = *CHOICES.lock().unwrap();
    line(0, &Case(c))
}
