//! What calls leave behind: memory, threads, files, the state of the thread

use crate::engine::{Ctx, Kind, Prop, Res, Src, Sub};
use crate::fail;
use crate::gen::*;
use crate::model::*;
use crate::props_rel::Prepared;

/// Resources of the process. Memory obtained without the allocator shows in `pages`
#[derive(Clone, Copy, Debug)]
struct Held {
    blocks: isize,
    bytes: isize,
    threads: isize,
    files: isize,
    pages: isize,
}

const NAMES: [&str; 5] = ["allocations", "bytes", "threads", "files", "pages"];

impl Held {
    fn now() -> Held {
        // Nothing here allocates in between
        let (threads, files, pages) = (entries("/proc/self/task"), entries("/proc/self/fd"), pages());
        let (blocks, bytes) = crate::alloc::total();
        Held { blocks, bytes, threads, files, pages }
    }

    fn list(&self) -> [isize; 5] {
        [self.blocks, self.bytes, self.threads, self.files, self.pages]
    }
}

fn entries(path: &str) -> isize {
    std::fs::read_dir(path).map_or(0, |d| d.count() as isize)
}

fn pages() -> isize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').next().and_then(|v| v.parse().ok()).unwrap_or(0)
}

/// What grew at every step
fn growth(v: &[Held]) -> Option<String> {
    for (i, name) in NAMES.iter().enumerate() {
        if v.windows(2).all(|p| p[1].list()[i] > p[0].list()[i]) {
            let n: Vec<isize> = v.iter().map(|h| h.list()[i]).collect();
            return Some(format!("{name} in use: {n:?}"));
        }
    }
    None
}

/// The state of a thread which the functions it calls leave alone
fn thread_state() -> (u32, u16, u64, [u64; 16]) {
    let (mut mxcsr, mut x87, flags): (u32, u16, usize);
    let mut mask = [0u64; 16];
    mxcsr = 0;
    x87 = 0;
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut mxcsr);
        std::arch::asm!("fnstcw [{}]", in(reg) &mut x87);
        #[cfg(target_pointer_width = "64")]
        std::arch::asm!("pushfq", "pop {}", out(reg) flags);
        #[cfg(target_pointer_width = "32")]
        std::arch::asm!("pushfd", "pop {}", out(reg) flags);
        libc::sigprocmask(libc::SIG_SETMASK, std::ptr::null(), mask.as_mut_ptr().cast());
    }
    // The sticky exceptions do not count. Of the flags: direction and alignment
    (mxcsr & !0x3f, x87, flags as u64 & 0x4_0400, mask)
}

fn calls(s: &mut Src, most: usize) -> Vec<Prepared> {
    let n = s.usize(1, most);
    let budget = [64, 400, 3_000][s.usize(0, 2)];
    (0..n)
        .map(|_| {
            let mut m = Mix(s.raw());
            let v: Vec<u64> = (0..64).map(|_| m.next()).collect();
            Prepared::new(&mut Src::new(&v), budget)
        })
        .collect()
}

fn describe(ctx: &mut Ctx, how: &str, v: &[Prepared]) {
    let names: Vec<String> = v.iter().map(Prepared::name).collect();
    ctx.set_desc(format!("{how} of {names:?}"));
    for p in v {
        ctx.label(p.what.to_string());
    }
}

/// The same calls again and again
fn repeat(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut v = calls(s, 6);
    let rounds = s.usize(6, 12);
    describe(ctx, &format!("{rounds} rounds"), &v);
    ctx.nontrivial = v.len() > 1;
    ctx.inner = (rounds * v.len()) as u64;
    let mut held = Vec::with_capacity(rounds);
    for _ in 0..rounds {
        for p in &mut v {
            let before = thread_state();
            p.call();
            let after = thread_state();
            if before != after {
                fail!("{}: the state of the thread was {before:x?}, and is {after:x?} after the call", p.name());
            }
        }
        held.push(Held::now());
    }
    match growth(&held[1..]) {
        Some(g) => Err(crate::engine::Fail::new(format!("after each round, {g}"))),
        None => Ok(()),
    }
}

/// The same calls by threads that end
fn threads(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v = calls(s, 3);
    let n = s.usize(1, 4);
    let rounds = s.usize(6, 8);
    describe(ctx, &format!("{rounds} rounds by {n} new threads each"), &v);
    ctx.nontrivial = true;
    ctx.inner = (rounds * n * v.len()) as u64;
    let mut held = Vec::with_capacity(rounds);
    for _ in 0..rounds {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                let mut own = v.clone();
                std::thread::spawn(move || {
                    for p in &mut own {
                        p.call();
                    }
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                fail!("a thread panicked");
            }
        }
        let mut h = Held::now();
        // The system allocator has memory for each thread
        h.pages = 0;
        held.push(h);
    }
    match growth(&held[1..]) {
        Some(g) => Err(crate::engine::Fail::new(format!("after each round, {g}"))),
        None => Ok(()),
    }
}

/// Calls that are all different
fn distinct(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let all = s.chance(1, 2);
    let per = [200, 600, 1500][s.usize(0, 2)];
    let sizes = s.chance(1, 4);
    let refused = s.chance(1, 4);
    let set = pick_set(s);
    let mut m = Mix(s.raw());
    ctx.set_desc(format!(
        "8 batches of {per} different {} ({}), set {set}{}",
        if sizes { "size queries" } else { "conversions" },
        if all { "all formats".to_string() } else { format!("{:?}->{:?}", c.src, c.dst) },
        if refused { ", refused" } else { "" }
    ));
    ctx.nontrivial = true;
    ctx.inner = 8 * per;
    ctx.label(format!("distinct{}{}", if sizes { " sizes" } else { "" }, if refused { " refused" } else { "" }));
    let convs = conversions();
    let src = vec![0x55u8; 40_000];
    let mut dst = [vec![0u8; 40_000], vec![0u8; 40_000], vec![0u8; 40_000]];
    let mut held = Vec::with_capacity(8);
    let mut n = 0u64;
    for _ in 0..8 {
        for _ in 0..per {
            // Strides and sizes that did not occur before
            n += 1;
            let c = if all { convs[(m.next() % convs.len() as u64) as usize] } else { c };
            let (w, h) = (2 + 2 * (n % 37) as u32, 2 + 2 * (n / 37 % 3) as u32);
            let stride = 4 * 76 + (n / 111) as usize;
            let st = [stride; 3];
            let len = if refused { 4 } else { 40_000 };
            let (sp, dp) = (c.src.default_planes(), c.dst.default_planes());
            if sizes {
                let mut out = [0usize; 3];
                let r = dcv_color_primitives::get_buffers_size(w, h, &format(c.dst, c.dst_cs, if refused { 9 } else { dp }), Some(&st), &mut out);
                if r.is_ok() == refused {
                    fail!("unexpected outcome {:?} of a query for {:?} {w}x{h}", r, c.dst);
                }
                continue;
            }
            let sb = [&src[..len]; 3];
            let [d0, d1, d2] = &mut dst;
            let mut db: [&mut [u8]; 3] = [&mut d0[..len], &mut d1[..len], &mut d2[..len]];
            let o = call_rust(
                set,
                &Raw { w, h, sf: (c.src, c.src_cs, sp), ss: Some(&st), sb: &sb[..sp as usize], df: (c.dst, c.dst_cs, dp), ds: Some(&st) },
                &mut db[..dp as usize],
            )?;
            if o.is_ok() == refused {
                fail!("unexpected outcome {o:?} of {:?}->{:?} {w}x{h}", c.src, c.dst);
            }
        }
        held.push(Held::now());
    }
    match growth(&held[1..]) {
        Some(g) => Err(crate::engine::Fail::new(format!("after each batch, {g}"))),
        None => Ok(()),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "rounds of 1 to 6 calls of all functions through both interfaces, refused ones included, repeated 6 to 12 times; the same by threads that end; 1600 to 12000 calls with different sizes and strides; a resource grows if it does at every repetition; non-trivial: more than one call",
        assumptions: &["memory obtained from the system without the allocator of the program shows in the size of the process"],
        subs: vec![
            Sub { name: "repeat", kind: Kind::Random(40_000, 600_000), f: repeat },
            Sub { name: "threads", kind: Kind::Random(4_000, 60_000), f: threads },
            Sub { name: "distinct", kind: Kind::Random(1_500, 20_000), f: distinct },
        ],
    }]
}
