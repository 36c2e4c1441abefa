//! Makes the cpuid instruction of this thread fault (Linux can do so on processors that
//! support it) and answers it from a generated processor

use crate::props_api::Cpu;
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering};

static CPU: AtomicPtr<Cpu> = AtomicPtr::new(std::ptr::null_mut());

const ARCH_SET_CPUID: libc::c_long = 0x1012;

#[cfg(target_arch = "x86_64")]
mod regs {
    pub use libc::{
        greg_t as Greg, REG_RAX as AX, REG_RBX as BX, REG_RCX as CX, REG_RDX as DX, REG_RIP as IP,
        SYS_arch_prctl as ARCH_PRCTL,
    };
}

#[cfg(target_arch = "x86")]
mod regs {
    pub use libc::{
        greg_t as Greg, REG_EAX as AX, REG_EBX as BX, REG_ECX as CX, REG_EDX as DX, REG_EIP as IP,
    };
    pub const ARCH_PRCTL: libc::c_long = 384;
}

extern "C" fn on_fault(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let regs = &mut (*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        let ip = regs[regs::IP as usize] as *const u8;
        if *ip != 0x0f || *ip.add(1) != 0xa2 {
            // A genuine fault
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            return;
        }
        let leaf = regs[regs::AX as usize] as u32;
        let sub = regs[regs::CX as usize] as u32;
        let r = (*CPU.load(Ordering::SeqCst)).cpuid(leaf, sub);
        regs[regs::AX as usize] = r[0] as regs::Greg;
        regs[regs::BX as usize] = r[1] as regs::Greg;
        regs[regs::CX as usize] = r[2] as regs::Greg;
        regs[regs::DX as usize] = r[3] as regs::Greg;
        regs[regs::IP as usize] += 2;
    }
}

pub fn emulate(c: Cpu) -> bool {
    CPU.store(Box::into_raw(Box::new(c)), Ordering::SeqCst);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_fault as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        if libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut()) != 0 {
            return false;
        }
        libc::syscall(regs::ARCH_PRCTL, ARCH_SET_CPUID, 0) == 0
    }
}

/// Gives the cpuid instruction back to the processor
pub fn restore() {
    unsafe {
        libc::syscall(regs::ARCH_PRCTL, ARCH_SET_CPUID, 1);
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
    }
}

// ---------------------------------------------------------------------------------------
// Extensions executed by this program, observed by single-stepping the calling thread

pub struct Used {
    pub avx: bool,
    pub sse3: bool,
    pub steps: u64,
}

static LO: AtomicUsize = AtomicUsize::new(0);
static HI: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static SEEN: AtomicU64 = AtomicU64::new(0);

/// 1: AVX or later, 2: SSE3 to SSE4.2, 0: else
unsafe fn classify(mut ip: *const u8) -> u64 {
    let (mut rep, mut repne, mut wide) = (false, false, false);
    loop {
        match *ip {
            0xf3 => rep = true,
            0xf2 => repne = true,
            0x66 => wide = true,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            0x40..=0x4f if cfg!(target_arch = "x86_64") => {}
            _ => break,
        }
        ip = ip.add(1);
    }
    match (*ip, *ip.add(1)) {
        (0xc4 | 0xc5 | 0x62, _) => 1,
        (0x0f, 0x38 | 0x3a) => 2,
        (0x0f, 0xb8) if rep => 2,
        (0x0f, 0x12) if rep || repne => 2,
        (0x0f, 0x16) if rep => 2,
        (0x0f, 0xd0 | 0x7c | 0x7d) if wide || repne => 2,
        (0x0f, 0xf0) if repne => 2,
        _ => 0,
    }
}

extern "C" fn on_step(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let regs = &(*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        let ip = regs[regs::IP as usize] as usize;
        if ip < LO.load(Ordering::Relaxed) || ip >= HI.load(Ordering::Relaxed) {
            return;
        }
        STEPS.fetch_add(1, Ordering::Relaxed);
        SEEN.fetch_or(classify(ip as *const u8), Ordering::Relaxed);
    }
}

/// Instructions of this executable (shared libraries choose theirs on their own) that `f`
/// executes
pub fn instructions(f: impl FnOnce()) -> Used {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let here = classify as *const () as usize;
    for l in maps.lines() {
        let Some((range, _)) = l.split_once(' ') else { continue };
        let Some((a, b)) = range.split_once('-') else { continue };
        let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) else {
            continue;
        };
        if (a..b).contains(&here) {
            LO.store(a, Ordering::Relaxed);
            HI.store(b, Ordering::Relaxed);
        }
    }
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_step as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        if libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()) != 0 {
            return Used { avx: false, sse3: false, steps: 0 };
        }
        // Not nostack: the red zone must not be in use
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq");
        #[cfg(target_arch = "x86")]
        std::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
        f();
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq");
        #[cfg(target_arch = "x86")]
        std::arch::asm!("pushfd", "and dword ptr [esp], 0xfffffeff", "popfd");
    }
    let seen = SEEN.load(Ordering::Relaxed);
    Used {
        avx: seen & 1 != 0,
        sse3: seen & 2 != 0,
        steps: STEPS.load(Ordering::Relaxed),
    }
}
