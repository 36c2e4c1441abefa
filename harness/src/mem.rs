//! Guarded memory: every plane handed to the library lies in an arena between two
//! inaccessible zones, flush against one of them, so that an access one byte before the
//! start or past the end of the buffer faults. Source planes are handed out through a
//! read-only mapping of the same pages, so that a write to a source faults as well.

use std::cell::RefCell;

// There are two dozen arenas, each mapped twice: less is available to a 32-bit process
const GUARD: usize = if usize::BITS == 64 { 64 << 20 } else { 4 << 20 };
pub const CAP: usize = if usize::BITS == 64 { 64 << 20 } else { 24 << 20 };

pub struct Arena {
    rw: *mut u8,
    ro: *const u8,
}

fn reserve(total: usize) -> *mut u8 {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            total,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED, "cannot reserve {total} bytes");
    p.cast()
}

impl Arena {
    fn new() -> Self {
        unsafe {
            let fd = libc::memfd_create(c"dcpv".as_ptr(), 0);
            assert!(fd >= 0);
            assert!(libc::ftruncate(fd, CAP as libc::off_t) == 0);
            let map = |prot| {
                let base = reserve(CAP + 2 * GUARD);
                let p = libc::mmap(
                    base.add(GUARD).cast(),
                    CAP,
                    prot,
                    libc::MAP_SHARED | libc::MAP_FIXED,
                    fd,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
                p.cast::<u8>()
            };
            let rw = map(libc::PROT_READ | libc::PROT_WRITE);
            let ro = map(libc::PROT_READ).cast_const();
            libc::close(fd);
            Arena { rw, ro }
        }
    }
}

/// Where the buffer is put in its arena
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    /// The end of the buffer touches the upper guard
    End,
    /// The start of the buffer touches the lower guard (page aligned)
    Start,
    /// This many bytes before the upper guard
    EndMinus(usize),
    /// This many bytes after the lower guard
    StartPlus(usize),
}

pub fn offset_of(place: Place, len: usize) -> usize {
    assert!(len <= CAP - 4096, "buffer of {len} bytes too large for the arena");
    match place {
        Place::End => CAP - len,
        Place::Start => 0,
        Place::EndMinus(k) => CAP - len - k,
        Place::StartPlus(k) => k,
    }
}

thread_local! {
    static ARENAS: RefCell<Vec<Arena>> = const { RefCell::new(Vec::new()) };
}

fn with_arena<R>(i: usize, f: impl FnOnce(&Arena) -> R) -> R {
    ARENAS.with(|a| {
        let mut a = a.borrow_mut();
        while a.len() <= i {
            a.push(Arena::new());
        }
        f(&a[i])
    })
}

/// Bytes around a buffer that are also watched
pub const MARGIN: usize = 256;

pub fn canary(salt: u8, i: usize) -> u8 {
    (i as u8).wrapping_mul(167).wrapping_add((i >> 8) as u8) ^ salt
}

/// A plane of memory. Not tied to a lifetime: an arena is never unmapped, and a check
/// uses each arena for one buffer at a time.
#[derive(Clone, Copy)]
pub struct Buf {
    rw: *mut u8,
    ro: *const u8,
    off: usize,
    pub len: usize,
}

impl Buf {
    pub fn new(arena: usize, len: usize, place: Place) -> Self {
        let off = offset_of(place, len);
        with_arena(arena, |a| unsafe {
            Buf {
                rw: a.rw.add(off),
                ro: a.ro.add(off),
                off,
                len,
            }
        })
    }

    #[allow(clippy::mut_from_ref)]
    pub fn rw(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.rw, self.len) }
    }

    pub fn ro(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.ro, self.len) }
    }

    fn margins(&self) -> (usize, usize) {
        (
            self.off.min(MARGIN),
            (CAP - self.off - self.len).min(MARGIN),
        )
    }

    /// Fill the buffer and its margins with the canary
    pub fn poison(&self, salt: u8) {
        let (b, a) = self.margins();
        unsafe {
            let p = self.rw.sub(b);
            let s = std::slice::from_raw_parts_mut(p, b + self.len + a);
            for (i, v) in s.iter_mut().enumerate() {
                *v = canary(salt, i.wrapping_sub(b));
            }
        }
    }

    /// First index outside of [0, len) whose canary was overwritten
    pub fn margin_damage(&self, salt: u8) -> Option<isize> {
        let (b, a) = self.margins();
        unsafe {
            let p = self.rw.sub(b);
            let s = std::slice::from_raw_parts(p, b + self.len + a);
            (0..b)
                .chain(b + self.len..b + self.len + a)
                .find(|&i| s[i] != canary(salt, i.wrapping_sub(b)))
                .map(|i| i as isize - b as isize)
        }
    }
}
