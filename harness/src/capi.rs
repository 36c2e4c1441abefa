//! The library seen through its C header (see shim.c). Every array and structure is placed
//! flush against inaccessible memory.

use crate::engine::Fail;
use crate::gen::{force, guarded, Case, Ek, Outcome};
use crate::mem::{Buf, Place};
use std::os::raw::{c_char, c_void};

extern "C" {
    pub fn dcpv_format_size() -> usize;
    pub fn dcpv_error_size() -> usize;
    pub fn dcpv_stride_auto() -> usize;
    fn dcpv_format(at: *mut c_void, pf: u32, cs: u32, planes: u32);
    fn dcpv_error(e: *const c_void) -> i32;
    fn dcpv_convert(
        w: u32,
        h: u32,
        sf: *const c_void,
        ss: *const usize,
        sb: *const *const u8,
        df: *const c_void,
        ds: *const usize,
        db: *const *mut u8,
        error: *mut c_void,
    ) -> i32;
    fn dcpv_sizes(
        w: u32,
        h: u32,
        f: *const c_void,
        st: *const usize,
        out: *mut usize,
        error: *mut c_void,
    ) -> i32;
    pub fn dcpv_describe() -> *mut c_char;
    pub fn dcpv_unref(s: *mut c_char);
}

/// Arenas of the argument arrays
const ARENA: usize = 16;

/// Value of the error variable before a call: not one of the kinds
const UNSET: u8 = 0xee;

pub const WORD: usize = std::mem::size_of::<usize>();

fn words(arena: usize, v: &[usize]) -> Buf {
    let b = Buf::new(arena, v.len() * WORD, Place::End);
    for (c, x) in b.rw().chunks_mut(WORD).zip(v) {
        c.copy_from_slice(&x.to_le_bytes());
    }
    b
}

/// (pixel format, colour space, planes) as indices of the header's enumerators
pub type CFormat = (u32, u32, u32);

fn fmt(arena: usize, f: Option<CFormat>) -> *const c_void {
    match f {
        None => std::ptr::null(),
        Some(f) => {
            let b = Buf::new(arena, unsafe { dcpv_format_size() }, Place::End);
            unsafe { dcpv_format(b.rw().as_mut_ptr().cast(), f.0, f.1, f.2) };
            b.ro().as_ptr().cast()
        }
    }
}

fn opt_words(arena: usize, v: Option<&[usize]>) -> *const usize {
    match v {
        None => std::ptr::null(),
        Some(v) => words(arena, v).ro().as_ptr().cast(),
    }
}

fn outcome(code: i32, err: Option<&Buf>) -> Result<Option<Outcome>, Fail> {
    let e = err.map(|b| (b.ro().iter().all(|&x| x == UNSET), unsafe { dcpv_error(b.ro().as_ptr().cast()) }));
    outcome_of(code, e)
}

fn outcome_of(code: i32, e: Option<(bool, i32)>) -> Result<Option<Outcome>, Fail> {
    match (code, e) {
        (0, None) => Ok(Some(Ok(()))),
        (0, Some((true, _))) => Ok(Some(Ok(()))),
        (0, Some((false, _))) => Err(Fail::new("C: the error was set by a successful call")),
        (1, None) => Ok(None),
        (1, Some((true, _))) => Err(Fail::new("C: a failed call did not set the error")),
        (1, Some((_, 0))) => Ok(Some(Err(Ek::InvalidValue))),
        (1, Some((_, 1))) => Ok(Some(Err(Ek::InvalidOperation))),
        (1, Some((_, 2))) => Ok(Some(Err(Ek::NotEnoughData))),
        (1, Some((_, k))) => Err(Fail::new(format!("C: unknown error kind {k}"))),
        (c, _) => Err(Fail::new(format!("C: unknown result {c}"))),
    }
}

pub struct CArgs<'a> {
    pub w: u32,
    pub h: u32,
    pub sf: Option<CFormat>,
    pub ss: Option<&'a [usize]>,
    /// Plane addresses
    pub sb: Option<&'a [usize]>,
    pub df: Option<CFormat>,
    pub ds: Option<&'a [usize]>,
    pub db: Option<&'a [usize]>,
    pub error: bool,
}

/// None: the call failed and no error variable was provided
pub fn convert(set: u32, a: &CArgs) -> Result<Option<Outcome>, Fail> {
    let err = Buf::new(ARENA, unsafe { dcpv_error_size() }, Place::End);
    err.rw().fill(UNSET);
    let sf = fmt(ARENA + 1, a.sf);
    let df = fmt(ARENA + 2, a.df);
    let ss = opt_words(ARENA + 3, a.ss);
    let ds = opt_words(ARENA + 4, a.ds);
    let sb = opt_words(ARENA + 5, a.sb);
    let db = opt_words(ARENA + 6, a.db);
    let ep = if a.error {
        err.rw().as_mut_ptr().cast()
    } else {
        std::ptr::null_mut()
    };
    force(set);
    let r = guarded(|| unsafe { dcpv_convert(a.w, a.h, sf, ss, sb.cast(), df, ds, db.cast(), ep) });
    force(0);
    outcome(r?, if a.error { Some(&err) } else { None })
}

/// The same call with arguments in the memory of the calling thread
pub fn convert_local(set: u32, a: &CArgs) -> Result<Option<Outcome>, Fail> {
    let mut formats = [[0u64; 4]; 2];
    let mut err = [u64::from_le_bytes([UNSET; 8]); 2];
    assert!(unsafe { dcpv_format_size() <= 32 && dcpv_error_size() <= 16 });
    let mut at = formats.iter_mut().map(|b| b.as_mut_ptr().cast::<c_void>());
    let mut fmt = |f: Option<CFormat>| {
        let b = at.next().unwrap();
        f.map_or(std::ptr::null(), |f| {
            unsafe { dcpv_format(b, f.0, f.1, f.2) };
            b.cast_const()
        })
    };
    let (sf, df) = (fmt(a.sf), fmt(a.df));
    let at = |v: Option<&[usize]>| v.map_or(std::ptr::null(), <[usize]>::as_ptr);
    let e: *mut c_void = err.as_mut_ptr().cast();
    let ep = if a.error { e } else { std::ptr::null_mut() };
    let (ss, sb, ds, db) = (at(a.ss), at(a.sb), at(a.ds), at(a.db));
    force(set);
    let r = guarded(|| unsafe { dcpv_convert(a.w, a.h, sf, ss, sb.cast(), df, ds, db.cast(), ep) });
    force(0);
    let bytes = unsafe { std::slice::from_raw_parts(e.cast::<u8>(), dcpv_error_size()) };
    let unset = bytes.iter().all(|&b| b == UNSET);
    outcome_of(r?, a.error.then(|| (unset, unsafe { dcpv_error(e) })))
}

pub fn sizes(
    w: u32,
    h: u32,
    f: Option<CFormat>,
    st: Option<&[usize]>,
    out: Option<&Buf>,
    error: bool,
) -> Result<Option<Outcome>, Fail> {
    let err = Buf::new(ARENA, unsafe { dcpv_error_size() }, Place::End);
    err.rw().fill(UNSET);
    let f = fmt(ARENA + 1, f);
    let st = opt_words(ARENA + 3, st);
    let o = out.map_or(std::ptr::null_mut(), |b| b.rw().as_mut_ptr().cast());
    let ep = if error {
        err.rw().as_mut_ptr().cast()
    } else {
        std::ptr::null_mut()
    };
    let r = guarded(|| unsafe { dcpv_sizes(w, h, f, st, o, ep) })?;
    outcome(r, if error { Some(&err) } else { None })
}

pub fn addrs(b: &[Buf], write: bool) -> Vec<usize> {
    b.iter()
        .map(|b| {
            if write {
                b.rw().as_mut_ptr() as usize
            } else {
                b.ro().as_ptr() as usize
            }
        })
        .collect()
}

/// The C call equivalent to a valid case. Stride arrays hold one entry per plane, which
/// is all a C caller has to provide
pub fn convert_case(case: &Case, sb: &[Buf], db: &[Buf]) -> Result<Outcome, Fail> {
    let (sa, da) = (addrs(sb, false), addrs(db, true));
    let cut = |s: &Option<Vec<usize>>, n: u32| s.as_ref().map(|v| v[..n as usize].to_vec());
    let ss = cut(&case.src.strides, case.src.planes);
    let ds = cut(&case.dst.strides, case.dst.planes);
    let r = convert(
        case.set,
        &CArgs {
            w: case.w as u32,
            h: case.h as u32,
            sf: Some((case.conv.src.c_value(), case.conv.src_cs.c_value(), case.src.planes)),
            ss: ss.as_deref(),
            sb: Some(&sa),
            df: Some((case.conv.dst.c_value(), case.conv.dst_cs.c_value(), case.dst.planes)),
            ds: ds.as_deref(),
            db: Some(&da),
            error: true,
        },
    )?;
    Ok(r.unwrap())
}
