//! Executes generated cases and compares each outcome with a model that computes in 128
//! bits. Runs natively and, in Miri, for other processors: a picture is the same on all.
//! See ../portable.py

use dcv_color_primitives as dcp;
#[cfg(not(feature = "tis"))]
use dcp::c_api;
use dcp::{ColorSpace, ErrorKind, ImageFormat, PixelFormat};

struct Mix(u64);

impl Mix {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

use PixelFormat::*;

const PAIRS: [(PixelFormat, PixelFormat); 19] = [
    (Argb, I420), (Argb, I444), (Argb, Nv12), (Bgr, I420), (Bgr, I444), (Bgr, Nv12),
    (Bgr, Rgb), (Bgra, I420), (Bgra, I444), (Bgra, Nv12), (Bgra, Rgb), (I420, Bgra),
    (I420, Rgba), (I444, Bgra), (I444, Rgba), (Nv12, Bgra), (Nv12, Rgb), (Nv12, Rgba),
    (Rgb, Bgra),
];
const ALL: [PixelFormat; 9] = [Argb, Bgra, Bgr, Rgba, Rgb, I444, I422, I420, Nv12];
const SPACES: [ColorSpace; 4] =
    [ColorSpace::Bt601, ColorSpace::Bt709, ColorSpace::Bt601FR, ColorSpace::Bt709FR];

fn depth(f: PixelFormat) -> u128 {
    match f {
        Argb | Bgra | Rgba => 4,
        Bgr | Rgb => 3,
        _ => 0,
    }
}

/// (bytes of a row, rows) of each component plane
fn planes(f: PixelFormat, w: u32, h: u32) -> Vec<(u128, u128)> {
    let (w, h) = (u128::from(w), u128::from(h));
    match f {
        I444 => vec![(w, h); 3],
        I422 => vec![(w, h), (w / 2, h), (w / 2, h)],
        I420 => vec![(w, h), (w / 2, h / 2), (w / 2, h / 2)],
        Nv12 => vec![(w, h), (w, h / 2)],
        _ => vec![(depth(f) * w, h)],
    }
}

pub const CHOICES: usize = 16;
/// The choices of a case. Each is reduced modulo the number of alternatives
#[derive(Clone)]
pub struct Case(pub [u64; CHOICES]);

/// One side of a conversion
struct Side {
    fmt: ImageFormat,
    strides: Vec<usize>,
    auto: bool,
    lens: Vec<usize>,
    /// Bytes needed in each buffer (u128: they may be more than there can be)
    need: Vec<u128>,
    /// (buffer, offset, stride, bytes of a row, rows)
    rows: Vec<(usize, u128, u128, u128, u128)>,
}

const WIDE: [u32; 14] = [
    0x4000_0000, 0x4000_0001, 0x4000_0002, 0x4000_0008, 0x4000_0040, 0x5555_5556, 0x5555_5558,
    0x5555_5560, 0x8000_0000, 0x8000_0002, 0xAAAA_AAAC, 0xC000_0002, 0xFFFF_FFFE, 0xFFFF_FFFF,
];
const TALL: [u32; 6] = [0x4000_0000, 0x5555_5556, 0x8000_0000, 0x8000_0002, 0xAAAA_AAAC, 0xFFFF_FFFE];

fn side(f: PixelFormat, cs: ColorSpace, w: u32, h: u32, c: &[u64]) -> Side {
    let comp = planes(f, w, h);
    let np = if f as u32 == Nv12 as u32 { 1 + (c[0] % 2) as usize } else { comp.len() };
    let rgb = depth(f) > 0;
    let fmt = ImageFormat {
        pixel_format: f,
        color_space: if rgb { ColorSpace::Rgb } else { cs },
        num_planes: np as u32,
    };
    let mut strides = vec![];
    for (k, &(row, rows)) in comp.iter().enumerate().take(np) {
        let v = c[1] >> (16 * k);
        // What cannot be represented wraps around: it is some stride, all the same
        let row = row as usize;
        // Strides that no buffer has, in some of the cases only
        let kind = if c[1] >> 50 & 3 != 0 && v % 32 > 22 { 28 } else { v % 32 };
        strides.push(match kind {
            0..=6 => 0,
            7..=11 => row,
            12..=19 => row.wrapping_add((v >> 5) as usize % 9),
            20 => row.wrapping_add(64),
            21 => row / 2,
            22 => 1,
            23 => usize::MAX >> ((v >> 5) % 4),
            24 => (usize::MAX / (rows.max(2) as usize - 1)).wrapping_add((v >> 5) as usize % 3),
            25 => (usize::MAX / rows.max(1) as usize).wrapping_sub(row).wrapping_add((v >> 5) as usize % 3),
            26 => 1usize << (usize::BITS - 1),
            27 => row.wrapping_neg(),
            _ => row,
        });
    }
    let auto = c[1] % 5 == 0;
    if auto {
        strides.iter_mut().for_each(|s| *s = 0);
    }
    let mut need = vec![0u128; np];
    let mut place = vec![];
    for (k, &(row, rows)) in comp.iter().enumerate() {
        let b = k.min(np - 1);
        let stride = if strides[b] == 0 { row } else { strides[b] as u128 };
        let at = if b < k { stride * comp[0].1 } else { 0 };
        let end = if row == 0 || rows == 0 { 0 } else { at + stride * (rows - 1) + row };
        need[b] = need[b].max(end);
        if b < k && row > 0 && stride < row {
            // The two components would overlap: the rows of the first one are its own
            need[b] = u128::MAX;
        }
        place.push((b, at, stride, row, rows));
    }
    let lens = need
        .iter()
        .enumerate()
        .map(|(k, &n)| {
            let v = c[2] >> (16 * k);
            // The largest are not worth having: too short then
            let n = if n > 1500 { 200 } else { n as usize };
            if c[2] >> 50 & 3 != 0 && v % 16 < 3 {
                return n;
            }
            match v % 16 {
                0 => n.saturating_sub(1),
                1 => n.saturating_sub(1 + (v >> 4) as usize % 8),
                2 => (v >> 4) as usize % 64,
                3 => n + 1 + (v >> 4) as usize % 40,
                _ => n,
            }
        })
        .collect();
    Side { fmt, strides, auto, lens, need, rows: place }
}

/// Few steps per byte: Miri executes a hundred thousand of them per second
fn digest(h: &mut u64, b: &[u8]) {
    let mut chunks = b.chunks_exact(8);
    for c in &mut chunks {
        let v = u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
        *h = (*h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
    for &x in chunks.remainder() {
        *h = (*h ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01b3);
    }
}

fn bytes(m: &mut Mix, n: usize, kind: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        let x = m.next();
        // Extremes only, or anything
        let x = if kind % 4 == 0 { (x & 0x0101_0101_0101_0101) * 255 } else { x };
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(n);
    v
}

fn kind(r: Result<(), ErrorKind>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(ErrorKind::InvalidValue) => "value",
        Err(ErrorKind::InvalidOperation) => "operation",
        Err(ErrorKind::NotEnoughData) => "data",
    }
}

#[cfg(feature = "tis")]
pub fn sets() -> Vec<u32> {
    let d = dcp::describe_acceleration();
    let n = if d.contains("Avx2") { 3 } else if d.contains("Sse2") { 2 } else { 1 };
    (1..=n).collect()
}

#[cfg(feature = "tis")]
pub fn force(s: u32) {
    dcp::initialize_with_instruction_set(["", "x86", "sse2", "avx2"][s as usize]);
}

/// Instruction sets that can be chosen (0: the library chooses)
#[cfg(all(not(feature = "tis"), dcp_verif, any(target_arch = "x86", target_arch = "x86_64")))]
pub fn sets() -> Vec<u32> {
    (1..5).filter(|&s| dcp::verif::force(s)).collect()
}

#[cfg(all(not(feature = "tis"), dcp_verif, any(target_arch = "x86", target_arch = "x86_64")))]
pub fn force(s: u32) {
    assert!(dcp::verif::force(s));
}

#[cfg(not(any(feature = "tis", all(dcp_verif, any(target_arch = "x86", target_arch = "x86_64")))))]
pub fn sets() -> Vec<u32> {
    vec![0]
}

#[cfg(not(any(feature = "tis", all(dcp_verif, any(target_arch = "x86", target_arch = "x86_64")))))]
pub fn force(_: u32) {}

fn dimensions(c: &Case, even: bool) -> (u32, u32, bool) {
    let (v, u) = (c.0[3], c.0[4]);
    let (mut w, mut h) = match v % 16 {
        0 | 1 => (WIDE[(v >> 4) as usize % WIDE.len()], 1 + (u % 6) as u32),
        2 => (1 + (u % 40) as u32, TALL[(v >> 4) as usize % TALL.len()]),
        3 => ((u % 3) as u32 * 4, (u >> 8) as u32 % 3),
        4..=6 => (1 + (u % 140) as u32, 1 + (u >> 8) as u32 % 3),
        _ => (1 + (u % 72) as u32, 1 + (u >> 8) as u32 % 5),
    };
    let odd = u >> 16 & 15 == 0;
    if even && !odd {
        w &= !1;
        h += h & 1;
        if w == 0 && v % 16 != 3 {
            w = 2;
        }
    }
    let valid = !even || (w % 2 == 0 && h % 2 == 0);
    (w, h, valid)
}

/// The line of a case, or what is wrong
pub fn run(c: &Case) -> Result<String, String> {
    if c.0[0] % 8 == 0 {
        return sizes(c);
    }
    let (sf, df) = PAIRS[c.0[1] as usize % PAIRS.len()];
    let cs = SPACES[c.0[2] as usize % 4];
    let subsampled = |f| matches!(f, I420 | Nv12);
    let (w, h, valid) = dimensions(c, subsampled(sf) || subsampled(df));
    let src = side(sf, cs, w, h, &c.0[5..]);
    let dst = side(df, cs, w, h, &c.0[8..]);
    let fits = |s: &Side| s.need.iter().zip(&s.lens).all(|(&n, &l)| n <= l as u128);
    let expected = if !valid {
        "value"
    } else if w == 0 || h == 0 || fits(&src) && fits(&dst) {
        "ok"
    } else {
        "data"
    };
    let mut m = Mix(c.0[11]);
    let data: Vec<Vec<u8>> = src.lens.iter().map(|&n| bytes(&mut m, n, c.0[12])).collect();
    let what = format!(
        "{sf}->{df} {} {w}x{h} planes {}:{} strides {:x?}:{:x?} lens {:?}:{:?}",
        cs as u32, src.fmt.num_planes, dst.fmt.num_planes, src.strides, dst.strides, src.lens, dst.lens
    );
    let fill = (c.0[13] >> 3) as u8;
    let mut out: Vec<Vec<u8>> = dst.lens.iter().map(|&n| vec![fill; n]).collect();
    let r = {
        let s: Vec<&[u8]> = data.iter().map(|v| &v[..]).collect();
        let mut d: Vec<&mut [u8]> = out.iter_mut().map(|v| &mut v[..]).collect();
        dcp::convert_image(
            w,
            h,
            &src.fmt,
            if src.auto { None } else { Some(&src.strides) },
            &s,
            &dst.fmt,
            if dst.auto { None } else { Some(&dst.strides) },
            &mut d,
        )
    };
    let r = kind(r);
    if r != expected {
        return Err(format!("{what}: {r} instead of {expected}"));
    }
    #[cfg(not(feature = "tis"))]
    if r == "ok" || r == "value" {
        c_convert(c, w, h, (&src, &data), (&dst, &out), fill, r, &what)?;
    }
    // The last row written wins where rows overlap, and which one it is is not specified
    let over = |&(_, _, stride, row, rows): &(usize, u128, u128, u128, u128)| rows > 1 && stride < row;
    let ordered = !dst.rows.iter().any(over);
    // Only the pixels are written: nothing is left once they are set back
    let mut d = 0xcbf2_9ce4_8422_2325;
    if r == "ok" {
        if ordered {
            out.iter().for_each(|o| digest(&mut d, o));
        }
        for &(b, at, stride, row, rows) in &dst.rows {
            if row == 0 || w == 0 || h == 0 {
                continue;
            }
            for y in 0..rows {
                let o = (at + stride * y) as usize;
                out[b][o..o + row as usize].fill(fill);
            }
        }
    }
    for (b, (o, &n)) in out.iter().zip(&dst.lens).enumerate() {
        if *o != vec![fill; n] {
            return Err(format!("{what}: a byte of buffer {b}, which is no pixel, was written"));
        }
    }
    Ok(format!("{r} {d:016x} {what}"))
}

fn sizes(c: &Case) -> Result<String, String> {
    let f = ALL[c.0[1] as usize % 9];
    let (w, h, _) = dimensions(c, false);
    let (w, h) = match c.0[2] % 3 {
        0 => (h, w),
        1 => (w, h),
        _ => (c.0[6] as u32 >> (c.0[7] % 32), c.0[8] as u32 >> (c.0[9] % 32)),
    };
    let s = side(f, ColorSpace::Bt601, w, h, &c.0[5..]);
    let np = s.fmt.num_planes as usize;
    let valid = match f {
        I422 => w % 2 == 0,
        I420 | Nv12 => w % 2 == 0 && h % 2 == 0,
        _ => true,
    };
    let mut expected = vec![0u128; np];
    for &(b, _, stride, _, rows) in &s.rows {
        expected[b] += stride * rows;
    }
    let too_large = expected.iter().any(|&e| e > usize::MAX as u128);
    let mut got = vec![77usize; np];
    let r = kind(dcp::get_buffers_size(
        w,
        h,
        &s.fmt,
        if s.auto { None } else { Some(&s.strides) },
        &mut got,
    ));
    let what = format!("{f} planes {np} {w}x{h} strides {:x?}", s.strides);
    let e = if !valid {
        "value"
    } else if too_large {
        "data"
    } else {
        "ok"
    };
    if r != e {
        return Err(format!("sizes of {what}: {r} {got:?} instead of {e} {expected:?}"));
    }
    if r == "ok" && got.iter().zip(&expected).any(|(&g, &e)| g as u128 != e) {
        return Err(format!("sizes of {what}: {got:?} instead of {expected:?}"));
    }
    #[cfg(not(feature = "tis"))]
    c_interface(c, w, h, &s, kind_of(r), &got, &what)?;
    Ok(format!("sizes {r} of {what}"))
}

#[cfg(not(feature = "tis"))]
fn kind_of(r: &str) -> Option<ErrorKind> {
    match r {
        "ok" => None,
        "value" => Some(ErrorKind::InvalidValue),
        _ => Some(ErrorKind::NotEnoughData),
    }
}

/// The description of an image as a C compiler lays it out, wherever Rust puts its fields
#[cfg(not(feature = "tis"))]
fn as_in_c(f: &ImageFormat) -> [u32; 3] {
    [f.pixel_format as u32, f.color_space as u32, f.num_planes]
}

/// The same size query through the C interface, and the description
#[cfg(not(feature = "tis"))]
fn c_interface(
    c: &Case,
    w: u32,
    h: u32,
    s: &Side,
    expected: Option<ErrorKind>,
    got: &[usize],
    what: &str,
) -> Result<(), String> {
    let mut sizes = vec![77usize; got.len()];
    let f = as_in_c(&s.fmt);
    let mut error = ErrorKind::InvalidOperation;
    let null = c.0[10] & 1 == 1;
    let r = unsafe {
        c_api::dcp_get_buffers_size(
            w,
            h,
            f.as_ptr().cast(),
            if s.auto { std::ptr::null() } else { s.strides.as_ptr() },
            sizes.as_mut_ptr(),
            if null { std::ptr::null_mut() } else { &mut error },
        )
    };
    let ok = matches!(r, c_api::Result::Ok);
    if ok != expected.is_none() || sizes != got {
        return Err(format!("C sizes of {what}: ok {ok} {sizes:?} instead of {got:?}"));
    }
    if let (Some(e), false) = (expected, null) {
        if error as u32 != e as u32 {
            return Err(format!("C sizes of {what}: another error"));
        }
    }
    if c.0[10] & 6 == 6 {
        let p = c_api::dcp_describe_acceleration();
        if p.is_null() {
            return Err("no description".into());
        }
        let t = unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned();
        unsafe { c_api::dcp_unref_string(p) };
        if t != dcp::describe_acceleration() {
            return Err(format!("the descriptions differ: {t}"));
        }
    }
    Ok(())
}


/// The same conversion through the C interface. It makes slices of buffers of unknown size,
/// which Miri does not accept, unless told not to validate values
#[cfg(not(feature = "tis"))]
fn c_convert(
    c: &Case,
    w: u32,
    h: u32,
    (src, data): (&Side, &[Vec<u8>]),
    (dst, out): (&Side, &[Vec<u8>]),
    fill: u8,
    r: &str,
    what: &str,
) -> Result<(), String> {
    if cfg!(all(miri, not(portable_c))) {
        return Ok(());
    }
    let mut own: Vec<Vec<u8>> = dst.lens.iter().map(|&n| vec![fill; n]).collect();
    let sp: Vec<*const u8> = data.iter().map(|v| v.as_ptr()).collect();
    let dp: Vec<*mut u8> = own.iter_mut().map(|v| v.as_mut_ptr()).collect();
    let strides = |s: &Side| if s.auto { std::ptr::null() } else { s.strides.as_ptr() };
    let mut error = ErrorKind::InvalidOperation;
    let null = c.0[10] & 1 == 1;
    let (sf, df) = (as_in_c(&src.fmt), as_in_c(&dst.fmt));
    let got = unsafe {
        c_api::dcp_convert_image(
            w,
            h,
            sf.as_ptr().cast(),
            strides(src),
            sp.as_ptr(),
            df.as_ptr().cast(),
            strides(dst),
            dp.as_ptr(),
            if null { std::ptr::null_mut() } else { &mut error },
        )
    };
    let ok = matches!(got, c_api::Result::Ok);
    if ok != (r == "ok") {
        return Err(format!("{what}: ok {ok} in C, {r} in Rust"));
    }
    if !ok && !null && error as u32 != ErrorKind::InvalidValue as u32 {
        return Err(format!("{what}: another error in C"));
    }
    if own != out {
        return Err(format!("{what}: another picture in C"));
    }
    Ok(())
}

/// A conversion through the C interface whose buffers are as large as the slices it makes of
/// them, which only fits into a 32-bit processor if all of them are the same buffer
#[cfg(not(feature = "tis"))]
pub fn unbounded(c: &Case) -> Result<String, String> {
    let layout = std::alloc::Layout::from_size_align(isize::MAX as usize, 1).unwrap();
    let (sf, df) = PAIRS[c.0[1] as usize % PAIRS.len()];
    let cs = SPACES[c.0[2] as usize % 4];
    let (w, h) = (2 * (1 + c.0[3] as u32 % 36), 2 * (1 + c.0[4] as u32 % 3));
    let src = side(sf, cs, w, h, &[c.0[5], 0, 0]);
    let dst = side(df, cs, w, h, &[c.0[6], 0, 0]);
    let what = format!("{sf}->{df} {} {w}x{h} planes {}:{}", cs as u32, src.fmt.num_planes, dst.fmt.num_planes);
    unsafe {
        let p = std::alloc::alloc_zeroed(layout);
        if p.is_null() {
            return Ok(format!("null {what}"));
        }
        let planes = [p; 3];
        let r = c_api::dcp_convert_image(
            w,
            h,
            &src.fmt,
            std::ptr::null(),
            planes.as_ptr().cast(),
            &dst.fmt,
            std::ptr::null(),
            planes.as_ptr(),
            std::ptr::null_mut(),
        );
        std::alloc::dealloc(p, layout);
        if !matches!(r, c_api::Result::Ok) {
            return Err(format!("{what}: refused"));
        }
    }
    Ok(format!("ok 0 {what}"))
}

impl Case {
    pub fn generate(seed: u64, i: u64) -> Case {
        let mut m = Mix(seed.wrapping_mul(0x9e37_79b9).wrapping_add(i.wrapping_mul(0x1234_5678_9abc_def1)));
        m.next();
        Case(std::array::from_fn(|_| m.next() >> 8))
    }
}

/// Threads that use the library for the first time, together. The line of what they saw
pub fn race(seed: u64) -> Result<String, String> {
    let mut m = Mix(seed);
    let n = 2 + (m.next() % 2) as usize;
    let jobs: Vec<Vec<u64>> =
        (0..n).map(|_| (0..1 + m.next() % 2).map(|_| m.next() >> 8).collect()).collect();
    let work = |jobs: &[u64]| -> Vec<String> {
        jobs.iter()
            .map(|&j| {
                if j % 4 == 0 {
                    return dcp::describe_acceleration();
                }
                let mut c = Case::generate(j, 0);
                c.0[0] = 1;
                // Small
                c.0[3] = 15;
                c.0[4] = 1 << 16 | c.0[4] % 8 << 8 | c.0[4] % 18;
                run(&c).unwrap_or_else(|e| format!("! {e}"))
            })
            .collect()
    };
    let got: Vec<Vec<String>> = std::thread::scope(|s| {
        let t: Vec<_> = jobs.iter().map(|j| s.spawn(|| work(j))).collect();
        t.into_iter().map(|t| t.join().unwrap()).collect()
    });
    for (j, g) in jobs.iter().zip(&got) {
        let alone = work(j);
        if *g != alone || g.iter().any(|l| l.starts_with('!')) {
            return Err(format!("{n} threads saw {g:?}, alone {alone:?}"));
        }
    }
    Ok(format!("threads {n} {got:?}"))
}
