//! Properties of the interface: errors, sizes, the C functions, processor detection

use crate::capi::{self, CArgs, WORD};
use crate::engine::{helper, Ctx, Fail, Kind, Prop, Res, Src, Sub};
use crate::fail;
use crate::gen::*;
use crate::mem::{Buf, Place};
use crate::model::*;
use crate::props_color::{bulk, check_values, dim_label};
use crate::props_mem::note;
use dcv_color_primitives as dcp;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, Ordering};

// ---------------------------------------------------------------------------------------
// Outcome model

/// What the documentation promises for a call
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Expect {
    Is(Outcome),
    /// The number of planes is not specified: refused one way or the other
    Refused,
    Unspecified,
}

pub struct Args<'a> {
    pub w: u32,
    pub h: u32,
    pub f: (Pf, Cs, u32),
    pub strides: Option<&'a [usize]>,
    pub lens: &'a [usize],
}

/// Whether the buffers and strides of one side are sufficient. None: not specified
fn sufficient(a: &Args) -> Option<bool> {
    let n = a.f.2 as usize;
    if a.strides.is_some_and(|s| s.len() < n) || a.lens.len() < n {
        return Some(false);
    }
    let g = buffer_rows(a.f.0, a.f.2, a.w as usize, a.h as usize);
    let mut all = Some(true);
    for (i, p) in g.iter().enumerate() {
        let st = a.strides.map_or(p.row, |s| eff_stride(s[i], p.row));
        if st < p.row {
            // Rows that overlap: not specified
            all = None;
            continue;
        }
        match need(*p, st) {
            Some(x) if x <= a.lens[i] => {}
            _ => return Some(false),
        }
    }
    all
}

pub fn expect(s: &Args, d: &Args) -> Expect {
    let bad = Expect::Is(Err(Ek::InvalidValue));
    if s.f.0.is_yuv() != (s.f.1 != Cs::Rgb) || d.f.0.is_yuv() != (d.f.1 != Cs::Rgb) {
        return bad;
    }
    let (sp, dp) = (s.f.0.planes_ok(s.f.2), d.f.0.planes_ok(d.f.2));
    if sp == Some(false) || dp == Some(false) {
        return bad;
    }
    for f in [s.f.0, d.f.0] {
        if (f.even_width() && s.w % 2 != 0) || (f.even_height() && s.h % 2 != 0) {
            return bad;
        }
    }
    if sp.is_none() || dp.is_none() {
        return Expect::Refused;
    }
    if !supported(s.f.0, d.f.0) {
        return Expect::Is(Err(Ek::InvalidOperation));
    }
    if s.w == 0 || s.h == 0 {
        return Expect::Is(Ok(()));
    }
    match (sufficient(s), sufficient(d)) {
        (Some(true), Some(true)) => Expect::Is(Ok(())),
        (Some(false), _) | (_, Some(false)) => Expect::Is(Err(Ek::NotEnoughData)),
        _ => Expect::Unspecified,
    }
}

pub fn conforms(e: Expect, o: Outcome) -> bool {
    match e {
        Expect::Is(x) => x == o,
        Expect::Refused => matches!(o, Err(Ek::InvalidValue | Ek::InvalidOperation)),
        Expect::Unspecified => true,
    }
}

// --- C12

fn some_planes(s: &mut Src, pf: Pf) -> u32 {
    match s.weighted(&[8, 3, 1]) {
        0 => {
            if pf == Pf::Nv12 {
                2 - s.range(0, 1) as u32
            } else {
                pf.default_planes()
            }
        }
        1 => s.range(0, 5) as u32,
        _ => [u32::MAX, 1 << 31, 257, 65537, 1 << 30][s.usize(0, 4)],
    }
}

fn c12_call(
    ctx: &mut Ctx,
    set: u32,
    w: u32,
    h: u32,
    sf: (Pf, Cs, u32),
    df: (Pf, Cs, u32),
    ss: Option<&[usize]>,
    ds: Option<&[usize]>,
    sl: &[usize],
    dl: &[usize],
) -> Res {
    let e = expect(
        &Args { w, h, f: sf, strides: ss, lens: sl },
        &Args { w, h, f: df, strides: ds, lens: dl },
    );
    ctx.set_desc(format!(
        "{w}x{h} {} src={sf:?} strides={ss:?} lens={sl:?} dst={df:?} strides={ds:?} lens={dl:?}: expect {e:?}",
        set_name(set)
    ));
    ctx.label(format!("expect:{e:?}"));
    let sb: Vec<Buf> = sl.iter().enumerate().map(|(i, &l)| Buf::new(i, l, Place::End)).collect();
    let db: Vec<Buf> = dl.iter().enumerate().map(|(i, &l)| Buf::new(i + 6, l, Place::End)).collect();
    let sv: Vec<&[u8]> = sb.iter().map(Buf::ro).collect();
    let mut dv: Vec<&mut [u8]> = db.iter().map(Buf::rw).collect();
    let o = call_rust(set, &Raw { w, h, sf, ss, sb: &sv, df, ds }, &mut dv)?;
    if !conforms(e, o) {
        fail!("the result is {o:?}, expected {e:?}");
    }
    Ok(())
}

/// Every pair of (pixel format, colour space), sound otherwise
fn c12_pairs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw() as usize;
    let f = |k: usize| (ALL_PF[k % 9], ALL_CS[k / 9 % 5]);
    let (a, b) = (f(i % 45), f(i / 45 % 45));
    // 0: fine, 1: odd width, 2: odd height, 3: number of planes, 4: empty, 5: short
    let kind = i / 2025 % 6;
    let (mut w, mut h) = (34u32, 6u32);
    let mut pa = a.0.default_planes();
    let pb = b.0.default_planes();
    match kind {
        1 => w = 33,
        2 => h = 5,
        3 => pa = pa % 3 + 2,
        4 => w = 0,
        _ => {}
    }
    let lens = |pf: Pf, n: u32| -> Vec<usize> {
        let g = buffer_rows(pf, if pf == Pf::Nv12 { n.clamp(1, 2) } else { pf.default_planes() }, w as usize, h as usize);
        (0..n.min(4) as usize)
            .map(|i| g.get(i).map_or(0, |p| need(*p, p.row).unwrap()))
            .collect()
    };
    let sl = lens(a.0, pa);
    let mut dl = lens(b.0, pb);
    if kind == 5 {
        dl[0] -= 1;
    }
    ctx.nontrivial = true;
    let set = usable_sets()[i % usable_sets().len()];
    c12_call(ctx, set, w, h, (a.0, a.1, pa), (b.0, b.1, pb), None, None, &sl, &dl)
}

/// Any combination of defects
fn c12_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let ((spf, scs), (dpf, dcs)) = if s.chance(3, 4) {
        let c = any_conv(s);
        ((c.src, c.src_cs), (c.dst, c.dst_cs))
    } else {
        // Consistent or not
        let f = |s: &mut Src| {
            let p = s.pick(&ALL_PF);
            let c = if s.chance(1, 3) {
                s.pick(&ALL_CS)
            } else if p.is_yuv() {
                s.pick(&YUV_CS)
            } else {
                Cs::Rgb
            };
            (p, c)
        };
        (f(s), f(s))
    };
    let sf = (spf, scs, some_planes(s, spf));
    let df = (dpf, dcs, some_planes(s, dpf));
    let dim = |s: &mut Src| -> u32 {
        match s.weighted(&[10, 2, 1, 1]) {
            0 => s.range(1, 100) as u32,
            1 => 0,
            2 => s.range(100, 2000) as u32,
            _ => u32::MAX - s.range(0, 3) as u32,
        }
    };
    let (mut w, mut h) = (dim(s), dim(s));
    if s.chance(3, 4) {
        w &= !1;
        h &= !1;
    }
    let part = |s: &mut Src, f: (Pf, Cs, u32)| {
        let n = f.2.min(4) as usize;
        let planes = if f.0 == Pf::Nv12 { f.2.clamp(1, 2) } else { f.0.default_planes() };
        let g = buffer_rows(f.0, planes, w as usize, h as usize);
        let at = |i: usize| g.get(i).copied().unwrap_or(Plane { rows: 1, row: 1 });
        let mut st: Vec<usize> = (0..n)
            .map(|i| match s.weighted(&[4, 2, 3, 1]) {
                0 => 0,
                1 => at(i).row,
                2 => at(i).row.wrapping_add(s.usize(1, 40)),
                _ => usize::MAX - s.usize(0, 3),
            })
            .collect();
        let with = s.chance(1, 2);
        let cut = s.weighted(&[6, 1, 1]);
        let mut lens: Vec<usize> = (0..n)
            .map(|i| {
                let p = at(i);
                let v = need(p, if with { eff_stride(st[i], p.row) } else { p.row }).unwrap_or(usize::MAX);
                let v = match s.weighted(&[8, 1, 1]) {
                    0 => v,
                    1 => v.saturating_sub(s.usize(1, 3)),
                    _ => v.saturating_add(s.usize(1, 30)),
                };
                if v > 8 << 20 {
                    8 << 20
                } else {
                    v
                }
            })
            .collect();
        match cut {
            1 if !st.is_empty() => {
                st.pop();
            }
            2 => st.push(s.raw() as usize),
            _ => {}
        }
        match s.weighted(&[8, 1, 1]) {
            1 if !lens.is_empty() => {
                lens.pop();
            }
            2 => lens.push(0),
            _ => {}
        }
        (if with { Some(st) } else { None }, lens)
    };
    let (ss, sl) = part(s, sf);
    let (ds, dl) = part(s, df);
    let set = pick_set(s);
    ctx.nontrivial = true;
    c12_call(ctx, set, w, h, sf, df, ss.as_deref(), ds.as_deref(), &sl, &dl)
}

// --- C14

/// None: not specified
fn expected_sizes(pf: Pf, planes: u32, w: u32, h: u32, strides: Option<&[usize]>, room: usize) -> Option<Result<Vec<usize>, Vec<Ek>>> {
    let bad = Some(Err(vec![Ek::InvalidValue]));
    match pf.planes_ok(planes) {
        None => return None,
        Some(false) => return bad,
        _ => {}
    }
    if (pf.even_width() && w % 2 != 0) || (pf.even_height() && h % 2 != 0) {
        return bad;
    }
    let n = planes as usize;
    if strides.is_some_and(|s| s.len() < n) || room < n {
        return Some(Err(vec![Ek::NotEnoughData]));
    }
    let mut v = Vec::new();
    for (i, &(rows, row)) in wide_rows(pf, planes, w, h).iter().enumerate() {
        let st = match strides.map_or(0, |s| s[i]) {
            0 => row,
            s => s as u128,
        };
        match usize::try_from(st * rows) {
            Ok(x) => v.push(x),
            // A number of bytes that cannot be represented: refused
            Err(_) => return Some(Err(vec![Ek::InvalidValue, Ek::NotEnoughData, Ek::InvalidOperation])),
        }
    }
    Some(Ok(v))
}

fn size_dim(s: &mut Src) -> u32 {
    match s.weighted(&[6, 4, 2, 2, 1]) {
        0 => s.range(0, 100) as u32,
        1 => s.range(0, 9000) as u32,
        2 => s.raw() as u32,
        3 => {
            let k = s.range(10, 32);
            let d = s.range(0, 6) as i64 - 3;
            // Four bytes per pixel, or three, may wrap around a 32-bit size
            let v = if d == 0 && k > 28 { (1i64 << 32) / 3 * (k as i64 - 28) / 2 + 1 } else { 1i64 << k };
            (v + d).clamp(0, i64::from(u32::MAX)) as u32
        }
        _ => u32::MAX - s.range(0, 3) as u32,
    }
}

fn size_args(s: &mut Src) -> (Pf, u32, u32, u32, Option<Vec<usize>>, usize) {
    let pf = s.pick(&ALL_PF);
    let planes = some_planes(s, pf);
    let (mut w, mut h) = (size_dim(s), size_dim(s));
    if s.chance(5, 6) {
        if pf.even_width() {
            w &= !1;
        }
        if pf.even_height() {
            h &= !1;
        }
    }
    let n = planes.min(4) as usize;
    let mut st: Vec<usize> = (0..n)
        .map(|_| match s.weighted(&[4, 4, 2, 2, 1]) {
            0 => 0,
            1 => {
                let halves = s.pick(&[8, 2, 1, 6, 4]);
                let row = (w as usize).wrapping_mul(halves) / 2;
                row.wrapping_add(s.usize(0, 120).saturating_sub(20))
            }
            2 => s.usize(1, 5000),
            3 => {
                let k = s.range(20, u64::from(usize::BITS - 1));
                let d = s.usize(0, 6);
                (1usize << k).wrapping_add(d).wrapping_sub(3)
            }
            _ => usize::MAX - s.usize(0, 3),
        })
        .collect();
    // The same for all planes, or half of it for chroma
    match s.weighted(&[4, 1, 1]) {
        0 => {}
        k => {
            for i in 1..n {
                st[i] = st[0] / k;
            }
        }
    }
    let with = s.chance(2, 3);
    match s.weighted(&[6, 1, 2]) {
        1 => {
            st.pop();
        }
        2 => {
            for _ in 0..s.usize(1, 3) {
                st.push(match s.below(3) {
                    0 => 0,
                    1 => s.usize(1, 9000),
                    _ => s.raw() as usize,
                });
            }
        }
        _ => {}
    }
    let room = match s.weighted(&[6, 1, 2]) {
        0 => n,
        1 => s.usize(0, n),
        _ => n + s.usize(1, 3),
    };
    (pf, planes, w, h, if with { Some(st) } else { None }, room)
}

fn c14(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (pf, planes, w, h, st, room) = size_args(s);
    // The colour space plays no role
    let cs = if s.chance(1, 6) {
        s.pick(&ALL_CS)
    } else if pf.is_yuv() {
        s.pick(&YUV_CS)
    } else {
        Cs::Rgb
    };
    ctx.set_desc(format!("{pf:?} planes={planes} {w}x{h} strides={st:?}, {room} entries"));
    let Some(e) = expected_sizes(pf, planes, w, h, st.as_deref(), room) else {
        return Ok(());
    };
    ctx.nontrivial = w > 0 && h > 0;
    ctx.label(match &e {
        Ok(_) => format!("sizes of {pf:?}"),
        Err(k) => format!("refused:{:?}", k[0]),
    });
    let f = format(pf, cs, planes);
    const FILL: usize = 0x5555_aaaa_5555_aaaa_u64 as usize;
    let mut out = vec![FILL; room];
    // Anywhere in an array of the caller's
    let lead = s.usize(0, 2);
    let mut whole = vec![9; lead];
    whole.extend_from_slice(st.as_deref().unwrap_or(&[]));
    let strides = st.as_ref().map(|_| &whole[lead..]);
    let r = guarded(|| dcp::get_buffers_size(w, h, &f, strides, &mut out).map_err(ek))?;
    match (&e, r) {
        (Ok(v), Ok(())) => {
            if out[..v.len()] != v[..] {
                fail!("sizes are {:?}, expected {v:?}", &out[..v.len()]);
            }
            if out[v.len()..].iter().any(|&x| x != FILL) {
                fail!("entries past the planes were written: {out:?}");
            }
        }
        (Err(k), Err(x)) if k.contains(&x) => {}
        _ => fail!("the result is {r:?} {out:?}, expected {e:?}"),
    }
    Ok(())
}

/// Moderate images: every format, small dimensions, exhaustively
fn c14_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw() as usize;
    let pf = ALL_PF[i % 9];
    let i = i / 9;
    let planes = (i % 5) as u32;
    let i = i / 5;
    let (w, h) = ((i % 40) as u32, (i / 40) as u32);
    ctx.set_desc(format!("{pf:?} planes={planes} {w}x{h}"));
    ctx.nontrivial = w > 0 && h > 0;
    let strides: [Option<Vec<usize>>; 3] = [None, Some(vec![0; 4]), Some(vec![300, 7, 0, 11])];
    for st in strides {
        ctx.inner += 1;
        let Some(e) = expected_sizes(pf, planes, w, h, st.as_deref(), 4) else {
            continue;
        };
        let f = format(pf, Cs::Rgb, planes);
        let mut out = [usize::MAX; 4];
        let r = guarded(|| dcp::get_buffers_size(w, h, &f, st.as_deref(), &mut out).map_err(ek))?;
        let ok = match (&e, r) {
            (Ok(v), Ok(())) => out[..v.len()] == v[..] && out[v.len()..].iter().all(|&x| x == usize::MAX),
            (Err(k), Err(x)) => k.contains(&x) && out.iter().all(|&x| x == usize::MAX),
            _ => false,
        };
        if !ok {
            fail!("strides {st:?}: {r:?} {out:?}, expected {e:?}");
        }
    }
    Ok(())
}

// --- C15

fn c15(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let b = budget(s);
    let mut case = case(s, c, b, false);
    case.c = s.chance(1, 4);
    note(ctx, &case);
    for (pf, cs, side) in [(c.src, c.src_cs, &mut case.src), (c.dst, c.dst_cs, &mut case.dst)] {
        let n = side.planes as usize;
        let mut out = vec![0usize; n];
        let f = format(pf, cs, side.planes);
        let r = if case.c {
            let b = Buf::new(20, WORD * n, Place::End);
            let st = side.strides.as_ref().map(|v| v[..n].to_vec());
            let r = capi::sizes(
                case.w as u32,
                case.h as u32,
                Some((pf.c_value(), cs.c_value(), side.planes)),
                st.as_deref(),
                Some(&b),
                true,
            )?;
            for (o, c) in out.iter_mut().zip(b.ro().chunks(WORD)) {
                *o = usize::from_le_bytes(c.try_into().unwrap());
            }
            r.unwrap()
        } else {
            guarded(|| {
                dcp::get_buffers_size(case.w as u32, case.h as u32, &f, side.strides.as_deref(), &mut out).map_err(ek)
            })?
        };
        if r != Ok(()) {
            fail!("sizes of a valid {pf:?} image: {r:?}");
        }
        let g = buffer_rows(pf, side.planes, case.w, case.h);
        let st = side.eff(&g);
        for (k, p) in g.iter().enumerate() {
            if out[k] < need(*p, st[k]).unwrap() {
                fail!("{} bytes reported for buffer {k} of {pf:?}, the image occupies {}", out[k], need(*p, st[k]).unwrap());
            }
            if out[k] > full(*p, st[k]).unwrap() {
                fail!("{} bytes reported for buffer {k} of {pf:?}, {} rows of {} bytes", out[k], p.rows, st[k]);
            }
        }
        side.lens = out;
    }
    ctx.set_desc(case.desc());
    let src = case.src_img();
    let (o, db) = convert(&case, &src)?;
    if let Err(e) = o {
        fail!("buffers of the reported size were rejected: {e:?}");
    }
    if let Some(d) = stray_write(c.dst, case.w, case.h, &case.dst, &db, case.salt) {
        fail!("{d} was written");
    }
    check_values(c, &src, &load(c.dst, case.w, case.h, &case.dst, &db))
}

// --- C16

fn c16_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let b = budget(s);
    let mut case = case(s, c, b, true);
    note(ctx, &case);
    let src = case.src_img();
    let rust = must_convert(&case, &src)?;
    case.c = true;
    case.salt = !case.salt;
    let (o, db) = convert(&case, &src)?;
    if let Err(e) = o {
        fail!("C: a valid conversion was rejected: {e:?}");
    }
    if let Some(d) = stray_write(c.dst, case.w, case.h, &case.dst, &db, case.salt) {
        fail!("C: {d} was written");
    }
    match rust.diff(&load(c.dst, case.w, case.h, &case.dst, &db)) {
        Some(d) => fail!("Rust and C results differ: {d}"),
        None => Ok(()),
    }
}

/// Arguments that may be refused, with buffers large enough for whatever is accepted
fn c16_any(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (sf, df) = if s.chance(1, 2) {
        let c = any_conv(s);
        ((c.src, c.src_cs), (c.dst, c.dst_cs))
    } else {
        ((s.pick(&ALL_PF), s.pick(&ALL_CS)), (s.pick(&ALL_PF), s.pick(&ALL_CS)))
    };
    let sf = (sf.0, sf.1, some_planes(s, sf.0));
    let df = (df.0, df.1, some_planes(s, df.0));
    let (w, h) = (s.range(0, 40) as u32, s.range(0, 12) as u32);
    let strides = |s: &mut Src, n: u32| -> Option<Vec<usize>> {
        if s.chance(1, 2) {
            Some((0..n.min(4)).map(|_| match s.weighted(&[3, 3, 1]) {
                0 => 0,
                1 => 4 * w as usize + s.usize(0, 60),
                _ => usize::MAX - s.usize(0, 50),
            }).collect())
        } else {
            None
        }
    };
    let ss = strides(s, sf.2);
    let ds = strides(s, df.2);
    let set = pick_set(s);
    let len = 16384;
    ctx.set_desc(format!("{w}x{h} {} src={sf:?} strides={ss:?} dst={df:?} strides={ds:?}", set_name(set)));
    ctx.nontrivial = true;
    // A C caller with an accepted format has one address per plane
    let ns = sf.2.min(4) as usize;
    let nd = df.2.min(4) as usize;
    let sb: Vec<Buf> = (0..ns).map(|i| Buf::new(i, len, Place::End)).collect();
    let d1: Vec<Buf> = (0..nd).map(|i| Buf::new(4 + i, len, Place::End)).collect();
    let d2: Vec<Buf> = (0..nd).map(|i| Buf::new(8 + i, len, Place::End)).collect();
    sb.iter().enumerate().for_each(|(i, b)| b.poison(i as u8));
    d1.iter().chain(&d2).for_each(|b| b.poison(0x6b));
    let sv: Vec<&[u8]> = sb.iter().map(Buf::ro).collect();
    let mut dv: Vec<&mut [u8]> = d1.iter().map(Buf::rw).collect();
    let raw = Raw {
        w,
        h,
        sf,
        ss: ss.as_deref(),
        sb: &sv,
        df,
        ds: ds.as_deref(),
    };
    let rust = call_rust(set, &raw, &mut dv)?;
    let sa = capi::addrs(&sb, false);
    let da = capi::addrs(&d2, true);
    let with_error = s.chance(4, 5);
    let c = capi::convert(
        set,
        &CArgs {
            w,
            h,
            sf: Some((sf.0.c_value(), sf.1.c_value(), sf.2)),
            ss: ss.as_deref(),
            sb: Some(&sa),
            df: Some((df.0.c_value(), df.1.c_value(), df.2)),
            ds: ds.as_deref(),
            db: Some(&da),
            error: with_error,
        },
    )?;
    ctx.label(format!("outcome:{rust:?}"));
    let same = match c {
        Some(o) => o == rust,
        None => rust.is_err(),
    };
    if !same {
        fail!("Rust: {rust:?}, C: {c:?}");
    }
    for (k, (a, b)) in d1.iter().zip(&d2).enumerate() {
        if a.ro() != b.ro() {
            fail!("Rust and C leave different bytes in destination buffer {k}");
        }
        if b.margin_damage(0x6b).is_some() {
            fail!("C: memory around destination buffer {k} was written");
        }
    }
    Ok(())
}

fn c16_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (pf, planes, w, h, st, _) = size_args(s);
    let n = planes.min(4) as usize;
    // One stride per plane, as a C caller provides
    let st = st.map(|mut v| {
        v.resize(n, 0);
        v
    });
    let cs = if pf.is_yuv() { s.pick(&YUV_CS) } else { Cs::Rgb };
    ctx.set_desc(format!("C sizes of {pf:?} planes={planes} {w}x{h} strides={st:?}"));
    ctx.nontrivial = w > 0 && h > 0;
    let f = format(pf, cs, planes);
    let mut want = vec![77usize; n];
    let rust = guarded(|| dcp::get_buffers_size(w, h, &f, st.as_deref(), &mut want).map_err(ek))?;
    ctx.label(format!("sizes:{rust:?}"));
    let out = Buf::new(20, WORD * n, Place::End);
    for c in out.rw().chunks_mut(WORD) {
        c.copy_from_slice(&77usize.to_le_bytes());
    }
    let with_error = s.chance(4, 5);
    let c = capi::sizes(
        w,
        h,
        Some((pf.c_value(), cs.c_value(), planes)),
        st.as_deref(),
        Some(&out),
        with_error,
    )?;
    let got: Vec<usize> = out.ro().chunks(WORD).map(|c| usize::from_le_bytes(c.try_into().unwrap())).collect();
    let same = match c {
        Some(o) => o == rust,
        None => rust.is_err(),
    };
    if !same || got != want {
        fail!("Rust: {rust:?} {want:?}, C: {c:?} {got:?}");
    }
    Ok(())
}

// --- C17

pub fn c_describe() -> String {
    unsafe {
        let p = capi::dcpv_describe();
        if p.is_null() {
            return "(null)".into();
        }
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        capi::dcpv_unref(p);
        s
    }
}

/// One argument that C can get wrong, among sound ones
fn c17_convert(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let set = pick_set(s);
    let (mut w, mut h) = (s.range(0, 40) as u32, s.range(0, 12) as u32);
    if c.even_width() {
        w &= !1;
    }
    if c.even_height() {
        h &= !1;
    }
    let planes = |s: &mut Src, pf: Pf| if pf == Pf::Nv12 { 2 - s.range(0, 1) as u32 } else { pf.default_planes() };
    let mut sf = Some((c.src.c_value(), c.src_cs.c_value(), planes(s, c.src)));
    let mut df = Some((c.dst.c_value(), c.dst_cs.c_value(), planes(s, c.dst)));
    let len = 16384;
    let (ns, nd) = (sf.unwrap().2 as usize, df.unwrap().2 as usize);
    let sb: Vec<Buf> = (0..ns).map(|i| Buf::new(i, len, Place::End)).collect();
    let db: Vec<Buf> = (0..nd).map(|i| Buf::new(4 + i, len, Place::End)).collect();
    db.iter().for_each(|b| b.poison(0x19));
    let mut sa = capi::addrs(&sb, false);
    let mut da = capi::addrs(&db, true);
    let (mut use_sb, mut use_db) = (true, true);
    let not_enum = |s: &mut Src, n: u32| -> u32 {
        match s.below(5) {
            0 => n,
            1 => n + s.range(1, 20) as u32,
            2 => u32::MAX - s.range(0, 3) as u32,
            3 => (1 << s.range(8, 31)) + s.range(0, n.into()) as u32,
            _ => (s.raw() as u32).max(n),
        }
    };
    let faults = s.usize(1, 2);
    let mut names = Vec::new();
    for _ in 0..faults {
        let k = s.below(13);
        names.push(match k {
            0 => {
                sf = None;
                "source format is null"
            }
            1 => {
                df = None;
                "destination format is null"
            }
            2 => {
                use_sb = false;
                "source buffers is null"
            }
            3 => {
                use_db = false;
                "destination buffers is null"
            }
            4 => {
                let k = s.usize(0, ns - 1);
                sa[k] = 0;
                "a source plane is null"
            }
            5 => {
                let k = s.usize(0, nd - 1);
                da[k] = 0;
                "a destination plane is null"
            }
            6 => {
                if let Some(f) = &mut sf {
                    f.0 = not_enum(s, 9);
                }
                "source pixel format"
            }
            7 => {
                if let Some(f) = &mut df {
                    f.0 = not_enum(s, 9);
                }
                "destination pixel format"
            }
            8 => {
                if let Some(f) = &mut sf {
                    f.1 = not_enum(s, 5);
                }
                "source colour space"
            }
            9 => {
                if let Some(f) = &mut df {
                    f.1 = not_enum(s, 5);
                }
                "destination colour space"
            }
            10 => {
                if let Some(f) = &mut sf {
                    f.2 = match (c.src, s.below(4)) {
                        (_, 0) => 0,
                        (Pf::Nv12, 1) => 3,
                        (_, 1) => ns as u32 + 1,
                        (_, 2) => ns as u32 + (1 << s.range(8, 31)),
                        _ => u32::MAX - s.range(0, 1) as u32,
                    };
                }
                "source planes"
            }
            11 => {
                if let Some(f) = &mut df {
                    f.2 = match (c.dst, s.below(4)) {
                        (_, 0) => 0,
                        (Pf::Nv12, 1) => 3,
                        (_, 1) => nd as u32 + 1,
                        (_, 2) => nd as u32 + (1 << s.range(8, 31)),
                        _ => u32::MAX - s.range(0, 1) as u32,
                    };
                }
                "destination planes"
            }
            _ => {
                if c.even_width() {
                    w += 1;
                    "odd width"
                } else {
                    sf = None;
                    "source format is null"
                }
            }
        });
    }
    // Two faults may cancel out only for the width
    if names == ["odd width", "odd width"] {
        w -= 1;
    }
    let with_error = s.chance(3, 4);
    let ss: Option<Vec<usize>> = if s.chance(1, 2) { Some(vec![0; ns]) } else { None };
    let ds: Option<Vec<usize>> = if s.chance(1, 2) { Some(vec![0; nd]) } else { None };
    ctx.set_desc(format!("C {:?} {w}x{h} {} {names:?} src={sf:x?} dst={df:x?} error={with_error}", c, set_name(set)));
    ctx.nontrivial = true;
    for n in &names {
        ctx.label(*n);
    }
    let r = capi::convert(
        set,
        &CArgs {
            w,
            h,
            sf,
            ss: ss.as_deref(),
            sb: if use_sb { Some(&sa) } else { None },
            df,
            ds: ds.as_deref(),
            db: if use_db { Some(&da) } else { None },
            error: with_error,
        },
    )?;
    let ok = match r {
        None => !with_error,
        Some(o) => o == Err(Ek::InvalidValue),
    };
    if !ok {
        fail!("{names:?}: {r:?}, expected InvalidValue");
    }
    match untouched(&db, 0x19) {
        Some(d) => fail!("{names:?}: {d} was written"),
        None => Ok(()),
    }
}

fn c17_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pf = s.pick(&ALL_PF);
    let mut planes = pf.default_planes();
    let mut p = pf.c_value();
    let (w, h) = (2 * s.range(0, 3000) as u32, 2 * s.range(0, 3000) as u32);
    let k = s.below(4);
    let with_error = s.chance(3, 4);
    let (mut null_format, mut null_out) = (false, false);
    let what = match k {
        0 => {
            null_format = true;
            "format is null"
        }
        1 => {
            null_out = true;
            "sizes is null"
        }
        2 => {
            p = match s.below(4) {
                0 => 9,
                1 => 9 + s.range(1, 50) as u32,
                2 => u32::MAX - s.range(0, 3) as u32,
                _ => (1 << s.range(8, 31)) + s.range(0, 8) as u32,
            };
            "pixel format"
        }
        _ => {
            planes = match s.below(3) {
                0 => 0,
                1 => 4 + s.range(0, 9) as u32,
                _ => u32::MAX - s.range(0, 1) as u32,
            };
            "planes"
        }
    };
    ctx.set_desc(format!("C sizes {w}x{h} {what} {p:x} {planes} error={with_error}"));
    ctx.nontrivial = true;
    ctx.label(format!("sizes: {what}"));
    let out = Buf::new(20, WORD * 4, Place::End);
    out.poison(0x19);
    let f = (p, if pf.is_yuv() { 1 } else { 0 }, planes);
    let r = capi::sizes(
        w,
        h,
        if null_format { None } else { Some(f) },
        None,
        if null_out { None } else { Some(&out) },
        with_error,
    )?;
    let ok = match r {
        None => !with_error,
        Some(o) => o == Err(Ek::InvalidValue),
    };
    if !ok {
        fail!("{what}: {r:?}, expected InvalidValue");
    }
    match untouched(&[out], 0x19) {
        Some(d) => fail!("{what}: {d} was written"),
        None => Ok(()),
    }
}

/// Strings: independent, equal to the Rust description, released whatever the order
fn c17_strings(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(1, 12);
    let order = s.raw();
    ctx.set_desc(format!("{n} descriptions released in order {order:x}"));
    ctx.nontrivial = n > 1;
    ctx.label("strings");
    let want = dcp::describe_acceleration();
    let before = crate::alloc::live();
    let r = (|| -> Res {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            let p = unsafe { capi::dcpv_describe() };
            if p.is_null() {
                fail!("the description is null");
            }
            if v.contains(&p) {
                fail!("the same string was returned twice while in use");
            }
            v.push(p);
        }
        let mut m = Mix(order);
        while !v.is_empty() {
            let k = (m.next() % v.len() as u64) as usize;
            unsafe { capi::dcpv_unref(std::ptr::null_mut()) };
            let p = v.swap_remove(k);
            let text = unsafe { CStr::from_ptr(p) };
            if text.to_bytes() != want.as_bytes() {
                fail!("{text:?}, expected {want:?}");
            }
            // A caller owns the string
            unsafe {
                for i in 0..want.len() {
                    *p.add(i) = b'#' as std::os::raw::c_char;
                }
                capi::dcpv_unref(p);
            }
        }
        Ok(())
    })();
    r?;
    let after = crate::alloc::live();
    if after != before {
        fail!("{} allocations and {} bytes are left after releasing {n} strings", after.0 - before.0, after.1 - before.1);
    }
    if unsafe { capi::dcpv_stride_auto() } != dcp::STRIDE_AUTO {
        fail!("the header disagrees on the automatic stride");
    }
    if unsafe { capi::dcpv_format_size() } != std::mem::size_of::<dcp::ImageFormat>() {
        fail!("the header disagrees on the size of an image format");
    }
    Ok(())
}

/// Any C call on sound memory: used with overflow checks and debug assertions
pub fn c_any(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(5) {
        0 => c17_convert(s, ctx),
        1 => c17_sizes(s, ctx),
        2 => c16_any(s, ctx),
        3 => c16_sizes(s, ctx),
        _ => c17_strings(s, ctx),
    }
}

// --- C26

#[derive(Clone, Debug)]
pub struct Cpu {
    pub vendor: [u8; 12],
    pub max_leaf: u32,
    pub leaf1: (u32, u32),
    pub leaf7: u32,
    pub noise: u64,
}

impl Cpu {
    fn amd(&self) -> bool {
        &self.vendor == b"AuthenticAMD" || &self.vendor == b"AMDisbetter!"
    }

    fn sse2(&self) -> bool {
        self.max_leaf >= 1 && self.leaf1.1 >> 26 & 1 == 1
    }

    /// AVX2 is present and the operating system preserves its registers
    fn avx2(&self) -> bool {
        self.sse2()
            && self.leaf1.0 >> 27 & 1 == 1
            && self.leaf1.0 >> 28 & 1 == 1
            && self.max_leaf >= 7
            && self.leaf7 >> 5 & 1 == 1
    }

    fn description(&self) -> String {
        let m = if self.max_leaf == 0 {
            "Unknown"
        } else if &self.vendor == b"GenuineIntel" {
            "Intel"
        } else if self.amd() {
            "Amd"
        } else {
            "Unknown"
        };
        let s = if self.avx2() && !self.amd() {
            "Avx2"
        } else if self.sse2() {
            "Sse2"
        } else {
            "X86"
        };
        format!("{{cpu-manufacturer:{m},instruction-set:{s}}}")
    }

    /// eax, ebx, ecx, edx
    pub fn cpuid(&self, leaf: u32, sub: u32) -> [u32; 4] {
        let word = |s: &[u8]| u32::from_le_bytes(s.try_into().unwrap());
        let noise = |k: u32| {
            let v = Mix(self.noise ^ u64::from(k) << 32).next();
            let u = Mix(v).next();
            [v as u32, (v >> 32) as u32, u as u32, (u >> 32) as u32]
        };
        // Extended leaves are absent; a basic leaf that does not exist answers as the
        // last one does (this is what Intel processors do)
        if leaf >= 0x4000_0000 {
            return [0; 4];
        }
        match leaf.min(self.max_leaf) {
            0 => [
                self.max_leaf,
                word(&self.vendor[0..4]),
                word(&self.vendor[8..12]),
                word(&self.vendor[4..8]),
            ],
            1 => {
                let n = noise(1);
                [0x0009_06ea, n[1], self.leaf1.0, self.leaf1.1]
            }
            7 if sub == 0 => [0, self.leaf7, 0, 0],
            7 => [0; 4],
            0xd => [0; 4],
            k => noise(k),
        }
    }
}

fn cpu(s: &mut Src) -> Cpu {
    let vendor = match s.weighted(&[6, 4, 2, 2, 2, 2]) {
        0 => *b"GenuineIntel",
        1 => *b"AuthenticAMD",
        2 => *b"AMDisbetter!",
        3 => [*b"HygonGenuine", *b"CentaurHauls", *b"  Shanghai  ", *b"GenuineTMx86", *b"VIA VIA VIA "][s.usize(0, 4)],
        4 => {
            // One character away from a known one
            let mut v = s.pick(&[*b"GenuineIntel", *b"AuthenticAMD", *b"AMDisbetter!"]);
            let k = s.usize(0, 11);
            v[k] ^= s.range(1, 255) as u8;
            v
        }
        _ => {
            // The known words in another order
            let v = *b"GenuntelineI";
            let _ = s.raw();
            v
        }
    };
    let max_leaf = match s.weighted(&[6, 4, 2]) {
        0 => s.range(7, 0x20) as u32,
        1 => s.range(1, 6) as u32,
        _ => 0,
    };
    let noise = s.raw();
    let mut bits = s.raw();
    let mut bit = |num: u64| {
        let v = bits & 15;
        bits = bits.rotate_right(4);
        v < num
    };
    let sse2 = bit(14);
    let osxsave = bit(12);
    let avx = osxsave && bit(13) || bit(2);
    let avx2 = avx && bit(12);
    let r = s.raw();
    let set = |v: u32, k: u32, b: bool| v & !(1 << k) | u32::from(b) << k;
    // Bits of leaf 1: ecx 26 xsave, 27 osxsave, 28 avx; edx 26 sse2. XSAVE is there
    // whenever anything that depends on it is
    let ecx = set(set(set(r as u32, 26, osxsave || avx), 27, osxsave), 28, avx);
    let edx = set((r >> 32) as u32, 26, sse2);
    let leaf7 = set(s.raw() as u32, 5, avx2);
    Cpu {
        vendor,
        max_leaf,
        leaf1: (ecx, edx),
        leaf7,
        noise,
    }
}

/// A process on the generated processor
pub fn cpu_helper(s: &mut Src) -> String {
    let c = cpu(s);
    let w = s.usize(1, 40) * 2;
    let seed = s.raw();
    let conv = s.pick(&conversions());
    let stepped = !s.chance(2, 3);
    let img = picture(conv.src, w, 4, Content { kind: 0, seed });
    let small = picture(conv.src, 64, 2, Content { kind: 0, seed });
    if !crate::cpuid::emulate(c.clone()) {
        return "unavailable".into();
    }
    let a = dcp::describe_acceleration();
    let b = c_describe();
    // The conversions run on the real processor: everything it supports can be executed
    let auto = bulk(conv, 0, &img);
    let reference = bulk(conv, forced_sets()[0], &img);
    let same = match (auto, reference) {
        (Ok(a), Ok(b)) => a.p == b.p,
        _ => false,
    };
    let used = if stepped {
        match crate::cpuid::instructions(|| drop(bulk(conv, 0, &small))) {
            crate::cpuid::Used { avx: true, .. } => "avx",
            crate::cpuid::Used { sse3: true, .. } => "sse3",
            crate::cpuid::Used { steps: 0, .. } => "unknown",
            _ => "base",
        }
    } else {
        "unknown"
    };
    let again = dcp::describe_acceleration() == a;
    format!("{a} {b} {same} {again} {used}")
}

fn c26(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sub: Vec<u64> = (0..24).map(|_| s.raw()).collect();
    let c = cpu(&mut Src::new(&sub));
    ctx.set_desc(format!(
        "processor {:?} max leaf {} sse2={} avx2 usable={} (leaf 1 ecx {:08x}, leaf 7 ebx {:08x})",
        String::from_utf8_lossy(&c.vendor),
        c.max_leaf,
        c.sse2(),
        c.avx2(),
        c.leaf1.0,
        c.leaf7
    ));
    let got = helper("cpu", &sub)?;
    if got == "unavailable" {
        ctx.label("cpuid emulation is not available on this machine");
        return Ok(());
    }
    ctx.nontrivial = true;
    ctx.label(c.description());
    if c.max_leaf < 7 {
        ctx.label("no leaf 7");
    }
    let d = c.description();
    let want = format!("{d} {d} true true");
    let (said, used) = got.rsplit_once(' ').unwrap_or((&got, ""));
    if said != want {
        fail!("the library says {said}, expected {want}");
    }
    ctx.label(format!("instructions observed:{used}"));
    if used != "unknown" {
        let vector = d.contains("Avx2");
        if used != "base" && !vector {
            fail!("a conversion executed {used} instructions on {d}");
        }
    }
    Ok(())
}

/// The processor this runs on
fn c26_real(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sub = [s.raw()];
    let info = std::fs::read_to_string("/proc/cpuinfo").unwrap_or_default();
    let field = |n: &str| {
        info.lines()
            .find(|l| l.starts_with(n))
            .and_then(|l| l.split(':').nth(1))
            .unwrap_or("")
            .trim()
            .to_string()
    };
    let flags = field("flags");
    let has = |f: &str| flags.split(' ').any(|x| x == f);
    let vendor = field("vendor_id");
    let m = match vendor.as_str() {
        "GenuineIntel" => "Intel",
        "AuthenticAMD" => "Amd",
        _ => "Unknown",
    };
    let set = if has("avx2") && m != "Amd" {
        "Avx2"
    } else if has("sse2") {
        "Sse2"
    } else {
        "X86"
    };
    ctx.set_desc(format!("this processor: {vendor}"));
    ctx.nontrivial = true;
    ctx.label("real processor");
    let want = format!("{{cpu-manufacturer:{m},instruction-set:{set}}}");
    let got = helper("real", &sub)?;
    if !info.is_empty() && got != format!("{want} {want}") {
        fail!("the library says {got}, the operating system says {want}");
    }
    Ok(())
}

static RESTRICTED: AtomicBool = AtomicBool::new(false);

/// Is a fresh process another one than this?
pub fn restricted() -> bool {
    RESTRICTED.load(Ordering::Relaxed)
}

/// Makes the library choose a lesser instruction set for the life of the process, where
/// the machine allows it (1: sse2, 2: x86)
pub fn restrict(level: u64) {
    if level == 0 {
        return;
    }
    RESTRICTED.store(true, Ordering::Relaxed);
    let done = crate::cpuid::emulate(Cpu {
        vendor: *b"GenuineIntel",
        max_leaf: 1,
        leaf1: (0, if level == 1 { 1 << 26 } else { 0 }),
        leaf7: 0,
        noise: 0,
    });
    if done {
        let _ = dcp::describe_acceleration();
    }
    crate::cpuid::restore();
}

pub fn real_helper(_: &mut Src) -> String {
    let a = c_describe();
    format!("{} {a}", dcp::describe_acceleration())
}

// Used by C16 and others for labels
#[allow(dead_code)]
fn unused(ctx: &mut Ctx, c: &Case) -> Result<(), Fail> {
    dim_label(ctx, c);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            rule: "every pair of pixel format and colour space, sound or with one defect, and random combinations of sound and unsound arguments, against a model of the documented errors; every case is non-trivial",
            assumptions: &["a single-plane I422 image is refused in an unspecified way", "strides smaller than a row are not specified"],
            subs: vec![
                Sub { name: "pairs", kind: Kind::Enum(2025 * 6, 2025 * 6), f: c12_pairs },
                Sub { name: "random", kind: Kind::Random(4_000_000, 40_000_000), f: c12_random },
            ],
        },
        Prop {
            id: "C14",
            rule: "size queries: every format, number of planes and size up to 39x39 with three kinds of strides, and random dimensions, strides and array lengths, against exact arithmetic; non-trivial: a non-empty image",
            assumptions: &["sizes that do not fit in the address space must be refused, with any error", "single-plane I422 is not specified"],
            subs: vec![
                Sub { name: "small", kind: Kind::Enum(9 * 5 * 1600, 9 * 5 * 1600), f: c14_small },
                Sub { name: "random", kind: Kind::Random(8_000_000, 80_000_000), f: c14 },
            ],
        },
        Prop {
            id: "C15",
            rule: "random formats, sizes and strides: buffers are allocated with the reported sizes, touching inaccessible memory, and converted; non-trivial: at least two pixels",
            assumptions: &[],
            subs: vec![Sub { name: "sizes", kind: Kind::Random(300_000, 3_000_000), f: c15 }],
        },
        Prop {
            id: "C16",
            rule: "the same conversion or query through the Rust and the C interface, valid or not; the C arrays hold one entry per plane and touch inaccessible memory; non-trivial: at least two pixels, or any possibly refused call",
            assumptions: &["C calls go through a small program compiled against the public header"],
            subs: vec![
                Sub { name: "valid", kind: Kind::Random(200_000, 2_000_000), f: c16_valid },
                Sub { name: "any", kind: Kind::Random(500_000, 5_000_000), f: c16_any },
                Sub { name: "sizes", kind: Kind::Random(500_000, 5_000_000), f: c16_sizes },
            ],
        },
        Prop {
            id: "C17",
            rule: "C calls with one or two of 13 faults (null pointers, values outside of the enumerations, plane counts), size queries with one of 4 faults, and strings allocated and released in random order under a counting allocator; non-trivial: a fault, or several strings",
            assumptions: &[],
            subs: vec![
                Sub { name: "convert", kind: Kind::Random(1_200_000, 12_000_000), f: c17_convert },
                Sub { name: "sizes", kind: Kind::Random(640_000, 6_400_000), f: c17_sizes },
                Sub { name: "strings", kind: Kind::Random(320_000, 3_200_000), f: c17_strings },
            ],
        },
        Prop {
            id: "C26",
            rule: "fresh processes whose cpuid instruction is intercepted and answered by a generated processor (vendor, number of leaves, feature bits, operating system support); non-trivial: the interception works",
            assumptions: &["generated processors are consistent: AVX2 implies AVX, AVX implies XSAVE", "the XCR0 register is the one of this machine, whose operating system preserves the AVX state"],
            subs: vec![
                Sub { name: "real", kind: Kind::Enum(8, 8), f: c26_real },
                Sub { name: "generated", kind: Kind::Random(10000, 200000), f: c26 },
            ],
        },
    ]
}
