//! Properties of memory accesses and of the contract about buffers

use crate::capi;
use crate::engine::{Ctx, Fail, Kind, Prop, Res, Src, Sub};
use crate::fail;
use crate::gen::*;
use crate::capi::WORD;
use crate::mem::{Buf, Place, CAP};
use crate::model::*;
use crate::props_color::{check_values, dim_label};
use dcv_color_primitives as dcp;

pub fn note(ctx: &mut Ctx, case: &Case) {
    ctx.set_desc(case.desc());
    ctx.nontrivial = case.w * case.h >= 2;
    ctx.inner = (case.w * case.h) as u64;
    dim_label(ctx, case);
}

// --- C01

/// Buffers of exactly the required size, touching inaccessible memory
fn c01_exact(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let b = budget(s);
    let mut case = case(s, c, b, false);
    case.c = s.chance(1, 4);
    note(ctx, &case);
    let src = case.src_img();
    let (o, db) = convert(&case, &src)?;
    if let Err(e) = o {
        fail!("a valid conversion was rejected: {e:?}");
    }
    if let Some(d) = stray_write(c.dst, case.w, case.h, &case.dst, &db, case.salt) {
        fail!("memory outside of the image was written: {d}");
    }
    Ok(())
}

/// Every width up to a few vectors, each conversion and instruction set, both ends
fn c01_widths(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw();
    let all = conversions();
    // One colour space per pair: geometry does not depend on it, and random cases cover the rest
    let p = pairs();
    let (sp, dp) = p[(i % p.len() as u64) as usize];
    let i = i / p.len() as u64;
    let sets = forced_sets();
    let set = sets[(i % sets.len() as u64) as usize];
    let i = i / sets.len() as u64;
    let place = if i % 2 == 0 { Place::End } else { Place::Start };
    let i = i / 2;
    let cs = YUV_CS[(i % 4) as usize];
    let c = *all
        .iter()
        .find(|c| c.src == sp && c.dst == dp && (c.repack() || c.cs() == cs))
        .unwrap();
    let mut w = i as usize + 1;
    let mut h = 1 + (i as usize * 7) % 4;
    if c.even_width() {
        w *= 2;
    }
    if c.even_height() {
        h *= 2;
    }
    let mut case = Case::tight(c, set, w, h, Content { kind: 0, seed: i });
    case.src.places.iter_mut().for_each(|p| *p = place);
    case.dst.places.iter_mut().for_each(|p| *p = place);
    note(ctx, &case);
    let src = case.src_img();
    let (o, db) = convert(&case, &src)?;
    if let Err(e) = o {
        fail!("a valid conversion was rejected: {e:?}");
    }
    if let Some(d) = stray_write(c.dst, w, h, &case.dst, &db, case.salt) {
        fail!("memory outside of the image was written: {d}");
    }
    check_values(c, &src, &load(c.dst, w, h, &case.dst, &db))
}

/// Arguments with no validity requirement. Anything may be returned
pub struct Hostile {
    pub w: u32,
    pub h: u32,
    pub sf: (Pf, Cs, u32),
    pub df: (Pf, Cs, u32),
    pub ss: Option<Vec<usize>>,
    pub ds: Option<Vec<usize>>,
    pub sl: Vec<usize>,
    pub dl: Vec<usize>,
    pub sp: Vec<Place>,
    pub dp: Vec<Place>,
    pub set: u32,
}

fn odd_dim(s: &mut Src) -> u32 {
    match s.weighted(&[10, 4, 2, 2]) {
        0 => s.range(0, 70) as u32,
        1 => s.range(0, 3000) as u32,
        2 => {
            let k = s.range(8, 32);
            let d = s.range(0, 6) as i64 - 3;
            // Four bytes per pixel, or three, may wrap around a 32-bit size
            let v = if d == 0 && k > 28 { (1i64 << 32) / 3 * (k as i64 - 28) / 2 + 1 } else { 1i64 << k };
            (v + d).clamp(0, i64::from(u32::MAX)) as u32
        }
        _ => s.raw() as u32,
    }
}

fn odd_stride(s: &mut Src, row: usize) -> usize {
    match s.weighted(&[5, 4, 4, 2, 2, 2, 2]) {
        0 => 0,
        1 => row,
        2 => row.wrapping_add(s.usize(1, 40)),
        3 => s.usize(1, 8),
        4 => row.saturating_sub(s.usize(1, 4)).max(1),
        5 => {
            let k = s.range(u64::from(usize::BITS / 2 - 1), u64::from(usize::BITS - 1));
            let d = s.usize(0, 6);
            (1usize << k).wrapping_add(d).wrapping_sub(3)
        }
        _ => usize::MAX - s.usize(0, 8),
    }
}

fn odd_planes(s: &mut Src, pf: Pf) -> u32 {
    match s.weighted(&[14, 2, 1]) {
        0 => {
            if pf == Pf::Nv12 {
                2 - s.range(0, 1) as u32
            } else {
                pf.default_planes()
            }
        }
        1 => s.range(0, 5) as u32,
        _ => u32::MAX - s.range(0, 2) as u32,
    }
}

/// Pixels above which an accepted call would take too long
const MAX_WORK: u64 = 1 << 21;

pub fn hostile(s: &mut Src) -> Hostile {
    let valid = s.chance(9, 10);
    let (sf, df) = if valid {
        let c = any_conv(s);
        ((c.src, c.src_cs), (c.dst, c.dst_cs))
    } else {
        let a = (s.pick(&ALL_PF), s.pick(&ALL_CS));
        let b = (s.pick(&ALL_PF), s.pick(&ALL_CS));
        (a, b)
    };
    let sf = (sf.0, sf.1, odd_planes(s, sf.0));
    let df = (df.0, df.1, odd_planes(s, df.0));
    let (mut w, mut h) = (odd_dim(s), odd_dim(s));
    if s.chance(4, 5) {
        if sf.0.even_width() || df.0.even_width() {
            w &= !1;
        }
        if sf.0.even_height() || df.0.even_height() {
            h &= !1;
        }
    }
    let part = |s: &mut Src, f: (Pf, Cs, u32)| {
        let n = f.2.clamp(1, 4) as usize;
        let g = buffer_rows(f.0, if f.0 == Pf::Nv12 { f.2.clamp(1, 2) } else { f.0.default_planes() }, w as usize, h as usize);
        let row = |i: usize| g.get(i).map_or(7, |p| p.row);
        let mut st: Vec<usize> = (0..n).map(|i| odd_stride(s, row(i))).collect();
        let with = s.chance(1, 2);
        match s.weighted(&[8, 1, 1]) {
            0 => {}
            1 => {
                st.pop();
            }
            _ => st.push(s.raw() as usize),
        }
        let mut lens: Vec<usize> = (0..n)
            .map(|i| {
                let stv = if with { st.get(i).copied().unwrap_or(0) } else { 0 };
                let nd = g
                    .get(i)
                    .and_then(|p| need(*p, eff_stride(stv, p.row)))
                    .unwrap_or(usize::MAX);
                let v = match s.weighted(&[10, 3, 2, 2, 1]) {
                    0 => nd,
                    1 => nd.saturating_sub(s.usize(1, 40)),
                    2 => nd.saturating_add(s.usize(1, 40)),
                    3 => s.usize(0, 5000),
                    _ => 0,
                };
                // What cannot be allocated is replaced by something small
                if v > 12 << 20 {
                    s.usize(0, 5000)
                } else {
                    v
                }
            })
            .collect();
        match s.weighted(&[8, 1, 1]) {
            0 => {}
            1 => {
                lens.pop();
            }
            _ => lens.push(0),
        }
        let places: Vec<Place> = lens.iter().map(|_| place(s)).collect();
        (if with { Some(st) } else { None }, lens, places)
    };
    let (mut ss, sl, sp) = part(s, sf);
    let (mut ds, dl, dp) = part(s, df);
    if u64::from(w) * u64::from(h) > MAX_WORK {
        // Strides smaller than a row could make an absurdly large image fit
        for v in ss.iter_mut().chain(ds.iter_mut()) {
            for x in v.iter_mut() {
                if *x != 0 && *x < (w as usize).saturating_mul(4) {
                    *x = 0;
                }
            }
        }
    }
    Hostile {
        w,
        h,
        sf,
        df,
        ss,
        ds,
        sl,
        dl,
        sp,
        dp,
        set: pick_set(s),
    }
}

impl Hostile {
    pub fn desc(&self) -> String {
        format!(
            "{}x{} {} src={:?} strides={:?} lens={:?} at={:?} dst={:?} strides={:?} lens={:?} at={:?}",
            self.w,
            self.h,
            set_name(self.set),
            self.sf,
            self.ss,
            self.sl,
            self.sp,
            self.df,
            self.ds,
            self.dl,
            self.dp
        )
    }

    pub fn run(&self) -> Result<(Outcome, Vec<Buf>), Fail> {
        let mk = |l: &[usize], p: &[Place], base: usize, salt: u8| -> Vec<Buf> {
            l.iter()
                .zip(p)
                .enumerate()
                .map(|(i, (&l, &p))| {
                    let b = Buf::new(base + i, l, p);
                    b.poison(salt);
                    b
                })
                .collect()
        };
        let sb = mk(&self.sl, &self.sp, 0, 0x21);
        let db = mk(&self.dl, &self.dp, 6, 0x84);
        let sv: Vec<&[u8]> = sb.iter().map(Buf::ro).collect();
        let mut dv: Vec<&mut [u8]> = db.iter().map(Buf::rw).collect();
        let o = call_rust(
            self.set,
            &Raw {
                w: self.w,
                h: self.h,
                sf: self.sf,
                ss: self.ss.as_deref(),
                sb: &sv,
                df: self.df,
                ds: self.ds.as_deref(),
            },
            &mut dv,
        )?;
        Ok((o, db))
    }
}

fn c01_hostile(s: &mut Src, ctx: &mut Ctx) -> Res {
    let h = hostile(s);
    ctx.set_desc(h.desc());
    let (o, db) = match h.run() {
        // Panics are the subject of C20
        Err(e) if e.msg.starts_with("the library panicked") => return Ok(()),
        r => r?,
    };
    ctx.nontrivial = h.w > 0 && h.h > 0;
    ctx.label(format!("outcome:{o:?}"));
    for (k, b) in db.iter().enumerate() {
        if let Some(d) = b.margin_damage(0x84) {
            fail!("byte {d} of destination buffer {k} of {} bytes was written", b.len);
        }
    }
    Ok(())
}

/// The queries on arbitrary arguments
fn c01_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pf = s.pick(&ALL_PF);
    let planes = odd_planes(s, pf);
    let (w, h) = (odd_dim(s), odd_dim(s));
    let n = s.usize(0, 6);
    let st: Option<Vec<usize>> = if s.chance(2, 3) {
        let k = s.usize(0, 6);
        Some((0..k).map(|_| odd_stride(s, w as usize)).collect())
    } else {
        None
    };
    ctx.set_desc(format!("{pf:?} planes={planes} {w}x{h} strides={st:?} sizes array of {n}"));
    ctx.nontrivial = n > 0;
    let out = Buf::new(0, n * WORD, Place::End);
    out.poison(9);
    let sb = st.as_ref().map(|v| {
        let b = Buf::new(1, v.len() * WORD, Place::End);
        for (c, x) in b.rw().chunks_mut(WORD).zip(v) {
            c.copy_from_slice(&x.to_le_bytes());
        }
        b
    });
    let f = format(pf, Cs::Rgb, planes);
    let strides =
        sb.map(|b| unsafe { std::slice::from_raw_parts(b.ro().as_ptr().cast::<usize>(), b.len / 8) });
    let o = unsafe { std::slice::from_raw_parts_mut(out.rw().as_mut_ptr().cast::<usize>(), n) };
    // Panics are the subject of C20
    let _ = guarded(|| dcp::get_buffers_size(w, h, &f, strides, o));
    match out.margin_damage(9) {
        Some(d) => Err(Fail::new(format!("byte {d} of the sizes array was written"))),
        None => Ok(()),
    }
}

// --- C02

fn c02(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let b = budget(s);
    let mut case = case(s, c, b, true);
    case.c = s.chance(1, 5);
    note(ctx, &case);
    let src = case.src_img();
    // The salts differ in every bit, so a pixel left alone cannot look the same twice
    let mut outs = Vec::new();
    for salt in [case.salt, !case.salt] {
        case.salt = salt;
        let sb = bufs(&case.src, SRC_ARENA);
        let db = bufs(&case.dst, DST_ARENA);
        sb.iter().for_each(|b| b.poison(0x3c));
        db.iter().for_each(|b| b.poison(salt));
        store(&src, &case.src, &sb);
        let before: Vec<Vec<u8>> = sb.iter().map(|b| b.ro().to_vec()).collect();
        if let Err(e) = call_on(&case, &sb, &db)? {
            fail!("a valid conversion was rejected: {e:?}");
        }
        if let Some(d) = stray_write(c.dst, case.w, case.h, &case.dst, &db, salt) {
            fail!("memory that does not belong to the image was written: {d}");
        }
        for (k, b) in sb.iter().enumerate() {
            if b.margin_damage(0x3c).is_some() || b.ro() != &before[k][..] {
                fail!("source buffer {k} was modified");
            }
        }
        outs.push(load(c.dst, case.w, case.h, &case.dst, &db));
    }
    if let Some(d) = outs[0].diff(&outs[1]) {
        fail!("part of the image depends on the previous content of the destination: {d}");
    }
    Ok(())
}

/// Rows of the destination that touch read-only pages: writing to the padding faults even
/// if what is written is what was there
fn c02_fence(s: &mut Src, ctx: &mut Ctx) -> Res {
    const PAGE: usize = 4096;
    let c = any_conv(s);
    let b = PX;
    let mut case = case(s, c, b, false);
    let shrink = |v: usize, to: usize, even: bool| if even { v.min(to) & !1 } else { v.min(to) };
    case.h = shrink(case.h, 16, c.even_height()).max(1);
    note(ctx, &case);
    let (w, h) = (case.w, case.h);
    let end = s.chance(2, 3);
    ctx.label(if end { "fence after the rows" } else { "fence before the rows" });
    let src = picture(c.src, w, h, case.content);
    let rows = buffer_rows(c.dst, case.dst.planes, w, h);
    let mut strides = Vec::new();
    let mut areas = Vec::new();
    let mut starts = Vec::new();
    for g in &rows {
        let pages = (g.row + PAGE - 1) / PAGE;
        let stride = (pages + 1 + s.usize(0, 1)) * PAGE;
        let a = Area::sparse(stride * g.rows);
        for r in 0..g.rows {
            let p = unsafe {
                libc::mprotect(
                    a.base.add(r * stride + pages * PAGE).cast(),
                    stride - pages * PAGE,
                    libc::PROT_READ,
                )
            };
            assert!(p == 0);
        }
        starts.push(if end { pages * PAGE - g.row } else { 0 });
        strides.push(stride);
        areas.push(a);
    }
    let ds = Side {
        planes: case.dst.planes,
        lens: rows.iter().zip(&strides).map(|(g, st)| need(*g, *st).unwrap()).collect(),
        places: vec![Place::Start; rows.len()],
        strides: Some(strides),
    };
    // Only what belongs to the image has a value to begin with
    let mut dv: Vec<&mut [u8]> = areas
        .iter()
        .zip(&starts)
        .zip(&ds.lens)
        .map(|((a, &o), &n)| unsafe { std::slice::from_raw_parts_mut(a.base.add(o), n) })
        .collect();
    let sb: Vec<Vec<u8>> = src.p.clone();
    let srefs: Vec<&[u8]> = sb.iter().map(|b| &b[..]).collect();
    let o = call_rust(
        case.set,
        &Raw {
            w: w as u32,
            h: h as u32,
            sf: (c.src, c.src_cs, c.src.default_planes()),
            ss: None,
            sb: &srefs,
            df: (c.dst, c.dst_cs, ds.planes),
            ds: ds.strides.as_deref(),
        },
        &mut dv,
    )?;
    if let Err(e) = o {
        fail!("a valid conversion was rejected: {e:?}");
    }
    let mut out = Img::zero(c.dst, w, h);
    for (i, l) in logical(c.dst, w, h).iter().enumerate() {
        let (k, off, st) = plane_at(c.dst, &ds, w, h, i);
        for r in 0..l.rows {
            let o = off + r * st;
            out.p[i][r * l.row..(r + 1) * l.row].copy_from_slice(&dv[k][o..o + l.row]);
            dv[k][o..o + l.row].fill(0);
        }
    }
    for (k, a) in areas.iter().enumerate() {
        if let Some(i) = a.slice(a.len).iter().position(|&v| v != 0) {
            fail!("padding of buffer {k} was written, {i} bytes into its pages");
        }
    }
    let want = simple(c, case.set, &src)?;
    match want.diff(&out) {
        Some(d) => fail!("differs from the compact picture: {d}"),
        None => Ok(()),
    }
}

// --- C03

/// A call that must fail: a valid case with something made insufficient or incompatible
fn c03(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let case = case(s, c, PX, true);
    let (mut w, mut h) = (case.w as u32, case.h as u32);
    let mut sf = (c.src, c.src_cs, case.src.planes);
    let mut df = (c.dst, c.dst_cs, case.dst.planes);
    let (mut ss, mut ds) = (case.src.strides.clone(), case.dst.strides.clone());
    let (mut sl, mut dl) = (case.src.lens.clone(), case.dst.lens.clone());
    let need_of = |pf: Pf, side: &Side| -> Vec<usize> {
        let g = buffer_rows(pf, side.planes, case.w, case.h);
        let st = side.eff(&g);
        g.iter().zip(&st).map(|(p, s)| need(*p, *s).unwrap()).collect()
    };
    let kind = s.weighted(&[4, 4, 2, 2, 2, 2, 1, 1, 1, 2, 2, 2, 2]);
    let r = s.raw();
    let buf = [r];
    let mut t = Src::new(&buf);
    let what = match kind {
        0 => {
            let n = need_of(c.src, &case.src);
            let k = t.usize(0, n.len() - 1);
            sl[k] = n[k] - if s.chance(1, 3) { s.usize(1, n[k]) } else { 1 };
            "source buffer too small"
        }
        1 => {
            let n = need_of(c.dst, &case.dst);
            let k = t.usize(0, n.len() - 1);
            dl[k] = n[k] - if s.chance(1, 3) { s.usize(1, n[k]) } else { 1 };
            "destination buffer too small"
        }
        2 => {
            sl.truncate(t.usize(0, case.src.planes as usize - 1));
            "source buffer missing"
        }
        3 => {
            dl.truncate(t.usize(0, case.dst.planes as usize - 1));
            "destination buffer missing"
        }
        4 => {
            let n = t.usize(0, case.src.planes as usize - 1);
            ss = Some(vec![0; n]);
            "source stride missing"
        }
        5 => {
            let n = t.usize(0, case.dst.planes as usize - 1);
            ds = Some(vec![0; n]);
            "destination stride missing"
        }
        6 => {
            sf.1 = if c.src.is_yuv() { Cs::Rgb } else { t.pick(&YUV_CS) };
            "source colour space mismatch"
        }
        7 => {
            df.1 = if c.dst.is_yuv() { Cs::Rgb } else { t.pick(&YUV_CS) };
            "destination colour space mismatch"
        }
        8 => {
            if t.chance(1, 2) {
                sf.2 = if c.src == Pf::Nv12 { 3 } else { sf.2 + 1 };
            } else {
                df.2 = if c.dst == Pf::Nv12 { 3 } else { df.2 + 1 };
            }
            "number of planes"
        }
        9 if c.even_width() => {
            w -= 1;
            "odd width"
        }
        10 if c.even_height() => {
            h -= 1;
            "odd height"
        }
        11 => {
            let n = ss.get_or_insert_with(|| vec![0; 4]);
            let k = t.usize(0, case.src.planes as usize - 1);
            n[k] = usize::MAX - t.usize(0, 100);
            if case.h == 1 {
                h = 2;
            }
            if buffer_rows(c.src, case.src.planes, case.w, h as usize)[k].rows < 2 {
                n[0] = usize::MAX;
            }
            "huge source stride"
        }
        12 => {
            let n = ds.get_or_insert_with(|| vec![0; 4]);
            let k = t.usize(0, case.dst.planes as usize - 1);
            n[k] = usize::MAX / 2 + t.usize(0, 100);
            if case.h == 1 {
                h = 2;
            }
            if buffer_rows(c.dst, case.dst.planes, case.w, h as usize)[k].rows < 2 {
                n[0] = usize::MAX;
            }
            "huge destination stride"
        }
        _ => {
            // An unsupported pair
            let d: Vec<Pf> = ALL_PF
                .into_iter()
                .filter(|&d| !supported(c.src, d) && d.default_planes() == case.dst.planes && !(d.is_yuv() ^ c.dst.is_yuv()))
                .collect();
            if d.is_empty() {
                sf.2 = 0;
            } else {
                df.0 = t.pick(&d);
            }
            "unsupported pair"
        }
    };
    let hs = Hostile {
        w,
        h,
        sf,
        df,
        ss,
        ds,
        sl,
        dl,
        sp: case.src.places.clone(),
        dp: case.dst.places.clone(),
        set: case.set,
    };
    ctx.set_desc(format!("{what}: {}", hs.desc()));
    ctx.label(what);
    ctx.nontrivial = true;
    let (o, db) = hs.run()?;
    match o {
        Ok(()) => fail!("the call succeeded"),
        Err(_) => match untouched(&db, 0x84) {
            Some(d) => fail!("the call failed ({o:?}) but wrote {d}"),
            None => Ok(()),
        },
    }
}

/// Any arguments: whenever the call fails, nothing is written
fn c03_hostile(s: &mut Src, ctx: &mut Ctx) -> Res {
    let h = hostile(s);
    ctx.set_desc(h.desc());
    let (o, db) = match h.run() {
        Err(e) if e.msg.starts_with("the library panicked") => return Ok(()),
        r => r?,
    };
    ctx.label(format!("outcome:{o:?}"));
    ctx.nontrivial = o.is_err();
    if o.is_err() {
        if let Some(d) = untouched(&db, 0x84) {
            fail!("the call failed ({o:?}) but wrote {d}");
        }
    }
    Ok(())
}

fn c03_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pf = s.pick(&ALL_PF);
    let planes = odd_planes(s, pf);
    let (w, h) = (odd_dim(s), odd_dim(s));
    let n = s.usize(0, 5);
    let k = s.usize(0, 5);
    let st: Vec<usize> = (0..k).map(|_| odd_stride(s, w as usize)).collect();
    let st = if s.chance(1, 2) { Some(&st[..]) } else { None };
    ctx.set_desc(format!("sizes of {pf:?} planes={planes} {w}x{h} strides={st:?} into {n} entries"));
    let f = format(pf, Cs::Rgb, planes);
    let mut out = vec![0xdead_beef_usize; n];
    let Ok(r) = guarded(|| dcp::get_buffers_size(w, h, &f, st, &mut out).map_err(ek)) else {
        return Ok(());
    };
    ctx.nontrivial = r.is_err() && n > 0;
    ctx.label(format!("sizes:{r:?}"));
    let written = if r.is_err() { 0 } else { planes as usize };
    if out[written.min(n)..].iter().any(|&v| v != 0xdead_beef) {
        fail!("{out:?} after {r:?}");
    }
    Ok(())
}

// --- C13

fn c13(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let mut case = case(s, c, PX, false);
    // Rows may also overlap
    let (w, h) = (case.w, case.h);
    let over = s.weighted(&[4, 1, 1, 1]);
    if over & 1 != 0 && overlap(s, c.src, &mut case.src, w, h) {
        ctx.label("overlapping source rows");
    }
    if over & 2 != 0 && overlap(s, c.dst, &mut case.dst, w, h) {
        ctx.label("overlapping destination rows");
    }
    note(ctx, &case);
    let src = case.src_img();
    let (o, _) = convert(&case, &src)?;
    if let Err(e) = o {
        fail!("buffers of exactly the required size were rejected: {e:?}");
    }
    // Each buffer in turn, one or more bytes short; the others may be larger
    let total = case.src.planes + case.dst.planes;
    let k = s.below(u64::from(total)) as usize;
    let r = s.raw();
    let buf = [r];
    let mut t = Src::new(&buf);
    let np = case.src.planes as usize;
    let len = if k < np {
        &mut case.src.lens[k]
    } else {
        &mut case.dst.lens[k - np]
    };
    let by = match t.weighted(&[4, 1, 1]) {
        0 => 1,
        1 => *len,
        _ => t.usize(1, *len),
    };
    *len -= by;
    let sb = bufs(&case.src, SRC_ARENA);
    let db = bufs(&case.dst, DST_ARENA);
    ctx.set_desc(format!("{} (buffer {k} is {by} bytes short)", case.desc()));
    ctx.label(format!("short {}", if k < np { "source" } else { "destination" }));
    match call_on(&case, &sb, &db)? {
        Err(Ek::NotEnoughData) => {}
        o => fail!("buffer {k} is {by} bytes short, but the result is {o:?}"),
    }
    // More than required is fine too
    if k < np {
        case.src.lens[k] += by + s.usize(1, 100);
    } else {
        case.dst.lens[k - np] += by + s.usize(1, 100);
    }
    let (o, _) = convert(&case, &src)?;
    if let Err(e) = o {
        fail!("buffers larger than required were rejected: {e:?}");
    }
    Ok(())
}

/// Strides so large that sizes are not representable, or exceed what is provided
fn c13_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let mut case = case(s, c, PX, true);
    let on_src = s.chance(1, 2);
    let (pf, side) = if on_src {
        (c.src, &mut case.src)
    } else {
        (c.dst, &mut case.dst)
    };
    let g = buffer_rows(pf, side.planes, case.w, case.h);
    let k = s.usize(0, g.len() - 1);
    let mut v = side.strides.clone().unwrap_or_else(|| vec![0; 4]);
    let rows = g[k].rows;
    let unit = usize::MAX / rows.max(1);
    v[k] = match s.below(6) {
        0 => usize::MAX,
        1 => usize::MAX / 2,
        2 => unit.wrapping_add(s.usize(0, 4)),
        3 => unit.saturating_sub(s.usize(0, 4)),
        4 => 1usize << s.range(u64::from(usize::BITS / 2), u64::from(usize::BITS - 1)),
        _ => (usize::MAX / rows.saturating_sub(1).max(1)).wrapping_add(s.usize(0, 2)),
    };
    let enough = need(g[k], v[k]).is_some_and(|n| n <= side.lens[k]);
    side.strides = Some(v);
    ctx.set_desc(case.desc());
    ctx.nontrivial = rows > 1;
    ctx.label(if enough { "huge stride, one row" } else { "huge stride" });
    let sb = bufs(&case.src, SRC_ARENA);
    let db = bufs(&case.dst, DST_ARENA);
    let o = call_on(&case, &sb, &db)?;
    match (enough, o) {
        (true, Ok(())) | (false, Err(Ek::NotEnoughData)) => Ok(()),
        (_, o) => fail!("stride {} with {rows} rows: {o:?}", side_stride(&case, on_src, k)),
    }
}

fn side_stride(case: &Case, on_src: bool, k: usize) -> usize {
    let s = if on_src { &case.src } else { &case.dst };
    s.strides.as_ref().unwrap()[k]
}

// --- C20 (built with overflow checks and debug assertions)

fn c20_hostile(s: &mut Src, ctx: &mut Ctx) -> Res {
    let h = hostile(s);
    ctx.set_desc(h.desc());
    ctx.nontrivial = h.w > 0 && h.h > 0;
    let (o, _) = h.run()?;
    ctx.label(format!("outcome:{o:?}"));
    Ok(())
}

fn c20_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let mut case = case(s, c, PX, true);
    case.c = s.chance(1, 3);
    note(ctx, &case);
    let src = case.src_img();
    let (o, db) = convert(&case, &src)?;
    if let Err(e) = o {
        fail!("a valid conversion was rejected: {e:?}");
    }
    check_values(c, &src, &load(c.dst, case.w, case.h, &case.dst, &db))
}

fn c20_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pf = s.pick(&ALL_PF);
    let planes = odd_planes(s, pf);
    let (w, h) = (odd_dim(s), odd_dim(s));
    let n = s.usize(0, 5);
    let k = s.usize(0, 5);
    let st: Vec<usize> = (0..k).map(|_| odd_stride(s, w as usize)).collect();
    let st = if s.chance(1, 2) { Some(&st[..]) } else { None };
    ctx.set_desc(format!("sizes of {pf:?} planes={planes} {w}x{h} strides={st:?} into {n} entries"));
    ctx.nontrivial = n > 0;
    let f = format(pf, Cs::Rgb, planes);
    let mut out = vec![0; n];
    let r = guarded(|| dcp::get_buffers_size(w, h, &f, st, &mut out).map_err(ek))?;
    ctx.label(format!("sizes:{r:?}"));
    Ok(())
}

fn c20_c(s: &mut Src, ctx: &mut Ctx) -> Res {
    crate::props_api::c_any(s, ctx)
}

// --- C22

fn c22(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let (mut w, mut h) = match s.below(3) {
        0 => (0, s.range(0, 100) as u32),
        1 => (s.range(0, 100) as u32, 0),
        _ => {
            let v = s.raw() as u32;
            if s.chance(1, 2) {
                (0, v)
            } else {
                (v, 0)
            }
        }
    };
    if c.even_width() {
        w &= !1;
    }
    if c.even_height() {
        h &= !1;
    }
    let part = |s: &mut Src, pf: Pf| {
        let planes = if pf == Pf::Nv12 {
            2 - s.range(0, 1) as u32
        } else {
            pf.default_planes()
        };
        let st: Option<Vec<usize>> = if s.chance(1, 2) {
            Some((0..planes).map(|_| odd_stride(s, w as usize)).collect())
        } else {
            None
        };
        // Plenty of room, to see whether any of it is written
        let lens = vec![if s.chance(1, 3) { 0 } else { 4096 }; planes as usize];
        let places = vec![Place::End; planes as usize];
        (planes, st, lens, places)
    };
    let (spl, ss, sl, sp) = part(s, c.src);
    let (dpl, ds, dl, dp) = part(s, c.dst);
    let mut hs = Hostile {
        w,
        h,
        sf: (c.src, c.src_cs, spl),
        df: (c.dst, c.dst_cs, dpl),
        ss,
        ds,
        sl,
        dl,
        sp,
        dp,
        set: pick_set(s),
    };
    // Arrays may have fewer entries than there are planes, or more
    let (full_ss, full_ds) = (hs.ss.clone(), hs.ds.clone());
    if s.chance(1, 3) {
        for (st, l, p) in [(&mut hs.ss, &mut hs.sl, &mut hs.sp), (&mut hs.ds, &mut hs.dl, &mut hs.dp)] {
            let n = s.usize(0, 4);
            l.resize(n, 64);
            p.resize(n, Place::End);
            let n = s.usize(0, 4);
            if let Some(st) = st {
                st.resize(n, 3);
            }
        }
    }
    ctx.set_desc(hs.desc());
    ctx.nontrivial = true;
    ctx.label(format!("set:{}", set_name(hs.set)));
    let (o, db) = hs.run()?;
    if let Err(e) = o {
        fail!("an empty image was rejected: {e:?}");
    }
    if let Some(d) = untouched(&db, 0x84) {
        fail!("converting an empty image wrote {d}");
    }
    // C interface, on the same arguments
    let a: Vec<usize> = (0..spl as usize).map(|k| Buf::new(k, 0, Place::End).ro().as_ptr() as usize).collect();
    let b: Vec<usize> = (0..dpl as usize).map(|k| Buf::new(k + 4, 0, Place::End).rw().as_ptr() as usize).collect();
    let r = capi::convert(
        hs.set,
        &capi::CArgs {
            w,
            h,
            sf: Some((c.src.c_value(), c.src_cs.c_value(), spl)),
            ss: full_ss.as_deref(),
            sb: Some(&a),
            df: Some((c.dst.c_value(), c.dst_cs.c_value(), dpl)),
            ds: full_ds.as_deref(),
            db: Some(&b),
            error: true,
        },
    )?;
    if r != Some(Ok(())) {
        fail!("C: an empty image was rejected: {r:?}");
    }
    // Sizes of an empty image with automatic strides
    for (pf, n) in [(c.src, spl), (c.dst, dpl)] {
        let f = format(pf, Cs::Rgb, n);
        let mut out = vec![7usize; n as usize];
        let r = guarded(|| dcp::get_buffers_size(w, h, &f, None, &mut out).map_err(ek))?;
        if r != Ok(()) || out.iter().any(|&v| v != 0) {
            fail!("sizes of an empty {pf:?} image: {r:?} {out:?}");
        }
    }
    Ok(())
}

// --- C21: images that span more than 4 GiB

/// A large sparse or periodic area
struct Area {
    base: *mut u8,
    len: usize,
}

impl Area {
    fn reserve(len: usize) -> Area {
        let len = (len + 4095) & !4095;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len + 8192,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "cannot reserve {len} bytes");
        Area {
            base: unsafe { p.cast::<u8>().add(4096) },
            len,
        }
    }

    /// Pages that are allocated when touched
    fn sparse(len: usize) -> Area {
        let a = Area::reserve(len);
        let p = unsafe {
            libc::mmap(
                a.base.cast(),
                a.len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        a
    }

    /// `n` repetitions of the same `period` bytes of memory, then `tail` bytes of their own
    fn periodic(period: usize, n: usize, tail: usize) -> Area {
        assert!(period % 4096 == 0);
        let tail_len = (tail + 4095) & !4095;
        let a = Area::reserve(period * n + tail_len);
        unsafe {
            let fd = libc::memfd_create(c"dcpv-period".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, (period + tail_len) as libc::off_t) == 0);
            let map = |at: usize, off: usize, len: usize| {
                let p = libc::mmap(
                    a.base.add(at).cast(),
                    len,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED | libc::MAP_FIXED,
                    fd,
                    off as libc::off_t,
                );
                assert!(p != libc::MAP_FAILED);
            };
            for k in 0..n {
                map(k * period, 0, period);
            }
            if tail_len > 0 {
                map(period * n, period, tail_len);
            }
            libc::close(fd);
        }
        a
    }

    /// The last `len` bytes of the area end it
    fn slice(&self, len: usize) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, len) }
    }
}

impl Drop for Area {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.sub(4096).cast(), self.len + 8192);
        }
    }
}

/// A few rows very far apart: offsets exceed 32 bits
/// Bits of the largest strides but one
const BIG: u32 = if usize::BITS == 64 { 31 } else { 24 };

fn c21_strides(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let set = pick_set(s);
    let mut w = s.usize(1, 90);
    let mut h = s.usize(2, 8);
    if c.even_width() {
        w = (w + 1) & !1;
    }
    if c.even_height() {
        h = (h + 1) & !1;
    }
    let src = picture(c.src, w, h, content(s));
    // Which buffers get the large stride
    let big_src = s.chance(1, 2);
    let big_dst = !big_src || s.chance(1, 3);
    let part = |s: &mut Src, pf: Pf, big: bool| -> (Side, Vec<Area>) {
        let planes = if pf == Pf::Nv12 {
            2 - s.range(0, 1) as u32
        } else {
            pf.default_planes()
        };
        let g = buffer_rows(pf, planes, w, h);
        let mut st = Vec::new();
        let mut lens = Vec::new();
        let mut areas = Vec::new();
        for p in &g {
            let v = if big {
                match s.below(5) {
                    0 => (1usize << BIG) + s.usize(0, 5000),
                    1 => (1usize << (BIG + 1)) + s.usize(0, 5000),
                    2 => (1usize << (BIG - 1)) + s.usize(0, 5000),
                    3 => (1usize << (BIG + 2)) + s.usize(0, 5000),
                    _ => (1usize << BIG) - s.usize(1, 5000),
                }
            } else {
                p.row + s.usize(0, 20)
            };
            let n = need(*p, v).unwrap();
            st.push(v);
            lens.push(n);
            areas.push(Area::sparse(n));
        }
        let side = Side {
            planes,
            strides: Some(st),
            places: vec![Place::Start; lens.len()],
            lens,
        };
        (side, areas)
    };
    let (ss, sa) = part(s, c.src, big_src);
    let (ds, da) = part(s, c.dst, big_dst);
    ctx.set_desc(format!("{c:?} {w}x{h} {} src {ss:?} dst {ds:?}", set_name(set)));
    ctx.nontrivial = true;
    ctx.label(format!("set:{}", set_name(set)));
    ctx.label(format!("{:?}->{:?}", c.src, c.dst));
    let mut sv = Vec::new();
    for (i, a) in sa.iter().enumerate() {
        sv.push(a.slice(ss.lens[i]));
    }
    for (i, l) in logical(c.src, w, h).iter().enumerate() {
        let (k, off, st) = plane_at(c.src, &ss, w, h, i);
        for r in 0..l.rows {
            let o = off + r * st;
            sv[k][o..o + l.row].copy_from_slice(&src.p[i][r * l.row..(r + 1) * l.row]);
        }
    }
    let srefs: Vec<&[u8]> = sv.iter().map(|s| &**s).collect();
    let mut dv: Vec<&mut [u8]> = da.iter().enumerate().map(|(i, a)| a.slice(ds.lens[i])).collect();
    let o = call_rust(
        set,
        &Raw {
            w: w as u32,
            h: h as u32,
            sf: (c.src, c.src_cs, ss.planes),
            ss: ss.strides.as_deref(),
            sb: &srefs,
            df: (c.dst, c.dst_cs, ds.planes),
            ds: ds.strides.as_deref(),
        },
        &mut dv,
    )?;
    if let Err(e) = o {
        fail!("a valid conversion was rejected: {e:?}");
    }
    let mut out = Img::zero(c.dst, w, h);
    for (i, l) in logical(c.dst, w, h).iter().enumerate() {
        let (k, off, st) = plane_at(c.dst, &ds, w, h, i);
        for r in 0..l.rows {
            let o = off + r * st;
            out.p[i][r * l.row..(r + 1) * l.row].copy_from_slice(&dv[k][o..o + l.row]);
        }
    }
    let want = simple(c, set, &src)?;
    match want.diff(&out) {
        Some(d) => fail!("differs from the compact picture: {d}"),
        None => Ok(()),
    }
}

/// One or two rows of more than a billion pixels, or many rows that together take more
/// than 4 GiB. Memory is periodic: a row repeats the same pixels, up to a final stretch
/// that has memory of its own
fn c21_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    const PERIOD: usize = 1 << 20;
    let c = any_conv(s);
    let set = pick_set(s);
    let h = if c.even_height() { 2 } else { 1 };
    // Beyond 2^32 bytes of the widest side
    let bytes = c.src.depth().max(c.dst.depth()).max(1);
    let base = ((1u64 << 32) / bytes as u64) as usize;
    let n = base / PERIOD + s.usize(0, 3);
    let mut tail = s.usize(2, 3000);
    if c.even_width() {
        tail &= !1;
    }
    let w = n * PERIOD + tail;
    let body = picture(c.src, PERIOD, h, content(s));
    let last = picture(c.src, tail, h, content(s));
    ctx.set_desc(format!("{c:?} {w}x{h} {}", set_name(set)));
    ctx.nontrivial = true;
    ctx.inner = (w * h) as u64;
    ctx.label(format!("set:{}", set_name(set)));
    ctx.label(format!("{:?}->{:?}", c.src, c.dst));
    // Each row of each plane is an area of its own inside one buffer: rows are
    // (n + 1) periods apart
    let build = |pf: Pf| -> (Vec<Area>, Vec<usize>, Vec<usize>) {
        let mut areas = Vec::new();
        let mut strides = Vec::new();
        let mut lens = Vec::new();
        let per = logical(pf, PERIOD, h);
        let full = logical(pf, w, h);
        let tl = logical(pf, tail, h);
        for i in 0..per.len() {
            if full[i].rows == 1 {
                areas.push(Area::periodic(per[i].row, n, tl[i].row));
                strides.push(0);
                lens.push(full[i].row);
            } else {
                // Two rows: the row is n periods and the tail, and the stride is n + 1
                // periods; the first row's tail and the rest of its last period are
                // periodic memory as well, so give every row its own mapping
                let row_bytes = per[i].row * (n + 1);
                let a = Area::reserve(row_bytes * full[i].rows);
                for r in 0..full[i].rows {
                    unsafe {
                        let fd = libc::memfd_create(c"dcpv-row".as_ptr(), 0);
                        assert!(fd >= 0 && libc::ftruncate(fd, (2 * per[i].row) as libc::off_t) == 0);
                        for k in 0..=n {
                            let off = if k == n { per[i].row } else { 0 };
                            let p = libc::mmap(
                                a.base.add(r * row_bytes + k * per[i].row).cast(),
                                per[i].row,
                                libc::PROT_READ | libc::PROT_WRITE,
                                libc::MAP_SHARED | libc::MAP_FIXED,
                                fd,
                                off as libc::off_t,
                            );
                            assert!(p != libc::MAP_FAILED);
                        }
                        libc::close(fd);
                    }
                }
                areas.push(a);
                strides.push(row_bytes);
                lens.push(row_bytes * (full[i].rows - 1) + full[i].row);
            }
        }
        (areas, strides, lens)
    };
    let (sa, ss, sl) = build(c.src);
    let (da, ds, dl) = build(c.dst);
    let put = |pf: Pf| (logical(pf, PERIOD, h), logical(pf, tail, h));
    {
        let (per, tl) = put(c.src);
        for i in 0..per.len() {
            for r in 0..per[i].rows {
                let row = unsafe { sa[i].base.add(r * ss[i]) };
                unsafe {
                    std::ptr::copy_nonoverlapping(body.p[i].as_ptr().add(r * per[i].row), row, per[i].row);
                    std::ptr::copy_nonoverlapping(
                        last.p[i].as_ptr().add(r * tl[i].row),
                        row.add(n * per[i].row),
                        tl[i].row,
                    );
                }
            }
        }
    }
    let srefs: Vec<&[u8]> = sa.iter().enumerate().map(|(i, a)| &*a.slice(sl[i])).collect();
    let mut dv: Vec<&mut [u8]> = da.iter().enumerate().map(|(i, a)| a.slice(dl[i])).collect();
    let o = call_rust(
        set,
        &Raw {
            w: w as u32,
            h: h as u32,
            sf: (c.src, c.src_cs, c.src.default_planes()),
            ss: Some(&ss),
            sb: &srefs,
            df: (c.dst, c.dst_cs, c.dst.default_planes()),
            ds: Some(&ds),
        },
        &mut dv,
    )?;
    if let Err(e) = o {
        fail!("a valid conversion was rejected: {e:?}");
    }
    let read = |pf: Pf, pw: usize, at: bool| -> Img {
        let mut img = Img::zero(pf, pw, h);
        let per = logical(pf, PERIOD, h);
        let l = logical(pf, pw, h);
        for i in 0..l.len() {
            for r in 0..l[i].rows {
                unsafe {
                    let row = da[i].base.add(r * ds[i] + if at { n * per[i].row } else { 0 });
                    std::ptr::copy_nonoverlapping(row, img.p[i].as_mut_ptr().add(r * l[i].row), l[i].row);
                }
            }
        }
        img
    };
    // Vectors may straddle the tail's start: the pixels are the same whatever the position
    for (what, src, got) in [
        ("body", &body, read(c.dst, PERIOD, false)),
        ("end of the rows", &last, read(c.dst, tail, true)),
    ] {
        let want = simple(c, set, src)?;
        if let Some(d) = want.diff(&got) {
            fail!("the {what} differs from the same pixels in a small picture: {d}");
        }
    }
    Ok(())
}

/// Rows of the source and the destination: `n` times `body`, then `last`
fn c21_tall(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let set = pick_set(s);
    let mut w = s.usize(1, 24);
    if c.even_width() {
        w = (w + 1) & !1;
    }
    let max = if usize::BITS == 64 { 1 << 22 } else { 1 << 19 };
    let most = (max / w).max(66_000);
    let mut h = match s.below(3) {
        0 => (1 << 16) + s.usize(0, 40) - 20,
        1 => (1 << 17) + s.usize(0, 40) - 20,
        _ => s.usize(60_000, most),
    };
    if c.even_height() {
        h &= !1;
    }
    // Not a power of two, so that rows whose numbers agree in their low bits differ
    let period = 2 * 499;
    let (n, rest) = (h / period, h % period);
    ctx.set_desc(format!("{c:?} {w}x{h} {}", set_name(set)));
    ctx.nontrivial = true;
    ctx.inner = (w * h) as u64;
    ctx.label(format!("set:{}", set_name(set)));
    ctx.label(format!("{:?}->{:?}", c.src, c.dst));
    let body = picture(c.src, w, period, content(s));
    let want = simple(c, set, &body)?;
    let part = |s: &mut Src, pf: Pf| -> (Side, Vec<Area>) {
        let planes = if pf == Pf::Nv12 { 2 - s.range(0, 1) as u32 } else { pf.default_planes() };
        let g = buffer_rows(pf, planes, w, h);
        let st: Vec<usize> = g.iter().map(|p| p.row + if s.chance(1, 2) { 0 } else { s.usize(1, 9) }).collect();
        let lens: Vec<usize> = g.iter().zip(&st).map(|(p, v)| need(*p, *v).unwrap()).collect();
        let areas = lens.iter().map(|&n| Area::sparse(n)).collect();
        let side = Side { planes, strides: Some(st), places: vec![Place::Start; lens.len()], lens };
        (side, areas)
    };
    let (ss, sa) = part(s, c.src);
    let (ds, da) = part(s, c.dst);
    let mut sv: Vec<&mut [u8]> = sa.iter().enumerate().map(|(i, a)| a.slice(ss.lens[i])).collect();
    let (full, per) = (logical(c.src, w, h), logical(c.src, w, period));
    for i in 0..full.len() {
        let (k, off, st) = plane_at(c.src, &ss, w, h, i);
        for r in 0..full[i].rows {
            let (o, p) = (off + r * st, r % per[i].rows * per[i].row);
            sv[k][o..o + per[i].row].copy_from_slice(&body.p[i][p..p + per[i].row]);
        }
    }
    let srefs: Vec<&[u8]> = sv.iter().map(|s| &**s).collect();
    let mut dv: Vec<&mut [u8]> = da.iter().enumerate().map(|(i, a)| a.slice(ds.lens[i])).collect();
    let o = call_rust(
        set,
        &Raw {
            w: w as u32,
            h: h as u32,
            sf: (c.src, c.src_cs, ss.planes),
            ss: ss.strides.as_deref(),
            sb: &srefs,
            df: (c.dst, c.dst_cs, ds.planes),
            ds: ds.strides.as_deref(),
        },
        &mut dv,
    )?;
    if let Err(e) = o {
        fail!("a valid conversion was rejected: {e:?}");
    }
    let (full, per) = (logical(c.dst, w, h), logical(c.dst, w, period));
    for i in 0..full.len() {
        let (k, off, st) = plane_at(c.dst, &ds, w, h, i);
        for r in 0..full[i].rows {
            let (o, p) = (off + r * st, r % per[i].rows * per[i].row);
            if dv[k][o..o + per[i].row] != want.p[i][p..p + per[i].row] {
                fail!(
                    "row {r} of plane {i} is {:?}, in a picture of {period} rows {:?} ({n} repetitions and {rest} rows)",
                    &dv[k][o..o + per[i].row],
                    &want.p[i][p..p + per[i].row]
                );
            }
        }
    }
    Ok(())
}

/// More rows than a signed 32-bit integer counts, in memory that repeats
fn c21_rows(s: &mut Src, ctx: &mut Ctx) -> Res {
    const PERIOD: usize = 1 << 20;
    let c = any_conv(s);
    let set = pick_set(s);
    let w = if c.even_width() { 2 } else { 1 };
    let n = (1usize << 31) / PERIOD + s.usize(0, 2);
    let tail = s.usize(1, 1500) * 2;
    let h = n * PERIOD + tail;
    ctx.set_desc(format!("{c:?} {w}x{h} {}", set_name(set)));
    ctx.nontrivial = true;
    ctx.inner = (w * h) as u64;
    ctx.label(format!("set:{}", set_name(set)));
    ctx.label(format!("{:?}->{:?}", c.src, c.dst));
    let body = picture(c.src, w, PERIOD, content(s));
    let last = picture(c.src, w, tail, content(s));
    let areas = |pf: Pf| -> Vec<Area> {
        let (per, tl) = (logical(pf, w, PERIOD), logical(pf, w, tail));
        per.iter().zip(&tl).map(|(p, t)| Area::periodic(p.row * p.rows, n, t.row * t.rows)).collect()
    };
    let (sa, da) = (areas(c.src), areas(c.dst));
    let size = |pf: Pf| -> Vec<usize> { logical(pf, w, h).iter().map(|p| p.row * p.rows).collect() };
    for (i, p) in logical(c.src, w, PERIOD).iter().enumerate() {
        let m = sa[i].slice(size(c.src)[i]);
        m[..p.row * p.rows].copy_from_slice(&body.p[i]);
        m[p.row * p.rows * n..].copy_from_slice(&last.p[i]);
    }
    let srefs: Vec<&[u8]> = sa.iter().zip(size(c.src)).map(|(a, n)| &*a.slice(n)).collect();
    let mut dv: Vec<&mut [u8]> = da.iter().zip(size(c.dst)).map(|(a, n)| a.slice(n)).collect();
    let o = call_rust(
        set,
        &Raw {
            w: w as u32,
            h: h as u32,
            sf: (c.src, c.src_cs, c.src.default_planes()),
            ss: None,
            sb: &srefs,
            df: (c.dst, c.dst_cs, c.dst.default_planes()),
            ds: None,
        },
        &mut dv,
    )?;
    if let Err(e) = o {
        fail!("a valid conversion was rejected: {e:?}");
    }
    for (i, p) in logical(c.dst, w, PERIOD).iter().enumerate() {
        let at = p.row * p.rows * n;
        for (what, src, rows, got) in [
            ("first rows", &body, PERIOD, &dv[i][..p.row * p.rows]),
            ("last rows", &last, tail, &dv[i][at..]),
        ] {
            let mut want = Img::zero(c.dst, w, rows);
            // In pieces: a small picture has to fit its arena
            let step = 1 << 16;
            for from in (0..rows).step_by(step) {
                let k = step.min(rows - from);
                let mut piece = Img::zero(c.src, w, k);
                for (j, l) in logical(c.src, w, k).iter().enumerate() {
                    let o = from / (rows / logical(c.src, w, rows)[j].rows) * l.row;
                    piece.p[j].copy_from_slice(&src.p[j][o..o + l.row * l.rows]);
                }
                let piece = simple(c, set, &piece)?;
                for (j, l) in logical(c.dst, w, k).iter().enumerate() {
                    let o = from / (rows / logical(c.dst, w, rows)[j].rows) * l.row;
                    want.p[j][o..o + l.row * l.rows].copy_from_slice(&piece.p[j]);
                }
            }
            if let Some(k) = (0..got.len()).find(|&k| got[k] != want.p[i][k]) {
                fail!("byte {k} of plane {i} of the {what} is {}, in a small picture {}", got[k], want.p[i][k]);
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    assert!(CAP > MAX_CASE_BYTES);
    vec![
        Prop {
            id: "C01",
            rule: "calls on buffers that touch inaccessible pages: valid calls with buffers of exactly the required size (random, and every width up to 160 pixels for each conversion and instruction set), and calls with arbitrary, mostly inconsistent, arguments; non-trivial: a non-empty image, or a non-empty array",
            assumptions: &["reads inside the provided buffers but outside the image are not violations", "writes beyond 256 bytes around a buffer but inside its 64 MiB arena are seen only through C02's images"],
            subs: vec![
                Sub { name: "widths", kind: Kind::Enum(20 * 3 * 2 * 300, 20 * 3 * 2 * 600), f: c01_widths },
                Sub { name: "exact", kind: Kind::Random(160_000, 1_600_000), f: c01_exact },
                Sub { name: "hostile", kind: Kind::Random(240_000, 2_400_000), f: c01_hostile },
                Sub { name: "sizes", kind: Kind::Random(200_000, 2_000_000), f: c01_sizes },
            ],
        },
        Prop {
            id: "C02",
            rule: "random valid conversions, run over two complementary destination fillings, or into rows between read-only pages; non-trivial: at least two pixels",
            assumptions: &[],
            subs: vec![
                Sub { name: "writes", kind: Kind::Random(420_000, 4_200_000), f: c02 },
                Sub { name: "fence", kind: Kind::Random(60_000, 600_000), f: c02_fence },
            ],
        },
        Prop {
            id: "C03",
            rule: "calls made to fail by one of 14 faults, calls with arbitrary arguments and size queries with arbitrary arguments; non-trivial: the call failed",
            assumptions: &[],
            subs: vec![
                Sub { name: "faults", kind: Kind::Random(160_000, 1_600_000), f: c03 },
                Sub { name: "hostile", kind: Kind::Random(200_000, 2_000_000), f: c03_hostile },
                Sub { name: "sizes", kind: Kind::Random(200_000, 2_000_000), f: c03_sizes },
            ],
        },
        Prop {
            id: "C13",
            rule: "random layouts with buffers of exactly the required size, then one buffer short by one or more bytes, then larger; strides whose total is not representable; non-trivial: at least two pixels, or at least two rows",
            assumptions: &["strides are at least one row long"],
            subs: vec![
                Sub { name: "boundary", kind: Kind::Random(560_000, 5_600_000), f: c13 },
                Sub { name: "huge", kind: Kind::Random(420_000, 4_200_000), f: c13_huge },
            ],
        },
        Prop {
            id: "C20",
            rule: "valid and arbitrary calls of the Rust and C functions in a build with overflow checks and debug assertions; non-trivial: a non-empty image or array",
            assumptions: &["the checked build is compiled with debug-assertions and overflow-checks, as a debug build of an application is"],
            subs: vec![
                Sub { name: "valid", kind: Kind::Random(12000, 240000), f: c20_valid },
                Sub { name: "hostile", kind: Kind::Random(50000, 1000000), f: c20_hostile },
                Sub { name: "sizes", kind: Kind::Random(50000, 1000000), f: c20_sizes },
                Sub { name: "c", kind: Kind::Random(25000, 500000), f: c20_c },
            ],
        },
        Prop {
            id: "C21",
            rule: "pictures whose rows are up to 8 GiB apart in sparse memory, pictures of up to millions of rows, and pictures with rows of 2^30 pixels and more, or with more than 2^31 rows, in periodic memory; every case is non-trivial",
            assumptions: &["pictures of more than 4 GiB are built from repeated pages, so a misplaced access is only seen if it lands outside of the areas or changes what ends up at the end of the rows"],
            subs: vec![
                Sub { name: "strides", kind: Kind::Random(1_200, 20_000), f: c21_strides },
                Sub { name: "tall", kind: Kind::Random(1_600, 20_000), f: c21_tall },
                Sub { name: "wide", kind: Kind::Random(32, 400), f: c21_wide },
                Sub { name: "rows", kind: Kind::Random(8, 80), f: c21_rows },
            ],
        },
        Prop {
            id: "C22",
            rule: "random supported conversions with a zero width or height and arbitrary strides and buffers, through both interfaces; every case is non-trivial",
            assumptions: &[],
            subs: vec![Sub { name: "empty", kind: Kind::Random(3_000_000, 30_000_000), f: c22 }],
        },
    ]
}

const MAX_CASE_BYTES: usize = CAP - (4 << 20);
