//! Relations between calls: instruction sets, layouts, crops, threads, histories

use crate::engine::{hash64, helper, Ctx, Fail, Kind, Prop, Res, Src, Sub};
use crate::fail;
use crate::gen::*;
use crate::mem::{canary, Buf, Place};
use crate::model::*;
use crate::props_color::dim_label;
use crate::props_mem::{hostile, note};
use dcv_color_primitives as dcp;
use std::fmt::Write as _;
use std::sync::{Arc, Barrier};

// --- C09

fn c09(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let b = budget(s);
    let mut case = case_rc(s, c, b, true);
    note(ctx, &case);
    let src = case.src_img();
    let mut first: Option<(u32, Img)> = None;
    for &set in usable_sets() {
        case.set = set;
        let out = must_convert(&case, &src)?;
        match &first {
            None => first = Some((set, out)),
            Some((s0, f)) => {
                if let Some(d) = f.diff(&out) {
                    fail!("{} and {} disagree: {d}", set_name(*s0), set_name(set));
                }
            }
        }
    }
    Ok(())
}

/// Arbitrary arguments are judged alike
fn c09_outcome(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut h = hostile(s);
    ctx.set_desc(h.desc());
    ctx.nontrivial = h.w > 0 && h.h > 0;
    let mut first = None;
    for &set in usable_sets() {
        h.set = set;
        let o = match h.run() {
            Err(e) if e.msg.starts_with("the library panicked") => return Ok(()),
            r => r?.0,
        };
        if *first.get_or_insert(o) != o {
            fail!("{:?} with {}, {o:?} with {}", first.unwrap(), set_name(0), set_name(set));
        }
    }
    ctx.label(format!("outcome:{:?}", first.unwrap()));
    Ok(())
}

/// Every colour or code; or blocks with every sum
fn c09_cube(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw();
    let all = conversions();
    let c = all[(i / 17 % all.len() as u64) as usize];
    let slice = i % 17;
    let more = i / (17 * all.len() as u64);
    let sub = !c.src.is_yuv() && matches!(c.dst, Pf::I420 | Pf::Nv12);
    let src = if slice < 16 && more == 0 {
        crate::props_color::cube(c.src, slice)
    } else if sub {
        crate::props_color::sums_picture(c.src, ((i * 577) % 1021) as usize)
    } else {
        return Ok(());
    };
    ctx.set_desc(format!("{:?}->{:?} {:?} colour cube slice {slice}, {more}", c.src, c.dst, c.cs()));
    ctx.nontrivial = true;
    ctx.inner = (src.w * src.h) as u64;
    let mut first: Option<(u32, Img)> = None;
    for &set in usable_sets() {
        let out = crate::props_color::bulk(c, set, &src)?;
        match &first {
            None => first = Some((set, out)),
            Some((s0, f)) => {
                if let Some(d) = f.diff(&out) {
                    fail!("{} and {} disagree: {d}", set_name(*s0), set_name(set));
                }
            }
        }
    }
    Ok(())
}

/// Every width, every conversion
fn c09_widths(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw();
    let all = conversions();
    let c = all[(i % all.len() as u64) as usize];
    let i = i / all.len() as u64;
    let mut w = i as usize + 1;
    let mut h = 1 + (i as usize * 5) % 3;
    if c.even_width() {
        w *= 2;
    }
    if c.even_height() {
        h *= 2;
    }
    // Alternate uniform bytes, extremes and edges
    let kind = [0, 2, 3][(i % 3) as usize];
    let mut case = Case::tight(c, 0, w, h, Content { kind, seed: i * 31 + 7 });
    note(ctx, &case);
    let src = case.src_img();
    let mut first: Option<Img> = None;
    for &set in usable_sets() {
        case.set = set;
        let out = must_convert(&case, &src)?;
        match &first {
            None => first = Some(out),
            Some(f) => {
                if let Some(d) = f.diff(&out) {
                    fail!("auto and {} disagree: {d}", set_name(set));
                }
            }
        }
    }
    Ok(())
}

// --- C10

fn c10(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let b = budget(s);
    let mut case = case(s, c, b, true);
    case.c = s.chance(1, 5);
    note(ctx, &case);
    let src = case.src_img();
    let base = Case {
        src: Side::tight(c.src, c.src.default_planes(), case.w, case.h),
        dst: Side::tight(c.dst, c.dst.default_planes(), case.w, case.h),
        c: false,
        ..case.clone()
    };
    let want = must_convert(&base, &src)?;
    let got = must_convert(&case, &src)?;
    if let Some(d) = want.diff(&got) {
        fail!("the compact layout gives another picture: {d}");
    }
    // Padding bytes of the source do not matter
    let sb = bufs(&case.src, SRC_ARENA);
    let db = bufs(&case.dst, DST_ARENA);
    sb.iter().for_each(|b| b.poison(0xa5));
    db.iter().for_each(|b| b.poison(case.salt));
    store(&src, &case.src, &sb);
    if let Err(e) = call_on(&case, &sb, &db)? {
        fail!("a valid conversion was rejected: {e:?}");
    }
    if let Some(d) = want.diff(&load(c.dst, case.w, case.h, &case.dst, &db)) {
        fail!("the padding of the source changes the picture: {d}");
    }
    Ok(())
}

/// Rows of the source may overlap (for instance to repeat a part of it)
fn c10_overlap(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let b = budget(s);
    let mut case = case(s, c, b, false);
    case.c = s.chance(1, 5);
    let (w, h) = (case.w, case.h);
    ctx.nontrivial = overlap(s, c.src, &mut case.src, w, h);
    ctx.set_desc(case.desc());
    ctx.inner = (w * h) as u64;
    let sb = bufs(&case.src, SRC_ARENA);
    let db = bufs(&case.dst, DST_ARENA);
    sb.iter().for_each(|b| b.poison(case.salt ^ 0x3c));
    db.iter().for_each(|b| b.poison(case.salt));
    store(&case.src_img(), &case.src, &sb);
    let src = load(c.src, w, h, &case.src, &sb);
    if let Err(e) = call_on(&case, &sb, &db)? {
        fail!("a source whose rows overlap was rejected: {e:?}");
    }
    let got = load(c.dst, w, h, &case.dst, &db);
    let base = Case {
        src: Side::tight(c.src, c.src.default_planes(), w, h),
        dst: Side::tight(c.dst, c.dst.default_planes(), w, h),
        c: false,
        ..case.clone()
    };
    if let Some(d) = must_convert(&base, &src)?.diff(&got) {
        fail!("rows of the source that overlap are not read where the stride says: {d}");
    }
    Ok(())
}

// --- C11

/// A rectangle of a larger picture, converted in place, gives that rectangle of the
/// converted picture, and nothing else is written
fn c11_crop(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let b = budget(s);
    let (mut w, mut h) = dims(s, c, b);
    let set = pick_set(s);
    let content = content(s);
    // Surroundings
    let (mut x0, mut y0) = (s.usize(0, 40), s.usize(0, 6));
    let (mut x1, mut y1) = (s.usize(0, 40), s.usize(0, 6));
    if c.even_width() {
        x0 &= !1;
        x1 &= !1;
    }
    if c.even_height() {
        y0 &= !1;
        y1 &= !1;
    }
    w = w.min(20_000) & if c.even_width() { !1 } else { !0 };
    h = h.min(20_000) & if c.even_height() { !1 } else { !0 };
    let (fw, fh) = (w + x0 + x1, h + y0 + y1);
    let mut case = Case::tight(c, set, fw, fh, content);
    case.salt = s.raw() as u8;
    let roi_dst = s.chance(2, 3);
    ctx.set_desc(format!(
        "{}; rectangle {w}x{h} at ({x0},{y0}), written {}",
        case.desc(),
        if roi_dst { "in place" } else { "on its own" }
    ));
    ctx.nontrivial = w * h >= 2;
    ctx.inner = (w * h) as u64;
    dim_label(ctx, &case);
    let src = case.src_img();
    let whole = must_convert(&case, &src)?;

    let sb = bufs(&case.src, SRC_ARENA);
    sb.iter().for_each(|b| b.poison(1));
    store(&src, &case.src, &sb);
    // Offsets and lengths of the rectangle in each plane
    let cut = |pf: Pf| -> Vec<(usize, usize, Plane)> {
        let full = logical(pf, fw, fh);
        let part = logical(pf, w, h);
        let (sx, sy) = pf.subsampling();
        (0..full.len())
            .map(|i| {
                let (bx, by) = match pf {
                    Pf::Nv12 if i == 1 => (x0, y0 / 2),
                    _ if pf.is_yuv() && i > 0 => (x0 / sx, y0 / sy),
                    _ if pf.is_yuv() => (x0, y0),
                    _ => (x0 * pf.depth(), y0),
                };
                (by * full[i].row + bx, full[i].row, part[i])
            })
            .collect()
    };
    let sc = cut(c.src);
    let ss: Vec<usize> = sc.iter().map(|v| v.1).collect();
    let sv: Vec<&[u8]> = sc
        .iter()
        .zip(&sb)
        .map(|(&(o, st, p), b)| &b.ro()[o..o + need(p, st).unwrap()])
        .collect();
    let dside = if roi_dst {
        case.dst.clone()
    } else {
        Side::tight(c.dst, c.dst.default_planes(), w, h)
    };
    let db = bufs(&dside, DST_ARENA);
    db.iter().for_each(|b| b.poison(case.salt));
    let dc: Vec<(usize, usize, Plane)> = if roi_dst {
        cut(c.dst)
    } else {
        logical(c.dst, w, h).into_iter().map(|p| (0, p.row, p)).collect()
    };
    let ds: Vec<usize> = dc.iter().map(|v| v.1).collect();
    let mut dv: Vec<&mut [u8]> = dc
        .iter()
        .zip(&db)
        .map(|(&(o, st, p), b)| &mut b.rw()[o..o + need(p, st).unwrap()])
        .collect();
    let o = call_rust(
        set,
        &Raw {
            w: w as u32,
            h: h as u32,
            sf: (c.src, c.src_cs, c.src.default_planes()),
            ss: Some(&ss),
            sb: &sv,
            df: (c.dst, c.dst_cs, c.dst.default_planes()),
            ds: Some(&ds),
        },
        &mut dv,
    )?;
    if let Err(e) = o {
        fail!("a valid conversion was rejected: {e:?}");
    }
    let want = whole.crop(x0, y0, w, h);
    let mut got = Img::zero(c.dst, w, h);
    for (k, &(o, st, p)) in dc.iter().enumerate() {
        let m = db[k].rw();
        for r in 0..p.rows {
            got.p[k][r * p.row..(r + 1) * p.row].copy_from_slice(&m[o + r * st..o + r * st + p.row]);
        }
        // Bytes around the rectangle
        let mut pos = 0;
        let mut ranges = Vec::new();
        for r in 0..p.rows {
            ranges.push((pos, o + r * st));
            pos = o + r * st + p.row;
        }
        ranges.push((pos, m.len()));
        for (a, b) in ranges {
            if let Some(i) = (a..b).find(|&i| m[i] != canary(case.salt, i)) {
                fail!("byte {i} of destination plane {k}, outside of the rectangle, was written");
            }
        }
    }
    match want.diff(&got) {
        Some(d) => fail!("the rectangle differs from that part of the whole picture: {d}"),
        None => Ok(()),
    }
}

/// Changing one pixel or sample changes only what it covers
fn c11_perturb(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let case = case_rc(s, c, PX, true);
    let src = case.src_img();
    let a = must_convert(&case, &src)?;
    let plane = s.usize(0, src.p.len() - 1);
    let at = match s.weighted(&[3, 1, 1]) {
        0 => s.usize(0, src.p[plane].len() - 1),
        1 => src.p[plane].len() - 1,
        _ => 0,
    };
    let mut other = src.clone();
    let delta = s.range(1, 255) as u8;
    other.p[plane][at] = other.p[plane][at].wrapping_add(delta);
    ctx.set_desc(format!("{}; byte {at} of plane {plane} changed by {delta}", case.desc()));
    ctx.nontrivial = case.w * case.h >= 2;
    ctx.inner = (case.w * case.h) as u64;
    dim_label(ctx, &case);
    let b = must_convert(&case, &other)?;
    // Pixels covered by the byte
    let l = logical(c.src, case.w, case.h)[plane];
    let (bx, by) = (at % l.row, at / l.row);
    let (sx, sy) = c.src.subsampling();
    let (x0, y0, nx, ny) = match c.src {
        Pf::Nv12 if plane == 1 => (bx & !1, by * 2, 2, 2),
        p if p.is_yuv() && plane > 0 => (bx * sx, by * sy, sx, sy),
        p if p.is_yuv() => (bx, by, 1, 1),
        p => (bx / p.depth(), by, 1, 1),
    };
    let inside = |x: usize, y: usize, gx: usize, gy: usize| {
        // Whether the block of gx by gy pixels at (x, y) meets the changed pixels
        x < x0 + nx && x0 < x + gx && y < y0 + ny && y0 < y + gy
    };
    let dl = logical(c.dst, case.w, case.h);
    let (dx, dy) = c.dst.subsampling();
    for (k, p) in dl.iter().enumerate() {
        for r in 0..p.rows {
            for i in 0..p.row {
                let v = r * p.row + i;
                if a.p[k][v] != b.p[k][v] {
                    let ok = match c.dst {
                        Pf::Nv12 if k == 1 => inside(i & !1, 2 * r, 2, 2),
                        d if d.is_yuv() && k > 0 => inside(i * dx, r * dy, dx, dy),
                        d if d.is_yuv() => inside(i, r, 1, 1),
                        d => inside(i / d.depth(), r, 1, 1),
                    };
                    if !ok {
                        fail!("byte {i} of row {r} of plane {k} changed from {} to {}", a.p[k][v], b.p[k][v]);
                    }
                }
            }
        }
    }
    Ok(())
}

/// A picture made of two stacked or adjacent pictures
fn c11_split(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let case = case_rc(s, c, PX, true);
    let (w, h) = (case.w, case.h);
    let ex = c.even_width();
    let ey = c.even_height();
    let (cx, cy) = (s.usize(0, w), s.usize(0, h));
    let cx = if ex { cx & !1 } else { cx };
    let cy = if ey { cy & !1 } else { cy };
    ctx.set_desc(format!("{}; split at ({cx},{cy})", case.desc()));
    ctx.nontrivial = w * h >= 2;
    ctx.inner = (w * h) as u64;
    dim_label(ctx, &case);
    let src = case.src_img();
    let whole = must_convert(&case, &src)?;
    for (x, y, w, h) in [(0, 0, cx, cy), (cx, 0, w - cx, cy), (0, cy, cx, h - cy), (cx, cy, w - cx, h - cy)] {
        if w == 0 || h == 0 {
            continue;
        }
        let part = simple(c, pick_set(s), &src.crop(x, y, w, h))?;
        if let Some(d) = whole.crop(x, y, w, h).diff(&part) {
            fail!("the {w}x{h} part at ({x},{y}) converted on its own differs: {d}");
        }
    }
    Ok(())
}

// --- C18

fn digest(img: &Img) -> u64 {
    let mut v = Vec::new();
    for p in &img.p {
        v.extend_from_slice(&(p.len() as u64).to_le_bytes());
        v.extend_from_slice(p);
    }
    hash64(&v)
}

/// Conversion that uses ordinary memory, so that it can run on any thread
fn plain(conv: Conv, set: u32, src: &Img) -> Result<u64, Fail> {
    Ok(digest(&crate::props_color::bulk(conv, set, src)?))
}

struct Job {
    conv: Conv,
    set: u32,
    src: Arc<Img>,
    want: u64,
}

fn c18_parallel(s: &mut Src, ctx: &mut Ctx) -> Res {
    let threads = s.usize(2, 8);
    let njobs = s.usize(1, 6);
    let rounds = s.usize(1, 6);
    let mut jobs = Vec::new();
    let mut d = String::new();
    for _ in 0..njobs {
        let c = any_conv(s);
        let set = pick_set(s);
        let (w, h) = dims(s, c, 20_000);
        let src = Arc::new(picture(c.src, w, h, content(s)));
        let _ = write!(d, " [{:?}->{:?} {:?} {w}x{h} {}]", c.src, c.dst, c.cs(), set_name(set));
        jobs.push(Job { conv: c, set, src, want: 0 });
    }
    ctx.set_desc(format!("{threads} threads x {rounds} rounds of{d}"));
    ctx.nontrivial = true;
    ctx.inner = (threads * njobs * rounds) as u64;
    ctx.label(format!("threads:{threads}"));
    for j in &mut jobs {
        j.want = plain(j.conv, j.set, &j.src)?;
    }
    let description = dcp::describe_acceleration();
    let barrier = Arc::new(Barrier::new(threads));
    let jobs = &jobs;
    let description = &description;
    let r: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let barrier = barrier.clone();
                sc.spawn(move || -> Res {
                    barrier.wait();
                    for r in 0..rounds {
                        for k in 0..jobs.len() {
                            let j = &jobs[(k + t * (r + 1)) % jobs.len()];
                            let got = plain(j.conv, j.set, &j.src)?;
                            if got != j.want {
                                fail!(
                                    "thread {t}: {:?}->{:?} {}x{} gives another picture than alone",
                                    j.conv.src,
                                    j.conv.dst,
                                    j.src.w,
                                    j.src.h
                                );
                            }
                        }
                        if dcp::describe_acceleration() != *description {
                            fail!("thread {t}: another description");
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    r.into_iter().collect()
}

/// What a thread calls first
enum First {
    Convert(Conv, Img),
    Describe,
    CDescribe,
    Any(Box<Prepared>),
}

impl First {
    fn new(s: &mut Src) -> First {
        let c = any_conv(s);
        let kind = s.weighted(&[5, 1, 1, 4]);
        let (w, h) = dims(s, c, 2_000);
        let content = content(s);
        match kind {
            0 => First::Convert(c, picture(c.src, w, h, content)),
            1 => First::Describe,
            2 => First::CDescribe,
            _ => {
                // Choices of its own, made of one
                let mut m = Mix(((w as u64) << 32 | h as u64) ^ hash64(&[c.src as u8, c.dst as u8]));
                let v: Vec<u64> = (0..OP).map(|_| m.next()).collect();
                let mut p = Prepared::new(&mut Src::new(&v), 200);
                p.set = 0;
                First::Any(Box::new(p))
            }
        }
    }

    fn run(&self) -> String {
        match self {
            First::Convert(c, img) => plain(*c, 0, img).map_or_else(|e| e.msg, |d| format!("{d:x}")),
            First::Describe => dcp::describe_acceleration(),
            First::CDescribe => crate::props_api::c_describe(),
            First::Any(p) => p.as_ref().clone().whole(0),
        }
    }

    pub fn name(&self) -> String {
        match self {
            First::Convert(c, img) => format!("{:?}->{:?} {}x{}", c.src, c.dst, img.w, img.h),
            First::Describe => "describe".into(),
            First::CDescribe => "C describe".into(),
            First::Any(p) => p.name(),
        }
    }
}

/// In a fresh process, all threads make their first call at the same time
pub fn firstuse_helper(s: &mut Src) -> String {
    let threads = s.usize(2, 8);
    let jobs: Vec<First> = (0..threads).map(|_| First::new(s)).collect();
    let barrier = Barrier::new(threads);
    let out: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|j| {
                let barrier = &barrier;
                sc.spawn(move || {
                    barrier.wait();
                    j.run()
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| "panicked".into()))
            .collect()
    });
    out.join(" ")
}

/// Any calls, sound or not, through both interfaces, by several threads
fn c18_calls(s: &mut Src, ctx: &mut Ctx) -> Res {
    let threads = s.usize(2, 8);
    let n = s.usize(1, 6);
    let rounds = [2, 10, 40, 150][s.usize(0, 3)];
    let budget = [200, 200, 3_000][s.usize(0, 2)];
    let rounds = if budget > 200 { rounds / 2 } else { rounds };
    let mut jobs: Vec<(Prepared, String)> = Vec::new();
    for _ in 0..n {
        let mut m = Mix(s.raw());
        let v: Vec<u64> = (0..OP).map(|_| m.next()).collect();
        let mut p = Prepared::new(&mut Src::new(&v), budget);
        let want = p.whole(0);
        jobs.push((p, want));
    }
    let names: Vec<String> = jobs.iter().map(|j| j.0.name()).collect();
    ctx.set_desc(format!("{threads} threads x {rounds} rounds of {names:?}"));
    ctx.nontrivial = true;
    ctx.inner = (threads * n * rounds) as u64;
    ctx.label(format!("calls threads:{threads}"));
    for j in &jobs {
        ctx.label(format!("calls:{}", j.0.what));
    }
    let barrier = &Barrier::new(threads);
    let jobs = &jobs;
    let r: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || -> Res {
                    let mut own: Vec<Prepared> = jobs.iter().map(|j| j.0.clone()).collect();
                    barrier.wait();
                    for r in 0..rounds {
                        for i in 0..own.len() {
                            let k = (i + t * (r + 1)) % own.len();
                            let got = own[k].whole(0);
                            if got != jobs[k].1 {
                                fail!("thread {t}: {} gives `{got}`, alone `{}`", own[k].name(), jobs[k].1);
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    r.into_iter().collect()
}

/// Memory shared by the threads that write the tiles of one picture
struct Shared(Vec<(*mut u8, usize)>);
unsafe impl Sync for Shared {}

/// One picture, converted in tiles (bands, columns or both) by as many threads
fn c18_tiles(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let (nx, ny) = [(2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (4, 1), (1, 4), (3, 2), (8, 1), (2, 4)][s.usize(0, 9)];
    let unit = |even: bool| if even { 2 } else { 1 };
    let cuts = |s: &mut Src, n: usize, u: usize, most: usize| -> Vec<usize> {
        let mut v = vec![0];
        for k in 0..n {
            v.push(v[k] + u * s.usize(1, most / u));
        }
        v
    };
    let xs = cuts(s, nx, unit(c.even_width()), if nx < 3 { 300 } else { 90 });
    let ys = cuts(s, ny, unit(c.even_height()), if ny < 2 { 60 } else { 16 });
    let (w, h) = (xs[nx], ys[ny]);
    let src = picture(c.src, w, h, content(s));
    let pad = [0, 0, 0, 1, 7, 64][s.usize(0, 5)];
    let rounds = s.usize(2, 8);
    let sets: Vec<u32> = (0..nx * ny).map(|_| pick_set(s)).collect();
    ctx.set_desc(format!("{:?}->{:?} {:?} columns at {xs:?}, bands at {ys:?}, {pad} bytes of padding, sets {sets:?}", c.src, c.dst, c.cs()));
    ctx.nontrivial = true;
    ctx.inner = (nx * ny * rounds) as u64;
    ctx.label(format!("tiles:{}", if nx == 1 { "bands" } else if ny == 1 { "columns" } else { "grid" }));
    let want = simple(c, 0, &src)?;
    let full = logical(c.dst, w, h);
    let strides: Vec<usize> = full.iter().map(|p| p.row + pad).collect();
    let sstrides: Vec<usize> = logical(c.src, w, h).iter().map(|p| p.row).collect();
    let mut out: Vec<Vec<u8>> = full.iter().zip(&strides).map(|(p, st)| vec![0u8; p.rows * st]).collect();
    for round in 0..rounds {
        out.iter_mut().for_each(|v| v.fill(0x5b));
        let shared = Shared(out.iter_mut().map(|v| (v.as_mut_ptr(), v.len())).collect());
        let shared = &shared;
        let barrier = &Barrier::new(nx * ny);
        let r: Vec<Res> = std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for k in 0..nx * ny {
                let (i, j) = (k % nx, k / nx);
                let (x, y, tw, th) = (xs[i], ys[j], xs[i + 1] - xs[i], ys[j + 1] - ys[j]);
                let (set, src, strides, sstrides) = (sets[k], &src, &strides, &sstrides);
                hs.push(sc.spawn(move || -> Res {
                    let at = |pf: Pf, p: usize, st: usize| {
                        let rows = if y == 0 { 0 } else { logical(pf, w, y)[p].rows };
                        let row = if x == 0 { 0 } else { logical(pf, x, h)[p].row };
                        rows * st + row
                    };
                    let sl = logical(c.src, tw, th);
                    let sb: Vec<&[u8]> = (0..sl.len())
                        .map(|p| {
                            let o = at(c.src, p, sstrides[p]);
                            &src.p[p][o..o + need(sl[p], sstrides[p]).unwrap()]
                        })
                        .collect();
                    let dl = logical(c.dst, tw, th);
                    let mut db: Vec<&mut [u8]> = (0..dl.len())
                        .map(|p| {
                            let o = at(c.dst, p, strides[p]);
                            let n = need(dl[p], strides[p]).unwrap();
                            assert!(o + n <= shared.0[p].1);
                            unsafe { std::slice::from_raw_parts_mut(shared.0[p].0.add(o), n) }
                        })
                        .collect();
                    barrier.wait();
                    let o = call_rust(
                        set,
                        &Raw {
                            w: tw as u32,
                            h: th as u32,
                            sf: (c.src, c.src_cs, c.src.default_planes()),
                            ss: Some(sstrides),
                            sb: &sb,
                            df: (c.dst, c.dst_cs, c.dst.default_planes()),
                            ds: Some(strides),
                        },
                        &mut db,
                    )?;
                    match o {
                        Err(e) => fail!("a valid conversion was rejected: {e:?}"),
                        Ok(()) => Ok(()),
                    }
                }));
            }
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        r.into_iter().collect::<Res>()?;
        for (p, l) in full.iter().enumerate() {
            for r in 0..l.rows {
                let o = r * strides[p];
                if out[p][o..o + l.row] != want.p[p][r * l.row..(r + 1) * l.row] {
                    fail!("round {round}: row {r} of plane {p} differs from the picture converted by one thread");
                }
                if out[p][o + l.row..o + strides[p]].iter().any(|&v| v != 0x5b) {
                    fail!("round {round}: the padding after row {r} of plane {p} was written");
                }
            }
        }
    }
    Ok(())
}

fn c18_first(s: &mut Src, ctx: &mut Ctx) -> Res {
    if crate::props_api::restricted() {
        return Ok(());
    }
    let sub: Vec<u64> = (0..60).map(|_| s.raw()).collect();
    ctx.set_desc(format!("first calls of a fresh process, choices {sub:x?}"));
    ctx.nontrivial = true;
    let got = helper("firstuse", &sub)?;
    // What each thread should have seen
    let mut t = Src::new(&sub);
    let threads = t.usize(2, 8);
    ctx.label(format!("first use threads:{threads}"));
    ctx.inner = threads as u64;
    let jobs: Vec<First> = (0..threads).map(|_| First::new(&mut t)).collect();
    let d = jobs.iter().map(|j| format!(" [{}]", j.name())).collect::<String>();
    let want: Vec<String> = jobs.iter().map(First::run).collect();
    ctx.set_desc(format!("first calls of a fresh process, {threads} threads:{d}"));
    let want = want.join(" ");
    if got != want {
        fail!("threads got {got}, expected {want}");
    }
    Ok(())
}

// --- C19

/// One operation; its observable result as text
fn op(c: &[u64]) -> String {
    let mut s = Src::new(c);
    let s = &mut s;
    let kind = s.weighted(&[6, 3, 2, 1, 2]);
    match kind {
        0 | 4 => {
            let c = any_conv(s);
            let mut k = case(s, c, 3_000, true);
            k.c = kind == 4;
            let src = k.src_img();
            match convert(&k, &src) {
                Ok((o, db)) => {
                    let img = load(c.dst, k.w, k.h, &k.dst, &db);
                    let stray = stray_write(c.dst, k.w, k.h, &k.dst, &db, k.salt);
                    format!("{o:?} {:x} {stray:?}", digest(&img))
                }
                Err(e) => e.msg,
            }
        }
        1 => {
            let h = hostile(s);
            match h.run() {
                Ok((o, db)) => {
                    let mut v = Vec::new();
                    for b in &db {
                        v.extend_from_slice(b.ro());
                    }
                    format!("{o:?} {:x}", hash64(&v))
                }
                Err(e) => e.msg,
            }
        }
        2 => {
            let pf = s.pick(&ALL_PF);
            let planes = s.range(0, 4) as u32;
            let (w, h) = (s.range(0, 5000) as u32, s.range(0, 5000) as u32);
            let n = s.usize(0, 4);
            let st: Vec<usize> = (0..n).map(|_| s.usize(0, 9000)).collect();
            let st = if s.chance(1, 2) { Some(&st[..]) } else { None };
            let mut out = [1usize; 4];
            match guarded(|| dcp::get_buffers_size(w, h, &format(pf, Cs::Rgb, planes), st, &mut out).map_err(ek)) {
                Ok(r) => format!("{r:?} {out:?}"),
                Err(e) => e.msg,
            }
        }
        _ => format!("{} {}", dcp::describe_acceleration(), crate::props_api::c_describe()),
    }
}

fn op_name(c: &[u64]) -> &'static str {
    ["convert", "arbitrary", "sizes", "describe", "C convert"][Src::new(c).weighted(&[6, 3, 2, 1, 2])]
}

const OP: usize = 64;
const POOL: usize = 5;

/// An operation alone in a process
pub fn op_helper(s: &mut Src) -> String {
    let c: Vec<u64> = (0..OP).map(|_| s.raw()).collect();
    op(&c)
}

fn sequence(s: &mut Src) -> (Vec<Vec<u64>>, Vec<(usize, usize)>) {
    let n = s.usize(1, POOL);
    let steps = s.usize(2, 14);
    let mix = s.raw();
    let order: Vec<(usize, usize)> = {
        let mut m = Mix(mix);
        (0..steps)
            .map(|_| {
                let v = m.next();
                let k = (v >> 8) as usize % n;
                // Mostly once, sometimes a burst
                let rep = match v & 31 {
                    0 => 300,
                    1..=3 => 20,
                    4..=8 => 3,
                    _ => 1,
                };
                (k, rep)
            })
            .collect()
    };
    // The operations themselves: expanded from two choices each, so that they fit
    let mut pool: Vec<Vec<u64>> = Vec::new();
    for _ in 0..n {
        let mut m = Mix(s.raw());
        let mut v: Vec<u64> = (0..OP).map(|_| m.next()).collect();
        // Often an earlier operation with a few of its arguments changed
        let r = m.next();
        if !pool.is_empty() && r % 8 < 5 {
            let fresh = v;
            v = pool[(r >> 8) as usize % pool.len()].clone();
            for k in 0..1 + (r >> 16) as usize % 3 {
                let at = 1 + (r >> (20 + 8 * k)) as usize % 32;
                v[at] = fresh[at];
            }
        }
        pool.push(v);
    }
    (pool, order)
}

/// A whole history in a process: the distinct results of every operation
pub fn seq_helper(s: &mut Src) -> String {
    let (pool, order) = sequence(s);
    let mut seen: Vec<Vec<String>> = vec![Vec::new(); pool.len()];
    for (k, rep) in order {
        for _ in 0..rep {
            let r = op(&pool[k]);
            if !seen[k].contains(&r) {
                seen[k].push(r);
            }
        }
    }
    seen.iter()
        .map(|v| v.join("\u{2}"))
        .collect::<Vec<_>>()
        .join("\u{1}")
}

fn c19(s: &mut Src, ctx: &mut Ctx) -> Res {
    if crate::props_api::restricted() {
        return Ok(());
    }
    let c: Vec<u64> = (0..CHOICES_SEQ).map(|_| s.raw()).collect();
    let (pool, order) = sequence(&mut Src::new(&c));
    let names: Vec<&str> = pool.iter().map(|p| op_name(p)).collect();
    let steps: Vec<String> = order
        .iter()
        .map(|(k, r)| if *r == 1 { format!("{k}") } else { format!("{k}x{r}") })
        .collect();
    ctx.set_desc(format!("operations {names:?} ({:x}), history {}", c[2], steps.join(" ")));
    ctx.nontrivial = order.len() > 2;
    ctx.inner = order.iter().map(|o| o.1 as u64).sum();
    for n in &names {
        ctx.label(format!("op:{n}"));
    }
    let got = helper("seq", &c)?;
    let got: Vec<&str> = got.split('\u{1}').collect();
    for (k, p) in pool.iter().enumerate() {
        if !order.iter().any(|o| o.0 == k) {
            continue;
        }
        let alone = helper("op", p)?;
        if got[k] != alone {
            fail!(
                "operation {k} ({}) gives `{}` in this history and `{alone}` in a fresh process",
                names[k],
                got[k].replace('\u{2}', "` or `")
            );
        }
    }
    Ok(())
}

/// A call whose arguments are ready, so that it can be made very often, by any thread
#[derive(Clone)]
pub struct Prepared {
    set: u32,
    kind: u64,
    w: u32,
    h: u32,
    sf: (Pf, Cs, u32),
    df: (Pf, Cs, u32),
    ss: Option<Vec<usize>>,
    ds: Option<Vec<usize>>,
    sb: Vec<Vec<u8>>,
    db: Vec<Vec<u8>>,
    pub what: &'static str,
}

impl Prepared {
    pub fn new(s: &mut Src, budget: usize) -> Prepared {
        let c = any_conv(s);
        let mut k = case(s, c, budget, true);
        // Few bytes
        if k.src.lens.iter().chain(&k.dst.lens).any(|&n| n > 100 * budget) {
            k = Case::tight(c, k.set, k.w, k.h, k.content);
        }
        let kind = s.weighted(&[6, 2, 2, 1, 1]) as u64;
        let mut p = Prepared {
            set: k.set,
            kind,
            w: k.w as u32,
            h: k.h as u32,
            sf: (c.src, c.src_cs, k.src.planes),
            df: (c.dst, c.dst_cs, k.dst.planes),
            ss: k.src.strides.clone(),
            ds: k.dst.strides.clone(),
            sb: Vec::new(),
            db: k.dst.lens.iter().map(|&n| vec![0; n]).collect(),
            what: "valid",
        };
        let src = k.src_img();
        let sb = bufs(&k.src, SRC_ARENA);
        sb.iter().for_each(|b| b.poison(7));
        store(&src, &k.src, &sb);
        p.sb = sb.iter().map(|b| b.ro().to_vec()).collect();
        let fault = s.weighted(&[8, 4, 4, 2, 2, 2, 2, 2, 2, 1]);
        let tight = |v: &mut Vec<Vec<u8>>, need: Vec<usize>, s: &mut Src| {
            let i = s.usize(0, v.len() - 1);
            let n = need[i].saturating_sub(1 + s.usize(0, 3));
            v[i].truncate(n);
        };
        let needs = |side: &Side, pf: Pf| -> Vec<usize> {
            let g = buffer_rows(pf, side.planes, k.w, k.h);
            g.iter().zip(side.eff(&g)).map(|(p, st)| need(*p, st).unwrap()).collect()
        };
        // Through pointers nobody knows how long a buffer is
        let safe = kind == 1;
        match fault {
            1 if !safe => {
                tight(&mut p.sb, needs(&k.src, c.src), s);
                p.what = "short source";
            }
            2 if !safe => {
                tight(&mut p.db, needs(&k.dst, c.dst), s);
                p.what = "short destination";
            }
            3 => {
                p.sf.1 = if c.src.is_yuv() { Cs::Rgb } else { Cs::Bt601 };
                p.what = "colour space";
            }
            4 => {
                p.df.2 += 3;
                p.what = "planes";
            }
            5 => {
                p.df.0 = c.src;
                p.df.1 = c.src_cs;
                p.df.2 = p.sf.2;
                p.what = "same formats";
            }
            6 if c.even_width() => {
                p.w -= 1;
                p.what = "odd width";
            }
            7 if !safe => {
                p.sb.pop();
                p.what = "missing source";
            }
            8 if !safe => {
                p.ds = Some(vec![usize::MAX / 2; 4]);
                p.what = "huge stride";
            }
            9 => {
                p.w = 0;
                p.what = "empty";
            }
            _ => {}
        }
        p
    }

    pub fn name(&self) -> String {
        let kind = ["Rust", "C", "sizes", "describe", "C describe"][self.kind as usize];
        format!("{kind} {:?}->{:?} {}x{} {}", self.sf.0, self.df.0, self.w, self.h, self.what)
    }

    pub fn call(&mut self) -> String {
        let text = |o: Result<Outcome, Fail>| o.map_or_else(|e| e.msg, |o| format!("{o:?}"));
        match self.kind {
            1 => {
                let cut = |s: &Option<Vec<usize>>| s.as_ref().map(|v| {
                    let mut v = v.clone();
                    v.resize(8, 0);
                    v
                });
                let (ss, ds) = (cut(&self.ss), cut(&self.ds));
                let pad = |mut v: Vec<usize>| {
                    v.resize(8, 0);
                    v
                };
                let sb = pad(self.sb.iter().map(|v| v.as_ptr() as usize).collect());
                let db = pad(self.db.iter_mut().map(|v| v.as_mut_ptr() as usize).collect());
                let r = crate::capi::convert_local(
                    self.set,
                    &crate::capi::CArgs {
                        w: self.w,
                        h: self.h,
                        sf: Some((self.sf.0.c_value(), self.sf.1.c_value(), self.sf.2)),
                        ss: ss.as_deref(),
                        sb: Some(&sb),
                        df: Some((self.df.0.c_value(), self.df.1.c_value(), self.df.2)),
                        ds: ds.as_deref(),
                        db: Some(&db),
                        error: true,
                    },
                );
                text(r.map(Option::unwrap))
            }
            2 => {
                let mut out = [1usize; 8];
                let f = if self.w % 2 == 0 { self.df } else { self.sf };
                let r = guarded(|| {
                    dcp::get_buffers_size(self.w, self.h, &format(f.0, f.1, f.2), self.ds.as_deref(), &mut out).map_err(ek)
                });
                format!("{} {out:?}", text(r))
            }
            3 => dcp::describe_acceleration(),
            4 => crate::props_api::c_describe(),
            _ => {
                let s: Vec<&[u8]> = self.sb.iter().map(|v| &v[..]).collect();
                let mut d: Vec<&mut [u8]> = self.db.iter_mut().map(|v| &mut v[..]).collect();
                text(call_rust(
                    self.set,
                    &Raw {
                        w: self.w,
                        h: self.h,
                        sf: self.sf,
                        ss: self.ss.as_deref(),
                        sb: &s,
                        df: self.df,
                        ds: self.ds.as_deref(),
                    },
                    &mut d,
                ))
            }
        }
    }

    /// One call into fresh memory
    fn whole(&mut self, salt: u8) -> String {
        for (k, b) in self.db.iter_mut().enumerate() {
            b.iter_mut().enumerate().for_each(|(i, v)| *v = canary(0x11 + k as u8, i) ^ salt);
        }
        let r = self.call();
        let mut v = Vec::new();
        // What was not written is the same whatever it was filled with
        for (k, b) in self.db.iter().enumerate() {
            if r.starts_with("Ok") {
                v.extend_from_slice(b);
            } else {
                v.extend(b.iter().enumerate().map(|(i, x)| x ^ canary(0x11 + k as u8, i) ^ salt));
            }
        }
        format!("{r} {:x}", hash64(&v))
    }
}

fn long_plan(s: &mut Src) -> (Vec<Vec<u64>>, Vec<(usize, u32)>) {
    let n = s.usize(2, 4);
    let steps = s.usize(2, 8);
    let mut m = Mix(s.raw());
    let order = (0..steps)
        .map(|_| {
            let v = m.next();
            let rep = match v % 8 {
                0 => 140_000,
                1 | 2 => 70_000,
                3 | 4 => 5_000,
                5 => 300,
                _ => 1,
            };
            ((v >> 8) as usize % n, rep + ((v >> 16) % 5) as u32)
        })
        .collect();
    let pool = (0..n)
        .map(|_| {
            let mut m = Mix(s.raw());
            (0..OP).map(|_| m.next()).collect()
        })
        .collect();
    (pool, order)
}

/// The distinct results of each operation over a long history
pub fn long_helper(s: &mut Src) -> String {
    let (pool, order) = long_plan(s);
    let mut pool: Vec<Prepared> = pool.iter().map(|c| Prepared::new(&mut Src::new(c), 200)).collect();
    let mut seen: Vec<Vec<String>> = vec![Vec::new(); pool.len()];
    let note = |seen: &mut Vec<Vec<String>>, k: usize, r: String| {
        if !seen[k].contains(&r) {
            seen[k].push(r);
        }
    };
    for (k, rep) in order {
        let first = pool[k].whole(0);
        note(&mut seen, k, first);
        let expected = pool[k].call();
        for _ in 2..rep {
            let r = pool[k].call();
            if r != expected {
                note(&mut seen, k, format!("{expected}, then {r}"));
                break;
            }
        }
        for k in 0..pool.len() {
            let r = pool[k].whole(0);
            note(&mut seen, k, r);
        }
    }
    seen.iter().map(|v| v.join("\u{2}")).collect::<Vec<_>>().join("\u{1}")
}

/// One of its operations, alone
pub fn long_one_helper(s: &mut Src) -> String {
    let c: Vec<u64> = (0..OP).map(|_| s.raw()).collect();
    Prepared::new(&mut Src::new(&c), 200).whole(0)
}

fn c19_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    if crate::props_api::restricted() {
        return Ok(());
    }
    let c: Vec<u64> = (0..CHOICES_SEQ).map(|_| s.raw()).collect();
    let (pool, order) = long_plan(&mut Src::new(&c));
    let names: Vec<String> = pool
        .iter()
        .map(|p| {
            let p = Prepared::new(&mut Src::new(p), 200);
            p.name()
        })
        .collect();
    ctx.set_desc(format!("operations {names:?} ({:x}), history {order:?}", c[2]));
    ctx.nontrivial = true;
    ctx.inner = order.iter().map(|o| u64::from(o.1)).sum();
    let got = helper("long", &c)?;
    let got: Vec<&str> = got.split('\u{1}').collect();
    for (k, p) in pool.iter().enumerate() {
        let alone = helper("longone", p)?;
        if got[k] != alone {
            fail!(
                "operation {k} ({}) gives `{}` in this history and `{alone}` in a fresh process",
                names[k],
                got[k].replace('\u{2}', "` or `")
            );
        }
    }
    Ok(())
}

const CHOICES_SEQ: usize = 12;

/// Executes with an SSE control word; returns the word afterwards, too
fn with_mxcsr<R>(word: u32, f: impl FnOnce() -> R) -> (R, u32) {
    let (mut old, mut after) = (0u32, 0u32);
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut old);
        std::arch::asm!("ldmxcsr [{}]", in(reg) &word);
    }
    let r = f();
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut after);
        std::arch::asm!("ldmxcsr [{}]", in(reg) &old);
    }
    (r, after)
}

/// The same call again and again in one process, among the calls of all the other cases
fn c19_repeat(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = any_conv(s);
    let case = case_rc(s, c, 4_000, true);
    let n = s.usize(2, 60);
    note(ctx, &case);
    ctx.inner = n as u64;
    let src = case.src_img();
    let first = must_convert(&case, &src)?;
    for k in 1..n {
        let again = must_convert(&case, &src)?;
        if let Some(d) = first.diff(&again) {
            fail!("call {k} gives another picture: {d}");
        }
    }
    // With another floating point environment, which the library leaves as it is
    let mxcsr = 0x1f80 | [0x2000, 0x4000, 0x6000, 0x8000, 0x0040, 0xe040][s.usize(0, 5)];
    let (r, after) = with_mxcsr(mxcsr, || convert(&case, &src));
    let (o, db) = r?;
    if let Err(e) = o {
        fail!("rejected with the floating point control word {mxcsr:#x}: {e:?}");
    }
    if (after ^ mxcsr) & !0x3f != 0 {
        fail!("the floating point control word was {mxcsr:#x}, and is {after:#x} after the call");
    }
    if let Some(d) = first.diff(&load(c.dst, case.w, case.h, &case.dst, &db)) {
        fail!("with the floating point control word {mxcsr:#x}: {d}");
    }
    // In place of a live picture: the previous destination content is a picture
    let sb = bufs(&case.src, SRC_ARENA);
    let db = bufs(&case.dst, DST_ARENA);
    for _ in 0..2 {
        if let Err(e) = call_on(&case, &sb, &db)? {
            fail!("a valid conversion was rejected: {e:?}");
        }
    }
    if let Some(d) = first.diff(&load(c.dst, case.w, case.h, &case.dst, &db)) {
        fail!("converting over an earlier result gives another picture: {d}");
    }
    let _ = (Buf::new(0, 0, Place::End), 0);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let n = conversions().len() as u64;
    vec![
        Prop {
            id: "C09",
            rule: "the same call with the automatic choice and with every instruction set forced: every conversion at widths 1 to 100 (even: to 200), of every colour or code, by slices, and of 2x2 blocks with many sums, random pictures and layouts, and arbitrary arguments (outcome only); non-trivial: at least two pixels",
            assumptions: &["the NEON code is executed on a model of its instructions"],
            subs: vec![
                Sub { name: "widths", kind: Kind::Enum(n * 100, n * 700), f: c09_widths },
                Sub { name: "cube", kind: Kind::Enum(n * 17 * 2, n * 17 * 60), f: c09_cube },
                Sub { name: "random", kind: Kind::Random(60_000, 600_000), f: c09 },
                Sub { name: "outcome", kind: Kind::Random(60_000, 600_000), f: c09_outcome },
            ],
        },
        Prop {
            id: "C10",
            rule: "random pictures in a compact layout and in a random one (strides, slack, alignment, one or two NV12 planes, C or Rust interface), with two contents of the padding; non-trivial: at least two pixels",
            assumptions: &[],
            subs: vec![
                Sub { name: "layout", kind: Kind::Random(480_000, 4_800_000), f: c10 },
                Sub { name: "overlap", kind: Kind::Random(240_000, 2_400_000), f: c10_overlap },
            ],
        },
        Prop {
            id: "C11",
            rule: "random rectangles converted in place inside larger pictures, single bytes changed, pictures split in four; non-trivial: at least two pixels",
            assumptions: &[],
            subs: vec![
                Sub { name: "rectangle", kind: Kind::Random(280_000, 2_800_000), f: c11_crop },
                Sub { name: "byte", kind: Kind::Random(280_000, 2_800_000), f: c11_perturb },
                Sub { name: "split", kind: Kind::Random(210_000, 2_100_000), f: c11_split },
            ],
        },
        Prop {
            id: "C18",
            rule: "2 to 8 threads running random conversions in different orders, compared with the same conversions alone; one picture converted in bands, columns or tiles by 2 to 8 threads at once, compared with one thread; sound and unsound calls of all functions through both interfaces by several threads, compared with the same calls alone; fresh processes whose threads all make their first call together; every case is non-trivial",
            assumptions: &["interleavings are those the operating system produces"],
            subs: vec![
                Sub { name: "parallel", kind: Kind::Random(30_000, 300_000), f: c18_parallel },
                Sub { name: "tiles", kind: Kind::Random(30_000, 400_000), f: c18_tiles },
                Sub { name: "calls", kind: Kind::Random(20_000, 300_000), f: c18_calls },
                Sub { name: "first use", kind: Kind::Random(20_000, 200_000), f: c18_first },
            ],
        },
        Prop {
            id: "C19",
            rule: "histories of 2 to 14 steps (with bursts) over up to 5 operations, random or variations of each other, and histories with up to 140000 repetitions of a call, in a fresh process, against each operation alone in a fresh process; repeated conversions in a long-lived process; non-trivial: more than two steps",
            assumptions: &[],
            subs: vec![
                Sub { name: "history", kind: Kind::Random(8_000, 80_000), f: c19 },
                Sub { name: "long", kind: Kind::Random(1_200, 15_000), f: c19_long },
                Sub { name: "repeat", kind: Kind::Random(3_000, 60_000), f: c19_repeat },
            ],
        },
    ]
}
