//! Properties of pixel values

use crate::engine::{Ctx, Fail, Kind, Prop, Res, Src, Sub};
use crate::fail;
use crate::gen::*;
use crate::model::*;
use dcv_color_primitives as dcp;

pub fn dim_label(ctx: &mut Ctx, case: &Case) {
    ctx.label(format!("set:{}", set_name(case.set)));
    ctx.label(format!("{:?}->{:?}", case.conv.src, case.conv.dst));
    let px = case.w * case.h;
    ctx.label(
        if px >= 1 << 20 {
            "size:>=1M pixels"
        } else if px >= 1 << 14 {
            "size:>=16K pixels"
        } else if case.w >= 32 {
            "size:vector and remainder widths"
        } else {
            "size:small"
        }
        .to_string(),
    );
    let padded = |s: &Side| s.strides.as_ref().is_some_and(|v| v.iter().any(|&x| x != 0));
    if padded(&case.src) || padded(&case.dst) {
        ctx.label("custom strides");
    }
}

/// Convert without guarded memory (exhaustive enumerations)
pub fn bulk(conv: Conv, set: u32, src: &Img) -> Result<Img, Fail> {
    let mut out = Img::zero(conv.dst, src.w, src.h);
    let sp = conv.src.default_planes();
    let dp = conv.dst.default_planes();
    let sf = format(conv.src, conv.src_cs, sp);
    let df = format(conv.dst, conv.dst_cs, dp);
    let s: Vec<&[u8]> = src.p.iter().map(Vec::as_slice).collect();
    let mut d: Vec<&mut [u8]> = out.p.iter_mut().map(Vec::as_mut_slice).collect();
    force(set);
    let r = guarded(|| {
        dcp::convert_image(src.w as u32, src.h as u32, &sf, None, &s, &df, None, &mut d)
    });
    force(0);
    if let Err(e) = r? {
        fail!("a valid conversion was rejected: {e:?}");
    }
    Ok(out)
}

/// Extremes of produced minus exact
struct Errors {
    name: &'static str,
    lo: f64,
    hi: f64,
}

impl Errors {
    fn new(name: &'static str) -> Self {
        Errors { name, lo: 0.0, hi: 0.0 }
    }

    /// Whether the code is close enough to the exact value
    fn near(&mut self, code: u8, exact: f64, tol: (f64, f64)) -> bool {
        let e = f64::from(code) - exact;
        self.lo = self.lo.min(e);
        self.hi = self.hi.max(e);
        e >= tol.0 && e <= tol.1
    }
}

impl Drop for Errors {
    fn drop(&mut self) {
        crate::engine::measure(self.name, self.lo, self.hi);
    }
}

/// Every luma code matches its pixel
pub fn check_luma(conv: Conv, src: &Img, out: &Img) -> Res {
    let t = fwd(conv.dst_cs);
    let mut err = Errors::new("luma");
    for y in 0..src.h {
        for x in 0..src.w {
            let [r, g, b] = src.rgb(x, y);
            let l = out.p[0][y * src.w + x];
            let e = t.get(0, r, g, b);
            if !err.near(l, e, LUMA_TOL) {
                fail!("luma at ({x},{y}) of rgb=({r},{g},{b}) is {l}, the standard gives {e:.4}");
            }
        }
    }
    Ok(())
}

/// Every chroma code matches the average of the pixels it covers
pub fn check_chroma(conv: Conv, src: &Img, out: &Img) -> Res {
    let t = fwd(conv.dst_cs);
    let (sx, sy) = conv.dst.subsampling();
    let n = (sx * sy) as f64;
    let mut err = Errors::new(if sx * sy == 1 { "chroma 4:4:4" } else { "chroma 4:2:0" });
    for y in (0..src.h).step_by(sy) {
        for x in (0..src.w).step_by(sx) {
            let mut e = [0.0; 2];
            for dy in 0..sy {
                for dx in 0..sx {
                    let [r, g, b] = src.rgb(x + dx, y + dy);
                    e[0] += t.get(1, r, g, b);
                    e[1] += t.get(2, r, g, b);
                }
            }
            let yuv = out.yuv(x, y);
            for k in 0..2 {
                let want = e[k] / n;
                if !err.near(yuv[k + 1], want, CHROMA_TOL) {
                    fail!(
                        "{} at ({x},{y}) is {}, the standard gives {want:.4} for the {sx}x{sy} block",
                        ["cb", "cr"][k],
                        yuv[k + 1]
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn check_backward(conv: Conv, src: &Img, out: &Img) -> Res {
    let t = bwd(conv.src_cs);
    let mut err = Errors::new(match conv.src_cs {
        Cs::Bt601 => "rgb from bt601",
        Cs::Bt601Fr => "rgb from bt601 full range",
        Cs::Bt709 => "rgb from bt709",
        _ => "rgb from bt709 full range",
    });
    for y in 0..src.h {
        for x in 0..src.w {
            let [l, cb, cr] = src.yuv(x, y);
            let rgb = out.rgb(x, y);
            for k in 0..3 {
                let e = t.get(k, l, cb, cr);
                if !err.near(rgb[k], e, BWD_TOL) {
                    fail!(
                        "{} at ({x},{y}) of yuv=({l},{cb},{cr}) is {}, the standard gives {e:.4}",
                        ["red", "green", "blue"][k],
                        rgb[k]
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn check_alpha(out: &Img) -> Res {
    if let (true, Some(a)) = (!out.pf.is_yuv(), if out.pf.is_yuv() { None } else { out.pf.rgba_offsets().3 }) {
        for i in 0..out.w * out.h {
            let v = out.p[0][4 * i + a];
            if v != 255 {
                fail!("alpha at ({},{}) is {v}", i % out.w, i / out.w);
            }
        }
    }
    Ok(())
}

pub fn check_repack(src: &Img, out: &Img) -> Res {
    for y in 0..src.h {
        for x in 0..src.w {
            let (a, b) = (src.rgb(x, y), out.rgb(x, y));
            if a != b {
                fail!("pixel ({x},{y}) is {b:?}, the source has {a:?}");
            }
        }
    }
    Ok(())
}

/// Everything the formulas say about an output
pub fn check_values(conv: Conv, src: &Img, out: &Img) -> Res {
    if conv.forward() {
        check_luma(conv, src, out)?;
        check_chroma(conv, src, out)
    } else if conv.backward() {
        check_backward(conv, src, out)?;
        check_alpha(out)
    } else {
        check_repack(src, out)?;
        check_alpha(out)
    }
}

fn random_case(s: &mut Src, ctx: &mut Ctx, conv: Conv) -> Result<(Case, Img, Img), Fail> {
    let b = budget(s);
    let mut case = case(s, conv, b, true);
    case.c = s.chance(1, 6);
    ctx.set_desc(case.desc());
    ctx.nontrivial = case.w * case.h >= 2;
    ctx.inner = (case.w * case.h) as u64;
    dim_label(ctx, &case);
    let src = case.src_img();
    let out = must_convert(&case, &src)?;
    Ok((case, src, out))
}

// The colour cube in 16 slices of 2^20 pixels: red (or luma) has 16 values per slice
const SLICES: u64 = 16;

fn cube_rgb(pf: Pf, slice: u64) -> Img {
    let mut img = Img::zero(pf, 1024, 1024);
    for i in 0..1 << 20 {
        let v = (slice as usize) << 20 | i;
        img.set_rgb(i % 1024, i / 1024, [(v >> 16) as u8, (v >> 8) as u8, v as u8]);
    }
    if let Some(a) = pf.rgba_offsets().3 {
        for i in 0..1 << 20 {
            img.p[0][4 * i + a] = (i * 37) as u8;
        }
    }
    img
}

fn cube_yuv444(slice: u64) -> Img {
    let mut img = Img::zero(Pf::I444, 1024, 1024);
    for i in 0..1 << 20 {
        let v = (slice as usize) << 20 | i;
        img.p[0][i] = v as u8;
        img.p[1][i] = (v >> 8) as u8;
        img.p[2][i] = (v >> 16) as u8;
    }
    img
}

/// Every luma with every chroma pair: 2x2 blocks hold four consecutive lumas
fn cube_yuv420(pf: Pf, slice: u64) -> Img {
    let mut img = Img::zero(pf, 1024, 1024);
    for i in 0..1 << 18 {
        let v = (slice as usize) << 18 | i;
        let (l, cb, cr) = ((v & 63) * 4, (v >> 6) as u8, (v >> 14) as u8);
        let (bx, by) = (i % 512, i / 512);
        for k in 0..4 {
            img.p[0][(2 * by + k / 2) * 1024 + 2 * bx + k % 2] = (l + k) as u8;
        }
        if pf == Pf::Nv12 {
            img.p[1][by * 1024 + 2 * bx] = cb;
            img.p[1][by * 1024 + 2 * bx + 1] = cr;
        } else {
            img.p[1][by * 512 + bx] = cb;
            img.p[2][by * 512 + bx] = cr;
        }
    }
    img
}

/// One of 16 slices of all the colours or codes, as a picture of this format
pub fn cube(pf: Pf, slice: u64) -> Img {
    match pf {
        Pf::I444 => cube_yuv444(slice),
        Pf::I420 | Pf::Nv12 => cube_yuv420(pf, slice),
        _ => cube_rgb(pf, slice),
    }
}

/// (group, set, slice) of an enumerated case; all of them for `groups * 3 * slices` cases
fn enum_group(s: &mut Src, groups: u64, slices: u64) -> Option<(u64, u32, u64)> {
    let i = s.raw();
    let (slice, i) = (i % slices, i / slices);
    forced_sets().get((i / groups) as usize).map(|&set| (i % groups, set, slice))
}

/// (conversion, set, slice) of an enumerated case; all the combinations for
/// `convs.len() * 3 * SLICES` cases
fn enum_conv(s: &mut Src, convs: &[Conv], slices: u64) -> Option<(Conv, u32, u64)> {
    let i = s.raw();
    let slice = i % slices;
    let i = i / slices;
    let c = convs[(i % convs.len() as u64) as usize];
    let sets = forced_sets();
    let k = i / convs.len() as u64;
    sets.get(k as usize).map(|&set| (c, set, slice))
}

fn convs(f: fn(&Conv) -> bool) -> Vec<Conv> {
    conversions().into_iter().filter(f).collect()
}

fn bulk_desc(ctx: &mut Ctx, conv: Conv, set: u32, what: &str, slice: u64) {
    ctx.set_desc(format!(
        "{:?}->{:?} {:?} {} {what} {slice}",
        conv.src,
        conv.dst,
        conv.cs(),
        set_name(set)
    ));
    ctx.label(format!("set:{}", set_name(set)));
    ctx.label(format!("{:?}->{:?}", conv.src, conv.dst));
    ctx.nontrivial = true;
}

// --- C04

fn fwd444(c: &Conv) -> bool {
    c.dst == Pf::I444
}

fn c04_cube(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((c, set, slice)) = enum_conv(s, &convs(fwd444), SLICES) else {
        return Ok(());
    };
    bulk_desc(ctx, c, set, "colour cube slice", slice);
    ctx.inner = 1 << 20;
    let src = cube_rgb(c.src, slice);
    let out = bulk(c, set, &src)?;
    check_luma(c, &src, &out)?;
    check_chroma(c, &src, &out)
}

fn c04_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, fwd444);
    let (case, src, out) = random_case(s, ctx, c)?;
    check_luma(case.conv, &src, &out)?;
    check_chroma(case.conv, &src, &out)
}

// --- C05

fn fwd420(c: &Conv) -> bool {
    matches!(c.dst, Pf::I420 | Pf::Nv12)
}

/// 2x2 blocks with all the sums of greens and blues, and this sum of reds. The four pixels
/// of a block are distinct whenever the sums allow it
pub fn sums_picture(pf: Pf, sum: usize) -> Img {
    let split = |sum: usize| -> [u8; 4] {
        let (q, r) = (sum / 4, sum % 4);
        let d = q.min(255 - (q + usize::from(r > 0))).min(61);
        let mut v = [q - d, q + d, q - d / 2, q + d / 2];
        for x in v.iter_mut().take(r) {
            *x += 1;
        }
        v.map(|x| x as u8)
    };
    let t: Vec<[u8; 4]> = (0..1021).map(split).collect();
    let mut src = Img::zero(pf, 2042, 2042);
    for g in 0..1021 {
        for b in 0..1021 {
            for k in 0..4 {
                // Rotate so that the channels are not correlated
                let px = [t[sum][k], t[g][(k + 1) % 4], t[b][(k + 2 + g % 2) % 4]];
                src.set_rgb(2 * b + k % 2, 2 * g + k / 2, px);
            }
        }
    }
    src
}

/// All the blocks with a given sum of reds: 1021 sums of greens by 1021 sums of blues.
/// The four pixels of a block are distinct whenever the sums allow it
fn c05_sums(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw();
    let all = convs(fwd420);
    let sets = forced_sets();
    // Visit sums in an order that spreads a short run over the whole range
    let sum = ((i * 577) % 1021) as usize;
    let c = all[((i / 5 + i) % all.len() as u64) as usize];
    let set = sets[((i / 3 + i / 1021) % sets.len() as u64) as usize];
    bulk_desc(ctx, c, set, "2x2 blocks, sum of reds", sum as u64);
    ctx.inner = 1021 * 1021;
    let src = sums_picture(c.src, sum);
    let out = bulk(c, set, &src)?;
    check_chroma(c, &src, &out)
}

fn c05_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, fwd420);
    let (case, src, out) = random_case(s, ctx, c)?;
    check_luma(case.conv, &src, &out)?;
    check_chroma(case.conv, &src, &out)
}

// --- C06

fn backward(c: &Conv) -> bool {
    c.backward()
}

fn c06_cube(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((c, set, slice)) = enum_conv(s, &convs(backward), SLICES) else {
        return Ok(());
    };
    bulk_desc(ctx, c, set, "colour cube slice", slice);
    ctx.inner = 1 << 20;
    let src = if c.src == Pf::I444 {
        cube_yuv444(slice)
    } else {
        cube_yuv420(c.src, slice)
    };
    let out = bulk(c, set, &src)?;
    check_backward(c, &src, &out)
}

fn c06_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, backward);
    let (case, src, out) = random_case(s, ctx, c)?;
    check_backward(case.conv, &src, &out)
}

// --- C07

fn has_alpha(c: &Conv) -> bool {
    matches!(c.dst, Pf::Bgra | Pf::Rgba) || matches!(c.src, Pf::Argb | Pf::Bgra)
}

fn c07(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, has_alpha);
    let (mut case, mut src, out) = random_case(s, ctx, c)?;
    check_alpha(&out)?;
    if !c.src.is_yuv() {
        if let Some(a) = c.src.rgba_offsets().3 {
            let mut m = Mix(s.raw());
            let flat = s.chance(1, 3);
            let v = s.raw() as u8;
            for i in 0..src.w * src.h {
                src.p[0][4 * i + a] = if flat { v } else { m.next() as u8 };
            }
            case.salt ^= 0x77;
            let again = must_convert(&case, &src)?;
            if let Some(d) = out.diff(&again) {
                fail!("the source alpha changes the result: {d}");
            }
        }
    }
    Ok(())
}

/// Every colour and code, opaque whatever it is, and with two source alphas
fn c07_cube(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((c, set, slice)) = enum_conv(s, &convs(has_alpha), SLICES) else {
        return Ok(());
    };
    bulk_desc(ctx, c, set, "colour cube slice", slice);
    ctx.inner = 1 << 20;
    let mut src = cube(c.src, slice);
    let out = bulk(c, set, &src)?;
    check_alpha(&out)?;
    if let (false, Some(a)) = (c.src.is_yuv(), if c.src.is_yuv() { None } else { c.src.rgba_offsets().3 }) {
        for (i, v) in src.p[0].iter_mut().skip(a).step_by(4).enumerate() {
            *v = if slice % 2 == 0 { 255 - *v } else { (i % 3) as u8 * 127 };
        }
        if let Some(d) = out.diff(&bulk(c, set, &src)?) {
            fail!("the source alpha changes the result: {d}");
        }
    }
    Ok(())
}

// --- C08

fn repack(c: &Conv) -> bool {
    c.repack()
}

fn c08_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, repack);
    let (_, src, out) = random_case(s, ctx, c)?;
    check_repack(&src, &out)
}

/// Every width, with a few heights and strides
fn c08_widths(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw();
    let all = convs(repack);
    let c = all[(i % 3) as usize];
    let i = i / 3;
    let sets = forced_sets();
    let set = sets[(i % sets.len() as u64) as usize];
    let i = i / sets.len() as u64;
    let w = (i % 400) as usize + 1;
    let h = [1, 2, 3, 7, 5][(i / 400) as usize % 5];
    let mut case = Case::tight(c, set, w, h, Content { kind: 0, seed: i });
    if h > 2 {
        let ss = c.src.depth() * w + h;
        let ds = c.dst.depth() * w + 2 * h + 1;
        case.src.strides = Some(vec![ss]);
        case.dst.strides = Some(vec![ds]);
        case.src.lens = vec![ss * (h - 1) + c.src.depth() * w];
        case.dst.lens = vec![ds * (h - 1) + c.dst.depth() * w];
    }
    ctx.set_desc(case.desc());
    ctx.nontrivial = w > 1;
    ctx.inner = (w * h) as u64;
    let src = case.src_img();
    let out = must_convert(&case, &src)?;
    check_repack(&src, &out)?;
    check_alpha(&out)
}

// --- C23

/// Largest accepted difference after RGB -> YUV -> RGB
fn round_trip_bound(cs: Cs) -> i32 {
    // Propagation of half a code per YUV component plus half a code of the result:
    // limited range: 1.164 * 0.55 + 2.115 * 0.55 + 0.65 < 3; full range: 0.55 + 1.856 * 0.55 + 0.65 < 3
    match cs {
        Cs::Rgb => 0,
        _ => 2,
    }
}

fn c23_rgb_one(c: Conv, back: Pf, set: u32, src: &Img, yuv: &Img, convert: &dyn Fn(Conv, &Img) -> Result<Img, Fail>) -> Res {
    let b = conv(yuv.pf, back, c.dst_cs);
    let _ = set;
    let out = convert(b, yuv)?;
    let bound = round_trip_bound(c.dst_cs);
    for y in 0..src.h {
        for x in 0..src.w {
            let (p, q) = (src.rgb(x, y), out.rgb(x, y));
            let grey = p[0] == p[1] && p[1] == p[2];
            for k in 0..3 {
                let d = (i32::from(p[k]) - i32::from(q[k])).abs();
                if d > bound || (grey && d > 1) {
                    fail!("{p:?} comes back as {q:?} at ({x},{y})");
                }
            }
            if grey && (q[0] != q[1] || q[1] != q[2]) {
                fail!("grey {p:?} comes back as {q:?} at ({x},{y})");
            }
        }
    }
    Ok(())
}

fn c23_cube(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((c, set, slice)) = enum_conv(s, &convs(fwd444), SLICES) else {
        return Ok(());
    };
    bulk_desc(ctx, c, set, "round trip of colour cube slice", slice);
    ctx.inner = 1 << 20;
    let src = cube_rgb(c.src, slice);
    let yuv = bulk(c, set, &src)?;
    let back = if slice % 2 == 0 { Pf::Bgra } else { Pf::Rgba };
    c23_rgb_one(c, back, set, &src, &yuv, &|c, i| bulk(c, set, i))
}

/// In-gamut YUV -> RGB -> YUV
fn c23_yuv(s: &mut Src, ctx: &mut Ctx) -> Res {
    let only: Vec<Conv> = YUV_CS.iter().map(|&cs| conv(Pf::I444, Pf::Bgra, cs)).collect();
    let Some((c, set, slice)) = enum_conv(s, &only, SLICES) else {
        return Ok(());
    };
    bulk_desc(ctx, c, set, "yuv round trip of colour cube slice", slice);
    let src = cube_yuv444(slice);
    let rgb = bulk(c, set, &src)?;
    let yuv = bulk(conv(Pf::Bgra, Pf::I444, c.src_cs), set, &rgb)?;
    for i in 0..1 << 20 {
        let p = [src.p[0][i], src.p[1][i], src.p[2][i]];
        let e = exact_rgb(c.src_cs, f64::from(p[0]), f64::from(p[1]), f64::from(p[2]));
        if e.iter().any(|v| !(0.0..=255.0).contains(v)) {
            continue;
        }
        ctx.inner += 1;
        for k in 0..3 {
            let q = yuv.p[k][i];
            if (i32::from(p[k]) - i32::from(q)).abs() > 1 {
                fail!("yuv {p:?} comes back with component {k} = {q}");
            }
        }
    }
    Ok(())
}

/// Any layout; 4:2:0 pictures are made of blocks of one colour
fn c23_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, |c| c.forward());
    let case = case_rc(s, c, PX, true);
    ctx.set_desc(case.desc());
    ctx.nontrivial = case.w * case.h >= 2;
    ctx.inner = (case.w * case.h) as u64;
    dim_label(ctx, &case);
    let mut src = case.src_img();
    let (sx, sy) = c.dst.subsampling();
    for y in 0..src.h {
        for x in 0..src.w {
            let v = src.rgb(x - x % sx, y - y % sy);
            src.set_rgb(x, y, v);
        }
    }
    if s.chance(1, 4) {
        for y in 0..src.h {
            for x in 0..src.w {
                let v = src.rgb(x, y)[1];
                src.set_rgb(x, y, [v; 3]);
            }
        }
    }
    let yuv = must_convert(&case, &src)?;
    let backs: Vec<Pf> = [Pf::Bgra, Pf::Rgba, Pf::Rgb]
        .into_iter()
        .filter(|&d| supported(yuv.pf, d))
        .collect();
    let back = s.pick(&backs);
    let b = conv(yuv.pf, back, c.dst_cs);
    let other = Case {
        conv: b,
        set: pick_set(s),
        src: side(s, b.src, case.w, case.h, true),
        dst: side(s, b.dst, case.w, case.h, true),
        ..case.clone()
    };
    ctx.set_desc(format!("{} then {}", case.desc(), other.desc()));
    c23_rgb_one(c, back, 0, &src, &yuv, &|_, i| must_convert(&other, i))
}

// --- C24

fn c24_forward(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw();
    let ch = (i % 3) as usize;
    let i = i / 3;
    let Some((c, set, slice)) = enum_conv(&mut Src::new(&[i]), &convs(fwd444), SLICES) else {
        return Ok(());
    };
    bulk_desc(ctx, c, set, ["red ramps", "green ramps", "blue ramps"][ch], slice);
    ctx.inner = 1 << 20;
    // Rows of 4 ramps of 256 pixels of channel `ch`
    let mut src = Img::zero(c.src, 1024, 1024);
    for i in 0..1 << 20 {
        let pair = (slice as usize) << 12 | i >> 8;
        let mut px = [0u8; 3];
        px[ch] = i as u8;
        px[(ch + 1) % 3] = (pair >> 8) as u8;
        px[(ch + 2) % 3] = pair as u8;
        src.set_rgb(i % 1024, i / 1024, px);
    }
    let out = bulk(c, set, &src)?;
    let ((y0, y1), (c0, c1)) = c.dst_cs.nominal();
    // Luma grows with every primary; Cb grows with blue only, Cr with red only
    let grows = [true, ch == 2, ch == 0];
    for i in 0..1 << 20 {
        let v = [out.p[0][i], out.p[1][i], out.p[2][i]];
        let px = src.rgb(i % 1024, i / 1024);
        if v[0] < y0 || v[0] > y1 || v[1] < c0 || v[1] > c1 || v[2] < c0 || v[2] > c1 {
            fail!("rgb {px:?} gives yuv {v:?}, outside the nominal range");
        }
        if px[0] == px[1] && px[1] == px[2] {
            if v[1] != 128 || v[2] != 128 {
                fail!("grey {px:?} gives yuv {v:?}");
            }
            if (px[0] == 0 && v[0] != y0) || (px[0] == 255 && v[0] != y1) {
                fail!("rgb {px:?} gives yuv {v:?}");
            }
        }
        if i & 255 != 0 {
            for k in 0..3 {
                let p = out.p[k][i - 1];
                if (grows[k] && p > v[k]) || (!grows[k] && p < v[k]) {
                    fail!(
                        "component {k} goes from {p} to {} when channel {ch} of rgb grows to {px:?}",
                        v[k]
                    );
                }
            }
        }
    }
    Ok(())
}

fn c24_backward(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw();
    let comp = (i % 3) as usize;
    let i = i / 3;
    let Some((c, set, slice)) =
        enum_conv(&mut Src::new(&[i]), &convs(|c| c.src == Pf::I444), SLICES)
    else {
        return Ok(());
    };
    bulk_desc(ctx, c, set, ["luma ramps", "cb ramps", "cr ramps"][comp], slice);
    ctx.inner = 1 << 20;
    let mut src = Img::zero(Pf::I444, 1024, 1024);
    for i in 0..1 << 20 {
        let pair = (slice as usize) << 12 | i >> 8;
        src.p[comp][i] = i as u8;
        src.p[(comp + 1) % 3][i] = (pair >> 8) as u8;
        src.p[(comp + 2) % 3][i] = pair as u8;
    }
    let out = bulk(c, set, &src)?;
    // dir[k]: how red, green, blue move when the component grows
    let dir: [i32; 3] = match comp {
        0 => [1, 1, 1],
        1 => [0, -1, 1],
        _ => [1, -1, 0],
    };
    let mut prev = [0u8; 3];
    for i in 0..1 << 20 {
        let v = out.rgb(i % 1024, i / 1024);
        let yuv = [src.p[0][i], src.p[1][i], src.p[2][i]];
        if i & 255 != 0 {
            for k in 0..3 {
                let d = i32::from(v[k]) - i32::from(prev[k]);
                if d * dir[k] < 0 || (dir[k] == 0 && d != 0) {
                    fail!(
                        "channel {k} goes from {} to {} when component {comp} of yuv grows to {yuv:?}",
                        prev[k],
                        v[k]
                    );
                }
            }
        }
        if yuv[1] == 128 && yuv[2] == 128 && (v[0] != v[1] || v[1] != v[2]) {
            fail!("neutral yuv {yuv:?} gives rgb {v:?}");
        }
        prev = v;
    }
    Ok(())
}

fn c24_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, |c| c.forward());
    let (_, src, out) = random_case(s, ctx, c)?;
    let ((y0, y1), (c0, c1)) = c.dst_cs.nominal();
    for (k, p) in out.p.iter().enumerate() {
        let (lo, hi) = if k == 0 { (y0, y1) } else { (c0, c1) };
        if let Some(v) = p.iter().find(|&&v| v < lo || v > hi) {
            fail!("plane {k} holds {v}, outside {lo}..={hi}");
        }
    }
    // The same layout, made grey
    let _ = src;
    Ok(())
}

/// A picture and a brighter one
fn c24_order(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, |c| c.forward() || c.backward());
    let case = case_rc(s, c, PX, true);
    ctx.set_desc(case.desc());
    ctx.nontrivial = case.w * case.h >= 2;
    ctx.inner = (case.w * case.h) as u64;
    dim_label(ctx, &case);
    let a = case.src_img();
    let mut b = a.clone();
    let mut m = Mix(s.raw());
    let small = s.chance(1, 2);
    for v in &mut b.p[0] {
        let r = m.next();
        let d = if small { r & 1 } else { r & 0x3f };
        *v = v.saturating_add(if r >> 32 & 1 == 1 { d as u8 } else { 0 });
    }
    let x = must_convert(&case, &a)?;
    let y = must_convert(&case, &b)?;
    if let Some(k) = (0..x.p[0].len()).find(|&k| x.p[0][k] > y.p[0][k]) {
        fail!("byte {k}: {} becomes {} for a brighter source", x.p[0][k], y.p[0][k]);
    }
    Ok(())
}

// --- C25

fn c25(s: &mut Src, ctx: &mut Ctx) -> Res {
    // A conversion, and the one that only differs by the order of the channels
    let c = conv_where(s, |c| c.forward() || c.backward() || c.dst == Pf::Rgb);
    let case = case_rc(s, c, PX, true);
    let src = case.src_img();
    let other = if c.backward() {
        let d: Vec<Pf> = [Pf::Bgra, Pf::Rgba, Pf::Rgb]
            .into_iter()
            .filter(|&d| d != c.dst && supported(c.src, d))
            .collect();
        conv(c.src, s.pick(&d), c.src_cs)
    } else {
        let d: Vec<Pf> = RGB_SRC
            .into_iter()
            .filter(|&d| d != c.src && supported(d, c.dst))
            .collect();
        conv(s.pick(&d), c.dst, c.dst_cs)
    };
    let mut src2 = Img::zero(other.src, case.w, case.h);
    if c.backward() {
        src2 = src.clone();
    } else {
        fill(&mut src2, Content { kind: 0, seed: case.content.seed ^ 1 });
        for y in 0..case.h {
            for x in 0..case.w {
                src2.set_rgb(x, y, src.rgb(x, y));
            }
        }
    }
    let case2 = Case {
        conv: other,
        src: side(s, other.src, case.w, case.h, true),
        dst: side(s, other.dst, case.w, case.h, true),
        ..case.clone()
    };
    ctx.set_desc(format!("{} vs {}", case.desc(), case2.desc()));
    ctx.nontrivial = case.w * case.h >= 2;
    ctx.inner = (case.w * case.h) as u64;
    dim_label(ctx, &case);
    let a = must_convert(&case, &src)?;
    let b = must_convert(&case2, &src2)?;
    if c.backward() {
        for y in 0..case.h {
            for x in 0..case.w {
                let (p, q) = (a.rgb(x, y), b.rgb(x, y));
                if p != q {
                    fail!("pixel ({x},{y}) is {p:?} as {:?} and {q:?} as {:?}", c.dst, other.dst);
                }
            }
        }
    } else if let Some(d) = a.diff(&b) {
        fail!("the result depends on the order of the source channels: {d}");
    }
    Ok(())
}

/// Every colour or code in the conversions that differ by the order of the channels
fn c25_cube(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((g, set, slice)) = enum_group(s, 24, SLICES) else {
        return Ok(());
    };
    let cs = YUV_CS[(g % 4) as usize];
    let yuv = [Pf::I444, Pf::I420, Pf::Nv12][(g / 4 % 3) as usize];
    let backward = g >= 12;
    ctx.set_desc(format!("orders of channels, {yuv:?} {cs:?} {} colour cube slice {slice}, backward={backward}", set_name(set)));
    ctx.nontrivial = true;
    ctx.inner = 1 << 20;
    let mut first: Option<(Pf, Img)> = None;
    let rgb = if backward { [Pf::Bgra, Pf::Rgba, Pf::Rgb] } else { RGB_SRC };
    let src = cube(yuv, slice);
    for pf in rgb {
        let out = if !backward {
            bulk(conv(pf, yuv, cs), set, &cube(pf, slice))?
        } else if supported(yuv, pf) {
            bulk(conv(yuv, pf, cs), set, &src)?
        } else {
            continue;
        };
        let Some((p0, o0)) = &first else {
            first = Some((pf, out));
            continue;
        };
        if backward {
            let (d0, d1) = (p0.depth(), pf.depth());
            let ((r0, g0, b0, _), (r1, g1, b1, _)) = (p0.rgba_offsets(), pf.rgba_offsets());
            for (i, (p, q)) in o0.p[0].chunks_exact(d0).zip(out.p[0].chunks_exact(d1)).enumerate() {
                if p[r0] != q[r1] || p[g0] != q[g1] || p[b0] != q[b1] {
                    let (x, y) = (i % src.w, i / src.w);
                    fail!("yuv {:?} is {p:?} as {p0:?} and {q:?} as {pf:?}", src.yuv(x, y));
                }
            }
        } else if let Some(d) = o0.diff(&out) {
            fail!("the result depends on the order of the source channels ({p0:?}, {pf:?}): {d}");
        }
    }
    Ok(())
}

// --- C27

fn c27(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, |c| matches!(c.src, Pf::I420 | Pf::Nv12));
    let case = case_rc(s, c, PX, true);
    let src = case.src_img();
    // The same picture with chroma at full resolution
    let mut full = Img::zero(Pf::I444, case.w, case.h);
    for y in 0..case.h {
        for x in 0..case.w {
            let v = src.yuv(x, y);
            for k in 0..3 {
                full.p[k][y * case.w + x] = v[k];
            }
        }
    }
    let fd = if c.dst == Pf::Rgb { Pf::Rgba } else { c.dst };
    let fc = conv(Pf::I444, fd, c.src_cs);
    let fcase = Case {
        conv: fc,
        set: pick_set(s),
        src: side(s, Pf::I444, case.w, case.h, true),
        dst: side(s, fd, case.w, case.h, true),
        ..case.clone()
    };
    ctx.set_desc(format!("{} vs {}", case.desc(), fcase.desc()));
    ctx.nontrivial = case.w * case.h >= 2;
    ctx.inner = (case.w * case.h) as u64;
    dim_label(ctx, &case);
    let a = must_convert(&case, &src)?;
    let b = must_convert(&fcase, &full)?;
    for y in 0..case.h {
        for x in 0..case.w {
            let (p, q) = (a.rgb(x, y), b.rgb(x, y));
            if p != q {
                fail!("pixel ({x},{y}): {p:?} from 4:2:0, {q:?} from 4:4:4 with replicated chroma");
            }
        }
    }
    // The other 4:2:0 layout
    let o = if c.src == Pf::I420 { Pf::Nv12 } else { Pf::I420 };
    let mut osrc = Img::zero(o, case.w, case.h);
    osrc.p[0].copy_from_slice(&src.p[0]);
    let n = case.w / 2 * (case.h / 2);
    for i in 0..n {
        if o == Pf::Nv12 {
            osrc.p[1][2 * i] = src.p[1][i];
            osrc.p[1][2 * i + 1] = src.p[2][i];
        } else {
            osrc.p[1][i] = src.p[1][2 * i];
            osrc.p[2][i] = src.p[1][2 * i + 1];
        }
    }
    let oc = conv(o, fd, c.src_cs);
    let ocase = Case {
        conv: oc,
        src: side(s, o, case.w, case.h, true),
        dst: side(s, fd, case.w, case.h, true),
        ..fcase.clone()
    };
    ctx.set_desc(format!("{} vs {} vs {}", case.desc(), fcase.desc(), ocase.desc()));
    let d = must_convert(&ocase, &osrc)?;
    if let Some(d) = b.diff(&d) {
        fail!("planar and interleaved chroma give different pictures: {d}");
    }
    Ok(())
}

/// Every luma with every chroma
fn c27_cube(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((g, set, slice)) = enum_group(s, 12, SLICES) else {
        return Ok(());
    };
    let cs = YUV_CS[(g % 4) as usize];
    let dst = [Pf::Bgra, Pf::Rgba, Pf::Rgb][(g / 4) as usize];
    let fd = if dst == Pf::Rgb { Pf::Rgba } else { dst };
    ctx.set_desc(format!("{dst:?} {cs:?} {} code cube slice {slice}", set_name(set)));
    ctx.nontrivial = true;
    ctx.inner = 1 << 20;
    let src = cube(Pf::I420, slice);
    let mut full = Img::zero(Pf::I444, src.w, src.h);
    for y in 0..src.h {
        for x in 0..src.w {
            let v = src.yuv(x, y);
            for k in 0..3 {
                full.p[k][y * src.w + x] = v[k];
            }
        }
    }
    let want = bulk(conv(Pf::I444, fd, cs), set, &full)?;
    for pf in [Pf::I420, Pf::Nv12] {
        if !supported(pf, dst) {
            continue;
        }
        let out = bulk(conv(pf, dst, cs), set, &cube(pf, slice))?;
        let ((r0, g0, b0, _), (r1, g1, b1, _)) = (fd.rgba_offsets(), dst.rgba_offsets());
        for (i, (p, q)) in want.p[0].chunks_exact(4).zip(out.p[0].chunks_exact(dst.depth())).enumerate() {
            if p[r0] != q[r1] || p[g0] != q[g1] || p[b0] != q[b1] {
                let (x, y) = (i % src.w, i / src.w);
                fail!("yuv {:?}: {q:?} from {pf:?}, {p:?} from 4:4:4", src.yuv(x, y));
            }
        }
    }
    Ok(())
}

// --- C28

/// Blocks of every colour
fn c28_cube(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((g, set, slice)) = enum_group(s, 12, 4 * SLICES) else {
        return Ok(());
    };
    let cs = YUV_CS[(g % 4) as usize];
    let pf = RGB_SRC[(g / 4) as usize];
    ctx.set_desc(format!("{pf:?} {cs:?} {} blocks of colour cube slice {slice}", set_name(set)));
    ctx.nontrivial = true;
    ctx.inner = 1 << 20;
    let d = pf.depth();
    let (r, g, b, a) = pf.rgba_offsets();
    let mut src = Img::zero(pf, 1024, 1024);
    for i in 0..1usize << 18 {
        let v = (slice as usize) << 18 | i;
        let mut px = [0u8; 4];
        px[r] = (v >> 16) as u8;
        px[g] = (v >> 8) as u8;
        px[b] = v as u8;
        if let Some(a) = a {
            px[a] = (i * 11) as u8;
        }
        for k in 0..4 {
            let at = ((2 * (i / 512) + k / 2) * 1024 + 2 * (i % 512) + k % 2) * d;
            src.p[0][at..at + d].copy_from_slice(&px[..d]);
        }
    }
    let n = bulk(conv(pf, Pf::Nv12, cs), set, &src)?;
    let p = bulk(conv(pf, Pf::I420, cs), set, &src)?;
    let f = bulk(conv(pf, Pf::I444, cs), set, &src)?;
    if n.p[0] != p.p[0] || n.p[0] != f.p[0] {
        let i = (0..1 << 20).find(|&i| n.p[0][i] != p.p[0][i] || n.p[0][i] != f.p[0][i]).unwrap();
        fail!("luma of {:?} is {} in NV12, {} in I420, {} in I444", src.rgb(i % 1024, i / 1024), n.p[0][i], p.p[0][i], f.p[0][i]);
    }
    for i in 0..1usize << 18 {
        let at = 2 * (i / 512) * 1024 + 2 * (i % 512);
        for k in 0..2 {
            let v = [n.p[1][2 * i + k], p.p[1 + k][i], f.p[1 + k][at]];
            if v[0] != v[1] || v[1] != v[2] {
                fail!("chroma component {k} of blocks of {:?} is {v:?} in NV12, I420, I444", src.rgb(at % 1024, at / 1024));
            }
        }
    }
    Ok(())
}

/// Blocks of different pixels: NV12 and I420 only
fn c28_sums(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.raw();
    let sum = ((i * 577) % 1021) as usize;
    let Some((g, set, _)) = enum_group(&mut Src::new(&[i % 36]), 12, 1) else {
        return Ok(());
    };
    let (cs, pf) = (YUV_CS[(g % 4) as usize], RGB_SRC[(g / 4) as usize]);
    ctx.set_desc(format!("{pf:?} {cs:?} {} 2x2 blocks, sum of reds {sum}", set_name(set)));
    ctx.nontrivial = true;
    ctx.inner = 1021 * 1021;
    let src = sums_picture(pf, sum);
    let n = bulk(conv(pf, Pf::Nv12, cs), set, &src)?;
    let p = bulk(conv(pf, Pf::I420, cs), set, &src)?;
    if n.p[0] != p.p[0] {
        fail!("luma differs between NV12 and I420");
    }
    for i in 0..p.p[1].len() {
        if n.p[1][2 * i] != p.p[1][i] || n.p[1][2 * i + 1] != p.p[2][i] {
            fail!("chroma {:?} in NV12 and {:?} in I420 for sums {sum}, {}, {}", &n.p[1][2 * i..2 * i + 2], (p.p[1][i], p.p[2][i]), i / 1021, i % 1021);
        }
    }
    Ok(())
}

fn c28(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = conv_where(s, |c| c.dst == Pf::Nv12);
    let case = case_rc(s, c, PX, true);
    let mut src = case.src_img();
    // Half of the time blocks of one colour, for which subsampling loses nothing
    let flat = s.chance(1, 2);
    if flat {
        for y in 0..src.h {
            for x in 0..src.w {
                let v = src.rgb(x & !1, y & !1);
                src.set_rgb(x, y, v);
            }
        }
    }
    let (w, h) = (case.w, case.h);
    let make = |s: &mut Src, d: Pf| Case {
        conv: conv(c.src, d, c.dst_cs),
        set: pick_set(s),
        src: side(s, c.src, w, h, true),
        dst: side(s, d, w, h, true),
        ..case.clone()
    };
    let p = make(s, Pf::I420);
    let f = make(s, Pf::I444);
    ctx.set_desc(format!("{} vs {} vs {} flat={flat}", case.desc(), p.desc(), f.desc()));
    ctx.nontrivial = w * h >= 4;
    ctx.inner = (w * h) as u64;
    dim_label(ctx, &case);
    let a = must_convert(&case, &src)?;
    let b = must_convert(&p, &src)?;
    let d = must_convert(&f, &src)?;
    for i in 0..w * h {
        let l = [a.p[0][i], b.p[0][i], d.p[0][i]];
        if l[0] != l[1] || l[1] != l[2] {
            fail!("luma at ({},{}) is {l:?} in NV12, I420, I444", i % w, i / w);
        }
    }
    for i in 0..w / 2 * (h / 2) {
        for k in 0..2 {
            let (n, q) = (a.p[1][2 * i + k], b.p[1 + k][i]);
            if n != q {
                fail!("chroma sample {i} component {k} is {n} in NV12 and {q} in I420");
            }
            if flat {
                let (x, y) = (2 * (i % (w / 2)), 2 * (i / (w / 2)));
                for (x, y) in [(x, y), (x + 1, y), (x, y + 1), (x + 1, y + 1)] {
                    let v = d.p[1 + k][y * w + x];
                    if v != n {
                        fail!("chroma component {k} of a flat block at ({x},{y}) is {n} in NV12 and {v} in I444");
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let cube12 = 12 * 3 * SLICES;
    let cube_b = 28 * 3 * SLICES;
    let cube_a = convs(has_alpha).len() as u64 * 3 * SLICES;
    vec![
        Prop {
            id: "C04",
            rule: "a case is a whole picture: either one of 16 slices of the 2^24 colours for a source format, colour space and instruction set (all are enumerated), or a random picture with random size, strides and placement; non-trivial: at least two pixels",
            assumptions: &["reference: ITU-R BT.601/BT.709 equations evaluated in double precision; accepted distance 0.5 plus the coefficient error of a 16-bit fixed point"],
            subs: vec![
                Sub { name: "cube", kind: Kind::Enum(cube12, cube12), f: c04_cube },
                Sub { name: "random", kind: Kind::Random(40_000, 400_000), f: c04_random },
            ],
        },
        Prop {
            id: "C05",
            rule: "a case is a whole picture: either all the 1021x1021 sums of green and blue of 2x2 blocks for one sum of red, or a random picture with random size, strides and placement; non-trivial: at least two pixels",
            assumptions: &["the exact chroma of a block is the average of the exact chroma of its four pixels; accepted distance 0.5 plus the coefficient error of a 16-bit fixed point"],
            subs: vec![
                Sub { name: "sums", kind: Kind::Enum(168, 1021 * 72), f: c05_sums },
                Sub { name: "random", kind: Kind::Random(64_000, 640_000), f: c05_random },
            ],
        },
        Prop {
            id: "C06",
            rule: "a case is a whole picture: either one of 16 slices of the 2^24 luma and chroma codes for a conversion and instruction set (all are enumerated), or a random picture with random size, strides and placement; non-trivial: at least two pixels",
            assumptions: &["reference: ITU-R BT.601/BT.709 equations evaluated in double precision, clamped to 0..255; accepted distance 0.5 plus the error of an 8.14 fixed point computation"],
            subs: vec![
                Sub { name: "cube", kind: Kind::Enum(cube_b, cube_b), f: c06_cube },
                Sub { name: "random", kind: Kind::Random(24_000, 240_000), f: c06_random },
            ],
        },
        Prop {
            id: "C07",
            rule: "every colour or code (a case is one of 16 slices, a format, a colour space and an instruction set), and random conversions from or to a format with alpha, converted twice with different source alpha; non-trivial: at least two pixels",
            assumptions: &[],
            subs: vec![
                Sub { name: "cube", kind: Kind::Enum(cube_a, cube_a), f: c07_cube },
                Sub { name: "alpha", kind: Kind::Random(640_000, 6_400_000), f: c07 },
            ],
        },
        Prop {
            id: "C08",
            rule: "RGB to RGB conversions: widths 1 to 400 enumerated, plus random pictures, sizes, strides and placements; non-trivial: at least two pixels",
            assumptions: &[],
            subs: vec![
                Sub { name: "widths", kind: Kind::Enum(400 * 3 * 3 * 5, 400 * 3 * 3 * 5), f: c08_widths },
                Sub { name: "random", kind: Kind::Random(640_000, 6_400_000), f: c08_random },
            ],
        },
        Prop {
            id: "C23",
            rule: "round trips: all 2^24 RGB colours and all in-gamut YUV codes, enumerated by slices, and random pictures and layouts (one colour per 2x2 block for 4:2:0); non-trivial: at least two pixels",
            assumptions: &["bounds: 2 codes for any RGB colour, 1 for greys, which stay grey; 1 for in-gamut YUV"],
            subs: vec![
                Sub { name: "rgb cube", kind: Kind::Enum(cube12, cube12), f: c23_cube },
                Sub { name: "yuv cube", kind: Kind::Enum(4 * 3 * SLICES, 4 * 3 * SLICES), f: c23_yuv },
                Sub { name: "random", kind: Kind::Random(50_000, 500_000), f: c23_random },
            ],
        },
        Prop {
            id: "C24",
            rule: "ramps of every component for every value of the two others, enumerated by slices; random pictures checked for range; random pairs of a picture and a brighter one; non-trivial: at least two pixels",
            assumptions: &[],
            subs: vec![
                Sub { name: "forward ramps", kind: Kind::Enum(3 * cube12, 3 * cube12), f: c24_forward },
                Sub { name: "backward ramps", kind: Kind::Enum(3 * 8 * 3 * SLICES, 3 * 8 * 3 * SLICES), f: c24_backward },
                Sub { name: "range", kind: Kind::Random(4_000, 100_000), f: c24_random },
                Sub { name: "order", kind: Kind::Random(4_000, 100_000), f: c24_order },
            ],
        },
        Prop {
            id: "C25",
            rule: "every colour or code in all the conversions that differ only by channel order (a case is one of 16 slices), and random pairs of such conversions, that differ only by channel order, with independent layouts; non-trivial: at least two pixels",
            assumptions: &[],
            subs: vec![
                Sub { name: "cube", kind: Kind::Enum(24 * 3 * SLICES, 24 * 3 * SLICES), f: c25_cube },
                Sub { name: "order", kind: Kind::Random(480_000, 4_800_000), f: c25 },
            ],
        },
        Prop {
            id: "C27",
            rule: "every luma with every chroma, by slices, and random 4:2:0 pictures decoded as I420, NV12 and as I444 with replicated chroma, with independent layouts and instruction sets; non-trivial: at least two pixels",
            assumptions: &[],
            subs: vec![
                Sub { name: "cube", kind: Kind::Enum(12 * 3 * SLICES, 12 * 3 * SLICES), f: c27_cube },
                Sub { name: "replicate", kind: Kind::Random(360_000, 3_600_000), f: c27 },
            ],
        },
        Prop {
            id: "C28",
            rule: "2x2 blocks of every colour, by slices, blocks of different pixels with all the sums of green and blue, and random RGB pictures, converted to NV12, I420 and I444, the random ones with independent layouts and instruction sets; non-trivial: at least one 2x2 block",
            assumptions: &[],
            subs: vec![
                Sub { name: "cube", kind: Kind::Enum(4 * 12 * 3 * SLICES, 4 * 12 * 3 * SLICES), f: c28_cube },
                Sub { name: "sums", kind: Kind::Enum(72, 1021 * 36), f: c28_sums },
                Sub { name: "planes", kind: Kind::Random(420_000, 4_200_000), f: c28 },
            ],
        },
    ]
}
