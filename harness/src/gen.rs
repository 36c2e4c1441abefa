//! Decoding of generated choices into conversions, dimensions, strides, placements and
//! picture contents; execution of a case in guarded memory; packed picture values.

use crate::engine::{library_panic, panic_msg, Fail, Src};
use crate::fail;
use crate::mem::{canary, Buf, Place, CAP};
use crate::model::*;
use dcv_color_primitives as dcp;
use std::fmt::Write as _;

/// Deterministic expansion of one generated choice into bytes (splitmix64)
pub struct Mix(pub u64);

impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn set_name(set: u32) -> &'static str {
    ["auto", "x86", "sse2", "avx2", "neon"][set as usize]
}

/// Instruction sets that can be forced: those the running cpu can execute and neon (on a
/// model of its instructions: see neon.rs), or none (besides 0, the automatic choice) if
/// the library does not build with its override
pub fn usable_sets() -> &'static [u32] {
    if cfg!(not(dcp_verif)) {
        return &[0];
    }
    match (std::arch::is_x86_feature_detected!("avx2"), cfg!(dcp_verif_neon)) {
        (true, true) => &[0, 1, 2, 3, 4],
        (true, false) => &[0, 1, 2, 3],
        (false, true) => &[0, 1, 2, 4],
        (false, false) => &[0, 1, 2],
    }
}

/// The automatic choice may be one of several sets when none can be forced
pub fn forced_sets() -> &'static [u32] {
    let u = usable_sets();
    if u.len() > 1 {
        &u[1..]
    } else {
        u
    }
}

#[cfg(not(dcp_verif))]
pub fn force(set: u32) {
    assert!(set == 0);
}

#[cfg(dcp_verif)]
pub fn force(set: u32) {
    assert!(dcp::verif::force(set), "instruction set {} cannot be forced", set_name(set));
}

pub fn pick_set(s: &mut Src) -> u32 {
    let u = usable_sets();
    let i = s.weighted(&[3, 2, 3, 4, 2]) as u32;
    if u.contains(&i) {
        i
    } else {
        0
    }
}

// ---------------------------------------------------------------------------------------
// Pictures

/// A picture as tightly packed logical planes
#[derive(Clone, PartialEq, Eq)]
pub struct Img {
    pub pf: Pf,
    pub w: usize,
    pub h: usize,
    pub p: Vec<Vec<u8>>,
}

impl Img {
    pub fn zero(pf: Pf, w: usize, h: usize) -> Self {
        Img {
            pf,
            w,
            h,
            p: logical(pf, w, h)
                .iter()
                .map(|p| vec![0; p.row * p.rows])
                .collect(),
        }
    }

    /// Red, green and blue of a pixel of a packed RGB picture
    pub fn rgb(&self, x: usize, y: usize) -> [u8; 3] {
        let (r, g, b, _) = self.pf.rgba_offsets();
        let o = self.pf.depth() * (y * self.w + x);
        [self.p[0][o + r], self.p[0][o + g], self.p[0][o + b]]
    }

    pub fn set_rgb(&mut self, x: usize, y: usize, v: [u8; 3]) {
        let (r, g, b, _) = self.pf.rgba_offsets();
        let o = self.pf.depth() * (y * self.w + x);
        self.p[0][o + r] = v[0];
        self.p[0][o + g] = v[1];
        self.p[0][o + b] = v[2];
    }

    /// Luma, Cb and Cr that apply to a pixel of a YUV picture
    pub fn yuv(&self, x: usize, y: usize) -> [u8; 3] {
        let w = self.w;
        let l = self.p[0][y * w + x];
        let (sx, sy) = self.pf.subsampling();
        let (cx, cy, cw) = (x / sx, y / sy, w / sx);
        if self.pf == Pf::Nv12 {
            let o = cy * w + 2 * cx;
            [l, self.p[1][o], self.p[1][o + 1]]
        } else {
            let o = cy * cw + cx;
            [l, self.p[1][o], self.p[2][o]]
        }
    }

    /// First difference with another picture of the same kind
    pub fn diff(&self, other: &Img) -> Option<String> {
        assert!(self.pf == other.pf && self.w == other.w && self.h == other.h);
        for (i, l) in logical(self.pf, self.w, self.h).iter().enumerate() {
            if self.p[i] != other.p[i] {
                let k = (0..self.p[i].len())
                    .find(|&k| self.p[i][k] != other.p[i][k])
                    .unwrap();
                return Some(format!(
                    "plane {i} row {} byte {}: {} vs {}",
                    k / l.row,
                    k % l.row,
                    self.p[i][k],
                    other.p[i][k]
                ));
            }
        }
        None
    }

    /// The rectangle at (x, y), which must respect chroma subsampling
    pub fn crop(&self, x: usize, y: usize, w: usize, h: usize) -> Img {
        let mut o = Img::zero(self.pf, w, h);
        let full = logical(self.pf, self.w, self.h);
        let (sx, sy) = self.pf.subsampling();
        for (i, l) in logical(self.pf, w, h).iter().enumerate() {
            let (bx, by) = match self.pf {
                Pf::Nv12 if i == 1 => (x, y / 2),
                _ if i == 0 && self.pf.is_yuv() => (x, y),
                p if p.is_yuv() => (x / sx, y / sy),
                p => (x * p.depth(), y),
            };
            for r in 0..l.rows {
                let s = (by + r) * full[i].row + bx;
                o.p[i][r * l.row..(r + 1) * l.row].copy_from_slice(&self.p[i][s..s + l.row]);
            }
        }
        o
    }
}

/// Content of a generated picture
#[derive(Clone, Copy, Debug)]
pub struct Content {
    pub kind: u8,
    pub seed: u64,
}

const EDGES: [u8; 20] = [
    0, 1, 2, 15, 16, 17, 127, 128, 129, 130, 234, 235, 236, 239, 240, 241, 253, 254, 255, 64,
];

pub fn content(s: &mut Src) -> Content {
    Content {
        kind: s.weighted(&[4, 1, 2, 2, 1, 2, 2, 1, 1, 1]) as u8,
        seed: s.raw(),
    }
}

pub fn fill(img: &mut Img, c: Content) {
    let planes = logical(img.pf, img.w, img.h);
    let comps = |i: usize| match img.pf {
        Pf::Nv12 if i == 1 => 2,
        p if p.is_yuv() => 1,
        p => p.depth(),
    };
    let mut m = Mix(c.seed);
    for i in 0..planes.len() {
        let n = comps(i);
        let row = planes[i].row;
        let data = &mut img.p[i];
        match c.kind {
            // Uniform bytes
            0 => {
                for ch in data.chunks_mut(8) {
                    let v = m.next().to_le_bytes();
                    ch.copy_from_slice(&v[..ch.len()]);
                }
            }
            // One colour
            1 => {
                let v = m.next().to_le_bytes();
                for (k, d) in data.iter_mut().enumerate() {
                    *d = v[k % n];
                }
            }
            // Extremes
            2 => {
                for ch in data.chunks_mut(64) {
                    let v = m.next();
                    for (k, d) in ch.iter_mut().enumerate() {
                        *d = if (v >> k) & 1 == 1 { 255 } else { 0 };
                    }
                }
            }
            // Values around the limits of the nominal ranges
            3 => {
                for ch in data.chunks_mut(8) {
                    let v = m.next().to_le_bytes();
                    for (k, d) in ch.iter_mut().enumerate() {
                        *d = EDGES[v[k] as usize % EDGES.len()];
                    }
                }
            }
            // Ramps
            4 => {
                let v = m.next();
                let (a, b) = ((v & 7) as usize + 1, ((v >> 8) & 7) as usize);
                for (k, d) in data.iter_mut().enumerate() {
                    let (x, y) = (k % row, k / row);
                    *d = ((x / n) * a + y * b + (x % n) * 85) as u8;
                }
            }
            // A few values only, in runs
            5 => {
                let v = m.next().to_le_bytes();
                let run = 1 + (m.next() % 9) as usize;
                for ch in data.chunks_mut(64 * run) {
                    let mut bits = m.next();
                    for g in ch.chunks_mut(run) {
                        g.fill(v[(bits & 3) as usize]);
                        bits = bits.rotate_right(2);
                    }
                }
            }
            // Nominal limited range
            6 => {
                for ch in data.chunks_mut(8) {
                    let v = m.next().to_le_bytes();
                    for (k, d) in ch.iter_mut().enumerate() {
                        *d = 16 + (u16::from(v[k]) * 219 / 255) as u8;
                    }
                }
            }
            // Greys
            8 => {
                let spread = [255, 3, 0][(c.seed >> 40) as usize % 3];
                let base = m.next();
                for (k, px) in data.chunks_mut(n).enumerate() {
                    let v = if spread == 255 { m.next() } else { base.wrapping_add(k as u64 & spread) };
                    let alpha = v >> 32;
                    px.fill(if i > 0 { 128 } else { v as u8 });
                    if n == 4 {
                        px[img.pf.rgba_offsets().3.unwrap()] = alpha as u8;
                    }
                }
            }
            // Pixels of a few colours, the extreme ones among them
            9 => {
                let all = m.next() & 1;
                let mut m = Mix(c.seed ^ 0x5eed);
                let mut colours = [[0u8; 4], [255; 4], [0; 4], [0; 4]];
                for v in colours.iter_mut().skip(2) {
                    let x = m.next();
                    *v = (x as u32).to_le_bytes();
                    if all == 0 {
                        v.iter_mut().for_each(|b| *b = if *b & 1 == 1 { 255 } else { 0 });
                    }
                }
                for (k, px) in data.chunks_mut(n).enumerate() {
                    let mut one = Mix(c.seed.wrapping_add(k as u64));
                    let v = colours[(one.next() >> 13) as usize % 4];
                    px.copy_from_slice(&v[i.min(4 - n)..][..n]);
                }
            }
            // One colour with a few outliers
            _ => {
                let v = m.next().to_le_bytes();
                for (k, d) in data.iter_mut().enumerate() {
                    *d = v[k % n];
                }
                if !data.is_empty() {
                    for _ in 0..1 + m.next() % 4 {
                        let at = (m.next() % data.len() as u64) as usize;
                        data[at] = m.next() as u8;
                    }
                }
            }
        }
    }
}

pub fn picture(pf: Pf, w: usize, h: usize, c: Content) -> Img {
    let mut i = Img::zero(pf, w, h);
    fill(&mut i, c);
    i
}

// ---------------------------------------------------------------------------------------
// Dimensions and layouts

fn even(x: usize, need: bool) -> usize {
    if need {
        (x & !1).max(2)
    } else {
        x
    }
}

/// Log-uniform in 1..=max
fn loguni(s: &mut Src, max: usize) -> usize {
    let bits = usize::BITS - max.leading_zeros();
    let b = s.usize(0, bits as usize - 1) as u32;
    let lo = 1usize << b;
    let hi = ((lo << 1) - 1).min(max);
    s.usize(lo, hi)
}

/// Close to a multiple of a power of two, up to `max`
fn round(s: &mut Src, max: usize) -> usize {
    let unit = 256usize << s.usize(0, 8);
    let n = (max / unit).clamp(1, 12);
    let v = unit * s.usize(1, n) + s.usize(0, 8);
    (v - s.usize(0, 4).min(4)).clamp(1, max)
}

/// Width and height satisfying the parity constraints of the conversion, with at most
/// `budget` pixels
pub fn dims(s: &mut Src, c: Conv, budget: usize) -> (usize, usize) {
    let k = s.weighted(&[30, 34, 16, 6, 5, 8, 1]);
    let (a, b, d) = (s.raw(), s.raw(), s.raw());
    let buf = [a, b, d];
    let mut t = Src::new(&buf);
    let more = [b.rotate_left(20), d.rotate_left(20), b.rotate_left(40), d.rotate_left(40)];
    let mut u = Src::new(&more);
    let (w, h) = match k {
        // Small
        0 => (t.usize(1, 20), t.usize(1, 9)),
        // Close to the number of pixels processed at once
        1 => {
            let unit = [8, 16, 24, 32, 48, 64, 96, 128][t.usize(0, 7)];
            let q = t.usize(0, 24);
            let (mult, delta) = (q / 5 + 1, q % 5);
            (unit * mult + delta - 2, t.usize(1, 7))
        }
        2 => (t.usize(1, 140), t.usize(1, 40)),
        // Wide
        3 if a & 1 == 1 => (round(&mut u, 70_000), t.usize(1, 4)),
        3 => (loguni(&mut t, 70_000), t.usize(1, 4)),
        // Tall
        4 => {
            let w = t.usize(1, 70);
            if d & 1 == 1 {
                (w, round(&mut u, 70_000))
            } else {
                (w, loguni(&mut t, 70_000))
            }
        }
        5 => {
            let w = loguni(&mut t, 4096);
            (w, loguni(&mut t, 4096))
        }
        // Video sizes
        _ => {
            let v = [
                (640, 480),
                (1280, 720),
                (1366, 768),
                (1920, 1080),
                (2560, 1440),
                (4096, 2160),
            ];
            v[t.usize(0, 5)]
        }
    };
    let w = even(w.min(budget), c.even_width());
    let h = even(h.min((budget / w).max(1)), c.even_height());
    (w, h)
}

#[derive(Clone, Debug)]
pub struct Side {
    pub planes: u32,
    /// Strides as passed to the library
    pub strides: Option<Vec<usize>>,
    /// Bytes of each buffer
    pub lens: Vec<usize>,
    pub places: Vec<Place>,
}

impl Side {
    pub fn tight(pf: Pf, planes: u32, w: usize, h: usize) -> Side {
        let g = buffer_rows(pf, planes, w, h);
        Side {
            planes,
            strides: None,
            lens: g.iter().map(|p| need(*p, p.row).unwrap()).collect(),
            places: vec![Place::End; g.len()],
        }
    }

    pub fn eff(&self, g: &[Plane]) -> Vec<usize> {
        g.iter()
            .enumerate()
            .map(|(i, p)| match &self.strides {
                None => p.row,
                Some(v) => eff_stride(v[i], p.row),
            })
            .collect()
    }
}

/// Most bytes a single buffer is allowed to take
const MAX_BUF: usize = CAP / 8 * 5;

pub fn stride(s: &mut Src, p: Plane, cap: usize) -> usize {
    let k = s.weighted(&[30, 15, 30, 20, 10, 10, 1]);
    let r = s.raw();
    let buf = [r];
    let mut t = Src::new(&buf);
    let v = match k {
        0 => 0,
        1 => p.row,
        2 => p.row + t.usize(1, 65),
        3 => {
            let a = 16usize << t.usize(0, 8);
            p.row.div_ceil(a) * a
        }
        4 => 2 * p.row + t.usize(0, 3),
        // Around a large power of two
        6 => {
            let k = r % 9 + 12;
            ((1usize << k) + (r >> 8) as usize % 9).saturating_sub(4).max(p.row)
        }
        _ => p.row + t.usize(66, 6000),
    };
    if v.saturating_mul(p.rows) > cap.max(p.row * p.rows) {
        p.row
    } else {
        v
    }
}

pub fn place(s: &mut Src) -> Place {
    match s.weighted(&[8, 2, 3, 2]) {
        0 => Place::End,
        1 => Place::Start,
        2 => Place::EndMinus(s.usize(1, 64)),
        _ => Place::StartPlus(s.usize(1, 64)),
    }
}

/// A valid layout: strides not smaller than a row, buffers not smaller than needed
pub fn side(s: &mut Src, pf: Pf, w: usize, h: usize, slack: bool) -> Side {
    let planes = if pf == Pf::Nv12 {
        2 - s.weighted(&[3, 2]) as u32
    } else {
        pf.default_planes()
    };
    let g = buffer_rows(pf, planes, w, h);
    let mut strides: Vec<usize> = Vec::new();
    let with = s.chance(2, 3);
    for p in &g {
        strides.push(stride(s, *p, MAX_BUF));
    }
    if !with {
        strides.iter_mut().for_each(|v| *v = 0);
    }
    let lens = g
        .iter()
        .zip(&strides)
        .map(|(p, st)| need(*p, eff_stride(*st, p.row)).unwrap())
        .zip(g.iter().map(|_| {
            if slack && s.chance(1, 2) {
                s.usize(1, 200)
            } else {
                0
            }
        }))
        .map(|(n, x)| n + x)
        .collect();
    let extra = s.weighted(&[6, 1, 1]);
    let x = s.raw() as usize;
    let strides = if with || s.chance(1, 2) {
        for k in 0..extra {
            strides.push(if k == 0 { x } else { 0 });
        }
        Some(strides)
    } else {
        None
    };
    let places = g.iter().map(|_| place(s)).collect();
    Side {
        planes,
        strides,
        lens,
        places,
    }
}

/// Make the rows of some buffers overlap, by strides shorter than a row. Returns false if
/// there is no buffer for which this is possible
pub fn overlap(s: &mut Src, pf: Pf, side: &mut Side, w: usize, h: usize) -> bool {
    if pf == Pf::Nv12 && side.planes == 1 {
        return false;
    }
    let g = buffer_rows(pf, side.planes, w, h);
    let mut v = side.eff(&g);
    let first = s.usize(0, g.len() - 1);
    let mut any = false;
    for (i, p) in g.iter().enumerate() {
        let k = s.weighted(&[3, 2, 1, 2]);
        let r = s.raw();
        if (i != first && r % 3 == 0) || p.row < 2 {
            continue;
        }
        v[i] = match k {
            0 => 1 + (r >> 8) as usize % (p.row - 1),
            1 => p.row - 1,
            2 => 1,
            _ => (p.row / 2).max(1),
        };
        any |= p.rows > 1;
    }
    side.lens = g.iter().zip(&v).map(|(p, &st)| need(*p, st).unwrap()).collect();
    side.strides = Some(v);
    any
}

#[derive(Clone, Debug)]
pub struct Case {
    pub conv: Conv,
    pub set: u32,
    pub w: usize,
    pub h: usize,
    pub src: Side,
    pub dst: Side,
    pub content: Content,
    pub salt: u8,
    /// Use the C interface
    pub c: bool,
}

impl Case {
    pub fn tight(conv: Conv, set: u32, w: usize, h: usize, content: Content) -> Case {
        Case {
            conv,
            set,
            w,
            h,
            src: Side::tight(conv.src, conv.src.default_planes(), w, h),
            dst: Side::tight(conv.dst, conv.dst.default_planes(), w, h),
            content,
            salt: 0x5a,
            c: false,
        }
    }

    pub fn src_img(&self) -> Img {
        picture(self.conv.src, self.w, self.h, self.content)
    }

    pub fn desc(&self) -> String {
        let mut o = String::new();
        let f = |o: &mut String, n: &str, pf: Pf, cs: Cs, s: &Side| {
            let _ = write!(
                o,
                " {n}={pf:?}/{cs:?} planes={} strides={:?} lens={:?} at={:?}",
                s.planes, s.strides, s.lens, s.places
            );
        };
        let _ = write!(o, "{}x{} {}", self.w, self.h, set_name(self.set));
        if self.c {
            o.push_str(" (C)");
        }
        f(&mut o, "src", self.conv.src, self.conv.src_cs, &self.src);
        f(&mut o, "dst", self.conv.dst, self.conv.dst_cs, &self.dst);
        let _ = write!(
            o,
            " content={}:{:x} fill={:02x}",
            self.content.kind, self.content.seed, self.salt
        );
        o
    }
}

pub fn any_conv(s: &mut Src) -> Conv {
    let all = conversions();
    s.pick(&all)
}

pub fn conv_where(s: &mut Src, f: fn(&Conv) -> bool) -> Conv {
    let all: Vec<Conv> = conversions().into_iter().filter(f).collect();
    s.pick(&all)
}

/// A valid case
pub fn case(s: &mut Src, conv: Conv, budget: usize, slack: bool) -> Case {
    let set = pick_set(s);
    let (w, h) = dims(s, conv, budget);
    let content = content(s);
    let src = side(s, conv.src, w, h, slack);
    let dst = side(s, conv.dst, w, h, slack);
    let salt = s.raw() as u8;
    Case {
        conv,
        set,
        w,
        h,
        src,
        dst,
        content,
        salt,
        c: false,
    }
}

/// A case that is to succeed, sometimes by way of the C interface (which is not told the
/// sizes of the buffers, and is thus no place for buffers that are too small)
pub fn case_rc(s: &mut Src, conv: Conv, budget: usize, slack: bool) -> Case {
    let mut c = case(s, conv, budget, slack);
    c.c = s.chance(1, 8);
    c
}

/// Default number of pixels of a case
pub const PX: usize = 40_000;

/// Budget that is occasionally large
pub fn budget(s: &mut Src) -> usize {
    match s.weighted(&[60, 6, 1]) {
        0 => PX,
        1 => 400_000,
        _ => CAP / 13,
    }
}

// ---------------------------------------------------------------------------------------
// Execution

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ek {
    InvalidValue,
    InvalidOperation,
    NotEnoughData,
}

pub fn ek(e: dcp::ErrorKind) -> Ek {
    match e {
        dcp::ErrorKind::InvalidValue => Ek::InvalidValue,
        dcp::ErrorKind::InvalidOperation => Ek::InvalidOperation,
        dcp::ErrorKind::NotEnoughData => Ek::NotEnoughData,
    }
}

pub type Outcome = Result<(), Ek>;

/// Call the library and catch a panic
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Fail> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        let (_, at) = library_panic();
        Fail::new(format!("the library panicked at {at}: {}", panic_msg(&p)))
    })
}

/// Buffers of a side, in consecutive arenas starting at `base`
pub fn bufs(side: &Side, base: usize) -> Vec<Buf> {
    side.lens
        .iter()
        .zip(&side.places)
        .enumerate()
        .map(|(i, (&l, &p))| Buf::new(base + i, l, p))
        .collect()
}

/// Rows of logical plane `i`: buffer index and byte offset of the first one, stride
pub fn plane_at(pf: Pf, side: &Side, w: usize, h: usize, i: usize) -> (usize, usize, usize) {
    let g = buffer_rows(pf, side.planes, w, h);
    let st = side.eff(&g);
    if pf == Pf::Nv12 && side.planes == 1 {
        (0, if i == 0 { 0 } else { st[0] * h }, st[0])
    } else {
        (i, 0, st[i])
    }
}

pub fn store(img: &Img, side: &Side, b: &[Buf]) {
    for (i, l) in logical(img.pf, img.w, img.h).iter().enumerate() {
        let (k, off, st) = plane_at(img.pf, side, img.w, img.h, i);
        let m = b[k].rw();
        for r in 0..l.rows {
            let o = off + r * st;
            m[o..o + l.row].copy_from_slice(&img.p[i][r * l.row..(r + 1) * l.row]);
        }
    }
}

pub fn load(pf: Pf, w: usize, h: usize, side: &Side, b: &[Buf]) -> Img {
    let mut img = Img::zero(pf, w, h);
    for (i, l) in logical(pf, w, h).iter().enumerate() {
        let (k, off, st) = plane_at(pf, side, w, h, i);
        let m = b[k].rw();
        for r in 0..l.rows {
            let o = off + r * st;
            img.p[i][r * l.row..(r + 1) * l.row].copy_from_slice(&m[o..o + l.row]);
        }
    }
    img
}

/// First byte that does not belong to the image and was modified
pub fn stray_write(pf: Pf, w: usize, h: usize, side: &Side, b: &[Buf], salt: u8) -> Option<String> {
    let g = buffer_rows(pf, side.planes, w, h);
    let st = side.eff(&g);
    for (k, buf) in b.iter().enumerate() {
        if let Some(d) = buf.margin_damage(salt) {
            return Some(format!("byte {d} of buffer {k} of {} bytes", buf.len));
        }
        let m = buf.rw();
        let mut pos = 0;
        let check = |from: usize, to: usize| {
            (from..to)
                .find(|&i| m[i] != canary(salt, i))
                .map(|i| format!("byte {i} of buffer {k} of {} bytes (padding)", buf.len))
        };
        for r in 0..g[k].rows {
            let o = r * st[k];
            if let Some(e) = check(pos, o) {
                return Some(e);
            }
            pos = o + g[k].row;
        }
        if let Some(e) = check(pos, buf.len) {
            return Some(e);
        }
    }
    None
}

pub fn untouched(b: &[Buf], salt: u8) -> Option<String> {
    for (k, buf) in b.iter().enumerate() {
        if let Some(d) = buf.margin_damage(salt) {
            return Some(format!("byte {d} of buffer {k} of {} bytes", buf.len));
        }
        let m = buf.rw();
        if let Some(i) = (0..buf.len).find(|&i| m[i] != canary(salt, i)) {
            return Some(format!("byte {i} of buffer {k} of {} bytes", buf.len));
        }
    }
    None
}

/// Arguments as given to the library, without any validity requirement
pub struct Raw<'a> {
    pub w: u32,
    pub h: u32,
    pub sf: (Pf, Cs, u32),
    pub ss: Option<&'a [usize]>,
    pub sb: &'a [&'a [u8]],
    pub df: (Pf, Cs, u32),
    pub ds: Option<&'a [usize]>,
}

pub fn call_rust(set: u32, r: &Raw, db: &mut [&mut [u8]]) -> Result<Outcome, Fail> {
    let sf = format(r.sf.0, r.sf.1, r.sf.2);
    let df = format(r.df.0, r.df.1, r.df.2);
    force(set);
    let o = guarded(|| dcp::convert_image(r.w, r.h, &sf, r.ss, r.sb, &df, r.ds, db).map_err(ek));
    force(0);
    o
}

pub const SRC_ARENA: usize = 0;
pub const DST_ARENA: usize = 4;

/// Allocate, fill, convert. Returns the outcome; destination buffers are left in place
pub fn convert(case: &Case, src: &Img) -> Result<(Outcome, Vec<Buf>), Fail> {
    let sb = bufs(&case.src, SRC_ARENA);
    let db = bufs(&case.dst, DST_ARENA);
    for b in &sb {
        b.poison(case.salt ^ 0x3c);
    }
    for b in &db {
        b.poison(case.salt);
    }
    store(src, &case.src, &sb);
    let o = call_on(case, &sb, &db)?;
    Ok((o, db))
}

/// Convert between buffers that are already prepared
pub fn call_on(case: &Case, sb: &[Buf], db: &[Buf]) -> Result<Outcome, Fail> {
    if case.c {
        return crate::capi::convert_case(case, sb, db);
    }
    let mut s: Vec<&[u8]> = sb.iter().map(Buf::ro).collect();
    let mut d: Vec<&mut [u8]> = db.iter().map(Buf::rw).collect();
    // More buffers than planes, sometimes: they are not part of the pictures
    let mut extra = [[0x5au8; 24]; 3];
    if case.salt % 4 == 1 {
        let n = (case.salt / 4) as usize % 9;
        s.extend([&EXTRA_SRC[..], &[], &EXTRA_SRC[..7]].iter().take(n % 3));
        d.extend(extra.iter_mut().map(|e| &mut e[n..]).take(n / 3));
    }
    let o = call_rust(
        case.set,
        &Raw {
            w: case.w as u32,
            h: case.h as u32,
            sf: (case.conv.src, case.conv.src_cs, case.src.planes),
            ss: case.src.strides.as_deref(),
            sb: &s,
            df: (case.conv.dst, case.conv.dst_cs, case.dst.planes),
            ds: case.dst.strides.as_deref(),
        },
        &mut d,
    )?;
    if extra != [[0x5au8; 24]; 3] {
        fail!("a buffer beyond the planes of the destination was written");
    }
    Ok(o)
}

static EXTRA_SRC: [u8; 64] = [0xa7; 64];

/// Convert a valid case, which must succeed, and return the picture it produced
pub fn must_convert(case: &Case, src: &Img) -> Result<Img, Fail> {
    let (o, db) = convert(case, src)?;
    if let Err(e) = o {
        return Err(Fail::new(format!("a valid conversion was rejected: {e:?}")));
    }
    Ok(load(case.conv.dst, case.w, case.h, &case.dst, &db))
}

/// Convert a picture between tightly packed buffers
pub fn simple(conv: Conv, set: u32, src: &Img) -> Result<Img, Fail> {
    let case = Case::tight(conv, set, src.w, src.h, Content { kind: 0, seed: 0 });
    must_convert(&case, src)
}
