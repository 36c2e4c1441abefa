//! Independent model of the library: formats, geometry of planes, size requirements,
//! outcome classification, and reference colour conversion. Nothing here is derived
//! from the implementation: the colour equations are those of ITU-R BT.601 / BT.709.

use dcv_color_primitives as dcp;
use dcp::{ColorSpace, ImageFormat, PixelFormat};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Pf {
    Argb,
    Bgra,
    Bgr,
    Rgba,
    Rgb,
    I444,
    I422,
    I420,
    Nv12,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cs {
    Rgb,
    Bt601,
    Bt709,
    Bt601Fr,
    Bt709Fr,
}

pub const ALL_PF: [Pf; 9] = [
    Pf::Argb,
    Pf::Bgra,
    Pf::Bgr,
    Pf::Rgba,
    Pf::Rgb,
    Pf::I444,
    Pf::I422,
    Pf::I420,
    Pf::Nv12,
];
pub const ALL_CS: [Cs; 5] = [Cs::Rgb, Cs::Bt601, Cs::Bt709, Cs::Bt601Fr, Cs::Bt709Fr];
pub const YUV_CS: [Cs; 4] = [Cs::Bt601, Cs::Bt709, Cs::Bt601Fr, Cs::Bt709Fr];
pub const RGB_SRC: [Pf; 3] = [Pf::Bgra, Pf::Argb, Pf::Bgr];

impl Pf {
    pub fn api(self) -> PixelFormat {
        match self {
            Pf::Argb => PixelFormat::Argb,
            Pf::Bgra => PixelFormat::Bgra,
            Pf::Bgr => PixelFormat::Bgr,
            Pf::Rgba => PixelFormat::Rgba,
            Pf::Rgb => PixelFormat::Rgb,
            Pf::I444 => PixelFormat::I444,
            Pf::I422 => PixelFormat::I422,
            Pf::I420 => PixelFormat::I420,
            Pf::Nv12 => PixelFormat::Nv12,
        }
    }

    /// Value of the public C enumeration
    pub fn c_value(self) -> u32 {
        ALL_PF.iter().position(|&p| p == self).unwrap() as u32
    }

    pub fn is_yuv(self) -> bool {
        matches!(self, Pf::I444 | Pf::I422 | Pf::I420 | Pf::Nv12)
    }

    /// Bytes per pixel of packed RGB formats
    pub fn depth(self) -> usize {
        match self {
            Pf::Argb | Pf::Bgra | Pf::Rgba => 4,
            Pf::Bgr | Pf::Rgb => 3,
            _ => 0,
        }
    }

    /// Byte offsets of red, green, blue and alpha in a pixel
    pub fn rgba_offsets(self) -> (usize, usize, usize, Option<usize>) {
        match self {
            Pf::Argb => (1, 2, 3, Some(0)),
            Pf::Bgra => (2, 1, 0, Some(3)),
            Pf::Bgr => (2, 1, 0, None),
            Pf::Rgba => (0, 1, 2, Some(3)),
            Pf::Rgb => (0, 1, 2, None),
            _ => unreachable!(),
        }
    }

    pub fn even_width(self) -> bool {
        matches!(self, Pf::I422 | Pf::I420 | Pf::Nv12)
    }

    pub fn even_height(self) -> bool {
        matches!(self, Pf::I420 | Pf::Nv12)
    }

    /// Horizontal and vertical chroma subsampling factors
    pub fn subsampling(self) -> (usize, usize) {
        match self {
            Pf::I422 => (2, 1),
            Pf::I420 | Pf::Nv12 => (2, 2),
            _ => (1, 1),
        }
    }

    /// Accepted numbers of planes. None: not specified (the documentation and the test
    /// suite disagree about I422 with a single plane)
    pub fn planes_ok(self, n: u32) -> Option<bool> {
        match self {
            Pf::I422 if n == 1 => None,
            Pf::I444 | Pf::I422 | Pf::I420 => Some(n == 3),
            Pf::Nv12 => Some(n == 1 || n == 2),
            _ => Some(n == 1),
        }
    }

    pub fn default_planes(self) -> u32 {
        match self {
            Pf::I444 | Pf::I422 | Pf::I420 => 3,
            Pf::Nv12 => 2,
            _ => 1,
        }
    }
}

impl Cs {
    pub fn api(self) -> ColorSpace {
        match self {
            Cs::Rgb => ColorSpace::Rgb,
            Cs::Bt601 => ColorSpace::Bt601,
            Cs::Bt709 => ColorSpace::Bt709,
            Cs::Bt601Fr => ColorSpace::Bt601FR,
            Cs::Bt709Fr => ColorSpace::Bt709FR,
        }
    }

    pub fn c_value(self) -> u32 {
        ALL_CS.iter().position(|&p| p == self).unwrap() as u32
    }

    pub fn full_range(self) -> bool {
        matches!(self, Cs::Bt601Fr | Cs::Bt709Fr)
    }

    /// (kr, kb) of the standard
    fn k(self) -> (f64, f64) {
        match self {
            Cs::Bt601 | Cs::Bt601Fr => (0.299, 0.114),
            Cs::Bt709 | Cs::Bt709Fr => (0.2126, 0.0722),
            Cs::Rgb => unreachable!(),
        }
    }

    /// Nominal range of luma and chroma codes
    pub fn nominal(self) -> ((u8, u8), (u8, u8)) {
        if self.full_range() {
            ((0, 255), (0, 255))
        } else {
            ((16, 235), (16, 240))
        }
    }
}

pub fn format(pf: Pf, cs: Cs, num_planes: u32) -> ImageFormat {
    ImageFormat {
        pixel_format: pf.api(),
        color_space: cs.api(),
        num_planes,
    }
}

/// The documented table of conversions
pub fn supported(src: Pf, dst: Pf) -> bool {
    use Pf::*;
    match src {
        Argb => matches!(dst, I420 | I444 | Nv12),
        Bgra => matches!(dst, I420 | I444 | Nv12 | Rgb),
        Bgr => matches!(dst, I420 | I444 | Nv12 | Rgb),
        I420 | I444 => matches!(dst, Bgra | Rgba),
        Nv12 => matches!(dst, Bgra | Rgb | Rgba),
        Rgb => matches!(dst, Bgra),
        Rgba | I422 => false,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Conv {
    pub src: Pf,
    pub dst: Pf,
    pub src_cs: Cs,
    pub dst_cs: Cs,
}

impl Conv {
    /// The YUV colour space involved, if any
    pub fn cs(self) -> Cs {
        if self.src.is_yuv() {
            self.src_cs
        } else {
            self.dst_cs
        }
    }

    pub fn forward(self) -> bool {
        self.dst.is_yuv()
    }

    pub fn backward(self) -> bool {
        self.src.is_yuv()
    }

    pub fn repack(self) -> bool {
        !self.src.is_yuv() && !self.dst.is_yuv()
    }

    pub fn even_width(self) -> bool {
        self.src.even_width() || self.dst.even_width()
    }

    pub fn even_height(self) -> bool {
        self.src.even_height() || self.dst.even_height()
    }
}

pub fn conv(src: Pf, dst: Pf, cs: Cs) -> Conv {
    Conv {
        src,
        dst,
        src_cs: if src.is_yuv() { cs } else { Cs::Rgb },
        dst_cs: if dst.is_yuv() { cs } else { Cs::Rgb },
    }
}

/// Every supported (source format, destination format) pair
pub fn pairs() -> Vec<(Pf, Pf)> {
    let mut v = Vec::new();
    for &s in &ALL_PF {
        for &d in &ALL_PF {
            if supported(s, d) {
                v.push((s, d));
            }
        }
    }
    v
}

/// Every supported conversion
pub fn conversions() -> Vec<Conv> {
    let mut v = Vec::new();
    for (s, d) in pairs() {
        if s.is_yuv() || d.is_yuv() {
            for cs in YUV_CS {
                v.push(conv(s, d, cs));
            }
        } else {
            v.push(conv(s, d, Cs::Rgb));
        }
    }
    v
}

/// A logical plane: one component (or interleaved components) of the image
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Plane {
    pub rows: usize,
    pub row: usize,
}

/// Logical planes, independent of how many buffers hold them. What does not fit in the
/// address space (of a 32-bit processor) is `usize::MAX`
pub fn logical(pf: Pf, w: usize, h: usize) -> Vec<Plane> {
    let (sx, sy) = pf.subsampling();
    let p = |row, rows| Plane { rows, row };
    match pf {
        Pf::I444 | Pf::I422 | Pf::I420 => {
            vec![p(w, h), p(w / sx, h / sy), p(w / sx, h / sy)]
        }
        Pf::Nv12 => vec![p(w, h), p(w, h / 2)],
        _ => vec![p(pf.depth().saturating_mul(w), h)],
    }
}

/// Row bytes of each buffer (what STRIDE_AUTO stands for)
pub fn buffer_rows(pf: Pf, planes: u32, w: usize, h: usize) -> Vec<Plane> {
    let l = logical(pf, w, h);
    if pf == Pf::Nv12 && planes == 1 {
        // Chroma rows follow the luma rows in the same buffer
        vec![Plane {
            rows: h.saturating_add(h / 2),
            row: w,
        }]
    } else {
        l
    }
}

/// Like `buffer_rows`: (rows, bytes of a row), not limited by the address space
pub fn wide_rows(pf: Pf, planes: u32, w: u32, h: u32) -> Vec<(u128, u128)> {
    let (w, h) = (u128::from(w), u128::from(h));
    let (sx, sy) = pf.subsampling();
    let (sx, sy) = (sx as u128, sy as u128);
    match pf {
        Pf::I444 | Pf::I422 | Pf::I420 => vec![(h, w), (h / sy, w / sx), (h / sy, w / sx)],
        Pf::Nv12 if planes == 1 => vec![(h + h / 2, w)],
        Pf::Nv12 => vec![(h, w), (h / 2, w)],
        _ => vec![(h, pf.depth() as u128 * w)],
    }
}

/// Effective stride of buffer i
pub fn eff_stride(s: usize, row: usize) -> usize {
    if s == 0 {
        row
    } else {
        s
    }
}

/// Bytes the image occupies in a buffer: full strides, except for the last row.
/// None if it is not representable
pub fn need(p: Plane, stride: usize) -> Option<usize> {
    if p.rows == 0 || p.row == 0 {
        return Some(0);
    }
    if p.row == usize::MAX || p.rows == usize::MAX {
        return None;
    }
    stride.checked_mul(p.rows - 1)?.checked_add(p.row)
}

/// Bytes reported for a buffer: stride times rows
pub fn full(p: Plane, stride: usize) -> Option<usize> {
    stride.checked_mul(p.rows)
}

/// Exact real-valued luma and chroma for an RGB colour
pub fn exact_yuv(cs: Cs, r: f64, g: f64, b: f64) -> [f64; 3] {
    let (kr, kb) = cs.k();
    let y = kr * r + (1.0 - kr - kb) * g + kb * b;
    let cb = (b - y) / (2.0 * (1.0 - kb));
    let cr = (r - y) / (2.0 * (1.0 - kr));
    if cs.full_range() {
        [y, 128.0 + cb, 128.0 + cr]
    } else {
        [
            16.0 + y * 219.0 / 255.0,
            128.0 + cb * 224.0 / 255.0,
            128.0 + cr * 224.0 / 255.0,
        ]
    }
}

/// Exact real-valued RGB for a YCbCr triple, before clamping
pub fn exact_rgb(cs: Cs, y: f64, cb: f64, cr: f64) -> [f64; 3] {
    let (kr, kb) = cs.k();
    let kg = 1.0 - kr - kb;
    let (y, cb, cr) = if cs.full_range() {
        (y, cb - 128.0, cr - 128.0)
    } else {
        (
            (y - 16.0) * 255.0 / 219.0,
            (cb - 128.0) * 255.0 / 224.0,
            (cr - 128.0) * 255.0 / 224.0,
        )
    };
    let r = y + 2.0 * (1.0 - kr) * cr;
    let b = y + 2.0 * (1.0 - kb) * cb;
    let g = y - (2.0 * kb * (1.0 - kb) / kg) * cb - (2.0 * kr * (1.0 - kr) / kg) * cr;
    [r, g, b]
}

/// Tables that make the exact equations cheap: each output is a sum of three lookups
pub struct FwdTable {
    pub t: [[[f64; 256]; 3]; 3],
}

impl FwdTable {
    pub fn new(cs: Cs) -> Box<Self> {
        let zero = exact_yuv(cs, 0.0, 0.0, 0.0);
        let mut t = Box::new(FwdTable {
            t: [[[0.0; 256]; 3]; 3],
        });
        for i in 0..256 {
            let x = i as f64;
            let per = [
                exact_yuv(cs, x, 0.0, 0.0),
                exact_yuv(cs, 0.0, x, 0.0),
                exact_yuv(cs, 0.0, 0.0, x),
            ];
            for out in 0..3 {
                for c in 0..3 {
                    t.t[out][c][i] = per[c][out] - if c == 0 { 0.0 } else { zero[out] };
                }
            }
        }
        t
    }

    pub fn get(&self, out: usize, r: u8, g: u8, b: u8) -> f64 {
        let t = &self.t[out];
        t[0][r as usize] + t[1][g as usize] + t[2][b as usize]
    }
}

pub struct BwdTable {
    pub t: [[[f64; 256]; 3]; 3],
}

impl BwdTable {
    pub fn new(cs: Cs) -> Box<Self> {
        let zero = exact_rgb(cs, 0.0, 0.0, 0.0);
        let mut t = Box::new(BwdTable {
            t: [[[0.0; 256]; 3]; 3],
        });
        for i in 0..256 {
            let x = i as f64;
            let per = [
                exact_rgb(cs, x, 0.0, 0.0),
                exact_rgb(cs, 0.0, x, 0.0),
                exact_rgb(cs, 0.0, 0.0, x),
            ];
            for out in 0..3 {
                for c in 0..3 {
                    t.t[out][c][i] = per[c][out] - if c == 0 { 0.0 } else { zero[out] };
                }
            }
        }
        t
    }

    pub fn get(&self, out: usize, y: u8, cb: u8, cr: u8) -> f64 {
        let t = &self.t[out];
        (t[0][y as usize] + t[1][cb as usize] + t[2][cr as usize]).clamp(0.0, 255.0)
    }
}

thread_local! {
    static FWD: [std::cell::OnceCell<&'static FwdTable>; 5] = Default::default();
    static BWD: [std::cell::OnceCell<&'static BwdTable>; 5] = Default::default();
}

pub fn fwd(cs: Cs) -> &'static FwdTable {
    FWD.with(|t| *t[cs.c_value() as usize].get_or_init(|| Box::leak(FwdTable::new(cs))))
}

pub fn bwd(cs: Cs) -> &'static BwdTable {
    BWD.with(|t| *t[cs.c_value() as usize].get_or_init(|| Box::leak(BwdTable::new(cs))))
}

// Accepted distance between a code and the exact value. Rounding to the nearest integer
// accounts for 0.5, the error of coefficients for the rest: 3 * 255 * 2^-17 (16-bit) from RGB,
// about 6 * 255 * 2^-15 (13 to 14-bit, and truncated products) to RGB. The extremes met are
// part of the evidence.
pub const LUMA_TOL: (f64, f64) = (-0.506, 0.506);
pub const CHROMA_TOL: (f64, f64) = (-0.506, 0.506);
pub const BWD_TOL: (f64, f64) = (-0.545, 0.545);
