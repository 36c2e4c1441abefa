// A model of the NEON intrinsics the library may use, after their description in the Arm
// Architecture Reference Manual: it lets a processor of another kind execute the library's
// NEON code. It is included by the library when it is built with --cfg dcp_verif_neon.
// Vectors are arrays, lane 0 first; each access covers exactly the bytes the instruction
// transfers, with no alignment requirement.

macro_rules! vectors {
    ($($name:ident: $t:ty, $n:literal, $x2:ident, $x3:ident, $x4:ident;)*) => {$(
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $name(pub [$t; $n]);
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $x2(pub $name, pub $name);
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $x3(pub $name, pub $name, pub $name);
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $x4(pub $name, pub $name, pub $name, pub $name);
    )*};
}

vectors! {
    uint8x8_t: u8, 8, uint8x8x2_t, uint8x8x3_t, uint8x8x4_t;
    uint8x16_t: u8, 16, uint8x16x2_t, uint8x16x3_t, uint8x16x4_t;
    int8x8_t: i8, 8, int8x8x2_t, int8x8x3_t, int8x8x4_t;
    int8x16_t: i8, 16, int8x16x2_t, int8x16x3_t, int8x16x4_t;
    uint16x4_t: u16, 4, uint16x4x2_t, uint16x4x3_t, uint16x4x4_t;
    uint16x8_t: u16, 8, uint16x8x2_t, uint16x8x3_t, uint16x8x4_t;
    int16x4_t: i16, 4, int16x4x2_t, int16x4x3_t, int16x4x4_t;
    int16x8_t: i16, 8, int16x8x2_t, int16x8x3_t, int16x8x4_t;
    uint32x2_t: u32, 2, uint32x2x2_t, uint32x2x3_t, uint32x2x4_t;
    uint32x4_t: u32, 4, uint32x4x2_t, uint32x4x3_t, uint32x4x4_t;
    int32x2_t: i32, 2, int32x2x2_t, int32x2x3_t, int32x2x4_t;
    int32x4_t: i32, 4, int32x4x2_t, int32x4x3_t, int32x4x4_t;
    uint64x1_t: u64, 1, uint64x1x2_t, uint64x1x3_t, uint64x1x4_t;
    uint64x2_t: u64, 2, uint64x2x2_t, uint64x2x3_t, uint64x2x4_t;
}

fn map<T: Copy, U, const N: usize>(a: [T; N], f: impl Fn(T) -> U) -> [U; N] {
    std::array::from_fn(|i| f(a[i]))
}

fn zip<T: Copy, S: Copy, U, const N: usize>(a: [T; N], b: [S; N], f: impl Fn(T, S) -> U) -> [U; N] {
    std::array::from_fn(|i| f(a[i], b[i]))
}

fn saturate(x: i64, lo: i64, hi: i64) -> i64 {
    x.max(lo).min(hi)
}

/// Rounding shift right: the sum does not overflow
fn rounded(x: i64, n: i32) -> i64 {
    assert!((1..=32).contains(&n));
    (x + (1 << (n - 1))) >> n
}

unsafe fn load<T: Copy, const N: usize>(p: *const T) -> [T; N] {
    p.cast::<[T; N]>().read_unaligned()
}

unsafe fn store<T: Copy, const N: usize>(p: *mut T, v: [T; N]) {
    p.cast::<[T; N]>().write_unaligned(v);
}

/// Element i of vector k is at K * i + k
unsafe fn load_k<T: Copy, const N: usize, const K: usize>(p: *const T) -> [[T; N]; K] {
    let all: [[T; K]; N] = p.cast::<[[T; K]; N]>().read_unaligned();
    std::array::from_fn(|k| std::array::from_fn(|i| all[i][k]))
}

unsafe fn store_k<T: Copy, const N: usize, const K: usize>(p: *mut T, v: [[T; N]; K]) {
    let all: [[T; K]; N] = std::array::from_fn(|i| std::array::from_fn(|k| v[k][i]));
    p.cast::<[[T; K]; N]>().write_unaligned(all);
}

// Same number of lanes in and out
macro_rules! lanes {
    ($($v:ident $t:ty, $n:literal, $x2:ident $x3:ident $x4:ident:
       $dup:ident $add:ident $sub:ident $mul:ident $mul_n:ident $mla:ident $min:ident $max:ident
       $and:ident $or:ident $eor:ident $qadd:ident $qsub:ident $shr:ident $shl:ident $rshr:ident
       $padd:ident $zip1:ident $zip2:ident $uzp1:ident $uzp2:ident $ext:ident
       $ld1:ident $st1:ident $ld2:ident $st2:ident $ld3:ident $st3:ident $ld4:ident $st4:ident
       $ld1_dup:ident;)*) => {$(
        pub unsafe fn $dup(x: $t) -> $v { $v([x; $n]) }
        pub unsafe fn $add(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, <$t>::wrapping_add)) }
        pub unsafe fn $sub(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, <$t>::wrapping_sub)) }
        pub unsafe fn $mul(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, <$t>::wrapping_mul)) }
        pub unsafe fn $mul_n(a: $v, b: $t) -> $v { $v(map(a.0, |x| x.wrapping_mul(b))) }
        pub unsafe fn $mla(a: $v, b: $v, c: $v) -> $v { $add(a, $mul(b, c)) }
        pub unsafe fn $min(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, Ord::min)) }
        pub unsafe fn $max(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, Ord::max)) }
        pub unsafe fn $and(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, |x, y| x & y)) }
        pub unsafe fn $or(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, |x, y| x | y)) }
        pub unsafe fn $eor(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, |x, y| x ^ y)) }
        pub unsafe fn $qadd(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, <$t>::saturating_add)) }
        pub unsafe fn $qsub(a: $v, b: $v) -> $v { $v(zip(a.0, b.0, <$t>::saturating_sub)) }
        pub unsafe fn $shr<const N: i32>(a: $v) -> $v {
            $v(map(a.0, |x| (i64::from(x) >> N) as $t))
        }
        pub unsafe fn $shl<const N: i32>(a: $v) -> $v {
            $v(map(a.0, |x| (i64::from(x) << N) as $t))
        }
        pub unsafe fn $rshr<const N: i32>(a: $v) -> $v {
            $v(map(a.0, |x| rounded(i64::from(x), N) as $t))
        }
        pub unsafe fn $padd(a: $v, b: $v) -> $v {
            let at = |i: usize| if i < $n { a.0[i] } else { b.0[i - $n] };
            $v(std::array::from_fn(|i| at(2 * i).wrapping_add(at(2 * i + 1))))
        }
        pub unsafe fn $zip1(a: $v, b: $v) -> $v {
            $v(std::array::from_fn(|i| if i % 2 == 0 { a.0[i / 2] } else { b.0[i / 2] }))
        }
        pub unsafe fn $zip2(a: $v, b: $v) -> $v {
            $v(std::array::from_fn(|i| if i % 2 == 0 { a.0[($n + i) / 2] } else { b.0[($n + i) / 2] }))
        }
        pub unsafe fn $uzp1(a: $v, b: $v) -> $v {
            let at = |i: usize| if i < $n { a.0[i] } else { b.0[i - $n] };
            $v(std::array::from_fn(|i| at(2 * i)))
        }
        pub unsafe fn $uzp2(a: $v, b: $v) -> $v {
            let at = |i: usize| if i < $n { a.0[i] } else { b.0[i - $n] };
            $v(std::array::from_fn(|i| at(2 * i + 1)))
        }
        pub unsafe fn $ext<const N: i32>(a: $v, b: $v) -> $v {
            let at = |i: usize| if i < $n { a.0[i] } else { b.0[i - $n] };
            $v(std::array::from_fn(|i| at(i + N as usize)))
        }
        pub unsafe fn $ld1(p: *const $t) -> $v { $v(load(p)) }
        pub unsafe fn $ld1_dup(p: *const $t) -> $v { $v([p.read_unaligned(); $n]) }
        pub unsafe fn $st1(p: *mut $t, v: $v) { store(p, v.0) }
        pub unsafe fn $ld2(p: *const $t) -> $x2 { let [a, b] = load_k(p); $x2($v(a), $v(b)) }
        pub unsafe fn $st2(p: *mut $t, v: $x2) { store_k(p, [v.0 .0, v.1 .0]) }
        pub unsafe fn $ld3(p: *const $t) -> $x3 { let [a, b, c] = load_k(p); $x3($v(a), $v(b), $v(c)) }
        pub unsafe fn $st3(p: *mut $t, v: $x3) { store_k(p, [v.0 .0, v.1 .0, v.2 .0]) }
        pub unsafe fn $ld4(p: *const $t) -> $x4 {
            let [a, b, c, d] = load_k(p);
            $x4($v(a), $v(b), $v(c), $v(d))
        }
        pub unsafe fn $st4(p: *mut $t, v: $x4) { store_k(p, [v.0 .0, v.1 .0, v.2 .0, v.3 .0]) }
    )*};
}

// The names are those of the instruction followed by the kind of vector
macro_rules! named {
    ($($s:ident $sq:ident: $d:ident $dq:ident $t:ty, $n:literal $nq:literal, $x2:ident $x3:ident $x4:ident $y2:ident $y3:ident $y4:ident;)*) => {
        paste::paste! { lanes! {$(
            $d $t, $n, $x2 $x3 $x4:
                [<vdup_n_ $s>] [<vadd_ $s>] [<vsub_ $s>] [<vmul_ $s>] [<vmul_n_ $s>] [<vmla_ $s>] [<vmin_ $s>] [<vmax_ $s>]
                [<vand_ $s>] [<vorr_ $s>] [<veor_ $s>] [<vqadd_ $s>] [<vqsub_ $s>] [<vshr_n_ $s>] [<vshl_n_ $s>] [<vrshr_n_ $s>]
                [<vpadd_ $s>] [<vzip1_ $s>] [<vzip2_ $s>] [<vuzp1_ $s>] [<vuzp2_ $s>] [<vext_ $s>]
                [<vld1_ $s>] [<vst1_ $s>] [<vld2_ $s>] [<vst2_ $s>] [<vld3_ $s>] [<vst3_ $s>] [<vld4_ $s>] [<vst4_ $s>]
                [<vld1_dup_ $s>];
            $dq $t, $nq, $y2 $y3 $y4:
                [<vdupq_n_ $s>] [<vaddq_ $s>] [<vsubq_ $s>] [<vmulq_ $s>] [<vmulq_n_ $s>] [<vmlaq_ $s>] [<vminq_ $s>] [<vmaxq_ $s>]
                [<vandq_ $s>] [<vorrq_ $s>] [<veorq_ $s>] [<vqaddq_ $s>] [<vqsubq_ $s>] [<vshrq_n_ $s>] [<vshlq_n_ $s>] [<vrshrq_n_ $s>]
                [<vpaddq_ $s>] [<vzip1q_ $s>] [<vzip2q_ $s>] [<vuzp1q_ $s>] [<vuzp2q_ $s>] [<vextq_ $s>]
                [<vld1q_ $s>] [<vst1q_ $s>] [<vld2q_ $s>] [<vst2q_ $s>] [<vld3q_ $s>] [<vst3q_ $s>] [<vld4q_ $s>] [<vst4q_ $s>]
                [<vld1q_dup_ $s>];
        )*}
        $(
            pub unsafe fn [<vcombine_ $s>](a: $d, b: $d) -> $dq {
                $dq(std::array::from_fn(|i| if i < $n { a.0[i] } else { b.0[i - $n] }))
            }
            pub unsafe fn [<vget_low_ $s>](a: $dq) -> $d { $d(std::array::from_fn(|i| a.0[i])) }
            pub unsafe fn [<vget_high_ $s>](a: $dq) -> $d { $d(std::array::from_fn(|i| a.0[i + $n])) }
            pub unsafe fn [<vmov_n_ $s>](x: $t) -> $d { $d([x; $n]) }
            pub unsafe fn [<vmovq_n_ $s>](x: $t) -> $dq { $dq([x; $nq]) }
            pub unsafe fn [<vst1_lane_ $s>](p: *mut $t, v: $d, lane: i32) { p.write_unaligned(v.0[lane as usize]) }
            pub unsafe fn [<vst1q_lane_ $s>](p: *mut $t, v: $dq, lane: i32) { p.write_unaligned(v.0[lane as usize]) }
            pub unsafe fn [<vget_lane_ $s>]<const L: i32>(v: $d) -> $t { v.0[L as usize] }
            pub unsafe fn [<vgetq_lane_ $s>]<const L: i32>(v: $dq) -> $t { v.0[L as usize] }
        )*}
    };
}

named! {
    u8 x: uint8x8_t uint8x16_t u8, 8 16, uint8x8x2_t uint8x8x3_t uint8x8x4_t uint8x16x2_t uint8x16x3_t uint8x16x4_t;
    s8 x: int8x8_t int8x16_t i8, 8 16, int8x8x2_t int8x8x3_t int8x8x4_t int8x16x2_t int8x16x3_t int8x16x4_t;
    u16 x: uint16x4_t uint16x8_t u16, 4 8, uint16x4x2_t uint16x4x3_t uint16x4x4_t uint16x8x2_t uint16x8x3_t uint16x8x4_t;
    s16 x: int16x4_t int16x8_t i16, 4 8, int16x4x2_t int16x4x3_t int16x4x4_t int16x8x2_t int16x8x3_t int16x8x4_t;
    u32 x: uint32x2_t uint32x4_t u32, 2 4, uint32x2x2_t uint32x2x3_t uint32x2x4_t uint32x4x2_t uint32x4x3_t uint32x4x4_t;
    s32 x: int32x2_t int32x4_t i32, 2 4, int32x2x2_t int32x2x3_t int32x2x4_t int32x4x2_t int32x4x3_t int32x4x4_t;
}

// Wide (w: 128 bits, lanes of twice the size) and narrow (n: 64 bits, q: 128 bits) vectors
macro_rules! widths {
    ($($n:ident $nt:ty, $s:ident, $q:ident, $w:ident $wt:ty, $ws:ident, $h:literal;)*) => {paste::paste! {$(
        pub unsafe fn [<vmovl_ $s>](a: $n) -> $w { $w(map(a.0, <$wt>::from)) }
        pub unsafe fn [<vmovl_high_ $s>](a: $q) -> $w { [<vmovl_ $s>]([<vget_high_ $s>](a)) }
        pub unsafe fn [<vmovn_ $ws>](a: $w) -> $n { $n(map(a.0, |x| x as $nt)) }
        pub unsafe fn [<vaddl_ $s>](a: $n, b: $n) -> $w { $w(zip(a.0, b.0, |x, y| <$wt>::from(x) + <$wt>::from(y))) }
        pub unsafe fn [<vaddw_ $s>](a: $w, b: $n) -> $w { $w(zip(a.0, b.0, |x, y| x.wrapping_add(<$wt>::from(y)))) }
        pub unsafe fn [<vsubl_ $s>](a: $n, b: $n) -> $w { $w(zip(a.0, b.0, |x, y| <$wt>::from(x).wrapping_sub(<$wt>::from(y)))) }
        pub unsafe fn [<vmull_ $s>](a: $n, b: $n) -> $w { $w(zip(a.0, b.0, |x, y| <$wt>::from(x) * <$wt>::from(y))) }
        pub unsafe fn [<vmull_high_ $s>](a: $q, b: $q) -> $w { [<vmull_ $s>]([<vget_high_ $s>](a), [<vget_high_ $s>](b)) }
        pub unsafe fn [<vmull_n_ $s>](a: $n, b: $nt) -> $w { [<vmull_ $s>](a, $n([b; $h])) }
        pub unsafe fn [<vmull_high_n_ $s>](a: $q, b: $nt) -> $w { [<vmull_n_ $s>]([<vget_high_ $s>](a), b) }
        pub unsafe fn [<vmlal_ $s>](c: $w, a: $n, b: $n) -> $w { $w(zip(c.0, [<vmull_ $s>](a, b).0, <$wt>::wrapping_add)) }
        pub unsafe fn [<vmlal_high_ $s>](c: $w, a: $q, b: $q) -> $w { $w(zip(c.0, [<vmull_high_ $s>](a, b).0, <$wt>::wrapping_add)) }
        pub unsafe fn [<vmlal_n_ $s>](c: $w, a: $n, b: $nt) -> $w { $w(zip(c.0, [<vmull_n_ $s>](a, b).0, <$wt>::wrapping_add)) }
        pub unsafe fn [<vmlal_high_n_ $s>](c: $w, a: $q, b: $nt) -> $w { $w(zip(c.0, [<vmull_high_n_ $s>](a, b).0, <$wt>::wrapping_add)) }
        pub unsafe fn [<vmlsl_ $s>](c: $w, a: $n, b: $n) -> $w { $w(zip(c.0, [<vmull_ $s>](a, b).0, <$wt>::wrapping_sub)) }
        pub unsafe fn [<vmlsl_n_ $s>](c: $w, a: $n, b: $nt) -> $w { $w(zip(c.0, [<vmull_n_ $s>](a, b).0, <$wt>::wrapping_sub)) }
        pub unsafe fn [<vmlsl_high_n_ $s>](c: $w, a: $q, b: $nt) -> $w { $w(zip(c.0, [<vmull_high_n_ $s>](a, b).0, <$wt>::wrapping_sub)) }
        pub unsafe fn [<vshll_n_ $s>]<const N: i32>(a: $n) -> $w { $w(map(a.0, |x| ((i64::from(x)) << N) as $wt)) }
        pub unsafe fn [<vqmovn_ $ws>](a: $w) -> $n {
            $n(map(a.0, |x| saturate(x.into(), <$nt>::MIN.into(), <$nt>::MAX.into()) as $nt))
        }
        pub unsafe fn [<vshrn_n_ $ws>]<const N: i32>(a: $w) -> $n { $n(map(a.0, |x| (i64::from(x) >> N) as $nt)) }
        pub unsafe fn [<vrshrn_n_ $ws>]<const N: i32>(a: $w) -> $n { $n(map(a.0, |x| rounded(x.into(), N) as $nt)) }
        pub unsafe fn [<vqshrn_n_ $ws>]<const N: i32>(a: $w) -> $n {
            $n(map(a.0, |x| saturate(i64::from(x) >> N, <$nt>::MIN.into(), <$nt>::MAX.into()) as $nt))
        }
        pub unsafe fn [<vqrshrn_n_ $ws>]<const N: i32>(a: $w) -> $n {
            $n(map(a.0, |x| saturate(rounded(x.into(), N), <$nt>::MIN.into(), <$nt>::MAX.into()) as $nt))
        }
        pub unsafe fn [<vpaddlq_ $s>](a: $q) -> $w {
            $w(std::array::from_fn(|i| <$wt>::from(a.0[2 * i]).wrapping_add(<$wt>::from(a.0[2 * i + 1]))))
        }
    )*}};
}

widths! {
    uint8x8_t u8, u8, uint8x16_t, uint16x8_t u16, u16, 8;
    int8x8_t i8, s8, int8x16_t, int16x8_t i16, s16, 8;
    uint16x4_t u16, u16, uint16x8_t, uint32x4_t u32, u32, 4;
    int16x4_t i16, s16, int16x8_t, int32x4_t i32, s32, 4;
}

// Signed to unsigned, saturating
macro_rules! unsigned {
    ($($w:ident $ws:ident, $n:ident $nt:ty;)*) => {paste::paste! {$(
        pub unsafe fn [<vqmovun_ $ws>](a: $w) -> $n { $n(map(a.0, |x| saturate(x.into(), 0, <$nt>::MAX.into()) as $nt)) }
        pub unsafe fn [<vqshrun_n_ $ws>]<const N: i32>(a: $w) -> $n {
            $n(map(a.0, |x| saturate(i64::from(x) >> N, 0, <$nt>::MAX.into()) as $nt))
        }
        pub unsafe fn [<vqrshrun_n_ $ws>]<const N: i32>(a: $w) -> $n {
            $n(map(a.0, |x| saturate(rounded(x.into(), N), 0, <$nt>::MAX.into()) as $nt))
        }
    )*}};
}

unsigned! {
    int16x8_t s16, uint8x8_t u8;
    int32x4_t s32, uint16x4_t u16;
}

macro_rules! reinterpret {
    ($($name:ident $a:ident $b:ident;)*) => {$(
        pub unsafe fn $name(a: $a) -> $b {
            // Lanes are in little endian order, as this processor's
            std::mem::transmute::<$a, $b>(a)
        }
    )*};
}

macro_rules! reinterpret_all {
    ($($d:ident $dq:ident $s:ident: $($e:ident $eq:ident $t:ident),*;)*) => {paste::paste! {$($(
        reinterpret! {
            [<vreinterpret_ $s _ $t>] $e $d;
            [<vreinterpretq_ $s _ $t>] $eq $dq;
        }
    )*)*}};
}

reinterpret_all! {
    uint8x8_t uint8x16_t u8: int8x8_t int8x16_t s8, uint16x4_t uint16x8_t u16, int16x4_t int16x8_t s16, uint32x2_t uint32x4_t u32, int32x2_t int32x4_t s32;
    int8x8_t int8x16_t s8: uint8x8_t uint8x16_t u8, uint16x4_t uint16x8_t u16, int16x4_t int16x8_t s16, uint32x2_t uint32x4_t u32, int32x2_t int32x4_t s32;
    uint16x4_t uint16x8_t u16: uint8x8_t uint8x16_t u8, int8x8_t int8x16_t s8, int16x4_t int16x8_t s16, uint32x2_t uint32x4_t u32, int32x2_t int32x4_t s32;
    int16x4_t int16x8_t s16: uint8x8_t uint8x16_t u8, int8x8_t int8x16_t s8, uint16x4_t uint16x8_t u16, uint32x2_t uint32x4_t u32, int32x2_t int32x4_t s32;
    uint32x2_t uint32x4_t u32: uint8x8_t uint8x16_t u8, int8x8_t int8x16_t s8, uint16x4_t uint16x8_t u16, int16x4_t int16x8_t s16, int32x2_t int32x4_t s32;
    int32x2_t int32x4_t s32: uint8x8_t uint8x16_t u8, int8x8_t int8x16_t s8, uint16x4_t uint16x8_t u16, int16x4_t int16x8_t s16, uint32x2_t uint32x4_t u32;
}

// Reverses the bytes within lanes of 16, 32 and 64 bits
macro_rules! reverse {
    ($($name:ident $v:ident $n:literal;)*) => {$(
        pub unsafe fn $name(a: $v) -> $v { $v(std::array::from_fn(|i| a.0[i / $n * $n + $n - 1 - i % $n])) }
    )*};
}

reverse! {
    vrev16_u8 uint8x8_t 2; vrev32_u8 uint8x8_t 4; vrev64_u8 uint8x8_t 8;
    vrev16q_u8 uint8x16_t 2; vrev32q_u8 uint8x16_t 4; vrev64q_u8 uint8x16_t 8;
    vrev32_u16 uint16x4_t 2; vrev64_u16 uint16x4_t 4; vrev32q_u16 uint16x8_t 2; vrev64q_u16 uint16x8_t 4;
}
