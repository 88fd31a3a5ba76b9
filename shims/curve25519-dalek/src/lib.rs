//! Stand-in for `curve25519-dalek` 4.0.0-pre.1: the additive group of integers modulo 2^8 takes the place of the curve,
//! with the multiples of 2^5 as its points of small order. A scalar or point is the number in byte 1 of its encoding
//! (the other bytes of scalars are kept for comparisons, as clamping and truncation do not touch this one), and the
//! public key of the `ed25519-dalek` stand-in has its secret scalar there. Encodings of points with 0xee at both ends do not decode.
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

fn val(b: &[u8]) -> u8 {
    b[1]
}
fn enc(v: u8) -> [u8; 32] {
    let mut b = [0; 32];
    b[1] = v;
    b
}

macro_rules! ops {
    ($t:ident) => {
        impl Copy for $t {}
        impl Clone for $t {
            fn clone(&self) -> Self {
                *self
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $t::of(self.v().wrapping_neg())
            }
        }
        impl<'a> Neg for &'a $t {
            type Output = $t;
            fn neg(self) -> $t {
                -*self
            }
        }
        bin!($t, $t, $t, Add, add, wrapping_add);
        bin!($t, $t, $t, Sub, sub, wrapping_sub);
        impl AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                *self = *self + o
            }
        }
        impl<'a> AddAssign<&'a $t> for $t {
            fn add_assign(&mut self, o: &$t) {
                *self = *self + *o
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: $t) {
                *self = *self - o
            }
        }
        impl<'a> SubAssign<&'a $t> for $t {
            fn sub_assign(&mut self, o: &$t) {
                *self = *self - *o
            }
        }
        impl MulAssign<scalar::Scalar> for $t {
            fn mul_assign(&mut self, o: scalar::Scalar) {
                *self = *self * o
            }
        }
        impl std::iter::Sum<$t> for $t {
            fn sum<I: Iterator<Item = $t>>(i: I) -> $t {
                i.fold($t::of(0), |a, b| a + b)
            }
        }
    };
}
macro_rules! bin {
    ($a:ty, $b:ty, $o:ident, $tr:ident, $f:ident, $w:ident) => {
        impl $tr<$b> for $a {
            type Output = $o;
            fn $f(self, o: $b) -> $o {
                <$o>::of(self.v().$w(o.v()))
            }
        }
        impl<'a> $tr<&'a $b> for $a {
            type Output = $o;
            fn $f(self, o: &'a $b) -> $o {
                <$o>::of(self.v().$w(o.v()))
            }
        }
        impl<'a> $tr<$b> for &'a $a {
            type Output = $o;
            fn $f(self, o: $b) -> $o {
                <$o>::of(self.v().$w(o.v()))
            }
        }
        impl<'a, 'b> $tr<&'b $b> for &'a $a {
            type Output = $o;
            fn $f(self, o: &'b $b) -> $o {
                <$o>::of(self.v().$w(o.v()))
            }
        }
    };
}

pub mod scalar {
    use super::*;
    #[derive(PartialEq, Eq, Debug, Hash)]
    pub struct Scalar(pub(crate) [u8; 32]);
    impl Scalar {
        pub(crate) fn v(&self) -> u8 {
            val(&self.0)
        }
        pub(crate) fn of(v: u8) -> Self {
            Scalar(enc(v))
        }
        pub fn from_bits(b: [u8; 32]) -> Self {
            let mut b = b;
            b[31] &= 0x7f;
            Scalar(b)
        }
        pub fn from_bytes_mod_order(b: [u8; 32]) -> Self {
            if b[31] < 0x10 {
                Scalar(b)
            } else {
                Scalar::of(val(&b))
            }
        }
        pub fn from_bytes_mod_order_wide(b: &[u8; 64]) -> Self {
            Scalar::of(val(b))
        }
        /// The order of the real group is a little more than 2^252.
        pub fn from_canonical_bytes(b: [u8; 32]) -> Option<Self> {
            if b[31] < 0x10 {
                Some(Scalar(b))
            } else {
                None
            }
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn as_bytes(&self) -> &[u8; 32] {
            &self.0
        }
        pub fn zero() -> Self {
            Scalar::of(0)
        }
        pub fn one() -> Self {
            Scalar::of(1)
        }
        pub fn reduce(&self) -> Self {
            Scalar::from_bytes_mod_order(self.0)
        }
        pub fn is_canonical(&self) -> bool {
            self.0[31] < 0x10
        }
        pub fn hash_from_bytes<D: digest::Digest<OutputSize = digest::consts::U64> + Default>(b: &[u8]) -> Scalar {
            let mut h = D::default();
            h.update(b);
            Scalar::from_hash(h)
        }
        pub fn from_hash<D: digest::Digest<OutputSize = digest::consts::U64>>(h: D) -> Scalar {
            let mut o = [0; 64];
            o.copy_from_slice(h.finalize().as_slice());
            Scalar::from_bytes_mod_order_wide(&o)
        }
    }
    impl Default for Scalar {
        fn default() -> Self {
            Scalar::zero()
        }
    }
    impl std::ops::Index<usize> for Scalar {
        type Output = u8;
        fn index(&self, i: usize) -> &u8 {
            &self.0[i]
        }
    }
    macro_rules! from {
        ($($t:ty)*) => { $( impl From<$t> for Scalar { fn from(x: $t) -> Scalar { Scalar::of(x as u8) } } )* };
    }
    from!(u8 u16 u32 u64 u128);
    ops!(Scalar);
    bin!(Scalar, Scalar, Scalar, Mul, mul, wrapping_mul);
    impl<'a> MulAssign<&'a Scalar> for Scalar {
        fn mul_assign(&mut self, o: &Scalar) {
            *self = *self * *o
        }
    }
}

pub mod edwards {
    use super::*;
    use scalar::Scalar;
    #[derive(PartialEq, Eq, Debug)]
    pub struct EdwardsPoint(pub(crate) u8);
    #[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
    pub struct CompressedEdwardsY(pub [u8; 32]);
    pub struct EdwardsBasepointTable;
    impl CompressedEdwardsY {
        pub fn as_bytes(&self) -> &[u8; 32] {
            &self.0
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn from_slice(b: &[u8]) -> Self {
            let mut x = [0; 32];
            x.copy_from_slice(b);
            CompressedEdwardsY(x)
        }
        pub fn decompress(&self) -> Option<EdwardsPoint> {
            if self.0[0] == 0xee && self.0[31] == 0xee {
                None
            } else {
                Some(EdwardsPoint(val(&self.0)))
            }
        }
    }
    impl EdwardsPoint {
        pub(crate) fn v(&self) -> u8 {
            self.0
        }
        pub(crate) fn of(v: u8) -> Self {
            EdwardsPoint(v)
        }
        pub fn compress(&self) -> CompressedEdwardsY {
            CompressedEdwardsY(enc(self.0))
        }
        pub fn hash_from_bytes<D: digest::Digest<OutputSize = digest::consts::U64> + Default>(b: &[u8]) -> EdwardsPoint {
            let mut h = D::new();
            h.update(b);
            let h = h.finalize();
            EdwardsPoint(map(&h[..32]))
        }
        pub fn mul_by_cofactor(&self) -> EdwardsPoint {
            EdwardsPoint(self.0.wrapping_mul(8))
        }
        pub fn is_small_order(&self) -> bool {
            self.0.wrapping_mul(8) == 0
        }
        pub fn vartime_double_scalar_mul_basepoint(a: &Scalar, p: &EdwardsPoint, b: &Scalar) -> EdwardsPoint {
            *a * *p + *b * constants::ED25519_BASEPOINT_POINT
        }
    }
    /// The point 32 bytes are mapped to: never one outside the subgroup, and every bit of byte 1 and the sign bit count.
    pub fn map(h: &[u8]) -> u8 {
        (val(h) ^ if h[31] & 0x80 != 0 { 0x0f } else { 0 }).wrapping_mul(8)
    }
    impl Default for EdwardsPoint {
        fn default() -> Self {
            EdwardsPoint(0)
        }
    }
    impl traits::Identity for EdwardsPoint {
        fn identity() -> Self {
            EdwardsPoint(0)
        }
    }
    ops!(EdwardsPoint);
    bin!(Scalar, EdwardsPoint, EdwardsPoint, Mul, mul, wrapping_mul);
    bin!(EdwardsPoint, Scalar, EdwardsPoint, Mul, mul, wrapping_mul);
    impl<'a, 'b> Mul<&'b Scalar> for &'a EdwardsBasepointTable {
        type Output = EdwardsPoint;
        fn mul(self, s: &Scalar) -> EdwardsPoint {
            *s * constants::ED25519_BASEPOINT_POINT
        }
    }
    impl<'a, 'b> Mul<&'b EdwardsBasepointTable> for &'a Scalar {
        type Output = EdwardsPoint;
        fn mul(self, _: &EdwardsBasepointTable) -> EdwardsPoint {
            *self * constants::ED25519_BASEPOINT_POINT
        }
    }
}

pub mod traits {
    use super::*;
    pub trait Identity {
        fn identity() -> Self;
    }
    pub trait IsIdentity {
        fn is_identity(&self) -> bool;
    }
    impl<T: Identity + PartialEq> IsIdentity for T {
        fn is_identity(&self) -> bool {
            *self == T::identity()
        }
    }
    pub trait VartimeMultiscalarMul {
        type Point;
        fn vartime_multiscalar_mul<I: IntoIterator<Item = scalar::Scalar>, J: IntoIterator<Item = Self::Point>>(s: I, p: J) -> Self::Point;
    }
    impl VartimeMultiscalarMul for edwards::EdwardsPoint {
        type Point = edwards::EdwardsPoint;
        fn vartime_multiscalar_mul<I: IntoIterator<Item = scalar::Scalar>, J: IntoIterator<Item = Self::Point>>(s: I, p: J) -> Self::Point {
            s.into_iter().zip(p).map(|(a, b)| a * b).sum()
        }
    }
}

pub mod constants {
    use super::*;
    pub const ED25519_BASEPOINT_POINT: edwards::EdwardsPoint = edwards::EdwardsPoint(1);
    pub const ED25519_BASEPOINT_TABLE: edwards::EdwardsBasepointTable = edwards::EdwardsBasepointTable;
    pub const ED25519_BASEPOINT_COMPRESSED: edwards::CompressedEdwardsY = {
        let mut b = [0; 32];
        b[1] = 1;
        edwards::CompressedEdwardsY(b)
    };
}
