//! Stand-in for curve25519-dalek's ristretto group and scalar field over the harness's toy group: the module
//! (Z/256)^31 x Z/16, one component per byte, generated by the basepoint. Same public interface (the parts code like
//! ephemeral-vrf's uses), same encodings' lengths; decompression fails outside a fixed set of encodings.
mod raw {
    extern "C" {
        pub fn toy_add(a: *const u8, b: *const u8, o: *mut u8);
        pub fn toy_sub(a: *const u8, b: *const u8, o: *mut u8);
        pub fn toy_mul(s: *const u8, p: *const u8, o: *mut u8);
        pub fn toy_point_ok(p: *const u8) -> u64;
        pub fn toy_reduce(i: *const u8, n: u64, o: *mut u8);
        pub fn toy_map(i: *const u8, n: u64, o: *mut u8);
        pub fn sym_mem_eq(a: *const u8, b: *const u8, n: u64) -> u64;
    }
}
type B = [u8; 32];
const G: B = [
    0xe2, 0xf2, 0xae, 0x0a, 0x6a, 0xbc, 0x4e, 0x71, 0xa8, 0x84, 0xa9, 0x61, 0xc5, 0x00, 0x51, 0x5f, 0x58, 0xe3, 0x0b, 0x6a, 0xa5, 0x82,
    0xdd, 0x8d, 0xb6, 0xa6, 0x59, 0x45, 0xe0, 0x8d, 0x2d, 0x76,
];
const O: B = {
    let mut o = G;
    let mut i = 0;
    while i < 32 {
        o[i] = o[i].wrapping_sub(1);
        i += 1;
    }
    o
};
fn eq(a: &B, b: &B) -> bool {
    unsafe { raw::sym_mem_eq(a.as_ptr(), b.as_ptr(), 32) != 0 }
}
fn op(f: unsafe extern "C" fn(*const u8, *const u8, *mut u8), a: &B, b: &B) -> B {
    let mut o = [0u8; 32];
    unsafe { f(a.as_ptr(), b.as_ptr(), o.as_mut_ptr()) };
    o
}
fn zip(a: &B, b: &B, f: fn(u8, u8) -> u8) -> B {
    let mut o = [0u8; 32];
    for i in 0..32 {
        o[i] = f(a[i], b[i]);
    }
    o[31] &= 15;
    o
}
macro_rules! ops {
    ($tr:ident, $m:ident, $l:ty, $r:ty, $o:ty, $f:expr) => {
        impl core::ops::$tr<$r> for $l {
            type Output = $o;
            fn $m(self, x: $r) -> $o {
                let f: fn(&$l, &$r) -> $o = $f;
                f(&self, &x)
            }
        }
        impl<'a> core::ops::$tr<&'a $r> for $l {
            type Output = $o;
            fn $m(self, x: &'a $r) -> $o {
                let f: fn(&$l, &$r) -> $o = $f;
                f(&self, x)
            }
        }
        impl<'a> core::ops::$tr<$r> for &'a $l {
            type Output = $o;
            fn $m(self, x: $r) -> $o {
                let f: fn(&$l, &$r) -> $o = $f;
                f(self, &x)
            }
        }
        impl<'a, 'b> core::ops::$tr<&'b $r> for &'a $l {
            type Output = $o;
            fn $m(self, x: &'b $r) -> $o {
                let f: fn(&$l, &$r) -> $o = $f;
                f(self, x)
            }
        }
    };
}
macro_rules! assign {
    ($tr:ident, $m:ident, $l:ty, $r:ty, $op:tt) => {
        impl core::ops::$tr<$r> for $l {
            fn $m(&mut self, x: $r) { *self = *self $op x; }
        }
        impl<'a> core::ops::$tr<&'a $r> for $l {
            fn $m(&mut self, x: &'a $r) { *self = *self $op *x; }
        }
    };
}
pub mod scalar {
    use super::*;
    #[derive(Copy, Clone)]
    pub struct Scalar {
        pub(crate) b: B,
    }
    impl Scalar {
        pub const ZERO: Scalar = Scalar { b: [0; 32] };
        pub const ONE: Scalar = Scalar { b: [1; 32] };
        pub fn from_bytes_mod_order(i: B) -> Scalar {
            let mut o = [0u8; 32];
            unsafe { raw::toy_reduce(i.as_ptr(), 32, o.as_mut_ptr()) };
            Scalar { b: o }
        }
        pub fn from_bytes_mod_order_wide(i: &[u8; 64]) -> Scalar {
            let mut o = [0u8; 32];
            unsafe { raw::toy_reduce(i.as_ptr(), 64, o.as_mut_ptr()) };
            Scalar { b: o }
        }
        pub fn from_canonical_bytes(i: B) -> subtle::CtOption<Scalar> {
            subtle::CtOption::new(Scalar { b: i }, subtle::Choice::from((i[31] <= 0x10) as u8))
        }
        pub const fn to_bytes(&self) -> B {
            self.b
        }
        pub const fn as_bytes(&self) -> &B {
            &self.b
        }
    }
    impl PartialEq for Scalar {
        fn eq(&self, o: &Scalar) -> bool {
            super::eq(&self.b, &o.b)
        }
    }
    impl Eq for Scalar {}
    impl subtle::ConstantTimeEq for Scalar {
        fn ct_eq(&self, o: &Scalar) -> subtle::Choice {
            subtle::Choice::from(super::eq(&self.b, &o.b) as u8)
        }
    }
    impl Default for Scalar {
        fn default() -> Scalar {
            Scalar::ZERO
        }
    }
    impl core::fmt::Debug for Scalar {
        fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            Ok(())
        }
    }
    impl core::ops::Index<usize> for Scalar {
        type Output = u8;
        fn index(&self, i: usize) -> &u8 {
            &self.b[i]
        }
    }
    ops!(Add, add, Scalar, Scalar, Scalar, |a, b| Scalar { b: zip(&a.b, &b.b, u8::wrapping_add) });
    ops!(Sub, sub, Scalar, Scalar, Scalar, |a, b| Scalar { b: zip(&a.b, &b.b, u8::wrapping_sub) });
    ops!(Mul, mul, Scalar, Scalar, Scalar, |a, b| Scalar { b: zip(&a.b, &b.b, u8::wrapping_mul) });
    assign!(AddAssign, add_assign, Scalar, Scalar, +);
    assign!(SubAssign, sub_assign, Scalar, Scalar, -);
    assign!(MulAssign, mul_assign, Scalar, Scalar, *);
    impl core::ops::Neg for Scalar {
        type Output = Scalar;
        fn neg(self) -> Scalar {
            Scalar::ZERO - self
        }
    }
    impl<'a> core::ops::Neg for &'a Scalar {
        type Output = Scalar;
        fn neg(self) -> Scalar {
            Scalar::ZERO - *self
        }
    }
    impl core::iter::Sum for Scalar {
        fn sum<I: Iterator<Item = Scalar>>(i: I) -> Scalar {
            i.fold(Scalar::ZERO, |a, b| a + b)
        }
    }
}
pub mod ristretto {
    use super::*;
    use crate::scalar::Scalar;
    #[derive(Copy, Clone)]
    pub struct CompressedRistretto(pub [u8; 32]);
    #[derive(Copy, Clone)]
    pub struct RistrettoPoint(pub(crate) B);
    #[derive(Clone)]
    pub struct RistrettoBasepointTable;
    impl CompressedRistretto {
        pub const fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub const fn as_bytes(&self) -> &[u8; 32] {
            &self.0
        }
        pub fn from_slice(b: &[u8]) -> Result<CompressedRistretto, core::array::TryFromSliceError> {
            b.try_into().map(CompressedRistretto)
        }
        pub fn decompress(&self) -> Option<RistrettoPoint> {
            if unsafe { raw::toy_point_ok(self.0.as_ptr()) } != 0 {
                Some(RistrettoPoint(self.0))
            } else {
                None
            }
        }
    }
    impl RistrettoPoint {
        pub fn compress(&self) -> CompressedRistretto {
            CompressedRistretto(self.0)
        }
        pub fn mul_base(s: &Scalar) -> RistrettoPoint {
            RistrettoPoint(op(raw::toy_mul, &s.b, &G))
        }
        pub fn vartime_double_scalar_mul_basepoint(a: &Scalar, p: &RistrettoPoint, b: &Scalar) -> RistrettoPoint {
            a * p + RistrettoPoint::mul_base(b)
        }
        pub fn from_uniform_bytes(b: &[u8; 64]) -> RistrettoPoint {
            let mut o = [0u8; 32];
            unsafe { raw::toy_map(b.as_ptr(), 64, o.as_mut_ptr()) };
            RistrettoPoint(o)
        }
    }
    impl PartialEq for RistrettoPoint {
        fn eq(&self, o: &Self) -> bool {
            super::eq(&self.0, &o.0)
        }
    }
    impl Eq for RistrettoPoint {}
    impl PartialEq for CompressedRistretto {
        fn eq(&self, o: &Self) -> bool {
            super::eq(&self.0, &o.0)
        }
    }
    impl Eq for CompressedRistretto {}
    impl subtle::ConstantTimeEq for RistrettoPoint {
        fn ct_eq(&self, o: &Self) -> subtle::Choice {
            subtle::Choice::from(super::eq(&self.0, &o.0) as u8)
        }
    }
    impl subtle::ConstantTimeEq for CompressedRistretto {
        fn ct_eq(&self, o: &Self) -> subtle::Choice {
            subtle::Choice::from(super::eq(&self.0, &o.0) as u8)
        }
    }
    impl Default for RistrettoPoint {
        fn default() -> Self {
            RistrettoPoint(O)
        }
    }
    impl Default for CompressedRistretto {
        fn default() -> Self {
            CompressedRistretto(O)
        }
    }
    impl traits::Identity for RistrettoPoint {
        fn identity() -> Self {
            RistrettoPoint(O)
        }
    }
    impl traits::Identity for CompressedRistretto {
        fn identity() -> Self {
            CompressedRistretto(O)
        }
    }
    impl core::fmt::Debug for RistrettoPoint {
        fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            Ok(())
        }
    }
    impl core::fmt::Debug for CompressedRistretto {
        fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            Ok(())
        }
    }
    ops!(Add, add, RistrettoPoint, RistrettoPoint, RistrettoPoint, |a, b| RistrettoPoint(op(raw::toy_add, &a.0, &b.0)));
    ops!(Sub, sub, RistrettoPoint, RistrettoPoint, RistrettoPoint, |a, b| RistrettoPoint(op(raw::toy_sub, &a.0, &b.0)));
    ops!(Mul, mul, Scalar, RistrettoPoint, RistrettoPoint, |s, p| RistrettoPoint(op(raw::toy_mul, &s.b, &p.0)));
    ops!(Mul, mul, RistrettoPoint, Scalar, RistrettoPoint, |p, s| RistrettoPoint(op(raw::toy_mul, &s.b, &p.0)));
    assign!(AddAssign, add_assign, RistrettoPoint, RistrettoPoint, +);
    assign!(SubAssign, sub_assign, RistrettoPoint, RistrettoPoint, -);
    assign!(MulAssign, mul_assign, RistrettoPoint, Scalar, *);
    impl core::ops::Neg for RistrettoPoint {
        type Output = RistrettoPoint;
        fn neg(self) -> RistrettoPoint {
            RistrettoPoint(O) - self
        }
    }
    impl<'a> core::ops::Neg for &'a RistrettoPoint {
        type Output = RistrettoPoint;
        fn neg(self) -> RistrettoPoint {
            RistrettoPoint(O) - *self
        }
    }
    impl core::iter::Sum for RistrettoPoint {
        fn sum<I: Iterator<Item = RistrettoPoint>>(i: I) -> RistrettoPoint {
            i.fold(RistrettoPoint(O), |a, b| a + b)
        }
    }
    impl<'a, 'b> core::ops::Mul<&'b RistrettoBasepointTable> for &'a Scalar {
        type Output = RistrettoPoint;
        fn mul(self, _: &'b RistrettoBasepointTable) -> RistrettoPoint {
            RistrettoPoint::mul_base(self)
        }
    }
    impl<'a, 'b> core::ops::Mul<&'a Scalar> for &'b RistrettoBasepointTable {
        type Output = RistrettoPoint;
        fn mul(self, s: &'a Scalar) -> RistrettoPoint {
            RistrettoPoint::mul_base(s)
        }
    }
    impl traits::MultiscalarMul for RistrettoPoint {
        type Point = RistrettoPoint;
        fn multiscalar_mul<I, J>(scalars: I, points: J) -> RistrettoPoint
        where
            I: IntoIterator,
            I::Item: core::borrow::Borrow<Scalar>,
            J: IntoIterator,
            J::Item: core::borrow::Borrow<RistrettoPoint>,
        {
            use core::borrow::Borrow;
            scalars.into_iter().zip(points).map(|(s, p)| s.borrow() * p.borrow()).sum()
        }
    }
    impl traits::VartimeMultiscalarMul for RistrettoPoint {
        type Point = RistrettoPoint;
        fn vartime_multiscalar_mul<I, J>(scalars: I, points: J) -> RistrettoPoint
        where
            I: IntoIterator,
            I::Item: core::borrow::Borrow<Scalar>,
            J: IntoIterator,
            J::Item: core::borrow::Borrow<RistrettoPoint>,
        {
            use core::borrow::Borrow;
            scalars.into_iter().zip(points).map(|(s, p)| s.borrow() * p.borrow()).sum()
        }
    }
    impl traits::BasepointTable for RistrettoBasepointTable {
        type Point = RistrettoPoint;
        fn basepoint(&self) -> RistrettoPoint {
            RistrettoPoint(G)
        }
        fn mul_base(&self, s: &Scalar) -> RistrettoPoint {
            RistrettoPoint::mul_base(s)
        }
    }
}
pub mod constants {
    use super::*;
    use crate::ristretto::*;
    pub const RISTRETTO_BASEPOINT_POINT: RistrettoPoint = RistrettoPoint(G);
    pub const RISTRETTO_BASEPOINT_COMPRESSED: CompressedRistretto = CompressedRistretto(G);
    pub static RISTRETTO_BASEPOINT_TABLE: &RistrettoBasepointTable = &RistrettoBasepointTable;
}
pub mod traits {
    use crate::scalar::Scalar;
    use core::borrow::Borrow;
    pub trait Identity {
        fn identity() -> Self;
    }
    pub trait IsIdentity {
        fn is_identity(&self) -> bool;
    }
    impl<T: Identity + PartialEq> IsIdentity for T {
        fn is_identity(&self) -> bool {
            *self == T::identity()
        }
    }
    pub trait BasepointTable {
        type Point;
        fn basepoint(&self) -> Self::Point;
        fn mul_base(&self, s: &Scalar) -> Self::Point;
    }
    pub trait MultiscalarMul {
        type Point;
        fn multiscalar_mul<I, J>(scalars: I, points: J) -> Self::Point
        where
            I: IntoIterator,
            I::Item: Borrow<Scalar>,
            J: IntoIterator,
            J::Item: Borrow<Self::Point>;
    }
    pub trait VartimeMultiscalarMul {
        type Point;
        fn vartime_multiscalar_mul<I, J>(scalars: I, points: J) -> Self::Point
        where
            I: IntoIterator,
            I::Item: Borrow<Scalar>,
            J: IntoIterator,
            J::Item: Borrow<Self::Point>;
    }
}
pub use ristretto::RistrettoPoint;
pub use scalar::Scalar;
