use crate::scalar::Scalar;
use crate::traits::*;
use core::borrow::Borrow;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::iter::Sum;
use core::ops::*;
use digest::generic_array::typenum::U64;
use digest::Digest;
use rand_core::{CryptoRng, RngCore};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vpcore::{tag32, untag32, with, MAGIC_P};

#[derive(Copy, Clone)]
pub struct RistrettoPoint(pub(crate) u32);
#[derive(Copy, Clone)]
pub struct CompressedRistretto(pub [u8; 32]);

pub const INVALID: u32 = u32::MAX;

fn lin(terms: &[(u32, u32)]) -> RistrettoPoint {
    RistrettoPoint(with(|e| e.lincomb(terms)))
}
impl RistrettoPoint {
    pub const fn from_id(i: u32) -> Self {
        RistrettoPoint(i)
    }
    pub fn id(&self) -> u32 {
        self.0
    }
    pub fn compress(&self) -> CompressedRistretto {
        // the identity has one encoding: zeros
        if with(|e| e.is_identity(self.0)) {
            return CompressedRistretto([0u8; 32]);
        }
        CompressedRistretto(tag32(&MAGIC_P, self.0))
    }
    pub fn double_and_compress_batch<'a, I: IntoIterator<Item = &'a RistrettoPoint>>(points: I) -> Vec<CompressedRistretto> {
        points.into_iter().map(|p| (p + p).compress()).collect()
    }
    pub fn random<R: RngCore + CryptoRng>(rng: &mut R) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        RistrettoPoint::from_uniform_bytes(&b)
    }
    pub fn hash_from_bytes<D: Digest<OutputSize = U64> + Default>(input: &[u8]) -> RistrettoPoint {
        let mut h = D::default();
        h.input(input);
        RistrettoPoint::from_hash(h)
    }
    pub fn from_hash<D: Digest<OutputSize = U64>>(hash: D) -> RistrettoPoint {
        let o = hash.result();
        let mut b = [0u8; 64];
        b.copy_from_slice(o.as_slice());
        RistrettoPoint::from_uniform_bytes(&b)
    }
    pub fn from_uniform_bytes(bytes: &[u8; 64]) -> RistrettoPoint {
        let n = match vpcore::read_source(&vpcore::MAGIC_R, bytes) {
            Some((id, bits)) => {
                with(|e| e.log.push(format!("[\"useP\",{},{},64]", id, bits)));
                format!("U_r{}", id)
            }
            None => format!("U_{:x}", vpcore::hash64(bytes, 13)),
        };
        RistrettoPoint(with(|e| e.basis_point(&n)))
    }
    pub fn vartime_double_scalar_mul_basepoint(a: &Scalar, A: &RistrettoPoint, b: &Scalar) -> RistrettoPoint {
        lin(&[(a.node(), A.0), (b.node(), 1)])
    }
}
impl CompressedRistretto {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn from_slice(b: &[u8]) -> CompressedRistretto {
        let mut t = [0u8; 32];
        t.copy_from_slice(b);
        CompressedRistretto(t)
    }
    fn pid(&self) -> Option<u32> {
        if self.0 == [0u8; 32] {
            return Some(0);
        }
        match untag32(&MAGIC_P, &self.0) {
            Some(INVALID) => None,
            x => x,
        }
    }
    pub fn decompress(&self) -> Option<RistrettoPoint> {
        let r = self.pid().map(RistrettoPoint);
        with(|e| e.log.push(format!("[\"decompress\",{}]", r.map(|p| p.0 as i64).unwrap_or(-1))));
        r
    }
    /// bytes that are no encoding of a group element
    pub fn invalid() -> Self {
        CompressedRistretto(tag32(&MAGIC_P, INVALID))
    }
}
fn diffs(a: u32, b: u32) -> Vec<(u32, u32)> {
    with(|e| {
        let m = e.konst(-1);
        let d = e.lincomb(&[(1, a), (m, b)]);
        e.points[d as usize].clone()
    })
}
impl PartialEq for RistrettoPoint {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 {
            return true;
        }
        let d = diffs(self.0, o.0);
        with(|e| e.decide_at("pt", &d))
    }
}
impl Eq for RistrettoPoint {}
impl ConstantTimeEq for RistrettoPoint {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl PartialEq for CompressedRistretto {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 {
            return true;
        }
        match (self.pid(), o.pid()) {
            (Some(a), Some(b)) => RistrettoPoint(a) == RistrettoPoint(b),
            _ => false,
        }
    }
}
impl Eq for CompressedRistretto {}
impl Hash for CompressedRistretto {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self.pid() {
            Some(i) => with(|e| e.point_fp(i)).hash(h),
            None => self.0.hash(h),
        }
    }
}
impl ConstantTimeEq for CompressedRistretto {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl ConditionallySelectable for RistrettoPoint {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
impl Identity for RistrettoPoint {
    fn identity() -> Self {
        RistrettoPoint(0)
    }
}
impl Default for RistrettoPoint {
    fn default() -> Self {
        RistrettoPoint(0)
    }
}
impl Identity for CompressedRistretto {
    fn identity() -> Self {
        CompressedRistretto([0u8; 32])
    }
}
impl Default for CompressedRistretto {
    fn default() -> Self {
        CompressedRistretto([0u8; 32])
    }
}
impl fmt::Debug for RistrettoPoint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "P{}", self.0)
    }
}
impl fmt::Debug for CompressedRistretto {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "CP")
    }
}
macro_rules! four {
    ($tr:ident, $f:ident, $L:ty, $R:ty, |$a:ident, $b:ident| $e:expr) => {
        impl<'a, 'b> $tr<&'b $R> for &'a $L {
            type Output = RistrettoPoint;
            fn $f(self, o: &'b $R) -> RistrettoPoint {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl<'b> $tr<&'b $R> for $L {
            type Output = RistrettoPoint;
            fn $f(self, o: &'b $R) -> RistrettoPoint {
                (&self).$f(o)
            }
        }
        impl<'a> $tr<$R> for &'a $L {
            type Output = RistrettoPoint;
            fn $f(self, o: $R) -> RistrettoPoint {
                self.$f(&o)
            }
        }
        impl $tr<$R> for $L {
            type Output = RistrettoPoint;
            fn $f(self, o: $R) -> RistrettoPoint {
                (&self).$f(&o)
            }
        }
    };
}
four!(Add, add, RistrettoPoint, RistrettoPoint, |a, b| lin(&[(1, a.0), (1, b.0)]));
four!(Sub, sub, RistrettoPoint, RistrettoPoint, |a, b| {
    let m = with(|e| e.konst(-1));
    lin(&[(1, a.0), (m, b.0)])
});
four!(Mul, mul, RistrettoPoint, Scalar, |a, b| lin(&[(b.node(), a.0)]));
four!(Mul, mul, Scalar, RistrettoPoint, |a, b| lin(&[(a.node(), b.0)]));
macro_rules! asg {
    ($tr:ident, $f:ident, $op:ident, $R:ty) => {
        impl<'b> $tr<&'b $R> for RistrettoPoint {
            fn $f(&mut self, o: &'b $R) {
                *self = (&*self).$op(o)
            }
        }
        impl $tr<$R> for RistrettoPoint {
            fn $f(&mut self, o: $R) {
                *self = (&*self).$op(&o)
            }
        }
    };
}
asg!(AddAssign, add_assign, add, RistrettoPoint);
asg!(SubAssign, sub_assign, sub, RistrettoPoint);
asg!(MulAssign, mul_assign, mul, Scalar);
impl Neg for RistrettoPoint {
    type Output = RistrettoPoint;
    fn neg(self) -> RistrettoPoint {
        let m = with(|e| e.konst(-1));
        lin(&[(m, self.0)])
    }
}
impl<'a> Neg for &'a RistrettoPoint {
    type Output = RistrettoPoint;
    fn neg(self) -> RistrettoPoint {
        -*self
    }
}
impl<T: Borrow<RistrettoPoint>> Sum<T> for RistrettoPoint {
    fn sum<I: Iterator<Item = T>>(it: I) -> Self {
        it.fold(RistrettoPoint(0), |a, x| a + x.borrow())
    }
}
impl MultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn multiscalar_mul<I, J>(scalars: I, points: J) -> RistrettoPoint
    where
        I: IntoIterator,
        I::Item: Borrow<Scalar>,
        J: IntoIterator,
        J::Item: Borrow<RistrettoPoint>,
    {
        let (scalars, points) = (scalars.into_iter(), points.into_iter());
        size_ok(scalars.size_hint(), points.size_hint());
        let s: Vec<u32> = scalars.map(|x| x.borrow().node()).collect();
        let p: Vec<u32> = points.map(|x| x.borrow().0).collect();
        let t: Vec<(u32, u32)> = s.into_iter().zip(p).collect();
        lin(&t)
    }
}
impl VartimeMultiscalarMul for RistrettoPoint {
    type Point = RistrettoPoint;
    fn optional_multiscalar_mul<I, J>(scalars: I, points: J) -> Option<RistrettoPoint>
    where
        I: IntoIterator,
        I::Item: Borrow<Scalar>,
        J: IntoIterator<Item = Option<RistrettoPoint>>,
    {
        let (scalars, points) = (scalars.into_iter(), points.into_iter());
        size_ok(scalars.size_hint(), points.size_hint());
        let s: Vec<u32> = scalars.map(|x| x.borrow().node()).collect();
        let p: Option<Vec<u32>> = points.map(|x| x.map(|y| y.0)).collect();
        let p = p?;
        let t: Vec<(u32, u32)> = s.into_iter().zip(p).collect();
        Some(lin(&t))
    }
}

/// the real crate asserts exact, equal iterator lengths before a multiscalar multiplication
fn size_ok(s: (usize, Option<usize>), p: (usize, Option<usize>)) {
    assert_eq!(s.0, p.0);
    assert_eq!(s.1, Some(s.0));
    assert_eq!(p.1, Some(p.0));
}

/// Multiplication by a fixed point.
#[derive(Clone)]
pub struct RistrettoBasepointTable(pub(crate) u32);
impl RistrettoBasepointTable {
    pub fn create(basepoint: &RistrettoPoint) -> RistrettoBasepointTable {
        RistrettoBasepointTable(basepoint.0)
    }
    pub fn basepoint(&self) -> RistrettoPoint {
        RistrettoPoint(self.0)
    }
}
impl<'a, 'b> Mul<&'b Scalar> for &'a RistrettoBasepointTable {
    type Output = RistrettoPoint;
    fn mul(self, s: &'b Scalar) -> RistrettoPoint {
        lin(&[(s.node(), self.0)])
    }
}
impl<'a, 'b> Mul<&'a RistrettoBasepointTable> for &'b Scalar {
    type Output = RistrettoPoint;
    fn mul(self, t: &'a RistrettoBasepointTable) -> RistrettoPoint {
        t * self
    }
}
pub struct VartimeRistrettoPrecomputation(Vec<RistrettoPoint>);
impl VartimePrecomputedMultiscalarMul for VartimeRistrettoPrecomputation {
    type Point = RistrettoPoint;
    fn new<I>(static_points: I) -> Self
    where
        I: IntoIterator,
        I::Item: Borrow<RistrettoPoint>,
    {
        VartimeRistrettoPrecomputation(static_points.into_iter().map(|p| *p.borrow()).collect())
    }
    fn optional_mixed_multiscalar_mul<I, J, K>(&self, ss: I, ds: J, dp: K) -> Option<RistrettoPoint>
    where
        I: IntoIterator,
        I::Item: Borrow<Scalar>,
        J: IntoIterator,
        J::Item: Borrow<Scalar>,
        K: IntoIterator<Item = Option<RistrettoPoint>>,
    {
        let mut sc: Vec<Scalar> = ss.into_iter().map(|s| *s.borrow()).collect();
        assert_eq!(sc.len(), self.0.len());
        sc.extend(ds.into_iter().map(|s| *s.borrow()));
        let pts = self.0.iter().map(|p| Some(*p)).chain(dp).collect::<Option<Vec<_>>>()?;
        Some(RistrettoPoint::vartime_multiscalar_mul(sc, pts))
    }
}
