use core::borrow::Borrow;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::iter::{Product, Sum};
use core::ops::*;
use digest::generic_array::typenum::U64;
use digest::Digest;
use rand_core::{CryptoRng, RngCore};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vpcore::with;

#[derive(Copy, Clone)]
pub struct Scalar {
    pub(crate) bytes: [u8; 32],
    id: u32,
}
pub fn sc(id: u32) -> Scalar {
    Scalar { bytes: vpcore::scalar_bytes(id), id }
}
impl Scalar {
    /// graph node
    pub fn node(&self) -> u32 {
        self.id
    }
    pub fn from_node(id: u32) -> Scalar {
        sc(id)
    }
    pub fn zero() -> Self {
        sc(0)
    }
    pub fn one() -> Self {
        sc(1)
    }
    pub fn from_bytes_mod_order(bytes: [u8; 32]) -> Scalar {
        sc(vpcore::scalar_from_bytes(&bytes))
    }
    pub fn from_bytes_mod_order_wide(input: &[u8; 64]) -> Scalar {
        sc(vpcore::scalar_from_bytes(input))
    }
    pub fn from_canonical_bytes(bytes: [u8; 32]) -> Option<Scalar> {
        if !vpcore::tagged(&bytes) && !vpcore::below_order(&bytes) {
            return None;
        }
        Some(Scalar::from_bytes_mod_order(bytes))
    }
    pub fn from_bits(bytes: [u8; 32]) -> Scalar {
        let mut bytes = bytes;
        if !vpcore::tagged(&bytes) {
            bytes[31] &= 0b0111_1111;
        }
        Scalar::from_bytes_mod_order(bytes)
    }
    pub fn random<R: RngCore + CryptoRng>(rng: &mut R) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        Scalar::from_bytes_mod_order_wide(&b)
    }
    pub fn hash_from_bytes<D: Digest<OutputSize = U64> + Default>(input: &[u8]) -> Scalar {
        let mut h = D::default();
        h.input(input);
        Scalar::from_hash(h)
    }
    pub fn from_hash<D: Digest<OutputSize = U64>>(hash: D) -> Scalar {
        let o = hash.result();
        let n = format!("hashS_{:x}", vpcore::hash64(o.as_slice(), 11));
        sc(with(|e| e.var(&n)))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.bytes
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.bytes
    }
    pub fn is_canonical(&self) -> bool {
        true
    }
    pub fn reduce(&self) -> Scalar {
        *self
    }
    pub fn invert(&self) -> Scalar {
        let n = self.node();
        sc(with(|e| {
            if !matches!(e.nodes[n as usize], vpcore::Node::Const(_)) {
                e.log.push(format!("[\"inv\",{}]", n));
            }
            e.inv(n)
        }))
    }
    pub fn batch_invert(inputs: &mut [Scalar]) -> Scalar {
        let mut acc = Scalar::one();
        for s in inputs.iter_mut() {
            *s = s.invert();
            acc = acc * *s;
        }
        acc
    }
}
impl Index<usize> for Scalar {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        &self.bytes[i]
    }
}
impl fmt::Debug for Scalar {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "s{}", self.node())
    }
}
impl Default for Scalar {
    fn default() -> Self {
        Scalar::zero()
    }
}
impl PartialEq for Scalar {
    fn eq(&self, o: &Scalar) -> bool {
        with(|e| {
            let d = e.sub(self.node(), o.node());
            e.decide("sc", &[d])
        })
    }
}
impl Eq for Scalar {}
// equal values hash alike: the fingerprint depends on the value only
impl Hash for Scalar {
    fn hash<H: Hasher>(&self, h: &mut H) {
        with(|e| e.fps[self.id as usize]).hash(h)
    }
}
impl ConstantTimeEq for Scalar {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl ConditionallySelectable for Scalar {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
macro_rules! from_u {
    ($($t:ty),*) => { $(impl From<$t> for Scalar { fn from(x: $t) -> Scalar { sc(vpcore::scalar_from_word(&x.to_le_bytes(), x as i128)) } })* };
}
from_u!(u8, u16, u32, u64);
impl From<u128> for Scalar {
    fn from(x: u128) -> Scalar {
        let mut b = [0u8; 32];
        b[..16].copy_from_slice(&x.to_le_bytes());
        Scalar::from_bytes_mod_order(b)
    }
}
macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $op:ident) => {
        impl<'a, 'b> $tr<&'b Scalar> for &'a Scalar {
            type Output = Scalar;
            fn $f(self, o: &'b Scalar) -> Scalar {
                sc(with(|e| e.$op(self.node(), o.node())))
            }
        }
        impl<'b> $tr<&'b Scalar> for Scalar {
            type Output = Scalar;
            fn $f(self, o: &'b Scalar) -> Scalar {
                (&self).$f(o)
            }
        }
        impl<'a> $tr<Scalar> for &'a Scalar {
            type Output = Scalar;
            fn $f(self, o: Scalar) -> Scalar {
                self.$f(&o)
            }
        }
        impl $tr<Scalar> for Scalar {
            type Output = Scalar;
            fn $f(self, o: Scalar) -> Scalar {
                (&self).$f(&o)
            }
        }
        impl<'b> $tra<&'b Scalar> for Scalar {
            fn $fa(&mut self, o: &'b Scalar) {
                *self = (&*self).$f(o)
            }
        }
        impl $tra<Scalar> for Scalar {
            fn $fa(&mut self, o: Scalar) {
                *self = (&*self).$f(&o)
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, add);
bin!(Sub, sub, SubAssign, sub_assign, sub);
bin!(Mul, mul, MulAssign, mul_assign, mul);
impl Neg for Scalar {
    type Output = Scalar;
    fn neg(self) -> Scalar {
        sc(with(|e| e.neg(self.node())))
    }
}
impl<'a> Neg for &'a Scalar {
    type Output = Scalar;
    fn neg(self) -> Scalar {
        -*self
    }
}
impl<T: Borrow<Scalar>> Sum<T> for Scalar {
    fn sum<I: Iterator<Item = T>>(it: I) -> Self {
        it.fold(Scalar::zero(), |a, x| a + x.borrow())
    }
}
impl<T: Borrow<Scalar>> Product<T> for Scalar {
    fn product<I: Iterator<Item = T>>(it: I) -> Self {
        it.fold(Scalar::one(), |a, x| a * x.borrow())
    }
}
