//! Stand-in for rand: the system generators produce fresh unknowns, seeded generators produce known bytes.
pub use rand_core::{CryptoRng, Error, RngCore, SeedableRng};
pub mod rngs {
    use super::*;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct ThreadRng;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    macro_rules! src {
        ($t:ty) => {
            impl RngCore for $t {
                fn next_u32(&mut self) -> u32 {
                    let mut b = [0u8; 4];
                    vpcore::rng_fill(&mut b);
                    u32::from_le_bytes(b)
                }
                fn next_u64(&mut self) -> u64 {
                    let mut b = [0u8; 8];
                    vpcore::rng_fill(&mut b);
                    u64::from_le_bytes(b)
                }
                fn fill_bytes(&mut self, d: &mut [u8]) {
                    vpcore::rng_fill(d)
                }
                fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
                    vpcore::rng_fill(d);
                    Ok(())
                }
            }
            impl CryptoRng for $t {}
        };
    }
    src!(ThreadRng);
    src!(OsRng);
    /// Seeded with output of a system generator: fresh unknowns.  Seeded otherwise: anyone who knows the seed knows
    /// the output.
    #[derive(Clone, Debug)]
    pub struct StdRng {
        fresh: bool,
        st: u64,
    }
    pub type SmallRng = StdRng;
    impl StdRng {
        pub fn from_entropy() -> Self {
            StdRng { fresh: true, st: 0 }
        }
        pub fn from_bytes_of_any_origin(s: &[u8]) -> Self {
            let fresh = vpcore::from_system(s);
            if !fresh {
                vpcore::with(|e| e.log.push("[\"seeded\"]".to_string()));
            }
            StdRng { fresh, st: vpcore::hash64(s, 9) }
        }
    }
    impl RngCore for StdRng {
        fn next_u32(&mut self) -> u32 {
            let mut b = [0u8; 4];
            self.fill_bytes(&mut b);
            u32::from_le_bytes(b)
        }
        fn next_u64(&mut self) -> u64 {
            let mut b = [0u8; 8];
            self.fill_bytes(&mut b);
            u64::from_le_bytes(b)
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            if self.fresh {
                return vpcore::rng_fill(d);
            }
            for b in d.iter_mut() {
                self.st = self.st.wrapping_add(0x9E3779B97F4A7C15);
                *b = vpcore::hash64(&self.st.to_le_bytes(), 3) as u8
            }
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(d);
            Ok(())
        }
    }
    impl CryptoRng for StdRng {}
    impl SeedableRng for StdRng {
        type Seed = [u8; 32];
        fn from_seed(s: [u8; 32]) -> Self {
            StdRng::from_bytes_of_any_origin(&s)
        }
    }
}
pub use rngs::ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub mod prelude {
    pub use crate::rngs::{OsRng, StdRng, ThreadRng};
    pub use crate::{thread_rng, CryptoRng, Rng, RngCore, SeedableRng};
}
pub trait Rng: RngCore {
    fn fill(&mut self, d: &mut [u8]) {
        self.fill_bytes(d)
    }
    fn gen<T: Gen>(&mut self) -> T {
        T::gen_from(self)
    }
    fn gen_range<T: Gen + Copy + core::ops::Add<Output = T> + core::ops::Sub<Output = T> + core::ops::Rem<Output = T>>(&mut self, lo: T, hi: T) -> T {
        lo + T::gen_from(self) % (hi - lo)
    }
    fn gen_bool(&mut self, _p: f64) -> bool {
        self.next_u32() & 1 == 1
    }
}
impl<R: RngCore + ?Sized> Rng for R {}

/// What a generator can produce directly.
pub trait Gen: Sized {
    fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self;
}
macro_rules! gen_int { ($($t:ty),*) => { $(impl Gen for $t {
    fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self {
        let mut b = [0u8; core::mem::size_of::<$t>()];
        r.fill_bytes(&mut b);
        <$t>::from_le_bytes(b)
    }
})* } }
gen_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Gen for bool {
    fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self {
        r.next_u32() & 1 == 1
    }
}
impl<const N: usize> Gen for [u8; N] {
    fn gen_from<R: RngCore + ?Sized>(r: &mut R) -> Self {
        let mut b = [0u8; N];
        r.fill_bytes(&mut b);
        b
    }
}
pub fn random<T: Gen>() -> T {
    T::gen_from(&mut ThreadRng)
}
