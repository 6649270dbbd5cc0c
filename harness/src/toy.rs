//! A transparent bilinear group: every element is its own exponent. The scheme
//! code under test is generic in the group, so it runs here about a thousand
//! times faster, which buys far larger searches. Randomness can be seeded.
use std::cell::RefCell;

use cosmian_abe_gpsw::{
    core::{bilinear_map::BilinearMap, gpsw::AsBytes, gpsw::Gpsw},
    error::FormatErr,
};
use cosmian_bls12_381::Scalar as F;

use crate::{api::Sch, pbt::{Prng, Src}};

#[derive(Clone, Debug, PartialEq)]
pub struct E(pub F);
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Toy;
pub type Fake = Gpsw<Toy>;
impl Sch for Fake {
    const REAL: bool = false;
    fn prep(src: &mut Src) {
        let s = src.below(1 << 32);
        RNG.with(|r| *r.borrow_mut() = Some(Prng::new(s)));
    }
}

thread_local! {
    static RNG: RefCell<Option<Prng>> = const { RefCell::new(None) };
}
fn draw() -> E {
    RNG.with(|r| {
        let mut r = r.borrow_mut();
        let p = r.get_or_insert_with(|| Prng::new(7));
        let mut w = [0u8; 64];
        w.copy_from_slice(&p.fill(64));
        E(F::from_bytes_wide(&w))
    })
}

impl From<i32> for E {
    fn from(v: i32) -> Self {
        E(crate::refimpl::sci(v))
    }
}
impl<'a> core::ops::Add<&'a E> for E {
    type Output = E;
    fn add(self, o: &E) -> E {
        E(self.0 + o.0)
    }
}
impl<'a> core::ops::Sub<&'a E> for E {
    type Output = E;
    fn sub(self, o: &E) -> E {
        E(self.0 - o.0)
    }
}
impl<'a> core::ops::Mul<&'a E> for E {
    type Output = E;
    fn mul(self, o: &E) -> E {
        E(self.0 * o.0)
    }
}
impl<'a> core::ops::Div<&'a E> for E {
    type Output = E;
    fn div(self, o: &E) -> E {
        E(self.0 * o.0.invert().unwrap())
    }
}
impl core::ops::Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E(-self.0)
    }
}
impl AsBytes for E {
    fn try_into_bytes(&self) -> Result<Vec<u8>, FormatErr> {
        Ok(self.0.to_bytes().to_vec())
    }
    fn try_from_bytes(b: &[u8]) -> Result<Self, FormatErr> {
        if b.len() < 32 {
            return Err(FormatErr::InvalidSize("toy".into()));
        }
        let mut a = [0u8; 32];
        a.copy_from_slice(&b[..32]);
        Option::<F>::from(F::from_bytes(&a)).map(E).ok_or(FormatErr::ConversionFailed)
    }
    fn len_bytes(&self) -> usize {
        32
    }
}

impl BilinearMap for Toy {
    type Scalar = E;
    type G1 = E;
    type G2 = E;
    type G3 = E;
    type Gt = E;
    const ZERO: E = E(F::zero());
    const ONE: E = E(F::one());
    fn description() -> String {
        "transparent".into()
    }
    fn gen_rand_scalar_inner<R>(&self, _: &mut R) -> Result<E, FormatErr> {
        Ok(draw())
    }
    fn gen_rand_gt_inner<R>(&self, _: &mut R) -> Result<E, FormatErr> {
        Ok(draw())
    }
    fn gen_random_scalar(&self) -> Result<E, FormatErr> {
        Ok(draw())
    }
    fn gen_random_scalar_vector(&self, n: usize) -> Result<Vec<E>, FormatErr> {
        Ok((0..n).map(|_| draw()).collect())
    }
    fn gen_random_msg_in_gt(&self) -> Result<E, FormatErr> {
        Ok(draw())
    }
    fn msg_to_scalar(&self, m: &[u8]) -> Result<E, FormatErr> {
        let mut v = m.to_vec();
        v.resize(32, 0);
        E::try_from_bytes(&v)
    }
    fn g1_gen_exp(&self, x: &E) -> (E, E) {
        (x.clone(), x.clone())
    }
    fn g3_gen_exp(&self, x: &E) -> E {
        x.clone()
    }
    fn g3_mul(&self, a: &E, b: &E) -> (E, E) {
        let r = E(a.0 + b.0);
        (r.clone(), r)
    }
    fn g3_exp(&self, a: &E, x: &E) -> E {
        E(a.0 * x.0)
    }
    fn g2_gen_exp(&self, x: &E) -> E {
        x.clone()
    }
    fn g2_exp(&self, a: &E, x: &E) -> E {
        E(a.0 * x.0)
    }
    fn gt_gen_exp(&self, x: &E) -> E {
        x.clone()
    }
    fn gt_exp(&self, a: &E, x: &E) -> E {
        E(a.0 * x.0)
    }
    fn gt_mul(&self, a: &E, b: &E) -> E {
        E(a.0 + b.0)
    }
    fn gt_div(&self, a: &E, b: &E) -> E {
        E(a.0 - b.0)
    }
    fn prod_gt_exp(&self, d: &[&E], e: &[&E], a: &[&E]) -> E {
        E(d.iter().zip(e).zip(a).map(|((d, e), a)| d.0 * e.0 * a.0).sum())
    }
    fn g3_to_g1(v: &E) -> E {
        v.clone()
    }
}
