//! Thin layer over the public API of the crate under test, generic in the
//! scheme so that the same property code runs on the real pairing group and on
//! the transparent one (`toy`).
use std::{
    any::{Any, TypeId},
    cell::RefCell,
    collections::HashMap,
    rc::Rc,
};

use abe_policy::{AccessPolicy, Attribute, Policy};
pub use cosmian_abe_gpsw::core::{
    bilinear_map::bls12_381::Bls12_381,
    gpsw::{AbeScheme, AsBytes, Gpsw},
    Engine,
};

use crate::{
    pbt::{no_panic, Fail, Src},
    refimpl::{Del, Priv, Pub, UserKey},
};

pub type Real = Gpsw<Bls12_381>;
pub type Sk<A> = <A as AbeScheme>::MasterPrivateKey;
pub type Pk<A> = <A as AbeScheme>::MasterPublicKey;
pub type Dk<A> = <A as AbeScheme>::MasterPublicDelegationKey;
pub type Uk<A> = <A as AbeScheme>::UserDecryptionKey;
pub type Ct<A> = <A as AbeScheme>::CipherText;
pub type Pt<A> = <A as AbeScheme>::PlainText;

pub trait Sch: AbeScheme + 'static
where
    Pt<Self>: PartialEq,
{
    const REAL: bool;
    /// prepare for one case (seeds the transparent group)
    fn prep(_: &mut Src) {}
}
impl Sch for Real {
    const REAL: bool = true;
}

pub struct Master<A: AbeScheme> {
    pub sk: Sk<A>,
    pub pk: Pk<A>,
    pub dk: Dk<A>,
}

pub fn new_master<A: Sch>(policy: &Policy) -> Result<Master<A>, Fail>
where
    Pt<A>: PartialEq,
{
    let (sk, pk, dk) = no_panic("generate_master_key", || Engine::<A>::new().generate_master_key(policy))?
        .map_err(|e| Fail::from(format!("generate_master_key failed: {e}")))?;
    Ok(Master { sk, pk, dk })
}

pub fn abe_engine<A: Sch>() -> Engine<A>
where
    Pt<A>: PartialEq,
{
    Engine::<A>::new()
}

thread_local! {
    static MASTERS: RefCell<HashMap<(TypeId, u32, u32), Rc<dyn Any>>> = RefCell::new(HashMap::new());
}

/// Master keys for a policy with this maximum, generated once per worker (the
/// properties that use it quantify over policies, not over master keys).
/// `which` selects independent authorities.
pub fn master_n<A: Sch>(max: u32, which: u32) -> Result<Rc<Master<A>>, Fail>
where
    Pt<A>: PartialEq,
{
    if !A::REAL {
        return Ok(Rc::new(new_master::<A>(&Policy::new(max))?));
    }
    let k = (TypeId::of::<A>(), max, which);
    if let Some(m) = MASTERS.with(|c| c.borrow().get(&k).cloned()) {
        return Ok(m.downcast::<Master<A>>().expect("type"));
    }
    let m = Rc::new(new_master::<A>(&Policy::new(max))?);
    MASTERS.with(|c| c.borrow_mut().insert(k, m.clone()));
    Ok(m)
}
pub fn master<A: Sch>(max: u32) -> Result<Rc<Master<A>>, Fail>
where
    Pt<A>: PartialEq,
{
    master_n::<A>(max, 0)
}

pub fn keygen<A: Sch>(policy: &Policy, m: &Master<A>, ap: &AccessPolicy) -> Result<Uk<A>, Fail>
where
    Pt<A>: PartialEq,
{
    no_panic("generate_user_key", || Engine::<A>::new().generate_user_key(policy, &m.sk, ap))?
        .map_err(|e| Fail::from(format!("generate_user_key failed: {e}")))
}
pub fn try_keygen<A: Sch>(policy: &Policy, m: &Master<A>, ap: &AccessPolicy) -> Result<Result<Uk<A>, String>, Fail>
where
    Pt<A>: PartialEq,
{
    Ok(no_panic("generate_user_key", || Engine::<A>::new().generate_user_key(policy, &m.sk, ap))?
        .map_err(|e| e.to_string()))
}
pub fn encrypt<A: Sch>(policy: &Policy, m: &Master<A>, attrs: &[Attribute], msg: &Pt<A>) -> Result<Ct<A>, Fail>
where
    Pt<A>: PartialEq,
{
    try_encrypt(policy, m, attrs, msg)?.map_err(|e| Fail::from(format!("encrypt failed: {e}")))
}
pub fn try_encrypt<A: Sch>(
    policy: &Policy,
    m: &Master<A>,
    attrs: &[Attribute],
    msg: &Pt<A>,
) -> Result<Result<Ct<A>, String>, Fail>
where
    Pt<A>: PartialEq,
{
    Ok(no_panic("encrypt", || Engine::<A>::new().encrypt(policy, &m.pk, attrs, msg))?.map_err(|e| e.to_string()))
}
/// a ciphertext for attribute values, whatever the policy makes of them today
/// (as encrypted before later rotations)
pub fn encrypt_values<A: Sch>(m: &Master<A>, values: &[u32], msg: &Pt<A>) -> Result<Ct<A>, Fail>
where
    Pt<A>: PartialEq,
{
    no_panic("encrypt", || A::default().encrypt(msg, values, &m.pk))?.map_err(|e| Fail::from(format!("encrypt failed: {e}")))
}
pub fn try_delegate<A: Sch>(
    policy: &Policy,
    m: &Master<A>,
    key: &Uk<A>,
    ap: &AccessPolicy,
) -> Result<Result<Uk<A>, String>, Fail>
where
    Pt<A>: PartialEq,
{
    Ok(no_panic("delegate_user_key", || Engine::<A>::new().delegate_user_key(policy, &m.dk, key, ap))?
        .map_err(|e| e.to_string()))
}

/// What decryption told the caller.
pub enum Got<P> {
    Plain(P),
    Refused,
}
impl<P: PartialEq> Got<P> {
    pub fn is(&self, p: &P) -> bool {
        matches!(self, Got::Plain(q) if q == p)
    }
    pub fn refused(&self) -> bool {
        matches!(self, Got::Refused)
    }
    pub fn word(&self, p: &P) -> &'static str {
        match self {
            Got::Plain(q) if q == p => "the plaintext",
            Got::Plain(_) => "a wrong plaintext",
            Got::Refused => "a refusal",
        }
    }
}
pub fn decrypt<A: Sch>(ct: &Ct<A>, key: &Uk<A>) -> Result<Got<Pt<A>>, Fail>
where
    Pt<A>: PartialEq,
{
    Ok(match no_panic("decrypt", || Engine::<A>::new().decrypt(ct, key))? {
        Ok(Some(p)) => Got::Plain(p),
        Ok(None) | Err(_) => Got::Refused,
    })
}

/// plaintexts: random, encodings of bytes, and the neutral element
pub fn gen_msg<A: Sch>(src: &mut Src) -> Result<Pt<A>, Fail>
where
    Pt<A>: PartialEq,
{
    let r = match src.below(6) {
        0 => A::default().msg_encode(&[]),
        1 => A::default().msg_encode(&[1 + src.below(255) as u8]),
        2 => {
            let n = src.size(1, 31);
            let b = src.blob(n);
            A::default().msg_encode(&b)
        }
        _ => A::default().generate_random_plaintext(),
    };
    r.map_err(|e| Fail::from(format!("message generation failed: {e}")))
}
/// a message that is certainly not the neutral element (so that "revealed"
/// is unambiguous)
pub fn secret_msg<A: Sch>() -> Result<Pt<A>, Fail>
where
    Pt<A>: PartialEq,
{
    A::default().generate_random_plaintext().map_err(|e| Fail::from(format!("message generation failed: {e}")))
}

pub fn ser<T: AsBytes>(what: &str, t: &T) -> Result<Vec<u8>, Fail> {
    no_panic(what, || t.try_into_bytes())?.map_err(|e| Fail::from(format!("{what}: serialization failed: {e}")))
}
pub fn de<T: AsBytes>(what: &str, b: &[u8]) -> Result<T, Fail> {
    no_panic(what, || T::try_from_bytes(b))?.map_err(|e| Fail::from(format!("{what}: deserialization failed: {e}")))
}
pub fn ref_priv(m: &Master<Real>) -> Result<Priv, Fail> {
    Priv::dec(&ser("master private key", &m.sk)?).map_err(|e| Fail::from(format!("master private key bytes: {e}")))
}
pub fn ref_pub(m: &Master<Real>) -> Result<Pub, Fail> {
    Pub::dec(&ser("master public key", &m.pk)?).map_err(|e| Fail::from(format!("master public key bytes: {e}")))
}
pub fn ref_del(m: &Master<Real>) -> Result<Del, Fail> {
    Del::dec(&ser("delegation key", &m.dk)?).map_err(|e| Fail::from(format!("delegation key bytes: {e}")))
}
pub fn ref_key(k: &Uk<Real>) -> Result<UserKey, Fail> {
    UserKey::dec(&ser("user key", k)?).map_err(|e| Fail::from(format!("user key bytes: {e}")))
}
pub fn real_key(k: &UserKey) -> Result<Uk<Real>, Fail> {
    de::<Uk<Real>>("user key", &k.enc())
}
