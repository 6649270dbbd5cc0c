//! Symmetric schemes of other key, nonce and tag sizes than AES-256-GCM (a
//! SHAKE-256 stream and tag), to run the hybrid layer with. Each call is
//! recorded and can be made to fail.
use std::{cell::RefCell, marker::PhantomData};

use cosmian_crypto_base::{
    symmetric_crypto::{
        nonce::{Nonce, NonceTrait},
        SymKey, SymmetricCrypto,
    },
    ArrayLength, CryptoCoreError,
};
use cosmian_crypto_core::symmetric_crypto::key::Key;
use sha3::{
    digest::{ExtendableOutput, Update, XofReader},
    Shake256,
};

pub struct Alt<K, const N: usize, const T: usize>(PhantomData<fn() -> K>);

#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub encrypt: bool,
    pub key: Vec<u8>,
    pub nonce: Vec<u8>,
}
thread_local! {
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    static FAIL: RefCell<bool> = const { RefCell::new(false) };
}
pub fn calls() -> Vec<Call> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
pub fn failing<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            FAIL.with(|x| *x.borrow_mut() = false);
        }
    }
    let _off = Off;
    FAIL.with(|x| *x.borrow_mut() = true);
    f()
}
fn xof(parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut h = Shake256::default();
    for p in parts {
        h.update(&(p.len() as u64).to_be_bytes());
        h.update(p);
    }
    let mut v = vec![0; n];
    h.finalize_xof().read(&mut v);
    v
}
fn note(encrypt: bool, key: &[u8], nonce: &[u8]) -> Result<(), CryptoCoreError> {
    CALLS.with(|c| c.borrow_mut().push(Call { encrypt, key: key.to_vec(), nonce: nonce.to_vec() }));
    if FAIL.with(|x| *x.borrow()) {
        return Err(CryptoCoreError::InvalidSize("the scheme refuses".into()));
    }
    Ok(())
}

impl<K: Eq + ArrayLength<u8> + 'static, const N: usize, const T: usize> SymmetricCrypto for Alt<K, N, T> {
    const MAC_LENGTH: usize = T;
    type Key = Key<K>;
    type Nonce = Nonce<N>;
    fn description() -> String {
        format!("SHAKE-256, key {} nonce {N} tag {T}", K::to_usize())
    }
    fn encrypt(key: &Key<K>, bytes: &[u8], nonce: &Nonce<N>, aad: Option<&[u8]>) -> Result<Vec<u8>, CryptoCoreError> {
        let (k, n) = (key.as_bytes(), nonce.as_slice());
        note(true, k, n)?;
        let mut c: Vec<u8> = xof(&[b"stream", k, n], bytes.len()).iter().zip(bytes).map(|(a, b)| a ^ b).collect();
        let t = xof(&[b"tag", k, n, aad.unwrap_or(&[]), &c], T);
        c.extend(t);
        Ok(c)
    }
    fn decrypt(key: &Key<K>, bytes: &[u8], nonce: &Nonce<N>, aad: Option<&[u8]>) -> Result<Vec<u8>, CryptoCoreError> {
        let (k, n) = (key.as_bytes(), nonce.as_slice());
        note(false, k, n)?;
        if bytes.len() < T {
            return Err(CryptoCoreError::InvalidSize("no tag".into()));
        }
        let (c, t) = bytes.split_at(bytes.len() - T);
        if xof(&[b"tag", k, n, aad.unwrap_or(&[]), c], T) != t {
            return Err(CryptoCoreError::InvalidSize("wrong tag".into()));
        }
        Ok(xof(&[b"stream", k, n], c.len()).iter().zip(c).map(|(a, b)| a ^ b).collect())
    }
}
