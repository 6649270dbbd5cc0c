//! Independent codec of hybrid headers and blocks (AES-256-GCM itself is the
//! trusted primitive of cosmian_crypto_base).
use cosmian_crypto_base::{
    symmetric_crypto::{
        aes_256_gcm_pure::Aes256GcmCrypto, nonce::NonceTrait, Metadata, SymmetricCrypto,
    },
    KeyTrait,
};

use crate::{
    pbt::{Fail, Src},
    refimpl::be,
};

pub type H = Aes256GcmCrypto;
pub type HKey = <H as SymmetricCrypto>::Key;
type HNonce = <H as SymmetricCrypto>::Nonce;

pub fn key(b: &[u8]) -> Result<HKey, Fail> {
    HKey::try_from_bytes(b).map_err(|e| Fail::from(format!("symmetric key: {e}")))
}
pub fn aes_enc(k: &[u8], nonce: &[u8], aad: Option<&[u8]>, msg: &[u8]) -> Result<Vec<u8>, Fail> {
    let n = HNonce::try_from_bytes(nonce).map_err(|e| Fail::from(format!("nonce: {e}")))?;
    H::encrypt(&key(k)?, msg, &n, aad).map_err(|e| Fail::from(format!("aes: {e}")))
}
pub fn aes_dec(k: &[u8], nonce: &[u8], aad: Option<&[u8]>, ct: &[u8]) -> Option<Vec<u8>> {
    H::decrypt(&key(k).ok()?, ct, &HNonce::try_from_bytes(nonce).ok()?, aad).ok()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub encaps: Vec<u8>,
    pub meta: Option<(Vec<u8>, Vec<u8>)>,
}
pub fn parse(b: &[u8]) -> Result<Hdr, String> {
    let mut r = crate::refimpl::Rd(b);
    let n = r.u32()? as usize;
    let encaps = r.take(n)?.to_vec();
    let meta = if r.0.is_empty() {
        None
    } else {
        let nonce = r.take(12)?.to_vec();
        let n = r.u32()? as usize;
        let enc = r.take(n)?.to_vec();
        r.end()?;
        Some((nonce, enc))
    };
    Ok(Hdr { encaps, meta })
}
impl Hdr {
    pub fn build(&self) -> Vec<u8> {
        let mut v = be(self.encaps.len()).to_vec();
        v.extend(&self.encaps);
        if let Some((n, e)) = &self.meta {
            v.extend(n);
            v.extend(be(e.len()));
            v.extend(e);
        }
        v
    }
}
pub fn enc_meta(m: &Metadata) -> Vec<u8> {
    let ad = m.additional_data.clone().unwrap_or_default();
    if m.uid.is_empty() && ad.is_empty() {
        return vec![];
    }
    let mut v = be(m.uid.len()).to_vec();
    v.extend(&m.uid);
    v.extend(ad);
    v
}
/// what a reader gets back: absent and empty metadata are the same thing
pub fn expected(m: &Option<Metadata>) -> Metadata {
    match m {
        None => Metadata::default(),
        Some(m) => Metadata {
            uid: m.uid.clone(),
            additional_data: m.additional_data.clone().filter(|a| !a.is_empty()),
        },
    }
}
/// around the sizes where a length takes another byte
fn edge(src: &mut Src) -> usize {
    let top: &[usize] = if src.chance(1, 12) { &[1 << 20, 1 << 21] } else { &[128, 256, 1 << 14, 1 << 15, 1 << 16] };
    let n = *src.pick(top);
    match src.below(4) {
        0 => n - 1,
        1 => n,
        2 => n - src.range(1, 33) as usize,
        _ => n + 1,
    }
}
pub fn gen_meta(src: &mut Src) -> Option<Metadata> {
    if src.chance(1, 6) {
        return None;
    }
    let un = match src.below(6) {
        0 => 0,
        1 => src.size(200, 3000),
        2 => edge(src),
        _ => src.size(1, 40),
    };
    let uid = src.blob(un);
    let additional_data = match src.below(6) {
        0 => None,
        1 => Some(vec![]),
        2 => {
            let n = src.size(200, 70_000);
            Some(src.blob(n))
        }
        3 => {
            let n = edge(src);
            Some(src.blob(n))
        }
        _ => {
            let n = src.size(1, 50);
            Some(src.blob(n))
        }
    };
    Some(Metadata { uid, additional_data })
}
pub fn show_meta(m: &Option<Metadata>) -> String {
    match m {
        None => "no metadata".into(),
        Some(m) => format!("uid {} bytes, additional {:?}", m.uid.len(), m.additional_data.as_ref().map(Vec::len)),
    }
}
pub fn block_aad(uid: &[u8], n: u64) -> Vec<u8> {
    let mut v = uid.to_vec();
    v.extend(n.to_le_bytes());
    v
}
