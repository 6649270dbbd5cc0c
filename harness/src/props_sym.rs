//! C31: the hybrid layer over other symmetric schemes and over the transparent
//! group.
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{
    decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header,
    symmetric_encryption_overhead, ClearTextHeader, EncryptedHeader,
};
use cosmian_crypto_base::{
    symmetric_crypto::{nonce::NonceTrait, Metadata, SymKey, SymmetricCrypto},
    typenum::Unsigned,
    KeyTrait,
};

use crate::{
    api::*,
    ensure,
    hyb::{self, H},
    model::*,
    pbt::*,
    props_core::names,
    refimpl::{be, Rd},
};

pub fn subs(p: &str) -> Vec<Sub> {
    if p != "C31" {
        return vec![];
    }
    vec![
        Sub {
            name: "headers",
            rule: "a random policy, a key and 1-3 headers for lists at the boundary of its formula, with one of six symmetric schemes (AES-256-GCM; a stream and tag of key 16/24/32/48/64, nonce 1/8/12/16/24 and tag 0/8/16/32 bytes); headers are taken apart by an independent decoder of that scheme's sizes, rebuilt by it, altered, cut and converted to and from bytes; the scheme is made to fail. Non-trivial: a header was opened and one refused, under a scheme other than AES.",
            quick: 400,
            thorough: 12_000,
            run: headers::<Real>,
        },
        #[cfg(feature = "toy")]
        Sub {
            name: "headers-transparent",
            rule: "the same over a transparent group (elements are their exponents)",
            quick: 24_000,
            thorough: 600_000,
            run: headers::<crate::toy::Fake>,
        },
        Sub {
            name: "blocks",
            rule: "blocks of one of six symmetric schemes with several maxima and sizes at and around them: size, layout (nonce, scheme output with id and number as associated data), round trip both ways with an independent implementation, wrong contexts, alterations, cuts at each boundary, a failing scheme. Non-trivial: a scheme other than AES and at least 2 bytes.",
            quick: 40_000,
            thorough: 1_000_000,
            run: blocks,
        },
    ]
}

#[cfg(feature = "alt")]
use crate::sym::{self, Alt};
#[cfg(feature = "alt")]
use cosmian_crypto_base::typenum::{U16, U24, U32, U48, U64};

#[cfg(feature = "alt")]
macro_rules! scheme {
    ($i:expr, $f:ident::<$($a:ty),*>($($x:expr),*)) => {
        match $i {
            0 => $f::<$($a,)* H>($($x),*),
            1 => $f::<$($a,)* Alt<U16, 24, 16>>($($x),*),
            2 => $f::<$($a,)* Alt<U64, 8, 32>>($($x),*),
            3 => $f::<$($a,)* Alt<U24, 1, 8>>($($x),*),
            4 => $f::<$($a,)* Alt<U32, 12, 16>>($($x),*),
            _ => $f::<$($a,)* Alt<U48, 16, 0>>($($x),*),
        }
    };
}
#[cfg(not(feature = "alt"))]
macro_rules! scheme {
    ($i:expr, $f:ident::<$($a:ty),*>($($x:expr),*)) => {{
        let _ = $i;
        $f::<$($a,)* H>($($x),*)
    }};
}

type K<S> = <S as SymmetricCrypto>::Key;
type N<S> = <S as SymmetricCrypto>::Nonce;
fn klen<S: SymmetricCrypto>() -> usize {
    <K<S> as KeyTrait>::Length::to_usize()
}
fn nlen<S: SymmetricCrypto>() -> usize {
    <N<S> as NonceTrait>::LENGTH
}
fn key<S: SymmetricCrypto>(b: &[u8]) -> Result<K<S>, Fail> {
    K::<S>::try_from_bytes(b).map_err(|e| Fail::from(format!("symmetric key: {e}")))
}
/// what the scheme itself says (not the code under test)
fn s_dec<S: SymmetricCrypto>(k: &[u8], nonce: &[u8], aad: Option<&[u8]>, c: &[u8]) -> Option<Vec<u8>> {
    S::decrypt(&key::<S>(k).ok()?, c, &N::<S>::try_from_bytes(nonce).ok()?, aad).ok()
}
fn s_enc<S: SymmetricCrypto>(k: &[u8], nonce: &[u8], aad: Option<&[u8]>, c: &[u8]) -> Result<Vec<u8>, Fail> {
    let n = N::<S>::try_from_bytes(nonce).map_err(|e| Fail::from(e.to_string()))?;
    S::encrypt(&key::<S>(k)?, c, &n, aad).map_err(|e| Fail::from(e.to_string()))
}

fn headers<A: Sch + Sync + Send>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let i = src.idx(6);
    scheme!(i, headers_with::<A>(src, ctx))
}

type Clear = (Vec<u8>, Metadata);
fn open<A: Sch + Sync + Send, S: SymmetricCrypto>(k: &Uk<A>, b: &[u8]) -> Result<Option<Clear>, Fail>
where
    Pt<A>: PartialEq,
{
    Ok(no_panic("decrypt_hybrid_header", || decrypt_hybrid_header::<A, S>(k, b))?
        .ok()
        .map(|c| (c.symmetric_key.to_bytes().to_vec(), c.meta_data)))
}

fn headers_with<A: Sch + Sync + Send, S: SymmetricCrypto + 'static>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    let mut w = gen_world(src, &WorldOpts::default());
    w.max += 1;
    w.policy.max_attribute_creations += 1;
    ctx.say(format!("{} ; {}", S::description(), w.describe()));
    let m = master::<A>(w.max)?;
    let f = gen_formula(src, &w, 5);
    ctx.say(f.describe(&w));
    let t = f.snapshot(&w);
    let uk = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
    let (kl, nl, tl) = (klen::<S>(), nlen::<S>(), S::MAC_LENGTH);
    let aes = std::any::TypeId::of::<S>() == std::any::TypeId::of::<H>();
    let (mut yes, mut no) = (false, false);
    for _ in 0..src.size(1, 3) {
        let l = gen_attrs(src, &w, &f, &t, w.max as usize);
        let ok = t.eval(&w.gamma(&l));
        yes |= ok;
        no |= !ok;
        let meta = hyb::gen_meta(src);
        ctx.say(format!("[{}] {}", names(&w, &l), hyb::show_meta(&meta)));
        let attrs = w.attributes(&l);
        #[cfg(feature = "alt")]
        if !aes && meta.is_some() && src.chance(1, 6) {
            let r = no_panic("encrypt_hybrid_header", || {
                sym::failing(|| encrypt_hybrid_header::<A, S>(&w.policy, &m.pk, &attrs, meta.clone()))
            })?;
            ensure!(ctx, r.is_err(), "the symmetric scheme refused to encrypt, the header was made all the same");
            ctx.label("scheme refusing");
        }
        let h = no_panic("encrypt_hybrid_header", || encrypt_hybrid_header::<A, S>(&w.policy, &m.pk, &attrs, meta.clone()))?
            .map_err(|e| Fail::from(format!("encrypt_hybrid_header: {e}")))?;
        let k = h.symmetric_key.to_bytes().to_vec();
        let b = h.encrypted_header_bytes.clone();
        ensure!(ctx, k.len() == kl, "a key of {} bytes for a scheme of {kl}", k.len());
        let parts: std::collections::BTreeSet<&[u8]> = k.chunks(8).collect();
        ensure!(ctx, parts.len() == k.len().div_ceil(8), "the parts of the key repeat: {k:02x?}");
        // taken apart with the sizes of the scheme
        let mut r = Rd(&b);
        let n = r.u32().map_err(Fail::from)? as usize;
        let encaps = r.take(n).map_err(|e| Fail::from(format!("encapsulation: {e}")))?.to_vec();
        let section = r.0.to_vec();
        match &meta {
            None => ensure!(ctx, section.is_empty(), "{} bytes after the encapsulation without metadata", section.len()),
            Some(mt) => {
                let clear = hyb::enc_meta(mt);
                ensure!(ctx, section.len() == nl + 4 + clear.len() + tl, "a metadata section of {} bytes: nonce {nl}, size 4, {} bytes, tag {tl} expected", section.len(), clear.len());
                ensure!(ctx, section[nl..nl + 4] == be(clear.len() + tl), "the size of the metadata is not the one of its encryption");
                let d = s_dec::<S>(&k, &section[..nl], None, &section[nl + 4..]);
                ensure!(ctx, d.as_deref() == Some(&clear[..]), "the metadata is not encrypted with the scheme under the returned key and the written nonce");
            }
        }
        // the encapsulated key has the size of the scheme's keys
        if ok {
            let d = no_panic("decrypt_symmetric_key", || abe_engine::<A>().decrypt_symmetric_key(&uk, &encaps, kl))?
                .map_err(|e| Fail::from(format!("decrypt_symmetric_key: {e}")))?;
            ensure!(ctx, d == k, "the encapsulated key is not the returned one");
        }
        let want = (k.clone(), hyb::expected(&meta));
        let got = open::<A, S>(&uk, &b)?;
        if ok {
            ensure!(ctx, got.as_ref() == Some(&want), "an authorised user got {}", if got.is_some() { "another key or other metadata" } else { "refused" });
        } else {
            ensure!(ctx, got.is_none(), "a user whose policy is not satisfied opened the header");
            continue;
        }
        #[cfg(feature = "alt")]
        if !aes && meta.is_some() {
            let r = no_panic("decrypt_hybrid_header", || sym::failing(|| decrypt_hybrid_header::<A, S>(&uk, &b)))?;
            ensure!(ctx, r.is_err(), "the symmetric scheme refused to decrypt, the header was opened all the same");
        }
        // other metadata written by an independent encoder
        let other = hyb::gen_meta(src).unwrap_or_default();
        let nonce = src.blob(nl);
        let e = s_enc::<S>(&k, &nonce, None, &hyb::enc_meta(&other))?;
        let mut b2 = be(encaps.len()).to_vec();
        b2.extend(&encaps);
        b2.extend(&nonce);
        b2.extend(be(e.len()));
        b2.extend(&e);
        let got = open::<A, S>(&uk, &b2)?;
        ensure!(ctx, got == Some((k.clone(), hyb::expected(&Some(other)))), "a header built by an independent encoder is read as {}", if got.is_some() { "something else" } else { "an error" });
        // cut and altered
        let cut = src.idx(b2.len());
        let start = 4 + encaps.len();
        let got = open::<A, S>(&uk, &b2[..cut])?;
        if cut == start {
            ensure!(ctx, got == Some((k.clone(), Metadata::default())), "the header without its metadata section");
        } else {
            ensure!(ctx, got.is_none(), "a header cut to {cut} of {} bytes was opened", b2.len());
        }
        if tl >= 8 {
            let mut b3 = b2.clone();
            let at = start + src.idx(b2.len() - start);
            if !(start + nl..start + nl + 4).contains(&at) {
                b3[at] ^= 1 << src.idx(8);
                ensure!(ctx, open::<A, S>(&uk, &b3)?.is_none(), "altered metadata was returned (byte {} of the section)", at - start);
            }
        }
        // the two forms as bytes
        let hb = no_panic("EncryptedHeader::try_into_bytes", || h.try_into_bytes())?.map_err(|e| Fail::from(e.to_string()))?;
        let mut x = be(kl).to_vec();
        x.extend(&k);
        let prefix = x.clone();
        x.extend(&b);
        ensure!(ctx, hb == x, "an encrypted header as bytes is not key size, key, header");
        let back = no_panic("EncryptedHeader::try_from_bytes", || EncryptedHeader::<S>::try_from_bytes(&hb))?.map_err(|e| Fail::from(e.to_string()))?;
        ensure!(ctx, back.symmetric_key.to_bytes().to_vec() == k && back.encrypted_header_bytes == b, "an encrypted header does not round-trip");
        let c = no_panic("decrypt_hybrid_header", || decrypt_hybrid_header::<A, S>(&uk, &b))?.map_err(|e| Fail::from(e.to_string()))?;
        let cb = no_panic("ClearTextHeader::try_into_bytes", || c.try_into_bytes())?.map_err(|e| Fail::from(e.to_string()))?;
        let mut x = prefix.clone();
        x.extend(hyb::enc_meta(&want.1));
        ensure!(ctx, cb == x, "a clear header as bytes is not key size, key, metadata");
        let back = no_panic("ClearTextHeader::try_from_bytes", || ClearTextHeader::<S>::try_from_bytes(&cb))?.map_err(|e| Fail::from(e.to_string()))?;
        ensure!(ctx, back.symmetric_key.to_bytes().to_vec() == k && back.meta_data == want.1, "a clear header does not round-trip");
        // a key of another size is refused
        let wrong = if src.chance(1, 2) { kl - 1 } else { kl + 1 };
        let mut x = be(wrong).to_vec();
        x.extend(src.blob(wrong));
        let more = src.idx(60);
        x.extend(src.blob(more));
        ensure!(ctx, no_panic("EncryptedHeader::try_from_bytes", || EncryptedHeader::<S>::try_from_bytes(&x).is_err())?, "a header with a key of {wrong} bytes is accepted by a scheme of {kl}");
        ensure!(ctx, no_panic("ClearTextHeader::try_from_bytes", || ClearTextHeader::<S>::try_from_bytes(&x).is_err())?, "a clear header with a key of {wrong} bytes is accepted by a scheme of {kl}");
    }
    ctx.label_if(yes, "opened");
    ctx.label_if(no, "refused");
    ctx.nontrivial_if(yes && no && !aes);
    Ok(())
}

fn blocks(src: &mut Src, ctx: &mut Ctx) -> R {
    let i = src.idx(6);
    match src.below(6) {
        0 => scheme!(i, b1::<>(src, ctx)),
        1 => scheme!(i, b15::<>(src, ctx)),
        2 => scheme!(i, b16::<>(src, ctx)),
        3 => scheme!(i, b255::<>(src, ctx)),
        4 => scheme!(i, b4096::<>(src, ctx)),
        _ => scheme!(i, b65536::<>(src, ctx)),
    }
}
macro_rules! maximum {
    ($($n:ident $m:expr),*) => { $(
        fn $n<S: SymmetricCrypto + 'static>(src: &mut Src, ctx: &mut Ctx) -> R {
            blocks_with::<S, $m>(src, ctx)
        }
    )* };
}
maximum!(b1 1, b15 15, b16 16, b255 255, b4096 4096, b65536 65536);

fn blocks_with<S: SymmetricCrypto + 'static, const M: usize>(src: &mut Src, ctx: &mut Ctx) -> R {
    let (kl, nl, tl) = (klen::<S>(), nlen::<S>(), S::MAC_LENGTH);
    let aes = std::any::TypeId::of::<S>() == std::any::TypeId::of::<H>();
    let len = match src.below(4) {
        0 => M,
        1 => M.saturating_sub(1),
        2 => src.size(1, 40),
        _ => src.size(1, 5000),
    }
    .clamp(1, M);
    let k = src.blob(kl);
    let un = src.size(0, 40);
    let uid = src.blob(un);
    let num = match src.below(3) {
        0 => src.below(4),
        1 => 1 << src.below(64),
        _ => src.below(0),
    } as usize;
    let pt = src.blob(len);
    ctx.say(format!("{}, maximum {M}, {len} bytes, id of {un} bytes, block {num}", S::description()));
    ctx.nontrivial_if(!aes && len >= 2);
    let sk = key::<S>(&k)?;
    let enc = |uid: &[u8], n: usize, pt: &[u8]| {
        no_panic("encrypt_hybrid_block", || encrypt_hybrid_block::<Real, S, M>(&sk, uid, n, pt)).map(|r| r.map_err(|e| e.to_string()))
    };
    let dec = |uid: &[u8], n: usize, c: &[u8]| {
        no_panic("decrypt_hybrid_block", || decrypt_hybrid_block::<Real, S, M>(&sk, uid, n, c)).map(|r| r.map_err(|e| e.to_string()))
    };
    #[cfg(feature = "alt")]
    if !aes {
        let r = sym::failing(|| enc(&uid, num, &pt))?;
        ensure!(ctx, r.is_err(), "the scheme refused to encrypt, a block was returned all the same");
        sym::calls();
    }
    let c = enc(&uid, num, &pt)?.map_err(|e| Fail::from(format!("encrypt_hybrid_block: {e}")))?;
    let over = no_panic("symmetric_encryption_overhead", || symmetric_encryption_overhead::<S, M>())?;
    ensure!(ctx, over == nl + tl, "the advertised overhead is {over}, the scheme has a nonce of {nl} and a tag of {tl}");
    ensure!(ctx, c.len() == len + over, "{len} bytes became {} with an overhead of {over}", c.len());
    let aad = hyb::block_aad(&uid, num as u64);
    #[cfg(feature = "alt")]
    if !aes {
        let log = sym::calls();
        ensure!(ctx, log.iter().all(|l| l.key == k) && log.iter().any(|l| l.encrypt && l.nonce == c[..nl]), "the block was not encrypted with the given key and the written nonce");
    }
    ensure!(ctx, s_dec::<S>(&k, &c[..nl], Some(&aad), &c[nl..]).as_deref() == Some(&pt[..]), "a block is not the nonce and the scheme's encryption bound to id and number");
    let d = dec(&uid, num, &c)?;
    ensure!(ctx, d.as_ref() == Ok(&pt), "a block does not round-trip: {:?}", d.map(|v| v.len()));
    #[cfg(feature = "alt")]
    if !aes {
        let r = sym::failing(|| dec(&uid, num, &c))?;
        ensure!(ctx, r.is_err(), "the scheme refused to decrypt, a plaintext was returned all the same");
    }
    // a block of an independent encoder
    let nonce = src.blob(nl);
    let mut c2 = nonce.clone();
    c2.extend(s_enc::<S>(&k, &nonce, Some(&aad), &pt)?);
    ensure!(ctx, dec(&uid, num, &c2)? == Ok(pt.clone()), "a block of an independent encoder is not read");
    // sizes
    ensure!(ctx, enc(&uid, num, &[])?.is_err() && dec(&uid, num, &[])?.is_err(), "an empty block is accepted");
    let extra = src.size(1, 40);
    let long = src.blob(M + extra);
    ensure!(ctx, enc(&uid, num, &long)?.is_err(), "{} bytes are accepted under the maximum {M}", M + extra);
    let mut c3 = nonce.clone();
    c3.extend(s_enc::<S>(&k, &nonce, Some(&aad), &long)?);
    ensure!(ctx, dec(&uid, num, &c3)?.is_err(), "a block of {} bytes is accepted under the maximum {M}", M + extra);
    // cuts
    let n = match src.below(3) {
        0 => src.size(0, over.saturating_sub(1)),
        1 => nl.min(c.len() - 1),
        _ => src.idx(c.len()),
    };
    let r = dec(&uid, num, &c[..n])?;
    if tl >= 8 {
        ensure!(ctx, r.is_err(), "a block cut to {n} of {} bytes is accepted", c.len());
        let mut a = c.clone();
        let at = src.idx(a.len());
        a[at] ^= 1 << src.idx(8);
        ensure!(ctx, dec(&uid, num, &a)?.is_err(), "a block altered at byte {at} is accepted");
        ensure!(ctx, dec(&uid, num ^ (1 << src.idx(64)), &c)?.is_err(), "a block is accepted at another number");
        let mut u = uid.clone();
        u.push(0);
        ensure!(ctx, dec(&u, num, &c)?.is_err(), "a block is accepted for another id");
        let mut k2 = k.clone();
        let at = src.idx(kl);
        k2[at] ^= 1 << src.idx(8);
        let k2 = key::<S>(&k2)?;
        let r = no_panic("decrypt_hybrid_block", || decrypt_hybrid_block::<Real, S, M>(&k2, &uid, num, &c))?;
        ensure!(ctx, r.is_err(), "a block is accepted under another key (byte {at} of {kl})");
    } else if n < over {
        ensure!(ctx, r.is_err(), "a block of {n} bytes, less than the overhead, is accepted");
    }
    let again = enc(&uid, num, &pt)?.map_err(Fail::from)?;
    ensure!(ctx, nl < 8 || again[..nl] != c[..nl], "two blocks have the same nonce");
    let _ = SymKey::as_bytes(&sk);
    Ok(())
}
