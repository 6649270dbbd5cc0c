//! C08 C09 C15 C28: what keys and ciphertexts are made of.
use std::collections::BTreeSet;

use abe_policy::AccessPolicy;
use cosmian_abe_gpsw::{
    core::{
        bilinear_map::{bls12_381::Bls12_381, BilinearMap},
        msp::{MonotoneSpanProgram, Node},
    },
    interfaces::hybrid_crypto::{encrypt_hybrid_block, encrypt_hybrid_header},
};
use cosmian_bls12_381::{pairing, G1Affine, G1Projective, G2Affine, G2Projective, Gt, Scalar};
use cosmian_crypto_base::{
    symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto, Metadata, SymmetricCrypto},
    KeyTrait,
};
use group::Group;
use sha3::{
    digest::{ExtendableOutput, Update, XofReader},
    Shake256,
};

use crate::{api::*, ensure, fail, model::*, pbt::*, props_core::{names, show_scalar}, refimpl::*};

macro_rules! one {
    ($v:ident, $prop:expr, $id:literal, $name:literal, $rule:expr, $f:expr, $q:expr, $t:expr) => {
        if $prop == $id {
            $v.push(Sub { name: $name, rule: $rule, quick: $q, thorough: $t, run: $f });
        }
    };
}

pub fn subs(p: &str) -> Vec<Sub> {
    let mut v = vec![];
    one!(v, p, "C08", "masters", "two master keys for the same policy: all elements non-zero, distinct within a key and across keys, no constant byte. Non-trivial: at least 8 elements.",
        fresh_masters, 120, 3000);
    one!(v, p, "C08", "user_keys", "the same access policy issued twice, re-randomised twice and delegated twice (same policy, narrower policy): the shares (recovered with the master secret) of every leaf that does not satisfy the policy alone differ between all these keys and are not neutral, the recoverable entries of the sharing vector are distinct, non-neutral and change by distinct amounts. Non-trivial: the policy has a conjunction.",
        fresh_keys, 260, 8000);
    one!(v, p, "C08", "ciphertexts", "the same plaintext encrypted 2-6 times for the same attributes, symmetric keys and headers generated repeatedly: exponents, masks, plaintexts, symmetric keys and nonces never repeat and are never neutral. Non-trivial: always.",
        fresh_cts, 260, 8000);
    one!(v, p, "C08", "blocks", "hundreds of blocks and headers for the same key, id, number and content: nonces all distinct, no constant nonce byte. Non-trivial: at least 200 nonces.",
        fresh_blocks, 64, 2000);
    one!(v, p, "C08", "many", "70000 blocks, random scalars (one by one or in vectors), or 1500 random messages or 500 headers in one run, on one thread or shared by several: nothing ever repeats. Non-trivial: always.",
        fresh_many, 16, 400);
    one!(v, p, "C08", "threads", "the same operations run at the same time on 2-8 threads. Non-trivial: at least 2 threads.",
        fresh_threads, 60, 1500);
    one!(v, p, "C08", "processes", "the same operations run in 2-4 freshly started processes. Non-trivial: always.",
        fresh_processes, 24, 400);
    one!(v, p, "C08", "forks", "a process does the operations, forks, and both sides do them again. Non-trivial: always.",
        fresh_forks, 16, 300);
    one!(v, p, "C09", "equations", "random policy, formula, derivations and ciphertexts: master images, correct sharing of the master secret in issued, delegated and re-randomised keys, one common exponent in ciphertexts, all recomputed from the bytes with the master secret. Non-trivial: a conjunction and a derivation.",
        equations, 320, 9000);
    one!(v, p, "C09", "exchange", "master keys made by the reference implementation, loaded into the library; keys and ciphertexts issued by either side and opened by the other. Non-trivial: a formula with a conjunction opened across sides.",
        exchange, 320, 9000);
    one!(v, p, "C09", "span_programs", "arbitrary integer span programs given to key generation, and arbitrary field-element span programs with arbitrary 32-bit attribute numbers in user keys made by the reference: decryption agrees with the reference decision and plaintext. Non-trivial: at least 2 rows and 2 columns.",
        span_programs, 500, 14000);
    one!(v, p, "C15", "encapsulate", "keys of random lengths encapsulated for random attributes; recovered by random users, compared with the extendable hash of the group element computed from the master secret. Non-trivial: an authorised and an unauthorised user.",
        encapsulate, 400, 10000);
    one!(v, p, "C28", "laws", "random exponents (zero, one, minus one, small, powers of two, random) through every operation of the exposed group, compared with exponent arithmetic computed by the reference. Non-trivial: exponents are not all special.",
        laws, 500, 14000);
    one!(v, p, "C28", "messages", "random messages of 0 to 70 bytes around the group order and the length limit. Non-trivial: 31 bytes or more.",
        messages, 3000, 100000);
    v
}

type H = Aes256GcmCrypto;
type SymKeyOf = <H as SymmetricCrypto>::Key;
pub fn shake(b: &[u8], n: usize) -> Vec<u8> {
    let mut x = Shake256::default().chain(b).finalize_xof();
    let mut v = vec![0; n];
    x.read(&mut v);
    v
}

// ------------------------------------------------------------------ C08

fn distinct<T: Ord>(ctx: &mut Ctx, what: &str, v: impl IntoIterator<Item = T>) -> R {
    let l: Vec<T> = v.into_iter().collect();
    let n = l.len();
    let s: BTreeSet<T> = l.into_iter().collect();
    ensure!(ctx, s.len() == n, "{what}: {} of {n} values are repetitions", n - s.len());
    Ok(())
}

/// every byte position takes several values over many random samples
fn spread(ctx: &mut Ctx, what: &str, samples: &[Vec<u8>], positions: std::ops::Range<usize>) -> R {
    let need = if samples.len() >= 64 { 8 } else { 2 };
    if samples.len() < 24 {
        return Ok(());
    }
    for p in positions {
        let d: BTreeSet<u8> = samples.iter().map(|s| s[p]).collect();
        ensure!(ctx, d.len() >= need, "{what}: byte {p} takes only {} values over {} samples", d.len(), samples.len());
    }
    Ok(())
}

fn fresh_masters(src: &mut Src, ctx: &mut Ctx) -> R {
    let max = *src.pick(&[1u32, 2, 3, 8, 30, 70]);
    ctx.say(format!("policy(max={max})"));
    let policy = abe_policy::Policy::new(max);
    let mut secrets = vec![];
    for i in 0..2 {
        let m = new_master::<Real>(&policy)?;
        let p = ref_priv(&m)?;
        ensure!(ctx, p.t.len() > max as usize, "only {} elements for {max} attribute values", p.t.len());
        for (j, t) in p.t.iter().chain([&p.y]).enumerate() {
            ensure!(ctx, *t != Scalar::zero() && *t != Scalar::one(), "master key {i}: element {j} is {}", show_scalar(t));
            secrets.push(t.to_bytes().to_vec());
        }
    }
    distinct(ctx, "secrets of two master keys", &secrets)?;
    spread(ctx, "master secrets", &secrets, 0..31)?;
    ctx.nontrivial_if(max >= 8);
    Ok(())
}

fn is_ones(row: &[Scalar]) -> bool {
    row.iter().all(|x| *x == row[0])
}
fn shares(k: &UserKey, p: &Priv) -> Result<Vec<G2Affine>, Fail> {
    k.d.iter()
        .zip(&k.msp.attrs)
        .map(|(d, a)| {
            let t = p.t.get(*a as usize).ok_or_else(|| Fail::from(format!("attribute {a} outside the master key")))?;
            Ok(G2Affine::from(G2Projective::from(*d) * t))
        })
        .collect()
}
/// the entries g2^{u_j} of the sharing vector that the rows determine
fn sharing_vector(k: &UserKey, s: &[G2Affine]) -> Vec<(usize, G2Affine)> {
    let n = k.msp.cols;
    (0..n)
        .filter_map(|j| {
            let mut e = vec![Scalar::zero(); n];
            e[j] = Scalar::one();
            let al = solve_span(&k.msp.m, &e)?;
            let mut acc = G2Projective::identity();
            for (a, p) in al.iter().zip(s) {
                acc += p * a;
            }
            Some((j, G2Affine::from(acc)))
        })
        .collect()
}

fn fresh_keys(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, &WorldOpts { max_slack: 1, ..Default::default() });
    let m = master::<Real>(w.max)?;
    let p = ref_priv(&m)?;
    let mut f = gen_formula(src, &w, 6);
    if src.chance(1, 2) {
        let mut l = vec![];
        f.leaves(&mut l);
        f = l.into_iter().map(F::A).reduce(|a, b| F::And(Box::new(a), Box::new(b))).unwrap();
    }
    ctx.say(format!("{} key {}", w.describe(), f.describe(&w)));
    let ap = f.ap(&w);
    let mut keys: Vec<(String, Uk<Real>)> = vec![];
    for i in 0..2 {
        keys.push((format!("issue {i}"), keygen::<Real>(&w.policy, &m, &ap)?));
    }
    for (what, req) in [("re-randomised", AccessPolicy::All), ("delegated", ap.clone())] {
        for i in 0..2 {
            match try_delegate::<Real>(&w.policy, &m, &keys[0].1, &req)? {
                Ok(k) => keys.push((format!("{what} {i}"), k)),
                Err(e) => fail!("{what}: {e}"),
            }
        }
    }
    let refs: Vec<UserKey> = keys.iter().map(|k| ref_key(&k.1)).collect::<Result<_, _>>()?;
    let sh: Vec<Vec<G2Affine>> = refs.iter().map(|k| shares(k, &p)).collect::<Result<_, _>>()?;
    let mut n = 0;
    for a in 0..refs.len() {
        for (i, attr) in refs[a].msp.attrs.iter().enumerate() {
            if is_ones(&refs[a].msp.m[i]) {
                continue;
            }
            n += 1;
            ensure!(ctx, sh[a][i] != G2Affine::identity(), "{}: the share of attribute {attr} is neutral", keys[a].0);
            for b in 0..a {
                let Some(j) = refs[b].msp.row(*attr) else { continue };
                ensure!(
                    ctx,
                    sh[a][i] != sh[b][j],
                    "{} and {} have the same share for attribute {attr}: the randomness was reused",
                    keys[a].0,
                    keys[b].0
                );
            }
        }
    }
    // inside one key, and its change between keys
    let us: Vec<Vec<(usize, G2Affine)>> = refs.iter().zip(&sh).map(|(k, s)| sharing_vector(k, s)).collect();
    for (a, u) in us.iter().enumerate() {
        if refs[a].msp.cols < 2 {
            continue;
        }
        for (x, (i, g)) in u.iter().enumerate() {
            ensure!(ctx, *g != G2Affine::identity(), "{}: entry {i} of the sharing is neutral", keys[a].0);
            for (j, h) in &u[..x] {
                ensure!(ctx, g != h, "{}: entries {i} and {j} of the sharing are equal", keys[a].0);
            }
        }
        for b in 0..a {
            if refs[a].msp != refs[b].msp {
                continue;
            }
            let d: Vec<G2Affine> =
                u.iter().zip(&us[b]).map(|(x, y)| G2Affine::from(G2Projective::from(x.1) - y.1)).collect();
            for (x, g) in d.iter().enumerate() {
                ensure!(ctx, *g != G2Affine::identity(), "{} and {} share entry {x} of the sharing", keys[a].0, keys[b].0);
                // with two entries the changes are opposite; never equal
                for h in &d[..x] {
                    ensure!(ctx, g != h, "the sharings of {} and {} differ by one value at several places", keys[a].0, keys[b].0);
                }
            }
        }
    }
    ctx.nontrivial_if(n > 0);
    Ok(())
}

fn gt_key(g: &Gt) -> Vec<u8> {
    g.to_compressed().to_vec()
}

fn exponent(c: &RCt, p: &Priv) -> Result<G1Affine, Fail> {
    let t = p.t.get(c.gamma[0] as usize).ok_or("attribute outside the master key")?;
    Ok(G1Affine::from(G1Projective::from(c.e[0]) * inv(t)))
}

fn fresh_cts(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, &WorldOpts { max_slack: 1, ..Default::default() });
    let m = master::<Real>(w.max)?;
    let p = ref_priv(&m)?;
    let l = vec![w.any_attr(src)];
    let attrs = w.attributes(&l);
    let n = src.size(2, 6);
    ctx.say(format!("{} {n} ciphertexts for {}", w.describe(), names(&w, &l)));
    let msg = gen_msg::<Real>(src)?;
    let (mut exps, mut masks, mut plains, mut syms, mut nonces) = (vec![], vec![], vec![], vec![], vec![]);
    for _ in 0..n {
        let ct = encrypt::<Real>(&w.policy, &m, &attrs, &msg)?;
        let c = RCt::dec(&ser("ciphertext", &ct)?).map_err(|e| Fail::from(format!("ciphertext bytes: {e}")))?;
        exps.push(exponent(&c, &p)?.to_compressed().to_vec());
        masks.push(gt_key(&(c.ep - msg)));
        plains.push(gt_key(&secret_msg::<Real>()?));
        let len = if src.chance(1, 2) { 32 } else { src.size(16, 100) };
        let (k, enc) = no_panic("generate_symmetric_key", || {
            Engine::<Real>::new().generate_symmetric_key(&w.policy, &m.pk, &attrs, len)
        })?
        .map_err(|e| Fail::from(format!("generate_symmetric_key: {e}")))?;
        let c = RCt::dec(&enc).map_err(|e| Fail::from(format!("encapsulation bytes: {e}")))?;
        let gs = exponent(&c, &p)?;
        exps.push(gs.to_compressed().to_vec());
        let mask = pairing(&gs, &G2Affine::generator()) * p.y;
        masks.push(gt_key(&mask));
        plains.push(gt_key(&(c.ep - mask)));
        ensure!(ctx, c.ep - mask != pairing(&gs, &G2Affine::generator()), "the encapsulated element is the encryption exponent");
        syms.push(k[..16].to_vec());
        let meta = if src.chance(1, 3) { None } else { Some(Metadata { uid: vec![1, 2, 3], additional_data: None }) };
        let h = no_panic("encrypt_hybrid_header", || {
            encrypt_hybrid_header::<Real, H>(&w.policy, &m.pk, &attrs, meta.clone())
        })?
        .map_err(|e| Fail::from(format!("encrypt_hybrid_header: {e}")))?;
        syms.push(h.symmetric_key.to_bytes()[..16].to_vec());
        let hb = &h.encrypted_header_bytes;
        let el = u32::from_be_bytes(hb[..4].try_into().unwrap()) as usize;
        let c = RCt::dec(&hb[4..4 + el]).map_err(|e| Fail::from(format!("encapsulation bytes: {e}")))?;
        exps.push(exponent(&c, &p)?.to_compressed().to_vec());
        masks.push(gt_key(&(pairing(&exponent(&c, &p)?, &G2Affine::generator()) * p.y)));
        if meta.is_some() {
            nonces.push(hb[4 + el..16 + el].to_vec());
        }
    }
    ensure!(ctx, !exps.contains(&G1Affine::identity().to_compressed().to_vec()), "a ciphertext uses the exponent zero");
    ensure!(ctx, !exps.contains(&G1Affine::generator().to_compressed().to_vec()), "a ciphertext uses the exponent one");
    ensure!(ctx, !plains.contains(&gt_key(&Gt::identity())), "a random plaintext is the neutral element");
    let pubs: Vec<Vec<u8>> = ref_pub(&m)?.t.iter().map(|g| g.to_compressed().to_vec()).collect();
    ensure!(ctx, exps.iter().all(|e| !pubs.contains(e)), "a ciphertext uses a secret of the master key as its exponent");
    distinct(ctx, "encryption exponents", &exps)?;
    distinct(ctx, "masks", &masks)?;
    distinct(ctx, "random plaintexts", &plains)?;
    distinct(ctx, "symmetric keys", &syms)?;
    distinct(ctx, "header nonces", &nonces)?;
    ctx.nontrivial = true;
    Ok(())
}

fn sym(seed: u64) -> Result<SymKeyOf, Fail> {
    SymKeyOf::try_from_bytes(&Prng::new(seed).fill(32)).map_err(|e| Fail::from(format!("symmetric key: {e}")))
}

thread_local! {
    static ALL_NONCES: std::cell::RefCell<std::collections::HashSet<Vec<u8>>> = Default::default();
}

fn fresh_blocks(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = sym(src.below(1 << 32))?;
    let un = src.size(0, 40);
    let uid = src.blob(un);
    let num = src.below(5) as usize;
    let len = src.size(1, 40);
    let data = src.blob(len);
    let n = src.size(200, 400);
    let vary = src.chance(1, 3);
    ctx.say(format!("{n} blocks of {len} bytes, uid {un} bytes, number {num}{}", if vary { " and up" } else { "" }));
    let mut nonces = vec![];
    for i in 0..n {
        let b = no_panic("encrypt_hybrid_block", || {
            encrypt_hybrid_block::<Real, H, 4096>(&k, &uid, if vary { num + i } else { num }, &data)
        })?
        .map_err(|e| Fail::from(format!("encrypt_hybrid_block: {e}")))?;
        nonces.push(b[..12].to_vec());
    }
    distinct(ctx, "block nonces", &nonces)?;
    spread(ctx, "block nonces", &nonces, 0..12)?;
    // nor over all the cases of this process, whatever their keys: a collision
    // of 96-bit nonces among the at most 2^20 kept ones has probability 2^-57
    ALL_NONCES.with(|a| -> R {
        let mut a = a.borrow_mut();
        for x in nonces {
            ensure!(ctx, a.len() >= 1 << 20 || a.insert(x.clone()), "the nonce {x:02x?} was used before");
        }
        Ok(())
    })?;
    ctx.nontrivial = true;
    Ok(())
}

/// counters, pools and periods that are long
fn fresh_many(src: &mut Src, ctx: &mut Ctx) -> R {
    let k = sym(src.below(1 << 32))?;
    let kind = src.below(5);
    let threads = src.size(1, 4);
    let n = match kind {
        0..=2 => 70_000,
        _ => 1_500,
    } / threads;
    ctx.say(format!("kind {kind}, {n} on each of {threads} threads"));
    let fixed = Priv::seeded(5, 99);
    let pk = Pk::<Real>::try_from_bytes(&fixed.public().enc()).map_err(|x| Fail::from(x.to_string()))?;
    let mut policy = abe_policy::Policy::new(4);
    policy.add_axis(&abe_policy::PolicyAxis::new("A", &["x", "y"], false)).map_err(|_| Fail::from("policy"))?;
    let attrs = [abe_policy::Attribute::new("A", "x")];
    let work = |_: usize| -> Result<Vec<Vec<u8>>, String> {
        let g = Bls12_381;
        let e = |x: cosmian_abe_gpsw::error::FormatErr| x.to_string();
        let mut out = Vec::with_capacity(n);
        match kind {
            0 => {
                for _ in 0..n {
                    let b = encrypt_hybrid_block::<Real, H, 4096>(&k, b"id", 0, b"x").map_err(e)?;
                    out.push(b[..12].to_vec());
                }
            }
            1 => {
                for _ in 0..n {
                    out.push(g.gen_random_scalar().map_err(e)?.try_into_bytes().map_err(e)?);
                }
            }
            2 => {
                while out.len() < n {
                    for s in g.gen_random_scalar_vector(1 + out.len() % 700).map_err(e)? {
                        out.push(s.try_into_bytes().map_err(e)?);
                    }
                }
            }
            3 => {
                for _ in 0..n {
                    out.push(g.gen_random_msg_in_gt().map_err(e)?.try_into_bytes().map_err(e)?);
                }
            }
            _ => {
                for _ in 0..n / 3 {
                    let m = cosmian_crypto_base::symmetric_crypto::Metadata { uid: vec![1], additional_data: None };
                    let h = encrypt_hybrid_header::<Real, H>(&policy, &pk, &attrs, Some(m)).map_err(e)?;
                    out.push(h.symmetric_key.to_bytes().to_vec());
                    let l = 4 + u32::from_be_bytes(h.encrypted_header_bytes[..4].try_into().map_err(|_| "header")?) as usize;
                    out.push(h.encrypted_header_bytes.get(l..l + 12).ok_or("header")?.to_vec());
                    // the attribute's element, a fixed one to the power of the exponent
                    out.push(h.encrypted_header_bytes.get(16..64).ok_or("header")?.to_vec());
                }
            }
        }
        Ok(out)
    };
    let all: Vec<Result<Vec<Vec<u8>>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| s.spawn(move || work(t))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    let mut seen = std::collections::HashMap::new();
    for (t, r) in all.into_iter().enumerate() {
        for (i, x) in r.map_err(Fail::from)?.into_iter().enumerate() {
            if let Some((u, j)) = seen.insert(x, (t, i)) {
                fail!("number {i} of thread {t} is the same as number {j} of thread {u}");
            }
        }
    }
    ensure!(ctx, !seen.is_empty(), "nothing was generated");
    ctx.nontrivial = true;
    Ok(())
}

/// one of everything random; called from threads and processes
pub fn fresh_set(reps: usize) -> Result<Vec<Vec<u8>>, String> {
    use abe_policy::{Policy, PolicyAxis};
    let e = |m: &str| m.to_string();
    let mut policy = Policy::new(4);
    policy.add_axis(&PolicyAxis::new("A", &["x", "y"], false)).map_err(|_| e("policy"))?;
    policy.add_axis(&PolicyAxis::new("B", &["z"], false)).map_err(|_| e("policy"))?;
    let en = Engine::<Real>::new();
    // a fixed authority for everything below the master key
    let fixed = Priv::seeded(5, 99);
    let sk = Sk::<Real>::try_from_bytes(&fixed.enc()).map_err(|x| x.to_string())?;
    let pk = Pk::<Real>::try_from_bytes(&fixed.public().enc()).map_err(|x| x.to_string())?;
    let dk = Dk::<Real>::try_from_bytes(&fixed.delegation().enc()).map_err(|x| x.to_string())?;
    let ap = (AccessPolicy::new("A", "x")) & AccessPolicy::new("B", "z");
    let attrs = [abe_policy::Attribute::new("A", "x")];
    let mut out = vec![];
    let k = sym(5).map_err(|f| f.msg)?;
    for _ in 0..reps {
        let (msk, _, _) = en.generate_master_key(&policy).map_err(|x| x.to_string())?;
        let p = Priv::dec(&msk.try_into_bytes().map_err(|x| x.to_string())?)?;
        out.extend(p.t.iter().map(|t| t.to_bytes().to_vec()));
        out.push(p.y.to_bytes().to_vec());
        let uk = en.generate_user_key(&policy, &sk, &ap).map_err(|x| x.to_string())?;
        for d in UserKey::dec(&uk.try_into_bytes().map_err(|x| x.to_string())?)?.d {
            out.push(d.to_compressed().to_vec());
        }
        for req in [&AccessPolicy::All, &ap] {
            let dl = en.delegate_user_key(&policy, &dk, &uk, req).map_err(|x| x.to_string())?;
            for d in UserKey::dec(&dl.try_into_bytes().map_err(|x| x.to_string())?)?.d {
                out.push(d.to_compressed().to_vec());
            }
        }
        let msg = en.random_message().map_err(|x| x.to_string())?;
        out.push(msg.to_compressed().to_vec());
        let ct = en.encrypt(&policy, &pk, &attrs, &Gt::generator()).map_err(|x| x.to_string())?;
        let c = RCt::dec(&ct.try_into_bytes().map_err(|x| x.to_string())?)?;
        out.push(c.e[0].to_compressed().to_vec());
        out.push(c.ep.to_compressed().to_vec());
        let (s, _) = en.generate_symmetric_key(&policy, &pk, &attrs, 32).map_err(|x| x.to_string())?;
        out.push(s);
        let h = encrypt_hybrid_header::<Real, H>(&policy, &pk, &attrs, Some(Metadata { uid: vec![1], additional_data: None }))
            .map_err(|x| x.to_string())?;
        out.push(h.symmetric_key.to_bytes().to_vec());
        let hb = h.encrypted_header_bytes;
        let el = u32::from_be_bytes(hb[..4].try_into().unwrap()) as usize;
        out.push(hb[4 + el..16 + el].to_vec());
        let b = encrypt_hybrid_block::<Real, H, 64>(&k, b"id", 0, b"data").map_err(|x| x.to_string())?;
        out.push(b[..12].to_vec());
    }
    Ok(out)
}

fn fresh_threads(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(2, 8);
    let reps = src.size(1, 3);
    ctx.say(format!("{n} threads x {reps}"));
    let bar = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let b = bar.clone();
            std::thread::spawn(move || {
                b.wait();
                fresh_set(reps)
            })
        })
        .collect();
    let mut all = vec![];
    let mut bad = None;
    for h in hs {
        match h.join() {
            Ok(Ok(v)) => all.extend(v),
            Ok(Err(e)) => bad = Some(e),
            Err(_) => bad = Some(format!("a thread panicked: {}", last_panic())),
        }
    }
    if let Some(e) = bad {
        fail!("{e}");
    }
    distinct(ctx, "values drawn on several threads", &all)?;
    ctx.nontrivial = true;
    Ok(())
}

fn fresh_processes(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(2, 4);
    ctx.say(format!("{n} processes"));
    let exe = std::env::current_exe().map_err(|e| Fail::from(e.to_string()))?;
    let kids: Vec<_> = (0..n)
        .map(|_| std::process::Command::new(&exe).arg("fresh").stdout(std::process::Stdio::piped()).spawn())
        .collect();
    let mut all = fresh_set(1).map_err(Fail::from)?;
    for k in kids {
        let o = k.and_then(|k| k.wait_with_output()).map_err(|e| Fail::from(e.to_string()))?;
        let v: Vec<Vec<u8>> =
            serde_json::from_slice(&o.stdout).map_err(|e| Fail::from(format!("process output: {e} {:?}", o.status)))?;
        all.extend(v);
    }
    distinct(ctx, "values drawn in several processes", &all)?;
    ctx.nontrivial = true;
    Ok(())
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}
/// Does the operations, forks `n` times and does them again in every process;
/// prints one line of drawn values per process.
pub fn forked(n: usize) -> i32 {
    use std::io::Write;
    let print = |v: Result<Vec<Vec<u8>>, String>| match v {
        Ok(v) => {
            let line = format!("{}\n", serde_json::to_string(&v).unwrap());
            std::io::stdout().write_all(line.as_bytes()).is_ok()
        }
        Err(e) => {
            eprintln!("{e}");
            false
        }
    };
    if !print(fresh_set(1)) {
        return 1;
    }
    for _ in 0..n {
        match unsafe { fork() } {
            0 => {
                let ok = print(fresh_set(1));
                std::process::exit(!ok as i32);
            }
            p if p > 0 => {
                let mut st = 0;
                if unsafe { waitpid(p, &mut st, 0) } != p || st != 0 {
                    return 1;
                }
            }
            _ => return 1,
        }
    }
    i32::from(!print(fresh_set(1)))
}
fn fresh_forks(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(1, 3);
    ctx.say(format!("{n} children"));
    let exe = std::env::current_exe().map_err(|e| Fail::from(e.to_string()))?;
    let o = std::process::Command::new(&exe).arg("fork").arg(n.to_string()).output().map_err(|e| Fail::from(e.to_string()))?;
    if !o.status.success() {
        fail!("the operations failed in a forked process: {} {}", o.status, String::from_utf8_lossy(&o.stderr));
    }
    let mut all: Vec<Vec<u8>> = vec![];
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    for l in text.lines() {
        all.extend(serde_json::from_str::<Vec<Vec<u8>>>(l).map_err(|e| Fail::from(format!("process output: {e}")))?);
    }
    ensure!(ctx, text.lines().count() == n + 2, "process output");
    distinct(ctx, "values drawn by a process and its forked children", &all)?;
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C09

fn equations(src: &mut Src, ctx: &mut Ctx) -> R {
    // one case in 12 has a long formula
    let large = src.chance(1, 12);
    let w = if large {
        let axes: Vec<Axis> = (0..2).map(|a| Axis { name: format!("X{a}"), attrs: (0..20 + 2 * src.idx(10)).map(|i| format!("v{i}")).collect(), hier: false }).collect();
        let total: usize = axes.iter().map(|a| a.attrs.len()).sum();
        World::new(axes, total as u32 + 1)
    } else {
        gen_world(src, &WorldOpts::default())
    };
    ctx.say(w.describe());
    let m = if src.chance(1, 6) { std::rc::Rc::new(new_master::<Real>(&w.policy)?) } else { master::<Real>(w.max)? };
    let (p, pb, dl) = (ref_priv(&m)?, ref_pub(&m)?, ref_del(&m)?);
    ensure!(ctx, p.t.len() == pb.t.len() && p.t.len() == dl.inv_t.len(), "the master keys have different numbers of elements");
    ensure!(ctx, pb.y == gt(&p.y), "the public key's target element is not the image of the secret");
    let spot: Vec<usize> = if src.chance(1, 8) { (0..p.t.len()).collect() } else { (0..4).map(|_| src.idx(p.t.len())).chain([p.t.len() - 1]).collect() };
    for i in spot {
        ensure!(ctx, pb.t[i] == g1(&p.t[i]), "public element {i} is not the image of the secret");
        ensure!(ctx, dl.inv_t[i] == g2(&inv(&p.t[i])), "delegation element {i} is not the inverse image of the secret");
    }
    let t_of = |a: u32| p.t.get(a as usize).copied();
    let whole = src.chance(1, 12);
    let f = gen_formula(src, &w, if large { 70 } else { 7 });
    ctx.label_if(!whole && f.n_leaves() > 24, "more than 24 leaves");
    let t = if whole { T::Leaf(w.all_values().into_iter().collect()) } else { f.snapshot(&w) };
    ctx.say(if whole { "key ALL".to_string() } else { format!("key {}", f.describe(&w)) });
    let key = keygen::<Real>(&w.policy, &m, &if whole { AccessPolicy::All } else { f.ap(&w) })?;
    let k = ref_key(&key)?;
    let (mut have, mut want) = (k.msp.attrs.clone(), t.all_values());
    have.sort_unstable();
    want.sort_unstable();
    ensure!(ctx, have == want, "the key's rows are for {have:?}, the policy covers {want:?}");
    k.check_sharing(&p.y, &t_of).map_err(|e| Fail::from(format!("issued key: {e}")))?;
    ctx.checks += 1;
    let mut derived = vec![];
    for (what, req) in [("re-randomised", AccessPolicy::All), ("delegated", f.ap(&w))] {
        if whole && what == "delegated" || src.chance(1, 3) {
            continue;
        }
        let d = match try_delegate::<Real>(&w.policy, &m, &key, &req)? {
            Ok(d) => d,
            Err(e) => fail!("{what}: {e}"),
        };
        let r = ref_key(&d)?;
        ensure!(ctx, r.msp.attrs.len() == k.msp.attrs.len(), "{what} key has other rows");
        r.check_sharing(&p.y, &t_of).map_err(|e| Fail::from(format!("{what} key: {e}")))?;
        ctx.checks += 1;
        derived.push((what, d, r));
    }
    for _ in 0..2 {
        let l = gen_attrs(src, &w, &f, &f.snapshot(&w), if large { 80 } else { 12 });
        let msg = gen_msg::<Real>(src)?;
        if l.len() > w.max as usize {
            continue;
        }
        ctx.say(format!("ct [{}]", names(&w, &l)));
        let ct = encrypt::<Real>(&w.policy, &m, &w.attributes(&l), &msg)?;
        let c = RCt::dec(&ser("ciphertext", &ct)?).map_err(|e| Fail::from(format!("ciphertext bytes: {e}")))?;
        let gamma: Vec<u32> = l.iter().map(|a| w.current(*a)).collect();
        c.check(&msg, &gamma, &p).map_err(|e| Fail::from(format!("ciphertext: {e}")))?;
        ctx.checks += 1;
        let ok = t.eval(&gamma.iter().copied().collect());
        for (what, r) in std::iter::once(("issued", &k)).chain(derived.iter().map(|(w, _, r)| (*w, r))) {
            let got = r.decrypt(&c);
            ensure!(ctx, got.is_some() == ok, "reference decryption with the {what} key: {:?}, the policy says {ok}", got.is_some());
            if ok {
                ensure!(ctx, got.as_ref() == Some(&msg), "reference decryption with the {what} key gives another plaintext");
            }
        }
    }
    ctx.nontrivial_if(t.has_and() && !derived.is_empty());
    Ok(())
}

fn exchange(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, &WorldOpts::default());
    ctx.say(w.describe());
    // the reference's master keys
    let mut p = Priv::seeded(w.max as usize + 1, src.below(1 << 32));
    if src.chance(1, 4) {
        // special but legal secrets
        for _ in 0..3 {
            let i = src.idx(p.t.len());
            p.t[i] = gen_scalar_nz(src);
        }
        p.y = gen_scalar_nz(src);
        ctx.label("special secrets");
    }
    let m = Master::<Real> {
        sk: de("master private key", &p.enc())?,
        pk: de("master public key", &p.public().enc())?,
        dk: de("delegation key", &p.delegation().enc())?,
    };
    let t_of = |a: u32| p.t[a as usize];
    let f = gen_formula(src, &w, 7);
    let t = f.snapshot(&w);
    ctx.say(format!("key {}", f.describe(&w)));
    // the library's key, and the reference's key over the same span program
    let lib_key = keygen::<Real>(&w.policy, &m, &f.ap(&w))?;
    let lib_ref = ref_key(&lib_key)?;
    lib_ref.check_sharing(&p.y, &|a| p.t.get(a as usize).copied()).map_err(|e| Fail::from(format!("key issued by the library: {e}")))?;
    let mut u: Vec<Scalar> = (1..lib_ref.msp.cols).map(|_| gen_scalar(src)).collect();
    let s: Scalar = u.iter().sum();
    u.push(p.y - s);
    let ref_k = UserKey::generate(&lib_ref.msp, &u, &t_of);
    let mut keys = vec![("library", real_key(&lib_ref)?, lib_ref.clone()), ("reference", real_key(&ref_k)?, ref_k)];
    for i in 0..2 {
        if src.chance(1, 2) {
            let req = if src.chance(1, 2) { AccessPolicy::All } else { f.ap(&w) };
            match try_delegate::<Real>(&w.policy, &m, &keys[i].1, &req)? {
                Ok(d) => {
                    let r = ref_key(&d)?;
                    keys.push(("derived", d, r));
                }
                Err(e) => fail!("delegation: {e}"),
            }
        }
    }
    let mut opened = false;
    for _ in 0..3 {
        let l = gen_attrs(src, &w, &f, &t, 12);
        if l.len() > w.max as usize {
            continue;
        }
        let gamma: Vec<u32> = l.iter().map(|a| w.current(*a)).collect();
        let ok = t.eval(&gamma.iter().copied().collect());
        opened |= ok;
        ctx.say(format!("[{}]->{}", names(&w, &l), if ok { "open" } else { "refuse" }));
        let msg = gen_msg::<Real>(src)?;
        let lib_ct = encrypt::<Real>(&w.policy, &m, &w.attributes(&l), &msg)?;
        let lib_c = RCt::dec(&ser("ciphertext", &lib_ct)?).map_err(|e| Fail::from(format!("ciphertext bytes: {e}")))?;
        lib_c.check(&msg, &gamma, &p).map_err(|e| Fail::from(format!("ciphertext: {e}")))?;
        let ref_c = RCt::encrypt(&msg, &gamma, &gen_scalar_nz(src), &p.y, &t_of);
        let ref_ct = de::<Ct<Real>>("reference ciphertext", &ref_c.enc())?;
        for (who, k, r) in &keys {
            for (whose, ct, c) in [("library", &lib_ct, &lib_c), ("reference", &ref_ct, &ref_c)] {
                let g = decrypt::<Real>(ct, k)?;
                let h = r.decrypt(c);
                ensure!(ctx, h.is_some() == ok, "reference decryption of a {whose} ciphertext with a {who} key: wrong decision");
                if ok {
                    ensure!(ctx, g.is(&msg), "a {whose} ciphertext with a {who} key gave {}", g.word(&msg));
                    ensure!(ctx, h.as_ref() == Some(&msg), "reference decryption of a {whose} ciphertext with a {who} key gave another plaintext");
                } else {
                    ensure!(ctx, g.refused(), "a {whose} ciphertext with a {who} key gave {} though the policy refuses", g.word(&msg));
                }
            }
        }
    }
    ctx.nontrivial_if(opened && t.has_and());
    Ok(())
}

fn distinct_attrs(src: &mut Src, n: usize, bound: u64) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    while v.len() < n {
        let a = if bound > 1 << 31 && src.chance(1, 3) {
            *src.pick(&[0u32, 1, 255, 256, 65535, 65536, 1 << 24, u32::MAX - 1, u32::MAX, 1 << 31])
        } else {
            src.below(bound) as u32
        };
        // next free value (deterministic in the choice)
        let mut a = a;
        while v.contains(&a) {
            a = if bound > 1 << 31 { a.wrapping_add(1) } else { (a + 1) % bound as u32 };
        }
        v.push(a);
    }
    v
}

fn span_programs(src: &mut Src, ctx: &mut Ctx) -> R {
    let large = src.chance(1, 12);
    let rows = src.size(1, if large { 48 } else { 6 });
    let cols = src.size(1, if large { 48 } else { 5 });
    let integer = src.chance(1, 2);
    let size = if large { 80u64 } else { 40 };
    let attrs = distinct_attrs(src, rows, if integer { size } else { 1 << 32 });
    let seed = src.below(1 << 32);
    // the secret of attribute a (any 32-bit number)
    let t_of = |a: u32| {
        let s = scalar_from_seed(seed.wrapping_mul(31).wrapping_add(u64::from(a)));
        if s == Scalar::zero() { Scalar::one() } else { s }
    };
    let y = scalar_from_seed(seed ^ 0x5555);
    let ints: Vec<Vec<i32>> = (0..rows)
        .map(|_| {
            (0..cols)
                .map(|_| match src.below(8) {
                    0..=2 => 0,
                    3 => 1,
                    4 => -1,
                    5 => src.below(7) as i32 - 3,
                    6 => *src.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, 2]),
                    _ => src.below(1 << 32) as u32 as i32,
                })
                .collect()
        })
        .collect();
    let mut mx: Vec<Vec<Scalar>> = ints.iter().map(|r| r.iter().map(|x| sci(*x)).collect()).collect();
    if src.chance(1, 2) && rows > 1 {
        // aim inside the span: make one row complete the others
        let k = src.idx(rows);
        if !integer {
            let mut last = vec![Scalar::one(); cols];
            for (i, r) in mx.iter().enumerate() {
                if i != k && src.chance(2, 3) {
                    let c = gen_scalar(src);
                    for (x, y) in last.iter_mut().zip(r) {
                        *x -= *y * c;
                    }
                }
            }
            mx[k] = last;
        }
    }
    let mut ints = ints;
    if integer && src.chance(1, 2) && rows > 1 {
        let k = src.idx(rows);
        for c in 0..cols {
            let s: i64 = 1 - (0..rows).filter(|i| *i != k).map(|i| i64::from(ints[i][c])).sum::<i64>();
            if let Ok(x) = i32::try_from(s) {
                ints[k][c] = x;
            }
        }
        mx = ints.iter().map(|r| r.iter().map(|x| sci(*x)).collect()).collect();
    }
    ctx.say(format!(
        "{rows}x{cols} {} attrs {attrs:?} rows {}",
        if integer { "integer" } else { "field" },
        if integer { format!("{ints:?}") } else { mx.iter().map(|r| format!("[{}]", r.iter().map(show_scalar).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(" ") }
    ));
    let msp = Msp { attrs: attrs.clone(), cols, m: mx };
    let key = if integer {
        let mut b = be(rows).to_vec();
        b.extend(be(cols));
        for a in &attrs {
            b.extend(a.to_be_bytes());
        }
        for r in &ints {
            for x in r {
                b.extend(x.to_be_bytes());
            }
        }
        let im = de::<MonotoneSpanProgram<i32>>("integer span program", &b)?;
        let p = Priv { t: (0..size as u32).map(t_of).collect(), y };
        let sk = de::<Sk<Real>>("master private key", &p.enc())?;
        let k = no_panic("key_generation", || AbeScheme::key_generation(&Real::default(), &im, &sk))?
            .map_err(|e| Fail::from(format!("key_generation: {e}")))?;
        let r = ref_key(&k)?;
        ensure!(ctx, r.msp == msp, "the key holds another span program than the one given");
        r.check_sharing(&y, &|a| Some(t_of(a))).map_err(|e| Fail::from(format!("issued key: {e}")))?;
        k
    } else {
        let mut u: Vec<Scalar> = (1..cols).map(|_| gen_scalar(src)).collect();
        let s: Scalar = u.iter().sum();
        u.push(y - s);
        real_key(&UserKey::generate(&msp, &u, &t_of))?
    };
    let rkey = ref_key(&key)?;
    let mut seen = (false, false);
    for _ in 0..3 {
        let mut gamma: Vec<u32> = match src.below(3) {
            0 => attrs.clone(),
            1 => attrs.iter().copied().filter(|_| src.chance(2, 3)).collect(),
            _ => (0..src.size(1, 4)).map(|_| *src.pick(&attrs)).collect(),
        };
        if src.chance(1, 3) || gamma.is_empty() {
            gamma.push(src.below(1 << 32) as u32);
        }
        let pm = src.perm(gamma.len());
        let gamma: Vec<u32> = pm.into_iter().map(|i| gamma[i]).collect();
        let ok = msp.accepts(&gamma);
        let msg = gen_msg::<Real>(src)?;
        let c = RCt::encrypt(&msg, &gamma, &gen_scalar_nz(src), &y, &t_of);
        let ct = de::<Ct<Real>>("reference ciphertext", &c.enc())?;
        ctx.say(format!("{gamma:?}->{}", if ok { "open" } else { "refuse" }));
        let g = decrypt::<Real>(&ct, &key)?;
        if ok {
            ensure!(ctx, g.is(&msg), "rows spanning the target gave {}", g.word(&msg));
            ensure!(ctx, rkey.decrypt(&c).as_ref() == Some(&msg), "reference decryption gave another plaintext");
            seen.0 = true;
        } else {
            ensure!(ctx, g.refused(), "rows not spanning the target gave {}", g.word(&msg));
            seen.1 = true;
        }
    }
    ctx.label_if(seen.0, "opened");
    ctx.label_if(seen.1, "refused");
    ctx.label_if(cols > 24, "more than 24 columns");
    ctx.label_if(cols > 24 && seen.0, "more than 24 columns, opened");
    ctx.nontrivial_if(rows > 1 && cols > 1);
    let _ = Node::Leaf(0);
    Ok(())
}

// ------------------------------------------------------------------ C15

fn encapsulate(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, &WorldOpts::default());
    ctx.say(w.describe());
    let m = master::<Real>(w.max)?;
    let p = ref_priv(&m)?;
    let f = gen_formula(src, &w, 6);
    let t = f.snapshot(&w);
    ctx.say(format!("key {}", f.describe(&w)));
    let key = keygen::<Real>(&w.policy, &m, &f.ap(&w))?;
    let key = if src.chance(1, 3) { real_key(&ref_key(&key)?)? } else { key };
    let (mut yes, mut no) = (false, false);
    for _ in 0..3 {
        let l = gen_attrs(src, &w, &f, &t, 12);
        if l.len() > w.max as usize {
            continue;
        }
        let len = match src.below(6) {
            0 => 32,
            1 => 0,
            2 => 1,
            3 => src.size(130, 140), // around the rate of the hash
            4 => src.size(1, 64),
            _ => if src.chance(1, 6) { src.size(65_000, 300_000) } else { src.size(200, 3000) },
        };
        let ok = t.eval(&w.gamma(&l));
        ctx.say(format!("[{}] {len} bytes ->{}", names(&w, &l), if ok { "open" } else { "refuse" }));
        let en = Engine::<Real>::new();
        let (k, enc) = no_panic("generate_symmetric_key", || en.generate_symmetric_key(&w.policy, &m.pk, &w.attributes(&l), len))?
            .map_err(|e| Fail::from(format!("generate_symmetric_key: {e}")))?;
        ensure!(ctx, k.len() == len, "asked for {len} bytes, got {}", k.len());
        let c = RCt::dec(&enc).map_err(|e| Fail::from(format!("encapsulation bytes: {e}")))?;
        let gs = exponent(&c, &p)?;
        let el = c.ep - pairing(&gs, &G2Affine::generator()) * p.y;
        let gamma: Vec<u32> = l.iter().map(|a| w.current(*a)).collect();
        c.check(&el, &gamma, &p).map_err(|e| Fail::from(format!("encapsulation: {e}")))?;
        let long = shake(&el.to_compressed(), len + 50);
        ensure!(ctx, k == long[..len], "the symmetric key is not the hash of the encapsulated element");
        for n in [len, len / 2, len + 50, 32] {
            let r = no_panic("decrypt_symmetric_key", || en.decrypt_symmetric_key(&key, &enc, n))?;
            if ok {
                let r = r.map_err(|e| Fail::from(format!("decrypt_symmetric_key: {e}")))?;
                ensure!(ctx, r == shake(&el.to_compressed(), n), "recovered key of {n} bytes differs (encapsulated with {len})");
            } else {
                ensure!(ctx, r.is_err(), "a key whose policy is not satisfied recovered a symmetric key");
            }
        }
        yes |= ok;
        no |= !ok;
    }
    ctx.label_if(yes, "recovered");
    ctx.label_if(no, "refused");
    ctx.nontrivial_if(yes && no);
    Ok(())
}

// ------------------------------------------------------------------ C28

type LibScalar = <Bls12_381 as BilinearMap>::Scalar;
fn lib(s: &Scalar) -> Result<LibScalar, Fail> {
    de::<LibScalar>("scalar", &s.to_bytes())
}

fn laws(src: &mut Src, ctx: &mut Ctx) -> R {
    let g = Bls12_381;
    let (a, b, c) = (gen_scalar(src), gen_scalar(src), gen_scalar(src));
    ctx.say(format!("a={} b={} c={}", show_scalar(&a), show_scalar(&b), show_scalar(&c)));
    let small = sc(1000);
    ctx.nontrivial_if([a, b, c].iter().all(|x| *x != Scalar::zero() && *x != Scalar::one() && *x != small));
    let (la, lb) = (lib(&a)?, lib(&b)?);
    // field
    let back = |x: &LibScalar| ser("scalar", x);
    ensure!(ctx, back(&(la.clone() + &lb))? == (a + b).to_bytes(), "scalar addition");
    ensure!(ctx, back(&(la.clone() - &lb))? == (a - b).to_bytes(), "scalar subtraction");
    ensure!(ctx, back(&(la.clone() * &lb))? == (a * b).to_bytes(), "scalar multiplication");
    ensure!(ctx, back(&(-la.clone()))? == (-a).to_bytes(), "scalar negation");
    ensure!(ctx, (la == lb) == (a == b), "scalar equality");
    if b != Scalar::zero() {
        ensure!(ctx, back(&(la.clone() / &lb))? == (a * inv(&b)).to_bytes(), "scalar division");
    }
    let i = match src.below(3) {
        0 => *src.pick(&[0i32, 1, -1, i32::MIN, i32::MAX, i32::MIN + 1]),
        _ => src.below(1 << 32) as u32 as i32,
    };
    ensure!(ctx, back(&LibScalar::from(i))? == sci(i).to_bytes(), "scalar from integer {i}");
    ensure!(ctx, back(&Bls12_381::ZERO)? == Scalar::zero().to_bytes() && back(&Bls12_381::ONE)? == Scalar::one().to_bytes(), "constants");
    // groups against exponents
    let (ga, gb) = (g.g2_gen_exp(&la), g.g2_gen_exp(&lb));
    ensure!(ctx, ga == g1(&a), "g2_gen_exp");
    ensure!(ctx, g.g2_exp(&ga, &lb) == g1(&(a * b)), "g2_exp");
    let (p1, h) = g.g1_gen_exp(&la);
    ensure!(ctx, h == g2(&a) && g.g3_gen_exp(&la) == h, "g1_gen_exp / g3_gen_exp");
    let hb = g.g3_gen_exp(&lb);
    let (psum, hsum) = g.g3_mul(&h, &hb);
    ensure!(ctx, hsum == g2(&(a + b)), "g3_mul");
    ensure!(ctx, g.g3_exp(&h, &lb) == g2(&(a * b)), "g3_exp");
    let ta = g.gt_gen_exp(&la);
    ensure!(ctx, ta == gt(&a), "gt_gen_exp");
    let tb = g.gt_gen_exp(&lb);
    ensure!(ctx, g.gt_exp(&ta, &lb) == gt(&(a * b)), "gt_exp");
    ensure!(ctx, g.gt_mul(&ta, &tb) == gt(&(a + b)), "gt_mul");
    ensure!(ctx, g.gt_div(&ta, &tb) == gt(&(a - b)), "gt_div");
    let vs = [la.clone(), lb.clone()];
    ensure!(ctx, g.g2_gen_exp_vector(&vs) == vec![g1(&a), g1(&b)], "g2_gen_exp_vector");
    ensure!(ctx, g.g3_gen_exp_vector(&vs) == vec![g2(&a), g2(&b)], "g3_gen_exp_vector");
    // pairing products
    let n = if src.chance(1, 12) { src.size(6, 80) } else { src.size(0, 5) };
    let (mut d, mut e, mut al, mut sum) = (vec![], vec![], vec![], Scalar::zero());
    for _ in 0..n {
        let (x, y, z) = (gen_scalar(src), gen_scalar(src), gen_scalar(src));
        let q = match src.below(3) {
            0 => g.g1_gen_exp(&lib(&x)?).0,
            1 => Bls12_381::g3_to_g1(&g2(&x)),
            _ => g.g3_mul(&g2(&(x - a)), &g2(&a)).0,
        };
        d.push(q);
        e.push(g1(&y));
        al.push(lib(&z)?);
        sum += x * y * z;
    }
    ctx.say(format!("product of {n}"));
    let dr: Vec<_> = d.iter().collect();
    let er: Vec<_> = e.iter().collect();
    let ar: Vec<_> = al.iter().collect();
    ensure!(ctx, g.prod_gt_exp(&dr, &er, &ar) == gt(&sum), "product of {n} pairings");
    let one = Bls12_381::ONE;
    ensure!(ctx, g.prod_gt_exp(&[&p1], &[&gb], &[&lib(&c)?]) == gt(&(a * b * c)), "pairing of two powers");
    ensure!(ctx, g.prod_gt_exp(&[&psum], &[&gb], &[&one]) == gt(&((a + b) * b)), "pairing of a product");
    Ok(())
}

fn messages(src: &mut Src, ctx: &mut Ctx) -> R {
    let r: [u8; 32] = { let mut x = (-Scalar::one()).to_bytes(); x[0] += 1; x }; // the order (little endian, odd)
    let len = match src.below(5) {
        0 => src.size(0, 4),
        1 => src.size(30, 34),
        2 => 32,
        3 => src.size(33, 70),
        _ => src.size(0, 32),
    };
    let mut m = match src.below(3) {
        0 => { let mut v = r.to_vec(); v.resize(len, 0); v }
        _ => src.blob(len),
    };
    if len == 32 {
        match src.below(9) {
            0 => { m = r.to_vec(); m[0] = m[0].wrapping_sub(1) }
            1 => { m = r.to_vec() }
            2 => { m = r.to_vec(); let i = src.idx(32); m[i] = m[i].wrapping_add(1) }
            3 => { m = r.to_vec(); let i = src.idx(32); m[i] = m[i].wrapping_sub(1) }
            4 => m[31] &= 0x7f,
            5 => m[31] = 0x73,
            // far above the order, with low bits that would be acceptable
            6 => m[31] = (m[31] & 0x3f) | *src.pick(&[0x40, 0x80, 0xc0]),
            7 => { // a small number plus the order
                let mut c = 0;
                for i in 0..32 {
                    let t = r[i] as u16 + if i < 31 { m[i] as u16 } else { (m[i] & 7) as u16 } + c;
                    m[i] = t as u8;
                    c = t >> 8;
                }
            }
            _ => {}
        }
    }
    if src.chance(1, 4) && len > 2 {
        let z = src.size(1, len - 1);
        let l = m.len();
        m[l - z..].iter_mut().for_each(|b| *b = 0);
    }
    ctx.say(format!("{} bytes {}", m.len(), m.iter().map(|b| format!("{b:02x}")).collect::<String>()));
    let mut p = m.clone();
    p.resize(p.len().max(32), 0);
    let ok = m.len() <= 32 && {
        // little endian comparison with the order
        p.iter().rev().cmp(r.iter().rev()) == std::cmp::Ordering::Less
    };
    let enc = |b: &[u8]| no_panic("msg_encode", || AbeScheme::msg_encode(&Real::default(), b));
    let got = enc(&m)?;
    ensure!(ctx, got.is_ok() == ok, "message of {} bytes: {}, expected {}", m.len(), if got.is_ok() { "accepted" } else { "refused" }, if ok { "acceptance" } else { "a refusal" });
    let g = no_panic("msg_to_scalar", || Bls12_381.msg_to_scalar(&m))?;
    ensure!(ctx, g.is_ok() == ok, "msg_to_scalar decides differently");
    if let Ok(e) = got {
        let b: [u8; 32] = p[..32].try_into().unwrap();
        let s = Option::<Scalar>::from(Scalar::from_bytes(&b)).ok_or("reference scalar")?;
        ensure!(ctx, e == gt(&s), "the encoding is not the power of the generator by the message");
        ensure!(ctx, enc(&m)?.ok().as_ref() == Some(&e), "the encoding is not deterministic");
        if m.len() < 32 {
            let mut q = m.clone();
            q.push(0);
            ensure!(ctx, enc(&q)?.ok().as_ref() == Some(&e), "a trailing zero byte changes the encoding");
        }
        if !m.is_empty() {
            let mut q = m.clone();
            let i = src.idx(q.len());
            q[i] ^= 1 << src.below(6);
            if q != m {
                if let Ok(x) = enc(&q)? {
                    ensure!(ctx, x != e, "two messages have the same encoding");
                }
            }
        }
    }
    ctx.label(if ok { "accepted" } else { "refused" });
    ctx.nontrivial_if(m.len() >= 31);
    Ok(())
}
