//! C20 C21 C22 C23 C24: the C interface.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
    sync::{mpsc, Arc, Barrier},
};

use abe_policy::{AccessPolicy, Attribute, Policy};
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{
    decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header,
};
use cosmian_crypto_base::{symmetric_crypto::Metadata, KeyTrait};
use serde::Serialize;

use crate::{
    api::*,
    c_abi::{self as c, By, In, Out, With},
    ensure, fail,
    hyb::{self, H},
    model::*,
    pbt::*,
    props_bytes::{mutate, odd_u32, pool},
    props_core::names,
    sched::Sched,
};

macro_rules! one {
    ($v:ident, $prop:expr, $id:literal, $name:literal, $rule:expr, $f:expr, $q:expr, $t:expr) => {
        if $prop == $id {
            $v.push(Sub { name: $name, rule: $rule, quick: $q, thorough: $t, run: $f });
        }
    };
}

pub fn subs(p: &str) -> Vec<Sub> {
    let mut v = vec![];
    one!(v, p, "C20", "interop", "histories over a random policy mixing C and native calls on the same serialized objects: master keys, rotations (lists, beyond capacity), user keys, headers (cached or not), blocks; every key of either side tries every header of either side. Non-trivial: a header of each side was opened by a key of the other side and one was refused.",
        interop, 260, 8000);
    one!(v, p, "C20", "same_refusals", "requests of which one ingredient is wrong (unknown attribute, nested All, repeated leaf, too many attributes, foreign or damaged keys and headers, wrong sizes): the C call succeeds exactly when the native call on the same bytes does. Non-trivial: both refused.",
        same_refusals, 900, 25000);
    one!(v, p, "C20", "rotations", "a pool of policies grown from one by 4-16 rotations of 1-3 attributes (some unknown, some beyond the capacity), each of any policy of the pool, so that many of them differ in the place of one value: each is done natively and over C with the same result. Non-trivial: at least two policies of the pool that hold the same number of values were rotated.",
        ffi_rotations, 4000, 150_000);
    one!(v, p, "C20", "alike", "6-16 calls over C (keys, headers, with or without a cache, blocks), most of them an earlier one with one argument replaced by a similar one (one byte, one leaf, one rotation, other key of the same size): each gives what the native operation gives. Non-trivial: two calls that differ in one argument and in the result.",
        crate::props_more::c_alike, 300, 10_000);
    one!(v, p, "C20", "blocks", "block encryption and decryption across both interfaces: lengths, ids, numbers up to 2^31-1, wrong contexts, damaged blocks. Non-trivial: at least 2 bytes.",
        ffi_blocks, 6000, 200_000);
    one!(v, p, "C21", "keys", "master keys, user keys and rotation with declared sizes around the required one; guard zones around the buffers. Non-trivial: at least one call failed for the size and the retry succeeded.",
        buf_keys, 500, 15000);
    one!(v, p, "C21", "headers", "header encryption and decryption, cached or not, with 1-3 outputs of independent sizes, optional outputs omitted, retried with the reported sizes. Non-trivial: at least one retry.",
        buf_headers, 900, 25000);
    one!(v, p, "C21", "blocks", "block encryption and decryption and the error channel with every declared size up to more than needed. Non-trivial: at least one size too small and one large enough.",
        buf_blocks, 2500, 80_000);
    one!(v, p, "C21", "no_buffer", "calls of every function with one output that is null or declared with zero or negative size: without a mandatory output the call fails with a message, an optional one is left alone, nothing is written outside the buffers and the same call with all buffers works. Non-trivial: a mandatory output was missing.",
        no_buffer, 900, 25000);
    one!(v, p, "C22", "history", "one thread: 4-30 operations (create from valid or damaged material, use, destroy, destroy again, use of destroyed, unknown and other-kind handles) against a model of both handle tables. Non-trivial: at least 2 caches alive at once and a use after another one was destroyed.",
        cache_history, 400, 12000);
    one!(v, p, "C22", "across_threads", "the same histories with each operation on one of 2-4 threads, one at a time in the generated order. Non-trivial: a cache created on one thread was used or destroyed on another.",
        cache_across, 300, 9000);
    one!(v, p, "C22", "concurrent", "2-8 threads run their own histories freely at the same time, sharing two permanent caches and victims that one thread destroys while the others use them. Non-trivial: at least 3 threads and 2 victims.",
        cache_concurrent, 240, 6000);
    one!(v, p, "C22", "scheduled", "2-4 threads run 1-5 operations each, as in concurrent, one thread at a time: before each access to a static of the library the thread stops and the generated schedule decides who goes on. Non-trivial: at least 3 threads and 2 victims.",
        cache_scheduled, 320, 12000);
    one!(v, p, "C22", "creations", "up to 8 threads create and destroy many caches as fast as they can: all handles distinct, each answers with its own key. Non-trivial: at least 100 creations.",
        cache_creations, 60, 1500);
    one!(v, p, "C22", "same_instant", "8 threads released at the same instant, again and again, to create (and some to destroy) a cache each: all handles distinct, all caches alive and answering with their own key. One case runs at a time so that the threads have the processors. Non-trivial: at least 20 rounds.",
        cache_race, 40, 1500);
    one!(v, p, "C22", "present", "caches created before stay known at every instant while other threads create and destroy caches as fast as they can: the cheapest call that uses a cache is repeated against them, with some complete encryptions and decryptions, and never gives the error of an unknown handle. Non-trivial: at least 1000 such calls and 20 creations.",
        cache_present, 24, 800);
    one!(v, p, "C22", "bulk", "more than 4200 caches of the smallest material created by 8 threads as fast as they can, nearly all destroyed at once: handles never repeat, every destruction of a live cache succeeds and the first, last and some other caches still answer with their own material. Non-trivial: always.",
        cache_bulk, 3, 100);
    one!(v, p, "C22", "long_run", "the same with 66 000 caches. Non-trivial: always.",
        cache_long, 0, 4);
    one!(v, p, "C23", "schedule", "1-4 threads driven step by step through a generated schedule of failing calls, succeeding calls, explicit messages and reads of every buffer size, against a per-thread model. Non-trivial: at least 2 reads of pending messages.",
        err_schedule, 24_000, 600_000);
    one!(v, p, "C23", "concurrent", "2-8 threads set and read their own messages at the same time. Non-trivial: at least 3 threads.",
        err_concurrent, 400, 12000);
    one!(v, p, "C24", "calls", "1-4 calls with one to three arguments damaged (structured and byte-level mutations of valid ones, other valid objects, random bytes, null, empty), then a normal encryption and decryption. Non-trivial: a call failed.",
        malformed, 2500, 80_000);
    one!(v, p, "C24", "sizes", "calls of every function with a valid input for which zero or a negative size is declared: an error for a key, a header or data; never a crash. Then a normal encryption and decryption. Non-trivial: the call failed.",
        odd_sizes, 900, 25000);
    one!(v, p, "C24", "policies", "structural mutations of policy, access policy and attribute JSON, used for every function that takes them. Non-trivial: the mutated JSON still parses.",
        malformed_policies, 1500, 50_000);
    v
}

// ------------------------------------------------------------------ helpers

pub fn js<T: Serialize>(t: &T) -> Vec<u8> {
    serde_json::to_vec(t).expect("json")
}
pub fn pol(p: &Policy) -> Vec<u8> {
    serde_json::to_vec(p).expect("json")
}
fn call_err(what: &str, rc: i32) -> Fail {
    Fail::from(format!("{what} failed ({rc}): {}", c::take_err()))
}
fn intact(ctx: &mut Ctx, what: &str, os: &[&Out]) -> R {
    for o in os {
        ensure!(ctx, o.intact(), "{what} wrote outside its output buffer");
    }
    Ok(())
}
const BIG: usize = 16 << 10;

fn c_user_key(ctx: &mut Ctx, msk: &[u8], ap: &AccessPolicy, policy: &[u8]) -> Result<Result<Vec<u8>, String>, Fail> {
    let mut o = Out::new(64 << 10);
    let rc = c::user_key(&mut o, Some(msk), Some(&js(ap)), Some(policy));
    intact(ctx, "h_generate_user_private_key", &[&o])?;
    Ok(if rc == 0 { Ok(o.bytes().to_vec()) } else { Err(c::take_err()) })
}
pub type Hd = (Vec<u8>, Vec<u8>);
fn c_enc(ctx: &mut Ctx, with: With, attrs: &[Attribute], uid: In, ad: In) -> Result<Result<Hd, String>, Fail> {
    let mut k = Out::new(64);
    let mut h = Out::new(BIG + uid.map_or(0, <[u8]>::len) + ad.map_or(0, <[u8]>::len));
    let rc = c::enc_header(&mut k, &mut h, with, Some(&js(&attrs)), uid, ad);
    intact(ctx, "header encryption", &[&k, &h])?;
    Ok(if rc == 0 { Ok((k.bytes().to_vec(), h.bytes().to_vec())) } else { Err(c::take_err()) })
}
type Opened = (Vec<u8>, Option<Vec<u8>>, Option<Vec<u8>>);
/// symmetric key, id if wanted, additional data if wanted
fn c_dec(ctx: &mut Ctx, by: By, header: &[u8], want_uid: bool, want_ad: bool) -> Result<Result<Opened, String>, Fail> {
    let mut k = Out::new(32);
    let n = header.len() + 16;
    let mut u = if want_uid { Out::new(n) } else { Out::null(7) };
    let mut a = if want_ad { Out::new(n) } else { Out::null(9) };
    let rc = c::dec_header(&mut k, &mut u, &mut a, Some(header), by);
    intact(ctx, "header decryption", &[&k, &u, &a])?;
    Ok(if rc == 0 {
        Ok((k.bytes().to_vec(), want_uid.then(|| u.bytes().to_vec()), want_ad.then(|| a.bytes().to_vec())))
    } else {
        Err(c::take_err())
    })
}
/// what a caller of the C interface sees of this metadata
fn seen(m: &Metadata) -> (Vec<u8>, Vec<u8>) {
    (m.uid.clone(), m.additional_data.clone().unwrap_or_default())
}
pub fn native_enc(p: &Policy, pk: &Pk<Real>, a: &[Attribute], m: Metadata) -> Result<Result<Hd, String>, Fail> {
    Ok(no_panic("encrypt_hybrid_header", || encrypt_hybrid_header::<Real, H>(p, pk, a, Some(m)))?
        .map(|h| (h.symmetric_key.to_bytes().to_vec(), h.encrypted_header_bytes))
        .map_err(|e| e.to_string()))
}
fn native_dec(k: &Uk<Real>, h: &[u8]) -> Result<Result<(Vec<u8>, Metadata), String>, Fail> {
    Ok(no_panic("decrypt_hybrid_header", || decrypt_hybrid_header::<Real, H>(k, h))?
        .map(|h| (h.symmetric_key.to_bytes().to_vec(), h.meta_data))
        .map_err(|e| e.to_string()))
}
fn plain_world() -> WorldOpts {
    WorldOpts { plain_names: true, max_axes: 3, max_attrs: 4, max_slack: 3, max_rotations: 2 }
}
fn opt(b: &[u8]) -> In<'_> {
    if b.is_empty() {
        None
    } else {
        Some(b)
    }
}

// ------------------------------------------------------------------ C20

struct Holder {
    tree: T,
    bytes: Vec<u8>,
    native: Uk<Real>,
    by_c: bool,
}
struct Sent {
    gamma: BTreeSet<u32>,
    key: Vec<u8>,
    bytes: Vec<u8>,
    meta: Metadata,
    by_c: bool,
}

fn interop(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = gen_world(src, &plain_world());
    w.max += 2;
    w.policy.max_attribute_creations += 2;
    ctx.say(w.describe());
    // the C side only ever sees this text
    let mut text = pol(&w.policy);
    let (skb, pkb) = if src.chance(1, 3) {
        let mut o = Out::new(64 << 10);
        let rc = c::master_keys(&mut o, Some(&text));
        intact(ctx, "h_generate_master_keys", &[&o])?;
        if rc != 0 {
            return Err(call_err("h_generate_master_keys", rc));
        }
        ctx.say("C master keys");
        let b = o.bytes();
        let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        (b[4..4 + n].to_vec(), b[4 + n..].to_vec())
    } else {
        let m = master::<Real>(w.max)?;
        (ser("sk", &m.sk)?, ser("pk", &m.pk)?)
    };
    let sk = de::<Sk<Real>>("master private key made by the C interface", &skb)?;
    let pk = de::<Pk<Real>>("master public key made by the C interface", &pkb)?;
    ensure!(ctx, ser("sk", &sk)? == skb && ser("pk", &pk)? == pkb, "master keys of the C interface have another length");
    let (mut enc_cache, mut dec_caches): (Option<i32>, Vec<(usize, i32)>) = (None, vec![]);
    let mut users: Vec<Holder> = vec![];
    let mut sent: Vec<Sent> = vec![];
    let (mut c_to_n, mut n_to_c, mut no) = (false, false, false);
    let steps = src.size(5, 10);
    for step in 0..steps {
        let op = if step == 0 { 0 } else if step == 1 { 2 } else { src.below(7) };
        match op {
            0 | 1 => {
                let f = gen_formula(src, &w, 4);
                let all = src.chance(1, 8);
                let (tree, ap) = if all {
                    (T::Leaf(w.all_values().into_iter().collect()), AccessPolicy::All)
                } else {
                    (f.snapshot(&w), f.ap(&w))
                };
                let by_c = src.chance(2, 3);
                ctx.say(format!("{} key {}", if by_c { "C" } else { "native" }, if all { "All".into() } else { f.describe(&w) }));
                let bytes = if by_c {
                    c_user_key(ctx, &skb, &ap, &text)?.map_err(|e| Fail::from(format!("h_generate_user_private_key: {e}")))?
                } else {
                    let k = no_panic("generate_user_key", || Engine::<Real>::new().generate_user_key(&w.policy, &sk, &ap))?
                        .map_err(|e| Fail::from(format!("generate_user_key: {e}")))?;
                    ser("user key", &k)?
                };
                let native = de::<Uk<Real>>("user key", &bytes)?;
                ensure!(ctx, ser("user key", &native)? == bytes, "a user key of the C interface has another length");
                users.push(Holder { tree, bytes, native, by_c });
            }
            2 | 3 => {
                let l = match users.last() {
                    Some(u) if src.chance(3, 4) => {
                        // near the last key's formula: some of its values, still current
                        let v: Vec<At> = w.attrs().into_iter().filter(|a| u.tree.all_values().contains(&w.current(*a))).collect();
                        let mut l: Vec<At> = v.into_iter().filter(|_| src.chance(2, 3)).collect();
                        if l.is_empty() {
                            l.push(w.any_attr(src));
                        }
                        l
                    }
                    _ => {
                        let a = w.any_attr(src);
                        vec![a, w.any_attr(src)]
                    }
                };
                let attrs = w.attributes(&l);
                let meta = hyb::gen_meta(src).map_or_else(Metadata::default, |m| hyb::expected(&Some(m)));
                let ad = meta.additional_data.clone().unwrap_or_default();
                let how = src.below(3);
                ctx.say(format!("{} header [{}]", ["C", "C cached", "native"][how as usize], names(&w, &l)));
                let r = match how {
                    0 => c_enc(ctx, With::Direct(Some(&text), Some(&pkb)), &attrs, opt(&meta.uid), opt(&ad))?,
                    1 => {
                        let h = match enc_cache {
                            Some(h) => h,
                            None => {
                                let (rc, h) = c::create_enc(Some(&text), Some(&pkb));
                                if rc != 0 {
                                    return Err(call_err("h_aes_create_encryption_cache", rc));
                                }
                                enc_cache = Some(h);
                                h
                            }
                        };
                        c_enc(ctx, With::Cache(h), &attrs, opt(&meta.uid), opt(&ad))?
                    }
                    _ => native_enc(&w.policy, &pk, &attrs, meta.clone())?,
                };
                let (key, bytes) = r.map_err(|e| Fail::from(format!("header encryption: {e}")))?;
                ensure!(ctx, key.len() == 32, "symmetric key of {} bytes", key.len());
                sent.push(Sent { gamma: w.gamma(&l), key, bytes, meta, by_c: how < 2 });
            }
            4 => {
                let n = src.size(1, 3);
                let l: Vec<At> = (0..n).map(|_| w.any_attr(src)).collect();
                let fits = w.last + n as u32 <= w.max;
                ctx.say(format!("C rotate [{}]{}", names(&w, &l), if fits { "" } else { " (too many)" }));
                let mut o = Out::new(64 << 10);
                let rc = c::rotate(&mut o, Some(&js(&w.attributes(&l))), Some(&text));
                intact(ctx, "h_rotate_attributes", &[&o])?;
                if fits {
                    if rc != 0 {
                        return Err(call_err("h_rotate_attributes", rc));
                    }
                    for at in &l {
                        w.rotate(*at);
                    }
                    text = o.bytes().to_vec();
                    let got: Policy = serde_json::from_slice(&text).map_err(|e| Fail::from(format!("rotated policy: {e}")))?;
                    for at in w.attrs() {
                        let mut v = got.attribute_values(&w.attribute(at)).map_err(|e| Fail::from(format!("rotated policy: {e}")))?;
                        v.sort_unstable();
                        ensure!(ctx, v == w.vals[at.0][at.1], "rotated policy: {} has values {v:?}, expected {:?}", w.at_name(at), w.vals[at.0][at.1]);
                    }
                    ensure!(ctx, got.max_attribute_creations == w.max, "rotated policy: other capacity");
                    if let Some(h) = enc_cache.take() {
                        c::destroy_enc(h);
                    }
                } else {
                    ensure!(ctx, rc != 0, "rotation beyond the capacity succeeded");
                    c::take_err();
                }
            }
            _ => {}
        }
        // everybody tries one header (the last one mostly)
        if users.is_empty() || sent.is_empty() {
            continue;
        }
        let si = if src.chance(1, 3) { src.idx(sent.len()) } else { sent.len() - 1 };
        let s = &sent[si];
        for (ui, u) in users.iter().enumerate() {
            if ui + 1 < users.len() && src.chance(1, 2) {
                continue;
            }
            let ok = u.tree.eval(&s.gamma);
            let how = src.below(3);
            let (wu, wa) = (src.chance(3, 4), src.chance(3, 4));
            let r = match how {
                0 => c_dec(ctx, By::Key(Some(&u.bytes)), &s.bytes, wu, wa)?,
                1 => {
                    let h = match dec_caches.iter().find(|(i, _)| *i == ui) {
                        Some((_, h)) => *h,
                        None => {
                            let (rc, h) = c::create_dec(Some(&u.bytes));
                            if rc != 0 {
                                return Err(call_err("h_aes_create_decryption_cache", rc));
                            }
                            dec_caches.push((ui, h));
                            h
                        }
                    };
                    c_dec(ctx, By::Cache(h), &s.bytes, wu, wa)?
                }
                _ => native_dec(&u.native, &s.bytes)?.map(|(k, m)| {
                    let (a, b) = seen(&m);
                    (k, wu.then_some(a), wa.then_some(b))
                }),
            };
            let what = format!(
                "{} decrypting a {} header with a {} key",
                ["C", "C cached", "native"][how as usize],
                if s.by_c { "C" } else { "native" },
                if u.by_c { "C" } else { "native" }
            );
            match r {
                Ok((k, uid, ad)) => {
                    ensure!(ctx, ok, "{what}: opened without authorisation");
                    ensure!(ctx, k == s.key, "{what}: another symmetric key");
                    let (eu, ea) = seen(&s.meta);
                    ensure!(ctx, uid.as_ref().map_or(true, |x| *x == eu), "{what}: id {uid:?}");
                    ensure!(ctx, ad.as_ref().map_or(true, |x| *x == ea), "{what}: additional data of {:?} bytes, expected {}", ad.map(|a| a.len()), ea.len());
                    c_to_n |= s.by_c && how == 2;
                    n_to_c |= !s.by_c && how < 2 || (!u.by_c && how < 2);
                }
                Err(e) => {
                    ensure!(ctx, !ok, "{what}: refused although authorised: {e}");
                    no = true;
                }
            }
        }
    }
    if let Some(h) = enc_cache {
        c::destroy_enc(h);
    }
    for (_, h) in dec_caches {
        c::destroy_dec(h);
    }
    ctx.label_if(c_to_n, "C header opened natively");
    ctx.label_if(n_to_c, "native object used by C");
    ctx.label_if(no, "refused");
    ctx.nontrivial_if((c_to_n || n_to_c) && no);
    Ok(())
}

/// Damaged or inconsistent requests: C and native must agree.
fn same_refusals(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let text = pol(&p.policy);
    let (skb, pkb) = (ser("sk", &p.m.sk)?, ser("pk", &p.m.pk)?);
    let at = |a: &str, b: &str| AccessPolicy::new(a, b);
    let and = |a: AccessPolicy, b: AccessPolicy| AccessPolicy::And(Box::new(a), Box::new(b));
    let or = |a: AccessPolicy, b: AccessPolicy| AccessPolicy::Or(Box::new(a), Box::new(b));
    let mut both_refused = false;
    match src.below(4) {
        0 => {
            // user keys
            let ap = match src.below(9) {
                0 => at("S", "nope"),
                1 => at("nope", "a"),
                2 => and(at("D", "x"), AccessPolicy::All),
                3 => or(AccessPolicy::All, at("D", "x")),
                4 => and(at("D", "x"), at("D", "x")),
                5 => or(at("S", "a"), at("S", "c")),
                6 => AccessPolicy::All,
                7 => and(at("D", "y"), or(at("D", "x"), at("D", ""))),
                _ => p.aps[src.idx(3)].clone(),
            };
            let mut k = skb.clone();
            if src.chance(1, 3) {
                mutate(src, &mut k, &[0, 4, 36], &pkb);
            }
            // a smaller authority for the same policy
            if src.chance(1, 5) {
                k = ser("sk", &master::<Real>(src.size(1, 6) as u32)?.sk)?;
            }
            ctx.say(format!("user key {ap:?}"));
            let native = no_panic("native key generation", || {
                let sk = Sk::<Real>::try_from_bytes(&k).map_err(|e| e.to_string())?;
                Engine::<Real>::new().generate_user_key(&p.policy, &sk, &ap).map_err(|e| e.to_string())
            })?;
            let cr = if k.is_empty() { return Ok(()) } else { c_user_key(ctx, &k, &ap, &text)? };
            ensure!(ctx, native.is_ok() == cr.is_ok(), "native {:?}, C {:?}", native.as_ref().err(), cr.as_ref().err());
            if let (Ok(n), Ok(b)) = (&native, &cr) {
                ensure!(ctx, ser("key", n)?.len() == b.len(), "the C key has another length");
            } else {
                both_refused = true;
            }
        }
        1 => {
            // headers
            let mut attrs: Vec<Attribute> = vec![];
            for _ in 0..src.size(1, 3) {
                attrs.push(match src.below(8) {
                    0 => Attribute::new("D", "nope"),
                    1 => Attribute::new("nope", "x"),
                    2 => Attribute::new("", ""),
                    k => p.attrs[(k % 3) as usize].clone(),
                });
            }
            if src.chance(1, 6) {
                attrs = (0..src.size(10, 15)).map(|i| p.attrs[i % 3].clone()).collect();
            }
            if src.chance(1, 10) {
                attrs.clear();
            }
            let mut k = pkb.clone();
            if src.chance(1, 4) {
                mutate(src, &mut k, &[0, 4, 100], &skb);
            }
            if src.chance(1, 5) {
                k = ser("pk", &master::<Real>(src.size(1, 6) as u32)?.pk)?;
            }
            if k.is_empty() {
                return Ok(());
            }
            ctx.say(format!("header for {} attributes", attrs.len()));
            let native = no_panic("native header encryption", || {
                let pk = Pk::<Real>::try_from_bytes(&k).map_err(|e| e.to_string())?;
                encrypt_hybrid_header::<Real, H>(&p.policy, &pk, &attrs, Some(Metadata::default())).map(|_| ()).map_err(|e| e.to_string())
            })?;
            let direct = c_enc(ctx, With::Direct(Some(&text), Some(&k)), &attrs, None, None)?;
            ensure!(ctx, native.is_ok() == direct.is_ok(), "native {:?}, C {:?}", native.as_ref().err(), direct.as_ref().err());
            let (rc, h) = c::create_enc(Some(&text), Some(&k));
            let pk_ok = Pk::<Real>::try_from_bytes(&k).is_ok();
            ensure!(ctx, (rc == 0) == pk_ok, "cache creation: {rc} for a public key that is {}valid", if pk_ok { "" } else { "in" });
            if rc == 0 {
                let cached = c_enc(ctx, With::Cache(h), &attrs, None, None)?;
                ensure!(ctx, native.is_ok() == cached.is_ok(), "native {:?}, C cached {:?}", native.as_ref().err(), cached.as_ref().err());
                c::destroy_enc(h);
            }
            both_refused = native.is_err();
        }
        2 => {
            // opening
            let mut k = p.key_bytes[src.idx(4)].clone();
            let mut h = p.headers[src.idx(p.headers.len())].clone();
            if src.chance(1, 2) {
                mutate(src, &mut k, &[0, 4], &p.key_bytes[3]);
            }
            if src.chance(1, 2) {
                mutate(src, &mut h, &[0, 4], &p.headers[1]);
            }
            if k.is_empty() || h.is_empty() {
                return Ok(());
            }
            ctx.say(format!("key of {} bytes on a header of {} bytes", k.len(), h.len()));
            let native = no_panic("native header decryption", || {
                let uk = Uk::<Real>::try_from_bytes(&k).map_err(|e| e.to_string())?;
                decrypt_hybrid_header::<Real, H>(&uk, &h).map(|h| (h.symmetric_key.to_bytes().to_vec(), h.meta_data)).map_err(|e| e.to_string())
            })?;
            let key_ok = no_panic("user key parsing", || Uk::<Real>::try_from_bytes(&k).is_ok())?;
            let direct = c_dec(ctx, By::Key(Some(&k)), &h, true, true)?;
            let (rc, hd) = c::create_dec(Some(&k));
            ensure!(ctx, (rc == 0) == key_ok, "cache creation: {rc} for a user key that is {}valid", if key_ok { "" } else { "in" });
            let mut all = vec![("direct", direct)];
            if rc == 0 {
                all.push(("cached", c_dec(ctx, By::Cache(hd), &h, true, true)?));
                c::destroy_dec(hd);
            }
            for (w, r) in all {
                match (&native, &r) {
                    (Ok((nk, nm)), Ok((ck, cu, ca))) => {
                        let (u, a) = seen(nm);
                        ensure!(ctx, nk == ck && Some(&u) == cu.as_ref() && Some(&a) == ca.as_ref(), "{w}: C and native return different contents");
                    }
                    (Err(_), Err(_)) => both_refused = true,
                    _ => fail!("{w}: native {:?}, C {:?}", native.as_ref().err(), r.as_ref().err()),
                }
            }
        }
        _ => {
            // rotation of a list with an unknown attribute, or beyond the capacity
            let n = src.size(1, 7);
            let l: Vec<Attribute> = (0..n)
                .map(|_| match src.below(8) {
                    0 => Attribute::new("D", "nope"),
                    1 => Attribute::new("x", "D"),
                    k => p.attrs[(k % 3) as usize].clone(),
                })
                .collect();
            ctx.say(format!("rotate {n}"));
            let mut q: Policy = serde_json::from_slice(&text).map_err(|e| Fail::from(e.to_string()))?;
            let native = l.iter().try_for_each(|a| q.rotate(a)).map_err(|e| e.to_string());
            let mut o = Out::new(8192);
            let rc = c::rotate(&mut o, Some(&js(&l)), Some(&text));
            ensure!(ctx, (rc == 0) == native.is_ok(), "native {native:?}, C {rc}");
            if rc == 0 {
                let got: Policy = serde_json::from_slice(o.bytes()).map_err(|e| Fail::from(format!("rotated policy: {e}")))?;
                for a in q.attributes() {
                    ensure!(ctx, got.attribute_values(&a).ok() == q.attribute_values(&a).ok(), "other values for {a:?}");
                }
            } else {
                both_refused = true;
                c::take_err();
            }
        }
    }
    ctx.nontrivial_if(both_refused);
    Ok(())
}

fn ffi_rotations(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, &WorldOpts { max_slack: 9, plain_names: true, ..WorldOpts::default() });
    ctx.say(w.describe());
    let mut pool = vec![w.policy.clone()];
    let mut seen = std::collections::BTreeMap::<u32, std::collections::BTreeSet<usize>>::new();
    for _ in 0..src.size(4, 16) {
        let i = src.idx(pool.len());
        let mut l = vec![];
        for _ in 0..src.size(1, 3) {
            let at = w.any_attr(src);
            let a = w.attribute(at);
            l.push(match src.below(24) {
                0 => Attribute::new(&w.axes[at.0].name, "nope"),
                1 => Attribute::new("nope", &w.axes[at.0].attrs[at.1]),
                _ => a,
            });
        }
        ctx.say(format!("{i} [{}]", l.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")));
        let text = serde_json::to_vec(&pool[i]).map_err(|e| Fail::from(e.to_string()))?;
        let mut q = pool[i].clone();
        let native = l.iter().try_for_each(|a| q.rotate(a)).map_err(|e| e.to_string());
        let mut o = Out::new(64 << 10);
        let rc = c::rotate(&mut o, Some(&js(&l)), Some(&text));
        intact(ctx, "h_rotate_attributes", &[&o])?;
        ensure!(ctx, (rc == 0) == native.is_ok(), "native {native:?}, C {rc}");
        if rc != 0 {
            c::take_err();
            continue;
        }
        seen.entry(pool[i].last_attribute_value).or_default().insert(i);
        let got: Policy = serde_json::from_slice(o.bytes()).map_err(|e| Fail::from(format!("rotated policy: {e}")))?;
        let state = |p: &Policy| {
            let v: std::collections::BTreeMap<String, Vec<u32>> =
                p.attribute_to_int.iter().map(|(a, h)| (format!("{a:?}"), h.clone().into_sorted_vec())).collect();
            (v, p.axes.clone(), p.last_attribute_value, p.max_attribute_creations)
        };
        ensure!(ctx, state(&got) == state(&q), "the policy rotated over C is {:?}, natively {:?}", state(&got).0, state(&q).0);
        pool.push(got);
    }
    ctx.nontrivial_if(seen.values().any(|s| s.len() > 1));
    Ok(())
}

fn ffi_blocks(src: &mut Src, ctx: &mut Ctx) -> R {
    let kb = src.blob(32);
    let un = match src.below(4) { 0 => 0, 1 => src.size(50, 2000), _ => src.size(1, 40) };
    let uid = src.blob(un);
    let num = match src.below(4) {
        0 => src.below(3),
        1 => *src.pick(&[127u64, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 30]),
        _ => src.below(1 << 31),
    } as i32;
    let n = match src.below(12) { 0 => src.size(1000, 100_000), 1 => 1, _ => src.size(1, 100) };
    let data = src.blob(n);
    ctx.say(format!("{n} bytes, id of {un} bytes, block {num}"));
    ctx.nontrivial_if(n >= 2);
    ensure!(ctx, c::overhead() == 28, "advertised overhead {}", c::overhead());
    let key = hyb::key(&kb)?;
    let by_c = src.chance(1, 2);
    let b = if by_c {
        let mut o = Out::new(n + 28);
        let rc = c::enc_block(&mut o, Some(&kb), opt(&uid), num, Some(&data));
        intact(ctx, "h_aes_encrypt_block", &[&o])?;
        if rc != 0 {
            return Err(call_err("h_aes_encrypt_block", rc));
        }
        o.bytes().to_vec()
    } else {
        encrypt_hybrid_block::<Real, H, { 1 << 30 }>(&key, &uid, num as usize, &data).map_err(|e| Fail::from(e.to_string()))?
    };
    ensure!(ctx, b.len() == n + 28, "block of {} bytes for {n}", b.len());
    // the right context and some others
    let mut t: Vec<(Vec<u8>, Vec<u8>, i32, Vec<u8>)> = vec![(kb.clone(), uid.clone(), num, b.clone())];
    let mut k2 = kb.clone();
    k2[src.idx(32)] ^= 1;
    t.push((k2, uid.clone(), num, b.clone()));
    t.push((kb.clone(), uid.clone(), num ^ (1 << src.below(31)), b.clone()));
    let mut u2 = uid.clone();
    u2.push(0);
    t.push((kb.clone(), u2, num, b.clone()));
    if un > 0 {
        t.push((kb.clone(), uid[..un - 1].to_vec(), num, b.clone()));
    }
    let mut d = b.clone();
    mutate(src, &mut d, &[12], &b);
    if !d.is_empty() {
        t.push((kb.clone(), uid.clone(), num, d));
    }
    // keys of other sizes
    let kn = *src.pick(&[1usize, 16, 31, 33, 64]);
    t.push((src.blob(kn), uid.clone(), num, b.clone()));
    for (i, (k, u, m, d)) in t.iter().enumerate() {
        let mut o = Out::new(n + 100);
        let rc = c::dec_block(&mut o, Some(k), opt(u), *m, Some(d));
        intact(ctx, "h_aes_decrypt_block", &[&o])?;
        let native = match hyb::key(k) {
            Ok(k) => no_panic("decrypt_hybrid_block", || decrypt_hybrid_block::<Real, H, { 1 << 30 }>(&k, u, *m as usize, d).ok())?,
            Err(_) => None,
        };
        if i == 0 {
            ensure!(ctx, native.as_ref() == Some(&data), "a {} block is not readable natively", if by_c { "C" } else { "native" });
        }
        match native {
            Some(x) => ensure!(ctx, rc == 0 && o.bytes() == x, "variant {i}: native decrypts, C gives {rc}"),
            None => {
                ensure!(ctx, rc != 0, "variant {i}: native refuses, C succeeds");
                c::take_err();
            }
        }
    }
    let mut o = Out::new(100);
    ensure!(ctx, c::enc_block(&mut o, Some(&kb), opt(&uid), num, Some(&[])) != 0, "an empty plaintext is accepted");
    ensure!(ctx, c::dec_block(&mut o, Some(&kb), opt(&uid), num, Some(&[])) != 0, "an empty block is accepted");
    // the header length prefix of the one-shot format
    let hl = src.below(1 << 31) as u32;
    let mut b = hl.to_be_bytes().to_vec();
    let extra = src.size(0, 20);
    b.extend(src.blob(extra));
    ensure!(ctx, c::header_size(Some(&b)) == hl as i32, "h_get_encrypted_header_size: {} for {hl}", c::header_size(Some(&b)));
    c::take_err();
    Ok(())
}

// ------------------------------------------------------------------ C21

fn near(src: &mut Src, need: usize) -> usize {
    match src.below(8) {
        0 => need,
        1 => need.saturating_sub(1).max(1),
        2 => need + 1,
        3 => 1,
        4 => need / 2 + 1,
        5 => need + src.size(1, 200),
        _ => src.size(1, need.max(1)),
    }
}
/// One call with the declared size `s` for a single output; returns true if it
/// failed for the size.
fn sized(ctx: &mut Ctx, what: &str, s: usize, need: usize, f: &mut dyn FnMut(&mut Out) -> i32, good: &mut dyn FnMut(&[u8]) -> R) -> Result<bool, Fail> {
    let mut o = Out::guarded(s, need + 256);
    let rc = f(&mut o);
    ensure!(ctx, o.intact(), "{what} wrote outside a buffer of {s} bytes (needs {need})");
    if s < need {
        ensure!(ctx, rc != 0, "{what} succeeded with a buffer of {s} bytes, needs {need}");
        ensure!(ctx, o.len == need as i32, "{what} with {s} bytes reports {} as the required size, it is {need}", o.len);
        let e = c::take_err();
        ensure!(ctx, !e.is_empty(), "{what}: no message for a buffer that is too small");
        // what the caller does next
        let mut o = Out::guarded(o.len as usize, 256);
        let rc = f(&mut o);
        if rc != 0 {
            return Err(call_err(&format!("{what} retried with the reported size"), rc));
        }
        ensure!(ctx, o.intact(), "{what} wrote outside a buffer of the exact size");
        ensure!(ctx, o.len == need as i32, "{what} reports {} bytes written, expected {need}", o.len);
        good(o.bytes())?;
        return Ok(true);
    }
    if rc != 0 {
        return Err(call_err(&format!("{what} with {s} bytes, needs {need}"), rc));
    }
    ensure!(ctx, o.len == need as i32, "{what} reports {} bytes written, expected {need}", o.len);
    good(o.bytes())?;
    Ok(false)
}

fn buf_keys(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = if src.chance(1, 100) {
        // results longer than 65535 bytes
        let attrs = (0..850).map(|i| format!("a{i}")).collect();
        World::new(vec![Axis { name: "A".into(), attrs, hier: true }], 850)
    } else if src.chance(1, 20) {
        let axes = (0..src.size(1, 3))
            .map(|i| {
                let k = src.size(1000, 20_000);
                Axis { name: format!("X{i}"), attrs: vec!["a".repeat(k), "b".repeat(k)], hier: false }
            })
            .collect::<Vec<_>>();
        let max = 2 * axes.len() as u32;
        World::new(axes, max)
    } else {
        gen_world(src, &WorldOpts { plain_names: true, max_axes: 2, max_attrs: 2, max_slack: 2, max_rotations: 1 })
    };
    let text = pol(&w.policy);
    let m = master::<Real>(w.max)?;
    let (skb, pkb) = (ser("sk", &m.sk)?, ser("pk", &m.pk)?);
    let mut retried = false;
    // the longest key, when the policy is a large one
    let f = if w.max == 850 { F::A((0, src.size(400, 849))) } else { gen_formula(src, &w, 4) };
    match src.below(4) {
        0 => {
            let need = 4 + skb.len() + pkb.len();
            let s = near(src, need);
            ctx.say(format!("master keys for {}: {s} of {need} bytes", w.max));
            let (a, b) = (skb.len(), pkb.len());
            retried = sized(ctx, "h_generate_master_keys", s, need, &mut |o| c::master_keys(o, Some(&text)), &mut |x| {
                if x[..4] != crate::refimpl::be(a) {
                    fail!("master keys: length prefix");
                }
                let sk = de::<Sk<Real>>("master private key", &x[4..4 + a])?;
                let pk = de::<Pk<Real>>("master public key", &x[4 + a..])?;
                if ser("sk", &sk)? != x[4..4 + a] || ser("pk", &pk)?.len() != b {
                    fail!("master keys: contents");
                }
                Ok(())
            })?;
        }
        1 | 2 => {
            let need = ser("key", &keygen::<Real>(&w.policy, &m, &f.ap(&w))?)?.len();
            let ap = js(&f.ap(&w));
            for _ in 0..2 {
                let s = near(src, need);
                ctx.say(format!("user key: {s} of {need} bytes"));
                retried |= sized(ctx, "h_generate_user_private_key", s, need, &mut |o| c::user_key(o, Some(&skb), Some(&ap), Some(&text)), &mut |x| {
                    let k = de::<Uk<Real>>("user key", x)?;
                    if ser("user key", &k)? != x {
                        fail!("user key: contents");
                    }
                    Ok(())
                })?;
            }
        }
        _ => {
            let mut w2 = w.clone();
            w2.max += 2;
            w2.policy.max_attribute_creations += 2;
            let text = pol(&w2.policy);
            let at = w2.any_attr(src);
            let l = js(&w2.attributes(&[at]));
            w2.rotate(at);
            let need = w2.policy.to_string().len();
            for _ in 0..8 {
                let s = near(src, need);
                retried |= sized(ctx, "h_rotate_attributes", s, need, &mut |o| c::rotate(o, Some(&l), Some(&text)), &mut |x| {
                    let q: Policy = serde_json::from_slice(x).map_err(|e| Fail::from(format!("rotated policy: {e}")))?;
                    if q.attribute_values(&w2.attribute(at)).map(|v| v.len()).unwrap_or(0) != w2.vals[at.0][at.1].len() {
                        fail!("rotated policy: contents");
                    }
                    Ok(())
                })?;
            }
            ctx.say(format!("rotation, {need} bytes"));
        }
    }
    ctx.nontrivial_if(retried);
    Ok(())
}

fn buf_headers(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let text = pol(&p.policy);
    let pkb = ser("pk", &p.m.pk)?;
    let n = src.size(1, 3);
    let meta = hyb::gen_meta(src).map_or_else(Metadata::default, |m| hyb::expected(&Some(m)));
    let (uid, ad) = seen(&meta);
    let uid_null_len = src.chance(1, 3);
    let mut retries = 0;
    let attrs = js(&p.attrs[..n].to_vec());
    let enc_need = {
        let (_, h) = native_enc(&p.policy, &p.m.pk, &p.attrs[..n], meta.clone())?.map_err(Fail::from)?;
        h.len()
    };
    let (cached_e, cached_d) = (src.chance(1, 2), src.chance(1, 2));
    let eh = if cached_e { c::create_enc(Some(&text), Some(&pkb)).1 } else { 0 };
    let dh = if cached_d { c::create_dec(Some(&p.key_bytes[3])).1 } else { 0 };
    // encryption: both outputs with their own sizes, retried until it works
    let (mut ks, mut hs) = (near(src, 32), near(src, enc_need));
    ctx.say(format!("{n} attributes, {}, key buffer {ks}, header buffer {hs} of {enc_need}", hyb::show_meta(&Some(meta.clone()))));
    let mut done = None;
    for turn in 0..4 {
        let (mut k, mut h) = (Out::guarded(ks, 300), Out::guarded(hs, enc_need + 256));
        let with = if cached_e { With::Cache(eh) } else { With::Direct(Some(&text), Some(&pkb)) };
        let rc = c::enc_header(&mut k, &mut h, with, Some(&attrs), opt(&uid), opt(&ad));
        ensure!(ctx, k.intact() && h.intact(), "header encryption wrote outside buffers of {ks} and {hs} bytes (needs 32 and {enc_need})");
        let enough = ks >= 32 && hs >= enc_need;
        ensure!(ctx, (rc == 0) == enough, "header encryption gave {rc} for buffers of {ks} and {hs} bytes (needs 32 and {enc_need}): {}", c::take_err());
        if rc == 0 {
            ensure!(ctx, k.len == 32 && h.len == enc_need as i32, "header encryption reports {} and {} bytes", k.len, h.len);
            done = Some((k.bytes().to_vec(), h.bytes().to_vec()));
            break;
        }
        retries += 1;
        c::take_err();
        // at least one of the too small buffers was reported
        ensure!(ctx, (ks < 32 && k.len == 32) || (hs < enc_need && h.len == enc_need as i32), "header encryption failed for the size without reporting it: {ks}->{}, {hs}->{}", k.len, h.len);
        ensure!(ctx, k.len >= ks.min(32) as i32 && h.len >= hs.min(enc_need) as i32, "header encryption reports sizes that are too small: {ks}->{}, {hs}->{}", k.len, h.len);
        ks = k.len as usize;
        hs = h.len as usize;
        ensure!(ctx, turn < 3, "header encryption does not converge with the reported sizes");
    }
    let (key, header) = done.unwrap();
    let r = native_dec(&p.keys[3], &header)?.map_err(|e| Fail::from(format!("the header written is not readable: {e}")))?;
    ensure!(ctx, r.0 == key && r.1 == meta, "the header written has other contents");
    // decryption: up to three outputs
    let mode = |src: &mut Src, need: usize| -> Option<usize> {
        if src.chance(1, 4) {
            None
        } else {
            Some(near(src, need))
        }
    };
    let mut ks = near(src, 32);
    let mut us = mode(src, uid.len());
    let mut ads = mode(src, ad.len());
    ctx.say(format!("opened with {ks}, id {us:?}, data {ads:?}"));
    for turn in 0..5 {
        let mut k = Out::guarded(ks, 300);
        let null = |src_len: i32| if uid_null_len { Out::null(src_len) } else { Out::guarded(0, 64) };
        let mut u = us.map_or_else(|| null(5), |s| Out::guarded(s, uid.len() + 256));
        let mut a = ads.map_or_else(|| null(3), |s| Out::guarded(s, ad.len() + 256));
        let by = if cached_d { By::Cache(dh) } else { By::Key(Some(&p.key_bytes[3])) };
        let rc = c::dec_header(&mut k, &mut u, &mut a, Some(&header), by);
        ensure!(ctx, k.intact() && u.intact() && a.intact(), "header decryption wrote outside its buffers ({ks}, {us:?}, {ads:?}; needs 32, {}, {})", uid.len(), ad.len());
        let (u_ok, a_ok) = (us.map_or(true, |s| s >= uid.len()), ads.map_or(true, |s| s >= ad.len()));
        let enough = ks >= 32 && u_ok && a_ok;
        ensure!(ctx, (rc == 0) == enough, "header decryption gave {rc} for {ks}, {us:?}, {ads:?} (needs 32, {}, {}): {}", uid.len(), ad.len(), c::take_err());
        if rc == 0 {
            ensure!(ctx, k.len == 32 && k.bytes() == key, "another symmetric key ({} bytes)", k.len);
            if us.is_some() {
                ensure!(ctx, u.len == uid.len() as i32 && u.bytes() == uid, "another id: {} bytes reported, expected {}", u.len, uid.len());
            }
            if ads.is_some() {
                ensure!(ctx, a.len == ad.len() as i32 && a.bytes() == ad, "other additional data: {} bytes reported, expected {}", a.len, ad.len());
            }
            break;
        }
        retries += 1;
        c::take_err();
        let mut told = false;
        if ks < 32 && k.len == 32 {
            ks = 32;
            told = true;
        } else if k.len > 0 {
            ensure!(ctx, k.len as usize >= ks.min(32), "key size reported as {} with {ks}", k.len);
        }
        if !u_ok && u.len == uid.len() as i32 {
            us = Some(uid.len());
            told = true;
        }
        if !a_ok && a.len == ad.len() as i32 {
            ads = Some(ad.len());
            told = true;
        }
        ensure!(ctx, told, "header decryption failed for the size without reporting the required one");
        ensure!(ctx, turn < 4, "header decryption does not converge with the reported sizes");
    }
    if cached_e {
        c::destroy_enc(eh);
    }
    if cached_d {
        c::destroy_dec(dh);
    }
    ctx.nontrivial_if(retries > 0);
    Ok(())
}

fn buf_blocks(src: &mut Src, ctx: &mut Ctx) -> R {
    let kb = src.blob(32);
    let un = src.size(0, 40);
    let uid = src.blob(un);
    let num = src.below(1 << 31) as i32;
    let n = match src.below(10) { 0 => src.size(200, 5000), _ => src.size(1, 60) };
    let data = src.blob(n);
    ctx.say(format!("{n} bytes"));
    let key = hyb::key(&kb)?;
    let b = encrypt_hybrid_block::<Real, H, { 1 << 30 }>(&key, &uid, num as usize, &data).map_err(|e| Fail::from(e.to_string()))?;
    let (mut small, mut large) = (false, false);
    let sizes: Vec<usize> = if n <= 20 { (1..=n + 30).collect() } else { (0..16).map(|i| near(src, if i % 2 == 0 { n + 28 } else { n })).collect() };
    for s in sizes {
        let r = sized(ctx, "h_aes_encrypt_block", s, n + 28, &mut |o| c::enc_block(o, Some(&kb), opt(&uid), num, Some(&data)), &mut |x| {
            match decrypt_hybrid_block::<Real, H, { 1 << 30 }>(&key, &uid, num as usize, x) {
                Ok(d) if d == data => Ok(()),
                _ => fail!("the block written is not readable"),
            }
        })?;
        let r2 = sized(ctx, "h_aes_decrypt_block", s, n, &mut |o| c::dec_block(o, Some(&kb), opt(&uid), num, Some(&b)), &mut |x| {
            if x != data {
                fail!("other clear text");
            }
            Ok(())
        })?;
        small |= r | r2;
        large |= !r | !r2;
        // error channel
        let msg = src.blob(n.min(300)).iter().map(|b| (b % 94 + 33) as char).collect::<String>();
        ensure!(ctx, c::set_err(Some(msg.as_bytes())) == 0, "set_error");
        let mut o = Out::guarded(s, 400);
        let rc = c::last_err(&mut o);
        ensure!(ctx, o.intact(), "get_last_error wrote outside a buffer of {s} bytes");
        ensure!(ctx, rc == 0 && o.fits() && (o.len as usize) < s, "get_last_error: code {rc}, length {} in {s} bytes", o.len);
        ensure!(ctx, o.whole()[o.len as usize] == 0, "get_last_error: not NUL-terminated");
    }
    ctx.nontrivial_if(small && large);
    Ok(())
}

// ------------------------------------------------------------------ C22

/// Material for cache histories: two authorities, a policy before and after a
/// rotation, users, and headers with known outcomes.
struct Mat {
    policies: Vec<(World, Vec<u8>)>,
    pks: Vec<Vec<u8>>,
    attrs: Vec<Vec<At>>,
    /// authority, access structure, native key, bytes
    users: Vec<(usize, T, Vec<u8>)>,
    /// authority, gamma, bytes, key, metadata
    headers: Vec<(usize, BTreeSet<u32>, Vec<u8>, Vec<u8>, Metadata)>,
}
thread_local! {
    static MAT: RefCell<Option<Arc<Mat>>> = const { RefCell::new(None) };
}
fn mat() -> Result<Arc<Mat>, Fail> {
    if let Some(m) = MAT.with(|c| c.borrow().clone()) {
        return Ok(m);
    }
    let axes = vec![
        Axis { name: "L".into(), attrs: vec!["1".into(), "2".into()], hier: true },
        Axis { name: "D".into(), attrs: vec!["x".into(), "y".into()], hier: false },
    ];
    let w0 = World::new(axes, 6);
    let mut w1 = w0.clone();
    w1.rotate((1, 0));
    let ms = [new_master::<Real>(&w0.policy)?, new_master::<Real>(&w0.policy)?];
    let pks = vec![ser("pk", &ms[0].pk)?, ser("pk", &ms[1].pk)?];
    let fs = [F::A((1, 0)), F::A((1, 1)), F::And(Box::new(F::A((0, 1))), Box::new(F::A((1, 0))))];
    let mut users = vec![];
    for (a, m) in ms.iter().enumerate() {
        for (i, f) in fs.iter().enumerate() {
            let w = if i == 2 { &w1 } else { &w0 };
            let k = keygen::<Real>(&w.policy, m, &f.ap(w))?;
            users.push((a, f.snapshot(w), ser("user key", &k)?));
        }
    }
    let attrs = vec![vec![(1, 0)], vec![(1, 1)], vec![(0, 0), (1, 0)]];
    let mut headers = vec![];
    for (a, m) in ms.iter().enumerate() {
        for w in [&w0, &w1] {
            for l in &attrs {
                let meta = Metadata { uid: vec![1 + headers.len() as u8; 5], additional_data: Some(vec![0x40 + headers.len() as u8; 3]) };
                let (k, h) = native_enc(&w.policy, &m.pk, &w.attributes(l), meta.clone())?.map_err(Fail::from)?;
                headers.push((a, w.gamma(l), h, k, meta));
            }
        }
    }
    let policies = [w0, w1].into_iter().map(|w| { let t = pol(&w.policy); (w, t) }).collect();
    let m = Arc::new(Mat { policies, pks, attrs, users, headers });
    MAT.with(|c| *c.borrow_mut() = Some(m.clone()));
    Ok(m)
}

#[derive(Clone, Copy, Debug)]
enum Op {
    NewEnc(usize, usize),
    NewDec(usize),
    BadEnc(u64),
    BadDec(u64),
    UseEnc(Pick, usize, usize),
    UseDec(Pick, usize),
    DelEnc(Pick),
    DelDec(Pick),
}
/// which handle: one of those issued so far, or an arbitrary number
#[derive(Clone, Copy, Debug)]
enum Pick {
    Issued(usize),
    Other(usize), // a handle of the other kind
    Number(i32),
}
fn gen_op(src: &mut Src, m: &Mat) -> Op {
    let pick = |src: &mut Src| match src.below(10) {
        0 => Pick::Number(*src.pick(&[-1, i32::MAX, i32::MIN, 1_000_000, -77])),
        1 => Pick::Other(src.size(0, 40)),
        _ => Pick::Issued(src.size(0, 40)),
    };
    match src.below(14) {
        0 | 1 => Op::NewEnc(src.idx(2), src.idx(2)),
        2 | 3 => Op::NewDec(src.idx(m.users.len())),
        4 => if src.chance(1, 2) { Op::BadEnc(src.below(40)) } else { Op::BadDec(src.below(40)) },
        5 | 6 => Op::UseEnc(pick(src), src.idx(m.attrs.len()), src.idx(m.users.len())),
        7..=10 => Op::UseDec(pick(src), src.idx(m.headers.len())),
        11 => Op::DelEnc(pick(src)),
        _ => Op::DelDec(pick(src)),
    }
}
#[derive(Default)]
struct Model {
    /// every handle this history was given, and what it is for (None: destroyed)
    enc: Vec<(i32, Option<(usize, usize)>)>,
    dec: Vec<(i32, Option<usize>)>,
    alive_at_once: usize,
    use_after_other_destroyed: bool,
    destroyed: bool,
}
impl Model {
    fn enc_handle(&self, p: Pick) -> i32 {
        match p {
            Pick::Issued(i) if !self.enc.is_empty() => self.enc[i % self.enc.len()].0,
            Pick::Other(i) if !self.dec.is_empty() => self.dec[i % self.dec.len()].0,
            Pick::Number(n) => n,
            _ => -5,
        }
    }
    fn dec_handle(&self, p: Pick) -> i32 {
        match p {
            Pick::Issued(i) if !self.dec.is_empty() => self.dec[i % self.dec.len()].0,
            Pick::Other(i) if !self.enc.is_empty() => self.enc[i % self.enc.len()].0,
            Pick::Number(n) => n,
            _ => -5,
        }
    }
    fn enc_of(&self, h: i32) -> Option<(usize, usize)> {
        self.enc.iter().find(|e| e.0 == h).and_then(|e| e.1)
    }
    fn dec_of(&self, h: i32) -> Option<usize> {
        self.dec.iter().find(|e| e.0 == h).and_then(|e| e.1)
    }
    /// handles of the other histories running at the same time are not in the
    /// model: an arbitrary number may belong to them
    fn mine(&self, h: i32, enc: bool) -> bool {
        h < 0 || h == i32::MAX || if enc { self.enc.iter().any(|e| e.0 == h) } else { self.dec.iter().any(|e| e.0 == h) }
    }
}
/// What the library did.
enum Did {
    Handle(i32, i32),
    Code(i32),
    Enc(Result<Hd, String>),
    Dec(Result<Opened, String>),
}
/// Perform an operation (handles already resolved); runs on any thread.
fn perform(op: Op, h: i32, m: &Mat) -> Result<Did, Fail> {
    let mut ctx = Ctx::default();
    Ok(match op {
        Op::NewEnc(p, a) => {
            let (rc, h) = c::create_enc_at(h, Some(&m.policies[p].1), Some(&m.pks[a]));
            Did::Handle(rc, h)
        }
        Op::NewDec(u) => {
            let (rc, h) = c::create_dec_at(h, Some(&m.users[u].2));
            Did::Handle(rc, h)
        }
        Op::BadEnc(k) => {
            let t = &m.policies[0].1;
            let (rc, h) = match k % 4 {
                0 => c::create_enc_at(h, Some(&t[..t.len() / 2]), Some(&m.pks[0])),
                1 => c::create_enc_at(h, Some(t), Some(&m.pks[0][..m.pks[0].len() / 2])),
                2 => c::create_enc_at(h, Some(t), Some(&[])),
                _ => c::create_enc_at(h, None, Some(&m.pks[0])),
            };
            Did::Handle(rc, h)
        }
        Op::BadDec(k) => {
            let u = &m.users[0].2;
            let (rc, h) = match k % 4 {
                0 => c::create_dec_at(h, Some(&u[..u.len() / 2])),
                1 => c::create_dec_at(h, Some(&[])),
                2 => c::create_dec_at(h, None),
                _ => c::create_dec_at(h, Some(&[0xff; 40])),
            };
            Did::Handle(rc, h)
        }
        Op::UseEnc(_, l, _) => Did::Enc(c_enc(&mut ctx, With::Cache(h), &m.policies[0].0.attributes(&m.attrs[l]), Some(&[l as u8 + 1]), Some(b"data"))?),
        Op::UseDec(_, x) => Did::Dec(c_dec(&mut ctx, By::Cache(h), &m.headers[x].2, true, true)?),
        Op::DelEnc(_) => Did::Code(c::destroy_enc(h)),
        Op::DelDec(_) => Did::Code(c::destroy_dec(h)),
    })
}
fn resolve(op: Op, md: &Model) -> i32 {
    match op {
        Op::UseEnc(p, ..) | Op::DelEnc(p) => md.enc_handle(p),
        Op::UseDec(p, _) | Op::DelDec(p) => md.dec_handle(p),
        // what the handle variable of the caller holds: often a handle in use
        Op::NewEnc(p, a) => md.enc_handle(if a == 0 { Pick::Issued(p) } else { Pick::Number(-77) }),
        Op::NewDec(u) => md.dec_handle(if u % 2 == 0 { Pick::Issued(u) } else { Pick::Number(-77) }),
        Op::BadEnc(k) => md.enc_handle(Pick::Issued(k as usize)),
        Op::BadDec(k) => md.dec_handle(Pick::Issued(k as usize)),
    }
}
fn check_enc(ctx: &mut Ctx, m: &Mat, cache: (usize, usize), l: usize, u: usize, hd: &Hd) -> R {
    let (w, _) = &m.policies[cache.0];
    let user = &m.users[u];
    let uk = de::<Uk<Real>>("user key", &user.2)?;
    let ok = user.0 == cache.1 && user.1.eval(&w.gamma(&m.attrs[l]));
    match native_dec(&uk, &hd.1)? {
        Ok((k, meta)) => {
            ensure!(ctx, ok, "a header made with a cache is opened by a key that is not authorised for the cache's policy and authority");
            ensure!(ctx, k == hd.0 && meta.uid == [l as u8 + 1] && meta.additional_data.as_deref() == Some(b"data"), "a header made with a cache has other contents");
        }
        Err(e) => ensure!(ctx, !ok, "a header made with a cache is not opened by an authorised key: {e}"),
    }
    Ok(())
}
fn check_dec(ctx: &mut Ctx, m: &Mat, u: usize, x: usize, r: &Result<Opened, String>) -> R {
    let (user, hd) = (&m.users[u], &m.headers[x]);
    let ok = user.0 == hd.0 && user.1.eval(&hd.1);
    match r {
        Ok((k, uid, ad)) => {
            ensure!(ctx, ok, "a cache opened a header its key is not authorised for");
            ensure!(ctx, *k == hd.3 && uid.as_ref() == Some(&hd.4.uid) && *ad == hd.4.additional_data, "a cache returned other contents");
        }
        Err(e) => ensure!(ctx, !ok, "a cache refused a header its key is authorised for: {e}"),
    }
    Ok(())
}
/// Compare with the model and update it.
fn follow(ctx: &mut Ctx, m: &Mat, md: &mut Model, op: Op, h: i32, did: Did) -> R {
    match (op, did) {
        (Op::NewEnc(p, a), Did::Handle(rc, h)) => {
            ensure!(ctx, rc == 0, "creating an encryption cache failed ({rc})");
            ensure!(ctx, md.enc.iter().all(|e| e.0 != h), "encryption cache handle {h} was given out twice");
            md.enc.push((h, Some((p, a))));
        }
        (Op::NewDec(u), Did::Handle(rc, h)) => {
            ensure!(ctx, rc == 0, "creating a decryption cache failed ({rc})");
            ensure!(ctx, md.dec.iter().all(|e| e.0 != h), "decryption cache handle {h} was given out twice");
            md.dec.push((h, Some(u)));
        }
        (Op::BadEnc(_) | Op::BadDec(_), Did::Handle(rc, _)) => {
            ensure!(ctx, rc != 0, "a cache was created from damaged material");
        }
        (Op::UseEnc(_, l, u), Did::Enc(r)) => match (md.enc_of(h), &r) {
            (Some(cache), Ok(hd)) => {
                md.use_after_other_destroyed |= md.destroyed;
                check_enc(ctx, m, cache, l, u, hd)?
            }
            (Some(_), Err(e)) => fail!("encryption cache {h} is alive and refused: {e}"),
            (None, Ok(_)) => ensure!(ctx, !md.mine(h, true), "encryption cache {h} does not exist (any more) and worked"),
            (None, Err(e)) => ensure!(ctx, !e.is_empty(), "no error message for an unknown handle"),
        },
        (Op::UseDec(_, x), Did::Dec(r)) => match md.dec_of(h) {
            Some(u) => {
                md.use_after_other_destroyed |= md.destroyed;
                check_dec(ctx, m, u, x, &r)?
            }
            None => {
                if md.mine(h, false) {
                    ensure!(ctx, r.is_err(), "decryption cache {h} does not exist (any more) and worked");
                }
                if let Err(e) = &r {
                    ensure!(ctx, !e.is_empty(), "no error message for an unknown handle");
                }
            }
        },
        (Op::DelEnc(_), Did::Code(rc)) => {
            if let Some(e) = md.enc.iter_mut().find(|e| e.0 == h) {
                if e.1.take().is_some() {
                    md.destroyed = true;
                    ensure!(ctx, rc == 0, "destroying a live encryption cache failed ({rc})");
                }
            }
        }
        (Op::DelDec(_), Did::Code(rc)) => {
            if let Some(e) = md.dec.iter_mut().find(|e| e.0 == h) {
                if e.1.take().is_some() {
                    md.destroyed = true;
                    ensure!(ctx, rc == 0, "destroying a live decryption cache failed ({rc})");
                }
            }
        }
        _ => fail!("harness: operation and result do not match"),
    }
    let alive = md.enc.iter().filter(|e| e.1.is_some()).count() + md.dec.iter().filter(|e| e.1.is_some()).count();
    md.alive_at_once = md.alive_at_once.max(alive);
    Ok(())
}
fn cleanup(md: &Model) {
    for e in &md.enc {
        c::destroy_enc(e.0);
    }
    for e in &md.dec {
        c::destroy_dec(e.0);
    }
    c::take_err();
}
/// A handle that is not this history's own must not be destroyed or used by
/// number when other histories run at the same time.
fn stranger(md: &Model, op: Op, h: i32) -> bool {
    match op {
        Op::DelEnc(_) | Op::UseEnc(..) => !md.mine(h, true),
        Op::DelDec(_) | Op::UseDec(..) => !md.mine(h, false),
        _ => false,
    }
}
fn all_alive_work(ctx: &mut Ctx, m: &Mat, md: &mut Model) -> R {
    for i in 0..md.dec.len() {
        let (h, u) = md.dec[i];
        let x = u.and_then(|u| m.headers.iter().position(|hd| hd.0 == m.users[u].0 && m.users[u].1.eval(&hd.1))).unwrap_or(0);
        let op = Op::UseDec(Pick::Number(h), x);
        let did = perform(op, h, m)?;
        follow(ctx, m, md, op, h, did)?;
    }
    for i in 0..md.enc.len() {
        let h = md.enc[i].0;
        let op = Op::UseEnc(Pick::Number(h), 2, 2);
        let did = perform(op, h, m)?;
        follow(ctx, m, md, op, h, did)?;
    }
    Ok(())
}

fn cache_history(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = mat()?;
    let mut md = Model::default();
    let n = src.size(4, 30);
    let r = (|| {
        for _ in 0..n {
            let op = gen_op(src, &m);
            let h = resolve(op, &md);
            ctx.say(format!("{op:?}"));
            let did = perform(op, h, &m)?;
            follow(ctx, &m, &mut md, op, h, did)?;
        }
        all_alive_work(ctx, &m, &mut md)
    })();
    cleanup(&md);
    r?;
    ctx.nontrivial_if(md.alive_at_once >= 2 && md.use_after_other_destroyed);
    Ok(())
}

fn cache_across(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = mat()?;
    let n_threads = src.size(2, 4);
    let mut tx = vec![];
    let (back_tx, back_rx) = mpsc::channel::<Result<Did, Fail>>();
    let mut joins = vec![];
    for _ in 0..n_threads {
        let (t, r) = mpsc::channel::<Option<(Op, i32)>>();
        tx.push(t);
        let (m, b) = (m.clone(), back_tx.clone());
        joins.push(std::thread::spawn(move || {
            while let Ok(Some((op, h))) = r.recv() {
                let _ = b.send(perform(op, h, &m));
            }
        }));
    }
    let mut md = Model::default();
    let mut creator: BTreeMap<(bool, i32), usize> = BTreeMap::new();
    let n = src.size(4, 20);
    let r = (|| {
        for _ in 0..n {
            let op = gen_op(src, &m);
            let t = src.idx(n_threads);
            let h = resolve(op, &md);
            ctx.say(format!("{t}:{op:?}"));
            tx[t].send(Some((op, h))).map_err(|_| Fail::from("a thread died"))?;
            let did = back_rx.recv().map_err(|_| Fail::from("a thread died"))??;
            match (&op, &did) {
                (Op::NewEnc(..), Did::Handle(0, h)) => {
                    creator.insert((true, *h), t);
                }
                (Op::NewDec(_), Did::Handle(0, h)) => {
                    creator.insert((false, *h), t);
                }
                (Op::UseEnc(..) | Op::DelEnc(_), _) => ctx.nontrivial_if(creator.get(&(true, h)).is_some_and(|x| *x != t)),
                (Op::UseDec(..) | Op::DelDec(_), _) => ctx.nontrivial_if(creator.get(&(false, h)).is_some_and(|x| *x != t)),
                _ => {}
            }
            follow(ctx, &m, &mut md, op, h, did)?;
        }
        Ok(())
    })();
    for t in &tx {
        let _ = t.send(None);
    }
    for j in joins {
        let _ = j.join();
    }
    // handles outlive the threads that made them
    let r = r.and_then(|_| all_alive_work(ctx, &m, &mut md));
    cleanup(&md);
    r
}

fn cache_concurrent(src: &mut Src, ctx: &mut Ctx) -> R {
    concurrent(src, ctx, false)
}
fn cache_scheduled(src: &mut Src, ctx: &mut Ctx) -> R {
    concurrent(src, ctx, true)
}
fn concurrent(src: &mut Src, ctx: &mut Ctx, scheduled: bool) -> R {
    let m = mat()?;
    let n_threads = src.size(2, if scheduled { 4 } else { 8 });
    let n_victims = src.size(0, 4);
    let plans: Vec<Vec<(Op, u64)>> = (0..n_threads)
        .map(|_| (0..if scheduled { src.size(1, 5) } else { src.size(2, 10) })
            .map(|i| {
                // the creations of short histories meet more often
                let op = if scheduled && i < 2 && src.chance(2, 3) {
                    if src.chance(1, 2) { Op::NewEnc(src.idx(2), src.idx(2)) } else { Op::NewDec(src.idx(m.users.len())) }
                } else {
                    gen_op(src, &m)
                };
                (op, src.below(12))
            })
            .collect())
        .collect();
    ctx.say(format!("{n_threads} threads, {n_victims} victims: {plans:?}"));
    ctx.nontrivial_if(n_threads >= 3 && n_victims >= 2);
    let (rc, keep_d) = c::create_dec(Some(&m.users[0].2));
    let (rc2, keep_e) = c::create_enc(Some(&m.policies[0].1), Some(&m.pks[0]));
    ensure!(ctx, rc == 0 && rc2 == 0, "creating shared caches failed");
    let mut victims = vec![];
    for _ in 0..n_victims {
        let (rc, h) = c::create_dec(Some(&m.users[1].2));
        ensure!(ctx, rc == 0, "creating a cache failed");
        victims.push(h);
    }
    let barrier = Arc::new(Barrier::new(n_threads));
    let sched = Sched::new(n_threads);
    let joins: Vec<_> = plans
        .into_iter()
        .enumerate()
        .map(|(ti, plan)| {
            let (m, b, victims, sched) = (m.clone(), barrier.clone(), victims.clone(), sched.clone());
            std::thread::spawn(move || -> Result<(Vec<i32>, Vec<i32>), Fail> {
                let ctx = &mut Ctx::default();
                let mut md = Model::default();
                b.wait();
                let _stay = scheduled.then(|| sched.enter(ti));
                let r: R = (|| {
                    for (op, extra) in plan {
                        let h = resolve(op, &md);
                        if !stranger(&md, op, h) {
                            let did = perform(op, h, &m)?;
                            follow(ctx, &m, &mut md, op, h, did)?;
                        }
                        match extra {
                            0 | 1 => {
                                let r = c_dec(ctx, By::Cache(keep_d), &m.headers[0].2, true, true)?;
                                check_dec(ctx, &m, 0, 0, &r)?;
                            }
                            2 => {
                                let r = c_enc(ctx, With::Cache(keep_e), &m.policies[0].0.attributes(&m.attrs[0]), Some(&[1]), Some(b"data"))?
                                    .map_err(|e| Fail::from(format!("a shared cache refused: {e}")))?;
                                check_enc(ctx, &m, (0, 0), 0, 0, &r)?;
                            }
                            3..=7 if !victims.is_empty() => {
                                // may be destroyed meanwhile; never a wrong answer
                                let v = victims[extra as usize % victims.len()];
                                let x = extra as usize % m.headers.len();
                                if let Ok(r) = c_dec(ctx, By::Cache(v), &m.headers[x].2, true, true)? {
                                    check_dec(ctx, &m, 1, x, &Ok(r))?;
                                }
                            }
                            8 | 9 if !victims.is_empty() => {
                                c::destroy_dec(victims[(ti + extra as usize) % victims.len()]);
                            }
                            _ => {}
                        }
                    }
                    all_alive_work(ctx, &m, &mut md)
                })();
                cleanup(&md);
                r?;
                Ok((md.enc.iter().map(|e| e.0).collect(), md.dec.iter().map(|e| e.0).collect()))
            })
        })
        .collect();
    if scheduled {
        let k = sched.run(src);
        ctx.say(format!("{k} accesses"));
    }
    let mut enc = vec![keep_e];
    let mut dec = victims.clone();
    dec.push(keep_d);
    let mut first: R = Ok(());
    for j in joins {
        match j.join() {
            Ok(Ok((e, d))) => {
                enc.extend(e);
                dec.extend(d);
            }
            Ok(Err(f)) => first = first.and(Err(f)),
            Err(_) => first = first.and(Err(Fail::from(format!("a thread panicked: {}", last_panic())))),
        }
    }
    for v in &victims {
        c::destroy_dec(*v);
        let r = c_dec(ctx, By::Cache(*v), &m.headers[1].2, true, true)?;
        ensure!(ctx, r.is_err(), "a destroyed cache still works");
    }
    let r = c_dec(ctx, By::Cache(keep_d), &m.headers[0].2, true, true)?;
    let r = check_dec(ctx, &m, 0, 0, &r);
    c::destroy_dec(keep_d);
    c::destroy_enc(keep_e);
    first?;
    r?;
    for (w, mut v) in [("encryption", enc), ("decryption", dec)] {
        let n = v.len();
        v.sort_unstable();
        v.dedup();
        ensure!(ctx, v.len() == n, "two {w} caches got the same handle");
    }
    Ok(())
}

/// Threads meet here without being put to sleep, to leave at the same instant.
struct Gate {
    n: usize,
    arrived: std::sync::atomic::AtomicUsize,
}
impl Gate {
    fn pass(&self, round: usize) {
        use std::sync::atomic::Ordering::SeqCst;
        self.arrived.fetch_add(1, SeqCst);
        let mut spins = 0u32;
        while self.arrived.load(SeqCst) < self.n * (round + 1) {
            spins += 1;
            if spins > 20_000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}
/// Only one worker process at a time.
fn exclusive() -> Option<std::fs::File> {
    let dir = std::env::var_os("VERIF_DIR").map(|d| std::path::Path::new(&d).join("work")).unwrap_or_else(std::env::temp_dir);
    let f = std::fs::File::create(dir.join("same_instant.lock")).ok()?;
    f.lock().ok()?;
    Some(f)
}

fn cache_race(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = mat()?;
    let n = 8;
    let rounds = src.size(10, 60);
    let enc = src.chance(1, 3);
    let destroy = src.below(4);
    let seed = src.below(1 << 32);
    ctx.say(format!("{n} threads, {rounds} rounds of {} caches, {destroy}/4 destroyed at the same time", if enc { "encryption" } else { "decryption" }));
    ctx.nontrivial_if(rounds >= 20);
    let _lock = exclusive();
    let gate = Arc::new(Gate { n, arrived: Default::default() });
    let joins: Vec<_> = (0..n)
        .map(|t| {
            let (m, gate) = (m.clone(), gate.clone());
            std::thread::spawn(move || {
                let mut rng = Prng::new(seed ^ (t as u64 + 1) << 40);
                let (mut alive, mut gone): (Vec<(i32, usize)>, Vec<i32>) = (vec![], vec![]);
                let mut failed = None;
                for r in 0..rounds {
                    let a = rng.next() as usize % 2;
                    let kill = alive.len() > 1 && rng.next() % 4 < destroy;
                    gate.pass(r);
                    if kill {
                        let (h, _) = alive.swap_remove(rng.next() as usize % alive.len());
                        if enc { c::destroy_enc(h) } else { c::destroy_dec(h) };
                        gone.push(h);
                        continue;
                    }
                    let (rc, h) = if enc { c::create_enc(Some(&m.policies[0].1), Some(&m.pks[a])) } else { c::create_dec(Some(&m.users[3 * a].2)) };
                    if rc != 0 {
                        failed = Some(rc);
                        continue;
                    }
                    alive.push((h, a));
                }
                (alive, gone, failed)
            })
        })
        .collect();
    let (mut alive, mut all) = (vec![], vec![]);
    let mut res: R = Ok(());
    for j in joins {
        match j.join() {
            Ok((a, g, f)) => {
                all.extend(a.iter().map(|x| x.0));
                all.extend(g);
                alive.extend(a);
                if let Some(rc) = f {
                    res = res.and(Err(Fail::from(format!("creating a cache failed ({rc})"))));
                }
            }
            Err(_) => res = res.and(Err(Fail::from(format!("a thread panicked: {}", last_panic())))),
        }
    }
    drop(_lock);
    let r = res.and_then(|_| {
        let k = all.len();
        all.sort_unstable();
        all.dedup();
        ensure!(ctx, all.len() == k, "{} caches created at the same time share a handle with another one", k - all.len());
        for (h, a) in alive.iter().step_by(1 + alive.len() / 12) {
            if enc {
                let w = &m.policies[0].0;
                let hd = c_enc(ctx, With::Cache(*h), &w.attributes(&m.attrs[0]), Some(&[1]), Some(b"data"))?
                    .map_err(|e| Fail::from(format!("encryption cache {h} is alive and refused: {e}")))?;
                check_enc(ctx, &m, (0, *a), 0, 3 * a, &hd)?;
            } else {
                let u = 3 * a;
                let x = m.headers.iter().position(|hd| hd.0 == m.users[u].0 && m.users[u].1.eval(&hd.1)).unwrap();
                let r = c_dec(ctx, By::Cache(*h), &m.headers[x].2, true, true)?;
                check_dec(ctx, &m, u, x, &r)?;
            }
        }
        Ok(())
    });
    for (h, _) in &alive {
        if enc { c::destroy_enc(*h) } else { c::destroy_dec(*h) };
    }
    r
}

/// The error with the numbers it quotes taken out.
fn no_digits(e: &str) -> String {
    e.chars().filter(|c| !c.is_ascii_digit() && *c != '-').collect()
}
/// Uses a cache in the cheapest way: with an attribute that the policy does
/// not have, or a header that is too short. Always an error.
fn touch(enc: bool, h: i32) -> Result<String, Fail> {
    let rc = if enc {
        let (mut k, mut o) = (Out::new(64), Out::new(64));
        c::enc_header(&mut k, &mut o, With::Cache(h), Some(br#"["No::no"]"#), Some(&[1]), None)
    } else {
        let mut k = Out::new(32);
        c::dec_header(&mut k, &mut Out::null(0), &mut Out::null(0), Some(&[0, 0, 0, 9]), By::Cache(h))
    };
    if rc == 0 {
        fail!("a call that cannot succeed returned 0");
    }
    Ok(no_digits(&c::take_err()))
}

fn cache_present(src: &mut Src, ctx: &mut Ctx) -> R {
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
    let m = mat()?;
    let enc = src.chance(1, 2);
    let (makers, users) = *src.pick(&[(1usize, 7usize), (2, 6), (4, 4), (6, 2), (7, 1)]);
    let destroy = src.below(4);
    let full = src.chance(1, 3);
    let millis = 150 + src.below(150);
    let seed = src.below(1 << 32);
    let create = {
        let m = m.clone();
        move |a: usize| if enc { c::create_enc(Some(&m.policies[0].1), Some(&m.pks[a])) } else { c::create_dec(Some(&m.users[3 * a].2)) }
    };
    let kill = move |h: i32| if enc { c::destroy_enc(h) } else { c::destroy_dec(h) };
    let lock = exclusive();
    let mut old = vec![];
    for a in 0..4 {
        let (rc, h) = create(a % 2);
        ensure!(ctx, rc == 0, "creating a cache failed");
        old.push((h, a % 2));
    }
    // what the two situations look like
    let gone = {
        let (rc, h) = create(0);
        ensure!(ctx, rc == 0, "creating a cache failed");
        kill(h);
        touch(enc, h)?
    };
    let known = touch(enc, old[0].0)?;
    let distinct = gone != known;
    let (stop, made, touched) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let (gone, old) = (Arc::new(gone), Arc::new(old));
    let mut joins: Vec<std::thread::JoinHandle<R>> = vec![];
    for t in 0..makers {
        let (stop, made, create) = (stop.clone(), made.clone(), create.clone());
        joins.push(std::thread::spawn(move || {
            let mut rng = Prng::new(seed ^ (t as u64 + 1) << 40);
            let mut mine = vec![];
            let mut r = Ok(());
            while !stop.load(SeqCst) {
                let (rc, h) = create(rng.next() as usize % 2);
                if rc != 0 {
                    r = Err(Fail::from(format!("creation failed ({rc})")));
                    break;
                }
                made.fetch_add(1, SeqCst);
                mine.push(h);
                if rng.next() % 4 < destroy || mine.len() > 200 {
                    kill(mine.swap_remove(rng.next() as usize % mine.len()));
                }
            }
            mine.into_iter().for_each(|h| {
                kill(h);
            });
            r
        }));
    }
    for t in 0..users {
        let (stop, touched, m, old, gone) = (stop.clone(), touched.clone(), m.clone(), old.clone(), gone.clone());
        joins.push(std::thread::spawn(move || {
            let ctx = &mut Ctx::default();
            while !stop.load(SeqCst) {
                for (h, a) in old.iter() {
                    if full && t == 0 {
                        if enc {
                            let w = &m.policies[0].0;
                            let hd = c_enc(ctx, With::Cache(*h), &w.attributes(&m.attrs[0]), Some(&[1]), Some(b"data"))?
                                .map_err(|e| Fail::from(format!("encryption cache {h} is alive and refused: {e}")))?;
                            check_enc(ctx, &m, (0, *a), 0, 3 * a, &hd)?;
                        } else {
                            let u = 3 * a;
                            let x = m.headers.iter().position(|hd| hd.0 == m.users[u].0 && m.users[u].1.eval(&hd.1)).unwrap();
                            let r = c_dec(ctx, By::Cache(*h), &m.headers[x].2, true, true)?;
                            check_dec(ctx, &m, u, x, &r)?;
                        }
                        continue;
                    }
                    for _ in 0..50 {
                        touched.fetch_add(1, SeqCst);
                        if distinct && touch(enc, *h)? == *gone {
                            fail!("{} cache {h} is alive and unknown: {}", if enc { "encryption" } else { "decryption" }, gone);
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    std::thread::sleep(std::time::Duration::from_millis(millis));
    stop.store(true, SeqCst);
    let mut res: R = Ok(());
    for j in joins {
        match j.join() {
            Ok(r) => res = res.and(r),
            Err(_) => res = res.and(Err(Fail::from(format!("a thread panicked: {}", last_panic())))),
        }
    }
    drop(lock);
    old.iter().for_each(|(h, _)| {
        kill(*h);
    });
    ctx.say(format!("{} caches, {makers} threads creating, {users} using them{}", if enc { "encryption" } else { "decryption" }, if full { ", with complete operations" } else { "" }));
    ctx.nontrivial_if(distinct && touched.load(SeqCst) >= 1000 && made.load(SeqCst) >= 20);
    res
}

/// The smallest material there is: creating a cache takes the least time, so
/// that threads meet often inside the library.
struct Small {
    policy: Vec<u8>,
    /// per authority: public key, user key, header, its symmetric key
    of: Vec<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>,
    world: World,
}
fn small() -> Result<Arc<Small>, Fail> {
    thread_local!(static SMALL: RefCell<Option<Arc<Small>>> = const { RefCell::new(None) });
    if let Some(m) = SMALL.with(|c| c.borrow().clone()) {
        return Ok(m);
    }
    let world = World::new(vec![Axis { name: "A".into(), attrs: vec!["1".into()], hier: false }], 1);
    let mut of = vec![];
    for _ in 0..2 {
        let m = new_master::<Real>(&world.policy)?;
        let k = keygen::<Real>(&world.policy, &m, &F::A((0, 0)).ap(&world))?;
        let meta = Metadata { uid: vec![7], additional_data: None };
        let (key, h) = native_enc(&world.policy, &m.pk, &world.attributes(&[(0, 0)]), meta)?.map_err(Fail::from)?;
        of.push((ser("pk", &m.pk)?, ser("user key", &k)?, h, key));
    }
    let s = Arc::new(Small { policy: pol(&world.policy), of, world });
    SMALL.with(|c| *c.borrow_mut() = Some(s.clone()));
    Ok(s)
}
fn small_works(ctx: &mut Ctx, m: &Small, enc: bool, h: i32, a: usize) -> R {
    let of = &m.of[a];
    if enc {
        let hd = c_enc(ctx, With::Cache(h), &m.world.attributes(&[(0, 0)]), Some(&[1]), None)?
            .map_err(|e| Fail::from(format!("encryption cache {h} is alive and refused: {e}")))?;
        let d = c_dec(ctx, By::Key(Some(&of.1)), &hd.1, false, false)?.map_err(|e| Fail::from(format!("a header of encryption cache {h} does not open: {e}")))?;
        ensure!(ctx, d.0 == hd.0, "a header of encryption cache {h} gives another symmetric key");
    } else {
        let d = c_dec(ctx, By::Cache(h), &of.2, false, false)?.map_err(|e| Fail::from(format!("decryption cache {h} is alive and refused: {e}")))?;
        ensure!(ctx, d.0 == of.3, "decryption cache {h} gives another symmetric key");
    }
    Ok(())
}
fn cache_bulk(src: &mut Src, ctx: &mut Ctx) -> R {
    let per = 530 + src.below(80) as usize;
    bulk(src, ctx, per)
}
fn cache_long(src: &mut Src, ctx: &mut Ctx) -> R {
    let per = 8_250 + src.below(20) as usize;
    bulk(src, ctx, per)
}
fn bulk(src: &mut Src, ctx: &mut Ctx, per: usize) -> R {
    let m = small()?;
    let n = 8;
    let enc = src.chance(1, 2);
    let keep_every = *src.pick(&[50usize, 200, 1000]);
    ctx.say(format!("{n} threads, {per} {} caches each, one in {keep_every} kept", if enc { "encryption" } else { "decryption" }));
    ctx.nontrivial = true;
    let lock = exclusive();
    let gate = Arc::new(Gate { n, arrived: Default::default() });
    let joins: Vec<_> = (0..n)
        .map(|t| {
            let (m, gate) = (m.clone(), gate.clone());
            std::thread::spawn(move || {
                let (mut keep, mut all) = (vec![], Vec::with_capacity(per));
                let a = t % 2;
                gate.pass(0);
                for i in 0..per {
                    let (rc, h) = if enc { c::create_enc(Some(&m.policy), Some(&m.of[a].0)) } else { c::create_dec(Some(&m.of[a].1)) };
                    if rc != 0 {
                        return Err(format!("creation {i} failed ({rc})"));
                    }
                    all.push(h);
                    if i < 2 || i + 2 >= per || i % keep_every == 0 {
                        keep.push((h, a));
                    } else if (if enc { c::destroy_enc(h) } else { c::destroy_dec(h) }) != 0 {
                        return Err(format!("destroying cache {h}, just created, failed: {}", c::take_err()));
                    }
                }
                Ok((keep, all))
            })
        })
        .collect();
    let (mut alive, mut all, mut res) = (vec![], vec![], Ok(()));
    for j in joins {
        match j.join() {
            Ok(Ok((k, a))) => {
                alive.extend(k);
                all.extend(a);
            }
            Ok(Err(e)) => res = Err(Fail::from(e)),
            Err(_) => res = Err(Fail::from(format!("a thread panicked: {}", last_panic()))),
        }
    }
    drop(lock);
    let r = res.and_then(|_| {
        let k = all.len();
        all.sort_unstable();
        all.dedup();
        ensure!(ctx, all.len() == k, "{} of {k} handles were given out twice", k - all.len());
        for (h, a) in alive.iter().step_by(1 + alive.len() / 60) {
            small_works(ctx, &m, enc, *h, *a)?;
        }
        Ok(())
    });
    for (h, _) in &alive {
        if enc { c::destroy_enc(*h) } else { c::destroy_dec(*h) };
    }
    r
}

/// per kind: alive with their material, destroyed
type Made = [(Vec<(i32, usize)>, Vec<i32>); 2];

fn cache_creations(src: &mut Src, ctx: &mut Ctx) -> R {
    let m = mat()?;
    let n_threads = src.size(2, 8);
    let per = src.size(10, 60);
    ctx.say(format!("{n_threads} threads, {per} creations each"));
    ctx.nontrivial_if(n_threads * per >= 100);
    let seed = src.below(1 << 32);
    let barrier = Arc::new(Barrier::new(n_threads));
    let joins: Vec<_> = (0..n_threads)
        .map(|t| {
            let (m, b) = (m.clone(), barrier.clone());
            std::thread::spawn(move || -> Result<Made, Fail> {
                let mut rng = Prng::new(seed ^ (t as u64 + 1) << 40);
                let mut mine: Vec<(i32, usize)> = vec![];
                let mut gone = vec![];
                let mut mine_e: Vec<(i32, usize)> = vec![];
                let mut gone_e = vec![];
                b.wait();
                for _ in 0..per {
                    if rng.next() % 4 == 0 {
                        let which = rng.next() as usize % 4;
                        let (rc, h) = c::create_enc(Some(&m.policies[which / 2].1), Some(&m.pks[which % 2]));
                        if rc != 0 {
                            fail!("creation of an encryption cache failed ({rc})");
                        }
                        mine_e.push((h, which));
                        if rng.next() % 4 == 0 {
                            let (h, _) = mine_e.swap_remove(rng.next() as usize % mine_e.len());
                            c::destroy_enc(h);
                            gone_e.push(h);
                        }
                        continue;
                    }
                    // the keys with the fewest elements
                    let u = [0, 1, 3, 4][rng.next() as usize % 4];
                    let (rc, h) = c::create_dec(Some(&m.users[u].2));
                    if rc != 0 {
                        fail!("creation failed ({rc})");
                    }
                    mine.push((h, u));
                    if rng.next() % 4 == 0 {
                        let (h, _) = mine.swap_remove(rng.next() as usize % mine.len());
                        c::destroy_dec(h);
                        gone.push(h);
                    }
                }
                Ok([(mine, gone), (mine_e, gone_e)])
            })
        })
        .collect();
    let mut alive = vec![];
    let mut alive_e = vec![];
    let mut seen = [BTreeSet::new(), BTreeSet::new()];
    let mut res: R = Ok(());
    for j in joins {
        match j.join() {
            Ok(Ok([(a, g), (ae, ge)])) => {
                for (i, mut hs) in [a.iter().map(|x| x.0).chain(g).collect::<Vec<_>>(), ae.iter().map(|x| x.0).chain(ge).collect()].into_iter().enumerate() {
                    for h in hs.drain(..) {
                        if !seen[i].insert(h) {
                            res = res.and(Err(Fail::from(format!("handle {h} was given out twice"))));
                        }
                    }
                }
                alive.extend(a);
                alive_e.extend(ae);
            }
            Ok(Err(f)) => res = res.and(Err(f)),
            Err(_) => res = res.and(Err(Fail::from(format!("a thread panicked: {}", last_panic())))),
        }
    }
    let r = res.and_then(|_| {
        for (i, (h, u)) in alive.iter().enumerate() {
            // each cache must exist and answer for its own key: the header of
            // its own authority and attribute for a sample, existence for all
            let x = m.headers.iter().position(|hd| hd.0 == m.users[*u].0 && m.users[*u].1.eval(&hd.1)).unwrap();
            if i % 8 == 0 {
                let r = c_dec(ctx, By::Cache(*h), &m.headers[x].2, true, true)?;
                check_dec(ctx, &m, *u, x, &r)?;
            } else {
                let mut k = Out::new(32);
                let rc = c::dec_header(&mut k, &mut Out::null(0), &mut Out::null(0), Some(&[0, 0, 0, 9]), By::Cache(*h));
                let e = c::take_err();
                ensure!(ctx, rc != 0 && !e.contains("no decryption cache"), "cache {h} vanished: {e}");
            }
        }
        for (i, (h, which)) in alive_e.iter().enumerate() {
            if i % 4 == 0 {
                let w = &m.policies[which / 2].0;
                let hd = c_enc(ctx, With::Cache(*h), &w.attributes(&m.attrs[2]), Some(&[3]), Some(b"data"))?
                    .map_err(|e| Fail::from(format!("encryption cache {h} refused: {e}")))?;
                let u = m.users.iter().position(|u| u.0 == which % 2).unwrap();
                check_enc(ctx, &m, (which / 2, which % 2), 2, u, &hd)?;
            }
        }
        Ok(())
    });
    for (h, _) in &alive {
        c::destroy_dec(*h);
    }
    for (h, _) in &alive_e {
        c::destroy_enc(*h);
    }
    r
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Debug)]
enum E {
    Fail(u64),
    Work(u64),
    Set(Vec<u8>),
    Read(usize),
    BadRead(u64),
}
fn gen_text(src: &mut Src) -> Vec<u8> {
    match src.below(8) {
        0 => vec![],
        1 => b"%s%n%d {} {0} \\ \" '".to_vec(),
        2 => "é日本🦀".repeat(src.size(1, 8)).into_bytes(),
        3 => vec![0xff, 0xfe, b'a'], // not UTF-8
        4 => vec![b'x'; if src.chance(1, 10) { src.size(6000, 70_000) } else { src.size(100, 6000) }],
        5 => b"line\nline\ttab\r".to_vec(),
        _ => {
            let n = src.size(1, 60);
            src.blob(n).iter().map(|b| b % 95 + 32).collect()
        }
    }
}
fn gen_e(src: &mut Src) -> E {
    match src.below(10) {
        0..=2 => E::Fail(src.below(8)),
        3 => E::Work(src.below(4)),
        4 | 5 => E::Set(gen_text(src)),
        6 => E::BadRead(src.below(3)),
        _ => E::Read(match src.below(5) {
            0 => 1,
            1 => 2,
            2 => src.size(1, 30),
            3 => src.size(10, 100),
            _ => *src.pick(&[8000, 8000, 80_000, 65_536, 65_600]),
        }),
    }
}
/// A call that fails without doing any cryptography; 0 = it did not fail.
fn failing(k: u64) -> i32 {
    let mut o = Out::new(64);
    let mut p = Out::new(64);
    match k {
        0 => c::master_keys(&mut o, None),
        1 => c::master_keys(&mut o, Some(b"{")),
        2 => c::rotate(&mut o, Some(b"[]"), Some(b"[]")),
        3 => c::enc_header(&mut o, &mut p, With::Cache(-3), Some(b"[]"), None, None),
        4 => c::dec_header(&mut o, &mut Out::null(0), &mut Out::null(0), Some(&[1, 2, 3]), By::Cache(-4)),
        5 => c::enc_block(&mut o, Some(&[7; 31]), None, 0, Some(b"x")),
        6 => c::dec_block(&mut o, Some(&[7; 32]), None, 0, Some(&[9; 40])),
        _ => c::create_dec(Some(b"\0\0\0\x01")).0,
    }
}
fn working(k: u64) -> i32 {
    let mut o = Out::new(64);
    match k {
        0 => c::enc_block(&mut o, Some(&[7; 32]), None, 0, Some(b"x")),
        1 => c::destroy_dec(-9),
        2 => 28 - c::overhead(),
        _ => c::destroy_enc(-9),
    }
}
#[derive(Clone, Debug)]
enum Pend {
    None,
    /// a message set explicitly
    Exactly(Vec<u8>),
    /// some message, of this failing call if known
    Some(Option<u64>),
    /// a successful call followed a failing one
    Maybe,
}
/// One step on the current thread.
fn err_step(ctx: &mut Ctx, pend: &mut Pend, e: &E) -> Result<bool, Fail> {
    let mut read_pending = false;
    match e {
        E::Fail(k) => {
            let rc = failing(*k);
            ensure!(ctx, rc != 0, "failing call {k} succeeded");
            *pend = Pend::Some(Some(*k));
        }
        E::Work(k) => {
            let rc = working(*k);
            ensure!(ctx, rc == 0, "working call {k} failed");
            if !matches!(pend, Pend::None) {
                *pend = Pend::Maybe;
            }
        }
        E::Set(t) => {
            let rc = c::set_err(Some(t));
            if std::str::from_utf8(t).is_ok() {
                ensure!(ctx, rc == 0, "set_error failed");
                *pend = Pend::Exactly(t.clone());
            } else {
                ensure!(ctx, rc != 0, "set_error accepted text that is not UTF-8");
                *pend = Pend::Some(None);
            }
        }
        E::BadRead(k) => {
            // refused, and nothing is consumed
            let rc = match k {
                0 => c::last_err(&mut Out::null(10)),
                1 => c::last_err(&mut Out::new(0)),
                _ => {
                    let mut o = Out::new(8);
                    o.len = -1;
                    c::last_err(&mut o)
                }
            };
            ensure!(ctx, rc != 0, "reading the error without a buffer succeeded");
        }
        E::Read(n) => {
            let mut o = Out::new(*n);
            let rc = c::last_err(&mut o);
            ensure!(ctx, rc == 0 && o.intact(), "get_last_error: code {rc}, guard zones {}", o.intact());
            ensure!(ctx, o.len >= 0 && (o.len as usize) < *n, "get_last_error reports {} bytes in a buffer of {n}", o.len);
            let got = o.bytes().to_vec();
            ensure!(ctx, o.whole()[got.len()] == 0, "the message is not NUL-terminated at its reported length");
            ensure!(ctx, !got.contains(&0), "the message has a NUL inside");
            let prefix_of = |full: &[u8]| {
                // cut at the buffer, possibly a few bytes before, at a character
                let want = full.len().min(n - 1);
                full.starts_with(&got) && got.len() <= want && got.len() + if full.is_ascii() { 0 } else { 3 } >= want
            };
            match pend.clone() {
                Pend::None => ensure!(ctx, got.is_empty(), "a message appears without an error, or twice: {:?}", String::from_utf8_lossy(&got)),
                Pend::Exactly(t) => {
                    read_pending = true;
                    let mut full = b"FFI error: ".to_vec();
                    full.extend(&t);
                    ensure!(ctx, prefix_of(&full), "message {:?} for {:?} in {n} bytes", String::from_utf8_lossy(&got), String::from_utf8_lossy(&full));
                }
                Pend::Some(k) => {
                    read_pending = true;
                    ensure!(ctx, *n == 1 || !got.is_empty(), "no message after a failing call");
                    if let Some(k) = k {
                        failing(k);
                        let mut o = Out::new(8192);
                        c::last_err(&mut o);
                        let full = o.bytes().to_vec();
                        ensure!(ctx, !full.is_empty(), "no message after a failing call");
                        ensure!(ctx, prefix_of(&full), "message {:?} cut from {:?} in {n} bytes", String::from_utf8_lossy(&got), String::from_utf8_lossy(&full));
                    }
                }
                Pend::Maybe => {}
            }
            *pend = Pend::None;
        }
    }
    Ok(read_pending)
}

fn err_schedule(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(1, 4);
    let steps: Vec<(usize, E)> = (0..src.size(3, 24)).map(|_| (src.idx(n), gen_e(src))).collect();
    ctx.say(steps.iter().map(|(t, e)| match e {
        E::Set(s) => format!("{t}:Set({} bytes)", s.len()),
        e => format!("{t}:{e:?}"),
    }).collect::<Vec<_>>().join(" "));
    // a fresh thread each: a clean slate; the schedule is exact (one step at a time)
    let mut tx = vec![];
    let mut joins = vec![];
    let (btx, brx) = mpsc::channel::<(u64, Result<bool, Fail>)>();
    for _ in 0..n {
        let (t, r) = mpsc::channel::<E>();
        tx.push(t);
        let b = btx.clone();
        joins.push(std::thread::spawn(move || {
            let mut pend = Pend::None;
            while let Ok(e) = r.recv() {
                let mut ctx = Ctx::default();
                let x = no_panic("error channel", || err_step(&mut ctx, &mut pend, &e)).and_then(|x| x);
                if b.send((ctx.checks, x)).is_err() {
                    break;
                }
            }
        }));
    }
    let mut reads = 0;
    let r: R = (|| {
        for (t, e) in steps {
            tx[t].send(e).map_err(|_| Fail::from("a thread died"))?;
            let (checks, x) = brx.recv().map_err(|_| Fail::from("a thread died"))?;
            ctx.checks += checks;
            reads += u32::from(x?);
        }
        // nothing is left over, after one more read each
        for t in &tx {
            for last in [false, true] {
                t.send(E::Read(8000)).map_err(|_| Fail::from("a thread died"))?;
                let (checks, x) = brx.recv().map_err(|_| Fail::from("a thread died"))?;
                ctx.checks += checks;
                let p = x?;
                ensure!(ctx, !(last && p), "two messages were pending");
            }
        }
        Ok(())
    })();
    drop(tx);
    for j in joins {
        let _ = j.join();
    }
    ctx.nontrivial_if(reads >= 2);
    r
}

fn err_concurrent(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(2, 8);
    let plans: Vec<Vec<E>> = (0..n).map(|_| (0..src.size(5, 40)).map(|_| gen_e(src)).collect()).collect();
    ctx.say(format!("{n} threads, {} steps", plans.iter().map(Vec::len).sum::<usize>()));
    ctx.nontrivial_if(n >= 3);
    let barrier = Arc::new(Barrier::new(n));
    let joins: Vec<_> = plans
        .into_iter()
        .map(|p| {
            let b = barrier.clone();
            std::thread::spawn(move || -> Result<u64, Fail> {
                let mut ctx = Ctx::default();
                let mut pend = Pend::None;
                b.wait();
                for e in &p {
                    err_step(&mut ctx, &mut pend, e)?;
                }
                Ok(ctx.checks)
            })
        })
        .collect();
    let mut r: R = Ok(());
    for j in joins {
        match j.join() {
            Ok(Ok(k)) => ctx.checks += k,
            Ok(Err(f)) => r = r.and(Err(f)),
            Err(_) => r = r.and(Err(Fail::from(format!("a thread panicked: {}", last_panic())))),
        }
    }
    r
}

/// One output is null or has no size.
fn no_buffer(src: &mut Src, ctx: &mut Ctx) -> R {
    let v = valid()?;
    let which = src.below(8);
    let outputs = match which {
        3 | 4 => 2,
        5 | 6 => 3,
        _ => 1,
    };
    let bad = src.idx(outputs);
    let null = src.chance(1, 3);
    let size = match src.below(6) {
        0 if null => 40,
        0 | 1 => 0,
        2 => -1,
        3 => i32::MIN,
        4 => -(src.size(1, 5000) as i32),
        _ => -(1 << src.below(31)),
    };
    let mandatory = outputs < 3 || bad == 0;
    if !mandatory && null && size != 0 && src.chance(1, 2) {
        ctx.label("optional output null");
    }
    let (ki, hi) = (3, src.idx(v.headers.len()));
    let (enc_h, dec_h) = match which {
        4 => {
            let (rc, h) = c::create_enc(Some(&v.policy), Some(&v.pk));
            if rc != 0 {
                return Err(call_err("cache creation", rc));
            }
            (h, 0)
        }
        6 => {
            let (rc, h) = c::create_dec(Some(&v.keys[ki]));
            if rc != 0 {
                return Err(call_err("cache creation", rc));
            }
            (0, h)
        }
        _ => (0, 0),
    };
    let call = |o: &mut [Out; 3]| -> (&str, i32) {
        let [a, b, d] = o;
        match which {
            0 => ("h_generate_master_keys", c::master_keys(a, Some(&v.policy))),
            1 => ("h_generate_user_private_key", c::user_key(a, Some(&v.sk), Some(&v.aps[0]), Some(&v.policy))),
            2 => ("h_rotate_attributes", c::rotate(a, Some(&v.attrs[0]), Some(&v.policy))),
            3 => ("h_aes_encrypt_header", c::enc_header(a, b, With::Direct(Some(&v.policy), Some(&v.pk)), Some(&v.attrs[0]), Some(b"u"), None)),
            4 => ("h_aes_encrypt_header_using_cache", c::enc_header(a, b, With::Cache(enc_h), Some(&v.attrs[0]), Some(b"u"), None)),
            5 => ("h_aes_decrypt_header", c::dec_header(a, b, d, Some(&v.headers[hi]), By::Key(Some(&v.keys[ki])))),
            6 => ("h_aes_decrypt_header_using_cache", c::dec_header(a, b, d, Some(&v.headers[hi]), By::Cache(dec_h))),
            _ => ("h_aes_encrypt_block", c::enc_block(a, Some(&[7; 32]), Some(b"id"), 3, Some(b"hello"))),
        }
    };
    let buffers = || [Out::new(16 << 10), Out::new(16 << 10), Out::new(16 << 10)];
    let mut o = buffers();
    o[bad] = if null { Out::null(size) } else { Out::guarded(8, 16 << 10) };
    o[bad].len = size;
    let (name, rc) = call(&mut o);
    ctx.say(format!("{name}: output {bad} {} size {size}: {rc}", if null { "null" } else { "present" }));
    let e = c::take_err();
    let mut all = buffers();
    let (_, rc2) = call(&mut all);
    let e2 = c::take_err();
    if enc_h != 0 {
        c::destroy_enc(enc_h);
    }
    if dec_h != 0 {
        c::destroy_dec(dec_h);
    }
    ensure!(ctx, o[bad].untouched(), "{name} wrote to output {bad}, declared with size {size}");
    intact(ctx, name, &[&o[0], &o[1], &o[2], &all[0], &all[1], &all[2]])?;
    if mandatory {
        ensure!(ctx, rc != 0, "{name} succeeded although its output {bad} is {} with size {size}", if null { "null" } else { "declared" });
        ensure!(ctx, !e.is_empty(), "{name}: no message for a missing output");
        ctx.nontrivial = true;
    } else {
        ensure!(ctx, rc == rc2, "{name} without the optional output {bad}: {rc} {e}; with it: {rc2} {e2}");
        if rc == 0 {
            for i in (0..3).filter(|i| *i != bad) {
                ensure!(ctx, o[i].bytes() == all[i].bytes(), "{name} without the optional output {bad}: output {i} differs");
            }
        }
    }
    // refused headers are refused either way
    ensure!(ctx, rc2 == 0 || which == 5 || which == 6, "{name} fails with all buffers: {e2}");
    ctx.label(name);
    Ok(())
}

// ------------------------------------------------------------------ C24

/// An input whose declared size is zero or negative.
fn odd_sizes(src: &mut Src, ctx: &mut Ctx) -> R {
    let v = valid()?;
    let which = src.below(9);
    let slots: &[usize] = match which {
        0 | 1 | 4 => &[1],
        2 => &[1, 3, 4],
        3 => &[3, 4],
        5 => &[2],
        6 => &[1, 2],
        7 | 8 => &[1, 2, 3],
        _ => &[],
    };
    let slot = *src.pick(slots);
    let size = match src.below(5) {
        0 => 0,
        1 => -1,
        2 => i32::MIN,
        3 => -(src.size(1, 5000) as i32),
        _ => -(1 << src.below(31)),
    };
    let hi = src.idx(v.headers.len());
    let mut o = [Out::new(8192), Out::new(8192), Out::new(8192)];
    let (eh, dh) = match which {
        3 => (c::create_enc(Some(&v.policy), Some(&v.pk)).1, 0),
        5 => (0, c::create_dec(Some(&v.keys[3])).1),
        _ => (0, 0),
    };
    let (name, rc) = with_alloc_limit(ALLOC, || {
        c::declaring(slot, size, || {
            let [a, b, d] = &mut o;
            match which {
                0 => ("h_generate_user_private_key", c::user_key(a, Some(&v.sk), Some(&v.aps[0]), Some(&v.policy))),
                1 => ("h_aes_create_encryption_cache", c::create_enc(Some(&v.policy), Some(&v.pk)).0),
                2 => ("h_aes_encrypt_header", c::enc_header(a, b, With::Direct(Some(&v.policy), Some(&v.pk)), Some(&v.attrs[0]), Some(b"resource"), Some(b"more"))),
                3 => ("h_aes_encrypt_header_using_cache", c::enc_header(a, b, With::Cache(eh), Some(&v.attrs[0]), Some(b"resource"), Some(b"more"))),
                4 => ("h_aes_create_decryption_cache", c::create_dec(Some(&v.keys[0])).0),
                5 => ("h_aes_decrypt_header_using_cache", c::dec_header(a, b, d, Some(&v.headers[hi]), By::Cache(dh))),
                6 => ("h_aes_decrypt_header", c::dec_header(a, b, d, Some(&v.headers[hi]), By::Key(Some(&v.keys[3])))),
                7 => ("h_aes_encrypt_block", c::enc_block(a, Some(&[7; 32]), Some(b"id"), 3, Some(b"hello"))),
                _ => ("h_aes_decrypt_block", c::dec_block(a, Some(&[7; 32]), Some(b"id"), 3, Some(&v.block))),
            }
        })
    });
    ctx.say(format!("{name}: input {slot} declared with size {size}: {rc}"));
    let e = c::take_err();
    if eh != 0 {
        c::destroy_enc(eh);
    }
    if dh != 0 {
        c::destroy_dec(dh);
    }
    intact(ctx, name, &[&o[0], &o[1], &o[2]])?;
    if slot <= 2 {
        ensure!(ctx, rc != 0, "{name} succeeds with an input of size {size}");
    }
    ensure!(ctx, rc == 0 || !e.is_empty(), "{name} fails without a message");
    ctx.nontrivial_if(rc != 0);
    ctx.label(name);
    // the header size query too
    let n = c::declaring(2, size, || c::header_size(Some(&v.headers[hi])));
    c::take_err();
    ensure!(ctx, n <= 4, "h_get_encrypted_header_size of {size} bytes is {n}");
    healthy(ctx)
}

struct Valid {
    policy: Vec<u8>,
    sk: Vec<u8>,
    pk: Vec<u8>,
    keys: Vec<Vec<u8>>,
    headers: Vec<Vec<u8>>,
    aps: Vec<Vec<u8>>,
    attrs: Vec<Vec<u8>>,
    block: Vec<u8>,
}
thread_local! {
    static VALID: RefCell<Option<Rc<Valid>>> = const { RefCell::new(None) };
}
fn valid() -> Result<Rc<Valid>, Fail> {
    if let Some(v) = VALID.with(|c| c.borrow().clone()) {
        return Ok(v);
    }
    let p = pool()?;
    let v = Rc::new(Valid {
        policy: pol(&p.policy),
        sk: ser("sk", &p.m.sk)?,
        pk: ser("pk", &p.m.pk)?,
        keys: p.key_bytes.clone(),
        headers: p.headers.clone(),
        aps: p.aps.iter().map(js).collect(),
        attrs: (1..=3).map(|n| js(&p.attrs[..n].to_vec())).collect(),
        block: encrypt_hybrid_block::<Real, H, 4096>(&hyb::key(&[7; 32])?, b"id", 3, b"hello").map_err(|e| Fail::from(e.to_string()))?,
    });
    VALID.with(|c| *c.borrow_mut() = Some(v.clone()));
    Ok(v)
}
/// offsets of the counts and first elements in the serialized objects
const MARKS: [usize; 12] = [0, 4, 8, 12, 16, 20, 36, 52, 100, 104, 296, 300];

fn bad_bytes(src: &mut Src, good: &[u8], others: &[&[u8]]) -> Option<Vec<u8>> {
    match src.below(12) {
        0 => None,
        1 => Some(vec![]),
        2 => {
            let n = src.size(1, 200);
            Some(src.blob(n))
        }
        3 => Some(src.pick(others).to_vec()),
        k => {
            let mut b = good.to_vec();
            let o = src.pick(others).to_vec();
            for _ in 0..if k < 6 { 2 } else { 1 } {
                mutate(src, &mut b, &MARKS, &o);
            }
            Some(b)
        }
    }
}
fn bad_json(src: &mut Src, good: &[u8]) -> Option<Vec<u8>> {
    match src.below(10) {
        0 => None,
        1 => Some(src.pick(&[&b""[..], b"null", b"[]", b"{}", b"\"\"", b"0", b"\xff\xfe", b"[[[[[[", b"{\"a\":", b"true", b"[null]"]).to_vec()),
        2 => Some(format!("{}1{}", "[".repeat(src.size(100, 3000)), "]".repeat(100)).into_bytes()),
        3 | 4 => {
            let mut b = good.to_vec();
            mutate(src, &mut b, &[], good);
            b.retain(|x| *x != 0);
            Some(b)
        }
        _ => Some(bend_json(src, good)),
    }
}
/// structural mutations
pub fn bend_json(src: &mut Src, good: &[u8]) -> Vec<u8> {
    let Ok(mut v) = serde_json::from_slice::<serde_json::Value>(good) else { return good.to_vec() };
    for _ in 0..src.size(1, 3) {
        let n = count(&v);
        let mut i = src.idx(n);
        bend(src, &mut v, &mut i);
    }
    serde_json::to_vec(&v).unwrap_or_default()
}
fn count(v: &serde_json::Value) -> usize {
    1 + match v {
        serde_json::Value::Array(a) => a.iter().map(count).sum(),
        serde_json::Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}
fn bend(src: &mut Src, v: &mut serde_json::Value, i: &mut usize) {
    use serde_json::{json, Value as V};
    if *i > 0 {
        *i -= 1;
        match v {
            V::Array(a) => {
                for x in a {
                    let n = count(x);
                    if *i < n {
                        return bend(src, x, i);
                    }
                    *i -= n;
                }
            }
            V::Object(o) => {
                for x in o.values_mut() {
                    let n = count(x);
                    if *i < n {
                        return bend(src, x, i);
                    }
                    *i -= n;
                }
            }
            _ => {}
        }
        return;
    }
    let odd = |src: &mut Src| match src.below(9) {
        0 => json!(null),
        1 => json!(-1),
        2 => json!(0),
        3 => json!(1.5),
        4 => json!(u64::MAX),
        5 => json!("x"),
        6 => json!([]),
        7 => json!({}),
        _ => json!(u32::MAX),
    };
    match v {
        V::Number(n) => {
            let near = n.as_u64().unwrap_or(1) as u32;
            *v = if src.chance(3, 4) { json!(odd_u32(src, near)) } else { odd(src) };
        }
        V::String(s) => {
            let t = s.clone();
            *v = match src.below(7) {
                0 => json!(""),
                1 => json!(t.replace("::", ":")),
                2 => json!(format!("{t}::")),
                3 => json!(format!("{t}é\u{1f980}")),
                4 => json!(t.replace('D', "S")),
                5 => json!("::"),
                _ => odd(src),
            };
        }
        V::Array(a) => match src.below(5) {
            0 => {
                a.clear();
            }
            1 if !a.is_empty() => {
                let x = src.pick(a).clone();
                a.push(x);
            }
            2 if !a.is_empty() => {
                let k = src.idx(a.len());
                a.remove(k);
            }
            3 => a.push(json!(odd_u32(src, 3))),
            _ => *v = odd(src),
        },
        V::Object(o) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            match src.below(4) {
                0 if !keys.is_empty() => {
                    o.remove(src.pick(&keys));
                }
                1 if keys.len() > 1 => {
                    // two entries share their contents
                    let x = o[src.pick(&keys)].clone();
                    o.insert(src.pick(&keys).clone(), x);
                }
                2 if !keys.is_empty() => {
                    let k = src.pick(&keys).clone();
                    let x = o.remove(&k).unwrap();
                    o.insert(format!("{k}x"), x);
                }
                _ => *v = odd(src),
            }
        }
        other => *other = odd(src),
    }
}
/// The largest policy for which generating keys takes a moment only.
fn bearable(policy: &Option<Vec<u8>>) -> bool {
    let Some(p) = policy else { return true };
    match serde_json::from_slice::<Policy>(p) {
        Ok(p) => p.max_attribute_creations <= 300,
        Err(_) => true,
    }
}
const ALLOC: usize = 64 << 20;

fn healthy(ctx: &mut Ctx) -> R {
    let v = valid()?;
    let mut k = Out::new(32);
    let mut h = Out::new(8192);
    let rc = c::enc_header(&mut k, &mut h, With::Direct(Some(&v.policy), Some(&v.pk)), Some(&v.attrs[0]), Some(b"u"), None);
    if rc != 0 {
        return Err(call_err("a valid header encryption afterwards", rc));
    }
    let (rc, d) = c::create_dec(Some(&v.keys[3]));
    if rc != 0 {
        return Err(call_err("a valid cache creation afterwards", rc));
    }
    let r = c_dec(ctx, By::Cache(d), h.bytes(), true, true)?;
    c::destroy_dec(d);
    ensure!(ctx, matches!(&r, Ok((x, Some(u), _)) if x == k.bytes() && u == b"u"), "a valid header decryption afterwards failed");
    Ok(())
}

fn malformed(src: &mut Src, ctx: &mut Ctx) -> R {
    let v = valid()?;
    let others: Vec<&[u8]> = vec![&v.sk, &v.pk, &v.keys[0], &v.keys[2], &v.headers[0], &v.headers[1], &v.headers[5], &v.block];
    let mut failed = false;
    for _ in 0..src.size(1, 4) {
        let which = src.below(12);
        // each argument is damaged with probability 1/2
        macro_rules! b {
            ($good:expr) => {{
                let g: &[u8] = $good;
                if src.chance(1, 2) { bad_bytes(src, g, &others) } else { Some(g.to_vec()) }
            }};
        }
        macro_rules! j {
            ($good:expr) => {{
                let g: &[u8] = $good;
                if src.chance(1, 3) { bad_json(src, g) } else { Some(g.to_vec()) }
            }};
        }
        let ki = src.idx(4);
        let hi = src.idx(v.headers.len());
        let (mut o1, mut o2, mut o3) = (Out::new(*src.pick(&[4096usize, 1, 100])), Out::new(8192), Out::new(8192));
        let (name, rc) = with_alloc_limit(ALLOC, || -> (&str, i32) {
            match which {
                0 => {
                    let p = j!(&v.policy);
                    if !bearable(&p) {
                        return ("skipped", 1);
                    }
                    ("h_generate_master_keys", c::master_keys(&mut o1, p.as_deref()))
                }
                1 => {
                    let (k, a, p) = (b!(&v.sk), j!(&v.aps[ki]), j!(&v.policy));
                    ("h_generate_user_private_key", c::user_key(&mut o2, k.as_deref(), a.as_deref(), p.as_deref()))
                }
                2 => {
                    let (a, p) = (j!(&v.attrs[ki % 3]), j!(&v.policy));
                    ("h_rotate_attributes", c::rotate(&mut o2, a.as_deref(), p.as_deref()))
                }
                3 => {
                    let (p, k) = (j!(&v.policy), b!(&v.pk));
                    let (rc, h) = c::create_enc(p.as_deref(), k.as_deref());
                    if rc != 0 {
                        return ("h_aes_create_encryption_cache", rc);
                    }
                    let a = j!(&v.attrs[ki % 3]);
                    let rc = c::enc_header(&mut o1, &mut o2, With::Cache(h), a.as_deref(), Some(b"u"), None);
                    c::destroy_enc(h);
                    ("h_aes_encrypt_header_using_cache", rc)
                }
                4 | 5 => {
                    let (p, k, a) = (j!(&v.policy), b!(&v.pk), j!(&v.attrs[ki % 3]));
                    let (u, d) = (b!(b"resource"), b!(b"more"));
                    ("h_aes_encrypt_header", c::enc_header(&mut o1, &mut o2, With::Direct(p.as_deref(), k.as_deref()), a.as_deref(), u.as_deref(), d.as_deref()))
                }
                6 => {
                    let k = b!(&v.keys[ki]);
                    let (rc, h) = c::create_dec(k.as_deref());
                    if rc != 0 {
                        return ("h_aes_create_decryption_cache", rc);
                    }
                    let hd = b!(&v.headers[hi]);
                    let rc = c::dec_header(&mut o1, &mut o2, &mut o3, hd.as_deref(), By::Cache(h));
                    c::destroy_dec(h);
                    ("h_aes_decrypt_header_using_cache", rc)
                }
                7 | 8 => {
                    let (k, hd) = (b!(&v.keys[ki]), b!(&v.headers[hi]));
                    ("h_aes_decrypt_header", c::dec_header(&mut o1, &mut o2, &mut o3, hd.as_deref(), By::Key(k.as_deref())))
                }
                9 => {
                    let (k, u, d) = (b!(&[7; 32]), b!(b"id"), b!(b"hello"));
                    ("h_aes_encrypt_block", c::enc_block(&mut o2, k.as_deref(), u.as_deref(), odd_u32(src, 3) as i32, d.as_deref()))
                }
                10 => {
                    let (k, u, d) = (b!(&[7; 32]), b!(b"id"), b!(&v.block));
                    ("h_aes_decrypt_block", c::dec_block(&mut o2, k.as_deref(), u.as_deref(), odd_u32(src, 3) as i32, d.as_deref()))
                }
                _ => {
                    let d = b!(&v.headers[hi]);
                    let n = c::header_size(d.as_deref());
                    let _ = n;
                    let h = odd_u32(src, 1) as i32;
                    let rc = if src.chance(1, 2) {
                        c::dec_header(&mut o1, &mut o2, &mut o3, Some(&v.headers[hi]), By::Cache(h))
                    } else {
                        c::enc_header(&mut o1, &mut o2, With::Cache(h), Some(&v.attrs[0]), None, None)
                    };
                    ("cache use with an arbitrary handle", rc)
                }
            }
        });
        ctx.say(format!("{name} {rc}"));
        intact(ctx, name, &[&o1, &o2, &o3])?;
        if rc == 0 {
            ensure!(ctx, o1.fits() && o2.fits() && o3.fits(), "{name} succeeds and reports {} / {} / {} bytes", o1.len, o2.len, o3.len);
        } else if name != "skipped" {
            failed = true;
            let e = c::take_err();
            ensure!(ctx, !e.is_empty(), "{name} fails without a message");
        }
    }
    ctx.nontrivial_if(failed);
    healthy(ctx)
}

fn malformed_policies(src: &mut Src, ctx: &mut Ctx) -> R {
    let v = valid()?;
    let p = bend_json(src, &v.policy);
    let which = src.idx(4);
    let ap = if src.chance(1, 3) { bend_json(src, &v.aps[which]) } else { v.aps[which].clone() };
    let at = if src.chance(1, 3) { bend_json(src, &v.attrs[2]) } else { v.attrs[2].clone() };
    let parsed = serde_json::from_slice::<Policy>(&p).is_ok();
    ctx.label_if(parsed, "policy parses");
    ctx.nontrivial_if(parsed && (p != v.policy || ap.len() != at.len()));
    ctx.say(String::from_utf8_lossy(&p));
    ctx.say(String::from_utf8_lossy(&ap));
    ctx.say(String::from_utf8_lossy(&at));
    let p = Some(p);
    with_alloc_limit(ALLOC, || -> R {
        let mut o = Out::new(32 << 10);
        if bearable(&p) && src.chance(1, 4) {
            c::master_keys(&mut o, p.as_deref());
            intact(ctx, "h_generate_master_keys", &[&o])?;
        }
        let mut o = Out::new(32 << 10);
        let rc = c::user_key(&mut o, Some(&v.sk), Some(&ap), p.as_deref());
        intact(ctx, "h_generate_user_private_key", &[&o])?;
        if rc == 0 {
            de::<Uk<Real>>("user key for a mutated policy", o.bytes())?;
            ctx.label("key issued");
        }
        let mut o = Out::new(32 << 10);
        let rc = c::rotate(&mut o, Some(&at), p.as_deref());
        intact(ctx, "h_rotate_attributes", &[&o])?;
        if rc == 0 {
            serde_json::from_slice::<Policy>(o.bytes()).map_err(|e| Fail::from(format!("rotated policy: {e}")))?;
        }
        let (mut k, mut h) = (Out::new(32), Out::new(32 << 10));
        let rc = c::enc_header(&mut k, &mut h, With::Direct(p.as_deref(), Some(&v.pk)), Some(&at), None, None);
        intact(ctx, "h_aes_encrypt_header", &[&k, &h])?;
        if rc == 0 {
            ctx.label("header made");
        }
        let (rc, eh) = c::create_enc(p.as_deref(), Some(&v.pk));
        if rc == 0 {
            let (mut k, mut h) = (Out::new(32), Out::new(32 << 10));
            c::enc_header(&mut k, &mut h, With::Cache(eh), Some(&at), None, None);
            c::destroy_enc(eh);
        }
        c::take_err();
        Ok(())
    })?;
    if src.chance(1, 4) {
        healthy(ctx)?;
    }
    Ok(())
}
