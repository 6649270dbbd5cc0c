//! C29 C30: what operations depend on, and what they leave behind.
use std::{
    cell::RefCell,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicI64, Ordering},
        Arc, Barrier,
    },
};

use abe_policy::{AccessPolicy, Attribute, Policy};
use cosmian_abe_gpsw::{
    core::{
        bilinear_map::bls12_381::Scalar,
        msp::{policy_to_msp, MonotoneSpanProgram, Node},
    },
    interfaces::hybrid_crypto::{decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block},
};
use cosmian_crypto_base::{symmetric_crypto::Metadata, KeyTrait};
use serde::{Deserialize, Serialize};

use crate::{
    api::*,
    c_abi::{self as c, By, Out, With},
    ensure, fail,
    hyb::{self, H},
    model::*,
    pbt::*,
    props_ffi::{js, native_enc, pol},
    refimpl::{RCt, UserKey},
};

pub fn subs(p: &str) -> Vec<Sub> {
    match p {
        "C29" => vec![Sub {
            name: "same_results",
            rule: "6-16 deterministic operations (span programs, codecs, decryption, symmetric keys, headers, blocks, rotations and the deterministic part of keys and ciphertexts, natively and over C; of many kinds or of three), most of them an earlier one with one argument replaced by a similar one: each gives the same result in that order, again afterwards in another order, on 3 threads at once in their own orders and in a fresh process in reverse order. Non-trivial: at least 2 kinds of operations and a pair that differs in one argument and in the result.",
            quick: 400,
            thorough: 9000,
            run: same_results,
        }],
        "C30" => vec![
            Sub {
                name: "caches",
                rule: "a generated sequence of cache operations over C (creations from valid and damaged material, uses that succeed and fail, destructions, repeated destructions) that destroys all caches it created, repeated 32 times, on one thread or each time on a new one, the last error read or not: the memory held by the library does not keep growing from repetition to repetition. Non-trivial: at least 2 caches created per repetition.",
                quick: 160,
                thorough: 4000,
                run: mem_caches,
            },
            Sub {
                name: "calls",
                rule: "the same for sequences of the other calls, C and native: key generation, headers, blocks, rotations, the error channel, malformed arguments, objects parsed and dropped. Non-trivial: at least 3 calls of which one fails.",
                quick: 200,
                thorough: 8000,
                run: mem_calls,
            },
        ],
        _ => vec![],
    }
}

// ------------------------------------------------------------------ C29

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
enum K {
    Msp,
    Parse,
    ReUk,
    RePk,
    ReSk,
    ReDk,
    ReCt,
    Dec,
    Sym,
    Hdr,
    HdrC,
    HdrCache,
    Blk,
    BlkC,
    RotC,
    Size,
    Encode,
    Span,
    Key,
    KeyC,
    Del,
    Enc,
    EncC,
    EncCache,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    k: K,
    a: Vec<Vec<u8>>,
    n: i64,
}

thread_local! {
    /// arguments are handed over from the same addresses again and again
    static ARGS: RefCell<Vec<Vec<u8>>> = RefCell::new((0..4).map(|_| Vec::with_capacity(64 << 10)).collect());
}

fn lk(h: &Hdr) -> Vec<u8> {
    let mut v = h.0.clone();
    v.extend((h.1.uid.len() as u32).to_be_bytes());
    v.extend(&h.1.uid);
    v.extend(h.1.additional_data.clone().unwrap_or_default());
    v
}
type Hdr = (Vec<u8>, Metadata);
type E = Box<dyn std::error::Error>;

/// the deterministic part of a user key: rows by attribute
fn rows(b: &[u8]) -> Result<Vec<u8>, E> {
    let k = UserKey::dec(b)?;
    let mut r: Vec<(u32, Vec<u8>)> =
        k.msp.attrs.iter().zip(&k.msp.m).map(|(a, m)| (*a, m.iter().flat_map(|s| s.to_bytes()).collect())).collect();
    r.sort();
    Ok(serde_json::to_vec(&r)?)
}
fn gamma(b: &[u8]) -> Result<Vec<u8>, E> {
    let mut g = RCt::dec(b)?.gamma;
    g.sort_unstable();
    Ok(serde_json::to_vec(&g)?)
}
fn c_header(o: (Out, Out, Out), rc: i32) -> Result<Vec<u8>, E> {
    if rc != 0 {
        return Err(c::take_err().into());
    }
    let m = Metadata { uid: o.1.bytes().to_vec(), additional_data: Some(o.2.bytes().to_vec()) };
    Ok(lk(&(o.0.bytes().to_vec(), m)))
}
/// canonical JSON
fn canon(b: &[u8]) -> Result<Vec<u8>, E> {
    let v: serde_json::Value = serde_json::from_slice(b)?;
    Ok(serde_json::to_vec(&v)?)
}

fn eval_op(k: K, a: &[Vec<u8>], n: i64) -> Result<Vec<u8>, E> {
    let en = Engine::<Real>::new();
    let policy = |b: &[u8]| -> Result<Policy, E> { Ok(serde_json::from_slice(b)?) };
    let ap = |b: &[u8]| -> Result<AccessPolicy, E> { Ok(serde_json::from_slice(b)?) };
    let attrs = |b: &[u8]| -> Result<Vec<Attribute>, E> { Ok(serde_json::from_slice(b)?) };
    Ok(match k {
        K::Msp => {
            let (p, f) = (policy(&a[0])?, ap(&a[1])?);
            let m = policy_to_msp(&p, &f)?;
            let mut r: Vec<(u32, Vec<i32>)> = (0..m.rows()).map(|i| (m.get_attr_from_row(i), m.get_row(i).clone())).collect();
            r.sort();
            serde_json::to_vec(&(m.cols(), r))?
        }
        K::Parse => {
            let s = std::str::from_utf8(&a[0])?;
            let nd = Node::parse(s)?;
            let m: MonotoneSpanProgram<i32> = nd.to_msp()?;
            let mut b = nd.to_string().into_bytes();
            b.extend(m.try_into_bytes()?);
            b.extend(MonotoneSpanProgram::<i32>::parse(s)?.try_into_bytes()?);
            b
        }
        K::ReUk => Uk::<Real>::try_from_bytes(&a[0])?.try_into_bytes()?,
        K::RePk => Pk::<Real>::try_from_bytes(&a[0])?.try_into_bytes()?,
        K::ReSk => Sk::<Real>::try_from_bytes(&a[0])?.try_into_bytes()?,
        K::ReDk => Dk::<Real>::try_from_bytes(&a[0])?.try_into_bytes()?,
        K::ReCt => Ct::<Real>::try_from_bytes(&a[0])?.try_into_bytes()?,
        K::Dec => {
            let (uk, ct) = (Uk::<Real>::try_from_bytes(&a[0])?, Ct::<Real>::try_from_bytes(&a[1])?);
            match en.decrypt(&ct, &uk)? {
                Some(g) => g.try_into_bytes()?,
                None => b"none".to_vec(),
            }
        }
        K::Sym => en.decrypt_symmetric_key(&Uk::<Real>::try_from_bytes(&a[0])?, &a[1], n as usize)?,
        K::Hdr => {
            let h = decrypt_hybrid_header::<Real, H>(&Uk::<Real>::try_from_bytes(&a[0])?, &a[1])?;
            lk(&(h.symmetric_key.to_bytes().to_vec(), h.meta_data))
        }
        K::HdrC | K::HdrCache => {
            let l = a[1].len() + 16;
            let mut o = (Out::new(32), Out::new(l), Out::new(l));
            if k == K::HdrC {
                let rc = c::dec_header(&mut o.0, &mut o.1, &mut o.2, Some(&a[1]), By::Key(Some(&a[0])));
                c_header(o, rc)?
            } else {
                let (rc, h) = c::create_dec(Some(&a[0]));
                if rc != 0 {
                    return Err(c::take_err().into());
                }
                let rc = c::dec_header(&mut o.0, &mut o.1, &mut o.2, Some(&a[1]), By::Cache(h));
                let r = c_header(o, rc);
                if c::destroy_dec(h) != 0 {
                    return Ok(b"the cache could not be destroyed".to_vec());
                }
                r?
            }
        }
        K::Blk => decrypt_hybrid_block::<Real, H, 4096>(&hyb::key(&a[0]).map_err(|f| f.msg)?, &a[1], n as usize, &a[2])?,
        K::BlkC => {
            let mut o = Out::new(a[2].len() + 64);
            if c::dec_block(&mut o, Some(&a[0]), Some(&a[1]), n as i32, Some(&a[2])) != 0 {
                return Err(c::take_err().into());
            }
            o.bytes().to_vec()
        }
        K::RotC => {
            let mut o = Out::new(16 << 10);
            if c::rotate(&mut o, Some(&a[1]), Some(&a[0])) != 0 {
                return Err(c::take_err().into());
            }
            canon(o.bytes())?
        }
        K::Size => format!("{} {}", c::header_size(Some(&a[0])), c::take_err().is_empty()).into_bytes(),
        K::Encode => Real::default().msg_encode(&a[0])?.try_into_bytes()?,
        K::Span => {
            let m: Vec<Vec<i32>> = serde_json::from_slice(&a[0])?;
            let mut m: Vec<Vec<Scalar>> = m.into_iter().map(|r| r.into_iter().map(Scalar::from).collect()).collect();
            match Real::span_coefs(&mut m)? {
                None => b"none".to_vec(),
                Some(v) => {
                    let mut b = vec![];
                    for s in &v {
                        b.extend(s.try_into_bytes()?);
                    }
                    b
                }
            }
        }
        K::Key => {
            let (p, sk, f) = (policy(&a[0])?, Sk::<Real>::try_from_bytes(&a[1])?, ap(&a[2])?);
            rows(&en.generate_user_key(&p, &sk, &f)?.try_into_bytes()?)?
        }
        K::KeyC => {
            let mut o = Out::new(64 << 10);
            if c::user_key(&mut o, Some(&a[1]), Some(&a[2]), Some(&a[0])) != 0 {
                return Err(c::take_err().into());
            }
            rows(o.bytes())?
        }
        K::Del => {
            let (p, dk, uk, f) =
                (policy(&a[0])?, Dk::<Real>::try_from_bytes(&a[1])?, Uk::<Real>::try_from_bytes(&a[2])?, ap(&a[3])?);
            rows(&en.delegate_user_key(&p, &dk, &uk, &f)?.try_into_bytes()?)?
        }
        K::Enc => {
            let (p, pk, l) = (policy(&a[0])?, Pk::<Real>::try_from_bytes(&a[1])?, attrs(&a[2])?);
            let m = en.random_message()?;
            gamma(&en.encrypt(&p, &pk, &l, &m)?.try_into_bytes()?)?
        }
        K::EncC | K::EncCache => {
            let mut o = (Out::new(32), Out::new(16 << 10));
            let rc = if k == K::EncC {
                c::enc_header(&mut o.0, &mut o.1, With::Direct(Some(&a[0]), Some(&a[1])), Some(&a[2]), Some(&[5]), None)
            } else {
                let (rc, h) = c::create_enc(Some(&a[0]), Some(&a[1]));
                if rc != 0 {
                    return Err(c::take_err().into());
                }
                let rc = c::enc_header(&mut o.0, &mut o.1, With::Cache(h), Some(&a[2]), Some(&[5]), None);
                if c::destroy_enc(h) != 0 {
                    return Ok(b"the cache could not be destroyed".to_vec());
                }
                rc
            };
            if rc != 0 {
                return Err(c::take_err().into());
            }
            gamma(&hyb::parse(o.1.bytes())?.encaps)?
        }
    })
}
/// b"+..." on success, "-" on a refusal, "!" on a panic
fn eval(op: &Op) -> Vec<u8> {
    ARGS.with(|s| {
        let mut s = s.borrow_mut();
        for (b, a) in s.iter_mut().zip(&op.a) {
            b.clear();
            b.extend_from_slice(a);
        }
        match catch_unwind(AssertUnwindSafe(|| eval_op(op.k, &s[..op.a.len()], op.n).map_err(|_| ()))) {
            Ok(Ok(v)) => [b"+", &v[..]].concat(),
            Ok(Err(())) => b"-".to_vec(),
            Err(_) => b"!".to_vec(),
        }
    })
}
/// `gpsw_check pure FILE`: the results of the operations in FILE, in that order
pub fn pure(file: &str) -> i32 {
    let Some(ops) = std::fs::read(file).ok().and_then(|b| serde_json::from_slice::<Vec<Op>>(&b).ok()) else { return 2 };
    let r: Vec<Vec<u8>> = ops.iter().map(eval).collect();
    println!("{}", serde_json::to_string(&r).unwrap());
    0
}

/// Objects of each kind, many of them nearly alike.
#[derive(Default)]
struct Pools {
    policy: Vec<Vec<u8>>,
    ap: Vec<Vec<u8>>,
    any_ap: Vec<Vec<u8>>,
    attrs: Vec<Vec<u8>>,
    sk: Vec<Vec<u8>>,
    pk: Vec<Vec<u8>>,
    dk: Vec<Vec<u8>>,
    uk: Vec<Vec<u8>>,
    ct: Vec<Vec<u8>>,
    header: Vec<Vec<u8>>,
    sym: Vec<Vec<u8>>,
    uid: Vec<Vec<u8>>,
    block: Vec<Vec<u8>>,
    text: Vec<Vec<u8>>,
    msg: Vec<Vec<u8>>,
    matrix: Vec<Vec<u8>>,
}
impl Pools {
    fn of(&self, k: K) -> Vec<&[Vec<u8>]> {
        match k {
            K::Msp => vec![&self.policy, &self.ap],
            K::Parse => vec![&self.text],
            K::ReUk => vec![&self.uk],
            K::RePk => vec![&self.pk],
            K::ReSk => vec![&self.sk],
            K::ReDk => vec![&self.dk],
            K::ReCt => vec![&self.ct],
            K::Dec | K::Sym => vec![&self.uk, &self.ct],
            K::Hdr | K::HdrC | K::HdrCache => vec![&self.uk, &self.header],
            K::Blk | K::BlkC => vec![&self.sym, &self.uid, &self.block],
            K::RotC => vec![&self.policy, &self.attrs],
            K::Size => vec![&self.header],
            K::Encode => vec![&self.msg],
            K::Span => vec![&self.matrix],
            K::Key | K::KeyC => vec![&self.policy, &self.sk, &self.ap],
            K::Del => vec![&self.policy, &self.dk, &self.uk, &self.any_ap],
            K::Enc | K::EncC | K::EncCache => vec![&self.policy, &self.pk, &self.attrs],
        }
    }
}
const KINDS: [K; 24] = [
    K::Dec, K::Msp, K::Hdr, K::HdrC, K::HdrCache, K::Key, K::KeyC, K::Enc, K::EncC, K::EncCache, K::Sym, K::Del, K::Parse,
    K::ReUk, K::RePk, K::ReSk, K::ReDk, K::ReCt, K::Blk, K::BlkC, K::RotC, K::Size, K::Encode, K::Span,
];

/// these leaves and operators in this order, bracketed somehow
fn bracketed(src: &mut Src, l: &[At], o: &[bool]) -> F {
    if o.is_empty() {
        return F::A(l[0]);
    }
    let i = src.idx(o.len());
    let (x, y) = (Box::new(bracketed(src, &l[..=i], &o[..i])), Box::new(bracketed(src, &l[i + 1..], &o[i + 1..])));
    if o[i] {
        F::And(x, y)
    } else {
        F::Or(x, y)
    }
}
/// another formula of the same shape and size
fn alike(src: &mut Src, f: &F, w: &World) -> F {
    let mut l = vec![];
    f.leaves(&mut l);
    let all = w.attrs();
    match src.below(4) {
        0 if l.len() > 1 => {
            let (i, j) = (src.idx(l.len()), src.idx(l.len()));
            l.swap(i, j);
        }
        3 => {
            // the same leaves and operators in the same order, bracketed another way
            fn ops(f: &F, o: &mut Vec<bool>) {
                if let F::And(a, b) | F::Or(a, b) = f {
                    ops(a, o);
                    o.push(matches!(f, F::And(..)));
                    ops(b, o);
                }
            }
            let mut o = vec![];
            ops(f, &mut o);
            return bracketed(src, &l, &o);
        }
        1 => {
            let i = src.idx(l.len());
            l[i] = *src.pick(&all);
        }
        _ => {
            fn flip(f: &F, k: &mut usize) -> F {
                let me = *k;
                match f {
                    F::A(a) => F::A(*a),
                    F::And(a, b) | F::Or(a, b) => {
                        *k = k.wrapping_sub(1);
                        let (x, y) = (Box::new(flip(a, k)), Box::new(flip(b, k)));
                        if matches!(f, F::And(..)) != (me == 0) {
                            F::And(x, y)
                        } else {
                            F::Or(x, y)
                        }
                    }
                }
            }
            let mut k = src.idx(l.len().max(2) - 1);
            return flip(f, &mut k);
        }
    }
    fn fill(f: &F, l: &mut std::vec::IntoIter<At>) -> F {
        match f {
            F::A(_) => F::A(l.next().unwrap()),
            F::And(a, b) => F::And(Box::new(fill(a, l)), Box::new(fill(b, l))),
            F::Or(a, b) => F::Or(Box::new(fill(a, l)), Box::new(fill(b, l))),
        }
    }
    fill(f, &mut l.into_iter())
}
fn one_byte(src: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if !v.is_empty() {
        let i = match src.below(3) {
            0 => v.len() - 1,
            1 => v.len() / 2,
            _ => src.idx(v.len()),
        };
        v[i] ^= 1 << src.below(8);
    }
    v
}

/// These bytes with one part of what they encode replaced, exchanged or
/// negated: most of it (its ends, too) stays, and it can still be read.
fn one_part(src: &mut Src, b: &[u8]) -> Vec<u8> {
    fn inner(src: &mut Src, b: &[u8]) -> Vec<u8> {
        if let Ok(mut c) = RCt::dec(b) {
            let n = c.e.len();
            if n > 0 {
                let (i, j) = (src.idx(n), src.idx(n));
                match src.below(4) {
                    0 => c.gamma[i] = c.gamma[i].wrapping_add(1 + src.below(3) as u32),
                    1 => c.e.swap(i, j),
                    2 => c.gamma.swap(i, j),
                    _ => c.e[i] = -c.e[i],
                }
            }
            return c.enc();
        }
        if let Ok(mut k) = UserKey::dec(b) {
            let n = k.d.len();
            if n > 0 && !k.msp.attrs.is_empty() {
                let (i, j) = (src.idx(n), src.idx(n));
                let (r, c) = (src.idx(k.msp.attrs.len()), src.idx(k.msp.cols.max(1)));
                match src.below(5) {
                    0 => k.d.swap(i, j),
                    1 => k.d[i] = -k.d[i],
                    2 => k.msp.attrs[r] = k.msp.attrs[r].wrapping_add(1 + src.below(3) as u32),
                    3 => k.msp.attrs.swap(0, r),
                    _ => {
                        if let Some(x) = k.msp.m.get_mut(r).and_then(|m| m.get_mut(c)) {
                            *x = -*x;
                        }
                    }
                }
            }
            return k.enc();
        }
        if let Ok(h) = hyb::parse(b) {
            let e = inner(src, &h.encaps);
            if e.len() == h.encaps.len() && src.chance(3, 4) {
                return [&b[..4], &e[..], &b[4 + e.len()..]].concat();
            }
        }
        b.to_vec()
    }
    let v = inner(src, b);
    if v == b {
        one_byte(src, b)
    } else {
        v
    }
}

fn pools(src: &mut Src, ctx: &mut Ctx) -> Result<Pools, Fail> {
    let w = gen_world(src, &WorldOpts { max_axes: 3, max_attrs: 2, max_slack: 1, max_rotations: 1, plain_names: true });
    let mut worlds = vec![w.clone()];
    // same names, the values of two axes exchanged
    if w.axes.len() > 1 {
        let mut ax = w.axes.clone();
        let i = src.idx(ax.len() - 1);
        ax.swap(i, i + 1);
        worlds.push(World::new(ax, w.max));
    }
    for _ in 0..2 {
        let mut v = w.clone();
        let at = v.any_attr(src);
        if v.rotate(at) {
            worlds.push(v);
        }
    }
    ctx.say(w.describe());
    let mut p = Pools::default();
    let ms = [master_n::<Real>(w.max, 0)?, master_n::<Real>(w.max, 1)?];
    for m in &ms {
        p.sk.push(ser("sk", &m.sk)?);
        p.pk.push(ser("pk", &m.pk)?);
        p.dk.push(ser("dk", &m.dk)?);
    }
    let f = gen_formula(src, &w, 4);
    let fs = vec![f.clone(), alike(src, &f, &w), alike(src, &f, &w)];
    ctx.say(fs.iter().map(|f| f.describe(&w)).collect::<Vec<_>>().join(" | "));
    for v in &worlds {
        p.policy.push(pol(&v.policy));
    }
    for f in &fs {
        p.ap.push(js(&f.ap(&w)));
    }
    p.any_ap = p.ap.clone();
    p.any_ap.push(js(&AccessPolicy::All));
    for (i, f) in fs.iter().enumerate() {
        let v = src.pick(&worlds).clone();
        let m = &ms[usize::from(i == 2 && src.chance(1, 2))];
        if let Ok(k) = try_keygen::<Real>(&v.policy, m, &f.ap(&w))? {
            let k = ser("user key", &k)?;
            if let Ok(mut r) = UserKey::dec(&k) {
                // same key, other points or another matrix
                match src.below(3) {
                    0 => {
                        let n = r.d.len();
                        r.d.swap(0, n - 1);
                    }
                    1 => {
                        let (i, j) = (src.idx(r.msp.m.len()), src.idx(r.msp.cols));
                        r.msp.m[i][j] = -r.msp.m[i][j];
                    }
                    _ => {
                        let n = r.msp.attrs.len();
                        r.msp.attrs.swap(0, n - 1);
                    }
                }
                p.uk.push(r.enc());
            }
            p.uk.push(k);
        }
    }
    if p.uk.is_empty() {
        p.uk.push(ser("user key", &keygen::<Real>(&w.policy, &ms[0], &f.ap(&w))?)?);
    }
    let t = f.snapshot(&w);
    let l = gen_attrs(src, &w, &f, &t, 4);
    let mut l2 = l.clone();
    let (i, all) = (src.idx(l.len()), w.attrs());
    l2[i] = *src.pick(&all);
    for l in [&l, &l2] {
        p.attrs.push(js(&w.attributes(l)));
        let m = &ms[usize::from(src.chance(1, 3))];
        let v = src.pick(&worlds).clone();
        if let Ok(ct) = try_encrypt::<Real>(&v.policy, m, &w.attributes(l), &secret_msg::<Real>()?)? {
            p.ct.push(ser("ciphertext", &ct)?);
        }
        let meta = Metadata { uid: src.blob(3), additional_data: Some(src.blob(4)) };
        if let Ok((k, h)) = native_enc(&v.policy, &m.pk, &w.attributes(l), meta)? {
            p.header.push(h);
            p.sym.push(k);
        }
    }
    let a = w.attributes(&l[..1]);
    p.ct.push(ser("ciphertext", &encrypt::<Real>(&w.policy, &ms[0], &a, &secret_msg::<Real>()?)?)?);
    let meta = Metadata { uid: src.blob(3), additional_data: None };
    let (k, h) = native_enc(&w.policy, &ms[0].pk, &a, meta)?.map_err(Fail::from)?;
    p.header.push(h);
    p.sym.push(k);
    p.ct.extend(p.header.iter().filter_map(|h| hyb::parse(h).ok()).map(|h| h.encaps).collect::<Vec<_>>());
    let h = one_byte(src, &p.header[0].clone());
    p.header.push(h);
    let b = one_byte(src, &p.ct[0].clone());
    p.ct.push(b);
    let b = one_byte(src, &p.uk[0].clone());
    p.uk.push(b);
    let id = src.blob(4);
    p.uid = vec![id.clone(), one_byte(src, &id), vec![]];
    let k = hyb::key(&p.sym[0])?;
    for n in 0..2 {
        let d = src.blob(5);
        let b = encrypt_hybrid_block::<Real, H, 4096>(&k, &p.uid[n], n, &d).map_err(|e| Fail::from(e.to_string()))?;
        p.block.push(b);
    }
    let b = one_byte(src, &p.block[0].clone());
    p.block.push(b);
    // formulas over numbers and near variants
    fn text(f: &F) -> String {
        match f {
            F::A(a) => format!("{}", a.0 * 2 + a.1 + 1),
            F::And(a, b) => format!("({} & {})", text(a), text(b)),
            F::Or(a, b) => format!("({} | {})", text(a), text(b)),
        }
    }
    for f in &fs {
        p.text.push(text(f).into_bytes());
    }
    let b = one_byte(src, &p.text[0].clone());
    p.text.push(b);
    let n = src.size(3, 5);
    let (l, o): (Vec<At>, Vec<bool>) = (0..n).map(|i| ((i / 2, i % 2), src.chance(1, 2))).unzip();
    for _ in 0..3 {
        let f = bracketed(src, &l, &o[1..]);
        p.text.push(text(&f).into_bytes());
    }
    // without its first pair, without its last pair, without any parenthesis
    let t = String::from_utf8(p.text[0].clone()).unwrap_or_default();
    p.text.push(t.trim_start_matches('(').trim_end_matches(')').into());
    p.text.push(t.replace(['(', ')'], "").into());
    let n = src.size(1, 31);
    let msg = src.blob(n);
    p.msg = vec![msg.clone(), one_byte(src, &msg), vec![], msg[..n - 1].to_vec(), [&msg[..], &[0]].concat()];
    // not below the order of the group, too long
    p.msg.push(vec![0xff - src.below(3) as u8; 32]);
    p.msg.push(vec![1; 33]);
    let (r, cl) = (src.size(1, 3), src.size(1, 3));
    let mut m: Vec<Vec<i64>> = (0..r).map(|_| (0..cl).map(|_| src.below(4) as i64 - 1).collect()).collect();
    p.matrix.push(js(&m));
    let (i, j) = (src.idx(r), src.idx(cl));
    m[i][j] = src.below(4) as i64 - 1;
    p.matrix.push(js(&m));
    m.swap(0, r - 1);
    p.matrix.push(js(&m));
    Ok(p)
}

fn some_op(src: &mut Src, p: &Pools, among: &[K]) -> Op {
    let k = *src.pick(among);
    let a = p.of(k).iter().map(|q| src.pick(q).clone()).collect();
    let n = if k == K::Sym { 32 } else { src.below(2) as i64 };
    Op { k, a, n }
}
/// most of them an earlier one with one argument replaced by a similar one
fn similar_ops(src: &mut Src, p: &Pools, among: &[K]) -> (Vec<Op>, Vec<(usize, usize)>) {
    let n = src.size(6, 16);
    let mut ops: Vec<Op> = vec![];
    let mut pairs = vec![];
    for i in 0..n {
        if i > 0 && src.chance(3, 5) {
            // an earlier one, one argument replaced by a similar one
            let from = if src.chance(1, 3) { i - 1 } else { src.idx(i) };
            let mut op = ops[from].clone();
            let kinds: Vec<K> = among.iter().copied().filter(|k| {
                let (a, b) = (p.of(*k), p.of(op.k));
                a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| std::ptr::eq(x.as_ptr(), y.as_ptr()))
            }).collect();
            if src.chance(1, 4) {
                op.k = *src.pick(&kinds);
            }
            if src.chance(1, 8) {
                op.n = src.range(0, 2) as i64 + if matches!(op.k, K::Sym) { 31 } else { 0 };
            } else {
                let j = src.idx(op.a.len());
                op.a[j] = if src.chance(1, 3) {
                    one_part(src, &op.a[j])
                } else {
                    src.pick(p.of(op.k)[j]).clone()
                };
            }
            if op.k == ops[from].k && op != ops[from] {
                pairs.push((from, i));
            }
            ops.push(op);
        } else {
            // rather one that is not refused
            let mut op = some_op(src, p, among);
            for _ in 0..2 {
                if src.chance(1, 2) && eval(&op)[0] == b'-' {
                    op = some_op(src, p, among);
                }
            }
            ops.push(op);
        }
    }
    (ops, pairs)
}

/// C20: calls over C with similar arguments, each against the native operation
pub fn c_alike(src: &mut Src, ctx: &mut Ctx) -> R {
    const C: [K; 6] = [K::HdrC, K::HdrCache, K::BlkC, K::KeyC, K::EncC, K::EncCache];
    let p = pools(src, ctx)?;
    let (ops, pairs) = similar_ops(src, &p, &C);
    ctx.say(format!("{:?}", ops.iter().map(|o| o.k).collect::<Vec<_>>()));
    let mut got = vec![];
    for (i, op) in ops.iter().enumerate() {
        let mut native = op.clone();
        native.k = match op.k {
            K::HdrC | K::HdrCache => K::Hdr,
            K::BlkC => K::Blk,
            K::KeyC => K::Key,
            _ => K::Enc,
        };
        let (r, e) = (eval(op), eval(&native));
        ensure!(ctx, r != b"!" && e != b"!", "operation {i} ({:?}) panicked: {}", op.k, last_panic());
        ensure!(ctx, r == e, "operation {i} ({:?}) over C: {}, natively: {}", op.k, word(&r), word(&e));
        ctx.label_if(r == b"-", "refusal");
        got.push(r);
    }
    let differ = pairs.iter().any(|(i, j)| got[*i] != got[*j]);
    ctx.label_if(differ, "similar arguments, other result");
    ctx.nontrivial_if(differ);
    Ok(())
}
fn word(r: &[u8]) -> String {
    match r.first() {
        Some(b'+') => format!("a result of {} bytes ({})", r.len() - 1, hash64(r) % 100_000),
        Some(b'-') => "a refusal".into(),
        _ => "a panic".to_string(),
    }
}

fn same_results(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pools(src, ctx)?;
    let mut among = KINDS.to_vec();
    if src.chance(1, 2) {
        // few kinds, hence many alike
        let o = src.perm(among.len());
        among = o[..3].iter().map(|i| KINDS[*i]).collect();
    }
    let (ops, pairs) = similar_ops(src, &p, &among);
    let n = ops.len();
    ctx.say(format!("{:?}", ops.iter().map(|o| o.k).collect::<Vec<_>>()));
    for o in &ops {
        ctx.label(&format!("{:?}", o.k));
    }
    let first: Vec<Vec<u8>> = ops.iter().map(eval).collect();
    for (i, r) in first.iter().enumerate() {
        ensure!(ctx, r != b"!", "operation {i} ({:?}) panicked: {}", ops[i].k, last_panic());
    }
    let mut same = |i: usize, r: &[u8], how: &str| -> R {
        ensure!(ctx, first[i] == r, "operation {i} ({:?}) gave {} and {how} {}", ops[i].k, word(&first[i]), word(r));
        Ok(())
    };
    for i in src.perm(n) {
        same(i, &eval(&ops[i]), "later, on the same arguments,")?;
    }
    // threads
    let shared = Arc::new(ops.clone());
    let bar = Arc::new(Barrier::new(3));
    let hs: Vec<_> = (0..3)
        .map(|_| {
            let (o, b, order) = (shared.clone(), bar.clone(), src.perm(n));
            std::thread::spawn(move || {
                b.wait();
                order.into_iter().map(|i| (i, eval(&o[i]))).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in hs {
        for (i, r) in h.join().map_err(|_| Fail::from("a thread panicked"))? {
            same(i, &r, "on another thread")?;
        }
    }
    // a process that starts from nothing, in reverse order
    let rev: Vec<&Op> = ops.iter().rev().collect();
    let file = std::env::temp_dir().join(format!("gpsw-pure-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::write(&file, serde_json::to_vec(&rev).unwrap()).map_err(|e| Fail::from(e.to_string()))?;
    let exe = std::env::current_exe().map_err(|e| Fail::from(e.to_string()))?;
    let o = std::process::Command::new(exe).arg("pure").arg(&file).output();
    let _ = std::fs::remove_file(&file);
    let o = o.map_err(|e| Fail::from(e.to_string()))?;
    let rs: Vec<Vec<u8>> = serde_json::from_slice(&o.stdout).map_err(|_| {
        Fail::from(format!("the operations ended a fresh process: {} {}", o.status, String::from_utf8_lossy(&o.stderr)))
    })?;
    ensure!(ctx, rs.len() == n, "process output");
    let mut same = |i: usize, r: &[u8], how: &str| -> R {
        ensure!(ctx, first[i] == r, "operation {i} ({:?}) gave {} and {how} {}", ops[i].k, word(&first[i]), word(r));
        Ok(())
    };
    for (j, r) in rs.iter().enumerate() {
        same(n - 1 - j, r, "in a fresh process")?;
    }
    let mut kinds: Vec<K> = ops.iter().map(|o| o.k).collect();
    kinds.sort();
    kinds.dedup();
    let differ = pairs.iter().any(|(i, j)| first[*i] != first[*j]);
    ctx.label_if(differ, "similar arguments, other result");
    ctx.label_if(first.iter().any(|r| r == b"-"), "refusal");
    ctx.nontrivial_if(kinds.len() >= 2 && differ);
    Ok(())
}

// ------------------------------------------------------------------ C30

/// Repeat `f` and watch the memory that stays allocated after it.
/// each repetition on a thread of its own, which ends before the next
fn on_thread(threads: bool, f: impl FnOnce() -> R + Send) -> R {
    if threads {
        std::thread::scope(|s| s.spawn(f).join().map_err(|_| Fail::from("a thread panicked"))?)
    } else {
        f()
    }
}
fn no_growth(ctx: &mut Ctx, what: &str, mut f: impl FnMut() -> R) -> R {
    // Windows that double: memory kept per repetition shows as a rise of the
    // lowest level from window to window, also when it is in a vector or map
    // that grows by doubling. One late growth of some buffer does not.
    const STARTS: [usize; 4] = [4, 8, 16, 32];
    let _on = Live::on();
    let mut low = [i64::MAX; 3];
    for i in 0..STARTS[3] {
        f()?;
        if let Some(w) = (0..3).find(|w| (STARTS[*w]..STARTS[w + 1]).contains(&i)) {
            low[w] = low[w].min(Live::bytes());
        }
    }
    ensure!(
        ctx,
        !(low[0] < low[1] && low[1] < low[2]),
        "{what} keep memory: {} bytes more are held after 8 repetitions than after 4, and {} more after 16",
        low[1] - low[0],
        low[2] - low[1]
    );
    Ok(())
}
static ON: AtomicI64 = AtomicI64::new(0);
struct Live;
impl Live {
    fn on() -> Self {
        ON.fetch_add(1, Ordering::SeqCst);
        LIVE_ON.store(true, Ordering::SeqCst);
        Live
    }
    fn bytes() -> i64 {
        LIVE.load(Ordering::SeqCst) as i64
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        if ON.fetch_sub(1, Ordering::SeqCst) == 1 {
            LIVE_ON.store(false, Ordering::SeqCst);
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Step {
    NewEnc(usize, usize),
    NewDec(usize),
    /// the i-th created one, with these attributes or this header
    Use(usize, usize),
    Destroy(usize),
    Unknown(i32),
}
fn mem_caches(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pools(src, ctx)?;
    // damaged material too
    let mut keys = p.uk.clone();
    keys.push(p.uk[0][..p.uk[0].len() - 1].to_vec());
    let mut pks = p.pk.clone();
    pks.push(p.pk[0][..p.pk[0].len() / 2].to_vec());
    let mut policies = p.policy.clone();
    policies.push(b"{}".to_vec());
    let n = src.size(2, 9);
    let mut steps = vec![];
    let mut created = 0;
    for i in 0..n {
        steps.push(match src.below(if i == 0 { 2 } else { 7 }) {
            0 => {
                created += 1;
                Step::NewDec(src.idx(keys.len()))
            }
            1 => {
                created += 1;
                Step::NewEnc(src.idx(policies.len()), src.idx(pks.len()))
            }
            2 | 3 => Step::Use(src.idx(created), src.idx(p.header.len().min(p.attrs.len()))),
            4 | 5 => Step::Destroy(src.idx(created)),
            _ => Step::Unknown(*src.pick(&[0, -1, i32::MAX, 999_999])),
        });
    }
    let threads = src.chance(1, 4);
    let unread = threads && src.chance(1, 2);
    ctx.say(format!("{steps:?}{}", if threads { ", each time on a new thread" } else { "" }));
    ctx.label_if(threads, "on new threads");
    let mut good = 0;
    no_growth(ctx, "cache operations", || on_thread(threads, || {
        // (is for encryption, handle)
        let mut hs: Vec<(bool, Option<i32>)> = vec![];
        let mut outcome = 0;
        for s in &steps {
            match *s {
                Step::NewEnc(a, b) => {
                    let (rc, h) = c::create_enc(Some(&policies[a]), Some(&pks[b]));
                    hs.push((true, (rc == 0).then_some(h)));
                    outcome += i32::from(rc == 0);
                }
                Step::NewDec(a) => {
                    let (rc, h) = c::create_dec(Some(&keys[a]));
                    hs.push((false, (rc == 0).then_some(h)));
                    outcome += i32::from(rc == 0);
                }
                Step::Use(i, j) => {
                    if let (enc, Some(h)) = hs[i] {
                        let mut o = (Out::new(32), Out::new(8 << 10), Out::new(8 << 10));
                        if enc {
                            c::enc_header(&mut o.0, &mut o.1, With::Cache(h), Some(&p.attrs[j]), Some(&[1, 2]), None);
                        } else {
                            c::dec_header(&mut o.0, &mut o.1, &mut o.2, Some(&p.header[j]), By::Cache(h));
                        }
                    }
                }
                Step::Destroy(i) => {
                    if let (enc, Some(h)) = hs[i] {
                        if enc { c::destroy_enc(h) } else { c::destroy_dec(h) };
                    }
                }
                Step::Unknown(h) => {
                    c::destroy_enc(h);
                    c::destroy_dec(h);
                }
            }
        }
        for (enc, h) in hs {
            if let Some(h) = h {
                if enc { c::destroy_enc(h) } else { c::destroy_dec(h) };
            }
        }
        if !unread {
            c::take_err();
        }
        good = outcome;
        Ok(())
    }))?;
    ctx.label_if(good == 0, "no cache could be created");
    ctx.nontrivial_if(good >= 2);
    Ok(())
}

fn mem_calls(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pools(src, ctx)?;
    let n = src.size(2, 7);
    let mut ops = vec![];
    for _ in 0..n {
        let k = *src.pick(&KINDS);
        let mut a: Vec<Vec<u8>> = p.of(k).iter().map(|q| src.pick(q).clone()).collect();
        if src.chance(1, 4) {
            let i = src.idx(a.len());
            a[i] = match src.below(4) {
                0 => vec![],
                1 => a[i][..a[i].len() / 2].to_vec(),
                2 => {
                    let l = src.size(1, 80);
                    src.blob(l)
                }
                _ => one_byte(src, &a[i].clone()),
            };
        }
        let n = if k == K::Sym { src.range(0, 64) as i64 } else { src.below(2) as i64 };
        ops.push(Op { k, a, n });
    }
    let fresh = src.chance(1, 3);
    let text = src.blob(12);
    let threads = src.chance(1, 4);
    let unread = threads && src.chance(1, 2);
    // after each call, into buffers that are too small too
    let room = src.chance(1, 2).then(|| *src.pick(&[1usize, 2, 10, 30, 100, 5000]));
    ctx.say(format!("{:?}{}", ops.iter().map(|o| o.k).collect::<Vec<_>>(), if threads { ", each time on a new thread" } else { "" }));
    ctx.label_if(threads, "on new threads");
    let mut failed = 0;
    no_growth(ctx, "calls", || on_thread(threads, || {
        failed = 0;
        for o in &ops {
            let r = eval(o);
            failed += usize::from(r[0] != b'+');
            if r[0] == b'!' {
                fail!("{:?} panicked: {}", o.k, last_panic());
            }
            if let Some(n) = room {
                c::last_err(&mut Out::new(n));
            }
        }
        if fresh {
            c::set_err(Some(&text));
            if let Some(n) = room {
                c::last_err(&mut Out::new(n));
            }
            let mut o = Out::new(64 << 10);
            c::master_keys(&mut o, Some(&p.policy[0]));
        }
        if !unread {
            c::take_err();
        }
        Ok(())
    }))?;
    for o in &ops {
        ctx.label(&format!("{:?}", o.k));
    }
    ctx.nontrivial_if(n >= 3 && failed > 0);
    Ok(())
}
