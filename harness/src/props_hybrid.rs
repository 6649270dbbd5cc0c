//! C16 C17 C18 C19: hybrid headers and blocks.
use abe_policy::{AccessPolicy, Attribute};
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{
    decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header,
    symmetric_encryption_overhead, ClearTextHeader, EncryptedHeader,
};
use cosmian_crypto_base::{symmetric_crypto::Metadata, KeyTrait};

use crate::{
    api::*,
    ensure, fail,
    hyb::{self, HKey, H},
    model::*,
    pbt::*,
    props_bytes::{mutate, odd_u32, pool, Pool},
    props_core::names,
};

macro_rules! one {
    ($v:ident, $prop:expr, $id:literal, $name:literal, $rule:expr, $f:expr, $q:expr, $t:expr) => {
        if $prop == $id {
            $v.push(Sub { name: $name, rule: $rule, quick: $q, thorough: $t, run: $f });
        }
    };
}

pub fn subs(p: &str) -> Vec<Sub> {
    let mut v = vec![];
    one!(v, p, "C16", "round_trip", "random policy, two users (one possibly with a derived or reloaded key), 1-3 headers for attribute lists at the boundary of the first user's formula, metadata absent, empty or up to 70 kB; every user tries every header. Non-trivial: one user opened a header and one was refused.",
        header_round_trip, 500, 14000);
    one!(v, p, "C16", "metadata", "one fixed authority; metadata of every shape and size up to 2 MB, one authorised, one unauthorised and one foreign key. Non-trivial: metadata is present and not empty.",
        metadata_sizes, 700, 20000);
    one!(v, p, "C16", "many_attributes", "headers for up to 1400 attributes (encapsulated keys of up to 67 kB, sizes around 32 and 64 KiB included), with and without metadata, an authorised and an unauthorised user. Non-trivial: more than 600 attributes.",
        header_many_attributes, 24, 300);
    one!(v, p, "C17", "tamper", "a fresh header (and a second one) and 8 alterations of it each (cuts, bit flips, length edits, extensions, splices; 1-2 steps), opened with the key of an authorised and of an unauthorised user. Non-trivial: the header has metadata and at least 6 of the alterations differ from the original.",
        header_tamper, 700, 20000);
    one!(v, p, "C17", "mix", "sections of two headers for the same or different attributes, and of blocks under the same symmetric key, recombined in every way (encapsulation, nonce, metadata, whole metadata section, block as metadata). Non-trivial: both headers have metadata.",
        header_mix, 300, 9000);
    one!(v, p, "C18", "sizes", "block maxima 1 to 2^30, plaintext lengths around 0, 16-byte multiples and the maximum, random ids and numbers; also opened under a larger maximum. Non-trivial: at least 2 bytes.",
        block_sizes, 60_000, 1_500_000);
    one!(v, p, "C18", "refusals", "empty, oversized, and too short inputs for several maxima. Non-trivial: always.",
        block_refusals, 6000, 200_000);
    one!(v, p, "C19", "binding", "a block opened under other keys (one bit, byte swaps, other key), other ids (prefixes, extensions, padding, bytes and digits moved between id and number) and other numbers (each bit, truncations to 8, 16, 32 bits, byte-swapped). Non-trivial: at least 20 different contexts.",
        block_binding, 24_000, 600_000);
    one!(v, p, "C19", "tamper", "every byte (short blocks) or random bytes changed, cuts, extensions, swaps, mixes of two blocks under the same key. Non-trivial: at least 10 alterations.",
        block_tamper, 24_000, 600_000);
    one!(v, p, "C19", "resource", "two resources of 2-8 blocks each under the same key, stored and read back in a random order: a block is accepted at a position of a resource only if it was written there. Non-trivial: at least one misplaced block.",
        resource, 9000, 250_000);
    v
}

fn ench(p: &abe_policy::Policy, pk: &Pk<Real>, a: &[Attribute], m: Option<Metadata>) -> Result<EncryptedHeader<H>, Fail> {
    no_panic("encrypt_hybrid_header", || encrypt_hybrid_header::<Real, H>(p, pk, a, m))?
        .map_err(|e| Fail::from(format!("encrypt_hybrid_header: {e}")))
}
fn dech(k: &Uk<Real>, b: &[u8]) -> Result<Result<ClearTextHeader<H>, String>, Fail> {
    Ok(no_panic("decrypt_hybrid_header", || decrypt_hybrid_header::<Real, H>(k, b))?.map_err(|e| e.to_string()))
}

// ------------------------------------------------------------------ C16

fn header_round_trip(src: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = gen_world(src, &WorldOpts::default());
    w.max += 1;
    w.policy.max_attribute_creations += 1;
    ctx.say(w.describe());
    let m = master::<Real>(w.max)?;
    let f1 = gen_formula(src, &w, 6);
    let mut f2 = gen_formula(src, &w, 4);
    if src.chance(1, 3) {
        f2 = f1.clone();
    }
    let mut users = vec![];
    for (i, f) in [&f1, &f2].into_iter().enumerate() {
        let t = f.snapshot(&w);
        let k = keygen::<Real>(&w.policy, &m, &f.ap(&w))?;
        let k = match src.below(3) {
            0 => k,
            1 => real_key(&ref_key(&k)?)?,
            _ => try_delegate::<Real>(&w.policy, &m, &k, &AccessPolicy::All)?.map_err(Fail::from)?,
        };
        ctx.say(format!("user {i} {}", f.describe(&w)));
        users.push((t, k));
        if i == 0 && src.chance(1, 3) {
            let at = w.any_attr(src);
            if w.rotate(at) {
                ctx.say(format!("rotate {}", w.at_name(at)));
            }
        }
    }
    let (mut yes, mut no) = (false, false);
    for _ in 0..src.size(1, 3) {
        let t0 = users[0].0.clone();
        let l = gen_attrs(src, &w, &f1, &t0, w.max as usize);
        let meta = hyb::gen_meta(src);
        ctx.say(format!("[{}] {}", names(&w, &l), hyb::show_meta(&meta)));
        let h = ench(&w.policy, &m.pk, &w.attributes(&l), meta.clone())?;
        for (i, (t, k)) in users.iter().enumerate() {
            let ok = t.eval(&w.gamma(&l));
            match dech(k, &h.encrypted_header_bytes)? {
                Ok(r) => {
                    ensure!(ctx, ok, "user {i}, whose policy is not satisfied, opened the header");
                    ensure!(ctx, r.symmetric_key.to_bytes() == h.symmetric_key.to_bytes(), "user {i} got another symmetric key");
                    ensure!(ctx, r.meta_data == hyb::expected(&meta), "user {i} got other metadata: {:?}", hyb::show_meta(&Some(r.meta_data)));
                    yes = true;
                }
                Err(e) => {
                    ensure!(ctx, !ok, "user {i}, whose policy is satisfied, was refused: {e}");
                    no = true;
                }
            }
        }
    }
    ctx.label_if(yes, "opened");
    ctx.label_if(no, "refused");
    ctx.nontrivial_if(yes && no);
    Ok(())
}

/// The encapsulated key grows with the number of attributes of the header: its
/// size has to pass through every length field and bound on the way back.
fn header_many_attributes(src: &mut Src, ctx: &mut Ctx) -> R {
    const N: usize = 1400;
    let axes = vec![Axis { name: "X".into(), attrs: (0..N).map(|i| format!("v{i}")).collect(), hier: false }];
    let w = World::new(axes, N as u32);
    let m = master::<Real>(w.max)?;
    // 52 bytes per attribute next to a 580-byte constant
    let n = match src.below(4) {
        0 => 610 + src.idx(25),
        1 => 1240 + src.idx(25),
        2 => N - src.idx(3),
        _ => src.size(1, N),
    };
    let mut l: Vec<At> = (0..n).map(|i| (0, i)).collect();
    if src.chance(1, 2) {
        let pm = src.perm(n);
        l = pm.into_iter().map(|i| (0, i)).collect();
    }
    let meta = if src.chance(1, 3) { None } else { small_meta(src) };
    ctx.say(format!("{n} attributes, {}", hyb::show_meta(&meta)));
    let h = ench(&w.policy, &m.pk, &w.attributes(&l), meta.clone())?;
    let (a, b) = ((0, src.idx(n)), (0, src.idx(n)));
    let fs = [(true, if a == b { F::A(a) } else { F::And(Box::new(F::A(a)), Box::new(F::A(b))) }), (n == N, F::A((0, N - 1)))];
    for (ok, f) in fs {
        let k = keygen::<Real>(&w.policy, &m, &f.ap(&w))?;
        let r = dech(&k, &h.encrypted_header_bytes)?;
        match r {
            Ok(r) => {
                ensure!(ctx, ok, "a user whose policy is not satisfied opened the header");
                ensure!(ctx, r.symmetric_key.to_bytes() == h.symmetric_key.to_bytes(), "the user got another symmetric key");
                ensure!(ctx, r.meta_data == hyb::expected(&meta), "the user got other metadata");
            }
            Err(e) => ensure!(ctx, !ok, "a user whose policy is satisfied was refused: {e}"),
        }
    }
    let size = h.encrypted_header_bytes.len();
    ctx.label_if(size > 1 << 15, "more than 32 KiB");
    ctx.label_if(size > 1 << 16, "more than 64 KiB");
    ctx.nontrivial_if(n > 600);
    Ok(())
}

fn metadata_sizes(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let meta = match src.below(8) {
        0 => None,
        1 => Some(Metadata::default()),
        2 => {
            let n = src.size(1, 4);
            Some(Metadata { uid: src.blob(n), additional_data: None })
        }
        3 => {
            let n = *src.pick(&[12usize, 15, 16, 17, 28, 31, 32, 64, 255, 256, 257, 65535, 65536, 65537]);
            let k = *src.pick(&[0usize, 1, 15, 16, 17, 255, 256, 65535, 65536]);
            Some(Metadata { uid: src.blob(n), additional_data: Some(src.blob(k)) })
        }
        4 => {
            let n = src.size(0, 3);
            let top = if src.chance(1, 20) { 2_000_000 } else { 200_000 };
            let k = src.size(100_000, top);
            Some(Metadata { uid: src.blob(n), additional_data: Some(src.blob(k)) })
        }
        5 => {
            // no id, data that looks like an encoded id
            let k = src.size(1, 40);
            let mut d = odd_u32(src, k as u32).to_be_bytes().to_vec();
            d.extend(src.blob(k));
            Some(Metadata { uid: vec![], additional_data: Some(d) })
        }
        _ => hyb::gen_meta(src),
    };
    ctx.say(hyb::show_meta(&meta));
    ctx.nontrivial_if(hyb::expected(&meta) != Metadata::default());
    let n = src.size(1, p.attrs.len());
    let h = ench(&p.policy, &p.m.pk, &p.attrs[p.attrs.len() - n..], meta.clone())?;
    // attribute list is a suffix of [S::a, D::x, D::y]
    let opens = |i: usize| match i {
        0 => n >= 2,     // D::x
        1 | 2 => n == 3, // conjunctions of S::_, D::x or D::y
        _ => true,       // everything
    };
    for (i, k) in p.keys.iter().enumerate() {
        match dech(k, &h.encrypted_header_bytes)? {
            Ok(r) => {
                ensure!(ctx, opens(i), "key {i} is not authorised and opened the header");
                ensure!(ctx, r.symmetric_key.to_bytes() == h.symmetric_key.to_bytes(), "key {i} got another symmetric key");
                ensure!(ctx, r.meta_data == hyb::expected(&meta), "key {i} got other metadata");
            }
            Err(e) => ensure!(ctx, !opens(i), "key {i} is authorised and was refused: {e}"),
        }
    }
    // a foreign authority's key never sees the metadata or the key
    let f = master_n::<Real>(12, 3)?;
    let fk = keygen::<Real>(&p.policy, &f, &p.aps[*src.pick(&[0usize, 3])])?;
    if let Ok(r) = dech(&fk, &h.encrypted_header_bytes)? {
        ensure!(ctx, meta.is_none(), "a foreign key opened the metadata section");
        ensure!(ctx, r.symmetric_key.to_bytes() != h.symmetric_key.to_bytes(), "a foreign key got the symmetric key");
    }
    Ok(())
}

// ------------------------------------------------------------------ C17

struct Auth {
    bytes: Vec<u8>,
    key: Vec<u8>,
    meta: Metadata,
    raw: Option<Metadata>,
}
fn auth(p: &Pool, n: usize, raw: Option<Metadata>) -> Result<Auth, Fail> {
    let h = ench(&p.policy, &p.m.pk, &p.attrs[..n], raw.clone())?;
    Ok(Auth { bytes: h.encrypted_header_bytes, key: h.symmetric_key.to_bytes().to_vec(), meta: hyb::expected(&raw), raw })
}
fn small_meta(src: &mut Src) -> Option<Metadata> {
    match src.below(7) {
        0 => None,
        1 => Some(Metadata::default()),
        2 => {
            let n = src.size(1, 20);
            Some(Metadata { uid: src.blob(n), additional_data: None })
        }
        _ => {
            let (n, k) = (src.size(0, 40), src.size(1, 60));
            Some(Metadata { uid: src.blob(n), additional_data: Some(src.blob(k)) })
        }
    }
}
/// bytes after the encapsulated key, according to the length field
fn rest(b: &[u8]) -> Option<usize> {
    let n = u32::from_be_bytes(b.get(..4)?.try_into().unwrap()) as usize;
    (b.len() - 4).checked_sub(n)
}
/// what may come out of an altered header
fn judge(ctx: &mut Ctx, what: &str, altered: &[u8], known: &[&Auth], r: &Result<ClearTextHeader<H>, String>, authorised: bool) -> R {
    ctx.checks += 1;
    let Ok(r) = r else { return Ok(()) };
    let k = r.symmetric_key.to_bytes();
    ctx.label("altered header opened");
    for a in known {
        if k.as_slice() == a.key {
            if !authorised {
                fail!("{what}: an unauthorised user got the symmetric key");
            }
            if r.meta_data == a.meta {
                return Ok(());
            }
        }
    }
    if r.meta_data == Metadata::default() && rest(altered) == Some(0) {
        ctx.label("without metadata section");
        return Ok(());
    }
    let same = known.iter().any(|a| k.as_slice() == a.key);
    fail!(
        "{what}: the altered header gives {} symmetric key and metadata {} (section of {:?} bytes): {:?}",
        if same { "an original" } else { "a wrong" },
        hyb::show_meta(&Some(Metadata { uid: r.meta_data.uid.clone(), additional_data: r.meta_data.additional_data.clone() })),
        rest(altered),
        r.meta_data.uid
    )
}

fn header_tamper(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let n = src.size(1, 3);
    let meta = small_meta(src);
    ctx.say(format!("{} attributes, {}", n, hyb::show_meta(&meta)));
    let a = auth(&p, n, meta)?;
    let m2 = small_meta(src);
    let n2 = src.size(1, 3);
    let b = auth(&p, n2, m2)?;
    let hd = hyb::parse(&a.bytes).map_err(Fail::from)?;
    // field boundaries: lengths, counts, elements, nonce, tag
    let e = 4 + hd.encaps.len();
    let mut marks = vec![0, 4, 8, 4 + 4 * n, 4 + 4 + 4 * n, 8 + 4 * n + 288, e - 288, e - 48, e - 4, e - 1];
    if hd.meta.is_some() {
        marks.extend([e, e, e + 1, e + 12, e + 12, e + 16, e + 17, a.bytes.len() - 16, a.bytes.len() - 1, a.bytes.len() - 17]);
    }
    marks.retain(|m| *m < a.bytes.len());
    let mut real = 0;
    for i in 0..8 {
        let mut t = a.bytes.clone();
        let mut what = vec![];
        let steps = if src.chance(1, 3) { 2 } else { 1 };
        for _ in 0..steps {
            what.push(mutate(src, &mut t, &marks, &b.bytes));
        }
        if src.chance(1, 10) && t.len() >= 4 {
            // keep the first length consistent with what is there
            let l = (t.len() - 4) as u32;
            t[..4].copy_from_slice(&l.to_be_bytes());
            what.push("refit");
        }
        if t != a.bytes {
            real += 1;
        }
        let yes = dech(&p.keys[3], &t)?;
        if i == 0 {
            ctx.say(format!("{what:?}: {}", if yes.is_ok() { "opened" } else { "refused" }));
        }
        if t == a.bytes {
            ensure!(ctx, yes.is_ok(), "an unaltered header is refused");
        }
        judge(ctx, &format!("{what:?}"), &t, &[&a, &b], &yes, true)?;
        // S::b && D::x: not authorised for S::a alone
        if n == 1 && n2 == 1 {
            let no = dech(&p.keys[*src.pick(&[0usize, 1, 2])], &t)?;
            judge(ctx, &format!("{what:?}, unauthorised user"), &t, &[&a, &b], &no, false)?;
        }
    }
    ctx.nontrivial_if(a.raw.is_some() && real >= 6);
    Ok(())
}

fn header_mix(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let n = src.size(1, 3);
    let n2 = if src.chance(1, 2) { n } else { src.size(1, 3) };
    let (ma, mut mb) = (small_meta(src), small_meta(src));
    if src.chance(1, 4) {
        mb = ma.clone();
    }
    ctx.say(format!("{n} attributes, {}; {n2} attributes, {}", hyb::show_meta(&ma), hyb::show_meta(&mb)));
    ctx.nontrivial_if(ma.is_some() && mb.is_some());
    let (a, b) = (auth(&p, n, ma)?, auth(&p, n2, mb)?);
    let (ha, hb) = (hyb::parse(&a.bytes).map_err(Fail::from)?, hyb::parse(&b.bytes).map_err(Fail::from)?);
    let k = &p.keys[3];
    let mut tries: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |w: &str, h: hyb::Hdr| tries.push((w.to_string(), h.build()));
    add("metadata section of the other header", hyb::Hdr { encaps: ha.encaps.clone(), meta: hb.meta.clone() });
    if let (Some(x), Some(y)) = (&ha.meta, &hb.meta) {
        add("nonce of the other header", hyb::Hdr { encaps: ha.encaps.clone(), meta: Some((y.0.clone(), x.1.clone())) });
        add("ciphertext of the other header", hyb::Hdr { encaps: ha.encaps.clone(), meta: Some((x.0.clone(), y.1.clone())) });
        let mut both = x.1.clone();
        both.extend(&y.1);
        add("both ciphertexts", hyb::Hdr { encaps: ha.encaps.clone(), meta: Some((x.0.clone(), both)) });
        if x.1.len() >= 16 && y.1.len() >= 16 {
            let mut m = x.1[..x.1.len() - 16].to_vec();
            m.extend(&y.1[y.1.len() - 16..]);
            add("tag of the other header", hyb::Hdr { encaps: ha.encaps.clone(), meta: Some((x.0.clone(), m)) });
            let mut m = y.1[..y.1.len() - 16].to_vec();
            m.extend(&x.1[x.1.len() - 16..]);
            add("ciphertext of the other header under this tag", hyb::Hdr { encaps: ha.encaps.clone(), meta: Some((x.0.clone(), m)) });
        }
        add("empty ciphertext", hyb::Hdr { encaps: ha.encaps.clone(), meta: Some((x.0.clone(), vec![])) });
        add("nothing but a tag", hyb::Hdr { encaps: ha.encaps.clone(), meta: Some((x.0.clone(), x.1[x.1.len().saturating_sub(16)..].to_vec())) });
        let mut doubled = a.bytes.clone();
        doubled.extend(&y.0);
        doubled.extend(crate::refimpl::be(y.1.len()));
        doubled.extend(&y.1);
        tries.push(("two metadata sections".into(), doubled));
    }
    // data of the resource itself, passed off as metadata
    let un = src.size(0, 12);
    let uid = src.blob(un);
    let num = src.below(3) as usize;
    let inner = Metadata { uid: b"forged".to_vec(), additional_data: Some(b"data".to_vec()) };
    let blk = no_panic("encrypt_hybrid_block", || encrypt_hybrid_block::<Real, H, 4096>(&hyb::key(&a.key).unwrap(), &uid, num, &hyb::enc_meta(&inner)))?
        .map_err(|e| Fail::from(format!("encrypt_hybrid_block: {e}")))?;
    tries.push((
        "a block of the resource as metadata".into(),
        hyb::Hdr { encaps: ha.encaps.clone(), meta: Some((blk[..12].to_vec(), blk[12..].to_vec())) }.build(),
    ));
    for w in 0..2 {
        let mut e = crate::refimpl::RCt::dec(&ha.encaps).map_err(Fail::from)?;
        let f = crate::refimpl::RCt::dec(&hb.encaps).map_err(Fail::from)?;
        if w == 0 {
            e.ep = f.ep;
        } else {
            e.e = e.e.iter().zip(f.e.iter().cycle()).map(|(_, y)| *y).collect();
        }
        tries.push((format!("group elements of the other encapsulation ({w})"), hyb::Hdr { encaps: e.enc(), meta: ha.meta.clone() }.build()));
    }
    for (w, t) in &tries {
        let r = dech(k, t)?;
        judge(ctx, w, t, &[&a, &b], &r, true)?;
    }
    // metadata passed off as a block
    if let Some((nonce, enc)) = &ha.meta {
        let mut c = nonce.clone();
        c.extend(enc);
        for uid in [vec![], a.meta.uid.clone()] {
            let r = no_panic("decrypt_hybrid_block", || decrypt_hybrid_block::<Real, H, 4096>(&hyb::key(&a.key).unwrap(), &uid, 0, &c))?;
            ensure!(ctx, r.is_err(), "the metadata section is accepted as a block");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

macro_rules! maxima {
    ($i:expr, $name:ident, $($a:expr),*) => {
        match $i {
            0 => $name::<1>($($a),*), 1 => $name::<2>($($a),*), 2 => $name::<15>($($a),*), 3 => $name::<16>($($a),*),
            4 => $name::<17>($($a),*), 5 => $name::<28>($($a),*), 6 => $name::<64>($($a),*), 7 => $name::<255>($($a),*),
            8 => $name::<256>($($a),*), 9 => $name::<257>($($a),*), 10 => $name::<1000>($($a),*), 11 => $name::<4096>($($a),*),
            12 => $name::<65535>($($a),*), 13 => $name::<65536>($($a),*), 14 => $name::<{ 1 << 20 }>($($a),*),
            _ => $name::<{ 1 << 30 }>($($a),*),
        }
    };
}
const MAXIMA: [usize; 16] = [1, 2, 15, 16, 17, 28, 64, 255, 256, 257, 1000, 4096, 65535, 65536, 1 << 20, 1 << 30];

fn enc<const M: usize>(k: &HKey, uid: &[u8], n: usize, pt: &[u8]) -> Result<Result<Vec<u8>, String>, Fail> {
    Ok(no_panic("encrypt_hybrid_block", || encrypt_hybrid_block::<Real, H, M>(k, uid, n, pt))?.map_err(|e| e.to_string()))
}
fn dec<const M: usize>(k: &HKey, uid: &[u8], n: usize, c: &[u8]) -> Result<Result<Vec<u8>, String>, Fail> {
    Ok(no_panic("decrypt_hybrid_block", || decrypt_hybrid_block::<Real, H, M>(k, uid, n, c))?.map_err(|e| e.to_string()))
}
fn over<const M: usize>() -> usize {
    symmetric_encryption_overhead::<H, M>()
}
fn gen_key(src: &mut Src) -> Vec<u8> {
    src.blob(32)
}
fn gen_uid(src: &mut Src) -> Vec<u8> {
    let n = match src.below(5) {
        0 => 0,
        1 => *src.pick(&[7usize, 8, 9, 15, 16, 17, 32, 255, 256, 4096]),
        2 => src.size(100, 5000),
        _ => src.size(1, 40),
    };
    src.blob(n)
}
fn gen_num(src: &mut Src) -> usize {
    (match src.below(5) {
        0 => src.below(4),
        1 => *src.pick(&[255u64, 256, 257, 65535, 65536, u32::MAX as u64, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX - 1, u64::MAX]),
        2 => 1 << src.below(64),
        3 => src.below(1 << 33),
        _ => src.below(0),
    }) as usize
}

fn block_sizes(src: &mut Src, ctx: &mut Ctx) -> R {
    let mi = src.idx(16);
    let max = MAXIMA[mi];
    let len = match src.below(8) {
        0 => 1,
        1 => max,
        2 => max - 1,
        3 => 16 * src.size(1, 20) + src.size(0, 2) - 1,
        4 => src.size(1, 300),
        5 => src.size(1, 70_000),
        6 => *src.pick(&[255usize, 256, 65535, 65536, 65537, 1 << 20]),
        _ => src.size(1, max.min(2000)),
    };
    // 2^30 bytes are not generated: the maximum itself is reached for the others
    let cap = if mi >= 14 && !src.chance(1, 100) { 70_000 } else { 1 << 20 };
    let len = len.clamp(1, max.min(cap));
    let (kb, uid, num) = (gen_key(src), gen_uid(src), gen_num(src));
    let pt = src.blob(len);
    ctx.say(format!("maximum {max}, {len} bytes, id of {} bytes, block {num}", uid.len()));
    ctx.nontrivial_if(len >= 2);
    ctx.label_if(len == max, "exactly the maximum");
    let k = hyb::key(&kb)?;
    let c = maxima!(mi, enc, &k, &uid, num, &pt)?.map_err(|e| Fail::from(format!("{len} bytes refused under the maximum {max}: {e}")))?;
    let o = maxima!(mi, over,);
    ensure!(ctx, c.len() == len + o, "{len} bytes became {} with an overhead of {o}", c.len());
    let d = maxima!(mi, dec, &k, &uid, num, &c)?.map_err(|e| Fail::from(format!("a block of {len} bytes is refused under its maximum {max}: {e}")))?;
    ensure!(ctx, d == pt, "a block of {len} bytes decrypts to {} other bytes", d.len());
    let mj = mi + src.idx(16 - mi);
    let d = maxima!(mj, dec, &k, &uid, num, &c)?.map_err(|e| Fail::from(format!("refused under the larger maximum {}: {e}", MAXIMA[mj])))?;
    ensure!(ctx, d == pt, "other bytes under a larger maximum");
    // several blocks of the same resource under the same key
    let c2 = maxima!(mi, enc, &k, &uid, num.wrapping_add(1), &pt)?.map_err(Fail::from)?;
    let d2 = maxima!(mi, dec, &k, &uid, num.wrapping_add(1), &c2)?.map_err(|e| Fail::from(format!("second block refused: {e}")))?;
    ensure!(ctx, d2 == pt && c2 != c, "second block of the resource");
    Ok(())
}

fn block_refusals(src: &mut Src, ctx: &mut Ctx) -> R {
    let mi = src.idx(15);
    let max = MAXIMA[mi];
    if max > 70_000 && !src.chance(1, 200) {
        return Ok(()); // a megabyte and more: rarely
    }
    let (kb, uid, num) = (gen_key(src), gen_uid(src), gen_num(src));
    let k = hyb::key(&kb)?;
    ctx.nontrivial = true;
    let extra = match src.below(4) {
        0 => 1,
        1 => max.min(70_000),
        2 => 28,
        _ => src.size(1, 300),
    };
    ctx.say(format!("maximum {max}, {extra} bytes too many"));
    ensure!(ctx, maxima!(mi, enc, &k, &uid, num, &[])?.is_err(), "an empty plaintext is accepted");
    ensure!(ctx, maxima!(mi, dec, &k, &uid, num, &[])?.is_err(), "an empty ciphertext is accepted");
    let pt = src.blob(max + extra);
    ensure!(ctx, maxima!(mi, enc, &k, &uid, num, &pt)?.is_err(), "{} bytes are accepted under the maximum {max}", pt.len());
    let c = enc::<{ 1 << 30 }>(&k, &uid, num, &pt)?.map_err(Fail::from)?;
    ensure!(ctx, maxima!(mi, dec, &k, &uid, num, &c)?.is_err(), "a block of {} bytes is accepted under the maximum {max}", pt.len());
    let n = src.size(1, 40).min(max + 28);
    let junk = src.blob(n);
    ensure!(ctx, maxima!(mi, dec, &k, &uid, num, &junk)?.is_err(), "{n} arbitrary bytes are accepted");
    Ok(())
}

// ------------------------------------------------------------------ C19

fn block_binding(src: &mut Src, ctx: &mut Ctx) -> R {
    let (kb, uid, num) = (gen_key(src), gen_uid(src), gen_num(src));
    let n = src.size(1, 80);
    let pt = src.blob(n);
    ctx.say(format!("{n} bytes, id of {} bytes, block {num}", uid.len()));
    let k = hyb::key(&kb)?;
    let c = enc::<4096>(&k, &uid, num, &pt)?.map_err(Fail::from)?;
    let mut tries: Vec<(String, Vec<u8>, Vec<u8>, usize)> = vec![];
    let mut bit = kb.clone();
    let i = src.idx(256);
    bit[i / 8] ^= 1 << (i % 8);
    tries.push(("key bit".into(), bit, uid.clone(), num));
    let mut rev = kb.clone();
    rev.reverse();
    tries.push(("reversed key".into(), rev, uid.clone(), num));
    tries.push(("other key".into(), src.blob(32), uid.clone(), num));
    let nums = |v: &mut Vec<(String, Vec<u8>, Vec<u8>, usize)>, w: &str, x: usize| v.push((w.into(), kb.clone(), uid.clone(), x));
    for b in [0, 1, 7, 8, 15, 16, 31, 32, 33, 47, 48, 63, src.idx(64)] {
        nums(&mut tries, "number bit", num ^ (1usize << b));
    }
    for (w, x) in [
        ("number as u8", num as u8 as usize),
        ("number as u16", num as u16 as usize),
        ("number as u32", num as u32 as usize),
        ("number as i32", num as i32 as usize),
        ("number swapped", num.swap_bytes()),
        ("number shifted", num >> 8),
        ("number + 1", num.wrapping_add(1)),
        ("number - 1", num.wrapping_sub(1)),
        ("number 0", 0),
    ] {
        nums(&mut tries, w, x);
    }
    let ids = |v: &mut Vec<(String, Vec<u8>, Vec<u8>, usize)>, w: &str, u: Vec<u8>, n: usize| v.push((w.into(), kb.clone(), u, n));
    if !uid.is_empty() {
        let cut = src.idx(uid.len());
        ids(&mut tries, "prefix of the id", uid[..cut].to_vec(), num);
        ids(&mut tries, "suffix of the id", uid[1..].to_vec(), num);
        ids(&mut tries, "no id", vec![], num);
        let mut b = uid.clone();
        let i = src.idx(8 * b.len());
        b[i / 8] ^= 1 << (i % 8);
        ids(&mut tries, "id bit", b, num);
        let mut b = uid.clone();
        let l = b.len();
        b[l - 1] ^= 1;
        ids(&mut tries, "last id bit", b, num);
        let mut r = uid.clone();
        r.reverse();
        ids(&mut tries, "reversed id", r, num);
        // bytes moved between the id and the number
        let mut u = uid.clone();
        let last = u.pop().unwrap();
        ids(&mut tries, "id byte moved into the number", u, (num << 8) | last as usize);
        if uid.len() > 8 {
            let (h, t) = uid.split_at(uid.len() - 8);
            ids(&mut tries, "last id bytes as number", h.to_vec(), usize::from_le_bytes(t.try_into().unwrap()));
        }
    }
    for x in [0u8, 1, 0xff] {
        let mut u = uid.clone();
        u.push(x);
        ids(&mut tries, "longer id", u, num);
    }
    for w in [1usize, 4, 8] {
        let mut u = uid.clone();
        u.extend(&num.to_le_bytes()[..w]);
        ids(&mut tries, "number bytes moved into the id", u, if w == 8 { 0 } else { num >> (8 * w) });
        let mut u = uid.clone();
        u.extend(&num.to_be_bytes()[..w]);
        ids(&mut tries, "number bytes moved into the id", u, num);
    }
    // the number written out as text next to the id
    for t in [num.to_string(), format!("{num:x}"), format!("{num:X}"), format!("{num:016x}"), format!("{num:08x}"), (num as i64).to_string()] {
        for sep in ["", ":", "-", "/", "_", ".", "#", "\0"] {
            ids(&mut tries, "number text after the id", [&uid[..], sep.as_bytes(), t.as_bytes()].concat(), 0);
            ids(&mut tries, "number text before the id", [t.as_bytes(), sep.as_bytes(), &uid[..]].concat(), 0);
        }
    }
    let digits = num.to_string();
    for cut in 1..digits.len() {
        let rest = digits[cut..].parse().unwrap_or(0);
        ids(&mut tries, "number digits moved into the id", [&uid[..], digits[..cut].as_bytes()].concat(), rest);
    }
    ids(&mut tries, "other id", src.blob(uid.len() + 1), num);
    if uid.len() > 1 {
        ids(&mut tries, "padded id", { let mut u = uid.clone(); u.truncate(uid.len() - 1); u.push(0); u }, num);
    }
    let mut m = 0;
    for (w, k2, u2, n2) in tries {
        if (&k2, &u2, n2) == (&kb, &uid, num) {
            continue;
        }
        m += 1;
        let r = dec::<4096>(&hyb::key(&k2)?, &u2, n2, &c)?;
        ensure!(ctx, r.is_err(), "{w}: a block written for id {uid:?} number {num} is accepted with id {u2:?} number {n2}");
    }
    let d = dec::<4096>(&k, &uid, num, &c)?.map_err(Fail::from)?;
    ensure!(ctx, d == pt, "other bytes");
    ctx.nontrivial_if(m >= 20);
    Ok(())
}

fn block_tamper(src: &mut Src, ctx: &mut Ctx) -> R {
    let (kb, uid, num) = (gen_key(src), gen_uid(src), gen_num(src));
    let n = match src.below(4) {
        0 => src.size(100, 4096),
        _ => src.size(1, 40),
    };
    let pt = src.blob(n);
    ctx.say(format!("{n} bytes, id of {} bytes, block {num}", uid.len()));
    let k = hyb::key(&kb)?;
    let c = enc::<4096>(&k, &uid, num, &pt)?.map_err(Fail::from)?;
    let n2 = src.size(1, 40);
    let pt2 = src.blob(n2);
    let c2 = enc::<4096>(&k, &uid, num, &pt2)?.map_err(Fail::from)?;
    let mut tries: Vec<(String, Vec<u8>)> = vec![];
    if c.len() <= 70 {
        for i in 0..c.len() {
            let mut t = c.clone();
            t[i] ^= 1 << src.below(8);
            tries.push((format!("bit of byte {i}"), t));
        }
        for l in 0..c.len() {
            tries.push((format!("cut to {l}"), c[..l].to_vec()));
        }
    } else {
        for _ in 0..20 {
            let mut t = c.clone();
            let i = src.idx(t.len());
            t[i] = t[i].wrapping_add(1 + src.below(255) as u8);
            tries.push((format!("byte {i}"), t));
            let l = src.idx(c.len());
            tries.push((format!("cut to {l}"), c[..l].to_vec()));
        }
    }
    for _ in 0..6 {
        let mut t = c.clone();
        let marks = [12, c.len() - 16, c.len() - 1];
        let w = mutate(src, &mut t, &marks, &c2);
        tries.push((w.into(), t));
    }
    let mix = |a: &[u8], b: &[u8], e: &[u8]| [a, b, e].concat();
    let (la, lb) = (c.len() - 16, c2.len() - 16);
    tries.push(("other nonce".into(), mix(&c2[..12], &c[12..la], &c[la..])));
    tries.push(("other body".into(), mix(&c[..12], &c2[12..lb], &c[la..])));
    tries.push(("other tag".into(), mix(&c[..12], &c[12..la], &c2[lb..])));
    tries.push(("tag first".into(), mix(&c[la..], &c[..12], &c[12..la])));
    tries.push(("concatenation".into(), mix(&c, &c2, &[])));
    tries.push(("trailing byte".into(), mix(&c, &[0], &[])));
    tries.push(("leading byte".into(), mix(&[0], &c, &[])));
    // xor the plaintext difference in (works against unauthenticated modes)
    let mut t = c.clone();
    for i in 0..n.min(n2) {
        t[12 + i] ^= pt[i] ^ pt2[i];
    }
    tries.push(("plaintext difference".into(), t));
    let mut m = 0;
    for (w, t) in tries {
        if t == c {
            continue;
        }
        m += 1;
        let r = dec::<4096>(&k, &uid, num, &t)?;
        ctx.checks += 1;
        if let Ok(r) = r {
            ensure!(ctx, t == c2 && r == pt2, "{w}: an altered block is accepted as {r:?}");
        }
    }
    ctx.nontrivial_if(m >= 10);
    Ok(())
}

fn resource(src: &mut Src, ctx: &mut Ctx) -> R {
    let kb = gen_key(src);
    let k = hyb::key(&kb)?;
    let a = gen_uid(src);
    let b = match src.below(4) {
        0 => [a.clone(), vec![0]].concat(),
        1 => [a.clone(), 0usize.to_le_bytes().to_vec()].concat(),
        2 if !a.is_empty() => a[..a.len() - 1].to_vec(),
        _ => [gen_uid(src), vec![9]].concat(),
    };
    let ids = [a, b];
    if ids[0] == ids[1] {
        return Ok(());
    }
    let start = if src.chance(1, 2) { 0 } else { gen_num(src) };
    let stride = *src.pick(&[1usize, 1, 256, 65536, 1 << 32, 1 << 56]);
    let mut store: Vec<(usize, usize, Vec<u8>, Vec<u8>)> = vec![];
    for r in 0..2 {
        for i in 0..src.size(2, 8) {
            let num = start.wrapping_add(i.wrapping_mul(stride));
            let n = src.size(1, 30);
            let pt = if src.chance(1, 4) { vec![0; 8] } else { src.blob(n) };
            let c = enc::<65536>(&k, &ids[r], num, &pt)?.map_err(Fail::from)?;
            if store.iter().any(|s| s.0 == r && s.1 == num) {
                continue;
            }
            store.push((r, num, pt, c));
        }
    }
    ctx.say(format!("ids of {} and {} bytes, {} blocks from {start} step {stride}", ids[0].len(), ids[1].len(), store.len()));
    let perm = src.perm(store.len());
    for (i, p) in perm.iter().enumerate() {
        let (at, put) = (&store[i], &store[*p]);
        let r = dec::<65536>(&k, &ids[at.0], at.1, &put.3)?;
        if i == *p {
            ensure!(ctx, r.as_ref().ok() == Some(&at.2), "a block read back at its place: {r:?}");
        } else {
            ctx.nontrivial = true;
            ensure!(ctx, r.is_err(), "block {} of resource {} is accepted as block {} of resource {}", put.1, put.0, at.1, at.0);
        }
    }
    Ok(())
}
