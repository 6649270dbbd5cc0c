//! C12 C13 C14: bytes.
use group::Group;
use std::cell::RefCell;

use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
use cosmian_abe_gpsw::{
    core::{
        bilinear_map::{bls12_381::Bls12_381, BilinearMap},
        msp::{policy_to_msp, MonotoneSpanProgram},
    },
    interfaces::hybrid_crypto::{
        decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header, ClearTextHeader,
        EncryptedHeader,
    },
};
use cosmian_bls12_381::{G1Affine, G2Affine, Gt, Scalar};
use cosmian_crypto_base::{symmetric_crypto::Metadata, KeyTrait};

use crate::{
    api::*,
    ensure, fail, golden,
    hyb::{self, H},
    model::*,
    pbt::*,
    props_core::names,
    props_scheme::shake,
    refimpl::*,
};

macro_rules! one {
    ($v:ident, $prop:expr, $id:literal, $name:literal, $rule:expr, $f:expr, $q:expr, $t:expr) => {
        if $prop == $id {
            $v.push(Sub { name: $name, rule: $rule, quick: $q, thorough: $t, run: $f });
        }
    };
}
pub type LibScalar = <Bls12_381 as BilinearMap>::Scalar;

pub fn subs(p: &str) -> Vec<Sub> {
    let mut v = vec![];
    one!(v, p, "C12", "objects", "master, delegation, user (issued and derived) keys, ciphertexts, plaintexts and span programs of random policies: same bytes again, equal, announced length exact, and the copies do the same work as the originals. Non-trivial: the copies opened a ciphertext and refused another one.",
        objects, 220, 6000);
    one!(v, p, "C12", "large", "keys, ciphertexts and span programs with hundreds of attributes. Non-trivial: more than 255 elements.",
        large, 12, 300);
    #[cfg(feature = "toy")]
    one!(v, p, "C12", "huge-transparent", "over the transparent group: master keys and ciphertexts with up to 70 000 attributes. Non-trivial: more than 65 535 elements.",
        huge, 6, 60);
    one!(v, p, "C12", "large_programs", "span programs (of integers and scalars) and user keys with 60 000 to 80 000 matrix elements, of any shape. Non-trivial: more than 65 535 elements.",
        large_programs, 96, 2500);
    one!(v, p, "C12", "elements", "scalars, integers, group elements (neutral and special ones too), non-empty vectors of them, span programs with arbitrary entries. Non-trivial: always.",
        elements, 1500, 50000);
    one!(v, p, "C12", "headers", "encrypted and clear headers with random keys, metadata and header bytes. Non-trivial: metadata present.",
        headers, 3000, 100000);
    one!(v, p, "C13", "decoders", "valid objects of every serializable type (and raw bytes) after 1-4 mutations: count fields set to boundary values, truncation, extension, element and byte edits, removed, repeated and spliced pieces, non-canonical scalars and points off the curve; whatever is accepted is used in every operation that takes it. Non-trivial: at least one mutation and more than 8 bytes.",
        decoders, 12000, 600000);
    one!(v, p, "C13", "hybrid", "headers, encapsulated keys and blocks after the same mutations, and headers whose metadata section is authentic but malformed. Non-trivial: at least one mutation and more than 8 bytes.",
        hybrid_bytes, 3000, 150000);
    one!(v, p, "C14", "codec", "every object the library writes is read by an independent decoder with the expected meaning and re-encodes to the same bytes; random objects of the independent encoder are read by the library and written back identically. Non-trivial: always.",
        codec, 260, 8000);
    one!(v, p, "C14", "long", "the same for objects with hundreds of elements (master keys, keys of long axes, ciphertexts, span programs) and for vectors of integers, scalars and group elements of up to 70 000 elements. Non-trivial: always.",
        codec_long, 16, 400);
    one!(v, p, "C14", "hybrid_codec", "headers and blocks written by the library are opened by the independent codec and the other way round. Non-trivial: metadata present.",
        hybrid_codec, 400, 12000);
    one!(v, p, "C14", "golden", "objects stored by earlier builds (committed golden files and the repository's own vectors): every stored key against every stored ciphertext, header and block of its authority, old keys with fresh ciphertexts, old policies with fresh keys. Non-trivial: always.",
        golden_case, 400, 6000);
    v
}

fn round<T: AsBytes>(ctx: &mut Ctx, what: &str, x: &T) -> Result<(T, Vec<u8>), Fail> {
    let b = ser(what, x)?;
    let n = no_panic(what, || x.len_bytes())?;
    ensure!(ctx, n == b.len(), "{what}: announces {n} bytes, writes {}", b.len());
    let y = de::<T>(what, &b)?;
    let c = ser(what, &y)?;
    ensure!(ctx, c == b, "{what}: the copy serializes to other bytes");
    let n = no_panic(what, || y.len_bytes())?;
    ensure!(ctx, n == b.len(), "{what}: the copy announces {n} bytes instead of {}", b.len());
    Ok((y, b))
}
fn round_eq<T: AsBytes + PartialEq>(ctx: &mut Ctx, what: &str, x: &T) -> Result<(T, Vec<u8>), Fail> {
    let (y, b) = round(ctx, what, x)?;
    ensure!(ctx, *x == y, "{what}: the copy differs");
    Ok((y, b))
}

/// The text form of a key is its bytes in hexadecimal.
fn text<X: AsBytes + std::fmt::Display>(ctx: &mut Ctx, what: &str, x: &X) -> R {
    let hex: String = ser(what, x)?.iter().map(|b| format!("{b:02x}")).collect();
    let t = no_panic(&format!("text of {what}"), || x.to_string())?;
    ensure!(ctx, t == hex, "the text form of a {what} is not its bytes in hexadecimal");
    Ok(())
}

fn objects(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, &WorldOpts::default());
    ctx.say(w.describe());
    let m = master::<Real>(w.max)?;
    let m2 = Master::<Real> {
        sk: round_eq(ctx, "master private key", &m.sk)?.0,
        pk: round_eq(ctx, "master public key", &m.pk)?.0,
        dk: round_eq(ctx, "delegation key", &m.dk)?.0,
    };
    text(ctx, "master private key", &m2.sk)?;
    text(ctx, "master public key", &m2.pk)?;
    text(ctx, "delegation key", &m2.dk)?;
    let whole = src.chance(1, 10);
    let f = gen_formula(src, &w, 8);
    ctx.say(if whole { "key ALL".into() } else { format!("key {}", f.describe(&w)) });
    let t = if whole { T::Leaf(w.all_values().into_iter().collect()) } else { f.snapshot(&w) };
    let ap = if whole { AccessPolicy::All } else { f.ap(&w) };
    let msp = policy_to_msp(&w.policy, &ap).map_err(|e| Fail::from(format!("policy_to_msp: {e}")))?;
    round_eq(ctx, "span program", &msp)?;
    let k = keygen::<Real>(&w.policy, if src.chance(1, 2) { &m2 } else { &m }, &ap)?;
    let mut keys = vec![round_eq(ctx, "user key", &k)?.0, k.clone()];
    if src.chance(1, 2) {
        let d = match try_delegate::<Real>(&w.policy, &m2, &keys[0], &AccessPolicy::All)? {
            Ok(d) => d,
            Err(e) => fail!("re-randomisation: {e}"),
        };
        keys.push(round_eq(ctx, "derived user key", &d)?.0);
        keys.push(d);
    }
    for k in &keys {
        text(ctx, "user key", k)?;
    }
    let (mut yes, mut no) = (false, false);
    for _ in 0..2 {
        let l = gen_attrs(src, &w, &f, &f.snapshot(&w), 12);
        if l.len() > w.max as usize {
            continue;
        }
        let msg = gen_msg::<Real>(src)?;
        round_eq(ctx, "plaintext", &msg)?;
        let ok = t.eval(&w.gamma(&l));
        ctx.say(format!("[{}]->{}", names(&w, &l), if ok { "open" } else { "refuse" }));
        let ct = encrypt::<Real>(&w.policy, if src.chance(1, 2) { &m2 } else { &m }, &w.attributes(&l), &msg)?;
        let (ct2, b) = round(ctx, "ciphertext", &ct)?;
        let n = no_panic("ciphertext_len", || <Real as AbeScheme>::ciphertext_len(l.len()))?;
        ensure!(ctx, n == b.len(), "ciphertext_len({}) = {n}, the ciphertext has {} bytes", l.len(), b.len());
        for key in &keys {
            for c in [&ct, &ct2] {
                let g = decrypt::<Real>(c, key)?;
                ensure!(ctx, if ok { g.is(&msg) } else { g.refused() }, "a copy gave {} where the policy says {ok}", g.word(&msg));
            }
        }
        yes |= ok;
        no |= !ok;
    }
    ctx.nontrivial_if(yes && no);
    Ok(())
}

fn large(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(256, 330);
    let nm: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
    let w = World::new(vec![Axis { name: "L".into(), attrs: nm, hier: true }], n as u32);
    let m = master::<Real>(330)?;
    round_eq(ctx, "master private key", &m.sk)?;
    round_eq(ctx, "master public key", &m.pk)?;
    round_eq(ctx, "delegation key", &m.dk)?;
    text(ctx, "master private key", &m.sk)?;
    text(ctx, "master public key", &m.pk)?;
    text(ctx, "delegation key", &m.dk)?;
    let top = src.size(256, n) - 1;
    let key = keygen::<Real>(&w.policy, &m, &AccessPolicy::Attr(w.attribute((0, top))))?;
    let (k2, _) = round_eq(ctx, "user key", &key)?;
    text(ctx, "user key", &key)?;
    let msp = policy_to_msp(&w.policy, &AccessPolicy::All).map_err(|e| Fail::from(e.to_string()))?;
    round_eq(ctx, "span program", &msp)?;
    let len = src.size(256, n);
    let l: Vec<At> = (0..len).map(|i| (0, n - 1 - i)).collect();
    let ok = l.iter().any(|a| a.1 <= top);
    ctx.say(format!("{n} attributes, key for {}, ciphertext with {len}, {}", top + 1, if ok { "open" } else { "refuse" }));
    let msg = secret_msg::<Real>()?;
    let ct = encrypt::<Real>(&w.policy, &m, &w.attributes(&l), &msg)?;
    let (c2, b) = round(ctx, "ciphertext", &ct)?;
    ensure!(ctx, <Real as AbeScheme>::ciphertext_len(len) == b.len(), "ciphertext_len({len}) is wrong");
    let g = decrypt::<Real>(&c2, &k2)?;
    ensure!(ctx, if ok { g.is(&msg) } else { g.refused() }, "the copies gave {}", g.word(&msg));
    ctx.nontrivial = true;
    Ok(())
}

#[cfg(feature = "toy")]
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    use crate::toy::Fake as A;
    A::prep(src);
    let n = if src.chance(2, 3) { src.size(65_530, 65_600) } else { src.size(1000, 70_000) };
    let nm: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
    let w = World::new(vec![Axis { name: "L".into(), attrs: nm, hier: false }], n as u32);
    ctx.say(format!("{n} attributes"));
    let m = new_master::<A>(&w.policy)?;
    round_eq(ctx, "master private key", &m.sk)?;
    round_eq(ctx, "master public key", &m.pk)?;
    round_eq(ctx, "delegation key", &m.dk)?;
    text(ctx, "master private key", &m.sk)?;
    text(ctx, "master public key", &m.pk)?;
    text(ctx, "delegation key", &m.dk)?;
    let at = (0, src.idx(n));
    let key = keygen::<A>(&w.policy, &m, &AccessPolicy::Attr(w.attribute(at)))?;
    let l: Vec<At> = (0..n).map(|i| (0, i)).collect();
    let msg = gen_msg::<A>(src)?;
    let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
    let (c2, b) = round(ctx, "ciphertext", &ct)?;
    ensure!(ctx, b.len() == 40 + 36 * n, "a ciphertext of {n} attributes has {} bytes", b.len());
    let g = decrypt::<A>(&c2, &key)?;
    ensure!(ctx, g.is(&msg), "the copy gave {}", g.word(&msg));
    ctx.nontrivial_if(n > 65_535);
    Ok(())
}

fn large_programs(src: &mut Src, ctx: &mut Ctx) -> R {
    let be = crate::refimpl::be;
    let total = if src.chance(1, 2) { src.size(65_500, 65_600) } else { src.size(60_000, 80_000) };
    let small = src.size(1, 300);
    let (rows, cols) = if src.chance(1, 2) { (small, total / small) } else { (total / small, small) };
    ctx.say(format!("{rows} x {cols}"));
    ctx.nontrivial_if(rows * cols > 65_535);
    let x0 = src.below(1 << 32) as u32;
    let mut ib = [be(rows), be(cols)].concat();
    ib.extend((0..rows as u32).flat_map(|i| x0.wrapping_add(i * 3).to_be_bytes()));
    let mut sb = ib.clone();
    let entry = |i: u32| (i.wrapping_mul(x0 | 1) >> 7) as i32 - (1 << 24);
    ib.extend((0..(rows * cols) as u32).flat_map(|i| entry(i).to_be_bytes()));
    let im = de::<MonotoneSpanProgram<i32>>("integer span program", &ib)?;
    let (im, b) = round_eq(ctx, "integer span program", &im)?;
    ensure!(ctx, b == ib, "the integer span program is written differently");
    ensure!(ctx, im.rows() == rows && im.cols() == cols, "read as {} x {}", im.rows(), im.cols());
    sb.extend((0..(rows * cols) as u32).flat_map(|i| sci(entry(i)).to_bytes()));
    let sm = de::<MonotoneSpanProgram<LibScalar>>("scalar span program", &sb)?;
    let (_, b) = round_eq(ctx, "scalar span program", &sm)?;
    ensure!(ctx, b == sb, "the scalar span program is written differently");
    // as a user key: fewer rows, since each has a group element
    let rows = src.size(1, 6);
    let cols = total / rows;
    let um = UserKey {
        d: (0..rows).map(|_| g2(&gen_scalar(src))).collect(),
        msp: Msp {
            attrs: (0..rows as u32).map(|i| x0.wrapping_add(i)).collect(),
            cols,
            m: (0..rows).map(|r| (0..cols).map(|c| sci(entry((r * cols + c) as u32))).collect()).collect(),
        },
    };
    let want = um.enc();
    let uk = de::<Uk<Real>>("user key", &want)?;
    let (_, b) = round_eq(ctx, "user key", &uk)?;
    text(ctx, "user key", &uk)?;
    ensure!(ctx, b == want, "the user key is written differently");
    Ok(())
}

fn gen_int(src: &mut Src) -> i32 {
    match src.below(3) {
        0 => *src.pick(&[0, 1, -1, 255, 256, -256, i32::MIN, i32::MAX, 0x7fff_ff00]),
        _ => src.below(1 << 32) as u32 as i32,
    }
}

fn elements(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = match src.below(8) {
        0 => if src.chance(1, 20) { src.size(65_530, 65_600) } else { src.size(256, 300) },
        1 => 1,
        _ => src.size(1, 9),
    };
    let small = n.min(9);
    let kind = src.below(10);
    ctx.nontrivial = true;
    match kind {
        0 => {
            let v: Vec<u32> = (0..n).map(|_| gen_int(src) as u32).collect();
            ctx.say(format!("u32 {v:?}"));
            for x in &v {
                let (_, b) = round_eq(ctx, "u32", x)?;
                ensure!(ctx, b == x.to_be_bytes(), "u32 layout");
            }
            round_eq(ctx, "u32 vector", &v)?;
        }
        1 => {
            let v: Vec<i32> = (0..n).map(|_| gen_int(src)).collect();
            ctx.say(format!("i32 {v:?}"));
            for x in &v {
                round_eq(ctx, "i32", x)?;
            }
            round_eq(ctx, "i32 vector", &v)?;
        }
        2 | 3 => {
            let v: Vec<LibScalar> =
                (0..n).map(|_| de::<LibScalar>("scalar", &gen_scalar(src).to_bytes())).collect::<Result<_, _>>()?;
            ctx.say(format!("{n} scalars {:?}", v.first()));
            for x in v.iter().take(9) {
                round_eq(ctx, "scalar", x)?;
            }
            round_eq(ctx, "scalar vector", &v)?;
        }
        4 => {
            let v: Vec<G1Affine> = (0..small).map(|_| g1(&gen_scalar(src))).collect();
            ctx.say(format!("{small} G1 {:?}", v.first()));
            for x in &v {
                round_eq(ctx, "G1", x)?;
            }
            round_eq(ctx, "G1 vector", &v)?;
        }
        5 => {
            let v: Vec<G2Affine> = (0..small).map(|_| g2(&gen_scalar(src))).collect();
            ctx.say(format!("{small} G2 {:?}", v.first()));
            for x in &v {
                round_eq(ctx, "G2", x)?;
            }
            round_eq(ctx, "G2 vector", &v)?;
        }
        6 => {
            let v: Vec<Gt> = (0..small.min(4)).map(|_| gt(&gen_scalar(src))).collect();
            ctx.say(format!("{} Gt {:02x?}", v.len(), &v[0].to_compressed()[..8]));
            for x in &v {
                round_eq(ctx, "Gt", x)?;
            }
            round_eq(ctx, "Gt vector", &v)?;
        }
        _ => {
            let (rows, cols) = (src.size(1, 12), src.size(1, 8));
            let attrs: Vec<u32> = {
                let base = src.below(1 << 32) as u32;
                let step = *src.pick(&[1u32, 255, 65537, 1 << 28]);
                (0..rows as u32).map(|i| base.wrapping_add(i.wrapping_mul(step))).collect()
            };
            let int = kind < 9;
            ctx.say(format!("{rows}x{cols} {} span program on {attrs:?}", if int { "integer" } else { "field" }));
            let mut head = be(rows).to_vec();
            head.extend(be(cols));
            for a in &attrs {
                head.extend(a.to_be_bytes());
            }
            if int {
                let ints: Vec<i32> = (0..rows * cols).map(|_| gen_int(src)).collect();
                for x in &ints {
                    head.extend(x.to_be_bytes());
                }
                let m = de::<MonotoneSpanProgram<i32>>("span program", &head)?;
                ensure!(ctx, m.rows() == rows && m.cols() == cols, "dimensions");
                for r in 0..rows {
                    ensure!(ctx, m.get_attr_from_row(r) == attrs[r] && m.get_row_from_attr(attrs[r]) == Some(r), "row {r} attribute");
                    ensure!(ctx, m.get_row(r)[..] == ints[r * cols..(r + 1) * cols], "row {r}");
                }
                let (_, b) = round_eq(ctx, "span program", &m)?;
                ensure!(ctx, b == head, "span program bytes");
                let fm = MonotoneSpanProgram::<LibScalar>::from(&m);
                let (_, b) = round_eq(ctx, "converted span program", &fm)?;
                let want = Msp { attrs, cols, m: ints.chunks(cols).map(|c| c.iter().map(|x| sci(*x)).collect()).collect() };
                ensure!(ctx, b == want.enc(), "converted span program bytes");
            } else {
                let want = Msp { attrs, cols, m: (0..rows).map(|_| (0..cols).map(|_| gen_scalar(src)).collect()).collect() };
                let m = de::<MonotoneSpanProgram<LibScalar>>("span program", &want.enc())?;
                let (_, b) = round_eq(ctx, "span program", &m)?;
                ensure!(ctx, b == want.enc(), "span program bytes");
            }
        }
    }
    Ok(())
}

fn headers(src: &mut Src, ctx: &mut Ctx) -> R {
    let kb = src.blob(32);
    let meta = hyb::gen_meta(src);
    ctx.say(hyb::show_meta(&meta));
    ctx.nontrivial_if(meta.is_some());
    let hl = src.size(0, 600);
    let hb = src.blob(hl);
    let e = EncryptedHeader::<H> { symmetric_key: hyb::key(&kb)?, encrypted_header_bytes: hb.clone() };
    let b = no_panic("EncryptedHeader", || e.try_into_bytes())?.map_err(|e| Fail::from(e.to_string()))?;
    let mut want = be(32).to_vec();
    want.extend(&kb);
    want.extend(&hb);
    ensure!(ctx, b == want, "encrypted header layout");
    let e2 = no_panic("EncryptedHeader", || EncryptedHeader::<H>::try_from_bytes(&b))?.map_err(|e| Fail::from(e.to_string()))?;
    ensure!(ctx, e2.symmetric_key.to_bytes().as_slice() == kb && e2.encrypted_header_bytes == hb, "encrypted header round trip");
    let md = meta.clone().unwrap_or_default();
    let c = ClearTextHeader::<H> { symmetric_key: hyb::key(&kb)?, meta_data: md };
    let b = no_panic("ClearTextHeader", || c.try_into_bytes())?.map_err(|e| Fail::from(e.to_string()))?;
    let mut want = be(32).to_vec();
    want.extend(&kb);
    want.extend(hyb::enc_meta(&c.meta_data));
    ensure!(ctx, b == want, "clear header layout");
    let c2 = no_panic("ClearTextHeader", || ClearTextHeader::<H>::try_from_bytes(&b))?.map_err(|e| Fail::from(e.to_string()))?;
    ensure!(ctx, c2.symmetric_key.to_bytes().as_slice() == kb && c2.meta_data == hyb::expected(&meta), "clear header round trip");
    let b2 = no_panic("ClearTextHeader", || c2.try_into_bytes())?.map_err(|e| Fail::from(e.to_string()))?;
    ensure!(ctx, b2 == b, "clear header re-serialization");
    Ok(())
}

// ------------------------------------------------------------------ C13

/// a small authority shared by the fuzzing cases
pub struct Pool {
    pub policy: Policy,
    pub p: Priv,
    pub m: Master<Real>,
    pub keys: Vec<Uk<Real>>,
    pub key_bytes: Vec<Vec<u8>>,
    pub cts: Vec<Ct<Real>>,
    pub ct_bytes: Vec<Vec<u8>>,
    pub aps: Vec<AccessPolicy>,
    pub attrs: Vec<Attribute>,
    pub headers: Vec<Vec<u8>>,
    pub msp: Vec<u8>,
}
impl Pool {
    fn new() -> Result<Self, Fail> {
        let mut policy = Policy::new(12);
        let e = |e: abe_policy::Error| Fail::from(e.to_string());
        policy.add_axis(&PolicyAxis::new("S", &["a", "b", "c"], true)).map_err(e)?;
        policy.add_axis(&PolicyAxis::new("D", &["x", "y", "z"], false)).map_err(e)?;
        policy.rotate(&Attribute::new("D", "x")).map_err(e)?;
        let p = Priv::seeded(13, 4242);
        let m = Master::<Real> {
            sk: de("master private key", &p.enc())?,
            pk: de("master public key", &p.public().enc())?,
            dk: de("delegation key", &p.delegation().enc())?,
        };
        let a = |x: &str, y: &str| AccessPolicy::new(x, y);
        let aps = vec![
            a("D", "x"),
            a("S", "b") & a("D", "x"),
            (a("S", "c") & a("D", "y")) & (a("D", "z") | a("D", "x")),
            AccessPolicy::All,
        ];
        let mut keys = vec![];
        for ap in &aps {
            keys.push(keygen::<Real>(&policy, &m, ap)?);
        }
        let attrs = vec![Attribute::new("S", "a"), Attribute::new("D", "x"), Attribute::new("D", "y")];
        let mut cts = vec![];
        let mut headers = vec![];
        for n in 1..=attrs.len() {
            cts.push(encrypt::<Real>(&policy, &m, &attrs[..n], &Gt::generator())?);
            for md in [None, Some(Metadata { uid: b"resource".to_vec(), additional_data: Some(vec![7; 9]) })] {
                headers.push(
                    encrypt_hybrid_header::<Real, H>(&policy, &m.pk, &attrs[..n], md)
                        .map_err(|e| Fail::from(e.to_string()))?
                        .encrypted_header_bytes,
                );
            }
        }
        let key_bytes = keys.iter().map(|k| ser("key", k)).collect::<Result<_, _>>()?;
        let ct_bytes = cts.iter().map(|k| ser("ciphertext", k)).collect::<Result<_, _>>()?;
        let msp = ser("span program", &policy_to_msp(&policy, &aps[2]).map_err(|e| Fail::from(e.to_string()))?)?;
        Ok(Pool { policy, p, m, keys, key_bytes, cts, ct_bytes, aps, attrs, headers, msp })
    }
}
thread_local! {
    static POOL: RefCell<Option<std::rc::Rc<Pool>>> = const { RefCell::new(None) };
}
pub fn pool() -> Result<std::rc::Rc<Pool>, Fail> {
    if let Some(p) = POOL.with(|c| c.borrow().clone()) {
        return Ok(p);
    }
    let p = std::rc::Rc::new(Pool::new()?);
    POOL.with(|c| *c.borrow_mut() = Some(p.clone()));
    Ok(p)
}

/// boundary values for a 32-bit length or count
pub fn odd_u32(src: &mut Src, near: u32) -> u32 {
    match src.below(12) {
        0 => 0,
        1 => 1,
        2 => near.wrapping_add(1),
        3 => near.wrapping_sub(1),
        4 => u32::MAX,
        5 => u32::MAX - src.below(8) as u32,
        6 => 1 << 31,
        7 => (1 << 31) - 1,
        8 => 1 << src.below(32),
        9 => near.wrapping_mul(2),
        10 => src.below(70000) as u32,
        _ => src.below(1 << 32) as u32,
    }
}
/// One structured mutation. `marks` are offsets of count fields and elements.
pub fn mutate(src: &mut Src, b: &mut Vec<u8>, marks: &[usize], other: &[u8]) -> &'static str {
    let n = b.len();
    let at = |src: &mut Src, len: usize| {
        if !marks.is_empty() && src.chance(3, 4) {
            (*src.pick(marks)).min(len)
        } else {
            src.idx(len + 1)
        }
    };
    match src.below(11) {
        0 => {
            let p = at(src, n);
            b.truncate(p);
            "cut"
        }
        1 => {
            let k = src.size(1, 5).min(n);
            b.truncate(n - k);
            "short"
        }
        2 => {
            let k = src.size(1, 40);
            b.extend(src.blob(k));
            "extend"
        }
        3 | 4 => {
            let p = at(src, n);
            if p + 4 <= n {
                let old = u32::from_be_bytes(b[p..p + 4].try_into().unwrap());
                let v = odd_u32(src, old);
                b[p..p + 4].copy_from_slice(&v.to_be_bytes());
            }
            "count"
        }
        5 => {
            if n > 0 {
                let p = at(src, n - 1);
                b[p] ^= 1 << src.below(8);
            }
            "bit"
        }
        6 => {
            if n > 0 {
                let p = src.idx(n);
                b[p] = *src.pick(&[0u8, 0xff, 0x80, 0x40, 0x20, 0xc0, 0x7f]);
            }
            "byte"
        }
        7 => {
            let p = at(src, n);
            let k = *src.pick(&[1usize, 4, 8, 32, 48, 96, 288]);
            let e = (p + k).min(n);
            b.drain(p..e);
            "remove"
        }
        8 => {
            let p = at(src, n);
            let k = *src.pick(&[4usize, 32, 48, 96]);
            let e = (p + k).min(n);
            let c = b[p..e].to_vec();
            b.splice(p..p, c);
            "repeat"
        }
        9 => {
            let p = at(src, n);
            let k = *src.pick(&[4usize, 32, 48, 96, 288]);
            let e = (p + k).min(n);
            let fill = *src.pick(&[0u8, 0xff, 0xc0]);
            b[p..e].iter_mut().for_each(|x| *x = fill);
            if src.chance(1, 2) && p < e && fill == 0 {
                b[p] = 0xc0; // the point at infinity
            }
            "fill"
        }
        _ => {
            let p = at(src, n);
            let q = src.idx(other.len() + 1);
            b.truncate(p);
            b.extend(&other[q..]);
            "splice"
        }
    }
}

fn limit(b: &[u8]) -> usize {
    // what is read may be unpacked (compressed points, prepared points), but
    // one allocation never needs to exceed a fixed multiple of the input
    (1 << 21) + 512 * b.len()
}
fn parse<T: AsBytes>(ctx: &mut Ctx, what: &str, b: &[u8]) -> Result<Option<T>, Fail> {
    ctx.checks += 1;
    let x = with_alloc_limit(limit(b), || no_panic(what, || T::try_from_bytes(b)))?;
    match x {
        Err(_) => {
            ctx.label("rejected");
            Ok(None)
        }
        Ok(x) => {
            ctx.label("accepted");
            let n = no_panic(what, || x.len_bytes())?;
            // an accepted object comes from the given bytes: it is not larger
            ensure!(ctx, n <= b.len(), "{what}: {n} bytes announced by an object read from {} bytes", b.len());
            let out = no_panic(what, || x.try_into_bytes())?;
            if let Ok(o) = &out {
                ensure!(ctx, o.len() <= b.len(), "{what}: object of {} bytes read from {} bytes", o.len(), b.len());
                ensure!(ctx, *o == b[..o.len()], "{what}: the accepted object re-serializes to other bytes");
            }
            Ok(Some(x))
        }
    }
}

fn use_user_key(ctx: &mut Ctx, p: &Pool, k: &Uk<Real>) -> R {
    for c in &p.cts {
        no_panic("decrypt", || Engine::<Real>::new().decrypt(c, k)).map(|_| ())?;
    }
    no_panic("key display", || format!("{k:?}").len())?;
    for ap in &p.aps {
        if let Ok(d) = try_delegate::<Real>(&p.policy, &p.m, k, ap)? {
            no_panic("decrypt", || Engine::<Real>::new().decrypt(&p.cts[1], &d)).map(|_| ())?;
            no_panic("serialize", || d.try_into_bytes()).map(|_| ())?;
        }
    }
    no_panic("decrypt_hybrid_header", || decrypt_hybrid_header::<Real, H>(k, &p.headers[1]).is_ok())?;
    ctx.checks += 1;
    Ok(())
}

fn decoders(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let kind = src.below(14);
    let (what, mut b, marks): (&str, Vec<u8>, Vec<usize>) = match kind {
        0 => ("master private key", Priv { t: p.p.t[..src.size(1, 13)].to_vec(), y: p.p.y }.enc(), vec![]),
        1 => ("master public key", ser("pk", &p.m.pk)?, vec![]),
        2 => ("delegation key", ser("dk", &p.m.dk)?, vec![]),
        3 | 4 => {
            let b = src.pick(&p.key_bytes).clone();
            let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
            let o = 4 + 96 * n;
            ("user key", b, vec![0, 4, o, o + 4, o + 8, o + 12, o + 8 + 4 * n, o + 40 + 4 * n])
        }
        5 | 6 => {
            let b = src.pick(&p.ct_bytes).clone();
            let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
            ("ciphertext", b, vec![0, 4, 4 + 4 * n, 8 + 4 * n, 8 + 52 * n])
        }
        7 => ("plaintext", Gt::generator().to_compressed().to_vec(), vec![0]),
        8 => ("integer span program", p.msp.clone(), vec![0, 4, 8]),
        9 => {
            let m = UserKey::dec(&p.key_bytes[2]).map_err(Fail::from)?.msp;
            ("field span program", m.enc(), vec![0, 4, 8])
        }
        10 => ("u32 vector", { let mut v = be(3).to_vec(); v.extend(src.blob(12)); v }, vec![0, 4]),
        11 => ("i32 vector", { let mut v = be(3).to_vec(); v.extend(src.blob(12)); v }, vec![0, 4]),
        12 => ("scalar", scalar_from_seed(src.below(1 << 32)).to_bytes().to_vec(), vec![0]),
        _ => ("G1 vector", { let mut v = be(2).to_vec(); v.extend(g1(&sc(5)).to_compressed()); v.extend(g1(&sc(7)).to_compressed()); v }, vec![0, 4]),
    };
    let marks = if marks.is_empty() {
        let l = b.len();
        vec![0, 4, 36.min(l), 52.min(l), 100.min(l), l.saturating_sub(32), l.saturating_sub(288)]
    } else {
        marks
    };
    let mut how = vec![];
    if src.chance(1, 20) {
        let n = src.size(0, 400);
        b = src.blob(n);
        how.push("raw");
    }
    for _ in 0..src.size(0, 4) {
        let other = src.pick(&p.ct_bytes).clone();
        let other = if src.chance(1, 2) { p.key_bytes[1].clone() } else { other };
        how.push(mutate(src, &mut b, &marks, &other));
    }
    ctx.nontrivial_if(!how.is_empty() && b.len() > 8);
    ctx.say(format!("{what} {how:?}, {} bytes, hash {:016x}", b.len(), hash64(&b)));
    match kind {
        0 => {
            if let Some(sk) = parse::<Sk<Real>>(ctx, what, &b)? {
                for ap in &p.aps {
                    no_panic("generate_user_key", || Engine::<Real>::new().generate_user_key(&p.policy, &sk, ap).is_ok())?;
                }
            }
        }
        1 => {
            if let Some(pk) = parse::<Pk<Real>>(ctx, what, &b)? {
                for n in 1..=p.attrs.len() {
                    no_panic("encrypt", || Engine::<Real>::new().encrypt(&p.policy, &pk, &p.attrs[..n], &Gt::generator()).is_ok())?;
                }
                no_panic("encrypt_hybrid_header", || encrypt_hybrid_header::<Real, H>(&p.policy, &pk, &p.attrs, None).is_ok())?;
            }
        }
        2 => {
            if let Some(dk) = parse::<Dk<Real>>(ctx, what, &b)? {
                for (k, ap) in p.keys.iter().zip(&p.aps) {
                    no_panic("delegate", || Engine::<Real>::new().delegate_user_key(&p.policy, &dk, k, ap).is_ok())?;
                    no_panic("delegate", || Engine::<Real>::new().delegate_user_key(&p.policy, &dk, k, &AccessPolicy::All).is_ok())?;
                }
            }
        }
        3 | 4 => {
            if let Some(k) = parse::<Uk<Real>>(ctx, what, &b)? {
                use_user_key(ctx, &p, &k)?;
            }
        }
        5 | 6 => {
            if let Some(c) = parse::<Ct<Real>>(ctx, what, &b)? {
                for k in &p.keys {
                    no_panic("decrypt", || Engine::<Real>::new().decrypt(&c, k)).map(|_| ())?;
                }
            }
            for k in &p.keys {
                with_alloc_limit(limit(&b), || no_panic("decrypt_symmetric_key", || Engine::<Real>::new().decrypt_symmetric_key(k, &b, 32).is_ok()))?;
            }
        }
        7 => {
            if let Some(g) = parse::<Gt>(ctx, what, &b)? {
                no_panic("encrypt", || Engine::<Real>::new().encrypt(&p.policy, &p.m.pk, &p.attrs, &g).is_ok())?;
            }
        }
        8 => {
            if let Some(m) = parse::<MonotoneSpanProgram<i32>>(ctx, what, &b)? {
                no_panic("span program display", || format!("{m}").len())?;
                let k = no_panic("key_generation", || AbeScheme::key_generation(&Real::default(), &m, &p.m.sk))?;
                if let Ok(k) = k {
                    use_user_key(ctx, &p, &k)?;
                }
                no_panic("key_delegation", || AbeScheme::key_delegation(&Real::default(), &Some(m.clone()), &p.keys[2], &p.m.dk).is_ok())?;
            }
        }
        9 => {
            if let Some(m) = parse::<MonotoneSpanProgram<LibScalar>>(ctx, what, &b)? {
                no_panic("span program display", || format!("{m}").len())?;
            }
        }
        10 => {
            parse::<Vec<u32>>(ctx, what, &b)?;
            parse::<u32>(ctx, "u32", &b)?;
        }
        11 => {
            parse::<Vec<i32>>(ctx, what, &b)?;
            parse::<i32>(ctx, "i32", &b)?;
        }
        12 => {
            parse::<LibScalar>(ctx, what, &b)?;
            parse::<Vec<LibScalar>>(ctx, "scalar vector", &b)?;
        }
        _ => {
            parse::<Vec<G1Affine>>(ctx, what, &b)?;
            parse::<G1Affine>(ctx, "G1", &b)?;
            parse::<G2Affine>(ctx, "G2", &b)?;
            parse::<Vec<G2Affine>>(ctx, "G2 vector", &b)?;
        }
    }
    Ok(())
}

fn hybrid_bytes(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let kind = src.below(5);
    let mut how = vec![];
    let mut b;
    match kind {
        // an authentic metadata section with malformed content
        0 => {
            let el = random_encaps(src, &p)?;
            let k = shake(&el.1.to_compressed(), 32);
            let n = match src.below(3) { 0 => src.size(0, 5), _ => src.size(4, 40) };
            let mut meta = src.blob(n);
            if n >= 4 {
                let v = odd_u32(src, n as u32 - 4);
                meta[..4].copy_from_slice(&v.to_be_bytes());
            }
            let nonce = src.blob(12);
            let enc = hyb::aes_enc(&k, &nonce, None, &meta)?;
            b = hyb::Hdr { encaps: el.0, meta: Some((nonce, enc)) }.build();
            how.push("malformed metadata");
            ctx.say(format!("authentic header, metadata {:02x?}", &meta[..meta.len().min(12)]));
        }
        _ => {
            b = src.pick(&p.headers).clone();
            let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
            let marks = [0, 4, 8, 4 + n, 16 + n, 20 + n];
            if src.chance(1, 20) {
                let n = src.size(0, 60);
                b = src.blob(n);
                how.push("raw");
            }
            for _ in 0..src.size(0, 4) {
                let other = src.pick(&p.headers).clone();
                how.push(mutate(src, &mut b, &marks, &other));
            }
            ctx.say(format!("header {how:?}, {} bytes, hash {:016x}", b.len(), hash64(&b)));
        }
    }
    ctx.nontrivial_if(!how.is_empty() && b.len() > 8);
    for k in &p.keys {
        ctx.checks += 1;
        let r = with_alloc_limit(limit(&b), || no_panic("decrypt_hybrid_header", || decrypt_hybrid_header::<Real, H>(k, &b)))?;
        if let Ok(h) = r {
            ctx.label("opened");
            no_panic("ClearTextHeader", || h.try_into_bytes().is_ok())?;
        }
    }
    with_alloc_limit(limit(&b), || no_panic("EncryptedHeader", || EncryptedHeader::<H>::try_from_bytes(&b).is_ok()))?;
    with_alloc_limit(limit(&b), || no_panic("ClearTextHeader", || ClearTextHeader::<H>::try_from_bytes(&b).is_ok()))?;
    let mut h = b.clone();
    if h.len() >= 4 {
        let v = if src.chance(1, 2) { 32 } else { odd_u32(src, 32) };
        h[..4].copy_from_slice(&v.to_be_bytes());
        if h.len() > 40 && src.chance(1, 2) {
            let v = odd_u32(src, h.len() as u32 - 40);
            h[36..40].copy_from_slice(&v.to_be_bytes());
        }
    }
    with_alloc_limit(limit(&h), || no_panic("EncryptedHeader", || EncryptedHeader::<H>::try_from_bytes(&h).is_ok()))?;
    with_alloc_limit(limit(&h), || no_panic("ClearTextHeader", || ClearTextHeader::<H>::try_from_bytes(&h).is_ok()))?;
    let sk = hyb::key(&[3; 32])?;
    ctx.checks += 1;
    let mut blk = encrypt_hybrid_block::<Real, H, 64>(&sk, b"u", 1, b"some plaintext").map_err(|e| Fail::from(e.to_string()))?;
    for _ in 0..src.size(1, 3) {
        mutate(src, &mut blk, &[0, 12, 28], &b);
    }
    for c in [&blk, &b] {
        with_alloc_limit(limit(c), || no_panic("decrypt_hybrid_block", || decrypt_hybrid_block::<Real, H, 64>(&sk, b"u", 1, c).is_ok()))?;
    }
    Ok(())
}

/// (encapsulation bytes every pool key with D::x opens, encapsulated element)
fn random_encaps(src: &mut Src, p: &Pool) -> Result<(Vec<u8>, Gt), Fail> {
    let el = gt(&scalar_from_seed(src.below(1 << 32)));
    let s = scalar_from_seed(src.below(1 << 32) ^ 0x77);
    let gamma: Vec<u32> = p
        .policy
        .attributes_values(&p.attrs)
        .map_err(|e| Fail::from(e.to_string()))?;
    Ok((RCt::encrypt(&el, &gamma, &s, &p.p.y, &|a| p.p.t[a as usize]).enc(), el))
}

// ------------------------------------------------------------------ C14

fn codec(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, &WorldOpts::default());
    ctx.say(w.describe());
    ctx.nontrivial = true;
    let m = master::<Real>(w.max)?;
    let bad = |what: &'static str| move |e: String| Fail::from(format!("{what}: the independent decoder says: {e}"));
    let (skb, pkb, dkb) = (ser("sk", &m.sk)?, ser("pk", &m.pk)?, ser("dk", &m.dk)?);
    let p = Priv::dec(&skb).map_err(bad("master private key"))?;
    ensure!(ctx, p.enc() == skb, "master private key re-encoding");
    ensure!(ctx, Pub::dec(&pkb).map_err(bad("master public key"))?.enc() == pkb, "master public key re-encoding");
    ensure!(ctx, Del::dec(&dkb).map_err(bad("delegation key"))?.enc() == dkb, "delegation key re-encoding");
    let f = gen_formula(src, &w, 8);
    let t = f.snapshot(&w);
    ctx.say(format!("key {}", f.describe(&w)));
    let key = keygen::<Real>(&w.policy, &m, &f.ap(&w))?;
    let kb = ser("user key", &key)?;
    let k = UserKey::dec(&kb).map_err(bad("user key"))?;
    ensure!(ctx, k.enc() == kb, "user key re-encoding");
    let msp = policy_to_msp(&w.policy, &f.ap(&w)).map_err(|e| Fail::from(e.to_string()))?;
    let mb = ser("span program", &msp)?;
    // integer span program: same layout with 4-byte signed entries
    let mut r = Rd(&mb);
    let rows = r.u32().map_err(bad("span program"))? as usize;
    let cols = r.u32().map_err(bad("span program"))? as usize;
    let attrs = (0..rows).map(|_| r.u32()).collect::<Result<Vec<_>, _>>().map_err(bad("span program"))?;
    let ints = (0..rows * cols).map(|_| r.u32().map(|x| x as i32)).collect::<Result<Vec<_>, _>>().map_err(bad("span program"))?;
    r.end().map_err(bad("span program"))?;
    let im = Msp { attrs, cols, m: ints.chunks(cols.max(1)).map(|c| c.iter().map(|x| sci(*x)).collect()).collect() };
    let l = gen_attrs(src, &w, &f, &t, 12);
    if l.len() <= w.max as usize {
        let gamma: Vec<u32> = l.iter().map(|a| w.current(*a)).collect();
        let ok = t.eval(&gamma.iter().copied().collect());
        ensure!(ctx, k.msp.accepts(&gamma) == ok && im.accepts(&gamma) == ok, "the decoded span program decides {gamma:?} differently from the policy");
        let msg = gen_msg::<Real>(src)?;
        let mg = ser("plaintext", &msg)?;
        ensure!(ctx, mg == msg.to_compressed(), "plaintext layout");
        let cb = ser("ciphertext", &encrypt::<Real>(&w.policy, &m, &w.attributes(&l), &msg)?)?;
        let c = RCt::dec(&cb).map_err(bad("ciphertext"))?;
        ensure!(ctx, c.enc() == cb, "ciphertext re-encoding");
        let got = k.decrypt(&c);
        ensure!(ctx, got.is_some() == ok && (!ok || got == Some(msg)), "decoded key and ciphertext do not give the plaintext");
    }
    // random objects of the independent encoder
    let n = src.size(1, 6);
    let seed = src.below(1 << 32);
    let q = Priv::seeded(n, seed);
    let sk = de::<Sk<Real>>("encoded private key", &q.enc())?;
    ensure!(ctx, ser("sk", &sk)? == q.enc(), "encoded private key is written back differently");
    let pk = de::<Pk<Real>>("encoded public key", &q.public().enc())?;
    ensure!(ctx, ser("pk", &pk)? == q.public().enc(), "encoded public key is written back differently");
    let dk = de::<Dk<Real>>("encoded delegation key", &q.delegation().enc())?;
    ensure!(ctx, ser("dk", &dk)? == q.delegation().enc(), "encoded delegation key is written back differently");
    let rows = src.size(1, 5);
    let cols = src.size(1, 4);
    let base = src.below(1 << 32) as u32;
    let um = UserKey {
        d: (0..rows).map(|_| g2(&gen_scalar(src))).collect(),
        msp: Msp {
            attrs: (0..rows as u32).map(|i| base.wrapping_add(i * 77)).collect(),
            cols,
            m: (0..rows).map(|_| (0..cols).map(|_| gen_scalar(src)).collect()).collect(),
        },
    };
    let uk = real_key(&um)?;
    ensure!(ctx, ser("user key", &uk)? == um.enc(), "encoded user key is written back differently");
    let cn = src.size(1, 5);
    let c = RCt {
        gamma: (0..cn).map(|_| src.below(1 << 32) as u32).collect(),
        e: (0..cn).map(|_| g1(&gen_scalar(src))).collect(),
        ep: gt(&gen_scalar(src)),
    };
    ctx.say(format!("encoded objects {n} {rows}x{cols} {:?}", c.gamma));
    let ct = de::<Ct<Real>>("encoded ciphertext", &c.enc())?;
    ensure!(ctx, ser("ciphertext", &ct)? == c.enc(), "encoded ciphertext is written back differently");
    // integers, integer span programs and vectors of elements
    let be = crate::refimpl::be;
    let entries: Vec<i32> = (0..rows * cols).map(|_| if src.chance(1, 2) { src.below(5) as i32 - 2 } else { gen_int(src) }).collect();
    let mut mb = [be(rows), be(cols)].concat();
    mb.extend(um.msp.attrs.iter().flat_map(|a| a.to_be_bytes()));
    mb.extend(entries.iter().flat_map(|x| x.to_be_bytes()));
    let im = de::<MonotoneSpanProgram<i32>>("encoded integer span program", &mb)?;
    let read: Vec<i32> = im.matrix().iter().flatten().copied().collect();
    ensure!(ctx, read == entries, "integer span program read as {read:?} instead of {entries:?}");
    ensure!(ctx, (0..rows).all(|i| im.get_attr_from_row(i) == um.msp.attrs[i]), "attributes of an integer span program");
    ensure!(ctx, ser("integer span program", &im)? == mb, "encoded integer span program is written back differently");
    let lm = policy_to_msp(&w.policy, &f.ap(&w)).map_err(|e| Fail::from(e.to_string()))?;
    let lb = ser("span program", &lm)?;
    let mut want = [be(lm.rows()), be(lm.cols())].concat();
    want.extend((0..lm.rows()).flat_map(|i| lm.get_attr_from_row(i).to_be_bytes()));
    want.extend(lm.matrix().iter().flatten().flat_map(|x| x.to_be_bytes()));
    ensure!(ctx, lb == want, "layout of an integer span program");
    let x = gen_int(src);
    ensure!(ctx, ser("i32", &x)? == x.to_be_bytes() && de::<i32>("i32", &x.to_be_bytes())? == x, "layout of the integer {x}");
    let x = x as u32;
    ensure!(ctx, ser("u32", &x)? == x.to_be_bytes() && de::<u32>("u32", &x.to_be_bytes())? == x, "layout of the integer {x}");
    let (va, vb): (Vec<G1Affine>, Vec<G2Affine>) = (c.e.clone(), um.d.clone());
    let mut ea = be(va.len()).to_vec();
    ea.extend(va.iter().flat_map(|x| x.to_compressed()));
    let mut eb = be(vb.len()).to_vec();
    eb.extend(vb.iter().flat_map(|x| x.to_compressed()));
    ensure!(ctx, ser("G1 vector", &va)? == ea && ser("G2 vector", &vb)? == eb, "layout of a vector of elements");
    ensure!(ctx, de::<Vec<G1Affine>>("G1 vector", &ea)? == va && de::<Vec<G2Affine>>("G2 vector", &eb)? == vb, "a vector of elements is read differently");
    Ok(())
}

fn codec_long(src: &mut Src, ctx: &mut Ctx) -> R {
    let bad = |what: &'static str| move |e: String| Fail::from(format!("{what}: the independent decoder says: {e}"));
    let be = crate::refimpl::be;
    ctx.nontrivial = true;
    let vlen = match src.below(4) {
        0 => src.size(250, 262),
        1 => src.size(65_530, 65_545),
        _ => src.size(10, 70_000),
    };
    ctx.say(format!("vectors of {vlen}"));
    let (x0, step) = (src.below(1 << 32) as u32, src.below(1 << 32) as u32);
    let ints: Vec<u32> = (0..vlen as u32).map(|i| x0.wrapping_add(i.wrapping_mul(step))).collect();
    let mut want = be(vlen).to_vec();
    want.extend(ints.iter().flat_map(|x| x.to_be_bytes()));
    ensure!(ctx, ser("u32 vector", &ints)? == want, "layout of {vlen} u32");
    ensure!(ctx, de::<Vec<u32>>("u32 vector", &want)? == ints, "{vlen} u32 are read differently");
    let signed: Vec<i32> = ints.iter().map(|x| *x as i32).collect();
    ensure!(ctx, ser("i32 vector", &signed)? == want, "layout of {vlen} i32");
    ensure!(ctx, de::<Vec<i32>>("i32 vector", &want)? == signed, "{vlen} i32 are read differently");
    let mut sw = be(vlen).to_vec();
    sw.extend(signed.iter().flat_map(|x| sci(*x).to_bytes()));
    let scalars = de::<Vec<LibScalar>>("scalar vector", &sw)?;
    ensure!(ctx, scalars.len() == vlen && ser("scalar vector", &scalars)? == sw, "{vlen} scalars are read or written differently");
    // hundreds of elements
    let n = src.size(240, 330);
    let nm: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
    let w = World::new(vec![Axis { name: "L".into(), attrs: nm, hier: true }], n as u32);
    let m = master::<Real>(330)?;
    let (skb, pkb, dkb) = (ser("sk", &m.sk)?, ser("pk", &m.pk)?, ser("dk", &m.dk)?);
    ensure!(ctx, Priv::dec(&skb).map_err(bad("master private key"))?.enc() == skb, "master private key re-encoding");
    ensure!(ctx, Pub::dec(&pkb).map_err(bad("master public key"))?.enc() == pkb, "master public key re-encoding");
    ensure!(ctx, Del::dec(&dkb).map_err(bad("delegation key"))?.enc() == dkb, "delegation key re-encoding");
    let top = src.size(230, n) - 1;
    let at = |i| AccessPolicy::Attr(w.attribute((0, i)));
    ctx.say(format!("{n} attributes, key for {}", top + 1));
    let key = keygen::<Real>(&w.policy, &m, &at(top))?;
    let kb = ser("user key", &key)?;
    let k = UserKey::dec(&kb).map_err(bad("user key"))?;
    ensure!(ctx, k.enc() == kb, "user key re-encoding");
    ensure!(ctx, ser("user key", &real_key(&k)?)? == kb, "an encoded user key is written back differently");
    let len = src.size(240, n);
    let l: Vec<At> = (0..len).map(|i| (0, n - 1 - i)).collect();
    let msg = gen_msg::<Real>(src)?;
    let cb = ser("ciphertext", &encrypt::<Real>(&w.policy, &m, &w.attributes(&l), &msg)?)?;
    let c = RCt::dec(&cb).map_err(bad("ciphertext"))?;
    ensure!(ctx, c.enc() == cb, "ciphertext re-encoding");
    ensure!(ctx, c.gamma == l.iter().map(|a| w.current(*a)).collect::<Vec<_>>(), "attributes of the ciphertext");
    let ok = len >= n - top;
    let got = k.decrypt(&c);
    ensure!(ctx, got.is_some() == ok && (!ok || got == Some(msg)), "decoded key and ciphertext do not give the plaintext");
    let c2 = de::<Ct<Real>>("encoded ciphertext", &c.enc())?;
    let g = decrypt::<Real>(&c2, &key)?;
    ensure!(ctx, if ok { g.is(&msg) } else { g.refused() }, "an encoded ciphertext gave {}", g.word(&msg));
    for (what, ap) in [("level", at(top)), ("whole policy", AccessPolicy::All)] {
        let lm = policy_to_msp(&w.policy, &ap).map_err(|e| Fail::from(e.to_string()))?;
        let lb = ser("span program", &lm)?;
        let mut want = [be(lm.rows()), be(lm.cols())].concat();
        want.extend((0..lm.rows()).flat_map(|i| lm.get_attr_from_row(i).to_be_bytes()));
        want.extend(lm.matrix().iter().flatten().flat_map(|x| x.to_be_bytes()));
        ensure!(ctx, lb == want, "layout of the {what} span program");
    }
    Ok(())
}

fn hybrid_codec(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let meta = hyb::gen_meta(src);
    ctx.say(hyb::show_meta(&meta));
    ctx.nontrivial_if(meta.is_some());
    let n = src.size(1, p.attrs.len());
    let bad = |what: &'static str| move |e: String| Fail::from(format!("{what}: the independent decoder says: {e}"));
    // library -> independent
    let h = no_panic("encrypt_hybrid_header", || encrypt_hybrid_header::<Real, H>(&p.policy, &p.m.pk, &p.attrs[..n], meta.clone()))?
        .map_err(|e| Fail::from(format!("encrypt_hybrid_header: {e}")))?;
    let hd = hyb::parse(&h.encrypted_header_bytes).map_err(bad("header"))?;
    let c = RCt::dec(&hd.encaps).map_err(bad("encapsulation"))?;
    let g1s = {
        let t = inv(&p.p.t[c.gamma[0] as usize]);
        G1Affine::from(c.e[0] * t)
    };
    let el = c.ep - cosmian_bls12_381::pairing(&g1s, &G2Affine::generator()) * p.p.y;
    let k = shake(&el.to_compressed(), 32);
    ensure!(ctx, k == h.symmetric_key.to_bytes().as_slice(), "the symmetric key is not the hash of the encapsulated element");
    ensure!(ctx, hd.meta.is_some() == meta.is_some(), "metadata section presence");
    if let (Some((nonce, enc)), Some(md)) = (&hd.meta, &meta) {
        let m = hyb::aes_dec(&k, nonce, None, enc);
        ensure!(ctx, m == Some(hyb::enc_meta(md)), "the metadata section does not decrypt to the metadata");
    }
    // independent -> library
    let (encaps, el) = random_encaps(src, &p)?;
    let k = shake(&el.to_compressed(), 32);
    let sec = match &meta {
        None => None,
        Some(md) => {
            let nonce = src.blob(12);
            let e = hyb::aes_enc(&k, &nonce, None, &hyb::enc_meta(md))?;
            Some((nonce, e))
        }
    };
    let hb = hyb::Hdr { encaps, meta: sec }.build();
    for uk in &p.keys {
        let got = no_panic("decrypt_hybrid_header", || decrypt_hybrid_header::<Real, H>(uk, &hb))?
            .map_err(|e| Fail::from(format!("a header of the independent encoder is refused: {e}")));
        // the third key needs two more attributes than the ciphertext has
        let ok = UserKey::dec(&ser("key", uk)?).map_err(Fail::from)?.msp.accepts(&RCt::dec(&hyb::parse(&hb).unwrap().encaps).unwrap().gamma);
        ensure!(ctx, got.is_ok() == ok, "decision on a header of the independent encoder: {:?}", got.as_ref().err());
        if let Ok(g) = got {
            ensure!(ctx, g.symmetric_key.to_bytes().as_slice() == k, "another symmetric key");
            ensure!(ctx, g.meta_data == hyb::expected(&meta), "other metadata");
        }
    }
    // blocks
    let un = match src.below(4) { 0 => 0, 1 => src.size(60, 300), _ => src.size(1, 40) };
    let uid = src.blob(un);
    let num = match src.below(3) { 0 => src.below(3), 1 => *src.pick(&[255u64, 256, 65535, 1 << 32, (1 << 32) + 1, u64::MAX]), _ => src.below(0) };
    let len = src.size(1, 200);
    let data = src.blob(len);
    ctx.say(format!("block uid {un} bytes number {num} length {len}"));
    let b = no_panic("encrypt_hybrid_block", || encrypt_hybrid_block::<Real, H, 256>(&hyb::key(&k).unwrap(), &uid, num as usize, &data))?
        .map_err(|e| Fail::from(format!("encrypt_hybrid_block: {e}")))?;
    ensure!(ctx, b.len() == len + 28, "block of {} bytes for {len}", b.len());
    let aad = hyb::block_aad(&uid, num);
    ensure!(ctx, hyb::aes_dec(&k, &b[..12], Some(&aad), &b[12..]) == Some(data.clone()), "the independent codec does not open the block");
    let nonce = src.blob(12);
    let mut mine = nonce.clone();
    mine.extend(hyb::aes_enc(&k, &nonce, Some(&aad), &data)?);
    let got = no_panic("decrypt_hybrid_block", || decrypt_hybrid_block::<Real, H, 256>(&hyb::key(&k).unwrap(), &uid, num as usize, &mine))?
        .map_err(|e| Fail::from(format!("a block of the independent encoder is refused: {e}")))?;
    ensure!(ctx, got == data, "a block of the independent encoder decrypts to other bytes");
    Ok(())
}

fn golden_case(src: &mut Src, ctx: &mut Ctx) -> R {
    let all = golden::load()?;
    let g = &all[src.idx(all.len())];
    ctx.say(&g.name);
    ctx.nontrivial = true;
    let policy: Policy = serde_json::from_str(&g.policy).map_err(|e| Fail::from(format!("stored policy: {e}")))?;
    let ki = src.idx(g.keys.len());
    let sk = &g.keys[ki];
    let key = de::<Uk<Real>>("stored user key", &sk.bytes)?;
    ensure!(ctx, ser("user key", &key)? == sk.bytes, "a stored user key is written back differently");
    for (i, c) in g.cts.iter().enumerate() {
        let ct = de::<Ct<Real>>("stored ciphertext", &c.bytes)?;
        let msg = de::<Gt>("stored plaintext", &c.msg)?;
        let ok = c.opens.contains(&ki);
        let got = decrypt::<Real>(&ct, &key)?;
        ensure!(ctx, if ok { got.is(&msg) } else { got.refused() }, "stored key {ki} on stored ciphertext {i}: {}", got.word(&msg));
        ensure!(ctx, ser("ciphertext", &ct)? == c.bytes, "a stored ciphertext is written back differently");
    }
    for (i, h) in g.headers.iter().enumerate() {
        let ok = h.opens.contains(&ki);
        let r = no_panic("decrypt_hybrid_header", || decrypt_hybrid_header::<Real, H>(&key, &h.bytes))?;
        ensure!(ctx, r.is_ok() == ok, "stored key {ki} on stored header {i}: {:?}", r.as_ref().err());
        if let Ok(r) = r {
            ensure!(ctx, r.symmetric_key.to_bytes().as_slice() == h.key, "stored header {i}: another symmetric key");
            ensure!(
                ctx,
                r.meta_data == Metadata { uid: h.uid.clone(), additional_data: h.additional.clone() },
                "stored header {i}: other metadata"
            );
        }
    }
    for (i, b) in g.blocks.iter().enumerate() {
        let r = no_panic("decrypt_hybrid_block", || decrypt_hybrid_block::<Real, H, { 1 << 30 }>(&hyb::key(&b.key).unwrap(), &b.uid, b.number as usize, &b.bytes))?
            .map_err(|e| Fail::from(format!("stored block {i}: {e}")))?;
        if let Some(c) = &b.clear {
            ensure!(ctx, r == *c, "stored block {i} decrypts to other bytes");
        }
        ensure!(ctx, r.len() + 28 == b.bytes.len(), "stored block {i}: length");
    }
    // fresh data for old keys
    if !g.pk.is_empty() {
        let pk = de::<Pk<Real>>("stored public key", &g.pk)?;
        ensure!(ctx, ser("public key", &pk)? == g.pk, "a stored public key is written back differently");
        let probes = &g.probes;
        if !probes.is_empty() {
            let pr = &probes[src.idx(probes.len())];
            let attrs: Vec<Attribute> = pr.attrs.iter().map(|(a, b)| Attribute::new(a, b)).collect();
            let msg = secret_msg::<Real>()?;
            let ct = no_panic("encrypt", || Engine::<Real>::new().encrypt(&policy, &pk, &attrs, &msg))?
                .map_err(|e| Fail::from(format!("encrypting with stored policy and public key: {e}")))?;
            let got = decrypt::<Real>(&ct, &key)?;
            let ok = pr.opens.contains(&ki);
            ensure!(ctx, if ok { got.is(&msg) } else { got.refused() }, "stored key {ki} on a new ciphertext for {:?}: {}", pr.attrs, got.word(&msg));
            if !g.sk.is_empty() {
                let m = Master::<Real> { sk: de("stored private key", &g.sk)?, pk, dk: de("stored delegation key", &g.dk)? };
                ensure!(ctx, ser("private key", &m.sk)? == g.sk && ser("delegation key", &m.dk)? == g.dk, "stored master keys are written back differently");
                let ap = serde_json::from_str::<AccessPolicy>(&sk.access_policy).map_err(|e| Fail::from(e.to_string()))?;
                let nk = keygen::<Real>(&policy, &m, &ap)?;
                // a key issued now also covers what was rotated since
                let got = decrypt::<Real>(&ct, &nk)?;
                let ok = pr.opens_new.contains(&ki);
                ensure!(ctx, if ok { got.is(&msg) } else { got.refused() }, "a new key for the policy of stored key {ki} on a new ciphertext: {}", got.word(&msg));
                match try_delegate::<Real>(&policy, &m, &key, &AccessPolicy::All)? {
                    Ok(d) => {
                        let got = decrypt::<Real>(&ct, &d)?;
                        let ok = pr.opens.contains(&ki);
                        ensure!(ctx, if ok { got.is(&msg) } else { got.refused() }, "re-randomised stored key {ki}: {}", got.word(&msg));
                    }
                    Err(e) => fail!("re-randomising a stored key: {e}"),
                }
            }
        }
    }
    let _ = Scalar::zero();
    Ok(())
}
