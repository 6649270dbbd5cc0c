//! C32: failed calls, and what the library prints, disclose nothing secret.
use std::{io::Write, os::fd::RawFd};

use abe_policy::{AccessPolicy, Attribute};
use cosmian_abe_gpsw::{
    core::{gpsw::AsBytes, Engine},
    error::FormatErr,
    interfaces::hybrid_crypto::{
        decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header, ClearTextHeader, EncryptedHeader,
    },
};
use cosmian_crypto_base::{symmetric_crypto::Metadata, KeyTrait};

use crate::{
    api::*,
    c_abi::{self as c, By, Out, With},
    ensure, fail,
    hyb::{self, H},
    model::*,
    pbt::*,
    props_bind::{
        attr_str, b, bytes, call, m_block, m_cache, m_dec_header, m_dec_header_cached, m_delegate, m_destroy, m_enc_header_cached, m_enc_header_js,
        m_enc_header_py, m_masters, m_rotate, m_user_key, printed, Lang,
        Lang::{Js, Py},
    },
    props_ffi::{js, pol},
};

pub fn subs(p: &str) -> Vec<Sub> {
    match p {
        "C32" => vec![
            Sub {
                name: "native",
                rule: "a generated authority, keys, message, header with metadata and block; 10-24 native calls over them that fail (damaged and cut keys, headers and blocks, keys without access, other contexts, impossible requests) or succeed, in any order, with standard output and error captured: no text of an error and nothing printed contains 8 consecutive bytes of a master or user key, of the symmetric key, of the metadata or of a plaintext, raw, in hexadecimal, in base64 or as a list of numbers. Non-trivial: at least 5 calls failed.",
                quick: 400,
                thorough: 20000,
                run: native,
            },
            Sub {
                name: "c_interface",
                rule: "the same through the C functions, cached or not: error messages, printed text and, when the call was refused for want of access or authenticity, the output buffers. Non-trivial: at least 5 calls failed.",
                quick: 400,
                thorough: 20000,
                run: c_interface,
            },
            Sub {
                name: "python",
                rule: "the same through the compiled Python module: texts of exceptions and what the module prints. Non-trivial: at least 5 calls failed.",
                quick: 160,
                thorough: 6000,
                run: |s, c| module(Py, s, c),
            },
            Sub {
                name: "wasm",
                rule: "the same through the compiled WebAssembly module, cached or not: error values and what the module prints. Non-trivial: at least 5 calls failed.",
                quick: 120,
                thorough: 4000,
                run: |s, c| module(Js, s, c),
            },
        ],
        _ => vec![],
    }
}

const W: usize = 8;

/// What must not be seen, by 8-byte windows with some variety in them.
struct Secrets(std::collections::HashMap<[u8; W], &'static str>);
impl Secrets {
    fn new() -> Self {
        Secrets(Default::default())
    }
    fn add(&mut self, what: &'static str, b: &[u8]) {
        for w in b.windows(W) {
            let mut d = w.to_vec();
            d.sort_unstable();
            d.dedup();
            if d.len() >= 6 {
                self.0.entry(w.try_into().expect("window")).or_insert(what);
            }
        }
    }
    /// what is known to everybody is no secret
    fn remove(&mut self, b: &[u8]) {
        for w in b.windows(W) {
            self.0.remove(w);
        }
    }
    fn raw(&self, b: &[u8]) -> Option<&'static str> {
        b.windows(W).find_map(|w| self.0.get(w).copied())
    }
    /// in any of the usual notations
    fn find(&self, t: &[u8]) -> Option<(&'static str, &'static str)> {
        if let Some(s) = self.raw(t) {
            return Some((s, "as it is"));
        }
        let mut hex = vec![];
        let mut i = 0;
        while i <= t.len() {
            let d = t.get(i).and_then(|c| (*c as char).to_digit(16)).map(|d| d as u8);
            match d {
                Some(d) => hex.push(d),
                None => {
                    for o in 0..2usize {
                        let b: Vec<u8> = hex.get(o..).unwrap_or(&[]).chunks_exact(2).map(|c| c[0] << 4 | c[1]).collect();
                        if let Some(s) = self.raw(&b) {
                            return Some((s, "in hexadecimal"));
                        }
                    }
                    hex.clear();
                }
            }
            i += 1;
        }
        // numbers, whatever separates them
        let text = String::from_utf8_lossy(t);
        for radix in [10, 16] {
            let mut list = vec![];
            for w in text.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()) {
                let w = if radix == 16 { w.trim_start_matches("0x").trim_start_matches("x") } else { w };
                match u8::from_str_radix(w, radix) {
                    Ok(b) => list.push(b),
                    Err(_) => match i8::from_str_radix(w, radix) {
                        Ok(b) => list.push(b as u8),
                        Err(_) => {
                            if let Some(s) = self.raw(&list) {
                                return Some((s, "as numbers"));
                            }
                            list.clear();
                        }
                    },
                }
            }
            if let Some(s) = self.raw(&list) {
                return Some((s, "as numbers"));
            }
        }
        for word in text.split(|c: char| !(c.is_ascii_alphanumeric() || "+/-_".contains(c))).filter(|w| w.len() >= 11) {
            let v: Vec<u8> = word
                .bytes()
                .map(|c| match c {
                    b'A'..=b'Z' => c - b'A',
                    b'a'..=b'z' => c - b'a' + 26,
                    b'0'..=b'9' => c - b'0' + 52,
                    b'+' | b'-' => 62,
                    _ => 63,
                })
                .collect();
            for o in 0..4 {
                let b: Vec<u8> = v
                    .get(o..)
                    .unwrap_or(&[])
                    .chunks_exact(4)
                    .flat_map(|q| [q[0] << 2 | q[1] >> 4, q[1] << 4 | q[2] >> 2, q[2] << 6 | q[3]])
                    .collect();
                if let Some(s) = self.raw(&b) {
                    return Some((s, "in base64"));
                }
            }
        }
        None
    }
}

/// a file of no name, in memory
pub fn memory_file() -> Result<std::fs::File, Fail> {
    use std::os::fd::FromRawFd;
    let fd = unsafe { memfd_create(b"printed\0".as_ptr(), 1) };
    if fd < 0 {
        return Err(Fail::from("no memory file".to_string()));
    }
    Ok(unsafe { std::fs::File::from_raw_fd(fd) })
}

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
}
/// Standard output and error of the process, redirected while this lives.
struct Capture {
    file: RawFd,
    out: RawFd,
    err: RawFd,
}
impl Capture {
    fn start() -> Result<Self, Fail> {
        let _ = std::io::stdout().flush();
        unsafe {
            let file = memfd_create(b"c32\0".as_ptr(), 0);
            let (out, err) = (libc::dup(1), libc::dup(2));
            if file < 0 || out < 0 || err < 0 {
                return Err(Fail::from("cannot redirect the output of this process".to_string()));
            }
            libc::dup2(file, 1);
            libc::dup2(file, 2);
            Ok(Capture { file, out, err })
        }
    }
    fn text(&self) -> Vec<u8> {
        let _ = std::io::stdout().flush();
        let mut b = vec![];
        unsafe {
            let n = libc::lseek(self.file, 0, libc::SEEK_END).max(0) as usize;
            b.resize(n, 0);
            let got = libc::pread(self.file, b.as_mut_ptr().cast(), n, 0).max(0) as usize;
            b.truncate(got);
        }
        b
    }
}
impl Drop for Capture {
    fn drop(&mut self) {
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(self.out, 1);
            libc::dup2(self.err, 2);
            for f in [self.file, self.out, self.err] {
                libc::close(f);
            }
        }
    }
}

/// Everything a case is about.
struct Scene {
    w: World,
    m: std::rc::Rc<Master<Real>>,
    ap: AccessPolicy,
    key: Uk<Real>,
    /// a key without access
    other: Uk<Real>,
    attrs: Vec<Attribute>,
    ct: Ct<Real>,
    meta: Metadata,
    header: EncryptedHeader<H>,
    uid: Vec<u8>,
    plain: Vec<u8>,
    block: Vec<u8>,
    s: Secrets,
}

fn scene(src: &mut Src, ctx: &mut Ctx, plain_names: bool) -> Result<Scene, Fail> {
    let w = loop {
        let w = gen_world(src, &WorldOpts { plain_names, ..WorldOpts::default() });
        if w.attrs().len() >= 2 {
            break w;
        }
        if src.used().len() > 100_000 {
            return Err(Fail::from("no policy of two attributes".to_string()));
        }
    };
    let m = master_n::<Real>(w.max, 2)?;
    let all = w.attrs();
    let i = src.idx(all.len());
    let yes = all[i];
    // on the same axis a lower level would do; take one that does not
    let no = all.iter().copied().find(|a| !w.covers(*a).contains(&w.current(yes))).unwrap_or(yes);
    let ap = AccessPolicy::Attr(w.attribute(yes));
    let key = keygen::<Real>(&w.policy, &m, &ap)?;
    let other = if no == yes {
        keygen::<Real>(&w.policy, &*master_n::<Real>(w.max, 3)?, &ap)?
    } else {
        keygen::<Real>(&w.policy, &m, &AccessPolicy::Attr(w.attribute(no)))?
    };
    let attrs = w.attributes(&[yes]);
    let msg = secret_msg::<Real>()?;
    let ct = encrypt::<Real>(&w.policy, &m, &attrs, &msg)?;
    let seed = src.below(1 << 32);
    let mut p = Prng::new(seed ^ 0x5eed);
    // printable half of the time, as bytes that are not text would be seen escaped
    let printable = src.chance(1, 2);
    let mut secret = |n: usize| -> Vec<u8> {
        let b = p.fill(n);
        if printable { b.iter().map(|x| b'!' + x % 90).collect() } else { b }
    };
    let (nu, na, np) = (src.size(16, 60), src.size(16, 200), src.size(16, 400));
    let meta = Metadata { uid: secret(nu), additional_data: Some(secret(na)) };
    let plain = secret(np);
    let uid = secret(20);
    let header = encrypt_hybrid_header::<Real, H>(&w.policy, &m.pk, &attrs, Some(meta.clone())).map_err(|e| Fail::from(e.to_string()))?;
    let block = encrypt_hybrid_block::<Real, H, 1024>(&header.symmetric_key, &uid, 3, &plain).map_err(|e| Fail::from(e.to_string()))?;
    let mut s = Secrets::new();
    s.add("the master private key", &ser("sk", &m.sk)?);
    s.add("a user key", &ser("uk", &key)?);
    s.add("another user's key", &ser("uk", &other)?);
    s.add("a plaintext of the scheme", &ser("plaintext", &msg)?);
    s.add("the symmetric key", &header.symmetric_key.to_bytes());
    s.add("the metadata", &meta.uid);
    s.add("the metadata", meta.additional_data.as_deref().unwrap_or(&[]));
    s.add("the content of a block", &plain);
    // scalars of span programs, the public key, ciphertexts and the policy are no secrets
    let mut known = vec![ser("pk", &m.pk)?, ser("dk", &m.dk)?, ser("ct", &ct)?, header.encrypted_header_bytes.clone(), block.clone(), pol(&w.policy)];
    for v in -3i32..=3 {
        known.push([crate::refimpl::sci(v).to_bytes(), crate::refimpl::sci(v).to_bytes()].concat());
    }
    for k in &known {
        s.remove(k);
    }
    ctx.say(format!("{} key {}", w.describe(), names_of(&attrs)));
    Ok(Scene { w, m, ap, key, other, attrs, ct, meta, header, uid, plain, block, s })
}
fn names_of(a: &[Attribute]) -> String {
    a.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")
}

/// a damaged copy
fn bend(src: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    match src.below(5) {
        0 => v.truncate(src.idx(b.len().max(1))),
        1 => v.extend(src.blob(1 + (b.len() % 7))),
        2 => {
            v.remove(src.idx(b.len().max(1)).min(b.len().saturating_sub(1)));
        }
        _ => {
            let i = src.idx(b.len().max(1)).min(b.len() - 1);
            v[i] ^= 1 << src.below(8);
        }
    }
    v
}

fn told(e: &FormatErr) -> String {
    format!("{e} / {e:?}")
}
fn opt<T>(r: Result<T, FormatErr>) -> Option<String> {
    r.err().map(|e| told(&e))
}
fn by_text<T, E: std::fmt::Display + std::fmt::Debug>(r: Result<T, E>) -> Option<String> {
    r.err().map(|e| format!("{e} / {e:?}"))
}

fn native(src: &mut Src, ctx: &mut Ctx) -> R {
    let z = scene(src, ctx, false)?;
    let eng = Engine::<Real>::new();
    let stranger = Attribute::new("no such axis", "x");
    let (skb, ukb, hb) = (ser("sk", &z.m.sk)?, ser("uk", &z.key)?, z.header.encrypted_header_bytes.clone());
    let clear = ClearTextHeader::<H> { symmetric_key: hyb::key(&z.header.symmetric_key.to_bytes())?, meta_data: z.meta.clone() };
    let clear_bytes = clear.try_into_bytes().map_err(|e| Fail::from(e.to_string()))?;
    let eh_bytes = z.header.try_into_bytes().map_err(|e| Fail::from(e.to_string()))?;
    let sym = hyb::key(&z.header.symmetric_key.to_bytes())?;
    let mut long = z.plain.clone();
    while long.len() <= 1024 {
        long.extend(z.plain.clone());
    }
    let cap = Capture::start()?;
    let mut failed = 0;
    for _ in 0..src.size(10, 24) {
        let what = src.below(19);
        let r: (&str, Result<Option<String>, Fail>) = match what {
            0 => ("reading a damaged private key", {
                let b = bend(src, &skb);
                no_panic("Sk", || by_text(Sk::<Real>::try_from_bytes(&b)))
            }),
            1 => ("reading a damaged user key", {
                let b = bend(src, &ukb);
                no_panic("Uk", || by_text(Uk::<Real>::try_from_bytes(&b)))
            }),
            2 => ("key generation for an unknown attribute", {
                no_panic("keygen", || by_text(eng.generate_user_key(&z.w.policy, &z.m.sk, &(z.ap.clone() & AccessPolicy::Attr(stranger.clone())))))
            }),
            3 => ("key generation with a repeated leaf", {
                no_panic("keygen", || by_text(eng.generate_user_key(&z.w.policy, &z.m.sk, &(z.ap.clone() & z.ap.clone()))))
            }),
            4 => ("key generation beyond the capacity", {
                let mut p = z.w.policy.clone();
                p.max_attribute_creations += 40;
                let names: Vec<String> = (0..40).map(|i| format!("n{i}")).collect();
                let n: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
                let _ = p.add_axis(&abe_policy::PolicyAxis::new("extra axis", &n, false));
                no_panic("keygen", || by_text(eng.generate_user_key(&p, &z.m.sk, &AccessPolicy::new("extra axis", "n39"))))
            }),
            5 => ("delegation outside the key", {
                no_panic("delegate", || by_text(eng.delegate_user_key(&z.w.policy, &z.m.dk, &z.other, &z.ap)))
            }),
            6 => ("decryption without access", {
                no_panic("decrypt", || match eng.decrypt(&z.ct, &z.other) {
                    Ok(Some(_)) => None,
                    Ok(None) => Some(String::new()),
                    Err(e) => Some(format!("{e} / {e:?}")),
                })
            }),
            7 => ("decryption", no_panic("decrypt", || by_text(eng.decrypt(&z.ct, &z.key)))),
            8 => ("header without access", no_panic("header", || opt(decrypt_hybrid_header::<Real, H>(&z.other, &hb)))),
            9 => ("damaged header", {
                let b = bend(src, &hb);
                no_panic("header", || opt(decrypt_hybrid_header::<Real, H>(&z.key, &b)))
            }),
            10 => ("header", no_panic("header", || opt(decrypt_hybrid_header::<Real, H>(&z.key, &hb)))),
            11 => ("block in another place", {
                let n = src.size(4, 900);
                no_panic("block", || opt(decrypt_hybrid_block::<Real, H, 1024>(&sym, &z.uid, n, &z.block)))
            }),
            12 => ("damaged block", {
                let b = bend(src, &z.block);
                no_panic("block", || opt(decrypt_hybrid_block::<Real, H, 1024>(&sym, &z.uid, 3, &b)))
            }),
            13 => ("block of another resource", {
                no_panic("block", || opt(decrypt_hybrid_block::<Real, H, 1024>(&sym, &z.meta.uid, 3, &z.block)))
            }),
            14 => ("oversized block", no_panic("block", || opt(encrypt_hybrid_block::<Real, H, 1024>(&sym, &z.uid, 3, &long)))),
            15 => ("block", no_panic("block", || opt(encrypt_hybrid_block::<Real, H, 1024>(&sym, &z.uid, 3, &z.plain)))),
            16 => ("damaged clear header", {
                let b = bend(src, &clear_bytes);
                no_panic("clear header", || opt(ClearTextHeader::<H>::try_from_bytes(&b)))
            }),
            17 => ("damaged encrypted header", {
                let b = bend(src, &eh_bytes);
                no_panic("encrypted header", || opt(EncryptedHeader::<H>::try_from_bytes(&b)))
            }),
            _ => ("header for an unknown attribute", {
                let a = [z.attrs.clone(), vec![stranger.clone()]].concat();
                no_panic("header", || opt(encrypt_hybrid_header::<Real, H>(&z.w.policy, &z.m.pk, &a, Some(z.meta.clone()))))
            }),
        };
        let (name, r) = r;
        let e = r?;
        failed += e.is_some() as usize;
        ctx.label(if e.is_some() { "failed" } else { "went well" });
        ctx.checks += 1;
        if let Some((s, how)) = e.as_deref().and_then(|t| z.s.find(t.as_bytes())) {
            let t: String = e.unwrap_or_default().chars().take(200).collect();
            drop(cap);
            return Err(Fail::from(format!("{name}: the error contains {s} {how}: {t}")));
        }
    }
    let text = cap.text();
    drop(cap);
    ctx.checks += 1;
    if let Some((s, how)) = z.s.find(&text) {
        let t: String = String::from_utf8_lossy(&text).chars().take(200).collect();
        return Err(Fail::from(format!("the library printed {s} {how}: {t}")));
    }
    ctx.nontrivial_if(failed >= 5);
    Ok(())
}

fn c_interface(src: &mut Src, ctx: &mut Ctx) -> R {
    let z = scene(src, ctx, true)?;
    let (policy, skb, pkb, ukb, okb) = (pol(&z.w.policy), ser("sk", &z.m.sk)?, ser("pk", &z.m.pk)?, ser("uk", &z.key)?, ser("uk", &z.other)?);
    let hb = z.header.encrypted_header_bytes.clone();
    let sym = z.header.symmetric_key.to_bytes();
    let strangers = js(&[z.attrs.clone(), vec![Attribute::new("no such axis", "x")]].concat());
    let ap = js(&z.ap);
    let bad_ap = js(&(z.ap.clone() & z.ap.clone()));
    let ad = z.meta.additional_data.clone().unwrap_or_default();
    let cap = Capture::start()?;
    let mut failed = 0;
    // caches are destroyed at the end whatever happens
    let (rc1, good) = c::create_dec(Some(&ukb));
    let (rc2, poor) = c::create_dec(Some(&okb));
    let (rc3, enc) = c::create_enc(Some(&policy), Some(&pkb));
    let mut bad: Option<String> = None;
    let _ = c::take_err();
    for _ in 0..src.size(10, 24) {
        let mut outs = [Out::new(1024), Out::new(1024), Out::new(1024)];
        // the caller may see these outputs
        let mut entitled = false;
        let cached = src.chance(1, 2);
        let (name, rc) = match src.below(13) {
            0 => ("key generation with a damaged master key", {
                entitled = true;
                c::user_key(&mut outs[0], Some(&bend(src, &skb)), Some(&ap), Some(&policy))
            }),
            1 => ("key generation with a repeated leaf", {
                c::user_key(&mut outs[0], Some(&skb), Some(&bad_ap), Some(&policy))
            }),
            2 => ("key generation into a small buffer", {
                entitled = true;
                outs[0] = Out::new(src.size(1, 64));
                c::user_key(&mut outs[0], Some(&skb), Some(&ap), Some(&policy))
            }),
            3 => ("cache of a damaged key", c::create_dec(Some(&bend(src, &ukb[..ukb.len() - 1]))).0),
            4 | 5 => ("header without access", {
                let [a, b, d] = &mut outs;
                c::dec_header(a, b, d, Some(&hb), if cached { By::Cache(poor) } else { By::Key(Some(&okb)) })
            }),
            6 => ("damaged header", {
                // cut after the encapsulation, or altered behind it, it may open
                entitled = true;
                let h = bend(src, &hb);
                let [a, b, d] = &mut outs;
                c::dec_header(a, b, d, Some(&h), if cached { By::Cache(good) } else { By::Key(Some(&ukb)) })
            }),
            7 => ("header", {
                entitled = true;
                let [a, b, d] = &mut outs;
                c::dec_header(a, b, d, Some(&hb), if cached { By::Cache(good) } else { By::Key(Some(&ukb)) })
            }),
            8 => ("header into small buffers", {
                entitled = true;
                outs[src.idx(3)] = Out::new(src.size(1, 15));
                let [a, b, d] = &mut outs;
                c::dec_header(a, b, d, Some(&hb), if cached { By::Cache(good) } else { By::Key(Some(&ukb)) })
            }),
            9 => ("header for an unknown attribute", {
                outs[1] = Out::new(8192);
                let [a, b, _] = &mut outs;
                let with = if cached { With::Cache(enc) } else { With::Direct(Some(&policy), Some(&pkb)) };
                c::enc_header(a, b, with, Some(&strangers), Some(&z.meta.uid), Some(&ad))
            }),
            10 => ("block in another place", c::dec_block(&mut outs[0], Some(&sym), Some(&z.uid), src.size(4, 900) as i32, Some(&z.block))),
            11 => ("damaged block", c::dec_block(&mut outs[0], Some(&sym), Some(&z.uid), 3, Some(&bend(src, &z.block)))),
            _ => ("block with a key of another size", {
                let k = bend(src, &sym[..31]);
                c::enc_block(&mut outs[0], Some(&k), Some(&z.uid), 3, Some(&z.plain))
            }),
        };
        let e = c::take_err();
        failed += (rc != 0) as usize;
        ctx.label(if rc != 0 { "failed" } else { "went well" });
        ctx.checks += 1;
        if let Some((s, how)) = z.s.find(e.as_bytes()) {
            bad = Some(format!("{name}: the error message contains {s} {how}: {e}"));
            break;
        }
        if rc != 0 && !entitled {
            if let Some(s) = outs.iter().find_map(|o| z.s.raw(o.whole())) {
                bad = Some(format!("{name}: refused, but an output buffer holds {s}"));
                break;
            }
        }
    }
    for h in [good, poor] {
        c::destroy_dec(h);
    }
    c::destroy_enc(enc);
    let _ = c::take_err();
    let text = cap.text();
    drop(cap);
    ensure!(ctx, rc1 == 0 && rc2 == 0 && rc3 == 0, "a cache could not be created");
    if let Some(b) = bad {
        return Err(Fail::from(b));
    }
    ctx.checks += 1;
    if let Some((s, how)) = z.s.find(&text) {
        let t: String = String::from_utf8_lossy(&text).chars().take(200).collect();
        return Err(Fail::from(format!("the library printed {s} {how}: {t}")));
    }
    ctx.nontrivial_if(failed >= 5);
    Ok(())
}

fn module(l: Lang, src: &mut Src, ctx: &mut Ctx) -> R {
    let z = scene(src, ctx, true)?;
    let (policy, skb, pkb, ukb, okb, dkb) =
        (pol(&z.w.policy), ser("sk", &z.m.sk)?, ser("pk", &z.m.pk)?, ser("uk", &z.key)?, ser("uk", &z.other)?, ser("dk", &z.m.dk)?);
    let hb = z.header.encrypted_header_bytes.clone();
    let sym = z.header.symmetric_key.to_bytes();
    let stranger = Attribute::new("no such axis", "x");
    let strangers = [z.attrs.clone(), vec![stranger.clone()]].concat();
    // every name of a plain policy is accepted by the parser of expressions
    let expr = attr_str(&z.attrs);
    let one_shot = {
        let blk = encrypt_hybrid_block::<Real, H, 1024>(&z.header.symmetric_key, &z.meta.uid, 0, &z.plain).map_err(|e| Fail::from(e.to_string()))?;
        [&(hb.len() as u32).to_be_bytes()[..], &hb, &blk].concat()
    };
    let mut caches = vec![];
    if l == Js {
        for k in [&ukb, &okb] {
            match m_cache(false, &[k])? {
                Ok(h) => caches.push((false, h)),
                Err(e) => fail!("a cache of a valid key was refused: {e}"),
            }
        }
        match m_cache(true, &[&policy, &pkb])? {
            Ok(h) => caches.push((true, h)),
            Err(e) => fail!("a cache of a valid public key was refused: {e}"),
        }
    }
    let _ = printed(l);
    let mut failed = 0;
    let mut bad = None;
    for _ in 0..src.size(10, 20) {
        let cached = l == Js && src.chance(1, 2);
        let header_of = |h: &[u8], i: usize, k: &[u8]| if cached { m_dec_header_cached(caches[i].1, h) } else { m_dec_header(l, k, h) };
        let (name, e): (&str, Option<String>) = match src.below(16) {
            0 => ("key generation with a damaged master key", m_user_key(l, &bend(src, &skb), &expr, &policy)?.err()),
            1 => ("key generation with a repeated leaf", m_user_key(l, &skb, &format!("{expr} && {expr}"), &policy)?.err()),
            2 => ("key generation for an unknown attribute", m_user_key(l, &skb, "nothing::like it", &policy)?.err()),
            3 => ("key generation with a policy that is none", m_user_key(l, &skb, &expr, &policy[1..])?.err()),
            4 => ("master keys", m_masters(l, &policy[..policy.len() - 1])?.err()),
            5 => ("header without access", header_of(&hb, 1, &okb)?.err()),
            6 => {
                let h = bend(src, &hb);
                ("damaged header", header_of(&h, 0, &ukb)?.err())
            }
            7 => ("header", header_of(&hb, 0, &ukb)?.err()),
            8 => ("header with a damaged key", m_dec_header(l, &bend(src, &ukb), &hb)?.err()),
            9 if l == Py => {
                let a = js(&strangers);
                ("header for an unknown attribute", m_enc_header_py(&js(&z.meta), &policy, &a, &pkb)?.err())
            }
            9 => ("header for an unknown attribute", if cached {
                m_enc_header_cached(caches[2].1, &attr_str(&strangers), &z.meta.uid)?.err()
            } else {
                m_enc_header_js(&policy, &pkb, &attr_str(&strangers), &z.meta.uid)?.err()
            }),
            10 => ("block in another place", m_block(l, false, &sym, &z.uid, src.range(4, 900), &z.block, true)?.err()),
            11 => ("damaged block", m_block(l, false, &sym, &z.uid, 3, &bend(src, &z.block), true)?.err()),
            12 => ("block with a key of another size", {
                let k = bend(src, &sym[..31]);
                let enc = src.chance(1, 2);
                m_block(l, enc, &k, &z.uid, 3, if enc { &z.plain } else { &z.block }, true)?.err()
            }),
            13 if l == Py => ("delegation outside the key", m_delegate(&dkb, &okb, &expr, &policy)?.err()),
            13 => ("cache of a damaged key", match m_cache(false, &[&bend(src, &ukb)])? {
                Ok(h) => {
                    let _ = m_destroy(false, h)?;
                    None
                }
                Err(e) => Some(e),
            }),
            14 if l == Py => ("one-shot decryption of a damaged value", {
                let d = bend(src, &one_shot);
                map_err(call(l, "decrypt", &[b(if src.chance(1, 3) { &okb } else { &ukb }), b(&d)])?)?
            }),
            _ => ("rotation of an unknown attribute", m_rotate(l, &js(&[stranger.clone()]), &policy)?.err()),
        };
        failed += e.is_some() as usize;
        ctx.label(if e.is_some() { "failed" } else { "went well" });
        ctx.checks += 1;
        if let Some((s, how)) = e.as_deref().and_then(|t| z.s.find(t.as_bytes())) {
            bad = Some(format!("{name}: the error contains {s} {how}: {}", e.unwrap_or_default().chars().take(200).collect::<String>()));
            break;
        }
    }
    for (enc, h) in caches {
        let _ = m_destroy(enc, h)?;
    }
    let text = printed(l);
    if let Some(b) = bad {
        return Err(Fail::from(b));
    }
    ctx.checks += 1;
    if let Some((s, how)) = z.s.find(&text) {
        let t: String = String::from_utf8_lossy(&text).chars().take(200).collect();
        return Err(Fail::from(format!("the module printed {s} {how}: {t}")));
    }
    ctx.nontrivial_if(failed >= 5);
    Ok(())
}
fn map_err(r: Result<serde_json::Value, String>) -> Result<Option<String>, Fail> {
    match r {
        Ok(v) => bytes("decrypt", &v).map(|_| None),
        Err(e) => Ok(Some(e)),
    }
}
