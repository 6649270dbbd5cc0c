//! C25 C26: the compiled Python and WebAssembly modules, driven through a
//! child process (binds/server.*) and compared with the native API and the
//! access model.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    io::{BufRead, BufReader, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
};

use abe_policy::{AccessPolicy, Attribute, Attributes, Policy, PolicyAxis};
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{
    decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header,
};
use cosmian_crypto_base::{symmetric_crypto::Metadata, KeyTrait};
use serde_json::{json, Value};

use crate::{
    api::*,
    ensure, fail,
    hyb::{self, H},
    model::*,
    pbt::*,
    props_bytes::{mutate, odd_u32, pool},
    props_core::{names, narrow_once},
    props_ffi::{bend_json, js, pol},
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lang {
    Py,
    Js,
}
use Lang::{Js, Py};

macro_rules! one {
    ($v:ident, $prop:expr, $id:literal, $name:literal, $rule:expr, $f:expr, $q:expr, $t:expr) => {
        if $prop == $id {
            $v.push(Sub { name: $name, rule: $rule, quick: $q, thorough: $t, run: $f });
        }
    };
}

pub fn subs(p: &str) -> Vec<Sub> {
    let mut v = vec![];
    one!(v, p, "C25", "interop", "histories over a random policy mixing Python and native calls on the same serialized objects: policy creation, master keys, user keys, delegation, rotations, headers and one-shot data with metadata; every key of either side tries every ciphertext of either side. Non-trivial: an object crossed sides successfully and a key was refused.",
        |s, c| interop(Py, s, c), 320, 10_000);
    one!(v, p, "C25", "policies", "policies built from generated axes (repeated axes, too many attributes, no axes) and rotations of lists, compared value by value with the native ones. Non-trivial: at least 2 axes and one rotation or a refusal.",
        policies, 1500, 50_000);
    one!(v, p, "C25", "one_shot", "one-shot encryption composed and decomposed natively in both directions; tampered, cut and spliced data never decrypt to another plaintext. Non-trivial: a tampered text was refused.",
        one_shot, 500, 15_000);
    one!(v, p, "C25", "blocks", "block encryption and decryption across both sides, wrong contexts, damaged blocks. Non-trivial: at least 2 bytes.",
        |s, c| blocks(Py, s, c), 4000, 120_000);
    one!(v, p, "C25", "expressions", "boolean expressions over policies with ASCII and accented names, rendered with random redundant parentheses and spaces, some spoiled by an edit: the module refuses what the native parser refuses, and otherwise its key opens exactly the headers that satisfy the parsed access policy. Non-trivial: a key with an operator, one header opened and one refused, or an expression refused.",
        |s, c| expressions(Py, s, c), 160, 6000);
    one!(v, p, "C25", "same_results", "every function with zero to two damaged arguments (bytes, JSON structure, expressions, other valid objects): Python succeeds exactly when the native call does, with the same result. Non-trivial: both refused, or an altered argument was accepted by both.",
        |s, c| same(Py, s, c), 2500, 80_000);
    one!(v, p, "C25", "wrong_types", "calls with arguments of the wrong type, number or range: an ordinary exception, and the module keeps working. Non-trivial: at least one argument of a wrong type.",
        wrong_types, 2500, 80_000);
    one!(v, p, "C26", "interop", "histories over a random policy mixing WebAssembly and native calls on the same serialized objects: master keys, user keys, rotations, headers cached or not; every key of either side tries every header of either side. Non-trivial: an object crossed sides successfully and a key was refused.",
        |s, c| interop(Js, s, c), 240, 8000);
    one!(v, p, "C26", "caches", "4-30 operations (create from valid or damaged material, use, destroy, destroy again, use of destroyed, unknown and other-kind handles) against a model of both handle tables; the module is shared by all cases of a worker. Non-trivial: at least 2 caches alive at once and a use after another one was destroyed.",
        caches, 220, 7000);
    one!(v, p, "C26", "blocks", "block encryption and decryption across both sides with optional id and number, wrong contexts, damaged blocks. Non-trivial: at least 2 bytes.",
        |s, c| blocks(Js, s, c), 4000, 120_000);
    one!(v, p, "C26", "expressions", "boolean expressions over policies with ASCII and accented names, rendered with random redundant parentheses and spaces, some spoiled by an edit: the module refuses what the native parser refuses, and otherwise its key opens exactly the headers that satisfy the parsed access policy. Non-trivial: a key with an operator, one header opened and one refused, or an expression refused.",
        |s, c| expressions(Js, s, c), 160, 6000);
    one!(v, p, "C26", "same_results", "every function with zero to two damaged arguments: WebAssembly succeeds exactly when the native call does, with the same result (or refuses an empty argument), and the module keeps working. Non-trivial: both refused, or an altered argument was accepted by both.",
        |s, c| same(Js, s, c), 2000, 60_000);
    v
}

// ------------------------------------------------------------------ the child

struct Server {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    /// what the module prints
    err: std::fs::File,
    seen: u64,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static SERVERS: RefCell<BTreeMap<u8, Server>> = const { RefCell::new(BTreeMap::new()) };
}
fn spawn(l: Lang) -> Result<Server, Fail> {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut c = match l {
        Py => {
            let mut c = Command::new("python3");
            c.arg(format!("{dir}/binds/server.py")).env("PYTHONDONTWRITEBYTECODE", "1");
            c.env("PYTHONPATH", std::env::var("GPSW_PY").unwrap_or(format!("{dir}/work/py/module")));
            c
        }
        Js => {
            let mut c = Command::new("node");
            c.arg(format!("{dir}/binds/server.cjs"));
            c.env("GPSW_WASM_PKG", std::env::var("GPSW_WASM_PKG").unwrap_or(format!("{dir}/work/wasm/pkg")));
            c
        }
    };
    let err = crate::props_leak::memory_file()?;
    let theirs = err.try_clone().map_err(|e| Fail::from(format!("cannot start the {l:?} server: {e}")))?;
    let mut child = c
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(theirs)
        .spawn()
        .map_err(|e| Fail::from(format!("cannot start the {l:?} server: {e}")))?;
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Ok(Server { child, stdin, stdout, err, seen: 0 })
}
/// What the module of this worker printed since the last call.
pub fn printed(l: Lang) -> Vec<u8> {
    use std::os::unix::fs::FileExt;
    SERVERS.with(|c| {
        let mut m = c.borrow_mut();
        let Some(sv) = m.get_mut(&(l as u8)) else { return vec![] };
        let mut b = vec![];
        let mut buf = [0; 4096];
        while let Ok(n) = sv.err.read_at(&mut buf, sv.seen) {
            if n == 0 {
                break;
            }
            b.extend(&buf[..n]);
            sv.seen += n as u64;
        }
        b
    })
}

pub type Ans = Result<Value, String>;
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
fn unhex(s: &str) -> Result<Vec<u8>, Fail> {
    let c = s.as_bytes();
    (0..c.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|_| Fail::from("answer is not hexadecimal".to_string())))
        .collect()
}
pub fn b(x: &[u8]) -> Value {
    json!({ "b": hex(x) })
}
fn s(x: &str) -> Value {
    json!({ "s": x })
}
fn i(x: i128) -> Value {
    json!({ "i": x.to_string() })
}

/// Call a function of the module. A refusal is an `Err`; a trap, a panic or
/// the end of the process fails the case.
pub fn call(l: Lang, f: &str, args: &[Value]) -> Result<Ans, Fail> {
    SERVERS.with(|c| {
        let mut m = c.borrow_mut();
        if !m.contains_key(&(l as u8)) {
            m.insert(l as u8, spawn(l)?);
        }
        let sv = m.get_mut(&(l as u8)).unwrap();
        let mut line = json!({ "f": f, "a": args }).to_string();
        line.push('\n');
        let mut back = String::new();
        let sent = sv.stdin.write_all(line.as_bytes()).and_then(|_| sv.stdin.flush()).and_then(|_| sv.stdout.read_line(&mut back));
        match sent {
            Ok(n) if n > 0 => {}
            _ => {
                let mut sv = m.remove(&(l as u8)).unwrap();
                let st = sv.child.wait().map(|s| s.to_string()).unwrap_or_default();
                fail!("{f} ended the process of the {l:?} module ({st})");
            }
        }
        let v: Value = serde_json::from_str(&back).map_err(|e| Fail::from(format!("{f}: unreadable answer {back:?}: {e}")))?;
        if let Some(x) = v.get("bad") {
            // the module may be unusable from here on
            m.remove(&(l as u8));
            let what = if l == Py { "raised something other than an ordinary exception" } else { "trapped" };
            fail!("{f} {what}: {}", x.as_str().unwrap_or("?").chars().take(300).collect::<String>());
        }
        if let Some(x) = v.get("err") {
            return Ok(Err(x.as_str().unwrap_or("?").to_string()));
        }
        Ok(Ok(v.get("ok").cloned().unwrap_or(Value::Null)))
    })
}
pub fn bytes(f: &str, v: &Value) -> Result<Vec<u8>, Fail> {
    match v.get("b").and_then(Value::as_str) {
        Some(h) => unhex(h),
        None => fail!("{f} returned {v} and not bytes"),
    }
}
fn tuple(f: &str, v: &Value) -> Result<Vec<Vec<u8>>, Fail> {
    match v.get("t").and_then(Value::as_array) {
        Some(a) => a.iter().map(|x| bytes(f, x)).collect(),
        None => fail!("{f} returned {v} and not a tuple"),
    }
}
fn int(f: &str, v: &Value) -> Result<i128, Fail> {
    match v.get("i").and_then(Value::as_str).and_then(|s| s.parse().ok()) {
        Some(n) => Ok(n),
        None => fail!("{f} returned {v} and not a number"),
    }
}
pub type Maybe<T> = Result<Result<T, String>, Fail>;
fn map<T>(r: Ans, f: impl FnOnce(Value) -> Result<T, Fail>) -> Maybe<T> {
    Ok(match r {
        Ok(v) => Ok(f(v)?),
        Err(e) => Err(e),
    })
}

// ------------------------------------------------------------------ one signature for both

fn fname(l: Lang, f: &str) -> String {
    if l == Py { f.to_string() } else { format!("webassembly_{f}") }
}
pub fn m_masters(l: Lang, policy: &[u8]) -> Maybe<(Vec<u8>, Vec<u8>, Option<Vec<u8>>)> {
    let f = fname(l, "generate_master_keys");
    map(call(l, &f, &[b(policy)])?, |v| match l {
        Py => {
            let mut t = tuple(&f, &v)?;
            if t.len() != 3 {
                fail!("{f} returned {} values", t.len());
            }
            let d = t.pop();
            let p = t.pop().unwrap();
            Ok((t.pop().unwrap(), p, d))
        }
        Js => {
            let x = bytes(&f, &v)?;
            let n = x.get(..4).map(|n| u32::from_be_bytes(n.try_into().unwrap()) as usize).unwrap_or(usize::MAX);
            if n > x.len().saturating_sub(4) {
                fail!("{f}: length prefix {n} in {} bytes", x.len());
            }
            Ok((x[4..4 + n].to_vec(), x[4 + n..].to_vec(), None))
        }
    })
}
pub fn m_user_key(l: Lang, sk: &[u8], expr: &str, policy: &[u8]) -> Maybe<Vec<u8>> {
    let f = fname(l, "generate_user_private_key");
    map(parsing(expr, call(l, &f, &[b(sk), s(expr), b(policy)]))?, |v| bytes(&f, &v))
}
/// The known finding: the parser of the dependency panics on this expression.
fn parsing(expr: &str, r: Result<Ans, Fail>) -> Result<Ans, Fail> {
    r.map_err(|mut e| {
        if !expr.is_ascii() && catch_unwind(|| AccessPolicy::from_boolean_expression(expr).is_ok()).is_err() {
            e.sig = Some("non-ascii-expression".into());
        }
        e
    })
}
pub fn m_delegate(dk: &[u8], uk: &[u8], expr: &str, policy: &[u8]) -> Maybe<Vec<u8>> {
    let f = "generate_delegated_key";
    map(parsing(expr, call(Py, f, &[b(dk), b(uk), s(expr), b(policy)]))?, |v| bytes(f, &v))
}
pub fn m_rotate(l: Lang, attrs: &[u8], policy: &[u8]) -> Maybe<Vec<u8>> {
    let f = fname(l, "rotate_attributes");
    map(call(l, &f, &[b(attrs), b(policy)])?, |v| match l {
        Py => bytes(&f, &v),
        Js => match v.get("s").and_then(Value::as_str) {
            Some(s) => Ok(s.as_bytes().to_vec()),
            None => fail!("{f} returned {v}"),
        },
    })
}
/// `u32 length of the key | key | rest`
fn split_key(f: &str, x: Vec<u8>) -> Result<(Vec<u8>, Vec<u8>), Fail> {
    if x.len() < 36 || x[..4] != [0, 0, 0, 32] {
        fail!("{f} returned {} bytes that do not begin with a 32-byte key", x.len());
    }
    Ok((x[4..36].to_vec(), x[36..].to_vec()))
}
pub fn m_enc_header_py(meta: &[u8], policy: &[u8], attrs: &[u8], pk: &[u8]) -> Maybe<(Vec<u8>, Vec<u8>)> {
    let f = "encrypt_hybrid_header";
    map(call(Py, f, &[b(meta), b(policy), b(attrs), b(pk)])?, |v| {
        let mut t = tuple(f, &v)?;
        if t.len() != 2 {
            fail!("{f} returned {} values", t.len());
        }
        let h = t.pop().unwrap();
        Ok((t.pop().unwrap(), h))
    })
}
pub fn m_enc_header_js(policy: &[u8], pk: &[u8], attrs: &str, uid: &[u8]) -> Maybe<(Vec<u8>, Vec<u8>)> {
    let f = "webassembly_encrypt_hybrid_header";
    map(call(Js, f, &[b(policy), b(pk), s(attrs), b(uid)])?, |v| split_key(f, bytes(f, &v)?))
}
pub fn m_enc_header_cached(h: i32, attrs: &str, uid: &[u8]) -> Maybe<(Vec<u8>, Vec<u8>)> {
    let f = "webassembly_encrypt_hybrid_header_using_cache";
    map(call(Js, f, &[i(h.into()), s(attrs), b(uid)])?, |v| split_key(f, bytes(f, &v)?))
}
/// symmetric key and metadata bytes
pub fn m_dec_header(l: Lang, uk: &[u8], header: &[u8]) -> Maybe<(Vec<u8>, Metadata)> {
    let f = fname(l, "decrypt_hybrid_header");
    map(call(l, &f, &[b(uk), b(header)])?, |v| {
        let (k, m) = match l {
            Py => {
                let mut t = tuple(&f, &v)?;
                if t.len() != 2 {
                    fail!("{f} returned {} values", t.len());
                }
                let m = t.pop().unwrap();
                (t.pop().unwrap(), m)
            }
            Js => split_key(&f, bytes(&f, &v)?)?,
        };
        Ok((k, meta_of(&f, &m)?))
    })
}
pub fn m_dec_header_cached(h: i32, header: &[u8]) -> Maybe<(Vec<u8>, Metadata)> {
    let f = "webassembly_decrypt_hybrid_header_using_cache";
    map(call(Js, f, &[i(h.into()), b(header)])?, |v| {
        let (k, m) = split_key(f, bytes(f, &v)?)?;
        Ok((k, meta_of(f, &m)?))
    })
}
/// independent reading of the metadata encoding
fn meta_of(f: &str, m: &[u8]) -> Result<Metadata, Fail> {
    if m.is_empty() {
        return Ok(Metadata::default());
    }
    let n = m.get(..4).map(|n| u32::from_be_bytes(n.try_into().unwrap()) as usize).unwrap_or(usize::MAX);
    if n > m.len().saturating_sub(4) {
        fail!("{f}: metadata of {} bytes with an id of {n}", m.len());
    }
    let ad = m[4 + n..].to_vec();
    Ok(Metadata { uid: m[4..4 + n].to_vec(), additional_data: if ad.is_empty() { None } else { Some(ad) } })
}
pub fn m_block(l: Lang, enc: bool, key: &[u8], uid: &[u8], num: u64, data: &[u8], explicit: bool) -> Maybe<Vec<u8>> {
    let f = fname(l, if enc { "encrypt_hybrid_block" } else { "decrypt_hybrid_block" });
    let u = if l == Js && uid.is_empty() && !explicit { Value::Null } else { b(uid) };
    let n = if l == Js && num == 0 && !explicit { Value::Null } else { i(num.into()) };
    map(call(l, &f, &[b(key), u, n, b(data)])?, |v| bytes(&f, &v))
}
pub fn m_cache(enc: bool, a: &[&[u8]]) -> Maybe<i32> {
    let f = if enc { "webassembly_create_encryption_cache" } else { "webassembly_create_decryption_cache" };
    let args: Vec<Value> = a.iter().map(|x| b(x)).collect();
    map(call(Js, f, &args)?, |v| Ok(int(f, &v)? as i32))
}
pub fn m_destroy(enc: bool, h: i32) -> Maybe<()> {
    let f = if enc { "webassembly_destroy_encryption_cache" } else { "webassembly_destroy_decryption_cache" };
    map(call(Js, f, &[i(h.into())])?, |_| Ok(()))
}

// ------------------------------------------------------------------ native counterparts

fn n_masters(policy: &[u8]) -> Maybe<[usize; 3]> {
    no_panic("native master keys", || {
        let p: Policy = serde_json::from_slice(policy).map_err(|e| e.to_string())?;
        let (s, p, d) = Engine::<Real>::new().generate_master_key(&p).map_err(|e| e.to_string())?;
        let l = |r: Result<Vec<u8>, _>| r.map(|x| x.len()).map_err(|e: cosmian_abe_gpsw::error::FormatErr| e.to_string());
        Ok([l(s.try_into_bytes())?, l(p.try_into_bytes())?, l(d.try_into_bytes())?])
    })
}
fn parse_expr(e: &str) -> Result<AccessPolicy, String> {
    // the parser belongs to a dependency
    catch_unwind(AssertUnwindSafe(|| AccessPolicy::from_boolean_expression(e).map_err(|e| e.to_string())))
        .unwrap_or_else(|_| Err("the parser panicked".into()))
}
fn n_user_key(sk: &[u8], expr: &str, policy: &[u8]) -> Maybe<Vec<u8>> {
    let ap = parse_expr(expr);
    no_panic("native user key", || {
        let k = Sk::<Real>::try_from_bytes(sk).map_err(|e| e.to_string())?;
        let p: Policy = serde_json::from_slice(policy).map_err(|e| e.to_string())?;
        Engine::<Real>::new().generate_user_key(&p, &k, &ap?).and_then(|k| k.try_into_bytes()).map_err(|e| e.to_string())
    })
}
fn n_delegate(dk: &[u8], uk: &[u8], expr: &str, policy: &[u8]) -> Maybe<Vec<u8>> {
    let ap = parse_expr(expr);
    no_panic("native delegation", || {
        let d = Dk::<Real>::try_from_bytes(dk).map_err(|e| e.to_string())?;
        let k = Uk::<Real>::try_from_bytes(uk).map_err(|e| e.to_string())?;
        let p: Policy = serde_json::from_slice(policy).map_err(|e| e.to_string())?;
        Engine::<Real>::new().delegate_user_key(&p, &d, &k, &ap?).and_then(|k| k.try_into_bytes()).map_err(|e| e.to_string())
    })
}
fn n_rotate(attrs: &[u8], policy: &[u8]) -> Maybe<Option<Policy>> {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Policy, String> {
        let a: Vec<Attribute> = serde_json::from_slice(attrs).map_err(|e| e.to_string())?;
        let mut p: Policy = serde_json::from_slice(policy).map_err(|e| e.to_string())?;
        if p.last_attribute_value > p.max_attribute_creations {
            // a policy no sequence of operations produces: either answer will do
            return Err("?".into());
        }
        a.iter().try_for_each(|a| p.rotate(a)).map_err(|e| e.to_string())?;
        Ok(p)
    }));
    Ok(match r {
        Ok(Ok(p)) => Ok(Some(p)),
        Ok(Err(e)) if e == "?" => Ok(None),
        Ok(Err(e)) => Err(e),
        Err(_) => Ok(None),
    })
}
fn n_enc_header(meta: Option<Metadata>, policy: &[u8], attrs: Result<Vec<Attribute>, String>, pk: &[u8]) -> Maybe<Vec<u8>> {
    no_panic("native header encryption", || {
        let p: Policy = serde_json::from_slice(policy).map_err(|e| e.to_string())?;
        let k = Pk::<Real>::try_from_bytes(pk).map_err(|e| e.to_string())?;
        encrypt_hybrid_header::<Real, H>(&p, &k, &attrs?, meta).map(|h| h.encrypted_header_bytes).map_err(|e| e.to_string())
    })
}
fn n_dec_header(uk: &[u8], header: &[u8]) -> Maybe<(Vec<u8>, Metadata)> {
    no_panic("native header decryption", || {
        let k = Uk::<Real>::try_from_bytes(uk).map_err(|e| e.to_string())?;
        decrypt_hybrid_header::<Real, H>(&k, header).map(|h| (h.symmetric_key.to_bytes().to_vec(), h.meta_data)).map_err(|e| e.to_string())
    })
}
const MAX: usize = 1 << 30;
fn n_block(enc: bool, key: &[u8], uid: &[u8], num: usize, data: &[u8]) -> Maybe<Vec<u8>> {
    no_panic("native block", || {
        let k = hyb::HKey::try_from_bytes(key).map_err(|e| e.to_string())?;
        if enc {
            encrypt_hybrid_block::<Real, H, MAX>(&k, uid, num, data).map_err(|e| e.to_string())
        } else {
            decrypt_hybrid_block::<Real, H, MAX>(&k, uid, num, data).map_err(|e| e.to_string())
        }
    })
}
fn u32_at(x: &[u8]) -> Option<usize> {
    x.get(..4).map(|n| u32::from_be_bytes(n.try_into().unwrap()) as usize)
}
/// one-shot decryption put together from the native functions
fn n_decrypt(uk: &[u8], data: &[u8]) -> Maybe<Vec<u8>> {
    let Some(n) = u32_at(data).filter(|n| *n <= data.len() - 4) else { return Ok(Err("short".into())) };
    match n_dec_header(uk, &data[4..4 + n])? {
        Ok((k, m)) => n_block(false, &k, &m.uid, 0, &data[4 + n..]),
        Err(e) => Ok(Err(e)),
    }
}
fn n_encrypt(p: &Policy, pk: &Pk<Real>, attrs: &[Attribute], m: &Metadata, pt: &[u8]) -> Result<Vec<u8>, Fail> {
    let h = no_panic("encrypt_hybrid_header", || encrypt_hybrid_header::<Real, H>(p, pk, attrs, Some(m.clone())))?
        .map_err(|e| Fail::from(format!("native header: {e}")))?;
    let c = n_block(true, &h.symmetric_key.to_bytes(), &m.uid, 0, pt)?.map_err(Fail::from)?;
    let mut v = (h.encrypted_header_bytes.len() as u32).to_be_bytes().to_vec();
    v.extend(h.encrypted_header_bytes);
    v.extend(c);
    Ok(v)
}
pub fn attr_str(l: &[Attribute]) -> String {
    l.iter().map(|a| format!("{}::{}", a.axis, a.name)).collect::<Vec<_>>().join(",")
}
fn same_values(ctx: &mut Ctx, what: &str, got: &[u8], want: &Policy) -> R {
    let g: Policy = serde_json::from_slice(got).map_err(|e| Fail::from(format!("{what}: {e}")))?;
    ensure!(ctx, g.max_attribute_creations == want.max_attribute_creations && g.last_attribute_value == want.last_attribute_value,
        "{what}: maximum {} and last value {}, expected {} and {}", g.max_attribute_creations, g.last_attribute_value, want.max_attribute_creations, want.last_attribute_value);
    ensure!(ctx, g.axes == want.axes, "{what}: axes {:?}, expected {:?}", g.axes, want.axes);
    let keys = |p: &Policy| p.attributes().into_iter().collect::<BTreeSet<_>>();
    ensure!(ctx, keys(&g) == keys(want), "{what}: other attributes");
    for a in keys(want) {
        let (x, y) = (g.attribute_values(&a).ok(), want.attribute_values(&a).ok());
        ensure!(ctx, x == y, "{what}: {a:?} has values {x:?}, expected {y:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ interop

struct Holder {
    f: F,
    tree: T,
    /// the policy has not changed since
    fresh: bool,
    bytes: Vec<u8>,
    by_m: bool,
}
struct Sent {
    gamma: BTreeSet<u32>,
    key: Vec<u8>,
    bytes: Vec<u8>,
    meta: Metadata,
    by_m: bool,
    /// plaintext of one-shot data
    data: Option<Vec<u8>>,
}

fn axes_json(w: &World) -> Vec<u8> {
    let v: Vec<PolicyAxis> = w
        .axes
        .iter()
        .map(|a| PolicyAxis::new(&a.name, &a.attrs.iter().map(String::as_str).collect::<Vec<_>>(), a.hier))
        .collect();
    axes_text(&v)
}
fn axes_text(v: &[PolicyAxis]) -> Vec<u8> {
    let l: Vec<Value> = v.iter().map(|a| json!({ "name": a.name, "attributes": a.attributes, "hierarchical": a.hierarchical })).collect();
    js(&l)
}

fn interop(l: Lang, src: &mut Src, ctx: &mut Ctx) -> R {
    let o = WorldOpts { plain_names: true, max_axes: 3, max_attrs: 4, max_slack: 3, max_rotations: 0 };
    let mut w = gen_world(src, &o);
    w.max += 2;
    w.policy.max_attribute_creations += 2;
    ctx.say(w.describe());
    let mut text = pol(&w.policy);
    if l == Py && src.chance(1, 2) {
        let r = call(Py, "generate_policy", &[b(&axes_json(&w)), i(w.max.into())])?;
        text = match r {
            Ok(v) => bytes("generate_policy", &v)?,
            Err(e) => fail!("generate_policy refused: {e}"),
        };
        same_values(ctx, "generate_policy", &text, &w.policy)?;
    }
    let (skb, pkb, dkb) = if src.chance(1, 3) {
        ctx.say("keys made by the module");
        let (s, p, d) = m_masters(l, &text)?.map_err(|e| Fail::from(format!("master keys refused: {e}")))?;
        let d = match d {
            Some(d) => d,
            None => ser("dk", &master::<Real>(w.max)?.dk)?, // not used
        };
        (s, p, d)
    } else {
        let m = master::<Real>(w.max)?;
        (ser("sk", &m.sk)?, ser("pk", &m.pk)?, ser("dk", &m.dk)?)
    };
    let sk = de::<Sk<Real>>("master private key of the module", &skb)?;
    let pk = de::<Pk<Real>>("master public key of the module", &pkb)?;
    let dk = de::<Dk<Real>>("delegation key of the module", &dkb)?;
    ensure!(ctx, ser("sk", &sk)? == skb && ser("pk", &pk)? == pkb && ser("dk", &dk)? == dkb, "master keys of the module have another length");
    let (mut enc_cache, mut dec_caches): (Option<i32>, Vec<(usize, i32)>) = (None, vec![]);
    let mut users: Vec<Holder> = vec![];
    let mut sent: Vec<Sent> = vec![];
    let (mut crossed, mut no) = (false, false);
    let steps = src.size(4, 9);
    for step in 0..steps {
        let op = if step == 0 { 0 } else if step == 1 { 2 } else { src.below(8) };
        match op {
            0 | 1 => {
                let f = gen_formula(src, &w, 4);
                let by_m = src.chance(2, 3);
                let e = f.expr(&w);
                ctx.say(format!("{} key {e}", if by_m { "module" } else { "native" }));
                let bytes = if by_m {
                    m_user_key(l, &skb, &e, &text)?.map_err(|e| Fail::from(format!("user key refused: {e}")))?
                } else {
                    let k = no_panic("generate_user_key", || Engine::<Real>::new().generate_user_key(&w.policy, &sk, &f.ap(&w)))?
                        .map_err(|e| Fail::from(format!("generate_user_key: {e}")))?;
                    ser("user key", &k)?
                };
                let k = de::<Uk<Real>>("user key", &bytes)?;
                ensure!(ctx, ser("user key", &k)? == bytes, "a user key of the module has another length");
                users.push(Holder { tree: f.snapshot(&w), f, fresh: true, bytes, by_m });
            }
            2 | 3 => {
                let list = match users.last() {
                    Some(u) if src.chance(4, 5) => gen_attrs(src, &w, &u.f, &u.tree, 6),
                    _ => vec![w.any_attr(src), w.any_attr(src)],
                };
                if list.len() > w.max as usize {
                    continue;
                }
                let attrs = w.attributes(&list);
                let mut meta = hyb::gen_meta(src).map_or_else(Metadata::default, |m| hyb::expected(&Some(m)));
                if let Some(a) = &mut meta.additional_data {
                    a.truncate(6000);
                }
                let how = src.below(3);
                if how < 2 && l == Js {
                    meta.additional_data = None;
                    if how == 0 && meta.uid.is_empty() {
                        meta.uid = vec![7];
                    }
                }
                let data = if l == Py && src.chance(1, 2) {
                    let n = match src.below(6) { 0 => src.size(500, 20_000), _ => src.size(1, 40) };
                    Some(src.blob(n))
                } else {
                    None
                };
                ctx.say(format!("{} {} [{}]", if how < 2 { "module" } else { "native" }, if data.is_some() { "data" } else { "header" }, names(&w, &list)));
                let mj = js(&meta);
                let (key, bytes) = match (l, how, &data) {
                    (Py, 0 | 1, None) => m_enc_header_py(&mj, &text, &js(&attrs), &pkb)?,
                    (Py, 0 | 1, Some(d)) => map(call(Py, "encrypt", &[b(&mj), b(&text), b(&js(&attrs)), b(&pkb), b(d)])?, |v| Ok((vec![], bytes("encrypt", &v)?)))?,
                    (_, _, Some(d)) => Ok((vec![], n_encrypt(&w.policy, &pk, &attrs, &meta, d)?)),
                    (Js, 0, _) => m_enc_header_js(&text, &pkb, &attr_str(&attrs), &meta.uid)?,
                    (Js, 1, _) => {
                        let h = match enc_cache {
                            Some(h) => h,
                            None => {
                                let h = m_cache(true, &[&text, &pkb])?.map_err(|e| Fail::from(format!("encryption cache refused: {e}")))?;
                                enc_cache = Some(h);
                                h
                            }
                        };
                        m_enc_header_cached(h, &attr_str(&attrs), &meta.uid)?
                    }
                    _ => no_panic("encrypt_hybrid_header", || encrypt_hybrid_header::<Real, H>(&w.policy, &pk, &attrs, Some(meta.clone())))?
                        .map(|h| (h.symmetric_key.to_bytes().to_vec(), h.encrypted_header_bytes))
                        .map_err(|e| e.to_string()),
                }
                .map_err(|e| Fail::from(format!("encryption refused: {e}")))?;
                if data.is_none() {
                    ensure!(ctx, key.len() == 32, "symmetric key of {} bytes", key.len());
                } else {
                    let n = u32_at(&bytes).unwrap_or(usize::MAX);
                    let got = int("size", &call(Py, "get_encrypted_header_size", &[b(&bytes)])?.map_err(|e| Fail::from(format!("get_encrypted_header_size refused: {e}")))?)?;
                    ensure!(ctx, got as usize == n && bytes.len() == 4 + n + data.as_ref().unwrap().len() + 28, "get_encrypted_header_size {got} for {} bytes beginning with {n}", bytes.len());
                }
                sent.push(Sent { gamma: w.gamma(&list), key, bytes, meta, by_m: how < 2, data });
            }
            4 => {
                let n = src.size(1, 3);
                let list: Vec<At> = (0..n).map(|_| w.any_attr(src)).collect();
                let fits = w.last + n as u32 <= w.max;
                ctx.say(format!("rotate [{}]{}", names(&w, &list), if fits { "" } else { " (too many)" }));
                let r = m_rotate(l, &js(&w.attributes(&list)), &text)?;
                if !fits {
                    ensure!(ctx, r.is_err(), "rotation beyond the capacity succeeded");
                    continue;
                }
                text = r.map_err(|e| Fail::from(format!("rotation refused: {e}")))?;
                for at in &list {
                    w.rotate(*at);
                }
                same_values(ctx, "rotated policy", &text, &w.policy)?;
                for u in &mut users {
                    u.fresh = false;
                }
                if let Some(h) = enc_cache.take() {
                    m_destroy(true, h)?.map_err(|e| Fail::from(format!("destroying a cache failed: {e}")))?;
                }
            }
            5 | 6 if l == Py => {
                let c: Vec<usize> = (0..users.len()).filter(|i| users[*i].fresh).collect();
                if c.is_empty() {
                    continue;
                }
                let ui = *src.pick(&c);
                let g = narrow_once(src, &users[ui].f, &w, false).map_or_else(|| users[ui].f.clone(), |(g, _)| g);
                let by_m = src.chance(2, 3);
                let e = g.expr(&w);
                ctx.say(format!("{} delegation to {e}", if by_m { "module" } else { "native" }));
                let bytes = if by_m { m_delegate(&dkb, &users[ui].bytes, &e, &text)? } else { n_delegate(&dkb, &users[ui].bytes, &e, &text)? }
                    .map_err(|e| Fail::from(format!("delegation refused: {e}")))?;
                users.push(Holder { tree: g.snapshot(&w), f: g, fresh: true, bytes, by_m });
            }
            _ => {}
        }
        if users.is_empty() || sent.is_empty() {
            continue;
        }
        let si = if src.chance(1, 3) { src.idx(sent.len()) } else { sent.len() - 1 };
        let x = &sent[si];
        for (ui, u) in users.iter().enumerate() {
            if ui + 1 < users.len() && src.chance(1, 2) {
                continue;
            }
            let ok = u.tree.eval(&x.gamma);
            let how = src.below(3);
            let what = format!(
                "{} decrypting {} {} with a {} key",
                if how < 2 { "module" } else { "native" },
                if x.by_m { "module" } else { "native" },
                if x.data.is_some() { "data" } else { "header" },
                if u.by_m { "module" } else { "native" }
            );
            let refused = if let Some(d) = &x.data {
                let r = if how < 2 {
                    map(call(Py, "decrypt", &[b(&u.bytes), b(&x.bytes)])?, |v| bytes("decrypt", &v))?
                } else {
                    n_decrypt(&u.bytes, &x.bytes)?
                };
                match r {
                    Ok(p) => {
                        ensure!(ctx, ok, "{what}: opened without authorisation");
                        ensure!(ctx, p == *d, "{what}: another plaintext");
                        None
                    }
                    Err(e) => Some(e),
                }
            } else {
                let r = match how {
                    1 if l == Js => {
                        let h = match dec_caches.iter().find(|(i, _)| *i == ui) {
                            Some((_, h)) => *h,
                            None => {
                                let h = m_cache(false, &[&u.bytes])?.map_err(|e| Fail::from(format!("decryption cache refused: {e}")))?;
                                dec_caches.push((ui, h));
                                h
                            }
                        };
                        m_dec_header_cached(h, &x.bytes)?
                    }
                    2 => n_dec_header(&u.bytes, &x.bytes)?,
                    _ => m_dec_header(l, &u.bytes, &x.bytes)?,
                };
                match r {
                    Ok((k, m)) => {
                        ensure!(ctx, ok, "{what}: opened without authorisation");
                        ensure!(ctx, k == x.key, "{what}: another symmetric key");
                        ensure!(ctx, m == x.meta, "{what}: other metadata: {}", hyb::show_meta(&Some(m)));
                        None
                    }
                    Err(e) => Some(e),
                }
            };
            match refused {
                None => crossed |= (how < 2) != x.by_m || (how < 2) != u.by_m,
                Some(e) => {
                    ensure!(ctx, !ok, "{what}: refused although authorised: {e}");
                    no = true;
                }
            }
        }
    }
    if let Some(h) = enc_cache {
        m_destroy(true, h)?.map_err(|e| Fail::from(format!("destroying a cache failed: {e}")))?;
    }
    for (_, h) in dec_caches {
        m_destroy(false, h)?.map_err(|e| Fail::from(format!("destroying a cache failed: {e}")))?;
    }
    ctx.label_if(crossed, "crossed");
    ctx.label_if(no, "refused");
    ctx.nontrivial_if(crossed && no);
    Ok(())
}

/// A rendering of the formula in the grammar of boolean expressions, where an
/// operator without parentheses extends to the right.
fn render(src: &mut Src, f: &F, w: &World, left: bool) -> String {
    let sp = |src: &mut Src| if src.chance(1, 3) { " ".repeat(src.size(1, 2)) } else { String::new() };
    let t = match f {
        F::A(a) => w.at_name(*a),
        F::And(a, b) | F::Or(a, b) => {
            let op = if matches!(f, F::And(..)) { "&&" } else { "||" };
            let (x, y) = (render(src, a, w, true), render(src, b, w, false));
            let (s1, s2) = (sp(src), sp(src));
            format!("{x}{s1}{op}{s2}{y}")
        }
    };
    if left && !matches!(f, F::A(_)) || src.chance(1, 4) {
        let (s1, s2) = (sp(src), sp(src));
        return format!("({s1}{t}{s2})");
    }
    t
}

fn expressions(l: Lang, src: &mut Src, ctx: &mut Ctx) -> R {
    let o = WorldOpts { plain_names: true, max_axes: 3, max_attrs: 4, max_slack: 2, max_rotations: 1 };
    let mut w = gen_world(src, &o);
    if src.chance(1, 3) {
        // the same policy with other names
        let mut axes = w.axes.clone();
        for (i, a) in axes.iter_mut().enumerate() {
            if src.chance(1, 2) {
                a.name = format!("{}{i}", src.pick(&["é", "Département ", "日本", "🦀"]));
            }
            for (j, n) in a.attrs.iter_mut().enumerate() {
                if src.chance(1, 2) {
                    *n = format!("{}{j}", src.pick(&["é", "Ø", "名", "🦀 "]));
                }
            }
        }
        w = World::new(axes, w.max);
    }
    let f = gen_formula(src, &w, 5);
    let mut e = render(src, &f, &w, false);
    if src.chance(1, 4) {
        e = bad_text(src, &e);
    }
    ctx.say(&e);
    let m = master::<Real>(w.max)?;
    let (text, skb) = (pol(&w.policy), ser("sk", &m.sk)?);
    let ap = parse_expr(&e);
    let got = m_user_key(l, &skb, &e, &text)?;
    let native = match &ap {
        Ok(ap) => no_panic("generate_user_key", || Engine::<Real>::new().generate_user_key(&w.policy, &m.sk, ap))?.map_err(|e| e.to_string()),
        Err(e) => Err(e.clone()),
    };
    ensure!(ctx, got.is_ok() == native.is_ok(), "key for {e:?}: module {:?}, native {:?}", got.as_ref().err(), native.as_ref().err());
    ctx.label(if got.is_ok() { "accepted" } else { "refused" });
    let (Ok(got), Ok(native)) = (got, native) else {
        ctx.nontrivial_if(true);
        return Ok(());
    };
    let same = ap.as_ref() == Ok(&f.ap(&w));
    ctx.label_if(same, "the intended formula");
    let (mut yes, mut no) = (false, false);
    for _ in 0..3 {
        let list = gen_attrs(src, &w, &f, &f.snapshot(&w), 5);
        if list.len() > w.max as usize {
            continue;
        }
        let attrs = w.attributes(&list);
        let (_, sent) = n_header(&w, &m.pk, &attrs)?;
        let (a, n) = (n_dec_header(&got, &sent)?, n_dec_header(&ser("user key", &native)?, &sent)?);
        ensure!(ctx, a.is_ok() == n.is_ok(), "key for {e:?} against [{}]: module {:?}, native {:?}", names(&w, &list), a.is_ok(), n.is_ok());
        if same {
            ensure!(ctx, a.is_ok() == f.snapshot(&w).eval(&w.gamma(&list)), "key for {e:?} against [{}]: {}", names(&w, &list), a.is_ok());
        }
        yes |= a.is_ok();
        no |= a.is_err();
    }
    ctx.nontrivial_if(yes && no && !matches!(f, F::A(_)));
    Ok(())
}
fn n_header(w: &World, pk: &Pk<Real>, attrs: &[Attribute]) -> Result<(Vec<u8>, Vec<u8>), Fail> {
    no_panic("encrypt_hybrid_header", || encrypt_hybrid_header::<Real, H>(&w.policy, pk, attrs, None))?
        .map(|h| (h.symmetric_key.to_bytes().to_vec(), h.encrypted_header_bytes))
        .map_err(|e| Fail::from(format!("encrypt_hybrid_header: {e}")))
}

fn policies(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.size(0, 4);
    let mut axes: Vec<PolicyAxis> = vec![];
    for a in 0..n {
        let k = src.size(0, 5);
        let mut names: Vec<String> = (0..k).map(|i| if src.chance(1, 4) { format!("é {i}") } else { format!("v{i}") }).collect();
        if k > 1 && src.chance(1, 10) {
            names[k - 1] = names[0].clone();
        }
        let nm = match src.below(10) {
            0 => "X0".to_string(),
            1 => format!("日本{a}"),
            _ => format!("X{a}"),
        };
        axes.push(PolicyAxis::new(&nm, &names.iter().map(String::as_str).collect::<Vec<_>>(), src.chance(1, 2)));
    }
    let total: usize = axes.iter().map(PolicyAxis::len).sum();
    let max = match src.below(6) {
        0 => total as u64,
        1 => (total as u64).saturating_sub(1 + src.below(2)),
        2 => (1 << 32) - 1,
        _ => total as u64 + src.below(6),
    };
    ctx.say(format!("{} max {max}", String::from_utf8_lossy(&axes_text(&axes))));
    let native = {
        let mut p = Policy::new(max as u32);
        axes.iter().try_for_each(|a| p.add_axis(a)).map(|_| p).map_err(|e| e.to_string())
    };
    let r = map(call(Py, "generate_policy", &[b(&axes_text(&axes)), i(max.into())])?, |v| bytes("generate_policy", &v))?;
    ensure!(ctx, r.is_ok() == native.is_ok(), "generate_policy: Python {:?}, native {:?}", r.as_ref().err(), native.as_ref().err());
    ctx.nontrivial_if(native.is_err());
    let (Ok(text), Ok(mut p)) = (r, native) else { return Ok(()) };
    same_values(ctx, "generate_policy", &text, &p)?;
    let all = p.attributes().into_iter().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
    let mut text = text;
    for _ in 0..src.size(0, 3) {
        let k = src.size(0, 4);
        let list: Vec<Attribute> = (0..k)
            .filter_map(|_| match src.below(12) {
                0 => Some(Attribute::new("X0", "nope")),
                _ if all.is_empty() => None,
                _ => Some(src.pick(&all).clone()),
            })
            .collect();
        let before = pol(&p);
        let nat = list.iter().try_for_each(|a| p.rotate(a)).map_err(|e| e.to_string());
        let r = m_rotate(Py, &js(&list), &text)?;
        ensure!(ctx, r.is_ok() == nat.is_ok(), "rotate_attributes({list:?}): Python {:?}, native {:?}", r.as_ref().err(), nat.as_ref().err());
        match r {
            Ok(t) => {
                text = t;
                same_values(ctx, "rotate_attributes", &text, &p)?;
                ctx.nontrivial_if(n >= 2 && !list.is_empty());
            }
            Err(_) => {
                p = serde_json::from_slice(&before).map_err(|e| Fail::from(e.to_string()))?;
                ctx.nontrivial = true;
            }
        }
    }
    Ok(())
}

fn one_shot(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let text = pol(&p.policy);
    let pkb = ser("pk", &p.m.pk)?;
    let meta = hyb::gen_meta(src).map_or_else(Metadata::default, |m| hyb::expected(&Some(m)));
    let n = match src.below(8) { 0 => src.size(1000, 30_000), 1 => 1, _ => src.size(1, 60) };
    let pt = src.blob(n);
    let attrs = p.attrs.clone();
    let by_m = src.chance(2, 3);
    ctx.say(format!("{n} bytes, {}, {}", hyb::show_meta(&Some(meta.clone())), if by_m { "module" } else { "native" }));
    let x = if by_m {
        map(call(Py, "encrypt", &[b(&js(&meta)), b(&text), b(&js(&attrs)), b(&pkb), b(&pt)])?, |v| bytes("encrypt", &v))?
            .map_err(|e| Fail::from(format!("encrypt refused: {e}")))?
    } else {
        n_encrypt(&p.policy, &p.m.pk, &attrs, &meta, &pt)?
    };
    // the composition of the parts
    let hn = u32_at(&x).unwrap_or(usize::MAX);
    ensure!(ctx, hn < x.len() && x.len() == 4 + hn + n + 28, "{} bytes with a header of {hn} for a plaintext of {n}", x.len());
    let key = (0..p.key_bytes.len()).find(|k| matches!(n_dec_header(&p.key_bytes[*k], &x[4..4 + hn]), Ok(Ok(_))));
    let Some(ki) = key else { fail!("no key opens the header natively") };
    let uk = &p.key_bytes[ki];
    let (k, m) = n_dec_header(uk, &x[4..4 + hn])?.map_err(Fail::from)?;
    ensure!(ctx, m == meta, "header metadata: {}", hyb::show_meta(&Some(m)));
    let d = hyb::aes_dec(&k, &x[4 + hn..16 + hn], Some(&hyb::block_aad(&meta.uid, 0)), &x[16 + hn..]);
    ensure!(ctx, d.as_ref() == Some(&pt), "the data is not block 0 bound to the metadata's id");
    let back = map(call(Py, "decrypt", &[b(uk), b(&x)])?, |v| bytes("decrypt", &v))?;
    ensure!(ctx, back.as_ref().ok() == Some(&pt), "decrypt: {:?}", back.as_ref().err());
    for _ in 0..src.size(1, 4) {
        let mut y = x.clone();
        let what = match src.below(6) {
            0 => {
                // another block of the same key
                let num = 1 + src.below(3) as usize;
                let c = n_block(true, &k, &meta.uid, num, b"other")?.map_err(Fail::from)?;
                y.truncate(4 + hn);
                y.extend(c);
                "another block number"
            }
            1 => {
                let mut u = meta.uid.clone();
                u.push(0);
                let c = n_block(true, &k, &u, 0, b"other")?.map_err(Fail::from)?;
                y.truncate(4 + hn);
                y.extend(c);
                "another id"
            }
            2 => {
                let at = src.idx(y.len());
                y[at] ^= 1 << src.below(8);
                "bit"
            }
            3 => {
                let d = odd_u32(src, hn as u32);
                y[..4].copy_from_slice(&d.to_be_bytes());
                "header size"
            }
            _ => mutate(src, &mut y, &[0, 4, 8, 4 + hn, 16 + hn], &x),
        };
        let r = map(call(Py, "decrypt", &[b(uk), b(&y)])?, |v| bytes("decrypt", &v))?;
        let native = n_decrypt(uk, &y)?;
        ensure!(ctx, r.is_ok() == native.is_ok(), "tampered ({what}): Python {:?}, native {:?}", r.as_ref().err(), native.as_ref().err());
        match r {
            Ok(d) => {
                ensure!(ctx, d == pt, "tampered ({what}) data decrypts to something else");
            }
            Err(_) => ctx.nontrivial = true,
        }
        if what == "another block number" || what == "another id" {
            ensure!(ctx, native.is_err(), "data with {what} decrypts");
        }
    }
    Ok(())
}

fn blocks(l: Lang, src: &mut Src, ctx: &mut Ctx) -> R {
    let kb = src.blob(32);
    let un = match src.below(5) { 0 => 0, 1 => src.size(50, 2000), _ => src.size(1, 40) };
    let uid = src.blob(un);
    let bits = if l == Py { 64 } else { 32 };
    let num: u64 = match src.below(5) {
        0 => 0,
        1 => src.below(3),
        2 => 1 << src.below(bits),
        3 => (1u64 << (bits - 1)).wrapping_mul(2).wrapping_sub(1 + src.below(3)),
        _ => src.below(1 << 32),
    } & if l == Py { u64::MAX } else { u32::MAX as u64 };
    let n = match src.below(14) { 0 => src.size(1000, 60_000), 1 => 1, 2 => 0, _ => src.size(1, 100) };
    let data = src.blob(n);
    let by_m = src.chance(1, 2);
    let explicit = src.chance(1, 2);
    ctx.say(format!("{n} bytes, id of {un} bytes, block {num}, {}", if by_m { "module" } else { "native" }));
    let r = if by_m { m_block(l, true, &kb, &uid, num, &data, explicit)? } else { n_block(true, &kb, &uid, num as usize, &data)? };
    if n == 0 {
        ensure!(ctx, r.is_err(), "an empty block was encrypted");
        return Ok(());
    }
    ctx.nontrivial_if(n >= 2);
    let c = r.map_err(|e| Fail::from(format!("block refused: {e}")))?;
    ensure!(ctx, c.len() == n + 28, "block of {} bytes for {n}", c.len());
    let ok = hyb::aes_dec(&kb, &c[..12], Some(&hyb::block_aad(&uid, num)), &c[12..]);
    ensure!(ctx, ok.as_ref() == Some(&data), "the block is not bound to its id and number");
    let mut t: Vec<(Vec<u8>, Vec<u8>, u64, Vec<u8>)> = vec![(kb.clone(), uid.clone(), num, c.clone())];
    let mut k2 = kb.clone();
    k2[src.idx(32)] ^= 1 << src.below(8);
    t.push((k2, uid.clone(), num, c.clone()));
    t.push((kb.clone(), uid.clone(), num ^ (1 << src.below(bits)), c.clone()));
    let mut u2 = uid.clone();
    u2.push(0);
    t.push((kb.clone(), u2, num, c.clone()));
    t.push((kb.clone(), vec![], num, c.clone()));
    t.push((kb.clone(), uid.clone(), 0, c.clone()));
    for _ in 0..2 {
        let mut d = c.clone();
        mutate(src, &mut d, &[12], &c);
        t.push((kb.clone(), uid.clone(), num, d));
    }
    let kn = *src.pick(&[0usize, 1, 16, 31, 33, 64]);
    t.push((src.blob(kn), uid.clone(), num, c.clone()));
    for (k, u, nb, d) in t {
        let same = k == kb && u == uid && nb == num && d == c;
        let m = m_block(l, false, &k, &u, nb, &d, explicit)?;
        let nat = if k.len() == 32 { n_block(false, &k, &u, nb as usize, &d)? } else { Err("key size".into()) };
        ensure!(ctx, m.as_ref().ok() == nat.as_ref().ok(), "module {m:?}, native {nat:?}");
        ensure!(ctx, m.is_ok() == same, "a block decrypts in another context or not in its own: {m:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------ differential, damaged arguments

/// sizes at which key generation is bearable
fn bearable(policy: &[u8]) -> bool {
    serde_json::from_slice::<Policy>(policy).map_or(true, |p| p.max_attribute_creations <= 60)
}
const MARKS: [usize; 12] = [0, 4, 8, 12, 16, 20, 36, 52, 100, 104, 296, 300];
fn bad_bytes(src: &mut Src, good: &[u8], others: &[&[u8]]) -> Vec<u8> {
    match src.below(10) {
        0 => vec![],
        1 => {
            let n = src.size(1, 200);
            src.blob(n)
        }
        2 | 3 => src.pick(others).to_vec(),
        k => {
            let mut x = good.to_vec();
            let o = src.pick(others).to_vec();
            for _ in 0..if k < 6 { 2 } else { 1 } {
                mutate(src, &mut x, &MARKS, &o);
            }
            x
        }
    }
}
fn bad_json(src: &mut Src, good: &[u8]) -> Vec<u8> {
    match src.below(10) {
        0 => src.pick(&[&b""[..], b"null", b"[]", b"{}", b"\"\"", b"0", b"\xff\xfe", b"[[[[[[", b"{\"a\":", b"true", b"[null]"]).to_vec(),
        1 => format!("{}1{}", "[".repeat(src.size(100, 3000)), "]".repeat(100)).into_bytes(),
        2 | 3 => {
            let mut x = good.to_vec();
            mutate(src, &mut x, &[], good);
            x
        }
        _ => bend_json(src, good),
    }
}
/// strings near access expressions and attribute lists
fn bad_text(src: &mut Src, good: &str) -> String {
    let mut c: Vec<char> = good.chars().collect();
    let parts = ["(", ")", "&&", "||", "::", " ", ",", "&", "|", ":", "D", "é", "🦀", "((", "))", ") && (", "\0", "\t", "D::x"];
    match src.below(8) {
        0 => return String::new(),
        1 => {
            let mut t = String::new();
            for _ in 0..src.size(1, 12) {
                t.push_str(src.pick(&parts));
            }
            return t;
        }
        2 => return format!("{}{}{}", "(".repeat(src.size(1, 20)), good, ")".repeat(src.size(0, 20))),
        _ => {}
    }
    for _ in 0..src.size(1, 3) {
        let at = src.idx(c.len() + 1);
        match src.below(4) {
            0 if at < c.len() => {
                c.remove(at);
            }
            1 => c.truncate(at),
            2 if at < c.len() => {
                let x = src.idx(c.len());
                c.swap(at, x);
            }
            _ => {
                let p: Vec<char> = src.pick(&parts).chars().collect();
                c.splice(at..at, p);
            }
        }
    }
    c.into_iter().collect()
}
fn exprs() -> [&'static str; 6] {
    ["D::x", "S::b && D::x", "(S::a || D::y) && D::z", "D::x || (D::y && S::c)", "S::c", "D::x || D::y || D::z"]
}

fn same(l: Lang, src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let (policy, skb, pkb, dkb) = (pol(&p.policy), ser("sk", &p.m.sk)?, ser("pk", &p.m.pk)?, ser("dk", &p.m.dk)?);
    let other_keys: Vec<&[u8]> = vec![&skb, &pkb, &dkb, &p.key_bytes[0], &p.key_bytes[3], &p.headers[0], &p.ct_bytes[0]];
    let attrs = js(&p.attrs[..src.size(1, 3)].to_vec());
    let expr = *src.pick(&exprs());
    // which arguments are damaged
    let hit = [src.chance(1, 2), src.chance(1, 3), src.chance(1, 4), src.chance(1, 5)];
    let bb = |src: &mut Src, on: bool, g: &[u8]| if on { bad_bytes(src, g, &other_keys) } else { g.to_vec() };
    let bj = |src: &mut Src, on: bool, g: &[u8]| if on { bad_json(src, g) } else { g.to_vec() };
    let bt = |src: &mut Src, on: bool, g: &str| if on { bad_text(src, g) } else { g.to_string() };
    // WebAssembly refuses some empty arguments that the native call does not
    let mut empty = false;
    let verdict = |ctx: &mut Ctx, f: &str, m: Result<(), &String>, n: Result<(), &String>, empty: bool| -> R {
        ctx.say(format!("{f}: module {m:?}, native {n:?}"));
        ctx.label(&format!("{f} {}", if n.is_ok() { "accepted" } else { "refused" }));
        ensure!(ctx, m.is_ok() == n.is_ok() || (empty && m.is_err()), "{f}: module {m:?}, native {n:?}");
        Ok(())
    };
    let mut altered = hit.iter().any(|x| *x);
    let accepted;
    match src.below(if l == Py { 9 } else { 8 }) {
        0 => {
            let pj = bj(src, true, &policy);
            if !bearable(&pj) {
                return Ok(());
            }
            altered = pj != policy;
            let m = m_masters(l, &pj)?;
            let n = n_masters(&pj)?;
            verdict(ctx, "generate_master_keys", m.as_ref().map(|_| ()), n.as_ref().map(|_| ()), false)?;
            if let (Ok(m), Ok(n)) = (&m, &n) {
                ensure!(ctx, m.0.len() == n[0] && m.1.len() == n[1] && m.2.as_ref().map_or(true, |d| d.len() == n[2]), "master keys of other sizes");
                de::<Sk<Real>>("master private key", &m.0)?;
                de::<Pk<Real>>("master public key", &m.1)?;
            }
            accepted = n.is_ok();
        }
        1 | 2 => {
            let (k, e, pj) = (bb(src, hit[0], &skb), bt(src, hit[1], expr), bj(src, hit[2], &policy));
            ctx.say(&e);
            let m = m_user_key(l, &k, &e, &pj)?;
            let n = n_user_key(&k, &e, &pj)?;
            verdict(ctx, "generate_user_private_key", m.as_ref().map(|_| ()), n.as_ref().map(|_| ()), false)?;
            if let (Ok(m), Ok(n)) = (&m, &n) {
                ensure!(ctx, m.len() == n.len(), "keys of {} and {} bytes", m.len(), n.len());
                for h in &p.headers {
                    let (x, y) = (n_dec_header(m, h)?, n_dec_header(n, h)?);
                    ensure!(ctx, x.is_ok() == y.is_ok(), "the keys open different headers");
                }
            }
            accepted = n.is_ok();
        }
        3 => {
            let (a, pj) = (bj(src, hit[0], &attrs), bj(src, hit[1], &policy));
            let m = m_rotate(l, &a, &pj)?;
            let n = n_rotate(&a, &pj)?;
            match (&m, &n) {
                (_, Ok(None)) => return Ok(()),
                (Ok(m), Ok(Some(n))) => same_values(ctx, "rotated policy", m, n)?,
                _ => verdict(ctx, "rotate_attributes", m.as_ref().map(|_| ()), n.as_ref().map(|_| ()), false)?,
            }
            accepted = n.is_ok();
        }
        4 | 5 => {
            // header encryption
            let (pj, k) = (bj(src, hit[0], &policy), bb(src, hit[1], &pkb));
            let (m, n): (Result<(Vec<u8>, Vec<u8>), String>, _) = match l {
                Py => {
                    let meta = Metadata { uid: src.blob(5), additional_data: Some(src.blob(3)) };
                    let (mj, a) = (bj(src, hit[2], &js(&meta)), bj(src, hit[3], &attrs));
                    let md = serde_json::from_slice::<Metadata>(&mj).map_err(|e| e.to_string());
                    let at = serde_json::from_slice::<Vec<Attribute>>(&a).map_err(|e| e.to_string());
                    let m = m_enc_header_py(&mj, &pj, &a, &k)?;
                    let n = match md {
                        Err(e) => Err(e),
                        Ok(md) => n_enc_header(Some(md), &pj, at, &k)?,
                    };
                    (m, n)
                }
                Js => {
                    let good = attr_str(&p.attrs[..src.size(1, 3)]);
                    let a = bt(src, hit[2], &good);
                    let un = src.size(0, 6);
                    let uid = src.blob(un);
                    ctx.say(&a);
                    let at = Attributes::try_from(a.as_str()).map(|x| x.to_vec()).map_err(|e| e.to_string());
                    let md = Metadata { uid: uid.clone(), additional_data: None };
                    let n = n_enc_header(Some(md), &pj, at, &k)?;
                    let cached = src.chance(1, 2);
                    let m = if cached {
                        match m_cache(true, &[&pj, &k])? {
                            Ok(h) => {
                                let r = m_enc_header_cached(h, &a, &uid)?;
                                m_destroy(true, h)?.map_err(Fail::from)?;
                                r
                            }
                            Err(e) => Err(e),
                        }
                    } else {
                        empty = uid.is_empty();
                        m_enc_header_js(&pj, &k, &a, &uid)?
                    };
                    (m, n)
                }
            };
            verdict(ctx, "encrypt_hybrid_header", m.as_ref().map(|_| ()), n.as_ref().map(|_| ()), empty)?;
            if let (Ok((_, h)), Ok(n)) = (&m, &n) {
                ensure!(ctx, h.len() == n.len(), "headers of {} and {} bytes", h.len(), n.len());
            }
            accepted = n.is_ok();
        }
        6 | 7 => {
            // header decryption, one-shot decryption
            let k0 = p.key_bytes[src.idx(4)].clone();
            let h0 = p.headers[src.idx(p.headers.len())].clone();
            let (k, mut h) = (bb(src, hit[0], &k0), bb(src, hit[1], &h0));
            if src.chance(1, 8) {
                // one of the two lengths of a valid header
                h = h0;
                let n = u32_at(&h).unwrap_or(0);
                let at = if src.chance(1, 2) { 0 } else { 4 + n + 12 };
                if h.len() >= at + 4 {
                    let v = match src.below(3) {
                        0 => u32::MAX - src.below(40) as u32,
                        1 => (h.len() as u32).wrapping_sub(src.below(40) as u32),
                        _ => odd_u32(src, h.len() as u32),
                    };
                    h[at..at + 4].copy_from_slice(&v.to_be_bytes());
                    altered = true;
                    ctx.say(format!("length {v} at {at}"));
                }
            }
            if l == Py && src.chance(1, 3) {
                let h = if src.chance(1, 2) { [(h.len() as u32).to_be_bytes().to_vec(), h.clone(), src.blob(40)].concat() } else { h.clone() };
                let m = map(call(Py, "decrypt", &[b(&k), b(&h)])?, |v| bytes("decrypt", &v))?;
                let n = n_decrypt(&k, &h)?;
                verdict(ctx, "decrypt", m.as_ref().map(|_| ()), n.as_ref().map(|_| ()), false)?;
                ensure!(ctx, m.as_ref().ok() == n.as_ref().ok(), "decrypt: other results");
                accepted = n.is_ok();
            } else {
                let n = n_dec_header(&k, &h)?;
                let m = if l == Js && src.chance(1, 2) {
                    match m_cache(false, &[&k])? {
                        Ok(c) => {
                            let r = m_dec_header_cached(c, &h)?;
                            m_destroy(false, c)?.map_err(Fail::from)?;
                            r
                        }
                        Err(e) => Err(e),
                    }
                } else {
                    m_dec_header(l, &k, &h)?
                };
                verdict(ctx, "decrypt_hybrid_header", m.as_ref().map(|_| ()), n.as_ref().map(|_| ()), false)?;
                ensure!(ctx, m.as_ref().ok() == n.as_ref().ok(), "decrypt_hybrid_header: other contents");
                accepted = n.is_ok();
            }
            let size = call(l, &fname(l, "get_encrypted_header_size"), &[b(&h)])?;
            let want = u32_at(&h);
            let got = match size {
                Ok(v) => Some(int("get_encrypted_header_size", &v)? as u32 as usize),
                Err(_) => None,
            };
            ensure!(ctx, got == want, "get_encrypted_header_size {got:?}, expected {want:?}");
        }
        _ => {
            let uk0 = p.key_bytes[src.idx(4)].clone();
            let (d, k, e, pj) = (bb(src, hit[0], &dkb), bb(src, hit[1], &uk0), bt(src, hit[2], expr), bj(src, hit[3], &policy));
            ctx.say(&e);
            let m = m_delegate(&d, &k, &e, &pj)?;
            let n = n_delegate(&d, &k, &e, &pj)?;
            verdict(ctx, "generate_delegated_key", m.as_ref().map(|_| ()), n.as_ref().map(|_| ()), false)?;
            if let (Ok(m), Ok(n)) = (&m, &n) {
                ensure!(ctx, m.len() == n.len(), "keys of {} and {} bytes", m.len(), n.len());
                for h in &p.headers {
                    let (x, y) = (n_dec_header(m, h)?, n_dec_header(n, h)?);
                    ensure!(ctx, x.is_ok() == y.is_ok(), "the keys open different headers");
                }
            }
            accepted = n.is_ok();
        }
    }
    ctx.nontrivial_if(!accepted || altered);
    if src.chance(1, 5) {
        healthy(l, ctx)?;
    }
    Ok(())
}

/// the module still works
fn healthy(l: Lang, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let (policy, pkb) = (pol(&p.policy), ser("pk", &p.m.pk)?);
    let meta = Metadata { uid: b"u".to_vec(), additional_data: None };
    let r = match l {
        Py => m_enc_header_py(&js(&meta), &policy, &js(&p.attrs), &pkb)?,
        Js => m_enc_header_js(&policy, &pkb, &attr_str(&p.attrs), b"u")?,
    };
    let (k, h) = r.map_err(|e| Fail::from(format!("a valid encryption afterwards: {e}")))?;
    let mut opened = false;
    for uk in &p.key_bytes {
        let n = n_dec_header(uk, &h)?;
        let m = m_dec_header(l, uk, &h)?;
        ensure!(ctx, m.as_ref().ok() == n.as_ref().ok(), "a valid decryption afterwards: module {:?}, native {:?}", m.as_ref().err(), n.as_ref().err());
        if let Ok((x, _)) = m {
            ensure!(ctx, x == k, "a valid decryption afterwards gives another key");
            opened = true;
            break;
        }
    }
    ensure!(ctx, opened, "no key opens a valid header afterwards");
    Ok(())
}

fn wrong_types(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let policy = pol(&p.policy);
    let y = |x: &[u8]| json!({ "b": hex(x) });
    let meta = js(&Metadata::default());
    let calls: Vec<(&str, Vec<Value>)> = vec![
        ("generate_master_keys", vec![y(b"{}")]),
        ("generate_user_private_key", vec![y(&ser("sk", &p.m.sk)?), s("D::x"), y(&policy)]),
        ("generate_policy", vec![y(b"[]"), i(10)]),
        ("generate_delegated_key", vec![y(&ser("dk", &p.m.dk)?), y(&p.key_bytes[0]), s("D::x"), y(&policy)]),
        ("rotate_attributes", vec![y(b"[]"), y(&policy)]),
        ("get_encrypted_header_size", vec![y(&p.headers[0])]),
        ("encrypt_hybrid_header", vec![y(&meta), y(&policy), y(&js(&p.attrs)), y(&ser("pk", &p.m.pk)?)]),
        ("decrypt_hybrid_header", vec![y(&p.key_bytes[0]), y(&p.headers[0])]),
        ("encrypt_hybrid_block", vec![y(&[3; 32]), y(b"u"), i(0), y(b"data")]),
        ("decrypt_hybrid_block", vec![y(&[3; 32]), y(b"u"), i(0), y(&[9; 40])]),
        ("encrypt", vec![y(&meta), y(&policy), y(&js(&p.attrs)), y(&ser("pk", &p.m.pk)?), y(b"data")]),
        ("decrypt", vec![y(&p.key_bytes[0]), y(&p.headers[0])]),
    ];
    let (f, mut args) = calls[src.idx(calls.len())].clone();
    let mut wrong = false;
    for _ in 0..src.size(1, 2) {
        match src.below(8) {
            0 => {
                args.pop();
                wrong = true;
            }
            1 => {
                args.push(Value::Null);
                wrong = true;
            }
            _ if !args.is_empty() => {
                let at = src.idx(args.len());
                wrong = true;
                args[at] = match src.below(9) {
                    0 => Value::Null,
                    1 => i(*src.pick(&[0i128, -1, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 64, -(1 << 63), 1 << 100])),
                    2 => s("text"),
                    3 => json!({ "f": 1.5 }),
                    4 => json!({ "o": { "k": 1 } }),
                    5 => json!({ "o": [1, 2, 300] }),
                    6 => json!({ "o": [-1] }),
                    7 => json!({ "o": ["a"] }),
                    _ => json!({ "u": src.below(100) }),
                };
            }
            _ => {}
        }
    }
    ctx.say(format!("{f} {}", args.iter().map(|a| a.to_string().chars().take(40).collect::<String>()).collect::<Vec<_>>().join(", ")));
    ctx.nontrivial_if(wrong);
    let r = call(Py, f, &args)?;
    ctx.checks += 1;
    ctx.label(if r.is_ok() { "accepted" } else { "exception" });
    // the same contents in another container are the same argument
    if src.chance(1, 3) {
        let data = src.blob(20);
        let kb = src.blob(32);
        let c = n_block(true, &kb, &data, 5, &data)?.map_err(Fail::from)?;
        let k = *src.pick(&["l", "y"]);
        let v = call(Py, "decrypt_hybrid_block", &[json!({ k: hex(&kb) }), json!({ k: hex(&data) }), i(5), json!({ k: hex(&c) })])?;
        match v {
            Ok(v) => ensure!(ctx, bytes("decrypt_hybrid_block", &v)? == data, "another plaintext from lists"),
            Err(e) => fail!("decrypt_hybrid_block of a {k} refused: {e}"),
        }
    }
    if src.chance(1, 20) {
        healthy(Py, ctx)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ caches (WebAssembly)

struct Model {
    /// handle -> which material, when alive
    enc: Vec<(i32, Option<usize>)>,
    dec: Vec<(i32, Option<usize>)>,
}

fn caches(src: &mut Src, ctx: &mut Ctx) -> R {
    let p = pool()?;
    let policy = pol(&p.policy);
    let pks = [ser("pk", &p.m.pk)?, ser("pk", &master_n::<Real>(12, 1)?.pk)?];
    let sk2 = master_n::<Real>(12, 1)?;
    let mut md = Model { enc: vec![], dec: vec![] };
    let (mut gone, mut both) = (false, false);
    let alive = |v: &[(i32, Option<usize>)]| v.iter().filter(|x| x.1.is_some()).count();
    let pick = |src: &mut Src, mine: &[(i32, Option<usize>)], other: &[(i32, Option<usize>)]| -> i32 {
        match src.below(8) {
            0 => *src.pick(&[-1, i32::MAX, i32::MIN, 1_000_000, 0]),
            1 if !other.is_empty() => src.pick(other).0,
            _ if !mine.is_empty() => src.pick(mine).0,
            _ => -1,
        }
    };
    let issued_before = |v: &[(i32, Option<usize>)], h: i32| v.iter().any(|x| x.0 == h && x.1.is_some());
    let steps = src.size(4, 30);
    if src.chance(1, 8) {
        // many caches alive at once, all of which must go on working
        let n = src.size(1, 45);
        ctx.say(format!("{n} caches of each kind"));
        for _ in 0..n {
            let (a, b) = (src.idx(2), src.idx(p.key_bytes.len()));
            let h = m_cache(true, &[&policy, &pks[a]])?.map_err(|e| Fail::from(format!("encryption cache refused: {e}")))?;
            ensure!(ctx, !issued_before(&md.enc, h), "handle {h} given twice while in use");
            md.enc.push((h, Some(a)));
            let h = m_cache(false, &[&p.key_bytes[b]])?.map_err(|e| Fail::from(format!("decryption cache refused: {e}")))?;
            ensure!(ctx, !issued_before(&md.dec, h), "handle {h} given twice while in use");
            md.dec.push((h, Some(b)));
        }
    }
    for _ in 0..steps {
        match src.below(10) {
            0 | 1 => {
                let k = src.idx(2);
                ctx.say(format!("enc cache of key {k}"));
                let h = m_cache(true, &[&policy, &pks[k]])?.map_err(|e| Fail::from(format!("encryption cache refused: {e}")))?;
                ensure!(ctx, !issued_before(&md.enc, h), "handle {h} given twice while in use");
                md.enc.retain(|x| x.0 != h);
                md.enc.push((h, Some(k)));
            }
            2 | 3 => {
                let k = src.idx(p.key_bytes.len());
                ctx.say(format!("dec cache of key {k}"));
                let h = m_cache(false, &[&p.key_bytes[k]])?.map_err(|e| Fail::from(format!("decryption cache refused: {e}")))?;
                ensure!(ctx, !issued_before(&md.dec, h), "handle {h} given twice while in use");
                md.dec.retain(|x| x.0 != h);
                md.dec.push((h, Some(k)));
            }
            4 => {
                let enc = src.chance(1, 2);
                ctx.say("damaged cache");
                let good = if enc { &pks[0] } else { &p.key_bytes[0] };
                let n = src.idx(good.len());
                let x = good[..n].to_vec();
                let valid = if enc { no_panic("pk", || Pk::<Real>::try_from_bytes(&x).is_ok())? } else { no_panic("uk", || Uk::<Real>::try_from_bytes(&x).is_ok())? };
                let r = if enc { m_cache(true, &[&policy, &x])? } else { m_cache(false, &[&x])? };
                ensure!(ctx, r.is_ok() == valid, "a cache of damaged material: {r:?}");
                if let Ok(h) = r {
                    m_destroy(enc, h)?.map_err(Fail::from)?;
                }
            }
            5 => {
                let enc = src.chance(1, 2);
                let h = if enc { pick(src, &md.enc, &md.dec) } else { pick(src, &md.dec, &md.enc) };
                // handles of earlier cases of this worker are all destroyed
                ctx.say(format!("destroy {} {h}", if enc { "enc" } else { "dec" }));
                let _ = m_destroy(enc, h)?;
                let v = if enc { &mut md.enc } else { &mut md.dec };
                for x in v.iter_mut().filter(|x| x.0 == h) {
                    gone |= x.1.is_some();
                    x.1 = None;
                }
            }
            6 | 7 => {
                let h = pick(src, &md.enc, &md.dec);
                let at = p.attrs[src.idx(p.attrs.len())].clone();
                let un = src.size(0, 9);
                let uid = src.blob(un);
                let alive = md.enc.iter().find(|x| x.0 == h).and_then(|x| x.1);
                ctx.say(format!("use enc {h}"));
                let r = m_enc_header_cached(h, &attr_str(&[at.clone()]), &uid)?;
                match (r, alive) {
                    (Err(_), None) => ctx.checks += 1,
                    (Ok(_), None) => fail!("encryption with handle {h}, which is not alive, succeeded"),
                    (Err(e), Some(_)) => fail!("encryption with handle {h} refused: {e}"),
                    (Ok((k, x)), Some(which)) => {
                        both |= gone && alive_count(&md) >= 2;
                        // read it with a fresh key of that authority for that attribute
                        let ap = AccessPolicy::Attr(at);
                        let uk = match which {
                            0 => keygen::<Real>(&p.policy, &p.m, &ap)?,
                            _ => keygen::<Real>(&p.policy, &sk2, &ap)?,
                        };
                        let got = n_dec_header(&ser("user key", &uk)?, &x)?;
                        let (k2, m) = got.map_err(|e| Fail::from(format!("header made with handle {h} is not for its public key: {e}")))?;
                        ensure!(ctx, k2 == k && m.uid == uid && m.additional_data.is_none(), "header made with handle {h} holds something else");
                    }
                }
            }
            _ => {
                let h = pick(src, &md.dec, &md.enc);
                let hi = src.idx(p.headers.len());
                let alive = md.dec.iter().find(|x| x.0 == h).and_then(|x| x.1);
                ctx.say(format!("use dec {h}"));
                let r = m_dec_header_cached(h, &p.headers[hi])?;
                match alive {
                    None => ensure!(ctx, r.is_err(), "decryption with handle {h}, which is not alive, succeeded"),
                    Some(k) => {
                        both |= gone && alive_count(&md) >= 2;
                        let n = n_dec_header(&p.key_bytes[k], &p.headers[hi])?;
                        ensure!(ctx, r.as_ref().ok() == n.as_ref().ok(), "decryption with handle {h}: module {:?}, native {:?}", r.as_ref().err(), n.as_ref().err());
                    }
                }
            }
        }
    }
    ctx.label_if(alive(&md.enc) > 0 && alive(&md.dec) > 0, "both kinds alive");
    // the oldest and some others still work
    let live = |v: &[(i32, Option<usize>)], n: usize| -> Vec<(i32, usize)> {
        let all: Vec<_> = v.iter().filter_map(|x| x.1.map(|k| (x.0, k))).collect();
        all.iter().take(1).chain(all.iter().skip(1).step_by(1 + all.len() / n)).copied().collect()
    };
    for (h, k) in live(&md.dec, 3) {
        let hi = src.idx(p.headers.len());
        let (r, n) = (m_dec_header_cached(h, &p.headers[hi])?, n_dec_header(&p.key_bytes[k], &p.headers[hi])?);
        ensure!(ctx, r.as_ref().ok() == n.as_ref().ok(), "decryption with handle {h}: module {:?}, native {:?}", r.as_ref().err(), n.as_ref().err());
    }
    for (h, _) in live(&md.enc, 3) {
        let r = m_enc_header_cached(h, &attr_str(&p.attrs[..1]), b"x")?;
        ensure!(ctx, r.is_ok(), "encryption with handle {h} refused: {:?}", r.err());
    }
    for (enc, v) in [(true, &md.enc), (false, &md.dec)] {
        for (h, a) in v {
            if a.is_some() {
                m_destroy(enc, *h)?.map_err(|e| Fail::from(format!("destroying handle {h} failed: {e}")))?;
            }
        }
    }
    ctx.nontrivial_if(both);
    Ok(())
}
fn alive_count(m: &Model) -> usize {
    m.enc.iter().chain(&m.dec).filter(|x| x.1.is_some()).count()
}
