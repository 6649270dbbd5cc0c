//! Objects stored by earlier builds. `gpsw_check golden FILE` writes a new set
//! (done once, on the unmodified repository); the C14 check only reads.
use std::path::Path;

use abe_policy::AccessPolicy;
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{encrypt_hybrid_block, encrypt_hybrid_header};
use cosmian_crypto_base::KeyTrait;
use serde::{Deserialize, Serialize};

use crate::{
    api::*,
    hyb::{self, H},
    model::*,
    pbt::*,
};

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct Scenario {
    pub name: String,
    pub policy: String,
    #[serde(with = "hx", default)]
    pub sk: Vec<u8>,
    #[serde(with = "hx", default)]
    pub pk: Vec<u8>,
    #[serde(with = "hx", default)]
    pub dk: Vec<u8>,
    pub keys: Vec<GKey>,
    #[serde(default)]
    pub cts: Vec<GCt>,
    #[serde(default)]
    pub headers: Vec<GHeader>,
    #[serde(default)]
    pub blocks: Vec<GBlock>,
    #[serde(default)]
    pub probes: Vec<GProbe>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct GKey {
    pub access_policy: String,
    #[serde(with = "hx")]
    pub bytes: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct GCt {
    #[serde(with = "hx")]
    pub bytes: Vec<u8>,
    #[serde(with = "hx")]
    pub msg: Vec<u8>,
    pub opens: Vec<usize>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct GHeader {
    #[serde(with = "hx")]
    pub bytes: Vec<u8>,
    #[serde(with = "hx")]
    pub key: Vec<u8>,
    #[serde(with = "hx")]
    pub uid: Vec<u8>,
    pub additional: Option<Vec<u8>>,
    pub opens: Vec<usize>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct GBlock {
    #[serde(with = "hx")]
    pub bytes: Vec<u8>,
    #[serde(with = "hx")]
    pub key: Vec<u8>,
    #[serde(with = "hx")]
    pub uid: Vec<u8>,
    pub number: u64,
    pub clear: Option<Vec<u8>>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct GProbe {
    pub attrs: Vec<(String, String)>,
    /// stored keys that open new ciphertexts for these attributes
    pub opens: Vec<usize>,
    /// stored keys whose policy, issued again, opens them
    pub opens_new: Vec<usize>,
}
mod hx {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
            .collect()
    }
}

thread_local! {
    static ALL: std::cell::RefCell<Option<std::rc::Rc<Vec<Scenario>>>> = const { std::cell::RefCell::new(None) };
}
pub fn load() -> Result<std::rc::Rc<Vec<Scenario>>, Fail> {
    if let Some(a) = ALL.with(|c| c.borrow().clone()) {
        return Ok(a);
    }
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut v: Vec<Scenario> = vec![];
    for f in ["golden/base.json", "golden/repository.json"] {
        let b = std::fs::read(Path::new(&dir).join(f)).map_err(|e| Fail::from(format!("{f}: {e}")))?;
        v.extend(serde_json::from_slice::<Vec<Scenario>>(&b).map_err(|e| Fail::from(format!("{f}: {e}")))?);
    }
    let a = std::rc::Rc::new(v);
    ALL.with(|c| *c.borrow_mut() = Some(a.clone()));
    Ok(a)
}

pub fn write(to: &Path) -> std::io::Result<()> {
    let v: Vec<Scenario> = (0..8).map(|i| scenario(i).map_err(|f| std::io::Error::other(f.msg))).collect::<Result<_, _>>()?;
    std::fs::write(to, serde_json::to_vec_pretty(&v)?)
}

fn scenario(i: u64) -> Result<Scenario, Fail> {
    let mut s = Src::random(1000 + i);
    let src = &mut s;
    let st = |e: &dyn std::fmt::Display| Fail::from(e.to_string());
    let mut w = gen_world(src, &WorldOpts { max_axes: 3, max_attrs: 3, max_slack: 0, max_rotations: 2, plain_names: true });
    w.max += 4;
    w.policy.max_attribute_creations += 4;
    let m = new_master::<Real>(&w.policy)?;
    let mut out = Scenario { name: format!("base build, scenario {i}"), ..Default::default() };
    let mut forms = vec![];
    for _ in 0..3 {
        let f = gen_formula(src, &w, 5);
        let k = keygen::<Real>(&w.policy, &m, &f.ap(&w))?;
        out.keys.push(GKey {
            access_policy: serde_json::to_string(&f.ap(&w)).map_err(|e| st(&e))?,
            bytes: ser("key", &k)?,
        });
        forms.push((Some(f.clone()), f.snapshot(&w)));
    }
    let k = keygen::<Real>(&w.policy, &m, &AccessPolicy::All)?;
    out.keys.push(GKey { access_policy: serde_json::to_string(&AccessPolicy::All).map_err(|e| st(&e))?, bytes: ser("key", &k)? });
    forms.push((None, T::Leaf(w.all_values().into_iter().collect())));
    // a derived key
    if let Ok(d) = try_delegate::<Real>(&w.policy, &m, &keygen::<Real>(&w.policy, &m, &forms[0].0.as_ref().unwrap().ap(&w))?, &AccessPolicy::All)? {
        out.keys.push(GKey { access_policy: out.keys[0].access_policy.clone(), bytes: ser("key", &d)? });
        forms.push(forms[0].clone());
    }
    let opens = |g: &std::collections::BTreeSet<u32>| -> Vec<usize> {
        forms.iter().enumerate().filter(|(_, f)| f.1.eval(g)).map(|(i, _)| i).collect()
    };
    for step in 0..4 {
        let (f, t) = &forms[step % 3];
        let l = gen_attrs(src, &w, f.as_ref().unwrap(), t, 5);
        let msg = gen_msg::<Real>(src)?;
        let ct = encrypt::<Real>(&w.policy, &m, &w.attributes(&l), &msg)?;
        let o = opens(&w.gamma(&l));
        out.cts.push(GCt { bytes: ser("ct", &ct)?, msg: ser("msg", &msg)?, opens: o.clone() });
        let meta = hyb::gen_meta(src).map(|mut md| {
            if let Some(a) = &mut md.additional_data {
                a.truncate(100);
            }
            md.uid.truncate(100);
            md
        });
        let h = encrypt_hybrid_header::<Real, H>(&w.policy, &m.pk, &w.attributes(&l), meta.clone()).map_err(|e| st(&e))?;
        let e = hyb::expected(&meta);
        let hk = h.symmetric_key.to_bytes().to_vec();
        out.headers.push(GHeader {
            bytes: h.encrypted_header_bytes,
            key: hk.clone(),
            uid: e.uid.clone(),
            additional: e.additional_data,
            opens: o,
        });
        let n = src.size(1, 60);
        let clear = src.blob(n);
        let number = [0, 1, 1 << 33, 77][step];
        out.blocks.push(GBlock {
            bytes: encrypt_hybrid_block::<Real, H, 4096>(&h.symmetric_key, &e.uid, number as usize, &clear).map_err(|e| st(&e))?,
            key: hk,
            uid: e.uid,
            number,
            clear: Some(clear),
        });
        if step == 1 {
            let at = w.any_attr(src);
            w.rotate(at);
        }
    }
    for at in w.attrs().into_iter().take(6) {
        let l = vec![at, w.any_attr(src)];
        let g = w.gamma(&l);
        let opens_new = forms
            .iter()
            .enumerate()
            .filter(|(_, f)| match &f.0 {
                Some(f) => f.snapshot(&w).eval(&g),
                None => true,
            })
            .map(|(i, _)| i)
            .collect();
        out.probes.push(GProbe {
            attrs: l.iter().map(|a| (w.axes[a.0].name.clone(), w.axes[a.0].attrs[a.1].clone())).collect(),
            opens: opens(&g),
            opens_new,
        });
    }
    out.policy = serde_json::to_string(&w.policy).map_err(|e| st(&e))?;
    out.sk = ser("sk", &m.sk)?;
    out.pk = ser("pk", &m.pk)?;
    out.dk = ser("dk", &m.dk)?;
    Ok(out)
}
