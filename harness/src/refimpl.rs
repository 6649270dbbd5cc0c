//! An independent codec and an independent GPSW implementation, written from
//! the paper and the published layouts, directly on the curve library. It
//! shares no code with the crate under test (trusted base: cosmian_bls12_381).
#![allow(dead_code)]
use cosmian_bls12_381::{pairing, G1Affine, G1Projective, G2Affine, G2Projective, Gt, Scalar};
use group::Group;

use crate::pbt::{Prng, Src};

pub fn sc(v: u64) -> Scalar {
    Scalar::from(v)
}
pub fn sci(v: i32) -> Scalar {
    if v < 0 {
        -Scalar::from(v.unsigned_abs() as u64)
    } else {
        Scalar::from(v as u64)
    }
}
pub fn scalar_from_seed(seed: u64) -> Scalar {
    let b = Prng::new(seed).fill(64);
    let mut w = [0u8; 64];
    w.copy_from_slice(&b);
    Scalar::from_bytes_wide(&w)
}
/// scalars with many special values
pub fn gen_scalar(src: &mut Src) -> Scalar {
    match src.below(10) {
        0 => Scalar::zero(),
        1 => Scalar::one(),
        2 => -Scalar::one(),
        3 => sc(src.range(2, 300)),
        4 => -sc(src.range(2, 300)),
        5 => sc(1u64 << src.range(0, 63)),
        _ => scalar_from_seed(src.below(1 << 32)),
    }
}
pub fn gen_scalar_nz(src: &mut Src) -> Scalar {
    let s = gen_scalar(src);
    if s == Scalar::zero() {
        Scalar::one()
    } else {
        s
    }
}
pub fn g1(s: &Scalar) -> G1Affine {
    G1Affine::from(G1Projective::generator() * s)
}
pub fn g2(s: &Scalar) -> G2Affine {
    G2Affine::from(G2Projective::generator() * s)
}
pub fn gt(s: &Scalar) -> Gt {
    Gt::generator() * s
}
pub fn sub(a: &G2Affine, b: &G2Affine) -> G2Affine {
    (G2Projective::from(*a) - b).into()
}
pub fn inv(s: &Scalar) -> Scalar {
    Option::<Scalar>::from(s.invert()).expect("nonzero")
}

// ------------------------------------------------------------ linear algebra

/// α with Σ α_i rows_i = target, if any.
pub fn solve_span(rows: &[Vec<Scalar>], target: &[Scalar]) -> Option<Vec<Scalar>> {
    let n = rows.len();
    let m = target.len();
    // m equations, n unknowns
    let mut a: Vec<Vec<Scalar>> = (0..m)
        .map(|j| {
            let mut r: Vec<Scalar> = rows.iter().map(|row| row[j]).collect();
            r.push(target[j]);
            r
        })
        .collect();
    let mut piv = vec![];
    let mut r = 0;
    for c in 0..n {
        let Some(p) = (r..m).find(|i| a[*i][c] != Scalar::zero()) else { continue };
        a.swap(r, p);
        let iv = inv(&a[r][c]);
        for x in a[r].iter_mut() {
            *x *= iv;
        }
        for i in 0..m {
            if i != r && a[i][c] != Scalar::zero() {
                let k = a[i][c];
                for j in 0..=n {
                    let t = a[r][j] * k;
                    a[i][j] -= t;
                }
            }
        }
        piv.push(c);
        r += 1;
        if r == m {
            break;
        }
    }
    if (r..m).any(|i| a[i][n] != Scalar::zero()) {
        return None;
    }
    let mut sol = vec![Scalar::zero(); n];
    for (i, c) in piv.iter().enumerate() {
        sol[*c] = a[i][n];
    }
    Some(sol)
}

/// Basis of all (α, c) with Σ α_i rows_i = c·(1,…,1).
pub fn relations(rows: &[Vec<Scalar>]) -> Vec<(Vec<Scalar>, Scalar)> {
    let m = rows.first().map_or(0, Vec::len);
    let n = rows.len() + 1;
    // unknowns α_1..α_k, c ; m equations Σ α_i rows_i[j] - c = 0
    let mut a: Vec<Vec<Scalar>> = (0..m)
        .map(|j| {
            let mut r: Vec<Scalar> = rows.iter().map(|row| row[j]).collect();
            r.push(-Scalar::one());
            r
        })
        .collect();
    let mut piv: Vec<usize> = vec![];
    let mut r = 0;
    for c in 0..n {
        let Some(p) = (r..m).find(|i| a[*i][c] != Scalar::zero()) else { continue };
        a.swap(r, p);
        let iv = inv(&a[r][c]);
        for x in a[r].iter_mut() {
            *x *= iv;
        }
        for i in 0..m {
            if i != r && a[i][c] != Scalar::zero() {
                let k = a[i][c];
                for j in 0..n {
                    let t = a[r][j] * k;
                    a[i][j] -= t;
                }
            }
        }
        piv.push(c);
        r += 1;
        if r == m {
            break;
        }
    }
    let mut out = vec![];
    for free in (0..n).filter(|c| !piv.contains(c)) {
        let mut v = vec![Scalar::zero(); n];
        v[free] = Scalar::one();
        for (i, c) in piv.iter().enumerate() {
            v[*c] = -a[i][free];
        }
        let c = v.pop().unwrap();
        out.push((v, c));
    }
    out
}

// ------------------------------------------------------------ wire structures

#[derive(Clone, Debug, PartialEq)]
pub struct Priv {
    pub t: Vec<Scalar>,
    pub y: Scalar,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pub {
    pub t: Vec<G1Affine>,
    pub y: Gt,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Del {
    pub inv_t: Vec<G2Affine>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Msp {
    pub attrs: Vec<u32>,
    pub cols: usize,
    pub m: Vec<Vec<Scalar>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct UserKey {
    pub d: Vec<G2Affine>,
    pub msp: Msp,
}
#[derive(Clone, Debug, PartialEq)]
pub struct RCt {
    pub gamma: Vec<u32>,
    pub e: Vec<G1Affine>,
    pub ep: Gt,
}

pub struct Rd<'a>(pub &'a [u8]);
type D<T> = Result<T, String>;
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> D<&'a [u8]> {
        if self.0.len() < n {
            return Err(format!("short input: need {n}, have {}", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn u32(&mut self) -> D<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn scalar(&mut self) -> D<Scalar> {
        let b: [u8; 32] = self.take(32)?.try_into().unwrap();
        Option::from(Scalar::from_bytes(&b)).ok_or_else(|| "bad scalar".to_string())
    }
    pub fn g1(&mut self) -> D<G1Affine> {
        let b: [u8; 48] = self.take(48)?.try_into().unwrap();
        Option::from(G1Affine::from_compressed(&b)).ok_or_else(|| "bad G1".to_string())
    }
    pub fn g2(&mut self) -> D<G2Affine> {
        let b: [u8; 96] = self.take(96)?.try_into().unwrap();
        Option::from(G2Affine::from_compressed(&b)).ok_or_else(|| "bad G2".to_string())
    }
    pub fn gt(&mut self) -> D<Gt> {
        let b: [u8; 288] = self.take(288)?.try_into().unwrap();
        Option::from(Gt::from_compressed(&b)).ok_or_else(|| "bad Gt".to_string())
    }
    pub fn list<T>(&mut self, f: impl Fn(&mut Self) -> D<T>) -> D<Vec<T>> {
        let n = self.u32()? as usize;
        (0..n).map(|_| f(self)).collect()
    }
    pub fn end(&self) -> D<()> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{} trailing bytes", self.0.len()))
        }
    }
}

pub fn be(n: usize) -> [u8; 4] {
    (n as u32).to_be_bytes()
}

impl Priv {
    pub fn dec(b: &[u8]) -> D<Self> {
        let mut r = Rd(b);
        let t = r.list(|r| r.scalar())?;
        let y = r.scalar()?;
        r.end()?;
        Ok(Priv { t, y })
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = be(self.t.len()).to_vec();
        for t in &self.t {
            v.extend(t.to_bytes());
        }
        v.extend(self.y.to_bytes());
        v
    }
    /// master secret with deterministic elements, attributes 0..n
    pub fn seeded(n: usize, seed: u64) -> Self {
        let mut t: Vec<Scalar> = (0..n as u64).map(|i| scalar_from_seed(seed.wrapping_mul(1_000_003).wrapping_add(i))).collect();
        for x in t.iter_mut() {
            if *x == Scalar::zero() {
                *x = Scalar::one();
            }
        }
        Priv { t, y: scalar_from_seed(seed ^ 0xABCD_EF01_2345) }
    }
    pub fn public(&self) -> Pub {
        Pub { t: self.t.iter().map(g1).collect(), y: gt(&self.y) }
    }
    pub fn delegation(&self) -> Del {
        Del { inv_t: self.t.iter().map(|t| g2(&inv(t))).collect() }
    }
}
impl Pub {
    pub fn dec(b: &[u8]) -> D<Self> {
        let mut r = Rd(b);
        let t = r.list(|r| r.g1())?;
        let y = r.gt()?;
        r.end()?;
        Ok(Pub { t, y })
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = be(self.t.len()).to_vec();
        for t in &self.t {
            v.extend(t.to_compressed());
        }
        v.extend(self.y.to_compressed());
        v
    }
}
impl Del {
    pub fn dec(b: &[u8]) -> D<Self> {
        let mut r = Rd(b);
        let inv_t = r.list(|r| r.g2())?;
        r.end()?;
        Ok(Del { inv_t })
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = be(self.inv_t.len()).to_vec();
        for t in &self.inv_t {
            v.extend(t.to_compressed());
        }
        v
    }
}
impl Msp {
    pub fn dec_from(r: &mut Rd) -> D<Self> {
        let rows = r.u32()? as usize;
        let cols = r.u32()? as usize;
        let attrs = (0..rows).map(|_| r.u32()).collect::<D<Vec<_>>>()?;
        let m = (0..rows)
            .map(|_| (0..cols).map(|_| r.scalar()).collect::<D<Vec<_>>>())
            .collect::<D<Vec<_>>>()?;
        Ok(Msp { attrs, cols, m })
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = be(self.attrs.len()).to_vec();
        v.extend(be(self.cols));
        for a in &self.attrs {
            v.extend(a.to_be_bytes());
        }
        for r in &self.m {
            for c in r {
                v.extend(c.to_bytes());
            }
        }
        v
    }
    pub fn row(&self, attr: u32) -> Option<usize> {
        self.attrs.iter().position(|a| *a == attr)
    }
    pub fn ones(&self) -> Vec<Scalar> {
        vec![Scalar::one(); self.cols]
    }
    /// reference access decision
    pub fn accepts(&self, gamma: &[u32]) -> bool {
        let rows: Vec<Vec<Scalar>> =
            self.attrs.iter().zip(&self.m).filter(|(a, _)| gamma.contains(a)).map(|(_, r)| r.clone()).collect();
        !rows.is_empty() && solve_span(&rows, &self.ones()).is_some()
    }
}
impl UserKey {
    pub fn dec(b: &[u8]) -> D<Self> {
        let mut r = Rd(b);
        let d = r.list(|r| r.g2())?;
        let msp = Msp::dec_from(&mut r)?;
        r.end()?;
        if d.len() != msp.attrs.len() {
            return Err(format!("{} elements for {} rows", d.len(), msp.attrs.len()));
        }
        Ok(UserKey { d, msp })
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = be(self.d.len()).to_vec();
        for d in &self.d {
            v.extend(d.to_compressed());
        }
        v.extend(self.msp.enc());
        v
    }
    /// reference key generation with sharing vector `u` (Σ u = y)
    pub fn generate(msp: &Msp, u: &[Scalar], t_of: &dyn Fn(u32) -> Scalar) -> Self {
        let d = msp
            .m
            .iter()
            .zip(&msp.attrs)
            .map(|(row, a)| {
                let share: Scalar = row.iter().zip(u).map(|(x, y)| x * y).sum();
                g2(&(share * inv(&t_of(*a))))
            })
            .collect();
        UserKey { d, msp: msp.clone() }
    }
    /// the same key laid out again over other rows
    pub fn decrypt(&self, ct: &RCt) -> Option<Gt> {
        let mut rows = vec![];
        let mut idx = vec![];
        for (i, a) in ct.gamma.iter().enumerate() {
            if let Some(r) = self.msp.row(*a) {
                rows.push(self.msp.m[r].clone());
                idx.push((i, r));
            }
        }
        if rows.is_empty() {
            return None;
        }
        let al = solve_span(&rows, &self.msp.ones())?;
        let mut acc = Gt::identity();
        for ((i, r), a) in idx.iter().zip(&al) {
            acc += pairing(&ct.e[*i], &self.d[*r]) * a;
        }
        Some(ct.ep - acc)
    }
    /// Is this key a correct sharing of g2^y? Needs the master secret.
    /// Returns the first inconsistency.
    pub fn check_sharing(&self, y: &Scalar, t_of: &dyn Fn(u32) -> Option<Scalar>) -> Result<(), String> {
        let mut s = vec![];
        for (d, a) in self.d.iter().zip(&self.msp.attrs) {
            let t = t_of(*a).ok_or_else(|| format!("attribute {a} outside the master key"))?;
            s.push(G2Projective::from(*d) * t);
        }
        for (al, c) in relations(&self.msp.m) {
            let mut lhs = G2Projective::identity();
            for (a, p) in al.iter().zip(&s) {
                if *a != Scalar::zero() {
                    lhs += p * a;
                }
            }
            if lhs != G2Projective::generator() * (c * y) {
                return Err(format!(
                    "shares are inconsistent with the span program (relation over rows {:?})",
                    al.iter().enumerate().filter(|(_, a)| **a != Scalar::zero()).map(|(i, _)| self.msp.attrs[i]).collect::<Vec<_>>()
                ));
            }
        }
        Ok(())
    }
}
impl RCt {
    pub fn dec_from(r: &mut Rd) -> D<Self> {
        let gamma = r.list(|r| r.u32())?;
        let e = r.list(|r| r.g1())?;
        let ep = r.gt()?;
        if gamma.len() != e.len() {
            return Err("attribute and element counts differ".into());
        }
        Ok(RCt { gamma, e, ep })
    }
    pub fn dec(b: &[u8]) -> D<Self> {
        let mut r = Rd(b);
        let c = Self::dec_from(&mut r)?;
        r.end()?;
        Ok(c)
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut v = be(self.gamma.len()).to_vec();
        for a in &self.gamma {
            v.extend(a.to_be_bytes());
        }
        v.extend(be(self.e.len()));
        for e in &self.e {
            v.extend(e.to_compressed());
        }
        v.extend(self.ep.to_compressed());
        v
    }
    pub fn encrypt(m: &Gt, gamma: &[u32], s: &Scalar, y: &Scalar, t_of: &dyn Fn(u32) -> Scalar) -> Self {
        RCt {
            gamma: gamma.to_vec(),
            e: gamma.iter().map(|a| g1(&(t_of(*a) * s))).collect(),
            ep: m + gt(&(y * s)),
        }
    }
    /// Does the ciphertext encrypt `m` for exactly `gamma` with one exponent?
    pub fn check(&self, m: &Gt, gamma: &[u32], p: &Priv) -> Result<G1Affine, String> {
        let (mut have, mut want) = (self.gamma.clone(), gamma.to_vec());
        have.sort_unstable();
        want.sort_unstable();
        if have != want {
            return Err(format!("attribute list {:?}, expected {:?}", self.gamma, gamma));
        }
        let mut gs: Option<G1Projective> = None;
        for (e, a) in self.e.iter().zip(&self.gamma) {
            let t = p.t.get(*a as usize).ok_or("attribute outside the master key")?;
            let v = G1Projective::from(*e) * inv(t);
            match gs {
                None => gs = Some(v),
                Some(g) if g == v => {}
                _ => return Err(format!("element of attribute {a} uses a different exponent")),
            }
        }
        let gs = G1Affine::from(gs.ok_or("no element")?);
        if pairing(&gs, &G2Affine::generator()) * p.y + m != self.ep {
            return Err("masked message does not match".into());
        }
        Ok(gs)
    }
}
