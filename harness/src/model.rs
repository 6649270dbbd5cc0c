//! Reference model of policies, access formulas and who may read what.
//! Nothing here calls the span-program code under test.
use std::collections::BTreeSet;

use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};

use crate::pbt::Src;

#[derive(Clone, Debug)]
pub struct Axis {
    pub name: String,
    pub attrs: Vec<String>,
    pub hier: bool,
}

/// A policy and the model of its attribute values.
#[derive(Clone)]
pub struct World {
    pub axes: Vec<Axis>,
    pub vals: Vec<Vec<Vec<u32>>>,
    pub max: u32,
    pub last: u32,
    pub policy: Policy,
}

pub type At = (usize, usize);

pub struct WorldOpts {
    pub max_axes: usize,
    pub max_attrs: usize,
    pub max_slack: u64,
    pub max_rotations: usize,
    /// names that survive JSON and boolean-expression parsing
    pub plain_names: bool,
}
impl Default for WorldOpts {
    fn default() -> Self {
        WorldOpts { max_axes: 4, max_attrs: 5, max_slack: 4, max_rotations: 4, plain_names: false }
    }
}

fn name(src: &mut Src, plain: bool, prefix: &str, i: usize) -> String {
    let k = src.below(if plain { 6 } else { 12 });
    match k {
        0 => format!("{prefix}{i}"),
        1 => format!("{prefix} {i}"),
        2 => format!("{prefix}-{i}.x"),
        3 => format!("{i}{prefix}"),
        4 => format!("R&D{prefix}{i}"),
        5 => format!("{prefix}_{}_{i}", "long".repeat(9)),
        6 => format!("{prefix}é{i}"),
        7 => format!("::{prefix}{i}"),
        8 => format!("{i}"), // shared between axes and attributes
        9 => format!("\"{prefix}\\{i}"),
        10 => format!(" {i} || {prefix}"),
        _ => format!("日本{i}"),
    }
}

/// A name close to an earlier one: longer, shorter, other case, reordered. Code
/// that compares names loosely confuses them.
fn related(src: &mut Src, plain: bool, old: &str) -> String {
    let chars: Vec<char> = old.chars().collect();
    match src.below(if plain { 5 } else { 9 }) {
        0 => format!("{old}x"),
        1 => format!("{old} 2"),
        2 => format!("x{old}"),
        3 => old.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        4 => {
            let cut: String = chars[..chars.len().div_ceil(2)].iter().collect();
            if plain { format!("{}z", cut.trim()) } else { cut }
        }
        5 => format!("{old} "),
        6 => format!(" {old}"),
        7 => chars.iter().rev().collect(),
        _ => format!("{old}{old}"),
    }
}

pub fn gen_world(src: &mut Src, o: &WorldOpts) -> World {
    let n_axes = src.size(1, o.max_axes);
    let mut axes: Vec<Axis> = vec![];
    for a in 0..n_axes {
        let hier = src.chance(1, 2);
        let n = src.size(1, o.max_attrs);
        let mut attrs: Vec<String> = vec![];
        for i in 0..n {
            let mut nm = if i > 0 && src.chance(1, 4) {
                let old: String = src.pick(&attrs).clone();
                related(src, o.plain_names, &old)
            } else {
                name(src, o.plain_names, "v", i)
            };
            while attrs.contains(&nm) || nm.is_empty() {
                nm = format!("v{i}#{}", nm.len());
            }
            attrs.push(nm);
        }
        let mut nm = if a > 0 && src.chance(1, 4) {
            let old = axes[src.idx(a)].name.clone();
            related(src, o.plain_names, &old)
        } else {
            name(src, o.plain_names, "X", a)
        };
        while axes.iter().any(|x| x.name == nm) || nm.is_empty() {
            nm = format!("X{a}#{}", nm.len());
        }
        axes.push(Axis { name: nm, attrs, hier });
    }
    let total: usize = axes.iter().map(|a| a.attrs.len()).sum();
    let rot = src.size(0, o.max_rotations);
    let max = total as u32 + rot as u32 + src.below(o.max_slack + 1) as u32;
    let mut w = World::new(axes, max);
    for _ in 0..rot {
        let at = w.any_attr(src);
        assert!(w.rotate(at));
    }
    w
}

impl World {
    pub fn new(axes: Vec<Axis>, max: u32) -> Self {
        let mut policy = Policy::new(max);
        let mut last = 0;
        let mut vals = vec![];
        for ax in &axes {
            let names: Vec<&str> = ax.attrs.iter().map(String::as_str).collect();
            policy.add_axis(&PolicyAxis::new(&ax.name, &names, ax.hier)).expect("model policy");
            vals.push(
                ax.attrs
                    .iter()
                    .map(|_| {
                        last += 1;
                        vec![last]
                    })
                    .collect(),
            );
        }
        World { axes, vals, max, last, policy }
    }
    pub fn describe(&self) -> String {
        let ax: Vec<String> = self
            .axes
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let v: Vec<String> =
                    a.attrs.iter().enumerate().map(|(j, n)| format!("{n:?}={:?}", self.vals[i][j])).collect();
                format!("{:?}{}[{}]", a.name, if a.hier { "^" } else { "" }, v.join(","))
            })
            .collect();
        format!("policy(max={}) {}", self.max, ax.join(" "))
    }
    pub fn attrs(&self) -> Vec<At> {
        let mut v = vec![];
        for (a, ax) in self.axes.iter().enumerate() {
            for i in 0..ax.attrs.len() {
                v.push((a, i));
            }
        }
        v
    }
    pub fn any_attr(&self, src: &mut Src) -> At {
        let v = self.attrs();
        *src.pick(&v)
    }
    pub fn rotate(&mut self, at: At) -> bool {
        let r = self.policy.rotate(&self.attribute(at));
        if self.last == self.max {
            assert!(r.is_err());
            return false;
        }
        r.expect("model rotation");
        self.last += 1;
        self.vals[at.0][at.1].push(self.last);
        true
    }
    pub fn attribute(&self, at: At) -> Attribute {
        Attribute::new(&self.axes[at.0].name, &self.axes[at.0].attrs[at.1])
    }
    pub fn attributes(&self, ats: &[At]) -> Vec<Attribute> {
        ats.iter().map(|a| self.attribute(*a)).collect()
    }
    pub fn current(&self, at: At) -> u32 {
        *self.vals[at.0][at.1].iter().max().unwrap()
    }
    pub fn gamma(&self, ats: &[At]) -> BTreeSet<u32> {
        ats.iter().map(|a| self.current(*a)).collect()
    }
    /// All attribute values a key for this attribute covers, today.
    pub fn covers(&self, at: At) -> Vec<u32> {
        let lo = if self.axes[at.0].hier { 0 } else { at.1 };
        (lo..=at.1).flat_map(|i| self.vals[at.0][i].iter().copied()).collect()
    }
    pub fn all_values(&self) -> Vec<u32> {
        self.vals.iter().flatten().flatten().copied().collect()
    }
    pub fn at_name(&self, at: At) -> String {
        format!("{}::{}", self.axes[at.0].name, self.axes[at.0].attrs[at.1])
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    A(At),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
}

/// Access structure in terms of attribute values (a snapshot of the policy).
#[derive(Clone, Debug)]
pub enum T {
    Leaf(BTreeSet<u32>),
    And(Box<T>, Box<T>),
    Or(Box<T>, Box<T>),
}
impl T {
    pub fn eval(&self, gamma: &BTreeSet<u32>) -> bool {
        match self {
            T::Leaf(s) => s.intersection(gamma).next().is_some(),
            T::And(a, b) => a.eval(gamma) & b.eval(gamma),
            T::Or(a, b) => a.eval(gamma) | b.eval(gamma),
        }
    }
    pub fn has_and(&self) -> bool {
        match self {
            T::Leaf(_) => false,
            T::And(..) => true,
            T::Or(a, b) => a.has_and() || b.has_and(),
        }
    }
    pub fn values(&self, out: &mut Vec<u32>) {
        match self {
            T::Leaf(s) => out.extend(s),
            T::And(a, b) | T::Or(a, b) => {
                a.values(out);
                b.values(out)
            }
        }
    }
    pub fn all_values(&self) -> Vec<u32> {
        let mut v = vec![];
        self.values(&mut v);
        v
    }
}

impl F {
    pub fn ap(&self, w: &World) -> AccessPolicy {
        match self {
            F::A(at) => AccessPolicy::Attr(w.attribute(*at)),
            F::And(a, b) => AccessPolicy::And(Box::new(a.ap(w)), Box::new(b.ap(w))),
            F::Or(a, b) => AccessPolicy::Or(Box::new(a.ap(w)), Box::new(b.ap(w))),
        }
    }
    pub fn snapshot(&self, w: &World) -> T {
        match self {
            F::A(at) => T::Leaf(w.covers(*at).into_iter().collect()),
            F::And(a, b) => T::And(Box::new(a.snapshot(w)), Box::new(b.snapshot(w))),
            F::Or(a, b) => T::Or(Box::new(a.snapshot(w)), Box::new(b.snapshot(w))),
        }
    }
    pub fn leaves(&self, out: &mut Vec<At>) {
        match self {
            F::A(a) => out.push(*a),
            F::And(a, b) | F::Or(a, b) => {
                a.leaves(out);
                b.leaves(out)
            }
        }
    }
    pub fn n_leaves(&self) -> usize {
        let mut v = vec![];
        self.leaves(&mut v);
        v.len()
    }
    pub fn describe(&self, w: &World) -> String {
        match self {
            F::A(a) => w.at_name(*a),
            F::And(a, b) => format!("({} && {})", a.describe(w), b.describe(w)),
            F::Or(a, b) => format!("({} || {})", a.describe(w), b.describe(w)),
        }
    }
    /// the boolean-expression syntax of abe_policy (plain names only)
    pub fn expr(&self, w: &World) -> String {
        match self {
            F::A(a) => w.at_name(*a),
            F::And(a, b) => format!("({}) && ({})", a.expr(w), b.expr(w)),
            F::Or(a, b) => format!("({}) || ({})", a.expr(w), b.expr(w)),
        }
    }
}

/// Combine items into a random binary tree (random split points: covers
/// left chains, right chains and balanced shapes).
pub fn gen_tree(src: &mut Src, leaves: &[At]) -> F {
    if leaves.len() == 1 {
        return F::A(leaves[0]);
    }
    let shape = src.below(4);
    let cut = match shape {
        0 => 1,
        1 => leaves.len() - 1,
        _ => 1 + src.idx(leaves.len() - 1),
    };
    let and = src.chance(1, 2);
    let a = Box::new(gen_tree(src, &leaves[..cut]));
    let b = Box::new(gen_tree(src, &leaves[cut..]));
    if and {
        F::And(a, b)
    } else {
        F::Or(a, b)
    }
}

/// A formula without repeated leaves: any attributes of flat axes, at most one
/// attribute of each hierarchical axis.
pub fn gen_formula(src: &mut Src, w: &World, max_leaves: usize) -> F {
    let mut pool: Vec<At> = vec![];
    let mut used_hier = BTreeSet::new();
    let all = w.attrs();
    for i in src.perm(all.len()) {
        let at = all[i];
        if w.axes[at.0].hier && !used_hier.insert(at.0) {
            continue;
        }
        pool.push(at);
    }
    let n = src.size(1, pool.len().min(max_leaves));
    gen_tree(src, &pool[..n])
}

/// A minimal-ish satisfying attribute list for `f` given the current values,
/// when there is one (`t` is the snapshot the key was issued with).
pub fn satisfying(src: &mut Src, f: &F, w: &World, t: &T) -> Option<Vec<At>> {
    match (f, t) {
        (F::A(_), T::Leaf(s)) => {
            let c: Vec<At> = w.attrs().into_iter().filter(|a| s.contains(&w.current(*a))).collect();
            if c.is_empty() {
                None
            } else {
                Some(vec![*src.pick(&c)])
            }
        }
        (F::And(a, b), T::And(x, y)) => {
            let mut l = satisfying(src, a, w, x)?;
            l.extend(satisfying(src, b, w, y)?);
            Some(l)
        }
        (F::Or(a, b), T::Or(x, y)) => {
            if src.chance(1, 2) {
                satisfying(src, b, w, y).or_else(|| satisfying(src, a, w, x))
            } else {
                satisfying(src, a, w, x).or_else(|| satisfying(src, b, w, y))
            }
        }
        _ => None,
    }
}

/// Attribute list for a ciphertext, aimed at the boundary of `f`.
pub fn gen_attrs(src: &mut Src, w: &World, f: &F, t: &T, max_len: usize) -> Vec<At> {
    let all = w.attrs();
    let mut v = match src.below(6) {
        0 => vec![*src.pick(&all)],
        1 => all.iter().copied().filter(|_| src.chance(1, 2)).collect(),
        k => {
            let mut s = satisfying(src, f, w, t).unwrap_or_default();
            if k >= 4 && s.len() > 1 {
                let i = src.idx(s.len());
                s.remove(i);
            }
            if k == 3 || k == 5 {
                for _ in 0..src.size(1, 3) {
                    s.push(*src.pick(&all));
                }
            }
            s
        }
    };
    if v.is_empty() {
        v.push(*src.pick(&all));
    }
    if src.chance(1, 8) {
        let d = *src.pick(&v);
        v.push(d);
    }
    let p = src.perm(v.len());
    let mut v: Vec<At> = p.into_iter().map(|i| v[i]).collect();
    v.truncate(max_len.max(1));
    v
}
