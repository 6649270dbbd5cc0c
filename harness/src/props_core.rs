//! C01 C02 C03 C04 C05 C06 C07 C10 C11 C27: what keys can open.
use std::collections::BTreeSet;

use abe_policy::{AccessPolicy, Attribute, Policy};
use cosmian_abe_gpsw::core::msp::{policy_to_msp, MonotoneSpanProgram, Node};
use cosmian_bls12_381::Scalar;

use crate::{
    api::*,
    ensure, fail,
    model::*,
    pbt::*,
    refimpl::{gen_scalar, sc, sci, solve_span},
};

macro_rules! both {
    ($v:ident, $prop:expr, $id:literal, $name:literal, $rule:expr, $f:ident, $q:expr, $t:expr, $toyname:literal, $tq:expr, $tt:expr) => {
        if $prop == $id {
            $v.push(Sub { name: $name, rule: $rule, quick: $q, thorough: $t, run: $f::<Real> });
            #[cfg(feature = "toy")]
            $v.push(Sub { name: $toyname, rule: "the same over a transparent group (elements are their exponents), larger worlds", quick: $tq, thorough: $tt, run: $f::<crate::toy::Fake> });
        }
    };
}
macro_rules! one {
    ($v:ident, $prop:expr, $id:literal, $name:literal, $rule:expr, $f:expr, $q:expr, $t:expr) => {
        if $prop == $id {
            $v.push(Sub { name: $name, rule: $rule, quick: $q, thorough: $t, run: $f });
        }
    };
}

pub fn subs(p: &str) -> Vec<Sub> {
    let mut v = vec![];
    both!(v, p, "C01", "access", "random policy (1-4 axes, 0-4 rotations), random read-once formula or the whole-policy key, ciphertexts whose attribute lists sit at the boundary of the formula (satisfying, one short, plus strangers, duplicates). Non-trivial: the same key gave both an opened and a refused ciphertext.",
        access, 700, 14000, "access-transparent", 40000, 2000000);
    both!(v, p, "C01", "wide", "policies with axes of up to some hundred attributes, keys and ciphertexts spanning many of them. Non-trivial: more than 40 attribute values.",
        wide, 16, 200, "wide-transparent", 600, 20000);
    both!(v, p, "C01", "siblings", "one engine, two authorities with the same policy, 2-6 keys whose formulas are different trees over the same attributes (reordered, regrouped, AND and OR exchanged), 2-5 ciphertexts made in between; every key then tries every ciphertext of its authority in a random order. Non-trivial: two formulas over the same attributes differed on a ciphertext.",
        siblings, 200, 4000, "siblings-transparent", 5000, 250000);
    one!(v, p, "C02", "formula", "random AND/OR tree over distinct random 32-bit leaves (chains, balanced, mixed; up to 7 leaves with every subset, up to 140 with sampled minimal/maximal subsets). The span program is checked with an independent linear solver and with the crate's own. Non-trivial: the tree has both an AND and an OR.",
        formula, 6000, 200000);
    one!(v, p, "C02", "policy", "span program of a random policy access formula (rotations, hierarchical axes, whole policy): leaves are exactly the values it covers, and sampled value sets are spanned exactly when the formula is true. Non-trivial: an AND and a multi-valued leaf.",
        policy_msp, 3000, 100000);
    one!(v, p, "C02", "solver", "random matrices of field elements (0-9 rows and columns, forced rank deficits, zero rows/columns, duplicates, target inside or outside the span) for the coefficient solver, against an independent solver. Non-trivial: rank deficient or non-square.",
        solver, 20000, 1000000);
    both!(v, p, "C03", "levels", "every position i of a random axis against every position j: alone, AND-ed with another axis, OR-ed; with rotations before and after the key is issued. Non-trivial: hierarchical axis of at least 3 levels, or a flat axis of at least 2.",
        levels, 700, 14000, "levels-transparent", 20000, 300000);
    both!(v, p, "C04", "history", "random histories of rotate / issue (formula or whole policy) / encrypt / policy JSON reload / key and ciphertext reload; after every step each new object is tried against all older ones, judged by the values covered when the key was issued. Non-trivial: a key met ciphertexts from before and after a rotation of an attribute it covers, with both outcomes.",
        history, 400, 7000, "history-transparent", 20000, 300000);
    both!(v, p, "C04", "many_rotations", "one or two attributes rotated up to hundreds of times, keys (formula or whole policy) and ciphertexts made at random moments in between; every key on every ciphertext. Non-trivial: more than 20 rotations and both outcomes.",
        many_rotations, 24, 400, "many_rotations-transparent", 600, 10000);
    both!(v, p, "C05", "narrow", "random key, then a chain of 1-4 derivations (OR replaced by a child at any depth, lower hierarchical level, same policy, the same in another order, re-randomisation); every derived key is tried on boundary ciphertexts. Non-trivial: at least one narrowing happened and the derived key both opened and refused.",
        narrow, 260, 6000, "narrow-transparent", 20000, 1000000);
    both!(v, p, "C05", "or_to_and", "as narrow, the last step replacing one or more OR nodes by AND. Non-trivial: a ciphertext satisfied the derived policy.",
        or_to_and, 60, 1500, "or_to_and-transparent", 3000, 100000);
    both!(v, p, "C06", "widen", "random parent key and random requested policies (AND turned into OR, dropped conjuncts, higher levels, other attributes, rotated values, arbitrary formulas), chained; ciphertexts the parent cannot open. Non-trivial: the request succeeded and the derived key was tried on a ciphertext satisfying the request but not the parent.",
        widen, 600, 12000, "widen-transparent", 50000, 1000000);
    both!(v, p, "C07", "collusion", "a target formula, a ciphertext satisfying it, and 2-3 users each lacking part of it; their key components are spliced under the target's span program, concatenated, rescaled and recombined with small coefficients, also after delegation. Non-trivial: every user alone is refused while the union of their attributes satisfies the target.",
        collusion, 200, 5000, "collusion-transparent", 5000, 400000);
    one!(v, p, "C07", "foreign", "keys of one authority on ciphertexts of another with the same policy. Non-trivial: the formula is satisfied.",
        foreign, 300, 6000);
    both!(v, p, "C10", "boundary", "policies whose every attribute creation is used by axes and rotations (or all but one or two); the last and the first attribute go through key generation, encryption, decryption, delegation and re-randomisation. Non-trivial: the highest allowed attribute value was used.",
        boundary, 240, 5000, "boundary-transparent", 10000, 200000);
    #[cfg(feature = "toy")]
    one!(v, p, "C10", "huge", "policies that allow 1023 to 70 000 values (around the powers of two), of which a handful are left or the very last is in use, over the transparent group; the same operations. Non-trivial: more than 4096 values.",
        huge, 64, 1000);
    both!(v, p, "C11", "refusals", "valid formula or attribute list spoiled at a random place (unknown axis, unknown attribute, swapped names, repeated leaf, overlapping hierarchical levels, nested whole-policy marker) or used with keys of too small a capacity; then valid requests again. Non-trivial: the spoiled part sits below the top level or the mismatch is in the keys.",
        refusals, 700, 14000, "refusals-transparent", 20000, 800000);
    one!(v, p, "C27", "grammar", "random tree rendered with random redundant parentheses and spacing, parsed and compared node by node with the tree and with a reference parser. Non-trivial: at least 3 leaves and a redundant parenthesis.",
        grammar, 20000, 600000);
    one!(v, p, "C27", "strings", "random strings over the grammar's alphabet (and a few foreign characters), and valid formulas with a few edits: accepted exactly when the reference parser accepts, same tree, no panic. Non-trivial: at least 4 characters of the alphabet.",
        strings, 60000, 3000000);
    v
}

// ------------------------------------------------------------------ C01

fn opts<A: Sch>(src: &mut Src) -> WorldOpts
where
    Pt<A>: PartialEq,
{
    if A::REAL {
        WorldOpts::default()
    } else {
        match src.below(8) {
            7 => WorldOpts { max_axes: 6, max_attrs: 12, max_slack: 3, max_rotations: 10, plain_names: false },
            _ => WorldOpts::default(),
        }
    }
}

fn verdict<A: Sch>(ctx: &mut Ctx, what: &str, ct: &Ct<A>, key: &Uk<A>, msg: &Pt<A>, ok: bool) -> R
where
    Pt<A>: PartialEq,
{
    let g = decrypt::<A>(ct, key)?;
    if ok {
        ensure!(ctx, g.is(msg), "{what}: the policy is satisfied but decryption gave {}", g.word(msg));
    } else {
        ensure!(ctx, g.refused(), "{what}: the policy is not satisfied but decryption gave {}", g.word(msg));
    }
    Ok(())
}

pub fn names(w: &World, l: &[At]) -> String {
    l.iter().map(|a| w.at_name(*a)).collect::<Vec<_>>().join(",")
}

fn access<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let o = opts::<A>(src);
    let w = gen_world(src, &o);
    ctx.say(w.describe());
    let m = master::<A>(w.max)?;
    let whole = src.chance(1, 10);
    let f = gen_formula(src, &w, if A::REAL { 8 } else { 14 });
    let t = if whole { T::Leaf(w.all_values().into_iter().collect()) } else { f.snapshot(&w) };
    let key = if whole {
        ctx.say("key ALL");
        ctx.label("whole-policy key");
        keygen::<A>(&w.policy, &m, &AccessPolicy::All)?
    } else {
        ctx.say(format!("key {}", f.describe(&w)));
        keygen::<A>(&w.policy, &m, &f.ap(&w))?
    };
    let (mut yes, mut no) = (false, false);
    for _ in 0..4 {
        let l = gen_attrs(src, &w, &f, &f.snapshot(&w), 40);
        let msg = gen_msg::<A>(src)?;
        let ok = t.eval(&w.gamma(&l));
        ctx.say(format!("[{}]->{}", names(&w, &l), if ok { "open" } else { "refuse" }));
        // the published API accepts at most as many attributes as the key has
        // values; shorter lists are always possible
        if l.len() > w.max as usize {
            continue;
        }
        let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
        verdict::<A>(ctx, "key on ciphertext", &ct, &key, &msg, ok)?;
        // the same attributes as they were at some point of the past
        if w.last > w.attrs().len() as u32 && src.chance(1, 3) {
            let old: Vec<u32> = l.iter().map(|a| *src.pick(&w.vals[a.0][a.1])).collect();
            let ok = t.eval(&old.iter().copied().collect());
            let ct = encrypt_values::<A>(&m, &old, &msg)?;
            verdict::<A>(ctx, &format!("key on an older ciphertext for the values {old:?}"), &ct, &key, &msg, ok)?;
            ctx.label("older values");
        }
        yes |= ok;
        no |= !ok;
        ctx.label(if ok { "opened" } else { "refused" });
    }
    ctx.label_if(t.has_and(), "conjunction");
    ctx.label_if(w.last > w.attrs().len() as u32, "rotated");
    ctx.nontrivial_if(yes && no);
    Ok(())
}
fn siblings<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let o = opts::<A>(src);
    let w = gen_world(src, &o);
    ctx.say(w.describe());
    let masters = [master_n::<A>(w.max, 0)?, master_n::<A>(w.max, 1)?];
    let engine = abe_engine::<A>();
    let mut leaves = vec![];
    gen_formula(src, &w, 6).leaves(&mut leaves);
    let n = src.size(2, 6);
    let (mut keys, mut cts) = (vec![], vec![]);
    for i in 0..n + src.size(2, 5) {
        let a = src.chance(1, 4) as usize;
        let m = &masters[a];
        let p = src.perm(leaves.len());
        let order: Vec<At> = p.into_iter().map(|i| leaves[i]).collect();
        let k = if src.chance(1, 4) { src.size(1, leaves.len()) } else { leaves.len() };
        let f = gen_tree(src, &order[..k]);
        if i < n {
            ctx.say(format!("authority {a} key {}", f.describe(&w)));
            let key = no_panic("generate_user_key", || engine.generate_user_key(&w.policy, &m.sk, &f.ap(&w)))?
                .map_err(|e| Fail::from(format!("generate_user_key failed: {e}")))?;
            keys.push((a, f.snapshot(&w), key));
        } else {
            let l = gen_attrs(src, &w, &f, &f.snapshot(&w), w.max as usize);
            let msg = gen_msg::<A>(src)?;
            ctx.say(format!("authority {a} ciphertext [{}]", names(&w, &l)));
            let ct = no_panic("encrypt", || engine.encrypt(&w.policy, &m.pk, &w.attributes(&l), &msg))?
                .map_err(|e| Fail::from(format!("encrypt failed: {e}")))?;
            cts.push((a, w.gamma(&l), ct, msg));
        }
    }
    let mut pairs: Vec<(usize, usize)> = (0..keys.len()).flat_map(|k| (0..cts.len()).map(move |c| (k, c))).filter(|(k, c)| keys[*k].0 == cts[*c].0).collect();
    let p = src.perm(pairs.len());
    pairs = p.into_iter().map(|i| pairs[i]).collect();
    let mut seen = vec![(false, false); cts.len()];
    for (k, c) in pairs {
        let ((_, t, key), (_, g, ct, msg)) = (&keys[k], &cts[c]);
        let ok = t.eval(g);
        let got = match no_panic("decrypt", || engine.decrypt(ct, key))? {
            Ok(Some(p)) => Got::Plain(p),
            Ok(None) | Err(_) => Got::Refused,
        };
        ensure!(ctx, if ok { got.is(msg) } else { got.refused() }, "key {k} on ciphertext {c}: the policy is {}satisfied but decryption gave {}", if ok { "" } else { "not " }, got.word(msg));
        if ok { seen[c].0 = true } else { seen[c].1 = true }
    }
    ctx.nontrivial_if(leaves.len() > 1 && seen.contains(&(true, true)));
    Ok(())
}
fn wide<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let n_axes = src.size(1, 3);
    let top = if A::REAL { 110 } else { 300 };
    let mut axes = vec![];
    for a in 0..n_axes {
        let n = src.size(1, top);
        axes.push(Axis { name: format!("X{a}"), attrs: (0..n).map(|i| format!("v{i}")).collect(), hier: src.chance(1, 2) });
    }
    let total: u32 = axes.iter().map(|a| a.attrs.len() as u32).sum();
    let rot = src.size(0, 4);
    // master keys are cached by size: round up so that few sizes occur
    let max = (total + rot as u32).next_multiple_of(if A::REAL { 60 } else { 1 });
    let mut w = World::new(axes, max);
    for _ in 0..rot {
        let at = w.any_attr(src);
        w.rotate(at);
    }
    ctx.say(format!("sizes {:?} hier {:?} max {max}", w.axes.iter().map(|a| a.attrs.len()).collect::<Vec<_>>(), w.axes.iter().map(|a| a.hier).collect::<Vec<_>>()));
    let m = master::<A>(max)?;
    let f = if src.chance(1, 4) {
        let at = w.any_attr(src);
        F::A((at.0, w.axes[at.0].attrs.len() - 1))
    } else {
        let top = if !A::REAL && src.chance(1, 4) { 100 } else { 24 };
        gen_formula(src, &w, top)
    };
    let t = f.snapshot(&w);
    ctx.say(format!("key {}", f.describe(&w)));
    let key = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
    let all = w.attrs();
    for _ in 0..3 {
        let l = if src.chance(1, 3) {
            let keep = src.range(1, 4);
            all.iter().copied().filter(|_| src.below(4) < keep).take(80).collect::<Vec<_>>()
        } else {
            gen_attrs(src, &w, &f, &t, 80)
        };
        if l.is_empty() || l.len() > max as usize {
            continue;
        }
        let msg = gen_msg::<A>(src)?;
        let ok = t.eval(&w.gamma(&l));
        ctx.say(format!("{} attributes -> {ok}", l.len()));
        let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
        verdict::<A>(ctx, "key on ciphertext", &ct, &key, &msg, ok)?;
        ctx.label(if ok { "opened" } else { "refused" });
        ctx.label_if(l.len() > 30, "more than 30 ciphertext attributes");
    }
    ctx.label_if(t.all_values().len() > 100, "more than 100 key rows");
    ctx.label_if(f.n_leaves() > 40, "more than 40 leaves");
    ctx.label_if(w.last > 255, "values above 255");
    ctx.nontrivial_if(w.last > 40);
    Ok(())
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Debug, PartialEq)]
enum B {
    L(u32),
    And(Box<B>, Box<B>),
    Or(Box<B>, Box<B>),
}
impl B {
    fn node(&self) -> Node {
        match self {
            B::L(v) => Node::Leaf(*v),
            B::And(a, b) => Node::And(Box::new(a.node()), Box::new(b.node())),
            B::Or(a, b) => Node::Or(Box::new(a.node()), Box::new(b.node())),
        }
    }
    fn eval(&self, s: &dyn Fn(u32) -> bool) -> bool {
        match self {
            B::L(v) => s(*v),
            B::And(a, b) => a.eval(s) & b.eval(s),
            B::Or(a, b) => a.eval(s) | b.eval(s),
        }
    }
    fn ops(&self) -> (usize, usize) {
        match self {
            B::L(_) => (0, 0),
            B::And(a, b) | B::Or(a, b) => {
                let (x, y) = (a.ops(), b.ops());
                let and = matches!(self, B::And(..)) as usize;
                (x.0 + y.0 + and, x.1 + y.1 + 1 - and)
            }
        }
    }
    fn show(&self) -> String {
        match self {
            B::L(v) => v.to_string(),
            B::And(a, b) => format!("({}&{})", a.show(), b.show()),
            B::Or(a, b) => format!("({}|{})", a.show(), b.show()),
        }
    }
    /// a random minimal satisfying set
    fn minimal(&self, src: &mut Src, out: &mut BTreeSet<u32>) {
        match self {
            B::L(v) => {
                out.insert(*v);
            }
            B::And(a, b) => {
                a.minimal(src, out);
                b.minimal(src, out)
            }
            B::Or(a, b) => {
                if src.chance(1, 2) {
                    b.minimal(src, out)
                } else {
                    a.minimal(src, out)
                }
            }
        }
    }
    /// a random minimal set whose removal falsifies it
    fn cut(&self, src: &mut Src, out: &mut BTreeSet<u32>) {
        match self {
            B::L(v) => {
                out.insert(*v);
            }
            B::Or(a, b) => {
                a.cut(src, out);
                b.cut(src, out)
            }
            B::And(a, b) => {
                if src.chance(1, 2) {
                    b.cut(src, out)
                } else {
                    a.cut(src, out)
                }
            }
        }
    }
}

fn gen_b(src: &mut Src, leaves: &[u32], bias: u64) -> B {
    if leaves.len() == 1 {
        return B::L(leaves[0]);
    }
    let cut = match src.below(5) {
        0 => 1,
        1 => leaves.len() - 1,
        2 => leaves.len() / 2,
        _ => 1 + src.idx(leaves.len() - 1),
    };
    let and = src.chance(bias, 6);
    let a = Box::new(gen_b(src, &leaves[..cut], bias));
    let b = Box::new(gen_b(src, &leaves[cut..], bias));
    if and {
        B::And(a, b)
    } else {
        B::Or(a, b)
    }
}

fn gen_leaves(src: &mut Src, n: usize) -> Vec<u32> {
    let mut s = BTreeSet::new();
    let big = src.chance(1, 4);
    while s.len() < n {
        let v = if big {
            match src.below(4) {
                0 => u32::MAX - src.below(80) as u32,
                1 => (1u32 << src.range(7, 31)) - 1 + src.below(3) as u32,
                _ => src.below(1 << 32) as u32,
            }
        } else {
            src.below(3 * n as u64 + 2) as u32
        };
        if !s.insert(v) {
            // deterministic progress when shrinking towards 0
            let mut k = v;
            while !s.insert(k) {
                k = k.wrapping_add(1);
            }
        }
    }
    let v: Vec<u32> = s.into_iter().collect();
    src.perm(n).into_iter().map(|i| v[i]).collect()
}

type G = Real;
fn coefs(rows: &[Vec<Scalar>]) -> Result<Result<Option<Vec<Scalar>>, String>, Fail> {
    let mut m: Vec<Vec<_>> = vec![];
    for r in rows {
        let mut o = vec![];
        for c in r {
            o.push(to_scalar(c)?);
        }
        m.push(o);
    }
    Ok(no_panic("span_coefs", || G::span_coefs(&mut m))?
        .map(|o| o.map(|v| v.into_iter().map(|s| *s).collect()))
        .map_err(|e| e.to_string()))
}
type RS = cosmian_abe_gpsw::core::bilinear_map::bls12_381::Scalar;
pub fn to_scalar(c: &Scalar) -> Result<RS, Fail> {
    de::<RS>("scalar", &c.to_bytes())
}

/// rows of the leaves in `s`, judged by both solvers
fn judge(ctx: &mut Ctx, rows: &[Vec<Scalar>], truth: bool, what: &str) -> R {
    if rows.is_empty() {
        ensure!(ctx, !truth, "{what}: empty set satisfies a monotone formula");
        return Ok(());
    }
    let cols = rows[0].len();
    let ones = vec![Scalar::one(); cols];
    let want = solve_span(rows, &ones).is_some();
    ensure!(ctx, want == truth, "{what}: formula is {truth} but the target is {}in the span of its rows", if want { "" } else { "not " });
    match coefs(rows)? {
        Err(e) => fail!("{what}: span_coefs failed: {e}"),
        Ok(None) => ensure!(ctx, !truth, "{what}: span_coefs finds no coefficients although there are some"),
        Ok(Some(c)) => {
            ensure!(ctx, truth, "{what}: span_coefs returned coefficients although there are none");
            ensure!(ctx, c.len() == rows.len(), "{what}: {} coefficients for {} rows", c.len(), rows.len());
            for j in 0..cols {
                let s: Scalar = rows.iter().zip(&c).map(|(r, c)| r[j] * c).sum();
                ensure!(ctx, s == Scalar::one(), "{what}: coefficients do not combine to the target in column {j}");
            }
        }
    }
    Ok(())
}

fn msp_rows(ctx: &mut Ctx, m: &MonotoneSpanProgram<i32>, leaves: &BTreeSet<u32>) -> Result<std::collections::BTreeMap<u32, Vec<Scalar>>, Fail> {
    ctx.checks += 1;
    if m.rows() != leaves.len() || m.matrix().len() != leaves.len() {
        return Err(format!("{} rows for {} leaves", m.rows(), leaves.len()).into());
    }
    let mut out = std::collections::BTreeMap::new();
    for i in 0..m.rows() {
        let a = m.get_attr_from_row(i);
        if m.get_row_from_attr(a) != Some(i) {
            return Err(format!("row {i} is labelled {a}, but {a} maps to row {:?}", m.get_row_from_attr(a)).into());
        }
        if m.get_row(i).len() != m.cols() || m.get_row(i) != &m.matrix()[i] {
            return Err(format!("row {i} has {} entries, {} columns declared", m.get_row(i).len(), m.cols()).into());
        }
        out.insert(a, m.get_row(i).iter().map(|v| sci(*v)).collect());
    }
    if out.keys().copied().collect::<BTreeSet<_>>() != *leaves {
        return Err(format!("rows are labelled {:?}, leaves are {leaves:?}", out.keys().collect::<Vec<_>>()).into());
    }
    // labels that are not leaves map to nothing
    for v in [0u32, 1, u32::MAX] {
        if !leaves.contains(&v) && m.get_row_from_attr(v).is_some() {
            return Err(format!("{v} is not a leaf but maps to a row").into());
        }
    }
    Ok(out)
}

fn formula(src: &mut Src, ctx: &mut Ctx) -> R {
    let small = src.chance(4, 5);
    let n = if small { src.size(1, 7) } else if src.chance(1, 12) { src.size(60, 140) } else { src.size(8, 60) };
    let leaves = gen_leaves(src, n);
    let bias = src.range(1, 5);
    let b = gen_b(src, &leaves, bias);
    ctx.say(b.show());
    let node = b.node();
    let m = no_panic("to_msp", || node.to_msp())?.map_err(|e| Fail::from(format!("to_msp failed: {e}")))?;
    let set: BTreeSet<u32> = leaves.iter().copied().collect();
    let rows = msp_rows(ctx, &m, &set)?;
    // the conversion used for keys keeps the matrix
    let pm = MonotoneSpanProgram::<RS>::from(&m);
    for (i, r) in pm.matrix().iter().enumerate() {
        for (j, x) in r.iter().enumerate() {
            ensure!(ctx, **x == sci(m.matrix()[i][j]), "entry {i},{j} changes when converted to the field");
        }
    }
    let check = |ctx: &mut Ctx, s: &BTreeSet<u32>| -> R {
        let truth = b.eval(&|v| s.contains(&v));
        let r: Vec<Vec<Scalar>> = s.iter().map(|v| rows[v].clone()).collect();
        judge(ctx, &r, truth, &format!("subset {s:?}"))
    };
    if small {
        for mask in 0..(1u32 << n) {
            let s: BTreeSet<u32> = leaves.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, v)| *v).collect();
            check(ctx, &s)?;
        }
        ctx.label("all subsets");
    } else {
        for _ in 0..3 {
            let mut s = BTreeSet::new();
            b.minimal(src, &mut s);
            check(ctx, &s)?;
            let v: Vec<u32> = s.iter().copied().collect();
            s.remove(src.pick(&v));
            check(ctx, &s)?;
            let mut c = BTreeSet::new();
            b.cut(src, &mut c);
            let mut s: BTreeSet<u32> = set.difference(&c).copied().collect();
            check(ctx, &s)?;
            let v: Vec<u32> = c.into_iter().collect();
            s.insert(*src.pick(&v));
            check(ctx, &s)?;
        }
        check(ctx, &set)?;
        ctx.label("sampled subsets of a large formula");
    }
    // a repeated leaf is refused
    if n > 1 && src.chance(1, 4) {
        let mut l = leaves.clone();
        let i = src.idx(n - 1);
        l[i] = l[n - 1];
        let d = gen_b(src, &l, bias).node();
        ensure!(ctx, no_panic("to_msp", || d.to_msp())?.is_err(), "repeated leaf {} accepted", l[i]);
    }
    let o = b.ops();
    ctx.nontrivial_if(o.0 > 0 && o.1 > 0);
    Ok(())
}

fn policy_msp(src: &mut Src, ctx: &mut Ctx) -> R {
    let w = gen_world(src, &WorldOpts { max_axes: 4, max_attrs: 6, max_slack: 3, max_rotations: 6, plain_names: false });
    let whole = src.chance(1, 12);
    let f = gen_formula(src, &w, 10);
    let (ap, t) = if whole {
        (AccessPolicy::All, T::Leaf(w.all_values().into_iter().collect()))
    } else {
        (f.ap(&w), f.snapshot(&w))
    };
    ctx.say(format!("{}; {}", w.describe(), if whole { "ALL".into() } else { f.describe(&w) }));
    let m = no_panic("policy_to_msp", || policy_to_msp(&w.policy, &ap))?.map_err(|e| Fail::from(format!("policy_to_msp failed: {e}")))?;
    let vals: Vec<u32> = t.all_values();
    let set: BTreeSet<u32> = vals.iter().copied().collect();
    ensure!(ctx, set.len() == vals.len(), "model repeats a leaf");
    let rows = msp_rows(ctx, &m, &set)?;
    for _ in 0..6 {
        let k = src.range(1, 5);
        let s: BTreeSet<u32> = set.iter().copied().filter(|_| src.below(6) < k).collect();
        let r: Vec<Vec<Scalar>> = s.iter().map(|v| rows[v].clone()).collect();
        judge(ctx, &r, t.eval(&s), &format!("values {s:?}"))?;
    }
    ctx.nontrivial_if(t.has_and() && !whole && vals.len() > f.n_leaves());
    Ok(())
}

fn solver(src: &mut Src, ctx: &mut Ctx) -> R {
    let (n, m) = if src.chance(1, 12) { (src.size(1, 24), src.size(1, 24)) } else { (src.size(0, 9), src.size(0, 7)) };
    let small = src.chance(1, 2);
    let mut rows: Vec<Vec<Scalar>> = vec![];
    for i in 0..n {
        let kind = src.below(8);
        let r: Vec<Scalar> = match kind {
            0 if i > 0 => rows[src.idx(i)].clone(),
            1 if i > 0 => {
                let (a, b) = (src.idx(i), src.idx(i));
                let (x, y) = (gen_scalar(src), gen_scalar(src));
                (0..m).map(|j| rows[a][j] * x + rows[b][j] * y).collect()
            }
            2 => vec![Scalar::zero(); m],
            3 => {
                // unit-ish row
                let k = src.idx(m.max(1));
                (0..m).map(|j| if j == k { Scalar::one() } else { Scalar::zero() }).collect()
            }
            4 if i > 0 && m > 0 => {
                // complement to the target of an earlier row
                let a = src.idx(i);
                (0..m).map(|j| Scalar::one() - rows[a][j]).collect()
            }
            _ => (0..m)
                .map(|_| if small { sci(src.below(5) as i32 - 2) } else { gen_scalar(src) })
                .collect(),
        };
        rows.push(r);
    }
    ctx.say(format!(
        "{n}x{m} {}",
        rows.iter()
            .map(|r| r.iter().map(show_scalar).collect::<Vec<_>>().join(","))
            .collect::<Vec<_>>()
            .join(" / ")
    ));
    if n == 0 || m == 0 {
        ensure!(ctx, matches!(coefs(&rows)?, Err(_) | Ok(None)), "coefficients for an empty matrix");
        return Ok(());
    }
    let truth = solve_span(&rows, &vec![Scalar::one(); m]).is_some();
    judge(ctx, &rows, truth, "matrix")?;
    ctx.label(if truth { "solvable" } else { "unsolvable" });
    ctx.nontrivial_if(n >= 2 && m >= 2);
    Ok(())
}
pub fn show_scalar(s: &Scalar) -> String {
    for k in 0..=300u64 {
        if *s == sc(k) {
            return k.to_string();
        }
        if *s == -sc(k) {
            return format!("-{k}");
        }
    }
    let b = s.to_bytes();
    format!("{:02x}{:02x}..", b[0], b[1])
}

// ------------------------------------------------------------------ C03

fn levels<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let top = if A::REAL { 6 } else if src.chance(1, 150) { 300 } else { 14 };
    let w0 = gen_world(src, &WorldOpts { max_axes: 3, max_attrs: top, max_slack: 4, max_rotations: 3, plain_names: false });
    let mut w = w0;
    let m = master::<A>(w.max)?;
    let ax = src.idx(w.axes.len());
    let n = w.axes[ax].attrs.len();
    let i = src.idx(n);
    // where the attribute sits
    let others: Vec<At> = w.attrs().into_iter().filter(|a| a.0 != ax).collect();
    let at = F::A((ax, i));
    let (f, ctx_at) = match src.below(4) {
        1 if !others.is_empty() => {
            let o = *src.pick(&others);
            (F::And(Box::new(at), Box::new(F::A(o))), Some((o, true)))
        }
        2 if !others.is_empty() => {
            let o = *src.pick(&others);
            (F::And(Box::new(F::A(o)), Box::new(at)), Some((o, true)))
        }
        3 if !others.is_empty() => {
            let o = *src.pick(&others);
            (F::Or(Box::new(F::A(o)), Box::new(at)), Some((o, false)))
        }
        _ => (at, None),
    };
    ctx.say(format!("{}; key {}", w.describe(), f.describe(&w)));
    let t = f.snapshot(&w);
    let key = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
    let rotated = if src.chance(1, 3) {
        let r = (ax, src.idx(n));
        if w.rotate(r) { Some(r) } else { None }
    } else {
        None
    };
    ctx.say(format!("then rotated {rotated:?}"));
    for j in 0..n {
        let mut l = vec![(ax, j)];
        if let Some((o, true)) = ctx_at {
            if src.chance(1, 2) {
                l.insert(0, o);
            } else {
                l.push(o);
            }
        }
        let hier = w.axes[ax].hier;
        // stated directly, not through the snapshot model
        let ok = (if hier { j <= i } else { j == i }) && rotated != Some((ax, j));
        let ok2 = t.eval(&w.gamma(&l));
        if ok != ok2 {
            fail!("oracle disagreement (harness error)");
        }
        if l.len() > w.max as usize {
            continue;
        }
        let msg = gen_msg::<A>(src)?;
        let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
        verdict::<A>(ctx, &format!("position {i} key, position {j} data ({})", if hier { "hierarchical" } else { "flat" }), &ct, &key, &msg, ok)?;
        // data of the same position from before the rotations
        let vals = w.vals[ax][j].clone();
        if vals.len() > 1 && src.chance(if n > 20 { 1 } else { 3 }, 4) {
            let v = *src.pick(&vals);
            let mut g = vec![v];
            if let Some((o, true)) = ctx_at {
                g.push(*src.pick(&w.vals[o.0][o.1]));
            }
            let ok = (if hier { j <= i } else { j == i }) && !(rotated == Some((ax, j)) && v == w.current((ax, j)));
            if ok != t.eval(&g.iter().copied().collect()) {
                fail!("oracle disagreement (harness error)");
            }
            let ct = encrypt_values::<A>(&m, &g, &msg)?;
            verdict::<A>(ctx, &format!("position {i} key, older position {j} data (value {v})"), &ct, &key, &msg, ok)?;
            ctx.label("older data");
        }
        if rotated == Some((ax, j)) && (if hier { j <= i } else { j == i }) {
            // a key issued now covers it again
            let k2 = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
            verdict::<A>(ctx, "key issued after the rotation", &ct, &k2, &msg, true)?;
            ctx.label("refreshed key");
        }
    }
    ctx.label(if w.axes[ax].hier { "hierarchical" } else { "flat" });
    ctx.label_if(rotated.is_some(), "rotated after issue");
    ctx.nontrivial_if(n >= if w.axes[ax].hier { 3 } else { 2 });
    Ok(())
}

// ------------------------------------------------------------------ C04

fn reload(w: &mut World) -> R {
    let s = w.policy.to_string();
    let p: Policy = serde_json::from_str(&s).map_err(|e| Fail::from(format!("policy does not reload: {e}")))?;
    w.policy = p;
    Ok(())
}

fn history<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let mut w = gen_world(src, &WorldOpts { max_axes: 3, max_attrs: 4, max_slack: 12, max_rotations: 1, plain_names: true });
    let m = master::<A>(w.max)?;
    ctx.say(w.describe());
    struct K<A: AbeScheme> {
        key: Uk<A>,
        t: T,
        n: usize,
        values: BTreeSet<u32>,
    }
    struct C<A: AbeScheme> {
        ct: Ct<A>,
        gamma: BTreeSet<u32>,
        msg: Pt<A>,
        n: usize,
    }
    let mut keys: Vec<K<A>> = vec![];
    let mut cts: Vec<C<A>> = vec![];
    let mut formulas: Vec<F> = vec![];
    let (mut yes, mut no, mut across) = (false, false, false);
    let mut rotations = 0usize;
    let steps = if A::REAL { src.size(4, 12) } else { src.size(4, 40) };
    for step in 0..steps {
        match src.below(6) {
            0 => {
                let at = w.any_attr(src);
                if w.rotate(at) {
                    ctx.say(format!("rotate {}", w.at_name(at)));
                    rotations += 1;
                }
                if src.chance(1, 3) {
                    reload(&mut w)?;
                    ctx.say("reload policy");
                }
            }
            1 | 2 => {
                let whole = src.chance(1, 6);
                // ask again for an earlier formula (a refreshed key), or a new one
                let f = if !formulas.is_empty() && src.chance(1, 2) {
                    src.pick(&formulas).clone()
                } else {
                    gen_formula(src, &w, 4)
                };
                let (ap, t) = if whole {
                    (AccessPolicy::All, T::Leaf(w.all_values().into_iter().collect()))
                } else {
                    (f.ap(&w), f.snapshot(&w))
                };
                formulas.push(f.clone());
                let mut key = keygen::<A>(&w.policy, &m, &ap)?;
                if src.chance(1, 4) {
                    key = de::<Uk<A>>("user key", &ser("user key", &key)?)?;
                }
                ctx.say(format!("k{} = {}", keys.len(), if whole { "ALL".into() } else { f.describe(&w) }));
                let k = K::<A> { key, values: t.all_values().into_iter().collect(), t, n: rotations };
                for (ci, c) in cts.iter().enumerate() {
                    let ok = k.t.eval(&c.gamma);
                    verdict::<A>(ctx, &format!("step {step}: new key k{} on older c{ci}", keys.len()), &c.ct, &k.key, &c.msg, ok)?;
                    yes |= ok;
                    no |= !ok;
                }
                keys.push(k);
            }
            _ => {
                let f = if formulas.is_empty() || src.chance(1, 3) { gen_formula(src, &w, 4) } else { src.pick(&formulas).clone() };
                let t = f.snapshot(&w);
                let l = gen_attrs(src, &w, &f, &t, w.max as usize - 1);
                let msg = gen_msg::<A>(src)?;
                if l.len() > w.max as usize {
                    continue;
                }
                let mut ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
                if src.chance(1, 4) {
                    ct = de::<Ct<A>>("ciphertext", &ser("ciphertext", &ct)?)?;
                }
                let c = C::<A> { ct, gamma: w.gamma(&l), msg, n: rotations };
                ctx.say(format!("c{} [{}]={:?}", cts.len(), names(&w, &l), c.gamma));
                for (ki, k) in keys.iter().enumerate() {
                    let ok = k.t.eval(&c.gamma);
                    verdict::<A>(ctx, &format!("step {step}: older key k{ki} on new c{}", cts.len()), &c.ct, &k.key, &c.msg, ok)?;
                    yes |= ok;
                    no |= !ok;
                    across |= k.n != c.n && k.values.iter().any(|v| *v <= w.last);
                }
                cts.push(c);
            }
        }
    }
    ctx.label_if(rotations > 0, "rotation");
    ctx.label_if(rotations > 2, "three or more rotations");
    ctx.nontrivial_if(across && yes && no && rotations > 0);
    Ok(())
}

fn many_rotations<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let n = src.size(2, if A::REAL { 60 } else { 400 });
    let axes = vec![
        Axis { name: "A".into(), attrs: vec!["1".into(), "2".into(), "3".into()], hier: src.chance(1, 2) },
        Axis { name: "B".into(), attrs: vec!["1".into(), "2".into()], hier: false },
    ];
    let max = (5 + n as u32).next_multiple_of(if A::REAL { 65 } else { 1 });
    let mut w = World::new(axes, max);
    let m = master::<A>(max)?;
    let busy = [w.any_attr(src), w.any_attr(src)];
    let mut keys: Vec<(T, Uk<A>)> = vec![];
    let mut cts: Vec<(BTreeSet<u32>, Ct<A>, Pt<A>)> = vec![];
    let (every_k, every_c) = (1 + n as u64 / 5, 1 + n as u64 / 8);
    let mut both = (false, false);
    for i in 0..=n {
        let last = i == n;
        if last || src.chance(1, every_k) {
            let whole = src.chance(1, 4);
            let f = if whole || src.chance(1, 2) { F::A(*src.pick(&busy)) } else { gen_formula(src, &w, 4) };
            let t = if whole { T::Leaf(w.all_values().into_iter().collect()) } else { f.snapshot(&w) };
            ctx.say(format!("{i}: key {}", if whole { "ALL".into() } else { f.describe(&w) }));
            keys.push((t, keygen::<A>(&w.policy, &m, &if whole { AccessPolicy::All } else { f.ap(&w) })?));
        }
        if last || src.chance(1, every_c) {
            let l = if src.chance(1, 3) { w.attrs() } else { vec![*src.pick(&busy), *src.pick(&w.attrs())] };
            ctx.say(format!("{i}: ciphertext [{}]", names(&w, &l)));
            let msg = gen_msg::<A>(src)?;
            cts.push((w.gamma(&l), encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?, msg));
        }
        if !last {
            let at = if src.chance(5, 6) { *src.pick(&busy) } else { w.any_attr(src) };
            if !w.rotate(at) {
                fail!("rotation {i} of {n} refused below the maximum");
            }
        }
    }
    for (ki, (t, key)) in keys.iter().enumerate() {
        for (ci, (g, ct, msg)) in cts.iter().enumerate() {
            let ok = t.eval(g);
            verdict::<A>(ctx, &format!("key {ki} on ciphertext {ci}"), ct, key, msg, ok)?;
            both = (both.0 | ok, both.1 | !ok);
        }
    }
    ctx.label_if(n > 255, "more than 255 rotations");
    ctx.nontrivial_if(n > 20 && both.0 && both.1);
    Ok(())
}

// ------------------------------------------------------------------ C05

/// One narrowing step at a random place, if there is any.
pub fn narrow_once(src: &mut Src, f: &F, w: &World, to_and: bool) -> Option<(F, &'static str)> {
    // collect the paths of possible steps
    fn paths(f: &F, w: &World, to_and: bool, here: &mut Vec<u8>, out: &mut Vec<(Vec<u8>, usize)>) {
        match f {
            F::A(a) => {
                if !to_and && w.axes[a.0].hier {
                    for i in 0..a.1 {
                        out.push((here.clone(), i));
                    }
                }
            }
            F::And(a, b) | F::Or(a, b) => {
                if matches!(f, F::Or(..)) {
                    if to_and {
                        out.push((here.clone(), 2));
                    } else {
                        out.push((here.clone(), 0));
                        out.push((here.clone(), 1));
                    }
                }
                here.push(0);
                paths(a, w, to_and, here, out);
                here.pop();
                here.push(1);
                paths(b, w, to_and, here, out);
                here.pop();
            }
        }
    }
    fn apply(f: &F, path: &[u8], k: usize) -> F {
        if path.is_empty() {
            return match f {
                F::A(a) => F::A((a.0, k)),
                F::Or(a, b) if k == 2 => F::And(a.clone(), b.clone()),
                F::Or(a, _) if k == 0 => (**a).clone(),
                F::Or(_, b) => (**b).clone(),
                F::And(..) => unreachable!(),
            };
        }
        match f {
            F::And(a, b) if path[0] == 0 => F::And(Box::new(apply(a, &path[1..], k)), b.clone()),
            F::And(a, b) => F::And(a.clone(), Box::new(apply(b, &path[1..], k))),
            F::Or(a, b) if path[0] == 0 => F::Or(Box::new(apply(a, &path[1..], k)), b.clone()),
            F::Or(a, b) => F::Or(a.clone(), Box::new(apply(b, &path[1..], k))),
            F::A(_) => unreachable!(),
        }
    }
    let mut v = vec![];
    paths(f, w, to_and, &mut vec![], &mut v);
    if v.is_empty() {
        return None;
    }
    let (p, k) = src.pick(&v).clone();
    let g = apply(f, &p, k);
    Some((g, if to_and { "or->and" } else { "narrowed" }))
}

/// The same policy written in another order: children swapped, chains of the
/// same operator regrouped.
fn rearranged(src: &mut Src, f: &F) -> F {
    let node = |and: bool, a: F, b: F| if and { F::And(Box::new(a), Box::new(b)) } else { F::Or(Box::new(a), Box::new(b)) };
    let (and, a, b) = match f {
        F::A(_) => return f.clone(),
        F::And(a, b) => (true, rearranged(src, a), rearranged(src, b)),
        F::Or(a, b) => (false, rearranged(src, a), rearranged(src, b)),
    };
    let (a, b) = if src.chance(1, 2) { (b, a) } else { (a, b) };
    if src.chance(1, 2) {
        match (and, a) {
            (true, F::And(x, y)) => return node(true, *x, node(true, *y, b)),
            (false, F::Or(x, y)) => return node(false, *x, node(false, *y, b)),
            (_, a) => return node(and, a, b),
        }
    }
    node(and, a, b)
}

/// A formula with many ORs (so that there is something to narrow).
fn gen_formula_ory(src: &mut Src, w: &World, max: usize) -> F {
    let f = gen_formula(src, w, max);
    if f.n_leaves() < 2 && w.attrs().len() > 1 && src.chance(3, 4) {
        return gen_formula(src, w, max);
    }
    f
}

fn narrow<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let o = WorldOpts { max_axes: 4, max_attrs: 5, max_slack: 3, max_rotations: 4, plain_names: false };
    let mut w = gen_world(src, &o);
    let m = master::<A>(w.max)?;
    let mut f = gen_formula_ory(src, &w, if A::REAL { 7 } else { 12 });
    // the policy the derivations are made with: as it was when the key was issued
    let issued = w.clone();
    ctx.say(format!("{}; key {}", w.describe(), f.describe(&w)));
    let mut key = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
    if src.chance(1, 5) {
        let at = w.any_attr(src);
        if w.rotate(at) {
            ctx.say(format!("rotate {}", w.at_name(at)));
        }
    }
    let steps = src.size(1, 4);
    let (mut narrowed, mut yes, mut no) = (false, false, false);
    for _ in 0..steps {
        let (mut g, what) = match src.below(5) {
            0 => (f.clone(), "same"),
            1 => (f.clone(), "re-randomised"),
            _ => narrow_once(src, &f, &issued, false).unwrap_or((f.clone(), "same")),
        };
        if what != "re-randomised" && src.chance(1, 3) {
            g = rearranged(src, &g);
            ctx.label_if(g != f, "rearranged");
        }
        narrowed |= what == "narrowed";
        ctx.label(what);
        let ap = if what == "re-randomised" { AccessPolicy::All } else { g.ap(&issued) };
        let pol = if what == "re-randomised" { &w.policy } else { &issued.policy };
        ctx.say(format!("{what}: {}", g.describe(&w)));
        key = match try_delegate::<A>(pol, &m, &key, &ap)? {
            Ok(k) => k,
            Err(e) => fail!("{what} derivation for {} refused: {e}", g.describe(&w)),
        };
        f = g;
        let t = f.snapshot(&issued);
        for _ in 0..3 {
            let l = gen_attrs(src, &w, &f, &t, w.max as usize - 1);
            if l.len() > w.max as usize {
                continue;
            }
            let msg = gen_msg::<A>(src)?;
            let ok = t.eval(&w.gamma(&l));
            ctx.say(format!("[{}]->{ok}", names(&w, &l)));
            let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
            verdict::<A>(ctx, "derived key", &ct, &key, &msg, ok)?;
            yes |= ok;
            no |= !ok;
        }
    }
    ctx.nontrivial_if(narrowed && yes && no);
    Ok(())
}

/// Is `child` its parent's elements, attribute by attribute, plus a correct
/// sharing of zero under the child's own program?
fn kept_shares<A: Sch>(m: &Master<A>, parent: &Uk<A>, child: &Uk<A>) -> Result<bool, Fail>
where
    Pt<A>: PartialEq,
{
    use crate::refimpl as r;
    let elem = if A::REAL { 96 } else { 32 };
    let e = |e: String| Fail::from(format!("key bytes: {e}"));
    let (a, b) = (parts(&ser("user key", parent)?, elem).map_err(e)?, parts(&ser("user key", child)?, elem).map_err(e)?);
    let master = r::Priv::dec(&ser("private key", &m.sk)?).map_err(e)?;
    let point = |x: &[u8]| -> Result<_, Fail> {
        let mut rd = r::Rd(x);
        let p = if A::REAL { rd.g2() } else { rd.scalar().map(|s| r::g2(&s)) };
        p.map_err(|e| Fail::from(format!("key element: {e}")))
    };
    let mut d = vec![];
    for (attr, x) in b.attrs.iter().zip(&b.d) {
        let Some(i) = a.attrs.iter().position(|y| y == attr) else { return Ok(false) };
        d.push(r::sub(&point(x)?, &point(&a.d[i])?));
    }
    let diff = r::UserKey { d, msp: r::Msp { attrs: b.attrs, cols: b.cols, m: b.m } };
    Ok(diff.check_sharing(&r::sc(0), &|x| master.t.get(x as usize).copied()).is_ok())
}

fn or_to_and<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let w = gen_world(src, &WorldOpts { max_axes: 4, max_attrs: 4, max_slack: 3, max_rotations: 2, plain_names: false });
    let m = master::<A>(w.max)?;
    let f = gen_formula_ory(src, &w, 6);
    let Some((mut g, _)) = narrow_once(src, &f, &w, true) else {
        ctx.label("no OR");
        return Ok(());
    };
    if src.chance(1, 4) {
        if let Some((h, _)) = narrow_once(src, &g, &w, true) {
            g = h;
        }
    }
    ctx.say(format!("{}; key {} -> {}", w.describe(), f.describe(&w), g.describe(&w)));
    let parent = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
    let key = match try_delegate::<A>(&w.policy, &m, &parent, &g.ap(&w))? {
        Ok(k) => k,
        Err(e) => fail!("derivation refused: {e}"),
    };
    let t = g.snapshot(&w);
    for _ in 0..3 {
        let l = gen_attrs(src, &w, &g, &t, w.max as usize - 1);
        let msg = secret_msg::<A>()?;
        let ok = t.eval(&w.gamma(&l));
        if l.len() > w.max as usize {
            continue;
        }
        let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
        if !ok {
            verdict::<A>(ctx, "derived key", &ct, &key, &msg, false)?;
            continue;
        }
        ctx.nontrivial = true;
        let got = decrypt::<A>(&ct, &key)?;
        ctx.checks += 1;
        if !got.is(&msg) {
            // the recorded finding is exactly: the new key is the parent's
            // elements plus a sharing of zero under the new program
            let known = matches!(got, Got::Plain(_)) && kept_shares::<A>(&m, &parent, &key)?;
            let sig = known.then(|| "or-to-and-wrong-plaintext".to_string());
            return Err(Fail {
                msg: format!("key derived by turning OR into AND, satisfied by [{}]: decryption gave {}", names(&w, &l), got.word(&msg)),
                sig,
            });
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn mutate_formula(src: &mut Src, f: &F, w: &World, depth: usize) -> F {
    match f {
        F::A(a) => match src.below(4) {
            0 => F::A((a.0, src.idx(w.axes[a.0].attrs.len()))), // other level of the axis
            1 => F::A(w.any_attr(src)),
            _ => f.clone(),
        },
        F::And(a, b) | F::Or(a, b) => match src.below(6) {
            0 => F::Or(a.clone(), b.clone()),
            1 => F::And(a.clone(), b.clone()),
            2 => (**a).clone(),
            3 => (**b).clone(),
            k => {
                let (x, y) = if depth == 0 {
                    (a.clone(), b.clone())
                } else if k == 4 {
                    (Box::new(mutate_formula(src, a, w, depth - 1)), b.clone())
                } else {
                    (a.clone(), Box::new(mutate_formula(src, b, w, depth - 1)))
                };
                if matches!(f, F::And(..)) {
                    F::And(x, y)
                } else {
                    F::Or(x, y)
                }
            }
        },
    }
}

fn widen<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let o = opts::<A>(src);
    let mut w = gen_world(src, &o);
    let m = master::<A>(w.max)?;
    let f = gen_formula(src, &w, if A::REAL { 6 } else { 10 });
    ctx.say(format!("{}; parent {}", w.describe(), f.describe(&w)));
    let parent_t = f.snapshot(&w);
    let mut held: BTreeSet<u32> = parent_t.all_values().into_iter().collect();
    let mut key = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
    if src.chance(1, 4) {
        let at = w.any_attr(src);
        if w.rotate(at) {
            ctx.say(format!("rotate {}", w.at_name(at)));
        }
    }
    let mut cur = f.clone();
    for _ in 0..src.size(1, 3) {
        let whole = src.chance(1, 10);
        let g = if src.chance(1, 3) {
            // rebuild over the parent's own leaves: succeeds often
            let mut l = vec![];
            cur.leaves(&mut l);
            let p = src.perm(l.len());
            let k = src.size(1, l.len());
            let l: Vec<At> = p.into_iter().take(k).map(|i| l[i]).collect();
            gen_tree(src, &l)
        } else if src.chance(1, 4) {
            gen_formula(src, &w, 5)
        } else {
            mutate_formula(src, &cur, &w, 3)
        };
        let gt = if whole { T::Leaf(w.all_values().into_iter().collect()) } else { g.snapshot(&w) };
        let wanted: BTreeSet<u32> = if whole { held.clone() } else { gt.all_values().into_iter().collect() };
        let res = try_delegate::<A>(&w.policy, &m, &key, &if whole { AccessPolicy::All } else { g.ap(&w) })?;
        ctx.say(format!("request {} -> {}", if whole { "ALL".into() } else { g.describe(&w) }, if res.is_ok() { "key" } else { "refused" }));
        if !wanted.is_subset(&held) {
            ensure!(ctx, res.is_err(), "a key was derived for values {:?} the parent does not hold", wanted.difference(&held).collect::<Vec<_>>());
            ctx.label("missing value refused");
        }
        let Ok(k) = res else { continue };
        // ciphertexts satisfying the request, random ones, everything but what opens the parent
        let target = if whole { &f } else { &g };
        let mut lists = vec![];
        for _ in 0..2 {
            let tt = target.snapshot(&w);
            lists.push(gen_attrs(src, &w, target, &tt, w.max as usize - 1));
        }
        // a maximal list the parent is not satisfied by
        let all = w.attrs();
        let mut maximal: Vec<At> = vec![];
        for i in src.perm(all.len()) {
            let mut l = maximal.clone();
            l.push(all[i]);
            if !parent_t.eval(&w.gamma(&l)) && l.len() < w.max as usize {
                maximal = l;
            }
        }
        if !maximal.is_empty() {
            lists.push(maximal);
        }
        for l in lists {
            let gamma = w.gamma(&l);
            if parent_t.eval(&gamma) || l.len() > w.max as usize {
                continue;
            }
            let msg = secret_msg::<A>()?;
            let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
            let got = decrypt::<A>(&ct, &k)?;
            ensure!(ctx, !got.is(&msg), "a derived key opens [{}], which its parent cannot", names(&w, &l));
            if gt.eval(&gamma) {
                ctx.nontrivial = true;
                ctx.label("request satisfied, parent not");
            }
        }
        held = wanted;
        key = k;
        if !whole {
            cur = g;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

/// A serialized user key taken apart, for either group.
struct Parts {
    d: Vec<Vec<u8>>,
    cols: usize,
    attrs: Vec<u32>,
    m: Vec<Vec<Scalar>>,
}
fn parts(b: &[u8], elem: usize) -> Result<Parts, String> {
    let mut r = crate::refimpl::Rd(b);
    let n = r.u32()? as usize;
    let d = (0..n).map(|_| r.take(elem).map(<[u8]>::to_vec)).collect::<Result<Vec<_>, _>>()?;
    let msp = crate::refimpl::Msp::dec_from(&mut r)?;
    r.end()?;
    if msp.attrs.len() != n {
        return Err("element count".into());
    }
    Ok(Parts { d, cols: msp.cols, attrs: msp.attrs, m: msp.m })
}
impl Parts {
    fn enc(&self) -> Vec<u8> {
        let mut v = (self.d.len() as u32).to_be_bytes().to_vec();
        for d in &self.d {
            v.extend(d);
        }
        v.extend(crate::refimpl::Msp { attrs: self.attrs.clone(), cols: self.cols, m: self.m.clone() }.enc());
        v
    }
}

fn collusion<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let elem = if A::REAL { 96 } else { 32 };
    // a flat axis of "useful" attributes and one of strangers
    let n = src.size(2, if A::REAL { 5 } else { 8 });
    let axes = vec![
        Axis { name: "A".into(), attrs: (0..n).map(|i| format!("a{i}")).collect(), hier: false },
        Axis { name: "S".into(), attrs: (0..n).map(|i| format!("s{i}")).collect(), hier: false },
    ];
    let w = World::new(axes, 2 * n as u32 + 1);
    let m = master::<A>(w.max)?;
    let useful: Vec<At> = (0..n).map(|i| (0, i)).collect();
    fn subst(f: &F, keep: &dyn Fn(At) -> bool) -> F {
        match f {
            F::A(a) => F::A(if keep(*a) { *a } else { (1, a.1) }),
            F::And(a, b) => F::And(Box::new(subst(a, keep)), Box::new(subst(b, keep))),
            F::Or(a, b) => F::Or(Box::new(subst(a, keep)), Box::new(subst(b, keep))),
        }
    }
    let nu = src.size(2, 3);
    // until no user is sufficient alone
    let mut found = None;
    for _ in 0..30 {
        let h = gen_tree(src, &useful);
        let mut leaves = vec![];
        h.leaves(&mut leaves);
        // which user keeps which useful leaf (the others get the stranger's twin)
        let owner: Vec<usize> = leaves.iter().map(|_| src.idx(nu)).collect();
        let user_f: Vec<F> = (0..nu)
            .map(|u| subst(&h, &|a| leaves.iter().zip(&owner).any(|(l, o)| *l == a && *o == u)))
            .collect();
        let gamma = w.gamma(&leaves);
        if user_f.iter().all(|f| !f.snapshot(&w).eval(&gamma)) {
            found = Some((h, leaves, owner, user_f, gamma));
            break;
        }
    }
    let Some((h, leaves, owner, user_f, gamma)) = found else {
        ctx.label("a user is sufficient alone");
        return Ok(());
    };
    let gamma_l: Vec<At> = leaves.clone();
    ctx.say(format!("target {}; users {}", h.describe(&w), user_f.iter().map(|f| f.describe(&w)).collect::<Vec<_>>().join(" | ")));
    let msg = secret_msg::<A>()?;
    let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&gamma_l), &msg)?;
    let target_key = keygen::<A>(&w.policy, &m, &h.ap(&w))?;
    verdict::<A>(ctx, "the target key itself", &ct, &target_key, &msg, true)?;
    let tp = parts(&ser("user key", &target_key)?, elem).map_err(|e| Fail::from(format!("key bytes: {e}")))?;
    let mut ups = vec![];
    for f in &user_f {
        let mut k = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
        verdict::<A>(ctx, "an insufficient user", &ct, &k, &msg, false)?;
        if src.chance(1, 3) {
            // colluders may re-randomise first
            let ap = if src.chance(1, 2) { AccessPolicy::All } else { f.ap(&w) };
            k = match try_delegate::<A>(&w.policy, &m, &k, &ap)? {
                Ok(k) => k,
                Err(e) => fail!("derivation of a colluder's key refused: {e}"),
            };
            ctx.label("colluder derived");
        }
        ups.push(parts(&ser("user key", &k)?, elem).map_err(|e| Fail::from(format!("key bytes: {e}")))?);
    }
    let mut tries: Vec<(String, Parts)> = vec![];
    // 1. splice under the target's program: the row of each leaf from its owner
    let take = |attr: u32| -> Option<Vec<u8>> {
        let k = leaves.iter().position(|l| w.current(*l) == attr)?;
        let up = &ups[owner[k]];
        up.attrs.iter().position(|a| *a == attr).map(|i| up.d[i].clone())
    };
    let mut d = vec![];
    for a in &tp.attrs {
        match take(*a) {
            Some(x) => d.push(x),
            None => fail!("the key of a user lacks a row for its attribute {a}"),
        }
    }
    tries.push(("splice under the target program".into(), Parts { d, cols: tp.cols, attrs: tp.attrs.clone(), m: tp.m.clone() }));
    // 2. same, under each user's own program (matched by position in the target's order)
    // 3. concatenation of both programs' rows with the columns shared
    let pool: Vec<(u32, Vec<u8>, Vec<Scalar>)> = ups
        .iter()
        .flat_map(|p| p.attrs.iter().zip(&p.d).zip(&p.m).map(|((a, d), r)| (*a, d.clone(), r.clone())))
        .filter(|(a, _, _)| gamma.contains(a))
        .collect();
    let cols = pool.iter().map(|p| p.2.len()).max().unwrap_or(1);
    let same: Vec<_> = pool.iter().filter(|p| p.2.len() == cols).collect();
    if !same.is_empty() {
        tries.push((
            "union of the users' rows".into(),
            Parts {
                d: same.iter().map(|p| p.1.clone()).collect(),
                cols,
                attrs: same.iter().map(|p| p.0).collect(),
                m: same.iter().map(|p| p.2.clone()).collect(),
            },
        ));
    }
    // 4. weights: one column, row i has entry 1/k_i, so that the attempted
    // combination is Σ k_i·D_i for small k (chosen by where the target is)
    let attempts = if A::REAL { 6 } else { 60 };
    for _ in 0..attempts {
        let mut attrs = vec![];
        let mut d = vec![];
        let mut ks = vec![];
        for p in &pool {
            let k = src.below(7) as i32 - 3;
            if k != 0 && !attrs.contains(&p.0) {
                attrs.push(p.0);
                d.push(p.1.clone());
                ks.push(k);
            }
        }
        if attrs.is_empty() {
            continue;
        }
        // the identity-like program whose only solution is the chosen weights:
        // n columns, row i = e_i / k_i
        let nn = attrs.len();
        let mm: Vec<Vec<Scalar>> = (0..nn)
            .map(|i| (0..nn).map(|j| if i == j { crate::refimpl::inv(&sci(ks[i])) } else { Scalar::zero() }).collect())
            .collect();
        tries.push((format!("weights {ks:?} on {attrs:?}"), Parts { d, cols: nn, attrs, m: mm }));
    }
    for (what, p) in tries {
        // a forged key may be refused; it must never reveal the message
        let bytes = p.enc();
        let Ok(k) = no_panic("forged key", || Uk::<A>::try_from_bytes(&bytes))? else { continue };
        let got = decrypt::<A>(&ct, &k)?;
        ensure!(ctx, !got.is(&msg), "colluding users open the ciphertext: {what}");
    }
    ctx.nontrivial = true;
    ctx.label_if(nu == 3, "three users");
    Ok(())
}

fn foreign(src: &mut Src, ctx: &mut Ctx) -> R {
    type A = Real;
    let w = gen_world(src, &WorldOpts::default());
    let (m1, m2) = (master_n::<A>(w.max, 0)?, master_n::<A>(w.max, 1)?);
    let f = gen_formula(src, &w, 5);
    let t = f.snapshot(&w);
    ctx.say(format!("{}; key {}", w.describe(), f.describe(&w)));
    let mut key = keygen::<A>(&w.policy, &m1, &f.ap(&w))?;
    if src.chance(1, 4) {
        // re-randomised with the other authority's delegation key
        if let Ok(k) = try_delegate::<A>(&w.policy, &m2, &key, &AccessPolicy::All)? {
            key = k;
        }
    }
    for _ in 0..2 {
        let l = gen_attrs(src, &w, &f, &t, w.max as usize - 1);
        if l.len() > w.max as usize {
            continue;
        }
        let msg = secret_msg::<A>()?;
        let ct = encrypt::<A>(&w.policy, &m2, &w.attributes(&l), &msg)?;
        let got = decrypt::<A>(&ct, &key)?;
        ensure!(ctx, !got.is(&msg), "a key of another authority opens [{}]", names(&w, &l));
        ctx.nontrivial_if(t.eval(&w.gamma(&l)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

fn boundary<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let slack = if src.chance(1, 4) { src.size(1, 2) } else { 0 };
    let top = if src.chance(1, 40) { if A::REAL { 30 } else { 300 } } else { 5 };
    let mut w = gen_world(src, &WorldOpts { max_axes: 3, max_attrs: top - 1, max_slack: 0, max_rotations: top, plain_names: false });
    ctx.label_if(w.max > 256, "maximum above 256");
    if slack > 0 {
        w.policy.max_attribute_creations += slack as u32;
        w.max += slack as u32;
    }
    last_values::<A>(src, ctx, &w)?;
    ctx.label_if(slack == 0, "policy full");
    ctx.nontrivial_if(w.last == w.max);
    Ok(())
}

/// policies that allow tens of thousands of values, nearly all of them used up
#[cfg(feature = "toy")]
fn huge(src: &mut Src, ctx: &mut Ctx) -> R {
    type A = crate::toy::Fake;
    A::prep(src);
    let max = *src.pick(&[1023, 1024, 1025, 4096, 4098, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 70_000]);
    let mut w = gen_world(src, &WorldOpts { max_axes: 3, max_attrs: 4, max_slack: 0, max_rotations: 2, plain_names: false });
    w.max = max;
    w.policy.max_attribute_creations = max;
    // as if the others had been given to attributes that were rotated away
    let left = src.range(0, 4) as u32;
    w.last = max - left;
    w.policy.last_attribute_value = w.last;
    for _ in 0..left {
        let at = w.any_attr(src);
        w.rotate(at);
    }
    if left == 0 || src.chance(1, 3) {
        // the last value moves to an attribute
        let at = w.any_attr(src);
        w.vals[at.0][at.1].push(max);
        w.policy.attribute_to_int.entry(w.attribute(at)).or_default().push(max);
        for v in w.vals.iter_mut().flatten() {
            v.sort_unstable();
            v.dedup();
        }
        let (a, p): (Vec<At>, &mut _) = (w.attrs(), &mut w.policy);
        for x in a {
            let t = Attribute::new(&w.axes[x.0].name, &w.axes[x.0].attrs[x.1]);
            p.attribute_to_int.insert(t, w.vals[x.0][x.1].iter().copied().filter(|v| *v < max || x == at).collect());
            w.vals[x.0][x.1].retain(|v| *v < max || x == at);
        }
    }
    last_values::<A>(src, ctx, &w)?;
    ctx.label_if(max > 65_535, "more than 65535 values");
    ctx.nontrivial_if(max > 4096);
    Ok(())
}

/// everything that can be done with the policy's last value, its first one and another
fn last_values<A: Sch>(src: &mut Src, ctx: &mut Ctx, w: &World) -> R
where
    Pt<A>: PartialEq,
{
    ctx.say(w.describe());
    let m = if A::REAL && src.chance(1, 10) { std::rc::Rc::new(new_master::<A>(&w.policy)?) } else { master::<A>(w.max)? };
    // the holder of the last value, plus others
    let at_last = *w.attrs().iter().find(|a| w.vals[a.0][a.1].contains(&w.last)).unwrap();
    let mut ats = vec![at_last, w.attrs()[0]];
    ats.push(w.any_attr(src));
    for at in ats {
        let f = if src.chance(1, 2) {
            F::A(at)
        } else {
            let o: Vec<At> = w.attrs().into_iter().filter(|a| a.0 != at.0).collect();
            if o.is_empty() {
                F::A(at)
            } else {
                let o = *src.pick(&o);
                let (x, y) = if src.chance(1, 2) { (at, o) } else { (o, at) };
                if src.chance(1, 3) {
                    F::Or(Box::new(F::A(x)), Box::new(F::A(y)))
                } else {
                    F::And(Box::new(F::A(x)), Box::new(F::A(y)))
                }
            }
        };
        let whole = src.chance(1, 6);
        let t = if whole { T::Leaf(w.all_values().into_iter().collect()) } else { f.snapshot(w) };
        ctx.say(format!("key {}", if whole { "ALL".into() } else { f.describe(w) }));
        let k = keygen::<A>(&w.policy, &m, &if whole { AccessPolicy::All } else { f.ap(w) })?;
        let Some(l) = satisfying(src, &f, w, &f.snapshot(w)) else { continue };
        // all attributes at once: also the longest useful list
        let lists = vec![l, w.attrs(), vec![at]];
        let k2 = match try_delegate::<A>(&w.policy, &m, &k, &AccessPolicy::All)? {
            Ok(k) => k,
            Err(e) => fail!("re-randomisation refused: {e}"),
        };
        let k3 = match if whole { Ok(k2.clone()) } else { try_delegate::<A>(&w.policy, &m, &k, &f.ap(w))? } {
            Ok(k) => k,
            Err(e) => fail!("delegation to the same policy refused: {e}"),
        };
        for l in lists {
            let msg = gen_msg::<A>(src)?;
            let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
            let ok = t.eval(&w.gamma(&l));
            for (n, key) in [("issued", &k), ("re-randomised", &k2), ("delegated", &k3)] {
                verdict::<A>(ctx, &format!("{n} key for {} on [{}]", f.describe(w), names(w, &l)), &ct, key, &msg, ok)?;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

fn spoil(src: &mut Src, f: &F, w: &World, bad: &AccessPolicy) -> (AccessPolicy, usize) {
    // replace one leaf (or insert next to one) by `bad`
    fn go(f: &F, w: &World, at: &mut isize, bad: &AccessPolicy, insert: u64, depth: usize, d: &mut usize) -> AccessPolicy {
        match f {
            F::A(_) => {
                let here = *at == 0;
                *at -= 1;
                if !here {
                    return f.ap(w);
                }
                *d = depth + (insert > 0) as usize;
                match insert {
                    1 => AccessPolicy::Or(Box::new(f.ap(w)), Box::new(bad.clone())),
                    2 => AccessPolicy::And(Box::new(bad.clone()), Box::new(f.ap(w))),
                    _ => bad.clone(),
                }
            }
            F::And(a, b) => {
                let x = go(a, w, at, bad, insert, depth + 1, d);
                let y = go(b, w, at, bad, insert, depth + 1, d);
                AccessPolicy::And(Box::new(x), Box::new(y))
            }
            F::Or(a, b) => {
                let x = go(a, w, at, bad, insert, depth + 1, d);
                let y = go(b, w, at, bad, insert, depth + 1, d);
                AccessPolicy::Or(Box::new(x), Box::new(y))
            }
        }
    }
    let mut at = src.idx(f.n_leaves()) as isize;
    let ins = src.below(3);
    let mut d = 0;
    let ap = go(f, w, &mut at, bad, ins, 0, &mut d);
    (ap, d)
}

fn bad_attr(src: &mut Src, w: &World) -> Attribute {
    let at = w.any_attr(src);
    let (ax, nm) = (&w.axes[at.0].name, &w.axes[at.0].attrs[at.1]);
    let r = match src.below(7) {
        0 => Attribute::new("no such axis", nm),
        1 => Attribute::new(ax, "no such name"),
        2 => Attribute::new(ax, &format!("{nm} ")),
        3 => Attribute::new(&format!("{ax}x"), nm),
        4 => Attribute::new(ax, ""),
        5 => Attribute::new(nm, ax),
        _ => Attribute::new("", ""),
    };
    // names are generated: make sure it really is unknown
    if w.attrs().iter().any(|a| w.attribute(*a) == r) {
        Attribute::new("really no such axis", "nothing")
    } else {
        r
    }
}

fn refusals<A: Sch>(src: &mut Src, ctx: &mut Ctx) -> R
where
    Pt<A>: PartialEq,
{
    A::prep(src);
    let o = opts::<A>(src);
    let w = gen_world(src, &o);
    let m = master::<A>(w.max)?;
    let f = gen_formula(src, &w, 6);
    ctx.say(format!("{}; {}", w.describe(), f.describe(&w)));
    let msg = secret_msg::<A>()?;
    let kind = src.below(8);
    match kind {
        0 | 1 => {
            let a = bad_attr(src, &w);
            let (ap, d) = spoil(src, &f, &w, &AccessPolicy::Attr(a.clone()));
            ctx.say(format!("unknown {}::{} at depth {d}", a.axis, a.name));
            ensure!(ctx, try_keygen::<A>(&w.policy, &m, &ap)?.is_err(), "a key was issued for the unknown attribute {a:?}");
            let parent = keygen::<A>(&w.policy, &m, &AccessPolicy::All)?;
            ensure!(ctx, try_delegate::<A>(&w.policy, &m, &parent, &ap)?.is_err(), "a key was derived for the unknown attribute {a:?}");
            ctx.label("unknown attribute");
            ctx.nontrivial_if(d > 0);
        }
        2 => {
            let mut l = w.attributes(&gen_attrs(src, &w, &f, &f.snapshot(&w), 20));
            let i = src.idx(l.len() + 1);
            let a = bad_attr(src, &w);
            l.insert(i, a);
            ctx.say(format!("list {l:?}"));
            ensure!(ctx, try_encrypt::<A>(&w.policy, &m, &l, &msg)?.is_err(), "encrypted for the unknown attribute {:?}", l[i]);
            let r = no_panic("generate_symmetric_key", || Engine::<A>::new().generate_symmetric_key(&w.policy, &m.pk, &l, 32))?;
            ensure!(ctx, r.is_err(), "symmetric key for an unknown attribute");
            ctx.label("unknown attribute in a list");
            ctx.nontrivial_if(l.len() > 1);
        }
        3 => {
            // repeated leaf, possibly through an overlapping hierarchical level
            let mut lv = vec![];
            f.leaves(&mut lv);
            let a = *src.pick(&lv);
            let b = if w.axes[a.0].hier { (a.0, src.idx(w.axes[a.0].attrs.len())) } else { a };
            let overlap = w.covers(a).iter().any(|v| w.covers(b).contains(v));
            let extra = AccessPolicy::Attr(w.attribute(b));
            let ap = if src.chance(1, 2) {
                AccessPolicy::And(Box::new(extra), Box::new(f.ap(&w)))
            } else {
                AccessPolicy::Or(Box::new(f.ap(&w)), Box::new(extra))
            };
            ctx.say(format!("plus {}", w.at_name(b)));
            if overlap {
                ensure!(ctx, try_keygen::<A>(&w.policy, &m, &ap)?.is_err(), "a key was issued for a formula with a repeated leaf");
                ctx.label("repeated leaf");
                ctx.nontrivial_if(lv.len() > 1);
            }
        }
        4 => {
            let (ap, d) = spoil(src, &f, &w, &AccessPolicy::All);
            if d > 0 {
                ctx.say(format!("ALL at depth {d}"));
                ensure!(ctx, try_keygen::<A>(&w.policy, &m, &ap)?.is_err(), "a key was issued for a formula containing ALL");
                let parent = keygen::<A>(&w.policy, &m, &AccessPolicy::All)?;
                ensure!(ctx, try_delegate::<A>(&w.policy, &m, &parent, &ap)?.is_err(), "a key was derived for a formula containing ALL");
                ctx.label("nested ALL");
                ctx.nontrivial = true;
            }
        }
        5 | 6 => {
            // keys generated for a smaller policy
            let small = src.below(u64::from(w.last)) as u32;
            if small == 0 {
                return Ok(());
            }
            let ms = master::<A>(small)?;
            let t = f.snapshot(&w);
            let top = t.all_values().into_iter().max().unwrap();
            ctx.say(format!("keys of capacity {small}"));
            // `small` itself may or may not fit: only values strictly above are certain
            if top > small {
                ensure!(ctx, try_keygen::<A>(&w.policy, &ms, &f.ap(&w))?.is_err(), "a key was issued for value {top} by a master key of capacity {small}");
                let parent = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
                ensure!(ctx, try_delegate::<A>(&w.policy, &ms, &parent, &f.ap(&w))?.is_err(), "delegation for value {top} with a delegation key of capacity {small} succeeded");
                ensure!(ctx, try_delegate::<A>(&w.policy, &ms, &parent, &AccessPolicy::All)?.is_err(), "re-randomisation of value {top} with a delegation key of capacity {small} succeeded");
                ctx.label("capacity: keys");
                ctx.nontrivial = true;
            }
            let l = gen_attrs(src, &w, &f, &t, 12);
            let top = w.gamma(&l).into_iter().max().unwrap();
            if top > small {
                ensure!(ctx, try_encrypt::<A>(&w.policy, &ms, &w.attributes(&l), &msg)?.is_err(), "encryption for value {top} with a public key of capacity {small} succeeded");
                ctx.label("capacity: ciphertext");
                ctx.nontrivial = true;
            }
        }
        _ => {
            // an empty policy has no whole-policy key; an empty list opens nothing
            let p = Policy::new(3);
            let m3 = master::<A>(3)?;
            ensure!(ctx, try_keygen::<A>(&p, &m3, &AccessPolicy::All)?.is_err(), "whole-policy key of a policy without attributes");
            if let Ok(ct) = try_encrypt::<A>(&w.policy, &m, &[], &msg)? {
                let k = keygen::<A>(&w.policy, &m, &AccessPolicy::All)?;
                ensure!(ctx, decrypt::<A>(&ct, &k)?.refused(), "a ciphertext for no attribute was decrypted");
            }
            ctx.label("empty");
            ctx.nontrivial = true;
        }
    }
    // later valid requests still work
    let key = keygen::<A>(&w.policy, &m, &f.ap(&w))?;
    let t = f.snapshot(&w);
    let l = gen_attrs(src, &w, &f, &t, 20);
    if l.len() <= w.max as usize {
        let ct = encrypt::<A>(&w.policy, &m, &w.attributes(&l), &msg)?;
        verdict::<A>(ctx, "valid request after a refusal", &ct, &key, &msg, t.eval(&w.gamma(&l)))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C27

/// reference parser: expr = term [op expr]; term = digits | '(' expr ')'
fn ref_parse(s: &str) -> Option<B> {
    if s.is_empty() || !s.chars().all(|c| c.is_ascii_digit() || " ()&|".contains(c)) {
        return None;
    }
    let t: Vec<u8> = s.bytes().filter(|b| *b != b' ').collect();
    fn expr(t: &[u8], i: &mut usize) -> Option<B> {
        let a = term(t, i)?;
        match t.get(*i) {
            Some(c @ (b'&' | b'|')) => {
                *i += 1;
                let b = expr(t, i)?;
                Some(if *c == b'&' { B::And(Box::new(a), Box::new(b)) } else { B::Or(Box::new(a), Box::new(b)) })
            }
            _ => Some(a),
        }
    }
    fn term(t: &[u8], i: &mut usize) -> Option<B> {
        match t.get(*i)? {
            b'(' => {
                *i += 1;
                let e = expr(t, i)?;
                if t.get(*i) != Some(&b')') {
                    return None;
                }
                *i += 1;
                Some(e)
            }
            c if c.is_ascii_digit() => {
                let mut v: u64 = 0;
                while let Some(c) = t.get(*i).filter(|c| c.is_ascii_digit()) {
                    v = v.saturating_mul(10).saturating_add(u64::from(c - b'0'));
                    *i += 1;
                }
                u32::try_from(v).ok().map(B::L)
            }
            _ => None,
        }
    }
    let mut i = 0;
    let e = expr(&t, &mut i)?;
    (i == t.len()).then_some(e)
}

fn of_node(n: &Node) -> B {
    match n {
        Node::Leaf(v) => B::L(*v),
        Node::And(a, b) => B::And(Box::new(of_node(a)), Box::new(of_node(b))),
        Node::Or(a, b) => B::Or(Box::new(of_node(a)), Box::new(of_node(b))),
    }
}

fn spaces(src: &mut Src) -> &'static str {
    *src.pick(&["", "", " ", "  ", "   "])
}

fn render(src: &mut Src, b: &B, right: bool, extra: &mut usize) -> String {
    let s = match b {
        B::L(v) => {
            let z = if src.chance(1, 8) { "00" } else { "" };
            format!("{z}{v}")
        }
        B::And(x, y) | B::Or(x, y) => {
            let op = if matches!(b, B::And(..)) { '&' } else { '|' };
            let l = render(src, x, false, extra);
            let r = render(src, y, true, extra);
            format!("{l}{}{op}{}{r}", spaces(src), spaces(src))
        }
    };
    let needed = !right && !matches!(b, B::L(_));
    let mut n = needed as usize;
    while src.chance(1, 4) && n < 4 {
        n += 1;
        *extra += 1;
    }
    let mut s = s;
    for _ in 0..n {
        s = format!("({}{s}{})", spaces(src), spaces(src));
    }
    s
}

fn grammar(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = match src.below(600) { 0 => src.size(80, 300), 1..=30 => src.size(8, 80), _ => src.size(1, 8) };
    let mut leaves = gen_leaves(src, n);
    if src.chance(1, 4) {
        for l in leaves.iter_mut() {
            if src.chance(1, 3) {
                *l = *src.pick(&[0, 7, 10, 99, u32::MAX, u32::MAX - 1, 1 << 31]);
            }
        }
    }
    let b = gen_b(src, &leaves, 3);
    let mut extra = 0;
    let s = format!("{}{}{}", spaces(src), render(src, &b, true, &mut extra), spaces(src));
    ctx.say(&s);
    if ref_parse(&s) != Some(b.clone()) {
        fail!("the reference parser disagrees with the renderer on {s:?} (harness error)");
    }
    match no_panic("Node::parse", || Node::parse(&s))? {
        Ok(t) => ensure!(ctx, of_node(&t) == b, "{s:?} parses as {} instead of {}", of_node(&t).show(), b.show()),
        Err(e) => fail!("{s:?} is a formula but is refused: {e}"),
    }
    // MonotoneSpanProgram::parse is the same tree's program
    let distinct = leaves.iter().collect::<BTreeSet<_>>().len() == leaves.len();
    match no_panic("MonotoneSpanProgram::parse", || MonotoneSpanProgram::<i32>::parse(&s))? {
        Ok(m) => {
            ensure!(ctx, distinct, "{s:?} has a repeated leaf but gives a span program");
            let want = b.node().to_msp().map_err(|e| Fail::from(e.to_string()))?;
            let have: BTreeSet<(u32, Vec<i32>)> = (0..m.rows()).map(|i| (m.get_attr_from_row(i), m.get_row(i).clone())).collect();
            let wants: BTreeSet<(u32, Vec<i32>)> = (0..want.rows()).map(|i| (want.get_attr_from_row(i), want.get_row(i).clone())).collect();
            ensure!(ctx, have == wants, "{s:?}: parse and tree give different span programs");
        }
        Err(e) => ensure!(ctx, !distinct, "{s:?}: no span program: {e}"),
    }
    ctx.nontrivial_if(n >= 3 && extra > 0);
    Ok(())
}

fn strings(src: &mut Src, ctx: &mut Ctx) -> R {
    let alpha = ["(", ")", "&", "|", " ", "0", "1", "2", "9", "42", "4294967295", "4294967296", "&&", "()", ")(", "1&2", "(3|4)"];
    let foreign = ["a", "é", "+", "\n", "\t", "\0", "٣", "！", "-1", "x&1", "∧", "\u{0664}"];
    let s = if src.chance(1, 2) {
        let n = src.size(0, 12);
        let mut s = String::new();
        for _ in 0..n {
            if src.chance(1, 40) {
                s.push_str(src.pick::<&str>(&foreign));
            } else {
                s.push_str(src.pick::<&str>(&alpha));
            }
        }
        s
    } else {
        let n = src.size(1, 6);
        let leaves = gen_leaves(src, n);
        let b = gen_b(src, &leaves, 3);
        let mut e = 0;
        let mut c: Vec<String> = render(src, &b, true, &mut e).chars().map(|c| c.to_string()).collect();
        for _ in 0..src.size(1, 3) {
            let i = src.idx(c.len().max(1));
            match src.below(4) {
                0 if !c.is_empty() => {
                    c.remove(i);
                }
                1 => c.insert(i.min(c.len()), (*src.pick(&alpha)).to_string()),
                2 if !c.is_empty() => c[i] = (*src.pick(&alpha)).to_string(),
                _ if c.len() > 1 => {
                    let j = src.idx(c.len());
                    c.swap(i, j);
                }
                _ => {}
            }
        }
        c.concat()
    };
    ctx.say(format!("{s:?}"));
    let want = ref_parse(&s);
    let got = no_panic("Node::parse", || Node::parse(&s))?;
    match (&want, &got) {
        (Some(b), Ok(t)) => ensure!(ctx, of_node(t) == *b, "{s:?} parses as {} instead of {}", of_node(t).show(), b.show()),
        (Some(_), Err(e)) => fail!("{s:?} is a formula but is refused: {e}"),
        (None, Ok(t)) => fail!("{s:?} is not a formula but parses as {}", of_node(t).show()),
        (None, Err(_)) => ctx.checks += 1,
    }
    ctx.label(if want.is_some() { "formula" } else { "not a formula" });
    ctx.nontrivial_if(s.chars().filter(|c| "()&|0123456789".contains(*c)).count() >= 4);
    Ok(())
}
