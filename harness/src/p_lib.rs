//! C12-C19: bit vectors, integers, width-generic builders, prime-field arithmetic.
use crate::engine::*;
use crate::flat;
use crate::model::*;
use circuit_converters::arithmetic::*;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

type G = NXAOBoolGate;
type C = NXAOBoolCircuit;

pub fn mask(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1u128 << n) - 1
    }
}
pub fn to_bits(v: u128, n: usize) -> Vec<bool> {
    (0..n).map(|i| v >> i & 1 == 1).collect()
}
pub fn from_bits(b: &[bool]) -> u128 {
    b.iter().enumerate().map(|(i, &b)| (b as u128) << i).sum()
}
fn big(v: u128) -> BigUint {
    BigUint::from(v)
}
fn raw(src: &mut Src, n: usize) -> u128 {
    let mut v = 0u128;
    let mut k = 0;
    while k < n {
        let w = (n - k).min(32);
        v |= (src.below(1u64 << w) as u128) << k;
        k += w;
    }
    v
}
/// an n-bit value, biased towards the edges and towards earlier values
pub fn edge(src: &mut Src, n: usize, prev: &[u128]) -> u128 {
    let m = mask(n);
    let v = match src.weighted(&[3, 5, 4, 2, 4, 2, 2]) {
        0 => src.below(4) as u128,
        1 => raw(src, n),
        2 => {
            let half = 1u128 << (n - 1);
            let d = src.below(3) as u128;
            match src.usize(4) {
                0 => m - d.min(m),
                1 => half.wrapping_add(d),
                2 => half.wrapping_sub(d + 1),
                _ => m >> 1,
            }
        }
        3 => 1u128 << src.usize(n),
        4 if !prev.is_empty() => {
            let p = prev[src.usize(prev.len())];
            let d = src.below(5) as u128;
            p.wrapping_add(d).wrapping_sub(2)
        }
        5 if !prev.is_empty() => {
            let p = prev[src.usize(prev.len())];
            let d = src.below(3) as u128;
            p.wrapping_neg().wrapping_add(d).wrapping_sub(1)
        }
        4 | 5 => raw(src, n),
        _ => {
            // a run of ones
            let a = src.usize(n);
            let l = src.range(1, n - a);
            mask(l) << a
        }
    };
    v & m
}

thread_local! { static TAP: std::cell::RefCell<Option<Option<(CR, Vec<Vec<bool>>)>>> = const { std::cell::RefCell::new(None) }; }
/// A circuit of the library with operand values, not checked here; None if it cannot be built.
pub fn library_circuit(src: &mut Src, cx: &mut Cx) -> Option<(CR, Vec<Vec<bool>>)> {
    let k = src.weighted(&[3, 3, 2, 2, 6, 2, 1, 1, 1]);
    let f = [c12, c13, c14, c15, c16, c17, c18, crate::p_misc::c20, crate::p_misc::c21][k];
    cx.label(["library: bits", "library: ring operations", "library: comparisons", "library: constants and shifts", "library: builders", "library: field", "library: Montgomery reduction", "library: bundled 64-bit", "library: AES"][k]);
    TAP.with(|t| *t.borrow_mut() = Some(None));
    let mut inner = Cx::new(false, false);
    let r = guarded(|| f(src, &mut inner));
    let got = TAP.with(|t| t.borrow_mut().take()).flatten();
    match r {
        Ok(Ok(())) => got,
        _ => None,
    }
}
/// hands the circuit to `library_circuit` if that is who asked for it
pub fn tapped(c: &CR, asg: &[Vec<bool>]) -> bool {
    TAP.with(|t| match &mut *t.borrow_mut() {
        Some(x) => {
            *x = Some((c.clone(), asg.to_vec()));
            true
        }
        None => false,
    })
}

/// Compares outputs of the circuit with the oracle: the crate's evaluator on the first
/// assignments (as many as are affordable), a walk over the structure on all of them.
pub fn verify(c: &CR, asg: &[Vec<bool>], cx: &mut Cx, want: &dyn Fn(usize) -> Vec<bool>, bad: &dyn Fn(usize, &[bool], &[bool]) -> Option<Fail>) -> R {
    if tapped(c, asg) {
        return Ok(());
    }
    let f = flat::compile(c);
    let cost = f.as_ref().map_or(20_000, |f| f.cost);
    let budget = if cx.thorough { 200_000 } else { 40_000 };
    let k = (budget / cost).clamp(2, 24).min(asg.len());
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    // spread over the assignments, beginning with the first
    for j in 0..k {
        let i = if j < 8 { j } else { j * asg.len() / k };
        let got = ok(ev.eval_output(&asg[i]), "eval_output")?;
        let w = want(i);
        cx.comparisons += 1;
        check!(got.len() == w.len(), "{} outputs instead of {}", got.len(), w.len());
        if got != w {
            match bad(i, &got, &w) {
                Some(f) if f.sig.is_some() => {
                    cx.known.push(f);
                    return Ok(());
                }
                Some(f) => return Err(f),
                None => {}
            }
        }
    }
    let Some(f) = f else {
        cx.label("evaluator only");
        return Ok(());
    };
    for (b, chunk) in asg.chunks(flat::LANES).enumerate() {
        let got = f.eval(chunk);
        for (j, g) in got.iter().enumerate() {
            let i = b * flat::LANES + j;
            let w = want(i);
            cx.comparisons += 1;
            if *g != w {
                match bad(i, g, &w) {
                    Some(f) if f.sig.is_some() => {
                        cx.known.push(f);
                        return Ok(());
                    }
                    Some(f) => return Err(f),
                    None => {}
                }
            }
        }
    }
    Ok(())
}

/// The typed values of a program, addressed by index, so that the programs themselves need not be
/// compiled once per width.
pub trait IntLab {
    fn set_circuit(&mut self, c: &dyn std::any::Any);
    fn new(&mut self) -> R;
    fn number(&mut self, v: &BigUint) -> R;
    fn given(&mut self, ids: Vec<GateId>) -> R;
    fn unit(&mut self, one: bool) -> R;
    /// 0 add, 1 sub, 2 mul
    fn op(&mut self, k: usize, i: usize, j: usize);
    fn op_assign(&mut self, k: usize, i: usize, j: usize);
    fn neg(&mut self, i: usize);
    /// 0 eq, 1 neq, 2 less, 3 less_or_eq, 4 larger, 5 larger_or_eq
    fn test(&mut self, k: usize, i: usize, j: usize) -> R<GateId>;
    fn shift(&mut self, left: bool, i: usize, s: usize) -> R;
    fn copy(&mut self, i: usize);
    fn bit(&self, i: usize, j: usize) -> GateId;
    fn output(&self, i: usize) -> R;
}
pub struct IL<GG: Gate + 'static, CC: BoolCircuit<GG> + 'static, const N: usize> {
    config: AllocIntConfig<GG, CC, N>,
    v: Vec<AllocInt<GG, CC, N>>,
}
pub fn int_lab<const N: usize>(c: &CR) -> R<Box<dyn IntLab>> {
    int_lab_of::<G, C, N>(c)
}
pub fn int_lab_of<GG: Gate + 'static, CC: BoolCircuit<GG> + 'static, const N: usize>(c: &BoolCircuitRef<GG, CC>) -> R<Box<dyn IntLab>> {
    let config = ok(AllocIntConfig::<GG, CC, N>::new(c), "AllocIntConfig::new")?;
    Ok(Box::new(IL::<GG, CC, N> { config, v: vec![] }))
}
impl<GG: Gate + 'static, CC: BoolCircuit<GG> + 'static, const N: usize> IntLab for IL<GG, CC, N> {
    fn set_circuit(&mut self, c: &dyn std::any::Any) {
        self.config.c_ref = c.downcast_ref::<BoolCircuitRef<GG, CC>>().expect("a circuit of the same type").clone();
    }
    fn new(&mut self) -> R {
        self.v.push(ok(AllocInt::new(&self.config), "AllocInt::new")?);
        Ok(())
    }
    fn number(&mut self, v: &BigUint) -> R {
        self.v.push(ok(AllocInt::from_biguint(v, &self.config), "from_biguint")?);
        Ok(())
    }
    fn given(&mut self, ids: Vec<GateId>) -> R {
        self.v.push(ok(AllocInt::from_gate_ids(ids, &self.config), "from_gate_ids")?);
        Ok(())
    }
    fn unit(&mut self, one: bool) -> R {
        let r = if one { AllocInt::one(&self.config) } else { AllocInt::zero(&self.config) };
        self.v.push(ok(r, "one/zero")?);
        Ok(())
    }
    fn op(&mut self, k: usize, i: usize, j: usize) {
        let (a, b) = (&self.v[i], &self.v[j]);
        let r = match k {
            0 => a + b,
            1 => a - b,
            _ => a * b,
        };
        self.v.push(r);
    }
    fn op_assign(&mut self, k: usize, i: usize, j: usize) {
        let b = self.v[j].clone();
        let a = &mut self.v[i];
        match k {
            0 => *a += &b,
            1 => *a -= &b,
            _ => *a *= &b,
        }
    }
    fn neg(&mut self, i: usize) {
        let r = -&self.v[i];
        self.v.push(r);
    }
    fn test(&mut self, k: usize, i: usize, j: usize) -> R<GateId> {
        let (a, b) = (&self.v[i], &self.v[j]);
        let r = match k {
            0 => a.eq(b),
            1 => a.neq(b),
            2 => a.less(b),
            3 => a.less_or_eq(b),
            4 => a.larger(b),
            _ => a.larger_or_eq(b),
        };
        ok(r, "comparison")
    }
    fn shift(&mut self, left: bool, i: usize, s: usize) -> R {
        let r = if left { self.v[i].shift_left(s) } else { self.v[i].shift_right(s) };
        self.v.push(ok(r, "shift")?);
        Ok(())
    }
    fn copy(&mut self, i: usize) {
        let r = self.v[i].clone();
        self.v.push(r);
    }
    fn bit(&self, i: usize, j: usize) -> GateId {
        self.v[i].val_le[j]
    }
    fn output(&self, i: usize) -> R {
        ok(self.v[i].output(), "output")
    }
}

pub trait BitsLab {
    fn new(&mut self) -> R;
    fn given(&mut self, ids: Vec<GateId>) -> R;
    fn not(&mut self, i: usize);
    /// 0 and, 1 or, 2 xor
    fn op(&mut self, k: usize, i: usize, j: usize);
    fn op_assign(&mut self, k: usize, i: usize, j: usize);
    fn test(&mut self, eq: bool, i: usize, j: usize) -> R<GateId>;
    fn mux(&mut self, i: usize, j: usize, s: &GateId) -> R;
    fn copy(&mut self, i: usize);
    fn bit(&self, i: usize, j: usize) -> GateId;
    fn output(&self, i: usize) -> R;
}
pub struct BL<GG: Gate + 'static, CC: BoolCircuit<GG> + 'static, const N: usize> {
    config: AllocBitsConfig<GG, CC, N>,
    v: Vec<AllocBits<GG, CC, N>>,
}
pub fn bits_lab<const N: usize>(c: &CR) -> R<Box<dyn BitsLab>> {
    bits_lab_of::<G, C, N>(c)
}
pub fn bits_lab_of<GG: Gate + 'static, CC: BoolCircuit<GG> + 'static, const N: usize>(c: &BoolCircuitRef<GG, CC>) -> R<Box<dyn BitsLab>> {
    let config = ok(AllocBitsConfig::<GG, CC, N>::new(c), "AllocBitsConfig::new")?;
    Ok(Box::new(BL::<GG, CC, N> { config, v: vec![] }))
}
impl<GG: Gate + 'static, CC: BoolCircuit<GG> + 'static, const N: usize> BitsLab for BL<GG, CC, N> {
    fn new(&mut self) -> R {
        self.v.push(ok(AllocBits::new(&self.config), "AllocBits::new")?);
        Ok(())
    }
    fn given(&mut self, ids: Vec<GateId>) -> R {
        self.v.push(ok(AllocBits::from_gate_ids(ids, &self.config), "from_gate_ids")?);
        Ok(())
    }
    fn not(&mut self, i: usize) {
        let r = !&self.v[i];
        self.v.push(r);
    }
    fn op(&mut self, k: usize, i: usize, j: usize) {
        let (a, b) = (&self.v[i], &self.v[j]);
        let r = match k {
            0 => a & b,
            1 => a | b,
            _ => a ^ b,
        };
        self.v.push(r);
    }
    fn op_assign(&mut self, k: usize, i: usize, j: usize) {
        let b = self.v[j].clone();
        let a = &mut self.v[i];
        match k {
            0 => *a &= &b,
            1 => *a |= &b,
            _ => *a ^= &b,
        }
    }
    fn test(&mut self, eq: bool, i: usize, j: usize) -> R<GateId> {
        let (a, b) = (&self.v[i], &self.v[j]);
        ok(if eq { a.eq(b) } else { a.neq(b) }, "eq/neq")
    }
    fn mux(&mut self, i: usize, j: usize, s: &GateId) -> R {
        let r = self.v[i].mux(&self.v[j], s);
        self.v.push(ok(r, "mux")?);
        Ok(())
    }
    fn copy(&mut self, i: usize) {
        let r = self.v[i].clone();
        self.v.push(r);
    }
    fn bit(&self, i: usize, j: usize) -> GateId {
        self.v[i].bits[j]
    }
    fn output(&self, i: usize) -> R {
        ok(self.v[i].output(), "output")
    }
}

pub trait FpLab {
    fn p_minus_inv(&self) -> BigUint;
    fn params(&self) -> (BigUint, usize);
    fn mont_red_mid(&self) -> ModuleId;
    fn new(&mut self) -> R;
    fn number(&mut self, v: &BigUint);
    fn given(&mut self, ids: Vec<GateId>);
    fn unit(&mut self, one: bool) -> R;
    fn op(&mut self, k: usize, i: usize, j: usize);
    fn op_assign(&mut self, k: usize, i: usize, j: usize);
    fn neg(&mut self, i: usize);
    fn test(&mut self, eq: bool, i: usize, j: usize) -> R<GateId>;
    fn copy(&mut self, i: usize);
    fn ids(&self, i: usize) -> Vec<GateId>;
    fn output(&self, i: usize) -> R;
}
pub struct FL<GG: Gate + 'static, CC: BoolCircuit<GG> + 'static, const N: usize> {
    config: AllocFpConfig<GG, CC, N>,
    v: Vec<AllocFp<GG, CC, N>>,
}
pub fn fp_lab<const N: usize>(c: &CR, p: &BigUint, r: usize) -> R<Box<dyn FpLab>> {
    fp_lab_of::<G, C, N>(c, p, r)
}
pub fn fp_lab_of<GG: Gate + 'static, CC: BoolCircuit<GG> + 'static, const N: usize>(c: &BoolCircuitRef<GG, CC>, p: &BigUint, r: usize) -> R<Box<dyn FpLab>> {
    let int_config = ok(AllocIntConfig::<GG, CC, N>::new(c), "AllocIntConfig::new")?;
    let config = ok(AllocFpConfig::<GG, CC, N>::new(c, &int_config, p.clone(), r), "AllocFpConfig::new")?;
    Ok(Box::new(FL::<GG, CC, N> { config, v: vec![] }))
}
impl<GG: Gate + 'static, CC: BoolCircuit<GG> + 'static, const N: usize> FpLab for FL<GG, CC, N> {
    fn p_minus_inv(&self) -> BigUint {
        self.config.p_minus_inv.clone()
    }
    fn params(&self) -> (BigUint, usize) {
        (self.config.p.clone(), self.config.r_exp)
    }
    fn mont_red_mid(&self) -> ModuleId {
        self.config.mont_red_mid
    }
    fn new(&mut self) -> R {
        self.v.push(ok(AllocFp::new(&self.config), "AllocFp::new")?);
        Ok(())
    }
    fn number(&mut self, v: &BigUint) {
        self.v.push(AllocFp::from_biguint_unchecked(v, &self.config));
    }
    fn given(&mut self, ids: Vec<GateId>) {
        self.v.push(AllocFp::from_gate_ids_unchecked(ids, &self.config));
    }
    fn unit(&mut self, one: bool) -> R {
        let r = if one { AllocFp::one(&self.config) } else { AllocFp::zero(&self.config) };
        self.v.push(ok(r, "one/zero")?);
        Ok(())
    }
    fn op(&mut self, k: usize, i: usize, j: usize) {
        let (a, b) = (&self.v[i], &self.v[j]);
        let r = match k {
            0 => a + b,
            1 => a - b,
            _ => a * b,
        };
        self.v.push(r);
    }
    fn op_assign(&mut self, k: usize, i: usize, j: usize) {
        let b = self.v[j].clone();
        let a = &mut self.v[i];
        match k {
            0 => *a += &b,
            1 => *a -= &b,
            _ => *a *= &b,
        }
    }
    fn neg(&mut self, i: usize) {
        let r = -&self.v[i];
        self.v.push(r);
    }
    fn test(&mut self, eq: bool, i: usize, j: usize) -> R<GateId> {
        let (a, b) = (&self.v[i], &self.v[j]);
        ok(if eq { a.eq(b) } else { a.neq(b) }, "eq/neq")
    }
    fn copy(&mut self, i: usize) {
        let r = self.v[i].clone();
        self.v.push(r);
    }
    fn ids(&self, i: usize) -> Vec<GateId> {
        self.v[i].to_gate_ids()
    }
    fn output(&self, i: usize) -> R {
        ok(self.v[i].output(), "output")
    }
}
macro_rules! dispatch {
    ($n:expr, $f:ident, $a:tt, [$($w:literal)*]) => {
        match $n { $($w => $f::<$w> $a,)* _ => unreachable!("width {}", $n) }
    };
}
macro_rules! all_widths {
    ($n:expr, $f:ident, $a:tt) => {
        dispatch!($n, $f, $a, [1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 28 30 31 32 33 36 40 47 48 50 56 63 64 65 66 72 80 96 100 112 127 128])
    };
}
macro_rules! fp_widths {
    ($n:expr, $f:ident, $a:tt) => {
        dispatch!($n, $f, $a, [4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 28 30 32 33 34 36 40 48 56 64 65 66 96 128])
    };
}

#[derive(Debug, Clone)]
enum E {
    In(usize),
    Const(u128),
    /// bits of other values, low bits first, zeros above
    Pick(Vec<(usize, usize)>),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Neg(usize),
    Shl(usize, usize),
    Shr(usize, usize),
    Not(usize),
    And(usize, usize),
    Or(usize, usize),
    Xor(usize, usize),
    Eq(usize, usize),
    Ne(usize, usize),
    Lt(usize, usize),
    Le(usize, usize),
    Gt(usize, usize),
    Ge(usize, usize),
    /// receiver, other, selector
    Mux(usize, usize, usize),
}

fn eval(es: &[E], n: usize, ins: &[u128]) -> Vec<u128> {
    let m = mask(n);
    let mut v: Vec<u128> = Vec::with_capacity(es.len());
    for e in es {
        // order of two's complement numbers: flip the sign bit
        let s = |x: usize| v[x] ^ (1u128 << (n - 1));
        let x = match e {
            E::In(k) => ins[*k],
            E::Const(c) => *c,
            E::Pick(b) => b.iter().enumerate().map(|(i, (x, j))| (v[*x] >> j & 1) << i).sum(),
            E::Add(a, b) => v[*a].wrapping_add(v[*b]) & m,
            E::Sub(a, b) => v[*a].wrapping_sub(v[*b]) & m,
            E::Mul(a, b) => v[*a].wrapping_mul(v[*b]) & m,
            E::Neg(a) => v[*a].wrapping_neg() & m,
            E::Shl(a, k) => if *k >= n { 0 } else { v[*a] << k & m },
            E::Shr(a, k) => {
                let top = v[*a] >> (n - 1) & 1 == 1;
                let mut r = v[*a] >> k;
                if top {
                    r |= m & !(m >> k);
                }
                r
            }
            E::Not(a) => !v[*a] & m,
            E::And(a, b) => v[*a] & v[*b],
            E::Or(a, b) => v[*a] | v[*b],
            E::Xor(a, b) => v[*a] ^ v[*b],
            E::Eq(a, b) => (v[*a] == v[*b]) as u128,
            E::Ne(a, b) => (v[*a] != v[*b]) as u128,
            E::Lt(a, b) => (s(*a) < s(*b)) as u128,
            E::Le(a, b) => (s(*a) <= s(*b)) as u128,
            E::Gt(a, b) => (s(*a) > s(*b)) as u128,
            E::Ge(a, b) => (s(*a) >= s(*b)) as u128,
            E::Mux(a, b, k) => if v[*k] == 1 { v[*b] } else { v[*a] },
        };
        v.push(x);
    }
    v
}

fn describe(es: &[E], upto: usize) -> String {
    let mut s = String::new();
    for (i, e) in es.iter().enumerate().take(upto + 1) {
        s += &format!("v{i}={e:?}; ");
    }
    if s.len() > 3000 {
        s.truncate(3000);
    }
    s
}

/// expressions of a program being built
struct Prog {
    es: Vec<E>,
    /// widths of the program's inputs, in creation order
    ins: Vec<usize>,
    /// what is output, in order: expression and width
    outs: Vec<(usize, usize)>,
}
impl Prog {
    fn new() -> Prog {
        Prog { es: vec![], ins: vec![], outs: vec![] }
    }
    fn e(&mut self, e: E) -> usize {
        self.es.push(e);
        self.es.len() - 1
    }
    fn input(&mut self, w: usize) -> usize {
        self.ins.push(w);
        let k = self.ins.len() - 1;
        self.e(E::In(k))
    }
    fn bits(&self) -> usize {
        self.ins.iter().sum()
    }
}

fn split(p: &Prog, vals: &[u128]) -> Vec<bool> {
    vals.iter().zip(&p.ins).flat_map(|(&v, &w)| to_bits(v, w)).collect()
}

/// operand values: all of them if there are few, else explicit ones from the tape followed by
/// `bulk` ones derived from one seed
fn values(src: &mut Src, widths: &[usize], bulk: usize, exhaustive: usize, cx: &mut Cx) -> Vec<Vec<u128>> {
    let total: usize = widths.iter().sum();
    if total <= exhaustive {
        cx.label("all operand values");
        return (0..1u128 << total)
            .map(|x| {
                let mut k = 0;
                widths.iter().map(|&w| {
                    let v = x >> k & mask(w);
                    k += w;
                    v
                }).collect()
            })
            .collect();
    }
    let one = |s: &mut Src| {
        let mut v: Vec<u128> = vec![];
        for &w in widths {
            let x = edge(s, w, &v);
            v.push(x);
        }
        v
    };
    let mut out = vec![];
    for _ in 0..6 {
        out.push(one(src));
    }
    let seed = src.word();
    let mut s2 = Src::random(seed);
    while out.len() < bulk {
        out.push(one(&mut s2));
    }
    out
}

fn finish(c: &CR, p: &Prog, n: usize, src: &mut Src, cx: &mut Cx, outer: Option<(CR, ModuleId)>) -> R {
    let width: usize = p.bits();
    // in a module: wrap it
    let main = match outer {
        None => c.clone(),
        Some((mut m, mid)) => {
            cx.label("built inside a module");
            let mut args = vec![];
            for _ in 0..width {
                args.push(ok(m.input(), "input")?);
            }
            let outs = ok(m.module(&mid, &args), "module")?;
            for o in outs {
                ok(m.output(o), "output")?;
            }
            m
        }
    };
    check!(main.input_len() == width, "the circuit has {} inputs instead of {width}", main.input_len());
    let want_out: usize = p.outs.iter().map(|x| x.1).sum();
    check!(main.output_len() == want_out, "the circuit has {} outputs instead of {want_out}", main.output_len());
    let exhaustive = if cx.thorough { 14 } else { 10 };
    let vals = values(src, &p.ins, if cx.thorough { 512 } else { 256 }, exhaustive, cx);
    let asg: Vec<Vec<bool>> = vals.iter().map(|v| split(p, v)).collect();
    let models: Vec<Vec<u128>> = vals.iter().map(|v| eval(&p.es, n, v)).collect();
    let want = |i: usize| -> Vec<bool> { p.outs.iter().flat_map(|&(e, w)| to_bits(models[i][e], w)).collect() };
    let bad = |i: usize, got: &[bool], _w: &[bool]| -> Option<Fail> {
        let mut k = 0;
        for &(e, w) in &p.outs {
            let g = from_bits(&got[k..k + w]);
            k += w;
            if g != models[i][e] {
                return Some(Fail {
                    msg: format!("width {n}, inputs {:?}: v{e} is {g} instead of {}: {}", vals[i], models[i][e], describe(&p.es, e)),
                    sig: None,
                });
            }
        }
        Some(Fail { msg: "outputs differ".into(), sig: None })
    };
    verify(&main, &asg, cx, &want, &bad)
}

/// other users of the circuit libraries in the same circuit: configurations, builders
fn neighbours(src: &mut Src, c: &mut CR) -> R {
    for _ in 0..src.range(1, 2) {
        let n = src.range(1, 9);
        let built: Result<(), BuildCircuitError> = (|| {
            match src.usize(6) {
                0 => drop(all_widths!(n, int_lab, (c)).map_err(|_| n)),
                1 => {
                    let add = build_add_circuit(c, n)?;
                    let sub = build_sub_circuit(c, n, add)?;
                    build_less_circuit(c, n, sub)?;
                }
                2 => {
                    let add = build_add_circuit(c, n)?;
                    build_mul_circuit(c, n, add)?;
                }
                3 => drop(build_xor_circuit(c, n)?),
                4 => drop(build_eq_circuit(c, n)?),
                _ => {
                    let n = n.max(4);
                    let p = [3u32, 5, 7, 11, 13][src.usize(if n < 6 { 1 } else { 5 })];
                    drop(fp_widths!(n, fp_lab, (c, &p.into(), 4)).map_err(|_| n))
                }
            }
            Ok(())
        })();
        ok(built, "library configuration beside another")?;
    }
    Ok(())
}

/// other content of the circuit a program is built in: constants, gates over them, unrelated modules
pub fn mess(src: &mut Src, c: &mut CR) -> R {
    if src.chance(1, 6) {
        neighbours(src, c)?;
    }
    for _ in 0..src.range(1, 4) {
        let k = c.get_const_gates();
        match src.usize(8) {
            3 if !k.is_empty() => {
                ok(c.not(&k[src.usize(k.len())]), "not")?;
            }
            4 if !k.is_empty() => {
                let (a, b) = (k[src.usize(k.len())], k[src.usize(k.len())]);
                ok(c.xor(&a, &b), "xor")?;
            }
            5 if !k.is_empty() => {
                let (a, b) = (k[src.usize(k.len())], k[src.usize(k.len())]);
                ok(c.and(&a, &b), "and")?;
            }
            6 => {
                // a module of its own, called or not
                let (mid, mut s) = c.sub_circuit();
                let a = ok(s.input(), "input")?;
                let b = ok(s.constant(src.bool()), "constant")?;
                let x = ok(s.xor(&a, &b), "xor")?;
                ok(s.output(x), "output")?;
                if !k.is_empty() && src.bool() {
                    ok(c.module(&mid, &[k[src.usize(k.len())]]), "module")?;
                }
            }
            7 => {
                let _ = c.sub_circuit();
            }
            _ => {
                ok(c.constant(src.bool()), "constant")?;
            }
        }
    }
    Ok(())
}
/// where a program is built: directly in a circuit or in a module called from one, which may hold
/// other content already
pub fn place(src: &mut Src, cx: &mut Cx) -> R<(CR, CR, Option<ModuleId>)> {
    let mut main = new_circuit();
    if src.chance(1, 3) {
        mess(src, &mut main)?;
        cx.label("in a circuit that holds other gates");
    }
    if src.chance(1, 4) {
        let (mid, mut sub) = main.sub_circuit();
        if src.chance(1, 3) {
            mess(src, &mut sub)?;
        }
        Ok((main, sub, Some(mid)))
    } else {
        Ok((main.clone(), main, None))
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Ring,
    Order,
    Numbers,
}

fn ring(k: usize, a: usize, b: usize) -> E {
    match k {
        0 => E::Add(a, b),
        1 => E::Sub(a, b),
        _ => E::Mul(a, b),
    }
}

#[allow(non_snake_case)]
fn ints(N: usize, src: &mut Src, cx: &mut Cx, f: Focus) -> R {
    let (main, mut c, mid) = place(src, cx)?;
    let build_in_main = mid.is_some() && src.bool();
    let mut lab = all_widths!(N, int_lab, (if build_in_main { &main } else { &c }))?;
    if build_in_main {
        // as the field arithmetic does it: configuration of the outer circuit, redirected
        lab.set_circuit(&c);
    }
    let mut p = Prog::new();
    // expressions of the lab's values
    let mut vars: Vec<usize> = vec![];
    let mut flags: Vec<(GateId, usize)> = vec![];
    let n_in = if f == Focus::Numbers { src.usize(3) } else { src.range(1, 3) };
    for _ in 0..n_in {
        let e = p.input(N);
        lab.new()?;
        vars.push(e);
    }
    let steps = src.range(1, if N > 40 { 4 } else { 9 });
    let mut muls = 0;
    let max_muls = if N > 64 { 1 } else if N > 16 { 2 } else { 4 };
    for _ in 0..steps {
        if src.chance(1, 12) {
            mess(src, &mut c)?;
        }
        let w: [u32; 12] = match f {
            //             add sub mul neg asg eq  ne cmp const pick shift one/zero
            Focus::Ring => [4, 4, 4, 2, 5, 2, 1, 0, 0, 2, 0, 1],
            Focus::Order => [2, 2, 0, 1, 0, 0, 0, 9, 1, 3, 0, 1],
            Focus::Numbers => [1, 1, 0, 1, 0, 0, 0, 0, 5, 4, 6, 2],
        };
        let mut op = src.weighted(&w);
        if vars.is_empty() && op <= 7 || vars.is_empty() && op == 10 {
            op = 8;
        }
        if op == 2 && muls >= max_muls {
            op = 0;
        }
        let nv = vars.len();
        let pick = |src: &mut Src| if src.bool() { src.usize(nv) } else { nv - 1 - src.usize(nv.min(2)) };
        match op {
            0..=2 => {
                let (i, j) = (pick(src), pick(src));
                lab.op(op, i, j);
                let e = p.e(ring(op, vars[i], vars[j]));
                muls += (op == 2) as usize;
                vars.push(e);
            }
            3 => {
                let i = pick(src);
                lab.neg(i);
                let e = p.e(E::Neg(vars[i]));
                vars.push(e);
            }
            4 => {
                let (i, j) = (pick(src), pick(src));
                let k = if muls >= max_muls { src.usize(2) } else { src.usize(3) };
                muls += (k == 2) as usize;
                // a clone made before keeps its value
                if src.bool() {
                    lab.copy(i);
                    vars.push(vars[i]);
                }
                lab.op_assign(k, i, j);
                vars[i] = p.e(ring(k, vars[i], vars[j]));
                cx.label("in-place operation");
            }
            5..=7 => {
                let (i, j) = (pick(src), pick(src));
                let k = if op == 7 { 2 + src.usize(4) } else { op - 5 };
                let g = lab.test(k, i, j)?;
                let (a, b) = (vars[i], vars[j]);
                let e = p.e(match k {
                    0 => E::Eq(a, b),
                    1 => E::Ne(a, b),
                    2 => E::Lt(a, b),
                    3 => E::Le(a, b),
                    4 => E::Gt(a, b),
                    _ => E::Ge(a, b),
                });
                flags.push((g, e));
                cx.label(if k < 2 { "equality" } else { "comparison" });
            }
            8 => {
                let v = edge(src, N, &[]);
                cx.label("number constant");
                if N % 8 != 0 {
                    cx.label("number constant at a width that is not whole bytes");
                }
                if v >> (N - 1) == 1 {
                    cx.label("number constant with the top bit set");
                }
                cx.log(|| format!("constant {v}"));
                lab.number(&big(v))?;
                let e = p.e(E::Const(v));
                vars.push(e);
            }
            9 => {
                // from given bits: bits of values, flags, or fresh inputs
                let mut ids = vec![];
                let mut ps = vec![];
                let mut fresh = 0;
                // another value with some of its bits replaced: the rest are the same gates
                let blend = !vars.is_empty() && src.chance(if f == Focus::Numbers { 1 } else { 2 }, 3);
                let k = if blend {
                    let (i, j) = (pick(src), pick(src));
                    let (a, b) = (src.usize(N + 1), src.usize(N + 1));
                    for t in 0..N {
                        let from = if (a.min(b)..a.max(b)).contains(&t) { j } else { i };
                        ids.push(lab.bit(from, t));
                        ps.push((vars[from], t));
                    }
                    cx.label("shares some of its gates with another value");
                    0
                } else {
                    match src.usize(4) {
                        0 => N,
                        1 => src.usize(N.min(3) + 1),
                        _ => src.usize(N + 1),
                    }
                };
                for _ in 0..k {
                    match src.usize(3) {
                        0 if fresh < 4 => {
                            fresh += 1;
                            ids.push(ok(c.input(), "input")?);
                            ps.push((p.input(1), 0));
                        }
                        1 if !flags.is_empty() => {
                            let (g, e) = flags[src.usize(flags.len())];
                            ids.push(g);
                            ps.push((e, 0));
                        }
                        _ if !vars.is_empty() => {
                            let i = src.usize(vars.len());
                            let j = src.usize(N);
                            ids.push(lab.bit(i, j));
                            ps.push((vars[i], j));
                        }
                        _ => {
                            let b = src.bool();
                            ids.push(ok(c.constant(b), "constant")?);
                            let e = p.e(E::Const(b as u128));
                            ps.push((e, 0));
                        }
                    }
                }
                if ids.len() < N {
                    cx.label("padding");
                }
                lab.given(ids)?;
                let e = p.e(E::Pick(ps));
                vars.push(e);
            }
            10 => {
                let i = pick(src);
                let left = src.bool();
                let s = src.usize(if left { N + 1 } else { N });
                cx.label(if left { "left shift" } else { "right shift" });
                lab.shift(left, i, s)?;
                let e = p.e(if left { E::Shl(vars[i], s) } else { E::Shr(vars[i], s) });
                vars.push(e);
            }
            _ => {
                let b = src.bool();
                lab.unit(b)?;
                let e = p.e(E::Const(b as u128));
                vars.push(e);
            }
        }
    }
    for (i, e) in vars.iter().enumerate() {
        lab.output(i)?;
        p.outs.push((*e, N));
    }
    for (g, e) in &flags {
        ok(c.output(*g), "output")?;
        p.outs.push((*e, 1));
    }
    cx.log(|| format!("width {N}, input widths {:?}, program {}", p.ins, describe(&p.es, p.es.len())));
    cx.label(match N {
        1 => "width 1",
        2..=7 => "widths 2-7",
        8..=16 => "widths 8-16",
        17..=40 => "widths 17-40",
        _ => "widths above 40",
    });
    cx.nontrivial = match f {
        Focus::Ring => p.es.iter().any(|e| matches!(e, E::Add(..) | E::Sub(..) | E::Mul(..) | E::Neg(_))),
        Focus::Order => p.es.iter().any(|e| matches!(e, E::Lt(a, b) | E::Le(a, b) | E::Gt(a, b) | E::Ge(a, b) if a != b)),
        Focus::Numbers => p.es.iter().any(|e| matches!(e, E::Shl(..) | E::Shr(..) | E::Const(_) | E::Pick(_))),
    };
    finish(&c, &p, N, src, cx, mid.map(|m| (main, m)))
}

fn mid_width(src: &mut Src) -> usize {
    [17, 20, 24, 31, 32, 33, 18, 19, 21, 22, 23, 25, 28, 30, 36, 40][src.usize(16)]
}
fn width(src: &mut Src, thorough: bool) -> usize {
    match src.weighted(if thorough { &[8, 6, 4, 2, 1] } else { &[40, 30, 12, 4, 1] }) {
        0 => src.range(1, 6),
        1 => src.range(7, 16),
        2 => mid_width(src),
        3 => [48, 63, 64, 65, 47, 50, 56, 66, 72, 80][src.usize(10)],
        _ => [100, 127, 128, 96, 112][src.usize(5)],
    }
}
fn any_int(src: &mut Src, cx: &mut Cx, f: Focus) -> R {
    let n = width(src, cx.thorough);
    ints(n, src, cx, f)
}
/// now and then, not for the circuits handed to the exporter
fn wide(src: &mut Src, per: u64) -> bool {
    src.chance(1, per) && !TAP.with(|t| t.borrow().is_some())
}
fn c13(src: &mut Src, cx: &mut Cx) -> R {
    if wide(src, 120) {
        return crate::p_wide::ints(src, cx, 0);
    }
    any_int(src, cx, Focus::Ring)
}
fn c14(src: &mut Src, cx: &mut Cx) -> R {
    if wide(src, 100) {
        return crate::p_wide::ints(src, cx, 1);
    }
    any_int(src, cx, Focus::Order)
}
fn c15(src: &mut Src, cx: &mut Cx) -> R {
    if wide(src, 200) {
        return crate::p_wide::ints(src, cx, 2);
    }
    any_int(src, cx, Focus::Numbers)
}

fn bitop(k: usize, a: usize, b: usize) -> E {
    match k {
        0 => E::And(a, b),
        1 => E::Or(a, b),
        _ => E::Xor(a, b),
    }
}

#[allow(non_snake_case)]
fn bitvec(N: usize, src: &mut Src, cx: &mut Cx) -> R {
    let (main, mut c, mid) = place(src, cx)?;
    let mut lab = all_widths!(N, bits_lab, (&c))?;
    let mut p = Prog::new();
    let mut vars: Vec<usize> = vec![];
    let mut flags: Vec<(GateId, usize)> = vec![];
    for _ in 0..src.range(1, 3) {
        let e = p.input(N);
        lab.new()?;
        vars.push(e);
    }
    for _ in 0..src.range(1, 10) {
        if src.chance(1, 12) {
            mess(src, &mut c)?;
        }
        let nv = vars.len();
        let pick = |src: &mut Src| if src.bool() { src.usize(nv) } else { nv - 1 - src.usize(nv.min(2)) };
        match src.weighted(&[2, 3, 3, 3, 6, 2, 2, 4, 3]) {
            0 => {
                let i = pick(src);
                lab.not(i);
                let e = p.e(E::Not(vars[i]));
                vars.push(e);
            }
            k @ 1..=3 => {
                let (i, j) = (pick(src), pick(src));
                lab.op(k - 1, i, j);
                let e = p.e(bitop(k - 1, vars[i], vars[j]));
                vars.push(e);
            }
            4 => {
                let (i, j) = (pick(src), pick(src));
                let k = src.usize(3);
                if src.bool() {
                    lab.copy(i);
                    vars.push(vars[i]);
                }
                lab.op_assign(k, i, j);
                vars[i] = p.e(bitop(k, vars[i], vars[j]));
                cx.label("in-place operation");
            }
            k @ 5..=6 => {
                let (i, j) = (pick(src), pick(src));
                let g = lab.test(k == 5, i, j)?;
                let (a, b) = (vars[i], vars[j]);
                let e = p.e(if k == 5 { E::Eq(a, b) } else { E::Ne(a, b) });
                flags.push((g, e));
                cx.label("equality");
            }
            7 => {
                let (i, j) = (pick(src), pick(src));
                let (sel, se) = match src.usize(3) {
                    0 => {
                        let g = ok(c.input(), "input")?;
                        (g, p.input(1))
                    }
                    1 if !flags.is_empty() => flags[src.usize(flags.len())],
                    _ => {
                        let i = src.usize(nv);
                        let j = src.usize(N);
                        (lab.bit(i, j), p.e(E::Pick(vec![(vars[i], j)])))
                    }
                };
                lab.mux(i, j, &sel)?;
                let e = p.e(E::Mux(vars[i], vars[j], se));
                vars.push(e);
                cx.label("multiplexer");
            }
            _ => {
                let mut ids = vec![];
                let mut ps = vec![];
                let k = match src.usize(4) {
                    0 => N,
                    1 => {
                        // another vector with some of its bits replaced
                        let (i, j) = (pick(src), pick(src));
                        let (a, b) = (src.usize(N + 1), src.usize(N + 1));
                        for t in 0..N {
                            let from = if (a.min(b)..a.max(b)).contains(&t) { j } else { i };
                            ids.push(lab.bit(from, t));
                            ps.push((vars[from], t));
                        }
                        cx.label("shares some of its gates with another value");
                        0
                    }
                    _ => src.usize(N + 1),
                };
                for _ in 0..k {
                    if !flags.is_empty() && src.chance(1, 4) {
                        let (g, e) = flags[src.usize(flags.len())];
                        ids.push(g);
                        ps.push((e, 0));
                    } else {
                        let i = src.usize(nv);
                        let j = src.usize(N);
                        ids.push(lab.bit(i, j));
                        ps.push((vars[i], j));
                    }
                }
                if ids.len() < N {
                    cx.label("padding");
                }
                lab.given(ids)?;
                let e = p.e(E::Pick(ps));
                vars.push(e);
            }
        }
    }
    for (i, e) in vars.iter().enumerate() {
        lab.output(i)?;
        p.outs.push((*e, N));
    }
    for (g, e) in &flags {
        ok(c.output(*g), "output")?;
        p.outs.push((*e, 1));
    }
    cx.log(|| format!("width {N}, input widths {:?}, program {}", p.ins, describe(&p.es, p.es.len())));
    cx.nontrivial = p.es.len() > p.ins.len();
    finish(&c, &p, N, src, cx, mid.map(|m| (main, m)))
}
fn c12(src: &mut Src, cx: &mut Cx) -> R {
    if wide(src, 200) {
        return crate::p_wide::bitvec(src, cx);
    }
    let n = match src.weighted(&[4, 3, 2, 1]) {
        0 => src.range(1, 6),
        1 => src.range(7, 16),
        2 => mid_width(src),
        _ => [48, 63, 64, 65, 100, 127, 128, 47, 50, 56, 66, 72, 80, 96, 112][src.usize(15)],
    };
    bitvec(n, src, cx)
}

/// C16: one builder at one width, called with arbitrary arguments
fn c16(src: &mut Src, cx: &mut Cx) -> R {
    if wide(src, 100) {
        return crate::p_wide::builders(src, cx);
    }
    let mut c = new_circuit();
    // unrelated gates and modules before
    if src.chance(1, 3) {
        mess(src, &mut c)?;
        cx.label("in a circuit that holds other gates");
    }
    let kinds = src.range(1, 3);
    // caller's inputs
    let n0 = match src.weighted(&[40, 20, 6, 1]) {
        0 => src.range(1, 6),
        1 => src.range(7, 16),
        2 => src.range(17, 40),
        _ => src.range(41, 64),
    };
    let mut p = Prog::new();
    let mut pool: Vec<(GateId, usize, usize)> = vec![];
    let inputs: Vec<GateId> = (0..2 * n0).map(|_| c.input()).collect::<Result<_, _>>().map_err(|e| Fail { msg: format!("input: {e}"), sig: None })?;
    let ea = p.input(n0);
    let eb = p.input(n0);
    for j in 0..n0 {
        pool.push((inputs[j], ea, j));
    }
    for j in 0..n0 {
        pool.push((inputs[n0 + j], eb, j));
    }
    // (expression, width of its operands, width of its result, operand expressions)
    struct Item {
        what: &'static str,
        n: usize,
        a: Vec<(usize, usize)>,
        b: Vec<(usize, usize)>,
        w: usize,
    }
    let mut items: Vec<Item> = vec![];
    for k in 0..kinds {
        let n = if k == 0 { n0 } else { src.range(1, n0.min(12)) };
        let what = ["add", "sub", "mul", "mul_extend", "less", "less_or_eq", "larger", "larger_or_eq", "not", "and", "or", "xor", "eq", "neq"][src.usize(14)];
        if n > 20 && what.starts_with("mul") && src.bool() {
            continue;
        }
        let r: Result<ModuleId, BuildCircuitError> = (|| {
            Ok(match what {
                "add" => build_add_circuit(&mut c, n)?,
                "sub" => {
                    let add = build_add_circuit(&mut c, n)?;
                    build_sub_circuit(&mut c, n, add)?
                }
                "mul" => {
                    let add = build_add_circuit(&mut c, n)?;
                    build_mul_circuit(&mut c, n, add)?
                }
                "mul_extend" => {
                    let add = build_add_circuit(&mut c, 2 * n)?;
                    build_mul_extend_circuit(&mut c, n, add)?
                }
                "not" => build_not_circuit(&mut c, n)?,
                "and" => build_and_circuit(&mut c, n)?,
                "or" => build_or_circuit(&mut c, n)?,
                "xor" => build_xor_circuit(&mut c, n)?,
                "eq" => build_eq_circuit(&mut c, n)?,
                "neq" => {
                    let eq = build_eq_circuit(&mut c, n)?;
                    build_neq_circuit(&mut c, n, eq)?
                }
                _ => {
                    let add = build_add_circuit(&mut c, n)?;
                    let sub = build_sub_circuit(&mut c, n, add)?;
                    let less = build_less_circuit(&mut c, n, sub)?;
                    match what {
                        "less" => less,
                        "larger_or_eq" => build_larger_or_eq_circuit(&mut c, n, less)?,
                        _ => {
                            let eq = build_eq_circuit(&mut c, n)?;
                            let le = build_less_or_eq_circuit(&mut c, n, less, eq)?;
                            if what == "less_or_eq" {
                                le
                            } else {
                                build_larger_circuit(&mut c, n, le)?
                            }
                        }
                    }
                }
            })
        })();
        let mid = ok(r, "builder")?;
        cx.label(what);
        let w = match what {
            "mul_extend" => 2 * n,
            "add" | "sub" | "mul" | "not" | "and" | "or" | "xor" => n,
            _ => 1,
        };
        let n_args = if what == "not" { n } else { 2 * n };
        let module = ok(c.get_module(&mid), "get_module")?;
        check!(module.input_len() == n_args, "the {what} module of width {n} has {} inputs instead of {n_args}", module.input_len());
        check!(module.output_len() == w, "the {what} module of width {n} has {} outputs instead of {w}", module.output_len());
        // several calls with straight, swapped or arbitrary arguments
        for call in 0..src.range(1, if n > 16 { 1 } else { 2 }) {
            let args: Vec<(GateId, usize, usize)> = if call == 0 && n == n0 && n_args == 2 * n && src.chance(2, 3) {
                pool[..2 * n0].to_vec()
            } else {
                cx.label("arbitrary arguments");
                (0..n_args).map(|_| pool[src.usize(pool.len())]).collect()
            };
            let ids: Vec<GateId> = args.iter().map(|x| x.0).collect();
            let outs = ok(c.module(&mid, &ids), "module")?;
            check!(outs.len() == w, "{} results instead of {w}", outs.len());
            for o in &outs {
                ok(c.output(*o), "output")?;
            }
            let exprs: Vec<(usize, usize)> = args.iter().map(|x| (x.1, x.2)).collect();
            let (a, b) = if what == "not" { (exprs.clone(), vec![]) } else { (exprs[..n].to_vec(), exprs[n..].to_vec()) };
            items.push(Item { what, n, a, b, w });
        }
    }
    let exhaustive = if cx.thorough { 14 } else { 10 };
    let vals = values(src, &p.ins, if cx.thorough { 512 } else { 256 }, exhaustive, cx);
    let asg: Vec<Vec<bool>> = vals.iter().map(|v| split(&p, v)).collect();
    let get = |i: usize, ps: &[(usize, usize)]| -> u128 { ps.iter().enumerate().map(|(k, &(e, j))| (vals[i][e] >> j & 1) << k).sum() };
    let result = |i: usize, it: &Item| -> u128 {
        let (a, b, m) = (get(i, &it.a), get(i, &it.b), mask(it.n));
        let s = |x: u128| x ^ 1 << (it.n - 1);
        match it.what {
            "add" => a + b & m,
            "sub" => a.wrapping_sub(b) & m,
            "mul" => a * b & m,
            "mul_extend" => a * b,
            "less" => (s(a) < s(b)) as u128,
            "less_or_eq" => (s(a) <= s(b)) as u128,
            "larger" => (s(a) > s(b)) as u128,
            "larger_or_eq" => (s(a) >= s(b)) as u128,
            "not" => !a & m,
            "and" => a & b,
            "or" => a | b,
            "xor" => a ^ b,
            "eq" => (a == b) as u128,
            _ => (a != b) as u128,
        }
    };
    cx.log(|| items.iter().map(|it| format!("{} width {} a={:?} b={:?}", it.what, it.n, it.a, it.b)).collect::<Vec<_>>().join("; "));
    cx.nontrivial = !items.is_empty();
    if items.is_empty() {
        return Ok(());
    }
    let want = |i: usize| -> Vec<bool> { items.iter().flat_map(|it| to_bits(result(i, it), it.w)).collect() };
    let bad = |i: usize, got: &[bool], _w: &[bool]| -> Option<Fail> {
        let mut k = 0;
        for it in &items {
            let g = from_bits(&got[k..k + it.w]);
            k += it.w;
            let w = result(i, it);
            if g != w {
                return Some(Fail { msg: format!("{} of width {} on {} and {} is {g} instead of {w}", it.what, it.n, get(i, &it.a), get(i, &it.b)), sig: None });
            }
        }
        Some(Fail { msg: "outputs differ".into(), sig: None })
    };
    verify(&c, &asg, cx, &want, &bad)
}

// ---------------------------------------------------------------- fields

fn bitlen(p: u128) -> usize {
    128 - p.leading_zeros() as usize
}
/// odd p >= 3 with at most `bits` bits
fn odd(src: &mut Src, bits: usize) -> u128 {
    let small = [3u128, 5, 7, 11, 13, 9, 15, 17, 19, 31, 21, 29];
    let v = match src.weighted(&[5, 3, 2, 1, 1]) {
        0 => small[src.usize(small.len())],
        1 => raw(src, bits),
        2 => mask(bits),
        3 => (1 << (bits - 1)) + 1,
        _ => mask(bits).saturating_sub(2 * src.below(4) as u128),
    };
    let v = (v & mask(bits)) | 1;
    if v < 3 {
        3
    } else {
        v
    }
}
fn mod_inv_pow2(p: u128, r: usize) -> u128 {
    // Newton iteration modulo 2^128
    let mut x = 1u128;
    for _ in 0..8 {
        x = x.wrapping_mul(2u128.wrapping_sub(p.wrapping_mul(x)));
    }
    x & mask(r)
}
fn mulmod(a: u128, b: u128, p: u128) -> u128 {
    let m = (big(a) * big(b)) % big(p);
    m.to_u128s()
}
trait ToU {
    fn to_u128s(&self) -> u128;
}
impl ToU for BigUint {
    fn to_u128s(&self) -> u128 {
        self.to_u64_digits().iter().take(2).enumerate().map(|(i, &d)| (d as u128) << (64 * i)).sum()
    }
}
fn powmod2(p: u128, mut e: usize) -> u128 {
    // 2^e mod p
    let mut v = 1 % p;
    while e > 0 {
        v = mulmod(v, 2, p);
        e -= 1;
    }
    v
}
/// inverse of 2^r modulo odd p
fn inv_r(p: u128, r: usize) -> u128 {
    let half = (p + 1) / 2;
    let mut v = 1 % p;
    for _ in 0..r {
        v = mulmod(v, half, p);
    }
    debug_assert_eq!(mulmod(v, powmod2(p, r), p), 1 % p);
    v
}
/// reduced element, edge biased
fn elem(src: &mut Src, p: u128, prev: &[u128]) -> u128 {
    let v = match src.weighted(&[3, 4, 3, 3, 3]) {
        0 => src.below(3) as u128,
        1 => raw(src, bitlen(p)),
        2 => p - 1 - (src.below(3) as u128).min(p - 1),
        3 => (p / 2).wrapping_add(src.below(3) as u128),
        _ => {
            if prev.is_empty() {
                raw(src, bitlen(p))
            } else {
                let q = prev[src.usize(prev.len())] % p;
                match src.usize(3) {
                    0 => q,
                    1 => (p - q) % p,
                    _ => (p - q + 1) % p,
                }
            }
        }
    };
    v % p
}
/// element tuples: all if few
fn elements(src: &mut Src, p: u128, k: usize, bulk: usize, limit: u128, cx: &mut Cx) -> Vec<Vec<u128>> {
    let mut total = 1u128;
    for _ in 0..k {
        total = total.saturating_mul(p);
    }
    if total <= limit {
        cx.label("all operand values");
        return (0..total)
            .map(|mut x| {
                (0..k)
                    .map(|_| {
                        let v = x % p;
                        x /= p;
                        v
                    })
                    .collect()
            })
            .collect();
    }
    let one = |s: &mut Src| {
        let mut v = vec![];
        for _ in 0..k {
            let x = elem(s, p, &v);
            v.push(x);
        }
        v
    };
    let mut out: Vec<Vec<u128>> = (0..6).map(|_| one(src)).collect();
    let seed = src.word();
    let mut s2 = Src::random(seed);
    while out.len() < bulk {
        out.push(one(&mut s2));
    }
    out
}

const FP_W: [usize; 35] = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 28, 30, 32, 33, 34, 36, 40, 48, 56, 64, 65, 66, 96, 128];

#[derive(Debug, Clone)]
enum F {
    In(usize),
    Const(u128),
    Add(usize, usize),
    Sub(usize, usize),
    Neg(usize),
    Mul(usize, usize),
    Eq(usize, usize),
    Ne(usize, usize),
}
fn feval(es: &[F], p: u128, ins: &[u128]) -> Vec<u128> {
    let mut v: Vec<u128> = vec![];
    for e in es {
        let x = match *e {
            F::In(k) => ins[k],
            F::Const(c) => c,
            F::Add(a, b) => (v[a] + v[b]) % p,
            F::Sub(a, b) => (v[a] + p - v[b]) % p,
            F::Neg(a) => (p - v[a]) % p,
            F::Mul(a, b) => mulmod(v[a], v[b], p),
            F::Eq(a, b) => (v[a] == v[b]) as u128,
            F::Ne(a, b) => (v[a] != v[b]) as u128,
        };
        v.push(x);
    }
    v
}
pub const SIG_MUL: &str = "fp-product-is-zero";

fn fop(k: usize, a: usize, b: usize) -> F {
    match k {
        0 => F::Add(a, b),
        1 => F::Sub(a, b),
        _ => F::Mul(a, b),
    }
}

#[allow(non_snake_case)]
fn field(N: usize, src: &mut Src, cx: &mut Cx, products: bool) -> R {
    // products need room for the Montgomery reduction
    let (p, r) = if products {
        let pb = (N - 2) / 2;
        let p = odd(src, pb.max(2).min(60));
        let p = if bitlen(p) * 2 + 2 > N { 3 } else { p };
        let b = bitlen(p);
        (p, src.range(b, N - 2 - b))
    } else {
        let p = odd(src, (N - 2).min(120));
        let p = if bitlen(p) + 2 > N { 3 } else { p };
        (p, src.range(bitlen(p), N))
    };
    let (main, mut c, mid) = place(src, cx)?;
    // another field of the same width in the same circuit
    let rival = src.usize(8);
    let (p2, r2) = if p > 3 && src.bool() { (p - 2, r) } else { (3, 2) };
    if rival == 1 {
        fp_widths!(N, fp_lab, (&c, &big(p2), r2))?;
    }
    let mut lab = fp_widths!(N, fp_lab, (&c, &big(p), r))?;
    if rival == 2 {
        fp_widths!(N, fp_lab, (&c, &big(p2), r2))?;
    }
    if rival == 1 || rival == 2 {
        cx.label("beside another field of the same width");
    }
    let mut es: Vec<F> = vec![];
    let mut vars: Vec<usize> = vec![];
    let mut flags: Vec<(GateId, usize)> = vec![];
    let n_in = src.range(1, 2);
    for k in 0..n_in {
        lab.new()?;
        vars.push(k);
        es.push(F::In(k));
    }
    let steps = src.range(1, if N > 32 { 2 } else if products { 3 } else { 6 });
    for _ in 0..steps {
        if src.chance(1, 12) {
            mess(src, &mut c)?;
        }
        let nv = vars.len();
        let pick = |src: &mut Src| if src.bool() { src.usize(nv) } else { nv - 1 - src.usize(nv.min(2)) };
        //                          add sub neg asg eq ne const mul mulasg
        let w: [u32; 9] = if products { [0, 0, 0, 0, 0, 0, 1, 4, 2] } else { [4, 4, 2, 4, 2, 1, 3, 0, 0] };
        let op = src.weighted(&w);
        match op {
            0 | 1 | 7 => {
                let (i, j) = (pick(src), pick(src));
                let k = op.min(2);
                lab.op(k, i, j);
                es.push(fop(k, vars[i], vars[j]));
                vars.push(es.len() - 1);
            }
            2 => {
                let i = pick(src);
                lab.neg(i);
                es.push(F::Neg(vars[i]));
                vars.push(es.len() - 1);
            }
            3 | 8 => {
                let (i, j) = (pick(src), pick(src));
                let k = if op == 8 { 2 } else { src.usize(2) };
                if src.bool() {
                    lab.copy(i);
                    vars.push(vars[i]);
                }
                lab.op_assign(k, i, j);
                es.push(fop(k, vars[i], vars[j]));
                vars[i] = es.len() - 1;
                cx.label("in-place operation");
            }
            4 | 5 => {
                let (i, j) = (pick(src), pick(src));
                let g = lab.test(op == 4, i, j)?;
                flags.push((g, es.len()));
                es.push(if op == 4 { F::Eq(vars[i], vars[j]) } else { F::Ne(vars[i], vars[j]) });
                cx.label("equality");
            }
            _ => {
                let k = match src.usize(4) {
                    0 => {
                        lab.unit(false)?;
                        0
                    }
                    1 => {
                        lab.unit(true)?;
                        1
                    }
                    2 => {
                        let k = elem(src, p, &[]);
                        let mut ids = vec![];
                        for b in to_bits(k, bitlen(p)) {
                            ids.push(ok(c.constant(b), "constant")?);
                        }
                        lab.given(ids);
                        k
                    }
                    _ => {
                        let k = elem(src, p, &[]);
                        lab.number(&big(k));
                        k
                    }
                };
                es.push(F::Const(k));
                vars.push(es.len() - 1);
            }
        }
    }
    let mut outs: Vec<(usize, usize)> = vec![];
    for (i, e) in vars.iter().enumerate() {
        if src.chance(1, 4) {
            for g in lab.ids(i) {
                ok(c.output(g), "output")?;
            }
        } else {
            lab.output(i)?;
        }
        outs.push((*e, N));
    }
    for (g, e) in &flags {
        ok(c.output(*g), "output")?;
        outs.push((*e, 1));
    }
    cx.log(|| format!("width {N}, p={p}, R=2^{r}, program {es:?}"));
    cx.label(match N {
        0..=8 => "widths 4-8",
        9..=16 => "widths 9-16",
        17..=40 => "widths 17-40",
        _ => "widths above 40",
    });
    let main = match mid {
        None => c.clone(),
        Some(mid) => {
            cx.label("built inside a module");
            let mut m = main;
            let mut args = vec![];
            for _ in 0..N * n_in {
                args.push(ok(m.input(), "input")?);
            }
            for o in ok(m.module(&mid, &args), "module")? {
                ok(m.output(o), "output")?;
            }
            m
        }
    };
    check!(main.input_len() == N * n_in, "{} inputs instead of {}", main.input_len(), N * n_in);
    let want_out: usize = outs.iter().map(|x| x.1).sum();
    check!(main.output_len() == want_out, "{} outputs instead of {want_out}", main.output_len());
    let bulk = if cx.thorough { 512 } else if N > 20 { 64 } else { 256 };
    let vals = elements(src, p, n_in, bulk, if cx.thorough { 4096 } else { 600 }, cx);
    let asg: Vec<Vec<bool>> = vals.iter().map(|v| v.iter().flat_map(|&x| to_bits(x, N)).collect()).collect();
    let models: Vec<Vec<u128>> = vals.iter().map(|v| feval(&es, p, v)).collect();
    cx.nontrivial = if products {
        es.iter().any(|e| matches!(e, F::Mul(..)))
    } else {
        es.iter().any(|e| matches!(e, F::Add(..) | F::Sub(..) | F::Neg(_)))
    };
    let want = |i: usize| -> Vec<bool> { outs.iter().flat_map(|&(e, w)| to_bits(models[i][e], w)).collect() };
    let bad = |i: usize, got: &[bool], _w: &[bool]| -> Option<Fail> {
        let mut k = 0;
        let mut known = None;
        // in the order of the expressions, so that the first wrong one is blamed
        let mut g: Vec<(usize, u128)> = vec![];
        for &(e, w) in &outs {
            g.push((e, from_bits(&got[k..k + w])));
            k += w;
        }
        g.sort();
        for (e, g) in g {
            let want = models[i][e];
            if g != want {
                let msg = format!("width {N}, p={p}, R=2^{r}, inputs {:?}: v{e} is {g} instead of {want}: {:?}", vals[i], es);
                if matches!(es[e], F::Mul(..)) && g == 0 {
                    known = Some(Fail { msg, sig: Some(SIG_MUL) });
                } else {
                    return Some(Fail { msg, sig: None });
                }
            }
        }
        known
    };
    if products {
        // every assignment is checked even if some show the listed finding
        return products_verify(&main, &asg, cx, &want, &bad);
    }
    verify(&main, &asg, cx, &want, &bad)
}

/// like verify, but goes on after a failure with a signature
pub fn products_verify(c: &CR, asg: &[Vec<bool>], cx: &mut Cx, want: &dyn Fn(usize) -> Vec<bool>, bad: &dyn Fn(usize, &[bool], &[bool]) -> Option<Fail>) -> R {
    for (k, a) in asg.chunks(flat::LANES).enumerate() {
        let w = |i: usize| want(k * flat::LANES + i);
        let b = |i: usize, g: &[bool], x: &[bool]| match bad(k * flat::LANES + i, g, x) {
            Some(f) if f.sig.is_some() => None,
            o => o,
        };
        verify(c, a, cx, &w, &b)?;
    }
    // then look for the signature
    verify(c, asg, cx, want, bad)
}

fn c17(src: &mut Src, cx: &mut Cx) -> R {
    if wide(src, 100) {
        return crate::p_wide::field(src, cx, false);
    }
    let n = fp_width(src, cx.thorough);
    field(n, src, cx, false)
}
fn c19(src: &mut Src, cx: &mut Cx) -> R {
    if wide(src, 100) {
        return crate::p_wide::field(src, cx, true);
    }
    let n = fp_width(src, cx.thorough).max(6);
    field(n, src, cx, true)
}
fn fp_width(src: &mut Src, thorough: bool) -> usize {
    let k = match src.weighted(if thorough { &[20, 12, 4, 1] } else { &[60, 30, 3, 0] }) {
        0 => src.usize(9),
        1 => src.range(9, 19),
        2 => src.range(20, 29),
        _ => src.range(30, 34),
    };
    FP_W[k]
}

#[allow(non_snake_case)]
fn mont(N: usize, src: &mut Src, cx: &mut Cx) -> R {
    let b = src.range(2, (N - 2) / 2).min(60);
    let p = odd(src, b);
    let p = if bitlen(p) * 2 + 2 > N { 3 } else { p };
    let r = src.range(bitlen(p), N - 2 - bitlen(p));
    let mut c = new_circuit();
    if src.chance(1, 3) {
        mess(src, &mut c)?;
    }
    if src.chance(1, 8) {
        let (p2, r2) = if p > 3 { (p - 2, r) } else { (3, 2) };
        fp_widths!(N, fp_lab, (&c, &big(p2), r2))?;
        cx.label("beside another field of the same width");
    }
    let lab = fp_widths!(N, fp_lab, (&c, &big(p), r))?;
    cx.log(|| format!("width {N}, p={p}, R=2^{r}"));
    // the constant
    let inv = mod_inv_pow2(p, r);
    let want_c = (1u128 << r) - inv;
    let pmi = lab.p_minus_inv();
    check!(pmi == big(want_c), "width {N}, p={p}, R=2^{r}: p_minus_inv is {pmi} instead of {want_c}");
    check!(lab.params() == (big(p), r), "the configuration has p and r_exp {:?}", lab.params());
    cx.comparisons += 1;
    let mut ids = vec![];
    for _ in 0..N {
        ids.push(ok(c.input(), "input")?);
    }
    let outs = ok(c.module(&lab.mont_red_mid(), &ids), "module")?;
    check!(outs.len() == N, "{} results instead of {N}", outs.len());
    for o in outs {
        ok(c.output(o), "output")?;
    }
    let pr = p << r;
    let vals: Vec<u128> = if pr <= if cx.thorough { 8192 } else { 1024 } {
        cx.label("all operand values");
        (0..pr).collect()
    } else {
        let one = |s: &mut Src| {
            let v = match s.weighted(&[2, 5, 3, 3, 3]) {
                0 => s.below(4) as u128,
                1 => raw(s, bitlen(pr)),
                2 => pr - 1 - s.below(4) as u128,
                // around multiples of p and of R
                3 => (p * (raw(s, r))).wrapping_add(s.below(3) as u128).wrapping_sub(1),
                _ => (elem(s, p, &[]) << r).wrapping_add(s.below(3) as u128).wrapping_sub(1),
            };
            v % pr
        };
        let mut v: Vec<u128> = (0..6).map(|_| one(src)).collect();
        let mut s2 = Src::random(src.word());
        while v.len() < 300 {
            v.push(one(&mut s2));
        }
        v
    };
    let ri = inv_r(p, r);
    let asg: Vec<Vec<bool>> = vals.iter().map(|&v| to_bits(v, N)).collect();
    let want = |i: usize| to_bits(mulmod(vals[i] % p, ri, p), N);
    let bad = |i: usize, got: &[bool], w: &[bool]| -> Option<Fail> {
        Some(Fail { msg: format!("width {N}, p={p}, R=2^{r}: the reduction of {} is {} instead of {}", vals[i], from_bits(got), from_bits(w)), sig: None })
    };
    cx.label(match N {
        0..=8 => "widths 6-8",
        9..=16 => "widths 9-16",
        17..=40 => "widths 17-40",
        _ => "widths above 40",
    });
    cx.nontrivial = true;
    verify(&c, &asg, cx, &want, &bad)
}
fn c18(src: &mut Src, cx: &mut Cx) -> R {
    if wide(src, 100) {
        return crate::p_wide::mont(src, cx);
    }
    let n = fp_width(src, cx.thorough).clamp(6, 96);
    mont(n, src, cx)
}

pub fn props() -> Vec<Prop> {
    const W: &str = "widths 1-25, 28, 30-33, 36, 40, 47, 48, 50, 56, 63-66, 72, 80, 96, 100, 112, 127-130, 136, 160, 192, 200, 255-257 (thorough: also 300, 384, 520)";
    vec![
        Prop { id: "C12", run: c12, quick: 16_000, thorough: 1_500_000, rule: "at least one operation", assumptions: &[W], fixed: no_fixed },
        Prop { id: "C13", run: c13, quick: 7_000, thorough: 400_000, rule: "at least one addition, subtraction, product or negation", assumptions: &[W], fixed: no_fixed },
        Prop { id: "C14", run: c14, quick: 7_000, thorough: 400_000, rule: "a comparison of two different values", assumptions: &[W], fixed: no_fixed },
        Prop { id: "C15", run: c15, quick: 15_000, thorough: 500_000, rule: "a constant, a shift, or an integer made of given bits", assumptions: &[W, "left shifts by at most the width, right shifts by less"], fixed: no_fixed },
        Prop { id: "C16", run: c16, quick: 20_000, thorough: 600_000, rule: "at least one builder called", assumptions: &["widths 1-520 (products: 1-150)", "the modules a builder is given have the right function and width"], fixed: no_fixed },
        Prop { id: "C17", run: c17, quick: 3_000, thorough: 100_000, rule: "at least one sum, difference or negation", assumptions: &["odd p >= 3, R = 2^r > p, r <= width", "operands are reduced", "widths 4-24, 28, 30, 32-34, 36, 40, 48, 56, 64-66, 72, 80, 96, 128-130, 144, 160 (thorough: also 200, 258)"], fixed: no_fixed },
        Prop { id: "C18", run: c18, quick: 3_000, thorough: 100_000, rule: "every case (a configuration and at least 300 operands)", assumptions: &["odd p >= 3, R = 2^r > p, width >= bits(p)+r+2"], fixed: no_fixed },
        Prop { id: "C19", run: c19, quick: 2_000, thorough: 60_000, rule: "at least one product", assumptions: &["odd p >= 3, R = 2^r > p, width >= bits(p)+r+2", "operands are reduced"], fixed: no_fixed },
    ]
}
