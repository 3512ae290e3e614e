//! C12-C19 at widths above 128 bits (fields: above 64), with big-integer oracles.
use crate::engine::*;
use crate::model::*;
use crate::p_lib::*;
use circuit_converters::arithmetic::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

type B = BigUint;
macro_rules! dispatch {
    ($n:expr, $f:ident, $a:tt, [$($w:literal)*]) => {
        match $n { $($w => $f::<$w> $a,)* _ => unreachable!("width {}", $n) }
    };
}
macro_rules! wide_widths {
    ($n:expr, $f:ident, $a:tt) => {
        dispatch!($n, $f, $a, [129 130 136 160 192 200 255 256 257 300 384 520])
    };
}
const WIDE: [usize; 12] = [129, 130, 136, 160, 192, 200, 255, 256, 257, 300, 384, 520];
macro_rules! wide_fields {
    ($n:expr, $f:ident, $a:tt) => {
        dispatch!($n, $f, $a, [65 66 72 80 96 129 130 144 160 200 258])
    };
}
const FIELDS: [usize; 11] = [65, 66, 72, 80, 96, 129, 130, 144, 160, 200, 258];

fn width(src: &mut Src, cx: &Cx) -> usize {
    // memory grows with the cube of the width
    if cx.thorough && src.chance(1, 100) {
        WIDE[9 + src.usize(3)]
    } else {
        WIDE[if src.chance(1, 4) { 4 + src.usize(5) } else { src.usize(4) }]
    }
}
fn n(v: u32) -> B {
    B::from(v)
}
fn pow(k: usize) -> B {
    n(1) << k
}
fn low(v: &B, k: usize) -> B {
    v % pow(k)
}
fn bits(v: &B, k: usize) -> Vec<bool> {
    (0..k).map(|i| v.bit(i as u64)).collect()
}
fn num(b: &[bool]) -> B {
    let mut bytes = vec![0u8; b.len() / 8 + 1];
    for (i, &x) in b.iter().enumerate() {
        bytes[i / 8] |= (x as u8) << (i % 8);
    }
    B::from_bytes_le(&bytes)
}
fn raw(src: &mut Src, k: usize) -> B {
    num(&src.bits(k))
}
/// a k-bit value, biased to the edges, to word boundaries and to earlier values
fn edge(src: &mut Src, k: usize, prev: &[B]) -> B {
    let m = pow(k);
    let d = n(src.below(3) as u32);
    let v = match src.weighted(&[2, 5, 3, 2, 2, 3, 3]) {
        0 => d,
        1 => raw(src, k),
        2 => match src.usize(3) {
            0 => &m + &m - 1u32 - d,
            1 => pow(k - 1) + d,
            _ => &m + pow(k - 1) - 1u32 - d,
        },
        3 => pow(src.usize(k)),
        4 => {
            // around a multiple of a word
            let w = [32, 64, 128][src.usize(3)].min(k - 1);
            if src.bool() {
                pow(w) + d
            } else {
                &m + pow(w) - 1u32 - d
            }
        }
        5 if !prev.is_empty() => &prev[src.usize(prev.len())] + d,
        6 if !prev.is_empty() => &m + &m - (&prev[src.usize(prev.len())] % &m) - d,
        _ => {
            let a = src.usize(k);
            low(&((pow(src.range(1, k)) - 1u32) << a), k)
        }
    };
    v % m
}

#[derive(Debug, Clone)]
enum X {
    In(usize),
    Num(B),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Neg(usize),
    Shl(usize, usize),
    Shr(usize, usize),
    Not(usize),
    And(usize, usize),
    Or(usize, usize),
    Xor(usize, usize),
    /// the first with the bits from..to of the second
    Blend(usize, usize, usize, usize),
    /// (first, second, bit k of the third)
    Mux(usize, usize, usize, usize),
    /// 0 eq, 1 neq, 2 less, 3 less_or_eq, 4 larger, 5 larger_or_eq
    Test(usize, usize, usize),
}
fn eval(es: &[X], w: usize, ins: &[B]) -> Vec<B> {
    let m = pow(w);
    let mut v: Vec<B> = vec![];
    for e in es {
        let x = match e {
            X::In(k) => ins[*k].clone(),
            X::Num(b) => b.clone(),
            X::Add(a, b) => (&v[*a] + &v[*b]) % &m,
            X::Sub(a, b) => (&v[*a] + &m - &v[*b]) % &m,
            X::Mul(a, b) => (&v[*a] * &v[*b]) % &m,
            X::Neg(a) => (&m - &v[*a]) % &m,
            X::Shl(a, s) => (&v[*a] << *s) % &m,
            X::Shr(a, s) => {
                let sign = v[*a].bit(w as u64 - 1);
                let high = if sign { &m - pow(w - s) } else { n(0) };
                (&v[*a] >> *s) + high
            }
            X::Not(a) => &m - 1u32 - &v[*a],
            X::And(a, b) => &v[*a] & &v[*b],
            X::Or(a, b) => &v[*a] | &v[*b],
            X::Xor(a, b) => &v[*a] ^ &v[*b],
            X::Blend(a, b, from, to) => {
                let m = pow(*to) - pow(*from);
                &v[*a] - (&v[*a] & &m) + (&v[*b] & &m)
            }
            X::Mux(a, b, s, k) => if v[*s].bit(*k as u64) { v[*b].clone() } else { v[*a].clone() },
            X::Test(k, a, b) => {
                let half = pow(w - 1);
                let s = |x: &B| (x + &half) % &m;
                let (a, b) = (&v[*a], &v[*b]);
                let t = match k {
                    0 => a == b,
                    1 => a != b,
                    2 => s(a) < s(b),
                    3 => s(a) <= s(b),
                    4 => s(a) > s(b),
                    _ => s(a) >= s(b),
                };
                n(t as u32)
            }
        };
        v.push(x);
    }
    v
}

/// checks outputs (expression, bits) of the circuit on some operand tuples
fn judge(c: &CR, in_widths: &[usize], es: &[X], w: usize, outs: &[(usize, usize)], src: &mut Src, cx: &mut Cx) -> R {
    let total_in: usize = in_widths.iter().sum();
    let total_out: usize = outs.iter().map(|x| x.1).sum();
    check!(c.input_len() == total_in, "{} inputs instead of {total_in}", c.input_len());
    check!(c.output_len() == total_out, "{} outputs instead of {total_out}", c.output_len());
    let mut vals: Vec<Vec<B>> = vec![];
    for _ in 0..if cx.thorough { 200 } else { 48 } {
        let mut t: Vec<B> = vec![];
        for &k in in_widths {
            let x = edge(src, k, &t);
            t.push(x);
        }
        vals.push(t);
    }
    let asg: Vec<Vec<bool>> = vals.iter().map(|v| v.iter().zip(in_widths).flat_map(|(x, &k)| bits(x, k)).collect()).collect();
    let models: Vec<Vec<B>> = vals.iter().map(|v| eval(es, w, v)).collect();
    let want = |i: usize| -> Vec<bool> { outs.iter().flat_map(|&(e, k)| bits(&models[i][e], k)).collect() };
    let bad = |i: usize, got: &[bool], _: &[bool]| -> Option<Fail> {
        let mut k = 0;
        for &(e, l) in outs {
            let g = num(&got[k..k + l]);
            k += l;
            if g != models[i][e] {
                return Some(Fail { msg: format!("width {w}, inputs {:?}: v{e} is {g} instead of {}: {es:?}", vals[i], models[i][e]), sig: None });
            }
        }
        None
    };
    verify(c, &asg, cx, &want, &bad)
}

/// the circuit that is run: the one built into, or one that calls it as a module
fn caller(c: &CR, place: (CR, Option<ModuleId>), inputs: usize) -> R<CR> {
    match place {
        (_, None) => Ok(c.clone()),
        (mut m, Some(mid)) => {
            let mut args = vec![];
            for _ in 0..inputs {
                args.push(ok(m.input(), "input")?);
            }
            for o in ok(m.module(&mid, &args), "module")? {
                ok(m.output(o), "output")?;
            }
            Ok(m)
        }
    }
}

pub fn ints(src: &mut Src, cx: &mut Cx, focus: usize) -> R {
    let w = width(src, cx);
    cx.label("widths above 128");
    let (main, mut c, mid) = place(src, cx)?;
    let mut lab = wide_widths!(w, int_lab, (&c))?;
    let mut es: Vec<X> = vec![];
    let mut vars: Vec<usize> = vec![];
    let mut flags: Vec<(GateId, usize)> = vec![];
    let mut in_widths = vec![];
    for k in 0..src.range(1, 2) {
        lab.new()?;
        in_widths.push(w);
        es.push(X::In(k));
        vars.push(k);
    }
    if src.chance(1, 3) {
        // an integer made of fewer bits
        let k = src.range(1, w);
        let mut ids = vec![];
        for _ in 0..k {
            ids.push(ok(c.input(), "input")?);
        }
        lab.given(ids)?;
        in_widths.push(k);
        es.push(X::In(in_widths.len() - 1));
        vars.push(es.len() - 1);
    }
    let mut muls = 0;
    for _ in 0..src.range(1, 4) {
        let nv = vars.len();
        let (i, j) = (src.usize(nv), src.usize(nv));
        let ring = |k: usize, a: usize, b: usize| [X::Add(a, b), X::Sub(a, b), X::Mul(a, b)][k].clone();
        //            op  assign neg test shift number blend
        let weights: [u32; 7] = [[6, 4, 2, 1, 0, 1, 1], [1, 1, 1, 8, 0, 3, 3], [1, 1, 0, 0, 6, 6, 1]][focus];
        match src.weighted(&weights) {
            k @ (0 | 1) => {
                let mut op = src.usize(3);
                if op == 2 && (muls > 0 || w > 300 || focus > 0) {
                    op = src.usize(2);
                }
                muls += (op == 2) as usize;
                es.push(ring(op, vars[i], vars[j]));
                if k == 0 {
                    lab.op(op, i, j);
                    vars.push(es.len() - 1);
                } else {
                    lab.op_assign(op, i, j);
                    vars[i] = es.len() - 1;
                }
            }
            2 => {
                lab.neg(i);
                es.push(X::Neg(vars[i]));
                vars.push(es.len() - 1);
            }
            3 => {
                let k = src.usize(if focus == 1 { 6 } else { 2 });
                let g = lab.test(k, i, j)?;
                es.push(X::Test(k, vars[i], vars[j]));
                flags.push((g, es.len() - 1));
            }
            4 => {
                let left = src.bool();
                let s = if left { src.usize(w + 1) } else { src.usize(w) };
                lab.shift(left, i, s)?;
                es.push(if left { X::Shl(vars[i], s) } else { X::Shr(vars[i], s) });
                vars.push(es.len() - 1);
            }
            6 => {
                // shares its other gates with value i
                let (a, b) = (src.usize(w + 1), src.usize(w + 1));
                let (from, to) = (a.min(b), a.max(b));
                let ids = (0..w).map(|t| lab.bit(if from <= t && t < to { j } else { i }, t)).collect();
                lab.given(ids)?;
                es.push(X::Blend(vars[i], vars[j], from, to));
                vars.push(es.len() - 1);
            }
            _ => {
                let v = edge(src, w, &[]);
                lab.number(&v)?;
                es.push(X::Num(v));
                vars.push(es.len() - 1);
            }
        }
    }
    finish(src, cx, w, c, (main, mid), &es, &vars, &flags, &in_widths, &|i| lab.output(i))
}

#[allow(clippy::too_many_arguments)]
fn finish(src: &mut Src, cx: &mut Cx, w: usize, mut c: CR, place: (CR, Option<ModuleId>), es: &[X], vars: &[usize], flags: &[(GateId, usize)], in_widths: &[usize], output: &dyn Fn(usize) -> R) -> R {
    let mut outs = vec![];
    for (i, &e) in vars.iter().enumerate() {
        output(i)?;
        outs.push((e, w));
    }
    for (g, e) in flags {
        ok(c.output(*g), "output")?;
        outs.push((*e, 1));
    }
    cx.log(|| format!("width {w}, input widths {in_widths:?}, program {es:?}"));
    cx.nontrivial = es.len() > in_widths.len();
    let top = caller(&c, place, in_widths.iter().sum())?;
    judge(&top, in_widths, es, w, &outs, src, cx)
}

pub fn bitvec(src: &mut Src, cx: &mut Cx) -> R {
    let w = width(src, cx);
    cx.label("widths above 128");
    let (main, mut c, mid) = place(src, cx)?;
    let mut lab = wide_widths!(w, bits_lab, (&c))?;
    let mut es: Vec<X> = vec![];
    let mut vars: Vec<usize> = vec![];
    let mut flags: Vec<(GateId, usize)> = vec![];
    let mut in_widths = vec![];
    for k in 0..src.range(1, 2) {
        lab.new()?;
        in_widths.push(w);
        es.push(X::In(k));
        vars.push(k);
    }
    if src.chance(1, 3) {
        let k = src.range(1, w);
        let mut ids = vec![];
        for _ in 0..k {
            ids.push(ok(c.input(), "input")?);
        }
        lab.given(ids)?;
        in_widths.push(k);
        es.push(X::In(in_widths.len() - 1));
        vars.push(es.len() - 1);
    }
    for _ in 0..src.range(1, 6) {
        let nv = vars.len();
        let (i, j) = (src.usize(nv), src.usize(nv));
        let op = |k: usize, a: usize, b: usize| [X::And(a, b), X::Or(a, b), X::Xor(a, b)][k].clone();
        match src.weighted(&[3, 3, 1, 3, 3, 2]) {
            5 => {
                let (a, b) = (src.usize(w + 1), src.usize(w + 1));
                let (from, to) = (a.min(b), a.max(b));
                let ids = (0..w).map(|t| lab.bit(if from <= t && t < to { j } else { i }, t)).collect();
                lab.given(ids)?;
                es.push(X::Blend(vars[i], vars[j], from, to));
                vars.push(es.len() - 1);
            }
            0 => {
                let k = src.usize(3);
                lab.op(k, i, j);
                es.push(op(k, vars[i], vars[j]));
                vars.push(es.len() - 1);
            }
            1 => {
                let k = src.usize(3);
                lab.op_assign(k, i, j);
                es.push(op(k, vars[i], vars[j]));
                vars[i] = es.len() - 1;
            }
            2 => {
                lab.not(i);
                es.push(X::Not(vars[i]));
                vars.push(es.len() - 1);
            }
            3 => {
                let eq = src.bool();
                let g = lab.test(eq, i, j)?;
                es.push(X::Test(!eq as usize, vars[i], vars[j]));
                flags.push((g, es.len() - 1));
            }
            _ => {
                let (s, k) = (src.usize(nv), src.usize(w));
                let g = lab.bit(s, k);
                lab.mux(i, j, &g)?;
                es.push(X::Mux(vars[i], vars[j], vars[s], k));
                vars.push(es.len() - 1);
            }
        }
    }
    finish(src, cx, w, c, (main, mid), &es, &vars, &flags, &in_widths, &|i| lab.output(i))
}

pub fn builders(src: &mut Src, cx: &mut Cx) -> R {
    let mut c = new_circuit();
    if src.chance(1, 3) {
        mess(src, &mut c)?;
    }
    let what = ["add", "sub", "mul", "mul_extend", "less", "less_or_eq", "larger", "larger_or_eq", "not", "and", "or", "xor", "eq", "neq"][src.usize(14)];
    let w = if what.starts_with("mul") { src.range(65, 150) } else { src.range(65, 520) };
    cx.label("widths above 64");
    cx.label(what);
    let r: Result<ModuleId, BuildCircuitError> = (|| {
        Ok(match what {
            "add" => build_add_circuit(&mut c, w)?,
            "sub" => {
                let add = build_add_circuit(&mut c, w)?;
                build_sub_circuit(&mut c, w, add)?
            }
            "mul" => {
                let add = build_add_circuit(&mut c, w)?;
                build_mul_circuit(&mut c, w, add)?
            }
            "mul_extend" => {
                let add = build_add_circuit(&mut c, 2 * w)?;
                build_mul_extend_circuit(&mut c, w, add)?
            }
            "not" => build_not_circuit(&mut c, w)?,
            "and" => build_and_circuit(&mut c, w)?,
            "or" => build_or_circuit(&mut c, w)?,
            "xor" => build_xor_circuit(&mut c, w)?,
            "eq" => build_eq_circuit(&mut c, w)?,
            "neq" => {
                let eq = build_eq_circuit(&mut c, w)?;
                build_neq_circuit(&mut c, w, eq)?
            }
            _ => {
                let add = build_add_circuit(&mut c, w)?;
                let sub = build_sub_circuit(&mut c, w, add)?;
                let less = build_less_circuit(&mut c, w, sub)?;
                let eq = build_eq_circuit(&mut c, w)?;
                let le = build_less_or_eq_circuit(&mut c, w, less, eq)?;
                match what {
                    "less" => less,
                    "larger_or_eq" => build_larger_or_eq_circuit(&mut c, w, less)?,
                    "less_or_eq" => le,
                    _ => build_larger_circuit(&mut c, w, le)?,
                }
            }
        })
    })();
    let mid = ok(r, "builder")?;
    let args = if what == "not" { w } else { 2 * w };
    let mut ids = vec![];
    for _ in 0..args {
        ids.push(ok(c.input(), "input")?);
    }
    for o in ok(c.module(&mid, &ids), "module")? {
        ok(c.output(o), "output")?;
    }
    let mut es = vec![X::In(0)];
    let mut in_widths = vec![w];
    if what != "not" {
        es.push(X::In(1));
        in_widths.push(w);
    }
    es.push(match what {
        "add" => X::Add(0, 1),
        "sub" => X::Sub(0, 1),
        "mul" | "mul_extend" => X::Mul(0, 1),
        "not" => X::Not(0),
        "and" => X::And(0, 1),
        "or" => X::Or(0, 1),
        "xor" => X::Xor(0, 1),
        t => X::Test(["eq", "neq", "less", "less_or_eq", "larger", "larger_or_eq"].iter().position(|x| *x == t).unwrap(), 0, 1),
    });
    cx.log(|| format!("the {what} module of width {w}"));
    cx.nontrivial = true;
    let last = es.len() - 1;
    let out = match es[last] {
        X::Test(..) => 1,
        _ if what == "mul_extend" => 2 * w,
        _ => w,
    };
    // the extended product is the product at twice the width
    let width = if what == "mul_extend" { 2 * w } else { w };
    judge(&c, &in_widths, &es, width, &[(last, out)], src, cx)
}

/// odd, with exactly k bits
fn odd(src: &mut Src, k: usize) -> B {
    let v = match src.usize(4) {
        0 => pow(k) - 1u32 - n(2 * src.below(2) as u32),
        1 => pow(k - 1) + 1u32 + n(2 * src.below(2) as u32),
        _ => pow(k - 1) | raw(src, k),
    };
    v | n(1)
}
/// a reduced element
fn elem(src: &mut Src, p: &B, prev: &[B]) -> B {
    let d = n(src.below(3) as u32);
    let v = match src.weighted(&[2, 4, 3, 2, 3]) {
        0 => d,
        1 => raw(src, p.bits() as usize),
        2 => p - 1u32 - d,
        3 => (p >> 1u32) + d,
        _ if !prev.is_empty() => p + p - (&prev[src.usize(prev.len())] % p) - d,
        _ => pow(src.usize(p.bits() as usize)),
    };
    v % p
}
#[derive(Debug, Clone)]
enum F {
    In(usize),
    Num(B),
    Add(usize, usize),
    Sub(usize, usize),
    Neg(usize),
    Mul(usize, usize),
    Eq(usize, usize, bool),
}

/// C17 and C19
pub fn field(src: &mut Src, cx: &mut Cx, products: bool) -> R {
    let w = FIELDS[src.usize(if cx.thorough { FIELDS.len() } else { FIELDS.len() - 2 })];
    cx.label("wide fields");
    let (b, r) = if products {
        let b = src.range(3, (w - 2) / 2);
        (b, src.range(b, w - 2 - b))
    } else {
        let b = if src.bool() { src.range(60, w - 2) } else { w - 2 };
        (b, src.range(b, w))
    };
    let p = odd(src, b);
    let (main, mut c, mid) = place(src, cx)?;
    let mut lab = wide_fields!(w, fp_lab, (&c, &p, r))?;
    let mut es: Vec<F> = vec![];
    let mut vars: Vec<usize> = vec![];
    let mut flags: Vec<(GateId, usize)> = vec![];
    let n_in = src.range(1, 2);
    for k in 0..n_in {
        lab.new()?;
        vars.push(k);
        es.push(F::In(k));
    }
    if src.chance(1, 2) {
        let v = elem(src, &p, &[]);
        lab.number(&v);
        es.push(F::Num(v));
        vars.push(es.len() - 1);
    }
    let (i, j) = (src.usize(vars.len()), src.usize(vars.len()));
    if products {
        es.push(F::Mul(vars[i], vars[j]));
        if src.bool() {
            lab.op(2, i, j);
            vars.push(es.len() - 1);
        } else {
            lab.op_assign(2, i, j);
            vars[i] = es.len() - 1;
        }
    } else {
        match src.usize(3) {
            0 => {
                lab.neg(i);
                es.push(F::Neg(vars[i]));
                vars.push(es.len() - 1);
            }
            k => {
                es.push(if k == 1 { F::Add(vars[i], vars[j]) } else { F::Sub(vars[i], vars[j]) });
                if src.bool() {
                    lab.op(k - 1, i, j);
                    vars.push(es.len() - 1);
                } else {
                    lab.op_assign(k - 1, i, j);
                    vars[i] = es.len() - 1;
                }
            }
        }
        let (i, eq) = (src.usize(vars.len()), src.bool());
        let j = vars.len() - 1;
        let g = lab.test(eq, i, j)?;
        es.push(F::Eq(vars[i], vars[j], eq));
        flags.push((g, es.len() - 1));
    }
    let mut outs = vec![];
    for (i, &e) in vars.iter().enumerate() {
        lab.output(i)?;
        outs.push((e, w));
    }
    for (g, e) in &flags {
        ok(c.output(*g), "output")?;
        outs.push((*e, 1));
    }
    cx.log(|| format!("width {w}, p={p}, R=2^{r}, program {es:?}"));
    let top = caller(&c, (main, mid), n_in * w)?;
    check!(top.input_len() == n_in * w, "{} inputs instead of {}", top.input_len(), n_in * w);
    let mut vals: Vec<Vec<B>> = vec![];
    for _ in 0..if cx.thorough { 200 } else { 40 } {
        let mut t: Vec<B> = vec![];
        for _ in 0..n_in {
            let x = elem(src, &p, &t);
            t.push(x);
        }
        vals.push(t);
    }
    let asg: Vec<Vec<bool>> = vals.iter().map(|v| v.iter().flat_map(|x| bits(x, w)).collect()).collect();
    let models: Vec<Vec<B>> = vals
        .iter()
        .map(|ins| {
            let mut v: Vec<B> = vec![];
            for e in &es {
                let x = match e {
                    F::In(k) => ins[*k].clone(),
                    F::Num(x) => x.clone(),
                    F::Add(a, b) => (&v[*a] + &v[*b]) % &p,
                    F::Sub(a, b) => (&v[*a] + &p - &v[*b]) % &p,
                    F::Neg(a) => (&p - &v[*a]) % &p,
                    F::Mul(a, b) => (&v[*a] * &v[*b]) % &p,
                    F::Eq(a, b, eq) => n(((v[*a] == v[*b]) == *eq) as u32),
                };
                v.push(x);
            }
            v
        })
        .collect();
    cx.nontrivial = true;
    let want = |i: usize| -> Vec<bool> { outs.iter().flat_map(|&(e, k)| bits(&models[i][e], k)).collect() };
    let bad = |i: usize, got: &[bool], _: &[bool]| -> Option<Fail> {
        let mut k = 0;
        let mut known = None;
        for &(e, l) in &outs {
            let g = num(&got[k..k + l]);
            k += l;
            if g != models[i][e] {
                let msg = format!("width {w}, p={p}, R=2^{r}, inputs {:?}: v{e} is {g} instead of {}: {es:?}", vals[i], models[i][e]);
                if matches!(es[e], F::Mul(..)) && g == n(0) {
                    known = Some(Fail { msg, sig: Some(SIG_MUL) });
                } else {
                    return Some(Fail { msg, sig: None });
                }
            }
        }
        known
    };
    if products {
        products_verify(&top, &asg, cx, &want, &bad)
    } else {
        verify(&top, &asg, cx, &want, &bad)
    }
}

/// C18
pub fn mont(src: &mut Src, cx: &mut Cx) -> R {
    let w = FIELDS[src.usize(if cx.thorough { FIELDS.len() } else { FIELDS.len() - 2 })];
    cx.label("wide fields");
    let b = src.range(3, (w - 2) / 2);
    let r = src.range(b, w - 2 - b);
    let p = odd(src, b);
    let mut c = new_circuit();
    let lab = wide_fields!(w, fp_lab, (&c, &p, r))?;
    cx.log(|| format!("width {w}, p={p}, R=2^{r}"));
    let pmi = lab.p_minus_inv();
    check!(pmi < pow(r) && (&pmi * &p + 1u32) % pow(r) == n(0), "width {w}, p={p}, R=2^{r}: p_minus_inv is {pmi}");
    check!(lab.params() == (p.clone(), r), "the configuration has p and r_exp {:?}", lab.params());
    let mut ids = vec![];
    for _ in 0..w {
        ids.push(ok(c.input(), "input")?);
    }
    for o in ok(c.module(&lab.mont_red_mid(), &ids), "module")? {
        ok(c.output(o), "output")?;
    }
    let pr = &p << r;
    let vals: Vec<B> = (0..if cx.thorough { 300 } else { 60 })
        .map(|_| {
            let d = n(src.below(3) as u32);
            let v = match src.weighted(&[1, 4, 2, 2, 2]) {
                0 => d,
                1 => raw(src, pr.bits() as usize),
                2 => &pr - 1u32 - d,
                3 => &p * raw(src, r) + d,
                _ => (elem(src, &p, &[]) << r) + d,
            };
            v % &pr
        })
        .collect();
    let half: B = (&p + 1u32) >> 1u32;
    let ri = half.modpow(&n(r as u32), &p);
    let asg: Vec<Vec<bool>> = vals.iter().map(|v| bits(v, w)).collect();
    let want = |i: usize| bits(&((&vals[i] * &ri) % &p), w);
    let bad = |i: usize, got: &[bool], x: &[bool]| -> Option<Fail> {
        Some(Fail { msg: format!("width {w}, p={p}, R=2^{r}: the reduction of {} is {} instead of {}", vals[i], num(got), num(x)), sig: None })
    };
    cx.nontrivial = true;
    verify(&c, &asg, cx, &want, &bad)
}
