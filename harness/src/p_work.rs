//! C26: the work and the exported document are proportional to the circuit, whatever the sharing.
use crate::bristol::*;
use crate::engine::*;
use crate::model::*;
use circuit_converters::*;
use std::io::{BufWriter, Write};

/// processor seconds of this thread
fn cpu() -> f64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // 3: CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0);
    t[0] as f64 + t[1] as f64 * 1e-9
}
fn timed<T>(f: impl FnOnce() -> T) -> (T, f64) {
    let t = cpu();
    let r = f();
    (r, cpu() - t)
}

/// A circuit and the value of every gate for one assignment.
struct Known {
    c: CR,
    ids: Vec<GateId>,
    vals: Vec<bool>,
    inputs: Vec<bool>,
    outs: Vec<bool>,
    consts: usize,
}
impl Known {
    fn new(g: &Gen, inputs: Vec<bool>) -> R<Known> {
        let mut k = Known { c: g.circuit(), ids: vec![], vals: vec![], inputs: inputs.clone(), outs: vec![], consts: 0 };
        for b in inputs {
            let id = ok(k.c.input(), "input")?;
            k.ids.push(id);
            k.vals.push(b);
        }
        Ok(k)
    }
    fn gate(&mut self, op: usize, x: usize, y: usize) -> R<usize> {
        let (ix, iy) = (self.ids[x], self.ids[y]);
        let (a, b) = (self.vals[x], self.vals[y]);
        let (r, v) = match op {
            0 => (self.c.not(&ix), !a),
            1 => (self.c.and(&ix, &iy), a & b),
            2 => (self.c.or(&ix, &iy), a | b),
            _ => (self.c.xor(&ix, &iy), a ^ b),
        };
        self.ids.push(ok(r, "gate")?);
        self.vals.push(v);
        Ok(self.ids.len() - 1)
    }
    fn call(&mut self, id: &ModuleId, args: &[usize], f: &dyn Fn(&[bool]) -> Vec<bool>) -> R<Vec<usize>> {
        let ids: Vec<GateId> = args.iter().map(|&x| self.ids[x]).collect();
        let vals: Vec<bool> = args.iter().map(|&x| self.vals[x]).collect();
        let outs = ok(self.c.module(id, &ids), "module")?;
        let res = f(&vals);
        check!(outs.len() == res.len(), "module call returned {} gates, the module has {} outputs", outs.len(), res.len());
        let at = self.ids.len();
        self.ids.extend(outs);
        self.vals.extend(res);
        Ok((at..self.ids.len()).collect())
    }
    fn output(&mut self, x: usize) -> R {
        ok(self.c.output(self.ids[x]), "output")?;
        self.outs.push(self.vals[x]);
        Ok(())
    }
}

/// a small module: a straight line of gates over k inputs with k outputs, and its function
fn small_module(g: &Gen, c: &mut CR, rng: &mut Rng, k: usize, gates: usize) -> R<(ModuleId, Vec<(usize, usize, usize)>)> {
    let _ = g;
    let (id, mut s) = c.sub_circuit();
    let mut ids = vec![];
    for _ in 0..k {
        ids.push(ok(s.input(), "input")?);
    }
    let mut prog = vec![];
    for _ in 0..gates.max(k) {
        let n = ids.len();
        let (x, y) = (n - 1 - (rng.next() as usize) % n.min(k + 1), n - 1 - (rng.next() as usize) % n.min(k + 1));
        let op = (rng.next() % 6) as usize;
        let r = match op {
            0 => s.not(&ids[x]),
            1 => s.and(&ids[x], &ids[y]),
            2 => s.or(&ids[x], &ids[y]),
            _ => s.xor(&ids[x], &ids[y]),
        };
        ids.push(ok(r, "gate")?);
        prog.push((op, x, y));
    }
    for i in ids.len() - k..ids.len() {
        ok(s.output(ids[i]), "output")?;
    }
    Ok((id, prog))
}
fn run_prog(prog: &[(usize, usize, usize)], k: usize, args: &[bool]) -> Vec<bool> {
    let mut v = args.to_vec();
    for &(op, x, y) in prog {
        let (a, b) = (v[x], v[y]);
        v.push(match op {
            0 => !a,
            1 => a & b,
            2 => a | b,
            _ => a ^ b,
        });
    }
    v[v.len() - k..].to_vec()
}

const SHAPES: [&str; 12] = ["ladder", "one gate feeding all", "many outputs", "calls in a row", "calls of calls", "many modules", "results used by many", "each level uses all of the last", "many results of one call", "constants", "many inputs", "many arguments of calls"];

fn build(shape: usize, n: usize, seed: u64) -> R<(Gen, Known)> {
    let g = Gen::new();
    let mut rng = Rng::new(seed);
    let n_in = 2 + (rng.next() % 6) as usize;
    let inputs = (0..n_in).map(|_| rng.next() & 16 == 0).collect();
    let mut k = Known::new(&g, inputs)?;
    let window = 2 + (rng.next() % 6) as usize;
    let mut below = |m: usize| (rng.next() % m as u64) as usize;
    match shape {
        0 | 2 => {
            for _ in 0..n {
                let len = k.ids.len();
                let op = below(7);
                let (x, y) = (len - 1 - below(len.min(window)), len - 1 - below(len.min(window)));
                let i = k.gate(op, x, y)?;
                if shape == 2 && below(2) == 0 {
                    k.output(i)?;
                }
            }
        }
        1 => {
            let hub = k.gate(3, 0, 1)?;
            for _ in 0..n {
                let last = k.ids.len() - 1;
                if below(2) == 0 {
                    k.gate(3, last, hub)?;
                } else {
                    k.gate(1 + below(3), hub, last)?;
                }
            }
        }
        3 | 6 => {
            let w = 2 + below(3);
            let per = w + below(5);
            let (id, prog) = small_module(&g, &mut k.c.clone(), &mut Rng::new(seed ^ 77), w, per)?;
            if shape == 3 {
                let mut cur: Vec<usize> = (0..w).map(|i| i % n_in).collect();
                for _ in 0..n / per {
                    cur = k.call(&id, &cur, &|a| run_prog(&prog, w, a))?;
                }
                for i in cur {
                    k.output(i)?;
                }
            } else {
                let args: Vec<usize> = (0..w).map(|i| i % n_in).collect();
                let res = k.call(&id, &args, &|a| run_prog(&prog, w, a))?;
                for _ in 0..n {
                    let last = k.ids.len() - 1;
                    k.gate(1 + below(4), last, res[below(w)])?;
                }
            }
        }
        4 => {
            // every module calls the one below twice, the second time on the results of the first
            let w = 2 + below(3);
            let per = w + below(4);
            let (mut id, prog) = small_module(&g, &mut k.c.clone(), &mut Rng::new(seed ^ 99), w, per)?;
            let depth = (n / per).max(2).ilog2();
            for _ in 0..depth {
                let (upper, mut s) = k.c.sub_circuit();
                let mut cur = vec![];
                for _ in 0..w {
                    cur.push(ok(s.input(), "input")?);
                }
                for _ in 0..2 {
                    cur = ok(s.module(&id, &cur), "module")?;
                }
                for x in cur {
                    ok(s.output(x), "output")?;
                }
                id = upper;
            }
            let args: Vec<usize> = (0..w).map(|i| i % n_in).collect();
            let res = k.call(&id, &args, &|a| {
                let mut v = a.to_vec();
                for _ in 0..1u64 << depth {
                    v = run_prog(&prog, w, &v);
                }
                v
            })?;
            for i in res {
                k.output(i)?;
            }
        }
        9 => {
            // a chain of gates, every other operand a constant of its own
            let mut acc = 0;
            while k.ids.len() < n {
                let b = below(2) == 0;
                k.ids.push(ok(k.c.constant(b), "constant")?);
                k.vals.push(b);
                k.consts += 1;
                let len = k.ids.len();
                // an operation the constant does not fix
                let op = if below(2) == 0 { 3 } else if b { 1 } else { 2 };
                acc = k.gate(op, acc, len - 1)?;
                if below(2) == 0 {
                    let x = below(len);
                    acc = k.gate(3, x, acc)?;
                }
            }
        }
        10 | 11 => {
            let w = n / 2;
            while k.inputs.len() < if shape == 10 { w } else { 0 } {
                let b = below(2) == 0;
                k.ids.push(ok(k.c.input(), "input")?);
                k.vals.push(b);
                k.inputs.push(b);
            }
            if shape == 10 {
                let mut acc = 0;
                for i in 1..k.inputs.len() {
                    acc = k.gate(3, acc, i)?;
                    if below(3) == 0 {
                        acc = k.gate(1 + below(2), acc, below(i))?;
                    }
                }
            } else {
                // the parity of all arguments
                let (id, mut s) = k.c.sub_circuit();
                let mut acc = ok(s.input(), "input")?;
                for _ in 1..w {
                    let x = ok(s.input(), "input")?;
                    acc = ok(s.xor(&acc, &x), "gate")?;
                }
                ok(s.output(acc), "output")?;
                for _ in 0..3 {
                    let len = k.ids.len();
                    let args: Vec<usize> = (0..w).map(|_| below(len)).collect();
                    k.call(&id, &args, &|a| vec![a.iter().fold(false, |x, y| x ^ y)])?;
                }
            }
        }
        8 => {
            let w = 1 + below(3);
            let m = n / 3;
            let (id, mut s) = k.c.sub_circuit();
            let mut ids = vec![];
            for _ in 0..w {
                ids.push(ok(s.input(), "input")?);
            }
            let mut prog = vec![];
            for _ in 0..m {
                let len = ids.len();
                let (op, x, y) = (below(7), len - 1 - below(len.min(window)), len - 1 - below(len.min(window)));
                let r = match op {
                    0 => s.not(&ids[x]),
                    1 => s.and(&ids[x], &ids[y]),
                    2 => s.or(&ids[x], &ids[y]),
                    _ => s.xor(&ids[x], &ids[y]),
                };
                ids.push(ok(r, "gate")?);
                prog.push((op, x, y));
            }
            for i in &ids[w..] {
                ok(s.output(*i), "output")?;
            }
            let args: Vec<usize> = (0..w).map(|i| i % n_in).collect();
            let res = k.call(&id, &args, &|a| run_prog(&prog, m, a))?;
            // some results are outputs, some are used by gates, some by both
            let mut acc = res[0];
            for &x in &res {
                let how = below(4);
                if how & 1 == 0 {
                    k.output(x)?;
                }
                if how > 1 {
                    acc = k.gate(3, acc, x)?;
                }
            }
            k.output(acc)?;
        }
        5 => {
            let mut cur = vec![0, 1];
            for j in 0..n / 8 {
                let (id, prog) = small_module(&g, &mut k.c.clone(), &mut Rng::new(seed ^ j as u64), 2, 8)?;
                cur = k.call(&id, &cur, &|a| run_prog(&prog, 2, a))?;
            }
        }
        _ => {
            // layers of a few gates, each a combination of two of the layer below, all outputs at the end
            let w = 2 + below(12);
            let mut layer: Vec<usize> = (0..n_in).collect();
            for _ in 0..n / w {
                let mut next = vec![];
                for _ in 0..w {
                    let (x, y) = (layer[below(layer.len())], layer[below(layer.len())]);
                    next.push(k.gate(1 + below(5), x, y)?);
                }
                layer = next;
            }
        }
    }
    let last = k.ids.len() - 1;
    for i in [last, last - 1, last / 2] {
        k.output(i)?;
    }
    Ok((g, k))
}

/// seconds of building, evaluating, exporting and importing a circuit of about n gates
fn work(shape: usize, n: usize, seed: u64, cx: &mut Cx) -> R<[f64; 4]> {
    let (built, t_build) = timed(|| build(shape, n, seed));
    let (_g, k) = built?;
    let mut ev = NXAOBoolEvaluator::new(k.c.clone());
    let (r, t_eval) = timed(|| ev.eval_output(&k.inputs));
    check!(ok(r, "evaluation")? == k.outs, "{}: wrong outputs", SHAPES[shape]);
    let mut w = BristolNXAOWriter::new(k.c.clone(), BufWriter::new(Vec::new()));
    let (r, t_export) = timed(|| w.write(k.inputs.len(), None));
    let consts = ok(r, "export")?;
    check!(consts.len() == k.consts, "{} constant bits for {} constants", consts.len(), k.consts);
    let all: Vec<bool> = k.inputs.iter().chain(&consts).copied().collect();
    ok(w.writer.flush(), "flush")?;
    let text = ok(String::from_utf8(w.writer.get_ref().clone()), "exported bytes")?;
    let lines = text.lines().skip(4).filter(|l| !l.is_empty()).count();
    let gates = k.c.num_gate();
    let limit = gates + k.outs.len();
    check!(lines <= limit, "{}: {lines} gate lines for {gates} gates and {} outputs", SHAPES[shape], k.outs.len());
    let Verdict::Valid(d) = strict(&text) else { return fail("the exported document is not well-formed") };
    let words: Vec<u64> = all.iter().map(|&b| b as u64).collect();
    check!(d.eval(&words).iter().map(|v| v & 1 == 1).eq(k.outs.iter().copied()), "{}: wrong document", SHAPES[shape]);
    let mut back = new_circuit();
    let (r, t_import) = timed(|| BristolNXAOReader::new().read(text.as_bytes(), &mut back));
    ok(r, "import")?;
    let eqw = d.gates.iter().filter(|l| l.op == Op::Eqw).count();
    check!(back.num_gate() <= lines + eqw, "{}: import makes {} gates of {lines} lines", SHAPES[shape], back.num_gate());
    let out = ok(NXAOBoolEvaluator::new(back).eval_output(&all), "evaluation of the imported circuit")?;
    check!(out == k.outs, "{}: wrong outputs of the imported circuit", SHAPES[shape]);
    cx.comparisons += 5;
    Ok([t_build, t_eval, t_export, t_import])
}

/// on any machine the larger of the two circuits takes about a second, and about ten times as long
const SLOW: f64 = 3.0;
const GROWTH: f64 = 30.0;

fn c26(src: &mut Src, cx: &mut Cx) -> R {
    let shape = src.usize(SHAPES.len());
    let seed = src.word();
    // sharing that doubles the work of every level shows in small circuits
    let n = 40 + src.usize(if cx.thorough { 60_000 } else { 36_000 });
    let big = 8 * n;
    cx.log(|| format!("{} of about {n} and {big} gates (seed {seed})", SHAPES[shape]));
    cx.label(SHAPES[shape]);
    let small = work(shape, n, seed, cx)?;
    let large = work(shape, big, seed, cx)?;
    cx.log(|| format!("seconds (build, evaluate, export, import): {small:.3?} then {large:.3?}"));
    if std::env::var("VH_TIMES").is_ok() {
        eprintln!("{:28} n={n:6} {small:.3?} {large:.3?}", SHAPES[shape]);
    }
    for (i, what) in ["building", "evaluating", "exporting", "importing"].iter().enumerate() {
        check!(
            large[i] < SLOW || large[i] < GROWTH * small[i],
            "{}: {what} takes {:.3} s for about {n} gates and {:.1} s for about {big} gates",
            SHAPES[shape],
            small[i],
            large[i]
        );
    }
    cx.nontrivial = n > 1000;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        run: c26,
        quick: 150,
        thorough: 3_000,
        rule: "two circuits of the same shape, of more than 1000 and of eight times as many gates",
        assumptions: &["a time is taken as too long only if it exceeds 3 s of processor time and 30 times that of a circuit an eighth as large"],
        fixed: shapes,
    }]
}
fn shapes(_: bool) -> Vec<Vec<u64>> {
    (0..SHAPES.len() as u64).map(|s| vec![s]).collect()
}
