//! C01-C05, C24: circuit construction, evaluation, structure queries, misuse, module registry.
use crate::engine::*;
use crate::model::*;
use circuit_converters::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

fn sharing(cx: &Cx) -> bool {
    ["fan-out > 1", "output also used internally", "same operand twice", "duplicate output", "dead gate", "input as output", "constant as output"].iter().any(|l| cx.has(l))
}

/// a long dependency chain or a wide fan-out, sizes the random builder does not reach
fn big_flat(src: &mut Src, cx: &mut Cx, c: &mut CR) -> R<MCirc> {
    let mut b = Build { m: MCirc::default(), c };
    let n_in = src.range(1, 8);
    for _ in 0..n_in {
        add_input(&mut b, cx)?;
    }
    let n = src.range(50, 1200);
    let chain = src.bool();
    for _ in 0..n {
        if chain {
            let last = b.m.nodes.len() - 1;
            let op = src.usize(4);
            let other = src.usize(last + 1);
            add_op(&mut b, cx, op, last, other)?;
        } else {
            let k = n_in + src.usize(3);
            let x = src.usize(k.min(b.m.nodes.len()));
            let y = src.usize(b.m.nodes.len());
            let op = src.usize(4);
            add_op(&mut b, cx, op, x, y)?;
        }
    }
    for _ in 0..src.range(1, 12) {
        random_output(&mut b, src, cx)?;
    }
    cx.label(if chain { "long chain" } else { "wide fan-out" });
    Ok(b.m)
}

fn c01(src: &mut Src, cx: &mut Cx) -> R {
    let mut g = Gen::new();
    let mut c = g.circuit();
    let m = if src.chance(1, 8000) {
        bulk_into(&mut g, &mut c, src, cx, false, 140_000)?
    } else if src.chance(1, 60) {
        big_flat(src, cx, &mut c)?
    } else {
        let p = GP::pick(src, false);
        gen_into(&mut g, &mut c, src, cx, &p)?
    };
    classify(&m, cx);
    let (asg, full) = assignments_for(&m, src, 6, 40);
    if full {
        cx.label("all assignments");
    }
    let live = m.live();
    let live_gates = (0..m.nodes.len()).filter(|&i| live[i] && !matches!(m.nodes[i], Node::In(_) | Node::Const(_))).count();
    cx.nontrivial = live_gates >= 2 && sharing(cx);
    check_eval(&m, &c, &asg, cx, "circuit")
}

/// copy of the circuit with every call replaced by the callee's gates, built through the real API
pub fn inline_into(c: &mut CR, m: &MCirc, args: &[GateId]) -> R<Vec<GateId>> {
    let mut ids: Vec<GateId> = Vec::with_capacity(m.nodes.len());
    let mut done: Vec<Option<Vec<GateId>>> = vec![None; m.calls.len()];
    for n in &m.nodes {
        let id = match *n {
            Node::In(k) => args[k],
            Node::Const(v) => ok(c.constant(v), "constant")?,
            Node::Not(a) => ok(c.not(&ids[a]), "not")?,
            Node::Xor(a, b) => ok(c.xor(&ids[a], &ids[b]), "xor")?,
            Node::And(a, b) => ok(c.and(&ids[a], &ids[b]), "and")?,
            Node::Or(a, b) => ok(c.or(&ids[a], &ids[b]), "or")?,
            Node::Equ(a, b) => ok(c.equivalent(&ids[a], &ids[b]), "equivalent")?,
            Node::Ident(a) => ok(c.identity(&ids[a]), "identity")?,
            Node::Call { call, out } => {
                if done[call].is_none() {
                    let k = &m.calls[call];
                    let a: Vec<GateId> = k.args.iter().map(|&x| ids[x]).collect();
                    done[call] = Some(inline_into(c, &k.m, &a)?);
                }
                done[call].as_ref().unwrap()[out]
            }
        };
        ids.push(id);
    }
    Ok(m.outs.iter().map(|&o| ids[o]).collect())
}

fn c02(src: &mut Src, cx: &mut Cx) -> R {
    let mut g = Gen::new();
    let mut c = g.circuit();
    let m = if src.chance(1, 4000) {
        bulk_into(&mut g, &mut c, src, cx, true, 140_000)?
    } else {
        let p = GP::pick(src, true);
        gen_into(&mut g, &mut c, src, cx, &p)?
    };
    classify(&m, cx);
    let n = m.inputs.len();
    let (asg, full) = assignments_for(&m, src, 5, 30);
    if full {
        cx.label("all assignments");
    }
    let live = m.live();
    cx.nontrivial = (0..m.nodes.len()).any(|i| live[i] && matches!(m.nodes[i], Node::Call { .. })) && m.num_gate() > 0;
    check_eval(&m, &c, &asg, cx, "circuit with module calls")?;
    // the same, inlined, by the code under test itself
    let mut flat = new_circuit();
    let mut args = vec![];
    for _ in 0..n {
        args.push(ok(flat.input(), "input")?);
    }
    for o in inline_into(&mut flat, &m, &args)? {
        ok(flat.output(o), "output")?;
    }
    let mut e1 = NXAOBoolEvaluator::new(c.clone());
    let mut e2 = NXAOBoolEvaluator::new(flat);
    for a in asg.iter().take(16) {
        let x = ok(e1.eval_output(a), "with calls")?;
        let y = ok(e2.eval_output(a), "inlined")?;
        cx.comparisons += 1;
        check!(x == y, "inputs {}: {} with module calls, {} inlined", bs(a), bs(&x), bs(&y));
    }
    // every module on its own
    for e in g.reg.iter().take(4) {
        let (asg, _) = assignments(src, e.m.inputs.len(), 3, 4);
        check_eval(&e.m, &e.c, &asg, cx, "module on its own")?;
    }
    Ok(())
}

fn c03(src: &mut Src, cx: &mut Cx) -> R {
    let mut g = Gen::new();
    let depth = src.bool();
    let p = GP::pick(src, depth);
    let mut handles: Vec<CR> = vec![g.circuit()];
    let mut evs: Vec<NXAOBoolEvaluator> = vec![NXAOBoolEvaluator::new(handles[0].clone())];
    let mut m = MCirc::default();
    // circuits copied by value: they stay what they were, whatever is added to the original
    let mut copies: Vec<(CR, MCirc)> = vec![];
    let steps = src.range(2, 40);
    let mut evals = 0;
    let mut built_after_eval = false;
    for _ in 0..steps {
        let h = src.usize(handles.len());
        match src.weighted(&[10, 4, 6, 1, 2, 1, 1, 1]) {
            7 => {
                // evaluations that fail for want of a gate that is made afterwards
                if !m.ids.is_empty() && src.chance(1, 4) {
                    let mut c = handles[h].clone();
                    if !late_gate(src, cx, &mut c, &mut m, &mut evs, None)? {
                        return Ok(());
                    }
                    built_after_eval |= evals > 0;
                }
            }
            6 => {
                if copies.is_empty() || src.bool() {
                    let x: NXAOBoolCircuit = handles[h].borrow().clone();
                    copies.push((x.to_ref(), m.clone()));
                    cx.label("copied by value");
                } else {
                    // the copy goes its own way
                    let k = src.usize(copies.len());
                    let (c, cm) = &mut copies[k];
                    let mut b = Build { m: std::mem::take(cm), c };
                    let r = if b.m.nodes.is_empty() { add_input(&mut b, cx).map(|_| ()) } else { step(&mut g, &mut b, src, cx, &p) };
                    let r2 = if r.is_ok() { random_output(&mut b, src, cx) } else { Ok(()) };
                    *cm = b.m;
                    r?;
                    r2?;
                }
            }
            0 => {
                let mut c = handles[h].clone();
                let mut b = Build { m: std::mem::take(&mut m), c: &mut c };
                let r = if b.m.nodes.is_empty() { add_input(&mut b, cx).map(|_| ()) } else { step(&mut g, &mut b, src, cx, &p) };
                m = b.m;
                r?;
                built_after_eval |= evals > 0;
            }
            1 => {
                let mut c = handles[h].clone();
                let mut b = Build { m: std::mem::take(&mut m), c: &mut c };
                let r = random_output(&mut b, src, cx);
                m = b.m;
                r?;
                built_after_eval |= evals > 0;
            }
            2 => {
                let k = src.usize(evs.len());
                let inp = src.bits(m.inputs.len());
                let want = model_outputs(&m, &[inp.clone()]).remove(0);
                let snap = Snap::of(&handles[h]);
                let msnaps: Vec<Snap> = g.reg.iter().map(|e| Snap::of(&e.c)).collect();
                let got = ok(evs[k].eval_output(&inp), "eval_output")?;
                cx.log(|| format!("evaluator{k}({}) = {}", bs(&inp), bs(&got)));
                cx.comparisons += 1;
                check!(got == want, "evaluator {k}: inputs {} evaluate to {}, the circuit as it stands denotes {}", bs(&inp), bs(&got), bs(&want));
                let again = ok(evs[k].eval_output(&inp), "eval_output again")?;
                check!(again == want, "evaluator {k}: the second evaluation of {} gives {} instead of {}", bs(&inp), bs(&again), bs(&want));
                snap.same(&handles[h], "evaluation")?;
                for (e, s) in g.reg.iter().zip(&msnaps) {
                    s.same(&e.c, "evaluation of the caller")?;
                }
                evals += 1;
            }
            3 => {
                // an evaluation that fails must leave no trace either
                let n = m.inputs.len();
                let bad = if n > 0 && src.bool() { src.usize(n) } else { n + 1 + src.usize(3) };
                let k = src.usize(evs.len());
                let snap = Snap::of(&handles[h]);
                let inp = src.bits(bad);
                let r = evs[k].eval_output(&inp);
                check!(r.is_err(), "evaluation with {bad} bits for {n} inputs succeeded");
                snap.same(&handles[h], "failed evaluation")?;
                cx.label("failed evaluation in between");
            }
            4 => {
                if handles.len() < 4 {
                    let x = handles[h].clone();
                    handles.push(x);
                    cx.label("several handles");
                }
                if evs.len() < 5 {
                    let e = if src.bool() {
                        NXAOBoolEvaluator::new(handles[h].clone())
                    } else {
                        let k = src.usize(evs.len());
                        evs[k].clone()
                    };
                    evs.push(e);
                }
            }
            _ => {
                // extend a module that may already be called: its first outputs stay what they are
                if !g.reg.is_empty() {
                    let k = src.usize(g.reg.len());
                    let e = g.reg[k].clone();
                    let mut mm = (*e.m).clone();
                    let mut rc = e.c.clone();
                    let mut b = Build { m: std::mem::take(&mut mm), c: &mut rc };
                    let r = (|| {
                        if !b.m.nodes.is_empty() {
                            let x = add_gate(&mut b, src, cx)?;
                            if src.bool() {
                                add_output(&mut b, cx, x)?;
                            }
                        }
                        Ok(())
                    })();
                    let nm = Rc::new(b.m);
                    for f in g.reg.iter_mut() {
                        // the same circuit may be registered under several ids
                        if Rc::ptr_eq(&f.m, &e.m) {
                            f.m = nm.clone();
                        }
                    }
                    r?;
                    cx.label("module extended after registration");
                    built_after_eval |= evals > 0;
                }
            }
        }
        // every handle sees the same circuit
        let want = (m.inputs.len(), m.outs.len());
        for x in &handles {
            check!((x.input_len(), x.output_len()) == want, "handles disagree: {:?} inputs/outputs instead of {want:?}", (x.input_len(), x.output_len()));
        }
    }
    for x in &handles[1..] {
        check!(*x == handles[0], "two handles of one circuit differ");
    }
    let (asg, _) = assignments(src, m.inputs.len(), 4, 6);
    for k in 0..handles.len() {
        check_eval(&m, &handles[k], &asg, cx, "circuit at the end")?;
    }
    for (c, cm) in &copies {
        let (asg, _) = assignments(src, cm.inputs.len(), 3, 4);
        check_eval(cm, c, &asg, cx, "copy by value")?;
    }
    cx.nontrivial = evals >= 2 && built_after_eval && !m.outs.is_empty();
    if evals >= 2 && built_after_eval {
        cx.label("evaluations interleaved with construction");
    }
    Ok(())
}

fn check_structure(m: &MCirc, c: &CR, what: &str, cx: &mut Cx) -> R {
    cx.comparisons += m.nodes.len() as u64 + 6;
    check!(c.input_len() == m.inputs.len(), "{what}: input_len {} instead of {}", c.input_len(), m.inputs.len());
    check!(c.output_len() == m.outs.len(), "{what}: output_len {} instead of {}", c.output_len(), m.outs.len());
    check!(c.num_gate() == m.num_gate(), "{what}: num_gate {} instead of {}", c.num_gate(), m.num_gate());
    check!(c.num_const() == m.num_const(), "{what}: num_const {} instead of {}", c.num_const(), m.num_const());
    check!(c.num_wire() == m.num_wire(), "{what}: num_wire {} instead of {}", c.num_wire(), m.num_wire());
    for (k, &i) in m.inputs.iter().enumerate() {
        let r = ok(c.input_to_gate_id(&WireId(k as u64)), "input_to_gate_id")?;
        check!(r == Some(m.ids[i]), "{what}: input {k} is gate {r:?} instead of {}", m.ids[i]);
    }
    for (k, &o) in m.outs.iter().enumerate() {
        let r = ok(c.output_to_gate_id(&WireId(k as u64)), "output_to_gate_id")?;
        check!(r == m.ids[o], "{what}: output {k} is gate {r} instead of {}", m.ids[o]);
    }
    let set: HashSet<GateId> = m.ids.iter().copied().collect();
    check!(set.len() == m.ids.len(), "{what}: two gates have the same id: {:?}", m.ids);
    let id = |i: usize| m.ids[i];
    let mut results = vec![0; m.calls.len()];
    for n in &m.nodes {
        if let Node::Call { call, .. } = *n {
            results[call] += 1;
        }
    }
    for (i, n) in m.nodes.iter().enumerate() {
        let g = ok(c.get_gate(&m.ids[i]), "get_gate")?;
        let want = match *n {
            Node::In(k) => Some(NXAOBoolGate::Input(InputGate { wire_id: WireId(k as u64) })),
            Node::Const(value) => Some(NXAOBoolGate::Const(ConstGate { value })),
            Node::Not(a) => Some(NXAOBoolGate::Not(NotGate { id: id(a) })),
            Node::Xor(a, b) => Some(NXAOBoolGate::Xor(XorGate { left_id: id(a), right_id: id(b) })),
            Node::And(a, b) => Some(NXAOBoolGate::And(AndGate { left_id: id(a), right_id: id(b) })),
            Node::Or(a, b) => Some(NXAOBoolGate::Or(OrGate { left_id: id(a), right_id: id(b) })),
            Node::Equ(..) | Node::Ident(_) => None,
            Node::Call { call, out } => {
                let k = &m.calls[call];
                Some(NXAOBoolGate::Module(ModuleGate {
                    input_len: k.args.len(),
                    output_len: results[call],
                    input_ids: k.args.iter().map(|&a| id(a)).collect(),
                    out_index: out,
                    module_id: k.mid,
                }))
            }
        };
        if let Some(w) = want {
            check!(g == w, "{what}: gate {} is {g:?} instead of {w:?}", m.ids[i]);
            check!(g.input_len() == w.input_len() && g.output_len() == w.output_len() && g.to_str() == w.to_str(), "{what}: description of gate {}", m.ids[i]);
            let name = match n {
                Node::Not(_) => "INV",
                Node::Xor(..) => "XOR",
                Node::And(..) => "AND",
                Node::Or(..) => "OR",
                _ => "",
            };
            check!(name.is_empty() || g.to_str() == name, "{what}: gate {} is called {} instead of {name}", m.ids[i], g.to_str());
            let arity = match n {
                Node::Not(_) => 1,
                Node::Xor(..) | Node::And(..) | Node::Or(..) => 2,
                Node::Call { call, .. } => m.calls[*call].args.len(),
                _ => 0,
            };
            let n_out = match n {
                Node::Call { call, .. } => m.calls[*call].m.outs.len(),
                _ => 1,
            };
            // the called module may have more outputs by now, but never fewer
            check!(g.output_len() == n_out || (matches!(n, Node::Call { .. }) && g.output_len() <= n_out), "{what}: gate {} reports {} results instead of {n_out}", m.ids[i], g.output_len());
            check!(g.input_len() == arity, "{what}: gate {} reports {} operands instead of {arity}", m.ids[i], g.input_len());
        }
    }
    let mut consts: Vec<u64> = c.get_const_gates().iter().map(|x| x.0).collect();
    consts.sort();
    let mut want: Vec<u64> = (0..m.nodes.len()).filter(|&i| matches!(m.nodes[i], Node::Const(_))).map(|i| m.ids[i].0).collect();
    want.sort();
    check!(consts == want, "{what}: constants {consts:?} instead of {want:?}");
    // consumers, one entry per use
    let mut cons: Vec<Vec<u64>> = vec![vec![]; m.nodes.len()];
    let mut anon = vec![0usize; m.nodes.len()];
    for (i, n) in m.nodes.iter().enumerate() {
        for a in m.operands(i) {
            if matches!(n, Node::Equ(..) | Node::Ident(_)) {
                anon[a] += 1;
            } else {
                cons[a].push(m.ids[i].0);
            }
        }
    }
    for i in 0..m.nodes.len() {
        let mut got: Vec<u64> = ok(c.get_depended_gates(&m.ids[i]), "get_depended_gates")?.iter().map(|x| x.0).collect();
        let total = got.len();
        let mut known: HashMap<u64, usize> = HashMap::new();
        for x in &cons[i] {
            *known.entry(*x).or_default() += 1;
        }
        // entries for gates the model names must match; the others are inner gates of equivalences
        got.retain(|x| set.contains(&GateId(*x)));
        got.sort();
        cons[i].sort();
        check!(got == cons[i], "{what}: gate {} is consumed by {got:?} instead of {:?}", m.ids[i], cons[i]);
        check!(total - got.len() == anon[i], "{what}: gate {} has {} other consumers instead of {}", m.ids[i], total - got.len(), anon[i]);
    }
    Ok(())
}

fn c04(src: &mut Src, cx: &mut Cx) -> R {
    let mut g = Gen::new();
    let mut c = g.circuit();
    let m = if src.chance(1, 4000) {
        bulk_into(&mut g, &mut c, src, cx, true, 70_000)?
    } else {
        let depth = src.chance(3, 4);
        let p = GP::pick(src, depth);
        gen_into(&mut g, &mut c, src, cx, &p)?
    };
    classify(&m, cx);
    check_structure(&m, &c, "circuit", cx)?;
    for e in &g.reg {
        check_structure(&e.m, &e.c, "module", cx)?;
        // the id leads to the module
        let r = ok(c.get_module(&e.id), "get_module")?;
        check!(r == e.c, "module {} is not the circuit registered under it", e.id.0);
    }
    cx.nontrivial = m.nodes.len() >= 4 && m.outs.len() >= 1 && m.num_gate() > 1;
    Ok(())
}

/// C25: equality of circuits is equality of what was built
/// two long histories that differ in one place or in none
fn c25_bulk(src: &mut Src, cx: &mut Cx) -> R {
    let g = Gen::new();
    let n = [300, 3_000, 30_000, 70_000][src.usize(4)];
    let seed = src.word();
    let at = if src.bool() { usize::MAX } else { src.usize(n) };
    let how = src.usize(4);
    // a circuit and the history it comes from
    let build = |at: usize| -> R<(CR, Vec<[usize; 3]>)> {
        let mut history = vec![];
        let mut rng = Rng::new(seed);
        let mut c = g.circuit();
        let mut ids = vec![];
        for i in 0..n {
            let w = rng.next();
            let (x, y) = (rng.next() as usize % i.max(1), rng.next() as usize % i.max(1));
            let hit = i == at;
            let y = if hit && how == 0 && i > 1 { (y + 1) % i } else { y };
            let op = w as usize % if i == 0 { 1 } else { 7 };
            let op = if hit && how == 1 { (op + 1) % 6 } else { op };
            let op = if i == 0 && op > 1 { 1 } else { op };
            let v = (w >> 20 & 1 == 1) != (hit && how == 2);
            let id = match op {
                0 => c.input(),
                1 => c.constant(v),
                2 => c.not(&ids[y]),
                3 => c.xor(&ids[x], &ids[y]),
                4 => c.and(&ids[x], &ids[y]),
                _ => c.or(&ids[x], &ids[y]),
            };
            ids.push(ok(id, "construction")?);
            if w >> 30 & 3 == 0 {
                // (an output that differs)
                let o = if hit && how == 3 { 0 } else { i };
                ok(c.output(ids[o]), "output")?;
                history.push([9, o, 0]);
            }
            history.push(match op {
                0 => [0; 3],
                1 => [1, v as usize, 0],
                2 => [2, y, 0],
                _ => [op.min(5), x, y],
            });
        }
        Ok((c, history))
    };
    let ((a, ha), (b, hb)) = (build(usize::MAX)?, build(at)?);
    let equal = ha == hb;
    cx.log(|| format!("two histories of {n} steps (seed {seed}), difference {how} at {at}"));
    check!((a == b) == equal && (b == a) == equal && a == a.clone(), "histories of {n} steps with difference {how} at {at}: reported {}", if equal { "different" } else { "equal" });
    cx.label(if equal { "long and equal" } else { "long and different" });
    cx.comparisons += 3;
    cx.nontrivial = true;
    Ok(())
}

fn c25(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, 4000) {
        return c25_bulk(src, cx);
    }
    let mut g = Gen::new();
    let mut a = g.circuit();
    let depth = src.bool();
    let mut p = GP::pick(src, depth);
    p.max_ops = p.max_ops.min(30);
    let m = gen_into(&mut g, &mut a, src, cx, &p)?;
    classify(&m, cx);
    if m.calls.iter().any(|c| c.m.outs.is_empty()) {
        // a call without results has no node, so that the history cannot be repeated in order
        cx.label("not compared: call without results");
        return Ok(());
    }
    // a second history that differs in at most two places
    let mut m2 = m.clone();
    let edits = src.weighted(&[3, 8, 2]);
    for _ in 0..edits {
        let n = m2.nodes.len();
        match src.usize(9) {
            0 if !m2.outs.is_empty() => {
                m2.outs.pop();
                cx.log(|| "without the last output".into());
            }
            1 if n > 0 => {
                let i = src.usize(n);
                m2.outs.push(i);
                cx.log(|| format!("with another output {}", name(i)));
            }
            2 if m2.outs.len() > 1 => {
                let (i, j) = (src.usize(m2.outs.len()), src.usize(m2.outs.len()));
                m2.outs.swap(i, j);
                cx.log(|| format!("outputs {i} and {j} exchanged"));
            }
            3 if !m2.outs.is_empty() => {
                let (i, j) = (src.usize(m2.outs.len()), src.usize(n));
                m2.outs[i] = j;
                cx.log(|| format!("output {i} is {}", name(j)));
            }
            4 => {
                // one more node at the end
                let k = src.usize(if n > 0 { 3 } else { 2 });
                let node = match k {
                    0 => {
                        m2.inputs.push(n);
                        Node::In(m2.inputs.len() - 1)
                    }
                    1 => Node::Const(src.bool()),
                    _ => Node::Not(src.usize(n)),
                };
                cx.log(|| format!("one more: {node:?}"));
                m2.nodes.push(node);
            }
            5 if n > 0 && matches!(m2.nodes[n - 1], Node::Const(_) | Node::Not(_) | Node::Xor(..) | Node::And(..) | Node::Or(..)) => {
                // one node less
                if !m2.outs.contains(&(n - 1)) {
                    m2.nodes.pop();
                    cx.log(|| "without the last gate".into());
                }
            }
            _ if n > 0 => {
                // another operation, constant, operand or callee
                let i = src.usize(n);
                let k = src.usize(i.max(1));
                let op = src.usize(3);
                let old = m2.nodes[i].clone();
                let any = |x: usize| if i > 0 { k } else { x };
                m2.nodes[i] = match old.clone() {
                    Node::Const(b) => Node::Const(!b),
                    Node::Not(x) => Node::Not(any(x)),
                    Node::Ident(x) => Node::Ident(any(x)),
                    Node::Equ(x, y) => if op == 0 { Node::Equ(y, x) } else { Node::Equ(any(x), y) },
                    Node::Xor(x, y) => [Node::And(x, y), Node::Xor(y, x), Node::Xor(any(x), y)][op].clone(),
                    Node::And(x, y) => [Node::Or(x, y), Node::And(y, x), Node::And(x, any(y))][op].clone(),
                    Node::Or(x, y) => [Node::Xor(x, y), Node::Or(y, x), Node::Or(any(x), y)][op].clone(),
                    Node::Call { call, out } => {
                        let e = m2.calls[call].clone();
                        let first = (0..n).find(|&j| matches!(m2.nodes[j], Node::Call { call: c2, .. } if c2 == call)).unwrap();
                        if op == 0 && !e.args.is_empty() && first > 0 {
                            let j = src.usize(e.args.len());
                            m2.calls[call].args[j] = src.usize(first);
                        } else {
                            // the same module under another id, or another module of the same shape
                            let same: Vec<&Entry> = g.reg.iter().filter(|x| x.m.inputs.len() == e.m.inputs.len() && x.m.outs.len() == e.m.outs.len() && x.m.num_gate() == e.m.num_gate()).collect();
                            if !same.is_empty() {
                                let x = same[src.usize(same.len())];
                                m2.calls[call].mid = x.id;
                                m2.calls[call].m = x.m.clone();
                            }
                        }
                        Node::Call { call, out }
                    }
                    x => x,
                };
                cx.log(|| format!("{} is {:?} instead of {old:?}", name(i), m2.nodes[i]));
            }
            _ => {}
        }
    }
    let shape = |m: &MCirc| format!("{:?} {:?} {:?} {:?}", m.nodes, m.inputs, m.outs, m.calls.iter().map(|c| (c.mid, c.args.clone())).collect::<Vec<_>>());
    let equal = shape(&m) == shape(&m2);
    // build it, in the same registry
    let mut b = g.circuit();
    let mut ids: Vec<GateId> = vec![];
    let mut done: HashMap<usize, Vec<GateId>> = HashMap::new();
    let early_outputs = src.bool();
    let mut next_out = 0;
    for n in &m2.nodes {
        let id = match *n {
            Node::In(_) => ok(b.input(), "input")?,
            Node::Const(v) => ok(b.constant(v), "constant")?,
            Node::Not(x) => ok(b.not(&ids[x]), "not")?,
            Node::Xor(x, y) => ok(b.xor(&ids[x], &ids[y]), "xor")?,
            Node::And(x, y) => ok(b.and(&ids[x], &ids[y]), "and")?,
            Node::Or(x, y) => ok(b.or(&ids[x], &ids[y]), "or")?,
            Node::Equ(x, y) => ok(b.equivalent(&ids[x], &ids[y]), "equivalent")?,
            Node::Ident(x) => ok(b.identity(&ids[x]), "identity")?,
            Node::Call { call, out } => {
                if !done.contains_key(&call) {
                    let k = &m2.calls[call];
                    let args: Vec<GateId> = k.args.iter().map(|&x| ids[x]).collect();
                    done.insert(call, ok(b.module(&k.mid, &args), "module")?);
                }
                done[&call][out]
            }
        };
        ids.push(id);
        while early_outputs && next_out < m2.outs.len() && m2.outs[next_out] < ids.len() {
            ok(b.output(ids[m2.outs[next_out]]), "output")?;
            next_out += 1;
        }
    }
    while next_out < m2.outs.len() {
        ok(b.output(ids[m2.outs[next_out]]), "output")?;
        next_out += 1;
    }
    let (sa, sb) = (Snap::of(&a), Snap::of(&b));
    let (x, y) = (a == b, b == a);
    let (u, v) = (*a.borrow() == *b.borrow(), a.borrow().clone() == *b.borrow());
    sa.same(&a, "comparison")?;
    sb.same(&b, "comparison")?;
    cx.comparisons += 6;
    check!(x == y && x == u && x == v, "comparison of two circuits depends on the order or on the handle: {x} {y} {u} {v}");
    check!(a == a && a == a.clone() && b == b.clone(), "a circuit differs from itself");
    check!(x == equal, "the circuits are reported {} although they are built {}", if x { "equal" } else { "different" }, if equal { "alike" } else { "differently" });
    cx.label(if equal { "same history" } else { "different histories" });
    cx.nontrivial = m.nodes.len() >= 3;
    Ok(())
}

fn err<T, E: std::fmt::Display>(r: Result<T, E>) -> Option<String> {
    r.err().map(|e| e.to_string())
}
/// the numbers an error message mentions
fn numbers(t: &str) -> Vec<&str> {
    t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect()
}

fn c05(src: &mut Src, cx: &mut Cx) -> R {
    let mut g = Gen::new();
    let mut c = g.circuit();
    let depth = src.chance(2, 3);
    let mut p = GP::pick(src, depth);
    p.max_ops = p.max_ops.min(16);
    p.max_in = p.max_in.min(8);
    let mut m = gen_into(&mut g, &mut c, src, cx, &p)?;
    let n_mod = g.reg.iter().map(|e| e.id.0 + 1).max().unwrap_or(0).max(g.storage.num_module() as u64);
    // ids no gate has: the ones right after the last, and far ones
    let top = ids_end(&c, &m);
    let mut misuses = 0;
    for _ in 0..src.range(1, 8) {
        let far = match src.usize(4) {
            0 => 0,
            1 => src.below(4),
            2 => 1 << 20,
            _ => (1 << 62) - src.below(2),
        };
        let bad_gate = GateId(top + far);
        let snap = Snap::of(&c);
        let what;
        let (error, names) = match src.usize(7) {
            0 => {
                what = format!("get_gate({bad_gate})");
                (err(c.get_gate(&bad_gate)), vec![bad_gate.0])
            }
            1 => {
                what = format!("output({bad_gate})");
                cx.label("unknown gate as output");
                (err(c.output(bad_gate)), vec![bad_gate.0])
            }
            2 => {
                let w = WireId(c.input_len() as u64 + far);
                what = format!("input_to_gate_id({w})");
                (err(c.input_to_gate_id(&w)), vec![w.0])
            }
            3 => {
                let w = WireId(c.output_len() as u64 + far);
                what = format!("output_to_gate_id({w})");
                (err(c.output_to_gate_id(&w)), vec![w.0])
            }
            4 => {
                let id = ModuleId(n_mod + far);
                what = format!("get_module({})", id.0);
                (err(c.get_module(&id)), vec![id.0])
            }
            5 => {
                let id = ModuleId(n_mod + far);
                let n = src.usize(4);
                let args: Vec<GateId> = if m.ids.is_empty() { vec![] } else { (0..n).map(|_| m.ids[src.usize(m.ids.len())]).collect() };
                what = format!("module({}, {args:?})", id.0);
                cx.label("call of unknown module");
                (err(c.module(&id, &args)), vec![id.0])
            }
            _ => {
                if g.reg.is_empty() {
                    continue;
                }
                let e = g.reg[src.usize(g.reg.len())].clone();
                let n = e.m.inputs.len();
                let k = if n > 0 && src.bool() { src.usize(n) } else { n + [1, 2, 3, 256][src.usize(4)] };
                if k > 0 && m.ids.is_empty() {
                    continue;
                }
                let args: Vec<GateId> = (0..k).map(|_| m.ids[src.usize(m.ids.len())]).collect();
                what = format!("module({}) with {k} arguments for {n} inputs", e.id.0);
                cx.label("wrong number of arguments");
                if k > 0 && k < n {
                    cx.label("too few arguments");
                }
                let r = c.module(&e.id, &args);
                if let Err(BoolCircuitError::InvalidModuleInputLen(id, expected, given)) = r {
                    check!((id, expected, given) == (e.id, n, k), "{what}: the error states {given} arguments for {expected} inputs of module {id}");
                }
                (err(r), vec![n as u64, k as u64])
            }
        };
        cx.log(|| format!("misuse: {what}"));
        let Some(error) = error else { return fail(format!("{what} succeeded")) };
        for n in names {
            check!(numbers(&error).contains(&n.to_string().as_str()), "{what}: the error does not name {n}: {error}");
        }
        snap.same(&c, &what)?;
        misuses += 1;
        cx.comparisons += 1;
    }
    // still the same circuit
    let (asg, _) = assignments(src, m.inputs.len(), 3, 4);
    check_eval(&m, &c, &asg, cx, "after misuse")?;
    check_structure(&m, &c, "after misuse", cx)?;

    // wrong number of input bits
    let n = m.inputs.len();
    let lens: Vec<usize> = [n.wrapping_sub(1), n + 1, 0, n + src.range(1, 70), n / 2].into_iter().filter(|&k| k != n && k < n + 100).collect();
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    let mut lens = lens;
    if src.chance(1, 16) {
        // equal to the right number in 8 or 16 bits
        lens.push(n + 256);
        lens.push(n + 65_536);
    }
    for k in lens {
        let inp = if k > n + 100 { vec![k % 3 == 0; k] } else { src.bits(k) };
        let snap = Snap::of(&c);
        match guarded(|| ev.eval_output(&inp)) {
            Err(p) => return fail(format!("evaluation with {k} bits for {n} inputs: {p}")),
            Ok(Ok(v)) => return fail(format!("evaluation with {k} bits for {n} inputs returned {}", bs(&v))),
            Ok(Err(e)) => {
                if let EvaluatorError::InvalidInputLen(given, expected) = e {
                    check!((given, expected) == (k, n), "evaluation with {k} bits for {n} inputs: the error states {given} bits for {expected} inputs");
                }
                let e = e.to_string();
                for x in [k, n] {
                    check!(numbers(&e).contains(&x.to_string().as_str()), "evaluation with {k} bits for {n} inputs: the error does not name {x}: {e}");
                }
            }
        }
        snap.same(&c, "evaluation with a wrong number of bits")?;
        cx.comparisons += 1;
    }
    // the same evaluator works as before
    for (a, w) in asg.iter().zip(model_outputs(&m, &asg)).take(2) {
        let got = ok(ev.eval_output(a), "evaluation after a refused one")?;
        check!(got == w, "after a refused evaluation inputs {} evaluate to {} instead of {}", bs(a), bs(&got), bs(&w));
    }

    // outputs over a gate that is made only later
    if src.chance(1, 4) && !m.ids.is_empty() {
        let mut w = BristolNXAOWriter::new(c.clone(), std::io::BufWriter::new(Vec::new()));
        if !late_gate(src, cx, &mut c, &mut m, std::slice::from_mut(&mut ev), Some((&mut w, 0)))? {
            return Ok(());
        }
    }
    // outputs that depend on a gate that does not exist
    if src.chance(2, 3) {
        let missing = GateId(top + 1_000_000 + src.below(3));
        let other = if m.ids.is_empty() {
            let mut b = Build { m, c: &mut c };
            add_input(&mut b, cx)?;
            m = b.m;
            m.ids[0]
        } else {
            m.ids[src.usize(m.ids.len())]
        };
        cx.log(|| format!("gate over the missing gate {missing}"));
        let inside = src.chance(1, 3);
        cx.label(if inside { "missing gate inside a module" } else { "missing gate" });
        let mut target = if inside { g.circuit() } else { c.clone() };
        let other = if inside { ok(target.input(), "input")? } else { other };
        // not yet existing, but the gate made next has this id: it depends on itself
        let cyclic = src.chance(1, 4);
        let missing = if cyclic {
            let mut probe = if inside { 1 } else { ids_end(&c, &m) };
            while target.get_gate(&GateId(probe)).is_ok() {
                probe += 1;
            }
            cx.label("gate that depends on itself");
            GateId(probe + src.below(2))
        } else {
            missing
        };
        let k = src.usize(5);
        let r = match k {
            0 => target.not(&missing),
            1 => target.xor(&other, &missing),
            2 => target.and(&missing, &other),
            3 => target.or(&missing, &missing),
            _ => {
                // through a module call
                match g.reg.iter().find(|e| !e.m.inputs.is_empty() && !e.m.outs.is_empty()).cloned() {
                    Some(e) => {
                        let mut args = vec![other; e.m.inputs.len()];
                        let at = src.usize(args.len());
                        args[at] = missing;
                        target.module(&e.id, &args).map(|v| v[src.usize(v.len())])
                    }
                    None => target.identity(&missing),
                }
            }
        };
        let Ok(mut gate) = r else {
            // refusing the construction is at least as good
            cx.label("construction over a missing gate refused");
            cx.nontrivial = true;
            return Ok(());
        };
        for _ in 0..src.usize(3) {
            gate = ok(target.xor(&gate, &other), "xor")?;
        }
        ok(target.output(gate), "output")?;
        if inside {
            let id = c.register_module(&target);
            let a = m.ids[src.usize(m.ids.len())];
            let v = ok(c.module(&id, &[a]), "module")?;
            ok(c.output(v[0]), "output")?;
        }
        let inp = src.bits(m.inputs.len());
        let snap = Snap::of(&c);
        match guarded(|| ev.eval_output(&inp)) {
            Err(p) => return fail(format!("evaluation of an output over a missing gate: {p}")),
            Ok(Ok(v)) => return fail(format!("evaluation of an output over a missing gate returned {}", bs(&v))),
            Ok(Err(e)) => {
                let e = e.to_string();
                check!(cyclic || numbers(&e).contains(&missing.to_string().as_str()), "evaluation of an output over the missing gate {missing}: the error does not name it: {e}");
            }
        }
        let mut w = BristolNXAOWriter::new(c.clone(), std::io::BufWriter::new(Vec::new()));
        match guarded(|| w.write(0, None)) {
            Err(p) => return fail(format!("export of an output over a missing gate: {p}")),
            Ok(Ok(_)) => return fail("export of an output over a missing gate succeeded".to_string()),
            Ok(Err(e)) => {
                let e = e.to_string();
                check!(cyclic || numbers(&e).contains(&missing.to_string().as_str()), "export of an output over the missing gate {missing}: the error does not name it: {e}");
            }
        }
        snap.same(&c, "failed evaluation or export")?;
        cx.comparisons += 2;
        misuses += 1;
    }
    cx.nontrivial = misuses >= 2;
    Ok(())
}

pub type VecWriter = BristolNXAOWriter<Vec<u8>>;

/// An output over a gate that does not exist yet; evaluators and exporters have to refuse it, and
/// to work as new ones once the gate is made. False: the circuit cannot be used any further.
pub fn late_gate(src: &mut Src, cx: &mut Cx, c: &mut CR, m: &mut MCirc, evs: &mut [NXAOBoolEvaluator], w: Option<(&mut VecWriter, usize)>) -> R<bool> {
    let x = src.usize(m.ids.len());
    let other = m.ids[x];
    let missing = GateId(ids_end(c, m) + 1);
    let k = src.usize(4);
    let r = match k {
        0 => c.not(&missing),
        1 => c.xor(&other, &missing),
        2 => c.and(&missing, &other),
        _ => c.or(&missing, &missing),
    };
    let Ok(gate) = r else {
        cx.label("construction over a missing gate refused");
        return Ok(true);
    };
    ok(c.output(gate), "output")?;
    cx.log(|| format!("{gate} is an output over the missing gate {missing} and {other}"));
    let snap = Snap::of(c);
    let inp = src.bits(m.inputs.len());
    for ev in evs.iter_mut() {
        match guarded(|| ev.eval_output(&inp)) {
            Err(p) => return fail(format!("evaluation of an output over a missing gate: {p}")),
            Ok(Ok(v)) => return fail(format!("evaluation of an output over a missing gate returned {}", bs(&v))),
            Ok(Err(e)) => {
                let e = e.to_string();
                check!(numbers(&e).contains(&missing.to_string().as_str()), "evaluation of an output over the missing gate {missing}: the error does not name it: {e}");
            }
        }
    }
    let mut w = w;
    if let Some((w, first)) = &mut w {
        match guarded(|| w.write(*first, None)) {
            Err(p) => return fail(format!("export of an output over a missing gate: {p}")),
            Ok(Ok(_)) => return fail("export of an output over a missing gate succeeded".to_string()),
            Ok(Err(_)) => {}
        }
    }
    snap.same(c, "failed evaluation or export")?;
    let made = ok(c.not(&other), "not")?;
    if made != missing {
        return Ok(false);
    }
    cx.label("a missing gate is made afterwards");
    cx.log(|| format!("the missing gate is made: not({other})"));
    let f = m.nodes.len();
    m.nodes.push(Node::Not(x));
    m.ids.push(made);
    m.nodes.push(match k {
        0 => Node::Not(f),
        1 => Node::Xor(x, f),
        2 => Node::And(f, x),
        _ => Node::Or(f, f),
    });
    m.ids.push(gate);
    m.outs.push(f + 1);
    let (asg, _) = assignments(src, m.inputs.len(), 3, 4);
    check_eval(m, c, &asg, cx, "after the missing gate was made")?;
    for ev in evs.iter_mut() {
        for (a, want) in asg.iter().zip(model_outputs(m, &asg)) {
            let got = ok(ev.eval_output(a), "evaluation after a refused one")?;
            check!(got == want, "after the missing gate was made, inputs {} evaluate to {} instead of {}", bs(a), bs(&got), bs(&want));
        }
    }
    if let Some((w, first)) = w {
        // the exporter that failed writes what a new one writes
        let text = |w: &mut VecWriter| -> R<(Vec<bool>, String)> {
            ok(std::io::Write::flush(&mut w.writer), "flush")?;
            let skip = w.writer.get_ref().len();
            let consts = ok(w.write(first, None), "export after a failed one")?;
            ok(std::io::Write::flush(&mut w.writer), "flush")?;
            Ok((consts, String::from_utf8_lossy(&w.writer.get_ref()[skip..]).to_string()))
        };
        let again = text(w)?;
        let new = text(&mut BristolNXAOWriter::new(c.clone(), std::io::BufWriter::new(Vec::new())))?;
        check!(again == new, "after a failed export the exporter writes {again:?} instead of {new:?}");
        cx.comparisons += 2;
    }
    Ok(true)
}

/// one past the highest gate id in use
fn ids_end(c: &CR, m: &MCirc) -> u64 {
    // identities and equivalences have an inner gate, so probe upwards from the last known id
    let mut top = m.ids.iter().map(|x| x.0 + 1).max().unwrap_or(0);
    while c.get_gate(&GateId(top)).is_ok() {
        top += 1;
    }
    top
}

/// registries of far more modules than the histories reach
fn c24_bulk(src: &mut Src, cx: &mut Cx) -> R {
    let n = [300, 1_000, 5_000, 66_000, 140_000][src.usize(5)];
    let mut rng = Rng::new(src.word());
    let mut st = new_storage();
    let mut host = NXAOBoolCircuit::new(st.clone()).to_ref();
    let mut known: HashMap<u64, usize> = HashMap::new();
    let mut ids = vec![];
    for i in 0..n {
        // circuit i outputs the bits of i
        let (id, mut c) = match rng.next() % 3 {
            0 => {
                let (id, c) = host.sub_circuit();
                (Some(id), c)
            }
            1 => (None, NXAOBoolCircuit::new(st.clone()).to_ref()),
            _ => (None, new_circuit()),
        };
        for b in 0..18 {
            let g = ok(c.constant(i >> b & 1 == 1), "constant")?;
            ok(c.output(g), "output")?;
        }
        let id = match id {
            Some(id) => id,
            None if rng.next() & 4 == 0 => st.register_module(&c),
            None => host.register_module(&c),
        };
        if let Some(j) = known.insert(id.0, i) {
            return fail(format!("id {} is given to circuits {j} and {i}", id.0));
        }
        ids.push(id);
    }
    cx.log(|| format!("{n} modules in one registry"));
    cx.label("more than 256 modules in one registry");
    check!(st.num_module() == n, "{} modules after {n} registrations", st.num_module());
    for (i, id) in ids.iter().enumerate() {
        if n > 5_000 && rng.next() % 16 > 0 {
            continue;
        }
        let c = ok(if rng.next() & 4 == 0 { st.get_module(id) } else { host.get_module(id) }, "get_module")?;
        let out = ok(NXAOBoolEvaluator::new(c).eval_output(&[]), "evaluation of a module")?;
        cx.comparisons += 1;
        let got = (0..18).fold(0, |v, b| v | (out[b] as usize) << b);
        check!(out.len() == 18 && got == i, "module {} is circuit {got} instead of {i}", id.0);
    }
    for far in [0, 1, 255, 65_535, 1 << 32] {
        let id = ids.iter().map(|x| x.0).max().unwrap() + 1 + far;
        check!(st.get_module(&ModuleId(id)).is_err(), "module {id} is found although it was never registered");
    }
    cx.nontrivial = true;
    Ok(())
}

fn c24(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, 8000) {
        return c24_bulk(src, cx);
    }
    // registries and circuits by index; model: per registry the circuit index of each id
    struct Reg {
        st: Storage,
        mods: BTreeMap<u64, usize>,
    }
    let mut regs: Vec<Reg> = vec![];
    let mut circ: Vec<(CR, usize)> = vec![];
    // a distinguishing function: circuit i outputs the bits of (i+1) and then its number of later additions
    let mut marks: Vec<Vec<bool>> = vec![];
    for _ in 0..src.range(1, 3) {
        regs.push(Reg { st: new_storage(), mods: BTreeMap::new() });
    }
    let mark = |c: &mut CR, marks: &mut Vec<bool>, v: bool| -> R {
        let g = ok(c.constant(v), "constant")?;
        ok(c.output(g), "output")?;
        marks.push(v);
        Ok(())
    };
    let steps = src.range(2, 40);
    let (mut registrations, mut lookups) = (0, 0);
    for _ in 0..steps {
        let k = if circ.is_empty() { 0 } else { src.weighted(&[3, 6, 6, 6, 3, 2, 1]) };
        match k {
            6 => {
                // a circuit copied by value is another circuit over the same registry
                let i = src.usize(circ.len());
                let x: NXAOBoolCircuit = circ[i].0.borrow().clone();
                let r = circ[i].1;
                circ.push((x.to_ref(), r));
                marks.push(marks[i].clone());
                cx.log(|| format!("circuit{} is a copy by value of circuit{i}, over registry{r}", circ.len() - 1));
                let v = src.bool();
                let j = circ.len() - 1;
                let (c, _) = &mut circ[j];
                mark(c, &mut marks[j], v)?;
                let v = src.bool();
                let (c, _) = &mut circ[i];
                mark(c, &mut marks[i], v)?;
                cx.label("copy by value");
            }
            0 => {
                let r = src.usize(regs.len());
                // through a clone of the registry handle or the handle itself
                let st = if src.bool() { regs[r].st.clone() } else { Clone::clone(&regs[r].st) };
                let c = NXAOBoolCircuit::new(st).to_ref();
                circ.push((c, r));
                marks.push(vec![]);
                let i = circ.len() - 1;
                for b in 0..6 {
                    let (c, _) = &mut circ[i];
                    mark(c, &mut marks[i], (i + 1) >> b & 1 == 1)?;
                }
                cx.log(|| format!("circuit{i} over registry{r}"));
            }
            1 => {
                let host = src.usize(circ.len());
                let i = src.usize(circ.len());
                let r = circ[host].1;
                let x = circ[i].0.clone();
                let id = match src.usize(3) {
                    0 => circ[host].0.register_module(&x),
                    1 => {
                        let mut y = circ[host].0.clone();
                        y.register_module(&x)
                    }
                    _ => regs[r].st.register_module(&x),
                };
                cx.log(|| format!("registry{r} (through circuit{host}): circuit{i} is module {}", id.0));
                let old = regs[r].mods.insert(id.0, i);
                check!(old.is_none(), "id {} is given to circuit{i} although circuit{} is registered under it", id.0, old.unwrap());
                registrations += 1;
            }
            2 => {
                let host = src.usize(circ.len());
                let r = circ[host].1;
                let (id, c) = circ[host].0.sub_circuit();
                circ.push((c, r));
                marks.push(vec![]);
                let i = circ.len() - 1;
                let old = regs[r].mods.insert(id.0, i);
                check!(old.is_none(), "id {} is given to a sub-circuit although circuit{} is registered under it", id.0, old.unwrap());
                check!(circ[i].0.input_len() == 0 && circ[i].0.output_len() == 0 && circ[i].0.num_gate() == 0 && circ[i].0.num_wire() == 0, "a new sub-circuit is not empty");
                for b in 0..6 {
                    let (c, _) = &mut circ[i];
                    mark(c, &mut marks[i], (i + 1) >> b & 1 == 1)?;
                }
                cx.log(|| format!("sub_circuit of circuit{host}: circuit{i} is module {} of registry{r}", id.0));
                registrations += 1;
            }
            3 => {
                // look up any id through any circuit
                let host = src.usize(circ.len());
                let r = circ[host].1;
                let n = regs[r].mods.len();
                let pick = src.usize(n + 3);
                let id = match regs[r].mods.keys().nth(pick) {
                    Some(&id) => id,
                    // an id of another registry, or one nobody has
                    None => {
                        let all: Vec<u64> = regs.iter().flat_map(|x| x.mods.keys().copied()).filter(|x| !regs[r].mods.contains_key(x)).collect();
                        if all.is_empty() || src.bool() {
                            regs.iter().filter_map(|x| x.mods.keys().last()).max().map_or(0, |x| x + 1) + src.below(3)
                        } else {
                            cx.label("id of another registry looked up");
                            all[src.usize(all.len())]
                        }
                    }
                };
                let through_storage = src.bool();
                let got = if through_storage { regs[r].st.get_module(&ModuleId(id)) } else { circ[host].0.get_module(&ModuleId(id)) };
                lookups += 1;
                cx.comparisons += 1;
                match got {
                    Ok(x) => {
                        let Some(&i) = regs[r].mods.get(&id) else {
                            return fail(format!("module {id} is visible in registry {r} although it was not registered there"));
                        };
                        let out = ok(NXAOBoolEvaluator::new(x.clone()).eval_output(&[]), "evaluation of a module")?;
                        check!(out == marks[i], "module {id} of registry {r} evaluates to {} instead of {} (circuit {i})", bs(&out), bs(&marks[i]));
                        // the very circuit: adding through the looked-up handle shows in the original
                        if src.chance(1, 3) {
                            let v = src.bool();
                            let mut x = x;
                            mark(&mut x, &mut marks[i], v)?;
                            check!(circ[i].0.output_len() == marks[i].len(), "module {id} of registry {r} is a copy of the registered circuit");
                            cx.label("extended through the looked-up handle");
                        }
                    }
                    Err(_) => check!(!regs[r].mods.contains_key(&id), "module {id} of registry {r} is not found"),
                }
            }
            4 => {
                let i = src.usize(circ.len());
                let v = src.bool();
                let (c, _) = &mut circ[i];
                mark(c, &mut marks[i], v)?;
                cx.label("circuit extended after creation");
            }
            _ => {
                // call a module and evaluate through a fresh circuit of the same registry
                let r = src.usize(regs.len());
                let n = regs[r].mods.len();
                if n > 0 {
                    let k = src.usize(n);
                    let (&id, &i) = regs[r].mods.iter().nth(k).unwrap();
                    let mut c = NXAOBoolCircuit::new(regs[r].st.clone()).to_ref();
                    let outs = ok(c.module(&ModuleId(id), &[]), "module")?;
                    for o in outs {
                        ok(c.output(o), "output")?;
                    }
                    let out = ok(NXAOBoolEvaluator::new(c).eval_output(&[]), "evaluation of a call")?;
                    cx.comparisons += 1;
                    check!(out == marks[i], "a call of module {id} of registry {r} gives {} instead of {} (circuit {i})", bs(&out), bs(&marks[i]));
                }
            }
        }
        for (r, x) in regs.iter().enumerate() {
            check!(x.st.num_module() == x.mods.len(), "registry {r} counts {} modules after {} registrations", x.st.num_module(), x.mods.len());
        }
    }
    // at the end every id of every registry
    for (r, x) in regs.iter().enumerate() {
        for (&id, &i) in x.mods.iter() {
            let y = ok(x.st.get_module(&ModuleId(id)), "get_module")?;
            let out = ok(NXAOBoolEvaluator::new(y.clone()).eval_output(&[]), "evaluation of a module")?;
            cx.comparisons += 1;
            check!(out == marks[i] && y == circ[i].0, "module {id} of registry {r} is not circuit {i}");
        }
    }
    if regs.len() > 1 {
        cx.label("several registries");
    }
    cx.nontrivial = registrations >= 2 && lookups >= 1;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    const DEPTH: &str = "circuits of at most 140000 gates, modules nested at most 300 levels";
    vec![
        Prop {
            id: "C01",
            run: c01,
            quick: 400_000,
            thorough: 4_000_000,
            rule: "at least two live gates and one of: fan-out > 1, an output used internally, an operand used twice, a duplicate output, a dead gate, an input or constant as output",
            assumptions: &[DEPTH],
            fixed: no_fixed,
        },
        Prop {
            id: "C02",
            run: c02,
            quick: 240_000,
            thorough: 2_000_000,
            rule: "a module call is live and there is at least one gate",
            assumptions: &[DEPTH, "modules do not call themselves"],
            fixed: no_fixed,
        },
        Prop {
            id: "C03",
            run: c03,
            quick: 960_000,
            thorough: 2_000_000,
            rule: "at least two evaluations, construction after an evaluation, and at least one output",
            assumptions: &[DEPTH],
            fixed: no_fixed,
        },
        Prop {
            id: "C04",
            run: c04,
            quick: 1_500_000,
            thorough: 4_000_000,
            rule: "at least four nodes, one output and two gates (calls inlined)",
            assumptions: &["modules are complete when they are called"],
            fixed: no_fixed,
        },
        Prop {
            id: "C05",
            run: c05,
            quick: 900_000,
            thorough: 2_000_000,
            rule: "at least two misuses attempted on a generated circuit",
            assumptions: &["a gate over a missing gate may itself be refused"],
            fixed: no_fixed,
        },
        Prop {
            id: "C25",
            run: c25,
            quick: 1_600_000,
            thorough: 3_000_000,
            rule: "a circuit of at least three nodes against a second history",
            assumptions: &["both circuits use one registry"],
            fixed: no_fixed,
        },
        Prop {
            id: "C24",
            run: c24,
            quick: 1_200_000,
            thorough: 2_000_000,
            rule: "at least two registrations and one lookup",
            assumptions: &[],
            fixed: no_fixed,
        },
    ]
}
