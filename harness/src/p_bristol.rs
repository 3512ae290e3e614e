//! C06-C11: Bristol export and import.
use crate::bristol::*;
use crate::engine::*;
use crate::model::*;
use circuit_converters::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, BufWriter, Read, Write};
use std::rc::Rc;

type Writer = BristolNXAOWriter<Vec<u8>>;

fn exporter(c: &CR) -> Writer {
    BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()))
}
fn written(w: &mut Writer) -> R<Vec<u8>> {
    ok(w.writer.flush(), "flush")?;
    Ok(w.writer.get_ref().clone())
}
fn text_of(bytes: Vec<u8>) -> R<String> {
    ok(String::from_utf8(bytes), "exported bytes")
}
fn export(c: &CR, first: usize) -> R<(String, Vec<bool>)> {
    let mut w = exporter(c);
    let k = ok(w.write(first, None), "export")?;
    Ok((text_of(written(&mut w)?)?, k))
}
fn parse(text: &str) -> R<Doc> {
    match strict(text) {
        Verdict::Valid(d) => Ok(d),
        Verdict::Reject(m) | Verdict::Unspecified(m) => fail(format!("the exported document is not well-formed: {m}\n{}", cut(text))),
    }
}
fn cut(t: &str) -> String {
    if t.len() > 1500 {
        let mut k = 1500;
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &t[..k])
    } else {
        t.to_string()
    }
}
fn words(consts: &[bool]) -> impl Iterator<Item = u64> + '_ {
    consts.iter().map(|&b| if b { !0 } else { 0 })
}

fn any_circuit(src: &mut Src, cx: &mut Cx) -> R<(Gen, CR, MCirc)> {
    let mut g = Gen::new();
    let mut c = g.circuit();
    if src.chance(1, 6000) {
        let m = bulk_into(&mut g, &mut c, src, cx, true, 70_000)?;
        classify(&m, cx);
        return Ok((g, c, m));
    }
    let depth = src.chance(3, 5);
    let p = GP::pick(src, depth);
    let m = gen_into(&mut g, &mut c, src, cx, &p)?;
    classify(&m, cx);
    Ok((g, c, m))
}
fn live_gates(m: &MCirc) -> usize {
    let live = m.live();
    (0..m.nodes.len()).filter(|&i| live[i] && !matches!(m.nodes[i], Node::In(_) | Node::Const(_))).count()
}

/// Export of a circuit of the library. What it computes is read off its structure queries, so this
/// says nothing about the library itself.
fn library_export(src: &mut Src, cx: &mut Cx, prop: usize) -> R {
    let Some((c, mut asg)) = crate::p_lib::library_circuit(src, cx) else {
        cx.label("library circuit not available");
        return Ok(());
    };
    let Some(f) = crate::flat::compile(&c) else {
        cx.label("library circuit not available");
        return Ok(());
    };
    asg.truncate(if f.cost > 30_000 { 64 } else { 256 });
    let want = f.eval_all(&asg);
    let n = c.input_len();
    let total = n + c.num_const();
    let first = src.usize(total + 1);
    let snap = Snap::of(&c);
    let (text, consts) = export(&c, first)?;
    snap.same(&c, "export")?;
    cx.log(|| format!("library circuit of about {} gates, {n} inputs, {} constants, exported: {:?}", f.cost, consts.len(), cut(&text)));
    cx.nontrivial = f.cost > 1;
    let d = parse(&text)?;
    match prop {
        6 => {
            check!(d.n_in() == n + consts.len() && d.n_out() == c.output_len(), "the document has {} inputs and {} outputs", d.n_in(), d.n_out());
            for (b, w) in lanes(&asg, n).into_iter().enumerate() {
                let mut inp = w;
                inp.extend(words(&consts));
                let got = d.eval(&inp);
                for k in 0..64.min(asg.len() - 64 * b) {
                    let g: Vec<bool> = got.iter().map(|x| x >> k & 1 == 1).collect();
                    cx.comparisons += 1;
                    check!(g == want[64 * b + k], "on inputs {} the document gives {} instead of {}", bs(&asg[64 * b + k]), bs(&g), bs(&want[64 * b + k]));
                }
            }
        }
        7 => {
            check!(d.ins == [first, total - first], "the input groups are {:?} instead of [{first}, {}]", d.ins, total - first);
            check!(d.outs == [c.output_len()], "the output groups are {:?} instead of [{}]", d.outs, c.output_len());
            check!(consts.len() == c.num_const(), "{} constant bits for {} declared constants", consts.len(), c.num_const());
            let mut w = exporter(&c);
            for _ in 0..2 {
                check!(ok(w.write(first, None), "export")? == consts, "another export returns other constants");
            }
            let both = text_of(written(&mut w)?)?;
            check!(both.len() == 2 * text.len() && both.starts_with(&text) && both.ends_with(&text), "another export of the same circuit differs");
            cx.comparisons += 4;
        }
        _ => {
            let b = import(&text)?;
            check!(b.input_len() == n + consts.len() && b.output_len() == c.output_len(), "the imported circuit has {} inputs and {} outputs", b.input_len(), b.output_len());
            let x: Vec<Vec<bool>> = asg.iter().map(|a| a.iter().chain(&consts).copied().collect()).collect();
            let mut ev = NXAOBoolEvaluator::new(b.clone());
            for k in 0..3.min(x.len()) {
                let got = ok(ev.eval_output(&x[k]), "evaluation of the imported circuit")?;
                cx.comparisons += 1;
                check!(got == want[k], "on inputs {} the imported circuit gives {} instead of {}", bs(&asg[k]), bs(&got), bs(&want[k]));
            }
            if let Some(fb) = crate::flat::compile(&b) {
                for (k, got) in fb.eval_all(&x).into_iter().enumerate() {
                    cx.comparisons += 1;
                    check!(got == want[k], "on inputs {} the imported circuit gives {} instead of {}", bs(&asg[k]), bs(&got), bs(&want[k]));
                }
            }
        }
    }
    Ok(())
}

fn c06(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, 300) {
        return library_export(src, cx, 6);
    }
    let (_g, c, m) = any_circuit(src, cx)?;
    let n = m.inputs.len();
    let first = src.usize(n + m.num_const() + 1);
    // half of the time the caller asks for the gate-to-wire map
    let mut map: HashMap<GateId, usize> = HashMap::new();
    let with_map = src.bool();
    let mut w = exporter(&c);
    let consts = ok(w.write(first, if with_map { Some(&mut map) } else { None }), "export")?;
    let text = text_of(written(&mut w)?)?;
    cx.log(|| format!("exported: {:?} constants {}", cut(&text), bs(&consts)));
    let d = parse(&text)?;
    check!(d.n_in() == n + consts.len(), "the document has {} inputs for {n} inputs and {} constants", d.n_in(), consts.len());
    check!(d.n_out() == m.outs.len(), "the document has {} outputs instead of {}", d.n_out(), m.outs.len());
    let (asg, full) = assignments_for(&m, src, 8, 126);
    if full {
        cx.label("all assignments");
    }
    for w in lanes(&asg, n) {
        let want = m.eval(&w);
        let mut inp = w.clone();
        inp.extend(words(&consts));
        let got = d.eval(&inp);
        cx.comparisons += 64;
        if got != want {
            let k = (0..want.len()).find(|&k| got[k] != want[k]).unwrap();
            let lane = (got[k] ^ want[k]).trailing_zeros();
            let a: Vec<bool> = w.iter().map(|x| x >> lane & 1 == 1).collect();
            return fail(format!("on inputs {} with constants {} output {k} of the document is {} instead of {}\n{}", bs(&a), bs(&consts), got[k] >> lane & 1, want[k] >> lane & 1, cut(&text)));
        }
        if with_map {
            let all = m.eval_all(&w);
            let wires = d.eval_wires(&inp);
            for (i, id) in m.ids.iter().enumerate() {
                if let Some(&x) = map.get(id) {
                    check!(x < wires.len() && wires[x] == all[i], "the returned map sends gate {id} to wire {x}, which does not carry it");
                    cx.comparisons += 1;
                }
            }
            for &i in m.inputs.iter().chain(&m.outs) {
                check!(map.contains_key(&m.ids[i]), "the returned map has no wire for gate {} although it is an input or output", m.ids[i]);
            }
            cx.label("with gate-to-wire map");
        }
    }
    if d.gates.iter().any(|l| l.op == Op::Eqw) {
        cx.label("outputs copied to the end");
    }
    cx.nontrivial = live_gates(&m) >= 2;
    Ok(())
}

fn c07(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, 300) {
        return library_export(src, cx, 7);
    }
    let (g, mut c, mut m) = any_circuit(src, cx)?;
    let n = m.inputs.len();
    let total = n + m.num_const();
    let first = src.usize(total + 1);
    let snap = Snap::of(&c);
    let msnaps: Vec<Snap> = g.reg.iter().map(|e| Snap::of(&e.c)).collect();
    let mut w = exporter(&c);
    let consts = ok(w.write(first, None), "export")?;
    let bytes = written(&mut w)?;
    let text = text_of(bytes.clone())?;
    cx.log(|| format!("exported: {:?} constants {}", cut(&text), bs(&consts)));
    snap.same(&c, "export")?;
    for (e, s) in g.reg.iter().zip(&msnaps) {
        s.same(&e.c, "export of the caller")?;
    }
    let d = parse(&text)?;
    check!(d.ins == [first, total - first], "the input groups are {:?} instead of [{first}, {}]", d.ins, total - first);
    check!(d.outs == [m.outs.len()], "the output groups are {:?} instead of [{}]", d.outs, m.outs.len());
    check!(consts.len() == m.num_const(), "{} constant bits for {} declared constants", consts.len(), m.num_const());
    // the outputs in order on the last wires: compare values on one block of random assignments
    let inp: Vec<u64> = (0..n).map(|_| src.word()).collect();
    let mut x = inp.clone();
    x.extend(words(&consts));
    check!(d.eval(&x) == m.eval(&inp), "the last wires do not carry the outputs in order\n{}", cut(&text));
    cx.comparisons += 4;
    // again with the same exporter
    let first2 = if src.bool() { first } else { src.usize(total + 1) };
    let consts2 = ok(w.write(first2, None), "second export")?;
    let both = text_of(written(&mut w)?)?;
    check!(both.as_bytes().starts_with(&bytes), "the second export disturbs the first");
    let second = &both[bytes.len()..];
    let body = |t: &str| t.splitn(4, '\n').nth(3).unwrap_or("").to_string();
    check!(consts2 == consts, "the second export by the same exporter returns constants {} instead of {}", bs(&consts2), bs(&consts));
    check!(body(second) == body(&text), "the second export by the same exporter differs:\n{}\n---\n{}", cut(&text), cut(second));
    let d2 = parse(second)?;
    check!(d2.ins == [first2, total - first2] && (d2.ngates, d2.nwires) == (d.ngates, d.nwires), "header of the second export");
    // and with a new one
    let (text3, consts3) = export(&c, first)?;
    check!(text3 == text && consts3 == consts, "the export by a new exporter differs:\n{}\n---\n{}", cut(&text), cut(&text3));
    snap.same(&c, "export")?;
    cx.comparisons += 3;
    cx.nontrivial = live_gates(&m) >= 2;
    // an export that fails in between
    if m.nodes.len() < 1000 && !m.ids.is_empty() && src.chance(1, 6) {
        crate::p_circuit::late_gate(src, cx, &mut c, &mut m, &mut [], Some((&mut w, first)))?;
    }
    Ok(())
}

fn import(text: &str) -> R<CR> {
    let mut c = new_circuit();
    ok(BristolNXAOReader::new().read(text.as_bytes(), &mut c), "import")?;
    Ok(c)
}

fn c08(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, 300) {
        return library_export(src, cx, 8);
    }
    let (_g, c, m) = any_circuit(src, cx)?;
    let n = m.inputs.len();
    let first = src.usize(n + m.num_const() + 1);
    let (text, consts) = export(&c, first)?;
    cx.log(|| format!("exported: {:?} constants {}", cut(&text), bs(&consts)));
    let b = import(&text)?;
    check!(b.input_len() == n + consts.len(), "the imported circuit has {} inputs instead of {} + {}", b.input_len(), n, consts.len());
    check!(consts.len() == m.num_const(), "{} constant bits instead of {}", consts.len(), m.num_const());
    check!(b.output_len() == m.outs.len(), "the imported circuit has {} outputs instead of {}", b.output_len(), m.outs.len());
    check!(b.num_const() == 0, "the imported circuit has constants");
    let (asg, _) = assignments_for(&m, src, 5, 20);
    let want = model_outputs(&m, &asg);
    let mut ea = NXAOBoolEvaluator::new(c.clone());
    let mut eb = NXAOBoolEvaluator::new(b.clone());
    for (k, (a, w)) in asg.iter().zip(&want).enumerate() {
        let mut x = a.clone();
        x.extend(&consts);
        let got = ok(eb.eval_output(&x), "evaluation of the imported circuit")?;
        cx.comparisons += 1;
        check!(&got == w, "on inputs {} with constants {} the imported circuit gives {} instead of {}\n{}", bs(a), bs(&consts), bs(&got), bs(w), cut(&text));
        if k < 3 {
            let orig = ok(ea.eval_output(a), "evaluation of the original circuit")?;
            check!(orig == got, "original and imported circuit disagree on {}", bs(a));
        }
    }
    // Two more generations. The second document comes from a flat circuit without constants, so it
    // has no dead gates and its gates are in emission order: unless outputs had to be copied, the
    // circuit it describes survives a round trip unchanged.
    let first2 = src.usize(b.input_len() + 1);
    let (text2, consts2) = export(&b, first2)?;
    check!(consts2.is_empty(), "constants appear in the export of an imported document");
    let b2 = import(&text2)?;
    let (text3, consts3) = export(&b2, first2)?;
    check!(consts3.is_empty(), "constants appear in the export of an imported document");
    let b3 = import(&text3)?;
    if !text2.contains("EQW") {
        cx.label("canonical circuit");
        check!(b3 == b2, "a circuit in emission order changes in an export/import round trip:\n{}\n---\n{}", cut(&text2), cut(&text3));
        check!(text2 == text3, "the document changes in an import/export round trip:\n{}\n---\n{}", cut(&text2), cut(&text3));
        cx.comparisons += 2;
    }
    let mut e2 = NXAOBoolEvaluator::new(b2);
    let mut e3 = NXAOBoolEvaluator::new(b3);
    for (a, w) in asg.iter().zip(&want).take(8) {
        let mut x = a.clone();
        x.extend(&consts);
        for (e, g) in [(&mut e2, 2), (&mut e3, 3)] {
            let got = ok(e.eval_output(&x), "later generation")?;
            check!(&got == w, "after {g} round trips inputs {} give {} instead of {}", bs(a), bs(&got), bs(w));
            cx.comparisons += 1;
        }
    }
    cx.nontrivial = live_gates(&m) >= 2;
    Ok(())
}

/// a circuit written by hand in the exporter's emission order: the operands of all outputs first
/// (depth first, left before right), then the outputs
fn c08_canonical(src: &mut Src, cx: &mut Cx) -> R {
    let mut c = new_circuit();
    let mut b = Build { m: MCirc::default(), c: &mut c };
    for _ in 0..src.range(1, 6) {
        add_input(&mut b, cx)?;
    }
    // one layer of inner gates that are all used, then outputs over them in order
    let k = src.usize(6);
    let n = b.m.nodes.len();
    for _ in 0..k {
        let (op, x, y) = (src.usize(4), src.usize(n), src.usize(n));
        add_op(&mut b, cx, op, x, y)?;
    }
    let mut outs = vec![];
    // first the inner gates in creation order, so that the traversal reaches them in this order
    for i in 0..k {
        let op = src.usize(4);
        let y = src.usize(n);
        outs.push(add_op(&mut b, cx, op, n + i, y)?);
    }
    for _ in 0..src.range(if k == 0 { 1 } else { 0 }, 4) {
        let (op, x, y) = (src.usize(4), src.usize(n + k), src.usize(n + k));
        outs.push(add_op(&mut b, cx, op, x, y)?);
    }
    for o in outs {
        add_output(&mut b, cx, o)?;
    }
    let m = b.m;
    let first = src.usize(m.inputs.len() + 1);
    let (text, consts) = export(&c, first)?;
    cx.log(|| format!("exported: {:?}", cut(&text)));
    check!(consts.is_empty(), "constants from nowhere");
    let r = import(&text)?;
    cx.comparisons += 1;
    check!(r == c, "the imported circuit differs from the original:\n{}", cut(&text));
    cx.label("hand-made canonical circuit");
    cx.nontrivial = true;
    Ok(())
}

fn c08_any(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, 5) {
        c08_canonical(src, cx)
    } else {
        c08(src, cx)
    }
}

fn groups(src: &mut Src, n: usize) -> Vec<usize> {
    match src.usize(4) {
        0 => vec![n],
        1 => {
            let a = src.usize(n + 1);
            vec![a, n - a]
        }
        2 if n <= 12 => vec![1; n],
        _ => {
            let mut v = vec![];
            let mut left = n;
            while left > 0 && v.len() < 12 {
                let a = src.usize(left + 1);
                v.push(a);
                left -= a;
            }
            if left > 0 || v.is_empty() {
                v.push(left);
            }
            v
        }
    }
}

/// a valid document
pub fn gen_doc(src: &mut Src, big: bool) -> Doc {
    let n_in = if big { src.range(0, 60) } else { src.range(0, 7) };
    let ngates = if big { src.range(1, 400) } else { src.range(if n_in == 0 { 1 } else { 0 }, 16) };
    let nwires = n_in + ngates;
    let n_out = src.usize(nwires.min(if big { 60 } else { 6 }) + 1);
    // a permutation of the gate wires
    let mut wires: Vec<usize> = (n_in..nwires).collect();
    let shuffled = src.bool();
    if shuffled {
        for i in (1..wires.len()).rev() {
            let j = src.usize(i + 1);
            wires.swap(i, j);
        }
    }
    let mut defined: Vec<usize> = (0..n_in).collect();
    let mut gates = vec![];
    for out in wires {
        let mut op = match src.weighted(&[4, 6, 6, 6, 2, 1]) {
            0 => Op::Inv,
            1 => Op::Xor,
            2 => Op::And,
            3 => Op::Or,
            4 => Op::Eqw,
            _ => Op::Eq(src.bool()),
        };
        if defined.is_empty() {
            op = Op::Eq(src.bool());
        }
        let k = match op {
            Op::Eq(_) => 0,
            Op::Inv | Op::Eqw => 1,
            _ => 2,
        };
        let ins = (0..k)
            .map(|_| {
                let n = defined.len();
                let j = if src.bool() { src.usize(n) } else { n - 1 - src.usize(n.min(3)) };
                defined[j]
            })
            .collect();
        gates.push(Line { op, ins, out });
        defined.push(out);
    }
    let ins = groups(src, n_in);
    let outs = groups(src, n_out);
    Doc { ngates, nwires, ins, outs, gates }
}

/// a valid document with tens of thousands of gates or inputs
fn bulk_doc(src: &mut Src, cx: &mut Cx) -> Doc {
    let n_in = [1, 2, 40, 70_000][src.weighted(&[3, 3, 3, 1])];
    let ngates = [3_000, 20_000, 66_000, 100_000][src.usize(4)];
    let nwires = n_in + ngates;
    let n_out = [1, 5, 64, 3_000][src.usize(4)];
    let mut r = Rng::new(src.word());
    let mut below = |k: usize| (r.next() % k as u64) as usize;
    let mut wires: Vec<usize> = (n_in..nwires).collect();
    if src.bool() {
        for i in (1..wires.len()).rev() {
            wires.swap(i, below(i + 1));
        }
    }
    let local = src.bool();
    let mut defined: Vec<usize> = (0..n_in).collect();
    let mut gates = vec![];
    for out in wires {
        let (op, k) = match below(16) {
            0 => (Op::Inv, 1),
            1 => (Op::Eqw, 1),
            2 | 3 => (Op::And, 2),
            4 | 5 => (Op::Or, 2),
            _ => (Op::Xor, 2),
        };
        let n = defined.len();
        let ins = (0..k).map(|_| defined[if local { n - 1 - below(n.min(5)) } else { below(n) }]).collect();
        gates.push(Line { op, ins, out });
        defined.push(out);
    }
    cx.label(if local { "bulk: deep document" } else { "bulk: wide document" });
    if nwires > 65_536 {
        cx.label("bulk: more than 65536 wires");
    }
    Doc { ngates, nwires, ins: vec![n_in], outs: vec![n_out], gates }
}

/// the same document with other spacing and line ends
fn restyle(src: &mut Src, text: &str, cx: &mut Cx) -> String {
    let style = src.usize(4);
    if style == 0 {
        return text.to_string();
    }
    cx.label("unusual spacing or line ends");
    let crlf = src.bool();
    let mut o = String::new();
    let lines: Vec<&str> = text.lines().collect();
    for (i, l) in lines.iter().enumerate() {
        if l.is_empty() {
            if style == 3 && src.bool() {
                o.push(' ');
            }
        } else {
            if style >= 2 && src.chance(1, 4) {
                o += [" ", "\t", "  "][src.usize(3)];
            }
            for (k, t) in l.split(' ').enumerate() {
                if k > 0 {
                    o += if style >= 2 { [" ", "  ", "\t", " \t "][src.usize(4)] } else { " " };
                }
                o += t;
            }
            if style >= 2 && src.chance(1, 4) {
                o += [" ", "\t", "  "][src.usize(3)];
            }
        }
        let last = i + 1 == lines.len();
        if last && lines.len() > 4 && src.chance(1, 3) {
            break;
        }
        o += if crlf { "\r\n" } else { "\n" };
    }
    if o.ends_with('\n') && src.chance(1, 4) {
        for _ in 0..src.range(1, 3) {
            o += if crlf { "\r\n" } else { "\n" };
        }
    }
    o
}

fn check_import(src: &mut Src, cx: &mut Cx, d: &Doc, c: &CR, pre: Option<&MCirc>) -> R {
    let (pi, po) = pre.map_or((0, 0), |m| (m.inputs.len(), m.outs.len()));
    let (ni, no) = (d.n_in(), d.n_out());
    check!(c.input_len() == pi + ni, "{} inputs instead of {pi} + {ni}", c.input_len());
    check!(c.output_len() == po + no, "{} outputs instead of {po} + {no}", c.output_len());
    let (asg, _) = if d.gates.len() > BULK { assignments(src, ni, 1, 4) } else { assignments(src, ni, 6, 20) };
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    let mut k = 0;
    for w in lanes(&asg, ni) {
        let want = d.eval(&w);
        for lane in 0..64 {
            if k == asg.len() {
                break;
            }
            let mut inp = if pi > 0 { src.bits(pi) } else { vec![] };
            let mut exp = match pre {
                Some(m) => model_outputs(m, &[inp.clone()]).remove(0),
                None => vec![],
            };
            inp.extend(&asg[k]);
            exp.extend(want.iter().map(|x| x >> lane & 1 == 1));
            let got = ok(ev.eval_output(&inp), "evaluation")?;
            cx.comparisons += 1;
            check!(got == exp, "on inputs {} the imported circuit gives {} instead of {}\n{}", bs(&inp), bs(&got), bs(&exp), cut(&d.render()));
            k += 1;
        }
    }
    Ok(())
}

fn c09(src: &mut Src, cx: &mut Cx) -> R {
    if src.chance(1, 6000) {
        let d = bulk_doc(src, cx);
        let text = d.render();
        cx.log(|| format!("document: {:?}", cut(&text)));
        let c = import(&text)?;
        cx.nontrivial = true;
        return check_import(src, cx, &d, &c, None);
    }
    let big = src.chance(1, 12);
    let mut reader = BristolNXAOReader::new();
    let mut rounds = 1 + src.weighted(&[4, 2, 1]);
    // a reused importer, possibly after a failure
    if src.chance(1, 4) {
        let d = gen_doc(src, false);
        let mut t = d.render();
        t += "2 1 0 0 0 NAND\n";
        let mut c = new_circuit();
        let r = reader.read(t.as_bytes(), &mut c);
        check!(r.is_err(), "a document with a NAND gate was imported");
        cx.label("importer reused after a failure");
        rounds = rounds.min(2);
    }
    for k in 0..rounds {
        let d = gen_doc(src, big);
        let text = d.render();
        let text = restyle(src, &text, cx);
        cx.log(|| format!("document: {:?}", cut(&text)));
        match strict(&text) {
            Verdict::Valid(x) if x == d => {}
            v => return fail(format!("harness: {v:?}")),
        }
        if k > 0 {
            cx.label("importer reused");
        }
        let target = src.usize(3);
        let via_buf = src.bool();
        let mut read = |c: &mut CR| if via_buf { reader.read(BufReader::with_capacity(1 + text.len() / 3, text.as_bytes()), c) } else { reader.read(text.as_bytes(), c) };
        if target < 2 {
            let mut c = new_circuit();
            ok(read(&mut c), "import")?;
            check_import(src, cx, &d, &c, None)?;
            // the importer adds one gate per line, two for a copy, one constant for an EQ
            let consts = d.gates.iter().filter(|l| matches!(l.op, Op::Eq(_))).count();
            check!(c.num_const() == consts, "{} constants instead of {consts}", c.num_const());
        } else {
            // beside an existing circuit
            let mut g = Gen::new();
            let mut c = g.circuit();
            let depth = src.bool();
            let mut p = GP::pick(src, depth);
            p.max_ops = p.max_ops.min(12);
            let m = gen_into(&mut g, &mut c, src, cx, &p)?;
            ok(read(&mut c), "import")?;
            cx.label("import into a circuit in use");
            check_import(src, cx, &d, &c, Some(&m))?;
        }
        for l in &d.gates {
            cx.label(match l.op {
                Op::Inv => "INV",
                Op::Xor => "XOR",
                Op::And => "AND",
                Op::Or => "OR",
                Op::Eqw => "EQW",
                Op::Eq(_) => "EQ",
            });
        }
        if d.outs.len() > 1 {
            cx.label("several output groups");
        }
        if d.ins.len() > 2 {
            cx.label("several input groups");
        }
        if d.gates.windows(2).any(|w| w[0].out > w[1].out) {
            cx.label("wires not in line order");
        }
        if d.n_out() > d.ngates {
            cx.label("inputs among the last wires");
        }
        cx.nontrivial |= d.gates.len() >= 3 && d.n_out() >= 1 && d.n_in() >= 1;
    }
    Ok(())
}

fn token(src: &mut Src, d: &Doc) -> String {
    match src.usize(14) {
        0 => "0".into(),
        1 => "1".into(),
        2 => "2".into(),
        3 => "3".into(),
        4 => d.nwires.to_string(),
        5 => (d.nwires + src.usize(5)).to_string(),
        6 => src.usize(d.nwires + 1).to_string(),
        7 => "-1".into(),
        8 => "18446744073709551615".into(),
        9 => "18446744073709551616".into(),
        10 => "x".into(),
        11 => ["XOR", "AND", "INV", "OR", "EQ", "EQW", "NAND", "MAND", "xor", "NOT"][src.usize(10)].into(),
        12 => "".into(),
        _ => ["1.5", "0x1", "\u{662}", "١", "1,", "+1", "00", "é", "9223372036854775808", "NaN"][src.usize(10)].into(),
    }
}

fn mutate(src: &mut Src, d: &Doc, text: &str) -> Vec<u8> {
    let mut lines: Vec<String> = text.lines().map(|x| x.to_string()).collect();
    let mut bytes: Option<Vec<u8>> = None;
    for _ in 0..src.range(1, 3) {
        if lines.is_empty() {
            break;
        }
        // header and body lines alike
        let i = if src.chance(1, 3) { src.usize(lines.len().min(4)) } else { src.usize(lines.len()) };
        let toks: Vec<String> = lines[i].split_whitespace().map(|x| x.to_string()).collect();
        match src.usize(12) {
            0 => {
                lines.remove(i);
            }
            1 => lines.truncate(i),
            2 | 3 | 4 if !toks.is_empty() => {
                let mut t = toks.clone();
                let k = src.usize(t.len());
                t[k] = token(src, d);
                lines[i] = t.join(" ");
            }
            5 if !toks.is_empty() => {
                let mut t = toks.clone();
                let k = src.usize(t.len());
                t.remove(k);
                lines[i] = t.join(" ");
            }
            6 => {
                let mut t = toks.clone();
                let k = src.usize(t.len() + 1);
                t.insert(k, token(src, d));
                lines[i] = t.join(" ");
            }
            7 => {
                let j = src.usize(lines.len());
                lines.swap(i, j);
            }
            8 => {
                let l = lines[i].clone();
                let j = src.usize(lines.len() + 1);
                lines.insert(j, l);
            }
            9 => lines.insert(i, ["", " ", "# comment", "0 0", "1 1 0 1"][src.usize(5)].to_string()),
            10 if toks.len() >= 3 => {
                // a gate with a wrong number of operands or results, consistently announced
                let n = src.usize(4);
                let o = if src.chance(1, 3) { src.usize(3) } else { 1 };
                let mut t = vec![n.to_string(), o.to_string()];
                for _ in 0..n + o {
                    t.push(src.usize(d.nwires.max(1)).to_string());
                }
                t.push(["XOR", "AND", "INV", "OR", "EQ", "EQW"][src.usize(6)].into());
                lines[i] = t.join(" ");
            }
            _ => {
                let mut b = (lines.join("\n") + "\n").into_bytes();
                for _ in 0..src.range(1, 3) {
                    if b.is_empty() {
                        break;
                    }
                    let k = src.usize(b.len());
                    match src.usize(4) {
                        0 => b.truncate(k),
                        1 => {
                            b.remove(k);
                        }
                        2 => b[k] = src.below(256) as u8,
                        _ => b.insert(k, [b'\n', b' ', b'\r', b'0', b'9', 0, 255, b'E'][src.usize(8)]),
                    }
                }
                bytes = Some(b);
                break;
            }
        }
    }
    bytes.unwrap_or_else(|| (lines.join("\n") + "\n").into_bytes())
}

/// would importing this allocate without bound? (input groups are created one by one)
fn too_big(bytes: &[u8]) -> bool {
    let t = String::from_utf8_lossy(bytes);
    let Some(l2) = t.split('\n').nth(1) else { return false };
    let mut sum = 0u64;
    for x in l2.split_whitespace().skip(1) {
        if let Ok(v) = x.trim_start_matches('+').parse::<u64>() {
            sum = sum.saturating_add(v);
        }
    }
    sum > 5_000
}

fn c10(src: &mut Src, cx: &mut Cx) -> R {
    let mut reader = BristolNXAOReader::new();
    let mut rejected = 0;
    for _ in 0..src.range(1, 4) {
        let d = gen_doc(src, false);
        let bytes: Vec<u8> = match src.weighted(&[10, 1, 1]) {
            0 => {
                let text = d.render();
                let text = if src.chance(1, 4) { restyle(src, &text, cx) } else { text };
                mutate(src, &d, &text)
            }
            1 => {
                let n = src.usize(60);
                src.bytes(n)
            }
            _ => {
                // random tokens in document shape
                let mut s = String::new();
                for _ in 0..src.usize(10) {
                    for _ in 0..src.usize(6) {
                        s += &token(src, &d);
                        s.push(' ');
                    }
                    s.push('\n');
                }
                s.into_bytes()
            }
        };
        if too_big(&bytes) {
            continue;
        }
        let v = match std::str::from_utf8(&bytes) {
            Ok(t) => strict(t),
            Err(_) => Verdict::Unspecified("not UTF-8".into()),
        };
        cx.log(|| format!("document: {:?}; strict reading: {}", String::from_utf8_lossy(&bytes), match &v {
            Verdict::Valid(_) => "valid".to_string(),
            Verdict::Reject(m) => format!("must be rejected: {m}"),
            Verdict::Unspecified(m) => format!("not specified: {m}"),
        }));
        let fresh = src.bool();
        let mut c = new_circuit();
        let res = guarded(|| if fresh { BristolNXAOReader::new().read(&bytes[..], &mut c) } else { reader.read(&bytes[..], &mut c) });
        cx.comparisons += 1;
        let shown = || cut(&String::from_utf8_lossy(&bytes));
        let res = match res {
            Err(p) => return fail(format!("import panics: {p}\n{}", shown())),
            Ok(r) => r,
        };
        match v {
            Verdict::Valid(d) => {
                cx.label("still valid after mutation");
                if let Err(e) = res {
                    return fail(format!("a valid document is rejected: {e}\n{}", shown()));
                }
                check_import(src, cx, &d, &c, None)?;
            }
            Verdict::Reject(m) => {
                check!(res.is_err(), "import accepts a malformed document ({m})\n{}", shown());
                rejected += 1;
                let m = &m[..];
                cx.label(if m.starts_with("no line") {
                    "missing header line"
                } else if m.contains("is not a number") {
                    "non-numeric field"
                } else if m.starts_with("missing") {
                    "missing field"
                } else if m.contains("operands and") {
                    "wrong number of operands or results"
                } else if m.starts_with("undefined wire") {
                    "undefined wire"
                } else if m.starts_with("unsupported gate") {
                    "unsupported gate"
                } else if m.starts_with("more outputs") {
                    "more outputs than wires"
                } else {
                    "output never defined"
                });
            }
            Verdict::Unspecified(_) => cx.label(if res.is_ok() { "unspecified, accepted" } else { "unspecified, rejected" }),
        }
    }
    cx.nontrivial = rejected >= 1;
    Ok(())
}

// ---- faults

/// the kind of an injected fault: all but `Interrupted`, which asks for a retry
fn fault(rng: &mut Rng, what: &str) -> std::io::Error {
    use std::io::ErrorKind::*;
    let kinds = [
        Other, UnexpectedEof, InvalidData, InvalidInput, WouldBlock, TimedOut, BrokenPipe, WriteZero, ConnectionReset, ConnectionAborted,
        PermissionDenied, NotFound, AlreadyExists, Unsupported, OutOfMemory, NotConnected, AddrInUse, StorageFull,
    ];
    let k = kinds[(rng.next() % kinds.len() as u64) as usize];
    match rng.next() % 3 {
        0 => k.into(),
        1 => std::io::Error::from_raw_os_error([5, 28, 32, 9, 11, 104][(rng.next() % 6) as usize]),
        _ => std::io::Error::new(k, what.to_string()),
    }
}

struct Sink {
    data: Rc<RefCell<Vec<u8>>>,
    /// bytes accepted before the failure
    limit: usize,
    rng: Rng,
    /// 0: whole writes, 1: short writes, 2: short writes and interruptions
    mode: usize,
    zero: bool,
    failed: Rc<RefCell<bool>>,
    fail_flush: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut d = self.data.borrow_mut();
        if b.is_empty() {
            return Ok(0);
        }
        if self.mode == 2 && self.rng.next() % 4 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let room = self.limit - d.len().min(self.limit);
        if room == 0 {
            *self.failed.borrow_mut() = true;
            if self.zero {
                return Ok(0);
            }
            return Err(fault(&mut self.rng, "sink full"));
        }
        let mut k = b.len().min(room);
        if self.mode >= 1 {
            k = k.min(1 + (self.rng.next() % 7) as usize);
        }
        d.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.fail_flush {
            *self.failed.borrow_mut() = true;
            return Err(fault(&mut self.rng, "flush fails"));
        }
        Ok(())
    }
}

fn sink_case(c: &CR, first: usize, good: &[u8], consts: &[bool], limit: usize, cap: usize, mode: usize, zero: bool, fail_flush: bool, seed: u64) -> R {
    let data = Rc::new(RefCell::new(vec![]));
    let failed = Rc::new(RefCell::new(false));
    let sink = Sink { data: data.clone(), limit, rng: Rng::new(seed), mode, zero, failed: failed.clone(), fail_flush };
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(cap, sink));
    let what = format!("sink accepting {limit} of {} bytes (buffer {cap}, mode {mode})", good.len());
    let r = match guarded(|| w.write(first, None)) {
        Err(p) => return fail(format!("{what}: export panics: {p}")),
        Ok(r) => r,
    };
    let early = *failed.borrow();
    if early && r.is_ok() {
        return fail(format!("{what}: the sink failed during the export, which reports success"));
    }
    let fl = w.writer.flush();
    {
        let d = data.borrow();
        check!(good.starts_with(&d), "{what}: the bytes accepted are not a prefix of the document");
    }
    if limit < good.len() || fail_flush {
        check!(r.is_err() || fl.is_err(), "{what}: neither the export nor the flush reports the failure");
        match &r {
            Ok(_) | Err(BristolError::IOError(_)) => {}
            Err(e) => return fail(format!("{what}: export reports another error than the sink's: {e}")),
        }
    } else {
        match &r {
            Err(e) => return fail(format!("{what}: export fails: {e}")),
            Ok(k) => check!(k == consts, "{what}: other constants"),
        }
        check!(fl.is_ok(), "{what}: flush fails");
        check!(*data.borrow() == good, "{what}: the sink received another document");
    }
    Ok(())
}

struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    /// fail when this many bytes were delivered
    limit: usize,
    sticky: bool,
    failed: bool,
    rng: Rng,
    max: usize,
    interrupts: bool,
}
impl<'a> Source<'a> {
    fn next_chunk(&mut self, want: usize) -> std::io::Result<&'a [u8]> {
        if self.interrupts && self.rng.next() % 4 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.pos >= self.limit && (self.sticky || !self.failed) {
            self.failed = true;
            return Err(fault(&mut self.rng, "source fails"));
        }
        let end = if self.failed || self.pos >= self.limit { self.data.len() } else { self.limit.min(self.data.len()) };
        let k = (1 + (self.rng.next() % self.max as u64) as usize).min(want).min(end - self.pos);
        let r = &self.data[self.pos..self.pos + k];
        Ok(r)
    }
}
impl<'a> Read for Source<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let c = self.next_chunk(b.len())?;
        b[..c.len()].copy_from_slice(c);
        self.pos += c.len();
        Ok(c.len())
    }
}
/// a BufRead that hands out arbitrary chunks itself
struct Chunked<'a>(Source<'a>);
impl<'a> Read for Chunked<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl<'a> BufRead for Chunked<'a> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.0.next_chunk(usize::MAX)
    }
    fn consume(&mut self, k: usize) {
        self.0.pos += k;
    }
}

fn source_case(good: &CR, text: &[u8], limit: usize, sticky: bool, max: usize, direct: bool, interrupts: bool, seed: u64) -> R {
    let s = Source { data: text, pos: 0, limit, sticky, failed: false, rng: Rng::new(seed), max, interrupts };
    let mut c = new_circuit();
    let what = format!("source failing after {limit} of {} bytes (chunks up to {max}, {})", text.len(), if sticky { "permanently" } else { "once" });
    let r = match guarded(|| {
        if direct {
            BristolNXAOReader::new().read(Chunked(s), &mut c)
        } else {
            BristolNXAOReader::new().read(BufReader::with_capacity(1 + (seed % 40) as usize, s), &mut c)
        }
    }) {
        Err(p) => return fail(format!("{what}: import panics: {p}")),
        Ok(r) => r,
    };
    if limit < text.len() {
        match &r {
            Ok(_) => return fail(format!("{what}: import reports success")),
            Err(BristolError::IOError(_)) => {}
            Err(e) => return fail(format!("{what}: import reports another error than the source's: {e}")),
        }
    } else {
        if let Err(e) = r {
            return fail(format!("{what}: import fails: {e}"));
        }
        check!(c == *good, "{what}: the chunking changes the imported circuit");
    }
    Ok(())
}

fn c11(src: &mut Src, cx: &mut Cx) -> R {
    if src.bool() {
        let (_g, c, m) = any_circuit(src, cx)?;
        let first = src.usize(m.inputs.len() + m.num_const() + 1);
        let (text, consts) = export(&c, first)?;
        let good = text.as_bytes();
        cx.log(|| format!("exported: {:?}", cut(&text)));
        let seed = src.below(1 << 32);
        let n = good.len();
        let limits: Vec<usize> = if n <= 80 || (cx.thorough && n <= 400) { (0..=n + 1).collect() } else { (0..24).map(|_| src.usize(n)).chain([0, n - 1, n, n + 1]).collect() };
        if limits.len() > n {
            cx.label("every offset");
        }
        for l in limits {
            let cap = [0, 1, 3, 16, 64, 8192][src.usize(6)];
            let mode = src.usize(3);
            let zero = src.chance(1, 4);
            let ff = src.chance(1, 8);
            sink_case(&c, first, good, &consts, l, cap, mode, zero, ff, seed ^ l as u64)?;
            cx.comparisons += 1;
        }
        cx.label("failing sinks");
        cx.nontrivial = live_gates(&m) >= 1;
    } else {
        let big = src.chance(1, 20);
        let d = gen_doc(src, big);
        let t = d.render();
        let t = if src.bool() { restyle(src, &t, cx) } else { t };
        // without the blank lines after the last gate, which need not be read
        let t = if d.gates.is_empty() { t } else { t.trim_end().to_string() + if src.bool() { "\n" } else { "" } };
        cx.log(|| format!("document: {:?}", cut(&t)));
        let good = import(&t)?;
        check_import(src, cx, &d, &good, None)?;
        let seed = src.below(1 << 32);
        let text = t.as_bytes();
        let n = text.len();
        // after the fourth line of a document without gates nothing need be read
        let need = if d.gates.is_empty() { t.match_indices('\n').nth(3).map_or(n, |x| x.0 + 1) } else { n };
        let limits: Vec<usize> = if n <= 80 || (cx.thorough && n <= 400) { (0..=n + 1).collect() } else { (0..24).map(|_| src.usize(n)).chain([0, n - 1, n + 1, n + 1]).collect() };
        if limits.len() > n {
            cx.label("every offset");
        }
        for l in limits {
            let l = if l >= need { usize::MAX } else { l };
            let max = [1, 2, 5, 17, 4096][src.usize(5)];
            let direct = src.bool();
            let intr = src.chance(1, 3);
            let sticky = src.chance(2, 3);
            source_case(&good, text, l, sticky, max, direct, intr, seed ^ l as u64)?;
            cx.comparisons += 1;
        }
        cx.label("failing or chunked sources");
        cx.nontrivial = d.gates.len() >= 1;
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

/// the numbers in a message
fn numbers(t: &str) -> Vec<&str> {
    t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect()
}

/// A valid document with one defect that import has to reject, and what the error has to say.
enum Says {
    Line(usize),
    Wire(Vec<usize>),
    Operation(String),
    Number,
}

fn defect(src: &mut Src, d: &Doc) -> Option<(String, Says)> {
    let text = d.render();
    let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let far = |src: &mut Src| match src.usize(4) {
        0 => d.nwires + src.usize(3),
        1 => d.nwires + 255 + src.usize(3),
        2 => d.nwires + (1 << 32),
        _ => usize::MAX - src.usize(4),
    };
    let says = match src.usize(5) {
        0 => {
            // cut after fewer lines than a header has
            let k = src.usize(4);
            lines.truncate(k);
            let t = lines.join("\n");
            let t = if k == 0 { String::new() } else if src.bool() || lines[k - 1].is_empty() { t + "\n" } else { t };
            return Some((t, Says::Line(k + 1)));
        }
        1 => {
            // an operand that no line defines (so far)
            let at: Vec<usize> = (0..d.gates.len()).filter(|&i| !matches!(d.gates[i].op, Op::Eq(_))).collect();
            if at.is_empty() {
                return None;
            }
            let i = at[src.usize(at.len())];
            let g = &d.gates[i];
            let later: Vec<usize> = d.gates[i..].iter().map(|g| g.out).collect();
            let w = if src.bool() { later[src.usize(later.len())] } else { far(src) };
            let mut d = d.clone();
            let j = src.usize(g.ins.len());
            d.gates[i].ins[j] = w;
            return Some((d.render(), Says::Wire(vec![w])));
        }
        2 => {
            if d.gates.is_empty() {
                return None;
            }
            let l = 4 + src.usize(d.gates.len());
            let names = ["NAND", "XNOR", "NOR", "MAND", "and", "Xor", "inv", "EQ2", "XORR", "NOT", "INVX", "A", "EQWW", "OR,", "\u{3a9}R", "ANDAND"];
            let n = names[src.usize(names.len())].to_string();
            let (head, _) = lines[l].rsplit_once(' ')?;
            lines[l] = format!("{head} {n}");
            Says::Operation(n)
        }
        3 => {
            // the outputs are the last wires: ask for wires past the last one
            if d.n_out() == 0 {
                return None;
            }
            let k = [1, 2, 3, 256, 1 << 33][src.usize(5)];
            lines[0] = format!("{} {}", d.ngates, d.nwires + k);
            let wires = (d.nwires + k - d.n_out()..d.nwires + k).take(d.n_out()).filter(|&w| w >= d.nwires).collect();
            Says::Wire(wires)
        }
        _ => {
            let mut at: Vec<(usize, usize)> = vec![(0, 0), (0, 1)];
            for l in [1, 2] {
                at.extend((0..lines[l].split(' ').filter(|t| !t.is_empty()).count()).map(|i| (l, i)));
            }
            for l in 4..lines.len() {
                at.extend((0..lines[l].split(' ').count() - 1).map(|i| (l, i)));
            }
            let (l, i) = at[src.usize(at.len())];
            let bad = ["x", "-1", "1.5", "0x1", "99999999999999999999999", "1,", "\u{661}", "--", "18446744073709551616"][src.usize(9)];
            let mut t: Vec<String> = lines[l].split_whitespace().map(|t| t.to_string()).collect();
            t[i] = bad.to_string();
            lines[l] = t.join(" ");
            Says::Number
        }
    };
    Some((lines.join("\n") + "\n", says))
}

fn c29(src: &mut Src, cx: &mut Cx) -> R {
    let mut reader = BristolNXAOReader::new();
    let mut told = 0;
    for _ in 0..src.range(1, 4) {
        let big = src.chance(1, 30);
        let d = gen_doc(src, big);
        let Some((t, says)) = defect(src, &d) else { continue };
        let t = if matches!(says, Says::Line(_)) { t } else { restyle_defect(src, t) };
        cx.log(|| format!("document: {:?}", cut(&t)));
        let mut c = new_circuit();
        let fresh = src.bool();
        let r = match guarded(|| if fresh { BristolNXAOReader::new().read(t.as_bytes(), &mut c) } else { reader.read(t.as_bytes(), &mut c) }) {
            Err(p) => return fail(format!("import panics: {p}\n{}", cut(&t))),
            Ok(r) => r,
        };
        let Err(e) = r else { return fail(format!("import accepts a malformed document\n{}", cut(&t))) };
        let shown = e.to_string();
        let what = || format!("the error is \"{shown}\" for the document\n{}", cut(&t));
        match says {
            Says::Line(k) => {
                cx.label("missing header line");
                check!(matches!(&e, BristolError::NotFoundLine(n) if *n == k) && numbers(&shown).contains(&&k.to_string()[..]), "line {k} is missing, but {}", what());
            }
            Says::Wire(ws) => {
                cx.label(if ws.len() == 1 { "undefined wire" } else { "one of several undefined wires" });
                let named = |n: usize| ws.contains(&n) && numbers(&shown).contains(&&n.to_string()[..]);
                check!(matches!(&e, BristolError::UnknownWire(n) if named(*n)), "no line defines wire {ws:?}, but {}", what());
            }
            Says::Operation(o) => {
                cx.label("unsupported operation");
                let named = shown.split_whitespace().any(|t| t == o);
                check!(matches!(&e, BristolError::NotSupportedGate(n) if *n == o) && named, "the operation {o} is not supported, but {}", what());
            }
            Says::Number => {
                cx.label("not a number");
                check!(matches!(&e, BristolError::ParseIntError(_)), "a field is not a number, but {}", what());
                check!(!shown.is_empty(), "the error has no message");
            }
        }
        told += 1;
        cx.comparisons += 1;
    }
    // errors of the streams are handed on as they are
    let (_g, c, m) = any_circuit(src, cx)?;
    let (text, _) = export(&c, 0)?;
    let at = src.usize(text.len());
    let seed = src.below(1 << 32);
    let whole = fault(&mut Rng::new(seed), "the stream is gone");
    {
        let same = |e: BristolError, what: &str| -> R {
            let shown = e.to_string();
            match e {
                BristolError::IOError(i) => {
                    check!(i.kind() == whole.kind() && i.to_string() == whole.to_string() && i.raw_os_error() == whole.raw_os_error(), "{what}: the error is {i:?} instead of {whole:?}");
                    check!(shown == whole.to_string(), "{what}: the error says \"{shown}\" instead of \"{whole}\"");
                    Ok(())
                }
                e => fail(format!("{what}: the error is {e:?} instead of {whole:?}")),
            }
        };
        struct Out(usize, u64);
        impl Write for Out {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                if self.0 == 0 {
                    return Err(fault(&mut Rng::new(self.1), "the stream is gone"));
                }
                let k = b.len().min(self.0);
                self.0 -= k;
                Ok(k)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        struct In<'a>(&'a [u8], u64);
        impl<'a> Read for In<'a> {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                if self.0.is_empty() {
                    return Err(fault(&mut Rng::new(self.1), "the stream is gone"));
                }
                let k = b.len().min(self.0.len());
                b[..k].copy_from_slice(&self.0[..k]);
                self.0 = &self.0[k..];
                Ok(k)
            }
        }
        let cap = [0, 1, 8][src.usize(3)];
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(cap, Out(at, seed)));
        let r = match guarded(|| w.write(0, None)) {
            Err(p) => return fail(format!("export to a sink that fails after {at} bytes: {p}")),
            Ok(r) => r,
        };
        // a buffered tail may be reported by the flush only
        match r {
            Err(e) => same(e, &format!("export to a sink that fails after {at} of {} bytes", text.len()))?,
            Ok(_) => match w.writer.flush() {
                Err(i) => same(BristolError::IOError(i), "flush after the export")?,
                Ok(()) => return fail("export to a failing sink reports success".to_string()),
            },
        }
        if m.ids.len() > m.inputs.len() {
            // otherwise the last lines need not be read
            let at = src.usize(text.trim_end().len());
            let mut c = new_circuit();
            match guarded(|| BristolNXAOReader::new().read(BufReader::with_capacity(1 + (seed % 30) as usize, In(&text.as_bytes()[..at], seed)), &mut c)) {
                Err(p) => return fail(format!("import from a source that fails after {at} bytes: {p}")),
                Ok(Err(e)) => same(e, &format!("import from a source that fails after {at} of {} bytes", text.len()))?,
                // nothing is left to be read after the blank line when there is no gate line
                Ok(Ok(())) => check!(text.lines().count() <= 4, "import from a source that fails after {at} of {} bytes succeeds", text.len()),
            }
        }
        cx.label("failing streams");
        cx.comparisons += 2;
    }
    cx.nontrivial = told >= 1;
    Ok(())
}

/// other spacing and line ends
fn restyle_defect(src: &mut Src, t: String) -> String {
    match src.usize(4) {
        0 => t.replace(' ', "  "),
        1 => t.replace('\n', "\r\n").replacen("\r\n\r\n", "\r\n\n", 1),
        2 => t.replace(' ', "\t"),
        _ => t,
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            run: c06,
            quick: 1_200_000,
            thorough: 4_000_000,
            rule: "at least two gates (or calls) that the outputs depend on",
            assumptions: &["modules are complete when they are called", "the requested first-input count does not exceed inputs plus constants", "a gate-to-wire map passed in is empty"],
            fixed: no_fixed,
        },
        Prop {
            id: "C07",
            run: c07,
            quick: 800_000,
            thorough: 4_000_000,
            rule: "at least two gates (or calls) that the outputs depend on",
            assumptions: &["modules are complete when they are called", "the requested first-input count does not exceed inputs plus constants"],
            fixed: no_fixed,
        },
        Prop {
            id: "C08",
            run: c08_any,
            quick: 240_000,
            thorough: 3_000_000,
            rule: "at least two gates (or calls) that the outputs depend on, or a hand-made circuit in emission order",
            assumptions: &["modules are complete when they are called"],
            fixed: no_fixed,
        },
        Prop {
            id: "C09",
            run: c09,
            quick: 300_000,
            thorough: 3_000_000,
            rule: "a document with at least three gate lines, one input and one output",
            assumptions: &["gate lines are separated by line ends only, no blank lines between them"],
            fixed: no_fixed,
        },
        Prop {
            id: "C10",
            run: c10,
            quick: 4_500_000,
            thorough: 12_000_000,
            rule: "at least one document that must be rejected",
            assumptions: &["input groups declare at most 5000 inputs in all (each is allocated)"],
            fixed: no_fixed,
        },
        Prop {
            id: "C11",
            run: c11,
            quick: 300_000,
            thorough: 600_000,
            rule: "a circuit with a live gate, or a document with a gate line",
            assumptions: &["bytes after the last gate line need not be read"],
            fixed: no_fixed,
        },
        Prop {
            id: "C29",
            run: c29,
            quick: 900_000,
            thorough: 4_000_000,
            rule: "at least one document with a planted defect",
            assumptions: &["one defect per document"],
            fixed: no_fixed,
        },
    ]
}
