//! Reference model of circuits (a plain DAG with calls, evaluated 64 assignments at a time) and
//! the generator that builds model and real circuit side by side through the public API.
use crate::engine::*;
use circuit_converters::*;
use std::cell::RefCell;
use std::rc::Rc;

pub type CR = BoolCircuitRef<NXAOBoolGate, NXAOBoolCircuit>;
pub type Storage = ModuleStorageRef<NXAOBoolGate, NXAOBoolCircuit>;

#[derive(Debug, Clone)]
pub enum Node {
    In(usize),
    Const(bool),
    Not(usize),
    Xor(usize, usize),
    And(usize, usize),
    Or(usize, usize),
    Equ(usize, usize),
    Ident(usize),
    /// output `out` of call number `call`
    Call { call: usize, out: usize },
}

#[derive(Debug, Clone)]
pub struct Call {
    pub mid: ModuleId,
    pub m: Rc<MCirc>,
    pub args: Vec<usize>,
}

#[derive(Debug, Clone, Default)]
pub struct MCirc {
    pub nodes: Vec<Node>,
    pub ids: Vec<GateId>,
    pub inputs: Vec<usize>,
    pub outs: Vec<usize>,
    pub calls: Vec<Call>,
}

impl MCirc {
    pub fn eval(&self, inputs: &[u64]) -> Vec<u64> {
        let w = self.eval_all(inputs);
        self.outs.iter().map(|&o| w[o]).collect()
    }
    pub fn eval_all(&self, inputs: &[u64]) -> Vec<u64> {
        assert_eq!(inputs.len(), self.inputs.len());
        let mut w: Vec<u64> = Vec::with_capacity(self.nodes.len());
        let mut done: Vec<Option<Vec<u64>>> = vec![None; self.calls.len()];
        for n in &self.nodes {
            let v = match *n {
                Node::In(k) => inputs[k],
                Node::Const(b) => if b { !0 } else { 0 },
                Node::Not(a) => !w[a],
                Node::Xor(a, b) => w[a] ^ w[b],
                Node::And(a, b) => w[a] & w[b],
                Node::Or(a, b) => w[a] | w[b],
                Node::Equ(a, b) => !(w[a] ^ w[b]),
                Node::Ident(a) => w[a],
                Node::Call { call, out } => {
                    if done[call].is_none() {
                        let c = &self.calls[call];
                        let args: Vec<u64> = c.args.iter().map(|&a| w[a]).collect();
                        done[call] = Some(c.m.eval(&args));
                    }
                    done[call].as_ref().unwrap()[out]
                }
            };
            w.push(v);
        }
        w
    }
    /// NOT/XOR/AND/OR gates with all calls inlined
    pub fn num_gate(&self) -> usize {
        let own: usize = self.nodes.iter().map(|n| match n {
            Node::Not(_) | Node::Xor(..) | Node::And(..) | Node::Or(..) => 1,
            Node::Equ(..) | Node::Ident(_) => 2,
            _ => 0,
        }).sum();
        own + self.calls.iter().map(|c| c.m.num_gate()).sum::<usize>()
    }
    pub fn num_const(&self) -> usize {
        let own = self.nodes.iter().filter(|n| matches!(n, Node::Const(_))).count();
        own + self.calls.iter().map(|c| c.m.num_const()).sum::<usize>()
    }
    pub fn num_wire(&self) -> usize {
        self.inputs.len() + self.num_gate() + self.num_const()
    }
    pub fn operands(&self, i: usize) -> Vec<usize> {
        match self.nodes[i] {
            Node::Not(a) | Node::Ident(a) => vec![a],
            Node::Xor(a, b) | Node::And(a, b) | Node::Or(a, b) | Node::Equ(a, b) => vec![a, b],
            Node::Call { call, .. } => self.calls[call].args.clone(),
            _ => vec![],
        }
    }
    /// nodes reachable from the outputs
    pub fn live(&self) -> Vec<bool> {
        let mut l = vec![false; self.nodes.len()];
        let mut st = self.outs.clone();
        while let Some(i) = st.pop() {
            if !l[i] {
                l[i] = true;
                st.extend(self.operands(i));
            }
        }
        l
    }
}

#[derive(Debug, Clone)]
pub struct GP {
    pub max_in: usize,
    pub max_ops: usize,
    pub max_out: usize,
    /// levels of modules below the circuit (0: flat)
    pub depth: usize,
    pub consts: bool,
    /// upper bound on the number of gates with calls inlined
    pub budget: usize,
}
impl GP {
    pub fn flat() -> GP {
        GP { max_in: 6, max_ops: 24, max_out: 7, depth: 0, consts: true, budget: 400 }
    }
    pub fn modular() -> GP {
        GP { max_in: 5, max_ops: 14, max_out: 6, depth: 3, consts: true, budget: 600 }
    }
    pub fn pick(src: &mut Src, depth: bool) -> GP {
        let mut p = if depth { GP::modular() } else { GP::flat() };
        match src.weighted(&[10, 3, 2, 2]) {
            0 => {}
            1 => p.max_ops = 5,
            2 => {
                p.max_ops = if depth { 40 } else { 120 };
                p.max_out = 20;
                p.budget = 2000;
            }
            _ => {
                p.max_in = 40;
                p.max_out = 40;
            }
        }
        p
    }
}

#[derive(Clone)]
pub struct Entry {
    pub id: ModuleId,
    pub m: Rc<MCirc>,
    pub c: CR,
}

pub struct Gen {
    /// modules callable by the circuits that share this registry
    pub reg: Vec<Entry>,
    pub storage: Storage,
}
thread_local! { static STORAGES: RefCell<Vec<Storage>> = RefCell::new(vec![]); }
/// A registry that is emptied at the end of the case (circuits and their registry refer to each
/// other, so they would never be freed).
pub fn new_storage() -> Storage {
    let s: Storage = ModuleStorageRef::new();
    STORAGES.with(|v| v.borrow_mut().push(s.clone()));
    s
}
pub fn cleanup() {
    let v = STORAGES.with(|v| std::mem::take(&mut *v.borrow_mut()));
    for s in v {
        let old = guarded(|| std::mem::replace(&mut *s.borrow_mut(), ModuleStorage::new()));
        drop(old);
    }
}
pub fn new_circuit() -> CR {
    NXAOBoolCircuit::new(new_storage()).to_ref()
}

/// What must not change when something only looks at a circuit.
pub struct Snap {
    c: NXAOBoolCircuit,
    counts: [usize; 6],
}
impl Snap {
    fn counts(c: &CR) -> [usize; 6] {
        let n = c.borrow().module_storage.num_module();
        [c.input_len(), c.output_len(), c.num_wire(), c.num_gate(), c.num_const(), n]
    }
    pub fn of(c: &CR) -> Snap {
        Snap { c: c.borrow().clone(), counts: Snap::counts(c) }
    }
    pub fn same(&self, c: &CR, what: &str) -> R {
        check!(*c.borrow() == self.c, "{what} changed the circuit");
        let n = Snap::counts(c);
        check!(n == self.counts, "{what} changed the circuit's sizes (inputs, outputs, wires, gates, constants, modules) from {:?} to {n:?}", self.counts);
        Ok(())
    }
}

impl Gen {
    pub fn new() -> Gen {
        Gen { reg: vec![], storage: new_storage() }
    }
    pub fn circuit(&self) -> CR {
        NXAOBoolCircuit::new(self.storage.clone()).to_ref()
    }
}

pub struct Build<'a> {
    pub m: MCirc,
    pub c: &'a mut CR,
}

fn pick(src: &mut Src, m: &MCirc) -> usize {
    let n = m.nodes.len();
    match src.weighted(&[4, 4, 2, 2]) {
        0 => src.usize(n),
        1 => n - 1 - src.usize(n.min(3)),
        2 => {
            if m.inputs.is_empty() {
                src.usize(n)
            } else {
                m.inputs[src.usize(m.inputs.len())]
            }
        }
        _ => src.usize(n.min(2)),
    }
}

pub fn name(i: usize) -> String {
    format!("n{i}")
}

fn push(m: &mut MCirc, n: Node, id: GateId) -> usize {
    m.nodes.push(n);
    m.ids.push(id);
    m.nodes.len() - 1
}

/// add an input
pub fn add_input(b: &mut Build, cx: &mut Cx) -> R<usize> {
    let id = ok(b.c.input(), "input")?;
    let k = b.m.inputs.len();
    let i = push(&mut b.m, Node::In(k), id);
    b.m.inputs.push(i);
    cx.log(|| format!("{}=input#{k}", name(i)));
    Ok(i)
}
pub fn add_const(b: &mut Build, cx: &mut Cx, v: bool) -> R<usize> {
    let id = ok(b.c.constant(v), "constant")?;
    let i = push(&mut b.m, Node::Const(v), id);
    cx.log(|| format!("{}=const {v}", name(i)));
    cx.label("constants");
    Ok(i)
}
pub fn add_output(b: &mut Build, cx: &mut Cx, i: usize) -> R {
    let w = ok(b.c.output(b.m.ids[i]), "output")?;
    check!(w.0 == b.m.outs.len() as u64, "output wire {} instead of {}", w, b.m.outs.len());
    cx.log(|| format!("output#{} = {}", b.m.outs.len(), name(i)));
    b.m.outs.push(i);
    Ok(())
}
/// one random primitive gate; the circuit must have a node
pub fn add_gate(b: &mut Build, src: &mut Src, cx: &mut Cx) -> R<usize> {
    let op = src.weighted(&[4, 4, 4, 4, 1, 1]);
    let x = pick(src, &b.m);
    let y = if matches!(op, 0 | 5) {
        x
    } else if src.chance(1, 8) {
        x
    } else {
        pick(src, &b.m)
    };
    add_op(b, cx, op, x, y)
}
pub fn add_op(b: &mut Build, cx: &mut Cx, op: usize, x: usize, y: usize) -> R<usize> {
    let (ix, iy) = (b.m.ids[x], b.m.ids[y]);
    let (id, n, t) = match op {
        0 => (ok(b.c.not(&ix), "not")?, Node::Not(x), "not"),
        1 => (ok(b.c.xor(&ix, &iy), "xor")?, Node::Xor(x, y), "xor"),
        2 => (ok(b.c.and(&ix, &iy), "and")?, Node::And(x, y), "and"),
        3 => (ok(b.c.or(&ix, &iy), "or")?, Node::Or(x, y), "or"),
        4 => (ok(b.c.equivalent(&ix, &iy), "equivalent")?, Node::Equ(x, y), "equivalent"),
        _ => (ok(b.c.identity(&ix), "identity")?, Node::Ident(x), "identity"),
    };
    if x == y && (1..=4).contains(&op) {
        cx.label("same operand twice");
    }
    let i = push(&mut b.m, n, id);
    cx.log(|| if op == 0 || op == 5 { format!("{}={t} {}", name(i), name(x)) } else { format!("{}={t} {} {}", name(i), name(x), name(y)) });
    Ok(i)
}
pub fn add_call(b: &mut Build, cx: &mut Cx, e: &Entry, args: Vec<usize>) -> R {
    let a: Vec<GateId> = args.iter().map(|&x| b.m.ids[x]).collect();
    let outs = ok(b.c.module(&e.id, &a), "module")?;
    check!(outs.len() == e.m.outs.len(), "module call returned {} gates, the module has {} outputs", outs.len(), e.m.outs.len());
    let call = b.m.calls.len();
    b.m.calls.push(Call { mid: e.id, m: e.m.clone(), args: args.clone() });
    let first = b.m.nodes.len();
    for (out, id) in outs.into_iter().enumerate() {
        push(&mut b.m, Node::Call { call, out }, id);
    }
    cx.log(|| format!("n{first}..n{} = module{}({})", b.m.nodes.len(), e.id, args.iter().map(|&x| name(x)).collect::<Vec<_>>().join(",")));
    cx.label("module call");
    match e.m.outs.len() {
        0 => cx.label("call of 0-output module"),
        1 => {}
        _ => cx.label("call of multi-output module"),
    }
    if !e.m.calls.is_empty() {
        cx.label("nested modules");
    }
    if e.m.num_wire() < e.m.inputs.len() + e.m.outs.len() {
        cx.label("module with fewer wires than ports");
    }
    Ok(())
}

/// make a new module available in g's registry
pub fn new_module(g: &mut Gen, c: &mut CR, src: &mut Src, cx: &mut Cx, p: &GP) -> R<Entry> {
    let mut q = p.clone();
    q.depth = p.depth - 1;
    q.max_in = p.max_in.min(5);
    q.max_out = p.max_out.min(5);
    q.max_ops = (p.max_ops / 2).clamp(2, 12);
    q.budget = p.budget / 4;
    if src.chance(1, 12) {
        q.max_in = 24;
        q.max_out = 24;
        q.max_ops = 30;
        q.budget = p.budget / 2;
        cx.label("wide module");
    }
    let kind = src.weighted(&[4, 2, 2]);
    let e = match kind {
        0 => {
            let (id, mut r) = c.sub_circuit();
            cx.log(|| format!("module{id} = sub_circuit {{"));
            let m = gen_into(g, &mut r, src, cx, &q)?;
            Entry { id, m: Rc::new(m), c: r }
        }
        1 => {
            let mut r = g.circuit();
            cx.log(|| "circuit sharing the registry {".into());
            let m = gen_into(g, &mut r, src, cx, &q)?;
            let id = c.register_module(&r);
            cx.log(|| format!("module{id} = registered"));
            Entry { id, m: Rc::new(m), c: r }
        }
        _ => {
            let mut g2 = Gen::new();
            let mut r = g2.circuit();
            cx.log(|| "circuit with its own registry {".into());
            let m = gen_into(&mut g2, &mut r, src, cx, &q)?;
            let id = c.register_module(&r);
            cx.log(|| format!("module{id} = registered"));
            cx.label("module with its own registry");
            if !m.calls.is_empty() {
                cx.label("nested call inside a module with its own registry");
            }
            Entry { id, m: Rc::new(m), c: r }
        }
    };
    cx.log(|| "}".into());
    g.reg.push(e.clone());
    Ok(e)
}

/// pick an existing module or make one
pub fn any_module(g: &mut Gen, c: &mut CR, src: &mut Src, cx: &mut Cx, p: &GP) -> R<Option<Entry>> {
    if p.depth == 0 {
        return Ok(None);
    }
    let use_old = !g.reg.is_empty() && src.chance(1, 2);
    if use_old {
        let e = g.reg[src.usize(g.reg.len())].clone();
        if src.chance(1, 8) {
            let id = c.register_module(&e.c);
            cx.log(|| format!("module{} registered again as module{id}", e.id));
            cx.label("module registered twice");
            let e2 = Entry { id, ..e };
            g.reg.push(e2.clone());
            return Ok(Some(e2));
        }
        cx.label("module used again");
        return Ok(Some(e));
    }
    Ok(Some(new_module(g, c, src, cx, p)?))
}

pub fn random_args(src: &mut Src, m: &MCirc, n: usize) -> Vec<usize> {
    if n > 0 && src.chance(1, 8) {
        let x = pick(src, m);
        return vec![x; n];
    }
    (0..n).map(|_| pick(src, m)).collect()
}

/// one random construction step (not an output)
pub fn step(g: &mut Gen, b: &mut Build, src: &mut Src, cx: &mut Cx, p: &GP) -> R {
    let empty = b.m.nodes.is_empty();
    let call_w = if p.depth > 0 { 8 } else { 0 };
    let k = src.weighted(&[if empty { 0 } else { 20 }, 1, if p.consts { 2 } else { 0 }, call_w]);
    match k {
        0 => {
            add_gate(b, src, cx)?;
        }
        1 => {
            add_input(b, cx)?;
        }
        2 => {
            let v = src.bool();
            add_const(b, cx, v)?;
        }
        _ => {
            let c = &mut b.c.clone();
            if let Some(e) = any_module(g, c, src, cx, p)? {
                if (empty && !e.m.inputs.is_empty()) || b.m.num_gate() + e.m.num_gate() > p.budget {
                    return Ok(());
                }
                let args = random_args(src, &b.m, e.m.inputs.len());
                add_call(b, cx, &e, args)?;
            }
        }
    }
    Ok(())
}

pub fn random_output(b: &mut Build, src: &mut Src, cx: &mut Cx) -> R {
    let m = &b.m;
    if m.nodes.is_empty() {
        return Ok(());
    }
    let i = match src.weighted(&[5, 4, 2, 2, 3]) {
        0 => m.nodes.len() - 1 - src.usize(m.nodes.len().min(4)),
        1 => src.usize(m.nodes.len()),
        2 if !m.inputs.is_empty() => m.inputs[src.usize(m.inputs.len())],
        3 if !m.outs.is_empty() => m.outs[src.usize(m.outs.len())],
        4 if !m.outs.is_empty() => {
            let o = m.outs[src.usize(m.outs.len())];
            let ops = m.operands(o);
            if ops.is_empty() { o } else { ops[src.usize(ops.len())] }
        }
        _ => src.usize(m.nodes.len()),
    };
    add_output(b, cx, i)
}

/// generate a circuit into an (empty) real circuit
pub fn gen_into(g: &mut Gen, c: &mut CR, src: &mut Src, cx: &mut Cx, p: &GP) -> R<MCirc> {
    let mut b = Build { m: MCirc::default(), c };
    let n_in = src.usize(p.max_in + 1);
    for _ in 0..n_in {
        add_input(&mut b, cx)?;
    }
    let n_ops = src.usize(p.max_ops + 1);
    let n_out = src.usize(p.max_out + 1);
    let early = src.chance(1, 3);
    for _ in 0..n_ops {
        if b.m.num_gate() > p.budget {
            break;
        }
        step(g, &mut b, src, cx, p)?;
        if early && b.m.outs.len() < n_out && src.chance(1, 4) {
            random_output(&mut b, src, cx)?;
        }
    }
    // Sometimes all results of one call, in order or reversed, are outputs.
    if !b.m.calls.is_empty() && src.chance(1, 3) {
        let k = src.usize(b.m.calls.len());
        let mut outs: Vec<usize> = (0..b.m.nodes.len()).filter(|&i| matches!(b.m.nodes[i], Node::Call { call, .. } if call == k)).collect();
        if src.bool() {
            outs.reverse();
        }
        for o in outs {
            add_output(&mut b, cx, o)?;
        }
    }
    while b.m.outs.len() < n_out && !b.m.nodes.is_empty() {
        random_output(&mut b, src, cx)?;
    }
    Ok(b.m)
}

/// a circuit of a size the step-by-step generator does not reach: tens of thousands of gates in a
/// chain, in a narrow or wide web, or calls in a row
pub fn bulk_into(g: &mut Gen, c: &mut CR, src: &mut Src, cx: &mut Cx, calls: bool, max: usize) -> R<MCirc> {
    let mut b = Build { m: MCirc::default(), c };
    let n_in = src.range(1, 8);
    for _ in 0..n_in {
        add_input(&mut b, cx)?;
    }
    let shape = if calls { src.weighted(&[3, 3, 3, 2, 4, 3, 3]) } else { src.weighted(&[3, 3, 3, 2]) };
    let n = [3_000, 12_000, 30_000, 66_000, 70_000, 140_000][src.usize(6)].min(max);
    // more uses of one gate than 16 bits count
    let n = if shape == 3 && src.chance(2, 3) { 140_000.min(max) } else { n };
    let mut r = Rng::new(src.word());
    let mut below = |k: usize| (r.next() % k as u64) as usize;
    let consts = src.chance(1, 3);
    if consts {
        cx.label("bulk: with constants");
    }
    if shape == 5 {
        // ports beyond 8 and 16 bits; the bookkeeping of a call grows with arguments times results
        let (k_in, k_out) = [(2, 300), (2, 70_000), (300, 300), (300, 2), (70_000, 1), (3, 2_000), (2_000, 3), (1, 66_000), (513, 129)][src.usize(9)];
        let (k_in, k_out) = if k_in.max(k_out) > n.max(3_000) { (300, 300) } else { (k_in, k_out) };
        let own = src.bool();
        let mut r = if own { new_circuit() } else { g.circuit() };
        let m = {
            let mut d = Build { m: MCirc::default(), c: &mut r };
            for _ in 0..k_in {
                add_input(&mut d, cx)?;
            }
            for _ in 0..k_out.min(600) {
                let len = d.m.nodes.len();
                add_op(&mut d, cx, below(4), below(len), below(len))?;
            }
            // for one output a sum of all inputs, so that the last argument counts
            let mut acc = below(k_in);
            if k_out <= 3 {
                for i in 0..k_in {
                    acc = add_op(&mut d, cx, 1, acc, i)?;
                }
            }
            for j in 0..k_out {
                let len = d.m.nodes.len();
                let o = if j == 0 { acc } else { below(len) };
                add_output(&mut d, cx, o)?;
            }
            d.m
        };
        let id = b.c.register_module(&r);
        let e = Entry { id, m: Rc::new(m), c: r };
        g.reg.push(e.clone());
        for _ in 0..src.range(1, 3) {
            let len = b.m.nodes.len();
            let args = (0..k_in).map(|_| below(len)).collect();
            add_call(&mut b, cx, &e, args)?;
        }
        // some of the results, the last among them, are used
        let len = b.m.nodes.len();
        for _ in 0..40 {
            let x = add_op(&mut b, cx, 1, len - 1 - below(len), len - 1 - below(k_out))?;
            if src.chance(1, 3) {
                add_output(&mut b, cx, x)?;
            }
        }
        for k in [0, 255, 256, 65_535, 65_536] {
            if k < k_out {
                add_output(&mut b, cx, len - k_out + k)?;
            }
        }
    } else if shape == 6 {
        // every module calls the one below once
        let (w, k) = (src.range(1, 3), src.range(1, 3));
        let levels = [40, 130, 300][src.usize(3)];
        let mut below_it: Option<Entry> = None;
        for _ in 0..levels {
            let own = below(4) == 0;
            let mut r = if own { new_circuit() } else { g.circuit() };
            let m = {
                let mut d = Build { m: MCirc::default(), c: &mut r };
                for _ in 0..w {
                    add_input(&mut d, cx)?;
                }
                if let Some(e) = &below_it {
                    let id = d.c.register_module(&e.c);
                    let args = (0..w).map(|_| below(w)).collect();
                    add_call(&mut d, cx, &Entry { id, ..e.clone() }, args)?;
                }
                for _ in 0..1 + below(3) {
                    let len = d.m.nodes.len();
                    // mostly of operations that lose nothing
                    let op = if below(4) == 0 { below(4) } else { 1 };
                    add_op(&mut d, cx, op, len - 1, below(len))?;
                }
                let len = d.m.nodes.len();
                for j in 0..k {
                    let o = if j == 0 { len - 1 } else { below(len) };
                    add_output(&mut d, cx, o)?;
                }
                d.m
            };
            below_it = Some(Entry { id: ModuleId(0), m: Rc::new(m), c: r });
        }
        let mut e = below_it.unwrap();
        e.id = b.c.register_module(&e.c);
        g.reg.push(e.clone());
        for _ in 0..src.range(1, 3) {
            let len = b.m.nodes.len();
            let args = (0..w).map(|_| below(len)).collect();
            add_call(&mut b, cx, &e, args)?;
        }
        for _ in 0..20 {
            let len = b.m.nodes.len();
            add_op(&mut b, cx, below(4), below(len), below(len))?;
        }
    } else if shape == 4 {
        let p = GP { max_in: 3, max_ops: 4, max_out: 3, depth: 1, consts: true, budget: 20 };
        let e = new_module(g, &mut b.c.clone(), src, cx, &p)?;
        // one call per gate of the callee, so that about n gates result
        for _ in 0..n / 4 / (1 + e.m.num_gate()) {
            let len = b.m.nodes.len();
            let args: Vec<usize> = (0..e.m.inputs.len()).map(|_| len - 1 - below(len.min(5))).collect();
            let ids: Vec<GateId> = args.iter().map(|&x| b.m.ids[x]).collect();
            let outs = ok(b.c.module(&e.id, &ids), "module")?;
            check!(outs.len() == e.m.outs.len(), "module call returned {} gates, the module has {} outputs", outs.len(), e.m.outs.len());
            let call = b.m.calls.len();
            b.m.calls.push(Call { mid: e.id, m: e.m.clone(), args });
            for (out, id) in outs.into_iter().enumerate() {
                push(&mut b.m, Node::Call { call, out }, id);
            }
        }
    } else {
        let hubs = [below(n_in), below(n_in)];
        for _ in 0..n {
            let len = b.m.nodes.len();
            if consts && shape != 3 && below(3) == 0 {
                let v = below(2) == 1;
                let id = ok(b.c.constant(v), "constant")?;
                push(&mut b.m, Node::Const(v), id);
                continue;
            }
            let (x, y) = match shape {
                0 => (len - 1, if below(2) == 0 { below(n_in) } else { len - 1 - below(len.min(3)) }),
                1 => (len - 1 - below(len.min(9)), len - 1 - below(len.min(9))),
                // nearly every gate uses the same gate
                3 => (if below(16) == 0 { hubs[1] } else { hubs[0] }, if below(40) == 0 { len - 1 - below(len.min(5)) } else { len - 1 }),
                _ => (below(len), below(len)),
            };
            let (ix, iy) = (b.m.ids[x], b.m.ids[y]);
            let (r, node) = match below(if shape == 3 { 200 } else { 8 }) {
                // (a gate of the chain must not be lost)
                0 if shape == 3 => (b.c.not(&iy), Node::Not(y)),
                0 => (b.c.not(&ix), Node::Not(x)),
                1 => (b.c.and(&ix, &iy), Node::And(x, y)),
                2 => (b.c.or(&iy, &ix), Node::Or(y, x)),
                3 => (b.c.xor(&iy, &ix), Node::Xor(y, x)),
                _ => (b.c.xor(&ix, &iy), Node::Xor(x, y)),
            };
            push(&mut b.m, node, ok(r, "gate")?);
        }
    }
    const NAMES: [&str; 7] = ["bulk: chain", "bulk: narrow web", "bulk: wide web", "bulk: one gate used by all", "bulk: calls in a row", "bulk: wide module", "bulk: modules nested many levels"];
    cx.log(|| format!("{} more nodes ({})", b.m.nodes.len() - n_in, NAMES[shape]));
    cx.label(NAMES[shape]);
    if b.m.nodes.len() > 65_536 {
        cx.label("bulk: more than 65536 gates");
    }
    // what is an output stays known to the end, so often the first nodes are none
    let late = src.chance(2, 3);
    for _ in 0..src.range(1, 12) {
        if late {
            let i = b.m.nodes.len() - 1 - src.usize(b.m.nodes.len().div_ceil(2));
            add_output(&mut b, cx, i)?;
        } else {
            random_output(&mut b, src, cx)?;
        }
    }
    let last = b.m.nodes.len() - 1;
    add_output(&mut b, cx, last)?;
    Ok(b.m)
}
pub const BULK: usize = 2_500;

/// labels describing the shape of a circuit
pub fn classify(m: &MCirc, cx: &mut Cx) {
    let n = m.nodes.len();
    let mut uses = vec![0usize; n];
    for i in 0..n {
        if let Node::Call { out, .. } = m.nodes[i] {
            if out > 0 {
                continue;
            }
        }
        for a in m.operands(i) {
            uses[a] += 1;
        }
    }
    if uses.iter().any(|&u| u > 1) {
        cx.label("fan-out > 1");
    }
    let mut seen = vec![0usize; n];
    for &o in &m.outs {
        seen[o] += 1;
        if uses[o] > 0 {
            cx.label("output also used internally");
        }
        match m.nodes[o] {
            Node::In(_) => cx.label("input as output"),
            Node::Const(_) => cx.label("constant as output"),
            Node::Call { .. } => cx.label("module result as output"),
            _ => {}
        }
    }
    if seen.iter().any(|&s| s > 1) {
        cx.label("duplicate output");
    }
    let live = m.live();
    if (0..n).any(|i| !live[i] && !matches!(m.nodes[i], Node::In(_))) {
        cx.label("dead gate");
    }
    if m.outs.is_empty() {
        cx.label("no output");
    }
    if m.outs.len() > 1 {
        cx.label("several outputs");
    }
}

/// assignments to try: all for few inputs, else corner and random ones; 64 per word
pub fn assignments_for(m: &MCirc, src: &mut Src, max_full: usize, samples: usize) -> (Vec<Vec<bool>>, bool) {
    if m.nodes.len() > BULK {
        assignments(src, m.inputs.len(), 1, 4)
    } else {
        assignments(src, m.inputs.len(), max_full, samples)
    }
}
pub fn assignments(src: &mut Src, n: usize, max_full: usize, samples: usize) -> (Vec<Vec<bool>>, bool) {
    if n <= max_full {
        ((0..1usize << n).map(|a| (0..n).map(|i| a >> i & 1 == 1).collect()).collect(), true)
    } else {
        let mut v = vec![vec![false; n], vec![true; n]];
        for _ in 0..samples {
            v.push(src.bits(n));
        }
        (v, false)
    }
}
pub fn lanes(asg: &[Vec<bool>], n: usize) -> Vec<Vec<u64>> {
    asg.chunks(64).map(|ch| (0..n).map(|i| ch.iter().enumerate().fold(0u64, |w, (k, a)| w | (a[i] as u64) << k)).collect()).collect()
}
pub fn model_outputs(m: &MCirc, asg: &[Vec<bool>]) -> Vec<Vec<bool>> {
    let n = m.inputs.len();
    let mut res = vec![];
    for (b, words) in lanes(asg, n).iter().enumerate() {
        let o = m.eval(words);
        let cnt = (asg.len() - b * 64).min(64);
        for k in 0..cnt {
            res.push(o.iter().map(|w| w >> k & 1 == 1).collect());
        }
    }
    res
}
pub fn bs(b: &[bool]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|&x| if x { '1' } else { '0' }).collect()
}
/// the real evaluator agrees with the model on all the given assignments
pub fn check_eval(m: &MCirc, c: &CR, asg: &[Vec<bool>], cx: &mut Cx, what: &str) -> R {
    let want = model_outputs(m, asg);
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    for (a, w) in asg.iter().zip(&want) {
        let got = ok(ev.eval_output(a), &format!("{what}: eval_output({})", bs(a)))?;
        cx.comparisons += 1;
        check!(&got == w, "{what}: inputs {} evaluate to {}, the circuit denotes {}", bs(a), bs(&got), bs(w));
    }
    Ok(())
}
