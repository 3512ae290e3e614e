//! 512 assignments at a time: an interpreter of the real circuit as its structure queries describe
//! it. It only widens the set of operand values checked; the crate's own evaluator is always
//! compared with the oracle too, and a circuit this walker cannot read is left to the evaluator.
use crate::model::CR;
use circuit_converters::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const LANES: usize = 512;
pub type W = [u64; 8];
const Z: W = [0; 8];

enum Op {
    Const(u32, bool),
    Not(u32, u32),
    Xor(u32, u32, u32),
    And(u32, u32, u32),
    Or(u32, u32, u32),
    Call { m: Rc<Flat>, args: Vec<u32>, base: u32 },
}
pub struct Flat {
    ops: Vec<Op>,
    outs: Vec<u32>,
    n_in: usize,
    slots: usize,
    pub cost: usize,
}

type Memo = HashMap<u64, Option<Rc<Flat>>>;

pub fn compile(c: &CR) -> Option<Flat> {
    comp(c, &mut HashMap::new(), 0)
}

fn comp(c: &CR, memo: &mut Memo, depth: usize) -> Option<Flat> {
    if depth > 40 {
        return None;
    }
    let n_in = c.input_len();
    let mut slot: HashMap<u64, u32> = HashMap::new();
    for k in 0..n_in {
        let id = c.input_to_gate_id(&WireId(k as u64)).ok()??;
        slot.insert(id.0, k as u32);
    }
    let mut next = n_in as u32;
    let mut f = Flat { ops: vec![], outs: vec![], n_in, slots: 0, cost: 1 };
    let mut calls: HashMap<(u64, Vec<GateId>), u32> = HashMap::new();
    let mut roots = vec![];
    for k in 0..c.output_len() {
        roots.push(c.output_to_gate_id(&WireId(k as u64)).ok()?);
    }
    for r in &roots {
        let mut st = vec![(*r, false)];
        while let Some((id, ready)) = st.pop() {
            if slot.contains_key(&id.0) {
                continue;
            }
            let g = c.get_gate(&id).ok()?;
            let ins: Vec<GateId> = match &g {
                NXAOBoolGate::Input(_) => return None,
                NXAOBoolGate::Const(_) => vec![],
                NXAOBoolGate::Not(g) => vec![g.id],
                NXAOBoolGate::Xor(g) => vec![g.left_id, g.right_id],
                NXAOBoolGate::And(g) => vec![g.left_id, g.right_id],
                NXAOBoolGate::Or(g) => vec![g.left_id, g.right_id],
                NXAOBoolGate::Module(g) => g.input_ids.clone(),
            };
            if !ready {
                if st.len() > 5_000_000 {
                    return None;
                }
                st.push((id, true));
                for i in ins.iter().rev() {
                    if !slot.contains_key(&i.0) {
                        st.push((*i, false));
                    }
                }
                continue;
            }
            let mut a = Vec::with_capacity(ins.len());
            for i in &ins {
                a.push(*slot.get(&i.0)?);
            }
            let s = match g {
                NXAOBoolGate::Module(g) => {
                    let key = (g.module_id.0, g.input_ids.clone());
                    let base = match calls.get(&key) {
                        Some(&b) => b,
                        None => {
                            let m = match memo.get(&g.module_id.0) {
                                Some(m) => m.clone()?,
                                None => {
                                    memo.insert(g.module_id.0, None);
                                    let sub = c.get_module(&g.module_id).ok()?;
                                    let m = comp(&sub, memo, depth + 1).map(Rc::new);
                                    memo.insert(g.module_id.0, m.clone());
                                    m?
                                }
                            };
                            if m.n_in != a.len() {
                                return None;
                            }
                            let base = next;
                            next += m.outs.len() as u32;
                            f.cost += m.cost;
                            f.ops.push(Op::Call { m, args: a, base });
                            calls.insert(key, base);
                            base
                        }
                    };
                    let s = base + g.out_index as u32;
                    if s >= next {
                        return None;
                    }
                    s
                }
                g => {
                    let s = next;
                    next += 1;
                    f.cost += 1;
                    f.ops.push(match g {
                        NXAOBoolGate::Const(g) => Op::Const(s, g.value),
                        NXAOBoolGate::Not(_) => Op::Not(s, a[0]),
                        NXAOBoolGate::Xor(_) => Op::Xor(s, a[0], a[1]),
                        NXAOBoolGate::And(_) => Op::And(s, a[0], a[1]),
                        NXAOBoolGate::Or(_) => Op::Or(s, a[0], a[1]),
                        _ => return None,
                    });
                    s
                }
            };
            slot.insert(id.0, s);
        }
        f.outs.push(*slot.get(&r.0)?);
    }
    f.slots = next as usize;
    Some(f)
}

impl Flat {
    fn run(&self, inputs: &[W]) -> Vec<W> {
        let mut w = vec![Z; self.slots];
        w[..self.n_in].copy_from_slice(inputs);
        for op in &self.ops {
            macro_rules! bin {
                ($d:expr, $a:expr, $b:expr, $o:tt) => {{
                    let (x, y) = (w[*$a as usize], w[*$b as usize]);
                    let d = &mut w[*$d as usize];
                    for i in 0..8 {
                        d[i] = x[i] $o y[i];
                    }
                }};
            }
            match op {
                Op::Const(d, b) => w[*d as usize] = [if *b { !0 } else { 0 }; 8],
                Op::Not(d, a) => {
                    let x = w[*a as usize];
                    let d = &mut w[*d as usize];
                    for i in 0..8 {
                        d[i] = !x[i];
                    }
                }
                Op::Xor(d, a, b) => bin!(d, a, b, ^),
                Op::And(d, a, b) => bin!(d, a, b, &),
                Op::Or(d, a, b) => bin!(d, a, b, |),
                Op::Call { m, args, base } => {
                    let a: Vec<W> = args.iter().map(|&i| w[i as usize]).collect();
                    let o = m.run(&a);
                    w[*base as usize..*base as usize + o.len()].copy_from_slice(&o);
                }
            }
        }
        self.outs.iter().map(|&o| w[o as usize]).collect()
    }
    pub fn eval_all(&self, asg: &[Vec<bool>]) -> Vec<Vec<bool>> {
        asg.chunks(LANES).flat_map(|a| self.eval(a)).collect()
    }
    /// at most LANES assignments
    pub fn eval(&self, asg: &[Vec<bool>]) -> Vec<Vec<bool>> {
        let mut ins = vec![Z; self.n_in];
        for (l, a) in asg.iter().enumerate() {
            for (k, &b) in a.iter().enumerate() {
                if b {
                    ins[k][l / 64] |= 1 << (l % 64);
                }
            }
        }
        let o = self.run(&ins);
        (0..asg.len()).map(|l| o.iter().map(|w| w[l / 64] >> (l % 64) & 1 == 1).collect()).collect()
    }
}
