//! C30: the importer and the libraries over another implementation of the circuit interface.
use crate::engine::*;
use crate::model::{assignments, bs, new_circuit, CR};
use crate::p_bristol::gen_doc;
use crate::p_lib::*;
use circuit_converters::arithmetic::*;
use circuit_converters::cryptography::build_aes128;
use circuit_converters::logic::*;
use circuit_converters::*;
use std::collections::HashMap;

/// How a foreign circuit numbers its gates and whether it shares them.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
struct Style {
    ids: usize,
    modules: usize,
    /// equal gates are one gate, constants are folded, and identity makes no gate
    share: bool,
    /// module calls are replaced by the gates of the module
    inline: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum AG {
    In(usize),
    Const(bool),
    Not(GateId),
    /// 0 xor, 1 and, 2 or
    Bin(usize, GateId, GateId),
    Call(ModuleId, Vec<GateId>, usize),
}
impl Gate for AG {
    fn input_len(&self) -> usize {
        match self {
            AG::In(_) | AG::Const(_) => 0,
            AG::Not(_) => 1,
            AG::Bin(..) => 2,
            AG::Call(_, a, _) => a.len(),
        }
    }
    fn output_len(&self) -> usize {
        1
    }
    fn to_str(&self) -> String {
        format!("{self:?}")
    }
}

type AR = BoolCircuitRef<AG, Alt>;

#[derive(Clone)]
pub struct Alt {
    style: Style,
    /// different for each circuit
    salt: u64,
    storage: ModuleStorageRef<AG, Alt>,
    /// the registry hands out consecutive ids; these are the ones the users see
    gates: Vec<AG>,
    ids: Vec<GateId>,
    at: HashMap<GateId, usize>,
    seen: HashMap<AG, GateId>,
    users: HashMap<GateId, Vec<GateId>>,
    ins: Vec<GateId>,
    outs: Vec<GateId>,
    consts: Vec<GateId>,
}
impl PartialEq for Alt {
    fn eq(&self, o: &Alt) -> bool {
        self.gates == o.gates && self.ids == o.ids && self.outs == o.outs
    }
}
impl Eq for Alt {}

/// the first id of a module, and the distance to the next
const MODULE_IDS: [(u64, u64); 4] = [(0, 1), (5, 1), (1 << 40, 1), (2, 3)];

type E<T> = Result<T, BoolCircuitError>;

impl Alt {
    fn new(style: Style, salt: u64, storage: ModuleStorageRef<AG, Alt>) -> Alt {
        Alt { style, salt, storage, gates: vec![], ids: vec![], at: HashMap::new(), seen: HashMap::new(), users: HashMap::new(), ins: vec![], outs: vec![], consts: vec![] }
    }
    fn place(&self, id: &GateId) -> E<usize> {
        self.at.get(id).copied().ok_or(BoolCircuitError::UnknownGate(*id))
    }
    fn push(&mut self, g: AG) -> E<GateId> {
        let ops: Vec<GateId> = match &g {
            AG::In(_) | AG::Const(_) => vec![],
            AG::Not(a) => vec![*a],
            AG::Bin(_, a, b) => vec![*a, *b],
            AG::Call(_, a, _) => a.clone(),
        };
        for o in &ops {
            self.place(o)?;
        }
        let k = self.gates.len() as u64;
        let id = GateId(match self.style.ids {
            0 => k + self.salt % 1000,
            1 => (1 << 40) - k - self.salt % 1000,
            2 => 1000 + 3 * k + self.salt % 7,
            // a permutation of the 64-bit numbers
            _ => (k ^ self.salt).wrapping_mul(0x9e37_79b9_7f4a_7c15),
        });
        for o in ops {
            self.users.entry(o).or_default().push(id);
        }
        self.at.insert(id, k as usize);
        self.gates.push(g);
        self.ids.push(id);
        Ok(id)
    }
    /// a gate that may be an existing one
    fn shared(&mut self, g: AG) -> E<GateId> {
        if !self.style.share {
            return self.push(g);
        }
        if let Some(id) = self.seen.get(&g) {
            return Ok(*id);
        }
        let id = self.push(g.clone())?;
        self.seen.insert(g, id);
        Ok(id)
    }
    fn value(&self, id: &GateId) -> E<Option<bool>> {
        Ok(match &self.gates[self.place(id)?] {
            AG::Const(v) => Some(*v),
            _ => None,
        })
    }
    fn bin(&mut self, k: usize, a: &GateId, b: &GateId) -> E<GateId> {
        self.place(a)?;
        self.place(b)?;
        if self.style.share {
            let (va, vb) = (self.value(a)?, self.value(b)?);
            for (v, x) in [(va, b), (vb, a)] {
                match (k, v) {
                    (0, Some(false)) | (1, Some(true)) | (2, Some(false)) => return Ok(*x),
                    (1, Some(false)) => return self.constant(false),
                    (2, Some(true)) => return self.constant(true),
                    (0, Some(true)) => return self.not(x),
                    _ => {}
                }
            }
            if a == b {
                return if k == 0 { self.constant(false) } else { Ok(*a) };
            }
            let (a, b) = if a.0 <= b.0 { (*a, *b) } else { (*b, *a) };
            return self.shared(AG::Bin(k, a, b));
        }
        self.push(AG::Bin(k, *a, *b))
    }
    fn eval(&self, inputs: &[u64]) -> R<Vec<u64>> {
        check!(inputs.len() == self.ins.len(), "{} inputs given for {}", inputs.len(), self.ins.len());
        let mut v = vec![0u64; self.gates.len()];
        let mut calls: HashMap<(ModuleId, Vec<GateId>), Vec<u64>> = HashMap::new();
        for (i, g) in self.gates.iter().enumerate() {
            let at = |id: &GateId| self.at[id];
            v[i] = match g {
                AG::In(k) => inputs[*k],
                AG::Const(b) => if *b { !0 } else { 0 },
                AG::Not(a) => !v[at(a)],
                AG::Bin(0, a, b) => v[at(a)] ^ v[at(b)],
                AG::Bin(1, a, b) => v[at(a)] & v[at(b)],
                AG::Bin(_, a, b) => v[at(a)] | v[at(b)],
                AG::Call(m, args, k) => {
                    let key = (*m, args.clone());
                    if !calls.contains_key(&key) {
                        let a: Vec<u64> = args.iter().map(|a| v[at(a)]).collect();
                        let c = ok(self.get_module(m), "get_module")?;
                        let r = c.borrow().eval(&a)?;
                        calls.insert(key.clone(), r);
                    }
                    calls[&key][*k]
                }
            };
        }
        Ok(self.outs.iter().map(|o| v[self.at[o]]).collect())
    }
}

impl BoolCircuit<AG> for Alt {
    fn to_ref(self) -> AR {
        BoolCircuitRef::new(self)
    }
    fn input_len(&self) -> usize {
        self.ins.len()
    }
    fn output_len(&self) -> usize {
        self.outs.len()
    }
    fn num_wire(&self) -> usize {
        self.gates.len()
    }
    fn num_gate(&self) -> usize {
        self.gates.len() - self.ins.len() - self.consts.len()
    }
    fn num_const(&self) -> usize {
        self.consts.len()
    }
    fn input_to_gate_id(&self, w: &WireId) -> E<Option<GateId>> {
        self.ins.get(w.0 as usize).map(|x| Some(*x)).ok_or(BoolCircuitError::UnknownInput(*w))
    }
    fn output_to_gate_id(&self, w: &WireId) -> E<GateId> {
        self.outs.get(w.0 as usize).copied().ok_or(BoolCircuitError::UnknownOutput(*w))
    }
    fn get_gate(&self, id: &GateId) -> E<AG> {
        Ok(self.gates[self.place(id)?].clone())
    }
    fn get_module(&self, id: &ModuleId) -> E<AR> {
        let (first, gap) = MODULE_IDS[self.style.modules];
        if id.0 < first || (id.0 - first) % gap != 0 {
            return Err(BoolCircuitError::UnknownModule(*id));
        }
        let k = (id.0 - first) / gap;
        self.storage.get_module(&ModuleId(k)).map_err(|_| BoolCircuitError::UnknownModule(*id))
    }
    fn get_depended_gates(&self, id: &GateId) -> E<Vec<GateId>> {
        Ok(self.users.get(id).cloned().unwrap_or_default())
    }
    fn get_const_gates(&self) -> Vec<GateId> {
        self.consts.clone()
    }
    fn input(&mut self) -> E<GateId> {
        let id = self.push(AG::In(self.ins.len()))?;
        self.ins.push(id);
        Ok(id)
    }
    fn output(&mut self, id: GateId) -> E<WireId> {
        self.place(&id)?;
        self.outs.push(id);
        Ok(WireId(self.outs.len() as u64 - 1))
    }
    fn constant(&mut self, v: bool) -> E<GateId> {
        let n = self.gates.len();
        let id = self.shared(AG::Const(v))?;
        if self.gates.len() > n {
            self.consts.push(id);
        }
        Ok(id)
    }
    fn not(&mut self, a: &GateId) -> E<GateId> {
        if self.style.share {
            match self.gates[self.place(a)?].clone() {
                AG::Const(v) => return self.constant(!v),
                AG::Not(x) => return Ok(x),
                _ => {}
            }
        }
        self.shared(AG::Not(*a))
    }
    fn xor(&mut self, a: &GateId, b: &GateId) -> E<GateId> {
        self.bin(0, a, b)
    }
    fn and(&mut self, a: &GateId, b: &GateId) -> E<GateId> {
        self.bin(1, a, b)
    }
    fn or(&mut self, a: &GateId, b: &GateId) -> E<GateId> {
        self.bin(2, a, b)
    }
    fn equivalent(&mut self, a: &GateId, b: &GateId) -> E<GateId> {
        let n = self.not(a)?;
        self.xor(&n, b)
    }
    fn identity(&mut self, a: &GateId) -> E<GateId> {
        self.place(a)?;
        if self.style.share {
            return Ok(*a);
        }
        self.bin(2, a, a)
    }
    fn register_module(&mut self, m: &AR) -> ModuleId {
        let (first, gap) = MODULE_IDS[self.style.modules];
        ModuleId(first + gap * self.storage.register_module(m).0)
    }
    fn sub_circuit(&mut self) -> (ModuleId, AR) {
        let salt = self.salt.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(self.storage.num_module() as u64 * 2 + 1);
        let c = Alt::new(self.style, salt, self.storage.clone()).to_ref();
        (self.register_module(&c), c)
    }
    fn module(&mut self, id: &ModuleId, args: &[GateId]) -> E<Vec<GateId>> {
        let m = self.get_module(id)?;
        let n = m.input_len();
        if n != args.len() {
            return Err(BoolCircuitError::InvalidModuleInputLen(*id, n, args.len()));
        }
        if !self.style.inline {
            return (0..m.output_len()).map(|k| self.shared(AG::Call(*id, args.to_vec(), k))).collect();
        }
        let m = m.borrow().clone();
        let mut here: Vec<GateId> = vec![];
        for g in &m.gates {
            let to = |a: &GateId| here[m.at[a]];
            let id = match g {
                AG::In(k) => {
                    self.place(&args[*k])?;
                    args[*k]
                }
                AG::Const(v) => self.constant(*v)?,
                AG::Not(a) => self.not(&to(a))?,
                AG::Bin(k, a, b) => self.bin(*k, &to(a), &to(b))?,
                AG::Call(i, a, k) => {
                    let a: Vec<GateId> = a.iter().map(to).collect();
                    self.module(i, &a)?[*k]
                }
            };
            here.push(id);
        }
        Ok(m.outs.iter().map(|o| here[m.at[o]]).collect())
    }
}

/// One run of a program: the values of the libraries over one circuit.
#[derive(Debug, Clone)]
enum Step {
    IntIn,
    IntConst(u64),
    IntUnit(bool),
    /// bits of (first, second) values, low bits first
    IntOf(Vec<(usize, usize)>),
    IntOp(usize, usize, usize),
    IntAssign(usize, usize, usize),
    IntNeg(usize),
    IntTest(usize, usize, usize),
    Shift(bool, usize, usize),
    IntCopy(usize),
    IntOut(usize),
    BitsIn,
    BitsOf(Vec<(usize, usize)>),
    BitsNot(usize),
    BitsOp(usize, usize, usize),
    BitsAssign(usize, usize, usize),
    BitsTest(bool, usize, usize),
    /// the selector is a bit of a value
    Mux(usize, usize, usize, usize),
    BitsOut(usize),
    FpIn,
    FpConst(u64),
    FpUnit(bool),
    FpOp(usize, usize, usize),
    FpAssign(usize, usize, usize),
    FpNeg(usize),
    FpTest(bool, usize, usize),
    FpOut(usize),
    /// a module builder, called with input bits of integers: width, kind
    Build(usize, usize),
}

fn program(src: &mut Src, n: usize, fp: Option<(u64, usize)>) -> Vec<Step> {
    use Step::*;
    let (mut i, mut b, mut f) = (1, 1, if fp.is_some() { 1 } else { 0 });
    let mut s = vec![IntIn, BitsIn];
    if fp.is_some() {
        s.push(FpIn);
    }
    for _ in 0..src.range(2, 9) {
        let x = src.usize(i);
        let y = src.usize(i);
        let bx = src.usize(b);
        let by = src.usize(b);
        match src.usize(if f > 0 { 25 } else { 18 }) {
            0 => {
                s.push(IntIn);
                i += 1;
            }
            1 => {
                s.push(IntConst(src.word() & ((1 << n) - 1)));
                i += 1;
            }
            2 => {
                s.push(IntUnit(src.bool()));
                i += 1;
            }
            3 => {
                let k = src.range(0, n);
                s.push(IntOf((0..k).map(|_| (src.usize(i), src.usize(n))).collect()));
                i += 1;
            }
            4 | 5 => {
                s.push(IntOp(src.usize(3), x, y));
                i += 1;
            }
            6 => s.push(IntAssign(src.usize(3), x, y)),
            7 => {
                s.push(IntNeg(x));
                i += 1;
            }
            8 | 9 => s.push(IntTest(src.usize(6), x, y)),
            10 => {
                let left = src.bool();
                s.push(Shift(left, x, src.usize(n)));
                i += 1;
            }
            11 => {
                s.push(IntCopy(x));
                i += 1;
            }
            12 => {
                s.push(BitsNot(bx));
                b += 1;
            }
            13 => {
                s.push(BitsOp(src.usize(3), bx, by));
                b += 1;
            }
            14 => s.push(BitsAssign(src.usize(3), bx, by)),
            15 => s.push(BitsTest(src.bool(), bx, by)),
            16 => {
                if src.bool() {
                    s.push(Mux(bx, by, x, src.usize(n)));
                } else {
                    let k = src.range(0, n);
                    s.push(BitsOf((0..k).map(|_| (src.usize(b), src.usize(n))).collect()));
                }
                b += 1;
            }
            17 => s.push(Build(src.range(1, 6), src.usize(11))),
            k => {
                let p = fp.map_or(3, |p| p.0);
                let (fx, fy) = (src.usize(f), src.usize(f));
                match k {
                    18 => {
                        s.push(FpConst(src.below(p)));
                        f += 1;
                    }
                    19 => {
                        s.push(FpUnit(src.bool()));
                        f += 1;
                    }
                    20 | 21 => {
                        s.push(FpOp(src.usize(3), fx, fy));
                        f += 1;
                    }
                    22 => s.push(FpAssign(src.usize(2), fx, fy)),
                    23 => {
                        s.push(FpNeg(fx));
                        f += 1;
                    }
                    _ => s.push(FpTest(src.bool(), fx, fy)),
                }
            }
        }
    }
    for k in 0..i {
        if k + 1 == i || src.chance(1, 2) {
            s.push(IntOut(k));
        }
    }
    s.push(BitsOut(b - 1));
    if f > 0 {
        s.push(FpOut(f - 1));
    }
    s
}

/// a builder of the library for width n, and the number of inputs of its module
fn build<G: Gate, C: BoolCircuit<G>>(c: &mut BoolCircuitRef<G, C>, kind: usize, n: usize) -> Result<ModuleId, BuildCircuitError> {
    Ok(match kind {
        0 => build_not_circuit(c, n)?,
        1 => build_and_circuit(c, n)?,
        2 => build_or_circuit(c, n)?,
        3 => build_xor_circuit(c, n)?,
        4 => {
            let e = build_eq_circuit(c, n)?;
            build_neq_circuit(c, n, e)?
        }
        5 => build_add_circuit(c, n)?,
        k => {
            let a = build_add_circuit(c, n)?;
            let s = build_sub_circuit(c, n, a)?;
            match k {
                6 => s,
                7 => build_mul_circuit(c, n, a)?,
                // the doubled width needs its own adder
                8 => {
                    let a2 = build_add_circuit(c, 2 * n)?;
                    build_mul_extend_circuit(c, n, a2)?
                }
                k => {
                    let l = build_less_circuit(c, n, s)?;
                    if k == 9 {
                        build_larger_or_eq_circuit(c, n, l)?
                    } else {
                        let e = build_eq_circuit(c, n)?;
                        let le = build_less_or_eq_circuit(c, n, l, e)?;
                        build_larger_circuit(c, n, le)?
                    }
                }
            }
        }
    })
}

fn run<G: Gate + 'static, C: BoolCircuit<G> + 'static>(
    c: &BoolCircuitRef<G, C>,
    steps: &[Step],
    ints: &mut dyn IntLab,
    bits: &mut dyn BitsLab,
    mut fps: Option<&mut Box<dyn FpLab>>,
    n: usize,
) -> R {
    let mut c = c.clone();
    for s in steps {
        match s {
            Step::IntIn => ints.new()?,
            Step::IntConst(v) => ints.number(&(*v).into())?,
            Step::IntUnit(o) => ints.unit(*o)?,
            Step::IntOf(v) => {
                let ids = v.iter().map(|(i, j)| ints.bit(*i, *j)).collect();
                ints.given(ids)?
            }
            Step::IntOp(k, i, j) => ints.op(*k, *i, *j),
            Step::IntAssign(k, i, j) => ints.op_assign(*k, *i, *j),
            Step::IntNeg(i) => ints.neg(*i),
            Step::IntTest(k, i, j) => {
                let g = ints.test(*k, *i, *j)?;
                ok(c.output(g), "output")?;
            }
            Step::Shift(l, i, s) => ints.shift(*l, *i, *s)?,
            Step::IntCopy(i) => ints.copy(*i),
            Step::IntOut(i) => ints.output(*i)?,
            Step::BitsIn => bits.new()?,
            Step::BitsOf(v) => {
                let ids = v.iter().map(|(i, j)| bits.bit(*i, *j)).collect();
                bits.given(ids)?
            }
            Step::BitsNot(i) => bits.not(*i),
            Step::BitsOp(k, i, j) => bits.op(*k, *i, *j),
            Step::BitsAssign(k, i, j) => bits.op_assign(*k, *i, *j),
            Step::BitsTest(e, i, j) => {
                let g = bits.test(*e, *i, *j)?;
                ok(c.output(g), "output")?;
            }
            Step::Mux(i, j, x, k) => {
                let sel = ints.bit(*x, *k);
                bits.mux(*i, *j, &sel)?
            }
            Step::BitsOut(i) => bits.output(*i)?,
            Step::Build(w, kind) => {
                let m = ok(build(&mut c, *kind, *w), "builder")?;
                let k = ok(c.get_module(&m), "get_module")?.input_len();
                let args: Vec<GateId> = (0..k).map(|q| ints.bit(0, q % n)).collect();
                for g in ok(c.module(&m, &args), "module")? {
                    ok(c.output(g), "output")?;
                }
            }
            s => {
                let Some(fps) = fps.as_deref_mut() else { continue };
                match s {
                    Step::FpIn => fps.new()?,
                    Step::FpConst(v) => fps.number(&(*v).into()),
                    Step::FpUnit(o) => fps.unit(*o)?,
                    Step::FpOp(k, i, j) => fps.op(*k, *i, *j),
                    Step::FpAssign(k, i, j) => fps.op_assign(*k, *i, *j),
                    Step::FpNeg(i) => fps.neg(*i),
                    Step::FpTest(e, i, j) => {
                        let g = fps.test(*e, *i, *j)?;
                        ok(c.output(g), "output")?;
                    }
                    Step::FpOut(i) => fps.output(*i)?,
                    _ => unreachable!(),
                }
            }
        }
    }
    Ok(())
}

macro_rules! widths {
    ($n:expr, $f:ident, $g:ty, $c:ty, $a:tt) => {
        match $n {
            1 => $f::<$g, $c, 1> $a, 2 => $f::<$g, $c, 2> $a, 3 => $f::<$g, $c, 3> $a, 4 => $f::<$g, $c, 4> $a,
            5 => $f::<$g, $c, 5> $a, 7 => $f::<$g, $c, 7> $a, 8 => $f::<$g, $c, 8> $a, 13 => $f::<$g, $c, 13> $a,
            16 => $f::<$g, $c, 16> $a, 33 => $f::<$g, $c, 33> $a, _ => unreachable!(),
        }
    };
}

fn real(c: &CR, inputs: &[bool]) -> R<Vec<bool>> {
    ok(NXAOBoolEvaluator::new(c.clone()).eval_output(inputs), "evaluation")
}

/// the other circuit has to be of the same shape outside, and to compute the same
fn same(src: &mut Src, cx: &mut Cx, c: &CR, a: &AR, reals: usize) -> R {
    check!(a.input_len() == c.input_len() && a.output_len() == c.output_len(), "the other circuit has {} inputs and {} outputs instead of {} and {}", a.input_len(), a.output_len(), c.input_len(), c.output_len());
    let n = c.input_len();
    let (asg, _) = assignments(src, n, 4, reals);
    let lanes: Vec<u64> = (0..n).map(|i| asg.iter().take(64).enumerate().map(|(k, v)| (v[i] as u64) << k).sum()).collect();
    let got = a.borrow().eval(&lanes)?;
    for (k, v) in asg.iter().take(64).enumerate() {
        let want = real(c, v)?;
        let got: Vec<bool> = got.iter().map(|g| g >> k & 1 == 1).collect();
        check!(got == want, "with inputs {} the other circuit yields {} instead of {}", bs(v), bs(&got), bs(&want));
        cx.comparisons += 1;
    }
    Ok(())
}

fn c30(src: &mut Src, cx: &mut Cx) -> R {
    let style = Style { ids: src.usize(4), modules: src.usize(4), share: src.bool(), inline: src.bool() };
    let salt = src.word();
    cx.log(|| format!("{style:?} {salt}"));
    cx.label(["ids in order", "ids downwards", "ids with gaps", "ids scattered"][style.ids]);
    if style.share {
        cx.label("shared gates");
    }
    if style.inline {
        cx.label("inlined calls");
    }
    let mut c = new_circuit();
    let mut a = Alt::new(style, salt, ModuleStorageRef::new()).to_ref();
    match src.weighted(&[200, 200, 1]) {
        0 => {
            // the importer, into a circuit that is not empty
            for _ in 0..src.range(1, 2) {
                let big = src.chance(1, 20);
                let d = gen_doc(src, big);
                let t = d.render();
                cx.log(|| format!("document: {t:?}"));
                ok(BristolNXAOReader::new().read(t.as_bytes(), &mut c), "import")?;
                let mut r = BristolReader::<AG, Alt>::new();
                match guarded(|| r.read(t.as_bytes(), &mut a)) {
                    Err(p) => return fail(format!("import into the other circuit: {p}")),
                    Ok(r) => ok(r, "import into the other circuit")?,
                }
                cx.nontrivial |= d.gates.len() >= 2;
            }
            cx.label("import");
            same(src, cx, &c, &a, 12)
        }
        1 => {
            let n = [1, 2, 3, 4, 5, 7, 8, 13, 16, 33][src.weighted(&[3, 3, 4, 4, 4, 3, 4, 2, 1, 1])];
            // two spare bits
            let field = n >= 4 && n <= 16 && src.chance(1, 2);
            let fp = if field {
                let k = n.min(8) - 2;
                let p = (1 + 2 * src.below(1 << (k - 1))).max(3);
                let r = 64 - p.leading_zeros() as usize;
                Some((p, r))
            } else {
                None
            };
            let steps = program(src, n, fp);
            cx.log(|| format!("width {n}, field {fp:?}: {steps:?}"));
            {
                let mut i = widths!(n, int_lab_of, NXAOBoolGate, NXAOBoolCircuit, (&c))?;
                let mut b = widths!(n, bits_lab_of, NXAOBoolGate, NXAOBoolCircuit, (&c))?;
                let mut f = match &fp {
                    None => None,
                    Some((p, r)) => Some(widths!(n, fp_lab_of, NXAOBoolGate, NXAOBoolCircuit, (&c, &(*p).into(), *r))?),
                };
                run(&c, &steps, &mut *i, &mut *b, f.as_mut(), n)?;
            }
            let r = guarded(|| {
                let mut i = widths!(n, int_lab_of, AG, Alt, (&a))?;
                let mut b = widths!(n, bits_lab_of, AG, Alt, (&a))?;
                let mut f = match &fp {
                    None => None,
                    Some((p, r)) => Some(widths!(n, fp_lab_of, AG, Alt, (&a, &(*p).into(), *r))?),
                };
                run(&a, &steps, &mut *i, &mut *b, f.as_mut(), n)
            });
            match r {
                Err(p) => return fail(format!("the library over the other circuit: {p}")),
                Ok(r) => r?,
            }
            cx.label(if field { "library with a field" } else { "library" });
            cx.nontrivial = true;
            same(src, cx, &c, &a, 4)
        }
        _ => {
            // the bundled circuits
            let k = src.usize(7);
            cx.log(|| format!("bundled circuit {k}"));
            fn bundled<G: Gate, C: BoolCircuit<G>>(c: &mut BoolCircuitRef<G, C>, k: usize) -> R {
                let r = match k {
                    0 => build_adder64(c),
                    1 => build_sub64(c),
                    2 => build_neg64(c),
                    3 => build_mult2_64(c),
                    4 => build_divide_signed_64(c),
                    5 => build_divide_unsigned_64(c),
                    _ => build_aes128(c),
                };
                ok(r, "bundled circuit")
            }
            bundled(&mut c, k)?;
            bundled(&mut a, k)?;
            cx.label("bundled circuit");
            cx.nontrivial = true;
            same(src, cx, &c, &a, 3)
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        run: c30,
        quick: 30_000,
        thorough: 600_000,
        rule: "a document with at least two gate lines, a library program, or a bundled circuit",
        assumptions: &["the other circuit keeps the meaning of every operation of the interface"],
        fixed: no_fixed,
    }]
}
