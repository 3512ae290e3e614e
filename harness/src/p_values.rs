//! C27, C28: identifiers as numbers, printing for debugging.
use crate::engine::*;
use crate::model::*;
use circuit_converters::arithmetic::*;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::*;
use num_traits::Zero;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::io::BufWriter;

// ---------------------------------------------------------------- C27

/// a number with its interesting places: small, around powers of two, anywhere
fn number(src: &mut Src, max: u64) -> u64 {
    let v = match src.usize(4) {
        0 => src.below(4),
        1 => (1u64 << src.below(63)).wrapping_sub(2).wrapping_add(src.below(4)),
        2 => src.below(1 << 20),
        _ => src.word(),
    };
    v.min(max)
}

fn c27(src: &mut Src, cx: &mut Cx) -> R {
    // sums stay in range
    let n = src.range(2, 12);
    let v: Vec<u64> = (0..n).map(|_| number(src, u64::MAX / 16)).collect();
    cx.log(|| format!("{v:?}"));
    let (mut w, mut g, mut t) = (WireId::zero(), GateId::zero(), 0u64);
    check!(w == WireId(0) && g == GateId(0) && w.is_zero() && g.is_zero(), "zero is {w} and {g}");
    for &x in &v {
        let (old_w, old_g) = (w, g);
        if src.bool() {
            w += WireId(x);
            g += GateId(x);
        } else {
            w = w + WireId(x);
            g = g + GateId(x);
        }
        check!(old_w + WireId(x) == w && WireId(x) + old_w == w && old_g + GateId(x) == g && GateId(x) + old_g == g, "sums of ids {t} and {x}: {w} and {g}");
        t += x;
        check!(w == WireId(t) && g == GateId(t) && w.0 == t && g.0 == t, "after adding {x} the ids are {w} and {g} instead of {t}");
        check!(w.is_zero() == (t == 0) && g.is_zero() == (t == 0), "is_zero of {t} is {} and {}", w.is_zero(), g.is_zero());
        cx.comparisons += 4;
    }
    // ids as keys: equal exactly when the numbers are, shown as the number
    let mut v = v;
    for _ in 0..3 {
        v.push(number(src, u64::MAX));
    }
    v.push(u64::MAX - src.below(3));
    for &x in &v {
        for &y in &v {
            let e = x == y;
            check!((WireId(x) == WireId(y)) == e && (GateId(x) == GateId(y)) == e && (ModuleId(x) == ModuleId(y)) == e, "equality of ids {x} and {y}");
        }
        let s = x.to_string();
        check!(WireId(x).to_string() == s && GateId(x).to_string() == s && ModuleId(x).to_string() == s, "id {x} is shown as {}, {}, {}", WireId(x), GateId(x), ModuleId(x));
        cx.comparisons += 2;
    }
    let distinct: HashSet<u64> = v.iter().copied().collect();
    let mut map: HashMap<(WireId, GateId, ModuleId), u64> = HashMap::new();
    for &x in &v {
        map.insert((WireId(x), GateId(x), ModuleId(x)), x);
    }
    check!(map.len() == distinct.len(), "{} keys for {} distinct ids", map.len(), distinct.len());
    for &x in &v {
        check!(map.get(&(WireId(x), GateId(x), ModuleId(x))) == Some(&x), "the entry of id {x} is not found");
    }
    cx.nontrivial = distinct.len() >= 2;
    Ok(())
}

// ---------------------------------------------------------------- C28

fn printed<T: Debug>(what: &str, x: &T, cx: &mut Cx) -> R {
    use std::fmt::Write;
    for pretty in [false, true] {
        let mut s = String::new();
        // a formatter that reports an error makes `to_string` and `{:?}` panic
        let r = match guarded(|| if pretty { write!(s, "{x:#?}") } else { write!(s, "{x:?}") }) {
            Err(p) => return fail(format!("printing {what}: {p}")),
            Ok(r) => r,
        };
        check!(r.is_ok(), "printing {what} reports an error");
        check!(!s.is_empty(), "{what} is printed as nothing");
        cx.comparisons += 1;
    }
    Ok(())
}

fn c28(src: &mut Src, cx: &mut Cx) -> R {
    let mut g = Gen::new();
    let mut c = g.circuit();
    let mut p = GP::pick(src, true);
    p.max_ops = p.max_ops.min(20);
    let m = gen_into(&mut g, &mut c, src, cx, &p)?;
    let mut snap = Snap::of(&c);
    let value: NXAOBoolCircuit = c.borrow().clone();
    let registry = value.module_storage.clone();
    printed("a circuit", &c, cx)?;
    printed("a circuit by value", &value, cx)?;
    printed("a registry", &registry, cx)?;
    printed("the modules of a registry", &*registry.borrow(), cx)?;
    for e in g.reg.iter().take(4) {
        printed("a module", &e.c, cx)?;
    }
    // while the registry or the circuit is being changed
    if src.chance(1, 4) {
        let mut handle = registry.clone();
        let lock = registry.borrow_mut();
        printed("a registry that is in use", &handle, cx)?;
        printed("a circuit whose registry is in use", &c, cx)?;
        drop(lock);
        let held = c.borrow_mut();
        printed("a circuit that is in use", &c.clone(), cx)?;
        drop(held);
        let sub = NXAOBoolCircuit::new(registry.clone()).to_ref();
        let id = handle.register_module(&sub);
        // an empty module, and one that is registered twice
        let _ = handle.register_module(&sub);
        printed("a registry with one module twice", &handle, cx)?;
        check!(ok(c.get_module(&id), "get_module")? == sub, "the module is another one");
        cx.label("printed while in use");
        snap = Snap::of(&c);
    }
    printed("an evaluator", &NXAOBoolEvaluator::new(c.clone()), cx)?;
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
    printed("an exporter", &w, cx)?;
    ok(w.write(0, None), "export")?;
    printed("an exporter after an export", &w, cx)?;
    let mut r = BristolNXAOReader::new();
    printed("an importer", &r, cx)?;
    ok(r.read(&b"1 3\n1 2\n1 1\n\n2 1 0 1 2 AND\n"[..], &mut new_circuit()), "import")?;
    printed("an importer after an import", &r, cx)?;
    for id in m.ids.iter().take(6) {
        printed("a gate", &ok(c.get_gate(id), "get_gate")?, cx)?;
    }
    if src.chance(1, 2) {
        // library values, over the same circuit
        const N: usize = 5;
        let ic = ok(AllocIntConfig::<_, _, N>::new(&c), "AllocIntConfig::new")?;
        let bc = ok(AllocBitsConfig::<_, _, N>::new(&c), "AllocBitsConfig::new")?;
        let x = ok(AllocInt::new(&ic), "AllocInt::new")?;
        let b = ok(AllocBits::new(&bc), "AllocBits::new")?;
        printed("an integer configuration", &ic, cx)?;
        printed("a bit-vector configuration", &bc, cx)?;
        printed("an integer", &(&x + &x), cx)?;
        printed("a bit vector", &(&b ^ &b), cx)?;
        if src.bool() {
            let fc = ok(AllocFpConfig::<_, _, N>::new(&c, &ic, 5u32.into(), 3), "AllocFpConfig::new")?;
            let f = ok(AllocFp::new(&fc), "AllocFp::new")?;
            printed("a field configuration", &fc, cx)?;
            printed("a field element", &(&f + &f), cx)?;
        }
        printed("a circuit", &c, cx)?;
        cx.label("library values");
    } else {
        snap.same(&c, "printing")?;
        let (asg, _) = assignments(src, m.inputs.len(), 3, 4);
        check_eval(&m, &c, &asg, cx, "after printing")?;
    }
    if registry.num_module() > 0 {
        cx.label("modules in the circuit's registry");
    }
    cx.nontrivial = registry.num_module() > 0;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C27", run: c27, quick: 1_000_000, thorough: 10_000_000, rule: "at least two different numbers", assumptions: &["sums below 2^64"], fixed: no_fixed },
        Prop { id: "C28", run: c28, quick: 30_000, thorough: 300_000, rule: "the circuit's registry holds a module", assumptions: &["modules do not call themselves"], fixed: no_fixed },
    ]
}
