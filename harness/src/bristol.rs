//! Independent strict reader and interpreter of Bristol Fashion documents.
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    Inv,
    Xor,
    And,
    Or,
    Eqw,
    /// constant
    Eq(bool),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Line {
    pub op: Op,
    pub ins: Vec<usize>,
    pub out: usize,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Doc {
    pub ngates: usize,
    pub nwires: usize,
    pub ins: Vec<usize>,
    pub outs: Vec<usize>,
    pub gates: Vec<Line>,
}

impl Doc {
    pub fn n_in(&self) -> usize {
        self.ins.iter().sum()
    }
    pub fn n_out(&self) -> usize {
        self.outs.iter().sum()
    }
    pub fn eval(&self, inputs: &[u64]) -> Vec<u64> {
        let w = self.eval_wires(inputs);
        w[self.nwires - self.n_out()..].to_vec()
    }
    pub fn eval_wires(&self, inputs: &[u64]) -> Vec<u64> {
        assert_eq!(inputs.len(), self.n_in());
        let mut w = vec![0u64; self.nwires];
        w[..inputs.len()].copy_from_slice(inputs);
        for g in &self.gates {
            w[g.out] = match g.op {
                Op::Inv => !w[g.ins[0]],
                Op::Xor => w[g.ins[0]] ^ w[g.ins[1]],
                Op::And => w[g.ins[0]] & w[g.ins[1]],
                Op::Or => w[g.ins[0]] | w[g.ins[1]],
                Op::Eqw => w[g.ins[0]],
                Op::Eq(b) => if b { !0 } else { 0 },
            };
        }
        w
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        let join = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        writeln!(s, "{} {}", self.ngates, self.nwires).unwrap();
        writeln!(s, "{} {}", self.ins.len(), join(&self.ins)).unwrap();
        writeln!(s, "{} {}", self.outs.len(), join(&self.outs)).unwrap();
        writeln!(s).unwrap();
        for g in &self.gates {
            let (n, ins, name) = match &g.op {
                Op::Inv => (1, join(&g.ins), "INV"),
                Op::Xor => (2, join(&g.ins), "XOR"),
                Op::And => (2, join(&g.ins), "AND"),
                Op::Or => (2, join(&g.ins), "OR"),
                Op::Eqw => (1, join(&g.ins), "EQW"),
                Op::Eq(b) => (1, (*b as u8).to_string(), "EQ"),
            };
            writeln!(s, "{} 1 {} {} {}", n, ins, g.out, name).unwrap();
        }
        s
    }
}

/// What a strict reading of a text says.
#[derive(Debug)]
pub enum Verdict {
    Valid(Doc),
    /// one of the defects that import must reject
    Reject(String),
    /// malformed or unusual in a way nothing is promised about
    Unspecified(String),
}

pub fn strict(text: &str) -> Verdict {
    use Verdict::*;
    let num = |t: Option<&str>, what: &str| -> Result<usize, Verdict> {
        match t {
            None => Err(Reject(format!("missing {what}"))),
            Some(t) => {
                if t.starts_with('+') {
                    return Err(Unspecified("explicit plus sign".into()));
                }
                t.parse::<usize>().map_err(|_| Reject(format!("{what} {t:?} is not a number")))
            }
        }
    };
    fn inner(text: &str, num: &dyn Fn(Option<&str>, &str) -> Result<usize, Verdict>) -> Result<Verdict, Verdict> {
        let mut odd: Option<String> = None;
        if text.contains('\r') && text.replace("\r\n", "").contains('\r') {
            return Err(Unspecified("bare carriage return".into()));
        }
        let mut lines = text.lines();
        let l1 = lines.next().ok_or(Reject("no line 1".into()))?;
        let mut t = l1.split_whitespace();
        let ngates = num(t.next(), "gate count")?;
        let nwires = num(t.next(), "wire count")?;
        if t.next().is_some() {
            odd = Some("extra header field".into());
        }
        let mut groups = |line: Option<&str>, n: usize| -> Result<Vec<usize>, Verdict> {
            let l = line.ok_or(Reject(format!("no line {n}")))?;
            let mut t = l.split_whitespace();
            let k = num(t.next(), "group count")?;
            let mut v = vec![];
            for _ in 0..k {
                v.push(num(t.next(), "group size")?);
            }
            if t.next().is_some() {
                odd = Some("extra header field".into());
            }
            Ok(v)
        };
        let ins = groups(lines.next(), 2)?;
        let outs = groups(lines.next(), 3)?;
        let l4 = lines.next().ok_or(Reject("no line 4".into()))?;
        if !l4.trim().is_empty() {
            odd = Some("line 4 is not blank".into());
        }
        let sum = |v: &[usize]| v.iter().try_fold(0usize, |a, &b| a.checked_add(b));
        let n_in = sum(&ins).ok_or(Unspecified("huge".into()))?;
        let Some(n_out) = sum(&outs) else { return Err(Reject("more outputs than wires".into())) };
        let mut defined: std::collections::HashSet<usize> = (0..n_in).collect();
        let mut gates = vec![];
        let mut ended = false;
        for l in lines {
            if l.is_empty() {
                ended = true;
                continue;
            }
            if ended {
                odd = Some("text after a blank line".into());
                break;
            }
            if l.trim().is_empty() {
                return Err(Unspecified("line of spaces".into()));
            }
            let toks: Vec<&str> = l.split_whitespace().collect();
            let a = num(toks.first().copied(), "operand count")?;
            let b = num(toks.get(1).copied(), "result count")?;
            let Some(len) = a.checked_add(b).and_then(|x| x.checked_add(3)) else { return Err(Reject("missing operand".into())) };
            if toks.len() < len {
                // Fewer fields than announced: whichever field is hit first is missing or not a number.
                return Err(Reject("missing field".into()));
            }
            if toks.len() > len {
                odd = Some("extra field on a gate line".into());
            }
            let kind = toks[2 + a + b];
            let (want, known) = match kind {
                "INV" | "EQ" | "EQW" => (1, true),
                "XOR" | "AND" | "OR" => (2, true),
                _ => (0, false),
            };
            // numbers first
            let mut v = vec![];
            for t in &toks[2..2 + a + b] {
                v.push(num(Some(t), "wire")?);
            }
            if !known {
                return Err(Reject(format!("unsupported gate {kind:?}")));
            }
            if a != want || b != 1 {
                return Err(Reject(format!("{kind} with {a} operands and {b} results")));
            }
            let out = v[a];
            if kind == "EQ" {
                match v[0] {
                    0 | 1 => gates.push(Line { op: Op::Eq(v[0] == 1), ins: vec![], out }),
                    _ => return Err(Unspecified("EQ of something else than 0 or 1".into())),
                }
            } else {
                for w in &v[..a] {
                    if !defined.contains(w) {
                        return Err(Reject(format!("undefined wire {w}")));
                    }
                }
                let op = match kind {
                    "INV" => Op::Inv,
                    "XOR" => Op::Xor,
                    "AND" => Op::And,
                    "OR" => Op::Or,
                    _ => Op::Eqw,
                };
                gates.push(Line { op, ins: v[..a].to_vec(), out });
            }
            if !defined.insert(out) {
                odd = Some(format!("wire {out} assigned twice"));
            }
            if out >= nwires {
                odd = Some(format!("wire {out} beyond the declared count"));
            }
        }
        if n_out > nwires {
            return Err(Reject("more outputs than wires".into()));
        }
        for w in nwires - n_out..nwires {
            if !defined.contains(&w) {
                return Err(Reject(format!("output wire {w} is never defined")));
            }
        }
        if gates.len() != ngates || defined.len() != nwires || n_in > nwires {
            odd = odd.or(Some("header counts do not match".into()));
        }
        if let Some(o) = odd {
            return Err(Unspecified(o));
        }
        Ok(Valid(Doc { ngates, nwires, ins, outs, gates }))
    }
    match inner(text, &num) {
        Ok(v) | Err(v) => v,
    }
}
