//! C20-C23: bundled circuits, conversions, extended Euclid.
use crate::engine::*;
use crate::flat;
use crate::model::*;
use crate::p_lib::{edge, from_bits, to_bits};
use circuit_converters::arithmetic::*;
use circuit_converters::cryptography::*;
use circuit_converters::num_bigint::{BigInt, BigUint, Sign};
use circuit_converters::*;

// ---------------------------------------------------------------- C20

#[derive(Debug, Clone, Copy, PartialEq)]
enum B {
    Add,
    Sub,
    Neg,
    Mul,
    UDiv,
    Div,
}
const ALL_B: [B; 6] = [B::Add, B::Sub, B::Neg, B::Mul, B::UDiv, B::Div];
impl B {
    fn build(self, c: &mut CR) -> Result<(), BuildCircuitError> {
        match self {
            B::Add => build_adder64(c),
            B::Sub => build_sub64(c),
            B::Neg => build_neg64(c),
            B::Mul => build_mult2_64(c),
            B::UDiv => build_divide_unsigned_64(c),
            B::Div => build_divide_signed_64(c),
        }
    }
    fn arity(self) -> usize {
        if self == B::Neg { 1 } else { 2 }
    }
    fn apply(self, a: u64, b: u64) -> Vec<u64> {
        match self {
            B::Add => vec![a.wrapping_add(b)],
            B::Sub => vec![a.wrapping_sub(b)],
            B::Neg => vec![a.wrapping_neg()],
            B::Mul => {
                let p = a as u128 * b as u128;
                vec![(p >> 64) as u64, p as u64]
            }
            B::UDiv => vec![a / b],
            B::Div => vec![(a as i64).wrapping_div(b as i64) as u64],
        }
    }
    fn divides(self) -> bool {
        matches!(self, B::UDiv | B::Div)
    }
}

fn word(src: &mut Src, prev: &[u128]) -> u128 {
    match src.weighted(&[8, 2, 2]) {
        0 => edge(src, 64, prev),
        // small signed
        1 => (src.below(64) as i64 - 32) as u64 as u128,
        // products and neighbours of multiples, interesting for division
        _ => {
            let q = prev.last().copied().unwrap_or(3) as u64;
            let k = src.below(1 << 20);
            q.wrapping_mul(k).wrapping_add(src.below(3)).wrapping_sub(1) as u128
        }
    }
}

#[derive(Debug)]
enum Step {
    Call(B, usize, usize),
    Const(u64),
    /// the operands of the second of two circuits: b, and a made odd
    Word(usize),
}

pub fn c20(src: &mut Src, cx: &mut Cx) -> R {
    let composite = src.chance(1, 3);
    let mut c = new_circuit();
    if src.chance(1, 4) {
        crate::p_lib::mess(src, &mut c)?;
        cx.label("in a circuit that holds other gates");
    }
    // values: 0 and 1 are the inputs; the second input is never zero
    let mut steps: Vec<Step> = vec![];
    let mut outs: Vec<usize> = vec![];
    // the values that are inputs
    let mut words = vec![0, 1];
    if !composite {
        let b = ALL_B[src.usize(6)];
        cx.log(|| format!("bundled circuit {b:?}"));
        cx.label(match b {
            B::Add => "adder64",
            B::Sub => "sub64",
            B::Neg => "neg64",
            B::Mul => "mult2_64",
            B::UDiv => "udivide64",
            B::Div => "divide64",
        });
        ok(b.build(&mut c), "build")?;
        words = (0..b.arity()).collect();
        steps.push(Step::Call(b, 0, 1));
        let k = b.apply(1, 1).len();
        outs = (2..2 + k).collect();
        if src.chance(1, 4) {
            let b2 = ALL_B[src.usize(6)];
            cx.log(|| format!("and {b2:?} in the same circuit"));
            cx.label("two in one circuit");
            ok(b2.build(&mut c), "build")?;
            steps.extend([Step::Word(0), Step::Word(1), Step::Call(b2, 2 + k, 3 + k)]);
            words.extend(2 + k..2 + k + b2.arity());
            outs.extend(4 + k..4 + k + b2.apply(1, 1).len());
        }
    } else {
        cx.label("as modules of a larger circuit");
        let mut ids: Vec<Vec<GateId>> = vec![];
        for _ in 0..2 {
            let mut v = vec![];
            for _ in 0..64 {
                v.push(ok(c.input(), "input")?);
            }
            ids.push(v);
        }
        let mut mids: Vec<(B, ModuleId)> = vec![];
        for _ in 0..src.range(1, 3) {
            let b = ALL_B[src.usize(6)];
            let mid = match mids.iter().find(|x| x.0 == b) {
                Some(x) => x.1,
                None => {
                    let (mid, mut sub) = c.sub_circuit();
                    ok(b.build(&mut sub), "build")?;
                    mids.push((b, mid));
                    mid
                }
            };
            for _ in 0..src.range(1, 2) {
                if src.chance(1, 4) {
                    let k = edge(src, 64, &[]) as u64;
                    let mut v = vec![];
                    for x in to_bits(k as u128, 64) {
                        v.push(ok(c.constant(x), "constant")?);
                    }
                    ids.push(v);
                    steps.push(Step::Const(k));
                }
                let i = src.usize(ids.len());
                let j = if b.divides() { 1 } else { src.usize(ids.len()) };
                let mut args = ids[i].clone();
                if b.arity() == 2 {
                    args.extend(&ids[j]);
                }
                let o = ok(c.module(&mid, &args), "module")?;
                let k = b.apply(1, 1).len();
                check!(o.len() == 64 * k, "{b:?} returned {} bits instead of {}", o.len(), 64 * k);
                for w in o.chunks(64) {
                    outs.push(ids.len());
                    ids.push(w.to_vec());
                }
                steps.push(Step::Call(b, i, j));
            }
        }
        for &o in &outs {
            for g in &ids[o] {
                ok(c.output(*g), "output")?;
            }
        }
        cx.log(|| format!("{steps:?}"));
    }
    check!(c.input_len() == 64 * words.len(), "{} inputs instead of {}", c.input_len(), 64 * words.len());
    check!(c.output_len() == 64 * outs.len(), "{} outputs instead of {}", c.output_len(), 64 * outs.len());
    let values = |a: u64, b: u64| -> Vec<u64> {
        let mut v = vec![a, b];
        for s in &steps {
            match s {
                Step::Const(k) => v.push(*k),
                Step::Word(k) => v.push([b, a | 1][*k]),
                Step::Call(f, i, j) => {
                    let r = f.apply(v[*i], if f.arity() == 2 { v[*j] } else { 1 });
                    v.extend(r);
                }
            }
        }
        v
    };
    let model = |a: u64, b: u64| -> Vec<u64> {
        let v = values(a, b);
        outs.iter().map(|&o| v[o]).collect()
    };
    let one = |s: &mut Src| {
        let b = word(s, &[]);
        let a = word(s, &[b]);
        (a as u64, if b == 0 { 1 } else { b as u64 })
    };
    let mut vals: Vec<(u64, u64)> = (0..4).map(|_| one(src)).collect();
    let mut s2 = Src::random(src.word());
    while vals.len() < if cx.thorough { 2048 } else { 1024 } {
        vals.push(one(&mut s2));
    }
    let asg: Vec<Vec<bool>> = vals
        .iter()
        .map(|&(a, b)| {
            let v = values(a, b);
            words.iter().flat_map(|&i| to_bits(v[i] as u128, 64)).collect()
        })
        .collect();
    cx.nontrivial = true;
    compare(&c, &asg, cx, &|i, got, cx| {
        let (a, b) = vals[i];
        cx.comparisons += 1;
        let w = model(a, b);
        for (k, want) in w.iter().enumerate() {
            let g = from_bits(&got[64 * k..64 * k + 64]) as u64;
            check!(g == *want, "on {a:#x} and {b:#x} output word {k} is {g:#x} instead of {want:#x} ({steps:?})");
        }
        Ok(())
    })
}

/// the crate's evaluator on some of the assignments, the structure walk on all
fn compare(c: &CR, asg: &[Vec<bool>], cx: &mut Cx, test: &dyn Fn(usize, &[bool], &mut Cx) -> R) -> R {
    if crate::p_lib::tapped(c, asg) {
        return Ok(());
    }
    let f = flat::compile(c);
    let cost = f.as_ref().map_or(20_000, |f| f.cost);
    let k = (60_000 / cost).clamp(1, 40);
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    for i in 0..k.min(asg.len()) {
        let got = ok(ev.eval_output(&asg[i]), "eval_output")?;
        check!(got.len() == c.output_len(), "{} output bits", got.len());
        test(i, &got, cx)?;
    }
    let Some(f) = f else {
        cx.label("evaluator only");
        return Ok(());
    };
    for (b, chunk) in asg.chunks(flat::LANES).enumerate() {
        for (j, got) in f.eval(chunk).iter().enumerate() {
            test(b * flat::LANES + j, got, cx)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

pub struct Aes {
    sbox: [u8; 256],
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b > 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}
impl Aes {
    pub fn new() -> Aes {
        let mut sbox = [0u8; 256];
        for x in 0..256usize {
            let mut inv = 0u8;
            for y in 1..=255u8 {
                if gmul(x as u8, y) == 1 {
                    inv = y;
                }
            }
            let mut s = 0x63;
            for k in 0..5 {
                s ^= inv.rotate_left(k);
            }
            sbox[x] = s;
        }
        let a = Aes { sbox };
        // FIPS-197, appendices B and C.1
        let hex = |s: &str| -> [u8; 16] { std::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()) };
        assert_eq!(a.encrypt(&hex("3243f6a8885a308d313198a2e0370734"), &hex("2b7e151628aed2a6abf7158809cf4f3c")), hex("3925841d02dc09fbdc118597196a0b32"));
        assert_eq!(a.encrypt(&hex("00112233445566778899aabbccddeeff"), &hex("000102030405060708090a0b0c0d0e0f")), hex("69c4e0d86a7b0430d8cdb78070b4c55a"));
        a
    }
    pub fn encrypt(&self, pt: &[u8; 16], key: &[u8; 16]) -> [u8; 16] {
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t.rotate_left(1);
                for b in t.iter_mut() {
                    *b = self.sbox[*b as usize];
                }
                t[0] ^= rcon;
                rcon = gmul(rcon, 2);
            }
            let p = w[i - 4];
            w.push(std::array::from_fn(|k| p[k] ^ t[k]));
        }
        let ark = |s: &mut [u8; 16], r: usize| {
            for c in 0..4 {
                for k in 0..4 {
                    s[4 * c + k] ^= w[4 * r + c][k];
                }
            }
        };
        let mut s = *pt;
        ark(&mut s, 0);
        for r in 1..=10 {
            let t: [u8; 16] = std::array::from_fn(|i| {
                let (c, k) = (i / 4, i % 4);
                self.sbox[s[4 * ((c + k) % 4) + k] as usize]
            });
            s = t;
            if r < 10 {
                for c in 0..4 {
                    let a: [u8; 4] = s[4 * c..4 * c + 4].try_into().unwrap();
                    for k in 0..4 {
                        s[4 * c + k] = gmul(a[k], 2) ^ gmul(a[(k + 1) % 4], 3) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4];
                    }
                }
            }
            ark(&mut s, r);
        }
        s
    }
}
fn be(bytes: &[u8]) -> Vec<bool> {
    bytes.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect()
}
fn un_be(bits: &[bool]) -> Vec<u8> {
    bits.chunks(8).map(|c| c.iter().fold(0u8, |a, &b| a << 1 | b as u8)).collect()
}
fn block(src: &mut Src) -> [u8; 16] {
    match src.weighted(&[6, 2, 1, 1]) {
        0 => {
            let v = (src.word() as u128) << 64 | src.word() as u128;
            v.to_be_bytes()
        }
        1 => (1u128 << src.usize(128)).to_be_bytes(),
        2 => [0; 16],
        _ => [src.below(256) as u8; 16],
    }
}
fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn c21(src: &mut Src, cx: &mut Cx) -> R {
    thread_local! { static AES: Aes = Aes::new(); }
    let mode = src.weighted(&[3, 1, 1, 1]);
    let mut c = new_circuit();
    if mode != 3 && src.chance(1, 4) {
        crate::p_lib::mess(src, &mut c)?;
        cx.label("in a circuit that holds other gates");
    }
    // how outputs follow from (plaintext, key)
    let fixed_key = block(src);
    match mode {
        0 => {
            cx.label("the circuit itself");
            ok(build_aes128(&mut c), "build_aes128")?;
        }
        3 => {
            cx.label("twice in one circuit");
            ok(build_aes128(&mut c), "build_aes128")?;
            ok(build_aes128(&mut c), "build_aes128")?;
        }
        _ => {
            let (mid, mut sub) = c.sub_circuit();
            ok(build_aes128(&mut sub), "build_aes128")?;
            let mut ins = vec![];
            for _ in 0..256 {
                ins.push(ok(c.input(), "input")?);
            }
            let outs = if mode == 1 {
                cx.label("as a module, twice in a row");
                let t = ok(c.module(&mid, &ins), "module")?;
                let mut args = t;
                args.extend(&ins[128..]);
                ok(c.module(&mid, &args), "module")?
            } else {
                cx.label("as a module, plaintext from the key inputs and a constant key");
                let mut args = ins[128..].to_vec();
                for b in be(&fixed_key) {
                    args.push(ok(c.constant(b), "constant")?);
                }
                ok(c.module(&mid, &args), "module")?
            };
            for o in outs {
                ok(c.output(o), "output")?;
            }
        }
    }
    let copies = if mode == 3 { 2 } else { 1 };
    check!(c.input_len() == 256 * copies, "{} inputs", c.input_len());
    check!(c.output_len() == 128 * copies, "{} outputs", c.output_len());
    let mut vals: Vec<([u8; 16], [u8; 16])> = (0..2).map(|_| (block(src), block(src))).collect();
    let mut s2 = Src::random(src.word());
    while vals.len() < 512 {
        vals.push((block(&mut s2), block(&mut s2)));
    }
    let asg: Vec<Vec<bool>> = vals
        .iter()
        .enumerate()
        .map(|(i, (p, k))| {
            let mut v = be(p);
            v.extend(be(k));
            if mode == 3 {
                // the second one has the next operands
                let (p, k) = &vals[(i + 1) % vals.len()];
                v.extend(be(p));
                v.extend(be(k));
            }
            v
        })
        .collect();
    cx.nontrivial = true;
    cx.log(|| format!("mode {mode}, first plaintext {} key {}", hexs(&vals[0].0), hexs(&vals[0].1)));
    compare(&c, &asg, cx, &|i, got, cx| {
        cx.comparisons += 1;
        let (p, k) = &vals[i];
        let want = AES.with(|a| match mode {
            0 | 3 => a.encrypt(p, k),
            1 => a.encrypt(&a.encrypt(p, k), k),
            _ => a.encrypt(k, &fixed_key),
        });
        let g = un_be(&got[..128]);
        check!(g == want, "plaintext {} key {} (mode {mode}): {} instead of {}", hexs(p), hexs(k), hexs(&g), hexs(&want));
        if mode == 3 {
            let (p, k) = &vals[(i + 1) % vals.len()];
            let (g, want) = (un_be(&got[128..]), AES.with(|a| a.encrypt(p, k)));
            check!(g == want, "plaintext {} key {} (second in the circuit): {} instead of {}", hexs(p), hexs(k), hexs(&g), hexs(&want));
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C22

fn c22(src: &mut Src, cx: &mut Cx) -> R {
    let n = match src.usize(4) {
        0 => src.usize(4),
        1 => src.usize(20),
        2 => src.usize(70),
        _ => src.usize(300),
    };
    // now and then far more than any buffer
    let long = src.chance(1, 4000);
    let n = if long { 1_000 + src.usize(90_000) } else { n };
    if long {
        cx.label("more than 1000 bytes");
    }
    let style = src.usize(4);
    let mut more = Rng::new(if long { src.word() } else { 0 });
    let bytes: Vec<u8> = (0..n)
        .map(|_| match style {
            _ if long => more.next() as u8,
            0 => [0u8, 1, 0x80, 0xff, 0x7f, 0x0f, 0xf0, 0xaa][src.usize(8)],
            1 => 1 << src.usize(8),
            _ => src.below(256) as u8,
        })
        .collect();
    cx.log(|| format!("bytes {}", hexs(&bytes)));
    let le = bytes2bits_le(&bytes);
    let b = bytes2bits_be(&bytes);
    check!(le.len() == 8 * n && b.len() == 8 * n, "{} and {} bits from {n} bytes", le.len(), b.len());
    for (i, x) in bytes.iter().enumerate() {
        for k in 0..8 {
            check!(le[8 * i + k] == (x >> k & 1 == 1), "bytes2bits_le: bit {k} of byte {i} ({x:#04x})");
            check!(b[8 * i + k] == (x >> (7 - k) & 1 == 1), "bytes2bits_be: bit {k} of byte {i} ({x:#04x})");
        }
    }
    check!(bits2bytes_le(&le) == bytes, "bits2bytes_le does not invert bytes2bits_le");
    check!(bits2bytes_be(&b) == bytes, "bits2bytes_be does not invert bytes2bits_be");
    // from bits
    let bits: Vec<bool> = if long { (0..8 * n).map(|_| more.next() & 4 == 0).collect() } else { src.bits(8 * src_len(n)) };
    let l = bits2bytes_le(&bits);
    let m = bits2bytes_be(&bits);
    check!(l.len() * 8 == bits.len() && m.len() * 8 == bits.len(), "{} bytes from {} bits", l.len(), bits.len());
    check!(bytes2bits_le(&l) == bits, "bytes2bits_le does not invert bits2bytes_le on {}", bs(&bits));
    check!(bytes2bits_be(&m) == bits, "bytes2bits_be does not invert bits2bytes_be on {}", bs(&bits));
    for (i, c) in bits.chunks(8).enumerate() {
        let (mut x, mut y) = (0u32, 0u32);
        for k in 0..8 {
            x += (c[k] as u32) << k;
            y += (c[k] as u32) << (7 - k);
        }
        check!(l[i] as u32 == x, "bits2bytes_le: byte {i} of {}", bs(&bits));
        check!(m[i] as u32 == y, "bits2bytes_be: byte {i} of {}", bs(&bits));
    }
    // hex
    let h = bytes2hex(&bytes);
    check!(h == hexs(&bytes), "bytes2hex gives {h:?}");
    match hex2bytes(&h) {
        Ok(x) => check!(x == bytes, "hex2bytes does not invert bytes2hex on {h}"),
        Err(e) => return fail(format!("hex2bytes rejects {h}: {e}")),
    }
    let mixed: String = h.chars().enumerate().map(|(i, c)| if if i < 700 { src.bool() } else { more.next() & 8 == 0 } { c.to_ascii_uppercase() } else { c }).collect();
    match hex2bytes(&mixed) {
        Ok(x) => check!(x == bytes, "hex2bytes is wrong on {mixed}"),
        Err(e) => return fail(format!("hex2bytes rejects {mixed}: {e}")),
    }
    cx.comparisons += 12 + 4 * n as u64;
    // invalid hex
    let mut chars: Vec<char> = mixed.chars().collect();
    let what = src.usize(3);
    match what {
        0 => {
            // odd length
            if !chars.is_empty() && src.bool() {
                let i = src.usize(chars.len());
                chars.remove(i);
            } else {
                let i = src.usize(chars.len() + 1);
                let d = "0123456789abcdefABCDEF".as_bytes()[src.usize(22)] as char;
                chars.insert(i, d);
            }
            cx.label("hex of odd length");
        }
        1 if !chars.is_empty() => {
            let i = src.usize(chars.len());
            chars[i] = ['g', 'G', ' ', 'x', '-', '\n', '/', ':', '@', '`', '\0', 'z', '+', '_', '\u{e9}', '\u{ff11}'][src.usize(16)];
            cx.label("hex with a wrong character");
        }
        _ => {
            // two more characters, at the start, at the end or in between
            let more = ["0x", " 0", "+0", "0_", "g0", "0 ", "  ", "\r\n", "\n\n", "\0\0", "0X", "0h", ": ", "__", "\t ", "=="][src.usize(16)];
            let at = match src.usize(3) {
                0 => 0,
                1 => chars.len(),
                _ => src.usize(chars.len() + 1),
            };
            chars.splice(at..at, more.chars());
            cx.label(if at == 0 { "hex with a prefix" } else { "hex with a suffix or a separator" });
        }
    }
    let bad: String = chars.iter().collect();
    let r = hex2bytes(&bad);
    cx.comparisons += 1;
    check!(r.is_err(), "hex2bytes accepts {bad:?}: {:?}", r.unwrap());
    cx.nontrivial = n > 0;
    Ok(())
}
fn src_len(n: usize) -> usize {
    n.min(40)
}

// ---------------------------------------------------------------- C23

fn bignum(src: &mut Src) -> BigUint {
    let bits = match src.usize(5) {
        _ if src.chance(1, 3000) => src.usize(6000),
        0 => 0,
        1 => src.usize(6),
        2 => src.usize(40),
        3 => src.usize(140),
        _ => src.usize(600),
    };
    if bits == 0 {
        return BigUint::from(src.below(4) as u32);
    }
    let mut v = BigUint::from(0u32);
    let mut k = 0;
    while k < bits {
        let w = (bits - k).min(32);
        v |= BigUint::from(src.below(1 << w)) << k;
        k += w;
    }
    match src.usize(4) {
        0 => BigUint::from(1u32) << (bits - 1),
        1 => (BigUint::from(1u32) << bits) - 1u32,
        _ => v,
    }
}
/// binary gcd
fn gcd(a: &BigUint, b: &BigUint) -> BigUint {
    let zero = BigUint::from(0u32);
    let (mut a, mut b) = (a.clone(), b.clone());
    if a == zero {
        return b;
    }
    if b == zero {
        return a;
    }
    let s = a.trailing_zeros().unwrap().min(b.trailing_zeros().unwrap());
    a >>= a.trailing_zeros().unwrap();
    loop {
        b >>= b.trailing_zeros().unwrap();
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        b -= &a;
        if b == zero {
            return a << s;
        }
    }
}
fn c23(src: &mut Src, cx: &mut Cx) -> R {
    let (a, b) = match src.weighted(&[5, 3, 2, 1, 1]) {
        _ if src.chance(1, 150_000) => {
            // the words come from a short seed, so that a failing pair shrinks in length only
            cx.label("pair of 10,000 to 80,000 bits");
            let (na, nb) = (src.range(160, 1250), src.range(160, 1250));
            let mut s = src.below(1 << 32) | 1 << 40;
            let mut long = |n: usize| {
                let words = (0..2 * n).map(|_| {
                    s ^= s << 13;
                    s ^= s >> 7;
                    s ^= s << 17;
                    s as u32
                });
                BigUint::new(words.collect())
            };
            (long(na), long(nb))
        }
        0 => (bignum(src), bignum(src)),
        1 => {
            let g = bignum(src);
            cx.label("common factor");
            (bignum(src) * &g, bignum(src) * &g)
        }
        2 => {
            // consecutive Fibonacci numbers, times something: the longest Euclid chains
            let (mut x, mut y) = (BigUint::from(0u32), BigUint::from(1u32));
            let steps = if src.chance(1, 20_000) {
                cx.label("Fibonacci pair of 28,000 to 40,000 bits");
                src.range(40_000, 58_000)
            } else if src.chance(1, 1000) {
                src.usize(12_000)
            } else {
                src.usize(300)
            };
            for _ in 0..steps {
                let z = &x + &y;
                x = y;
                y = z;
            }
            let g = bignum(src);
            cx.label("Fibonacci pair");
            if src.bool() { (x * &g, y * &g) } else { (y * &g, x * &g) }
        }
        3 => {
            let a = bignum(src);
            (a.clone(), a)
        }
        _ => {
            let a = bignum(src);
            cx.label("power of two modulus");
            (a | BigUint::from(1u32), BigUint::from(1u32) << src.usize(200))
        }
    };
    let sign = |src: &mut Src, v: &BigUint| -> BigInt {
        let s = if src.chance(1, 4) { Sign::Minus } else { Sign::Plus };
        BigInt::from_biguint(s, v.clone())
    };
    let (ia, ib) = (sign(src, &a), sign(src, &b));
    cx.log(|| format!("a={ia} b={ib}"));
    let (x, y, d) = ext_gcd(&ia, &ib);
    let g = gcd(&a, &b);
    cx.comparisons += 3;
    check!(&ia * &x + &ib * &y == d, "a={ia} b={ib}: {x}*a + {y}*b is not {d}");
    check!(*d.magnitude() == g, "a={ia} b={ib}: d={d}, but the gcd is {g}");
    let zero = BigInt::from(0);
    if ia >= zero && ib >= zero {
        check!(d >= zero, "a={ia} b={ib}: d={d} is negative");
        cx.label("non-negative pair");
    } else {
        cx.label("negative number");
    }
    cx.nontrivial = a > BigUint::from(1u32) && b > BigUint::from(1u32) && a != b;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C20", run: c20, quick: 1_500, thorough: 20_000, rule: "every case (one or more bundled circuits on at least 1024 operand pairs)", assumptions: &["non-zero divisors", "the most negative number divided by -1 wraps"], fixed: no_fixed },
        Prop { id: "C21", run: c21, quick: 800, thorough: 2_000, rule: "every case (512 plaintexts and keys)", assumptions: &[], fixed: no_fixed },
        Prop { id: "C22", run: c22, quick: 4_000_000, thorough: 10_000_000, rule: "at least one byte", assumptions: &["bit strings of whole bytes"], fixed: no_fixed },
        Prop { id: "C23", run: c23, quick: 3_000_000, thorough: 5_000_000, rule: "two different numbers of magnitude above 1", assumptions: &["numbers of up to 80,000 bits"], fixed: no_fixed },
    ]
}
