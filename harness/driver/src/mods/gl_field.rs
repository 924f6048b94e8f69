//! spec/gl_field.qnt on `fields::field_gl`
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use fields::field_gl::{Fr, FrRepr};
use fields::{Field, LegendreSymbol, PrimeField, PrimeFieldRepr, SqrtField};
use num_bigint::BigInt;
use serde_json::Value;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct M {
    r: Vec<Fr>,
}

fn hash(x: &Fr) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ord(o: Ordering) -> u64 {
    match o {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    }
}

impl M {
    fn compare(&self, want: &[u64]) -> R {
        for (k, w) in want.iter().enumerate() {
            let x = self.r[k];
            if raw(&x) >= P {
                return bad("canonical", format!("r{k} is stored as {}, not below p (value {w})", raw(&x)));
            }
            if x.as_int() != *w {
                return bad("value", format!("r{k} = {}, specified {w}", x.as_int()));
            }
            if x.into_repr() != FrRepr([*w]) || FrRepr::from(x) != FrRepr([*w]) {
                return bad("into_repr", format!("r{k}: into_repr {:?}, specified {w}", x.into_repr()));
            }
            let hex = format!("0x{w:016x}");
            if format!("{x}") != format!("Fr({hex})") || format!("{}", x.into_repr()) != hex || format!("{x:?}") != format!("Fr({hex})") {
                return bad("display", format!("r{k} prints as {x} / {x:?}, specified {hex}"));
            }
            if x.is_zero() != (*w == 0) {
                return bad("is_zero", format!("is_zero({w}) = {}", x.is_zero()));
            }
            if Fr::from_repr(x.into_repr()).ok() != Some(x) || Fr::from_raw_repr(x.into_raw_repr()).ok() != Some(x) {
                return bad("round_trip", format!("{w} does not survive a representation round trip"));
            }
            for (j, v) in want.iter().enumerate() {
                let y = self.r[j];
                if (x == y) != (w == v) || (x != y) == (w == v) {
                    return bad("eq", format!("{w} == {v} gives {}", x == y));
                }
                if ord(x.cmp(&y)) != ord(w.cmp(v)) || x.partial_cmp(&y) != Some(w.cmp(v)) || (x < y) != (w < v) {
                    return bad("ord", format!("cmp({w},{v}) gives {:?}", x.cmp(&y)));
                }
                if w == v && hash(&x) != hash(&y) {
                    return bad("hash", format!("equal elements {w} hash differently"));
                }
            }
        }
        Ok(())
    }
}

impl Module for M {
    fn start(&mut self, st: &Value) -> R {
        self.r = gls(&lu(&st["regs"]));
        self.compare(&lu(&st["regs"]))
    }
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let (op, d, i, j) = (s(&e["op"]), big(&e["d"]), big(&e["i"]), big(&e["j"]));
        let v = big(&e["v"]);
        let out = lu(&e["out"]);
        let want = lu(&st["regs"]);
        let ix = |x: &BigInt| -> usize { x.try_into().unwrap() };
        let v64 = || -> u64 { (&v).try_into().unwrap() };
        if op == "pair" {
            let a = gl((&i).try_into().unwrap());
            let b = gl((&j).try_into().unwrap());
            let mut dbl = a;
            dbl.double();
            let mut sq = a;
            sq.square();
            let mut add = a;
            add.add_assign(&b);
            let mut sub = a;
            sub.sub_assign(&b);
            let mut mul = a;
            mul.mul_assign(&b);
            let got = [a + b, a - b, a * b, a / b, -a, sq, dbl, b.inverse().unwrap()];
            for (n, (g, w)) in got.iter().zip(&out).enumerate() {
                if raw(g) >= P {
                    return bad("canonical", format!("operation {n} on ({i},{j}) stores {}, not below p", raw(g)));
                }
                let zero_div = v64() == 0 && b.is_zero() && (n == 3 || n == 7);
                if !zero_div && g.as_int() != *w {
                    let name = ["add", "sub", "mul", "div", "neg", "square", "double", "inverse"][n];
                    return bad(name, format!("{name}({i},{j}) = {}, specified {w}", g.as_int()));
                }
            }
            if add != got[0] || sub != got[1] || mul != got[2] {
                return bad("assign", format!("assigning form differs on ({i},{j})"));
            }
            self.r = vec![a, b, got[2], got[1]];
            return self.compare(&want);
        }
        macro_rules! r {
            ($x:expr) => {
                self.r[ix(&$x)]
            };
        }
        match op {
            "load" => {
                r!(d) = match Fr::from_repr(FrRepr([v64()])) {
                    Ok(x) => x,
                    Err(_) => return bad("load", format!("from_repr refused {v}")),
                };
                if Fr::from(v64()) != r!(d) {
                    return bad("from_u64", format!("Fr::from({v}u64) = {}", Fr::from(v64())));
                }
            }
            "load_refused" => {
                if Fr::from_repr(FrRepr([v64()])).is_ok() || guard(|| Fr::from(v64())).is_some() {
                    return bad("load_refused", format!("from_repr or from accepted {v}"));
                }
            }
            "load_raw" => {
                r!(d) = match Fr::from_raw_repr(FrRepr([v64()])) {
                    Ok(x) => x,
                    Err(_) => return bad("load_raw", format!("from_raw_repr refused {v}")),
                }
            }
            "load_raw_refused" => {
                if Fr::from_raw_repr(FrRepr([v64()])).is_ok() {
                    return bad("load_raw_refused", format!("from_raw_repr accepted {v}"));
                }
            }
            "load_str" => {
                r!(d) = match Fr::from_str(&v.to_string()) {
                    Some(x) => x,
                    None => return bad("load_str", format!("from_str refused {v}")),
                }
            }
            "add" => r!(d) = r!(i) + r!(j),
            "sub" => r!(d) = r!(i) - r!(j),
            "mul" => r!(d) = r!(i) * r!(j),
            "div" => r!(d) = r!(i) / r!(j),
            "neg" => r!(d) = -r!(i),
            "add_assign" => {
                let b = r!(j);
                r!(d).add_assign(&b)
            }
            "sub_assign" => {
                let b = r!(j);
                r!(d).sub_assign(&b)
            }
            "mul_assign" => {
                let b = r!(j);
                r!(d).mul_assign(&b)
            }
            "negate" => r!(d).negate(),
            "double" => r!(d).double(),
            "square" => r!(d).square(),
            "frobenius" => r!(d).frobenius_map(1),
            "inv" => match r!(i).inverse() {
                Some(x) => r!(d) = x,
                None => return bad("inv", format!("no inverse of {}", r!(i).as_int())),
            },
            "one" => {
                if Fr::ONE != Fr::one() {
                    return bad("one", "ONE differs from one()".into());
                }
                r!(d) = Fr::one()
            }
            "zero" => {
                if Fr::ZERO != Fr::zero() || Fr::default() != Fr::zero() {
                    return bad("zero", "ZERO differs from zero()".into());
                }
                r!(d) = Fr::zero()
            }
            "exp" => r!(d) = r!(i).exp(v64()),
            "pow" => {
                let l = limbs4(&v);
                r!(d) = if l[1] == 0 { r!(i).pow([l[0]]) } else { r!(i).pow([l[0], l[1]]) };
            }
            "legendre" => {
                let g = match r!(i).legendre() {
                    LegendreSymbol::Zero => 0,
                    LegendreSymbol::QuadraticResidue => 1,
                    LegendreSymbol::QuadraticNonResidue => P - 1,
                };
                if g != out[0] {
                    return bad("legendre", format!("legendre({}) = {g}", r!(i).as_int()));
                }
            }
            "sqrt" => match r!(i).sqrt() {
                Some(x) if (x * x).as_int() == out[0] && raw(&x) < P => {}
                x => return bad("sqrt", format!("sqrt({}) = {x:?}", out[0])),
            },
            "sqrt_none" => {
                if let Some(x) = r!(i).sqrt() {
                    return bad("sqrt", format!("sqrt of the non-square {} = {x}", r!(i).as_int()));
                }
            }
            "num_bits" => {
                let g = FrRepr([v64()]).num_bits();
                if g as u64 != out[0] {
                    return bad("num_bits", format!("num_bits({v}) = {g}"));
                }
            }
            "shr" | "shl" | "div2" => {
                let mut x = FrRepr([v64()]);
                match op {
                    "shr" => x.shr(ix(&i) as u32),
                    "shl" => x.shl(ix(&i) as u32),
                    _ => x.div2(),
                }
                if x != FrRepr([out[0]]) {
                    return bad(op, format!("{op}({v},{i}) = {x}"));
                }
            }
            "parity" => {
                let x = FrRepr([v64()]);
                if x.is_odd() != (out[0] == 1) || x.is_even() == x.is_odd() || x.is_zero() != (v64() == 0) {
                    return bad("parity", format!("parity of {v}"));
                }
            }
            "cmp_repr" => {
                let (x, y) = (FrRepr([v64()]), FrRepr([out[0]]));
                if ord(x.cmp(&y)) != out[1] || (x == y) != (out[1] == 1) || (y.cmp(&x) as i8) != -(x.cmp(&y) as i8) {
                    return bad("cmp_repr", format!("cmp({v},{}) = {:?}", out[0], x.cmp(&y)));
                }
            }
            "into_u64" => {
                let g = u64::from(r!(i));
                if g != out[0] {
                    // the stored limb, value * 2^128, instead of the integer
                    if g == raw(&r!(i)) {
                        return bad("obs:u64_from_fr_is_stored_limb", format!("u64::from({}) = {g}", out[0]));
                    }
                    return bad("into_u64", format!("u64::from({}) = {g}", out[0]));
                }
            }
            "bad_str" => {
                for t in ["", "-1", "0x10", "12a", " 1", "1 ", "+1", "1.0"] {
                    if let Some(x) = Fr::from_str(t) {
                        return bad("bad_str", format!("from_str({t:?}) = {x}"));
                    }
                }
            }
            _ => panic!("unknown op {op}"),
        }
        self.compare(&want)
    }
}
