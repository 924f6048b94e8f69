//! spec/ext_field.qnt on `starky::f3g::F3G` and `starky::f5g::F5G`
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use fields::field_gl::Fr;
use fields::Field;
use serde_json::Value;
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::polutils::batch_inverse;
use starky::traits::FieldExtension;
use std::hash::{Hash, Hasher};

pub trait Ext: FieldExtension {
    const D: usize;
    fn make(c: &[Fr]) -> Self;
    fn cube(&self) -> Vec<Fr>;
    fn small(v: u64) -> Vec<Self>;
    fn consts() -> Vec<Self> {
        vec![Self::ZERO, Self::ONE, Self::ZEROS, Self::ONES, <Self as Field>::zero(), <Self as Field>::one()]
    }
}
impl Ext for F3G {
    const D: usize = 3;
    fn make(c: &[Fr]) -> Self {
        F3G::new(c[0], c[1], c[2])
    }
    fn cube(&self) -> Vec<Fr> {
        self.cube.to_vec()
    }
    fn small(v: u64) -> Vec<Self> {
        vec![F3G::from(v as u8), F3G::from(v as u16), F3G::from(v as u32), F3G::from(v as i32), F3G::from(v as usize),
             F3G::from(&(v as i32)), F3G::from(&(v as usize)), F3G::from(v), F3G::from(v.to_le_bytes())]
    }
}
impl Ext for F5G {
    const D: usize = 5;
    fn make(c: &[Fr]) -> Self {
        F5G::new(c[0], c[1], c[2], c[3], c[4])
    }
    fn cube(&self) -> Vec<Fr> {
        self.cube.to_vec()
    }
    fn small(v: u64) -> Vec<Self> {
        vec![F5G::from(v as u8), F5G::from(v as u16), F5G::from(v as u32), F5G::from(v as i32), F5G::from(v as usize),
             F5G::from(&(v as i32)), F5G::from(&(v as usize)), F5G::from(v), F5G::from(v.to_le_bytes())]
    }
}

pub struct M<F: Ext> {
    r: Vec<F>,
}
impl<F: Ext> Default for M<F> {
    fn default() -> Self {
        M { r: vec![] }
    }
}

type El = (Vec<u64>, bool);
fn el(v: &Value) -> El {
    (lu(&v["c"]), b(&v["full"]))
}
fn els(v: &Value) -> Vec<El> {
    l(v).into_iter().map(el).collect()
}
fn load<F: Ext>(e: &El) -> F {
    if e.1 {
        F::make(&gls(&e.0))
    } else {
        F::from(gl(e.0[0]))
    }
}
fn ints<F: Ext>(x: &F) -> Vec<u64> {
    ungl(&x.cube())
}
fn hash<F: Hash>(x: &F) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn value<F: Ext>(op: &str, x: &F, w: &El) -> R {
    if ints(x) != w.0 {
        return bad(op, format!("{op} gives {:?} (dim {}), specified {:?}", ints(x), x.dim(), w.0));
    }
    if x.cube().iter().any(|y| raw(y) >= P) {
        return bad("canonical", format!("{op}: coefficient not canonical in {:?}", w.0));
    }
    Ok(())
}
/// value and every way to look at it
fn same<F: Ext>(op: &str, x: &F, w: &El) -> R {
    value(op, x, w)?;
    let (c, full) = w;
    if x.dim() != if *full { F::D } else { 1 } || ungl(&x.as_elements()) != c[..x.dim()] {
        return bad("dim", format!("{op}: dimension {} of {c:?} (full={full})", x.dim()));
    }
    if x.is_zero() != c.iter().all(|v| *v == 0) {
        return bad("is_zero", format!("is_zero({c:?}) = {}", x.is_zero()));
    }
    if x.as_int() != c[0] {
        return bad("as_int", format!("as_int of {c:?} = {}", x.as_int()));
    }
    let text: Vec<String> = c.iter().map(|v| v.to_string()).collect();
    let shown = if *full { format!("[{}]", text.join(",")) } else { text[0].clone() };
    if format!("{x}") != shown {
        return bad("display", format!("{c:?} prints as {x}"));
    }
    let json = serde_json::to_value(x).map_err(|e| crate::Bad { key: "serde".into(), msg: e.to_string() })?;
    let want = if *full { serde_json::json!(text) } else { serde_json::json!(text[0]) };
    if json != want {
        return bad("serde", format!("{c:?} serialises to {json}"));
    }
    match serde_json::from_str::<F>(&json.to_string()) {
        Ok(y) if y == *x && ints(&y) == *c && y.dim() == x.dim() => {}
        o => return bad("serde", format!("{json} reads back as {o:?}")),
    }
    if *full {
        let y = F::from_vec(gls(c));
        if y != *x {
            return bad("from_vec", format!("from_vec({c:?}) = {y}"));
        }
    } else if x.to_be().as_int() != c[0] {
        return bad("to_be", format!("to_be of {c:?}"));
    }
    Ok(())
}

impl<F: Ext> M<F> {
    fn compare(&self, want: &[El]) -> R {
        for (k, w) in want.iter().enumerate() {
            let x = self.r[k];
            same(&format!("register {k}"), &x, w)?;
            for (j, v) in want.iter().enumerate() {
                let y = self.r[j];
                if x._eq(&y) != (w.0 == v.0) {
                    return bad("eq", format!("{w:?} _eq {v:?} = {}", x._eq(&y)));
                }
                if w.1 == v.1 {
                    if (x == y) != (w.0 == v.0) || (w.0 == v.0 && hash(&x) != hash(&y)) {
                        return bad("eq", format!("{w:?} == {v:?} = {}, hashes {} {}", x == y, hash(&x), hash(&y)));
                    }
                    let g = [x.gt(&y), x.geq(&y), x.lt(&y), x.leq(&y)];
                    if g != [w.0 > v.0, w.0 >= v.0, w.0 < v.0, w.0 <= v.0] {
                        return bad("ord", format!("{w:?} vs {v:?}: [gt,geq,lt,leq] = {g:?}"));
                    }
                }
            }
        }
        Ok(())
    }
}

impl<F: Ext> Module for M<F> {
    fn start(&mut self, st: &Value) -> R {
        let w = els(&st["regs"]);
        self.r = w.iter().map(load).collect();
        self.compare(&w)
    }
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let (op, d, i, j, n) = (s(&e["op"]), us(&e["d"]), us(&e["i"]), us(&e["j"]), u(&e["n"]));
        let (args, out, want) = (els(&e["args"]), els(&e["out"]), els(&st["regs"]));
        if op == "pair" {
            let (x, y): (F, F) = (load(&args[0]), load(&args[1]));
            let (mut sq, mut db) = (x, x);
            sq.square();
            db.double();
            let mut got = vec![x + y, x - y, x * y, -x, sq, db];
            if out.len() == 8 {
                got.push(y.inv());
                got.push(x / y);
            }
            for (k, (g, w)) in got.iter().zip(&out).enumerate() {
                let name = ["add", "sub", "mul", "neg", "square", "double", "inv", "div"][k];
                same(name, g, w).map_err(|mut b| {
                    b.msg = format!("{name}({:?}, {:?}): {}", args[0], args[1], b.msg);
                    b
                })?;
            }
            self.r = vec![x, y, got[2], got[1]];
            return self.compare(&want);
        }
        let (a, y) = (self.r[i], self.r[j]);
        let r = &mut self.r;
        match op {
            "load" => r[d] = load(&args[0]),
            "add" => r[d] = a + y,
            "sub" => r[d] = a - y,
            "mul" => r[d] = a * y,
            // through the Field trait, on copies
            "add_ops" => {
                let mut t = a;
                Field::add_assign(&mut t, &y);
                r[d] = t
            }
            "sub_ops" => {
                let mut t = a;
                Field::sub_assign(&mut t, &y);
                r[d] = t
            }
            "mul_ops" => {
                let mut t = a;
                Field::mul_assign(&mut t, &y);
                r[d] = t
            }
            "add_assign" => r[d] += y,
            "sub_assign" => r[d] -= y,
            "mul_assign" => r[d] *= y,
            "add_assign_f" => Field::add_assign(&mut r[d], &y),
            "sub_assign_f" => Field::sub_assign(&mut r[d], &y),
            "mul_assign_f" => Field::mul_assign(&mut r[d], &y),
            "neg" => r[d] = -a,
            "negate" => r[d].negate(),
            "double" => r[d].double(),
            "square" => r[d].square(),
            "inv" => r[d] = a.inv(),
            "inverse" => r[d] = a.inverse().expect("inverse"),
            "div" => r[d] = a / y,
            "div_assign" => r[d] /= y,
            "exp" => r[d] = a.exp(n as usize),
            "mul_scalar" => r[d] = a.mul_scalar(n as usize),
            "batch_inverse" => {
                let xs: Vec<F> = args.iter().map(load).collect();
                let ys = batch_inverse(&xs);
                if ys.len() != out.len() || !batch_inverse::<F>(&[]).is_empty() {
                    return bad("batch_inverse", format!("{} results for {} elements", ys.len(), out.len()));
                }
                for (g, w) in ys.iter().zip(&out) {
                    value("batch_inverse", g, w)?;
                }
            }
            "small" => {
                for (k, g) in F::small(n).iter().enumerate() {
                    let m = match k {
                        0 => n & 0xff,
                        1 => n & 0xffff,
                        _ => n,
                    };
                    if ints(g)[0] != m || g.dim() != 1 || ints(g)[1..].iter().any(|x| *x != 0) {
                        return bad("small", format!("conversion {k} of {n} gives {g}"));
                    }
                }
            }
            "constants" => {
                for (k, c) in F::consts().iter().enumerate() {
                    let v = (k % 2) as u64;
                    if ints(c)[0] != v || ints(c)[1..].iter().any(|x| *x != 0) || c.is_zero() != (v == 0) {
                        return bad("constants", format!("constant {k} is {c}"));
                    }
                }
                if ints(&F::default()).iter().any(|x| *x != 0) {
                    return bad("constants", format!("default is {}", F::default()));
                }
            }
            _ => panic!("unknown op {op}"),
        }
        self.compare(&want)
    }
}
