//! Does a table satisfy a compiled PIL program?  Evaluates the identities row by row.
use crate::util::*;
use fields::ff::{Field, PrimeField};
use fields::field_gl::Fr as FGL;
use starky::types::{Expression, PIL};

pub struct Table<'a> {
    pub pil: &'a PIL,
    pub cm: &'a [Vec<FGL>],
    pub cn: &'a [Vec<FGL>],
    pub publics: Vec<FGL>,
    /// by expression and row
    memo: Vec<Option<FGL>>,
    n: usize,
}
fn num(s: &str) -> FGL {
    let x: num_bigint::BigInt = s.parse().expect("number");
    let p = num_bigint::BigInt::from(P);
    let r: num_bigint::BigInt = ((x % &p) + &p) % &p;
    gl(r.to_string().parse().unwrap())
}
impl<'a> Table<'a> {
    pub fn new(pil: &'a PIL, cm: &'a [Vec<FGL>], cn: &'a [Vec<FGL>]) -> Self {
        let n = cm.first().or(cn.first()).unwrap().len();
        let mut t = Table { pil, cm, cn, publics: vec![], memo: vec![None; n * pil.expressions.len()], n };
        for p in &pil.publics {
            let v = match p.polType.as_str() {
                "cmP" => cm[p.polId][p.idx],
                "constP" => cn[p.polId][p.idx],
                "imP" => t.exp(p.polId, p.idx),
                x => panic!("public of kind {x}"),
            };
            t.publics.push(v);
        }
        t
    }
    fn rows(&self) -> usize {
        self.n
    }
    pub fn exp(&mut self, e: usize, row: usize) -> FGL {
        let k = e * self.n + row;
        if let Some(x) = self.memo[k] {
            return x;
        }
        let pil = self.pil;
        let x = self.val(&pil.expressions[e], row);
        self.memo[k] = Some(x);
        x
    }
    fn val(&mut self, e: &Expression, row: usize) -> FGL {
        let r = if e.next() { (row + 1) % self.rows() } else { row };
        let kid = |t: &mut Self, i: usize| t.val(&e.values.as_ref().unwrap()[i], row);
        match e.op.as_str() {
            "number" => num(e.value.as_ref().unwrap()),
            "cm" => self.cm[e.id.unwrap()][r],
            "const" => self.cn[e.id.unwrap()][r],
            "exp" => self.exp(e.id.unwrap(), r),
            "public" => self.publics[e.id.unwrap()],
            "neg" => {
                let mut x = kid(self, 0);
                x.negate();
                x
            }
            "add" | "sub" | "mul" => {
                let mut x = kid(self, 0);
                let y = kid(self, 1);
                match e.op.as_str() {
                    "add" => x.add_assign(&y),
                    "sub" => x.sub_assign(&y),
                    _ => x.mul_assign(&y),
                }
                x
            }
            "pow" => {
                let x = kid(self, 0);
                let y = kid(self, 1);
                x.pow([y.into_repr().0[0]])
            }
            x => panic!("operation {x}"),
        }
    }
    /// the first identity (position, row) that does not hold
    pub fn broken(&mut self) -> Option<(usize, usize)> {
        let pil = self.pil;
        for row in 0..self.rows() {
            for (i, id) in pil.polIdentities.iter().enumerate() {
                if !self.exp(id.e, row).is_zero() {
                    return Some((i, row));
                }
            }
        }
        None
    }
}
