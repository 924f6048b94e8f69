//! spec/stark_code.qnt and spec/stark_cols.qnt on the setup (column map, compiled code) and the prover's columns
use super::fft::gf;
use super::stark::{prove, scripted, setup, stage, Proved, Said, Script, Tx};
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use num_bigint::BigInt;
use serde_json::{json, Value};
use starky::f3g::F3G;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::stark_gen::{calculate_exps_parallel, StarkContext, StarkProof};
use starky::stark_verify::stark_verify;
use starky::starkinfo::{Program, StarkInfo};
use starky::traits::{FieldExtension, MerkleTree, Transcript};
use starky::transcript::TranscriptGL;
use starky::transcript_bls12381::TranscriptBLS128;
use starky::transcript_bn128::TranscriptBN128;
use starky::types::{Expression, StarkStruct, PIL};
use starky::verif_hooks::starkinfo_codegen::{Node, Segment};
use std::collections::{BTreeMap, HashMap};

// ---- the cubic field, x^3 = x + 1
pub type E3 = [u64; 3];
pub mod e3 {
    use super::{gf, E3};
    pub const ONE: E3 = [1, 0, 0];
    pub fn of(v: u64) -> E3 {
        [v, 0, 0]
    }
    pub fn add(a: E3, b: E3) -> E3 {
        std::array::from_fn(|i| gf::add(a[i], b[i]))
    }
    pub fn sub(a: E3, b: E3) -> E3 {
        std::array::from_fn(|i| gf::sub(a[i], b[i]))
    }
    pub fn mul(a: E3, b: E3) -> E3 {
        let mut c = [0u64; 5];
        for i in 0..3 {
            for j in 0..3 {
                c[i + j] = gf::add(c[i + j], gf::mul(a[i], b[j]));
            }
        }
        [gf::add(c[0], c[3]), gf::add(gf::add(c[1], c[3]), c[4]), gf::add(c[2], c[4])]
    }
    pub fn pow(mut b: E3, mut e: u64) -> E3 {
        let mut r = ONE;
        while e > 0 {
            if e & 1 == 1 {
                r = mul(r, b);
            }
            b = mul(b, b);
            e >>= 1;
        }
        r
    }
    pub fn inv(a: E3) -> E3 {
        let ap = pow(a, gf::P as u64);
        let n = mul(ap, pow(ap, gf::P as u64));
        let d = of(gf::inv(mul(n, a)[0]));
        mul(n, d)
    }
}
fn three(v: &[u64]) -> E3 {
    let mut r = [0; 3];
    r[..v.len()].copy_from_slice(v);
    r
}
fn e(v: &Value) -> E3 {
    three(&lu(v))
}
fn es(v: &Value) -> Vec<E3> {
    l(v).into_iter().map(e).collect()
}
fn f3(v: E3) -> F3G {
    F3G::from_vec(gls(&v))
}
fn f3s(v: E3, short: bool) -> F3G {
    if short {
        F3G::from(gl(v[0]))
    } else {
        f3(v)
    }
}
fn un3(x: &F3G) -> E3 {
    three(&ungl(&x.as_elements()))
}
fn omega(bits: usize) -> u64 {
    gf::pow(7, (gf::P as u64 - 1) >> bits)
}
/// the coefficients of the polynomial of degree < n with value v[i] at the integer i
fn newton(v: &[E3]) -> Vec<E3> {
    let n = v.len();
    let mut d = v.to_vec();
    for k in 1..n {
        let i = e3::of(gf::inv(k as u64));
        for j in (k..n).rev() {
            d[j] = e3::mul(e3::sub(d[j], d[j - 1]), i);
        }
    }
    let mut c = vec![[0; 3]; n];
    for k in (0..n).rev() {
        // c = c (x - k) + d[k]
        for j in (0..n).rev() {
            let low = e3::mul(c[j], e3::of(k as u64));
            c[j] = e3::sub(if j > 0 { c[j - 1] } else { [0; 3] }, low);
        }
        c[0] = e3::add(c[0], d[k]);
    }
    c
}
fn counted(v: impl IntoIterator<Item = E3>) -> BTreeMap<E3, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}

// ---- values of columns by number, at a row (false) and the next (true)
#[derive(Default, Clone)]
struct Vals {
    cm: HashMap<(usize, bool), E3>,
    k: HashMap<(usize, bool), E3>,
    pubs: Vec<E3>,
    chal: [E3; 8],
    x: E3,
    /// expressions that have a column standing for them
    stand: HashMap<usize, usize>,
}
/// an expression tree
fn ast(pil: &PIL, v: &Vals, x: &Expression, nx: bool) -> Option<E3> {
    let sub = |i: usize| ast(pil, v, &x.values.as_ref().unwrap()[i], nx);
    let id = x.id.unwrap_or(0);
    let nx2 = nx || x.next();
    if nx && x.next() {
        return None;
    }
    Some(match x.op.as_str() {
        "cm" => *v.cm.get(&(id, nx2))?,
        "const" => *v.k.get(&(id, nx2))?,
        "exp" if v.stand.contains_key(&id) => *v.cm.get(&(v.stand[&id], nx2))?,
        "exp" => ast(pil, v, &pil.expressions[id], nx2)?,
        "number" => e3::of(number(x.value.as_ref().unwrap())),
        "public" => v.pubs[id],
        "challenge" => v.chal[id],
        "x" => v.x,
        "add" => e3::add(sub(0)?, sub(1)?),
        "sub" => e3::sub(sub(0)?, sub(1)?),
        "mul" => e3::mul(sub(0)?, sub(1)?),
        "neg" => e3::sub([0; 3], sub(0)?),
        o => panic!("op {o}"),
    })
}
fn number(t: &str) -> u64 {
    let x: BigInt = t.parse().unwrap();
    let p = BigInt::from(P);
    (((x % &p) + &p) % &p).try_into().unwrap()
}
/// whether an expression stays in the base field
fn short(pil: &PIL, info: &StarkInfo, x: &Expression) -> bool {
    match x.op.as_str() {
        "challenge" => false,
        "cm" => info.var_pol_map[info.cm_n[x.id.unwrap()]].dim == 1,
        "exp" => short(pil, info, &pil.expressions[x.id.unwrap()]),
        _ => x.values.iter().flatten().all(|y| short(pil, info, y)),
    }
}
/// straight-line code
fn run(seg: &Segment, get: &dyn Fn(&Node) -> E3) -> E3 {
    let mut tmp: HashMap<usize, E3> = HashMap::new();
    let mut last = [0; 3];
    for c in &seg.first {
        let v: Vec<E3> = c
            .src
            .iter()
            .map(|r| match r.type_.as_str() {
                "tmp" => tmp[&r.id],
                "number" => e3::of(number(r.value.as_ref().unwrap())),
                _ => get(r),
            })
            .collect();
        last = match c.op.as_str() {
            "add" => e3::add(v[0], v[1]),
            "sub" => e3::sub(v[0], v[1]),
            "mul" => e3::mul(v[0], v[1]),
            "muladd" => e3::add(e3::mul(v[0], v[1]), v[2]),
            "copy" => v[0],
            o => panic!("op {o}"),
        };
        assert_eq!(c.dest.type_, "tmp");
        tmp.insert(c.dest.id, last);
    }
    last
}

// ---- the setup of a program
struct Built {
    info: StarkInfo,
    program: Program,
    pil: PIL,
    st: StarkStruct,
    /// per relation: numbers of its columns
    h1: Vec<usize>,
    h2: Vec<usize>,
    z: Vec<usize>,
    ims: Vec<(usize, usize)>,
}
fn cfg(ext: u64, names: u64, hash: u64, q: u64) -> Value {
    let n = |v: u64| json!({"#bigint": v.to_string()});
    json!({"nbExt": n(ext), "steps": [n(ext)], "q": n(q), "hash": n(hash), "names": n(names)})
}
fn parts(info: &StarkInfo) -> (Vec<usize>, Vec<usize>, Vec<usize>, Vec<(usize, usize)>) {
    let all = info.pu_ctx.iter().chain(&info.pe_ctx).chain(&info.ci_ctx);
    (
        info.pu_ctx.iter().map(|c| c.h1_id).collect(),
        info.pu_ctx.iter().map(|c| c.h2_id).collect(),
        all.map(|c| c.z_id).collect(),
        info.im_exps_list.iter().map(|x| (*x, info.im_exp2cm[x])).collect(),
    )
}
fn build(p: &Value, c: &Value) -> Option<Built> {
    let (s, st, pil) = setup::<MerkleTreeGL>(p, c)?;
    let (h1, h2, z, ims) = parts(&s.starkinfo);
    Some(Built { info: s.starkinfo, program: s.program, pil, st, h1, h2, z, ims })
}
impl Built {
    fn vals(&self, v: &Value, all: bool) -> Vals {
        let mut r = Vals { x: e(&v["x"]), pubs: es(&v["pub"]), ..Default::default() };
        for (k, nx) in [("cm", false), ("cmN", true)] {
            r.cm.extend(es(&v[k]).into_iter().enumerate().map(|(i, x)| ((i, nx), x)));
        }
        for (k, nx) in [("k", false), ("kN", true)] {
            r.k.extend(es(&v[k]).into_iter().enumerate().map(|(i, x)| ((i, nx), x)));
        }
        for (k, nx, ids) in [("h1", false, &self.h1), ("h2", false, &self.h2), ("h1N", true, &self.h1), ("z", false, &self.z), ("zN", true, &self.z)] {
            r.cm.extend(es(&v[k]).into_iter().zip(ids).map(|(x, i)| ((*i, nx), x)));
        }
        for (i, k) in ["u", "d", "g", "b"].iter().enumerate() {
            r.chal[i] = e(&v["chal"][k]);
        }
        if all {
            for nx in [false, true] {
                for (x, id) in &self.ims {
                    if let Some(y) = ast(&self.pil, &r, &self.pil.expressions[*x], nx) {
                        r.cm.insert((*id, nx), y);
                    }
                }
            }
        }
        r
    }
    fn nc(&self) -> usize {
        self.info.cm_n.len()
    }
    fn noise(&self, i: u64) -> u64 {
        scripted(77, i) % P
    }
    /// a prover context of random cells, with the given ones at a row and the next
    fn context(&self, v: &Vals, dom: &str, row: usize) -> StarkContext<F3G> {
        let (nb, ext) = (self.st.nBits, self.st.nBitsExt);
        let n = 1usize << if dom == "n" { nb } else { ext };
        let stride = if dom == "n" { 1 } else { 1 << (ext - nb) };
        let s = &self.info.map_sectionsN;
        let mut c = StarkContext::<F3G> { nbits: nb, nbits_ext: ext, N: 1 << nb, Next: 1 << ext, ..Default::default() };
        let mut k = 0;
        let mut some = |len: usize| -> Vec<F3G> {
            (0..len)
                .map(|_| {
                    k += 1;
                    F3G::from(gl(scripted(78, k) % P))
                })
                .collect()
        };
        let nk = self.info.n_constants;
        if dom == "n" {
            (c.cm1_n, c.cm2_n, c.cm3_n, c.tmpexp_n) = (some(n * s.cm1_n), some(n * s.cm2_n), some(n * s.cm3_n), vec![F3G::ZERO; n * s.tmpexp_n]);
            (c.const_n, c.x_n) = (some(n * nk), some(n));
        } else {
            (c.cm1_2ns, c.cm2_2ns, c.cm3_2ns, c.cm4_2ns) = (some(n * s.cm1_2ns), some(n * s.cm2_2ns), some(n * s.cm3_2ns), some(n * s.cm4_2ns));
            (c.const_2ns, c.x_2ns) = (some(n * nk), some(n));
            c.q_2ns = vec![F3G::ZERO; n * self.info.q_dim];
            c.f_2ns = vec![F3G::ZERO; n * 3];
            c.xDivXSubXi = gls(&(0..3 * n as u64).map(|i| self.noise(i)).collect::<Vec<_>>());
            c.xDivXSubWXi = gls(&(0..3 * n as u64).map(|i| self.noise(i + 1000)).collect::<Vec<_>>());
        }
        let at = |nx: bool| if nx { (row + stride) % n } else { row };
        for ((i, nx), x) in &v.cm {
            self.put(&mut c, *i, at(*nx), *x, dom);
        }
        for ((i, nx), x) in &v.k {
            let cell = at(*nx) * nk + *i;
            let b = if dom == "n" { &mut c.const_n } else { &mut c.const_2ns };
            b[cell] = F3G::from(gl(x[0]));
        }
        let b = if dom == "n" { &mut c.x_n } else { &mut c.x_2ns };
        b[row] = F3G::from(gl(v.x[0]));
        c.publics = v.pubs.iter().map(|x| F3G::from(gl(x[0]))).collect();
        c.challenge = v.chal.iter().map(|x| f3(*x)).collect();
        c.evals = (0..self.info.ev_map.len() as u64).map(|i| f3([self.noise(3 * i), self.noise(3 * i + 1), self.noise(3 * i + 2)])).collect();
        c
    }
    fn put(&self, c: &mut StarkContext<F3G>, id: usize, row: usize, x: E3, dom: &str) {
        let p = &self.info.var_pol_map[if dom == "n" { self.info.cm_n[id] } else { self.info.cm_2ns[id] }];
        let w = self.info.map_sectionsN.get(&p.section);
        let b = c.get_mut(&p.section);
        for d in 0..p.dim {
            b[row * w + p.section_pos + d] = F3G::from(gl(x[d]));
        }
    }
    /// a column of the map at a row
    fn get(&self, c: &mut StarkContext<F3G>, pol: usize, row: usize) -> E3 {
        let p = &self.info.var_pol_map[pol];
        let w = self.info.map_sectionsN.get(&p.section);
        let b = c.get_mut(&p.section);
        three(&(0..p.dim).map(|d| un3(&b[row * w + p.section_pos + d])[0]).collect::<Vec<_>>())
    }
    fn calc(&self, c: &mut StarkContext<F3G>, seg: &Segment, step: &str) {
        calculate_exps_parallel(c, &self.info, seg, "", step)
    }

    // ---- C18
    fn on_trace(&self, pt: &Value) -> R {
        let row = us(&pt["row"]);
        let v = self.vals(&pt["env"], false);
        let mut c = self.context(&v, "n", row);
        let rels = l(&pt["rels"]);
        let ctx: Vec<_> = self.info.pu_ctx.iter().chain(&self.info.pe_ctx).chain(&self.info.ci_ctx).collect();
        if ctx.len() != rels.len() {
            return bad("relations", format!("{} relations in the setup, {} in the program", ctx.len(), rels.len()));
        }
        self.calc(&mut c, &self.program.step2prev, "step2prev");
        for (i, x) in self.info.pu_ctx.iter().enumerate() {
            for (name, id) in [("f", x.f_exp_id), ("t", x.t_exp_id)] {
                let got = self.get(&mut c, self.info.exp2pol[&id], row);
                if got != e(&rels[i][name]) {
                    return bad(&format!("step2_{name}"), format!("the combined {name} column of inclusion {i} at row {row} is {got:?}, not {:?}", e(&rels[i][name])));
                }
            }
        }
        // the merges are put after it
        for ((id, nx), x) in &v.cm {
            if self.h1.contains(id) || self.h2.contains(id) {
                self.put(&mut c, *id, (row + *nx as usize) % (1 << self.st.nBits), *x, "n");
            }
        }
        self.calc(&mut c, &self.program.step3prev, "step3prev");
        for (i, x) in ctx.iter().enumerate() {
            for (name, id) in [("num", x.num_id), ("den", x.den_id)] {
                let got = self.get(&mut c, self.info.exp2pol[&id], row);
                if got != e(&rels[i][name]) {
                    return bad(&format!("step3_{name}"), format!("{name} of relation {i} at row {row} is {got:?}, not {:?}", e(&rels[i][name])));
                }
            }
        }
        // the running products are put after them
        for id in &self.z {
            self.put(&mut c, *id, row, v.cm[&(*id, false)], "n");
            self.put(&mut c, *id, (row + 1) % (1 << self.st.nBits), v.cm[&(*id, true)], "n");
        }
        self.calc(&mut c, &self.program.step3, "step3");
        for (x, id) in &self.ims {
            let want = match l(&pt["exprs"]).get(*x) {
                Some(y) => e(y),
                None => ast(&self.pil, &v, &self.pil.expressions[*x], false).unwrap(),
            };
            let got = self.get(&mut c, self.info.cm_n[*id], row);
            if got != want {
                return bad("step3_im", format!("intermediate column {id} of expression {x} at row {row} is {got:?}, not {want:?}"));
            }
        }
        for (i, x) in self.pil.publics.iter().enumerate() {
            if x.polType == "imP" {
                let got = un3(&StarkProof::<MerkleTreeGL>::calculate_exp_at_point(&mut c, &self.info, &self.program.publics_code[i], row));
                let want = e(l(&pt["exprs"])[x.polId]);
                if got != want {
                    return bad("public", format!("public {i} at row {row} is {got:?}, not {want:?}"));
                }
            }
        }
        Ok(())
    }
    fn terms(&self, pt: &Value) -> usize {
        l(&pt["ids"]).len() + self.ims.len()
    }
    fn identities(&self, pt: &Value, who: &str, at: &dyn Fn(&Vals) -> E3, v: &Vals) -> R {
        let t = self.terms(pt);
        // one more point than terms: the sum may have no more
        let coefs = |v: &Vals| {
            newton(
                &(0..=t as u64)
                    .map(|vc| {
                        let mut v = v.clone();
                        v.chal[4] = e3::of(vc);
                        at(&v)
                    })
                    .collect::<Vec<_>>(),
            )
        };
        let got = coefs(v);
        if got[t] != [0; 3] {
            return bad(&format!("{who}_terms"), format!("the sum of {} identities and {} intermediate columns has more terms", t - self.ims.len(), self.ims.len()));
        }
        let want = counted(es(&pt["ids"]).into_iter().chain(self.ims.iter().map(|_| [0; 3])));
        let have = counted(got[..t].iter().copied());
        if have != want {
            let miss: Vec<_> = es(&pt["ids"]).into_iter().enumerate().filter(|(_, x)| have.get(x) != want.get(x)).map(|(i, _)| i).collect();
            return bad(&format!("{who}_identities"), format!("identities {miss:?} of {} do not have their values; {} intermediate columns", t - self.ims.len(), self.ims.len()));
        }
        for (x, id) in &self.ims {
            let delta = 1 + self.noise(*id as u64 + 500);
            let mut v2 = v.clone();
            let y = v2.cm.get_mut(&(*id, false)).unwrap();
            *y = e3::add(*y, e3::of(delta));
            let moved = coefs(&v2);
            let tied = moved.iter().zip(&got).any(|(a, b)| *b == [0; 3] && (*a == e3::of(delta) || *a == e3::sub([0; 3], e3::of(delta))));
            if !tied {
                return bad(&format!("{who}_im"), format!("intermediate column {id} is not tied to its expression {x}"));
            }
        }
        Ok(())
    }
    fn on_extended(&self, pt: &Value) -> R {
        let row = us(&pt["row"]);
        let v = self.vals(&pt["env"], true);
        // the vanishing polynomial of the trace domain at the row's point
        let x = gf::mul(SHIFT, gf::pow(omega(self.st.nBitsExt), row as u64));
        let zh = e3::of(gf::sub(gf::pow(x, 1 << self.st.nBits), 1));
        let at = |v: &Vals| {
            let mut c = self.context(v, "2ns", row);
            self.calc(&mut c, &self.program.step42ns, "step4");
            let d = self.info.q_dim;
            let q = three(&(0..d).map(|i| un3(&c.q_2ns[row * d + i])[0]).collect::<Vec<_>>());
            e3::mul(q, zh)
        };
        self.identities(pt, "step4", &at, &v)?;
        // the polynomial handed to FRI: the prover's value is the verifier's
        let mut v = v;
        for i in 4..8 {
            v.chal[i] = [self.noise(i as u64 + 600), self.noise(i as u64 + 620), self.noise(i as u64 + 640)];
        }
        let mut c = self.context(&v, "2ns", row);
        // every column at the row, by number
        let cols: Vec<E3> = (0..self.nc()).map(|i| self.get(&mut c, self.info.cm_2ns[i], row)).collect();
        let nk = self.info.n_constants;
        let consts: Vec<E3> = (0..nk).map(|i| un3(&c.const_2ns[row * nk + i])).collect();
        let evals: Vec<E3> = c.evals.iter().map(un3).collect();
        let [d0, d1] = [&c.xDivXSubXi, &c.xDivXSubWXi].map(|b| three(&ungl(&b[3 * row..3 * row + 3])));
        let mut trees: [HashMap<usize, u64>; 4] = Default::default();
        for (i, x) in cols.iter().enumerate() {
            let p = &self.info.var_pol_map[self.info.cm_2ns[i]];
            let t = p.section[2..3].parse::<usize>().unwrap() - 1;
            for d in 0..p.dim {
                trees[t].insert(p.section_pos + d, x[d]);
            }
        }
        let query = |v1: E3, v2: E3| {
            run(&self.program.verifier_query_code, &|r: &Node| match r.type_.as_str() {
                "tree1" | "tree2" | "tree3" | "tree4" => {
                    let t = r.type_[4..].parse::<usize>().unwrap() - 1;
                    three(&(0..r.dim).map(|d| trees[t][&(r.tree_pos + d)]).collect::<Vec<_>>())
                }
                "const" => consts[r.id],
                "eval" => evals[r.id],
                "challenge" => [v.chal[0], v.chal[1], v.chal[2], v.chal[3], v.chal[4], v1, v2, v.chal[7]][r.id],
                "xDivXSubXi" => d0,
                "xDivXSubWXi" => d1,
                "public" => v.pubs[r.id],
                o => panic!("query code refers to {o}"),
            })
        };
        self.calc(&mut c, &self.program.step52ns, "step5");
        let got = three(&(0..3).map(|i| un3(&c.f_2ns[3 * row + i])[0]).collect::<Vec<_>>());
        let want = query(v.chal[5], v.chal[6]);
        if got != want {
            return bad("step5", format!("the prover's FRI polynomial is {got:?} at row {row}, the verifier's {want:?}"));
        }
        // and has every committed column and every evaluation quotient once, each under a power product of its own
        let (n1, n2) = (self.nc() + 3, evals.len() + 1);
        let by2: Vec<Vec<E3>> = (0..n1 as u64).map(|a| newton(&(0..n2 as u64).map(|b| query(e3::of(a), e3::of(b))).collect::<Vec<_>>())).collect();
        let mut have = vec![];
        for j in 0..n2 {
            have.extend(newton(&by2.iter().map(|r| r[j]).collect::<Vec<_>>()));
        }
        let want = counted(cols.iter().copied().chain(self.info.ev_map.iter().enumerate().map(|(i, ev)| {
            let y = if ev.type_ == "const" { consts[ev.id] } else { cols[ev.id] };
            e3::mul(e3::sub(y, evals[i]), if ev.prime { d1 } else { d0 })
        })));
        let have = counted(have.into_iter().filter(|x| *x != [0; 3]));
        let want: BTreeMap<_, _> = want.into_iter().filter(|(x, _)| *x != [0; 3]).collect();
        if have != want {
            let miss = want.iter().filter(|(x, n)| have.get(*x) != Some(*n)).count();
            return bad("query_terms", format!("{miss} of {} terms are missing from the FRI polynomial, {} are there", want.len(), have.len()));
        }
        Ok(())
    }
    fn at_point(&self, pt: &Value) -> R {
        let v = self.vals(&pt["env"], true);
        let qs: HashMap<usize, usize> = self.info.qs.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        let evals = |v: &Vals, q: &[E3]| -> Option<Vec<E3>> {
            self.info
                .ev_map
                .iter()
                .map(|ev| match ev.type_.as_str() {
                    "const" => v.k.get(&(ev.id, ev.prime)).copied(),
                    _ => qs.get(&ev.id).map(|i| q[*i]).or_else(|| v.cm.get(&(ev.id, ev.prime)).copied()),
                })
                .collect()
        };
        let q0: Vec<E3> = (0..qs.len()).map(|i| [self.noise(i as u64 + 700), self.noise(i as u64 + 720), self.noise(i as u64 + 740)]).collect();
        if evals(&v, &q0).is_none() {
            return bad("ev_map", "an evaluation is asked of a column that has no use at that row".into());
        }
        let code = |v: &Vals| {
            let ev = evals(v, &q0).unwrap();
            let zh = |x: E3| e3::sub(e3::pow(x, 1 << self.st.nBits), e3::ONE);
            run(&self.program.verifier_code, &|r: &Node| match r.type_.as_str() {
                "eval" => ev[r.id],
                "challenge" => v.chal[r.id],
                "public" => v.pubs[r.id],
                "x" => v.x,
                "Z" => zh(if r.prime { e3::mul(v.x, e3::of(omega(self.st.nBits))) } else { v.x }),
                o => panic!("verifier code refers to {o}"),
            })
        };
        self.identities(pt, "verifier", &code, &v)?;
        // the verifier goes on to FRI exactly when the evaluations satisfy the quotient equation
        if qs.is_empty() {
            return Ok(());
        }
        let mut v = v;
        for i in 4..7 {
            v.chal[i] = [self.noise(i as u64 + 600), self.noise(i as u64 + 620), self.noise(i as u64 + 640)];
        }
        v.chal[7] = v.x;
        let xn = e3::pow(v.x, 1 << self.st.nBits);
        let want = e3::mul(code(&v), e3::inv(e3::sub(xn, e3::ONE)));
        let mut q = q0.clone();
        let rest = q.iter().enumerate().skip(1).fold([0; 3], |a, (i, y)| e3::add(a, e3::mul(*y, e3::pow(xn, i as u64))));
        q[0] = e3::sub(want, rest);
        for wrong in [false, true] {
            if wrong {
                let i = (self.noise(800) % q.len() as u64) as usize;
                q[i] = e3::add(q[i], e3::of(1));
            }
            let pr = StarkProof::<MerkleTreeGL> {
                evals: evals(&v, &q).unwrap().into_iter().map(f3).collect(),
                publics: v.pubs.iter().map(|x| F3G::from(gl(x[0]))).collect(),
                fri_proof: starky::verif_hooks::fri::FRIProof::new(self.st.steps.len()),
                ..Default::default()
            };
            let c = v.chal;
            let draws = [c[0], c[1], c[2], c[3], c[4], c[7], c[5], c[6]].iter().map(|x| x.to_vec()).collect();
            let root = Default::default();
            let (_, said) = stage(Some(Script { draws, ..Default::default() }), || {
                guard(|| stark_verify::<MerkleTreeGL, Tx<TranscriptGL>>(&pr, &root, &self.info, &self.st, &self.program).is_ok())
            });
            let on = said.iter().filter(|x| **x == Said::Draw).count() > 8;
            if on == wrong {
                return bad("quotient", format!("evaluations that {} the quotient equation {}", if wrong { "miss" } else { "satisfy" }, if on { "pass" } else { "do not pass" }));
            }
        }
        Ok(())
    }

    // ---- C19
    fn layout(&self, p: &Value) -> R {
        let i = &self.info;
        let (nk, nl) = (l(&p["consts"]).len(), l(&p["lookups"]).len());
        let nr = nl + l(&p["perms"]).len() + l(&p["conns"]).len();
        let ncm = l(&p["cms"]).len();
        let say = |k: &str, m: String| bad(&format!("map_{k}"), m);
        let counts = [i.n_cm1, i.n_cm2, i.n_cm3, i.n_cm4];
        if counts != [ncm, 2 * nl, nr + self.ims.len(), i.q_deg] || i.n_constants != nk || i.n_publics != l(&p["publics"]).len() {
            return say("counts", format!("{counts:?} columns, {} constants, {} publics", i.n_constants, i.n_publics));
        }
        let top = counts.iter().sum::<usize>();
        if i.cm_n.len() != top || i.cm_2ns.len() != top || i.qs.len() != i.q_deg {
            return say("columns", format!("{} and {} columns are mapped of {top}", i.cm_n.len(), i.cm_2ns.len()));
        }
        // which column is where
        let mut want: Vec<usize> = vec![1; ncm];
        for x in l(&p["lookups"]) {
            let d = if l(&x["f"]).len() == 1 && big(&x["selT"]) < BigInt::from(0) { 1 } else { 3 };
            want.extend([d, d]);
        }
        want.extend(vec![3; nr]);
        want.extend(i.im_exps_list.iter().map(|x| if short(&self.pil, i, &self.pil.expressions[*x]) { 1 } else { 3 }));
        want.extend(vec![i.q_dim; i.q_deg]);
        let mut special: Vec<usize> = self.h1.iter().zip(&self.h2).flat_map(|(a, b)| [*a, *b]).collect();
        special.extend(&self.z);
        special.extend(self.ims.iter().map(|x| x.1));
        special.extend(&i.qs);
        if special != (ncm..top).collect::<Vec<_>>() {
            // the order may be another, the numbers may not
            let mut t = special.clone();
            t.sort();
            if t != (ncm..top).collect::<Vec<_>>() {
                return say("numbers", format!("the helper columns have numbers {special:?}"));
            }
        }
        let ends = [ncm, ncm + 2 * nl, ncm + 2 * nl + nr + self.ims.len(), top];
        for c in 0..top {
            let s = ends.iter().position(|e| c < *e).unwrap() + 1;
            let (a, b) = (&i.var_pol_map[i.cm_n[c]], &i.var_pol_map[i.cm_2ns[c]]);
            if a.section != format!("cm{s}_n") || b.section != format!("cm{s}_2ns") || a.section_pos != b.section_pos || a.dim != b.dim {
                return say("domains", format!("column {c} is at {a:?} and {b:?}"));
            }
            if a.dim != want[c] {
                return say("dims", format!("column {c} has dimension {}, its values {}", a.dim, want[c]));
            }
        }
        for (n, list) in [("tmpexp_n", &i.tmpexp_n), ("q_2ns", &i.q_2ns), ("f_2ns", &i.f_2ns)] {
            if list.iter().any(|x| i.var_pol_map[*x].section != n) {
                return say("sections", format!("a column of {n} is in another section"));
            }
        }
        let m = &i.map_sections;
        let names = ["cm1_n", "cm2_n", "cm3_n", "cm4_n", "tmpexp_n", "cm1_2ns", "cm2_2ns", "cm3_2ns", "cm4_2ns", "q_2ns", "f_2ns"];
        let lists = [&m.cm1_n, &m.cm2_n, &m.cm3_n, &m.cm4_n, &m.tmpexp_n, &m.cm1_2ns, &m.cm2_2ns, &m.cm3_2ns, &m.cm4_2ns];
        let mut offset = 0;
        for (k, n) in names.iter().enumerate() {
            let ps: Vec<_> = i.var_pol_map.iter().filter(|x| x.section == *n).collect();
            let mut cells: Vec<usize> = ps.iter().flat_map(|x| x.section_pos..x.section_pos + x.dim).collect();
            cells.sort();
            let width = i.map_sectionsN.get(n);
            if cells != (0..width).collect::<Vec<_>>() {
                return say("overlap", format!("section {n} of width {width} has columns at {cells:?}"));
            }
            if let Some(x) = lists.get(k) {
                let mut a: Vec<usize> = x.to_vec();
                a.sort();
                let b: Vec<usize> = (0..i.var_pol_map.len()).filter(|j| i.var_pol_map[*j].section == *n).collect();
                if a != b {
                    return say("lists", format!("section {n} lists {a:?} of {b:?}"));
                }
            }
            let one = ps.iter().filter(|x| x.dim == 1).count();
            if i.map_sectionsN1.get(n) != one || i.map_sectionsN3.get(n) != ps.len() - one {
                return say("widths", format!("section {n} has {one} narrow columns of {}", ps.len()));
            }
            let deg = 1 << if n.ends_with("2ns") { self.st.nBitsExt } else { self.st.nBits };
            if i.map_deg.get(n) != deg || i.map_offsets.get(n) != offset {
                return say("offsets", format!("section {n} of {} rows is at {}, not {offset}", i.map_deg.get(n), i.map_offsets.get(n)));
            }
            offset += deg * width;
        }
        if i.map_total_n != offset {
            return say("total", format!("{} cells in all, not {offset}", i.map_total_n));
        }
        for x in i.pu_ctx.iter().flat_map(|c| [c.f_exp_id, c.t_exp_id]).chain(i.pu_ctx.iter().chain(&i.pe_ctx).chain(&i.ci_ctx).flat_map(|c| [c.num_id, c.den_id])) {
            let Some(y) = i.exp2pol.get(&x).map(|y| &i.var_pol_map[*y]) else { return say("exp2pol", format!("expression {x} has no column")) };
            if y.section != "tmpexp_n" && y.section != "cm3_n" {
                return say("exp2pol", format!("expression {x} is in {}", y.section));
            }
            if y.dim == 1 && !short(&self.pil, i, &self.pil.expressions[x]) {
                return say("exp2pol", format!("expression {x} does not fit its column"));
            }
        }
        // evaluations
        for (k, ev) in i.ev_map.iter().enumerate() {
            if i.ev_idx.get(&ev.type_, ev.prime as usize, ev.id) != Some(&k) {
                return say("evals", format!("evaluation {k}, {} {} is not found again", ev.type_, ev.id));
            }
            if ev.id >= (if ev.type_ == "const" { nk } else { top }) {
                return say("evals", format!("evaluation {k} is of no column"));
            }
        }
        if i.ev_idx.cm.len() + i.ev_idx.const_.len() != i.ev_map.len() || i.qs.iter().any(|q| i.ev_idx.get("cm", 0, *q).is_none()) {
            return say("evals", "the evaluation index and map differ".into());
        }
        Ok(())
    }
    fn text(&self) -> Value {
        fn sorted(v: &mut Value) {
            match v {
                Value::Array(l) => l.iter_mut().for_each(sorted),
                Value::Object(m) => m.values_mut().for_each(sorted),
                _ => {}
            }
        }
        let mut a = serde_json::to_value(&self.info).unwrap();
        for k in ["cm", "const_"] {
            if let Some(l) = a["ev_idx"][k].as_array_mut() {
                l.sort_by_key(|x| x.to_string());
            }
        }
        sorted(&mut a);
        json!([a, serde_json::to_value(&self.program).unwrap()])
    }
}
const SHIFT: u64 = 49;

pub struct Code;
impl Module for Code {
    fn step(&mut self, st: &Value) -> R {
        let ev = &st["last"];
        if s(&ev["op"]) != "code" {
            return Ok(());
        }
        let c = cfg(u(&ev["nbExt"]), u(&ev["names"]), 0, 1);
        let Some(x) = build(&st["w"]["p"], &c) else { return bad("setup", "setup refuses a program".into()) };
        for pt in l(&ev["points"]) {
            let r = guard(|| match s(&pt["dom"]) {
                "n" => x.on_trace(pt),
                "2ns" => x.on_extended(pt),
                _ => x.at_point(pt),
            });
            match r {
                Some(r) => r?,
                None => return bad(&format!("code_{}", s(&pt["dom"])), "running the compiled code fails".into()),
            }
        }
        Ok(())
    }
}
pub struct Map;
impl Module for Map {
    fn step(&mut self, st: &Value) -> R {
        let ev = &st["last"];
        if s(&ev["op"]) != "code" {
            return Ok(());
        }
        let p = &st["w"]["p"];
        let c = cfg(u(&ev["nbExt"]), u(&ev["names"]), 0, 1);
        let Some(x) = build(p, &c) else { return bad("setup", "setup refuses a program".into()) };
        match guard(|| x.layout(p)) {
            Some(r) => r?,
            None => return bad("map_index", "the column map has an index out of range".into()),
        }
        // built again, and again from the same description read anew
        for _ in 0..3 {
            let y = build(p, &c).unwrap();
            if x.text() != y.text() {
                let (a, b) = (x.text(), y.text());
                let at = a[0].as_object().unwrap().keys().find(|k| a[0][*k] != b[0][*k]).cloned().unwrap_or("the program".into());
                return bad("map_again", format!("built twice, the setup differs in {at}"));
            }
        }
        Ok(())
    }
}

// ---- C20
pub struct Cols;
/// coefficients of a column given on the whole shifted extended domain
fn interpolated(v: &[u64]) -> Vec<u64> {
    let n = v.len();
    let w = gf::inv(omega(n.trailing_zeros() as usize));
    let (k, s) = (gf::inv(n as u64), gf::inv(SHIFT));
    (0..n as u64)
        .map(|j| {
            let sum = v.iter().enumerate().fold(0, |a, (i, x)| gf::add(a, gf::mul(*x, gf::pow(w, i as u64 * j))));
            gf::mul(gf::mul(sum, k), gf::pow(s, j))
        })
        .collect()
}
fn horner(c: &[E3], x: E3) -> E3 {
    c.iter().rev().fold([0; 3], |a, y| e3::add(e3::mul(a, x), *y))
}
impl Cols {
    fn direct(&self, ev: &Value) -> R {
        for (i, r) in l(&ev["rels"]).into_iter().enumerate() {
            let holds = b(&r["holds"]);
            if s(&r["kind"]) == "lookup" {
                let narrow = b(&r["short"]);
                let [f, t] = [es(&r["f"]), es(&r["t"])];
                let go = |v: &[E3]| v.iter().map(|x| f3s(*x, narrow)).collect::<Vec<_>>();
                let got = guard(|| starky::stark_gen::verif_hooks::h1h2(go(&f), go(&t)));
                match got {
                    None if holds => return bad("merge_refused", format!("the merge of inclusion {i} is refused")),
                    None => {}
                    Some(_) if !holds => return bad("merge_made", format!("relation {i} has a value outside the table, the merge is made")),
                    Some((a, b)) => merge(&f, &t, &a.iter().map(un3).collect::<Vec<_>>(), &b.iter().map(un3).collect::<Vec<_>>(), &es(&r["h1"]), &es(&r["h2"]), i)?,
                }
            }
            let [num, den] = [es(&r["num"]), es(&r["den"])];
            let got = guard(|| starky::stark_gen::verif_hooks::grand_product(num.iter().map(|x| f3(*x)).collect(), den.iter().map(|x| f3(*x)).collect()));
            match got {
                None if holds => return bad("product_refused", format!("the running product of relation {i} is refused")),
                None => {}
                Some(z) => {
                    let z: Vec<E3> = z.iter().map(un3).collect();
                    let closes = product(&z, &num, &den, i)?;
                    if closes != holds {
                        return bad("product_closes", format!("relation {i}: holds {holds}, the product closes {closes}"));
                    }
                }
            }
        }
        Ok(())
    }
    fn proved<H: MerkleTree<ExtendField = F3G> + Default, T: Transcript>(&self, st: &Value) -> R {
        let (ev, p) = (&st["last"], &st["w"]["p"]);
        let (nb, ext) = (us(&p["nb"]), us(&ev["nbExt"]));
        let c = cfg(ext as u64, u(&ev["names"]), u(&ev["hash"]), 1 << ext);
        let mut draws: Vec<Vec<u64>> = ["u", "d", "g", "b"].iter().map(|k| lu(&ev["chal"][k])).collect();
        draws.extend((0..4u64).map(|i| (0..3).map(|j| scripted(900 + i, j) % P).collect()));
        let (x, _) = stage(Some(Script { seed: 5, draws: draws.clone(), all: true }), || prove::<H, Tx<T>>(p, &c));
        let Some(x) = x else { return bad("setup", "setup refuses a program".into()) };
        let Some(pr) = &x.proof else { return bad("prove", "the prover refuses a satisfying trace".into()) };
        self.columns(st, &x, pr, &draws, nb, ext)
    }
    fn columns<H: MerkleTree<ExtendField = F3G> + Default>(&self, st: &Value, x: &Proved<H>, pr: &StarkProof<H>, draws: &[Vec<u64>], nb: usize, ext: usize) -> R {
        let (ev, p) = (&st["last"], &st["w"]["p"]);
        let (n, len) = (1usize << nb, 1usize << ext);
        let info = &x.setup.starkinfo;
        let (h1, h2, z, ims) = parts(info);
        // every column of every tree, from its openings at every position
        let rows: Vec<Vec<Vec<u64>>> = (0..5).map(|t| (0..len).map(|i| ungl(&pr.fri_proof.queries[0].pol_queries[i][t].0)).collect()).collect();
        let column = |t: usize, pos: usize, dim: usize| -> Vec<E3> {
            let c: Vec<Vec<u64>> = (0..dim).map(|d| interpolated(&rows[t].iter().map(|r| r[pos + d]).collect::<Vec<_>>())).collect();
            (0..len).map(|i| three(&c.iter().map(|c| c[i]).collect::<Vec<_>>())).collect()
        };
        let coefs: Vec<Vec<E3>> = info
            .cm_2ns
            .iter()
            .map(|m| {
                let m = &info.var_pol_map[*m];
                column(m.section[2..3].parse::<usize>().unwrap() - 1, m.section_pos, m.dim)
            })
            .collect();
        let consts: Vec<Vec<E3>> = (0..info.n_constants).map(|i| column(4, i, 1)).collect();
        for (i, c) in coefs.iter().chain(&consts).enumerate() {
            if c[n..].iter().any(|y| *y != [0; 3]) {
                return bad("degree", format!("column {i} of {} is not a polynomial of the trace's degree", coefs.len()));
            }
        }
        let w = omega(nb);
        let on_trace = |c: &[E3]| -> Vec<E3> { (0..n as u64).map(|i| horner(&c[..n], e3::of(gf::pow(w, i)))).collect() };
        let cols: Vec<Vec<E3>> = coefs.iter().map(|c| on_trace(c)).collect();
        for (name, have, want) in [("cms", &cols, l(&p["cms"])), ("consts", &consts.iter().map(|c| on_trace(c)).collect(), l(&p["consts"]))] {
            for (i, y) in want.iter().enumerate() {
                if have[i] != lu(y).iter().map(|v| e3::of(*v)).collect::<Vec<_>>() {
                    return bad(&format!("column_{name}"), format!("column {i} of {name} is committed as {:?}", have[i]));
                }
            }
        }
        for (i, r) in l(&ev["rels"]).into_iter().enumerate() {
            let mut same = true;
            if s(&r["kind"]) == "lookup" {
                let (a, b) = (&cols[h1[i]], &cols[h2[i]]);
                same = merge(&es(&r["f"]), &es(&r["t"]), a, b, &es(&r["h1"]), &es(&r["h2"]), i).map(|_| *a == es(&r["h1"]) && *b == es(&r["h2"]))?;
            }
            if same && !product(&cols[z[i]], &es(&r["num"]), &es(&r["den"]), i)? {
                return bad("column_open", format!("the running product of relation {i} does not close"));
            }
        }
        // values at a point of the trace domain or outside
        let vals = |here: E3| {
            let next = e3::mul(here, e3::of(w));
            let mut v = Vals { x: here, pubs: lu(&st["w"]["pubs"]).iter().map(|y| e3::of(*y)).collect(), ..Default::default() };
            for (nx, at) in [(false, here), (true, next)] {
                v.cm.extend(coefs.iter().enumerate().map(|(i, c)| ((i, nx), horner(c, at))));
                v.k.extend(consts.iter().enumerate().map(|(i, c)| ((i, nx), horner(c, at))));
            }
            for (i, d) in draws[..5].iter().enumerate() {
                v.chal[i] = three(d);
            }
            v
        };
        let (_, _, pil) = setup::<MerkleTreeGL>(p, &cfg(ext as u64, u(&ev["names"]), 0, 1)).unwrap();
        for i in 0..n {
            let v = vals(e3::of(gf::pow(w, i as u64)));
            for (e, id) in &ims {
                if ast(&pil, &v, &pil.expressions[*e], false) != Some(cols[*id][i]) {
                    return bad("column_im", format!("intermediate column {id} is not expression {e} at row {i}"));
                }
            }
        }
        // the quotient, at a point of no domain
        let xi = three(&draws[5]);
        let mut v = vals(xi);
        for (i, m) in info.ev_map.iter().enumerate() {
            let want = if m.type_ == "const" { v.k[&(m.id, m.prime)] } else { v.cm[&(m.id, m.prime)] };
            if un3(&pr.evals[i]) != want {
                return bad("eval", format!("evaluation {i} is {:?}, {} {} at the point is {want:?}", un3(&pr.evals[i]), m.type_, m.id));
            }
        }
        v.stand = ims.iter().copied().collect();
        let xn = e3::pow(xi, n as u64);
        let q = info.qs.iter().enumerate().fold([0; 3], |a, (i, c)| e3::add(a, e3::mul(v.cm[&(*c, false)], e3::pow(xn, i as u64))));
        if ast(&pil, &v, &pil.expressions[info.c_exp], false) != Some(e3::mul(q, e3::sub(xn, e3::ONE))) {
            return bad("column_q", "the quotient columns are not the quotient of the identities".into());
        }
        Ok(())
    }
}
/// the two halves are the specification's, or another merge that contains each table row and each value beside its like
fn merge(f: &[E3], t: &[E3], a: &[E3], b: &[E3], h1: &[E3], h2: &[E3], i: usize) -> R {
    if a == h1 && b == h2 {
        return Ok(());
    }
    let pairs = |s: &[E3]| -> Vec<(E3, E3)> { (0..s.len()).map(|i| (s[i], s[(i + 1) % s.len()])).collect() };
    let s: Vec<E3> = a.iter().zip(b).flat_map(|(x, y)| [*x, *y]).collect();
    let mut have = pairs(&s);
    let mut want = pairs(t);
    want.extend(f.iter().map(|x| (*x, *x)));
    have.sort();
    want.sort();
    if s[0] != t[0] || have != want {
        return bad("merge", format!("inclusion {i}: the merge is {a:?} {b:?}"));
    }
    Ok(())
}
/// starts at one and advances by the quotient; whether it closes
fn product(z: &[E3], num: &[E3], den: &[E3], i: usize) -> Result<bool, crate::Bad> {
    if z[0] != e3::ONE {
        return bad("product_start", format!("the running product of relation {i} starts at {:?}", z[0]));
    }
    for j in 0..z.len() {
        let ok = e3::mul(z[(j + 1) % z.len()], den[j]) == e3::mul(z[j], num[j]);
        if j + 1 == z.len() {
            return Ok(ok);
        }
        if !ok {
            return bad("product_step", format!("the running product of relation {i} goes from {:?} to {:?} at row {j}", z[j], z[j + 1]));
        }
    }
    Ok(true)
}
impl Module for Cols {
    fn step(&mut self, st: &Value) -> R {
        let ev = &st["last"];
        if s(&ev["op"]) != "columns" {
            return Ok(());
        }
        self.direct(ev)?;
        if !b(&ev["sat"]) {
            return Ok(());
        }
        match us(&ev["hash"]) {
            0 => self.proved::<MerkleTreeGL, TranscriptGL>(st),
            1 => self.proved::<MerkleTreeBN128, TranscriptBN128>(st),
            _ => self.proved::<MerkleTreeBLS12381, TranscriptBLS128>(st),
        }
    }
}
