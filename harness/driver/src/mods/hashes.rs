//! spec/{linear_hash,merkle,transcript}.qnt: the permutation-call terms evaluated with the real
//! permutation, compared with the real hash structures.
use super::poseidon::{fr, un};
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use fields::field_gl::Fr as FGL;
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive};
use serde_json::Value;
use starky::f3g::F3G;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree, Transcript};
use starky::verif_hooks::digest::ElementDigest;
use std::fmt::Debug;

type Big<F> = ElementDigest<4, F>;

/// a hash family: the permutation, linear hash, tree and transcript over it
pub trait Fam: 'static {
    type F: Clone + Copy + PartialEq + Debug;
    type M: MerkleTree<BaseField = Self::F>;
    type T: Transcript;
    const BIG: bool;
    fn lit(x: &BigInt) -> Self::F;
    fn int(x: &Self::F) -> BigInt;
    /// every output of one permutation call
    fn perm(x: &[Self::F], cap: &[Self::F]) -> Vec<Self::F>;
    fn nodes(t: &Self::M) -> &Vec<<Self::M as MerkleTree>::MTNode>;
    fn dims(t: &Self::M) -> (usize, usize, &Vec<FGL>);
    fn digest(d: &<Self::M as MerkleTree>::MTNode) -> Vec<Self::F>;
    fn to_digest(v: &[Self::F]) -> <Self::M as MerkleTree>::MTNode;
    fn hash(op: &str, xs: &[FGL], cols: usize, bs: usize, raw: &[BigInt]) -> Option<Vec<Self::F>>;
    fn same(a: &Self::M, b: &Self::M) -> bool;
    fn json(t: &Self::M) -> Option<Self::M>;
}

pub struct Dag<H: Fam> {
    outs: Vec<Vec<H::F>>,
}
impl<H: Fam> Default for Dag<H> {
    fn default() -> Self {
        Dag { outs: vec![] }
    }
}
impl<H: Fam> Dag<H> {
    pub fn val(&self, t: &BigInt) -> H::F {
        if t.is_negative() {
            let k = (-t - 1i32).to_usize().unwrap();
            self.outs[k / 32][k % 32]
        } else {
            H::lit(t)
        }
    }
    pub fn vals(&self, v: &Value) -> Vec<H::F> {
        l(v).into_iter().map(|x| self.val(&big(x))).collect()
    }
    pub fn add(&mut self, calls: &Value) {
        for c in l(calls) {
            let (x, cap) = (self.vals(&c["x"]), self.vals(&c["cap"]));
            self.outs.push(H::perm(&x, &cap));
        }
    }
}

fn chunked(xs: &[FGL], cols: usize) -> Vec<Vec<FGL>> {
    if xs.is_empty() {
        vec![]
    } else {
        xs.chunks(cols).map(|c| c.to_vec()).collect()
    }
}

pub struct Gl;
impl Fam for Gl {
    type F = FGL;
    type M = starky::merklehash::MerkleTreeGL;
    type T = starky::transcript::TranscriptGL;
    const BIG: bool = false;
    fn lit(x: &BigInt) -> FGL {
        gl(x.to_u64().unwrap())
    }
    fn int(x: &FGL) -> BigInt {
        x.as_int().into()
    }
    fn perm(x: &[FGL], cap: &[FGL]) -> Vec<FGL> {
        starky::poseidon_opt::Poseidon::new().hash(x, cap, 12).unwrap()
    }
    fn nodes(t: &Self::M) -> &Vec<Big<FGL>> {
        &t.nodes
    }
    fn dims(t: &Self::M) -> (usize, usize, &Vec<FGL>) {
        (t.width, t.height, &t.elements)
    }
    fn digest(d: &Big<FGL>) -> Vec<FGL> {
        d.as_elements().to_vec()
    }
    fn to_digest(v: &[FGL]) -> Big<FGL> {
        Big::new(v)
    }
    fn hash(op: &str, xs: &[FGL], cols: usize, bs: usize, _: &[BigInt]) -> Option<Vec<FGL>> {
        thread_local!(static H: starky::linearhash::LinearHash = starky::linearhash::LinearHash::new());
        #[cfg(target_feature = "avx512f")]
        {
            // two lists of one length at a time: this one and its mirror image, in both orders
            let ys: Vec<FGL> = xs.iter().rev().copied().collect();
            let two = |p: &[FGL], q: &[FGL]| -> Option<[Vec<FGL>; 2]> {
                let v = [p, q].concat();
                guard(|| {
                    H.with(|h| match op {
                        "sponge" => h._hash(&v).map(|d| [d[..4].to_vec(), d[4..].to_vec()]),
                        _ => h.hash(&v, if op == "node" { 0 } else { bs }).map(|d| d.map(|d| d.as_elements().to_vec())),
                    })
                })?
                .ok()
            };
            if op == "matrix" {
                return guard(|| H.with(|h| h.hash_element_matrix(&chunked(xs, cols), bs)))?.ok().map(|d| d.as_elements().to_vec());
            }
            let (a, b) = (two(xs, &ys)?, two(&ys, xs)?);
            return (a[0] == b[1] && a[1] == b[0]).then(|| a[0].clone());
        }
        #[cfg(not(target_feature = "avx512f"))]
        guard(|| {
            H.with(|h| match op {
                "hash" => h.hash(xs, bs),
                "sponge" => h._hash(xs),
                "node" => h.hash(xs, 0),
                _ => h.hash_element_matrix(&chunked(xs, cols), bs),
            })
        })?
        .ok()
        .map(|d| d.as_elements().to_vec())
    }
    fn same(a: &Self::M, b: &Self::M) -> bool {
        a == b
    }
    fn json(t: &Self::M) -> Option<Self::M> {
        guard(|| serde_json::from_str(&serde_json::to_string(t).unwrap()).unwrap())
    }
}

macro_rules! big_fam {
    ($name:ident, $fr:path, $pos:path, $lh:path, $mt:path, $tr:path) => {
        pub struct $name;
        const _: () = {
            use $fr as Fr;
            impl Fam for $name {
                type F = Fr;
                type M = $mt;
                type T = $tr;
                const BIG: bool = true;
                fn lit(x: &BigInt) -> Fr {
                    fr(x)
                }
                fn int(x: &Fr) -> BigInt {
                    un(x)
                }
                fn perm(x: &[Fr], cap: &[Fr]) -> Vec<Fr> {
                    <$pos>::new().hash_ex(x, &cap[0], x.len() + 1).unwrap()
                }
                fn nodes(t: &Self::M) -> &Vec<Big<Fr>> {
                    &t.nodes
                }
                fn dims(t: &Self::M) -> (usize, usize, &Vec<FGL>) {
                    (t.width, t.height, &t.elements)
                }
                fn digest(d: &Big<Fr>) -> Vec<Fr> {
                    vec![Fr(d.as_scalar::<Fr>())]
                }
                fn to_digest(v: &[Fr]) -> Big<Fr> {
                    Big::from_scalar(&v[0])
                }
                fn hash(op: &str, xs: &[FGL], cols: usize, _: usize, raw: &[BigInt]) -> Option<Vec<Fr>> {
                    thread_local!(static H: $lh = <$lh>::new());
                    guard(|| {
                        H.with(|h| match op {
                            "row" => h.hash_element_array(xs).map(|d| Self::digest(&d)),
                            "node" => h
                                .hash_node(&raw.iter().map(|x| Big::from_scalar(&fr::<Fr>(x))).collect::<Vec<_>>(), &fr::<Fr>(&0.into()))
                                .map(|d| Self::digest(&d)),
                            _ => h.hash_element_matrix(&chunked(xs, cols)).map(|x| vec![x]),
                        })
                    })?
                    .ok()
                }
                fn same(a: &Self::M, b: &Self::M) -> bool {
                    a == b
                }
                fn json(t: &Self::M) -> Option<Self::M> {
                    guard(|| serde_json::from_str(&serde_json::to_string(t).unwrap()).unwrap())
                }
            }
        };
    };
}
big_fam!(
    Bn128, starky::field_bn128::Fr, starky::poseidon_bn128_opt::Poseidon, starky::linearhash_bn128::LinearHashBN128,
    starky::merklehash_bn128::MerkleTreeBN128, starky::transcript_bn128::TranscriptBN128
);
big_fam!(
    Bls, starky::verif_hooks::field_bls12381::Fr, starky::poseidon_bls12381_opt::Poseidon,
    starky::linearhash_bls12381::LinearHashBLS12381, starky::merklehash_bls12381::MerkleTreeBLS12381,
    starky::transcript_bls12381::TranscriptBLS128
);

pub struct Lh<H>(std::marker::PhantomData<H>);
impl<H> Default for Lh<H> {
    fn default() -> Self {
        Lh(std::marker::PhantomData)
    }
}
impl<H: Fam> Module for Lh<H> {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let raw = lbig(&e["xs"]);
        let op = s(&e["op"]);
        let xs = if op == "node" && H::BIG { vec![] } else { gls(&lu(&e["xs"])) };
        let mut d = Dag::<H>::default();
        d.add(&e["calls"]);
        let want = d.vals(&e["out"]);
        let got = H::hash(op, &xs, us(&e["cols"]), us(&e["bs"]), &raw);
        if got.as_ref() != Some(&want) {
            return bad(op, format!("{op} of {} values (batch {}, {} columns) gives {got:?}, specified {want:?}", raw.len(), show(&e["bs"]), show(&e["cols"])));
        }
        if !xs.is_empty() && H::hash(op, &xs, us(&e["cols"]), us(&e["bs"]), &raw) != got {
            return bad("again", format!("{op} of the same values a second time gives another digest"));
        }
        Ok(())
    }
}

pub struct Tr<H: Fam> {
    d: Dag<H>,
    t: H::T,
}
impl<H: Fam> Default for Tr<H> {
    fn default() -> Self {
        Tr { d: Dag::default(), t: H::T::new() }
    }
}
impl<H: Fam> Module for Tr<H> {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        self.d.add(&e["calls"]);
        let words: Vec<BigInt> = l(&e["out"])
            .into_iter()
            .map(|o| {
                let w = H::int(&self.d.val(&big(&o["r"])));
                match us(&o["m"]) {
                    3 => w,
                    m => ((w >> (64 * m)) & BigInt::from(u64::MAX)) % BigInt::from(P),
                }
            })
            .collect();
        let f = |x: FGL| BigInt::from(x.as_int());
        let op = s(&e["op"]);
        match op {
            "put" => {
                let items: Vec<Vec<FGL>> = l(&e["items"])
                    .into_iter()
                    .map(|i| {
                        let x = lbig(i);
                        if H::BIG && x.len() == 2 {
                            H::to_digest(&[H::lit(&x[0])]).as_elements().to_vec()
                        } else {
                            gls(&lu(i))
                        }
                    })
                    .collect();
                if let Err(e) = self.t.put(&items) {
                    return bad("put", format!("put of {} items refused: {e}", items.len()));
                }
            }
            "field" => {
                let g: F3G = self.t.get_field();
                let g: Vec<BigInt> = g.as_elements().into_iter().map(f).collect();
                if g != words {
                    return bad("field", format!("challenge {g:?}, specified {words:?}"));
                }
            }
            "single" => {
                let g = self.t.get_fields1().map(f).map_err(|e| e.to_string());
                if g.as_ref() != Ok(&words[0]) {
                    return bad("single", format!("base challenge {g:?}, specified {}", words[0]));
                }
            }
            "queries" => {
                let (n, bits) = (us(&e["n"]), us(&e["bits"]));
                let want: Vec<u64> = l(&e["pos"])
                    .into_iter()
                    .map(|p| {
                        lu(p).iter().enumerate().fold(0u64, |a, (j, x)| {
                            a | (((&words[(*x / 512) as usize] >> (*x % 512)) & BigInt::from(1)).to_u64().unwrap() << j)
                        })
                    })
                    .collect();
                let g = self.t.get_permutations(n, bits).map(|v| v.into_iter().map(|x| x as u64).collect::<Vec<_>>()).map_err(|e| e.to_string());
                if g.as_ref() != Ok(&want) {
                    return bad("queries", format!("{n} positions of {bits} bits: {g:?}, specified {want:?}"));
                }
            }
            o => panic!("op {o}"),
        }
        Ok(())
    }
}

pub struct Mt<H: Fam> {
    d: Dag<H>,
    t: H::M,
}
impl<H: Fam> Default for Mt<H> {
    fn default() -> Self {
        Mt { d: Dag::default(), t: H::M::new() }
    }
}
impl<H: Fam> Mt<H>
where
    H::M: Send,
{
    fn node(&self, v: &Value) -> Vec<H::F> {
        let t = lbig(v);
        if t.len() == 1 && !H::BIG {
            return (0..4).map(|j| self.d.val(&(&t[0] - j))).collect();
        }
        t.iter().map(|x| self.d.val(x)).collect()
    }
    fn path(&self, d: &Dag<H>, v: &Value) -> Vec<Vec<H::F>> {
        l(v).into_iter().map(|x| d.vals(x)).collect()
    }
}
impl<H: Fam> Module for Mt<H>
where
    H::M: Send + Sync,
    <H::M as MerkleTree>::MTNode: Send + Sync,
{
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        match s(&e["op"]) {
            "build" => {
                self.d = Dag::default();
                self.d.add(&e["calls"]);
                let (h, w) = (us(&e["h"]), us(&e["w"]));
                let pats = llu(&e["pats"]);
                let buf: Vec<FGL> = lu(&e["rowOf"]).into_iter().flat_map(|p| gls(&pats[p as usize])).collect();
                let pool = rayon::ThreadPoolBuilder::new().num_threads(us(&e["workers"])).build().unwrap();
                let (b, t) = (buf.clone(), &mut self.t);
                let r = guard(|| {
                    pool.install(|| {
                        // the same object is built again and again: nothing of the last tree may remain
                        t.merkelize(b, w, h)
                    })
                });
                if !matches!(r, Some(Ok(()))) {
                    return bad("build", format!("{h} rows of {w}: {r:?}"));
                }
                let want: Vec<Vec<H::F>> = l(&e["nodes"]).into_iter().map(|n| self.node(n)).collect();
                let got: Vec<Vec<H::F>> = H::nodes(&self.t).iter().map(H::digest).collect();
                if got.len() != want.len() {
                    return bad("layout", format!("{h} rows of {w}: {} nodes, specified {}", got.len(), want.len()));
                }
                if let Some(i) = (0..got.len()).find(|i| got[*i] != want[*i]) {
                    return bad("nodes", format!("{h} rows of {w}: node {i} of {} is {:?}, specified {:?}", got.len(), got[i], want[i]));
                }
                let root = self.d.vals(&e["root"]);
                if H::digest(&self.t.root()) != root {
                    return bad("root", format!("root {:?}", self.t.root()));
                }
                if H::M::to_basefield(&self.t.root())[0] != root[0] || (H::BIG && H::digest(&H::M::from_basefield(&root[0])) != root) {
                    return bad("basefield", "the root's base field form differs".into());
                }
                if H::dims(&self.t) != (w, h, &buf) || self.t.element_size() != buf.len() {
                    return bad("dims", format!("{h} rows of {w} are kept as {} of {}", H::dims(&self.t).1, H::dims(&self.t).0));
                }
                for (i, x) in buf.iter().enumerate().step_by(1 + buf.len() / 300) {
                    if self.t.get_element(i / w, i % w) != *x {
                        return bad("element", format!("element ({}, {}) of {h}x{w}", i / w, i % w));
                    }
                }
                let mut ext: Vec<<H::M as MerkleTree>::ExtendField> = vec![Default::default(); buf.len()];
                self.t.to_extend(&mut ext);
                if ext.iter().zip(&buf).any(|(a, b)| !a._eq(&<H::M as MerkleTree>::ExtendField::from(*b))) {
                    return bad("extend", "to_extend changes an element".into());
                }
                // saved and loaded
                if h * w < 3000 {
                    match H::json(&self.t) {
                        Some(t) if H::same(&t, &self.t) => self.t = t,
                        Some(_) => return bad("json", "the tree read back from JSON differs".into()),
                        None => return bad("json", "the tree cannot be written to JSON and read back".into()),
                    }
                }
            }
            "open" => {
                let i = us(&e["i"]);
                let r = guard(|| self.t.get_group_proof(i)).and_then(|r| r.ok());
                if !b(&e["ok"]) {
                    if r.is_some() {
                        return bad("open_range", format!("opening of row {i} beyond the tree is given"));
                    }
                    return Ok(());
                }
                let want = (gls(&lu(&e["row"])), self.path(&self.d, &e["path"]));
                if r.as_ref() != Some(&want) {
                    return bad("open", format!("opening of row {i}: {r:?}, specified {want:?}"));
                }
                let root = H::to_digest(&self.d.vals(&e["root"]));
                if !matches!(guard(|| self.t.verify_group_proof(&root, &want.1, i, &want.0)), Some(Ok(true))) {
                    return bad("verify", format!("the opening of row {i} does not verify"));
                }
            }
            "check" => {
                let n = self.d.outs.len();
                self.d.add(&e["calls"]);
                let (row, path, root) = (gls(&lu(&e["row"])), self.path(&self.d, &e["path"]), H::to_digest(&self.d.vals(&e["root"])));
                self.d.outs.truncate(n);
                // the verifier has no tree of its own
                let r = guard(|| H::M::new().verify_group_proof(&root, &path, us(&e["i"]), &row)).and_then(|r| r.ok()).unwrap_or(false);
                if r != b(&e["ok"]) {
                    return bad(&format!("check{}", us(&e["kind"])), format!("opening of row {} (alteration {}) verifies: {r}", us(&e["i"]), us(&e["kind"])));
                }
            }
            o => panic!("op {o}"),
        }
        Ok(())
    }
}
