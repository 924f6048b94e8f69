//! The circuits that the generated circom verifiers name but that are not part of their text: what each computes and
//! requires.  Goldilocks: the names of the circuit library the text includes.  BN128 and BLS12-381: bit decompositions,
//! SHA-256 and Poseidon; the rest is stark-circuits, which is read as text.
use super::poseidon::{fr, un};
use crate::circom::*;
use crate::util::*;
use fields::field_gl::Fr as FGL;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use sha2::{Digest, Sha256};
use starky::f3g::F3G;
use starky::traits::FieldExtension;

fn n(a: &[BigInt], i: usize) -> usize {
    a[i].to_usize().expect("parameter")
}
fn g(x: &BigUint) -> FGL {
    gl((x % P).to_u64().unwrap())
}
fn gs(x: &[BigUint]) -> Vec<FGL> {
    x.iter().map(g).collect()
}
fn f3(x: &[BigUint]) -> F3G {
    F3G::from_vec(gs(&x[..3]))
}
fn flat(x: &[F3G]) -> Vec<BigUint> {
    x.iter().flat_map(|x| ungl(&F3G::from_vec(x.as_elements().into_iter().chain(vec![gl(0); 3]).take(3).collect()).as_elements())).map(BigUint::from).collect()
}
fn big(x: &[FGL]) -> Vec<BigUint> {
    ungl(x).into_iter().map(BigUint::from).collect()
}
fn out(v: Vec<BigUint>) -> Result<Cells, Err> {
    Ok([("out".to_string(), v)].into_iter().collect())
}
fn triple(names: &[&'static str]) -> Shape {
    names.iter().map(|n| (*n, vec![3])).collect()
}
fn bits(p: &Prog, x: &BigUint, k: usize, strict: bool) -> Result<Vec<BigUint>, Err> {
    let _ = (p, strict);
    if x.bits() as usize > k {
        return Err(Err::Unsat(format!("{x} does not fit in {k} bits")));
    }
    Ok((0..k).map(|i| BigUint::from(x.bit(i as u64) as u8)).collect())
}
fn number(x: &[BigUint]) -> usize {
    x.iter().enumerate().map(|(i, b)| if b.is_one() { 1 << i } else { 0 }).sum()
}
fn binary(x: &[BigUint]) -> Result<(), Err> {
    match x.iter().all(|b| b.is_zero() || b.is_one()) {
        true => Ok(()),
        false => Err(Err::Unsat("key".into())),
    }
}

pub fn goldilocks() -> Prog {
    let mut p = Prog::new(BigUint::from(P));
    let mut add = |n: &str, inputs: fn(&[BigInt]) -> Shape, run: Native| p.native(n, NativeDef { inputs, run });
    add("CMul", |_| triple(&["ina", "inb", ">out"]), |_, _, c| out(flat(&[f3(&c["ina"]) * f3(&c["inb"])])));
    add("CMulAdd", |_| triple(&["ina", "inb", "inc", ">out"]), |_, _, c| out(flat(&[f3(&c["ina"]) * f3(&c["inb"]) + f3(&c["inc"])])));
    add("CInv", |_| triple(&["in", ">out"]), |_, _, c| {
        let x = f3(&c["in"]);
        if x.as_elements().iter().all(|e| *e == gl(0)) {
            return Err(Err::Unsat("inverse of zero".into()));
        }
        out(flat(&[x.inv()]))
    });
    add("Poseidon", |a| vec![("in", vec![8]), ("capacity", vec![4]), (">out", vec![n(a, 0)])], |_, a, c| {
        let h = starky::poseidon_opt::Poseidon::new().hash(&gs(&c["in"]), &gs(&c["capacity"]), 12).unwrap();
        out(big(&h[..n(a, 0)]))
    });
    add("Num2Bits_strict", |_| vec![("in", vec![]), (">out", vec![64])], |p, _, c| out(bits(p, &c["in"][0], 64, true)?));
    add("EvalPol", |a| vec![("pol", vec![n(a, 0), 3]), ("x", vec![3]), (">out", vec![3])], |_, _, c| {
        let x = f3(&c["x"]);
        out(flat(&[c["pol"].chunks(3).rev().fold(F3G::ZERO, |r, q| r * x + f3(q))]))
    });
    add("TreeSelector", |a| vec![("values", vec![1 << n(a, 0), n(a, 1)]), ("key", vec![n(a, 0)]), (">out", vec![n(a, 1)])], |_, a, c| {
        binary(&c["key"])?;
        let (i, e) = (number(&c["key"]), n(a, 1));
        out(c["values"][i * e..(i + 1) * e].to_vec())
    });
    add("FFT", |a| [("in"), (">out")].iter().map(|x| (*x, vec![1 << n(a, 0), n(a, 1)])).collect(), |_, a, c| {
        let (k, e, inv) = (n(a, 0), n(a, 1), n(a, 2));
        let x: Vec<F3G> = c["in"].chunks(e).map(|q| F3G::from_vec(gs(&q.iter().cloned().chain(vec![BigUint::zero(); 3]).take(3).collect::<Vec<_>>()))).collect();
        // the definition: sums over powers of the root
        let root = F3G::from(gl(ROOTS[k]));
        let root = if inv == 1 { root.inv() } else { root };
        let len = F3G::from(gl(1 << k)).inv();
        let y: Vec<F3G> = (0..x.len())
            .map(|i| {
                let w = root.exp(i);
                let s = x.iter().rev().fold(F3G::ZERO, |r, v| r * w + *v);
                if inv == 1 { s * len } else { s }
            })
            .collect();
        out(flat(&y).chunks(3).flat_map(|q| q[..e].to_vec()).collect())
    });
    add(
        "MerkleHash",
        |a| {
            let bits = n(a, 2).ilog2() as usize;
            vec![("values", vec![n(a, 1), n(a, 0)]), ("siblings", vec![bits, 4]), ("key", vec![bits]), (">root", vec![4])]
        },
        |_, _, c| {
            binary(&c["key"])?;
            let h = starky::poseidon_opt::Poseidon::new();
            let v = gs(&c["values"]);
            let sponge = |v: &[FGL]| -> Vec<FGL> {
                let mut st = vec![gl(0); 4];
                if v.len() <= 4 {
                    st[..v.len()].copy_from_slice(v);
                } else {
                    for q in v.chunks(8) {
                        let mut q = q.to_vec();
                        q.resize(8, gl(0));
                        st = h.hash(&q, &st, 4).unwrap();
                    }
                }
                st
            };
            // the batches of the hash of a row
            let mut st = match v.len() {
                0..=4 => sponge(&v),
                k => sponge(&v.chunks(k.div_ceil(4).max(8)).flat_map(|q| sponge(q)).collect::<Vec<_>>()),
            };
            for (s, k) in c["siblings"].chunks(4).zip(&c["key"]) {
                let s = gs(s);
                let i = if k.is_one() { [s, st].concat() } else { [st, s].concat() };
                st = h.hash(&i, &[gl(0); 4], 4).unwrap();
            }
            Ok([("root".to_string(), big(&st))].into_iter().collect())
        },
    );
    p.parse(&roots()).unwrap();
    p
}
/// generators of the subgroups of order 2^i
const ROOTS: [u64; 33] = [
    1, 18446744069414584320, 281474976710656, 18446744069397807105, 17293822564807737345, 70368744161280, 549755813888, 17870292113338400769, 13797081185216407910,
    1803076106186727246, 11353340290879379826, 455906449640507599, 17492915097719143606, 1532612707718625687, 16207902636198568418, 17776499369601055404, 6115771955107415310,
    12380578893860276750, 9306717745644682924, 18146160046829613826, 3511170319078647661, 17654865857378133588, 5416168637041100469, 16905767614792059275, 9713644485405565297,
    5456943929260765144, 17096174751763063430, 1213594585890690845, 6414415596519834757, 16116352524544190054, 9123114210336311365, 4614640910117430873, 1753635133440165772,
];
fn roots() -> String {
    format!("function roots(i) {{ var r[33] = {ROOTS:?}; return r[i]; }}")
}

macro_rules! big_poseidon {
    ($name:ident, $fr:path, $poseidon:path) => {
        fn $name(c: &Cells, state: BigUint, outs: usize) -> Vec<BigUint> {
            let l = |x: &BigUint| fr::<$fr>(&BigInt::from(x.clone()));
            let v: Vec<$fr> = c["inputs"].iter().map(l).collect();
            let r = <$poseidon>::new().hash_ex(&v, &l(&state), outs).unwrap();
            r.iter().map(|x| un(x).to_biguint().unwrap()).collect()
        }
    };
}
big_poseidon!(poseidon_bn128, starky::field_bn128::Fr, starky::poseidon_bn128_opt::Poseidon);
big_poseidon!(poseidon_bls12381, starky::verif_hooks::field_bls12381::Fr, starky::poseidon_bls12381_opt::Poseidon);

pub fn onchain(bls: bool) -> Prog {
    let r = if bls { "52435875175126190479447740508185965837690552500527637822603658699938581184513" } else { "21888242871839275222246405745257275088548364400416034343698204186575808495617" };
    let mut p = Prog::new(r.parse().unwrap());
    let mut add = |n: &str, inputs: fn(&[BigInt]) -> Shape, run: Native| p.native(n, NativeDef { inputs, run });
    add("Num2Bits", |a| vec![("in", vec![]), (">out", vec![n(a, 0)])], |p, a, c| out(bits(p, &c["in"][0], n(a, 0), false)?));
    add("Num2Bits_strict", |_| vec![("in", vec![]), (">out", vec![254])], |p, _, c| out(bits(p, &c["in"][0], 254, true)?));
    add("Bits2Num", |a| vec![("in", vec![n(a, 0)]), (">out", vec![])], |p, _, c| {
        out(vec![c["in"].iter().rev().fold(BigUint::zero(), |r, b| (r * 2u8 + b) % &p.p)])
    });
    add("Sha256", |a| vec![("in", vec![n(a, 0)]), (">out", vec![256])], |_, _, c| {
        binary(&c["in"])?;
        let bytes: Vec<u8> = c["in"].chunks(8).map(|q| q.iter().fold(0, |r, b| 2 * r + b.to_u8().unwrap())).collect();
        assert!(c["in"].len() % 8 == 0);
        out(Sha256::digest(&bytes).iter().flat_map(|b| (0..8).rev().map(move |i| BigUint::from(b >> i & 1))).collect())
    });
    fn ex(a: &[BigInt]) -> Shape {
        vec![("inputs", vec![n(a, 0)]), ("initialState", vec![]), (">out", vec![n(a, 1)])]
    }
    fn one(a: &[BigInt]) -> Shape {
        vec![("inputs", vec![n(a, 0)]), (">out", vec![])]
    }
    if bls {
        add("PoseidonEx", ex, |_, a, c| out(poseidon_bls12381(c, c["initialState"][0].clone(), n(a, 1))));
        add("Poseidon", one, |_, _, c| out(poseidon_bls12381(c, BigUint::zero(), 2)[1..].to_vec()));
    } else {
        add("PoseidonEx", ex, |_, a, c| out(poseidon_bn128(c, c["initialState"][0].clone(), n(a, 1))));
        add("Poseidon", one, |_, _, c| out(poseidon_bn128(c, BigUint::zero(), 1)));
    }
    let dir = std::path::Path::new(&std::env::var("VERIF_REPO").unwrap_or("/repo".into())).join("stark-circuits/circuits");
    for f in ["gl", "utils", "fft", "evalpol", "treeselector", "linearhash", "merkle", "merklehash", "bn1togl3", "compconstant64"] {
        let mut t = std::fs::read_to_string(dir.join(format!("{f}.circom"))).unwrap();
        if f == "linearhash" && !bls {
            // the library for BN128 takes the first number of the permutation
            t = t.replace(".out[1]", ".out[0]");
        }
        p.parse(&t).unwrap_or_else(|e| panic!("{f}.circom: {e:?}"));
    }
    p
}

/// the inputs of a circuit in a proof document
pub fn inputs(doc: &serde_json::Value, name: &str) -> Option<Vec<BigUint>> {
    fn go(v: &serde_json::Value, out: &mut Vec<BigUint>) -> Option<()> {
        match v {
            serde_json::Value::Array(l) => l.iter().try_for_each(|v| go(v, out)),
            serde_json::Value::Number(n) => Some(out.push(n.to_string().parse().ok()?)),
            serde_json::Value::String(t) => Some(out.push(match t.strip_prefix("0x") {
                Some(h) => BigUint::parse_bytes(h.as_bytes(), 16)?,
                None => t.parse().ok()?,
            })),
            _ => None,
        }
    }
    let mut r = vec![];
    go(doc.get(name)?, &mut r)?;
    Some(r)
}

/// SHA-256 of the address and the public values, as a number
pub fn publics_hash(addr: &BigUint, publics: &[BigUint]) -> BigUint {
    let mut m = vec![];
    let mut put = |x: &BigUint, n: usize| {
        let b = x.to_bytes_be();
        m.extend(vec![0; n - b.len()]);
        m.extend(b);
    };
    put(addr, 20);
    publics.iter().for_each(|p| put(p, 8));
    BigUint::from_bytes_be(&Sha256::digest(&m))
}
