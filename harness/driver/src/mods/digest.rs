//! spec/digest.qnt on ElementDigest and the conversion helpers
use super::poseidon::{fr, un};
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use fields::field_gl::Fr as FGL;
use fields::PrimeField;
use num_bigint::{BigInt, BigUint};
use serde_json::Value;
use starky::verif_hooks::digest::ElementDigest;
use starky::traits::MTNodeType;

type Bn = starky::field_bn128::Fr;
type Bls = starky::verif_hooks::field_bls12381::Fr;

#[derive(Default)]
pub struct M;

fn bu(x: &BigInt) -> BigUint {
    x.to_biguint().unwrap()
}
fn digest<F: PrimeField + Default>(l: &[u64]) -> ElementDigest<4, F> {
    ElementDigest::new(&gls(l))
}
fn of_text<F: PrimeField + Default>(t: &str) -> Option<ElementDigest<4, F>> {
    guard(|| serde_json::from_str::<ElementDigest<4, F>>(t).ok()).flatten()
}
fn els<F: PrimeField + Default>(d: &ElementDigest<4, F>) -> Vec<u64> {
    ungl(d.as_elements())
}
fn quote(v: &BigInt) -> String {
    format!("\"{v}\"")
}

fn scalar<F: PrimeField + Default>(v: &BigInt, outs: &[u64], ok: bool) -> R {
    let x: F = fr(v);
    let d = guard(|| ElementDigest::<4, F>::from_scalar(&x));
    if !ok {
        return match d {
            Some(d) => bad("scalar_lossy", format!("a scalar whose limbs are no elements becomes {:?}", els(&d))),
            None => Ok(()),
        };
    }
    let Some(d) = d else { return bad("scalar", "from_scalar refused".into()) };
    if els(&d) != outs {
        return bad("scalar", format!("from_scalar gives {:?}", els(&d)));
    }
    if d.as_scalar::<F>().as_ref()[..] != *outs {
        return bad("as_scalar", format!("as_scalar gives {:?}", d.as_scalar::<F>()));
    }
    let t = serde_json::to_string(&d).unwrap();
    if t != quote(v) {
        return bad("text", format!("the digest is written as {t}"));
    }
    match of_text::<F>(&t) {
        Some(b) if els(&b) == outs => Ok(()),
        o => bad("text_back", format!("text {t} is read as {:?}", o.map(|x| els(&x)))),
    }
}

fn elements<F: PrimeField + Default>(l: &[u64], out: Option<&BigInt>, ok: bool) -> R {
    let d = digest::<F>(l);
    if els(&d) != l {
        return bad("elements", format!("elements are {:?}", els(&d)));
    }
    if d.as_scalar::<F>().as_ref()[..] != l[..d.as_scalar::<F>().as_ref().len()] {
        return bad("elements_scalar", format!("as_scalar gives {:?}", d.as_scalar::<F>()));
    }
    if d.is_dim_1() != ((l[1] | l[2] | l[3]) == 0) {
        return bad("is_dim_1", format!("is_dim_1 gives {}", d.is_dim_1()));
    }
    // different digests are different, whichever element differs
    for i in 0..4 {
        let mut m = l.to_vec();
        m[i] = (m[i] + 1) % P;
        if digest::<F>(&m) == d {
            return bad("eq", format!("equal although element {i} differs"));
        }
    }
    let Some(out) = out else {
        let t = serde_json::to_string(&d).unwrap();
        let want = if (l[1] | l[2] | l[3]) == 0 {
            format!("\"{}\"", l[0])
        } else {
            format!("[\"{}\",\"{}\",\"{}\",\"{}\"]", l[0], l[1], l[2], l[3])
        };
        if t != want {
            return bad("gl_text", format!("written as {t}"));
        }
        return match of_text::<F>(&t) {
            Some(b) if b == d => Ok(()),
            o => bad("gl_text_back", format!("text {t} is read as {:?}", o.map(|x| els(&x)))),
        };
    };
    if !ok {
        return Ok(());
    }
    let t = serde_json::to_string(&d).unwrap();
    if t != quote(out) {
        return bad("text", format!("the digest is written as {t}"));
    }
    match of_text::<F>(&t) {
        Some(b) if b == d => Ok(()),
        o => bad("text_back", format!("text {t} is read as {:?}", o.map(|x| els(&x)))),
    }
}

fn big<F: PrimeField>(v: &BigInt) -> R {
    let x: F = fr(v);
    if starky::helper::fr_to_biguint(&x) != bu(v) {
        return bad("fr_to_biguint", format!("fr_to_biguint gives {}", starky::helper::fr_to_biguint(&x)));
    }
    let y: F = starky::helper::biguint_to_fr(&bu(v));
    if un(&y) != *v {
        return bad("biguint_to_fr", format!("biguint_to_fr gives {}", un(&y)));
    }
    Ok(())
}

fn text<F: PrimeField + Default>(t: &str, want: Option<&[u64]>, what: &str) -> R {
    match (of_text::<F>(t), want) {
        (None, None) => Ok(()),
        (Some(d), Some(w)) if els(&d) == w => Ok(()),
        (d, _) => bad(what, format!("{t} is read as {:?}", d.map(|x| els(&x)))),
    }
}

impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let (f, ok) = (s(&e["f"]), b(&e["ok"]));
        let (v, out) = (big_of(&e["v"]), big_of(&e["out"]));
        match s(&e["op"]) {
            "scalar" => {
                let o = lu(&e["outs"]);
                if f == "bn128" { scalar::<Bn>(&v, &o, ok) } else { scalar::<Bls>(&v, &o, ok) }
            }
            "elements" => {
                let l = lu(&e["l"]);
                match f {
                    "gl" => elements::<FGL>(&l, None, ok),
                    "bn128" => elements::<Bn>(&l, Some(&out), ok),
                    _ => elements::<Bls>(&l, Some(&out), ok),
                }
            }
            "packed" => {
                let l: [FGL; 4] = gls(&lu(&e["l"])).try_into().unwrap();
                let r = guard(|| if f == "bn128" { un(&starky::verif_hooks::digest::to_bn128(&l)) } else { un(&starky::verif_hooks::digest::to_bls12381(&l)) });
                match (r, ok) {
                    (None, false) => Ok(()),
                    (Some(x), true) if x == out => Ok(()),
                    (r, _) => bad("packed", format!("packed number is {r:?}")),
                }
            }
            "mont" => {
                let l: [FGL; 4] = gls(&lu(&e["l"])).try_into().unwrap();
                let r = guard(|| {
                    if f == "bn128" {
                        starky::linearhash_bn128::LinearHashBN128::to_bn128_mont(l)
                    } else {
                        starky::linearhash_bls12381::LinearHashBLS12381::to_bls12381_mont(l)
                    }
                });
                match (r, ok) {
                    (None, false) => Ok(()),
                    (Some(x), true) if ungl(&x) == lu(&e["outs"]) => Ok(()),
                    (r, _) => bad("mont", format!("stored form is {:?}", r.map(|x| ungl(&x)))),
                }
            }
            "to_base" => {
                let x = starky::helper::biguint_to_be(&bu(&v));
                if BigInt::from(x.as_int()) != out {
                    return bad("to_base", format!("reduced to {}", x.as_int()));
                }
                Ok(())
            }
            "big" => if f == "bn128" { big::<Bn>(&v) } else { big::<Bls>(&v) },
            "log2" => {
                let r = starky::helper::log2_any(us(&e["v"]));
                if r as u64 != u(&e["out"]) {
                    return bad("log2", format!("log2 gives {r}"));
                }
                Ok(())
            }
            "ks" => {
                let r = ungl(&starky::helper::get_ks(us(&e["v"])));
                if r != lu(&e["outs"]) {
                    return bad("ks", format!("the shifts are {r:?}"));
                }
                Ok(())
            }
            "text" => {
                let t = quote(&v);
                match f {
                    "gl" => {
                        let w = ok.then(|| vec![u(&e["v"]), 0, 0, 0]);
                        text::<FGL>(&t, w.as_deref(), "read_text")
                    }
                    "bn128" => text::<Bn>(&t, ok.then(|| els(&ElementDigest::<4, Bn>::from_scalar(&fr::<Bn>(&v)))).as_deref(), "read_text"),
                    _ => text::<Bls>(&t, ok.then(|| els(&ElementDigest::<4, Bls>::from_scalar(&fr::<Bls>(&v)))).as_deref(), "read_text"),
                }
            }
            "texts" => {
                let l = lu(&e["l"]);
                let t = serde_json::to_string(&l.iter().map(|x| x.to_string()).collect::<Vec<_>>()).unwrap();
                let w = ok.then_some(&l[..]);
                match f {
                    "gl" => text::<FGL>(&t, w, "read_texts"),
                    "bn128" => text::<Bn>(&t, w, "read_texts"),
                    _ => text::<Bls>(&t, w, "read_texts"),
                }
            }
            o => bad("unknown", o.into()),
        }
    }
}
fn big_of(v: &Value) -> BigInt {
    crate::itf::big(v)
}
