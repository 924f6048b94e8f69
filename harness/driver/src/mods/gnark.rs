//! spec/gnark.qnt: the JSON documents of Groth16 proofs, keys and inputs over BLS12-381.
use crate::itf::*;
use crate::util::guard;
use crate::{bad, Module, R};
use ark_bls12_381::{Bls12_381, Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G2Affine};
use ark_ec::AffineRepr;
use num_bigint::BigInt;
use recursion_gnark_ffi::json_util::{Groth16Proof, JsonPublicInput, JsonVerificationKey};
use recursion_gnark_ffi::traits::{ArkworksPairingBridge as PB, ArkworksPrimeFieldBridge as FB, CheckElement};
use serde_json::Value;

fn value(t: &[&Value]) -> String {
    let mut out = String::new();
    for x in t {
        let k = s(&x["k"]);
        if k != "]" && !out.is_empty() && !out.ends_with('[') {
            out.push(',');
        }
        match k {
            "[" | "]" => out.push_str(k),
            "text" => out.push_str(&format!("\"{}\"", big(&x["v"]))),
            "number" => out.push_str(&big(&x["v"]).to_string()),
            "null" => out.push_str("null"),
            "raw" => out.push_str(&x["raw"].to_string()),
            _ => panic!("token {k}"),
        }
    }
    out
}
fn document(f: &Value) -> String {
    let f = l(f);
    if f.len() == 1 && s(&f[0]["name"]).is_empty() {
        return value(&l(&f[0]["toks"]));
    }
    let e: Vec<String> = f.iter().map(|x| format!("{}:{}", x["name"], value(&l(&x["toks"])))).collect();
    format!("{{{}}}", e.join(","))
}
/// the numbers a decoded value stands for
fn nums(back: &Value, name: &str) -> Vec<BigInt> {
    let f = l(back).into_iter().find(|x| s(&x["name"]) == name).unwrap();
    l(&f["toks"]).iter().filter(|x| s(&x["k"]) == "text").map(|x| big(&x["v"])).collect()
}
fn q(x: &Fq) -> BigInt {
    use ark_ff::{BigInteger, PrimeField};
    BigInt::from_bytes_le(num_bigint::Sign::Plus, &x.into_bigint().to_bytes_le())
}
fn fr(x: &Fr) -> BigInt {
    use ark_ff::{BigInteger, PrimeField};
    BigInt::from_bytes_le(num_bigint::Sign::Plus, &x.into_bigint().to_bytes_le())
}
fn p1(p: &G1Affine) -> Vec<BigInt> {
    p.xy().map_or(vec![0.into(), 1.into(), 0.into()], |(x, y)| vec![q(&x), q(&y), 1.into()])
}
fn p2(p: &G2Affine) -> Vec<BigInt> {
    p.xy().map_or([0, 0, 1, 0, 0, 0].map(BigInt::from).to_vec(), |(x, y)| vec![q(&x.c0), q(&x.c1), q(&y.c0), q(&y.c1), 1.into(), 0.into()])
}
fn p12(x: &Fq12) -> Vec<BigInt> {
    let two = |a: &Fq2| vec![q(&a.c0), q(&a.c1)];
    let six = |a: &Fq6| [two(&a.c0), two(&a.c1), two(&a.c2)].concat();
    [six(&x.c0), six(&x.c1)].concat()
}
type Named = Vec<(&'static str, Vec<BigInt>)>;
trait Doc: Sized + PartialEq + serde::Serialize + serde::de::DeserializeOwned {
    fn parts(&self) -> Named;
    fn words(&self) -> Vec<(&'static str, Value)>;
}
impl Doc for Groth16Proof<Bls12_381> {
    fn parts(&self) -> Named {
        vec![("pi_a", p1(&self.pi_a)), ("pi_b", p2(&self.pi_b)), ("pi_c", p1(&self.pi_c))]
    }
    fn words(&self) -> Vec<(&'static str, Value)> {
        vec![("protocol", self.protocol.clone().into()), ("curve", self.curve.clone().into())]
    }
}
impl Doc for JsonVerificationKey<Bls12_381> {
    fn parts(&self) -> Named {
        vec![
            ("vk_alpha_1", p1(&self.alpha_1)),
            ("vk_beta_2", p2(&self.beta_2)),
            ("vk_gamma_2", p2(&self.gamma_2)),
            ("vk_delta_2", p2(&self.delta_2)),
            ("vk_alphabeta_12", p12(&self.alpha_beta_gt)),
            ("IC", self.ic.iter().flat_map(p1).collect()),
        ]
    }
    fn words(&self) -> Vec<(&'static str, Value)> {
        vec![("protocol", self.protocol.clone().into()), ("nPublic", self.n_public.into())]
    }
}
impl Doc for JsonPublicInput<Fr> {
    fn parts(&self) -> Named {
        vec![("", self.values.iter().map(fr).collect())]
    }
    fn words(&self) -> Vec<(&'static str, Value)> {
        vec![]
    }
}
fn check<D: Doc>(st: &Value, read: fn(&str) -> Vec<Result<D, serde_json::Error>>) -> R {
    let op = s(&st["op"]);
    let text = document(&st["fields"]);
    let r = match guard(|| read(&text)) {
        None => return bad("crash", format!("reading panics: {text}")),
        Some(r) => r,
    };
    // a tree of JSON values has lost the repeated fields
    let names: Vec<&str> = l(&st["fields"]).iter().map(|x| s(&x["name"])).collect();
    let twice = names.iter().enumerate().any(|(i, n)| names[..i].contains(n));
    for r in r.into_iter().skip(twice as usize) {
        match (r, op) {
            (Ok(_), "refuse") => return bad("accepted", format!("read: {text}")),
            (Err(_), "refuse") => {}
            (Err(e), _) => return bad("refused", format!("{e}: {text}")),
            (Ok(d), _) => {
                for (n, v) in d.parts() {
                    if nums(&st["back"], n) != v {
                        return bad("value", format!("{n} of {text} is read as {v:?}"));
                    }
                }
                let back: Value = serde_json::from_str(&document(&st["back"])).unwrap();
                for (n, v) in d.words() {
                    if back[n] != v {
                        return bad("value", format!("{n} of {text} is read as {v}"));
                    }
                }
                let w = match guard(|| (serde_json::to_string(&d), serde_json::to_value(&d))) {
                    Some((Ok(a), Ok(b))) => (a, b),
                    _ => return bad("write", format!("cannot write back {text}")),
                };
                if w.1 != back || serde_json::from_str::<Value>(&w.0).ok().as_ref() != Some(&back) {
                    return bad("write", format!("written back as {}, expected {back}", w.0));
                }
                match guard(|| serde_json::from_str::<D>(&w.0)) {
                    Some(Ok(e)) if e == d => {}
                    _ => return bad("again", format!("{} is not read as what was written", w.0)),
                }
            }
        }
    }
    Ok(())
}
fn plain<D: Doc>(t: &str) -> Vec<Result<D, serde_json::Error>> {
    vec![serde_json::from_str::<Value>(t).and_then(serde_json::from_value), serde_json::from_str(t), serde_json::from_reader(t.as_bytes())]
}

pub struct M;
impl Module for M {
    fn start(&mut self, _: &Value) -> R {
        Ok(())
    }
    fn step(&mut self, st: &Value) -> R {
        let st = &st["last"];
        match s(&st["op"]) {
            "decode" | "refuse" => match s(&st["kind"]) {
                "proof" => check::<Groth16Proof<Bls12_381>>(st, plain),
                "key" => check::<JsonVerificationKey<Bls12_381>>(st, |t| {
                    let mut r = plain(t);
                    r.push(JsonVerificationKey::from_reader(t.as_bytes()));
                    r
                }),
                _ => check::<JsonPublicInput<Fr>>(st, plain),
            },
            "points" => {
                let bytes: Vec<u8> = lu(&st["bytes"]).iter().map(|x| *x as u8).collect();
                let want = lbig(&st["coords"]);
                let ce = || if b(&st["flag"]) { CheckElement::Yes } else { CheckElement::No };
                // points one after the other, and all of them at once; zeros are the point at infinity
                let raw = |p: Vec<BigInt>, n: usize| if p[n..].iter().all(is_zero) { vec![BigInt::from(0); n] } else { p[..n].to_vec() };
                let (n, size) = if b(&st["two"]) { (4, 192) } else { (2, 96) };
                let num = bytes.len() / size;
                let got = guard(|| {
                    let mut rd = &bytes[..];
                    if n == 4 {
                        let one: Result<Vec<G2Affine>, _> = (0..num).map(|_| <Bls12_381 as PB>::g2_from_reader(&mut rd, ce())).collect();
                        [one, <Bls12_381 as PB>::g2_vec_from_reader(&bytes[..], num, ce())].map(|x| x.map(|v| v.iter().flat_map(|p| raw(p2(p), 4)).collect::<Vec<_>>()))
                    } else {
                        let one: Result<Vec<G1Affine>, _> = (0..num).map(|_| <Bls12_381 as PB>::g1_from_reader(&mut rd, ce())).collect();
                        [one, <Bls12_381 as PB>::g1_vec_from_reader(&bytes[..], num, ce())].map(|x| x.map(|v| v.iter().flat_map(|p| raw(p1(p), 2)).collect::<Vec<_>>()))
                    }
                });
                let Some(got) = got else { return bad("points", format!("reading {bytes:?} panics")) };
                for g in got {
                    match (g, s(&st["kind"])) {
                        (Err(_), "refuse") => {}
                        (Ok(v), "ok") if v == want => {}
                        (g, k) => return bad("points", format!("{want:?} read as {:?}, expected {k}", g.ok())),
                    }
                }
                Ok(())
            }
            "scalar" => {
                let bytes: Vec<u8> = lu(&st["bytes"]).iter().map(|x| *x as u8).collect();
                let want = lbig(&st["coords"]);
                let got = if b(&st["two"]) {
                    [Fq::from_reader(&bytes[..]), Fq::montgomery_bigint_from_reader(&bytes[..]), Fq::from_reader_for_groth16_zkey(&bytes[..])].map(|x| x.ok().map(|v| q(&v)))
                } else {
                    [Fr::from_reader(&bytes[..]), Fr::montgomery_bigint_from_reader(&bytes[..]), Fr::from_reader_for_groth16_zkey(&bytes[..])].map(|x| x.ok().map(|v| fr(&v)))
                };
                for (g, w) in got.iter().zip(&want) {
                    if g.as_ref() != Some(w) {
                        return bad("scalar", format!("{bytes:?} read as {got:?}, expected {want:?}"));
                    }
                }
                Ok(())
            }
            "init" | "probe" => Ok(()),
            o => panic!("unknown operation {o}"),
        }
    }
}
