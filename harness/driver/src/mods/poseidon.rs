//! spec/gl_poseidon.qnt and spec/poseidon/*.qnt on the optimised and plain implementations
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use fields::PrimeField;
use num_bigint::BigInt;
use serde_json::Value;

#[derive(Default)]
pub struct Gl;
impl Module for Gl {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let (inp, cap) = (gls(&lu(&e["inp"])), gls(&lu(&e["cap"])));
        let n = us(&e["outs"]);
        let p = starky::poseidon_opt::Poseidon::new();
        let r = guard(|| p.hash(&inp, &cap, n));
        match s(&e["op"]) {
            "hash" => {
                let g = match r {
                    Some(Ok(g)) => g,
                    o => return bad("hash", format!("hash of 8+4 elements: {o:?}")),
                };
                if ungl(&g) != lu(&e["out"]) || g.iter().any(|x| raw(x) >= P) {
                    return bad("hash", format!("hash gives {:?}", ungl(&g)));
                }
                let all = p.hash(&inp, &cap, 12).unwrap();
                if all[..n] != g[..] {
                    return bad("prefix", format!("the first {n} of 12 outputs are not those of a call for {n}"));
                }
            }
            _ => {
                if let Some(Ok(g)) = r {
                    return bad("refuse", format!("{} inputs and {} capacity elements accepted: {g:?}", inp.len(), cap.len()));
                }
            }
        }
        Ok(())
    }
}

pub fn fr<F: PrimeField>(x: &BigInt) -> F {
    F::from_str(&x.to_string()).expect("element")
}
pub fn un<F: PrimeField>(x: &F) -> BigInt {
    let mut r = BigInt::from(0);
    for l in x.into_repr().as_ref().iter().rev() {
        r = (r << 64) + *l;
    }
    r
}

macro_rules! big_poseidon {
    ($name:ident, $fr:path, $($imp:path),+) => {
        #[derive(Default)]
        pub struct $name;
        impl Module for $name {
            fn step(&mut self, st: &Value) -> R {
                use $fr as Fr;
                let e = &st["last"];
                let inp: Vec<Fr> = lbig(&e["inp"]).iter().map(fr).collect();
                let i0: Fr = fr(&big(&e["init"]));
                let n = us(&e["outs"]);
                let out = lbig(&e["out"]);
                $({
                    let name = stringify!($imp);
                    let h = <$imp>::new();
                    let g = guard(|| h.hash_ex(&inp, &i0, n)).and_then(|r| r.ok()).map(|g| g.iter().map(un).collect::<Vec<_>>());
                    if g.as_ref() != Some(&out) {
                        return bad("hash", format!("{name}, width {}: {g:?}", inp.len() + 1));
                    }
                    let g = guard(|| h.hash(&inp, &i0)).and_then(|r| r.ok()).map(|g| un(&g));
                    if g != Some(big(&e["one"])) {
                        return bad("single", format!("{name}: hash gives {g:?}"));
                    }
                    // lengths without constants
                    for len in [0usize, 17, 18, 31] {
                        let v = vec![i0; len];
                        if matches!(guard(|| h.hash_ex(&v, &i0, 1)), Some(Ok(_))) || matches!(guard(|| h.hash(&v, &i0)), Some(Ok(_))) {
                            return bad("length", format!("{name}: {len} inputs accepted"));
                        }
                    }
                })+
                Ok(())
            }
        }
    };
}
big_poseidon!(Bn128, starky::field_bn128::Fr, starky::poseidon_bn128_opt::Poseidon, starky::verif_hooks::poseidon_bn128::Poseidon);
big_poseidon!(Bls12381, starky::verif_hooks::field_bls12381::Fr, starky::verif_hooks::poseidon_bls12381::Poseidon);
big_poseidon!(Neptune, starky::verif_hooks::field_bls12381::Fr, starky::poseidon_bls12381_opt::Poseidon);
