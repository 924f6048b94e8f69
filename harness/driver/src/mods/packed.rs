//! spec/packed.qnt on the SIMD field type of this build, spec/gl_poseidon.qnt on its Poseidon.
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use fields::field_gl::FrRepr;
use fields::packed::PackedField;
use serde_json::Value;

#[cfg(target_feature = "avx512f")]
mod arch {
    pub use fields::arch::x86_64::avx512_field_gl::Avx512GoldilocksField as V;
    pub use starky::arch::x86_64::avx512_poseidon_gl::Poseidon;
}
#[cfg(not(target_feature = "avx512f"))]
mod arch {
    pub use fields::arch::x86_64::avx2_field_gl::Avx2GoldilocksField as V;
    pub use starky::arch::x86_64::avx2_poseidon_gl::Poseidon;
}
use arch::{Poseidon, V};

fn reprs(x: &[u64]) -> Vec<FrRepr> {
    x.iter().map(|x| FrRepr([*x])).collect()
}
fn vec_of(x: &[u64]) -> V {
    *V::from_slice(&reprs(x))
}
fn words(v: &V) -> Vec<u64> {
    v.as_slice().iter().map(|r| r.0[0]).collect()
}

pub struct M;
impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let op = s(&e["op"]);
        let (a, b, k, form) = (lu(&e["a"]), lu(&e["b"]), us(&e["k"]), us(&e["form"]));
        let (out, out2, ok) = (lu(&e["out"]), lu(&e["out2"]), crate::itf::b(&e["ok"]));
        let exact: Vec<bool> = l(&e["exact"]).into_iter().map(crate::itf::b).collect();
        let lanes = |g: &V| -> R {
            for (j, (x, w)) in words(g).iter().zip(&out).enumerate() {
                if x % P != w % P || (exact.get(j) == Some(&true) && x != w) {
                    return bad(op, format!("{op}, form {form}: lane {j} holds {x}, specified {w}"));
                }
            }
            Ok(())
        };
        macro_rules! bin {
            ($o:tt, $oa:tt) => {{
                let (va, vb) = (vec_of(&a), vec_of(&b));
                let (sa, sb) = (FrRepr([a[0]]), FrRepr([b[0]]));
                lanes(&match form {
                    0 => va $o vb,
                    1 => va $o sb,
                    2 => sa $o vb,
                    3 => { let mut r = va; r $oa vb; r }
                    _ => { let mut r = va; r $oa sb; r }
                })
            }};
        }
        match op {
            "add" => bin!(+, +=),
            "sub" => bin!(-, -=),
            "mul" => bin!(*, *=),
            "square" => lanes(&vec_of(&a).square()),
            "neg" => lanes(&-vec_of(&a)),
            "reduce" => lanes(&V::reduce(vec_of(&a).get(), vec_of(&b).get())),
            "div" => {
                let d = FrRepr([b[0]]);
                let g = guard(|| if form == 0 {
                    vec_of(&a) / d
                } else {
                    let mut r = vec_of(&a);
                    r /= d;
                    r
                });
                match (g, ok) {
                    (Some(g), true) => lanes(&g),
                    (None, false) => Ok(()),
                    // the inverse of zero is zero in this field (C01)
                    (Some(g), false) if b[0] == 0 && words(&g).iter().all(|x| *x == 0) => Ok(()),
                    (g, _) => bad("div", format!("division by {}: {g:?}", b[0])),
                }
            }
            "interleave" => {
                let g = guard(|| vec_of(&a).interleave(vec_of(&b), k)).map(|(x, y)| (words(&x), words(&y)));
                if g != ok.then_some((out, out2)) {
                    return bad("interleave", format!("blocks of {k}: {g:?}"));
                }
                Ok(())
            }
            "view" => {
                let mut xs = reprs(&a);
                let orig = reprs(&a);
                let g = guard(|| V::pack_slice(&orig).iter().flat_map(words).collect::<Vec<_>>());
                if g != ok.then_some(a.clone()) {
                    return bad("view", format!("{} scalars are seen as {g:?}", a.len()));
                }
                let w = guard(|| {
                    let v = V::pack_slice_mut(&mut xs);
                    if !v.is_empty() {
                        v[k / V::WIDTH].as_slice_mut()[k % V::WIDTH] = FrRepr([b[0]]);
                    }
                });
                if w.is_some() != ok || (ok && xs != reprs(&out)) {
                    return bad("view_mut", format!("{} scalars after a write at {k}: {xs:?}", a.len()));
                }
                // exactly one vector
                let fits = a.len() == V::WIDTH;
                if guard(|| words(V::from_slice(&reprs(&a)))) != fits.then_some(a.clone())
                    || guard(|| words(V::from_slice_mut(&mut reprs(&a)))) != fits.then_some(a.clone())
                {
                    return bad("view_one", format!("{} scalars as one vector", a.len()));
                }
                Ok(())
            }
            "constants" => {
                for (n, g, w) in [
                    ("ZEROS", V::ZEROS, &a),
                    ("default", V::default(), &out2),
                    ("ONES", V::ONES, &b),
                    ("from", V::from(FrRepr([k_word(e)])), &out),
                ] {
                    if words(&g) != *w {
                        return bad("constants", format!("{n} is {:?}", words(&g)));
                    }
                }
                Ok(())
            }
            "shift" => {
                #[cfg(not(target_feature = "avx512f"))]
                lanes(&V::new(unsafe { fields::arch::x86_64::avx2_field_gl::shift(vec_of(&a).get()) }))?;
                Ok(())
            }
            o => panic!("op {o}"),
        }
    }
}
fn k_word(e: &Value) -> u64 {
    u(&e["k"])
}

/// the packed permutation; the AVX-512 one takes two states at once, halves interleaved by fours
#[derive(Default)]
pub struct Pos {
    #[allow(dead_code)]
    prev: Option<(Vec<u64>, Vec<u64>, Vec<u64>)>,
}
impl Module for Pos {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let (inp, cap, n) = (lu(&e["inp"]), lu(&e["cap"]), us(&e["outs"]));
        let p = Poseidon::new();
        #[cfg(not(target_feature = "avx512f"))]
        {
            let g = guard(|| p.hash(&gls(&inp), &gls(&cap), n));
            if s(&e["op"]) == "hash" {
                match g {
                    Some(Ok(g)) if ungl(&g) == lu(&e["out"]) && g.iter().all(|x| raw(x) < P) => {}
                    o => return bad("hash", format!("{n} outputs: {o:?}")),
                }
            } else if let Some(Ok(g)) = g {
                return bad("refuse", format!("{} inputs and {} capacity elements accepted: {g:?}", inp.len(), cap.len()));
            }
        }
        #[cfg(target_feature = "avx512f")]
        {
            let mix = |a: &[u64], b: &[u64]| -> Vec<u64> {
                let mut r = vec![];
                for (x, y) in a.chunks(4).zip(b.chunks(4)) {
                    r.extend(x);
                    r.extend(y);
                }
                r
            };
            if s(&e["op"]) == "hash" {
                // all twelve words of this state, from the scalar permutation decided by C06
                let all = ungl(&starky::poseidon_opt::Poseidon::new().hash(&gls(&inp), &gls(&cap), 12).unwrap());
                if all[..n] != lu(&e["out"])[..] {
                    return bad("scalar", format!("scalar hash gives {all:?}"));
                }
                let me = (inp, cap, all);
                let other = self.prev.clone().unwrap_or_else(|| me.clone());
                for (x, y) in [(&me, &other), (&other, &me)] {
                    let want = mix(&x.2, &y.2);
                    for outs in [2 * n, 8] {
                        match guard(|| p.hash(&gls(&mix(&x.0, &y.0)), &gls(&mix(&x.1, &y.1)), outs)) {
                            Some(Ok(g)) if ungl(&g) == want[..outs] && g.iter().all(|x| raw(x) < P) => {}
                            o => return bad("hash", format!("{outs} outputs of two states: {o:?}, specified {want:?}")),
                        }
                    }
                }
                self.prev = Some(me);
            } else {
                let (i2, c2) = ([&inp[..], &inp[..]].concat(), [&cap[..], &cap[..]].concat());
                if let Some(Ok(g)) = guard(|| p.hash(&gls(&i2), &gls(&c2), 8)) {
                    return bad("refuse", format!("{} inputs and {} capacity elements accepted: {g:?}", i2.len(), c2.len()));
                }
            }
        }
        Ok(())
    }
}
