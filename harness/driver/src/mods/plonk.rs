//! spec/plonk.qnt on `recursion::r1cs2plonk`
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use algebraic::circom_circuit::{Constraint, CustomGates, CustomGatesUses, R1CS};
use fields::field_gl::{Fr as FGL, GL};
use fields::ff::{Field, PrimeField};
use recursion::r1cs2plonk::{r1cs2plonk, PlonkAdd, PlonkGate};
use serde_json::Value;

pub struct M;

/// an integer, also a negative one, as an element
fn fe(v: &Value) -> FGL {
    let x = big(v);
    if x.sign() == num_bigint::Sign::Minus {
        let mut y = gl(u(&Value::from((-x).to_string().parse::<u64>().unwrap())));
        y.negate();
        return y;
    }
    gl(u(v))
}
fn lc(v: &Value) -> Vec<(usize, FGL)> {
    l(v).iter().map(|t| (us(l(t)[0]), fe(l(t)[1]))).collect()
}
pub fn cons(c: &Value) -> Vec<Constraint<GL>> {
    l(&c["cons"]).iter().map(|x| (lc(&x["a"]), lc(&x["b"]), lc(&x["c"]))).collect()
}
pub fn system(c: &Value, cons: Vec<Constraint<GL>>) -> R1CS<GL> {
    let (out, inp, n) = (us(&c["pubOut"]), us(&c["pubIn"]), l(&c["w"]).len());
    R1CS {
        num_inputs: 1 + out + inp,
        num_aux: n - 1 - out - inp,
        num_variables: n,
        num_outputs: out,
        constraints: cons,
        custom_gates: l(&c["gates"]).iter().map(|g| CustomGates { template_name: s(&g["kind"]).into(), parameters: gls(&lu(&g["params"])) }).collect(),
        custom_gates_uses: l(&c["uses"]).iter().map(|x| CustomGatesUses { id: u(&x["id"]), signals: lu(&x["signals"]) }).collect(),
    }
}
fn mul(a: FGL, b: FGL) -> FGL {
    let mut a = a;
    a.mul_assign(&b);
    a
}
fn sum(l: &[FGL]) -> FGL {
    l.iter().fold(FGL::zero(), |mut a, x| {
        a.add_assign(x);
        a
    })
}
/// the value of an added wire
pub fn add(a: &PlonkAdd, w: &[FGL]) -> FGL {
    sum(&[mul(a.2, w[a.0]), mul(a.3, w[a.1])])
}
fn ok(g: &PlonkGate, w: &[FGL]) -> bool {
    let PlonkGate(sl, sr, so, qm, ql, qr, qo, qc) = g;
    let (a, b, c) = (w[*sl], w[*sr], w[*so]);
    sum(&[mul(*qm, mul(a, b)), mul(*ql, a), mul(*qr, b), mul(*qo, c), *qc]).is_zero()
}

impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        if s(&e["op"]) != "convert" {
            return Ok(());
        }
        let c = &e["circ"];
        let all = cons(c);
        let n = l(&c["w"]).len();
        // the whole system, then each constraint alone (the newest few)
        let mut sets: Vec<(Vec<usize>, Vec<Constraint<GL>>)> = vec![((0..all.len()).collect(), all.clone())];
        for i in all.len().saturating_sub(3)..all.len() {
            sets.push((vec![i], vec![all[i].clone()]));
        }
        for (which, cs) in sets {
            let r1cs = system(c, cs);
            let Some((gates, adds)) = guard(|| r1cs2plonk(&r1cs)) else {
                return bad("panic", format!("the conversion of {} fails", show(&c["cons"])));
            };
            for (i, a) in adds.iter().enumerate() {
                if a.0 >= n + i || a.1 >= n + i {
                    return bad("order", format!("added wire {} = {a} uses a wire not yet known", n + i));
                }
            }
            for g in &gates {
                if g.0.max(g.1).max(g.2) >= n + adds.len() {
                    return bad("wires", format!("gate {g} uses an unknown wire"));
                }
            }
            for alt in l(&e["alts"]) {
                let want = which.iter().all(|i| b(l(&alt["ok"])[*i]));
                let mut w: Vec<FGL> = l(&alt["w"]).into_iter().map(fe).collect();
                for a in &adds {
                    w.push(add(a, &w));
                }
                let got = gates.iter().all(|g| ok(g, &w));
                if got != want {
                    let x: Vec<String> = which.iter().map(|i| show(l(&c["cons"])[*i])).collect();
                    return bad(
                        if got { "weaker" } else { "stronger" },
                        format!("assignment {}: constraints {} hold: {want}; the gates {gates:?} hold: {got}", show(&alt["w"]), x.join(" ")),
                    );
                }
                if !want {
                    continue;
                }
                // an added wire has one value only, whether or not the later ones follow it
                for j in 0..adds.len() {
                    for follow in [false, true] {
                        let mut v = w.clone();
                        v[n + j].add_assign(&FGL::from(1u64));
                        if follow {
                            for k in j + 1..adds.len() {
                                v[n + k] = add(&adds[k], &v);
                            }
                        }
                        if gates.iter().all(|g| ok(g, &v)) {
                            return bad("free", format!("added wire {} = {} is not determined by the gates", n + j, adds[j]));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
