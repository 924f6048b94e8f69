#!/usr/bin/env python3
"""Writes spec/poseidon/*.qnt: the instances of poseidon.qnt with their constants from the
Grain generator (tools/grain.py), nothing of it taken from /repo."""
import sys
sys.path.insert(0, "/verif/tools")
from grain import params
from grain import grain
RP = [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68]
# the Neptune instance: Cauchy matrix 1/(i + t + j), S-box bit set in the Grain seed, its own round numbers
NRP = [55, 55, 56, 56, 56, 56, 57, 57, 57, 57, 57, 57, 57, 57, 59, 59]
BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617
BLS = 52435875175126190479447740508185965837690552500527637822603658699938581184513

def neptune(p, n, t, rf, rp):
    g = grain(n, t, rf, rp, 1)
    c = []
    while len(c) < (rf + rp) * t:
        v = 0
        for _ in range(n):
            v = v * 2 + next(g)
        if v < p:
            c.append(v)
    return c, [[pow(i + t + j, -1, p) for j in range(t)] for i in range(t)]

for name, p, n, rps, gen in (("bn128", BN, 254, RP, params), ("bls12381", BLS, 255, RP, params),
                             ("neptune", BLS, 255, NRP, neptune)):
    for i, rp in enumerate(rps):
        t = i + 2
        c, m = gen(p, n, t, 8, rp)
        with open(f"/verif/spec/poseidon/{name}_t{t}.qnt", "w") as f:
            f.write(f"// generated by tools/gen_poseidon.py\nmodule {name}_t{t} {{\n  import poseidon(Q = {p}, T = {t}, RP = {rp}, IDX = {1 if name == 'neptune' else 0},\n"
                    f"    C = [{', '.join(hex(x) for x in c)}],\n    M = [{', '.join(hex(x) for r in m for x in r)}]).* from \"../poseidon\"\n}}\n")
