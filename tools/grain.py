#!/usr/bin/env python3
"""The Poseidon reference generator (Grain LFSR in self-shrinking mode), x^5, prime field."""
def grain(n, t, rf, rp, sbox=0):
    bits = []
    for v, w in ((1, 2), (sbox, 4), (n, 12), (t, 12), (rf, 10), (rp, 10), ((1 << 30) - 1, 30)):
        bits += [int(x) for x in bin(v)[2:].zfill(w)]
    s = bits
    def step():
        b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0]
        s.pop(0); s.append(b)
        return b
    for _ in range(160):
        step()
    while True:
        b = step()
        while b == 0:
            step()
            b = step()
        yield step()

def params(p, n, t, rf, rp):
    g = grain(n, t, rf, rp)
    def num():
        v = 0
        for _ in range(n):
            v = v * 2 + next(g)
        return v
    c = []
    for _ in range((rf + rp) * t):
        v = num()
        while v >= p:
            v = num()
        c.append(v)
    while True:
        r = [num() % p for _ in range(2 * t)]
        while len(set(r)) != 2 * t:
            r = [num() % p for _ in range(2 * t)]
        xs, ys = r[:t], r[t:]
        if all((x + y) % p for x in xs for y in ys):
            break
    m = [[pow(x + y, -1, p) for y in ys] for x in xs]
    return c, m
