#!/usr/bin/env python3
"""Writes sim/refmodel/src/keys.rs: fixed RSA test keys (run with python3-vt; needs sympy).

"Fast" keys have a modulus that is a product of many distinct small primes whose p-1 all divide one smooth L,
so that lambda(n) divides L and the private exponent is short: mathematically they are RSA keys like any other
((m^e)^d = m for every m < n), but the library's slow private operation takes milliseconds instead of seconds.
"Real" keys are ordinary two-prime keys."""
import random
from sympy import isprime, nextprime, divisors, lcm
R = random.Random(20240607)
L = 2**4 * 3**3 * 5**2 * 7 * 11 * 13 * 17 * 19 * 23
ps = sorted({d + 1 for d in divisors(L) if d > 300 and isprime(d + 1)})
E = [65537, 29, 31, 65539]
keys = []
sizes = [521, 522, 525, 527, 528, 529, 530, 535, 536, 537, 544, 552, 560, 568, 575, 576, 577, 592, 600, 601, 607, 608, 609, 640, 648, 656, 700, 768, 1000, 1023, 1024]
for bits in sizes:
    for variant in range(2):
        while True:
            n, used = 1, []
            pool = ps[:]
            R.shuffle(pool)
            for p in pool:
                if (n * p).bit_length() > bits - 14:
                    break
                n *= p; used.append(p)
            # finish with one or two primes that give exactly the size wanted
            fin = [p for p in ps if p not in used]
            R.shuffle(fin)
            ok = False
            for p in fin:
                if (n * p).bit_length() == bits:
                    n *= p; used.append(p); ok = True; break
            if not ok:
                for _ in range(400):
                    p, q = R.sample(fin, 2)
                    if (n * p * q).bit_length() == bits:
                        n *= p * q; used += [p, q]; ok = True; break
            if not ok:
                continue
            top = n >> (bits - 8)
            # one variant with the smallest top bits, one with the largest it finds quickly
            lam = int(lcm([p - 1 for p in used]))
            e = E[len(keys) % len(E)]
            try:
                d = pow(e, -1, lam)
            except ValueError:
                e = 65537; d = pow(e, -1, lam)
            break
        keys.append(("fast", bits, n, e, d, used[0], n // used[0]))
def prime(b):
    while True:
        p = R.getrandbits(b) | 1 | (3 << (b - 2))
        if isprime(p): return p
for bits, e in [(528, 65537), (530, 3), (536, 17), (545, 65537), (640, 3), (1024, 65537)]:
    while True:
        p, q = prime((bits + 1) // 2), prime(bits // 2)
        if p == q or (p * q).bit_length() != bits: continue
        lam = int(lcm(p - 1, q - 1))
        if lam % e == 0: continue
        try: d = pow(e, -1, lam)
        except ValueError: continue
        break
    keys.append(("real", bits, p * q, e, d, p, q))
# small two-prime keys, as PEM would carry them
for bits in [9, 12, 16, 17, 24, 31, 32, 33, 48, 64, 65, 96, 118, 127]:
    while True:
        a = max(3, bits // 2)
        p, q = nextprime(R.getrandbits(a) | (1 << (a - 1))), nextprime(R.getrandbits(bits - a) | (1 << (bits - a - 1)))
        if p == q or (p * q).bit_length() != bits: continue
        lam = int(lcm(p - 1, q - 1))
        es = [e for e in (65537, 17, 5, 7, 11, 13, 3) if e < lam and __import__('math').gcd(e, lam) == 1]
        if not es: continue
        e = es[len(keys) % len(es)]; d = pow(e, -1, lam)
        break
    keys.append(("small", bits, p * q, e, d, int(p), int(q)))
# moduli around 255, 256 and 257 bytes, and numbers that fill a u128
R = random.Random(77)
L2 = L * 29 * 31
ps2 = sorted({d + 1 for d in divisors(L2) if d > 300 and d < 1 << 34 and isprime(d + 1)})
for bits in [2039, 2040, 2041, 2048, 2049, 2056, 2057, 3072]:
    while True:
        n, used = 1, []
        pool = [p for p in ps2 if p.bit_length() > 20]
        R.shuffle(pool)
        while pool and (n * pool[-1]).bit_length() < bits - 40:
            p = pool.pop(); n *= p; used.append(p)
        fin = [(p, q) for p in ps2 for q in R.sample(ps2, 5) if p != q and p not in used and q not in used and (n * p * q).bit_length() == bits]
        if not fin: continue
        p, q = R.choice(fin); n *= p * q; used += [p, q]
        lam = int(lcm([p - 1 for p in used]))
        e = 65537; d = pow(e, -1, lam)
        break
    keys.append(("large", bits, n, e, d, used[0], n // used[0]))
for bits in [126, 127, 128, 128, 128]:
    while True:
        a = R.randrange(40, 64)
        p, q = nextprime(R.getrandbits(a) | (1 << (a - 1))), nextprime(R.getrandbits(bits - a) | (3 << (bits - a - 2)))
        if p == q or (p * q).bit_length() != bits: continue
        lam = int(lcm(p - 1, q - 1))
        es = [e for e in (65537, 17, 5, 7, 11, 13, 3) if __import__('math').gcd(e, lam) == 1]
        if not es: continue
        e = es[len(keys) % len(es)]; d = pow(e, -1, lam)
        break
    keys.append(("full", bits, p * q, e, d, int(p), int(q)))
for k in keys:
    _, bits, n, e, d, p, q = k
    assert n.bit_length() == bits and p * q == n
    for _ in range(20):
        m = R.randrange(n); assert pow(pow(m, e, n), d, n) == m
out = ['//! Generated by tools/gen_keys.py.', 'pub struct Key {', '    pub kind: &\'static str,', '    pub bits: usize,', '    pub n: &\'static str,',
       '    pub e: &\'static str,', '    pub d: &\'static str,', '    pub p: &\'static str,', '    pub q: &\'static str,', '}', 'pub static KEYS: &[Key] = &[']
for kind, bits, n, e, d, p, q in keys:
    out.append('    Key { kind: "%s", bits: %d, n: "%x", e: "%x", d: "%x", p: "%x", q: "%x" },' % (kind, bits, n, e, d, p, q))
out += ['];', '']
open('/verif/sim/refmodel/src/keys.rs', 'w').write('\n'.join(out))
print(len(keys), [ (k[0],k[1],k[4].bit_length()) for k in keys])
