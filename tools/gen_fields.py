#!/opt/veriftools/pyvenv/bin/python
"""Writes harness/paramgen/src/fields.rs: prime fields chosen so that exponent selection ends at every
possible candidate of the chain table, and at none, over many field sizes."""
import random, pathlib
from sympy import isprime
rnd = random.Random(377)
ORDER = [3, 5, 7, 17, 13, 11, 23, 19, 43, 41, 37, 31, 29]  # the odd primes of the table, in table order
ALL = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]
OTHERS = [2, 2, 2, 4, 8, 9, 25, 49, 47, 53, 59, 61, 67, 101, 127, 131]
SPECIAL = [131, 137, 139, 151, 181, 199, 211, 241, 251, 257, 331, 421, 463, 631, 65537, 2**31 - 1, 2**61 - 1, 2**64 - 2**32 + 1, 2**64 + 13, 2**127 - 1,
           2**255 - 19, 2**256 - 189, 2**255 + 95, 2**130 - 5, 2**448 - 2**224 - 1, 2**521 - 1,
           # scalar and base fields in use
           8444461749428370424248824938781546531375899335154063827935233455917409239041,
           52435875175126190479447740508185965837690552500527637822603658699938581184513,
           21888242871839275222246405745257275088548364400416034343698204186575808495617,
           21888242871839275222246405745257275088696311157297823662689037894645226208583,
           258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177,
           0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001,
           0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f]
primes = []
for p in SPECIAL:
    if isprime(p): primes.append(p)
    else: print("not prime", p)
def make(stop, bits):
    """p - 1 divisible by everything before `stop` in the table, not by `stop`, by a random part of the rest."""
    idx = ORDER.index(stop) if stop else len(ORDER)
    base = 2
    for q in ORDER[:idx]: base *= q ** (2 if rnd.random() < .1 else 1)
    for q in ORDER[idx + 1:]:
        if rnd.random() < .5 and base.bit_length() + 8 < bits: base *= q
    if rnd.random() < .6: base *= rnd.choice(OTHERS)
    if base.bit_length() + 4 > bits: return None
    for _ in range(20000):
        k = rnd.randrange((1 << (bits - 1)) // base + 1, ((1 << bits) - 2) // base + 1) if ((1 << bits) - 2) // base > (1 << (bits - 1)) // base else 0
        p = base * k + 1
        if k and p.bit_length() == bits and p > 128 and isprime(p) and not (stop and (p - 1) % stop == 0): return p
    return None
for stop in ORDER + [None]:
    for bits in (8, 9, 12, 16, 24, 31, 32, 47, 51, 62, 63, 64, 65, 96, 99, 127, 128, 129, 147, 192, 243, 250, 254, 255, 256, 257, 381, 384, 512, 767):
        if rnd.random() < (.45 if bits < 200 else .3):
            p = make(stop, bits)
            if p and p not in primes: primes.append(p)
def generator_exists(p):
    """A quadratic non-residue: the only thing the derive macro needs of its generator here."""
    g = 2
    while pow(g, (p - 1) // 2, p) == 1: g += 1
    return g
out = ["// Written by tools/gen_fields.py.", "use ark_ff::fields::{Fp, MontBackend, MontConfig};", "use std::convert::TryInto;", ""]
for i, p in enumerate(primes):
    out += ["#[derive(MontConfig)]", f'#[modulus = "{p}"]', f'#[generator = "{generator_exists(p)}"]', f"pub struct C{i};",
            f"pub type F{i} = Fp<MontBackend<C{i}, {(p.bit_length() + 63) // 64}>, {(p.bit_length() + 63) // 64}>;"]
out += ["", "/// The BLS12-377 scalar field.", f"pub type BLS377 = F{primes.index(8444461749428370424248824938781546531375899335154063827935233455917409239041)};"]
out += ["", "/// Calls `$m!(field type)` for the field of the given index.", "macro_rules! with_field {", "    ($i:expr, $m:ident) => {", "        match $i {"]
out += [f"            {i} => $m!(crate::fields::F{i})," for i in range(len(primes))]
out += ["            _ => unreachable!(),", "        }", "    };", "}", "pub(crate) use with_field;", f"pub const FIELDS: usize = {len(primes)};"]
(pathlib.Path(__file__).resolve().parent.parent / "harness/paramgen/src/fields.rs").write_text("\n".join(out) + "\n")
print(len(primes))
