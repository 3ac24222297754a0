"""Which programs decide which property."""
from collections import namedtuple

# One program run: harness crate, binary, cargo profile, features, the name of the variant, and features
# to add if it does not build otherwise.
Job = namedtuple("Job", "crate bin profile features variant without", defaults=[()])


def native(b):
    # the default configuration, optimised; and with r1cs and the 32-bit backend, debug assertions
    # and overflow checks on
    return [Job("native", b, "release", (), "default"), Job("native", b, "checked", ("full",), "checked")]


def r1cs(b):
    w = ("entry-only",) if b == "gcircuit" else ()
    return [Job("r1cs", b, "release", (), "gadget", w), Job("r1cs", b, "checked", ("full",), "gadget-checked", w)]


# all of poseidon-paramgen with const arguments erased; see harness/pggen/build.rs
pggen = [Job("pggen", "pggen", "release", (), "default"), Job("pggen", "pggen", "checked", (), "checked")]
# the modules of poseidon-paramgen that compile; see harness/paramgen/build.rs
paramgen = [Job("paramgen", "paramgen", "release", (), "default"), Job("paramgen", "paramgen", "checked", (), "checked")]

JOBS = {
    "C01": native("nhash"),
    "C02": native("nhash"),
    "C03": native("ngeneric"),
    "C04": native("nhash"),
    "C05": native("nhash"),
    "C06": r1cs("circuit"),
    "C07": r1cs("circuit"),
    "C08": r1cs("circuit"),
    "C09": r1cs("gcircuit"),
    "C10": native("nhash"),
    "C11": native("nmatrix"),
    "C12": native("nmatrix"),
    "C13": native("nmatrix"),
    "C14": native("nmatrix"),
    "C15": [Job("native", "cfgs", "release", (), "configurations")],
    "C16": paramgen,
    "C17": paramgen,
    "C18": paramgen,
    "C19": native("sage"),
    "C20": r1cs("groth"),
    "C21": native("nhash") + r1cs("circuit"),
    "C23": pggen,
    "C24": native("nmatrix"),
}
ASSUMPTIONS = {}
