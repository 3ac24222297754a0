#!/usr/bin/env python3
"""Mutation sweep (development aid, no check uses it): small changes to the sources one by one, in a
mount namespace of its own with copies of /repo and /verif, and which checks notice them.

mutate.py list            all mutants
mutate.py run K N OUT     worker K of N: run its share, append JSON lines to OUT"""
import json, os, pathlib, random, re, shutil, subprocess, sys, time

R = pathlib.Path("/repo")
FILES = {
    "poseidon-parameters/src/alpha.rs": ["C24", "C03", "C18"],
    "poseidon-parameters/src/round_numbers.rs": ["C24", "C03"],
    "poseidon-parameters/src/arc_matrix.rs": ["C11", "C13"],
    "poseidon-parameters/src/matrix.rs": ["C11", "C12", "C13", "C14"],
    "poseidon-parameters/src/matrix_ops.rs": ["C11", "C12"],
    "poseidon-parameters/src/mds_matrix.rs": ["C14", "C11", "C13"],
    "poseidon-parameters/src/error.rs": ["C12"],
    "poseidon-permutation/src/permutation.rs": ["C03", "C02", "C05"],
    "poseidon-permutation/src/r1cs.rs": ["C09", "C06", "C08"],
    "poseidon377/src/hash.rs": ["C01"],
    "poseidon377/src/r1cs.rs": ["C06", "C07", "C08"],
    "poseidon-paramgen/src/mds.rs": ["C23"],
    "poseidon-paramgen/src/v1.rs": ["C23"],
    "poseidon-paramgen/src/v2.rs": ["C23"],
    "poseidon-paramgen/src/v2/internal.rs": ["C23"],
    "poseidon-paramgen/src/v2/external.rs": ["C23"],
    "poseidon-paramgen/src/poseidon_build.rs": ["C23"],
    "poseidon-paramgen/src/alpha.rs": ["C16"],
    "poseidon-paramgen/src/input.rs": ["C17"],
    "poseidon-paramgen/src/utils.rs": ["C17"],
    "poseidon-paramgen/src/rounds.rs": ["C17"],
    "poseidon-paramgen/src/round_constants.rs": ["C18"],
    "poseidon-paramgen/src/transcript.rs": ["C18"],
}
SWAPS = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" += "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.ceil\(\)", [".floor()", ""]), (r"\.floor\(\)", [".ceil()", ""]),
    (r"\(i, j\)", ["(j, i)"]), (r"\bfull\(\)", ["partial()"]), (r"\bpartial\(\)", ["full()"]), (r"\btotal\(\)", ["partial()"]),
    (r"\bN_ROWS\b", ["N_COLS"]), (r"\bN_COLS\b", ["N_ROWS"]), (r"\bn_rows\b", ["n_cols"]), (r"\bn_cols\b", ["n_rows"]),
    (r"::zero\(\)", ["::one()"]), (r"::one\(\)", ["::zero()"]), (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]),
    (r"\.\.=", [".."]), (r"(?<!\.)\.\.(?![.=])(?=[A-Za-z(])", ["..="]),
    (r"\b0\.\.", ["1.."]), (r"-(?=[A-Z])", [""]), (r"!(?=[a-z(])", [""]), (r"\br_P\b", ["r_F"]), (r"\br_F\b", ["r_P"]),
    (r"\bappend_message\(", ["append_message_("]),
]


def mutants():
    out = []
    for f in FILES:
        lines = (R / f).read_text().split("\n")
        end = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l or "cfg(all(test" in l), len(lines))
        for i in range(end):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "extern", "const STATE", "const N")):
                continue
            if re.match(r"^(pub )?(const )?[A-Z_a-z0-9]+(: usize)?,$", s):
                continue
            code = l.split("//")[0]
            seen = set()
            def put(new, what):
                if new != l and new not in seen:
                    seen.add(new)
                    out.append({"file": f, "line": i + 1, "old": l, "new": new, "what": what})
            for pat, reps in SWAPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        if "->" in code[max(0, m.start() - 1):m.end() + 1] or ("impl" in s or s.startswith("fn ") or s.startswith("pub fn") or "where" in s):
                            continue
                        put(l[:m.start()] + r + l[m.end():], f"{m.group(0).strip()} -> {r.strip()}")
            for m in re.finditer(r"(?<![\w.])(\d+)(?:(u64|usize|u32|f64)?)\b(?!\.)", code):
                n = int(m.group(1))
                for k in ([n + 1, n - 1] if n else [1]):
                    put(l[:m.start(1)] + str(k) + l[m.end(1):], f"{n} -> {k}")
            if s.endswith(";") and not s.startswith(("let ", "return", "type ", "}", "pub ", ")", "]")) and "(" in s or (s.endswith(";") and "=" in s and not s.startswith(("let", "const", "pub", "static", "type"))):
                put(re.match(r"\s*", l).group(0) + "();", "deleted")
    return out


def run(k, n, outp):
    ms = mutants()
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            done.add(json.loads(l)["n"])
    order = list(range(len(ms)))
    random.Random(7).shuffle(order)
    for i in order[k::n]:
        m = ms[i]
        if i in done:
            continue
        p = R / m["file"]
        text = p.read_text()
        lines = text.split("\n")
        assert lines[m["line"] - 1] == m["old"]
        lines[m["line"] - 1] = m["new"]
        p.write_text("\n".join(lines))
        res, t0 = {}, time.time()
        for c in FILES[m["file"]]:
            try:
                r = subprocess.run(["python3", "/verif/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                rc = r.returncode
                if rc == 2 and "does not build" in r.stdout and "error" in r.stdout:
                    rc = "nobuild"
            except subprocess.TimeoutExpired:
                rc = "timeout"
            res[c] = rc
            if rc in (1, "nobuild"):
                break
        p.write_text(text)
        with open(outp, "a") as f:
            f.write(json.dumps({"n": i, **m, "res": res, "caught": 1 in res.values(), "nobuild": "nobuild" in res.values(), "s": round(time.time() - t0)}) + "\n")


if sys.argv[1] == "list":
    ms = mutants()
    for i, m in enumerate(ms):
        print(i, m["file"], m["line"], m["what"], "|", m["new"].strip())
else:
    run(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
