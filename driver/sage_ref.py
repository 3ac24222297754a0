#!/usr/bin/env python3
"""Runs the functions of a Sage reference file without Sage: a small stand-in for the parts of Sage it
uses (prime field elements, matrices and vectors over them, exact division, ^ for powers).

Reads requests from stdin, one per line: FUNCTION WORD... with words in hexadecimal; answers with the
resulting words, or with `error ...`."""
import ast, io, sys, tokenize
from fractions import Fraction


class Fe:
    __slots__ = ("p", "v")

    def __init__(s, p, v):
        s.p, s.v = p, v % p

    def _o(s, o):
        return o.v if isinstance(o, Fe) else int(o)

    def __add__(s, o): return Fe(s.p, s.v + s._o(o))
    __radd__ = __add__
    def __sub__(s, o): return Fe(s.p, s.v - s._o(o))
    def __rsub__(s, o): return Fe(s.p, s._o(o) - s.v)
    def __mul__(s, o):
        if isinstance(o, (Mat, Vec)): return NotImplemented
        return Fe(s.p, s.v * s._o(o))
    __rmul__ = __mul__
    def __neg__(s): return Fe(s.p, -s.v)
    def __truediv__(s, o): return Fe(s.p, s.v * pow(s._o(o), -1, s.p))
    def __rtruediv__(s, o): return Fe(s.p, s._o(o) * pow(s.v, -1, s.p))
    def __pow__(s, e): return Fe(s.p, pow(s.v, int(e), s.p))
    def __eq__(s, o): return s.v == s._o(o) % s.p
    def __int__(s): return s.v
    def __hash__(s): return hash(s.v)
    def __repr__(s): return str(s.v)


class GF:
    def __init__(s, p): s.p = int(p)
    def __call__(s, v): return Fe(s.p, int(v))
    def zero(s): return s(0)
    def one(s): return s(1)


class Vec:
    def __init__(s, v): s.e = list(v)
    def __iter__(s): return iter(s.e)
    def __len__(s): return len(s.e)
    def __getitem__(s, i): return s.e[i]
    def __setitem__(s, i, v): s.e[i] = v
    def list(s): return list(s.e)
    def __add__(s, o): return Vec(a + b for a, b in zip(s.e, o.e))
    def __sub__(s, o): return Vec(a - b for a, b in zip(s.e, o.e))
    def __mul__(s, o):
        if isinstance(o, Mat):
            return Vec(sum(s.e[i] * o.r[i][j] for i in range(len(s.e))) for j in range(len(o.r[0])))
        if isinstance(o, Vec):
            return sum(a * b for a, b in zip(s.e, o.e))
        return Vec(a * o for a in s.e)


class Mat:
    def __init__(s, rows): s.r = [list(x) for x in rows]
    def nrows(s): return len(s.r)
    def ncols(s): return len(s.r[0])
    def list(s): return [x for r in s.r for x in r]
    def transpose(s): return Mat(zip(*s.r))
    def __getitem__(s, k):
        if not isinstance(k, tuple): return Vec(s.r[k])
        i, j = k
        if isinstance(i, list) or isinstance(j, list):
            ii = i if isinstance(i, list) else [i]
            jj = j if isinstance(j, list) else [j]
            return Mat([[s.r[a][b] for b in jj] for a in ii])
        return s.r[i][j]
    def __setitem__(s, k, v):
        i, j = k
        if isinstance(i, list) or isinstance(j, list):
            ii = i if isinstance(i, list) else [i]
            jj = j if isinstance(j, list) else [j]
            for x, a in enumerate(ii):
                for y, b in enumerate(jj):
                    s.r[a][b] = v.r[x][y]
        else:
            s.r[i][j] = v
    def __mul__(s, o):
        if isinstance(o, Vec):
            return Vec(sum(a * b for a, b in zip(r, o.e)) for r in s.r)
        if isinstance(o, Mat):
            return Mat([[sum(r[k] * o.r[k][j] for k in range(len(r))) for j in range(len(o.r[0]))] for r in s.r])
        return Mat([[x * o for x in r] for r in s.r])
    def inverse(s):
        n = len(s.r)
        a = [list(r) + [r[0] * 0 + (1 if i == j else 0) for j in range(n)] for i, r in enumerate(s.r)]
        for c in range(n):
            p = next(r for r in range(c, n) if not (a[r][c] == 0))
            a[c], a[p] = a[p], a[c]
            k = 1 / a[c][c]
            a[c] = [x * k for x in a[c]]
            for r in range(n):
                if r != c:
                    f = a[r][c]
                    a[r] = [x - f * y for x, y in zip(a[r], a[c])]
        return Mat([r[n:] for r in a])


class matrix:
    def __new__(cls, *a):
        if len(a) == 3 and isinstance(a[0], GF) and isinstance(a[1], int):
            return Mat([[a[0](0)] * a[2] for _ in range(a[1])])
        if len(a) == 2 and isinstance(a[0], GF):
            return Mat([[a[0](x) for x in r] for r in a[1]])
        return Mat(a[-1])
    @staticmethod
    def identity(*a):
        n = a[-1]
        one = (lambda x: a[0](x)) if len(a) == 2 else (lambda x: x)
        return Mat([[one(1 if i == j else 0) for j in range(n)] for i in range(n)])


def _div(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        q = Fraction(a) / Fraction(b)
        return int(q) if q.denominator == 1 else q
    return a / b


class _Sage(ast.NodeTransformer):
    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("_div", ast.Load()), [n.left, n.right], []), n)
        return n


def load(path):
    """The definitions of the file. What it prints or asserts at the top level is left out."""
    src = open(path).read()
    out = []
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        # Sage's ^ is the power operator; binding strength included
        out.append(t._replace(string="**") if t.type == tokenize.OP and t.string == "^" else t)
    tree = ast.parse(tokenize.untokenize((t.type, t.string) for t in out))
    keep = []
    for n in tree.body:
        if isinstance(n, ast.Expr) or isinstance(n, ast.Assert):
            continue
        if isinstance(n, (ast.For, ast.While)) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("perm", "perm_original", "print") for x in ast.walk(n)):
            continue
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in ("total_time_passed", "timer_end", "average_time") for x in ast.walk(n)):
            continue
        keep.append(n)
    tree.body = keep
    ns = {"GF": GF, "matrix": matrix, "vector": lambda *a: Vec(a[-1]), "_div": _div, "identity_matrix": matrix.identity, "__name__": "sage"}
    exec(compile(ast.fix_missing_locations(_Sage().visit(tree)), path, "exec"), ns)
    return ns


def main():
    ns = load(sys.argv[1])
    F = ns["F"]
    print("ready", flush=True)
    for line in sys.stdin:
        f, *w = line.split()
        try:
            r = ns[f]([F(int(x, 16)) for x in w])
            print(" ".join("%x" % int(x) for x in r), flush=True)
        except Exception as e:  # the caller decides what that means
            print("error", type(e).__name__, e, flush=True)


if __name__ == "__main__":
    main()
