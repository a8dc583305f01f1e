"""Polynomial identities over the reals as small-step Verus lemmas.

`ring_lemma(name, params, lhs, rhs)` returns a proof function that ensures
lhs == rhs. Z3 does not find such identities beyond a handful of monomials, so
the text spells out the expansion of both sides into one normal form; every
step is checked by the verifier (nothing here is trusted)."""
import ast

BASE = """
pub proof fn ring_distr(a: real, b: real, c: real) ensures (a + b) * c == a * c + b * c {
    assert((a + b) * c == a * c + b * c) by(nonlinear_arith);
}
pub proof fn ring_distl(a: real, b: real, c: real) ensures a * (b + c) == a * b + a * c {
    assert(a * (b + c) == a * b + a * c) by(nonlinear_arith);
}
pub proof fn ring_as(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c) {
    assert((a * b) * c == a * (b * c)) by(nonlinear_arith);
}
pub proof fn ring_sw(a: real, b: real, c: real) ensures a * (b * c) == b * (a * c) {
    assert(a * (b * c) == b * (a * c)) by(nonlinear_arith);
}
pub proof fn ring_cm(a: real, b: real) ensures a * b == b * a {
    assert(a * b == b * a) by(nonlinear_arith);
}
pub proof fn ring_ng(a: real, b: real) ensures (-a) * b == -(a * b) {
    assert((-a) * b == -(a * b)) by(nonlinear_arith);
}
pub proof fn ring_gn(a: real, b: real) ensures a * (-b) == -(a * b) {
    assert(a * (-b) == -(a * b)) by(nonlinear_arith);
}
pub proof fn ring_cong(a: real, b: real, c: real, d: real) requires a == c, b == d ensures a * b == c * d { }
"""


def mono(m):
    """canonical text of a monomial (tuple of sorted names)"""
    if not m:
        return "1real"
    s = m[-1]
    for v in reversed(m[:-1]):
        s = f"({v} * {s})"
    return s


def term(c, m):
    if not m:
        return f"{c}real" if c >= 0 else f"(-{-c}real)"
    if c == 1:
        return mono(m)
    if c < 0:
        return f"(-{term(-c, m)})"
    return f"({c}real * {mono(m)})"


def poly(p):
    if not p:
        return "0real"
    items = sorted(p.items())
    s = term(items[-1][1], items[-1][0])
    for m, c in reversed(items[:-1]):
        s = f"({term(c, m)} + {s})"
    return s


class R:
    def __init__(self, params):
        self.out, self.params, self.n = [], params, 0
        self.seen = set()

    def emit(self, s):
        if s not in self.seen:
            self.seen.add(s)
            self.out.append(s)

    def go(self, e):
        """returns (text, poly); afterwards text == poly(p) is a known fact"""
        if isinstance(e, ast.Name):
            return e.id, {(e.id,): 1}
        if isinstance(e, ast.Constant):
            return f"{e.value}real", ({(): e.value} if e.value else {})
        if isinstance(e, ast.UnaryOp):
            t, p = self.go(e.operand)
            return f"(-{t})", {m: -c for m, c in p.items()}
        if isinstance(e.op, (ast.Add, ast.Sub)):
            a, p = self.go(e.left)
            b, q = self.go(e.right)
            sg = 1 if isinstance(e.op, ast.Add) else -1
            r = dict(p)
            for m, c in q.items():
                r[m] = r.get(m, 0) + sg * c
                if r[m] == 0:
                    del r[m]
            t = f"({a} {'+' if sg == 1 else '-'} {b})"
            self.emit(f"assert({t} == {poly(r)});")
            return t, r
        if isinstance(e.op, ast.Mult):
            a, p = self.go(e.left)
            b, q = self.go(e.right)
            t = f"({a} * {b})"
            r = self.mul(p, q)
            self.emit(f"ring_cong({a}, {b}, {poly(p)}, {poly(q)});")
            self.emit(f"assert({t} == {poly(r)});")
            return t, r
        raise ValueError(ast.dump(e))

    def merge(self, m, n):
        """makes mono(m) * mono(n) == mono(m and n) a known fact"""
        if not m or not n:
            return
        v = m[0]
        if len(m) > 1:
            self.emit(f"ring_as({v}, {mono(m[1:])}, {mono(n)});")
            self.merge(m[1:], n)
            self.merge((v,), tuple(sorted(m[1:] + n)))
        elif v > n[0]:
            if len(n) == 1:
                self.emit(f"ring_cm({v}, {n[0]});")
            else:
                self.emit(f"ring_sw({v}, {n[0]}, {mono(n[1:])});")
                self.merge(m, n[1:])

    def times(self, c, m, d, n):
        """the same for the terms c m and d n"""
        if not m or not n:
            return
        if c < 0:
            self.emit(f"ring_ng({term(-c, m)}, {term(d, n)});")
            c = -c
        if d < 0:
            self.emit(f"ring_gn({term(c, m)}, {term(-d, n)});")
            d = -d
        if c != 1:
            self.emit(f"ring_as({c}real, {mono(m)}, {term(d, n)});")
        if d != 1:
            self.emit(f"ring_sw({mono(m)}, {d}real, {mono(n)});")
        self.merge(m, n)

    def mul(self, p, q):
        ps, qs = sorted(p.items()), sorted(q.items())
        Q = poly(q)
        r = {}
        if not ps or not qs:
            z, o = poly(p), poly(q)
            self.emit(f"assert({z} * {o} == 0real) by(nonlinear_arith);")
            return r
        for i, (m, c) in enumerate(ps):
            rest = dict(ps[i + 1:])
            if rest:
                self.emit(f"ring_distr({term(c, m)}, {poly(rest)}, {Q});")
            for j, (n, d) in enumerate(qs):
                rq = dict(qs[j + 1:])
                if rq:
                    self.emit(f"ring_distl({term(c, m)}, {term(d, n)}, {poly(rq)});")
                k = tuple(sorted(m + n))
                self.times(c, m, d, n)
                self.emit(f"assert({term(c, m)} * {term(d, n)} == {term(c * d, k)});")
                r[k] = r.get(k, 0) + c * d
        # pieces in sum
        for i, (m, c) in enumerate(ps):
            self.emit(f"assert({term(c, m)} * {Q} == " + " + ".join(
                term(c * d, tuple(sorted(m + n))) for n, d in qs) + ");")
        return {k: v for k, v in r.items() if v}


def ring_lemma(name, params, lhs, rhs):
    r = R(params)
    conv = lambda s: ast.parse(s, mode="eval").body
    a, p = r.go(conv(lhs))
    b, q = r.go(conv(rhs))
    if p != q:
        raise ValueError(f"{name}: not an identity: {p} / {q}")
    body = "\n    ".join(r.out)
    sg = ", ".join(f"{x}: real" for x in params)
    return f"""pub proof fn {name}({sg})
    ensures {a} == {b}
{{
    {body}
}}
"""
