"""Minimal Rust lexer and item finder used to lift functions verbatim out of /repo.

Nothing here understands Rust semantics: it lexes, balances brackets and finds
`impl` blocks, traits, structs, enums and functions by name.
"""
import re


class Lost(Exception):
    """An anchor (item, loop, hint position) the contracts refer to is not there."""


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f"{self.k}:{self.s}"


_num = re.compile(r"0x[0-9a-fA-F_]+\w*|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?(?:_?[a-z]\w*)?")
_id = re.compile(r"(?:r#)?[A-Za-z_]\w*")
_punct = ["<<=", ">>=", "...", "..=", "&&", "||", "->", "=>", "==", "!=", "<=", "::",
          "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", ".."]


def lex(src):
    """tokens without comments and white space; '>' is always a single token,
    '>=' is joined (needed to tell it from generics)"""
    i, n, out = 0, len(src), []
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
        elif src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
        elif src.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if src.startswith("/*", i):
                    d, i = d + 1, i + 2
                elif src.startswith("*/", i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
        elif c == '"' or (c in "rb" and re.match(r'(?:b?r#*"|b")', src[i:i + 6])):
            m = re.match(r'(b?)(r?)(#*)"', src[i:])
            raw, h = m.group(2), m.group(3)
            j = i + m.end()
            if raw:
                e = src.index('"' + h, j) + 1 + len(h)
            else:
                while src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                e = j + 1
            out.append(Tok("str", src[i:e], i, e))
            i = e
        elif c == "'":
            m = re.match(r"'(?:\\.[^']*|[^'\\])'", src[i:])
            if m:
                out.append(Tok("char", m.group(), i, i + m.end()))
                i += m.end()
            else:
                m = re.match(r"'[A-Za-z_]\w*", src[i:])
                out.append(Tok("life", m.group(), i, i + m.end()))
                i += m.end()
        elif c.isdigit():
            m = _num.match(src, i)
            # `0..5` and tuple fields `a.0.b`
            s = m.group()
            if out and out[-1].s == ".":
                s = re.match(r"\d+", s).group()
            out.append(Tok("num", s, i, i + len(s)))
            i += len(s)
        elif _id.match(src, i):
            m = _id.match(src, i)
            out.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
        else:
            for p in _punct:
                if src.startswith(p, i):
                    break
            else:
                p = c
                if src.startswith(">=", i) and not src.startswith(">=", i - 1):
                    p = ">="
            out.append(Tok("p", p, i, i + len(p)))
            i += len(p)
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def match_close(t, i):
    """index of the bracket closing t[i]"""
    st = []
    for j in range(i, len(t)):
        s = t[j].s
        if t[j].k != "p":
            continue
        if s in OPEN:
            st.append(OPEN[s])
        elif s in (")", "]", "}"):
            if not st or st[-1] != s:
                raise Lost("unbalanced brackets")
            st.pop()
            if not st:
                return j
    raise Lost("unbalanced brackets")


class Fn:
    def __init__(self, src, toks, i0, name):
        """i0: index of the `fn` token"""
        self.src, self.toks, self.name = src, toks, name
        t = toks
        i = i0 + 2
        # generics
        self.generics = ""
        if t[i].s == "<":
            j = skip_angle(t, i)
            self.generics = src[t[i].a:t[j].b]
            i = j + 1
        if t[i].s != "(":
            raise Lost(f"fn {name}: no parameter list")
        j = match_close(t, i)
        self.params = src[t[i].b:t[j].a]
        i = j + 1
        self.ret = ""
        if t[i].s == "->":
            k = i + 1
            while not (t[k].s in ("{", ";") or t[k].s == "where"):
                if t[k].s == "<":
                    k = skip_angle(t, k) + 1
                elif t[k].s in ("(", "["):
                    k = match_close(t, k) + 1
                else:
                    k += 1
            self.ret = src[t[i + 1].a:t[k - 1].b]
            i = k
        self.where = ""
        if t[i].s == "where":
            k = i
            while t[k].s not in ("{", ";"):
                k += 1
            self.where = src[t[i].a:t[k - 1].b]
            i = k
        if t[i].s == ";":
            self.body = None
            self.end = i
        else:
            j = match_close(t, i)
            self.body = src[t[i].b:t[j].a]
            self.end = j
        self.line = src.count("\n", 0, t[i0].a) + 1
        self.start_tok = i0


def skip_angle(t, i):
    """index of the '>' closing the '<' at i"""
    d = 0
    j = i
    while j < len(t):
        s = t[j].s
        if s == "<":
            d += 1
        elif s == ">":
            d -= 1
            if d == 0:
                return j
        elif s == ">=" and d == 1:
            return j
        elif s in OPEN and t[j].k == "p":
            j = match_close(t, j)
        j += 1
    raise Lost("unbalanced <>")


def norm(s):
    """token-normalised text"""
    return " ".join(x.s for x in lex(s))


class SrcFile:
    def __init__(self, path, rel):
        self.rel = rel
        try:
            self.src = open(path).read()
        except OSError:
            raise Lost(f"{rel}: file not found")
        self.t = lex(self.src)
        self.items = self._items(0, len(self.t))

    def _items(self, i, end):
        """(kind, header tokens text, name, first token index, body open, body close)"""
        t, out = self.t, []
        while i < end:
            s = t[i].s
            if s == "#":  # attribute
                i += 1
                if t[i].s == "!":
                    i += 1
                i = match_close(t, i) + 1
                continue
            if t[i].k == "id" and s in ("impl", "trait", "mod", "struct", "enum", "fn", "const",
                                         "static", "type", "use", "macro_rules", "union"):
                if s == "const" and t[i + 1].s == "fn":
                    i += 1
                    continue
                j = i + 1
                if s == "fn":
                    f = Fn(self.src, t, i, t[i + 1].s)
                    out.append(("fn", f, f.name, i, None, f.end))
                    i = f.end + 1
                    continue
                while t[j].s not in ("{", ";"):
                    if t[j].s in ("(", "["):
                        j = match_close(t, j)
                    j += 1
                    if s == "use" and t[j].s == "{":
                        j = match_close(t, j) + 1
                if t[j].s == ";":
                    out.append((s, norm(self.src[t[i].a:t[j].a]), t[i + 1].s, i, None, j))
                    i = j + 1
                    continue
                k = match_close(t, j)
                out.append((s, norm(self.src[t[i].a:t[j].a]), t[i + 1].s, i, j, k))
                i = k + 1
                continue
            i += 1
        return out

    def find_fn(self, where, name, inhead=None):
        """where: None for a free function, otherwise (trait name or None, type name);
        inhead tells apart several impls of one trait: text of the impl header, blanks removed"""
        hits = []
        if where is None:
            for it in self.items:
                if it[0] == "fn" and it[2] == name:
                    hits.append((None, it[1]))
        else:
            tr, ty = where
            for it in self.items:
                if it[0] == "impl" and impl_key(it[1]) == (tr, ty) or \
                        it[0] == "trait" and tr == "trait" and it[2] == ty:
                    for sub in self._items(it[4] + 1, it[5]):
                        if sub[0] == "fn" and sub[2] == name:
                            hits.append((self.src[self.t[it[3]].a:self.t[it[4]].a].strip(), sub[1]))
        if inhead is not None:
            hits = [h for h in hits if inhead in re.sub(r"\s", "", h[0])]
        if len(hits) != 1:
            raise Lost(f"{self.rel}: {len(hits)} functions named {where}::{name}")
        return hits[0]

    def find_type(self, name):
        for it in self.items:
            if it[0] in ("struct", "enum") and it[2] == name:
                a = self.t[it[3]].a
                b = self.t[it[5]].b
                return self.src[a:b]
        raise Lost(f"{self.rel}: type {name} not found")


def impl_key(header):
    """(trait head name or None, self type head name) of a normalised impl header"""
    t = header.split(" ")
    i = 1
    if t[i] == "<":
        d = 0
        while True:
            if t[i] == "<":
                d += 1
            elif t[i] == ">":
                d -= 1
                if d == 0:
                    break
            i += 1
        i += 1
    rest = t[i:]
    if "where" in rest:
        rest = rest[:rest.index("where")]
    # split at a top-level `for`
    d = 0
    at = None
    for k, s in enumerate(rest):
        if s == "<":
            d += 1
        elif s == ">":
            d -= 1
        elif s == "for" and d == 0:
            at = k
    def head(x):
        # last path segment before generics
        y = []
        for s in x:
            if s == "<":
                break
            if s[0].isalpha() or s[0] == "_":
                y.append(s)
        return y[-1] if y else ""
    if at is None:
        return (None, head(rest))
    return (head(rest[:at]), head(rest[at + 1:]))
