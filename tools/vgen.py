"""Builds one Verus file per property from /repo's current source.

The executable text comes from /repo on every run (rustx.py); this module only
splices in contracts, loop invariants and proof hints, and applies the
mechanical rewrite rules listed in RULES. Everything it drops or rewrites is
recorded and ends up in the evidence.
"""
import os
import hashlib
import re
from rustx import Lost, SrcFile, lex, match_close, norm, impl_key, OPEN

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PRE = os.path.join(VERIF, "verus", "prelude")

RULES = {
    "attrs": "attributes (#[inline], #[must_use], #[derive], #[allow]) and comments are dropped",
    "ulps_eq": "ulps_eq!(a, b) / approx::ulps_eq!(a, b) -> ulps_eq_s(a, b), a prelude function",
    "range_incl": "(a..=b).contains(&x) -> in_range_incl(a, b, x), a prelude function",
    "then": "c.then(|| e) -> (if c { Some(e) } else { None })",
    "then_some": "c.then_some(e) -> (if c { Some(e) } else { None })",
    "while_let": "while let P = E { B } -> loop { if let P = E { B } else { break; } }",
    "mut_self": "fn f(mut self) { .. self .. } -> fn f(self) { let mut me__ = self; .. me__ .. }",
    "format": "format!(..) -> stub_string()",
    "vec_mac": "vec![x; n] / vec![a, b] kept (Verus supports both)",
    "vec_list": "vec![a, b] -> { let mut v__ = Vec::new(); v__.push(a); v__.push(b); v__ }",
    "enumerate": "for p in X.enumerate() / .skip(a) / .take(a) { B } -> the language's own desugaring (loop over X.next()) with the position counted in the text",
    "for_iter": "for x in e -> for x in itK: e (names the ghost iterator)",
    "ref_pat": "for &x in v.iter() -> for x__ in v.iter() { let x = *x__; .. }",
    "path": "crate-local module paths are dropped from names",
    "foreach": "it.for_each(|p| B) -> for p in it { B }",
    "map_collect": "x.map(|p| e).collect() -> { let mut out__ = Vec::new(); for p in x { out__.push(e); } out__ }",
    "try_collect": "x.map(|p| e).collect::<Result<..>>()? -> the same with out__.push((e)?)",
    "map_reduce": "x.map(|p| e).reduce(|| i, |a, b| f) -> reduce_({ the list of the items }, || i, |a, b| f), a trusted function: any tree of combinations",
    "result_map": "e.map(|p| f) on a Result -> match",
    "bind": "for p in f(..)?.iter() { B } -> let list__ = f(..)?; for p in list__.iter() { B }",
    "module_path": "crate-local module paths are dropped from names",
    "range_vec": "(a..b).collect() -> range_vec_(a, b), a verified prelude function",
    "par_iter": "x.par_iter() / x.into_par_iter() -> x.iter() / x.into_iter()",
    "chunks": "s.chunks(n).collect() -> chunks_(s, n), a trusted function",
    "continue": "if C { continue; } REST in a loop's body -> if C { } else { REST }",
    "sorted": "for P in X.map(F).sorted_unstable_by(C) { B } -> let mut s__ = the list of X.map(F); s__.sort_unstable_by(C); for P in s__.iter() { B } (what itertools does)",
    "windows": "for l in x.window_iter() / x.windows(2) / x.chunks_exact(2) { B } -> the language's own desugaring with a ghost counter: let mut w = ..; loop { match w.next() { Some(l) => { B } None => break } }",
    "all": "X.all(|p| e) -> loop over X that stops at the first p without e",
    "assert": "assert!(e) -> rt_assert(e), a prelude function that requires e",
    "any": "X.any(|p| e) -> loop over X that stops at the first p with e",
    "option_map": "E.map(|p| e) on an Option -> match",
    "max_by": "X.map(|p| e).max_by(|a, b| c).unwrap_or(d) -> the standard library's fold (the last of several largest items wins)",
    "once": "[e].iter().copied() -> once_(e), a trusted iterator of that one item",
    "sorted_keys": "m.keys().sorted_unstable().copied() -> m.sorted_keys_(), a trusted function",
    "chain": "a.chain(b) on usize iterators -> a.chain_(b), a trusted function",
    "std_contract": "x.copied() / x.clone() / x.to_vec() / x.cloned() -> the same name with _, a trusted function with the contract of the standard one",
    "cfg_feature": "a block under #[cfg(feature = ..)] is dropped (no such feature is enabled)",
    "ok_or_else": "E.ok_or_else(|| X)? -> (match E { Some(v__) => v__, None => return Err(X) })",
    "label_continue": "'l: for x in X { for y in Y { if C { continue 'l; } } REST } -> the inner loop sets a flag that guards REST",
    "text": "format!(F, ..) / writeln!(w, F, ..) -> the prelude function of the OBJ row that F spells, / w.row_(that row)",
    "item_list": "an iterator argument or result is the list (Vec / slice) of its items",
    "custom": "property-specific textual rule (see `custom_rules`)",
}


def text_of(toks, i, j, src):
    return src[toks[i].a:toks[j].b] if j >= i else ""


def strip_comments(src):
    """comments replaced by white space (line structure kept)"""
    t = lex(src)
    out, pos = [], 0
    for x in t:
        gap = src[pos:x.a]
        out.append("".join(c if c == "\n" else " " for c in gap))
        out.append(x.s)
        pos = x.b
    return "".join(out)


def strip_attrs(src, used):
    t = lex(src)
    cut = []
    i = 0
    while i < len(t):
        if t[i].s == "#" and i + 1 < len(t) and t[i + 1].s in ("[", "!"):
            j = i + 1 if t[i + 1].s == "[" else i + 2
            k = match_close(t, j)
            b = t[k].b
            m = re.fullmatch(r'#\[cfg\(feature="(\w+)"\)\]', "".join(x.s for x in t[i:k + 1]))
            if m:  # code of a feature that is not enabled is not compiled
                if t[k + 1].s != "{":
                    raise Lost(f"cfg(feature = {m.group(1)}) on something that is not a block")
                k = match_close(t, k + 1)
                b = t[k].b
                used["cfg_feature"] = used.get("cfg_feature", 0) + 1
            cut.append((t[i].a, b))
            i = k + 1
        else:
            i += 1
    for a, b in reversed(cut):
        src = src[:a] + src[b:]
        used["attrs"] = used.get("attrs", 0) + 1
    return src


def split_args(t, i, j):
    """token ranges of the comma separated arguments between the brackets i and j"""
    out, d, a = [], 0, i + 1
    k = i + 1
    while k < j:
        if t[k].k == "p" and t[k].s in OPEN:
            k = match_close(t, k)
        elif t[k].s == ",":
            out.append((a, k - 1))
            a = k + 1
        k += 1
    if a < j:
        out.append((a, j - 1))
    return out


def postfix_start(t, i):
    """first token of the postfix expression ending at token i"""
    while True:
        if t[i].s == "?":
            i -= 1
        if t[i].s in (")", "]"):
            d = 0
            while True:
                if t[i].s in (")", "]", "}"):
                    d += 1
                elif t[i].s in OPEN and t[i].k == "p":
                    d -= 1
                    if d == 0:
                        break
                i -= 1
            # call or macro or index: name before it
            p = t[i - 1]
            if p.s == "!" and t[i - 2].k == "id":
                i -= 2
            elif p.k == "id" and p.s not in ("if", "return", "in", "match", "while", "else", "let"):
                i -= 1
            elif p.s in (")", "]") and t[i].s == "[":
                i -= 1
                continue
            else:
                return i
        elif t[i].k in ("id", "num"):
            pass
        else:
            raise Lost("expression start not found")
        while t[i - 1].s == "::":
            i -= 2
        if t[i - 1].s == ".":
            i -= 2
            continue
        return i


def r_ulps_eq(src, used):
    while True:
        t = lex(src)
        for i in range(len(t) - 2):
            if t[i].s == "ulps_eq" and t[i + 1].s == "!":
                a = i
                if i >= 2 and t[i - 1].s == "::":
                    a = i - 2
                j = match_close(t, i + 2)
                args = []
                for (x, y) in split_args(t, i + 2, j):
                    if t[x].s == "&":
                        x += 1
                    args.append(src[t[x].a:t[y].b])
                if len(args) != 2:
                    raise Lost("ulps_eq! with other than two arguments")
                src = src[:t[a].a] + "ulps_eq_s(" + ", ".join(args) + ")" + src[t[j].b:]
                used["ulps_eq"] = used.get("ulps_eq", 0) + 1
                break
        else:
            return src


def r_range(src, used):
    while True:
        t = lex(src)
        for i in range(len(t) - 3):
            if t[i].s == ")" and t[i + 1].s == "." and t[i + 2].s == "contains":
                o = None
                d = 0
                k = i
                while k >= 0:
                    if t[k].s in (")", "]", "}"):
                        d += 1
                    elif t[k].k == "p" and t[k].s in OPEN:
                        d -= 1
                        if d == 0:
                            o = k
                            break
                    k -= 1
                mid = [m for m in range(o + 1, i) if t[m].s == "..="]
                if len(mid) != 1:
                    continue
                m = mid[0]
                c = match_close(t, i + 3)
                x = i + 4
                if t[x].s != "&":
                    continue
                arg = src[t[x + 1].a:t[c - 1].b]
                src = (src[:t[o].a] + f"in_range_incl({src[t[o+1].a:t[m-1].b]}, "
                       f"{src[t[m+1].a:t[i-1].b]}, {arg})" + src[t[c].b:])
                used["range_incl"] = used.get("range_incl", 0) + 1
                break
        else:
            return src


def r_then(src, used):
    while True:
        t = lex(src)
        for i in range(1, len(t) - 2):
            if t[i - 1].s == "." and t[i].s in ("then", "then_some") and t[i + 1].s == "(":
                c = match_close(t, i + 1)
                if t[i].s == "then":
                    if t[i + 2].s == "||":
                        b = src[t[i + 3].a:t[c - 1].b]
                    else:
                        continue
                else:
                    b = src[t[i + 2].a:t[c - 1].b]
                s = postfix_start(t, i - 2)
                cond = src[t[s].a:t[i - 2].b]
                src = (src[:t[s].a] + f"(if {cond} {{ Some({b}) }} else {{ None }})" + src[t[c].b:])
                used[t[i].s] = used.get(t[i].s, 0) + 1
                break
        else:
            return src


def r_while_let(src, used):
    while True:
        t = lex(src)
        for i in range(len(t) - 1):
            if t[i].s == "while" and t[i + 1].s == "let":
                j = i + 2
                while t[j].s != "{":
                    if t[j].s in ("(", "["):
                        j = match_close(t, j)
                    j += 1
                c = match_close(t, j)
                src = (src[:t[i].a] + "loop { if " + src[t[i + 1].a:t[c].b]
                       + " else { break; } }" + src[t[c].b:])
                used["while_let"] = used.get("while_let", 0) + 1
                break
        else:
            return src


def r_format(src, used):
    while True:
        t = lex(src)
        for i in range(len(t) - 2):
            if t[i].s == "format" and t[i + 1].s == "!":
                c = match_close(t, i + 2)
                src = src[:t[i].a] + "stub_string()" + src[t[c].b:]
                used["format"] = used.get("format", 0) + 1
                break
        else:
            return src


def r_map_collect(src, used):
    """X.map(|P| E).collect() -> { let mut out__ = Vec::new(); for P in X { out__.push(E); } out__ }"""
    while True:
        t = lex(src)
        for i in range(1, len(t) - 3):
            if t[i].s == "map" and t[i - 1].s == "." and t[i + 1].s == "(" and t[i + 2].s == "|":
                c = match_close(t, i + 1)
                k = c + 1
                if not (k + 1 < len(t) and t[k].s == "." and t[k + 1].s == "collect"):
                    continue
                k += 2
                tries = False
                if t[k].s == "::":
                    from rustx import skip_angle
                    tries = t[k + 2].s == "Result"
                    k = skip_angle(t, k + 1) + 1
                if t[k].s != "(":
                    continue
                e = match_close(t, k)
                b = i + 3
                while t[b].s != "|":
                    b += 1
                pat = src[t[i + 3].a:t[b - 1].b]
                body = src[t[b + 1].a:t[c - 1].b]
                st = postfix_start(t, i - 2)
                x = src[t[st].a:t[i - 2].b]
                if tries:  # the first Err is the result
                    if t[e + 1].s != "?":
                        raise Lost("collect into a Result that is not tried at once")
                    body, e = f"({body})?", e + 1
                    used["try_collect"] = used.get("try_collect", 0) + 1
                src = (src[:t[st].a] + "{ let mut out__ = Vec::new(); for " + pat + " in " + x
                       + " { out__.push(" + body + "); } out__ }" + src[t[e].b:])
                used["map_collect"] = used.get("map_collect", 0) + 1
                break
        else:
            return src


def r_foreach(src, used):
    """X.for_each(|P| B); -> for P in X { B }"""
    while True:
        t = lex(src)
        for i in range(1, len(t) - 3):
            if t[i].s == "for_each" and t[i - 1].s == "." and t[i + 1].s == "(" and t[i + 2].s == "|":
                c = match_close(t, i + 1)
                b = i + 3
                while t[b].s != "|":
                    b += 1
                pat = src[t[i + 3].a:t[b - 1].b]
                body = src[t[b + 1].a:t[c - 1].b]
                st = postfix_start(t, i - 2)
                x = src[t[st].a:t[i - 2].b]
                e = t[c].b
                if c + 1 < len(t) and t[c + 1].s == ";":
                    e = t[c + 1].b
                src = src[:t[st].a] + "for " + pat + " in " + x + " { " + body + " }" + src[e:]
                used["foreach"] = used.get("foreach", 0) + 1
                break
        else:
            return src


def r_windows(src, used):
    """the desugaring of a for loop over the consecutive pairs of a polyline, with a ghost counter:
    for l in X.window_iter() { B } -> let mut w0__ = X.window_iter(); let ghost mut k0__ = -1int;
        loop { match w0__.next() { Some(l) => { proof { k0__ = k0__ + 1; } B } None => { break; } } }"""
    n = 0
    while True:
        t = lex(src)
        for i in range(len(t)):
            if t[i].k == "id" and t[i].s == "for":
                m = i + 1
                while t[m].s != "in":
                    m = match_close(t, m) + 1 if t[m].s in OPEN else m + 1
                j = m + 1
                while t[j].s != "{":
                    j = match_close(t, j) + 1 if t[j].s in ("(", "[") else j + 1
                e = norm(src[t[m + 1].a:t[j - 1].b])
                if not re.match(r"^(.*) \. (window_iter \( \)|windows \( 2 \)|chunks_exact \( 2 \))$", e):
                    continue
                c = match_close(t, j)
                pat, x = src[t[i + 1].a:t[m - 1].b], src[t[m + 1].a:t[j - 1].b]
                src = (src[:t[i].a] + f"let mut w{n}__ = {x}; let ghost mut k{n}__ = -1int; "
                       f"loop {{ match w{n}__.next() {{ Some(item{n}__) => {{ let {pat} = item{n}__; proof {{ k{n}__ = k{n}__ + 1; }}"
                       + src[t[j].b:t[c].b] + " None => { break; } } }" + src[t[c].b:])
                n += 1
                used["windows"] = used.get("windows", 0) + 1
                break
        else:
            return src


def r_max_by(src, used):
    """X.map(|P| E).max_by(|A, B| C).unwrap_or(D) -> the fold of the standard library (the last of several largest items):
    { let mut best__ = None; for P in X { let cur__ = E; best__ = match best__ { None => Some(cur__), Some(max__) => {
        let A = &max__; let B = &cur__; match C { Ordering::Greater => Some(max__), _ => Some(cur__) } } }; }
      match best__ { Some(max__) => max__, None => D } }"""
    while True:
        t = lex(src)
        for i in range(1, len(t) - 3):
            if t[i].s != "map":
                continue
            r = closure_arg(src, t, i)
            if not r:
                continue
            pat, body, c = r
            if not (t[c + 1].s == "." and t[c + 2].s == "max_by"):
                continue
            q = c + 2
            c2 = match_close(t, q + 1)
            b = q + 3
            while t[b].s != "|":
                b = match_close(t, b) + 1 if t[b].s in OPEN else b + 1
            cut = [k for k in range(q + 3, b) if t[k].s == "," and depth0(t, q + 3, k)]
            if len(cut) != 1:
                continue
            pa, pb = src[t[q + 3].a:t[cut[0] - 1].b], src[t[cut[0] + 1].a:t[b - 1].b]
            cmp = src[t[b + 1].a:t[c2 - 1].b]
            if not (t[c2 + 1].s == "." and t[c2 + 2].s == "unwrap_or"):
                continue
            c3 = match_close(t, c2 + 3)
            dflt = src[t[c2 + 4].a:t[c3 - 1].b]
            st = postfix_start(t, i - 2)
            x = src[t[st].a:t[i - 2].b]
            src = (src[:t[st].a] + f"{{ let mut best__ = None; for {pat} in {x} {{ let cur__ = {body}; best__ = match best__ {{ None => Some(cur__), "
                   f"Some(max__) => {{ let {pa} = &max__; let {pb} = &cur__; match {cmp} {{ Ordering::Greater => Some(max__), _ => Some(cur__) }} }} }}; }} "
                   f"match best__ {{ Some(max__) => max__, None => {dflt} }} }}" + src[t[c3].b:])
            used["max_by"] = used.get("max_by", 0) + 1
            break
        else:
            return src


def depth0(t, a, k):
    """token k is not inside a bracket opened after a"""
    i = a
    while i < k:
        i = match_close(t, i) + 1 if t[i].s in OPEN else i + 1
    return i == k


def unref(pat, n):
    """patterns `&x` bind a fresh name first: Verus has no reference patterns"""
    fix = ""
    def f(m):
        nonlocal fix
        fix += f"let {m.group(1)} = *{m.group(1)}_r{n}__; "
        return f"{m.group(1)}_r{n}__"
    return re.sub(r"&\s*([a-z_]\w*)", f, pat), fix


def r_enumerate(src, used):
    """the desugaring of a for loop over an enumerated iterator, with the position counted in the text:
    for P in X.enumerate().skip(A) { B } -> let skip0__ = A; let mut w0__ = X; let mut e0__: usize = 0;
        loop { match w0__.next() { Some(item0__) => { let i0__ = e0__; e0__ = e0__ + 1;
            if i0__ >= skip0__ { let P = (i0__, item0__); B } } None => { break; } } }
    .take(A) -> the loop is left before taking an item once A items were taken"""
    n = 0
    while True:
        t = lex(src)
        for i in range(len(t)):
            if t[i].k == "id" and t[i].s == "for":
                m = i + 1
                while t[m].s != "in":
                    m = match_close(t, m) + 1 if t[m].s in OPEN else m + 1
                j = m + 1
                while t[j].s != "{":
                    j = match_close(t, j) + 1 if t[j].s in ("(", "[") else j + 1
                q = None
                for k in range(m + 1, j):
                    if t[k].s == "enumerate" and t[k - 1].s == "." and t[k + 1].s == "(" and t[k + 2].s == ")":
                        q = k
                if q is None:
                    continue
                mode, arg, z = {}, "0", q + 3
                while z < j and t[z].s == "." and t[z + 1].s in ("skip", "take") and t[z + 1].s not in mode and "take" not in mode:
                    e = match_close(t, z + 2)
                    mode[t[z + 1].s] = src[t[z + 3].a:t[e - 1].b]
                    z = e + 1
                if z != j:
                    continue
                c = match_close(t, j)
                pat, x, body = src[t[i + 1].a:t[m - 1].b], src[t[m + 1].a:t[q - 2].b], src[t[j].b:t[c].a]
                head = f"let mut w{n}__ = {x}; let mut e{n}__: usize = 0; "
                for md in mode:
                    head += f"let {md}{n}__: usize = {mode[md]}; "
                stop = ""
                if "take" in mode:
                    stop = f"if e{n}__ >= take{n}__ {{ break; }} "
                    if "skip" in mode:
                        stop = f"if e{n}__ >= skip{n}__ && e{n}__ - skip{n}__ >= take{n}__ {{ break; }} "
                step = f"let i{n}__ = e{n}__; e{n}__ = e{n}__ + 1; "
                pat, fix = unref(pat, n)
                inner = f"let {pat} = (i{n}__, item{n}__); {fix}{body}"
                if "skip" in mode:
                    inner = f"if i{n}__ >= skip{n}__ {{ {inner} }}"
                src = (src[:t[i].a] + head + f"loop {{ {stop}match w{n}__.next() {{ Some(item{n}__) => {{ {step}{inner} }}"
                       + " None => { break; } } }" + src[t[c].b:])
                n += 1
                used["enumerate"] = used.get("enumerate", 0) + 1
                break
        else:
            return src


def r_continue(src, used):
    """if C { continue; } REST, in a loop's body -> if C { } else { REST } (Verus' for loops have no continue)"""
    while True:
        t = lex(src)
        for i in range(2, len(t) - 2):
            if t[i].s == "continue" and t[i + 1].s == ";" and t[i - 1].s == "{" and t[i + 2].s == "}":
                d, k = 0, i + 3
                if t[k].s == "else":
                    raise Lost("continue in an if with an else")
                while True:  # the end of the enclosing block
                    if t[k].s in OPEN:
                        k = match_close(t, k)
                    elif t[k].s == "}":
                        break
                    k += 1
                # the block must be the body of a for loop
                o = next(x for x in range(len(t)) if t[x].s == "{" and t[x].k == "p" and match_close(t, x) == k)
                x = o - 1
                while x >= 0 and t[x].s not in (";", "{", "}"):
                    x -= 1
                if t[x + 1].s not in ("for", "while", "loop"):
                    raise Lost("continue outside the body of a loop")
                src = src[:t[i].a] + src[t[i + 2].a:t[i + 2].b] + " else {" + src[t[i + 2].b:t[k].a] + "}" + src[t[k].a:]
                used["continue"] = used.get("continue", 0) + 1
                break
        else:
            return src


def r_sorted(ty):
    """for P in X.map(F).sorted_unstable_by(C) { B } -> let mut s__ = the list of X.map(F); s__.sort_unstable_by(C); for P in s__.iter() { B }
    (what itertools does; the items are tuples of Copy types)"""
    def f(src, used):
        t = lex(src)
        hits = [i for i in range(1, len(t)) if t[i].s == "sorted_unstable_by" and t[i - 1].s == "."]
        for i in reversed(hits):
            c = match_close(t, i + 1)
            st = postfix_start(t, i - 2)
            if t[st - 1].s != "in" or t[c + 1].s != "{":
                raise Lost("sorted_unstable_by outside the head of a loop")
            fo = st - 1
            while t[fo].s != "for":
                fo -= 1
            u = {}
            lst = r_map_collect(src[t[st].a:t[i - 2].b] + ".collect()", u)
            if not u:
                raise Lost("sorted_unstable_by of something else than a map")
            lst = lst.replace("let mut out__ = Vec::new()", f"let mut out__ = Vec::<{ty}>::new()", 1)
            src = (src[:t[fo].a] + "let mut s__ = " + lst + "; s__.sort_unstable_by(" + src[t[i + 1].b:t[c].a] + "); "
                   + src[t[fo].a:t[st].a] + "s__.iter() " + src[t[c].b:])
            used["sorted"] = used.get("sorted", 0) + 1
        return src
    return f


PATHS = ("linestring_2d", "linestring_3d", "convex_hull", "simplify", "intersection", "indexed_intersection",
         "shape", "crate", "super", "self")


def r_path(src, used):
    """module paths of the crate are dropped: every item of a generated file lives in one module"""
    t = lex(src)
    cut = []
    for i in range(len(t) - 1):
        if t[i].s in PATHS and t[i + 1].s == "::":
            cut.append((t[i].a, t[i + 1].b))
    for a, b in reversed(cut):
        src = src[:a] + src[b:]
    if cut:
        used["path"] = used.get("path", 0) + len(cut)
    return src


def closure_arg(src, t, i):
    """t[i] is a method name after '.', followed by (|pat| body): (pattern, body, index of the ')')"""
    if not (t[i - 1].s == "." and t[i + 1].s == "(" and t[i + 2].s == "|"):
        return None
    c = match_close(t, i + 1)
    b = i + 3
    while t[b].s != "|":
        b += 1
    e = c - 1
    if t[e].s == ",":
        e -= 1
    return src[t[i + 3].a:t[b - 1].b], src[t[b + 1].a:t[e].b], c


def r_all(src, used):
    """X.all(|P| E) -> { let mut all__ = true; for P in X { if !(E) { all__ = false; break; } } all__ }"""
    while True:
        t = lex(src)
        for i in range(1, len(t) - 3):
            if t[i].s in ("all", "any"):
                r = closure_arg(src, t, i)
                if not r:
                    continue
                pat, body, c = r
                st = postfix_start(t, i - 2)
                x = src[t[st].a:t[i - 2].b]
                k = t[i].s
                a, b, n = ("true", "false", "!") if k == "all" else ("false", "true", "")
                src = (src[:t[st].a] + f"{{ let mut {k}__ = {a}; for {pat} in {x} {{ if {n}({body}) "
                       f"{{ {k}__ = {b}; break; }} }} {k}__ }}" + src[t[c].b:])
                used[k] = used.get(k, 0) + 1
                break
        else:
            return src


def r_option_map(src, used):
    """E.map(|P| B) with an Option E -> (match E { Some(P) => Some(B), None => None })"""
    while True:
        t = lex(src)
        for i in range(1, len(t) - 3):
            if t[i].s == "map":
                r = closure_arg(src, t, i)
                if not r:
                    continue
                pat, body, c = r
                st = postfix_start(t, i - 2)
                x = src[t[st].a:t[i - 2].b]
                src = (src[:t[st].a] + f"(match {x} {{ Some({pat}) => Some({body}), None => None }})" + src[t[c].b:])
                used["option_map"] = used.get("option_map", 0) + 1
                break
        else:
            return src


def r_map_reduce(ty, ident, req, ens, inv, hint, after):
    """X.map(|P| E).reduce(|| I, |A, B| F) -> the list of the items, the closures with contracts, reduce_ of them"""
    def rule(src, used):
        t = lex(src)
        for i in range(1, len(t) - 3):
            if t[i].s == "map":
                r = closure_arg(src, t, i)
                if not r:
                    continue
                pat, body, c = r
                k = c + 2
                if not (t[c + 1].s == "." and t[k].s == "reduce" and t[k + 1].s == "(" and t[k + 2].s == "||"):
                    continue
                e = match_close(t, k + 1)
                args = list(split_args(t, k + 1, e))
                if len(args) != 3:
                    raise Lost("reduce: not two closures")
                (a0, a1), (b0, _), (_, b1) = args  # the comma of |a, b| splits, too
                if t[b0].s != "|" or t[b0 + 2].s != "," or t[b0 + 4].s != "|":
                    raise Lost("reduce: not a closure of two names")
                x, y = t[b0 + 1].s, t[b0 + 3].s
                st = postfix_start(t, i - 2)
                it = src[t[st].a:t[i - 2].b]
                i0, f0 = src[t[a0 + 1].a:t[a1].b], src[t[b0 + 5].a:t[b1].b]
                f = lambda s: s.replace("{x}", x).replace("{y}", y)
                src = (src[:t[st].a] + f"{{ let mut items__ = Vec::new(); for {pat} in {it} {{ items__.push({body}); }} "
                       f"let id__ = || -> (o: {ty}) ensures {ident} {{ {i0} }}; "
                       f"let op__ = |{x}: {ty}, {y}: {ty}| -> (o: {ty}) requires {f(req)} ensures {f(ens)} {{ {f0} }}; "
                       f"{hint} let r__ = reduce_(items__, id__, op__, Ghost({inv})); {after} r__ }}" + src[t[e].b:])
                used["map_reduce"] = used.get("map_reduce", 0) + 1
                return src
        raise Lost("no map and reduce")
    rule.rule = "map_reduce"
    return rule


STD = [r_path, r_ulps_eq, r_range, r_then, r_format, r_map_collect, r_foreach, r_windows, r_all]


def r_vec_list(src, used):
    """vec![a, b] -> { let mut v__ = Vec::new(); v__.push(a); v__.push(b); v__ }"""
    while True:
        t = lex(src)
        for i in range(len(t) - 2):
            if t[i].s == "vec" and t[i + 1].s == "!" and t[i + 2].s == "[":
                c = match_close(t, i + 2)
                parts, d, st = [], 0, i + 3
                for k in range(i + 3, c + 1):
                    if k == c or (d == 0 and t[k].s in (",", ";")):
                        if t[k].s == ";":
                            parts = None
                            break
                        if k > st:
                            parts.append(text_of(t, st, k - 1, src))
                        st = k + 1
                    elif t[k].s in "([{":
                        d += 1
                    elif t[k].s in ")]}":
                        d -= 1
                if not parts:
                    continue
                used["vec_list"] = used.get("vec_list", 0) + 1
                src = src[:t[i].a] + "({ let mut v__ = Vec::new(); " + " ".join(f"v__.push({p});" for p in parts) + " v__ })" + src[t[c].b:]
                break
        else:
            return src


def r_ok_or_else(src, used):
    """E.ok_or_else(|| X)? -> (match E { Some(v__) => v__, None => return Err(X) })"""
    while True:
        t = lex(src)
        for i in range(1, len(t)):
            if t[i].s == "ok_or_else" and t[i - 1].s == "." and t[i + 2].s == "||":
                c = match_close(t, i + 1)
                if t[c + 1].s != "?":
                    raise Lost("ok_or_else without ?")
                st = postfix_start(t, i - 2)
                x = src[t[i + 3].a:t[c - 1].b]
                src = src[:t[st].a] + "(match " + src[t[st].a:t[i - 2].b] + " { Some(v__) => v__, None => return Err(" + x + ") })" + src[t[c + 1].b:]
                used["ok_or_else"] = used.get("ok_or_else", 0) + 1
                break
        else:
            return src


def r_label_continue(src, used):
    """'l: for x in X { for y in Y { if C { continue 'l; } } REST } -> for x in X { let mut skip__ = false; for y in Y { if C { skip__ = true; } } if !skip__ { REST } }
    (C has no side effects: it is an expression over variables without calls)"""
    while True:
        m = re.search(r"('\w+)\s*:\s*for\b", src)
        if not m:
            return src
        lab = m.group(1)
        src2 = src[:m.start()] + src[m.start(1):m.start(1)] + src[m.end() - 3:]
        t = lex(src2)
        i = next(k for k in range(len(t)) if t[k].a >= m.start() and t[k].s == "for")
        o = i + 1
        while t[o].s != "{":
            if t[o].s in ("(", "["):
                o = match_close(t, o)
            o += 1
        c = match_close(t, o)
        if t[o + 1].s != "for":
            raise Lost("labelled loop of another shape")
        q = o + 2
        while t[q].s != "{":
            if t[q].s in ("(", "["):
                q = match_close(t, q)
            q += 1
        qc = match_close(t, q)
        inner = src2[t[q].b:t[qc].a]
        mm = re.fullmatch(r"\s*if ([^{(]*)\{\s*continue\s+" + lab + r"\s*;\s*\}\s*", inner)
        if not mm or lab in src2[t[qc].b:t[c].a]:
            raise Lost("labelled loop of another shape")
        src = (src2[:t[o].b] + " let mut skip__ = false; " + src2[t[o + 1].a:t[q].b] + " if " + mm.group(1) + "{ skip__ = true; } }"
               + " if !skip__ {" + src2[t[qc].b:t[c].a] + "} " + src2[t[c].a:])
        used["label_continue"] = used.get("label_continue", 0) + 1


def sub_rule(name, pat, rep, count=None):
    """textual rule on token-normalised... pattern applied to the comment-free text"""
    def f(src, used):
        src2, n = re.subn(pat, rep, src, flags=re.S)
        if count is not None and n != count:
            raise Lost(f"rule {name}: {n} places instead of {count}")
        if n:
            used[name] = used.get(name, 0) + n
        return src2
    f.rule = name
    f.desc = f"{pat}  ->  {rep}"
    return f


class FnSpec:
    pass


class Spec:
    def __init__(self, pid, repo="/repo"):
        self.pid, self.repo = pid, repo
        self.files, self.parts, self.pre, self.fnspecs = {}, [], [], []
        self.used, self.types, self.uses = {}, [], ["super::p::*", "super::pure::*"]
        self.assumptions, self.notes, self.custom = [], [], []
        self.groups = []
        self.pures = []
        self.opts = []

    def prelude(self, *names):
        self.pre += names

    def use(self, s):
        self.uses.append(s)

    def broadcast(self, *g):
        self.groups += g

    def ghost(self, text):
        self.parts.append(("ghost", text))

    def pure(self, text):
        """lemmas over the reals that need nothing else (kept in a module of their own)"""
        if text not in self.pures:
            self.pures.append(text)

    def file(self, rel):
        if rel not in self.files:
            self.files[rel] = SrcFile(os.path.join(self.repo, rel), rel)
        return self.files[rel]

    def type(self, rel, name, prefix="", rules=()):
        s = strip_attrs(strip_comments(self.file(rel).find_type(name)), self.used)
        for r in rules:
            s = r(s, self.used)
        self.types.append(f"{rel}::{name}")
        if not s.startswith("pub"):
            s = "pub " + s
        # fields of a struct are made public so contracts can mention them
        s = re.sub(r"^pub pub", "pub", s)
        s = pub_fields(s)
        self.parts.append(("raw", prefix + s))

    def raw(self, text):
        self.parts.append(("raw", text))

    def fn(self, rel, where, name, req="", ens="", ret="r", loops=(), hints=(), rules=(),
           decreases="", header=None, sig=None, attrs="", pub=True, treq=None, tens=None,
           group=None, rename=None, inherent=None, inhead=None, pre=()):
        """where: None | 'Type' | 'Trait for Type'"""
        f = FnSpec()
        f.__dict__.update(locals())
        del f.__dict__["self"]
        f.istrait = bool(where) and " for " in where and inherent is None
        if inherent is not None:
            f.header = inherent
        self.fnspecs.append(f)
        self.parts.append(("fn", f))
        return f

    # ------------------------------------------------------------ building
    def build_fn(self, f, vac=False):
        sf = self.file(f.rel)
        if f.where is None:
            key = None
        elif " for " in f.where:
            a, b = f.where.split(" for ")
            key = (a, b)
        else:
            key = (None, f.where)
        header, fn = sf.find_fn(key, f.name, f.inhead)
        if fn.body is None:
            raise Lost(f"{f.name}: no body")
        f.line = fn.line
        f.used = used = {}
        body = strip_attrs(strip_comments(fn.body), used)
        bymut = re.match(r"\s*mut\s+self\b", strip_comments(fn.params))
        if bymut:
            used["mut_self"] = used.get("mut_self", 0) + 1
            body = "\n    let mut me__ = self;" + re.sub(r"\bself\b", "me__", body)
        for r in f.pre:   # before the standard rules
            body = r(body, used)
        for r in STD:
            body = r(body, used)
        for r in f.rules:
            before = body
            body = r(body, used)
            if body != before and hasattr(r, "desc"):
                self.custom.append(f"{f.name}: {r.rule}: {r.desc}")
        f.words, f.label, f.shape = words(body), label(f), shape(body)
        body = self.splice(f, body)
        for k, v in used.items():
            self.used[k] = self.used.get(k, 0) + v
        params = strip_attrs(strip_comments(fn.params), used).strip()
        gen, wh, rt = fn.generics, fn.where, fn.ret
        params, rt = r_path(params, used), r_path(rt, used) if rt else rt
        if bymut:
            params = re.sub(r"^mut\s+self\b", "self", params)
        if f.sig:
            gen, params, rt, wh = f.sig(gen, params, rt, wh)
        body = re.sub(r"\bRT__\b", lambda m: rt or "()", body)
        s = ""
        if f.attrs:
            s += f.attrs + "\n"
        name = f.rename or f.name
        istrait = f.istrait
        if vac:
            if istrait:
                body = "\n    assert(false); // VACUITY PROBE\n" + body
            else:
                name = "vac_" + name
        s += ("" if istrait or not f.pub else "pub ") + f"fn {name}{gen}({params})"
        if rt:
            s += f" -> ({f.ret}: {rt})"
        if wh:
            s += "\n" + wh
        sig = s
        if f.req.strip() and not istrait:
            s += "\n    requires\n" + f.req.rstrip().rstrip(",") + ","
        if vac and not istrait:
            s += "\n    ensures false, // VACUITY PROBE"
        elif f.ens.strip():
            s += "\n    ensures\n" + f.ens.rstrip().rstrip(",") + ","
        if f.decreases:
            s += "\n    decreases " + f.decreases
        s += "\n{" + body + "}\n"
        f.header_src = header
        f.tsig = sig
        return header, s

    def splice(self, f, body):
        """insert loop specs and hints into the comment-free body"""
        ins = []  # (pos, order, text)
        t = lex(body)
        loops = []
        i = 0
        while i < len(t):
            if t[i].k == "id" and t[i].s in ("for", "while", "loop") and \
                    (i == 0 or t[i - 1].s in (";", "{", "}", "=", ":", "=>", ")", "else")):
                j = i + 1
                while t[j].s != "{":
                    if t[j].s in ("(", "["):
                        j = match_close(t, j)
                    j += 1
                loops.append((t[i].s, i, j, match_close(t, j)))
            i += 1
        f.nloops = len(loops)
        specs = list(f.loops)
        if len(specs) != len(loops):
            raise Lost(f"{f.name}: {len(loops)} loops, contracts for {len(specs)}")
        for k, ((kind, i, j, c), sp) in enumerate(zip(loops, specs)):
            want, text = sp[0], sp[1]
            if want != kind:
                raise Lost(f"{f.name}: loop {k} is a {kind} loop, contract is for {want}")
            if kind == "for":
                m = i + 1
                while t[m].s != "in":
                    if t[m].s in OPEN:
                        m = match_close(t, m)
                    m += 1
                odd = [t[x].s for x in range(m, j) if t[x].k == "id" and t[x - 1].s == "." and t[x + 1].s == "("
                       and not t[x].s.endswith("_") and t[x].s not in ("iter", "iter_mut", "into_iter", "len", "clone", "zip", "chain_")]
                if odd:  # an invariant says nothing about an adaptor it does not know
                    raise Lost(f"{f.name}: loop {k} runs over an iterator with {odd[0]}()")
                if text.strip() or len(sp) > 2:
                    ins.append((t[m].b, 0, f" it{k}:"))
            ins.append((t[j].a, 0, "\n" + text + "\n"))
        for h in f.hints:
            where, text = h[0], h[1]
            opt = len(h) > 2 and h[2] == "opt"
            tx = "\n" + text + "\n"
            if where == "entry":
                ins.append((0, 5, tx))
            elif where == "tail":  # before the expression at the end of the body
                k = p = 0
                while k < len(t) - 1:
                    if t[k].s in OPEN:
                        k = match_close(t, k)
                        if t[k].s == "}" and k < len(t) - 1 and t[k + 1].s not in (".", "?", "else", ";", ",", ")"):
                            p = t[k].b
                    elif t[k].s == ";":
                        p = t[k].b
                    k += 1
                ins.append((p, 2, tx))
            elif where == "exit":  # after the last statement / before the closing brace
                ins.append((len(body), -5, tx))
            elif isinstance(where, tuple) and where[0] in ("body_start", "body_end", "before_loop", "after_loop"):
                if where[1] >= len(loops):
                    raise Lost(f"{f.name}: no loop {where[1]}")
                kind, i, j, c = loops[where[1]]
                p = {"body_start": t[j].b, "body_end": t[c].a, "before_loop": t[i].a,
                     "after_loop": t[c].b}[where[0]]
                ins.append((p, 1, tx))
            elif isinstance(where, tuple) and where[0] in ("before", "after"):
                # token pattern, e.g. ("after", "let x = ... ;") with '...' as a balanced gap
                nth = where[2] if len(where) > 2 else 0
                hits = find_pat(t, where[1])
                if len(hits) <= nth or (len(where) <= 2 and len(hits) != 1):
                    if opt:
                        continue
                    raise Lost(f"{f.name}: hint anchor `{where[1]}` found {len(hits)} times")
                a, b = hits[nth]
                ins.append((t[a].a if where[0] == "before" else t[b].b, 2, tx))
            elif where == "wrap":   # whole body becomes let r__ = {..}; hint; r__
                f.wrap = text
                for k in range(len(t)):  # and an early return likewise
                    if t[k].s != "return" or in_closure(t, k):
                        continue
                    e = k + 1
                    while e < len(t) and t[e].s not in (";", ",", "}"):
                        if t[e].s in OPEN:
                            e = match_close(t, e)
                        e += 1
                    if e > k + 1:
                        ins.append((t[k].b, 9, " ({ let r__: RT__ = "))
                        ins.append((t[e - 1].b, -9, ";\n" + text + "\n r__ })"))
            else:
                raise ValueError(where)
        ins.sort(key=lambda x: (x[0], x[1]))
        out, pos = [], 0
        for p, _, tx in ins:
            out.append(body[pos:p])
            out.append(tx)
            pos = p
        out.append(body[pos:])
        s = "".join(out)
        if getattr(f, "wrap", None):
            s = "\n let r__ = {" + s + "};\n" + f.wrap + "\n r__\n"
        return s

    def build(self, probe=False):
        """returns (text, [(first line, last line, label)])"""
        out = ["#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_assignments, unused_parens, unused_braces)]", "use vstd::prelude::*;",
               "verus! {", "pub mod p {"]
        for n in self.pre:
            out.append(open(os.path.join(PRE, n + ".rs")).read())
        out.append("} // mod p")
        out.append("pub mod pure {\nuse vstd::prelude::*;\nuse super::p::{rmin, rmax, rabs, rsqrt, ax_rsqrt};")
        out += self.pures
        out.append("} // mod pure")
        out.append("pub mod m {\nuse vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::ops::*;")
        for u in self.uses:
            out.append(f"use {u};")
        if self.groups:
            out.append("broadcast use {" + ", ".join(self.groups) + "};")
        regions = []

        def line():
            return sum(x.count("\n") + 1 for x in out) + 1
        # trait declarations first
        traits = {}
        built = {}
        for kind, p in self.parts:
            if kind == "fn":
                built[id(p)] = self.build_fn(p)
                if p.istrait and p.where.split(" for ")[0] in getattr(self, "trait_decls", {}):
                    traits.setdefault(p.where.split(" for ")[0], []).append(p)
        for kind, p in self.parts:
            if kind == "ghost":
                a = line()
                out.append(p)
                regions.append((a, line() - 1, "ghost"))
            elif kind == "raw":
                a = line()
                out.append(p)
                regions.append((a, line() - 1, "raw"))
            elif kind == "trait":
                name, head, extra = p
                s = f"pub trait {head} {{\n{extra}\n"
                for q in traits.get(name, []):
                    sg = q.tsig[:]
                    s += sg
                    if q.req.strip():
                        s += "\n    requires\n" + q.req.rstrip().rstrip(",") + ","
                    if q.tens:
                        s += "\n    ensures\n" + q.tens.rstrip().rstrip(",") + ","
                    s += ";\n"
                s += "}\n"
                out.append(s)
        # group functions by impl header, emission in order
        self.fnregions = []
        groups = []
        for kind, p in self.parts:
            if kind != "fn":
                continue
            h, s = built[id(p)]
            h = p.header if p.header is not None else h
            h = strip_attrs(h, {}) if h else h
            if groups and groups[-1][0] == h and h is not None and groups[-1][2] == p.group:
                groups[-1][1].append((p, s))
            else:
                for g in groups:
                    if g[0] == h and h is not None and " for " in h and g[2] == p.group:
                        g[1].append((p, s))
                        break
                else:
                    groups.append((h, [(p, s)], p.group))
        for h, fs, _ in groups:
            if h:
                out.append(h + " {")
                ex = getattr(self, "impl_extra", {}).get(norm(h))
                if ex:
                    out.append(ex)
            for p, s in fs:
                if probe and p.istrait:
                    s = self.build_fn(p, vac=True)[1]
                elif probe:
                    a = line()
                    out.append(self.build_fn(p, vac=True)[1])
                    regions.append((a, line() - 1, "vac " + label(p)))
                a = line()
                out.append(s)
                regions.append((a, line() - 1, label(p)))
            if h:
                out.append("}")
        out.append("} // mod m\n} // verus!\nfn main() {}\n")
        return "\n".join(out), regions


def label(p):
    where = p.where
    if where and p.inherent is not None:
        where = where.split(" for ")[-1]
    return (where + "::" if where else "") + p.name


def pub_fields(s):
    t = lex(s)
    if not any(x.s == "struct" for x in t[:4]):
        return s
    # find the brace of the struct
    for i, x in enumerate(t):
        if x.s == "{":
            c = match_close(t, i)
            pos = []
            k = i + 1
            start = True
            while k < c:
                if start:
                    if t[k].s != "pub":
                        pos.append(t[k].a)
                    elif t[k + 1].s == "(":
                        pass
                    start = False
                if t[k].s == "<":
                    from rustx import skip_angle
                    k = skip_angle(t, k)
                elif t[k].k == "p" and t[k].s in OPEN:
                    k = match_close(t, k)
                elif t[k].s == ",":
                    start = True
                k += 1
            for p in reversed(pos):
                s = s[:p] + "pub " + s[p:]
            return s
        if x.s == "(" and i > 2:
            c = match_close(t, i)
            if t[i + 1].s != "pub":
                return s[:t[i].b] + "pub " + s[t[i].b:]
            return s
    return s


def words(body):
    """what a body calls, and whether it has a closure without a contract"""
    t, out = lex(body), set()
    for i, x in enumerate(t):
        if x.k == "id" and i + 1 < len(t) and x.s not in ("if", "while", "for", "match", "return", "in", "Some", "Ok", "Err", "let", "mut", "else", "as"):
            j = i + 1
            if j + 1 < len(t) and t[j].s == "::" and t[j + 1].s == "<":
                from rustx import skip_angle
                j = skip_angle(t, j + 1)
            if j < len(t) and t[j].s == "(" and (i == 0 or t[i - 1].s != "fn"):
                out.add(x.s)
        elif x.s in ("|", "||") and i > 0 and t[i - 1].s in ("(", ",", "=", "return", "move", "{", ";"):
            j = i + 1
            if x.s == "|":
                while j < len(t) and t[j].s != "|":
                    j = match_close(t, j) + 1 if t[j].s in OPEN else j + 1
                j += 1
            if j < len(t) and t[j].s != "->":
                out.add("closure")
    return out


def shape(body):
    """two hashes of the statements of a body: their order, and which there are"""
    parts, cur = [], []
    for x in lex(body):
        if x.s in (";", "{", "}"):
            parts.append(" ".join(cur))
            cur = []
        else:
            cur.append(x.s)
    parts = [x for x in parts + [" ".join(cur)] if x]
    h = lambda l: hashlib.sha1("\n".join(l).encode()).hexdigest()[:12]
    return [h(parts), h(sorted(parts))]


def in_closure(t, k):
    """is token k inside a closure with a block"""
    return any(t[i].s == "{" and i > 0 and t[i - 1].s in ("|", "||") and match_close(t, i) > k for i in range(k))


def find_pat(t, pat):
    """positions of a token pattern; `...` skips a balanced run of tokens up to
    the next pattern token"""
    p = []
    for chunk in re.split(r"(\.\.\.)", pat):
        if chunk == "...":
            p.append("...")
        else:
            p += [x.s for x in lex(chunk)]
    hits = []
    for i in range(len(t)):
        j = i
        k = 0
        ok = True
        while k < len(p):
            if j >= len(t):
                ok = False
                break
            if p[k] == "...":
                k += 1
                while j < len(t) and t[j].s != p[k]:
                    if t[j].k == "p" and t[j].s in OPEN:
                        j = match_close(t, j) + 1
                    elif t[j].s in (")", "]", "}"):
                        ok = False
                        break
                    else:
                        j += 1
                if not ok or j >= len(t):
                    ok = False
                    break
                continue
            if t[j].s != p[k]:
                ok = False
                break
            j += 1
            k += 1
        if ok:
            hits.append((i, j - 1))
    return hits
