from vgen import Spec, sub_rule

R2, R3 = "src/linestring_2d.rs", "src/linestring_3d.rs"


def ghost(n, tr):
    c = ["rx", "ry"] + (["rz"] if n == "3" else [])
    inb = " && ".join(f"{k}(b.0) <= {k}(p) && {k}(p) <= {k}(b.1)" for k in c)
    ex = "\n            && ".join(
        f"(exists|i: int| 0 <= i < s.len() && {k}(#[trigger] s[i]) == {k}(m.{e}))"
        for k in c for e in "01")
    jn = " && ".join(f"{k}(n->0.0) == rmin({k}(m.0), {k}(p)) && {k}(n->0.1) == rmax({k}(m.1), {k}(p))"
                     for k in c)
    jn = jn.replace("n->0.", "(n->0).")
    ch = "\n".join(
        f"        let i{k}{e} = choose|i: int| 0 <= i < s.len() && {k}(#[trigger] s[i]) == {k}(m.{e}); assert(t[i{k}{e}] == s[i{k}{e}]);"
        for k in c for e in "01")
    eqc = " && ".join(f"{k}(m.0) == {k}(n.0) && {k}(m.1) == {k}(n.1)" for k in c)
    return f"""
pub open spec fn inb{n}<T: {tr}>(b: (T, T), p: T) -> bool {{ {inb} }}
/// b is exactly the bounding box of the points of s: a tight bound in every component
pub open spec fn is_box{n}<T: {tr}>(b: Option<(T, T)>, s: Seq<T>) -> bool {{
    match b {{
        None => s.len() == 0,
        Some(m) => s.len() > 0
            && (forall|i: int| 0 <= i < s.len() ==> inb{n}(m, #[trigger] s[i]))
            && {ex},
    }}
}}
/// the box n is the join of the box b and the point p
pub open spec fn join{n}<T: {tr}>(b: Option<(T, T)>, p: T, n: Option<(T, T)>) -> bool {{
    n.is_some() && match b {{
        None => (n->0).0 == p && (n->0).1 == p,
        Some(m) => {jn},
    }}
}}
pub proof fn lemma_join{n}<T: {tr}>(b: Option<(T, T)>, s: Seq<T>, p: T, n: Option<(T, T)>)
    requires is_box{n}(b, s), join{n}(b, p, n),
    ensures is_box{n}(n, s.push(p)),
{{
    let t = s.push(p);
    assert(t[s.len() as int] == p);
    assert forall|i: int| 0 <= i < t.len() implies inb{n}(n->0, #[trigger] t[i]) by {{
        if i < s.len() {{ assert(t[i] == s[i]); }}
    }}
    if b.is_some() {{
        let m = b->0;
{ch}
    }}
}}
pub proof fn lemma_single{n}<T: {tr}>(p: T, q: (T, T), s: Seq<T>)
    requires inb{n}(q, p), inb{n}((p, p), q.0), inb{n}((p, p), q.1), s.len() == 1, s[0] == p,
    ensures is_box{n}(Some(q), s),
{{ }}
/// the box of nothing, of all points added so far, of all points added and p, ...
pub open spec fn fold{n}<T: {tr}>(b: Option<(T, T)>, s: Seq<T>, n: Option<(T, T)>) -> bool {{
    forall|a: Seq<T>| #[trigger] is_box{n}(b, a) ==> is_box{n}(n, a + s)
}}
pub proof fn lemma_fold_step{n}<T: {tr}>(b: Option<(T, T)>, s: Seq<T>, m: Option<(T, T)>, p: T, n: Option<(T, T)>)
    requires fold{n}(b, s, m), join{n}(m, p, n),
    ensures fold{n}(b, s.push(p), n),
{{
    assert forall|a: Seq<T>| #[trigger] is_box{n}(b, a) implies is_box{n}(n, a + s.push(p)) by {{
        lemma_join{n}(m, a + s, p, n);
        assert((a + s).push(p) =~= a + s.push(p));
    }}
}}
/// joining a point a box already has changes nothing
pub proof fn lemma_same{n}<T: {tr}>(b: Option<(T, T)>, s: Seq<T>, m: (T, T), n: (T, T))
    requires is_box{n}(Some(m), s), {eqc},
    ensures is_box{n}(Some(n), s),
{{
    assert forall|i: int| 0 <= i < s.len() implies inb{n}(n, #[trigger] s[i]) by {{ assert(inb{n}(m, s[i])); }}
}}
/// the box b covers exactly what the corners of `o` cover when both are joined
pub proof fn lemma_union{n}<T: {tr}>(b: Option<(T, T)>, s: Seq<T>, o: (T, T), t: Seq<T>, m: Option<(T, T)>, n: Option<(T, T)>)
    requires is_box{n}(b, s), is_box{n}(Some(o), t), join{n}(b, o.0, m), join{n}(m, o.1, n),
    ensures is_box{n}(n, s + t),
{{
    let u = s + t;
    let q = n->0;
    assert forall|i: int| 0 <= i < u.len() implies inb{n}(q, #[trigger] u[i]) by {{
        if i < s.len() {{ assert(u[i] == s[i]); assert(inb{n}(b->0, s[i])); }}
        else {{ assert(u[i] == t[i - s.len()]); assert(inb{n}(o, t[i - s.len()])); }}
    }}
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] u[i + s.len()] == t[i] by {{}}
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] u[i] == s[i] by {{}}
    let k0 = t.len();
    assert(inb{n}(o, t[0]));
""" + "\n".join(f"""    {{
        let j = choose|i: int| 0 <= i < t.len() && {k}(#[trigger] t[i]) == {k}(o.{e});
        assert(u[j + s.len()] == t[j]);
        if b.is_some() {{
            let i = choose|i: int| 0 <= i < s.len() && {k}(#[trigger] s[i]) == {k}((b->0).{e});
            assert(u[i] == s[i]);
        }}
        assert(exists|i: int| 0 <= i < u.len() && {k}(#[trigger] u[i]) == {k}(q.{e})) by {{
            if {k}(u[j + s.len()]) == {k}(q.{e}) {{ }}
        }}
    }}""" for k in c for e in "01") + "\n}\n"


def spec(repo):
    s = Spec("L12", repo)
    s.prelude("vec")
    s.broadcast("scal", "vec2", "vec3")
    s.type(R2, "Aabb2", prefix="#[derive(Clone, Copy)]\n")
    s.type(R3, "Aabb3", prefix="#[derive(Clone, Copy)]\n")
    s.ghost(ghost("2", "HasXY"))
    s.ghost(ghost("3", "HasXYZ"))
    refmut = sub_rule("ref_mut", r"Some\(ref mut (\w+)\)", r"Some(\1)")
    for n, R, A in (("2", R2, "Aabb2"), ("3", R3, "Aabb3")):
        c = ["rx", "ry"] + (["rz"] if n == "3" else [])
        mm = "self.min_max"
        if n == "2":
            s.fn(R, A, "new", ens="r.min_max == Some((point, point)), is_box2(r.min_max, seq![point])",
                 hints=[("entry", "proof { lemma_single2(point, (point, point), seq![point]); }")])
        s.fn(R, A, "update_with_point",
             ens=f"""join{n}(old(self).min_max, point, final(self).min_max),
        forall|a: Seq<T>| #[trigger] is_box{n}(old(self).min_max, a) ==> is_box{n}(final(self).min_max, a.push(point))""",
             hints=[("entry", f"""
    assert forall|a: Seq<T>, nn: Option<(T, T)>| #[trigger] is_box{n}(old(self).min_max, a) && join{n}(old(self).min_max, point, nn)
        implies #[trigger] is_box{n}(nn, a.push(point)) by {{ lemma_join{n}(old(self).min_max, a, point, nn); }}
""")])
        s.fn(R, A, "update_with_points",
             ens=f"fold{n}(old(self).min_max, points@, final(self).min_max)",
             loops=[("for", f"""invariant
            fold{n}(b0, points@.take(it0.index@), Some((aabb_min, aabb_max))) || (b0.is_none() && it0.index@ == 0
                && aabb_min == points@[0] && aabb_max == points@[0] && points@.len() > 0),
            it0.seq() =~= points@.map_values(|t: T| &t),""")],
             hints=[("entry", "let ghost b0 = self.min_max;\n proof { assert forall|a: Seq<T>| a + Seq::<T>::empty() =~= a by {} assert(points@.len() == 0 ==> points@ =~= Seq::<T>::empty()); }"),
                    (("before_loop", 0), f"""proof {{ assert(points@.take(0) =~= Seq::<T>::empty());
        if b0.is_some() {{ assert forall|a: Seq<T>| #[trigger] is_box{n}(b0, a) implies is_box{n}(b0, a + points@.take(0)) by {{ assert(a + points@.take(0) =~= a); }} }} }}"""),
                    (("body_start", 0), "let ghost m0 = Some((aabb_min, aabb_max));"),
                    (("body_end", 0), f"""proof {{
        let k = it0.index@;
        let m1 = Some((aabb_min, aabb_max));
        assert(points@.take(k + 1) =~= points@.take(k).push(points@[k]));
        assert(*point == points@[k]);
        if fold{n}(b0, points@.take(k), m0) {{
            lemma_fold_step{n}(b0, points@.take(k), m0, *point, m1);
        }} else {{
            assert forall|a: Seq<T>| #[trigger] is_box{n}(b0, a) implies is_box{n}(m1, a + points@.take(1)) by {{
                let one = a + points@.take(1);
                assert(one =~= seq![points@[0]]);
                lemma_single{n}(points@[0], (aabb_min, aabb_max), one);
            }}
        }}
    }}"""),
                    (("after_loop", 0), "proof { assert(points@.take(points@.len() as int) =~= points@); }"),
                    ])
        s.fn(R, A, "with_points", ens=f"is_box{n}(r.min_max, points@)",
             hints=[(("before", "if ! points . is_empty"), f"proof {{ assert(is_box{n}(rv.min_max, Seq::<T>::empty())); assert(Seq::<T>::empty() + points@ =~= points@); }}")])
        s.fn(R, A, "update_with_aabb",
             ens=f"""forall|a: Seq<T>, t: Seq<T>| #[trigger] is_box{n}(old(self).min_max, a) && #[trigger] is_box{n}(aabb.min_max, t)
            ==> is_box{n}(final(self).min_max, a + t)""",
             hints=[("entry", f"let ghost b0 = self.min_max; proof {{ assert forall|a: Seq<T>, t: Seq<T>| t.len() == 0 implies #[trigger] (a + t) =~= a by {{}} }}"),
                    (("after", "self . update_with_point ( min ) ;"), "let ghost b1 = self.min_max;"),
                    (("after", "self . update_with_point ( max ) ;"), f"""proof {{
            assert forall|a: Seq<T>, t: Seq<T>| #[trigger] is_box{n}(b0, a) && #[trigger] is_box{n}(aabb.min_max, t)
                implies is_box{n}(self.min_max, a + t) by {{
                lemma_union{n}(b0, a, aabb.min_max->0, t, b1, self.min_max);
            }} }}""")])
        hi, lo = ("high", "low") if n == "2" else ("get_high", "get_low")
        s.fn(R, A, hi, ens=f"{mm} is None ==> r is None, {mm} is Some ==> r == Some(({mm}->0).1)")
        s.fn(R, A, lo, ens=f"{mm} is None ==> r is None, {mm} is Some ==> r == Some(({mm}->0).0)")
        if n == "2":
            s.fn(R, A, "min_max", ens=f"r == {mm}")
        s.fn(R, A, "extents", ens=f"r is Some == {mm} is Some, r is Some ==> (r->0).0 == ({mm}->0).0 && (r->0).1 == ({mm}->0).1, r is Some ==> "
             + " && ".join(f"{k}((r->0).2) == {k}(({mm}->0).1) - {k}(({mm}->0).0)" for k in c))
        s.fn(R, A, "center", ens=f"r is Some == {mm} is Some, r is Some ==> "
             + " && ".join(f"{k}(r->0) + {k}(r->0) == {k}(({mm}->0).1) + {k}(({mm}->0).0)" for k in c))
        s.fn(R, A, "apply", req="""old(self).min_max is Some ==> call_requires(*f, ((old(self).min_max->0).0,))
            && call_requires(*f, ((old(self).min_max->0).1,))""",
             ens="""old(self).min_max is None ==> final(self).min_max is None,
        old(self).min_max is Some ==> final(self).min_max is Some
            && call_ensures(*f, ((old(self).min_max->0).0,), (final(self).min_max->0).0)
            && call_ensures(*f, ((old(self).min_max->0).1,), (final(self).min_max->0).1)""",
             rules=[refmut])
        if n == "2":
            s.fn(R, A, "convex_hull", ens=f"""r is Some == {mm} is Some,
        r is Some ==> (r->0)@.len() == 5
            && rx((r->0)@[0]) == rx(({mm}->0).0) && ry((r->0)@[0]) == ry(({mm}->0).0)
            && rx((r->0)@[1]) == rx(({mm}->0).1) && ry((r->0)@[1]) == ry(({mm}->0).0)
            && rx((r->0)@[2]) == rx(({mm}->0).1) && ry((r->0)@[2]) == ry(({mm}->0).1)
            && rx((r->0)@[3]) == rx(({mm}->0).0) && ry((r->0)@[3]) == ry(({mm}->0).1)
            && rx((r->0)@[4]) == rx(({mm}->0).0) && ry((r->0)@[4]) == ry(({mm}->0).0)""")
    s.assumptions.append("L12: impl From<IntoIterator> for Aabb2 is given the list of what its iterator yields")
    IM, A2 = "src/linestring_2d/impls.rs", "impl<T: GenericVector2> Aabb2<T>"
    s.fn(IM, "Default for Aabb2", "default", inherent=A2, ens="r.min_max is None, is_box2(r.min_max, Seq::<T>::empty())")
    # the argument is the list of what the iterator yields
    s.fn(IM, "From for Aabb2", "from", inherent="impl<'a, T: GenericVector2> Aabb2<T>", rename="from_iter_",
         sig=lambda gen, params, rt, wh: ("", params.replace("iter: I", "iter: Vec<&'a T>"), rt, ""),
         ens="is_box2(r.min_max, iter@.map_values(|p: &'a T| *p))",
         loops=[("for", "invariant it0.seq() == iter@, is_box2(aabb.min_max, iter@.take(it0.index@ as int).map_values(|p: &'a T| *p))")],
         hints=[(("before_loop", 0), "proof { assert(iter@.take(0).map_values(|p: &'a T| *p) =~= Seq::<T>::empty()); }"),
                (("body_start", 0), "let ghost k0 = it0.index@ as int;"),
                (("body_end", 0), "proof { assert(iter@.take(k0 + 1).map_values(|p: &'a T| *p) =~= iter@.take(k0).map_values(|p: &'a T| *p).push(*p)); }"),
                (("after_loop", 0), "proof { assert(iter@.take(iter@.len() as int) =~= iter@); }")])
    s.fn(IM, "From for Vec", "from", inherent=A2, rename="into_outline_", sig=lambda gen, params, rt, wh: ("", params, "Vec<T>", ""), rules=[sub_rule("vec_default", r"Vec::<T>::default\(\)", "Vec::<T>::new()")],
         ens="""other.min_max is None ==> r@.len() == 0,
        other.min_max is Some ==> r@.len() == 5 && r@[0] == (other.min_max->0).0 && r@[2] == (other.min_max->0).1 && r@[4] == (other.min_max->0).0
            && rx(r@[1]) == rx((other.min_max->0).1) && ry(r@[1]) == ry((other.min_max->0).0)
            && rx(r@[3]) == rx((other.min_max->0).0) && ry(r@[3]) == ry((other.min_max->0).1)""")
    s.fn(IM, "PartialEq for Aabb2", "eq", inherent=A2, rename="eq_",
         ens="""r == (self.min_max is Some == other.min_max is Some && (self.min_max is Some ==>
            rx((self.min_max->0).0) == rx((other.min_max->0).0) && ry((self.min_max->0).0) == ry((other.min_max->0).0)
            && rx((self.min_max->0).1) == rx((other.min_max->0).1) && ry((self.min_max->0).1) == ry((other.min_max->0).1)))""")
    s.fn("src/linestring_3d/impls.rs", "Default for Aabb3", "default", inherent="impl<T: GenericVector3> Aabb3<T>", ens="r.min_max is None, is_box3(r.min_max, Seq::<T>::empty())")
    # a 3D box from its two corners, low corner first; Copy + Into<T> is taken at T itself
    I3, A3 = "src/linestring_3d/impls.rs", "impl<T: GenericVector3> Aabb3<T>"
    lo_hi = lambda a, b: "r.min_max is Some" + "".join(f", {c}((r.min_max->0).{e}) == {v(c)}" for e, v in ((0, a), (1, b)) for c in ("rx", "ry", "rz"))
    ordered = lambda a, b: " && ".join(f"{a(c)} <= {b(c)}" for c in ("rx", "ry", "rz"))
    for nm, head, a, b in (("from_corners_", "From<[IT;2]>", lambda c: f"{c}(coordinate[0])", lambda c: f"{c}(coordinate[1])"),
                           ("from_numbers_", "From<[T::Scalar;6]>", lambda c: f"rv(coordinate[{ord(c[1]) - 120}])", lambda c: f"rv(coordinate[{ord(c[1]) - 117}])")):
        ens = lo_hi(a, b)
        if nm == "from_corners_":
            ens += f", {ordered(a, b)} ==> is_box3(r.min_max, coordinate@)"
        s.fn(I3, "From for Aabb3", "from", inhead=head, inherent=A3, rename=nm, ens=ens,
             sig=lambda g, p, rt, w: ("", p.replace("IT", "T"), rt, ""), rules=[sub_rule("into_self", r"\.into\(\)", "")])
    return s
