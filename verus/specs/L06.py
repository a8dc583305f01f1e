"""L06: the sequential convex hulls."""
from vgen import Spec, sub_rule, r_enumerate, r_option_map, r_continue, r_sorted
from ring import BASE
import hull, hullx

R, CH = "src/linestring_2d.rs", "src/linestring_2d/convex_hull.rs"

TEXT = [sub_rule("error_text", r'"[^"]*"\s*\.to_string\(\)', "stub_string()"), sub_rule("error_text", r"stub_string\(\)\s*\.to_string\(\)", "stub_string()")]
IT = """
pub open spec fn it_at<A>(rest: Seq<&A>, s: Seq<A>, k: int) -> bool {
    0 <= k <= s.len() && rest.len() == s.len() - k && forall|j: int| 0 <= j < rest.len() ==> *(#[trigger] rest[j]) == s[k + j]
}
"""


def common(s, *more):
    s.prelude("vec", "stdx", "iters", "graphx", "hullp", *more)
    s.broadcast("scal", "vec2", "veq")
    s.use("core::cmp::Ordering")
    s.use("vstd::std_specs::iter::IteratorSpec")
    s.pure(BASE)
    s.pure(hull.RING); s.pure(hull.PURE); s.pure(hullx.RING); s.pure(hullx.PURE); s.pure(hullx.GRAHAM); s.pure(hullx.WRAP)
    s.raw("pub struct IoErr {}\n")
    s.type("src/lib.rs", "LinestringError", rules=[sub_rule("io_error", r"std::io::Error", "IoErr")])
    s.type(CH, "Orientation", prefix="#[derive(PartialEq, Eq, Clone, Copy)]\n")
    s.raw("""impl PartialEqSpecImpl for Orientation { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }""")
    s.ghost(hullx.SCAN + IT)
    s.fn(CH, None, "cross_2d", ens="rv(r) == turn(a, b, c)")
    s.fn(CH, None, "point_orientation", ens="r == if turn(a, b, c) == 0real { Orientation::Collinear } else if turn(a, b, c) > 0real { Orientation::Left } else { Orientation::Right }")
    s.fn(CH, None, "find_lowest_x", rules=[r_enumerate] + TEXT,
         ens="""vertices@.len() == 0 ==> r is Err, vertices@.len() > 0 ==> r is Ok && (r->Ok_0).0 < vertices@.len() && (r->Ok_0).1 == vertices@[(r->Ok_0).0 as int] && low((r->Ok_0).1, vertices@)""",
         loops=[("loop", """invariant vertices@.len() > 0, vertices@.len() <= usize::MAX, skip0__ == 1, it_at(w0__.remaining(), vertices@, e0__ as int),
             min_idx < vertices@.len(), min_val == vertices@[min_idx as int], low(min_val, vertices@.take(if e0__ == 0 { 1 } else { e0__ as int })),
           ensures e0__ == vertices@.len(),
           decreases vertices@.len() - e0__""")],
         hints=[(("before_loop", 0), "assert(vertices@.take(1)[0] == vertices@[0]);"),
                (("body_start", 0), "let ghost e0 = e0__; let ghost v0 = min_val; proof { if e0 < vertices@.len() { assert(vertices@.take(e0 + 1).len() == e0 + 1 && vertices@.take(e0 + 1)[e0 as int] == vertices@[e0 as int]); } }"),
                (("body_end", 0), """proof { let a = if e0 == 0 { 1int } else { e0 as int };
                   assert forall|i: int| 0 <= i < e0 + 1 implies same(min_val, #[trigger] vertices@.take(e0 + 1)[i]) || before(min_val, vertices@.take(e0 + 1)[i]) by {
                     if i < a { assert(vertices@.take(e0 + 1)[i] == vertices@.take(a)[i]); } } }"""),
                (("after_loop", 0), "assert(vertices@.take(vertices@.len() as int) =~= vertices@);")])

    s.fn(CH, None, "indexed_find_lowest_x", rules=[r_enumerate] + TEXT, req="valid(vertices@, indices@)",
         ens="""indices@.len() == 0 ==> r is Err, indices@.len() > 0 ==> r is Ok && (r->Ok_0).0 < indices@.len() && (r->Ok_0).1 == vertices@[indices@[(r->Ok_0).0 as int] as int] && low((r->Ok_0).1, at(vertices@, indices@))""",
         loops=[("loop", """invariant vertices@.len() > 0, indices@.len() > 0, indices@.len() <= usize::MAX, skip0__ == 1, valid(vertices@, indices@), it_at(w0__.remaining(), indices@, e0__ as int), s0 == at(vertices@, indices@),
             min_idx_idx < indices@.len(), min_val == s0[min_idx_idx as int], low(min_val, s0.take(if e0__ == 0 { 1 } else { e0__ as int })),
           ensures e0__ == indices@.len(),
           decreases indices@.len() - e0__""")],
         hints=[("entry", "assert(indices@.len() > 0 ==> indices@[0] < vertices@.len());"), (("before_loop", 0), "let ghost s0 = at(vertices@, indices@); assert(s0.take(1)[0] == s0[0]);"),
                (("body_start", 0), "let ghost e0 = e0__; let ghost v0 = min_val; proof { if e0 < indices@.len() { assert(s0.take(e0 + 1).len() == e0 + 1 && s0.take(e0 + 1)[e0 as int] == s0[e0 as int]); } }"),
                (("body_end", 0), """proof { let a = if e0 == 0 { 1int } else { e0 as int };
                   assert forall|i: int| 0 <= i < e0 + 1 implies same(min_val, #[trigger] s0.take(e0 + 1)[i]) || before(min_val, s0.take(e0 + 1)[i]) by {
                     if i < a { assert(s0.take(e0 + 1)[i] == s0.take(a)[i]); } } }"""),
                (("after_loop", 0), "assert(s0.take(s0.len() as int) =~= s0);")])


SORT = [sub_rule("tuple_pat", r"for\s*\((\w+),\s*_,\s*_\)\s+in\s+([^{]*?)\{", r"for \1_t__ in \2{ let \1 = &\1_t__.0; "),
        sub_rule("then_with", r"\.then_with\(\|\|\s*([^{}]*?)\)\s*\}", r".then(\1) }")]


def sort_rule(ty):
    return sub_rule("sort", r"(\w+)\.sort_unstable_by\(\|a, b\|\s*\{", rf"sort_by_(&mut \1, |a: &({ty}, T::Scalar, T::Scalar), b: &({ty}, T::Scalar, T::Scalar)| -> (o: Ordering) ensures o == lex(SortItem::skey(*a), SortItem::skey(*b)) {{")


def indexed(s, std):
    s.fn(CH, None, "indexed_graham_scan_no_loop", rules=[r_sorted("(usize, T::Scalar, T::Scalar)"), sort_rule("usize")] + SORT + TEXT + std + [r_continue],
         req="""valid(vertices@, indices@), start_index is Some ==> istrip(indices@).contains(start_index->0) && low(vertices@[start_index->0 as int], at(vertices@, istrip(indices@)))""",
         ens="r is Ok, ihull(vertices@, istrip(indices@), (r->Ok_0)@)",
         hints=[("entry", "let ghost s0 = istrip(indices@); let ghost v = vertices@;"),
                (("before", "if indices.len() <= 2"), "assert(indices@ =~= s0); proof { if s0.len() == 3 { lemma_ithree(v, s0); } }"),
                (("before", "let sorted_indices"), "let ghost st = start_point; let ghost o = at(v, s0); assert(low(st, o) && s0.contains(start_index) && st == v[start_index as int]);"),
                (("before", "sort_by_("), "let ghost q0 = s__@; assert(keyed(st, o, q0));"),
                (("after_loop", 1), "let ghost l = out__@; proof { lemma_iby_angle(st, v, s0, q0, s__@, l); }"),
                (("before_loop", 2), "let ghost l = sorted_indices@; let ghost p0 = at(v, l); proof { assert(at(v, hull@) =~= seq![st]); lemma_scan0(st, p0, at(v, hull@)); }"),
                (("after", "let p = vertices[*i];", 1), "let ghost k = it2.index@; let ghost h0 = at(v, hull@); proof { assert(p == p0[k]); if same(p, st) { lemma_scan_same(st, p0, h0, k); } else { lemma_scan_in(st, p0, h0, k); } }"),
                (("body_start", 3), "let ghost h1 = at(v, hull@); proof { lemma_at(v, hull@); lemma_named(hull@, s0); lemma_valid(v, hull@, s0); if turn(h1[h1.len() - 2], h1.last(), p) <= 0real { lemma_scan_pop(st, p0, h1, k, p); } }"),
                (("after_loop", 3), "proof { lemma_at(v, hull@); lemma_named(hull@, s0); lemma_item(l, s0, k); lemma_scan_out(st, p0, at(v, hull@), k); }"),
                (("after_loop", 2), "proof { assert(o.contains(st)) by { let j = s0.index_of(start_index); assert(o[j] == st); } lemma_scan_end(st, p0, at(v, hull@), o); reveal(ihull_of); }"),
                ],
         loops=[("for", """invariant it0.seq().len() == s0.len(), vertices@ == v, valid(v, s0), o == at(v, s0), st == start_point, forall|i: int| 0 <= i < s0.len() ==> *(#[trigger] it0.seq()[i]) == s0[i], out__@.len() == it0.index@,
                   forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] out__@[i]).0 == s0[i] && rv(out__@[i].1) == ratan2(ry(o[i]) - ry(st), rx(o[i]) - rx(st)) && rv(out__@[i].2) == sq2(st, o[i])"""),
                ("for", """invariant it1.seq().len() == s__@.len(), forall|i: int| 0 <= i < s__@.len() ==> *(#[trigger] it1.seq()[i]) == s__@[i], out__@.len() == it1.index@,
                   forall|i: int| 0 <= i < it1.index@ ==> #[trigger] out__@[i] == s__@[i].0"""),
                ("for", """invariant it2.seq().len() == l.len(), vertices@ == v, p0 == at(v, l), st == start_point, valid(v, l), same_items(l, s0), valid(v, s0), forall|i: int| 0 <= i < l.len() ==> *(#[trigger] it2.seq()[i]) == l[i], low(st, p0), order(st, p0),
                   scan(st, p0, at(v, hull@), it2.index@), named_by(hull@, s0)"""),
                ("while", """invariant 0 <= k < l.len(), vertices@ == v, p0 == at(v, l), p == p0[k], valid(v, s0), named_by(hull@, s0), popping(st, p0, at(v, hull@), k, p), hull@.len() >= 1,
                   ensures popping(st, p0, at(v, hull@), k, p), named_by(hull@, s0), hull@.len() >= 2 ==> turn(at(v, hull@)[hull@.len() - 2], at(v, hull@).last(), p) > 0real,
                   decreases hull@.len()""")])
    s.fn(CH, None, "indexed_graham_scan", req="valid(vertices@, indices@)", ens="r is Ok, iresult(vertices@, istrip(indices@), (r->Ok_0)@)",
         hints=[(("after", "indexed_graham_scan_no_loop(...)?;"), "let ghost h0 = hull@; proof { assert(iresult(vertices@, istrip(indices@), iclosed(h0))); }")])


VOB = [sub_rule("vob", r"vob::", ""), sub_rule("bit", r"\bvisited\[(\w+)\]", r"visited.at_(\1)"), r_continue]


def wrapper(s, name, n, H, sg, eq, std, req, ens, hints, done):
    """a gift wrapping: the list n, its points S, the corners found H"""
    inv = f"S.len() == {n}@.len(), S.len() >= 3, {sg} < S.len(), low(S[{sg} as int], S){eq}"
    s.fn(CH, None, name, rules=TEXT + std + VOB, req=req, ens=ens,
         hints=hints + [
             (("before_loop", 0), f"proof {{ lemma_wrapping0(S, vbits(visited), {sg} as int); assert({H} =~= Seq::<T>::empty()); }}"),
             (("body_start", 0), f"let ghost (g0, b0) = ({H}, vbits(visited)); proof {{ lemma_wrapping_len(S, g0, b0, {sg} as int, point_on_hull as int); }}"),
             (("before_loop", 1), f"""let ghost (g1, b1, e0) = ({H}, vbits(visited), end_point as int);
                 proof {{ assert(g1 =~= g0.push(S[point_on_hull as int])); lemma_wrapping_in(S, g0, b0, {sg} as int, point_on_hull as int, b1, e0); }}"""),
             (("body_start", 1), f"let ghost (b2, e2) = (vbits(visited), end_point as int); proof {{ lemma_searching_len(S, g1, b2, {sg} as int, point_on_hull as int, e0, e2, j as int); }}"),
             (("body_end", 1), f"proof {{ lemma_searching(S, g1, b2, {sg} as int, point_on_hull as int, e0, e2, j as int, end_point as int, vbits(visited)); }}"),
             (("after_loop", 1), f"proof {{ lemma_searching_len(S, g1, vbits(visited), {sg} as int, point_on_hull as int, e0, end_point as int, S.len() as int); lemma_searched(S, g1, vbits(visited), {sg} as int, point_on_hull as int, e0, end_point as int); }}"),
         ],
         loops=[("loop", f"""invariant_except_break wrapping(S, {H}, vbits(visited), {sg} as int, point_on_hull as int){done[0]},
                   invariant {inv},
                   ensures {done[1]},
                   decreases free(vbits(visited)) + (if hull@.len() == 0 {{ 1int }} else {{ 0int }})"""),
                ("for", f"""invariant {inv}, {H} == g1, point_on_hull < S.len(), end_point < S.len(), vbits(visited).len() == S.len(), free(vbits(visited)) <= free(b1),
                   searching(S, g1, vbits(visited), {sg} as int, point_on_hull as int, e0, end_point as int, j as int)""")])


def indexed_wrap(s, std):
    eq = ", vertices@ == v, indices@ == s0, S == at(v, s0), valid(v, s0), named_by(hull@, s0)"
    wrapper(s, "indexed_gift_wrap_no_loop", "indices", "at(v, hull@)", "starting_index", eq, std,
            "valid(vertices@, indices@)", "r is Ok, ihull(vertices@, istrip(indices@), (r->Ok_0)@)",
            [("entry", "let ghost s0 = istrip(indices@); let ghost v = vertices@; let ghost S = at(v, s0);"),
             (("before", "if indices.len() <= 2"), "assert(indices@ =~= s0); proof { if s0.len() == 3 { lemma_ithree(v, s0); } }"),
             (("before", "hull.push(indices[point_on_hull]);"), "proof { lemma_at(v, hull@); lemma_named(hull@, s0); assert(s0.contains(s0[point_on_hull as int])); }"),
             (("before", "break;"), "proof { reveal(ihull_of); }")],
            ("", "ihull_of(v, s0, hull@)"))
    s.fn(CH, None, "indexed_gift_wrap", rules=std, req="valid(vertices@, indices@)", ens="r is Ok, iresult(vertices@, istrip(indices@), (r->Ok_0)@)",
         hints=[(("after", "indexed_gift_wrap_no_loop(...)?;"), "let ghost h0 = hull@; proof { assert(iresult(vertices@, istrip(indices@), iclosed(h0))); }")])


def spec(repo):
    s = Spec("L06", repo)
    common(s)
    s.ghost(hullx.AROUND)
    s.assumptions.append("L06: sort_unstable_by with a total order sorts and keeps the items, also when ties are answered with Less (graham_scan_wo_atan2); atan2 of directions to the right grows counter-clockwise (hullp.rs); Vob is a vector of bits")
    tup = [sub_rule("vec_type", r"let mut out__ = Vec::new\(\)", "let mut out__ = Vec::<(T, T::Scalar, T::Scalar)>::new()"), sub_rule("ref_pat", r"for\s*&\s*(\w+)\s+in\s+([^{]*?)\{", r"for \1_r__ in \2{ let \1 = *\1_r__; "),
           sub_rule("tuple_pat", r"for\s*\((\w+),\s*_,\s*_\)\s+in\s+([^{]*?)\{", r"for \1_t__ in \2{ let \1 = &\1_t__.0; "),
           sub_rule("sort", r"(\w+)\.sort_unstable_by\(\|a, b\|\s*\{", r"sort_by_(&mut \1, |a: &(T, T::Scalar, T::Scalar), b: &(T, T::Scalar, T::Scalar)| -> (o: Ordering) ensures o == lex(SortItem::skey(*a), SortItem::skey(*b)) {"),
           sub_rule("then_with", r"\.then_with\(\|\|\s*([^{}]*?)\)\s*\}", r".then(\1) }")]
    std = [sub_rule("std_contract", r"\.(copied|clone|to_vec)\(", r".\1_(")]
    three = """proof { if input_points@.len() == 3 { lemma_three_result(s0); } }"""
    s.fn(CH, None, "graham_scan", rules=tup + TEXT + std + [r_continue], ens="r is Ok, hull_result(strip(input_points@), r->Ok_0@)",
         hints=[("entry", "let ghost s0 = strip(input_points@); assert(s0.len() == 0 ==> forall|r: Seq<T>| r.len() == 0 ==> #[trigger] hull_result(s0, r)) by { if s0.len() == 0 { assert forall|r: Seq<T>| r.len() == 0 implies #[trigger] hull_result(s0, r) by { assert(r =~= s0); } } }"),
                (("before", "if input_points.len() <= 2"), "assert(input_points@ =~= s0);" + three),
                (("after", "find_lowest_x(input_points)?;"), "let ghost st = starting_point; assert(low(st, s0) && s0.contains(st));"),
                (("before", "sort_by_("), "let ghost q0 = input_points@; assert(keyed(st, s0, q0));"),
                (("after", "sort_by_(...);"), "let ghost l = input_points@.map_values(|a: (T, T::Scalar, T::Scalar)| a.0); proof { lemma_by_angle(st, s0, q0, input_points@, l); }"),
                (("before_loop", 1), "proof { lemma_scan0(st, l, hull@); }"),
                (("after", "let p = &p_t__.0;"), "let ghost k = it1.index@; let ghost h0 = hull@; proof { assert(*p == l[k]); if same(*p, st) { lemma_scan_same(st, l, h0, k); } else { lemma_scan_in(st, l, h0, k); } }"),
                (("body_start", 2), "let ghost h1 = hull@; proof { if turn(h1[h1.len() - 2], h1.last(), *p) <= 0real { lemma_scan_pop(st, l, h1, k, *p); } }"),
                (("after_loop", 2), "proof { lemma_scan_out(st, l, hull@, k); }"),
                (("after_loop", 1), "let ghost h2 = hull@; proof { lemma_scan_end(st, l, h2, s0); assert(h2.push(h2[0]).drop_last() =~= h2); assert forall|r: Seq<T>| closes(r, h2) implies #[trigger] hull_result(s0, r) by { lemma_result(s0, r, h2); } }"),
                ],
         loops=[("for", """invariant it0.seq().len() == s0.len(), st == starting_point, forall|i: int| 0 <= i < s0.len() ==> *(#[trigger] it0.seq()[i]) == s0[i], out__@.len() == it0.index@,
                   forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] out__@[i]).0 == s0[i] && rv(out__@[i].1) == ratan2(ry(s0[i]) - ry(st), rx(s0[i]) - rx(st)) && rv(out__@[i].2) == sq2(st, s0[i])"""),
                ("for", """invariant it1.seq().len() == l.len(), st == starting_point, forall|i: int| 0 <= i < l.len() ==> (*(#[trigger] it1.seq()[i])).0 == l[i], low(st, l), order(st, l), scan(st, l, hull@, it1.index@)"""),
                ("while", """invariant 0 <= k < l.len(), *p == l[k], popping(st, l, hull@, k, *p), hull@.len() >= 1,
                   ensures popping(st, l, hull@, k, *p), hull@.len() >= 2 ==> turn(hull@[hull@.len() - 2], hull@.last(), *p) > 0real,
                   decreases hull@.len()""")])
    s.fn(CH, None, "graham_scan_wo_atan2", attrs="", rules=[
             sub_rule("closure", r"let comparator = \|b: &T, c: &T\| \{", "let comparator = |b: &T, c: &T| -> (o: Ordering) ensures around(starting_point, *b, *c, o) {"),
             sub_rule("sort", r"(\w+)\.sort_unstable_by\((\w+)\)", r"sort_ties_(&mut \1, \2, Ghost(le))"),
             sub_rule("ref_cmp", r"if rv\.last\(\)\.unwrap\(\) != p \{", "if *rv.last().unwrap() != *p {")] + TEXT + std,
         ens="r is Ok, hull_result(strip(input_points@), r->Ok_0@)",
         hints=[("entry", "let ghost s0 = strip(input_points@); assert(s0.len() == 0 ==> forall|r: Seq<T>| r.len() == 0 ==> #[trigger] hull_result(s0, r)) by { if s0.len() == 0 { assert forall|r: Seq<T>| r.len() == 0 implies #[trigger] hull_result(s0, r) by { assert(r =~= s0); } } }"),
                (("before", "if input_points.len() <= 2"), "assert(input_points@ =~= s0);" + three),
                (("before", "let comparator"), "let ghost st = starting_point; proof { assert(input_points@ =~= s0); assert(low(st, s0) && s0.contains(st)); lemma_around(st, s0); } let ghost le = |a: T, b: T| ahead(st, a, b);"),
                (("after", "sort_ties_(...);"), "let ghost l = input_points@; proof { assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] ahead(st, l[i], l[j]) by { assert(le(l[i], l[j])); } lemma_around_order(st, s0, l); }"),
                (("before_loop", 0), "proof { lemma_scan0(st, l, rv@); }"),
                (("body_start", 0), "let ghost k = it0.index@; let ghost h0 = rv@; proof { assert(*p == l[k]); if same(*p, st) { lemma_late(st, l, h0, k); lemma_scan_same(st, l, h0, k); } else { lemma_scan_in(st, l, h0, k); } }"),
                (("body_start", 1), "let ghost h1 = rv@; proof { if turn(h1[h1.len() - 2], h1.last(), *p) <= 0real { lemma_scan_pop(st, l, h1, k, *p); } }"),
                (("after_loop", 1), "let ghost h2 = rv@; proof { if !same(*p, st) { lemma_scan_out(st, l, h2, k); lemma_late_push(st, h2, *p); } }"),
                (("after_loop", 0), "let ghost h3 = rv@; proof { lemma_scan_end(st, l, h3, s0); assert(h3.push(h3[0]).drop_last() =~= h3); if h3.len() > 1 { assert(before(st, h3.last())); } assert forall|r: Seq<T>| closes(r, h3) implies #[trigger] hull_result(s0, r) by { lemma_result(s0, r, h3); } }"),
                ],
         loops=[("for", """invariant it0.seq().len() == l.len(), st == starting_point, forall|i: int| 0 <= i < l.len() ==> *(#[trigger] it0.seq()[i]) == l[i], low(st, l), order(st, l), all_ahead(st, l), scan(st, l, rv@, it0.index@)"""),
                ("while", """invariant 0 <= k < l.len(), *p == l[k], rv@.len() >= 1, same(*p, st) ==> rv@ == h0 && rv@.len() == 1, !same(*p, st) ==> popping(st, l, rv@, k, *p),
                   ensures same(*p, st) ==> rv@ == h0 && rv@.len() == 1, !same(*p, st) ==> popping(st, l, rv@, k, *p), rv@.len() >= 2 ==> turn(rv@[rv@.len() - 2], rv@.last(), *p) > 0real,
                   decreases rv@.len()""")])
    indexed(s, std)
    wrapper(s, "gift_wrap", "vertices", "hull@", "starting_point", ", S == vertices@", std, "", "r is Ok, hull_result(strip(vertices@), r->Ok_0@)",
            [("entry", "let ghost s0 = strip(vertices@); assert(s0.len() == 0 ==> forall|r: Seq<T>| r.len() == 0 ==> #[trigger] hull_result(s0, r)) by { if s0.len() == 0 { assert forall|r: Seq<T>| r.len() == 0 implies #[trigger] hull_result(s0, r) by { assert(r =~= s0); } } }"),
             (("before", "if vertices.len() <= 2"), "let ghost S = vertices@; assert(S =~= s0);" + three.replace("input_points", "vertices")),
             (("before", "break;"), "proof { assert(hull@.drop_last() =~= g1); lemma_result(S, hull@, g1); }")],
            ("", "hull_result(S, hull@)"))
    indexed_wrap(s, std)
    s.trait_decls = {"LineString2": 1}
    s.parts.append(("trait", ("LineString2", "LineString2<T: GenericVector2>", "spec fn pts(&self) -> Seq<T>;")))
    s.impl_extra = {"impl < T : GenericVector2 > LineString2 < T > for Vec < T >": "open spec fn pts(&self) -> Seq<T> { self@ }"}
    s.fn(R, "LineString2 for Vec", "is_connected", ens="r == (self@.len() == 0 || same(self@[0], self@.last()))", tens="r == (self.pts().len() == 0 || same(self.pts()[0], self.pts().last()))")
    s.fn(R, "LineString2 for Vec", "convex_hull", rules=[sub_rule("module_path", r"\bconvex_hull::graham_scan\b", "graham_scan")],
         ens="r is Ok, hull_result(strip(self@), r->Ok_0@)", tens="r is Ok, hull_result(strip(self.pts()), r->Ok_0@)")
    return s
