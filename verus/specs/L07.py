"""L07: the parallel convex hull."""
from vgen import Spec, sub_rule, r_enumerate, r_continue, r_map_reduce
import L06, hullc

R, CH = "src/linestring_2d.rs", "src/linestring_2d/convex_hull.rs"


def combine(s, std):
    inv = "vertices@ == v, indices_a@ == a, indices_b@ == b, S == at(v, a) + at(v, b), a.len() > 0, b.len() > 0, combinable(v, a, b)"
    other = lambda k, l, lo, flag: ("loop", f"""invariant {inv}, placed(point_on_hull, a, b), point_on_hull.from_a == {flag}, placed(end_point, a, b), {l}@.len() <= usize::MAX,
               it_at(w{k}__.remaining(), {l}@, e{k}__ as int), seek(S, h1, place(point_on_hull, na), e0, place(end_point, na), {lo}, e{k}__ as int), na == a.len(),
             ensures e{k}__ == {l}@.len(),
             decreases {l}@.len() - e{k}__""")
    body = lambda k, lo: [(("body_start", k), f"let ghost (j{k}, x{k}) = (e{k - 1}__ as int, end_point); proof {{ lemma_places(v, a, b, end_point); lemma_places(v, a, b, point_on_hull); }}"),
                          (("body_end", k), f"proof {{ if e{k - 1}__ > j{k} {{ lemma_places(v, a, b, end_point); lemma_seek(S, h1, place(point_on_hull, na), e0, place(x{k}, na), {lo}, j{k}, place(end_point, na)); }} }}")]
    sought = lambda e: f"lemma_places(v, a, b, {e}); assert(best(if p0.from_a {{ at(v, a) }} else {{ at(v, b) }}, S[place(p0, na)], S[e0])); lemma_sought(at(v, a), at(v, b), S, h1, place(p0, na), e0, place({e}, na), p0.from_a);"
    s.fn(CH, None, "combine_indexed_convex_hull", rules=std + [r_continue, r_enumerate],
         req="indices_a is Ok && indices_b is Ok ==> combinable(vertices@, (indices_a->Ok_0)@, (indices_b->Ok_0)@)",
         ens="indices_a is Err || indices_b is Err ==> r is Err, indices_a is Ok && indices_b is Ok ==> r is Ok && combined(vertices@, (indices_a->Ok_0)@, (indices_b->Ok_0)@, (r->Ok_0)@)",
         hints=[(("before", "let starting_index"), """let ghost (v, a, b) = (vertices@, indices_a@, indices_b@); let ghost S = at(v, a) + at(v, b); let ghost na = a.len() as int;
                   proof { ax_vec_len(&indices_a); ax_vec_len(&indices_b); }"""),
                (("before_loop", 0), "proof { lemma_places(v, a, b, starting_index); lemma_low(S, at(v, a), at(v, b)); lemma_wrap_start(S, 0); assert(at(v, hull@) =~= Seq::<T>::empty()); assert(at(v, hull@).push(S[0]) =~= seq![S[0]]); }"),
                (("body_start", 0), "let ghost h0 = at(v, hull@); let ghost p0 = point_on_hull; proof { lemma_places(v, a, b, point_on_hull); lemma_wrap_len(S, h0.push(S[place(point_on_hull, na)])); lemma_at(v, hull@); lemma_named(hull@, a + b); lemma_wrap_around(point_on_hull.index_index as int, if point_on_hull.from_a { na } else { b.len() as int }); }"),
                (("before", "if point_on_hull.from_a {", 1), """let ghost h1 = at(v, hull@); let ghost e0 = place(end_point, na);
                   proof { assert(h1 == h0.push(S[place(point_on_hull, na)])); lemma_places(v, a, b, end_point);
                     if point_on_hull.from_a { lemma_next(v, a, point_on_hull.index_index as int, v[end_point.index as int]); } else { lemma_next(v, b, point_on_hull.index_index as int, v[end_point.index as int]); }
                     lemma_seek0(S, h1, place(point_on_hull, na), e0, if point_on_hull.from_a { na } else { 0 }); }"""),
                (("before", "break;", 2), "proof { " + sought("end_point") + " reveal(joined); }"),
                (("body_end", 0), "proof { " + sought("point_on_hull") + " }"),
                ] + body(1, "na") + body(2, "0"),
         loops=[("loop", f"""invariant_except_break placed(point_on_hull, a, b), wrap(S, at(v, hull@).push(S[place(point_on_hull, na)])), hull@.len() == 0 ==> point_on_hull == starting_index,
                   invariant {inv}, na == a.len(), S.len() <= usize::MAX, placed(starting_index, a, b), place(starting_index, na) == 0, named_by(hull@, a + b), hull@.len() > 0 ==> hull@[0] == a[0],
                   ensures joined(v, a, b, hull@),
                   decreases S.len() - hull@.len()"""),
                other(0, "indices_b", "na", "true"), other(1, "indices_a", "0", "false")])


PARX = [sub_rule("par_iter", r"\binto_par_iter\b", "into_iter"), sub_rule("par_iter", r"\bpar_iter\b", "iter"),
        sub_rule("chunks", r"(\w+)\.chunks\(([^()]*)\)\.collect\(\)", r"chunks_(\1, \2)"),
        sub_rule("result_map", r"(\w+\([^()]*\))\s*\.map\(\|(\([^|]*\))\|\s*([^()]*)\)", r"(match \1 { Ok(\2) => Ok(\3), Err(e__) => Err(e__) })")]
HULL = "Result<Vec<usize>, LinestringError>"


def par(s, std):
    inv = "|xs: Seq<Hull>, x: Hull| gathered(v, s0, st, xs, x)"
    hint = """proof {
        let its = items__@;
        assert forall|x: Hull| #[trigger] id__.ensures((), x) implies gathered(v, s0, st, Seq::<Hull>::empty(), x) by { lemma_gathered0(v, s0, st, x); }
        assert forall|xs: Seq<Hull>, x: Hull, y: Hull| #[trigger] gathered(v, s0, st, xs, x) && #[trigger] its.contains(y) implies op__.requires((x, y)) by { let j = its.index_of(y); assert(item(v, s0, its[j])); lemma_fold_req(v, s0, st, xs, x, y); }
        assert forall|xs: Seq<Hull>, x: Hull, y: Hull, o: Hull| #[trigger] gathered(v, s0, st, xs, x) && its.contains(y) && #[trigger] op__.ensures((x, y), o) implies gathered(v, s0, st, xs.push(y), o) by { let j = its.index_of(y); assert(item(v, s0, its[j])); lemma_fold(v, s0, st, xs, x, y, o); }
        assert forall|xs: Seq<Hull>, x: Hull, ys: Seq<Hull>, y: Hull| #[trigger] gathered(v, s0, st, xs, x) && #[trigger] gathered(v, s0, st, ys, y) implies op__.requires((x, y)) by { lemma_join_req(v, s0, st, xs, x, ys, y); }
        assert forall|xs: Seq<Hull>, x: Hull, ys: Seq<Hull>, y: Hull, o: Hull| #[trigger] gathered(v, s0, st, xs, x) && #[trigger] gathered(v, s0, st, ys, y) && #[trigger] op__.ensures((x, y), o) implies gathered(v, s0, st, xs + ys, o) by { lemma_join(v, s0, st, xs, x, ys, y, o); }
        ghost_items = items__@;
    }"""
    red = r_map_reduce(HULL, "o is Ok && (o->Ok_0)@.len() == 1 && (o->Ok_0)@[0] == start_index", "mergeable(vertices@, {x}, {y})", "merged(vertices@, {x}, {y}, o)", inv, hint, "proof { lemma_gathered(v, s0, st, cs, ghost_items, r__); }")
    s.fn(CH, None, "convex_hull_par", rules=PARX + [red] + std, req="valid(vertices@, indices@), per_thread_chunk_size > 0", ens="r is Ok, presult(vertices@, istrip(indices@), (r->Ok_0)@)",
         hints=[("entry", "let ghost s0 = istrip(indices@); let ghost v = vertices@; let ghost mut ghost_items = Seq::<Hull>::empty(); let ghost mut ls = Seq::<usize>::empty(); assert(indices@.len() <= 1 ==> s0 == indices@);"),
                (("before", "if indices.len() <= 2"), """assert(indices@ =~= s0); proof { if s0.len() == 3 { lemma_ithree(v, s0);
                    let r1 = seq![s0[0], s0[1], s0[2], s0[0]]; let h2 = seq![s0[0], s0[2], s0[1]]; let r2 = seq![s0[0], s0[2], s0[1], s0[0]];
                    assert(iclosed(s0) =~= r1); assert(iclosed(h2) =~= r2);
                    if ihull_of(v, s0, s0) { lemma_presult(v, s0, s0); } if ihull_of(v, s0, h2) { lemma_presult(v, s0, h2); }
                    assert forall|r: Seq<usize>| r.len() == 4 && r[0] == s0[0] && r[1] == s0[1] && r[2] == s0[2] && r[3] == s0[0] && presult(v, s0, r1) implies #[trigger] presult(v, s0, r) by { assert(r =~= r1); }
                    assert forall|r: Seq<usize>| r.len() == 4 && r[0] == s0[0] && r[1] == s0[2] && r[2] == s0[1] && r[3] == s0[0] && presult(v, s0, r2) implies #[trigger] presult(v, s0, r) by { assert(r =~= r2); } } }"""),
                (("after", "chunks_(...);"), "let ghost cs = chunks@; assert(cs.len() > 0) by { reveal(pieces); assert(s0[0] == s0[0]); }"),
                (("body_start", 0), "proof { lemma_piece(v, s0, cs, it0.index@); }"),
                (("before", "start_indexes[indexed_find_lowest_x(...)"), "proof { ls = start_indexes@; assert forall|i: int| 0 <= i < ls.len() implies (#[trigger] ls[i]) < v.len() by { assert(lowest(v, cs[i]@, ls[i])); } }"),
                (("before", "let mut hull"), "let ghost st = start_index; proof { let k = choose|k: int| 0 <= k < ls.len() && ls[k] == st && low(v[st as int], at(v, ls)); lemma_lowest(v, s0, cs, ls, k); }"),
                (("body_start", 1), "proof { lemma_piece(v, s0, cs, it1.index@); }"),
                (("body_end", 1), "proof { lemma_hull_item(v, s0, cs[it1.index@]@, items__@[it1.index@]); }"),
                (("before", "if hull.len() > 1"), "let ghost h0 = hull@; proof { lemma_presult(v, s0, h0); }"),
                ],
         loops=[("for", """invariant it0.seq().len() == cs.len(), forall|i: int| 0 <= i < cs.len() ==> *(#[trigger] it0.seq()[i]) == cs[i], v == vertices@, valid(v, s0), pieces(cs, s0), out__@.len() == it0.index@,
                   forall|i: int| 0 <= i < it0.index@ ==> lowest(v, cs[i]@, #[trigger] out__@[i])"""),
                ("for", """invariant it1.seq() == cs, v == vertices@, valid(v, s0), pieces(cs, s0), items__@.len() == it1.index@,
                   forall|i: int| 0 <= i < it1.index@ ==> item(v, s0, #[trigger] items__@[i]) && items__@[i] is Ok && ihull(v, istrip(cs[i]@), (items__@[i]->Ok_0)@)""")])


def spec(repo):
    s = Spec("L07", repo)
    L06.common(s, "parx")
    s.assumptions.append("L07: rayon's reduce is some tree of combinations whose leaves fold items in order from the identity on, par_iter().map().collect() equals iter().map().collect() for a "
                         "function without effects (parx.rs); chunks are non-empty pieces that make up the slice; derive(Clone) copies; a vector has at most isize::MAX items")
    s.pure(hullc.COMBINE)
    std = [sub_rule("std_contract", r"\.(copied|clone|to_vec)\(", r".\1_(")]
    L06.indexed(s, std)
    s.type(CH, "VertexIndex")
    s.raw("impl VertexIndex { /* derive(Clone) */ #[verifier::external_body] pub fn clone_(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n")
    s.ghost(hullc.INDEX + hullc.PAR)
    combine(s, std)
    par(s, std)
    s.trait_decls = {"LineString2": 1}
    s.parts.append(("trait", ("LineString2", "LineString2<T: GenericVector2>", "spec fn pts(&self) -> Seq<T>;")))
    s.impl_extra = {"impl < T : GenericVector2 > LineString2 < T > for Vec < T >": "open spec fn pts(&self) -> Seq<T> { self@ }"}
    s.fn(R, "LineString2 for Vec", "convex_hull_par", rules=[sub_rule("assert", r"\bassert!\(", "rt_assert("), sub_rule("module_path", r"\bconvex_hull::convex_hull_par\b", "convex_hull_par"),
            sub_rule("range_vec", r"\((\w+)\.\.([\w.]+\(\))\)\.collect\(\)", r"range_vec_(\1, \2)"),
            sub_rule("bind", r"\{ let mut out__ = Vec::new\(\); for (\w+) in (\w+\([^?]*\)\?)\s*\.iter\(\)", r"{ let list__ = \2; let mut out__ = Vec::new(); for \1 in list__.iter()")],
         hints=[(("after", "range_vec_(...);"), "let ghost n = iota(self@.len() as int); assert(indices@ =~= n); proof { lemma_iota(self@); }"),
                (("before_loop", 0), "let ghost x = list__@; proof { lemma_points(self@, x, at(self@, x)); }"),
                (("after_loop", 0), "assert(out__@ =~= at(self@, x));")],
         loops=[("for", """invariant it0.seq().len() == x.len(), forall|i: int| 0 <= i < x.len() ==> *(#[trigger] it0.seq()[i]) == x[i], valid(self@, x), out__@.len() == it0.index@,
                   forall|i: int| 0 <= i < it0.index@ ==> #[trigger] out__@[i] == self@[x[i] as int]""")],
         req="per_thread_chunk_size > 1", treq="per_thread_chunk_size > 1", ens="r is Ok, ppresult(self@, r->Ok_0@)", tens="r is Ok, ppresult(self.pts(), r->Ok_0@)")
    return s
