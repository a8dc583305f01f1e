import os
from vgen import Spec, PRE, sub_rule, r_continue, r_ok_or_else, r_label_continue
import L01
import sweepx
import sweepg
from L05 import COUNT, FOR, ARG, SET, SORT, DEDUP, IDENT, VECDEF, TOVEC, SWAP, PATH, TEXT, SLICE, KEY, XHINTS, handle_loops, handle_hints, slopes, keys

RX = "src/linestring_2d/indexed_intersection.rs"
SMALL = [sub_rule("smallvec", r"SmallVec\s*<\s*\[\s*usize\s*;\s*\d+\s*\]\s*>", "Vec<usize>"), sub_rule("smallvec", r"\bsmallvec!", "vec!"),
         sub_rule("smallvec", r"\bi\.into\(\)", "i.to_vec_()")]
SMALLSIG = lambda gen, params, rt, wh: (gen, params, "&Option<Vec<usize>>", wh)
PANIC = sub_rule("panic_message", r"\.unwrap_or_else\(\|\|\s*\{\s*println!\([^;]*\);\s*panic!\(\);?\s*\}\)", ".unwrap()")

DATA = """
/// every crossing of two lines is listed with both
pub open spec fn entries<T: GenericVector2>(ls: Seq<Line2<T>>, v: Seq<T>, list: Seq<(usize, Vec<usize>)>) -> bool {
    forall|i: int, j: int, q: V| #[trigger] xing(sgs(ls), i, j, q) ==> exists|n: int| 0 <= n < list.len() && #[trigger] entry(vv(v[list[n].0 as int]), list[n].1@, i, j, q)
}
/// the edges l between the points v
pub open spec fn geo<T>(v: Seq<T>, l: Seq<(usize, usize)>) -> Seq<Line2<T>> { Seq::new(l.len(), |i: int| Line2 { start: v[l[i].0 as int], end: v[l[i].1 as int] }) }
pub open spec fn gl<T: GenericVector2>(d: IntersectionTester<T>) -> Seq<Line2<T>> { geo(d.vertices@, d.lines@) }
pub open spec fn inside(n: int, l: Seq<(usize, usize)>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 < n && l[i].1 < n }
/// v with points added
pub open spec fn longer<T>(v: Seq<T>, f: Seq<T>) -> bool { v.len() <= f.len() && f.subrange(0, v.len() as int) =~= v }
pub broadcast proof fn lemma_longer<T>(v: Seq<T>, f: Seq<T>, l: Seq<(usize, usize)>)
    requires longer(v, f), inside(v.len() as int, l)
    ensures #![trigger longer(v, f), geo(v, l)] geo(f, l) == geo(v, l), inside(f.len() as int, l)
{
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] f[i] == v[i] by { assert(f.subrange(0, v.len() as int)[i] == f[i]); }
    assert(geo(f, l) =~= geo(v, l));
}
/// every position in the map is the one of the vertex its key names
pub open spec fn named<T: GenericVector2, W>(v: Seq<T>, q: Map<V, (SiteEventKey<T>, W)>) -> bool {
    forall|p: V| #[trigger] q.dom().contains(p) ==> names(v, q[p].0, p)
}
pub open spec fn names<T: GenericVector2>(v: Seq<T>, k: SiteEventKey<T>, p: V) -> bool { k.index is Some && k.index->0 < v.len() && vv(v[k.index->0 as int]) == p && vv(k.pos) == p }
pub broadcast proof fn lemma_named<T: GenericVector2, W>(v: Seq<T>, f: Seq<T>, q: Map<V, (SiteEventKey<T>, W)>)
    requires #[trigger] longer(v, f), #[trigger] named(v, q)
    ensures named(f, q)
{
    assert forall|p: V| #[trigger] q.dom().contains(p) implies names(f, q[p].0, p) by {
        let i = q[p].0.index->0 as int;
        assert(f.subrange(0, v.len() as int)[i] == f[i]);
    }
}
pub open spec fn wf<T: GenericVector2>(d: IntersectionTester<T>) -> bool {
    d.site_events is Some && inside(d.vertices@.len() as int, d.lines@) && all_proper(gl(d)) && queue(gl(d), bm(d.site_events->0), vv(d.sweepline_pos), true)
        && known(gl(d), bm(d.site_events->0), vv(d.sweepline_pos), true) && named(d.vertices@, bm(d.site_events->0))
}
"""


def parts(s):
    L01.parts(s)
    s.prelude("stdx")
    s.assumptions.append("L05_x: BTreeMap is a map sorted by the proved key order, AHashSet a set, sort_unstable and dedup keep the listed numbers, a Vec<usize> has at most usize::MAX/8 items (treex.rs); with_lines/with_edges are given the list of items of their iterator")
    s.raw("pub struct IoErr;")
    s.type("src/lib.rs", "LinestringError", rules=[sub_rule("io_error", r"std::io::Error", "IoErr")])
    s.use("core::cmp::Ordering")
    s.ghost("pub fn stub_string() -> (r: String) { String::new() }")
    s.ghost(open(os.path.join(PRE, "treex.rs")).read())
    keys(s, RX)
    for t in ("MinMax", "MinMaxSlope", "SiteEvent", "IntersectionTester"):
        s.type(RX, t, rules=[PATH] + SMALL, prefix="" if t == "SiteEvent" else "#[verifier::reject_recursive_types(T)]\n")
    s.pure(sweepg.PURE)
    s.pure(sweepx.PURE)
    s.ghost(sweepx.GHOST)
    s.ghost(sweepg.GHOST)
    s.ghost(KEY)
    s.ghost(DATA)
    slopes(s, RX, dict(req="candidate_index < lines@.len(), inside(vertices@.len() as int, lines@)", ens="""forall|n: int| mms(*old(self), n) && candidate_index < n ==> #[trigger] mms(*final(self), n),
            up(sg(geo(vertices@, lines@)[candidate_index as int])) ==> both_took(*old(self), *final(self), lean(sg(geo(vertices@, lines@)[candidate_index as int])), candidate_index)""",
                       hints=[(("before", "self . update_left"), "proof { if up(sg(geo(vertices@, lines@)[candidate_index as int])) { lemma_line_k(vv(line_start), vv(line_end), rv(candidate_slope)); } }")]))
    s.fn(RX, "SiteEvent", "with_intersection", rules=[TOVEC] + SMALL, ens="r.drop is None, r.add is None, r.intersection is Some, ol(r.intersection) == i@")
    s.fn(RX, "SiteEvent", "with_drop", rules=[TOVEC], ens="r.intersection is None, r.add is None, ol(r.drop) == l@")
    s.fn(RX, "SiteEvent", "with_add", rules=[TOVEC], ens="r.intersection is None, r.drop is None, ol(r.add) == l@")
    s.fn(RX, "SiteEvent", "get_intersections", sig=SMALLSIG, ens="*r == self.intersection")
    other = "(Line2 { start: vertices@[other.0 as int], end: vertices@[other.1 as int] })"
    s.fn(RX, None, "sweepline_intersection", req="other.0 < vertices@.len(), other.1 < vertices@.len()", ens="up(sg(%s)) ==> r is Some && rv((r->0).0) == xa(sg(%s), ry(sweepline))" % (other, other),
         hints=[(at, h.replace("other.start", "other_start").replace("other.end", "other_end")) for at, h in XHINTS])
    D = "IntersectionTester"
    s.fn(RX, D, "new", ens="wf(r), r.vertices == vertices, r.lines@.len() == 0, !r.ignore_end_point_intersections, !r.stop_at_first_intersection")
    s.fn(RX, D, "get_sweepline_pos", ens="r == (self.sweepline_pos, self.sweepline_pos_index)")
    s.fn(RX, D, "get_lines", ens="r@ == self.lines@")
    same = "r->Ok_0.lines == self.lines, r->Ok_0.vertices == self.vertices, r->Ok_0.site_events == self.site_events, r->Ok_0.sweepline_pos == self.sweepline_pos"
    s.fn(RX, D, "with_stop_at_first_intersection", ens="r is Ok, wf(self) ==> wf(r->Ok_0), r->Ok_0.stop_at_first_intersection == value, r->Ok_0.ignore_end_point_intersections == self.ignore_end_point_intersections, " + same)
    s.fn(RX, D, "with_ignore_end_point_intersections", ens="r is Ok, wf(self) ==> wf(r->Ok_0), r->Ok_0.ignore_end_point_intersections == value, r->Ok_0.stop_at_first_intersection == self.stop_at_first_intersection, " + same)
    flags = "me__.ignore_end_point_intersections == self.ignore_end_point_intersections, me__.stop_at_first_intersection == self.stop_at_first_intersection"
    s.fn(RX, D, "with_edges", sig=lambda gen, params, rt, wh: ("", params.replace("input_iter: IT", "input_iter: &[(usize, usize)]"), rt, ""),
         rules=[r_ok_or_else, IDENT, SWAP, TEXT, VECDEF, sub_rule("item_list", r"for aline in input_iter\b", "for aline in input_iter.iter()")],
         req="wf(self), inside(self.vertices@.len() as int, input_iter@), all_proper(geo(self.vertices@, input_iter@))",
         ens="""r is Ok ==> wf(r->Ok_0) && r->Ok_0.lines@ == self.lines@ + input_iter@ && r->Ok_0.vertices == self.vertices
            && (forall|i: int| 0 <= i < input_iter@.len() ==> fin2(self.vertices@[(#[trigger] input_iter@[i]).0 as int]) && fin2(self.vertices@[input_iter@[i].1 as int]))
            && r->Ok_0.ignore_end_point_intersections == self.ignore_end_point_intersections && r->Ok_0.stop_at_first_intersection == self.stop_at_first_intersection,
            (forall|i: int| 0 <= i < input_iter@.len() ==> fin2(self.vertices@[(#[trigger] input_iter@[i]).0 as int]) && fin2(self.vertices@[input_iter@[i].1 as int])) ==> r is Ok""",
         loops=[("for", """invariant forall|i: int| 0 <= i < it0.index@ ==> fin2(self.vertices@[(#[trigger] input_iter@[i]).0 as int]) && fin2(self.vertices@[input_iter@[i].1 as int]), me__.vertices == self.vertices, me__.lines@ =~= self.lines@ + input_iter@.take(it0.index@ as int),
            all_proper(geo(self.vertices@, input_iter@)), inside(self.vertices@.len() as int, input_iter@),
            inside(self.vertices@.len() as int, me__.lines@), all_proper(gl(me__)), named(self.vertices@, bm(site_events)),
            queue(gl(me__), bm(site_events), vv(self.sweepline_pos), true), known(gl(me__), bm(site_events), vv(self.sweepline_pos), true), me__.sweepline_pos == self.sweepline_pos, """ + flags)],
         hints=[(("body_start", 0), "let ghost g0__ = gl(me__); let ghost q0__ = bm(site_events); let ghost l__ = geo(self.vertices@, input_iter@)[it0.index@ as int]; assert(*aline == input_iter@[it0.index@ as int]); assert(proper(l__));"),
                (("before", "if let Some ( event ) = site_events . get_mut ( & key_start )"), "assert(vv(start) == lo(l__) && vv(end) == hi(l__)); assert(gl(me__) =~= g0__.push(l__));"),
                (("before", "if let Some ( event ) = site_events . get_mut ( & key_end )"), """let ghost q1__ = bm(site_events);
            proof { lemma_start(g0__, l__, q0__, lo(l__), index, q1__); }"""),
                (("body_end", 0), """proof {
                let q2__ = bm(site_events);
                lemma_stop(gl(me__), q1__, hi(l__), index, q2__);
                lemma_known(g0__, l__, q0__, q1__, q2__, vv(self.sweepline_pos), index);
                assert forall|i: int| 0 <= i < gl(me__).len() implies queued(q2__, #[trigger] gl(me__)[i], vv(self.sweepline_pos), true) by {
                    if i < g0__.len() { assert(gl(me__)[i] == g0__[i]); assert(queued(q0__, g0__[i], vv(self.sweepline_pos), true)); }
                }
            }"""),
                ("tail", "assert(input_iter@.take(input_iter@.len() as int) =~= input_iter@);")])
    s.fn(RX, D, "add_intersection_event", rules=[r_continue, SORT, DEDUP] + SMALL,
         req="""events(gl(*self), bm(*old(site_events))), intersecting_lines@.len() == 2, intersecting_lines@[0] != intersecting_lines@[1], inside(self.vertices@.len() as int, self.lines@),
            forall|k: int| 0 <= k < 2 ==> (#[trigger] intersecting_lines@[k]) < self.lines@.len() && on(gl(*self)[intersecting_lines@[k] as int], vv(position.pos)),
            !bm(*old(site_events)).dom().contains(vv(position.pos)) ==> crosses(gl(*self), vv(position.pos), intersecting_lines@) && spot(gl(*self), vv(position.pos))""",
         ens="""events(gl(*self), bm(*final(site_events))), bm(*final(site_events)).dom() =~= bm(*old(site_events)).dom().insert(vv(position.pos)), kept(bm(*old(site_events)), bm(*final(site_events))),
            forall|k: int| 0 <= k < 2 && interior(gl(*self)[intersecting_lines@[k] as int], vv(position.pos)) ==> inters(bm(*final(site_events)), vv(position.pos)).contains(#[trigger] intersecting_lines@[k]),
            named(self.vertices@, bm(*old(site_events))) && names(self.vertices@, *position, vv(position.pos)) ==> named(self.vertices@, bm(*final(site_events)))""",
         loops=[("for", """invariant event.add == e0__.add, event.drop == e0__.drop, wider(gl(*self), vv(position.pos), ol(e0__.intersection), ol(event.intersection)),
            intersections_added > 0 ==> event.intersection is Some, intersections_added == 0 ==> event.intersection == e0__.intersection, 0 <= intersections_added <= it0.index@,
            intersecting_lines@.len() == 2, inside(self.vertices@.len() as int, self.lines@),
            forall|k: int| 0 <= k < it0.index@ && interior(gl(*self)[intersecting_lines@[k] as int], vv(position.pos)) ==> ol(event.intersection).contains(#[trigger] intersecting_lines@[k]),
            forall|k: int| 0 <= k < 2 ==> (#[trigger] intersecting_lines@[k]) < self.lines@.len() && on(gl(*self)[intersecting_lines@[k] as int], vv(position.pos))""")],
         hints=[("entry", "let ghost q0__ = bm(*site_events); let ghost p__ = vv(position.pos);"),
                (("before", "let mut intersections_added"), "let ghost e0__ = *event;"),
                (("body_start", 0), "let ghost s0__ = ol(event.intersection); assert(*new_intersection == intersecting_lines@[it0.index@ as int]);"),
                (("body_end", 0), """proof {
                    let s1__ = ol(event.intersection);
                    lemma_push(s0__, *new_intersection);
                    assert(s1__ =~= s0__ || (s1__ =~= s0__.push(*new_intersection) && interior(gl(*self)[*new_intersection as int], vv(position.pos))));
                    assert(wider(gl(*self), vv(position.pos), s0__, s1__));
                }"""),
                ("exit", """proof {
            let q1__ = bm(*site_events);
            if q0__.dom().contains(p__) { assert(wider(gl(*self), p__, inters(q0__, p__), inters(q1__, p__))); lemma_wider(gl(*self), q0__, p__, q1__); }
            else { lemma_meet(gl(*self), q0__, p__, intersecting_lines@, q1__); }
            lemma_kept_widen(q0__, p__, q1__);
        }""")])
    fixed = "final(self).lines == old(self).lines, final(self).ignore_end_point_intersections == old(self).ignore_end_point_intersections, final(self).stop_at_first_intersection == old(self).stop_at_first_intersection, final(self).site_events == old(self).site_events, longer(old(self).vertices@, final(self).vertices@)"
    stay = fixed.replace("final(self)", "self") + ", inside(self.vertices@.len() as int, self.lines@), self.sweepline_pos == old(self).sweepline_pos, self.sweepline_pos_index == old(self).sweepline_pos_index, queue(gl(*self), bm(*site_events), vv(self.sweepline_pos), false), named(self.vertices@, bm(*site_events)), below(right@, self.lines@.len() as int), "
    s.fn(RX, D, "find_new_events", rules=[r_continue],
         req="""queue(gl(*old(self)), bm(*old(site_events)), vv(old(self).sweepline_pos), false), inside(old(self).vertices@.len() as int, old(self).lines@), named(old(self).vertices@, bm(*old(site_events))),
            below(left@, old(self).lines@.len() as int), below(right@, old(self).lines@.len() as int)""",
         ens=fixed + """, final(self).sweepline_pos == old(self).sweepline_pos, final(self).sweepline_pos_index == old(self).sweepline_pos_index, inside(final(self).vertices@.len() as int, final(self).lines@),
            r is Ok ==> queue(gl(*final(self)), bm(*final(site_events)), vv(old(self).sweepline_pos), false) && named(final(self).vertices@, bm(*final(site_events))),
            r is Ok ==> kept(bm(*old(site_events)), bm(*final(site_events))) && pairs(gl(*old(self)), vv(old(self).sweepline_pos), left@, right@, bm(*final(site_events)))""",
         loops=[("for", "invariant " + stay + "below(left@, self.lines@.len() as int), gl(*self) == gl(*old(self)), kept(bm(*old(site_events)), bm(*site_events)), pairs(gl(*self), vv(self.sweepline_pos), left@.take(it0.index@ as int), right@, bm(*site_events))"),
                ("for", "invariant " + stay + "*left_i < self.lines@.len(), gl(*self) == gl(*old(self)), kept(bm(*old(site_events)), bm(*site_events)), pairs(gl(*self), vv(self.sweepline_pos), left0__, right@, bm(*site_events)), pairs(gl(*self), vv(self.sweepline_pos), seq![*left_i], right@.take(it1.index@ as int), bm(*site_events))")],
         hints=[("entry", "proof { lemma_kept0(bm(*site_events)); lemma_pairs0(gl(*self), vv(self.sweepline_pos), left@.take(0), right@, bm(*site_events)); assert(self.vertices@.subrange(0, self.vertices@.len() as int) =~= self.vertices@); }"),
                ("tail", "assert(left@.take(left@.len() as int) =~= left@);"),
                (("body_start", 0), "let ghost left0__ = left@.take(it0.index@ as int); assert(*left_i == left@[it0.index@ as int]); proof { lemma_pairs0(gl(*self), vv(self.sweepline_pos), seq![*left_i], right@.take(0), bm(*site_events)); }"),
                (("body_end", 0), "proof { assert(right@.take(right@.len() as int) =~= right@); lemma_pairs2(gl(*self), vv(self.sweepline_pos), left0__, *left_i, right@, bm(*site_events)); assert(left0__.push(*left_i) =~= left@.take(it0.index@ as int + 1)); }"),
                (("body_start", 1), "broadcast use lemma_pick; broadcast use lemma_longer; broadcast use lemma_named; assert(*right_i == right@[it1.index@ as int]); let ghost v0__ = self.vertices@; let ghost qs__ = bm(*site_events); let ghost mut ri__: Option<Intersection<T>> = None;"),
                (("body_end", 1), """proof {
                        let ls__ = gl(*self); let at__ = vv(self.sweepline_pos); let (a__, b__) = (*left_i, *right_i); let q1__ = bm(*site_events);
                        if q1__ == qs__ { lemma_kept0(qs__); }
                        lemma_kept1(bm(*old(site_events)), qs__, q1__);
                        lemma_pairs_kept(ls__, at__, left0__, right@, qs__, q1__);
                        lemma_pairs_kept(ls__, at__, seq![a__], right@.take(it1.index@ as int), qs__, q1__);
                        if vv(ls__[a__ as int].end) == vv(ls__[b__ as int].end) { lemma_pair_end(ls__, at__, a__, b__, q1__); }
                        else { lemma_pair_new(ls__, at__, a__, b__, ri__, q1__); }
                        lemma_pairs1(ls__, at__, a__, right@.take(it1.index@ as int), b__, q1__);
                        assert(right@.take(it1.index@ as int).push(b__) =~= right@.take(it1.index@ as int + 1));
                    }"""),
                (("before", "let intersection_p = intersection_p . single ( ) ;"), "proof { ri__ = Some(intersection_p); }"),
                (("after", "let intersection_p = intersection_p . single ( ) ;"), "let ghost p__ = vv(intersection_p); proof { lemma_spot_pick(gl(*self), *left_i as int, *right_i as int, ri__); } assert(on(gl(*self)[*left_i as int], p__) && on(gl(*self)[*right_i as int], p__));"),
                (("before", "self . add_intersection_event"), """let ghost q0__ = bm(*site_events);
                        proof {
                            assert(longer(v0__, self.vertices@));
                            assert(klt(vv(self.sweepline_pos), p__));
                            let ls__ = gl(*self); let at__ = vv(self.sweepline_pos); let (a__, b__) = (*left_i, *right_i);
                            if !q0__.dom().contains(p__) {
                                lemma_inner(ls__, q0__, at__, p__, a__ as int); lemma_inner(ls__, q0__, at__, p__, b__ as int);
                                lemma_two(seq![a__, b__], a__, b__);
                            }
                        }""")])
    s.fn(RX, D, "report_intersections_to_result", sig=lambda gen, params, rt, wh: ("", params.replace("intersecting_lines: I", "intersecting_lines: &[usize]"), rt, ""),
         rules=[SORT, VECDEF, sub_rule("item_list", r"for line in intersecting_lines\b", "for line in intersecting_lines.iter()")],
         req="pos_index < old(self).vertices@.len()",
         ens="""*final(self) == *old(self), added(bm(*old(result)), vv(old(self).vertices@[pos_index as int]), intersecting_lines@, bm(*final(result))),
            named(old(self).vertices@, bm(*old(result))) ==> named(old(self).vertices@, bm(*final(result)))""",
         loops=[("for", "invariant value@ =~= v0__ + intersecting_lines@.take(it0.index@ as int)")],
         hints=[(("before_loop", 0), "let ghost v0__ = value@; proof { lemma_cat(v0__, intersecting_lines@); if v0__.no_duplicates() && intersecting_lines@.no_duplicates() && (forall|x: usize| #[trigger] intersecting_lines@.contains(x) ==> !v0__.contains(x)) { lemma_cat_once(v0__, intersecting_lines@); } }"),
                (("after_loop", 0), "assert(intersecting_lines@.take(intersecting_lines@.len() as int) =~= intersecting_lines@);"),
                ("exit", "proof { assert(forall|x: usize| #[trigger] had(bm(*old(result)), vv(pos), x) <==> v0__.contains(x)); }")])
    n = "old(self).lines@.len()"
    keep = "self.lines == old(self).lines, self.vertices == old(self).vertices, inside(self.vertices@.len() as int, self.lines@), gl(*self) == gl(*old(self))"
    act = lambda a: "forall|x: usize| #[trigger] hs(*%s).contains(x) ==> x < %s" % (a, n)
    s.fn(RX, D, "handle_event", rules=[PANIC, r_label_continue, COUNT, FOR, ARG, SET, SLICE],
         req="""queue(gl(*old(self)), bm(*old(site_events)), vv(key.pos), false), all_proper(gl(*old(self))), evt(gl(*old(self)), vv(key.pos), *event), inside(old(self).vertices@.len() as int, old(self).lines@),
            named(old(self).vertices@, bm(*old(site_events))), named(old(self).vertices@, bm(*old(result))), names(old(self).vertices@, *key, vv(key.pos)),
            due(gl(*old(self)), vv(key.pos), *event, hs(*old(active_lines)), bm(*old(site_events))), %s,
            reports(gl(*old(self)), bm(*old(result)), old(self).ignore_end_point_intersections), !bm(*old(result)).dom().contains(vv(key.pos))""" % act("old(active_lines)"),
         ens=fixed + """, inside(final(self).vertices@.len() as int, final(self).lines@),
            final(self).sweepline_pos == key.pos, gl(*final(self)) == gl(*old(self)),
            reports(gl(*old(self)), bm(*final(result)), old(self).ignore_end_point_intersections), named(final(self).vertices@, bm(*final(result))),
            forall|p: V| #[trigger] bm(*final(result)).dom().contains(p) ==> p == vv(key.pos) || bm(*old(result)).dom().contains(p),
            rmore(bm(*old(result)), vv(key.pos), *event, bm(*final(result))),
            r is Ok ==> whole(gl(*old(self)), bm(*final(site_events)), vv(key.pos), false, hs(*final(active_lines))),
            r is Ok ==> queue(gl(*final(self)), bm(*final(site_events)), vv(key.pos), false) && named(final(self).vertices@, bm(*final(site_events))), r is Ok ==> %s""" % act("final(active_lines)"),
         loops=handle_loops("gl(*self)", act, keep, n),
         hints=[("entry", "broadcast use lemma_longer; broadcast use lemma_named;")] + handle_hints("gl(*self)") + [(("before_loop", 1), """proof {
            let f__ = bm(*result); let ls__ = gl(*self);
            lemma_count(ls__, vv(key.pos), *event);
            lemma_rmore(r0__, vv(key.pos), *event, f__);
            if f__ != r0__ { lemma_report(ls__, vv(key.pos), *event, self.ignore_end_point_intersections, r0__, f__); }
        }""")])
    L = "gl(self)"
    s.fn(RX, D, "compute", sig=lambda gen, params, rt, wh: (gen, params, "Result<(Vec<T>, Vec<(usize, Vec<usize>)>), LinestringError>", wh),
         rules=[r_ok_or_else, sub_rule("item_list", r"result\.into_iter\(\)\.map\(\|x\| \(x\.0\.index\.unwrap\(\), x\.1\)\)",
                                       "{ let list__ = result.into_vec_(); let mut out__: Vec<(usize, Vec<usize>)> = Vec::new(); for x in list__ { out__.push((x.0.index.unwrap(), x.1)); } out__ }"),
                sub_rule("first", r"site_events\.iter\(\)\.next\(\)", "site_events.first_()"), TEXT],
         req="wf(self)",
         ens="""r is Ok ==> longer(self.vertices@, (r->Ok_0).0@),
            r is Ok ==> forall|i: int| 0 <= i < (r->Ok_0).1@.len() ==> (#[trigger] (r->Ok_0).1@[i]).0 < (r->Ok_0).0@.len() && genuine(gl(self), vv((r->Ok_0).0@[(r->Ok_0).1@[i].0 as int]), (r->Ok_0).1@[i].1@, self.ignore_end_point_intersections),
            r is Ok && self.stop_at_first_intersection ==> (r->Ok_0).1@.len() <= 1,
            r is Ok && gp(sgs(gl(self))) && some_cross(gl(self)) ==> (r->Ok_0).1@.len() > 0,
            r is Ok && gp(sgs(gl(self))) && !self.stop_at_first_intersection ==> entries(gl(self), (r->Ok_0).0@, (r->Ok_0).1@),
            r is Ok ==> forall|i: int, j: int| 0 <= i < j < (r->Ok_0).1@.len() ==> klt(vv((r->Ok_0).0@[(#[trigger] (r->Ok_0).1@[i]).0 as int]), vv((r->Ok_0).0@[(#[trigger] (r->Ok_0).1@[j]).0 as int]))""",
         loops=[("loop", """invariant_except_break remain(gl(self), left__, vv(me__.sweepline_pos), all__), whole(gl(self), bm(site_events), vv(me__.sweepline_pos), all__, hs(active_lines)), rfound(gl(self), vv(me__.sweepline_pos), all__, bm(result)), all_proper(%s), queue(%s, bm(site_events), vv(me__.sweepline_pos), all__), %s, named(me__.vertices@, bm(site_events)),
                me__.stop_at_first_intersection ==> bm(result).dom() =~= Set::<V>::empty(),
                forall|p: V| #[trigger] bm(result).dom().contains(p) ==> !all__ && !klt(vv(me__.sweepline_pos), p),
            invariant longer(self.vertices@, me__.vertices@), inside(me__.vertices@.len() as int, me__.lines@), gl(me__) == %s, named(me__.vertices@, bm(result)),
                me__.lines == self.lines, me__.ignore_end_point_intersections == self.ignore_end_point_intersections, me__.stop_at_first_intersection == self.stop_at_first_intersection,
                reports(%s, bm(result), self.ignore_end_point_intersections),
            ensures (self.stop_at_first_intersection && !(bm(result).dom() =~= Set::<V>::empty())) || complete(gl(self), bm(result)),
                self.stop_at_first_intersection ==> forall|p: V, q: V| #[trigger] bm(result).dom().contains(p) && #[trigger] bm(result).dom().contains(q) ==> p == q,
            decreases left__.len()""" % (L, L, "forall|x: usize| #[trigger] hs(active_lines).contains(x) ==> x < self.lines@.len()", L, L)),
                ("for", """invariant it1.seq() == list__@, out__@.len() == it1.index@, forall|i: int| 0 <= i < list__@.len() ==> names(me__.vertices@, (#[trigger] list__@[i]).0, list__@[i].0.kp()),
                    forall|i: int| 0 <= i < out__@.len() ==> (#[trigger] out__@[i]).0 == list__@[i].0.index->0 && out__@[i].1 == list__@[i].1""")],
         hints=[(("before_loop", 0), "let ghost mut all__ = true; let ghost mut left__ = Set::<V>::empty(); proof { left__ = lemma_spots(gl(self)); lemma_whole0(gl(self), bm(site_events), vv(self.sweepline_pos)); lemma_found0(sgs(gl(self)), vv(self.sweepline_pos), rset(bm(result))); } assert(self.vertices@.subrange(0, self.vertices@.len() as int) =~= self.vertices@);"),
                (("body_start", 0), "let ghost q0__ = bm(site_events); let ghost v0__ = me__.vertices@; let ghost (at0__, all0__, r0__, act0__) = (vv(me__.sweepline_pos), all__, bm(result), hs(active_lines));"),
                (("before", "me__ . sweepline_pos ="), "proof { lemma_complete(gl(self), bm(site_events), at0__, all0__, act0__, bm(result)); }"),
                (("after", "me__ . handle_event ( ... ) ? ;"), "proof { lemma_rfound(gl(self), q0__, at0__, all0__, vv(key.pos), event, act0__, q1__, r0__, bm(result)); }"),
                (("before", "me__ . handle_event"), "proof { lemma_front(gl(self), q0__, vv(me__.sweepline_pos), all__, vv(key.pos)); lemma_remain(gl(self), left__, q0__, at0__, all0__, vv(key.pos)); left__ = left__.remove(vv(key.pos)); all__ = false; } let ghost q1__ = bm(site_events); assert(due_at(gl(self), q0__, at0__, all0__, vv(key.pos), event, act0__, q1__));"),
                (("after_loop", 1), """proof {
                if gp(sgs(gl(self))) {
                    if complete(gl(self), bm(result)) {
                        assert forall|i: int, j: int, q: V| #[trigger] xing(sgs(gl(self)), i, j, q) implies exists|n: int| 0 <= n < out__@.len() && #[trigger] entry(vv(me__.vertices@[out__@[n].0 as int]), out__@[n].1@, i, j, q) by {
                            assert(had(bm(result), q, i as usize) && had(bm(result), q, j as usize));
                            let n = choose|n: int| 0 <= n < list__@.len() && (#[trigger] list__@[n]).0.kp() == q;
                            assert(bm(result)[q] == list__@[n]);
                            assert(names(me__.vertices@, list__@[n].0, list__@[n].0.kp()));
                            assert(entry(vv(me__.vertices@[out__@[n].0 as int]), out__@[n].1@, i, j, q));
                        }
                        assert(entries(gl(self), me__.vertices@, out__@));
                        if some_cross(gl(self)) { let (i, j, q) = choose|i: int, j: int, q: V| xing(sgs(gl(self)), i, j, q); assert(xing(sgs(gl(self)), i, j, q)); }
                    } else {
                        let p = choose|p: V| bm(result).dom().contains(p);
                        assert(bm(result).dom().contains(p));
                    }
                }
            }"""),
                (("after", "let list__ = result . into_vec_ ( ) ;"), "assert(self.stop_at_first_intersection && list__@.len() > 1 ==> klt(list__@[0].0.kp(), list__@[1].0.kp()));")])


def spec(repo):
    s = Spec("L05_x", repo)
    parts(s)
    return s
